package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P22: schema changes, their version and their description.

// rangeSite names a loop over a map.
func rangeSite(x *ssa.Next) string { return shortName(x.Parent().String()) + "." + x.Name() }

// elemKey finds the map element a value was taken from: (map, key).
func elemKey(st *State, v *Term) (mp, k *Term) {
	for l, x := range st.heap {
		if x == v && l.op == "mapel" {
			if mp == nil || l.id < mk("mapel", "", mp, k).id {
				mp, k = l.args[0], l.args[1]
			}
		}
	}
	return
}

func (m *ddlMon) hooks22(r *Rule) {
	r.Ranged = func(e *Eng, st *State, x *ssa.Next, mp, ok, k *Term) {
		if mt, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); !ok || !isModelType(mt.Elem(), "CollectionInfo") || st.g("x.txn") == nil {
			return
		}
		g := "it:" + rangeSite(x)
		cr, id := tTrue, tTrue
		if p := st.g(g); p != nil && p.args[0] == mp {
			if v, known := st.evalBool(p.args[1]); known && v {
				// the element of the step before
				cr, id = p.args[3], p.args[4]
				if st.g("f.cr") != p.args[2] {
					cr = tFalse
				}
				if st.g("f.id") != p.args[2] {
					id = tFalse
				}
			}
		}
		st.setG(g, mk("tuple", "", mp, ok, k, cr, id))
	}
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
		if st.g("x.txn") == nil || !isInt64(et) || len(elems) != 1 {
			return
		}
		res := st.g("f.idres")
		if res == nil && !isEmptyList(st, old) || res != nil && res != old {
			return
		}
		for _, g := range sortedGhost(st) {
			if !strings.HasPrefix(g, "it:") {
				continue
			}
			p := st.g(g)
			v := st.heap[mk("mapel", "", p.args[0], p.args[2])]
			if v == nil || !isModelType(v.typ, "CollectionInfo") || m.get(st, v, m.coll, "ID") != elems[0] {
				continue
			}
			st.setG("f.id", p.args[2])
			st.setG("f.idres", mkApp("append", old, elems[0]))
			return
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		cat := st.g("x.cat")
		if cat == nil {
			return
		}
		for _, wr := range cat.args {
			x := written(wr)
			if x == nil {
				continue
			}
			if chainIn(st, loc, x) {
				addTo(st, "x.dirty", x)
			}
		}
	}
}

func isEmptyList(st *State, t *Term) bool {
	if t.op == "nil" || t.op == "empty" || tLen(t) == mkInt(0) {
		return true
	}
	return t.op == "slice" && t.args[1] == t.args[2]
}

// written is the record a catalog operation stores.
func written(wr *Term) *Term {
	switch wr.aux {
	case "CreateDatabase", "UpdateDatabase":
		return wr.args[0]
	case "CreateCollection", "UpdateCollection":
		return wr.args[1]
	}
	return nil
}

// chainIn: the place is part of the record x, as far as memory shows.
func chainIn(st *State, loc, x *Term) bool {
	seen := map[*Term]bool{}
	var up func(t *Term, d int) bool
	up = func(t *Term, d int) bool {
		for i := 0; t != nil && i < 60; i++ {
			if t == x {
				return true
			}
			switch t.op {
			case "field", "idx", "mapel", "mapok", "slice", "iface":
				t = t.args[0]
				continue
			}
			break
		}
		if t == nil || seen[t] || d > 12 {
			return false
		}
		seen[t] = true
		for l, v := range st.heap {
			if v == t && (l.op == "field" || l.op == "idx" || l.op == "mapel") && up(l, d+1) {
				return true
			}
		}
		return false
	}
	return up(loc, 0)
}

// wrote: a catalog operation has succeeded.
func (m *ddlMon) wrote(st *State, ev *Event, op string) {
	wr := mk("gw", op, ev.Args[1:]...)
	addTo(st, "x.cat", wr)
	if m.c.prop != "P22" {
		return
	}
	if x := written(wr); x != nil && st.g("x.dirty") != nil {
		var rest []*Term
		for _, d := range st.g("x.dirty").args {
			if d != x {
				rest = append(rest, d)
			}
		}
		if len(rest) == 0 {
			st.setG("x.dirty", nil)
		} else {
			st.setG("x.dirty", mk("gset", "", rest...))
		}
	}
	switch op {
	case "CreateCollection":
		if _, k := elemKey(st, ev.Args[2]); k != nil {
			st.setG("f.cr", k)
		}
	case "UpdateDatabase":
		// which collections' records it carries
		for _, o := range st.g("x.cat").args {
			if o.aux != "UpdateCollection" {
				continue
			}
			ci := o.args[1]
			cs := m.get(st, ev.Args[1], m.db, "Collections")
			if st.heap[mk("mapel", "", cs, m.get(st, ci, m.coll, "Name"))] == ci && same(st, o.args[0], m.get(st, ev.Args[1], m.db, "ID")) == 1 {
				addTo(st, "x.dup", ci)
			}
		}
	}
}

// covered: every element of the map has been through a loop that did it.
func (m *ddlMon) covered(st *State, mp *Term, which int) bool {
	for _, g := range sortedGhost(st) {
		if !strings.HasPrefix(g, "it:") {
			continue
		}
		p := st.g(g)
		if p.args[0] != mp || p.args[which] != tTrue {
			continue
		}
		if v, known := st.evalBool(p.args[1]); known && !v {
			return true
		}
	}
	return false
}

func (m *ddlMon) diffSet(st *State, d *Term, ins ssa.Instruction) {
	bad := func(detail, msg string) { m.bad("P22", "description", detail, ins, msg) }
	if m.c.prop != "P22" {
		return
	}
	v := st.g("x.ver")
	if v == nil || same(st, m.get(st, d, m.diff, "Version"), v) != 1 {
		bad("version", "stores a description under another version than the one just generated")
	}
	j := st.g("x.job")
	if j == nil {
		bad("job", "stores a description without a job")
		return
	}
	if same(st, m.get(st, d, m.diff, "Type"), m.jobGet(st, j, "Type")) != 1 {
		bad("type", "the description's kind is not that of the job")
	}
	arg, jarg := m.get(st, d, m.diff, "Arg"), m.jobGet(st, j, "Arg")
	if arg != jarg {
		bad("arg", "the description's subject is not that of the job")
	}
	if !isEmptyList(st, m.get(st, d, m.diff, "RawArg")) {
		bad("raw", "the description carries an encoded subject of its own")
	}
	st.setG("x.desc", mk("tuple", "", m.get(st, d, m.diff, "Type"), unIface(arg), m.get(st, d, m.diff, "CollectionIDs")))
	st.setG("x.diff", tTrue)
}

// argPath finds how a value is reached from a job's argument.
func (m *ddlMon) argPath(st *State, v, root *Term) string {
	type node struct {
		t    *Term
		path string
	}
	work := []node{{v, ""}}
	seen := map[*Term]bool{}
	for len(work) > 0 && len(seen) < 50 {
		n := work[0]
		work = work[1:]
		if seen[n.t] {
			continue
		}
		seen[n.t] = true
		var locs []*Term
		for l, x := range st.heap {
			if x == n.t && l.op == "field" {
				locs = append(locs, l)
			}
		}
		sort.Slice(locs, func(i, j int) bool { return locs[i].id < locs[j].id })
		for _, l := range locs {
			p := n.path
			for l.op == "field" {
				p = "." + l.aux + p
				l = l.args[0]
			}
			if l == root {
				return p
			}
			work = append(work, node{l, p})
		}
	}
	return ""
}

// rewritten: the job's record is stored; which parts of its argument does it
// keep up to date?
func (m *ddlMon) rewritten(st *State, j *Term, ins ssa.Instruction) {
	if m.c.prop != "P22" || j != st.g("x.job") {
		return
	}
	if isEmptyList(st, m.jobGet(st, j, "RawArg")) {
		st.setG("x.arg", unIface(m.jobGet(st, j, "Arg")))
	}
}

func (m *ddlMon) atCommit22(st *State, ins ssa.Instruction) {
	if m.c.prop != "P22" {
		return
	}
	m.obl("P22", "commit", m.name+" "+m.e.pos(ins))
	bad := func(rule, detail, msg string) { m.bad("P22", rule, detail, ins, msg) }
	cat, ver, desc := st.g("x.cat"), st.g("x.ver"), st.g("x.desc")
	if ver != nil && st.g("x.diff") == nil {
		bad("commit", "undescribed", "commits a new schema version without its description")
	}
	if cat == nil {
		if desc != nil {
			bad("commit", "described-nothing", "commits the description of a schema change it has not made")
		}
		return
	}
	if ver == nil {
		bad("commit", "unversioned", "commits a change of the schema without a new version")
	}
	if desc == nil {
		if ver == nil {
			bad("commit", "undescribed", "commits a change of the schema without its description")
		}
		return
	}
	if st.g("x.dirty") != nil {
		bad("commit", "stale", "changes a record of the schema after it was stored")
	}
	typ, arg, ids := desc.args[0], desc.args[1], desc.args[2]
	creates := m.is(st, typ, "ActionCreateSchema")
	for _, wr := range cat.args {
		switch wr.aux {
		case "CreateDatabase":
			x := wr.args[0]
			m.obl("P22", "create", m.name)
			if creates != 1 || arg != x {
				bad("change", "create-description", "a database is created and the description says something else")
				continue
			}
			cs := m.get(st, x, m.db, "Collections")
			if !m.covered(st, cs, 3) {
				bad("change", "create-collections", "a database is created without a record for each of its collections")
			}
			if !m.covered(st, cs, 4) {
				bad("change", "create-ids", "the description does not list every collection of the new database")
			} else if res := st.g("f.idres"); res != nil && ids != res || res == nil && !isEmptyList(st, ids) {
				bad("change", "create-ids", "the description lists other collections than those of the new database")
			}
		case "CreateCollection":
			// with its database
			ok := false
			mp, _ := elemKey(st, wr.args[1])
			for _, o := range cat.args {
				if o.aux == "CreateDatabase" && mp != nil && mp == m.get(st, o.args[0], m.db, "Collections") && same(st, wr.args[0], m.get(st, o.args[0], m.db, "ID")) == 1 {
					ok = true
				}
			}
			if !ok {
				bad("change", "collection-alone", "a collection is created that is not part of the database being created")
			}
		case "UpdateCollection":
			m.obl("P22", "change", m.name)
			ci := wr.args[1]
			if creates != 0 {
				bad("change", "update-description", "an existing collection changes and the description may say that a database was created")
			}
			if !has2(st, "x.dup", ci) {
				bad("change", "update-database", "a collection's record changes and the record of its database does not follow")
			}
			m.listed(st, ci, ids, arg, ins)
		case "UpdateDatabase", "DropDatabase", "DropCollection":
			if creates != 0 {
				bad("change", "update-description", "an existing database changes and the description may say that one was created")
			}
		}
	}
}

// listed: the description lists the changed collection.
func (m *ddlMon) listed(st *State, ci, ids, arg *Term, ins ssa.Instruction) {
	bad := func(detail, msg string) { m.bad("P22", "change", detail, ins, msg) }
	el, ok := m.e.sliceElems(st, ids, types.Typ[types.Int64])
	id := m.get(st, ci, m.coll, "ID")
	hit := false
	for _, x := range el {
		hit = hit || same(st, x, id) == 1
	}
	initial, known := st.evalBool(tEq(st.g("x.sc0"), mkInt(0)))
	if known && initial {
		if !ok || !hit {
			bad("update-ids", "the description does not list the changed collection")
		}
		kept := map[string]bool{}
		if st.g("x.arg") == arg {
			if p := m.argPath(st, id, arg); p != "" {
				kept[p] = true
			}
		}
		if m.kept["*"] {
			for p := range m.kept {
				if p != "*" && !kept[p] {
					delete(m.kept, p)
				}
			}
		} else {
			m.kept["*"] = true
			for p := range kept {
				m.kept[p] = true
			}
		}
		return
	}
	if hit {
		return
	}
	for _, x := range el {
		if p := m.argPath(st, x, arg); p != "" {
			m.used[p] = true
			return
		}
	}
	bad("update-ids", "the description does not list the changed collection")
}

func init() {
	register("P22", func(c *Ctx) {
		c.rule("writing: on every path of every schema worker, one transaction at a time, a committed change of a schema record comes with exactly one new version generated in it and one description stored under that version, of the job's kind and subject, listing the changed collections (all of them for a new database, each with a record of its own), with the database's record following; nothing described, versioned or changed after storing otherwise, and no commit after a failed step; the version counter is only ever advanced by one and read back, and a description is stored and read under its version. reading: a reload applies descriptions of kinds that can be applied, read one after the other from the snapshot's version up to the one stored, in one transaction, to a copy of the current snapshot, or builds a snapshot of all stored databases and that version; applying a description puts its database under its name, its version and its list of collections in place; success means up to date")
		runApply(c)
		runVersion(c)
		runDDL(c)
		c.need("version", 1)
		c.need("description", 1)
		c.need("catalog write", 4)
		c.need("commit", 2)
		c.need("create", 1)
		c.need("change", 1)
		c.need("apply", 1)
		c.need("kinds", 1)
		c.need("build", 1)
		c.need("reload", 1)
		c.need("apply call", 1)
		c.need("publish", 1)
		c.need("stored version", 2)
		c.need("stored description", 2)
	})
}
