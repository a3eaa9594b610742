package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P26: index definitions, their name records and the map kept in memory.

// idxOwner is a type that keeps a map from index name to definition.
type idxOwner struct {
	typ   *types.Named
	field int          // the map
	def   *types.Named // the definition
	name  int          // the name within the definition

	// how the stored records are addressed, derived from creation
	nameKey, defKey *Term
	cols            bool // an index also has a record under its columns
}

var (
	phName = mk("obj", "NAME")
	phID   = mk("obj", "ID")
)

func idxOwners(w *World) []*idxOwner {
	var res []*idxOwner
	seen := map[*types.Named]bool{}
	for _, f := range w.funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		n := recvNamed(f)
		if n == nil || seen[n] || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
			continue
		}
		seen[n] = true
		s, ok := n.Underlying().(*types.Struct)
		if !ok || !holdsStore(n, 0) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			m, ok := s.Field(i).Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			d, ok := types.Unalias(m.Elem()).(*types.Named)
			if !ok {
				continue
			}
			ds, ok := d.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			nm, lists := -1, 0
			for k := 0; k < ds.NumFields(); k++ {
				if ds.Field(k).Name() == "Name" && kindOf(ds.Field(k).Type()) != "bytes" {
					nm = k
				}
				if _, ok := ds.Field(k).Type().Underlying().(*types.Slice); ok {
					lists++
				}
			}
			if nm >= 0 && lists > 0 {
				res = append(res, &idxOwner{typ: n, field: i, def: d, name: nm})
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].typ.String() < res[j].typ.String() })
	return res
}

type idxMon struct {
	c    *Ctx
	w    *World
	o    *idxOwner
	fn   *ssa.Function
	name string
	e    *Eng
	recv *Term
	def  *Term // the definition given (creation)
	nm   *Term // the name the operation is about
	seq  map[*types.Named]bool
	cm   *cloneMon // follows copies of the definition given
}

func (m *idxMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.w.pos(m.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	m.c.fail("index records", m.name, detail, at, m.name+": "+msg)
}

func (o *idxOwner) fieldName(i int) string { return o.def.Underlying().(*types.Struct).Field(i).Name() }

// columnsFn: a function that turns the fields of a definition into a key.
func (o *idxOwner) columnsFn(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
		return false
	}
	if s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok || kindOf(s) != "bytes" {
		return false
	}
	ds := o.def.Underlying().(*types.Struct)
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		for k := 0; k < ds.NumFields(); k++ {
			if _, ok := ds.Field(k).Type().Underlying().(*types.Slice); ok && types.Identical(fn.Signature.Params().At(i).Type(), ds.Field(k).Type()) {
				return true
			}
		}
	}
	return false
}

// isCid: the id of the receiver (a number read from one of its fields).
func (m *idxMon) isCid(t *Term) bool {
	if t.op != "sym" || t.info == nil || t.info.kind != "load" || t.typ == nil || !isInt64(t.typ) {
		return false
	}
	p, _ := t.info.ptr.(*Term)
	return p != nil && p.op == "field" && p.args[0] == m.recv
}

// pattern replaces the receiver's id, the name and the index id in a key.
func (m *idxMon) pattern(key, nm, id *Term) *Term {
	sub := map[*Term]*Term{}
	walk(key, map[*Term]bool{}, func(t *Term) {
		if m.isCid(t) {
			sub[t] = phCID
		}
	})
	if nm != nil {
		sub[nm] = phName
	}
	if id != nil {
		sub[id] = phID
	}
	return substTerm(key, sub, map[*Term]*Term{})
}

func has(t, x *Term) bool { return mentions(t, func(y *Term) bool { return y == x }) }

// kind classifies a key: the name record, the definition, or the columns.
func (m *idxMon) kind(st *State, key *Term) string {
	if key.op == "app" && strings.HasPrefix(key.aux, "columns:") {
		return "columns"
	}
	id := st.g("i.id")
	if m.o.nameKey != nil && m.pattern(key, m.nm, nil) == m.o.nameKey {
		return "name"
	}
	if m.o.defKey != nil && id != nil && m.pattern(key, nil, id) == m.o.defKey {
		return "definition"
	}
	return ""
}

func (m *idxMon) rule() *Rule {
	r := &Rule{Codec: true, Numeric: true}
	r.Opaque = func(fn *ssa.Function) bool { return isSeqMethod(m.seq, fn) || m.o.columnsFn(fn) }
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static != nil && m.o.columnsFn(ev.Static) {
			var as []*Term
			for _, a := range ev.Args {
				if a.op != "nil" {
					as = append(as, a)
				}
			}
			t := mkApp("columns:"+ev.Name, as...)
			return []Out{{st: st, res: []*Term{t}}}, true
		}
		if cloneFn(ev.Static) && recvNamed(ev.Static) == m.o.def {
			// as analysed on its own
			v := ev.Args[0]
			if _, ok := ev.Static.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				v = e.load(st, v, m.o.def, ev.Instr)
			}
			return []Out{{st: st, res: []*Term{copyTerm(e, v, m.o.def)}}}, true
		}
		return nil, false
	}
	return r
}

// copyTerm: the value with copies of its lists.
func copyTerm(e *Eng, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, copyTerm(e, e.fieldOf(v, i, u.Field(i)), u.Field(i).Type()))
		}
		return mkTyped("struct", t, fs...)
	case *types.Slice:
		return mkApp("copyof", v)
	}
	return v
}

// lockCall: the call takes or releases the receiver's lock.
func (m *idxMon) lockCall(ev *Event) string {
	if !strings.HasPrefix(ev.Name, "(*sync.RWMutex).") && !strings.HasPrefix(ev.Name, "(*sync.Mutex).") || len(ev.Args) == 0 || baseOf(ev.Args[0]) != m.recv {
		return ""
	}
	return ev.Name[strings.LastIndex(ev.Name, ".")+1:]
}

// change follows the changes of the map: they mirror a committed change of the
// store and are made before anything else can come in between.
func (m *idxMon) change(r *Rule) {
	before, after := r.Before, r.After
	if m.cm != nil {
		r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
			if !m.cm.noteAppend(st, elems, et) {
				m.cm.lost(st)
			}
		}
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		switch m.lockCall(ev) {
		case "Unlock":
			if st.gs("i.done") != "" && st.gs("i.map") == "" {
				m.bad("gap", ev.Instr, "lets go of the lock between the commit and the change of the map: another change may come in between")
			}
			st.setGS("i.lock", "")
		}
		if ev.Op == "Commit" && st.gs("i.lock") == "" {
			m.bad("gap", ev.Instr, "commits without holding the lock of the map: another change may come in between")
		}
		before(e, st, ev)
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if m.lockCall(ev) == "Lock" {
			for _, o := range outs {
				o.st.setGS("i.lock", "y")
			}
			return outs
		}
		if ev.Op == "Commit" {
			var res []Out
			for _, o := range outs {
				for _, p := range forkErr(o) {
					if errOf(p).op == "nil" {
						p.st.setGS("i.done", "y")
					}
					res = append(res, p)
				}
			}
			return res
		}
		if after != nil {
			return after(e, st, ev, outs)
		}
		return outs
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if m.def != nil && loc.op == "idx" && has(loc.args[0], m.def) && isGiven(loc.args[0]) {
			m.bad("modifies", ins, "modifies the definition it was given")
		}
		if m.cm != nil && loc.op != "mapel" {
			if why := m.cm.note(st, loc, val); why != "" {
				m.cm.lost(st)
			}
		}
		if loc.op != "mapel" || loc.args[0] != m.mapOf(st) {
			return
		}
		if st.gs("i.done") == "" {
			m.bad("map-early", ins, "changes the map although the store was not changed")
		}
		if st.gs("i.lock") == "" {
			m.bad("gap", ins, "changes the map without holding its lock")
		}
		if st.gs("i.map") != "" {
			m.bad("map-twice", ins, "changes the map twice")
		}
		st.setGS("i.map", "y")
		m.mapChange(st, ins, loc.args[1], val)
	}
}

// isGiven: the slice is the one given, not a copy.
func isGiven(t *Term) bool {
	return !mentions(t, func(x *Term) bool { return x.op == "make" || x.op == "app" && strings.HasPrefix(x.aux, "copy") })
}

func (m *idxMon) mapOf(st *State) *Term {
	s := m.o.typ.Underlying().(*types.Struct)
	return m.e.load(st, fieldLoc(m.recv, m.o.field, s.Field(m.o.field).Name()), s.Field(m.o.field).Type(), nil)
}

func (m *idxMon) defField(v *Term, i int) *Term {
	return m.e.fieldOf(v, i, m.o.def.Underlying().(*types.Struct).Field(i))
}

// sameDef: the value carries the definition (or a copy of it).
func (m *idxMon) sameDef(st *State, v, def *Term, copies bool) bool {
	return m.sameVal(st, v, def, m.o.def, copies)
}

func (m *idxMon) sameVal(st *State, a, b *Term, t types.Type, copies bool) bool {
	if a == b {
		return true
	}
	if copies && m.cm != nil && m.cm.copied(st, a, b, t, true) {
		return true
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !m.sameVal(st, m.e.fieldOf(a, i, f), m.e.fieldOf(b, i, f), f.Type(), copies) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *idxMon) mapChange(st *State, ins ssa.Instruction, k, v *Term) {
	if m.def != nil {
		if v.op == "deleted" {
			m.bad("map", ins, "removes an index from the map although it creates one")
		} else if k != m.nm || !m.sameDef(st, v, m.def, true) {
			m.bad("map", ins, "puts something other than the new definition under its name into the map")
		}
		return
	}
	if v.op != "deleted" {
		m.bad("map", ins, "puts an index into the map although it removes one")
		return
	}
	if k != m.nm && k != st.g("i.defname") {
		m.bad("map", ins, "removes another index from the map")
	}
}

// absent: the record read is known to be missing.
func (m *idxMon) absent(st *State) bool {
	if st.gs("i.name") == "no" {
		return true
	}
	if t := st.g("i.namex"); t != nil {
		v, known := st.evalBool(t)
		return known && !v
	}
	if t := st.g("i.namev"); t != nil {
		v, known := st.evalBool(tEq(t, tNil))
		return known && v
	}
	return false
}

// lookup notes whether the name record was found.
func (m *idxMon) lookup(e *Eng, st *State, ev *Event, outs []Out) []Out {
	if ev.Op != "Get" && ev.Op != "Exists" {
		return outs
	}
	key := stripCopy(e.content(st, ev.Args[1]))
	if m.kind(st, key) != "name" {
		return outs
	}
	var res []Out
	for _, o := range outs {
		for _, p := range forkErr(o) {
			p.st.setG("i.txn", resBase(ev.Args[0]))
			p.st.setG("i.namex", nil)
			p.st.setG("i.namev", nil)
			p.st.setGS("i.name", "")
			if errOf(p).op == "nil" {
				if ev.Op == "Exists" {
					p.st.setG("i.namex", p.res[0])
				} else {
					p.st.setG("i.namev", p.res[0])
				}
				res = append(res, p)
				continue
			}
			if ev.Op == "Exists" {
				res = append(res, p)
				continue
			}
			is, ok, not, nok := errIs(p, notFound())
			if ok {
				is.st.setGS("i.name", "no")
				res = append(res, is)
			}
			if nok {
				res = append(res, not)
			}
		}
	}
	return res
}

// create analyses the creation of an index.
func (m *idxMon) create(di int, derive bool) {
	r := m.rule()
	r.Before = func(e *Eng, st *State, ev *Event) {
		if strings.HasPrefix(ev.Name, "sort.") && len(ev.Args) > 0 && has(ev.Args[0], m.def) && isGiven(unIface(ev.Args[0])) {
			m.bad("modifies", ev.Instr, "reorders the definition it was given")
		}
		if strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort") {
			m.cm.lost(st)
		}
		switch ev.Op {
		case "Set":
			key, val := stripCopy(e.content(st, ev.Args[1])), stripCopy(e.content(st, ev.Args[2]))
			if derive {
				m.derive(key, val)
				return
			}
			if id := seqResult(val, m.seq); id != nil && st.g("i.id") == nil {
				st.setG("i.id", id)
			} else if id := seqResult(key, m.seq); id != nil && st.g("i.id") == nil {
				st.setG("i.id", id)
			}
			k := m.kind(st, key)
			id := st.g("i.id")
			switch k {
			case "name":
				if id == nil || !has(val, id) {
					m.bad("name-record", ev.Instr, "stores something other than the index's id under its name")
				}
			case "definition":
				if d := marshalledTerm(val); d == nil || !m.isDef(st, d) {
					m.bad("definition", ev.Instr, "stores something other than the definition it was given under the index's id")
				}
			case "columns":
				if stripConv(val) != m.nm {
					m.bad("columns", ev.Instr, "stores something other than the index's name under its columns")
				}
			default:
				m.bad("foreign", ev.Instr, "stores "+key.String()+", which is no record of the index it creates")
			}
			if k != "" {
				if st.gs("i.set."+k) != "" {
					m.bad("twice", ev.Instr, "stores the "+k+" record twice")
				}
				st.setGS("i.set."+k, "y")
			}
		case "Delete":
			if !derive {
				m.bad("deletes", ev.Instr, "deletes a record although it creates an index")
			}
		case "Commit":
			if derive {
				return
			}
			m.together(st, "i.set.", ev.Instr, "commits without having stored the ")
			if !m.absent(st) || st.g("i.txn") != resBase(ev.Args[0]) {
				m.bad("taken", ev.Instr, "commits without having found that no index has the name")
			}
		}
	}
	r.After = m.lookup
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	args := e.paramSyms(st, m.fn)
	m.recv, m.def = args[0], args[di]
	m.nm = m.defField(m.def, m.o.name)
	m.cm = &cloneMon{c: m.c, w: m.w, fn: m.fn, name: m.name, e: e, recv: m.def, typ: m.o.def, src: map[string]*Term{}, styp: map[string]types.Type{}}
	m.cm.collect(st, m.def, nil, m.o.def, "")
	st.setG("i.recv", m.recv)
	st.setG("i.def", m.def)
	if !derive {
		m.change(r)
		m.c.obl("index records", m.name+" creates")
	}
	outs := m.c.run(e, st, m.fn, args)
	if derive {
		return
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		for _, p := range forkErr(o) {
			ok := errOf(p).op == "nil"
			m.outcome(p.st, ok)
			if ok && len(p.res) > 1 && isInt64(p.res[0].typOr()) && p.st.g("i.id") != nil && !sameInts(e, p.st, p.res[:1], p.st.g("i.id")) {
				m.bad("result", nil, "returns something other than the id of the index it created")
			}
		}
	}
}

// together: all records of an index are dealt with.
func (m *idxMon) together(st *State, g string, ins ssa.Instruction, msg string) {
	for _, k := range []string{"name", "definition", "columns"} {
		if k == "columns" && !m.o.cols {
			continue
		}
		if st.gs(g+k) == "" {
			m.bad("partial-"+k, ins, msg+k+" record")
		}
	}
}

func (m *idxMon) outcome(st *State, ok bool) {
	done, changed := st.gs("i.done") != "", st.gs("i.map") != ""
	switch {
	case !ok && done:
		m.bad("error-after", nil, "reports an error although the change was committed")
	case done && !changed:
		m.bad("map-missed", nil, "changes the store but not the map")
	case ok && m.def != nil && !done:
		m.bad("not-committed", nil, "reports success although nothing was committed")
	}
}

func (t *Term) typOr() types.Type {
	if t.typ != nil {
		return t.typ
	}
	if isIntish(t) {
		return types.Typ[types.Int64]
	}
	return types.Typ[types.Invalid]
}

func (m *idxMon) isDef(st *State, d *Term) bool { return m.sameDef(st, d, m.def, true) }

// derive learns how the records are addressed.
func (m *idxMon) derive(key, val *Term) {
	id := seqResult(val, m.seq)
	if key.op == "app" && strings.HasPrefix(key.aux, "columns:") {
		m.o.cols = true
		return
	}
	if id != nil && has(key, m.nm) && !has(key, id) {
		m.o.nameKey = m.pattern(key, m.nm, nil)
		return
	}
	if kid := seqResult(key, m.seq); kid != nil && marshalledTerm(val) != nil {
		m.o.defKey = m.pattern(key, nil, kid)
	}
}

// seqResult finds the number taken from a sequence in a term.
func seqResult(t *Term, seq map[*types.Named]bool) *Term {
	var r *Term
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.op == "sym" && x.info != nil && x.info.ev != nil && x.info.res == 0 && isSeqMethod(seq, x.info.ev.Static) {
			r = x
		}
	})
	return r
}

// marshalledTerm: what the bytes encode.
func marshalledTerm(v *Term) *Term {
	if v.op != "sym" || v.info == nil || v.info.ev == nil || v.info.res != 0 || !strings.HasSuffix(v.info.ev.Name, "bson.Marshal") && !strings.HasSuffix(v.info.ev.Name, "json.Marshal") {
		return nil
	}
	return unIface(v.info.ev.Args[0])
}

// unmarshalCall: the bytes and the object they are decoded into.
func unmarshalCall(e *Eng, st *State, ev *Event) (from, into *Term) {
	if !strings.HasSuffix(ev.Name, "bson.Unmarshal") && !strings.HasSuffix(ev.Name, "json.Unmarshal") {
		return nil, nil
	}
	return stripCopy(e.content(st, ev.Args[0])), unIface(ev.Args[1])
}

func getKey(e *Eng, st *State, v *Term) *Term {
	if v.op != "sym" || v.info == nil || v.info.ev == nil || v.info.ev.Op != "Get" || v.info.res != 0 {
		return nil
	}
	return stripCopy(e.content(st, v.info.ev.Args[1]))
}

// drop analyses the removal of an index.
func (m *idxMon) drop(ni int) {
	r := m.rule()
	r.Before = func(e *Eng, st *State, ev *Event) {
		switch ev.Op {
		case "Set":
			m.bad("stores", ev.Instr, "stores a record although it removes an index")
		case "Delete":
			key := stripCopy(e.content(st, ev.Args[1]))
			k := m.kind(st, key)
			if k == "" {
				m.bad("foreign", ev.Instr, "deletes "+key.String()+", which is no record of the index it removes")
				return
			}
			if k == "columns" && !m.ownColumns(st, key) {
				m.bad("columns", ev.Instr, "deletes the record of columns other than those of the stored definition")
			}
			st.setGS("i.del."+k, "y")
		case "Commit":
			m.together(st, "i.del.", ev.Instr, "commits without having deleted the ")
		}
		if from, into := unmarshalCall(e, st, ev); from != nil {
			st.setG("i.obj", nil)
			if k := getKey(e, st, from); k != nil && m.kind(st, k) == "definition" {
				st.setG("i.obj", into)
			}
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		outs = m.lookup(e, st, ev, outs)
		if ev.Op == "Get" {
			for _, o := range outs {
				if v := o.st.g("i.namev"); v != nil && errOf(o).op == "nil" && v == o.res[0] {
					o.st.setG("i.id", mkApp("dec:varint", v))
				}
			}
		}
		if from, _ := unmarshalCall(e, st, ev); from != nil {
			for _, o := range outs {
				if obj := o.st.g("i.obj"); obj != nil {
					ds := m.o.def.Underlying().(*types.Struct)
					for i := 0; i < ds.NumFields(); i++ {
						v := e.load(o.st, fieldLoc(obj, i, ds.Field(i).Name()), ds.Field(i).Type(), nil)
						if i == m.o.name {
							o.st.setG("i.defname", v)
						}
						if _, ok := ds.Field(i).Type().Underlying().(*types.Slice); ok {
							o.st.setG("i.fields", v)
						}
					}
				}
			}
		}
		return outs
	}
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	args := e.paramSyms(st, m.fn)
	m.recv, m.nm = args[0], args[ni]
	st.setG("i.recv", m.recv)
	st.setG("i.nm", m.nm)
	m.change(r)
	m.c.obl("index records", m.name+" removes")
	for _, o := range m.c.run(e, st, m.fn, args) {
		if o.panic {
			continue
		}
		for _, p := range forkErr(o) {
			ok := errOf(p).op == "nil"
			m.outcome(p.st, ok)
			if ok && p.st.gs("i.done") == "" && !m.absent(p.st) {
				m.bad("not-removed", nil, "succeeds although the index it was asked to remove is still there")
			}
			if !ok || len(p.res) < 2 {
				continue
			}
			if b, known := p.st.evalBool(p.res[0]); !known || b != (p.st.gs("i.done") != "") {
				m.bad("result", nil, "does not tell whether the index existed")
			}
		}
	}
}

func (m *idxMon) ownColumns(st *State, key *Term) bool {
	f := st.g("i.fields")
	if f == nil {
		return false
	}
	return has(key, f)
}

// reload analyses how the map is filled from the store.
func (m *idxMon) reload() {
	r := m.rule()
	num := func(st *State, g string) *Term { return orZero(st.g(g)) }
	step := func(st *State, g string) { st.setG(g, tAdd(num(st, g), mkInt(1))) }
	prefix := patPrefixOf(m.o.nameKey)
	isScan := func(e *Eng, st *State, ev *Event) bool {
		opt := ev.Args[1]
		s, _ := ev.Sig.Params().At(0).Type().Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Prefix" {
				k := stripCopy(e.content(st, e.fieldOf(opt, i, s.Field(i))))
				if k.op != "cat" || prefix == nil || prefix.op != "cat" || len(k.args) != len(prefix.args) {
					return false
				}
				for j := range k.args {
					if k.args[j] != prefix.args[j] && !has(prefix.args[j], phCID) {
						return false
					}
				}
				st.setG("i.prefix", k)
				return true
			}
		}
		return false
	}
	scans := false
	r.ScanCall = func(e *Eng, st *State, ev *Event, as []*Term) {
		if !isScan(e, st, ev) {
			return
		}
		scans = true
		step(st, "i.n")
		st.setG("i.v", as[1])
		st.setG("i.obj", nil)
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		from, into := unmarshalCall(e, st, ev)
		if from == nil || st.g("i.v") == nil {
			return
		}
		st.setG("i.obj", nil)
		k := getKey(e, st, from)
		if k == nil {
			return
		}
		v := stripCopy(e.content(st, st.g("i.v")))
		if substTerm(m.o.defKey, map[*Term]*Term{phID: mkApp("dec:varint", v)}, map[*Term]*Term{}) == k {
			st.setG("i.obj", into)
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Op != "Scan" {
			return outs
		}
		for _, o := range outs {
			if st.g("i.prefix") == nil && o.st.g("i.prefix") == nil && !isScan(e, o.st, ev) {
				continue
			}
			if o.why == "stop" {
				o.st.setGS("i.scan", "stop")
			} else if errOf(o).op == "nil" || o.why == "end" {
				o.st.setGS("i.scan", "end")
			}
		}
		var res []Out
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op != "nil" {
					p.st.setGS("i.scan", "stop")
				}
				res = append(res, p)
			}
		}
		return res
	}
	put := func(st *State, ins ssa.Instruction, v *Term, g string) {
		obj := st.g("i.obj")
		ok := obj != nil
		if ok {
			ok = m.sameDef(st, v, m.e.load(st, obj, m.o.def, nil), false)
		}
		if !ok {
			m.bad("reload-other", ins, "takes in something other than the definition stored under the id found")
		}
		step(st, g)
	}
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
		if !types.Identical(et, m.o.def) || st.g("i.v") == nil {
			return
		}
		for _, x := range elems {
			put(st, ins, x, "i.a")
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		x, ok := ins.(*ssa.MapUpdate)
		if !ok || !types.Identical(x.Map.Type().Underlying().(*types.Map).Elem(), m.o.def) {
			return
		}
		if loc.args[1] != m.defField(val, m.o.name) {
			m.bad("reload-name", ins, "files a definition under another name than its own")
		}
		if st.gs("i.scan") == "" {
			put(st, ins, val, "i.m")
			return
		}
		// from the list collected before: in order
		if p := elemPtr(m.defField(val, m.o.name)); p == nil || !eqInt(st, p.args[1], num(st, "i.m")) {
			m.bad("reload-order", ins, "does not file the collected definitions one after the other")
		} else {
			st.setG("i.list", tLen(p.args[0]))
		}
		step(st, "i.m")
	}
	e := newEng(m.w, r)
	m.e = e
	for _, o := range m.c.run(e, nil, m.fn, nil) {
		if o.panic {
			continue
		}
		for _, p := range forkErr(o) {
			if errOf(p).op != "nil" {
				continue
			}
			st := p.st
			if st.gs("i.scan") != "end" {
				m.bad("reload-cut", nil, "succeeds although not every stored index was read")
				continue
			}
			n := num(st, "i.n")
			if st.g("i.a") != nil && !eqInt(st, n, num(st, "i.a")) || !le(st, n, num(st, "i.m")) && !(st.g("i.list") != nil && le(st, st.g("i.list"), num(st, "i.m"))) && n != mkInt(0) {
				m.bad("reload-missed", nil, "succeeds without having taken in every stored index")
			}
		}
	}
	if scans {
		m.c.obl("index records", m.name+" reloads")
	}
}

// list analyses an operation that returns the definitions: all of them, as
// copies.
func (m *idxMon) list(ri int) {
	m.c.obl("index records", m.name+" lists")
	r := m.rule()
	r.Load = func(e *Eng, st *State, ins ssa.Instruction, loc *Term) {
		if _, ok := ins.(*ssa.Next); ok && loc.op == "mapall" && loc.args[0] == m.mapOf(st) {
			incG(st, "i.x")
		}
	}
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
		if !types.Identical(et, m.o.def) {
			return
		}
		for _, x := range elems {
			m.handed(st, ins, x)
			incG(st, "i.n")
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if loc.op == "idx" && loc.args[0].op != "obj" && val.typ != nil && types.Identical(val.typ, m.o.def) {
			m.handed(st, ins, val)
			incG(st, "i.n")
		}
	}
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	args := e.paramSyms(st, m.fn)
	m.recv = args[0]
	st.setG("i.recv", m.recv)
	for _, o := range m.c.run(e, st, m.fn, args) {
		if o.panic {
			continue
		}
		x, n := orZero(o.st.g("i.x")), orZero(o.st.g("i.n"))
		if !eqInt(o.st, tAdd(n, mkInt(1)), x) && !o.st.isNil(o.res[ri]) {
			m.bad("list", nil, "does not return every index")
		}
	}
}

// handed: the definition shares no list with the map.
func (m *idxMon) handed(st *State, ins ssa.Instruction, x *Term) {
	ds := m.o.def.Underlying().(*types.Struct)
	for i := 0; i < ds.NumFields(); i++ {
		if _, ok := ds.Field(i).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		f := m.defField(x, i)
		if f.op != "make" && f.op != "nil" && !(f.op == "app" && (f.aux == "copyof" || f.aux == "append" || f.aux == "appends")) {
			m.bad("hands-out", ins, "hands out a list of the map instead of a copy")
		}
	}
}

func elemPtr(t *Term) *Term {
	for t.op == "sym" && t.info != nil && t.info.kind == "load" {
		p, _ := t.info.ptr.(*Term)
		if p == nil {
			return nil
		}
		for p.op == "field" {
			p = p.args[0]
		}
		if p.op == "idx" {
			return p
		}
		return nil
	}
	return nil
}

// patPrefixOf: the key without the part that holds the name.
func patPrefixOf(pat *Term) *Term {
	if pat == nil || pat.op != "cat" || !has(pat.args[len(pat.args)-1], phName) {
		return nil
	}
	return mkCat(pat.args[:len(pat.args)-1]...)
}

// pureColumns: the key of the columns is built without touching the fields.
func (m *idxMon) pureColumns(f *ssa.Function) {
	m.fn, m.name = f, shortName(f.String())
	m.c.obl("index records", m.name+" keeps its input")
	r := &Rule{Codec: true}
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	args := e.paramSyms(st, f)
	given := func(t *Term) bool {
		for _, a := range args {
			if isSliceOf(a.typ, m.o) && has(t, a) && isGiven(t) {
				return true
			}
		}
		return false
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if (strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort")) && len(ev.Args) > 0 && given(unIface(ev.Args[0])) {
			m.bad("modifies", ev.Instr, "reorders the fields it was given")
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		l := loc
		for l.op == "field" {
			l = l.args[0]
		}
		if l.op == "idx" && given(l.args[0]) {
			m.bad("modifies", ins, "changes the fields it was given")
		}
	}
	m.c.run(e, st, f, args)
}

func isSliceOf(t types.Type, o *idxOwner) bool {
	if t == nil {
		return false
	}
	ds := o.def.Underlying().(*types.Struct)
	for k := 0; k < ds.NumFields(); k++ {
		if _, ok := ds.Field(k).Type().Underlying().(*types.Slice); ok && types.Identical(t, ds.Field(k).Type()) {
			return true
		}
	}
	return false
}

func init() {
	register("P26", func(c *Ctx) {
		c.rule("Creating an index commits its name record (holding the id), its definition (as given) and its columns record together, only after the same transaction found the name free; removing one deletes exactly the same records of the stored definition together. The map of definitions changes exactly when a commit succeeded, for the same name, without letting go of its lock in between; filling it reads every stored name record and takes in the definition stored under its id.")
		seq := seqTypes(c.w)
		for _, o := range idxOwners(c.w) {
			var create, drop []*ssa.Function
			at := map[*ssa.Function]int{}
			writes := c.w.reaching(func(cc *ssa.CallCommon) bool {
				op, _ := c.w.callInfo(cc)
				return isWriteOp(op)
			})
			for _, f := range c.w.funcs {
				if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() == nil || recvNamed(f) != o.typ || f.Object() == nil || !f.Object().Exported() || !writes[f] {
					continue
				}
				txn := false
				for i, p := range f.Params {
					txn = txn || i > 0 && isTxnType(p.Type())
				}
				if txn {
					continue
				}
				for i, p := range f.Params {
					if i == 0 {
						continue
					}
					if types.Identical(deref(p.Type()), o.def) {
						create = append(create, f)
						at[f] = i
						break
					}
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						drop = append(drop, f)
						at[f] = i
						break
					}
				}
			}
			for _, f := range c.w.funcs {
				o.cols = o.cols || o.columnsFn(f)
				if cloneFn(f) && recvNamed(f) == o.def {
					cloneMonFor(c, "index records", f).run()
				}
			}
			mon := func(f *ssa.Function) *idxMon {
				return &idxMon{c: c, w: c.w, o: o, fn: f, name: shortName(f.String()), seq: seq}
			}
			for _, f := range create {
				mon(f).create(at[f], true)
			}
			if o.nameKey == nil || o.defKey == nil {
				c.fail("index records", o.typ.Obj().Name(), "records", "-", "creating an index stores no name record holding its id, or no definition under its id")
				continue
			}
			for _, f := range create {
				mon(f).create(at[f], false)
			}
			for _, f := range drop {
				mon(f).drop(at[f])
			}
			for _, f := range c.w.funcs {
				if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && types.Identical(deref(f.Signature.Results().At(0).Type()), o.typ) && returnsErr(f.Signature) {
					mon(f).reload()
				}
				if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() != nil && recvNamed(f) == o.typ && f.Object() != nil && f.Object().Exported() {
					for i := 0; i < f.Signature.Results().Len(); i++ {
						if s, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), o.def) {
							mon(f).list(i)
						}
					}
				}
				if o.columnsFn(f) {
					mon(f).pureColumns(f)
				}
			}
		}
		c.need("index records", 4)
	})
}
