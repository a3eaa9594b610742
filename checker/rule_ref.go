package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P18: explicit transactions record the collections they touch, and commit
// only when the recorded set survives every schema change since they started.

// refTxn is a transaction type that records collection ids.
type refTxn struct {
	named       *types.Named
	refs        int // the field holding the recorded ids
	start       int // the field holding the schema snapshot
	cache       *types.Named
	diffs, vers int // fields of the snapshot
}

func fieldIdx(s *types.Struct, ok func(t types.Type) bool) int {
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

func isIDSet(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isInt64(m.Key()) {
		return false
	}
	switch e := m.Elem().Underlying().(type) {
	case *types.Struct:
		return e.NumFields() == 0
	case *types.Basic:
		return e.Kind() == types.Bool
	}
	return false
}

func isDiffs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s, ok = s.Elem().Underlying().(*types.Slice)
	return ok && isInt64(s.Elem())
}

func asRefTxn(t types.Type) *refTxn {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || !isTxnType(t) {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := &refTxn{named: n, refs: fieldIdx(s, isIDSet)}
	r.start = fieldIdx(s, func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		q, ok := p.Elem().Underlying().(*types.Struct)
		return ok && fieldIdx(q, isDiffs) >= 0
	})
	if r.refs < 0 || r.start < 0 {
		return nil
	}
	r.cache, _ = types.Unalias(deref(s.Field(r.start).Type())).(*types.Named)
	r.diffs = fieldIdx(r.cache.Underlying().(*types.Struct), isDiffs)
	return r
}

func refTxnOf(op *docOp) *refTxn { return asRefTxn(op.fn.Params[op.txn].Type()) }

func (r *refTxn) field(base *Term, i int) *Term {
	return fieldLoc(base, i, r.named.Underlying().(*types.Struct).Field(i).Name())
}

func (r *refTxn) val(e *Eng, st *State, base *Term, i int) *Term {
	return e.load(st, r.field(base, i), r.named.Underlying().(*types.Struct).Field(i).Type(), nil)
}

// ---- what an operation records

func addTo(st *State, ghost string, t *Term) {
	g := st.g(ghost)
	if g == nil {
		st.setG(ghost, mk("gset", "", t))
		return
	}
	for _, x := range g.args {
		if x == t {
			return
		}
	}
	st.setG(ghost, mk("gset", "", append(append([]*Term{}, g.args...), t)...))
}

func (m *docMon) refHooks(r *Rule) {
	rt := refTxnOf(m.op)
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if loc.op != "mapel" || loc.args[0] != rt.val(e, st, m.txn, rt.refs) {
			return
		}
		if val.op == "deleted" || val == tFalse {
			m.bad("P18", "reference recorded", "removed", ins, "takes a collection out of the set its transaction has recorded")
			return
		}
		k := loc.args[1]
		p, cache := m.cidPath(k)
		if p == "" {
			return
		}
		if cache != nil && !m.ownCache(st, rt, cache) {
			m.bad("P18", "reference recorded", "snapshot", ins, "takes the collection's id from another schema snapshot than the one its transaction started with")
		}
		addTo(st, "d.refs", k)
	}
}

// ownCache: the snapshot is the one the transaction started with.
func (m *docMon) ownCache(st *State, rt *refTxn, cache *Term) bool {
	return rt.val(m.e, st, m.txn, rt.start) == cache
}

func (m *docMon) refBefore(st *State, ev *Event) {
	rt := refTxnOf(m.op)
	var key *Term
	switch ev.Op {
	case "Get", "Exists", "Set", "Delete":
		key = ev.Args[1]
	case "Scan":
		key = ev.Args[1]
		if pre, _, _ := m.scanOpts(st, ev); pre != nil {
			key = pre
		}
	default:
		return
	}
	key = stripCopy(m.e.content(st, key))
	st.setGS("d.touch", "y")
	found := false
	walk(key, map[*Term]bool{}, func(t *Term) {
		if p, cache := m.cidPath(t); p != "" {
			found = true
			if cache == nil || !m.ownCache(st, rt, cache) {
				m.bad("P18", "reference recorded", "snapshot", ev.Instr, "builds the key of its "+ev.Op+" from another schema snapshot than the one its transaction started with")
			}
			addTo(st, "d.used", t)
		}
	})
	if !found && !mentions(key, func(t *Term) bool { return t.op == "sym" && t.info != nil && strings.HasPrefix(t.info.kind, "scan") }) {
		m.bad("P18", "reference recorded", "key", ev.Instr, "calls "+ev.Op+" on "+key.String()+", which does not name a collection of its transaction's schema snapshot")
	}
}

func (m *docMon) refExit(st *State, res []*Term, ok bool) {
	if !ok {
		return
	}
	refs, used := st.g("d.refs"), st.g("d.used")
	if refs == nil {
		m.bad("P18", "reference recorded", "none", nil, "succeeds without having recorded the collection it touched in its transaction")
		return
	}
	if used == nil {
		return
	}
	for _, u := range used.args {
		in := false
		for _, x := range refs.args {
			in = in || x == u || eqInt(st, x, u)
		}
		if !in {
			m.bad("P18", "reference recorded", "other", nil, "succeeds without having recorded a collection whose keys it touched")
		}
	}
}

// ---- what commit checks

type commitMon struct {
	c    *Ctx
	e    *Eng
	rt   *refTxn
	fn   *ssa.Function
	name string
	txn  *Term
}

func (m *commitMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.c.w.pos(m.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	m.c.fail("commit check", m.name, detail, at, m.name+": "+msg)
}

func (m *commitMon) cacheField(st *State, base *Term, i int) *Term {
	f := m.rt.cache.Underlying().(*types.Struct).Field(i)
	return m.e.load(st, fieldLoc(base, i, f.Name()), f.Type(), nil)
}

// versionField: the field the snapshot's Version method returns.
func versionField(c *Ctx, rt *refTxn) int {
	for _, f := range c.w.funcs {
		if f.Name() != "Version" || f.Signature.Recv() == nil || recvNamed(f) != rt.cache {
			continue
		}
		e := newEng(c.w, &Rule{})
		st := newState()
		args := e.paramSyms(st, f)
		for _, o := range c.run(e, st, f, args) {
			if o.panic || len(o.res) != 1 {
				continue
			}
			if t := o.res[0]; t.op == "sym" && t.info != nil && t.info.kind == "load" {
				if p, _ := t.info.ptr.(*Term); p != nil && p.op == "field" && p.args[0] == args[0] {
					s := rt.cache.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						if fieldLoc(args[0], i, s.Field(i).Name()) == p {
							return i
						}
					}
				}
			}
		}
	}
	return -1
}

// current notes the snapshot just read from the place it is published at.
func (m *commitMon) current(st *State, v *Term) { st.setG("r.cur", v) }

// readsCurrent turns a read of an atomic into the two cases: nothing
// published yet, or a snapshot.
func readsCurrent(e *Eng, rt *refTxn, ev *Event, st *State) []Out {
	if ev.Name == "(*sync/atomic.Value).Load" {
		pt := types.NewPointer(rt.cache)
		s2 := st.clone()
		v := mkFresh("sym", pt, &SymInfo{kind: "load", name: "published", site: e.pos(ev.Instr)})
		s2.assume(tEq(v, tNil), false)
		s2.setG("r.cur", v)
		s2.setG("r.from", ev.Args[0])
		st.setG("r.cur", tNil)
		st.setG("r.from", ev.Args[0])
		return []Out{{st: st, res: []*Term{tNil}}, {st: s2, res: []*Term{mkTyped("iface", pt, v)}}}
	}
	if strings.HasPrefix(ev.Name, "(*sync/atomic.Pointer[") && strings.HasSuffix(ev.Name, ".Load") && ev.Sig.Results().Len() == 1 && types.Identical(deref(ev.Sig.Results().At(0).Type()), rt.cache) {
		v := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "load", name: "published", site: e.pos(ev.Instr), mayNil: true})
		st.setG("r.cur", v)
		st.setG("r.from", ev.Args[0])
		return []Out{{st: st, res: []*Term{v}}}
	}
	return nil
}

// done: the description checked last was checked to its end.
func (m *commitMon) done(st *State) bool {
	if st.g("r.pend") != nil || st.g("r.bad") != nil && st.g("r.bad") != tFalse {
		return false
	}
	d := st.g("r.diff")
	return d == nil || eqInt(st, orZero(st.g("r.el")), tLen(d)) || le(st, tLen(d), orZero(st.g("r.el")))
}

func (m *commitMon) settle(st *State) {
	if b := st.g("r.bad"); b != nil {
		if v, known := st.evalBool(b); known {
			if v {
				st.setG("r.bad", tTrue)
			} else {
				st.setG("r.bad", nil)
			}
		}
	}
	if st.g("r.diff") != nil && m.done(st) {
		st.setG("r.diff", nil)
		st.setG("r.el", nil)
	}
}

func (m *commitMon) nextVersion(st *State) *Term {
	if n := st.g("r.next"); n != nil {
		return n
	}
	return tAdd(m.cacheField(st, st.g("r.start"), m.rt.vers), mkInt(1))
}

func (m *commitMon) analyse() {
	w := m.c.w
	r := &Rule{Numeric: true}
	e := newEng(w, r)
	m.e = e
	st := newState()
	args := e.paramSyms(st, m.fn)
	m.txn = args[0]
	st.setG("r.txn", m.txn)
	start := m.rt.val(e, st, m.txn, m.rt.start)
	st.setG("r.start", start)
	refs := m.rt.val(e, st, m.txn, m.rt.refs)
	st.setG("r.refs", refs)
	r.Head = m.settle
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if outs := readsCurrent(e, m.rt, ev, st); outs != nil {
			if !mentions(ev.Args[0], func(t *Term) bool { return t != m.txn && m.fieldOfTxn(t) }) {
				m.bad("where", ev.Instr, "compares with a snapshot that is not the one published where its transaction took its own from")
			}
			return outs, true
		}
		return nil, false
	}
	r.Loaded = func(e *Eng, st *State, ins *ssa.UnOp, loc, val *Term) {
		if types.Identical(ins.Type(), types.NewPointer(m.rt.cache)) && loc.op == "field" && loc != m.rt.field(m.txn, m.rt.start) {
			m.current(st, val)
		}
		if loc.op != "idx" {
			return
		}
		if isDiffs(types.NewSlice(ins.Type())) {
			m.settle(st)
			cur := st.g("r.cur")
			if cur == nil || cur == tNil || loc.args[0] != m.cacheField(st, cur, m.rt.diffs) {
				m.bad("whose", ins, "checks schema changes other than those of the current snapshot")
				return
			}
			if !m.done(st) {
				m.bad("unfinished", ins, "goes on to the next schema change although not every collection of the previous one was looked up")
			}
			n := m.nextVersion(st)
			ok := false
			s := m.rt.cache.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if i != m.rt.vers && isInt64(s.Field(i).Type()) {
					ok = ok || eqInt(st, loc.args[1], tSub(n, m.cacheField(st, cur, i)))
				}
			}
			if !ok {
				m.bad("order", ins, "does not check the schema changes one after the other from the one after the transaction's start")
			}
			st.setG("r.next", tAdd(n, mkInt(1)))
			st.setG("r.diff", val)
			st.setG("r.el", mkInt(0))
			return
		}
		if d := st.g("r.diff"); d != nil && loc.args[0] == d {
			m.settle(st)
			if st.g("r.pend") != nil {
				m.bad("unfinished", ins, "skips a collection of a schema change")
			}
			if !eqInt(st, loc.args[1], orZero(st.g("r.el"))) {
				m.bad("order", ins, "does not look at the collections of a schema change one after the other")
			}
			st.setG("r.pend", val)
			st.setG("r.el", tAdd(loc.args[1], mkInt(1)))
		}
	}
	r.Load = func(e *Eng, st *State, ins ssa.Instruction, loc *Term) {
		x, ok := ins.(*ssa.Lookup)
		if !ok || loc.op != "mapel" || loc.args[0] != refs {
			return
		}
		m.settle(st)
		if st.g("r.pend") != loc.args[1] {
			return
		}
		st.setG("r.pend", nil)
		hit := mkSym(types.Typ[types.Bool], "mapok", locName(loc))
		if b := st.g("r.bad"); b != nil {
			m.bad("ignored", ins, "ignores that a collection was found")
		}
		st.setG("r.bad", hit)
		if x.CommaOk {
			st.setHeap(mk("mapok", "", loc.args[0], loc.args[1]), hit)
			st.setHeap(loc, e.zero(refs.typ.Underlying().(*types.Map).Elem()))
		} else {
			st.setHeap(loc, hit)
		}
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if ev.Op != "Commit" {
			return
		}
		m.settle(st)
		st.setGS("r.tried", "y")
		cur := st.g("r.cur")
		if cur == nil {
			m.bad("unchecked", ev.Instr, "commits without having looked at the schema that is current")
			return
		}
		start := st.g("r.start")
		if cur == start {
			return
		}
		if v, known := st.evalBool(tEq(cur, start)); known && v {
			return
		}
		if cur == tNil || !st.nonNil(start) {
			m.bad("unchecked", ev.Instr, "commits although the schema it started under and the current one were not compared")
			return
		}
		if !m.done(st) {
			m.bad("unfinished", ev.Instr, "commits although not every collection of a schema change was looked up among the recorded ones, or one was found there")
			return
		}
		if !lt(st, m.cacheField(st, cur, m.rt.vers), m.nextVersion(st)) {
			m.bad("incomplete", ev.Instr, "commits without having checked every schema change since the transaction started")
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Op != "Commit" {
			return outs
		}
		var res []Out
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					p.st.setGS("r.done", "y")
				}
				res = append(res, p)
			}
		}
		return res
	}
	m.c.obl("commit check", m.name)
	for _, o := range m.c.run(e, st, m.fn, args) {
		if o.panic {
			continue
		}
		for _, p := range forkErr(o) {
			ok, done := errOf(p).op == "nil", p.st.gs("r.done") != ""
			switch {
			case !ok && done:
				m.bad("error-after", nil, "reports an error although the transaction was committed")
			case ok && !done && !m.readOnly(p.st):
				m.bad("silent", nil, "reports success without having committed a transaction that may have written")
			}
		}
	}
}

// fieldOfTxn: the term is read from a field of the transaction.
func (m *commitMon) fieldOfTxn(t *Term) bool {
	if t.op == "sym" && t.info != nil && t.info.kind == "load" {
		if p, _ := t.info.ptr.(*Term); p != nil && p.op == "field" && p.args[0] == m.txn {
			return true
		}
	}
	return false
}

// readOnly: the transaction is known not to be for update.
func (m *commitMon) readOnly(st *State) bool {
	s := m.rt.named.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if v, known := st.evalBool(m.rt.val(m.e, st, m.txn, i)); known && !v {
				return true
			}
		}
	}
	return false
}

// ---- how a transaction starts

func checkNewTxn(c *Ctx, rt *refTxn, f *ssa.Function) {
	name := shortName(f.String())
	at := c.w.pos(f.Pos())
	bad := func(detail, msg string) { c.fail("transaction start", name, detail, at, name+": "+msg) }
	r := &Rule{}
	e := newEng(c.w, r)
	st := newState()
	args := e.paramSyms(st, f)
	for i, a := range args {
		st.setG("d.arg"+string(rune('0'+i)), a)
	}
	opened := false
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if outs := readsCurrent(e, rt, ev, st); outs != nil {
			return outs, true
		}
		return nil, false
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if ev.Op != "NewTransaction" {
			return
		}
		opened = true
		st.setG("r.upd", ev.Args[1])
		if st.g("r.cur") == nil {
			bad("order", "opens the transaction before it has read the schema snapshot: a change in between is not noticed at commit")
		} else {
			st.setG("r.snap", st.g("r.cur"))
		}
	}
	outs := c.run(e, st, f, args)
	if !opened {
		return
	}
	c.obl("transaction start", name)
	s := rt.named.Underlying().(*types.Struct)
	for _, o := range outs {
		if o.panic || len(o.res) == 0 {
			continue
		}
		v := o.res[0]
		if v.op == "nil" {
			continue
		}
		if x := rt.val(e, o.st, v, rt.start); o.st.g("r.snap") != nil && x != o.st.g("r.snap") {
			bad("snapshot", "does not keep the schema snapshot it read before it opened the transaction")
		}
		from, kept, flag, flags := false, false, false, 0
		for i := 0; i < s.NumFields(); i++ {
			fv := rt.val(e, o.st, v, i)
			if o.st.g("r.from") != nil && mentions(o.st.g("r.from"), func(t *Term) bool { return t == fv }) && fv.op == "sym" {
				from = true
			}
			if fv.op == "sym" && isTxnType(s.Field(i).Type()) {
				kept = true
			}
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				flags++
				flag = flag || fv == o.st.g("r.upd")
			}
		}
		if !from {
			bad("where", "does not keep the place it read the schema snapshot from")
		}
		if !kept {
			bad("kept", "does not keep the transaction it opened")
		}
		if flags > 0 && !flag {
			bad("kind", "does not note whether the transaction was opened for update")
		}
	}
}

// checkKept: what a transaction was started with and has recorded is not
// replaced later.
func checkKept(c *Ctx, rt *refTxn) {
	s := rt.named.Underlying().(*types.Struct)
	for _, f := range c.w.allFuncs() {
		hit := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), rt.named) {
					for _, u := range *fa.Referrers() {
						if x, ok := u.(*ssa.Store); ok && x.Addr == fa {
							hit = true
						}
						if x, ok := u.(*ssa.UnOp); ok && fa.Field == rt.refs {
							for _, v := range *x.Referrers() {
								if cl, ok := v.(*ssa.Call); ok {
									if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
										c.fail("recorded set", shortName(f.String()), "removed", c.w.pos(cl.Pos()), shortName(f.String())+": takes collections out of the set a transaction has recorded")
									}
								}
							}
						}
					}
				}
			}
		}
		if !hit {
			continue
		}
		name := shortName(f.String())
		c.obl("recorded set", name)
		r := &Rule{}
		e := newEng(c.w, r)
		r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
			if loc.op != "field" || ins.Parent() != f || isLocal(loc.args[0]) {
				return
			}
			sto, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := sto.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), rt.named) {
				return
			}
			switch {
			case fa.Field == rt.refs:
				old := rt.val(e, st, loc.args[0], rt.refs)
				if v, known := st.evalBool(tEq(old, tNil)); !(known && v) && val != old {
					c.fail("recorded set", name, "replaced", e.pos(ins), name+": replaces the set of collections a transaction has recorded")
				}
			case fa.Field == rt.start || isHandleField(s.Field(fa.Field).Type(), rt):
				c.fail("recorded set", name, "restart", e.pos(ins), name+": changes the schema snapshot a transaction started with, or the place it is compared with")
			}
		}
		st := newState()
		c.run(e, st, f, e.paramSyms(st, f))
	}
}

// isHandleField: a pointer to the object that publishes snapshots.
func isHandleField(t types.Type, rt *refTxn) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n == rt.cache {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		r := n.Method(i).Type().(*types.Signature).Results()
		if r.Len() == 1 && types.Identical(deref(r.At(0).Type()), rt.cache) {
			return true
		}
	}
	return false
}

func init() {
	register("P18", func(c *Ctx) {
		c.rule("An operation given a transaction that records collections succeeds only after it has recorded every collection whose keys it touched, taken from the schema snapshot the transaction started with. Commit reaches the storage commit only when the current snapshot is the start snapshot or every schema change since was looked at in order and none of its collections is recorded. The snapshot is read before the storage transaction is opened and neither it nor the recorded set is replaced or shrunk.")
		seen := map[*types.Named]*refTxn{}
		for _, op := range docOps(c.w) {
			if rt := refTxnOf(op); rt != nil {
				seen[rt.named] = rt
			}
		}
		runDoc(c)
		var rts []*refTxn
		for _, rt := range seen {
			rts = append(rts, rt)
		}
		sort.Slice(rts, func(i, j int) bool { return rts[i].named.String() < rts[j].named.String() })
		for _, rt := range rts {
			rt.vers = versionField(c, rt)
			if rt.vers < 0 {
				c.fail("commit check", rt.named.Obj().Name(), "version", "-", "the schema snapshot has no version that can be read")
				continue
			}
			for _, f := range c.w.funcs {
				if f.Name() == "Commit" && f.Signature.Recv() != nil && recvNamed(f) == rt.named && f.Synthetic == "" {
					m := &commitMon{c: c, rt: rt, fn: f, name: shortName(f.String())}
					m.analyse()
				}
				if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && types.Identical(deref(f.Signature.Results().At(0).Type()), rt.named) {
					checkNewTxn(c, rt, f)
				}
			}
			checkKept(c, rt)
		}
		c.need("reference recorded", 10)
		c.need("commit check", 1)
		c.need("transaction start", 1)
		c.need("recorded set", 1)
	})
}
