package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P22, the reading side: a schema snapshot is brought up to date by applying
// the stored descriptions one by one, or by reading everything.

// snapType is the type of schema snapshots.
type snapType struct {
	named             *types.Named
	vers, start, list int
	dbs               int
}

func snapshots(w *World) *snapType {
	for _, f := range w.funcs {
		if f.Signature.Recv() == nil || f.Name() != "Version" || f.Signature.Params().Len() != 0 {
			continue
		}
		n := recvNamed(f)
		if n == nil {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok || fieldIdx(s, isDiffs) < 0 {
			continue
		}
		r := &snapType{named: n, vers: -1, start: -1, list: fieldIdx(s, isDiffs), dbs: -1}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					r.vers = fa.Field
				}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if i != r.vers && isInt64(s.Field(i).Type()) {
				r.start = i
			}
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && isModelType(m.Elem(), "DBInfo") {
				r.dbs = i
			}
		}
		if r.vers >= 0 && r.start >= 0 && r.dbs >= 0 {
			return r
		}
	}
	return nil
}

func (s *snapType) loc(base *Term, i int) *Term {
	return fieldLoc(base, i, s.named.Underlying().(*types.Struct).Field(i).Name())
}

func (s *snapType) get(e *Eng, st *State, base *Term, i int) *Term {
	return e.load(st, s.loc(base, i), s.named.Underlying().(*types.Struct).Field(i).Type(), nil)
}

func (s *snapType) is(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n == s.named
}

func isDiffList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isModelType(sl.Elem(), "SchemaDiff")
}

// applier: the snapshot's method that applies descriptions.
func (s *snapType) applier(w *World) *ssa.Function {
	var r *ssa.Function
	for _, f := range w.funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || !s.is(f.Signature.Recv().Type()) || f.Signature.Params().Len() != 1 || !isDiffList(f.Signature.Params().At(0).Type()) || !returnsErr(f.Signature) {
			continue
		}
		if f.Object() != nil && f.Object().Exported() {
			r = f
		}
	}
	return r
}

// makers: functions that build a snapshot from a version and all databases.
func (s *snapType) maker(f *ssa.Function) (ver, dbs int, ok bool) {
	if f == nil || f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Results().Len() != 1 || !s.is(f.Signature.Results().At(0).Type()) {
		return
	}
	ver, dbs = -1, -1
	for i, p := range f.Params {
		if isInt64(p.Type()) {
			ver = i
		}
		if sl, isS := p.Type().Underlying().(*types.Slice); isS && isModelType(sl.Elem(), "DBInfo") {
			dbs = i
		}
	}
	return ver, dbs, ver >= 0 && dbs >= 0
}

// publisher: a method that makes a snapshot the current one.
func (s *snapType) publisher(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil || f.Parent() != nil || s.is(f.Signature.Recv().Type()) || !returnsErr(f.Signature) || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	n := 0
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if s.is(f.Signature.Params().At(i).Type()) {
			n++
		}
	}
	return n == 1 && f.Signature.Results().Len() == 1
}

type applyMon struct {
	c    *Ctx
	w    *World
	s    *snapType
	diff *types.Named
	name string
	fn   *ssa.Function
	e    *Eng
}

func (m *applyMon) bad(rule, detail string, ins ssa.Instruction, msg string) {
	at := m.w.pos(m.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	m.c.fail(rule, m.name, detail, at, m.name+": "+msg)
}

func (m *applyMon) get(st *State, d *Term, name string) *Term {
	s := m.diff.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return m.e.load(st, fieldLoc(d, i, name), s.Field(i).Type(), nil)
		}
	}
	return mkFresh("sym", nil, &SymInfo{kind: "nofield", site: name})
}

// apply analyses the applying method; kind (when not nil) is the kind every
// description is taken to have. It tells whether such a description can be applied.
func (m *applyMon) apply(kind *Term) bool {
	f := m.fn
	r := &Rule{}
	var recv, diffs *Term
	can := false
	// whose: the description a value was taken from, by the field it was in
	whose := func(st *State, v *Term, field string) *Term {
		for l, x := range st.heap {
			if x == v && l.op == "field" && strings.HasSuffix(l.aux, ":"+field) && l.args[0].typ != nil && isModelType(l.args[0].typ, "SchemaDiff") {
				return l.args[0]
			}
		}
		return nil
	}
	finish := func(st *State, ins ssa.Instruction) {
		cur, ent, ver, chg := st.g("a.cur"), st.g("a.ent"), st.g("a.ver"), st.g("a.chg")
		if cur != nil && (ent == nil || ver == nil || chg == nil) {
			switch {
			case ent == nil:
				m.bad("apply", "no-entry", ins, "a description is passed over without a place in the list of changes")
			case ver == nil:
				m.bad("apply", "no-version", ins, "a description is applied and the snapshot's version does not follow")
			default:
				m.bad("apply", "no-change", ins, "a description is passed over without its change")
			}
		}
		if cur != nil && (ent != nil && ent != cur || ver != nil && ver != cur || chg != nil && chg != cur) {
			m.bad("apply", "mixed", ins, "the parts of different descriptions are mixed up")
		}
		for _, g := range []string{"a.cur", "a.ent", "a.ver", "a.chg"} {
			st.setG(g, nil)
		}
	}
	r.Load = func(e *Eng, st *State, ins ssa.Instruction, loc *Term) {
		if loc.op != "field" || loc.args[0].typ == nil || !isModelType(loc.args[0].typ, "SchemaDiff") {
			return
		}
		n := loc.aux[strings.IndexByte(loc.aux, ':')+1:]
		if n == "Version" {
			return
		}
		if kind != nil && n == "Type" {
			st.setHeap(loc, kind)
			st.setG("a.kind", tTrue)
		}
		st.setG("a.cur", loc.args[0])
	}
	r.LoopHead = func(e *Eng, st *State, b *ssa.BasicBlock) {
		if len(st.frames) == 1 && !m.inner(b, f) {
			finish(st, nil)
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if loc.op == "mapel" && loc.args[0] == m.s.get(e, st, recv, m.s.dbs) {
			d := st.g("a.dec")
			if d == nil || val != d.args[0] {
				m.bad("apply", "change-other", ins, "stores something else than what the description says")
				return
			}
			if same(st, loc.args[1], e.load(st, m.dbField(val, "Name"), types.Typ[types.String], nil)) != 1 {
				m.bad("apply", "change-name", ins, "stores a database under another name than its own")
			}
			st.setG("a.chg", d.args[1])
			return
		}
		switch loc {
		case m.s.loc(recv, m.s.vers):
			d := whose(st, val, "Version")
			if d == nil {
				m.bad("apply", "version", ins, "sets the snapshot's version to something else than the description's")
				return
			}
			st.setG("a.ver", d)
		case m.s.loc(recv, m.s.list):
			old := m.s.get(e, st, recv, m.s.list)
			switch {
			case val.op == "app" && val.aux == "append" && len(val.args) == 2 && val.args[0] == old:
				d := whose(st, stripWhole(val.args[1]), "CollectionIDs")
				if d == nil {
					m.bad("apply", "entry", ins, "adds something else than the description's collections to the list of changes")
					return
				}
				if st.g("a.ent") != nil {
					m.bad("apply", "entry-twice", ins, "adds two places to the list of changes for one description")
				}
				st.setG("a.ent", d)
			case val.op == "slice" && val.args[0] == old && same(st, val.args[2], tLen(old)) == 1:
				st.setG("a.cut", orZero(st.g("a.cut")))
				st.setG("a.cut", tAdd(st.g("a.cut"), val.args[1]))
			default:
				m.bad("apply", "list", ins, "changes the list of changes otherwise than by adding at its end or dropping from its beginning")
			}
		case m.s.loc(recv, m.s.start):
			st.setG("a.shift", tAdd(orZero(st.g("a.shift")), tSub(val, m.s.get(e, st, recv, m.s.start))))
		}
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static != nil && ev.Static.Name() == "DecodeArg" && ev.Static.Signature.Recv() != nil && isModelType(ev.Static.Signature.Recv().Type(), "SchemaDiff") {
			d, to := ev.Args[0], unIface(ev.Args[1])
			res := e.freshResults(ev)
			er := Out{st: st.clone(), res: res}
			res[0].nonNilIn(er.st)
			e.havocArg(st, ev.Args[1], ev)
			st.setG("a.dec", mk("tuple", "", to, d))
			st.setG("a.cur", d)
			return []Out{{st: st, res: []*Term{tNil}}, er}, true
		}
		return nil, false
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f {
			return
		}
		if v, known := st.evalBool(tEq(res[len(res)-1], tNil)); known && !v {
			return
		}
		if st.g("a.kind") != nil {
			can = true
		}
		finish(st, nil)
		if same(st, orZero(st.g("a.shift")), orZero(st.g("a.cut"))) != 1 {
			m.bad("apply", "shift", nil, "the first version of the list of changes does not move by as many as are dropped from it")
		}
	}
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	args := e.paramSyms(st, f)
	recv, diffs = args[0], args[1]
	_ = diffs
	st.setG("a.recv", recv)
	m.c.run(e, st, f, args)
	return can
}

// inner: the loop head belongs to a function called from f.
func (m *applyMon) inner(b *ssa.BasicBlock, f *ssa.Function) bool { return b.Parent() != f }

func (m *applyMon) dbField(p *Term, name string) *Term {
	db := modelNamed(m.w, "DBInfo")
	s := db.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldLoc(p, i, name)
		}
	}
	return p
}

// stripWhole looks through a copy of a whole list.
func stripWhole(t *Term) *Term {
	for {
		switch {
		case t.op == "app" && t.aux == "copyof":
			t = t.args[0]
		case t.op == "app" && t.aux == "appends" && isEmptyList(nil, t.args[0]):
			t = t.args[1]
		default:
			if x := slicesClone(t); x != nil {
				t = x
				continue
			}
			return t
		}
	}
}

// build analyses a function that builds a snapshot from everything stored.
func (m *applyMon) build(ver, dbs int) {
	f := m.fn
	r := &Rule{}
	var args []*Term
	finish := func(st *State) {
		if st.g("b.cur") != nil {
			m.bad("build", "left-out", nil, "leaves a database out of the snapshot")
		}
	}
	r.Load = func(e *Eng, st *State, ins ssa.Instruction, loc *Term) {
		if loc.op == "idx" && loc.args[0] == args[dbs] && st.g("b.cur") != nil && st.g("b.cur") != loc {
			finish(st)
		}
		if loc.op == "idx" && loc.args[0] == args[dbs] {
			st.setG("b.cur", loc)
			st.setG("b.seen", tTrue)
		}
	}
	r.LoopHead = func(e *Eng, st *State, b *ssa.BasicBlock) {
		if b.Parent() == f {
			finish(st)
			st.setG("b.cur", nil)
		}
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if cloneFn(ev.Static) {
			return []Out{{st: st, res: []*Term{mkAppT(ev.Sig.Results().At(0).Type(), "clone", ev.Args[0])}}}, true
		}
		return nil, false
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if loc.op != "mapel" || st.g("b.cur") == nil {
			return
		}
		d := st.heap[st.g("b.cur")]
		if d == nil || val != d && val != mkAppT(d.typ, "clone", d) {
			return
		}
		if same(st, loc.args[1], e.load(st, m.dbField(d, "Name"), types.Typ[types.String], nil)) != 1 {
			m.bad("build", "name", ins, "puts a database under another name than its own")
		}
		st.setG("b.map", loc.args[0])
		st.setG("b.cur", nil)
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f {
			return
		}
		finish(st)
		s := m.s
		if same(st, s.get(e, st, res[0], s.vers), args[ver]) != 1 {
			m.bad("build", "version", nil, "the snapshot's version is not the one given")
		}
		n := tLen(s.get(e, st, res[0], s.list))
		if s.get(e, st, res[0], s.list).op == "nil" {
			n = mkInt(0)
		}
		if same(st, tAdd(s.get(e, st, res[0], s.start), n), tAdd(args[ver], mkInt(1))) != 1 {
			m.bad("build", "start", nil, "the list of changes does not continue at the snapshot's version")
		}
		if b := st.g("b.map"); b != nil && b != s.get(e, st, res[0], s.dbs) {
			m.bad("build", "map", nil, "the databases are not those of the snapshot")
		}
		if v, known := st.evalBool(tEq(tLen(args[dbs]), mkInt(0))); st.g("b.seen") == nil && !(known && v) {
			if v, known := st.evalBool(tGe0(lin{}.add(toLin(tLen(args[dbs])), -1))); !(known && v) {
				m.bad("build", "left-out", nil, "leaves the databases out of the snapshot")
			}
		}
	}
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	args = e.paramSyms(st, f)
	for i, a := range args {
		st.setG(fmt.Sprint("b.arg", i), a)
	}
	m.c.run(e, st, f, args)
}

// reload analyses a function that brings the current snapshot up to date.
func (m *applyMon) reload(apply *ssa.Function, kinds []*Term) {
	f := m.fn
	r := &Rule{}
	s := m.s
	r.Opaque = func(fn *ssa.Function) bool {
		p := fnPkg(topFn(fn))
		return !(p == fnPkg(f) || strings.HasSuffix(p, "/util") || s.isMethod(fn))
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static == nil || ev.Kind == "go" {
			return nil, false
		}
		ins := ev.Instr
		op := metaOp(ev.Static)
		if op == "NewMeta" {
			return []Out{{st: st, res: []*Term{mkAppT(ev.Sig.Results().At(0).Type(), "meta", unIface(ev.Args[0]))}}}, true
		}
		if op != "" {
			n := ev.Sig.Results().Len()
			res := e.freshResults(ev)
			er := Out{st: st.clone(), res: e.freshResults(ev)}
			er.res[n-1].nonNilIn(er.st)
			res[n-1] = tNil
			switch op {
			case "GetSchemaVersion":
				st.setG("c.v", mk("tuple", "", ev.Args[0], res[0]))
			case "ListDatabases":
				st.setG("c.dbs", mk("tuple", "", ev.Args[0], res[0]))
			case "GetSchemaDiff":
				none := Out{st: st.clone(), res: []*Term{tNil, tNil}}
				res[0].nonNilIn(st)
				v := st.g("c.v")
				if v == nil || v.args[0] != ev.Args[0] {
					m.bad("reload", "diff-txn", ins, "reads a description in another transaction than the version")
				} else if !le(st, ev.Args[1], v.args[1]) {
					m.bad("reload", "diff-beyond", ins, "reads a description that may be beyond the current version")
				}
				st.setG("c.d", mk("tuple", "", res[0], ev.Args[1]))
				return []Out{{st: st, res: res}, none, er}, true
			}
			return []Out{{st: st, res: res}, er}, true
		}
		if ver, dbs, ok := s.maker(ev.Static); ok {
			return []Out{{st: st, res: []*Term{mkAppT(ev.Sig.Results().At(0).Type(), "newsnap", ev.Args[ver], ev.Args[dbs])}}}, true
		}
		if cloneFn(ev.Static) && s.is(ev.Static.Signature.Recv().Type()) {
			return []Out{{st: st, res: []*Term{mkAppT(ev.Sig.Results().At(0).Type(), "clone", ev.Args[0])}}}, true
		}
		if ev.Static == apply {
			c := ev.Args[0]
			m.c.obl("apply call", m.name)
			none := func(t *Term) bool { return isEmptyList(st, t) || t.op == "make" && tLen(t) == mkInt(0) }
			if got := st.g("c.res"); ev.Args[1] != got && !(got == nil && none(ev.Args[1])) {
				m.bad("reload", "apply-other", ins, "applies other descriptions than those it has read one after the other")
			}
			if st.g("c.bad") != nil {
				m.bad("reload", "apply-gap", ins, "applies descriptions that do not follow each other from the snapshot's version on")
			}
			if st.g("c.kind") != nil {
				m.bad("reload", "apply-kind", ins, "applies a description of a kind that cannot be applied: the snapshot never catches up")
			}
			res := e.freshResults(ev)
			er := Out{st: st.clone(), res: res}
			res[0].nonNilIn(er.st)
			st.setG("c.applied", mk("tuple", "", c))
			return []Out{{st: st, res: []*Term{tNil}}, er}, true
		}
		if s.publisher(ev.Static) {
			m.c.obl("publish", m.name)
			for i, a := range ev.Static.Params[1:] {
				if s.is(a.Type()) {
					m.publish(st, ev.Args[i+1], ins)
				}
			}
			res := e.freshResults(ev)
			er := Out{st: st.clone(), res: res}
			res[0].nonNilIn(er.st)
			st.setG("c.done", tTrue)
			return []Out{{st: st, res: []*Term{tNil}}, er}, true
		}
		return nil, false
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Static != nil && ev.Sig.Results().Len() == 1 && s.is(ev.Sig.Results().At(0).Type()) && ev.Static.Signature.Params().Len() == 0 {
			// the current snapshot
			for _, o := range outs {
				x := Out{st: o.st.clone(), res: []*Term{tNil}}
				o.res[0].nonNilIn(o.st)
				o.st.setG("c.old", mk("tuple", "", o.res[0], s.get(e, o.st, o.res[0], s.vers)))
				x.st.setG("c.old", mk("tuple", "", tNil, mkInt(0)))
				return []Out{o, x}
			}
		}
		return outs
	}
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
		if !isModelType(et, "SchemaDiff") {
			return
		}
		d := st.g("c.d")
		res := st.g("c.res")
		if d == nil || len(elems) != 1 || elems[0] != d.args[0] || res != nil && res != old || res == nil && !isEmptyList(st, old) && !(old.op == "make" && tLen(old) == mkInt(0)) {
			st.setG("c.bad", tTrue)
			return
		}
		upto := st.g("c.upto")
		if upto == nil {
			if o := st.g("c.old"); o != nil {
				upto = o.args[1]
			}
		}
		if upto == nil || same(st, d.args[1], tAdd(upto, mkInt(1))) != 1 {
			st.setG("c.bad", tTrue)
		}
		st.setG("c.upto", d.args[1])
		st.setG("c.res", mkApp("append", old, elems[0]))
		t := m.get(st, elems[0], "Type")
		ok := false
		for _, k := range kinds {
			ok = ok || same(st, t, k) == 1
		}
		if !ok {
			st.setG("c.kind", tTrue)
		}
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f {
			return
		}
		if v, known := st.evalBool(tEq(res[len(res)-1], tNil)); known && !v || st.g("c.done") != nil {
			return
		}
		v, o := st.g("c.v"), st.g("c.old")
		if v == nil || o == nil || same(st, v.args[1], o.args[1]) != 1 {
			m.bad("reload", "not-updated", nil, "reports success although the snapshot may be behind the stored schema")
		}
	}
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	m.c.run(e, st, f, e.paramSyms(st, f))
}

func (s *snapType) isMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && s.is(f.Signature.Recv().Type())
}

// publish: a snapshot is made the current one.
func (m *applyMon) publish(st *State, c *Term, ins ssa.Instruction) {
	v := st.g("c.v")
	if v == nil {
		m.bad("reload", "unread", ins, "makes a snapshot current without having read the stored version")
		return
	}
	switch {
	case c.op == "app" && c.aux == "newsnap":
		d := st.g("c.dbs")
		if same(st, c.args[0], v.args[1]) != 1 {
			m.bad("reload", "full-version", ins, "the reloaded snapshot's version is not the one stored with what was read")
		}
		if d == nil || d.args[1] != c.args[1] || d.args[0] != v.args[0] {
			m.bad("reload", "full-content", ins, "the reloaded snapshot is not made of all stored databases, read in the transaction that read the version")
		}
	case c.op == "app" && c.aux == "clone":
		o := st.g("c.old")
		if o == nil || o.args[0] != c.args[0] {
			m.bad("reload", "base", ins, "the updated snapshot does not start from the current one")
			return
		}
		if a := st.g("c.applied"); a == nil || a.args[0] != c {
			m.bad("reload", "unapplied", ins, "makes a copy of the current snapshot current without applying the descriptions")
			return
		}
		upto := st.g("c.upto")
		if upto == nil {
			upto = o.args[1]
		}
		if !le(st, v.args[1], upto) {
			m.bad("reload", "short", ins, "the updated snapshot may lack the last descriptions")
		}
	default:
		m.bad("reload", "unknown", ins, "makes a snapshot current that is neither an updated copy nor a full reading")
	}
}

func runApply(c *Ctx) {
	w := c.w
	s := snapshots(w)
	diff := modelNamed(w, "SchemaDiff")
	if s == nil || diff == nil {
		c.fail("scope", "snapshot", "type", "-", "the type of schema snapshots was not found")
		return
	}
	ap := s.applier(w)
	if ap == nil {
		c.fail("scope", "snapshot", "apply", "-", "the operation that applies descriptions was not found")
		return
	}
	c.obl("apply", shortName(ap.String()))
	var kinds []*Term
	cs := modelConsts(w)
	var names []string
	for n := range cs {
		if strings.HasPrefix(n, "Action") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		m := &applyMon{c: c, w: w, s: s, diff: diff, name: shortName(ap.String()), fn: ap}
		if m.apply(cs[n]) {
			kinds = append(kinds, cs[n])
		}
	}
	(&applyMon{c: c, w: w, s: s, diff: diff, name: shortName(ap.String()), fn: ap}).apply(nil)
	if len(kinds) > 0 {
		c.obl("kinds", fmt.Sprint(len(kinds)))
	}
	for _, f := range w.funcs {
		if ver, dbs, ok := s.maker(f); ok && f.Synthetic == "" {
			m := &applyMon{c: c, w: w, s: s, diff: diff, name: shortName(f.String()), fn: f}
			c.obl("build", m.name)
			m.build(ver, dbs)
		}
	}
	pub := w.reaching(func(cc *ssa.CallCommon) bool { return s.publisher(cc.StaticCallee()) })
	opens := w.reaching(func(cc *ssa.CallCommon) bool { op, _ := w.callInfo(cc); return op == "NewTransaction" })
	ok := func(f *ssa.Function) bool {
		return f != nil && pub[f] && opens[f] && f.Parent() == nil && f.Synthetic == "" && returnsErr(f.Signature)
	}
	for _, f := range w.funcs {
		if !ok(f) {
			continue
		}
		inner := false
		w.calls(f, func(cc *ssa.CallCommon) { inner = inner || ok(cc.StaticCallee()) })
		if inner {
			continue
		}
		m := &applyMon{c: c, w: w, s: s, diff: diff, name: shortName(f.String()), fn: f}
		c.obl("reload", m.name)
		m.reload(ap, kinds)
	}
}

// runVersion checks how the version and the descriptions are stored.
func runVersion(c *Ctx) {
	m := records(c)
	key := m.counter(c, "stored version", "GenSchemaVersion", func(*recRet) *Term { return mkInt(1) })
	if key == nil {
		return
	}
	gen := m.methods["GenSchemaVersion"]
	for i := range m.rets[gen] {
		r := &m.rets[gen][i]
		if !r.failed() && len(r.ops) == 1 && r.res[0] != r.ops[0].res[0] {
			c.fail("stored version", "GenSchemaVersion", "result", c.w.pos(gen.Pos()), "GenSchemaVersion returns another number than the version it has stored")
		}
	}
	for _, o := range m.writers(key) {
		if o.method != gen {
			c.fail("stored version", shortName(o.method.String()), "writer", c.w.pos(o.ins.Pos()), shortName(o.method.String())+" writes the stored schema version")
		}
	}
	get := m.methods["GetSchemaVersion"]
	if get == nil {
		c.fail("stored version", "GetSchemaVersion", "missing", "-", "the operation GetSchemaVersion was not found")
		return
	}
	c.obl("stored version", shortName(get.String()))
	for i := range m.rets[get] {
		r := &m.rets[get][i]
		if r.failed() {
			continue
		}
		if len(r.ops) != 1 || r.ops[0].op != "GetInt64" || r.ops[0].keys[0] != key || r.res[0] != r.ops[0].res[0] && r.res[0] != mkInt(0) {
			c.fail("stored version", "GetSchemaVersion", "result", c.w.pos(get.Pos()), "GetSchemaVersion returns something else than the version stored by GenSchemaVersion")
		}
	}
	set, read := m.methods["SetSchemaDiff"], m.methods["GetSchemaDiff"]
	diff := modelNamed(c.w, "SchemaDiff")
	if set == nil || read == nil || diff == nil {
		c.fail("stored description", "SchemaDiff", "missing", "-", "the operations that store and read descriptions were not found")
		return
	}
	x := mkSym(types.Typ[types.Int64], "version", "x")
	var tmpl *Term
	c.obl("stored description", shortName(set.String()))
	for i := range m.rets[set] {
		r := &m.rets[set][i]
		if r.failed() {
			continue
		}
		at := c.w.pos(set.Pos())
		if len(r.ops) != 1 || r.ops[0].op != "Set" {
			c.fail("stored description", "SetSchemaDiff", "shape", at, "SetSchemaDiff reports success without storing the description")
			continue
		}
		o := r.ops[0]
		am := &applyMon{c: c, w: c.w, diff: diff, e: r.e}
		k := substTerm(o.keys[0], map[*Term]*Term{am.get(r.st, r.arg(1), "Version"): x}, map[*Term]*Term{})
		if k == o.keys[0] || tmpl != nil && k != tmpl {
			c.fail("stored description", "SetSchemaDiff", "key", at, "a description is not stored under its version")
			continue
		}
		tmpl = k
		if v := o.val; v.op != "app" || v.aux != "json" || v.args[0] != r.arg(1) {
			c.fail("stored description", "SetSchemaDiff", "value", at, "what is stored is not the description")
		}
	}
	c.obl("stored description", shortName(read.String()))
	for i := range m.rets[read] {
		r := &m.rets[read][i]
		if r.failed() {
			continue
		}
		at := c.w.pos(read.Pos())
		if len(r.ops) != 1 || r.ops[0].op != "Get" || substTerm(r.ops[0].keys[0], map[*Term]*Term{r.arg(1): x}, map[*Term]*Term{}) != tmpl {
			c.fail("stored description", "GetSchemaDiff", "key", at, "the description read is not the one stored under the version asked for")
			continue
		}
		if r.res[0] == tNil {
			if r.err[0] == tNil {
				c.fail("stored description", "GetSchemaDiff", "lost", at, "GetSchemaDiff returns no description although one is stored")
			}
			continue
		}
		ok := false
		for _, rd := range m.reads {
			ok = ok || rd.op == r.ops[0] && rd.into == r.res[0] && isModelType(rd.typ, "SchemaDiff")
		}
		if !ok {
			c.fail("stored description", "GetSchemaDiff", "value", at, "GetSchemaDiff returns something else than the stored description")
		}
	}
}
