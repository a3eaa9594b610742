package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// P12, P13: hashes and lists kept in the store, their counts and bounds.

var (
	phK = mk("obj", "the-key")
	phF = mk("obj", "the-field")
	phI = mkFresh("sym", types.Typ[types.Int64], &SymInfo{kind: "ph", site: "ph", name: "the-index"})
)

// structType: the type offering hashes and lists.
type structType struct {
	typ *types.Named
	ops map[string]*ssa.Function
}

func structTypes(w *World) []*structType {
	by := map[*types.Named]*structType{}
	var res []*structType
	for _, f := range w.funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		n := recvNamed(f)
		if n == nil {
			continue
		}
		t := by[n]
		if t == nil {
			t = &structType{typ: n, ops: map[string]*ssa.Function{}}
			by[n] = t
		}
		t.ops[f.Name()] = f
	}
	for _, t := range by {
		if t.ops["HGet"] != nil && t.ops["HLen"] != nil && t.ops["LLen"] != nil && t.ops["LIndex"] != nil {
			res = append(res, t)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].typ.String() < res[j].typ.String() })
	return res
}

// spaceKeys: how the keys of hashes and lists look, and how their metadata is read.
type spaceKeys struct {
	meta, data *Term // patterns
	metaV      *Term // the unknown stored metadata the decoders are over
	count      *Term // hash: number of fields
	l, r       *Term // list: bounds
}

type structMon struct {
	c    *Ctx
	w    *World
	t    *structType
	k    *spaceKeys
	fn   *ssa.Function
	name string
	recv *Term
	args []*Term
	e    *Eng
	list bool
}

func (m *structMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.w.pos(m.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	rule := "hash count"
	if m.list {
		rule = "list bounds"
	}
	m.c.fail(rule, m.name, detail, at, m.name+": "+msg)
}

// norm writes a key in terms of the receiver's fields and the key given.
func (m *structMon) norm(key *Term) *Term {
	sub := map[*Term]*Term{}
	walk(key, map[*Term]bool{}, func(t *Term) {
		if t.op == "sym" && t.info != nil && t.info.kind == "load" {
			if p, _ := t.info.ptr.(*Term); p != nil && p.op == "field" && p.args[0] == m.recv {
				sub[t] = mk("obj", "receiver."+p.aux)
			}
		}
	})
	if len(m.args) > 1 {
		sub[m.args[1]] = phK
	}
	return substTerm(key, sub, map[*Term]*Term{})
}

// match binds the placeholder of a pattern.
func match(pat, t, ph *Term) (*Term, bool) {
	if pat == ph {
		return t, true
	}
	if pat == t {
		return nil, true
	}
	if pat.op != t.op || pat.aux != t.aux || len(pat.args) != len(t.args) || len(pat.args) == 0 || pat.op == "lin" {
		return nil, false
	}
	var b *Term
	for i := range pat.args {
		x, ok := match(pat.args[i], t.args[i], ph)
		if !ok || b != nil && x != nil && b != x {
			return nil, false
		}
		if x != nil {
			b = x
		}
	}
	return b, true
}

func (m *structMon) keyOf(st *State, a *Term) *Term { return m.norm(stripCopy(m.e.content(st, a))) }

// fieldKey: the field (or index) whose data key this is.
func (m *structMon) fieldKey(key *Term) *Term {
	ph := phF
	if m.list {
		ph = phI
	}
	x, ok := match(m.k.data, key, ph)
	if ok && x != nil {
		return signed(x)
	}
	for i := int64(-1); m.list && i <= 1; i++ {
		// a constant index may have been folded into its encoding
		if substTerm(m.k.data, map[*Term]*Term{phI: mkInt(i)}, map[*Term]*Term{}) == key {
			return mkInt(i)
		}
	}
	return nil
}

func (m *structMon) start(r *Rule) (*Eng, *State) {
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	m.args = e.paramSyms(st, m.fn)
	m.recv = m.args[0]
	for i, a := range m.args {
		st.setG(fmt.Sprint("s.arg", i), a)
	}
	return e, st
}

func newStructMon(c *Ctx, t *structType, fn *ssa.Function, list bool, k *spaceKeys) *structMon {
	return &structMon{c: c, w: c.w, t: t, fn: fn, name: shortName(fn.String()), list: list, k: k}
}

// learn finds the keys and the metadata format from HGet and HLen, or LLen and LIndex.
func learn(c *Ctx, t *structType, list bool) *spaceKeys {
	k := &spaceKeys{}
	names := []string{"HLen", "HGet"}
	if list {
		names = []string{"LLen", "LIndex"}
	}
	// metadata
	m := newStructMon(c, t, t.ops[names[0]], list, k)
	r := &Rule{Codec: true, Numeric: true}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Op != "Get" {
			return outs
		}
		if k.meta == nil {
			k.meta = m.keyOf(st, ev.Args[1])
		}
		var res []Out
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					p.st.setG("s.v", p.res[0])
				}
				res = append(res, p)
			}
		}
		return res
	}
	e, st := m.start(r)
	for _, o := range c.run(e, st, m.fn, m.args) {
		if o.panic {
			continue
		}
		for _, p := range forkErr(o) {
			v := p.st.g("s.v")
			if errOf(p).op != "nil" || v == nil {
				continue
			}
			x := p.res[0]
			if !list {
				k.count, k.metaV = x, v
				continue
			}
			l := toLin(x)
			if len(l.m) != 2 || l.c != 0 {
				continue
			}
			var a, b *Term
			for t, n := range l.m {
				if n == 1 {
					b = t
				} else if n == -1 {
					a = t
				}
			}
			if a != nil && b != nil {
				k.l, k.r, k.metaV = a, b, v
			}
		}
	}
	if k.meta == nil || k.metaV == nil || k.meta.op != "cat" {
		m.bad("length", nil, map[bool]string{false: "does not return what is stored as the number of fields", true: "does not return the difference of the stored bounds"}[list])
		return nil
	}
	// data keys
	m = newStructMon(c, t, t.ops[names[1]], list, k)
	r = &Rule{Codec: true, Numeric: true}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if ev.Op != "Get" || k.data != nil {
			return
		}
		key := m.keyOf(st, ev.Args[1])
		if key == k.meta {
			return
		}
		sub := map[*Term]*Term{}
		if !list {
			sub[m.args[2]] = phF
		} else {
			// the index given, counted from the left bound
			walk(key, map[*Term]bool{}, func(x *Term) {
				if x.op == "lin" || x == m.args[2] {
					if mentions(x, func(y *Term) bool { return y == m.args[2] }) && (x.op == "lin" || len(sub) == 0) {
						sub = map[*Term]*Term{x: phI}
					}
				}
			})
		}
		if d := substTerm(key, sub, map[*Term]*Term{}); d != key && d.op == "cat" {
			k.data = d
		}
	}
	e, st = m.start(r)
	c.run(e, st, m.fn, m.args)
	if k.data == nil {
		m.bad("element", nil, "does not read the element it is asked for under a key built from the receiver's prefix, the key and the field or index")
		return nil
	}
	return k
}

// decode reads a part of stored metadata.
func (k *spaceKeys) decode(part, v *Term) *Term {
	return signed(substTerm(part, map[*Term]*Term{k.metaV: v}, map[*Term]*Term{}))
}

// signed undoes the conversion of a negative constant to unsigned.
func signed(x *Term) *Term {
	if x.op == "app" && x.aux == "conv:uint64" && x.args[0].op == "int" {
		return x.args[0]
	}
	return x
}

func ghostInt(st *State, k string) *Term { return orZero(st.g(k)) }

func (m *structMon) hooks() *Rule {
	r := &Rule{Codec: true, Numeric: true}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if os.Getenv("DBG") == m.name {
			fmt.Println("  EV", ev.Name, ev.Op, ev.Args[1:])
		}
		switch ev.Op {
		case "Set", "Delete":
			m.write(st, ev)
		case "Get", "Exists":
			key := m.keyOf(st, ev.Args[1])
			if key != m.k.meta && m.fieldKey(key) == nil {
				m.bad("address", ev.Instr, "reads "+key.String()+", which belongs to no element of the key it was given")
			}
		case "Scan":
			m.scanStart(st, ev)
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		switch ev.Op {
		case "Get", "Exists":
			return m.read(st, ev, outs)
		case "Delete", "Set":
			var res []Out
			for _, o := range outs {
				res = append(res, forkErr(o)...)
			}
			return res
		case "Scan":
			var res []Out
			for _, o := range outs {
				if o.panic {
					res = append(res, o)
					continue
				}
				o.st.setGS("s.scan", o.why)
				for _, p := range forkErr(o) {
					if errOf(p).op != "nil" {
						p.st.setGS("s.scan", "failed")
					}
					res = append(res, p)
				}
			}
			return res
		}
		return outs
	}
	r.ScanCall = m.scanCall
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static != nil && ev.Static.Name() == "PrefixNext" && len(ev.Args) == 1 {
			return []Out{{st: st, res: []*Term{mkAppT(ev.Sig.Results().At(0).Type(), "prefixnext", stripCopy(e.content(st, ev.Args[0])))}}}, true
		}
		return nil, false
	}
	r.Append = m.appended
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		// no field given is left: the tracked one was not there
		if q := st.g("s.q"); q != nil && fn == m.fn && st.gs("s.seen") == "" && le(st, tLen(m.given(0)), q) {
			st.setGS("s.seen", "y")
		}
	}
	r.Store = m.stored
	return r
}

// read: what a Get (or Exists) of metadata or an element tells.
func (m *structMon) read(st *State, ev *Event, outs []Out) []Out {
	key := m.keyOf(st, ev.Args[1])
	x := m.fieldKey(key)
	var res []Out
	found := func(p Out) {
		if key == m.k.meta {
			if p.st.gs("s.meta") == "" {
				p.st.setGS("s.meta", "found")
				m.initial(p.st, p.res[0])
			}
		} else if x != nil {
			if m.list {
				m.element(p.st, ev, x, p.res[0])
			}
			if p.st.g("s.kf") == nil {
				p.st.setG("s.old", p.res[0])
			}
			p.st.setG("s.kf", x)
			p.st.setGS("s.kp", "yes")
			p.st.setG("s.kv", p.res[0])
			res = append(res, m.visit(p, x)...)
			return
		}
		res = append(res, p)
	}
	absent := func(p Out) {
		if key == m.k.meta {
			if p.st.gs("s.meta") == "" {
				p.st.setGS("s.meta", "absent")
			}
		} else if x != nil {
			p.st.setG("s.kf", x)
			p.st.setGS("s.kp", "no")
			p.st.setG("s.kv", nil)
			res = append(res, m.visit(p, x)...)
			return
		}
		res = append(res, p)
	}
	if x != nil && m.fn.Name() == "HDel" && st.gs("s.kp") == "yes" {
		m.bad("left", ev.Instr, "goes on and leaves a field it was to remove")
	}
	for _, o := range outs {
		for _, p := range forkErr(o) {
			if ev.Op == "Exists" {
				if errOf(p).op != "nil" {
					res = append(res, p)
					continue
				}
				q := Out{st: p.st.clone(), res: []*Term{tFalse, tNil}}
				if q.st.assume(p.res[0], false) {
					absent(q)
				}
				if p.st.assume(p.res[0], true) {
					p.res = []*Term{tTrue, tNil}
					if key == m.k.meta {
						m.bad("unread", ev.Instr, "asks whether the stored metadata exists without reading it")
					}
					found(p)
				}
				continue
			}
			if errOf(p).op == "nil" {
				found(p)
				continue
			}
			is, isOK, not, notOK := errIs(p, notFound())
			if isOK {
				is.res[0] = tNil
				absent(is)
			}
			if notOK {
				res = append(res, not)
			}
		}
	}
	return res
}

// initial: stored metadata is never that of an empty hash or list.
func (m *structMon) initial(st *State, v *Term) {
	v = stripCopy(m.e.content(st, v))
	if !m.list {
		n := m.k.decode(m.k.count, v)
		st.setG("s.n0", n)
		st.assume(tGe0(toLin(n).add(lin{c: 1}, -1)), true)
		return
	}
	l, r := m.k.decode(m.k.l, v), m.k.decode(m.k.r, v)
	st.setG("s.l0", l)
	st.setG("s.r0", r)
	if st.g("s.l") == nil {
		st.setG("s.l", l)
		st.setG("s.r", r)
	}
	st.assume(tGe0(toLin(r).add(toLin(l), -1).add(lin{c: 1}, -1)), true)
}

// write: a change of metadata or of an element.
func (m *structMon) write(st *State, ev *Event) {
	key := m.keyOf(st, ev.Args[1])
	if key == m.k.meta {
		if ev.Op == "Delete" {
			st.setGS("s.w", "gone")
			return
		}
		st.setGS("s.w", "set")
		st.setG("s.wv", stripCopy(m.e.content(st, ev.Args[2])))
		return
	}
	x := m.fieldKey(key)
	if x == nil {
		m.bad("address", ev.Instr, "calls "+ev.Op+" on "+key.String()+", which belongs to no element of the key it was given")
		return
	}
	if m.list {
		m.listWrite(st, ev, x)
		return
	}
	known := st.g("s.kf") == x
	if m.fn.Name() == "HClear" {
		if ev.Op != "Delete" {
			m.bad("effect", ev.Instr, "stores a field")
		}
		if st.g("s.cur") == x {
			st.setG("s.cur", nil)
		} else {
			m.bad("effect", ev.Instr, "removes something other than the field scanned")
		}
		return
	}
	p := st.gs("s.kp")
	switch {
	case !known:
		m.bad("unknown", ev.Instr, "changes a field without having found out whether it exists")
	case ev.Op == "Set" && p == "no":
		st.setG("s.d", tAdd(ghostInt(st, "s.d"), mkInt(1)))
	case ev.Op == "Delete" && p == "yes":
		st.setG("s.d", tAdd(ghostInt(st, "s.d"), mkInt(-1)))
	}
	st.setG("s.kf", x)
	st.setG("s.kv", nil)
	if ev.Op == "Set" {
		st.setGS("s.kp", "yes")
		st.setG("s.kv", stripCopy(m.e.content(st, ev.Args[2])))
	} else {
		st.setGS("s.kp", "no")
	}
}

// given: the i'th argument after the key.
func (m *structMon) given(i int) *Term {
	if len(m.args) > i+2 {
		return m.args[i+2]
	}
	return nil
}

// listArg: the index of an element of the list of byte strings given.
func (m *structMon) listArg(t *Term) *Term {
	t = stripCopy(t)
	if t.op != "sym" || t.info == nil || t.info.kind != "load" || m.given(0) == nil {
		return nil
	}
	p, _ := t.info.ptr.(*Term)
	if p == nil || p.op != "idx" || p.args[0] != m.given(0) {
		return nil
	}
	return p.args[1]
}

// proves: f cannot be false.
func refutes(st *State, facts ...*Term) bool {
	s := st.clone()
	for _, f := range facts {
		if !s.assume(f, true) {
			return true
		}
	}
	return false
}

func (m *structMon) exit(st *State, res []*Term, ok bool) {
	if m.list {
		m.listExit(st, res, ok)
		return
	}
	m.hashExit(st, res, ok)
}

func (m *structMon) run() {
	m.c.obl(map[bool]string{false: "hash count", true: "list bounds"}[m.list], m.name)
	e, st := m.start(m.hooks())
	if m.fn.Name() == "HDel" && m.given(0) != nil {
		m.tracked(st)
	}
	for _, o := range m.c.run(e, st, m.fn, m.args) {
		if os.Getenv("DBG") == m.name {
			fmt.Println("  EXIT", o.panic, o.res, o.st.gs("s.meta"), o.st.g("s.d"), o.st.gs("s.w"), o.st.g("s.wv"), o.st.g("s.q"), o.st.gs("s.seen"), o.st.g("s.n0"))
		}
		if o.panic {
			continue
		}
		for _, p := range forkErr(o) {
			m.exit(p.st, p.res, errOf(p).op == "nil")
		}
	}
}

func runStruct(c *Ctx, list bool) {
	for _, t := range structTypes(c.w) {
		k := learn(c, t, list)
		if k == nil {
			continue
		}
		var names []string
		for n := range t.ops {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f := t.ops[n]
			if list != (n[:1] == "L" || n[:1] == "R") || !list && n[:1] != "H" || !returnsErr(f.Signature) {
				continue
			}
			newStructMon(c, t, f, list, k).run()
		}
	}
}

func init() {
	register("P12", func(c *Ctx) {
		c.rule("The count a hash operation leaves stored is the count it read plus the fields it added minus those it removed, each field added or removed only after finding out whether it exists; the count is removed exactly when it would be zero; every field asked for is set, removed, incremented, returned.")
		runStruct(c, false)
		c.need("hash count", 10)
	})
	register("P13", func(c *Ctx) {
		c.rule("Every list operation adds and removes elements only at the ends delimited by the stored bounds and leaves stored bounds that delimit exactly what is left, none for an empty list; pushes take all values in order, pops return the element removed, indexes reach the element counted from either end.")
		runStruct(c, true)
		c.need("list bounds", 8)
	})
}

// ---- hashes

// tracked picks an arbitrary one of the fields given, to be dealt with.
func (m *structMon) tracked(st *State) {
	q := mkFresh("sym", types.Typ[types.Int], &SymInfo{kind: "tracked", site: "tracked", name: "any field given"})
	st.assume(tGe0(toLin(q)), true)
	st.assume(tGe0(toLin(tLen(m.given(0))).add(toLin(q), -1).add(lin{c: 1}, -1)), true)
	st.setG("s.q", q)
}

// visit notes whether the element of the given list is the tracked one.
func (m *structMon) visit(p Out, x *Term) []Out {
	q := p.st.g("s.q")
	i := m.listArg(x)
	if q == nil || i == nil || p.st.gs("s.seen") != "" {
		return []Out{p}
	}
	var res []Out
	add := func(seen string, fs ...*Term) {
		s := p.st.clone()
		for _, f := range fs {
			if !s.assume(f, true) {
				return
			}
		}
		s.setGS("s.seen", seen)
		res = append(res, Out{st: s, res: append([]*Term{}, p.res...)})
	}
	d := toLin(q).add(toLin(i), -1)
	add("", tGe0(d.add(lin{c: 1}, -1)))
	add("", tGe0((lin{c: -1}).add(d, -1)))
	add("y", tGe0(d), tGe0((lin{}).add(d, -1)))
	return res
}

func (m *structMon) dataPrefix() *Term {
	n := len(m.k.data.args)
	return mkCat(m.k.data.args[:n-1]...)
}

// scanStart: a scan covers exactly the elements of the key.
func (m *structMon) scanStart(st *State, ev *Event) {
	d := &docMon{e: m.e}
	pre, off, _ := d.scanOpts(st, ev)
	rev := d.scanReverse(ev)
	want := m.dataPrefix()
	var at *Term
	isNil := func(t *Term) bool { return t == nil || t.op == "nil" }
	switch {
	case rev == tFalse && !isNil(pre) && m.norm(pre) == want && isNil(off):
		at = pre
	case rev == tFalse && isNil(pre) && !isNil(off) && m.norm(off) == want:
		at = off
	case rev == tTrue && !isNil(pre) && m.norm(pre) == want && isNil(off):
		at = pre
	case rev == tTrue && !isNil(off) && off.op == "app" && off.aux == "prefixnext" && m.norm(off.args[0]) == want:
		at = off.args[0]
	default:
		m.bad("scan-range", ev.Instr, "scans something other than the elements of the key it was given")
	}
	if m.list {
		m.bad("scan", ev.Instr, "scans a list")
	}
	st.setG("s.at", at)
	st.setG("s.rev", rev)
	st.setGS("s.scan", "")
}

func (m *structMon) scanCall(e *Eng, st *State, ev *Event, as []*Term) {
	m.skipped(st, ev.Instr)
	at := st.g("s.at")
	if at == nil || m.list {
		return
	}
	f := mkFresh("sym", types.NewSlice(types.Typ[types.Byte]), &SymInfo{kind: "scanfield", site: "scanfield", name: "scanfield"})
	last := m.k.data.args[len(m.k.data.args)-1]
	as[0] = mkCat(at, substTerm(last, map[*Term]*Term{phF: f}, map[*Term]*Term{}))
	if m.fn.Name() == "HClear" {
		st.setG("s.key", m.norm(as[0]))
	}
	st.setG("s.cur", f)
	st.setG("s.val", as[1])
}

func (m *structMon) skipped(st *State, ins ssa.Instruction) {
	if st.g("s.cur") != nil {
		m.bad("skipped", ins, "goes on without having dealt with the element scanned before")
		st.setG("s.cur", nil)
	}
}

func (m *structMon) appended(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
	for _, x := range elems {
		m.result(st, ins, x)
	}
}

func (m *structMon) stored(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
	if loc.op == "idx" && locBase(loc).op == "make" && m.list {
		if !eqInt(st, loc.args[1], ghostInt(st, "s.n")) {
			m.bad("result", ins, "puts an element at the wrong place of the result")
		}
		m.result(st, ins, val)
	}
}

// result: something is added to the result.
func (m *structMon) result(st *State, ins ssa.Instruction, x *Term) {
	same := func(a, b *Term) bool {
		return b != nil && stripCopy(m.e.content(st, a)) == stripCopy(m.e.content(st, b))
	}
	if m.list {
		if m.fn.Name() != "LGetAll" {
			return
		}
		if !same(x, st.g("s.cur")) {
			m.bad("result", ins, "adds something to the result that is not the element just read")
		}
		st.setG("s.cur", nil)
		st.setG("s.n", tAdd(ghostInt(st, "s.n"), mkInt(1)))
		return
	}
	f, v := st.g("s.cur"), st.g("s.val")
	switch m.fn.Name() {
	case "HKeys":
		if f == nil || !same(x, f) {
			m.bad("result", ins, "adds something to the result that is not the field just scanned")
		}
	case "HGetAll", "HGetN", "HGetNDesc":
		if f == nil || x.op != "struct" || len(x.args) != 2 || !same(x.args[0], f) || !same(x.args[1], v) {
			m.bad("result", ins, "adds something to the result that is not the field and value just scanned")
		}
	default:
		return
	}
	st.setG("s.cur", nil)
	st.setG("s.n", tAdd(ghostInt(st, "s.n"), mkInt(1)))
}

func (m *structMon) hashExit(st *State, res []*Term, ok bool) {
	if !ok {
		return
	}
	bad := func(detail, msg string) { m.bad(detail, nil, msg) }
	name := m.fn.Name()
	meta := st.gs("s.meta")
	var n0 *Term
	switch meta {
	case "found":
		n0 = st.g("s.n0")
	case "absent":
		n0 = mkInt(0)
	}
	d := ghostInt(st, "s.d")
	if name == "HClear" {
		if meta != "absent" {
			if st.g("s.cur") != nil {
				bad("skipped", "succeeds without having removed the last field scanned")
			}
			if st.gs("s.scan") != "end" {
				bad("incomplete", "succeeds without having gone through all fields")
			}
			if st.gs("s.w") != "gone" {
				bad("count-left", "succeeds and leaves the count behind")
			}
		}
		return
	}
	switch st.gs("s.w") {
	case "set":
		n := m.k.decode(m.k.count, st.g("s.wv"))
		if n0 == nil || !eqInt(st, n, tAdd(n0, d)) {
			bad("count", "stores a count that is not the count before plus the fields added minus those removed")
		} else if !le(st, mkInt(1), n) {
			bad("empty", "may store a count of zero instead of removing it")
		}
	case "gone":
		if n0 == nil || !le(st, tAdd(n0, d), mkInt(0)) {
			bad("count-lost", "removes the count although fields are left")
		}
	default:
		if !eqInt(st, d, mkInt(0)) {
			bad("count", "adds or removes fields without updating the count")
		}
	}
	kf, kp, kv := st.g("s.kf"), st.gs("s.kp"), st.g("s.kv")
	if kv != nil {
		kv = stripCopy(m.e.content(st, kv))
	}
	fieldOK := kf != nil && kf == m.given(0)
	holds := func(want *Term) bool {
		if !fieldOK || kp != "yes" || kv == nil {
			return false
		}
		want = stripCopy(m.e.content(st, want))
		if kv == want {
			return true
		}
		a, b := kv, want
		if a.id > b.id {
			a, b = b, a
		}
		v, known := st.evalBool(mkApp("bytes.Equal", a, b))
		return known && v
	}
	old := st.g("s.old")
	switch name {
	case "HSet":
		if !holds(m.given(1)) {
			bad("value", "succeeds without the field holding the value it was given")
		}
	case "HSetInt64":
		if !holds(mkApp("fmtint", m.given(1))) {
			bad("value", "succeeds without the field holding the number it was given")
		}
	case "HInc":
		if !holds(mkApp("fmtint", res[0])) {
			bad("value", "succeeds without the field holding the number it returns")
		}
		sum := m.given(1)
		if old != nil && !st.isNil(old) {
			sum = tAdd(sum, mkApp("parseint", stripCopy(m.e.content(st, old))))
		}
		if !eqInt(st, res[0], sum) {
			bad("sum", "does not add the step to the number stored before")
		}
	case "HGet":
		if !fieldOK || kp != "yes" || kv == nil || stripCopy(m.e.content(st, res[0])) != kv {
			bad("value", "succeeds without returning the value of the field")
		}
	case "HGetInt64":
		if !fieldOK || kp != "yes" || kv == nil || !eqInt(st, res[0], mkApp("parseint", kv)) {
			bad("value", "succeeds without returning the number held by the field")
		}
	case "HLen":
		if n0 == nil || !eqInt(st, res[0], n0) {
			bad("length", "does not return the stored count (zero when there is none)")
		}
	case "HDel":
		if kp == "yes" {
			bad("left", "succeeds and leaves a field it was to remove")
		}
		if meta != "absent" && st.gs("s.seen") == "" {
			bad("incomplete", "succeeds without having looked at every field it was given")
		}
	case "HKeys", "HGetAll", "HGetN", "HGetNDesc":
		m.scanned(st, res)
	}
}

// scanned: what an operation listing fields returns.
func (m *structMon) scanned(st *State, res []*Term) {
	bad := func(detail, msg string) { m.bad(detail, nil, msg) }
	name := m.fn.Name()
	if st.g("s.cur") != nil {
		bad("skipped", "succeeds without having returned the last field scanned")
	}
	n := ghostInt(st, "s.n")
	if !eqInt(st, tLen(res[0]), n) {
		bad("result", "does not return the fields it scanned")
	}
	lim := (*Term)(nil)
	if name == "HGetN" || name == "HGetNDesc" {
		lim = m.given(0)
	}
	if st.g("s.rev") != nil && (name == "HGetNDesc") != (st.g("s.rev") == tTrue) {
		bad("order", "scans in the wrong direction")
	}
	switch {
	case st.g("s.rev") == nil:
		if lim == nil || !le(st, lim, mkInt(0)) {
			bad("incomplete", "succeeds without having scanned the fields")
		}
	case st.gs("s.scan") != "end" && (lim == nil || !eqInt(st, n, lim)):
		bad("incomplete", "succeeds although it did not go through all the fields asked for")
	case lim != nil && !le(st, n, lim):
		bad("too-many", "may return more fields than asked for")
	}
}

// ---- lists

func (m *structMon) listWrite(st *State, ev *Event, x *Term) {
	bad := func(detail, msg string) { m.bad(detail, ev.Instr, msg) }
	name := m.fn.Name()
	if st.gs("s.meta") == "" {
		bad("unread", "changes an element without having read the stored bounds")
		return
	}
	l, r := st.g("s.l"), st.g("s.r")
	one := mkInt(1)
	if l == nil {
		l = x
		if name == "LPush" {
			l = tAdd(x, one)
		}
		r = l
		st.setG("s.l0", l)
		st.setG("s.r0", r)
	}
	atL, atR := eqInt(st, x, tSub(l, one)), eqInt(st, x, r)
	firstE, lastE := eqInt(st, x, l), eqInt(st, x, tSub(r, one))
	if ev.Op == "Set" {
		v := stripCopy(m.e.content(st, ev.Args[2]))
		switch {
		case name == "LSet":
			if !le(st, l, x) || !lt(st, x, r) {
				bad("outside", "stores an element outside the bounds")
			}
			if v != stripCopy(m.e.content(st, m.given(1))) {
				bad("value", "stores something other than the value it was given")
			}
			st.setG("s.set", x)
		case name != "RPush" && atL:
			l = x
		case name != "LPush" && atR:
			r = tAdd(x, one)
		default:
			bad("end", "stores an element that is not next to the requested end")
		}
		if name == "LPush" || name == "RPush" {
			i := m.listArg(v)
			if i == nil || !eqInt(st, i, ghostInt(st, "s.n")) {
				bad("order", "does not store the values it was given in order")
			}
			st.setG("s.n", tAdd(ghostInt(st, "s.n"), one))
		}
	} else {
		switch {
		case name != "RPop" && firstE:
			l = tAdd(x, one)
		case name != "LPop" && lastE:
			r = x
		default:
			bad("end", "removes an element that is not at the requested end")
		}
		st.setG("s.del", x)
		if st.g("s.gx") != x {
			st.setG("s.gx", nil)
		}
	}
	st.setG("s.l", l)
	st.setG("s.r", r)
}

// element: an element was read.
func (m *structMon) element(st *State, ev *Event, x, v *Term) {
	if m.fn.Name() == "LGetAll" {
		m.skipped(st, ev.Instr)
		if r := st.g("s.r"); r == nil || !eqInt(st, x, tSub(tSub(r, mkInt(1)), ghostInt(st, "s.n"))) {
			m.bad("order", ev.Instr, "does not read the elements one by one from the right bound")
		}
		st.setG("s.cur", v)
	}
	if st.g("s.del") == nil {
		st.setG("s.gx", x)
		st.setG("s.gv", v)
	}
}

// reaches: the position is the one the index names.
func (m *structMon) reaches(st *State, x *Term) bool {
	i, l, r := m.given(0), st.g("s.l0"), st.g("s.r0")
	if i == nil || l == nil || x == nil || !le(st, l, x) || !lt(st, x, r) {
		return false
	}
	return le(st, mkInt(0), i) && eqInt(st, x, tAdd(i, l)) || lt(st, i, mkInt(0)) && eqInt(st, x, tAdd(i, r))
}

// outside: the index names no element.
func (m *structMon) outside(st *State) bool {
	if st.gs("s.meta") == "absent" {
		return true
	}
	i, l, r := m.given(0), st.g("s.l0"), st.g("s.r0")
	if i == nil || l == nil {
		return false
	}
	ge := func(a, b *Term) *Term { return tGe0(toLin(a).add(toLin(b), -1)) }
	gt := func(a, b *Term) *Term { return tGe0(toLin(a).add(toLin(b), -1).add(lin{c: 1}, -1)) }
	return refutes(st, ge(i, mkInt(0)), gt(r, tAdd(i, l))) && refutes(st, gt(mkInt(0), i), ge(tAdd(i, r), l))
}

func (m *structMon) listExit(st *State, res []*Term, ok bool) {
	bad := func(detail, msg string) { m.bad(detail, nil, msg) }
	name := m.fn.Name()
	meta := st.gs("s.meta")
	if !ok {
		if name == "LSet" || name == "LIndex" {
			if er := res[len(res)-1]; er == notFound() && meta == "found" && st.g("s.kf") == nil && !m.outside(st) {
				bad("missed", "reports that no element has the index although one may")
			}
		}
		return
	}
	l, r, l0, r0 := st.g("s.l"), st.g("s.r"), st.g("s.l0"), st.g("s.r0")
	switch st.gs("s.w") {
	case "set":
		if l == nil {
			bad("bounds", "stores bounds without having read or stored an element")
			break
		}
		v := st.g("s.wv")
		if !eqInt(st, m.k.decode(m.k.l, v), l) || !eqInt(st, m.k.decode(m.k.r, v), r) {
			bad("bounds", "stores bounds that are not those of the elements left")
		} else if !lt(st, l, r) {
			bad("empty", "may store bounds for an empty list instead of removing them")
		}
	case "gone":
		if l == nil || !le(st, r, l) {
			bad("bounds-lost", "removes the bounds although elements may be left")
		}
	default:
		if l != nil && (!eqInt(st, l, l0) || !eqInt(st, r, r0)) {
			bad("bounds", "adds or removes elements without updating the bounds")
		}
	}
	n := ghostInt(st, "s.n")
	switch name {
	case "LPush", "RPush":
		if !eqInt(st, n, tLen(m.given(0))) {
			bad("incomplete", "succeeds without having stored every value it was given")
		}
	case "LPop", "RPop":
		want := l0
		if name == "RPop" && r0 != nil {
			want = tSub(r0, mkInt(1))
		}
		if x := st.g("s.del"); x == nil || l0 == nil || !eqInt(st, x, want) {
			bad("removed", "succeeds without having removed the element at the requested end")
		} else if g := st.g("s.gx"); g == nil || !eqInt(st, g, x) || stripCopy(m.e.content(st, res[0])) != stripCopy(m.e.content(st, st.g("s.gv"))) {
			bad("result", "does not return the element it removed")
		}
	case "LLen":
		switch {
		case meta == "absent" && !eqInt(st, res[0], mkInt(0)), meta == "":
			bad("length", "does not report an absent list as empty")
		case meta == "found" && !eqInt(st, res[0], tSub(r0, l0)):
			bad("length", "does not report the number of elements")
		}
	case "LGetAll":
		if meta == "absent" {
			break
		}
		m.skipped(st, nil)
		if l0 == nil || !eqInt(st, n, tSub(r0, l0)) {
			bad("incomplete", "succeeds without having read every element")
		} else if !eqInt(st, tLen(res[0]), n) {
			bad("result", "does not return the elements it read")
		}
	case "LIndex":
		if g := st.g("s.gx"); g != nil {
			if !m.reaches(st, g) {
				bad("index", "reads an element other than the one at the index")
			} else if stripCopy(m.e.content(st, res[0])) != stripCopy(m.e.content(st, st.g("s.gv"))) {
				bad("result", "does not return the element it read")
			}
		} else if !m.outside(st) {
			bad("missed", "returns nothing although the index may name an element")
		} else if !st.isNil(res[0]) {
			bad("result", "returns something although the index names no element")
		}
	case "LSet":
		if !m.reaches(st, st.g("s.set")) {
			bad("index", "succeeds without having stored the value at the index")
		}
	case "LClear":
		if meta == "found" && st.gs("s.w") != "gone" {
			bad("bounds-left", "succeeds and leaves the bounds behind")
		}
	}
}
