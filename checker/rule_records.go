package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The catalog's record map: which stored records each catalog operation reads
// and writes, by the terms of their keys.

// recOp is one access of a catalog operation to the structure layer.
type recOp struct {
	method *ssa.Function // the catalog operation
	op     string
	keys   []*Term // key, then field when there is one
	val    *Term   // what is written (a stored form), nil otherwise
	res    []*Term
	err    *Term
	ins    ssa.Instruction
	fn     *ssa.Function
}

// recRet is one way a catalog operation ends.
type recRet struct {
	e   *Eng
	st  *State
	res []*Term
	ops []*recOp
	err []*Term // the accesses' errors, nil for those that succeeded
}

type recMap struct {
	ops     []*recOp
	reads   []recRead
	rets    map[*ssa.Function][]recRet
	methods map[string]*ssa.Function
}

// recRead is one decoding of something stored.
type recRead struct {
	method *ssa.Function
	op     *recOp
	typ    types.Type
	into   *Term
	only   string // the prefix of the fields that are decoded
	ins    ssa.Instruction
}

// structOps: how many key parameters an operation has and whether it writes.
var structOps = map[string]struct {
	keys  int
	write bool
}{
	"Set": {1, true}, "Get": {1, false}, "Clear": {1, true}, "GetInt64": {1, false}, "SetInt64": {1, true}, "Inc": {1, true},
	"HSet": {2, true}, "HGet": {2, false}, "HInc": {2, true}, "HGetInt64": {2, false}, "HSetInt64": {2, true}, "HLen": {1, false}, "HDel": {2, true},
	"HKeys": {1, false}, "HGetN": {1, false}, "HGetAll": {1, false}, "HGetNDesc": {1, false}, "HClear": {1, true},
	"LPush": {1, true}, "RPush": {1, true}, "LPop": {1, true}, "RPop": {1, true}, "LLen": {1, false}, "LGetAll": {1, false}, "LIndex": {1, false}, "LSet": {1, true}, "LClear": {1, true},
}

func structOp(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil || f.Parent() != nil {
		return ""
	}
	n := recvNamed(f)
	if n == nil || n.Obj().Name() != "TxStructure" {
		return ""
	}
	if _, ok := structOps[f.Name()]; !ok {
		return ""
	}
	return f.Name()
}

func isMetaMethod(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	n := recvNamed(f)
	return n != nil && n.Obj().Name() == "Meta" && strings.HasSuffix(fnPkg(f), "/meta")
}

// records runs every catalog operation.
func records(c *Ctx) *recMap {
	w := c.w
	m := &recMap{rets: map[*ssa.Function][]recRet{}, methods: map[string]*ssa.Function{}}
	for _, f := range w.funcs {
		if isMetaMethod(f) {
			m.methods[f.Name()] = f
			m.run(c, f)
		}
	}
	// sequences over catalog keys
	return m
}

func (m *recMap) names() []string {
	var r []string
	for n := range m.methods {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// listOps give more than one record.
var listOps = map[string]bool{"HGetAll": true, "HGetN": true, "HGetNDesc": true, "LGetAll": true}

// source is the access whose result a value comes from.
func (m *recMap) source(f *ssa.Function, v *Term) *recOp {
	for i := len(m.ops) - 1; i >= 0; i-- {
		o := m.ops[i]
		if o.method != f {
			continue
		}
		for _, x := range o.res[:len(o.res)-1] {
			if reads(v, x) {
				return o
			}
		}
	}
	return nil
}

// looked counts an element of a list that is decoded or passed over. Counting
// by the element's own position keeps the count related to the loop's variable.
func looked(st *State, v *Term) {
	one := mkInt(1)
	if s := st.g("b.seen"); s != nil {
		st.setG("b.seen", tAdd(s, one))
	}
	var i *Term
	if p := elemPtr(v); p != nil {
		i = p.args[1]
	}
	if l := st.g("b.last"); l != nil {
		if i != nil && !eqInt(st, tAdd(l, one), i) {
			i = nil
		}
		st.setG("b.last", i)
	}
	i = nil
	if p := elemPtr(v); p != nil {
		i = p.args[1]
	}
	if n := st.g("b.next"); n != nil {
		if i != nil && eqInt(st, n, i) {
			st.setG("b.next", tAdd(i, one))
		} else {
			st.setG("b.next", nil)
		}
	}
}

// reads: v holds x or was read from something that holds x.
func reads(v, x *Term) bool {
	if has(v, x) {
		return true
	}
	found := false
	walk(v, map[*Term]bool{}, func(t *Term) {
		if t.op == "sym" && t.info != nil && t.info.kind == "load" && !found {
			if p, ok := t.info.ptr.(*Term); ok && p != nil {
				found = reads(p, x)
			}
		}
	})
	return found
}

func (m *recMap) run(c *Ctx, f *ssa.Function) {
	r := &Rule{Numeric: c.prop == "P21"}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Static == nil || ev.Static.String() != "encoding/json.Unmarshal" {
			return outs
		}
		into := unIface(ev.Args[1])
		o := m.source(f, ev.Args[0])
		for i := range outs {
			s := outs[i].st
			for _, d := range ghostArgs(s, "may:dec") {
				if d == into && c.prop == "P21" && o != nil && listOps[o.op] {
					c.fail("returned", shortName(f.String()), "shared", e.pos(ev.Instr), shortName(f.String())+" decodes several records into the same one")
				}
			}
			addTo(s, "may:dec", into)
			if failing(s, outs[i].res) || o == nil || !listOps[o.op] {
				continue
			}
			s.setG("b.dec", tAdd(orZero(s.g("b.dec")), mkInt(1)))
			looked(s, ev.Args[0])
		}
		return outs
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static == nil || ev.Kind == "go" {
			return nil, false
		}
		switch {
		case structOp(ev.Static) != "":
			op := structOp(ev.Static)
			o := &recOp{method: f, op: op, ins: ev.Instr, fn: ev.Fn}
			n := structOps[op].keys
			args := ev.Args[1:]
			for i := 0; i < n; i++ {
				if op == "HDel" && i == 1 {
					el, ok := e.sliceElems(st, args[1], ev.Sig.Params().At(1).Type().Underlying().(*types.Slice).Elem())
					if ok && len(el) == 1 {
						o.keys = append(o.keys, el[0])
						continue
					}
				}
				o.keys = append(o.keys, args[i])
			}
			switch op {
			case "Set", "SetInt64", "Inc", "HSet", "HSetInt64", "HInc":
				o.val = args[n]
			case "LSet":
				o.val = args[2]
			case "LPush", "RPush":
				if el, ok := e.sliceElems(st, args[1], ev.Sig.Params().At(1).Type().Underlying().(*types.Slice).Elem()); ok && len(el) == 1 {
					o.val = el[0]
				} else {
					o.val = args[1]
				}
			}
			res := e.freshResults(ev)
			o.res = res
			o.err = res[len(res)-1]
			n = -1
			for i, x := range m.ops {
				if x.method == f && x.ins == o.ins && x.op == op && x.val == o.val && sameTerms(x.keys, o.keys) && sameTerms(x.res, o.res) {
					n = i
				}
			}
			if n < 0 {
				n = len(m.ops)
				m.ops = append(m.ops, o)
			}
			ot := mk("rop", strconv.Itoa(n), o.err)
			if c.prop == "P21" {
				// what is known of the results is kept
				ot = mk("rop", strconv.Itoa(n), append([]*Term{o.err}, res[:len(res)-1]...)...)
			}
			st.setG("r.ops", mk("tuple", "", append(append([]*Term{}, ghostArgs(st, "r.ops")...), ot)...))
			out := Out{st: st, res: res}
			return forkErr(out), true
		case ev.Static.String() == "encoding/json.Marshal":
			res := e.freshResults(ev)
			a := unIface(ev.Args[0])
			js := mkAppT(types.NewSlice(types.Typ[types.Byte]), "json", a)
			js2 := js
			if ifc := ev.Args[0]; ifc.op != "iface" {
				js2 = mkAppT(types.NewSlice(types.Typ[types.Byte]), "jsonany", a)
			}
			er := Out{st: st.clone(), res: []*Term{tNil, res[1]}}
			res[1].nonNilIn(er.st)
			return []Out{{st: st, res: []*Term{js2, tNil}}, er}, true
		case ev.Static.String() == "bytes.HasPrefix" && c.prop == "P21" && m.source(f, ev.Args[0]) != nil:
			no := Out{st: st.clone(), res: []*Term{tFalse}}
			looked(no.st, ev.Args[0])
			st.setGS("b.only", strings.Trim(keyShape(e.content(st, ev.Args[1])), `"`))
			return []Out{{st: st, res: []*Term{tTrue}}, no}, true
		case ev.Static.String() == "encoding/json.Unmarshal":
			for _, o := range m.ops {
				if o.method != f {
					continue
				}
				for _, x := range o.res[:len(o.res)-1] {
					if c.prop == "P21" && reads(ev.Args[0], x) || has(ev.Args[0], x) {
						rd := recRead{method: f, op: o, into: unIface(ev.Args[1]), ins: ev.Instr}
						rd.only = st.gs("b.only")
						if a := ev.Args[1]; a.op == "iface" {
							rd.typ = deref(a.args[0].typ)
						}
						m.reads = append(m.reads, rd)
					}
				}
			}
		}
		return nil, false
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f {
			return
		}
		rr := recRet{e: e, st: st.clone(), res: append([]*Term{}, res...)}
		for _, t := range ghostArgs(st, "r.ops") {
			if t.op != "rop" {
				rr.ops, rr.err = append(rr.ops, &recOp{method: f}), append(rr.err, t)
				continue
			}
			n, _ := strconv.Atoi(t.aux)
			rr.ops = append(rr.ops, m.ops[n])
			rr.err = append(rr.err, t.args[0])
		}
		m.rets[f] = append(m.rets[f], rr)
	}
	e := newEng(c.w, r)
	st := newState()
	if c.prop == "P21" {
		st.setG("b.dec", mkInt(0))
		st.setG("b.seen", mkInt(0))
		st.setG("b.next", mkInt(0))
		st.setG("b.last", mkInt(-1))
	}
	args := e.paramSyms(st, f)
	for i, a := range args {
		st.setG("r.arg"+string(rune('0'+i)), a)
	}
	c.run(e, st, f, args)
}

// arg is the i-th argument of the operation (0 is the receiver).
func (r *recRet) arg(i int) *Term { return r.st.g("r.arg" + string(rune('0'+i))) }

// failed: the operation has reported an error.
func (r *recRet) failed() bool {
	v, known := r.st.evalBool(tEq(r.res[len(r.res)-1], tNil))
	return known && !v
}

// writers are the accesses that may change what is stored under a key.
func (m *recMap) writers(key *Term) (r []*recOp) {
	for _, o := range m.ops {
		if structOps[o.op].write && o.keys[0] == key {
			r = append(r, o)
		}
	}
	return
}

// counter checks an operation that advances a counter by a step and returns
// the number reached; it gives the counter's key.
func (m *recMap) counter(c *Ctx, rule, name string, step func(r *recRet) *Term) *Term {
	f := m.methods[name]
	if f == nil {
		c.fail(rule, name, "missing", "-", "the operation "+name+" was not found")
		return nil
	}
	var key *Term
	at := c.w.pos(f.Pos())
	c.obl(rule, shortName(f.String()))
	for i := range m.rets[f] {
		r := &m.rets[f][i]
		if r.failed() {
			continue
		}
		if len(r.ops) != 1 || r.ops[0].op != "Inc" || len(r.ops[0].keys) != 1 {
			c.fail(rule, name, "shape", at, name+" reports success without advancing its counter exactly once")
			continue
		}
		o := r.ops[0]
		if key != nil && key != o.keys[0] {
			c.fail(rule, name, "key", at, name+" advances different counters")
		}
		key = o.keys[0]
		if same(r.st, o.val, step(r)) != 1 {
			c.fail(rule, name, "step", c.w.pos(o.ins.Pos()), name+" advances the counter by something else than the numbers it hands out")
		}
	}
	if key == nil {
		c.fail(rule, name, "shape", at, name+" never advances a counter")
	}
	return key
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ghostArgs(st *State, g string) []*Term {
	if t := st.g(g); t != nil {
		return t.args
	}
	return nil
}
