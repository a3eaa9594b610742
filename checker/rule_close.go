package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P25: operations on a closed database are refused, and closing waits.

// isCloser: an object that counts operations in progress.
func isCloser(t types.Type) bool {
	s := types.TypeString(deref(t), nil)
	return strings.HasSuffix(s, "/closer.Strict") || strings.HasSuffix(s, "/closer.Naive")
}

func closerCall(ev *Event) string {
	for _, t := range []string{"closer.Strict).", "closer.Naive)."} {
		if i := strings.Index(ev.Name, t); i >= 0 {
			return ev.Name[i+len(t):]
		}
	}
	return ""
}

// closable: a type that owns a closer, or points to one that does.
type closable struct {
	typ   *types.Named
	owner *types.Named
	field int // the field leading to the owner, -1 for the owner itself
}

func closables(w *World) []closable {
	var res []closable
	owners := map[*types.Named]bool{}
	var all []*types.Named
	seen := map[*types.Named]bool{}
	for _, f := range w.funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		n := recvNamed(f)
		if n == nil || seen[n] || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
			continue
		}
		seen[n] = true
		all = append(all, n)
		if s, ok := n.Underlying().(*types.Struct); ok && holdsStore(n, 0) {
			for i := 0; i < s.NumFields(); i++ {
				if isCloser(s.Field(i).Type()) {
					owners[n] = true
				}
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, n := range all {
		if owners[n] {
			res = append(res, closable{n, n, -1})
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if p, ok := types.Unalias(deref(s.Field(i).Type())).(*types.Named); ok && owners[p] {
				res = append(res, closable{n, p, i})
			}
		}
	}
	return res
}

var closedName = regexp.MustCompile(`(?i)closed$`)

type closeMon struct {
	c   *Ctx
	w   *World
	seq map[*types.Named]bool
	e   *Eng
}

// uses: the call touches the store or a sequence.
func (m *closeMon) uses(ev *Event) string {
	if ev.Op != "" {
		return ev.Op
	}
	if isSeqMethod(m.seq, ev.Static) {
		return "a sequence"
	}
	return ""
}

func (m *closeMon) opsOf(cl closable) []*ssa.Function {
	var res []*ssa.Function
	for _, f := range m.w.funcs {
		if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() != nil && recvNamed(f) == cl.typ && f.Object() != nil && f.Object().Exported() && f.Name() != "Close" {
			res = append(res, f)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	return res
}

func (m *closeMon) closeOf(owner *types.Named) *ssa.Function {
	for _, f := range m.w.funcs {
		if f.Parent() == nil && f.Signature.Recv() != nil && recvNamed(f) == owner && f.Name() == "Close" && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

// inProgress: while open, the store is touched only by operations that the
// closer knows to be in progress.
func (m *closeMon) inProgress(f *ssa.Function) {
	name := shortName(f.String())
	bad := func(e *Eng, detail string, ins ssa.Instruction, msg string) {
		at := m.w.pos(f.Pos())
		if ins != nil {
			at = e.pos(ins)
		}
		m.c.fail("in progress", name, detail, at, name+": "+msg)
	}
	r := &Rule{}
	r.Opaque = func(fn *ssa.Function) bool { return isSeqMethod(m.seq, fn) }
	depth := func(st *State) int { return len(st.gs("k.in")) }
	r.Before = func(e *Eng, st *State, ev *Event) {
		if u := m.uses(ev); u != "" && depth(st) == 0 {
			bad(e, "outside", ev.Instr, "uses "+u+" while closing does not wait for it")
		}
		switch closerCall(ev) {
		case "SignalAndWait":
			bad(e, "closes", ev.Instr, "closes the database")
		case "Done":
			m.leave(st, func(d, msg string) { bad(e, d, ev.Instr, msg) })
		case "Add":
			if k := ev.Args[1]; k.op == "int" && k.c == -1 {
				m.leave(st, func(d, msg string) { bad(e, d, ev.Instr, msg) })
			}
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Kind == "go" && ev.Static != nil && m.reaches()[ev.Static] {
			bad(e, "background", ev.Instr, "goes on using the store in the background, closing does not wait for it")
		}
		if closerCall(ev) != "Add" {
			return outs
		}
		k := ev.Args[1]
		if k.op != "int" || k.c != 1 && k.c != -1 {
			bad(e, "count", ev.Instr, "counts itself in by other than one")
			return outs
		}
		if k.c != 1 {
			return outs
		}
		var res []Out
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					p.st.setGS("k.in", p.st.gs("k.in")+"|")
				}
				res = append(res, p)
			}
		}
		return res
	}
	e := newEng(m.w, r)
	m.c.obl("in progress", name)
	for _, o := range m.c.run(e, nil, f, nil) {
		if depth(o.st) > 0 {
			bad(e, "left", nil, "ends without telling that it is no longer in progress: closing would wait for ever")
		}
	}
}

func (m *closeMon) leave(st *State, bad func(d, msg string)) {
	d := st.gs("k.in")
	if d == "" {
		bad("not-in", "tells that it is no longer in progress although it was not counted in")
		return
	}
	st.setGS("k.in", d[1:])
}

func (m *closeMon) reaches() map[*ssa.Function]bool {
	return m.w.reaching(func(cc *ssa.CallCommon) bool {
		op, _ := m.w.callInfo(cc)
		return op != "" || isSeqMethod(m.seq, cc.StaticCallee())
	})
}

// closing: the order of the steps of Close; it returns the states it leaves.
func (m *closeMon) closing(f *ssa.Function) (recv *Term, ends []*State) {
	name := shortName(f.String())
	bad := func(e *Eng, detail string, ins ssa.Instruction, msg string) {
		at := m.w.pos(f.Pos())
		if ins != nil {
			at = e.pos(ins)
		}
		m.c.fail("close", name, detail, at, name+": "+msg)
	}
	second := false
	r := &Rule{}
	r.Opaque = func(fn *ssa.Function) bool { return isSeqMethod(m.seq, fn) }
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if outs, ok := m.cas(e, st, ev, second); ok {
			return outs, true
		}
		if ev.Name != "(*sync.Once).Do" {
			return nil, false
		}
		k := "k.once:" + locName(ev.Args[0])
		if st.gs(k) != "" {
			return []Out{{st: st}}, true
		}
		st.setGS(k, "y")
		outs := e.callValue(st, ev.Args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), ev.Instr, "call")
		for i := range outs {
			outs[i].res = nil
		}
		return outs, true
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if closerCall(ev) == "SignalAndWait" {
			if second {
				bad(e, "twice", ev.Instr, "waits a second time when called a second time (which panics)")
			}
			if st.gs("k.waited") != "" {
				bad(e, "twice", ev.Instr, "waits twice (which panics)")
			}
			st.setGS("k.waited", "y")
			return
		}
		if u := m.uses(ev); u != "" {
			switch {
			case second:
				bad(e, "second", ev.Instr, "uses "+u+" when called a second time")
			case st.gs("k.waited") == "":
				bad(e, "early", ev.Instr, "uses "+u+" before the operations in progress have ended")
			}
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Kind == "go" && ev.Static != nil && m.reaches()[ev.Static] {
			bad(e, "background", ev.Instr, "goes on in the background after it has returned")
		}
		return outs
	}
	e := newEng(m.w, r)
	st := newState()
	args := e.paramSyms(st, f)
	recv = args[0]
	st.setG("k.recv", recv)
	m.c.obl("close", name)
	for _, o := range m.c.run(e, st, f, args) {
		if o.panic {
			bad(e, "panic", nil, "panics")
			continue
		}
		if o.st.gs("k.waited") == "" {
			continue // it found the database closed already
		}
		ends = append(ends, o.st)
	}
	if len(ends) == 0 {
		bad(e, "never", nil, "never waits for the operations in progress")
	}
	second = true
	for _, s := range ends {
		s2 := s.clone()
		s2.setGS("k.waited", "")
		e2 := newEng(m.w, r)
		for _, o := range m.c.run(e2, s2, f, append([]*Term{recv}, args[1:]...)) {
			if o.panic {
				bad(e2, "second-panic", nil, "panics when called a second time")
			}
		}
	}
	return recv, ends
}

// cas models compare-and-swap and swap on a known cell exactly.
func (m *closeMon) cas(e *Eng, st *State, ev *Event, exact bool) ([]Out, bool) {
	switch {
	case strings.HasPrefix(ev.Name, "sync/atomic.CompareAndSwap"):
		loc, old, nw := ev.Args[0], ev.Args[1], ev.Args[2]
		cur := e.load(st, loc, ev.Sig.Params().At(1).Type(), ev.Instr)
		eq := tEq(cur, old)
		if v, known := st.evalBool(eq); known && (exact || !v) {
			if v {
				st.setHeap(loc, nw)
				return []Out{{st: st, res: []*Term{tTrue}}}, true
			}
			return []Out{{st: st, res: []*Term{tFalse}}}, true
		}
		s2 := st.clone()
		st.setHeap(loc, nw)
		return []Out{{st: st, res: []*Term{tTrue}}, {st: s2, res: []*Term{tFalse}}}, true
	case strings.HasPrefix(ev.Name, "sync/atomic.Swap"):
		loc := ev.Args[0]
		cur := e.load(st, loc, ev.Sig.Params().At(1).Type(), ev.Instr)
		if !exact {
			cur = mkFresh("sym", ev.Sig.Params().At(1).Type(), &SymInfo{kind: "load", site: locName(loc), name: "atomic"})
		}
		st.setHeap(loc, ev.Args[1])
		return []Out{{st: st, res: []*Term{cur}}}, true
	}
	return nil, false
}

// closed: what an operation does once the database is closed.
func (m *closeMon) closed(f *ssa.Function, cl closable, db *Term, end *State) {
	name := shortName(f.String())
	r := &Rule{}
	var e *Eng
	bad := func(detail string, ins ssa.Instruction, msg string) {
		at := m.w.pos(f.Pos())
		if ins != nil {
			at = e.pos(ins)
		}
		m.c.fail("closed", name, detail, at, name+": "+msg)
	}
	r.Opaque = func(fn *ssa.Function) bool { return isSeqMethod(m.seq, fn) }
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		switch {
		case closerCall(ev) == "Add":
			st.setGS("k.asked", "y")
			if k := ev.Args[1]; k.op == "int" && k.c > 0 {
				x := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "call", site: "closer", name: "closer"})
				st.assume(tEq(x, tNil), false)
				return []Out{{st: st, res: []*Term{x}}}, true
			}
		case closerCall(ev) == "HasBeenClosed":
			st.setGS("k.asked", "y")
			return []Out{{st: st, res: []*Term{tTrue}}}, true
		case strings.HasPrefix(ev.Name, "sync/atomic.Load"):
			loc := ev.Args[0]
			if baseOf(loc) == db {
				st.setGS("k.asked", "y")
			}
			return []Out{{st: st, res: []*Term{e.load(st, loc, ev.Sig.Results().At(0).Type(), ev.Instr)}}}, true
		case strings.HasPrefix(ev.Name, "(*sync.RWMutex).") || strings.HasPrefix(ev.Name, "(*sync.Mutex)."):
			// nothing changes any more
			return []Out{{st: st, res: e.freshResults(ev)}}, true
		}
		return nil, false
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if u := m.uses(ev); u != "" {
			bad("uses", ev.Instr, "uses "+u+" although the database is closed")
		}
	}
	r.Loaded = func(e *Eng, st *State, ins *ssa.UnOp, loc, val *Term) {
		if baseOf(loc) == db && val.op == "int" {
			st.setGS("k.asked", "y")
		}
	}
	e = newEng(m.w, r)
	st := end.clone()
	args := e.paramSyms(st, f)
	if cl.field < 0 {
		args[0] = db
	} else {
		s := cl.typ.Underlying().(*types.Struct)
		st.setHeap(fieldLoc(args[0], cl.field, s.Field(cl.field).Name()), db)
	}
	m.c.obl("closed", name)
	for _, o := range m.c.run(e, st, f, args) {
		if o.panic {
			bad("panic", nil, "panics on a closed database")
			continue
		}
		for _, p := range forkErr(o) {
			x := errOf(p)
			switch {
			case x.op == "nil":
				bad("success", nil, "succeeds although the database is closed")
			case x.op == "sentinel" && closedName.MatchString(x.aux):
			case p.st.gs("k.asked") == "":
				// found fault with its arguments first
			default:
				bad("error", nil, fmt.Sprintf("fails with %s instead of the closed error", x.show(3)))
			}
		}
	}
}

func baseOf(loc *Term) *Term {
	for loc.op == "field" {
		loc = loc.args[0]
	}
	return loc
}

func init() {
	register("P25", func(c *Ctx) {
		c.rule("Operations of a database that counts its operations: each touches the store or a sequence only between being counted in successfully and counted out, and is counted out once on every exit. Close waits for the count before it touches the store, leaves a state in which every operation that can report an error returns the closed error (or one about its arguments) without touching the store, and a second Close neither waits nor touches anything.")
		m := &closeMon{c: c, w: c.w, seq: seqTypes(c.w)}
		cls := closables(c.w)
		type end struct {
			recv *Term
			ends []*State
		}
		ends := map[*types.Named]end{}
		for _, cl := range cls {
			if cl.field < 0 {
				f := m.closeOf(cl.typ)
				if f == nil {
					c.fail("close", cl.typ.Obj().Name(), "missing", "-", cl.typ.Obj().Name()+" counts its operations but has no Close")
					continue
				}
				recv, es := m.closing(f)
				ends[cl.typ] = end{recv, es}
			}
		}
		for _, cl := range cls {
			for _, f := range m.opsOf(cl) {
				m.inProgress(f)
				if !returnsErr(f.Signature) {
					continue
				}
				for _, s := range ends[cl.owner].ends {
					m.closed(f, cl, ends[cl.owner].recv, s)
				}
			}
		}
		c.need("in progress", 10)
		c.need("closed", 10)
		c.need("close", 1)
	})
}
