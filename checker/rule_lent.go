package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P11: bytes handed to a scan callback are not kept beyond the call.

type lentMon struct {
	c    *Ctx
	w    *World
	fn   *ssa.Function
	name string
	e    *Eng
	n    int
}

func (m *lentMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.w.pos(m.fn.Pos())
	where := m.name
	if ins != nil {
		at = m.e.pos(ins)
		where = shortName(topFn(ins.Parent()).String())
	}
	m.c.fail("lent memory", where, detail, at, where+": "+msg)
}

// born is when an object came into being.
func born(t *Term) int {
	n, err := strconv.Atoi(strings.TrimPrefix(t.aux, "#"))
	if err != nil {
		return 0
	}
	return n
}

// lent lists the memory lent by the callbacks in progress.
func lent(st *State) []*Term {
	if s := st.g("le.mem"); s != nil {
		return s.args
	}
	return nil
}

var copying = map[string]bool{"bytes.Clone": true, "bytes.Repeat": true, "bytes.Join": true, "bytes.ToUpper": true, "bytes.ToLower": true}

// shares: v, or something v holds, is memory lent to the callback.
func (m *lentMon) shares(st *State, v *Term, depth int) bool {
	if v == nil || depth > 6 {
		return false
	}
	for _, l := range lent(st) {
		if v == l {
			return true
		}
	}
	switch v.op {
	case "slice", "iface", "field", "idx":
		return m.shares(st, v.args[0], depth+1)
	case "struct", "tuple":
		for _, a := range v.args {
			if m.shares(st, a, depth+1) {
				return true
			}
		}
	case "closure":
		for _, a := range v.args {
			if m.shares(st, a, depth+1) {
				return true
			}
		}
	case "app":
		switch {
		case strings.HasPrefix(v.aux, "conv:"), strings.HasPrefix(v.aux, "fld"), strings.HasPrefix(v.aux, "changetype"):
			return m.shares(st, v.args[0], depth+1)
		case v.aux == "append":
			for _, a := range v.args {
				if m.shares(st, a, depth+1) {
					return true
				}
			}
		case v.aux == "appends" || v.aux == "copyof":
			// copies the elements, which may themselves be lent (not bytes)
			return v.aux == "appends" && m.shares(st, v.args[0], depth+1)
		}
	case "sym":
		if v.info != nil && v.info.ev != nil && v.typ != nil && kindOf(v.typ) == "bytes" {
			ev := v.info.ev
			if strings.HasPrefix(ev.Name, "bytes.") && !copying[ev.Name] {
				for _, a := range ev.Args {
					if m.shares(st, a, depth+1) {
						return true
					}
				}
			}
		}
	case "obj", "make", "map":
		// what was put into an object made during the callback
		if born(v) < m.start(st) && v.op == "obj" {
			return false
		}
		for loc, x := range st.heap {
			if x != v && locBase(loc) == v && m.shares(st, x, depth+1) {
				return true
			}
		}
	}
	return false
}

func (m *lentMon) start(st *State) int {
	ls := lent(st)
	if len(ls) == 0 {
		return 0
	}
	n := born(ls[0])
	for _, l := range ls {
		if b := born(l); b < n {
			n = b
		}
	}
	return n
}

// outlives: memory that exists when the callback has returned.
func (m *lentMon) outlives(st *State, loc *Term) bool {
	b := locBase(loc)
	for b.op == "slice" && len(b.args) > 0 {
		b = locBase(b.args[0])
	}
	switch b.op {
	case "obj":
		return born(b) < m.start(st)
	case "make", "map":
		return !m.madeSince(st, b)
	}
	return true
}

func (m *lentMon) madeSince(st *State, b *Term) bool {
	return born(b) > 0 && born(b) >= m.start(st)
}

// onlyInside: the variable is read only by the callback, after it has been set
// there: nothing of an earlier call is seen.
func onlyInside(ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Store)
	if !ok {
		return false
	}
	fv, ok := s.Addr.(*ssa.FreeVar)
	if !ok {
		return false
	}
	f := s.Parent()
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	// everything that refers to the variable
	var cell ssa.Value
	p := f.Parent()
	if p == nil || idx < 0 {
		return false
	}
	for _, b := range p.Blocks {
		for _, x := range b.Instrs {
			if mc, ok := x.(*ssa.MakeClosure); ok && mc.Fn == f {
				if cell != nil && cell != mc.Bindings[idx] {
					return false
				}
				cell = mc.Bindings[idx]
			}
		}
	}
	al, ok := cell.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == al {
				return false
			}
		case *ssa.MakeClosure:
			if x.Fn != f {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == fv {
				return false
			}
		case *ssa.UnOp:
			if !storedBefore(fv, x) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func storedBefore(fv *ssa.FreeVar, x *ssa.UnOp) bool {
	for _, r := range *fv.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok {
			continue
		}
		if s.Block() != x.Block() {
			if s.Block().Dominates(x.Block()) {
				return true
			}
			continue
		}
		for _, i := range s.Block().Instrs {
			if i == ssa.Instruction(s) {
				return true
			}
			if i == ssa.Instruction(x) {
				break
			}
		}
	}
	return false
}

func (m *lentMon) run() {
	r := &Rule{}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Name == modUtil+".String" || ev.Name == modUtil+".Slice" {
			// the same memory under another type
			return []Out{{st: st, res: []*Term{ev.Args[0]}}}, true
		}
		return nil, false
	}
	r.ScanCall = func(e *Eng, st *State, ev *Event, as []*Term) {
		m.n++
		var mem []*Term
		for _, a := range as {
			if a.typ != nil && kindOf(a.typ) == "bytes" {
				mem = append(mem, a)
			}
		}
		st.setG("le.mem", mk("set", "", mem...))
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if len(lent(st)) == 0 {
			return
		}
		if loc.op == "mapel" && m.outlives(st, loc.args[0]) && (m.shares(st, loc.args[1], 0) || m.shares(st, val, 0)) {
			m.bad("map", ins, "keeps memory lent to the scan callback in a map")
			return
		}
		if m.outlives(st, loc) && m.shares(st, val, 0) && !onlyInside(ins) {
			m.bad("kept", ins, "keeps memory lent to the scan callback")
		}
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if len(lent(st)) == 0 {
			return
		}
		keeps := ""
		switch {
		case ev.Kind == "go":
			keeps = "hands it to another goroutine"
		case ev.Op == "Set" || ev.Op == "Delete":
			keeps = "gives it to a transaction, which keeps it until it commits"
		}
		if keeps == "" {
			return
		}
		for i, a := range ev.Args {
			if (i > 0 || ev.Kind == "go") && m.shares(st, a, 0) {
				m.bad("passed", ev.Instr, "does not copy memory lent to the scan callback but "+keeps)
			}
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Kind == "send" {
			for _, a := range ev.Args[1:] {
				if m.shares(st, a, 0) {
					m.bad("passed", ev.Instr, "sends memory lent to the scan callback to another goroutine")
				}
			}
		}
		if ev.Kind == "go" {
			r.Before(e, st, ev)
		}
		if ev.Op == "Scan" {
			for _, o := range outs {
				o.st.setG("le.mem", nil)
			}
		}
		return outs
	}
	e := newEng(m.w, r)
	m.e = e
	m.c.run(e, nil, m.fn, nil)
	if m.n > 0 {
		m.c.obl("lent memory", m.name)
	}
}

const modUtil = "github.com/zhiqiangxu/util"

// scanUsers: the functions that give a function of their own to something that
// scans.
func scanUsers(w *World) []*ssa.Function {
	scans := w.reaching(func(cc *ssa.CallCommon) bool {
		op, _ := w.callInfo(cc)
		return op == "Scan"
	})
	seen := map[*ssa.Function]bool{}
	for _, f := range w.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				op, _ := w.callInfo(cc)
				if op != "Scan" && !(cc.StaticCallee() != nil && scans[cc.StaticCallee()]) {
					continue
				}
				for _, a := range cc.Args {
					for {
						if ct, ok := a.(*ssa.ChangeType); ok {
							a = ct.X
							continue
						}
						break
					}
					switch a.(type) {
					case *ssa.MakeClosure, *ssa.Function:
						seen[topFn(f)] = true
					}
				}
			}
		}
	}
	var res []*ssa.Function
	for f := range seen {
		if f.Synthetic == "" {
			res = append(res, f)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	return res
}

func init() {
	register("P11", func(c *Ctx) {
		c.rule("Key and value bytes given to a scan callback, and anything that shares their memory, are not stored in anything that outlives the callback, not given to a transaction that keeps them, and not handed to another goroutine; a variable of the surrounding function is exempt if only the callback reads it and sets it first.")
		for _, f := range scanUsers(c.w) {
			(&lentMon{c: c, w: c.w, fn: f, name: shortName(f.String())}).run()
		}
		c.need("lent memory", 10)
	})
}

var _ = types.Identical
