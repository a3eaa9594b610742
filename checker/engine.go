package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/zhiqiangxu/mondis"

// Out is one way a call can end.
type Out struct {
	st    *State
	res   []*Term
	panic bool
	why   string
}

// Event is a call the analysis does not look inside (or that a rule intercepts).
type Event struct {
	Name   string // shortened full name, e.g. (mondis.CommonKVOP).Set
	Args   []*Term
	Sig    *types.Signature
	Instr  ssa.Instruction
	Fn     *ssa.Function // caller
	Static *ssa.Function
	Kind   string // call, go, callback
	Op     string // canonical storage operation (Set, Get, ...), when it is one
}

// Rule is the set of hooks a property's monitor can implement.
type Rule struct {
	// Intercept may take over a call entirely.
	Intercept func(e *Eng, st *State, ev *Event) ([]Out, bool)
	// After is called on the outcomes of an external call the engine modelled by default.
	After func(e *Eng, st *State, ev *Event, outs []Out) []Out
	// ScanCall is told about each call of a scan callback (before it).
	ScanCall func(e *Eng, st *State, ev *Event, args []*Term)
	// Before is called before an external call takes effect.
	Before func(e *Eng, st *State, ev *Event)
	// Opaque functions are not entered.
	Opaque func(fn *ssa.Function) bool
	// Store is called before each store.
	Store func(e *Eng, st *State, instr ssa.Instruction, loc, val *Term)
	// Append is called when elements are appended to a slice (not of bytes).
	Append func(e *Eng, st *State, instr ssa.Instruction, old *Term, elems []*Term, et types.Type)
	// Head is called before states meet at a block.
	Head func(st *State)
	// Ranged is told about each step over a map (ok: there is another element).
	Ranged func(e *Eng, st *State, x *ssa.Next, m, ok, k *Term)
	// LoopHead is called before states meet at the head of a loop.
	LoopHead func(e *Eng, st *State, b *ssa.BasicBlock)
	// Load is called for each load of a field or cell.
	Load func(e *Eng, st *State, instr ssa.Instruction, loc *Term)
	// Loaded is told the result of each load.
	Loaded func(e *Eng, st *State, instr *ssa.UnOp, loc, val *Term)
	// Deref is told about dereferences of possibly nil values.
	NilDeref func(e *Eng, st *State, instr ssa.Instruction, v *Term, why string)
	// Bounds is told about slicing / indexing that is not provably in range.
	Bounds func(e *Eng, st *State, instr ssa.Instruction, what string)
	// Exit is called for every return of an inlined or entry function.
	Return func(e *Eng, st *State, fn *ssa.Function, res []*Term)
	// PanicInstr is told about explicit panics.
	PanicInstr func(e *Eng, st *State, instr ssa.Instruction)
	// Wait is told when the operation blocks (select, channel receive, sleep).
	Wait func(e *Eng, st *State)
	// Codec treats the variable length codecs as injective functions (they are
	// analysed on their own elsewhere).
	Codec bool
	// Wraps says in which functions sums of integers may exceed their type.
	Wraps func(fn *ssa.Function) bool
	// Numeric turns on inequality inference at loop heads.
	Numeric bool
	// CallbackPanics makes unknown callbacks possibly panic.
	CallbackPanics bool
}

// Eng runs the analysis for one entry point.
type Eng struct {
	w         *World
	rule      *Rule
	steps     int
	maxSteps  int
	undecided string
	cut       map[string]bool // places where a path was cut
	frameID   int
	callSites map[ssa.Instruction]bool
	bounds    map[ssa.Instruction]bool // index and slice expressions decided
	inlined   map[*ssa.Function]bool
	delay     int
	maxDepth  int
	joins     int
	trace     bool
}

func newEng(w *World, r *Rule) *Eng {
	return &Eng{w: w, rule: r, maxSteps: 3000000, callSites: map[ssa.Instruction]bool{}, bounds: map[ssa.Instruction]bool{}, inlined: map[*ssa.Function]bool{}, cut: map[string]bool{}, delay: 1, maxDepth: 30}
}

func (e *Eng) pos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	p := i.Pos()
	if !p.IsValid() {
		if v, ok := i.(ssa.Value); ok {
			for _, r := range *safeRefs(v) {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && i.Parent() != nil {
		p = i.Parent().Pos()
	}
	return e.w.pos(p)
}

func safeRefs(v ssa.Value) *[]ssa.Instruction {
	r := v.Referrers()
	if r == nil {
		return &[]ssa.Instruction{}
	}
	return r
}

// Run analyses fn with the given arguments (nil: unknown parameters).
func (e *Eng) Run(st *State, fn *ssa.Function, args []*Term) []Out {
	numeric = e.rule.Numeric
	e.w.findThresholds(fn)
	if st == nil {
		st = newState()
	}
	if args == nil {
		args = e.paramSyms(st, fn)
	}
	return e.callFn(st, fn, args, nil, nil)
}

func (e *Eng) paramSyms(st *State, fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		s := mkFresh("sym", p.Type(), &SymInfo{kind: "param", site: p.Name(), name: p.Name()})
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.setFact(tEq(s, tNil), false)
			}
		}
		args = append(args, s)
	}
	return args
}

func (e *Eng) callFn(st *State, fn *ssa.Function, args, bindings []*Term, site ssa.Instruction) []Out {
	e.inlined[fn] = true
	e.frameID++
	f := &Frame{fn: fn, regs: map[ssa.Value]*Term{}, call: site, id: e.frameID}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bindings) {
			f.regs[v] = bindings[i]
		}
	}
	st.push(f)
	outs := e.runBlocks(st, fn)
	return outs
}

type item struct {
	st    *State
	block *ssa.BasicBlock
	pred  *ssa.BasicBlock
}

type act struct {
	e       *Eng
	fn      *ssa.Function
	fi      *fnInfo
	work    []item
	exits   []Out
	exitSet map[string]bool
	seen    map[*ssa.BasicBlock]map[string]bool
	heads   map[*ssa.BasicBlock]map[string][]*State
	njoin   map[string]int
}

func (e *Eng) runBlocks(st *State, fn *ssa.Function) []Out {
	a := &act{e: e, fn: fn, fi: e.w.info(fn), exitSet: map[string]bool{}, seen: map[*ssa.BasicBlock]map[string]bool{}, heads: map[*ssa.BasicBlock]map[string][]*State{}, njoin: map[string]int{}}
	a.work = append(a.work, item{st, fn.Blocks[0], nil})
	for len(a.work) > 0 && e.undecided == "" {
		it := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.enter(it)
	}
	return a.exits
}

func (a *act) enter(it item) {
	st, b := it.st, it.block
	e := a.e
	// phis
	if it.pred != nil {
		idx := -1
		for i, p := range b.Preds {
			if p == it.pred {
				idx = i
				break
			}
		}
		var vals []*Term
		var phis []*ssa.Phi
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			vals = append(vals, e.val(st, phi.Edges[idx]))
		}
		f := st.wtop()
		for i, phi := range phis {
			f.regs[phi] = vals[i]
		}
		// prune dead registers
		lv := a.fi.liveIn[b]
		for v := range f.regs {
			if !lv[v] {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == b {
					continue
				}
				delete(f.regs, v)
			}
		}
	}
	if len(b.Preds) > 1 {
		if e.rule.Head != nil {
			e.rule.Head(st)
		}
		if e.rule.LoopHead != nil && a.fi.head[b] {
			e.rule.LoopHead(e, st, b)
		}
		key := st.canon()
		m := a.seen[b]
		if m == nil {
			m = map[string]bool{}
			a.seen[b] = m
		}
		if m[key] {
			return
		}
		m[key] = true
		if a.fi.head[b] {
			sk := st.shapeKey()
			h := a.heads[b]
			if h == nil {
				h = map[string][]*State{}
				a.heads[b] = h
			}
			l := h[sk]
			if len(l) < e.delay {
				h[sk] = append(l, st.clone())
			} else {
				last := l[len(l)-1]
				nk := strconv.Itoa(b.Index) + sk
				a.njoin[nk]++
				j := joinStates(last, st, a.njoin[nk])
				e.joins++
				jk := j.canon()
				if m[jk] {
					a.njoin[nk]-- // nothing new
					return
				}
				m[jk] = true
				l[len(l)-1] = j.clone()
				st = j
				if len(m) > 400 {
					e.undecided = "loop did not stabilise in " + a.fn.String()
					if os.Getenv("DBG") != "" {
						fmt.Fprintln(os.Stderr, a.fn, b, "\n", joinStates(last, st, 100).canon(), "\n\n", jk)
					}
					return
				}
			}
		}
	}
	a.exec(st, b, 0)
}

func (a *act) exit(st *State, res []*Term, panicked bool, why string) {
	if !panicked && a.e.rule.Return != nil {
		a.e.rule.Return(a.e, st, a.fn, res)
	}
	st.pop()
	key := fmt.Sprint(panicked) + st.canon(res...)
	if a.exitSet[key] {
		return
	}
	a.exitSet[key] = true
	a.exits = append(a.exits, Out{st, res, panicked, why})
}

// doPanic runs the deferred calls of the current frame and leaves it.
func (a *act) doPanic(st *State, why string) {
	f := st.wtop()
	f.panick = true
	for _, o := range a.e.runDefers(st) {
		if o.panic {
			a.exit(o.st, nil, true, o.why)
			continue
		}
		nf := o.st.wtop()
		if nf.recov {
			nf.panick, nf.recov = false, false
			if a.fn.Recover != nil {
				a.exec(o.st, a.fn.Recover, 0)
			} else {
				var res []*Term
				rt := a.fn.Signature.Results()
				for i := 0; i < rt.Len(); i++ {
					res = append(res, a.e.zero(rt.At(i).Type()))
				}
				a.exit(o.st, res, false, "")
			}
			continue
		}
		a.exit(o.st, nil, true, why)
	}
}

func (a *act) exec(st *State, b *ssa.BasicBlock, i int) {
	e := a.e
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.maxSteps {
			e.undecided = "analysis budget exceeded in " + a.fn.String()
			return
		}
		if e.undecided != "" {
			return
		}
		ins := b.Instrs[i]
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			a.work = append(a.work, item{st, b.Succs[0], b})
			return
		case *ssa.If:
			c := e.val(st, x.Cond)
			if v, known := st.evalBool(c); known {
				k := 1
				if v {
					k = 0
				}
				a.work = append(a.work, item{st, b.Succs[k], b})
				return
			}
			s2 := st.clone()
			if s2.assume(c, false) {
				a.work = append(a.work, item{s2, b.Succs[1], b})
			}
			if st.assume(c, true) {
				a.work = append(a.work, item{st, b.Succs[0], b})
			}
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, e.val(st, r))
			}
			a.exit(st, res, false, "")
			return
		case *ssa.Panic:
			if e.rule.PanicInstr != nil {
				e.rule.PanicInstr(e, st, x)
			}
			a.doPanic(st, "panic at "+e.pos(x))
			return
		case *ssa.RunDefers:
			outs := e.runDefers(st)
			a.cont(outs, nil, b, i+1)
			return
		case *ssa.Call:
			outs, v := e.doCall(st, x)
			if len(outs) == 1 && !outs[0].panic {
				st = outs[0].st
				setRes(st, v, outs[0].res)
				continue
			}
			a.cont(outs, v, b, i+1)
			return
		case *ssa.Select:
			a.selectInstr(st, x, b, i)
			return
		default:
			if x, ok := ins.(*ssa.BinOp); ok && e.rule.Wraps != nil && x.Op == token.ADD && e.rule.Wraps(a.fn) {
				if w := e.wrapped(st, x); w != nil {
					a.exec(w, b, i+1)
				}
				if st.dead {
					return
				}
			}
			if why := e.simple(st, ins); why != "" {
				a.doPanic(st, why)
				return
			}
			if st.dead {
				return
			}
		}
	}
}

// wrapped is the state in which a sum of two ints exceeds the type: the result
// is negative when both were not. The given state keeps the case without it.
func (e *Eng) wrapped(st *State, x *ssa.BinOp) *State {
	bt, ok := x.Type().Underlying().(*types.Basic)
	if !ok || bt.Kind() != types.Int && bt.Kind() != types.Int64 {
		return nil
	}
	sum := toLin(tAdd(e.val(st, x.X), e.val(st, x.Y)))
	room := lin{c: math.MaxInt64}.add(sum, -1)
	if st.entailsGe0(room) {
		return nil
	}
	w := st.clone()
	r := mkFresh("sym", x.Type(), &SymInfo{kind: "wrapped", site: e.pos(x), name: "wrapped"})
	w.set(x, r)
	ok = w.assume(tGe0(lin{c: -1}.add(toLin(r), -1)), true)
	if !st.assume(tGe0(room), true) {
		st.dead = true
	}
	if !ok {
		return nil
	}
	return w
}

// noteDone: receiving from a context's Done channel means the context is over.
func noteDone(s *State, ch *Term) {
	if ch.op == "sym" && ch.info != nil && ch.info.name == "(context.Context).Done" && ch.info.ev != nil {
		s.mark(ch.info.ev.Args[0], "over")
	}
}

func setRes(st *State, v ssa.Value, res []*Term) {
	if v == nil {
		return
	}
	f := st.wtop()
	if v.Type() != nil {
		if tt, ok := v.Type().(*types.Tuple); ok && tt.Len() != 1 {
			f.regs[v] = mkTuple(res...)
			return
		}
	}
	if len(res) == 1 {
		f.regs[v] = res[0]
	} else {
		f.regs[v] = mkTuple(res...)
	}
}

func (a *act) cont(outs []Out, v ssa.Value, b *ssa.BasicBlock, i int) {
	seen := map[string]bool{}
	for _, o := range outs {
		if o.panic {
			a.doPanic(o.st, o.why)
			continue
		}
		setRes(o.st, v, o.res)
		if len(outs) > 1 {
			k := o.st.canon()
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		a.exec(o.st, b, i)
	}
}

func (a *act) selectInstr(st *State, x *ssa.Select, b *ssa.BasicBlock, i int) {
	if a.e.rule.Wait != nil && x.Blocking {
		a.e.rule.Wait(a.e, st)
	}
	e := a.e
	n := len(x.States)
	mkres := func(s *State, idx int) {
		args := []*Term{mkInt(int64(idx)), mkSym(types.Typ[types.Bool], "recv", "select")}
		for k, c := range x.States {
			if c.Dir == types.RecvOnly {
				et := c.Chan.Type().Underlying().(*types.Chan).Elem()
				if k == idx {
					args = append(args, mkFresh("sym", et, &SymInfo{kind: "recv", site: e.pos(x), mayNil: true}))
				} else {
					args = append(args, e.zero(et))
				}
			}
		}
		s.set(x, mkTuple(args...))
		a.exec(s, b, i+1)
	}
	for k := 0; k < n; k++ {
		s := st.clone()
		noteDone(s, e.val(s, x.States[k].Chan))
		mkres(s, k)
	}
	if !x.Blocking {
		mkres(st.clone(), -1)
	}
}

// maxDeferRounds bounds how often one defer statement in a loop is followed.
const maxDeferRounds = 2

// runDefers executes the pending deferred calls of the top frame.
func (e *Eng) runDefers(st *State) []Out {
	cur := []Out{{st: st}}
	for {
		var next []Out
		progress := false
		for _, o := range cur {
			f := o.st.top()
			if o.panic || len(f.defers) == 0 {
				next = append(next, o)
				continue
			}
			progress = true
			nf := o.st.wtop()
			d := nf.defers[len(nf.defers)-1]
			nf.defers = nf.defers[:len(nf.defers)-1]
			outs := e.doCallCommon(o.st, &d.instr.Call, d.instr, d.callee, d.args, "defer")
			for _, q := range outs {
				if q.panic {
					// continue running the remaining deferred calls while panicking
					pf := q.st.wtop()
					pf.panick = true
					q.panic = false
					next = append(next, q)
					continue
				}
				q.res = nil
				next = append(next, q)
			}
		}
		cur = next
		if !progress {
			break
		}
		if len(cur) > 200 {
			break
		}
	}
	return cur
}

// ---- values

func (e *Eng) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		return mkConst(x.Value)
	case *ssa.Function:
		return mkFn(x)
	case *ssa.Global:
		t := mk("global", shortName(x.String()))
		t.typ = x.Type()
		return t
	case *ssa.Builtin:
		return mk("builtin", x.Name())
	}
	f := st.top()
	if t := f.regs[v]; t != nil {
		return t
	}
	t := mkSym(v.Type(), "undef", v.Name())
	st.set(v, t)
	return t
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath, "mondis")
}

func (e *Eng) isRepoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return true // unnamed
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// decomposable struct types are tracked field by field.
func (e *Eng) structOf(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if !e.isRepoType(types.Unalias(t)) {
		p := t.String()
		if !strings.HasSuffix(p, "qrpc.Frame") && !strings.HasSuffix(p, "qrpc.RequestFrame") && !strings.HasSuffix(p, "badger.IteratorOptions") && !strings.HasSuffix(p, "badger.Entry") {
			return nil
		}
	}
	return s
}

func (e *Eng) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0))
		}
		return tNil
	case *types.Struct:
		if s := e.structOf(t); s != nil {
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = e.zero(s.Field(i).Type())
			}
			return mkTyped("struct", t, args...)
		}
		return mkTyped("zero", t)
	case *types.Array:
		return mkTyped("zero", t)
	case *types.Tuple:
		var args []*Term
		for i := 0; i < u.Len(); i++ {
			args = append(args, e.zero(u.At(i).Type()))
		}
		return mkTuple(args...)
	}
	return tNil
}

func fieldLoc(base *Term, i int, name string) *Term {
	return mk("field", strconv.Itoa(i)+":"+name, base)
}

// load reads memory.
func (e *Eng) load(st *State, loc *Term, t types.Type, instr ssa.Instruction) *Term {
	if v, ok := st.heap[loc]; ok {
		return v
	}
	if loc.op == "global" {
		if isErrorType(t) {
			return mk("sentinel", loc.aux)
		}
		if v := e.w.globalVals[loc.aux]; v != nil {
			return v
		}
		if e.w.zeroGlobals[loc.aux] {
			return e.zero(t)
		}
	}
	if s := e.structOf(t); s != nil {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = e.load(st, fieldLoc(loc, i, s.Field(i).Name()), s.Field(i).Type(), instr)
		}
		return mkTyped("struct", t, args...)
	}
	// whole value stored at an enclosing location
	if loc.op == "field" || loc.op == "idx" {
		if pv, ok := st.heap[loc.args[0]]; ok && loc.args[0].op != "sym" {
			if loc.op == "field" && pv.op == "struct" {
				i, _ := strconv.Atoi(strings.SplitN(loc.aux, ":", 2)[0])
				return pv.args[i]
			}
			if pv.op == "zero" {
				return e.zero(t)
			}
			if loc.op == "idx" {
				return mkApp("at", pv, loc.args[1])
			}
			return mkApp("fld"+loc.aux, pv)
		}
	}
	base := locBase(loc)
	if base.op == "cat" && loc.op == "idx" && loc.args[1].op == "int" {
		at := loc.args[1].c
		for _, sg := range base.args {
			n := tLen(sg)
			if n.op != "int" {
				break
			}
			if at >= n.c {
				at -= n.c
				continue
			}
			if isStrConst(sg) {
				return mkInt(int64(constant.StringVal(sg.val)[at]))
			}
			if sg.op == "app" && sg.aux == "u8" {
				return sg.args[0]
			}
			break
		}
	}
	if base.op == "slice" && loc.op == "idx" {
		// element of an array-backed slice
		nl := mk("idx", "", base.args[0], tAdd(base.args[1], loc.args[1]))
		if base.args[0].op == "obj" || base.args[0].op == "field" {
			return e.load(st, nl, t, instr)
		}
	}
	if base.op == "obj" && (base.info == nil || base.info.kind == "alloc") && !st.marked(base, "dirty") {
		if loc.op == "idx" && loc.args[1].op != "int" {
			// unknown index into a fresh array
		} else {
			return e.zero(t)
		}
	}
	if base.op == "make" && !st.marked(base, "dirty") && loc.op == "idx" {
		return e.zero(t)
	}
	s := mkFresh("sym", t, &SymInfo{kind: "load", site: locName(loc), name: locKind(loc), ptr: loc})
	if _, ms := pbMsg(t); ms != nil && loc.op == "field" {
		s.info.mayNil = true // an optional part of a message
	}
	st.setHeap(loc, s)
	return s
}

func locKind(loc *Term) string {
	if loc.op == "field" {
		return loc.aux
	}
	return loc.op
}

func locName(loc *Term) string {
	switch loc.op {
	case "field":
		n := loc.aux
		if k := strings.Index(n, ":"); k >= 0 {
			n = n[k+1:]
		}
		return locName(loc.args[0]) + "." + n
	case "idx", "mapel":
		return locName(loc.args[0]) + "[]"
	case "sym":
		if loc.info != nil {
			return loc.info.site
		}
	case "global":
		return loc.aux
	case "obj":
		if loc.info != nil {
			return loc.info.site
		}
	}
	return loc.op
}

func (s *State) marked(base *Term, m string) bool {
	_, ok := s.heap[mk("mark", m, base)]
	return ok
}

func (s *State) mark(base *Term, m string) { s.setHeap(mk("mark", m, base), tTrue) }

// store writes memory.
func (e *Eng) store(st *State, loc, v *Term, t types.Type) {
	if s := e.structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, fieldLoc(loc, i, s.Field(i).Name()), e.fieldOf(v, i, s.Field(i)), s.Field(i).Type())
		}
		return
	}
	if loc.op == "idx" {
		b := loc.args[0]
		if b.op == "slice" && b.args[0].op == "obj" {
			loc = mk("idx", "", b.args[0], tAdd(b.args[1], loc.args[1]))
			b = b.args[0]
		}
		if !(loc.args[1].op == "int") {
			st.mark(locBase(b), "dirty")
		}
		// other cells of the same array may alias unless both indices are constants
		var kill []*Term
		for l := range st.heap {
			if l == loc {
				continue
			}
			for x := l; x.op == "idx" || x.op == "field"; x = x.args[0] {
				if x.op == "idx" && x.args[0] == b && x != loc {
					d := toLin(x.args[1]).add(toLin(loc.args[1]), -1)
					if !d.isConst() {
						kill = append(kill, l)
					}
					break
				}
			}
		}
		for _, l := range kill {
			st.setHeap(l, nil)
		}
		if b.op == "make" {
			st.setHeap(mk("mark", "dirty", b), tTrue)
		}
	}
	// overwriting an aggregate location drops its parts
	if _, isArr := t.Underlying().(*types.Array); isArr {
		for l := range st.heap {
			if l != loc && l.op == "idx" && l.args[0] == loc {
				st.setHeap(l, nil)
			}
		}
	}
	st.setHeap(loc, v)
}

func (e *Eng) fieldOf(v *Term, i int, f *types.Var) *Term {
	switch v.op {
	case "struct":
		return v.args[i]
	case "zero":
		return e.zero(f.Type())
	}
	t := mkApp("fld"+strconv.Itoa(i)+":"+f.Name(), v)
	if t.typ == nil {
		t.typ = f.Type()
	}
	return t
}

// havoc makes everything stored at loc (of type t) unknown.
func (e *Eng) havoc(st *State, loc *Term, t types.Type, kind, name, site string, depth int) {
	if s := e.structOf(t); s != nil && depth < 4 {
		for i := 0; i < s.NumFields(); i++ {
			if kind == "havoc" && e.w.fixedField(t, i) {
				continue
			}
			e.havoc(st, fieldLoc(loc, i, s.Field(i).Name()), s.Field(i).Type(), kind, name, site, depth+1)
		}
		return
	}
	v := mkFresh("sym", t, &SymInfo{kind: kind, site: site, name: name, mayNil: kind == "decoded"})
	st.setHeap(loc, v)
	for l := range st.heap {
		if l != loc && (l.op == "idx" || l.op == "field") && l.args[0] == loc {
			st.setHeap(l, nil)
		}
	}
	if loc.op == "obj" {
		st.mark(loc, "dirty")
	}
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// checkDeref reports dereferences of values that may be nil. It returns a
// reason when the value is certainly nil (the path ends in a panic).
func (e *Eng) checkDeref(st *State, ins ssa.Instruction, p *Term) string {
	if p.op == "nil" {
		if e.rule.NilDeref != nil {
			e.rule.NilDeref(e, st, ins, p, "nil dereference")
		}
		return "nil dereference at " + e.pos(ins)
	}
	if p.op == "sym" && p.info != nil && p.info.mayNil && !st.nonNil(p) {
		if e.rule.NilDeref != nil {
			e.rule.NilDeref(e, st, ins, p, "possibly nil value ("+p.info.kind+" "+p.info.site+") dereferenced")
		}
		if !st.assume(tEq(p, tNil), false) {
			st.dead = true
		}
	}
	return ""
}

// simple executes an instruction that cannot fork. A non-empty result is a
// certain panic.
func (e *Eng) simple(st *State, ins ssa.Instruction) string {
	switch x := ins.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		t := mkFresh("obj", et, &SymInfo{kind: "alloc", site: x.Comment, name: types.TypeString(et, nil)})
		st.set(x, t)
	case *ssa.BinOp:
		st.set(x, e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type()))
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if why := e.checkDeref(st, ins, v); why != "" {
				return why
			}
			if e.rule.Load != nil {
				e.rule.Load(e, st, ins, v)
			}
			lv := e.load(st, v, x.Type(), ins)
			st.set(x, lv)
			if e.rule.Loaded != nil {
				e.rule.Loaded(e, st, x, v, lv)
			}
		case token.NOT:
			st.set(x, tNot(v))
		case token.SUB:
			st.set(x, lin{}.add(toLin(v), -1).term())
		case token.XOR:
			st.set(x, mkApp("compl", v))
		case token.ARROW:
			if e.rule.Wait != nil {
				e.rule.Wait(e, st)
			}
			noteDone(st, v)
			var et types.Type = x.Type()
			if x.CommaOk {
				et = x.Type().(*types.Tuple).At(0).Type()
			}
			r := mkFresh("sym", et, &SymInfo{kind: "recv", site: v.show(4), name: "recv", mayNil: isPtrLike(et), ptr: v})
			if x.CommaOk {
				st.set(x, mkTuple(r, mkSym(types.Typ[types.Bool], "recv", "ok")))
			} else {
				st.set(x, r)
			}
			if e.rule.After != nil {
				e.rule.After(e, st, &Event{Name: "<-", Args: []*Term{v, r}, Instr: ins, Fn: ins.Parent(), Kind: "recv"}, nil)
			}
		}
	case *ssa.ChangeInterface:
		st.set(x, e.val(st, x.X))
	case *ssa.ChangeType:
		st.set(x, e.val(st, x.X))
	case *ssa.Convert:
		st.set(x, e.convert(st, x.X.Type(), x.Type(), e.val(st, x.X)))
	case *ssa.MultiConvert:
		st.set(x, mkApp("conv", e.val(st, x.X)))
	case *ssa.SliceToArrayPointer:
		st.set(x, e.val(st, x.X))
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.op == "tuple" && x.Index < len(t.args) {
			st.set(x, t.args[x.Index])
		} else {
			st.set(x, mkApp("ext"+strconv.Itoa(x.Index), t))
		}
	case *ssa.Field:
		v := e.val(st, x.X)
		sf := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		r := e.fieldOf(v, x.Field, sf)
		st.set(x, r)
	case *ssa.FieldAddr:
		v := e.val(st, x.X)
		if why := e.checkDeref(st, ins, v); why != "" {
			return why
		}
		sf := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
		st.set(x, fieldLoc(v, x.Field, sf.Name()))
	case *ssa.Index:
		st.set(x, mkApp("at", e.val(st, x.X), e.val(st, x.Index)))
	case *ssa.IndexAddr:
		v, i := e.val(st, x.X), e.val(st, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if why := e.checkDeref(st, ins, v); why != "" {
				return why
			}
			st.set(x, mk("idx", "", v, i))
		} else {
			e.checkIndex(st, ins, i, tLen(v), false)
			st.set(x, mk("idx", "", v, i))
		}
	case *ssa.Lookup:
		e.lookup(st, x)
	case *ssa.MakeChan:
		st.set(x, mkFresh("chan", x.Type(), &SymInfo{kind: "chan", site: e.pos(ins)}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		st.set(x, mkFn(x.Fn.(*ssa.Function), bs...))
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		st.set(x, mkTyped("iface", x.X.Type(), v))
	case *ssa.MakeMap:
		st.set(x, mkFresh("map", x.Type(), &SymInfo{kind: "map", site: e.pos(ins)}))
	case *ssa.MakeSlice:
		n := e.val(st, x.Len)
		in.syms++
		t := in.intern("make#"+strconv.Itoa(in.syms), func() *Term {
			return &Term{op: "make", aux: "#" + strconv.Itoa(in.syms), args: []*Term{n}, typ: x.Type(), info: &SymInfo{kind: "make", site: e.pos(ins)}}
		})
		st.set(x, t)
	case *ssa.MapUpdate:
		m := e.val(st, x.Map)
		if m.op == "nil" || m.op == "sym" && m.info != nil && m.info.mayNil && !st.nonNil(m) {
			if e.rule.NilDeref != nil {
				e.rule.NilDeref(e, st, ins, m, "write to a map that may be nil")
			}
			if m.op == "nil" {
				return "write to nil map at " + e.pos(ins)
			}
			st.assume(tEq(m, tNil), false)
		}
		k, v := e.val(st, x.Key), e.val(st, x.Value)
		if e.rule.Store != nil {
			e.rule.Store(e, st, ins, mk("mapel", "", m, k), v)
		}
		var kill []*Term
		for l := range st.heap {
			if (l.op == "mapel" || l.op == "mapok") && l.args[0] == m && l.args[1] != k && !(isDistinctConst(l.args[1]) && isDistinctConst(k)) {
				kill = append(kill, l)
			}
		}
		for _, l := range kill {
			st.setHeap(l, nil)
		}
		if len(kill) > 0 || !isDistinctConst(k) {
			st.mark(m, "dirty")
		}
		st.setHeap(mk("mapel", "", m, k), v)
		st.setHeap(mk("mapok", "", m, k), tTrue)
	case *ssa.Range:
		if e.rule.Load != nil {
			e.rule.Load(e, st, ins, mk("mapall", "", e.val(st, x.X)))
		}
		st.set(x, mkApp("range", e.val(st, x.X)))
	case *ssa.Next:
		e.next(st, x)
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.Store:
		p, v := e.val(st, x.Addr), e.val(st, x.Val)
		if why := e.checkDeref(st, ins, p); why != "" {
			return why
		}
		if e.rule.Store != nil {
			e.rule.Store(e, st, ins, p, v)
		}
		e.store(st, p, v, x.Val.Type())
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Defer:
		d := &deferred{instr: x}
		cc := &x.Call
		if cc.IsInvoke() {
			d.callee = e.val(st, cc.Value)
		} else if _, ok := cc.Value.(*ssa.Function); !ok {
			if _, ok := cc.Value.(*ssa.Builtin); !ok {
				d.callee = e.val(st, cc.Value)
			}
		}
		for _, a := range cc.Args {
			d.args = append(d.args, e.val(st, a))
		}
		f := st.wtop()
		n := 0
		for _, o := range f.defers {
			if o.instr == x {
				n++
			}
		}
		if n >= maxDeferRounds {
			st.dead = true // deferred calls pile up in a loop: only the first rounds are followed
			e.cut[e.pos(x)] = true
			return ""
		}
		f.defers = append(f.defers, d)
	case *ssa.Go:
		ev := e.mkEvent(st, &x.Call, x, nil, nil, "go")
		if e.rule.After != nil {
			e.rule.After(e, st, ev, nil)
		}
	case *ssa.Send:
		if e.rule.After != nil {
			e.rule.After(e, st, &Event{Name: "chan<-", Args: []*Term{e.val(st, x.Chan), e.val(st, x.X)}, Instr: ins, Fn: ins.Parent(), Kind: "send"}, nil)
		}
	default:
		if v, ok := ins.(ssa.Value); ok {
			st.set(v, mkSym(v.Type(), "unknown", fmt.Sprintf("%T", ins)))
		}
	}
	return ""
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (e *Eng) checkIndex(st *State, ins ssa.Instruction, i, n *Term, incl bool) {
	if e.rule.Bounds == nil {
		return
	}
	e.bounds[ins] = true
	up := toLin(n).add(toLin(i), -1)
	if !incl {
		up.c--
	}
	lowOK := st.entailsGe0(toLin(i))
	upOK := st.entailsGe0(up)
	if (!lowOK || !upOK) && !rangeGuarded(ins) {
		e.rule.Bounds(e, st, ins, fmt.Sprintf("index %s not provably within [0,%s]", i, n))
	}
}

// rangeGuarded: an index expression x[i] inside the loop "for i := range x"
// (the counter starts at -1, is incremented by one, and the same registers i
// and len(x) guard the dominating branch) is in bounds whatever x is.
func rangeGuarded(ins ssa.Instruction) bool {
	ia, ok := ins.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	inc, ok := ia.Index.(*ssa.BinOp)
	if !ok || inc.Op != token.ADD {
		return false
	}
	one, ok := inc.Y.(*ssa.Const)
	if !ok || one.Value == nil || one.Int64() != 1 {
		return false
	}
	phi, ok := inc.X.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, ed := range phi.Edges {
		if ed == ssa.Value(inc) {
			continue
		}
		k, ok := ed.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() < -1 {
			return false
		}
	}
	for b := ia.Block(); b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] != b || len(b.Preds) != 1 {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS || cmp.X != ssa.Value(inc) {
			continue
		}
		call, ok := cmp.Y.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && call.Call.Args[0] == ia.X {
			return true
		}
	}
	return false
}

func (e *Eng) slice(st *State, x *ssa.Slice) string {
	v := e.val(st, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		hi := mkInt(arr.Len())
		if x.High != nil {
			hi = e.val(st, x.High)
		}
		if v.op == "obj" || v.op == "field" {
			st.set(x, mk("slice", "", v, lo, hi))
			return ""
		}
		st.set(x, mk("slice", "", v, lo, hi))
		return ""
	}
	n := tLen(v)
	hi := n
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if lo.op == "int" && lo.c == 0 && hi.op == "int" && hi.c == 0 {
		if x.Max != nil {
			st.set(x, mk("empty", ""))
		} else {
			st.set(x, mkSlice(v, lo, hi))
		}
		return ""
	}
	if e.rule.Bounds != nil {
		e.bounds[x] = true
		ok := st.entailsGe0(toLin(lo)) && st.entailsGe0(toLin(hi).add(toLin(lo), -1))
		if x.High != nil {
			ok = ok && st.entailsGe0(toLin(n).add(toLin(hi), -1))
		}
		if !ok {
			e.rule.Bounds(e, st, x, fmt.Sprintf("slice bounds [%s:%s] of length %s not provable", lo, hi, n))
		}
	}
	st.set(x, mkSlice(v, lo, hi))
	return ""
}

func (e *Eng) lookup(st *State, x *ssa.Lookup) {
	m, k := e.val(st, x.X), e.val(st, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		e.checkIndex(st, x, k, tLen(m), false)
		st.set(x, mkApp("at", m, k))
		return
	}
	loc, okl := mk("mapel", "", m, k), mk("mapok", "", m, k)
	if e.rule.Load != nil {
		e.rule.Load(e, st, x, loc)
	}
	v, have := st.heap[loc]
	okv := st.heap[okl]
	if !have {
		if m.op == "nil" || m.op == "map" && !st.marked(m, "dirty") && !st.hasMapEntries(m, k) {
			v, okv = e.zero(mt.Elem()), tFalse
		} else {
			v = mkFresh("sym", mt.Elem(), &SymInfo{kind: "mapget", site: locName(loc), name: locName(m), ptr: loc, mayNil: isPtrLike(mt.Elem())})
			st.setHeap(loc, v)
		}
	}
	if x.CommaOk {
		if okv == nil {
			okv = mkSym(types.Typ[types.Bool], "mapok", locName(loc))
			st.setHeap(okl, okv)
		}
		st.set(x, mkTuple(v, okv))
		return
	}
	st.set(x, v)
}

func (s *State) hasMapEntries(m, k *Term) bool {
	for l := range s.heap {
		if l.op == "mapel" && l.args[0] == m && !(isDistinctConst(l.args[1]) && isDistinctConst(k)) {
			return true
		}
	}
	return false
}

func (e *Eng) next(st *State, x *ssa.Next) {
	tt := x.Type().(*types.Tuple)
	it := e.val(st, x.Iter)
	okS := mkSym(types.Typ[types.Bool], "next", "range")
	if it.op == "app" && len(it.args) == 1 {
		m := it.args[0]
		if e.rule.Load != nil && !x.IsString {
			e.rule.Load(e, st, x, mk("mapall", "", m))
		}
		if m.op == "nil" || m.op == "map" && !st.marked(m, "dirty") && !st.hasMapEntries(m, tNil) {
			okS = tFalse
		}
	}
	var k, v *Term = tNil, tNil
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		k = mkFresh("sym", tt.At(1).Type(), &SymInfo{kind: "next", site: "key", name: "rangekey", ptr: it})
	} else {
		k = mkFresh("sym", nil, &SymInfo{kind: "next", site: "key", name: "rangekey", ptr: it})
	}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		v = mkFresh("sym", tt.At(2).Type(), &SymInfo{kind: "next", site: "value", name: "rangeval", ptr: it})
		if !x.IsString && it.op == "app" {
			st.setHeap(mk("mapel", "", it.args[0], k), v)
			st.setHeap(mk("mapok", "", it.args[0], k), tTrue)
		}
	}
	st.set(x, mkTuple(okS, k, v))
	if e.rule.Ranged != nil && !x.IsString && it.op == "app" && len(it.args) == 1 {
		e.rule.Ranged(e, st, x, it.args[0], okS, k)
	}
}

func (e *Eng) typeAssert(st *State, x *ssa.TypeAssert) string {
	v := e.val(st, x.X)
	conc := !types.IsInterface(x.AssertedType)
	if v.op == "iface" && conc {
		match := types.Identical(v.typ, x.AssertedType)
		if x.CommaOk {
			if match {
				st.set(x, mkTuple(v.args[0], tTrue))
			} else {
				st.set(x, mkTuple(e.zero(x.AssertedType), tFalse))
			}
			return ""
		}
		if match {
			st.set(x, v.args[0])
			return ""
		}
		return "type assertion fails at " + e.pos(x)
	}
	if v.op == "nil" {
		if x.CommaOk {
			st.set(x, mkTuple(e.zero(x.AssertedType), tFalse))
			return ""
		}
		return "type assertion on nil at " + e.pos(x)
	}
	if !conc {
		if x.CommaOk {
			st.set(x, mkTuple(v, mkSym(types.Typ[types.Bool], "typeassert", "ok")))
		} else {
			st.set(x, v)
		}
		return ""
	}
	r := mkApp("unbox:"+types.TypeString(x.AssertedType, nil), v)
	if r.typ == nil {
		r.typ = x.AssertedType
	}
	if x.CommaOk {
		// the zero value when it does not match: keep one unknown that may be nil
		ok := mkApp("istype:"+types.TypeString(x.AssertedType, nil), v)
		s := mkFresh("sym", x.AssertedType, &SymInfo{kind: "typeassert", site: v.show(3), mayNil: true, ptr: v})
		if b, known := st.evalBool(ok); known {
			if b {
				st.set(x, mkTuple(r, tTrue))
			} else {
				st.set(x, mkTuple(e.zero(x.AssertedType), tFalse))
			}
			return ""
		}
		st.set(x, mkTuple(s, ok))
		return ""
	}
	st.set(x, r)
	return ""
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Eng) convert(st *State, from, to types.Type, v *Term) *Term {
	if intType(from) && intType(to) {
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if v.op == "int" {
			c := v.c
			switch tb.Kind() {
			case types.Uint8:
				c = int64(uint8(c))
			case types.Uint32:
				c = int64(uint32(c))
			case types.Int32:
				c = int64(int32(c))
			case types.Uint64, types.Uint, types.Uintptr:
				if c < 0 {
					return mkApp("conv:uint64", v)
				}
			}
			return mkInt(c)
		}
		if intSize(tb) < intSize(fb) {
			return mkTyped("app", to, v).withAux("conv:" + tb.Name())
		}
		return v
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	isString := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isUnsafe := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	if isUnsafe(from) || isUnsafe(to) {
		if v.op == "obj" || v.op == "field" {
			return v
		}
	}
	switch {
	case isBytes(from) && isString(to):
		return simplifyApp("stringof", []*Term{v})
	case isString(from) && isBytes(to):
		return mkCat(v)
	case isBytes(from) && isBytes(to), isString(from) && isString(to):
		return v
	}
	return mkApp("conv:"+to.String(), v)
}

func (t *Term) withAux(name string) *Term { return mkApp(name, t.args...) }

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (e *Eng) binop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	isInt := intType(t)
	switch op {
	case token.EQL:
		return tEq(a, b)
	case token.NEQ:
		return tNot(tEq(a, b))
	}
	if isInt {
		switch op {
		case token.ADD:
			return tAdd(a, b)
		case token.SUB:
			if b2, ok := t.Underlying().(*types.Basic); ok && numeric && b2.Info()&types.IsUnsigned != 0 && intSize(b2) < 8 && !st.entailsGe0(toLin(a).add(toLin(b), -1)) {
				return mkApp("wrapsub", a, b) // may wrap around
			}
			return tSub(a, b)
		case token.MUL:
			if a.op == "int" {
				return tMulC(b, a.c)
			}
			if b.op == "int" {
				return tMulC(a, b.c)
			}
		case token.LSS:
			l := toLin(b).add(toLin(a), -1)
			l.c--
			return tGe0(l)
		case token.LEQ:
			return tGe0(toLin(b).add(toLin(a), -1))
		case token.GTR:
			l := toLin(a).add(toLin(b), -1)
			l.c--
			return tGe0(l)
		case token.GEQ:
			return tGe0(toLin(a).add(toLin(b), -1))
		}
	}
	if isIntConst(a) && isIntConst(b) && isInt {
		av, bv := constOf(a), constOf(b)
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(bv); ok && n < 64 {
				return mkConst(constant.Shift(av, op, uint(n)))
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return mkConst(constant.BinaryOp(av, op, bv))
		case token.QUO:
			if constant.Sign(bv) != 0 {
				return mkConst(constant.BinaryOp(av, token.QUO_ASSIGN, bv))
			}
		case token.REM:
			if constant.Sign(bv) != 0 {
				return mkConst(constant.BinaryOp(av, op, bv))
			}
		}
	}
	if isStrConst(a) && isStrConst(b) && op == token.ADD {
		return mkStr(constant.StringVal(a.val) + constant.StringVal(b.val))
	}
	switch op {
	case token.XOR:
		return simplifyApp("xor", []*Term{a, b})
	case token.ADD:
		return mkApp("concat", a, b)
	case token.AND, token.OR, token.MUL:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mkApp(op.String(), a, b)
}

func constOf(t *Term) constant.Value {
	if t.op == "int" {
		return constant.MakeInt64(t.c)
	}
	return t.val
}

// ---- calls

func (e *Eng) mkEvent(st *State, cc *ssa.CallCommon, ins ssa.Instruction, callee *Term, args []*Term, kind string) *Event {
	ev := &Event{Instr: ins, Fn: ins.Parent(), Kind: kind, Sig: cc.Signature()}
	if args == nil {
		for _, a := range cc.Args {
			args = append(args, e.val(st, a))
		}
	}
	if cc.IsInvoke() {
		recv := callee
		if recv == nil {
			recv = e.val(st, cc.Value)
		}
		ev.Args = append([]*Term{recv}, args...)
		ev.Name = shortName(methodName(cc.Method))
		ev.Op = e.w.opOf(cc.Method)
		return ev
	}
	ev.Args = args
	if f := cc.StaticCallee(); f != nil && callee == nil {
		ev.Static = f
		ev.Name = shortName(f.String())
		return ev
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ev.Name = "builtin." + b.Name()
		return ev
	}
	if callee == nil {
		callee = e.val(st, cc.Value)
	}
	if callee.op == "closure" {
		ev.Static = callee.fn
		ev.Name = shortName(callee.fn.String())
		return ev
	}
	ev.Name = "callback"
	ev.Args = append([]*Term{callee}, args...)
	return ev
}

func methodName(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return "(" + types.TypeString(r.Type(), nil) + ")." + m.Name()
	}
	return m.FullName()
}

func (e *Eng) doCall(st *State, x *ssa.Call) ([]Out, ssa.Value) {
	outs := e.doCallCommon(st, &x.Call, x, nil, nil, "call")
	return outs, x
}

func (e *Eng) doCallCommon(st *State, cc *ssa.CallCommon, ins ssa.Instruction, callee *Term, args []*Term, kind string) []Out {
	e.callSites[ins] = true
	if args == nil {
		args = []*Term{}
		for _, a := range cc.Args {
			args = append(args, e.val(st, a))
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b.Name(), args, cc, ins)
	}
	if cc.IsInvoke() {
		recv := callee
		if recv == nil {
			recv = e.val(st, cc.Value)
		}
		if recv.op == "nil" {
			if e.rule.NilDeref != nil {
				e.rule.NilDeref(e, st, ins, recv, "method call on nil interface")
			}
			return []Out{{st: st, panic: true, why: "method call on nil interface at " + e.pos(ins)}}
		}
		if recv.op == "iface" {
			if m := e.w.lookupMethod(recv.typ, cc.Method); m != nil {
				return e.invokeStatic(st, m, append([]*Term{recv.args[0]}, args...), nil, ins, kind)
			}
		}
		if recv.op == "sym" && recv.info != nil && recv.info.mayNil && !st.nonNil(recv) {
			if e.rule.NilDeref != nil {
				e.rule.NilDeref(e, st, ins, recv, "method call on a value that may be nil ("+recv.info.kind+" "+recv.info.site+")")
			}
			st.assume(tEq(recv, tNil), false)
		}
		ev := &Event{Name: shortName(methodName(cc.Method)), Args: append([]*Term{recv}, args...), Sig: cc.Signature(), Instr: ins, Fn: ins.Parent(), Kind: kind}
		ev.Op = e.w.opOf(cc.Method)
		return e.external(st, ev)
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		return e.invokeStatic(st, f, args, nil, ins, kind)
	}
	if callee == nil {
		callee = e.val(st, cc.Value)
	}
	return e.callValue(st, callee, args, cc.Signature(), ins, kind)
}

// callValue calls a function value.
func (e *Eng) callValue(st *State, callee *Term, args []*Term, sig *types.Signature, ins ssa.Instruction, kind string) []Out {
	switch callee.op {
	case "closure":
		return e.invokeStatic(st, callee.fn, args, callee.args, ins, kind)
	case "nil":
		if e.rule.NilDeref != nil {
			e.rule.NilDeref(e, st, ins, callee, "call of nil function")
		}
		return []Out{{st: st, panic: true, why: "call of nil function at " + e.pos(ins)}}
	}
	ev := &Event{Name: "callback", Args: append([]*Term{callee}, args...), Sig: sig, Instr: ins, Fn: ins.Parent(), Kind: kind}
	return e.external(st, ev)
}

func (e *Eng) invokeStatic(st *State, f *ssa.Function, args, bindings []*Term, ins ssa.Instruction, kind string) []Out {
	ev := &Event{Name: shortName(f.String()), Args: args, Sig: f.Signature, Instr: ins, Static: f, Kind: kind}
	if ins != nil {
		ev.Fn = ins.Parent()
	}
	if e.rule.Intercept != nil {
		if outs, ok := e.rule.Intercept(e, st, ev); ok {
			return outs
		}
	}
	if outs, ok := e.model(st, ev); ok {
		if e.rule.After != nil {
			outs = e.rule.After(e, st, ev, outs)
		}
		return outs
	}
	if len(f.Blocks) > 0 && e.w.isRepoFn(f) && !(pbOpaque(f) && (ins == nil || !isPbFn(ins.Parent()))) && !(e.rule.Opaque != nil && e.rule.Opaque(f)) {
		depth := 0
		for _, fr := range st.frames {
			if fr.fn == f {
				depth++
			}
		}
		if depth < 2 && len(st.frames) < e.maxDepth {
			return e.callFn(st, f, args, bindings, ins)
		}
	}
	return e.externalDefault(st, ev)
}

func (e *Eng) external(st *State, ev *Event) []Out {
	if e.rule.Intercept != nil {
		if outs, ok := e.rule.Intercept(e, st, ev); ok {
			return outs
		}
	}
	if outs, ok := e.scanModel(st, ev); ok {
		return outs
	}
	if outs, ok := e.model(st, ev); ok {
		if e.rule.After != nil {
			outs = e.rule.After(e, st, ev, outs)
		}
		return outs
	}
	return e.externalDefault(st, ev)
}

// externalDefault: unknown results; memory reachable through pointer arguments changes.
func (e *Eng) externalDefault(st *State, ev *Event) []Out {
	if e.rule.Before != nil {
		e.rule.Before(e, st, ev)
	}
	if !isPureName(ev.Name) {
		for _, a := range ev.Args {
			e.havocArg(st, a, ev)
		}
	}
	outs := []Out{{st: st, res: e.freshResults(ev)}}
	if ev.Kind != "go" && ev.Static != nil && !e.w.isRepoFn(ev.Static) {
		// a library function may call the function it is given
		for _, a := range ev.Args {
			if a.op != "closure" || !e.w.isRepoFn(a.fn) {
				continue
			}
			s2 := st.clone()
			sig := a.fn.Signature
			var as []*Term
			for i := 0; i < sig.Params().Len(); i++ {
				as = append(as, mkFresh("sym", sig.Params().At(i).Type(), &SymInfo{kind: "cbarg", site: shortEv(ev.Name), name: ev.Name, ev: ev}))
			}
			for _, o := range e.callValue(s2, a, as, sig, ev.Instr, "callback") {
				if !o.panic {
					o.res = e.freshResults(ev)
				}
				outs = append(outs, o)
			}
		}
	}
	if ev.Name == "callback" && e.rule.CallbackPanics {
		outs = append(outs, Out{st: st.clone(), panic: true, why: "callback panics"})
	}
	if e.rule.After != nil {
		outs = e.rule.After(e, st, ev, outs)
	}
	return outs
}

func (e *Eng) freshResults(ev *Event) []*Term {
	var res []*Term
	rt := ev.Sig.Results()
	for i := 0; i < rt.Len(); i++ {
		t := rt.At(i).Type()
		res = append(res, mkFresh("sym", t, &SymInfo{kind: "call", site: shortEv(ev.Name), name: ev.Name, res: i, ev: ev}))
	}
	return res
}

func shortEv(n string) string {
	if k := strings.LastIndex(n, "/"); k >= 0 {
		n = n[k+1:]
	}
	return n
}

func (e *Eng) havocArg(st *State, a *Term, ev *Event) {
	if a.op == "iface" {
		if _, ok := a.typ.Underlying().(*types.Pointer); ok {
			a = a.args[0]
		} else {
			return
		}
	}
	switch a.op {
	case "obj":
		if a.info != nil && a.info.kind == "alloc" {
			e.havoc(st, a, a.typ, "havoc", ev.Name, shortEv(ev.Name), 0)
		}
	case "field", "idx":
		if _, ok := st.heap[a]; ok {
			st.setHeap(a, nil)
			if b := locBase(a); b.op == "obj" || b.op == "make" {
				st.mark(b, "dirty")
			}
		}
	}
}

func isPureName(n string) bool {
	for _, p := range []string{"go.uber.org/zap", "logger", "fmt.", "errors.", "bytes.", "strings.", "time.", "(*sync.", "sync/atomic", "(*go.uber.org/zap", "context", "(context", "(error)", "(*github.com/zhiqiangxu/util/closer", "(*errors"} {
		if strings.HasPrefix(n, p) || strings.Contains(n, "zhiqiangxu/util/logger") {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
