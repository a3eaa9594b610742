package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P03: what the system opens it finishes.

// resOp classifies a call: open, close, use of a transaction, batch or iterator.
func resOp(w *World, op, name string) string {
	switch op {
	case "NewTransaction", "WriteBatch":
		return "open"
	case "Commit", "Discard":
		return "close"
	case "Get", "Set", "Exists", "Delete", "Scan", "StartTS":
		return "use"
	}
	const bt, bd, bi, bw = "(*github.com/dgraph-io/badger.Txn).", "(*github.com/dgraph-io/badger.DB).", "(*github.com/dgraph-io/badger.Iterator).", "(*github.com/dgraph-io/badger.WriteBatch)."
	switch name {
	case bd + "NewTransaction", bd + "NewTransactionAt", bd + "NewWriteBatch", bt + "NewIterator", bt + "NewKeyIterator", "(*github.com/syndtr/goleveldb/leveldb.DB).NewIterator",
		"(*github.com/syndtr/goleveldb/leveldb.DB).GetSnapshot", "(*github.com/syndtr/goleveldb/leveldb.DB).OpenTransaction":
		return "open"
	case bt + "Commit", bt + "Discard", bt + "CommitAt", bi + "Close", bw + "Flush", bw + "Cancel", "(github.com/syndtr/goleveldb/leveldb/util.Releaser).Release",
		"(github.com/syndtr/goleveldb/leveldb/iterator.Iterator).Release", "(*github.com/syndtr/goleveldb/leveldb.Snapshot).Release",
		"(*github.com/syndtr/goleveldb/leveldb.Transaction).Commit", "(*github.com/syndtr/goleveldb/leveldb.Transaction).Discard":
		return "close"
	case bt + "Get", bt + "Set", bt + "SetEntry", bt + "Delete", bi + "Seek", bi + "Next", bi + "Item", bi + "Rewind", bi + "Valid", bi + "ValidForPrefix", bw + "Set", bw + "Delete":
		return "use"
	}
	if strings.HasSuffix(name, ".Release") && strings.Contains(name, "goleveldb") {
		return "close"
	}
	return ""
}

// callInfo gives the canonical operation and name of a call instruction.
func (w *World) callInfo(cc *ssa.CallCommon) (op, name string) {
	if cc.IsInvoke() {
		return w.opOf(cc.Method), shortName(methodName(cc.Method))
	}
	if f := cc.StaticCallee(); f != nil {
		return "", shortName(f.String())
	}
	return "", ""
}

func (w *World) calls(fn *ssa.Function, f func(cc *ssa.CallCommon)) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				f(ci.Common())
			}
		}
	}
}

// reaching computes the named functions that may reach (by static calls,
// through closures they contain, and from there) a call accepted by f.
func (w *World) reaching(f func(cc *ssa.CallCommon) bool) map[*ssa.Function]bool {
	return w.reachingBut(f, func(*ssa.Function) bool { return false })
}

// reachingBut does not look into the functions named by stop.
func (w *World) reachingBut(f func(cc *ssa.CallCommon) bool, stop func(*ssa.Function) bool) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.allFuncs() {
			if in[fn] {
				continue
			}
			hit := false
			for _, a := range fn.AnonFuncs {
				hit = hit || in[a]
			}
			w.calls(fn, func(cc *ssa.CallCommon) {
				if f(cc) {
					hit = true
				}
				if c := cc.StaticCallee(); c != nil && in[c] && !stop(c) {
					hit = true
				}
			})
			if hit {
				in[fn] = true
				changed = true
			}
		}
	}
	return in
}

func (w *World) allFuncs() []*ssa.Function {
	var res []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		res = append(res, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range w.funcs {
		if f.Parent() == nil && len(f.Blocks) > 0 && !isPbFn(f) {
			add(f)
		}
	}
	return res
}

func resBase(t *Term) *Term {
	for {
		switch {
		case t.op == "iface":
			t = t.args[0]
		case t.op == "app" && strings.HasPrefix(t.aux, "conv") && len(t.args) == 1:
			t = t.args[0]
		default:
			return t
		}
	}
}

const resPfx = "res:"

func openRes(st *State) []string {
	var ks []string
	for _, k := range sortedGhost(st) {
		if strings.HasPrefix(k, resPfx) {
			ks = append(ks, k)
		}
	}
	return ks
}

// reachable: is t part of (or stored in something reachable from) one of roots?
func reachable(st *State, t *Term, roots []*Term) bool {
	seen := map[*Term]bool{}
	var visit func(x *Term) bool
	visit = func(x *Term) bool {
		x = resBase(x)
		if x == t {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if visit(a) {
				return true
			}
		}
		if x.op == "obj" || x.op == "make" {
			for l, v := range st.heap {
				if l != x && locBase(l) == x && visit(v) {
					return true
				}
				if l == x && visit(v) {
					return true
				}
			}
		}
		return false
	}
	for _, r := range roots {
		if visit(r) {
			return true
		}
	}
	return false
}

func runRelease(c *Ctx) {
	w := c.w
	isRes := func(cc *ssa.CallCommon) bool {
		op, n := w.callInfo(cc)
		k := resOp(w, op, n)
		return k == "open" || k == "close"
	}
	isOpen := func(cc *ssa.CallCommon) bool {
		op, n := w.callInfo(cc)
		return resOp(w, op, n) == "open"
	}
	rel, opens := w.reaching(isRes), w.reaching(isOpen)
	for _, f := range w.funcs {
		if f.Parent() != nil || !opens[f] || f.Synthetic != "" {
			continue
		}
		n := shortName(f.String())
		if c.inLoopForever(f) {
			continue // starts a goroutine or never returns; what it calls is analysed on its own
		}
		c.obl("opener", n)
		r := &Rule{CallbackPanics: true}
		r.Opaque = func(fn *ssa.Function) bool {
			// a function that opens and also finishes is analysed on its own; it is
			// entered when it may pass on what it opened, or runs caller supplied code
			return fn.Parent() == nil && (!rel[fn] || !takesFunc(fn.Signature) && !passesRes(fn.Signature))
		}
		report := func(e *Eng, rule, detail, at, msg string) {
			c.fail(rule, n, detail, at, msg)
		}
		handle := func(e *Eng, st *State, ev *Event) string {
			k := resOp(w, ev.Op, ev.Name)
			if k == "" || len(ev.Args) == 0 {
				return ""
			}
			if k == "use" || k == "close" && (ev.Op == "Commit" || strings.HasSuffix(ev.Name, ".Commit")) {
				b := resBase(ev.Args[0])
				for _, g := range sortedGhost(st) {
					if strings.HasPrefix(g, "dis:") && st.g(g) == b {
						report(e, "use-after-discard", shortEv(ev.Name), e.pos(ev.Instr), fmt.Sprintf("%s on a transaction that was discarded at %s", shortEv(ev.Name), g[4:]))
					}
				}
			}
			return k
		}
		r.Before = func(e *Eng, st *State, ev *Event) { handle(e, st, ev) }
		r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
			k := resOp(w, ev.Op, ev.Name)
			if k == "" || ev.Kind == "go" {
				if ev.Name != "callback" && givesFunc(ev) {
					o := outs[0]
					outs = append(outs, Out{st: o.st.clone(), panic: true, why: "supplied function panics"})
				}
				return outs
			}
			for _, o := range outs {
				if o.panic || len(ev.Args) == 0 {
					continue
				}
				switch k {
				case "open":
					c.obl("open", n+"/"+shortEv(ev.Name)+"@"+e.pos(ev.Instr))
					b := resBase(o.res[0])
					if b.op == "tuple" {
						b = resBase(b.args[0])
					}
					distinct(o.st, b)
					i := 0
					for o.st.g(fmt.Sprint(resPfx, e.pos(ev.Instr), "#", i)) != nil {
						i++
					}
					o.st.setG(fmt.Sprint(resPfx, e.pos(ev.Instr), "#", i), b)
				case "close":
					b := resBase(ev.Args[0])
					for _, g := range openRes(o.st) {
						if o.st.g(g) == b {
							o.st.setG(g, nil)
						}
					}
					if ev.Op == "Discard" || strings.HasSuffix(ev.Name, ".Discard") {
						o.st.setG("dis:"+e.pos(ev.Instr), b)
					}
				case "use":
				}
			}
			if k == "use" && givesFunc(ev) {
				outs = append(outs, Out{st: outs[0].st.clone(), panic: true, why: "supplied function panics"})
			}
			return outs
		}
		e := newEng(w, r)
		e.maxSteps = 500000
		for _, o := range c.run(e, nil, f, nil) {
			how := "return"
			if o.panic {
				how = "panic"
				if !strings.Contains(o.why, "panics") {
					continue // a crash of the system itself, not of supplied code
				}
			}
			for _, g := range openRes(o.st) {
				b := o.st.g(g)
				if !o.panic && reachable(o.st, b, o.res) {
					continue // passed on to the caller
				}
				if o.panic == false && escapesTo(o.st, b, f) {
					continue
				}
				at := strings.SplitN(strings.TrimPrefix(g, resPfx), "#", 2)[0]
				if os.Getenv("DBG") != "" {
					fmt.Println(n, how, g, b, o.why, o.res, o.st.canon())
				}
				report(e, "unreleased", how, at, fmt.Sprintf("what is opened here is not committed, discarded or closed on every %s of %s", how, n))
			}
		}
	}
}

// passesRes: a parameter, the receiver or a result is something that can be
// discarded or released.
func passesRes(sig *types.Signature) bool {
	if sig.Recv() != nil && carriesRes(sig.Recv().Type()) {
		return true
	}
	for _, tup := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < tup.Len(); i++ {
			if carriesRes(tup.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func carriesRes(t types.Type) bool {
	for _, n := range []string{"Discard", "Release", "Cancel", "NewIterator"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	if n, ok := deref(t).(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "Iterator") {
		return true
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// distinct: what has just been opened is none of the values seen before.
func distinct(st *State, b *Term) {
	if b.op != "sym" || b.typ == nil {
		return
	}
	note := func(v *Term) {
		if v != b && v.op == "sym" && v.typ != nil && types.Identical(v.typ, b.typ) {
			st.setFact(tEq(v, b), false)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			note(v)
		}
	}
	for _, v := range st.heap {
		note(v)
	}
}

// givesFunc: an argument is a function value the analysis does not know.
func givesFunc(ev *Event) bool {
	for _, a := range ev.Args {
		if a.op == "sym" && a.typ != nil {
			if _, ok := a.typ.Underlying().(*types.Signature); ok {
				return true
			}
		}
	}
	return false
}

// escapesTo: stored in something the caller gave (a receiver's field).
func escapesTo(st *State, t *Term, f *ssa.Function) bool {
	for l, v := range st.heap {
		if l.op == "field" && locBase(l).op == "sym" && reachable(st, t, []*Term{v}) {
			return true
		}
	}
	return false
}

// inLoopForever: the function has no way to return.
func (c *Ctx) inLoopForever(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

func init() {
	register("P03", func(c *Ctx) {
		c.rule("typestate of every transaction, iterator and write batch opened in the repository, on every path of every function that opens one (directly or through callees), including the paths on which user supplied code panics: opened -> finished before the function ends, unless passed on to the caller; nothing is read or written through it after it was discarded")
		runRelease(c)
		c.need("opener", 20)
		c.need("open", 20)
	})
}
