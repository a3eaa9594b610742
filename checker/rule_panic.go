package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// panicHooks reports every dereference of a possibly missing value, every
// index or slice bound that the facts of the path do not establish, and every
// reachable explicit panic.
func panicHooks(c *Ctx, r *Rule, name string) {
	want := func(rule, detail string, e *Eng, ins ssa.Instruction, msg string) {
		c.fail(rule, name+"/"+shortName(topFn(ins.Parent()).String()), detail, e.pos(ins), msg)
	}
	r.NilDeref = func(e *Eng, st *State, ins ssa.Instruction, v *Term, why string) {
		if v.op == "sym" && v.info != nil && v.info.kind == "param" {
			return
		}
		want("nil-deref", why, e, ins, why)
	}
	r.Bounds = func(e *Eng, st *State, ins ssa.Instruction, what string) {
		want("bounds", what, e, ins, what)
	}
	r.PanicInstr = func(e *Eng, st *State, ins ssa.Instruction) {
		if strings.HasPrefix(fnPkg(topFn(ins.Parent())), "/document/txn") {
			return // registering a second cancel action is API misuse
		}
		want("panic", "explicit", e, ins, "explicit panic")
	}
}

var decodeName = regexp.MustCompile(`^(?i:decode|unmarshal|parse)|(Decode|Unmarshal)`)

func fnPkg(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(f.Pkg.Pkg.Path(), "github.com/zhiqiangxu/mondis")
}

// takesBytes: a function with a byte slice (or string) parameter.
func takesBytes(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isByteSlice(p.Type()) {
			return true
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return true
		}
	}
	return false
}

// pbCalls collects the functions of the wire package that f calls.
func pbCalls(f *ssa.Function, seen map[*ssa.Function]bool) map[*ssa.Function]bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil && fnPkg(g) == "/pb" && !seen[g] {
				seen[g] = true
				pbCalls(g, seen)
			}
		}
	}
	return seen
}

// skipsField: a function that finds the end of a field in a byte string. It is
// looked at on its own.
func skipsField(f *ssa.Function) bool {
	s := f.Signature
	return fnPkg(f) == "/pb" && s.Recv() == nil && s.Params().Len() == 1 && isByteSlice(s.Params().At(0).Type()) && s.Results().Len() == 2 && intType(s.Results().At(0).Type()) && returnsErr(s)
}

func runPanic(c *Ctx) {
	reach := map[*ssa.Function]bool{}
	for _, f := range c.w.funcs {
		if fnPkg(f) == "/pb" && f.Name() == "Unmarshal" && f.Signature.Recv() != nil {
			reach[f] = true
			pbCalls(f, reach)
		}
	}
	for _, f := range c.w.funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		pkg := fnPkg(f)
		codec, entry := true, false
		switch {
		case pkg == "/pb":
			dec := takesBytes(f) && reach[f]
			// other helpers are followed in the decoders that call them
			codec, entry = false, dec && (f.Name() == "Unmarshal" || skipsField(f))
			// how deep the input nests may not decide how deep the stack is
			c.obl("decoder nesting", shortName(f.String()))
			if dec && pbCalls(f, map[*ssa.Function]bool{})[f] {
				c.fail("panic", shortName(f.String()), "recursion", c.w.pos(f.Pos()), "this decoder calls itself for what is nested in the bytes received: deep nesting exhausts the stack")
				continue
			}
		case strings.HasPrefix(pkg, "/kv"):
			codec, entry = false, decodeName.MatchString(f.Name()) && takesBytes(f)
		case pkg == "/structure", pkg == "/document", pkg == "/document/meta", pkg == "/document/meta/sequence", pkg == "/document/dml", pkg == "/document/keyspace":
			entry = true
		default:
			entry = decodeName.MatchString(f.Name()) && takesBytes(f) && !strings.HasPrefix(pkg, "/client") && !strings.HasPrefix(pkg, "/server")
		}
		if !entry {
			continue
		}
		n := shortName(f.String())
		c.obl("decoder", n)
		r := &Rule{Numeric: true, Codec: codec, Opaque: func(fn *ssa.Function) bool {
			// its panics concern API misuse and configuration, not data
			return strings.HasPrefix(fnPkg(fn), "/document/schema")
		}}
		if pkg == "/pb" {
			r.Opaque = func(fn *ssa.Function) bool { return fn != f && skipsField(fn) }
		}
		r.Wraps = func(fn *ssa.Function) bool { return isPbFn(fn) || strings.HasPrefix(fnPkg(fn), "/kv") }
		panicHooks(c, r, n)
		e := newEng(c.w, r)
		e.maxSteps = 300000
		c.run(e, nil, f, nil)
		if pkg == "/pb" && len(e.bounds) < 2 {
			c.fail("bounds", n, "floor", c.w.pos(f.Pos()), "no access to the bytes received was met in this decoder: nothing was decided about it")
		}
	}
}

func init() {
	register("P07", func(c *Ctx) {
		c.rule("every path of every request handler, client call, decoder and operation reading stored data: no dereference of an absent optional part, no index or slice bound not established by the checks of the path, no explicit panic")
		runServer(c)
		runClient(c)
		runPanic(c)
		c.need("handler", 5)
		c.need("decoder", 30)
		c.need("bound", 60)
	})
}
