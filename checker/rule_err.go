package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P09: an operation one of whose steps failed reports an error.

// returnsErr: the signature's last result is an error.
func returnsErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

// takesFunc: a parameter is a function (the callee runs caller supplied code).
func takesFunc(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// mapsErr: a function from errors to errors.
func mapsErr(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if !isErrorType(sig.Params().At(i).Type()) {
			return false
		}
	}
	return sig.Params().Len() > 0
}

// fallible: a call whose error means that a step failed.
func fallible(ev *Event) bool {
	if ev.Kind == "go" || ev.Sig == nil || !returnsErr(ev.Sig) {
		return false
	}
	for _, p := range []string{"errors.", "fmt.", "(context", "context.", "go.uber.org", "(*go.uber.org", "(error)"} {
		if strings.HasPrefix(ev.Name, p) {
			return false
		}
	}
	return true
}

// stepName names a step for reports and keys.
func stepName(ev *Event) string {
	if ev.Op != "" {
		return "storage " + ev.Op
	}
	return shortEv(ev.Name)
}

// isCleanup: releasing something that is no longer wanted is not one of the
// steps whose failure matters.
func isCleanup(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Name() == "Discard" && fn.Signature.Results().Len() == 0
}

// missingKey: the outcomes that say that a key is absent.
func missingKey() []*Term {
	return []*Term{notFound(), mk("sentinel", "github.com/dgraph-io/badger.ErrKeyNotFound"), mk("sentinel", "github.com/syndtr/goleveldb/leveldb.ErrNotFound")}
}

var notFound = func() *Term { return mk("sentinel", "kv.ErrKeyNotFound") }

// recordField: the store goes to a field of a record type (one that is encoded
// for storage).
func (c *Ctx) recordField(ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	ms := c.w.prog.MethodSets.MethodSet(fa.X.Type())
	return ms.Lookup(nil, "Encode") != nil || ms.Lookup(nil, "MarshalJSON") != nil
}

func runErrs(c *Ctx) {
	for _, f := range c.w.funcs {
		if isPbFn(f) || f.Parent() != nil || len(f.Blocks) == 0 || !returnsErr(f.Signature) || f.Synthetic != "" {
			continue
		}
		n := shortName(f.String())
		c.obl("operation", n)
		r := &Rule{}
		r.Opaque = func(fn *ssa.Function) bool {
			if isCleanup(fn) {
				return true
			}
			return fn.Parent() == nil && returnsErr(fn.Signature) && !takesFunc(fn.Signature) && !mapsErr(fn.Signature)
		}
		// an error that is recorded (given to another step that succeeds, or kept
		// in a stored record) has been reported
		r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
			if val == st.g("e.err") && loc.op == "field" && c.recordField(ins) {
				st.setG("e.err", nil)
			}
		}
		r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
			if !fallible(ev) {
				return outs
			}
			c.obl("step", n+"/"+stepName(ev)+"@"+e.pos(ev.Instr))
			var res []Out
			for _, a := range ev.Args {
				if a == st.g("e.err") && ev.Static != nil && c.w.isRepoFn(ev.Static) {
					for _, o := range outs {
						o.st.setG("e.err", nil)
					}
				}
			}
			for _, o := range outs {
				if o.panic {
					res = append(res, o)
					continue
				}
				er := errOf(o)
				if o.st.gs("e.waited") != "" && o.st.gs("e.at") == e.pos(ev.Instr) {
					// tried again after a wait: only the new attempt counts
					o.st.setG("e.err", nil)
					o.st.setGS("e.waited", "")
				}
				if o.st.g("e.err") != nil || er.op == "nil" {
					res = append(res, o)
					continue
				}
				for _, p := range forkErr(o) {
					if errOf(p).op == "nil" {
						res = append(res, p)
						continue
					}
					allowed := missingKey()
					if ev.Name == "callback" {
						// a helper may run the caller's function again in a new transaction
						allowed = append(allowed, mk("sentinel", "kv.ErrTxnTooBig"))
					}
					ok := true
					for _, m := range allowed {
						is, isOK, not, notOK := errIs(p, m)
						if isOK {
							res = append(res, is)
						}
						p, ok = not, ok && notOK
					}
					if ok {
						p.st.setG("e.err", er)
						p.st.setGS("e.what", stepName(ev))
						p.st.setGS("e.at", e.pos(ev.Instr))
						p.st.setGS("e.waited", "")
						res = append(res, p)
					}
				}
			}
			return res
		}
		r.Wait = func(e *Eng, st *State) {
			if st.g("e.err") != nil {
				st.setGS("e.waited", "yes")
			}
		}
		e := newEng(c.w, r)
		e.maxSteps = 600000
		for _, o := range c.run(e, nil, f, nil) {
			if o.panic || o.st.g("e.err") == nil {
				continue
			}
			er := errOf(o)
			if er == o.st.g("e.err") {
				continue
			}
			if v, known := o.st.evalBool(tEq(er, tNil)); known && !v {
				continue
			}
			if os.Getenv("DBG") != "" {
				fmt.Println(n, o.st.gs("e.what"), o.st.gs("e.at"), er, o.st.canon())
			}
			c.fail("lost-error", n, o.st.gs("e.what"), o.st.gs("e.at"),
				fmt.Sprintf("%s can fail here (other than with a missing key) while %s goes on to report success", o.st.gs("e.what"), n))
		}
	}
}

func init() {
	register("P09", func(c *Ctx) {
		c.rule("every path of every operation that reports an error, with each step (storage call, commit, scan, encoding, callee) failing in turn: a path on which a step failed other than with kv.ErrKeyNotFound does not return a nil error")
		runErrs(c)
		c.need("operation", 100)
		c.need("step", 200)
	})
}
