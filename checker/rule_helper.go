package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P04: helpers that run a caller's function in a transaction.

// txnFunc: a function type func(transaction...) error.
func txnFunc(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || !returnsErr(s) || s.Results().Len() != 1 {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		if isTxnType(s.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// isTxnType: something that can be committed or discarded.
func isTxnType(t types.Type) bool {
	return hasMethod(t, "Commit") && hasMethod(t, "Discard")
}

func hasMethod(t types.Type, n string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, n)
	_, ok := o.(*types.Func)
	return ok
}

// txnEvent classifies calls for the helper rules: open, commit, discard.
func txnEvent(ev *Event) (kind string, update *Term) {
	switch ev.Op {
	case "NewTransaction":
		return "open", ev.Args[1]
	case "Commit", "Discard":
		return strings.ToLower(ev.Op), nil
	}
	if ev.Static == nil {
		return "", nil
	}
	f := ev.Static
	return txnFuncKind(f, ev.Args)
}

func txnFuncKind(f *ssa.Function, args []*Term) (string, *Term) {
	if f.Parent() != nil || isPbFn(f) {
		return "", nil
	}
	sig := f.Signature
	if sig.Recv() != nil && sig.Params().Len() == 0 && isTxnType(sig.Recv().Type()) {
		if f.Name() == "Commit" || f.Name() == "Discard" {
			return strings.ToLower(f.Name()), nil
		}
	}
	if sig.Results().Len() == 1 && isTxnType(sig.Results().At(0).Type()) && !takesFunc(sig) {
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if args == nil {
					return "open", nil
				}
				return "open", args[i]
			}
		}
	}
	return "", nil
}

var cancelName = regexp.MustCompile(`(?i)cancel|rollback|fail`)

func runHelpers(c *Ctx) {
	for _, f := range c.w.funcs {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || isPbFn(f) || !returnsErr(f.Signature) {
			continue
		}
		has := -1
		given := false
		for i, p := range f.Params {
			if txnFunc(p.Type()) {
				has = i
			}
			if isTxnType(p.Type()) {
				given = true
			}
		}
		if has < 0 {
			continue
		}
		n := shortName(f.String())
		c.obl("helper", n)
		helper(c, f, n, has, given)
	}
}

func helper(c *Ctx, f *ssa.Function, n string, fp int, given bool) {
	bad := func(e *Eng, ins ssa.Instruction, detail, msg string) {
		at := c.w.pos(f.Pos())
		if ins != nil {
			at = e.pos(ins)
		}
		c.fail("helper", n, detail, at, n+": "+msg)
	}
	st := newState()
	r := &Rule{CallbackPanics: true}
	r.Opaque = func(fn *ssa.Function) bool { k, _ := txnFuncKind(fn, nil); return k != "" }
	e := newEng(c.w, r)
	args := e.paramSyms(st, f)
	// the caller's function is given
	st.setFact(tEq(args[fp], tNil), false)
	if given {
		for i, p := range f.Params {
			if isTxnType(p.Type()) {
				st.setG("h.txn", args[i])
				st.setG("h.update", tTrue)
			}
		}
	}
	for i, a := range args {
		st.setG(fmt.Sprint("h.arg", i), a)
	}
	arg := func(st *State, i int) *Term { return st.g(fmt.Sprint("h.arg", i)) }
	sameTxn := func(st *State, t *Term) bool {
		x := st.g("h.txn")
		return x != nil && resBase(t) == resBase(x)
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		var res []Out
		switch k, upd := txnEvent(ev); k {
		case "open":
			for _, o := range outs {
				distinct(o.st, resBase(o.res[0]))
				o.st.setG("h.txn", resBase(o.res[0]))
				o.st.setG("h.update", upd)
				o.st.setGS("h.commit", "")
				o.st.setGS("h.fn", "")
			}
			return outs
		case "commit":
			if !sameTxn(st, ev.Args[0]) {
				bad(e, ev.Instr, "commit-other", "commits something other than the transaction it ran the function in")
			}
			ok := st.gs("h.fn") == "ok" || given && st.gs("h.fn") == "toobig"
			if !ok {
				bad(e, ev.Instr, "commit-unsuccessful", "commits although the function has not succeeded")
			}
			if st.gs("h.commit") != "" {
				bad(e, ev.Instr, "commit-twice", "commits twice")
			}
			if st.g("h.update") == tFalse {
				bad(e, ev.Instr, "commit-read", "commits a read-only transaction")
			}
			for _, o := range outs {
				for _, p := range forkErr(o) {
					if errOf(p).op == "nil" {
						p.st.setGS("h.commit", "ok")
					} else {
						p.st.setGS("h.commit", "failed")
						p.st.setG("h.err", errOf(p))
					}
					res = append(res, p)
				}
			}
			return res
		}
		if ev.Name != "callback" {
			return outs
		}
		switch ev.Args[0] {
		case arg(st, fp):
			if st.g("h.txn") == nil || len(ev.Args) < 2 || !reachable(st, resBase(st.g("h.txn")), ev.Args[1:]) {
				bad(e, ev.Instr, "other-txn", "runs the function on something other than the transaction it opened")
			}
			if st.gs("h.commit") != "" {
				bad(e, ev.Instr, "rerun", "runs the function in a transaction that was committed")
			}
			if !given && st.gs("h.fn") != "" {
				bad(e, ev.Instr, "rerun", "runs the function twice in one transaction")
			}
			for _, o := range outs {
				if o.panic {
					o.st.setGS("h.fn", "panicked")
					res = append(res, o)
					continue
				}
				for _, p := range forkErr(o) {
					if errOf(p).op == "nil" {
						p.st.setGS("h.fn", "ok")
						p.st.setG("h.err", nil)
						res = append(res, p)
						continue
					}
					p.st.setG("h.err", errOf(p))
					if given {
						is, ok, not, ok2 := errIs(p, mk("sentinel", "kv.ErrTxnTooBig"))
						if ok {
							is.st.setGS("h.fn", "toobig")
							is.st.setG("h.err", errOf(is))
							res = append(res, is)
						}
						if !ok2 {
							continue
						}
						p = not
					}
					p.st.setGS("h.fn", "failed")
					res = append(res, p)
				}
			}
			return res
		}
		for i := range args {
			if arg(st, i) != ev.Args[0] {
				continue
			}
			name := f.Params[i].Name()
			if cancelName.MatchString(name) || cancelName.MatchString(f.Name()) && !strings.Contains(strings.ToLower(name), "after") {
				if st.gs("h.commit") != "failed" {
					bad(e, ev.Instr, "cancel", "runs the cancel action although no commit failed")
				}
			} else if st.gs("h.commit") != "ok" {
				bad(e, ev.Instr, "after", "runs the after-commit action although the commit has not succeeded")
			}
			for _, o := range outs {
				o.st.setGS("h.act"+name, "ran")
			}
		}
		return outs
	}
	for _, o := range c.run(e, st, f, args) {
		if o.panic {
			if o.st.gs("h.fn") == "panicked" && o.st.gs("h.commit") != "" {
				bad(e, nil, "commit-panic", "commits although the function panicked")
			}
			continue
		}
		fn, cm := o.st.gs("h.fn"), o.st.gs("h.commit")
		er := errOf(o)
		isNil, known := o.st.evalBool(tEq(er, tNil))
		mustErr := func(what string) {
			if !known || isNil {
				if os.Getenv("DBG") != "" {
					fmt.Println(n, fn, cm, er, o.st.canon(er))
				}
				bad(e, nil, "lost-"+what, "reports success although "+what)
			} else if w := o.st.g("h.err"); w != nil && er != w {
				if v, k := o.st.evalBool(tEq(er, w)); !k || !v {
					bad(e, nil, "other-"+what, "does not report the error although "+what)
				}
			}
		}
		switch {
		case fn == "":
			if !known || isNil {
				bad(e, nil, "not-run", "reports success without running the function")
			}
		case fn == "failed" || fn == "toobig" || fn == "panicked":
			if cm == "failed" {
				mustErr("the commit failed")
			} else {
				mustErr("the function failed")
			}
		case o.st.g("h.update") == tFalse || given:
			if !known || !isNil {
				bad(e, nil, "false-error", "reports an error although the function succeeded")
			}
		case cm == "":
			bad(e, nil, "no-commit", "returns without committing although the function succeeded")
		case cm == "failed":
			mustErr("the commit failed")
		case cm == "ok":
			if !known || !isNil {
				bad(e, nil, "false-error", "reports an error although the commit succeeded")
			}
		}
		// actions that must have run
		for i, p := range f.Params {
			s, ok := p.Type().Underlying().(*types.Signature)
			if !ok || i == fp || s.Params().Len() > 0 {
				continue
			}
			nonNil := true
			if v, k := o.st.evalBool(tEq(arg(o.st, i), tNil)); k && v {
				nonNil = false
			}
			cancel := cancelName.MatchString(p.Name()) || cancelName.MatchString(f.Name()) && !strings.Contains(strings.ToLower(p.Name()), "after")
			if nonNil && (cancel && cm == "failed" || !cancel && cm == "ok") && o.st.gs("h.act"+p.Name()) == "" {
				bad(e, nil, "action-missing", fmt.Sprintf("does not run %s after the commit", p.Name()))
			}
		}
	}
}

// runCommitActions: registered cancel actions run only when the commit fails.
func runCommitActions(c *Ctx) {
	for _, f := range c.w.funcs {
		if f.Parent() != nil || f.Name() != "Commit" || f.Signature.Recv() == nil || isPbFn(f) || len(f.Blocks) == 0 || !returnsErr(f.Signature) {
			continue
		}
		n := shortName(f.String())
		r := &Rule{}
		r.Opaque = func(fn *ssa.Function) bool { return fn.Parent() == nil && fn.Pkg != f.Pkg }
		r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
			var res []Out
			for _, o := range outs {
				switch {
				case o.panic:
					res = append(res, o)
				case ev.Op == "Commit":
					for _, p := range forkErr(o) {
						if errOf(p).op == "nil" {
							p.st.setGS("committed", e.pos(ev.Instr))
						}
						res = append(res, p)
					}
				case ev.Name == "callback":
					if o.st.gs("committed") != "" {
						c.fail("cancel", n, "after-success", e.pos(ev.Instr), "runs a cancel action although the commit succeeded")
					}
					o.st.setGS("ran", e.pos(ev.Instr))
					c.obl("cancel", n)
					res = append(res, o)
				default:
					res = append(res, o)
				}
			}
			return res
		}
		e := newEng(c.w, r)
		for _, o := range c.run(e, nil, f, nil) {
			if o.panic {
				continue
			}
			v, known := o.st.evalBool(tEq(errOf(o), tNil))
			if at := o.st.gs("ran"); at != "" && (!known || v) {
				c.fail("cancel", n, "without-failure", at, "runs a cancel action on a commit that is reported as successful")
			}
			if o.st.gs("committed") != "" && (!known || !v) {
				c.fail("commit", n, "false-error", o.st.gs("committed"), "the commit succeeded but an error is reported")
			}
		}
		c.obl("commit", n)
	}
}

func init() {
	register("P04", func(c *Ctx) {
		c.rule("every path of every function that takes a function on a transaction, with the function succeeding, failing and panicking and the commit succeeding and failing: commit exactly when the function succeeded (never for a read-only transaction), nil returned exactly when that commit succeeded, the failing step's error returned otherwise, after-commit actions exactly after a successful commit, cancel actions exactly after a failed one; the same for cancel actions registered on a transaction")
		runHelpers(c)
		runCommitActions(c)
		c.need("helper", 7)
		c.need("cancel", 1)
	})
}
