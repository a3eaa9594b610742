package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P08: the store is open while requests are served.

// srvEvent classifies calls on the request server.
func srvEvent(name string) string {
	const q = "(*github.com/zhiqiangxu/qrpc.Server)."
	if !strings.HasPrefix(name, q) {
		return ""
	}
	switch n := strings.TrimPrefix(name, q); {
	case strings.Contains(n, "Serve"):
		return "serve"
	case n == "Shutdown":
		return "shutdown"
	}
	return ""
}

func runLifecycle(c *Ctx) {
	w := c.w
	isLife := func(cc *ssa.CallCommon) bool {
		op, n := w.callInfo(cc)
		return op == "Open" || op == "Close" || srvEvent(n) != ""
	}
	life := w.reaching(isLife)
	for _, f := range w.funcs {
		if f.Parent() != nil || !life[f] || f.Synthetic != "" || fnPkg(f) != "/server" {
			continue
		}
		n := shortName(f.String())
		exported := f.Object() != nil && f.Object().Exported()
		if !exported {
			continue // entered from the exported operations
		}
		c.obl("operation", n)
		bad := func(e *Eng, ev *Event, detail, msg string) {
			c.fail("lifecycle", n, detail, e.pos(ev.Instr), msg)
		}
		r := &Rule{}
		r.Opaque = func(fn *ssa.Function) bool { return fn.Parent() == nil && !life[fn] }
		r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
			if ev.Kind == "go" && (ev.Op == "Open" || ev.Op == "Close" || srvEvent(ev.Name) == "shutdown") {
				bad(e, ev, "async-"+shortEv(ev.Name), "opening, closing and shutting down must have finished before the next step")
			}
			return nil, false
		}
		r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
			k := srvEvent(ev.Name)
			switch {
			case k == "serve":
				c.obl("serve", n)
				if st.gs("open") != "ok" {
					bad(e, ev, "serve-unopened", "serves requests although the store has not been opened successfully")
				}
				if st.gs("closed") != "" {
					bad(e, ev, "serve-closed", "serves requests although the store was closed")
				}
				if len(outs) == 0 {
					st.setGS("serving", "yes")
				}
				for _, o := range outs {
					o.st.setGS("serving", "yes")
				}
				return outs
			case k == "shutdown":
				var res []Out
				for _, o := range outs {
					for _, p := range forkErr(o) {
						if errOf(p).op == "nil" {
							p.st.setGS("shutdown", "ok")
						} else {
							p.st.setGS("shutdown", "failed")
						}
						res = append(res, p)
					}
				}
				return res
			case ev.Op == "Open":
				c.obl("open", n)
				var res []Out
				for _, o := range outs {
					for _, p := range forkErr(o) {
						if errOf(p).op == "nil" {
							p.st.setGS("open", "ok")
						} else {
							p.st.setGS("open", "failed")
						}
						res = append(res, p)
					}
				}
				return res
			case ev.Op == "Close":
				c.obl("close", n)
				fresh := st.gs("open") != "" && st.gs("serving") == ""
				if !fresh && st.gs("shutdown") != "ok" {
					bad(e, ev, "close-serving", "closes the store before the server has stopped serving")
				}
				for _, o := range outs {
					o.st.setGS("closed", "yes")
				}
			}
			return outs
		}
		e := newEng(w, r)
		for _, o := range c.run(e, nil, f, nil) {
			if o.panic || !returnsErr(f.Signature) {
				continue
			}
			v, known := o.st.evalBool(tEq(errOf(o), tNil))
			if o.st.gs("open") == "failed" && (!known || v) {
				c.fail("lifecycle", n, "open-error", w.pos(f.Pos()), "reports success although the store could not be opened")
			}
		}
	}
}

func init() {
	register("P08", func(c *Ctx) {
		c.rule("every path of every exported operation of the server package that opens or closes the store or starts or stops serving: serving starts only after the store was opened successfully, the store is closed only after the server has been shut down successfully (or before it ever served)")
		runLifecycle(c)
		c.need("serve", 1)
		c.need("open", 1)
		c.need("close", 1)
	})
}
