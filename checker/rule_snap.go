package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P20: a schema snapshot does not change once it was published.

// published lists the struct types of the module that are published through an
// atomic value, with the functions that do so.
func publishedTypes(w *World) map[*types.Named]bool {
	res := map[*types.Named]bool{}
	for _, f := range w.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				cc, ok := ins.(ssa.CallInstruction)
				if !ok || cc.Common().StaticCallee() == nil || shortName(cc.Common().StaticCallee().String()) != "(*sync/atomic.Value).Store" {
					continue
				}
				mi, ok := cc.Common().Args[1].(*ssa.MakeInterface)
				if !ok {
					continue
				}
				p, ok := mi.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				n, ok := types.Unalias(p.Elem()).(*types.Named)
				if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
					continue
				}
				if _, ok := n.Underlying().(*types.Struct); ok {
					res[n] = true
				}
			}
		}
	}
	return res
}

// partTypes adds the named types of everything reachable from a snapshot.
func partTypes(t types.Type, res map[*types.Named]bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if res[n] {
			return
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			res[n] = true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			partTypes(u.Field(i).Type(), res)
		}
	case *types.Pointer:
		partTypes(u.Elem(), res)
	case *types.Slice:
		partTypes(u.Elem(), res)
	case *types.Array:
		partTypes(u.Elem(), res)
	case *types.Map:
		partTypes(u.Key(), res)
		partTypes(u.Elem(), res)
	}
}

// chain follows a value or location to the things it was reached through.
func chain(t *Term, visit func(*Term) bool) bool {
	for i := 0; t != nil && i < 200; i++ {
		if visit(t) {
			return true
		}
		switch t.op {
		case "field", "idx", "mapel", "mapok", "slice", "iface":
			t = t.args[0]
		case "app":
			switch {
			case t.aux == "range" || t.aux == "append" || t.aux == "appends" || strings.HasPrefix(t.aux, "fld") || strings.HasPrefix(t.aux, "assert"):
				t = t.args[0]
			default:
				return false
			}
		case "sym":
			if t.info == nil {
				return false
			}
			p, _ := t.info.ptr.(*Term)
			t = p
		default:
			return false
		}
	}
	return false
}

// isPublished: reached through the value that is published, or through a
// snapshot that was not made here.
func (m *snapMon) isPublished(st *State, t *Term) bool {
	return chain(t, func(x *Term) bool {
		return x.op == "field" && x.aux == "atomic" || has2(st, "sn.pub", x) || m.given(x)
	})
}

// given: a snapshot that comes from elsewhere.
func (m *snapMon) given(x *Term) bool {
	if x.op != "sym" || x.info == nil || x.info.local || x.typ == nil || cloneOf(x) != nil {
		return false
	}
	p, ok := x.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && m.typ[n] && x.info.kind != "call"
}

func has2(st *State, g string, x *Term) bool {
	s := st.g(g)
	if s == nil {
		return false
	}
	for _, a := range s.args {
		if a == x {
			return true
		}
	}
	return false
}

type snapMon struct {
	c     *Ctx
	w     *World
	typ   map[*types.Named]bool
	parts map[*types.Named]bool
	mut   map[*ssa.Function]bool // change the snapshot they are called on
	fn    *ssa.Function
	name  string
	e     *Eng
}

func (m *snapMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.w.pos(m.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	m.c.fail("published snapshot", m.name, detail, at, m.name+": "+msg)
}

// isSnapMethod: a method of the snapshot that changes it and may fail.
func (m *snapMon) step(f *ssa.Function) bool { return m.mut[f] && returnsErr(f.Signature) }

// refPart: a value through which a snapshot could be changed.
func (m *snapMon) refPart(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n, ok := types.Unalias(u.Elem()).(*types.Named)
		return ok && m.parts[n]
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// mutates: the function changes memory of its receiver.
func (m *snapMon) mutates(f *ssa.Function) bool {
	res := false
	r := &Rule{}
	r.Opaque = func(g *ssa.Function) bool { return g != f && cloneFn(g) }
	e := newEng(m.w, r)
	st := newState()
	args := e.paramSyms(st, f)
	st.setG("sn.recv", args[0])
	hit := func(loc *Term) bool { return chain(loc, func(x *Term) bool { return x == args[0] }) }
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		res = res || hit(loc)
	}
	m.c.run(e, st, f, args)
	return res
}

func (m *snapMon) run(exported bool) {
	m.c.obl("published snapshot", m.name)
	r := &Rule{}
	pub := m.w.reaching(func(cc *ssa.CallCommon) bool {
		return cc.StaticCallee() != nil && shortName(cc.StaticCallee().String()) == "(*sync/atomic.Value).Store"
	})
	publishes := pub[m.fn]
	r.Opaque = func(f *ssa.Function) bool {
		if cloneFn(f) || m.step(f) {
			return true
		}
		// what a publisher reads from the store is new
		return publishes && m.reader(f)
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if ev.Static != nil && m.mut[ev.Static] && m.isPublished(st, ev.Args[0]) {
			m.bad("changes", ev.Instr, "changes the published snapshot through "+ev.Name)
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Static == nil || !m.step(ev.Static) {
			return outs
		}
		var res []Out
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op != "nil" {
					addTo(p.st, "sn.failed", ev.Args[0])
				}
				res = append(res, p)
			}
		}
		return res
	}
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
		if m.isPublished(st, old) && !emptyFresh(old) {
			m.bad("appends", ins, "appends to a list of the published snapshot")
		}
		for _, x := range elems {
			if m.leaks(st, x, et, 0) {
				st.setGS("sn.leak", et.String())
			}
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if loc.op == "field" && loc.aux == "atomic" {
			v := unIface(val)
			if has2(st, "sn.failed", v) {
				m.bad("publishes-failed", ins, "publishes a snapshot although a change to it failed")
			}
			addTo(st, "sn.pub", v)
			return
		}
		if loc.op == "obj" {
			return
		}
		if (loc.op == "idx" && loc.args[0].op != "obj" || loc.op == "mapel") && val.typ != nil && m.leaks(st, val, val.typ, 0) {
			st.setGS("sn.leak", val.typ.String())
		}
		if m.isPublished(st, loc) {
			m.bad("changes", ins, "changes the published snapshot")
		}
	}
	e := newEng(m.w, r)
	m.e = e
	for _, o := range m.c.run(e, nil, m.fn, nil) {
		if o.panic || !exported {
			continue
		}
		for i, v := range o.res {
			if i >= m.fn.Signature.Results().Len() {
				break
			}
			t := m.fn.Signature.Results().At(i).Type()
			if m.leaks(o.st, v, t, 0) {
				m.bad("hands-out", nil, "hands out a part of the published snapshot")
				continue
			}
			if s, ok := t.Underlying().(*types.Slice); ok && o.st.gs("sn.leak") == s.Elem().String() && !o.st.isNil(v) {
				m.bad("hands-out", nil, "hands out parts of the published snapshot")
			}
		}
	}
}

// leaks: the value gives access to a changeable part of the published snapshot.
func (m *snapMon) leaks(st *State, v *Term, t types.Type, depth int) bool {
	if depth > 4 || cloneOf(v) != nil {
		return false
	}
	if m.refPart(t) && m.isPublished(st, v) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n, ok := types.Unalias(u.Elem()).(*types.Named)
		if ok && m.parts[n] && v.op == "obj" {
			return m.leaks(st, m.e.load(st, v, u.Elem(), nil), u.Elem(), depth+1)
		}
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); !ok || !m.parts[n] {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if m.leaks(st, m.e.fieldOf(v, i, u.Field(i)), u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// reader: reads records of the store (through a transaction of its receiver).
func (m *snapMon) reader(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	n := recvNamed(f)
	if n == nil || m.parts[n] {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || len(f.Blocks) == 0 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		p, ok := s.Field(i).Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if q, ok := types.Unalias(p.Elem()).(*types.Named); ok {
			if t, ok := q.Underlying().(*types.Struct); ok {
				for j := 0; j < t.NumFields(); j++ {
					if isTxnType(t.Field(j).Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("P20", func(c *Ctx) {
		c.rule("Every copying method of a snapshot and of its parts returns a complete copy that shares no map, list or pointed-to part with the original; nothing reached through the published value is ever changed, appended to or handed out by an operation; a snapshot is published only after every step of its change succeeded and is not touched afterwards.")
		w := c.w
		snaps := publishedTypes(w)
		parts := map[*types.Named]bool{}
		for t := range snaps {
			partTypes(t, parts)
		}
		for _, f := range w.funcs {
			if cloneFn(f) && parts[recvNamed(f)] {
				cloneMonFor(c, "deep copy", f).run()
			}
		}
		m := func(f *ssa.Function, mut map[*ssa.Function]bool) *snapMon {
			return &snapMon{c: c, w: w, typ: snaps, parts: parts, mut: mut, fn: f, name: shortName(f.String())}
		}
		mut := map[*ssa.Function]bool{}
		for _, f := range w.funcs {
			if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() != nil && snaps[recvNamed(f)] && !cloneFn(f) && m(f, nil).mutates(f) {
				mut[f] = true
			}
		}
		reads := w.reaching(func(cc *ssa.CallCommon) bool {
			return cc.StaticCallee() != nil && strings.HasPrefix(shortName(cc.StaticCallee().String()), "(*sync/atomic.Value).")
		})
		own := func(f *ssa.Function) bool {
			for t := range snaps {
				if f.Pkg != nil && f.Pkg.Pkg == t.Obj().Pkg() {
					return true
				}
			}
			return false
		}
		for _, f := range w.funcs {
			if f.Parent() != nil || f.Synthetic != "" || !reads[f] {
				continue
			}
			m(f, mut).run(f.Object() != nil && f.Object().Exported() && !own(f))
		}
		c.need("deep copy", 4)
		c.need("published snapshot", 10)
	})
}
