package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Copies that share no changeable part with the original and lose nothing.

// cloneFn: a method without parameters that returns its receiver's type and is
// named as a copy.
func cloneFn(f *ssa.Function) bool {
	if f == nil || f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	n := recvNamed(f)
	if n == nil || !types.Identical(deref(f.Signature.Results().At(0).Type()), n) {
		return false
	}
	_, ok := n.Underlying().(*types.Struct)
	return ok && (strings.Contains(f.Name(), "Clone") || strings.Contains(f.Name(), "Copy") || strings.Contains(f.Name(), "clone") || strings.Contains(f.Name(), "copy"))
}

// immutable: values of the type have no changeable part.
func immutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return immutable(u.Elem())
	}
	return false
}

type cloneMon struct {
	c    *Ctx
	w    *World
	rule string
	fn   *ssa.Function
	name string
	e    *Eng
	recv *Term
	typ  *types.Named

	labels []string // the lists and maps of the original
	src    map[string]*Term
	styp   map[string]types.Type
	loc    map[string]*Term
}

func (m *cloneMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.w.pos(m.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	m.c.fail(m.rule, m.name, detail, at, m.name+": "+msg)
}

// collect lists the parts of the original.
func (m *cloneMon) collect(st *State, v *Term, loc *Term, t types.Type, path string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			var fv, fl *Term
			if loc != nil {
				fl = fieldLoc(loc, i, f.Name())
				fv = m.e.load(st, fl, f.Type(), nil)
			} else {
				fv = m.e.fieldOf(v, i, f)
			}
			m.collect(st, fv, fl, f.Type(), path+"."+f.Name())
		}
	case *types.Slice, *types.Map, *types.Pointer:
		m.labels = append(m.labels, path)
		m.src[path], m.styp[path] = v, t
	}
}

func (m *cloneMon) label(b *Term) string {
	for _, l := range m.labels {
		if m.src[l] == b {
			return l
		}
	}
	return ""
}

func callArg(a *Term, suffix string) *Term {
	if a.op == "sym" && a.info != nil && a.info.ev != nil && a.info.res == 0 && strings.HasSuffix(strings.TrimSuffix(a.info.ev.Name, "[]"), suffix) && len(a.info.ev.Args) > 0 {
		return a.info.ev.Args[0]
	}
	return nil
}

func slicesClone(a *Term) *Term {
	if a.op != "sym" || a.info == nil || a.info.ev == nil || a.info.res != 0 || len(a.info.ev.Args) != 1 {
		return nil
	}
	n := a.info.ev.Name
	if strings.HasPrefix(n, "slices.Clone") || strings.HasPrefix(n, "maps.Clone") {
		return a.info.ev.Args[0]
	}
	return nil
}

// copied: a is a copy of b. Nested is false for the top level.
func (m *cloneMon) copied(st *State, a, b *Term, t types.Type, end bool) bool {
	if l := m.label(b); l != "" && st.g("cl.ok:"+l) == a {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if a == b && immutable(t) {
			return true
		}
		if src := cloneOf(a); src != nil {
			// the copying method of the part, which is analysed on its own
			return m.isPtrTo(st, src, b, t)
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !m.copied(st, m.e.fieldOf(a, i, f), m.e.fieldOf(b, i, f), f.Type(), end) {
				return false
			}
		}
		return true
	case *types.Slice:
		if immutable(u.Elem()) && (a.op == "app" && a.aux == "copyof" && len(a.args) == 1 && sameSlice(a.args[0], b) || a.op == "app" && a.aux == "appends" && emptyFresh(a.args[0]) && a.args[1] == b || slicesClone(a) == b) {
			return true
		}
		if st.isNil(a) && (st.isNil(b) || eqInt(st, tLen(b), mkInt(0))) {
			return true
		}
		l := m.label(b)
		if l == "" || !end {
			return false
		}
		n := st.g("cl.n:" + l)
		if st.gs("cl.app:"+l) != "" {
			return a != b && n != nil && eqInt(st, n, tLen(b)) && eqInt(st, tLen(a), tLen(b))
		}
		if !eqInt(st, tLen(a), tLen(b)) {
			return false
		}
		if st.g("cl.dst:"+l) == a && n != nil && eqInt(st, n, tLen(b)) {
			return true
		}
		return a.op == "make" && eqInt(st, tLen(b), mkInt(0))
	case *types.Map:
		if immutable(u.Elem()) && slicesClone(a) == b {
			return true
		}
		if st.isNil(b) && st.isNil(a) {
			return true
		}
		l := m.label(b)
		if l == "" || !end || a == b {
			return false
		}
		n, x := orZero(st.g("cl.n:"+l)), orZero(st.g("cl.x:"+l))
		if a.op == "nil" {
			return st.isNil(b)
		}
		if st.g("cl.dst:"+l) == a {
			return eqInt(st, tAdd(n, mkInt(1)), x)
		}
		// nothing was put into it: the original has to be empty
		return a.op == "map" && n == mkInt(0) && (eqInt(st, x, mkInt(1)) || st.isNil(b))
	case *types.Pointer:
		if cloneOf(a) == b {
			return true
		}
		if st.isNil(b) && (a == b || st.isNil(a)) {
			return true
		}
		if a.op == "obj" && !st.isNil(b) {
			x, y := m.e.load(st, a, u.Elem(), nil), m.e.load(st, b, u.Elem(), nil)
			return m.copied(st, x, y, u.Elem(), end)
		}
		return false
	}
	if !immutable(t) {
		return false
	}
	if a == b {
		return true
	}
	if isIntish(a) && isIntish(b) {
		return eqInt(st, a, b)
	}
	v, known := st.evalBool(tEq(a, b))
	return known && v
}

// isPtrTo: p points to the value b (or is it).
func (m *cloneMon) isPtrTo(st *State, p, b *Term, t types.Type) bool {
	if p == b {
		return true
	}
	if b.op == "struct" {
		for i, x := range b.args {
			f := t.Underlying().(*types.Struct).Field(i)
			if m.e.load(st, fieldLoc(p, i, f.Name()), f.Type(), nil) != x {
				return false
			}
		}
		return true
	}
	return false
}

// cloneOf: the term is the result of a copying method; what it copied.
func cloneOf(a *Term) *Term {
	if a.op == "sym" && a.info != nil && a.info.ev != nil && a.info.res == 0 && cloneFn(a.info.ev.Static) && len(a.info.ev.Args) == 1 {
		return a.info.ev.Args[0]
	}
	return nil
}

// sameSlice: the whole of b (b[:], b[0:len(b)]).
func sameSlice(a, b *Term) bool {
	return a == b
}

// emptyFresh: appending to it never writes into existing memory.
func emptyFresh(t *Term) bool {
	if t.op == "nil" || t.op == "empty" || t.op == "make" {
		return true
	}
	if t.op == "slice" && t.args[0].op == "obj" && t.args[0].typ != nil {
		if a, ok := deref(t.args[0].typ).Underlying().(*types.Array); ok && a.Len() == 0 {
			return true
		}
	}
	// s[:0:0]
	return t.op == "slice" && len(t.args) >= 4 && t.args[2] == mkInt(0) && t.args[3] == mkInt(0)
}

func (st *State) isNil(t *Term) bool {
	if t.op == "nil" || t.op == "zero" {
		return true
	}
	v, known := st.evalBool(tEq(t, tNil))
	return known && v
}

func (m *cloneMon) run() {
	m.c.obl(m.rule, m.name+" copies")
	fn := m.fn
	r := &Rule{Numeric: true}
	r.Opaque = func(f *ssa.Function) bool { return f != fn && cloneFn(f) }
	r.Load = func(e *Eng, st *State, ins ssa.Instruction, loc *Term) {
		if loc.op != "mapall" {
			return
		}
		if _, ok := ins.(*ssa.Next); !ok {
			return
		}
		if l := m.label(loc.args[0]); l != "" {
			incG(st, "cl.x:"+l)
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if locBase(loc) == m.recv || m.label(locBase(loc)) != "" {
			m.bad("modifies", ins, "changes the original")
			return
		}
		if why := m.note(st, loc, val); why != "" {
			m.bad("element", ins, why)
		}
	}
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
		if !m.noteAppend(st, elems, et) {
			m.bad("element", ins, "puts something other than a copy of the original's element into the copy")
		}
	}
	// notes which parts are complete, before alternatives are merged
	r.Head = func(st *State) {
		for _, l := range m.labels {
			if _, ok := m.styp[l].Underlying().(*types.Pointer); !ok {
				continue
			}
			b := m.src[l]
			st.setG("cl.ok:"+l, nil)
			for loc, v := range st.heap {
				if loc.op == "field" && loc.args[0].op == "obj" && strings.HasSuffix(l, "."+fieldNameOf(loc.aux)) && v.typ != nil && types.Identical(v.typ, m.styp[l]) || loc.op == "field" && loc.args[0].op == "obj" && (v.op == "obj" || v.op == "nil" || v == b) && strings.HasSuffix(l, "."+fieldNameOf(loc.aux)) {
					if m.copied(st, v, b, m.styp[l], true) {
						st.setG("cl.ok:"+l, v)
						break
					}
				}
			}
		}
	}
	e := newEng(m.w, r)
	m.e = e
	st := newState()
	args := e.paramSyms(st, fn)
	m.recv = args[0]
	st.setG("cl.recv", m.recv)
	m.src, m.styp = map[string]*Term{}, map[string]types.Type{}
	var whole *Term
	if _, ptr := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ptr {
		if st.isNil(m.recv) {
			return
		}
		m.collect(st, nil, m.recv, m.typ, "")
		whole = nil
	} else {
		m.collect(st, m.recv, nil, m.typ, "")
		whole = m.recv
	}
	for _, l := range m.labels {
		st.setG("cl.src:"+l, m.src[l])
	}
	sort.Strings(m.labels)
	res := m.c.run(e, st, fn, args)
	for _, o := range res {
		if o.panic || len(o.res) != 1 {
			continue
		}
		a := o.res[0]
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			if a == m.recv {
				m.bad("same", nil, "returns the original instead of a copy")
				continue
			}
			if a.op != "obj" {
				if o.st.isNil(m.recv) {
					continue
				}
				if src := cloneOf(a); src == m.recv {
					continue
				}
				m.bad("result", nil, "returns something other than a new object")
				continue
			}
			a = e.load(o.st, a, m.typ, nil)
		}
		if o.st.isNil(m.recv) {
			continue
		}
		b := whole
		if b == nil {
			b = e.load(o.st, m.recv, m.typ, nil)
		}
		u := m.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			x, y := e.fieldOf(a, i, f), e.fieldOf(b, i, f)
			if m.copied(o.st, x, y, f.Type(), true) {
				continue
			}
			if x == y {
				m.bad("shares:"+f.Name(), nil, "the copy shares "+f.Name()+" with the original")
			} else {
				m.bad("differs:"+f.Name(), nil, "the "+f.Name()+" of the copy is not a complete copy of the original's")
			}
		}
	}
}

// note follows the elements put into the copy.
func (m *cloneMon) note(st *State, loc, val *Term) string {
	b := loc
	for b.op == "field" {
		b = b.args[0]
	}
	if b.op == "idx" && b != loc {
		return "fills an element of the copy piece by piece"
	}
	if loc.op != "idx" && loc.op != "mapel" || loc.op == "idx" && loc.args[0].op == "obj" {
		// (the array behind the arguments of append)
		return ""
	}
	for _, l := range m.labels {
		switch u := m.styp[l].Underlying().(type) {
		case *types.Slice:
			if loc.op != "idx" {
				continue
			}
			if n := st.g("cl.n:" + l); n != nil && !eqInt(st, n, loc.args[1]) || n == nil && !eqInt(st, loc.args[1], mkInt(0)) {
				continue
			}
			w := m.e.load(st, mk("idx", "", m.src[l], loc.args[1]), u.Elem(), nil)
			if m.copied(st, val, w, u.Elem(), false) {
				incG(st, "cl.n:"+l)
				st.setG("cl.dst:"+l, loc.args[0])
				return ""
			}
		case *types.Map:
			k := loc.args[1]
			if loc.op != "mapel" || k.op != "sym" || k.info == nil || k.info.kind != "next" {
				continue
			}
			it, _ := k.info.ptr.(*Term)
			if it == nil || len(it.args) != 1 || it.args[0] != m.src[l] {
				continue
			}
			w := m.e.load(st, mk("mapel", "", m.src[l], k), u.Elem(), nil)
			if m.copied(st, val, w, u.Elem(), false) {
				incG(st, "cl.n:"+l)
				st.setG("cl.dst:"+l, loc.args[0])
				return ""
			}
		}
	}
	return "puts something other than a copy of the original's element into the copy"
}

// noteAppend follows the elements appended to the copy.
func (m *cloneMon) noteAppend(st *State, elems []*Term, et types.Type) bool {
	for _, v := range elems {
		found := false
		for _, l := range m.labels {
			u, ok := m.styp[l].Underlying().(*types.Slice)
			if !ok || !types.Identical(u.Elem(), et) {
				continue
			}
			n := orZero(st.g("cl.n:" + l))
			// the element the loop is at
			w := m.e.load(st, mk("idx", "", m.src[l], n), u.Elem(), nil)
			if m.copied(st, v, w, u.Elem(), false) || m.copiedAt(st, v, m.src[l], n, u.Elem()) {
				incG(st, "cl.n:"+l)
				st.setGS("cl.app:"+l, "y")
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func incG(st *State, g string) { st.setG(g, tAdd(orZero(st.g(g)), mkInt(1))) }

// copiedAt: v copies the element at the index the loop has reached.
func (m *cloneMon) copiedAt(st *State, v, src, n *Term, t types.Type) bool {
	p := elemPtr(v)
	if v.op == "struct" && len(v.args) > 0 {
		p = elemPtr(v.args[0])
	}
	if v.op == "app" && v.aux == "copyof" {
		p = elemPtr(v.args[0])
	}
	if c := cloneOf(v); c != nil {
		p = elemPtr(c)
		if c.op == "idx" {
			p = c
		}
	}
	if p == nil || p.args[0] != src || !eqInt(st, p.args[1], n) {
		return false
	}
	return m.copied(st, v, m.e.load(st, p, t, nil), t, false)
}

func fieldNameOf(aux string) string {
	if i := strings.Index(aux, ":"); i >= 0 {
		if _, err := strconv.Atoi(aux[:i]); err == nil {
			return aux[i+1:]
		}
	}
	return aux
}

func cloneMonFor(c *Ctx, rule string, f *ssa.Function) *cloneMon {
	return &cloneMon{c: c, w: c.w, rule: rule, fn: f, name: shortName(f.String()), typ: recvNamed(f)}
}

// lost: what was put together so far is no copy.
func (m *cloneMon) lost(st *State) {
	for _, l := range m.labels {
		st.setG("cl.n:"+l, nil)
		st.setG("cl.dst:"+l, nil)
	}
}
