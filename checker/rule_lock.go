package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P19: locks are balanced and guard what they are meant to guard.

// lockEvent classifies a call: acquire or release, for writing or reading,
// and how the call tells whether it succeeded ("", "err", "bool").
func lockEvent(name string) (op, mode, result string) {
	i := strings.LastIndex(name, ").")
	if i < 0 {
		return
	}
	m := name[i+2:]
	switch name[:i+2] {
	case "(*sync.Mutex).", "(*sync.RWMutex).":
	case "(*github.com/zhiqiangxu/util/mutex.CRWMutex).", "(*github.com/zhiqiangxu/util/mutex.CMutex).":
		result = "err"
	default:
		return
	}
	switch m {
	case "Lock":
		return "acquire", "W", result
	case "RLock":
		return "acquire", "R", result
	case "TryLock":
		return "acquire", "W", "bool"
	case "TryRLock":
		return "acquire", "R", "bool"
	case "Unlock":
		return "release", "W", ""
	case "RUnlock":
		return "release", "R", ""
	}
	return "", "", ""
}

func isLockType(t types.Type) bool {
	switch types.TypeString(deref(t), nil) {
	case "sync.Mutex", "sync.RWMutex", "github.com/zhiqiangxu/util/mutex.CRWMutex", "github.com/zhiqiangxu/util/mutex.CMutex":
		return true
	}
	return false
}

// syncType: the type takes care of concurrent use itself.
func syncType(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		_, ch := t.Underlying().(*types.Chan)
		return ch
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic" || isLockType(t) || strings.HasPrefix(p, "github.com/zhiqiangxu/util/")
}

type guardedField struct {
	typ    *types.Named
	i      int
	name   string
	locks  []int // the lock fields of the struct
	atomic bool  // only for use with sync/atomic
}

func (g *guardedField) String() string {
	return shortName(types.TypeString(g.typ, nil)) + "." + g.name
}

func fieldKey(t types.Type, i int) string {
	return types.TypeString(t, nil) + "#" + strconv.Itoa(i)
}

// guardedFields finds the fields that change after construction in structs that
// have a lock.
func (w *World) guardedFields() map[string]*guardedField {
	res := map[string]*guardedField{}
	changes := map[string]bool{} // maps whose elements change
	atomic := map[string]bool{}
	mapOf := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					changes[fieldKey(deref(fa.X.Type()), fa.Field)] = true
				}
			}
		}
	}
	for _, fn := range w.allFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					mapOf(mu.Map)
				}
				if s, ok := ins.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						mapOf(ia.X)
					}
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					mapOf(cc.Args[0])
				}
				if f := cc.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" && f.Signature.Recv() == nil && len(cc.Args) > 0 {
					if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
						atomic[fieldKey(deref(fa.X.Type()), fa.Field)] = true
					}
				}
			}
		}
	}
	for _, p := range w.spkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			s, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var locks []int
			for i := 0; i < s.NumFields(); i++ {
				if isLockType(s.Field(i).Type()) {
					locks = append(locks, i)
				}
			}
			for i := 0; i < s.NumFields(); i++ {
				k := fieldKey(nt, i)
				if _, fn := s.Field(i).Type().Underlying().(*types.Signature); fn || syncType(s.Field(i).Type()) {
					continue
				}
				g := &guardedField{typ: nt, i: i, name: s.Field(i).Name(), locks: locks, atomic: atomic[k]}
				if atomic[k] || len(locks) > 0 && (w.mutable[k] || changes[k]) {
					res[k] = g
				}
			}
		}
	}
	return res
}

type loadedFld struct {
	g    *guardedField
	base *Term
}

type lockMon struct {
	guarded map[*guardedField]bool // accessed under its lock somewhere
	pending []func()
	from    map[*Term]loadedFld // maps and slices by where they were loaded from
	c       *Ctx
	w       *World
	guard   map[string]*guardedField
	root    string
	shared  map[*Term]bool
	order   map[string]map[string]string // lock class -> acquired while held -> where
}

const lockPfx = "lk:"

// lockName describes a lock by the struct it belongs to.
func lockName(l *Term) string {
	n := locName(l)
	if i := strings.LastIndex(n, "."); l.op == "field" && i >= 0 {
		return n
	}
	return n
}

// lockClass: the field of which type the lock is (for the lock order).
func lockClass(l *Term, v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return shortName(types.TypeString(deref(fa.X.Type()), nil)) + "." + deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
	}
	if l.op == "global" {
		return l.aux
	}
	return ""
}

func held(st *State) []string {
	var ks []string
	for _, k := range sortedGhost(st) {
		if strings.HasPrefix(k, lockPfx) {
			ks = append(ks, k)
		}
	}
	return ks
}

func (m *lockMon) bad(e *Eng, ins ssa.Instruction, rule, detail, msg string) {
	m.c.fail(rule, m.root, detail, e.pos(ins), msg)
}

func (m *lockMon) after(e *Eng, st *State, ev *Event, outs []Out) []Out {
	if strings.HasSuffix(ev.Name, "closer.Strict).SignalAndWait") || strings.HasSuffix(ev.Name, "closer.Naive).SignalAndWait") {
		for _, o := range outs {
			o.st.setGS("quiet", "yes")
		}
		return outs
	}
	switch ev.Name {
	case "(*sync/atomic.Value).Load":
		var toks []*Term
		for _, k := range held(st) {
			toks = append(toks, st.g(k).args[1])
		}
		for _, o := range outs {
			o.st.setG("rd", mk("read", "", append([]*Term{ev.Args[0]}, toks...)...))
		}
		return outs
	case "(*sync/atomic.Value).Store":
		if was := st.g("rd"); was != nil && was.args[0] == ev.Args[0] {
			m.c.obl("read-modify-write", m.root)
			ok := false
			for _, h := range held(st) {
				for _, t := range was.args[1:] {
					ok = ok || t == st.g(h).args[1]
				}
			}
			if !ok {
				m.bad(e, ev.Instr, "read-modify-write", locName(ev.Args[0]), "a shared value is read and later replaced without one lock held all along: a concurrent replacement can be lost")
			}
		}
		for _, o := range outs {
			o.st.setG("rd", nil)
		}
		return outs
	}
	op, mode, result := lockEvent(ev.Name)
	if op == "" {
		return outs
	}
	l := ev.Args[0]
	k := lockPfx + strconv.Itoa(l.id)
	cur := st.g(k)
	var cls string
	if ci, ok := ev.Instr.(ssa.CallInstruction); ok && len(ci.Common().Args) > 0 {
		cls = lockClass(l, ci.Common().Args[0])
	}
	if op == "release" {
		m.c.obl("release", m.root+"|"+e.pos(ev.Instr))
		switch {
		case cur == nil:
			m.bad(e, ev.Instr, "unlock", lockName(l)+" not held", lockName(l)+" is released although it is not held here")
		case cur.aux != mode:
			m.bad(e, ev.Instr, "unlock", lockName(l)+" wrong mode", lockName(l)+" is released in another mode than it was taken in")
		}
		for _, o := range outs {
			o.st.setG(k, nil)
		}
		return outs
	}
	m.c.obl("acquire", m.root+"|"+e.pos(ev.Instr))
	if cur != nil && result != "bool" {
		m.bad(e, ev.Instr, "relock", lockName(l), lockName(l)+" is taken again while this operation still holds it")
	}
	for _, h := range held(st) {
		if h != k && cls != "" && st.g(h).args[2].aux != "" {
			from := st.g(h).args[2].aux
			if m.order[from] == nil {
				m.order[from] = map[string]string{}
			}
			if m.order[from][cls] == "" {
				m.order[from][cls] = e.pos(ev.Instr) + " in " + m.root
			}
		}
	}
	take := func(s *State) {
		s.setG(k, mk("held", mode, l, mkSym(nil, "token", "token"), mk("class", cls)))
	}
	var res []Out
	for _, o := range outs {
		switch {
		case o.panic:
			res = append(res, o)
		case result == "err":
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					take(p.st)
				}
				res = append(res, p)
			}
		case result == "bool":
			p := Out{st: o.st.clone(), res: []*Term{tFalse}}
			o.res = []*Term{tTrue}
			take(o.st)
			res = append(res, o, p)
		default:
			take(o.st)
			res = append(res, o)
		}
	}
	return res
}

// guardOf finds the guarded field a location belongs to and its struct.
func (m *lockMon) guardOf(e *Eng, loc *Term, addr ssa.Value) (*guardedField, *Term) {
	if fa, ok := addr.(*ssa.FieldAddr); ok && loc.op == "field" {
		if g := m.guard[fieldKey(deref(fa.X.Type()), fa.Field)]; g != nil {
			return g, loc.args[0]
		}
	}
	return nil, nil
}

// contents: the guarded field a map or slice was loaded from.
func (m *lockMon) contents(st *State, v *Term) (*guardedField, *Term) {
	for v.op == "slice" {
		v = v.args[0]
	}
	f := m.from[v]
	return f.g, f.base
}

func (m *lockMon) access(e *Eng, st *State, ins ssa.Instruction, g *guardedField, base *Term, write bool) {
	if g == nil {
		return
	}
	if b := locBase(base); isLocal(b) && !m.shared[b] {
		return // not visible to anyone else yet
	}
	m.c.obl("guarded", g.String()+"|"+e.pos(ins))
	if st.gs("quiet") != "" {
		return // everything else has stopped
	}
	what := "read"
	if write {
		what = "written"
	}
	if g.atomic {
		m.bad(e, ins, "guarded", g.String()+" atomic "+what, g.String()+" is "+what+" without an atomic operation although it is shared")
		return
	}
	s := g.typ.Underlying().(*types.Struct)
	var names []string
	for _, i := range g.locks {
		k := lockPfx + strconv.Itoa(fieldLoc(base, i, s.Field(i).Name()).id)
		if h := st.g(k); h != nil && (h.aux == "W" || !write) {
			m.guarded[g] = true
			m.section(e, st, ins, g, base, write, h.args[1])
			return
		}
		names = append(names, s.Field(i).Name())
	}
	// a lock that is never held for a field does not guard it
	root, pos := m.root, e.pos(ins)
	m.pending = append(m.pending, func() {
		if m.guarded[g] {
			m.c.fail("guarded", root, g.String()+" "+what, pos, g.String()+" is "+what+" without holding "+strings.Join(names, " or "))
		}
	})
}

// section: what is replaced under a lock was not looked at only under an
// earlier holding of it.
func (m *lockMon) section(e *Eng, st *State, ins ssa.Instruction, g *guardedField, base *Term, write bool, tok *Term) {
	k := "sr:" + strconv.Itoa(fieldLoc(base, g.i, g.name).id)
	if !write {
		_, isMap := g.typ.Underlying().(*types.Struct).Field(g.i).Type().Underlying().(*types.Map)
		if u, ok := ins.(*ssa.UnOp); ok && isMap {
			if _, ok := u.X.(*ssa.FieldAddr); ok {
				return // only what is inside matters
			}
		}
		st.setG(k, tok)
		return
	}
	if was := st.g(k); was != nil && was != tok {
		m.bad(e, ins, "check-then-act", g.String(), g.String()+" is changed on the strength of what was read before the lock was given up in between")
	}
}

func (m *lockMon) hooks(r *Rule) {
	r.After = m.after
	r.Load = func(e *Eng, st *State, ins ssa.Instruction, loc *Term) {
		switch x := ins.(type) {
		case *ssa.UnOp:
			g, b := m.guardOf(e, loc, x.X)
			m.access(e, st, ins, g, b, false)
			if g == nil {
				if loc.op == "idx" {
					g, b = m.contents(st, loc.args[0])
					m.access(e, st, ins, g, b, false)
				}
			}
		default: // map lookups
			if loc.op == "mapel" || loc.op == "mapall" {
				g, b := m.contents(st, loc.args[0])
				m.access(e, st, ins, g, b, false)
			}
		}
	}
	r.Loaded = func(e *Eng, st *State, ins *ssa.UnOp, loc, v *Term) {
		fa, ok := ins.X.(*ssa.FieldAddr)
		if !ok || loc.op != "field" {
			return
		}
		k := fieldKey(deref(fa.X.Type()), fa.Field)
		if m.guard[k] == nil {
			return
		}
		switch ins.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			if v.op != "nil" {
				m.from[v] = loadedFld{m.guard[k], loc.args[0]}
			}
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		switch x := ins.(type) {
		case *ssa.Store:
			if g, b := m.guardOf(e, loc, x.Addr); g != nil {
				m.access(e, st, ins, g, b, true)
			} else if loc.op == "idx" {
				g, b := m.contents(st, loc.args[0])
				m.access(e, st, ins, g, b, true)
			}
		default:
			if loc.op == "mapel" || loc.op == "idx" {
				g, b := m.contents(st, loc.args[0])
				m.access(e, st, ins, g, b, true)
			}
		}
	}
}

// finish looks at the ways an operation ends.
func (m *lockMon) finish(e *Eng, f *ssa.Function, outs []Out) {
	for _, o := range outs {
		how := "return"
		if o.panic {
			how = "panic"
		}
		for _, k := range held(o.st) {
			l := o.st.g(k).args[0]
			m.c.fail("held-at-exit", m.root, lockName(l)+" "+how, m.w.pos(f.Pos()), lockName(l)+" is still held after some "+how+" of "+m.root)
		}
	}
}

func runLocks(c *Ctx) {
	w := c.w
	m := &lockMon{c: c, from: map[*Term]loadedFld{}, guarded: map[*guardedField]bool{}, w: w, guard: w.guardedFields(), shared: map[*Term]bool{}, order: map[string]map[string]string{}}
	direct := map[*ssa.Function]bool{}
	for _, fn := range w.allFuncs() {
		w.calls(fn, func(cc *ssa.CallCommon) {
			_, n := w.callInfo(cc)
			if op, _, _ := lockEvent(n); op != "" || strings.HasPrefix(n, "(*sync/atomic.Value).") {
				direct[fn] = true
			}
		})
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok && m.guard[fieldKey(deref(fa.X.Type()), fa.Field)] != nil {
					direct[fn] = true
				}
			}
		}
	}
	rel := w.closure(direct)
	callers := map[*ssa.Function]bool{}
	for _, fn := range w.allFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if _, isGo := ins.(*ssa.Go); !isGo {
						if f := ci.Common().StaticCallee(); f != nil && f != fn {
							callers[f] = true
						}
					}
				}
			}
		}
	}
	rule := func() *Rule {
		r := &Rule{CallbackPanics: true}
		r.Opaque = func(fn *ssa.Function) bool { return fn.Parent() == nil && !rel[fn] }
		m.hooks(r)
		return r
	}
	for _, f := range w.funcs {
		if f.Parent() != nil || !rel[f] || f.Synthetic != "" || isPbFn(f) {
			continue
		}
		if !(f.Object() != nil && f.Object().Exported()) && callers[f] {
			continue
		}
		m.root = shortName(f.String())
		c.obl("operation", m.root)
		m.shared = map[*Term]bool{}
		e := newEng(w, rule())
		m.finish(e, f, c.run(e, nil, f, nil))
	}
	m.constructed(rel, rule)
	m.cycles()
	for _, f := range m.pending {
		f()
	}
	for _, k := range sortedKeys(m.guard) {
		if g := m.guard[k]; m.guarded[g] || g.atomic {
			c.obl("guarded-field", g.String())
		}
	}
}

// closure: the named functions and closures that may reach (statically) one of
// the given functions.
func (w *World) closure(direct map[*ssa.Function]bool) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	for f := range direct {
		in[f] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.allFuncs() {
			if in[fn] {
				continue
			}
			hit := false
			for _, a := range fn.AnonFuncs {
				hit = hit || in[a]
			}
			w.calls(fn, func(cc *ssa.CallCommon) {
				if c := cc.StaticCallee(); c != nil && in[c] {
					hit = true
				}
			})
			if hit {
				in[fn] = true
				changed = true
			}
		}
	}
	return in
}

// constructed analyses the methods of objects whose behaviour is partly set up
// by closures stored in them, on the object each constructor builds.
func (m *lockMon) constructed(rel map[*ssa.Function]bool, rule func() *Rule) {
	for _, ct := range constructors(m.w) {
		e := newEng(m.w, rule())
		m.root = shortName(ct.fn.String())
		m.shared = map[*Term]bool{}
		outs := m.c.run(e, nil, ct.fn, nil)
		for _, o := range outs {
			if o.panic || len(o.res) == 0 || o.res[0].op != "obj" {
				continue
			}
			if v, known := o.st.evalBool(tEq(errOf(o), tNil)); returnsErr(ct.fn.Signature) && !(known && v) {
				continue
			}
			recv := o.res[0]
			for _, i := range ct.path {
				recv = fieldLoc(recv, i.i, i.name)
			}
			m.shared = map[*Term]bool{o.res[0]: true}
			for _, f := range ct.methods {
				m.root = shortName(f.String()) + " of " + shortName(ct.fn.String())
				m.c.obl("operation", m.root)
				e := newEng(m.w, rule())
				s := o.st.clone()
				for _, k := range held(s) {
					s.setG(k, nil)
				}
				args := e.paramSyms(s, f)
				args[0] = recv
				m.finish(e, f, m.c.run(e, s, f, args))
			}
		}
	}
}

type fieldStep struct {
	i    int
	name string
}

type constructor struct {
	fn      *ssa.Function
	path    []fieldStep // from the result to the receiver of the methods
	methods []*ssa.Function
}

// constructors: the functions that build objects with closures inside.
func constructors(w *World) []*constructor {
	var res []*constructor
	for _, fn := range w.funcs {
		if fn.Parent() != nil || isPbFn(fn) || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || len(fn.Blocks) == 0 {
			continue
		}
		t := fn.Signature.Results().At(0).Type()
		if _, ok := t.(*types.Pointer); !ok {
			continue
		}
		nt, ok := types.Unalias(deref(t)).(*types.Named)
		if !ok {
			continue
		}
		var path []fieldStep
		for nt != nil {
			s, ok := nt.Underlying().(*types.Struct)
			if !ok {
				break
			}
			has := false
			var emb *types.Named
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if _, ok := f.Type().Underlying().(*types.Signature); ok {
					has = true
				}
			}
			if has {
				if !storesClosure(fn, nt) {
					break
				}
				c := &constructor{fn: fn, path: path}
				for _, m := range w.funcs {
					if m.Parent() == nil && m.Synthetic == "" && m.Signature.Recv() != nil && types.Identical(deref(m.Signature.Recv().Type()), nt) && m.Object() != nil && m.Object().Exported() {
						c.methods = append(c.methods, m)
					}
				}
				sort.Slice(c.methods, func(i, j int) bool { return c.methods[i].String() < c.methods[j].String() })
				res = append(res, c)
				break
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if n, ok := types.Unalias(f.Type()).(*types.Named); ok && f.Embedded() && strings.HasPrefix(types.TypeString(n, nil), modPath) {
					emb = n
					path = append(path, fieldStep{i, f.Name()})
					break
				}
			}
			nt = emb
		}
	}
	return res
}

func storesClosure(fn *ssa.Function, nt *types.Named) bool {
	var has func(f *ssa.Function, d int) bool
	has = func(f *ssa.Function, d int) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), nt) {
						if _, ok := s.Val.(*ssa.MakeClosure); ok {
							return true
						}
						if _, ok := s.Val.Type().Underlying().(*types.Signature); ok && d < 3 {
							return true
						}
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok && d < 3 {
					if c := ci.Common().StaticCallee(); c != nil && c.Pkg == fn.Pkg && c != f && has(c, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return has(fn, 0)
}

// cycles: two kinds of locks are never taken in both orders.
func (m *lockMon) cycles() {
	for _, a := range sortedKeys(m.order) {
		m.c.obl("order", a)
		seen := map[string]bool{}
		var visit func(x string) bool
		visit = func(x string) bool {
			for _, b := range sortedKeys(m.order[x]) {
				if b == a && x != a {
					return true
				}
				if !seen[b] && b != a {
					seen[b] = true
					if visit(b) {
						return true
					}
				}
			}
			return false
		}
		if visit(a) {
			var where string
			for _, b := range sortedKeys(m.order[a]) {
				where = m.order[a][b]
			}
			m.c.fail("lock-order", a, "cycle", where, "locks are taken in conflicting orders: "+a+" takes part in a cycle")
		}
	}
}

func init() {
	register("P19", func(c *Ctx) {
		c.rule("every path of every operation that touches a lock or a field guarded by one: a lock is released on every return and panic, not taken again while held, not released when not held; fields of lock-holding structs that change after construction are only accessed with their struct's lock (for writing: exclusively) unless the object is not shared yet or everything has stopped; an atomically published value that is read and then replaced is under one lock throughout; no lock order cycles")
		runLocks(c)
		c.need("acquire", 8)
		c.need("release", 8)
		c.need("guarded-field", 5)
		c.need("guarded", 10)
	})
}
