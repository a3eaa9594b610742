package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P14: key spaces are disjoint, injective and never scanned across.
//
// Every storage access of every exported operation is followed to the term of
// its key. Each term is a sequence of parts (constant bytes, fixed width
// numbers, self-delimiting strings, ...), that is a regular language over
// bytes; languages of different shapes have to be disjoint, and the language
// of what a scan covers may meet one shape only.

// nfa over bytes: start state 0, accepting state acc.
type nfaEdge struct {
	lo, hi int // eps when lo < 0
	to     int
}

type nfa struct {
	out [][]nfaEdge
	acc int
}

func newNFA() *nfa { return &nfa{out: [][]nfaEdge{nil}} }

func (n *nfa) add(from int, lo, hi, to int) { n.out[from] = append(n.out[from], nfaEdge{lo, hi, to}) }

func (n *nfa) state() int {
	n.out = append(n.out, nil)
	return len(n.out) - 1
}

// step adds a byte range at the end.
func (n *nfa) step(lo, hi int) {
	s := n.state()
	n.add(n.acc, lo, hi, s)
	n.acc = s
}

func (n *nfa) lit(s string) {
	for i := 0; i < len(s); i++ {
		n.step(int(s[i]), int(s[i]))
	}
}

func (n *nfa) star(lo, hi int) {
	s := n.state()
	n.add(n.acc, -1, -1, s)
	n.add(s, lo, hi, s)
	n.acc = s
}

func (n *nfa) digits() {
	s := n.state()
	n.add(n.acc, '-', '-', s)
	n.add(n.acc, -1, -1, s)
	n.acc = s
	n.step('0', '9')
	n.star('0', '9')
}

// embed adds a copy of another automaton at the end.
func (n *nfa) embed(m *nfa) {
	off := len(n.out)
	for _, es := range m.out {
		s := n.state()
		for _, x := range es {
			n.add(s, x.lo, x.hi, x.to+off)
		}
	}
	n.add(n.acc, -1, -1, off)
	n.acc = off + m.acc
}

// grouped adds the memcomparable form of the strings of another automaton:
// groups of eight bytes, each followed by a marker telling the padding.
func (n *nfa) grouped(m *nfa, desc bool) {
	inv := func(lo, hi int) (int, int) {
		if desc {
			return 255 - hi, 255 - lo
		}
		return lo, hi
	}
	ids := map[[2]int]int{}
	id := func(q, p int) int {
		k := [2]int{q, p}
		if _, ok := ids[k]; !ok {
			ids[k] = n.state()
		}
		return ids[k]
	}
	n.add(n.acc, -1, -1, id(0, 0))
	end := n.state()
	mark := func(from, pad, to int) {
		lo, hi := inv(255-pad, 255-pad)
		n.add(from, lo, hi, to)
	}
	for q, es := range m.out {
		for p := 0; p <= 8; p++ {
			if p == 8 {
				mark(id(q, 8), 0, id(q, 0))
				continue
			}
			for _, x := range es {
				if x.lo < 0 {
					n.add(id(q, p), -1, -1, id(x.to, p))
				} else {
					lo, hi := inv(x.lo, x.hi)
					n.add(id(q, p), lo, hi, id(x.to, p+1))
				}
			}
			if q == m.acc {
				s := id(q, p)
				for k := p; k < 8; k++ {
					t := n.state()
					lo, hi := inv(0, 0)
					n.add(s, lo, hi, t)
					s = t
				}
				mark(s, 8-p, end)
			}
		}
	}
	n.acc = end
}

// meet: whether some string is in both languages (one of them, as text).
func meet(a, b *nfa) (string, bool) {
	type pair struct{ x, y int }
	type from struct {
		p pair
		b int
	}
	seen := map[pair]from{{0, 0}: {b: -2}}
	todo := []pair{{0, 0}}
	push := func(p, by pair, c int) {
		if _, ok := seen[p]; !ok {
			seen[p] = from{by, c}
			todo = append(todo, p)
		}
	}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		if p.x == a.acc && p.y == b.acc {
			var s []byte
			for q := p; seen[q].b != -2; q = seen[q].p {
				if seen[q].b >= 0 {
					s = append([]byte{byte(seen[q].b)}, s...)
				}
			}
			return fmt.Sprintf("%q", s), true
		}
		for _, x := range a.out[p.x] {
			if x.lo < 0 {
				push(pair{x.to, p.y}, p, -1)
			}
		}
		for _, y := range b.out[p.y] {
			if y.lo < 0 {
				push(pair{p.x, y.to}, p, -1)
			}
		}
		for _, x := range a.out[p.x] {
			for _, y := range b.out[p.y] {
				if x.lo >= 0 && y.lo >= 0 && x.lo <= y.hi && y.lo <= x.hi {
					push(pair{x.to, y.to}, p, max(x.lo, y.lo))
				}
			}
		}
	}
	return "", false
}

// keyPart is one part of a key.
type keyPart struct {
	kind string // lit, raw, any, num, byte, int, bytes, bytesdesc, var, prefix
	lit  string
	in   []keyPart // of bytes
	t    *Term
}

func showParts(ps []keyPart) string {
	var s []string
	for _, p := range ps {
		switch p.kind {
		case "lit":
			s = append(s, fmt.Sprintf("%q", p.lit))
		case "bytes", "bytesdesc":
			s = append(s, "<"+p.kind+" "+showParts(p.in)+">")
		case "raw", "any":
			s = append(s, "<…>")
		default:
			s = append(s, "<"+p.kind+">")
		}
	}
	return strings.Join(s, " ")
}

func langOf(ps []keyPart) *nfa {
	n := newNFA()
	for _, p := range ps {
		switch p.kind {
		case "lit":
			n.lit(p.lit)
		case "num":
			for i := 0; i < 8; i++ {
				n.step(0, 255)
			}
		case "byte":
			n.step(0, 255)
		case "int":
			n.digits()
		case "prefix":
		case "bytes", "bytesdesc":
			n.grouped(langOf(p.in), p.kind == "bytesdesc")
		default:
			n.star(0, 255)
		}
	}
	return n
}

// selfDelim: where the part ends can be told from its own bytes.
func selfDelim(p keyPart) bool {
	switch p.kind {
	case "lit", "num", "byte", "bytes", "bytesdesc", "var", "prefix":
		return true
	}
	return false
}

// ambiguous: the first variable part whose end cannot be told.
func ambiguous(ps []keyPart) string {
	for i, p := range ps {
		if len(p.in) > 0 {
			if a := ambiguous(p.in); a != "" {
				return a
			}
		}
		if selfDelim(p) || i == len(ps)-1 || p.kind == "any" {
			continue
		}
		nx := ps[i+1]
		if p.kind == "int" && nx.kind == "lit" && !strings.ContainsRune("-0123456789", rune(nx.lit[0])) {
			continue
		}
		return showParts([]keyPart{p})
	}
	return ""
}

// keyPat is a shape of keys.
type keyPat struct {
	name  string // shown parts
	parts []keyPart
	lang  *nfa
	kinds map[string]string // how values are stored there, and where
	where string
	who   string
}

// keyScan is a range of keys a scan's callback uses.
type keyScan struct {
	parts []keyPart
	root  *ssa.Function
	ins   ssa.Instruction
}

type keyMon struct {
	c            *Ctx
	w            *World
	root         *ssa.Function
	base         string
	structure    *types.Named
	seqFields    map[string]bool
	prefixFields map[string]bool
	seqCtor      map[*ssa.Function]bool
	typed        map[*types.Named][]string // values of key types with fixed values
	pats         map[string]*keyPat
	consts       []string
	scans        map[string]keyScan
	starts       map[string]keyScan
}

// splits gives the alternatives of a key's parts; ok is false when the key is
// taken from an object that was given it when it was built.
func (m *keyMon) split(e *Eng, st *State, t *Term) (alts [][]keyPart, fixed bool) {
	t = stripCopy(e.content(st, t))
	alts = [][]keyPart{nil}
	ext := func(ps ...keyPart) {
		for i := range alts {
			alts[i] = append(alts[i][:len(alts[i]):len(alts[i])], ps...)
		}
	}
	segs := []*Term{t}
	if t.op == "cat" {
		segs = t.args
	}
	for _, s := range segs {
		s = stripConv(stripCopy(e.content(st, s)))
		for s.op == "app" && (s.aux == "bytesof" || s.aux == "stringof") {
			s = stripConv(stripCopy(e.content(st, s.args[0])))
		}
		if s.op == "cat" {
			sub, f := m.split(e, st, s)
			fixed = fixed || f
			alts = cross(alts, sub)
			continue
		}
		switch {
		case isStrConst(s):
			ext(keyPart{kind: "lit", lit: constant.StringVal(s.val)})
		case s.op == "nil" || s.op == "empty":
		case s.op == "app" && s.aux == "u8" && s.args[0].op == "int":
			ext(keyPart{kind: "lit", lit: string([]byte{byte(s.args[0].c)})})
		case s.op == "app" && s.aux == "u8":
			ext(keyPart{kind: "byte", t: s.args[0]})
		case s.op == "app" && s.aux == "be64":
			ext(keyPart{kind: "num", t: s.args[0]})
		case s.op == "app" && s.aux == "fmtint":
			if s.args[0].op == "int" {
				ext(keyPart{kind: "lit", lit: fmt.Sprint(s.args[0].c)})
			} else {
				ext(keyPart{kind: "int", t: s.args[0]})
			}
		case s.op == "app" && (s.aux == "enc:varint" || s.aux == "enc:uvarint" || s.aux == "enc:cbytes"):
			ext(keyPart{kind: "var", t: s.args[0]})
		case s.op == "app" && (s.aux == "enc:bytes" || s.aux == "enc:bytesdesc"):
			sub, f := m.split(e, st, s.args[0])
			fixed = fixed || f
			var in [][]keyPart
			for _, x := range sub {
				in = append(in, []keyPart{{kind: strings.TrimPrefix(s.aux, "enc:"), in: x, t: s.args[0]}})
			}
			alts = cross(alts, in)
		case s.info != nil && s.info.kind == "join":
			ext(keyPart{kind: "any", t: s})
		default:
			if m.given(s) {
				fixed = true
			}
			if m.isPrefix(s) {
				ext(keyPart{kind: "prefix", t: s})
				continue
			}
			if vs := m.values(s); len(vs) > 0 {
				var in [][]keyPart
				for _, v := range vs {
					in = append(in, []keyPart{{kind: "lit", lit: v}})
				}
				alts = cross(alts, in)
				continue
			}
			if m.scanned(s) {
				fixed = true
			}
			if as := m.element(e, st, s); len(as) > 0 {
				alts = cross(alts, as)
				continue
			}
			ext(keyPart{kind: "raw", t: s})
		}
	}
	// adjacent constants are one
	for i, ps := range alts {
		var r []keyPart
		for _, p := range ps {
			if n := len(r); n > 0 && p.kind == "lit" && r[n-1].kind == "lit" {
				r[n-1].lit += p.lit
				continue
			}
			r = append(r, p)
		}
		alts[i] = r
	}
	return alts, fixed
}

func cross(a, b [][]keyPart) (r [][]keyPart) {
	for _, x := range a {
		for _, y := range b {
			r = append(r, append(x[:len(x):len(x)], y...))
		}
	}
	return r
}

// fieldOfType: the named struct field a value was loaded from, as owner and index:name.
func loadedField(s *Term) (base *Term, field string) {
	if s.op != "sym" || s.info == nil || s.info.kind != "load" {
		return nil, ""
	}
	p, _ := s.info.ptr.(*Term)
	if p == nil || p.op != "field" {
		return nil, ""
	}
	return p.args[0], p.aux
}

// scanned: taken from a key a scan gave.
func (m *keyMon) scanned(s *Term) bool {
	return mentions(s, func(x *Term) bool { return x.info != nil && x.info.kind == "scankey" })
}

// element: what an element of a list made here can be.
func (m *keyMon) element(e *Eng, st *State, s *Term) (r [][]keyPart) {
	if s.op != "sym" || s.info == nil || s.info.kind != "load" {
		return nil
	}
	p, _ := s.info.ptr.(*Term)
	if p == nil || p.op != "idx" || p.args[0].op != "obj" {
		return nil
	}
	var ls []*Term
	for l := range st.heap {
		if l.op == "idx" && l.args[0] == p.args[0] && l.args[1].op == "int" {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].args[1].c < ls[j].args[1].c })
	for _, l := range ls {
		sub, f := m.split(e, st, st.heap[l])
		if f {
			return nil
		}
		r = append(r, sub...)
	}
	return r
}

// given: read from a field of a sequence that holds what its constructor put there.
func (m *keyMon) given(s *Term) bool {
	_, f := loadedField(s)
	return f != "" && m.seqFields[f]
}

// isPrefix: the prefix a structure was built with.
func (m *keyMon) isPrefix(s *Term) bool {
	b, f := loadedField(s)
	if f == "" {
		return false
	}
	n := namedOf(b.typ)
	return n != nil && n == m.structure && m.prefixFields[f]
}

// values: what a value of a type with fixed values can be.
func (m *keyMon) values(s *Term) []string {
	if n := namedOf(s.typ); n != nil {
		return m.typed[n]
	}
	return nil
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(deref(t)).(*types.Named)
	return n
}

// fixedFields: the byte fields of a type that are only set when it is built.
func (w *World) fixedFields(n *types.Named, to map[string]bool) {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if t := s.Field(i).Type(); (kindOf(t) == "bytes" || isStringType(t)) && w.fixedField(n, i) {
			to[fmt.Sprintf("%d:%s", i, s.Field(i).Name())] = true
		}
	}
}

// fixedKeyTypes: named byte types whose only values are package variables with
// constant contents.
func (w *World) fixedKeyTypes(st *State, e *Eng) map[*types.Named][]string {
	r := map[*types.Named][]string{}
	open := map[*types.Named]bool{}
	for _, p := range w.pkgs {
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			v, ok := sc.Lookup(name).(*types.Var)
			if !ok {
				continue
			}
			n, ok := types.Unalias(v.Type()).(*types.Named)
			if !ok || kindOf(n) != "bytes" || n.Obj().Pkg() != p.Types {
				continue
			}
			g, _ := w.prog.Package(p.Types).Members[name].(*ssa.Global)
			if g == nil {
				continue
			}
			c, ok := w.globalBytes(g, 0)
			if !ok {
				open[n] = true
				continue
			}
			r[n] = append(r[n], c)
		}
	}
	for _, f := range w.allFuncs() {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.ChangeType:
					if n, _ := types.Unalias(x.Type()).(*types.Named); n != nil {
						open[n] = true
					}
				case *ssa.Convert:
					if n, _ := types.Unalias(x.Type()).(*types.Named); n != nil {
						open[n] = true
					}
				}
			}
		}
	}
	for n := range open {
		delete(r, n)
	}
	return r
}

// globalBytes: the constant a package's byte variable always holds.
func (w *World) globalBytes(g *ssa.Global, depth int) (string, bool) {
	if v := w.globalVals[shortName(g.String())]; v != nil {
		for v.op == "cat" && len(v.args) == 1 || v.op == "app" && (v.aux == "bytesof" || v.aux == "stringof") || v.op == "conv" {
			v = v.args[0]
		}
		if isStrConst(v) {
			return constant.StringVal(v.val), true
		}
	}
	var val ssa.Value
	n := 0
	for _, f := range w.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
					n++
					if f.Name() != "init" {
						n = 2
					}
					val = s.Val
				}
			}
		}
	}
	if n == 0 && depth == 0 {
		if f := g.Pkg.Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
						n++
						val = s.Val
					}
				}
			}
		}
	}
	if n != 1 || depth > 3 {
		return "", false
	}
	for {
		switch x := val.(type) {
		case *ssa.ChangeType:
			val = x.X
			continue
		case *ssa.Convert:
			val = x.X
			continue
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				return constant.StringVal(x.Value), true
			}
		case *ssa.UnOp:
			if o, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
				return w.globalBytes(o, depth+1)
			}
		}
		return "", false
	}
}

// space of a key: keys under a prefix the user gave, or the module's own.
func space(ps []keyPart) string {
	if len(ps) > 0 && ps[0].kind == "prefix" {
		return "structure"
	}
	return "module"
}

func (m *keyMon) bad(detail string, ins ssa.Instruction, msg string) {
	where := "-"
	if ins != nil {
		where = m.c.w.pos(ins.Pos())
	}
	m.c.fail("keys", shortName(m.root.String()), detail, where, msg)
}

// exact: the number reaches the key whole.
func exact(t *Term) bool {
	if t.op == "lin" {
		for x := range toLin(t).m {
			if !exact(x) {
				return false
			}
		}
		return true
	}
	if t.op == "app" {
		switch t.aux {
		case "xor":
			num := func(x *Term) bool { return x.op == "int" || x.op == "const" }
			return len(t.args) == 2 && (num(t.args[0]) && exact(t.args[1]) || num(t.args[1]) && exact(t.args[0]))
		case "conv:uint64", "conv:int64":
			return exact(t.args[0])
		case "&", "|", "%", "/", "<<", ">>", "&^":
			return false
		}
		return !strings.HasPrefix(t.aux, "conv:")
	}
	return true
}

func inexact(ps []keyPart) *Term {
	for _, p := range ps {
		if (p.kind == "num" || p.kind == "int" || p.kind == "byte") && p.t != nil && !exact(p.t) {
			return p.t
		}
		if t := inexact(p.in); t != nil {
			return t
		}
	}
	return nil
}

// ofParam: the parameter that is stored, however it is written.
func ofParam(v *Term) *Term {
	for {
		v = stripConv(v)
		switch {
		case v.op == "app" && len(v.args) == 1 && v.aux != "len", v.op == "cat" && len(v.args) == 1:
			v = v.args[0]
		case v.info != nil && v.info.kind == "param":
			return v
		default:
			return nil
		}
	}
}

// twice: two things an operation was given are stored under one key.
func (m *keyMon) twice(e *Eng, st *State, ev *Event, key *Term) {
	if ev.Op != "Set" || len(ev.Args) < 3 {
		return
	}
	p := ofParam(stripCopy(e.content(st, ev.Args[2])))
	if p == nil {
		return
	}
	for _, x := range ghostArgs(st, "k.wr") {
		if x.args[0] == key && x.args[1] != p {
			m.bad("twice", ev.Instr, "stores "+p.String()+" under the key "+x.args[1].String()+" is stored under")
		}
	}
	addTo(st, "k.wr", mk("kwr", "", key, p))
}

// key looks at the key of one access.
func (m *keyMon) key(e *Eng, st *State, ev *Event) {
	t := stripCopy(e.content(st, ev.Args[1]))
	m.twice(e, st, ev, t)
	if t.info != nil && t.info.kind == "scankey" {
		return // what the scan gave
	}
	alts, fixed := m.split(e, st, t)
	if fixed {
		return
	}
	for _, ps := range alts {
		name := space(ps) + " " + showParts(ps)
		p := m.pats[name]
		if p == nil {
			m.c.obl("key", name)
			p = &keyPat{name: showParts(ps), parts: ps, lang: langOf(ps), kinds: map[string]string{}, where: m.c.w.pos(ev.Instr.Pos()), who: shortName(m.root.String())}
			m.pats[name] = p
			if len(ps) == 0 || ps[0].kind != "prefix" && (ps[0].kind != "lit" || !strings.HasPrefix(ps[0].lit, m.base)) {
				m.bad("prefix", ev.Instr, "the key "+p.name+" does not start with the fixed prefix of its space")
			}
			if a := ambiguous(ps); a != "" {
				m.bad("ambiguous", ev.Instr, "the key "+p.name+" does not tell where its part "+a+" ends: different objects can have it")
			}
		}
		if t := inexact(ps); t != nil {
			m.bad("lossy", ev.Instr, "the key "+p.name+" holds only a part of a number ("+t.show(4)+"): different objects can have it")
		}
		if ev.Op == "Set" && len(ev.Args) > 2 {
			k := storedKind(stripConv(stripCopy(e.content(st, ev.Args[2]))))
			if k != "" && p.kinds[k] == "" {
				p.kinds[k] = shortName(m.root.String()) + " at " + m.c.w.pos(ev.Instr.Pos())
			}
		}
		m.reserved(e, st, ev, p, ps)
	}
}

// reserved: a name put in a key as it is may not be one of the constant keys.
func (m *keyMon) reserved(e *Eng, st *State, ev *Event, p *keyPat, ps []keyPart) {
	if len(ps) != 2 || ps[0].kind != "lit" || ps[1].kind != "raw" {
		return
	}
	for _, lit := range m.consts {
		if !strings.HasPrefix(lit, ps[0].lit) {
			continue
		}
		rest := strings.TrimPrefix(lit, ps[0].lit)
		m.c.obl("reserved", shortName(m.root.String())+" "+rest)
		if b, known := st.evalBool(tEq(ps[1].t, mkStr(rest))); !known || b {
			m.bad("reserved "+rest, ev.Instr, fmt.Sprintf("the key %s is that of another object (%q) when the name is %q, which is not ruled out here", p.name, lit, rest))
		}
	}
}

// storedKind: how a value is stored.
func storedKind(v *Term) string {
	for v.op == "app" && (v.aux == "bytesof" || v.aux == "stringof") || v.op == "cat" && len(v.args) == 1 {
		v = stripConv(v.args[0])
	}
	if v.op == "cat" {
		for _, a := range v.args {
			if storedKind(a) == "binary" {
				return "binary"
			}
		}
	}
	if v.op == "app" {
		switch v.aux {
		case "be64":
			return "binary"
		case "fmtint":
			return "text"
		case "enc:varint", "enc:uvarint":
			return "varint"
		case "json":
			return "json"
		}
		if strings.HasPrefix(v.aux, "call:") || strings.HasPrefix(v.aux, "json") {
			return v.aux
		}
	}
	if v.info != nil && v.info.kind == "call" && strings.Contains(v.info.name, "arshal") {
		return v.info.name
	}
	if v.info != nil && v.info.kind == "param" {
		return "raw"
	}
	return ""
}

func (m *keyMon) hooks(r *Rule) {
	r.Before = func(e *Eng, st *State, ev *Event) {
		switch ev.Op {
		case "Get", "Set", "Exists", "Delete":
			if len(ev.Args) > 1 {
				if p := m.inScan(st); p != nil {
					m.consumed(e, st, ev.Instr, p)
				}
				m.key(e, st, ev)
			}
		case "Scan":
			m.scan(e, st, ev)
		}
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static != nil && ev.Static.Name() == "PrefixNext" && len(ev.Args) == 1 {
			return []Out{{st: st, res: []*Term{mkAppT(ev.Sig.Results().At(0).Type(), "prefixnext", stripCopy(e.content(st, ev.Args[0])))}}}, true
		}
		if ev.Kind == "callback" {
			if p := m.inScan(st); p != nil && ev.Static != p.args[1].fn {
				m.consumed(e, st, ev.Instr, p)
			}
		}
		return nil, false
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Op == "Scan" {
			for _, o := range outs {
				o.st.setG("k.scan", nil)
			}
		}
		return outs
	}
	r.ScanCall = func(e *Eng, st *State, ev *Event, as []*Term) {
		d := &docMon{e: e}
		pre, _, ok := d.scanOpts(st, ev)
		st.setG("k.scan", nil)
		if !ok || pre == nil || isEmpty(st, pre) {
			st.setG("k.scan", mk("kscan", "", as[0], ev.Args[2]))
		}
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		p := m.inScan(st)
		if p == nil || p.args[1].fn != fn || len(res) != 1 {
			return
		}
		if b, known := st.evalBool(res[0]); !known || b {
			m.consumed(e, st, fn.Blocks[len(fn.Blocks)-1].Instrs[0], p)
		}
	}
}

func (m *keyMon) inScan(st *State) *Term { return st.g("k.scan") }

// consumed: the callback of a scan without a prefix uses what it is given.
func (m *keyMon) consumed(e *Eng, st *State, ins ssa.Instruction, p *Term) {
	var pre *Term
	for k, v := range st.facts {
		if v && k.op == "app" && k.aux == "bytes.HasPrefix" && k.args[0] == p.args[0] {
			if pre == nil || pre.op != "cat" || k.args[1].op == "cat" && len(k.args[1].args) > len(pre.args) {
				pre = k.args[1]
			}
		}
	}
	m.c.obl("bounded scan", shortName(m.root.String()))
	if pre == nil {
		m.bad("unbounded", ins, "uses a scanned key without having checked that it belongs to the object scanned for")
		return
	}
	m.ranged(e, st, pre, ins)
}

func (m *keyMon) ranged(e *Eng, st *State, pre *Term, ins ssa.Instruction) {
	alts, _ := m.split(e, st, pre)
	for _, ps := range alts {
		n := space(ps) + " " + showParts(ps)
		if _, ok := m.scans[n]; !ok {
			m.c.obl("scan", n)
			m.scans[n] = keyScan{ps, m.root, ins}
		}
	}
}

// scan looks at the range of a scan.
func (m *keyMon) scan(e *Eng, st *State, ev *Event) {
	d := &docMon{e: e}
	pre, off, _ := d.scanOpts(st, ev)
	if pre != nil && !isEmpty(st, pre) {
		m.ranged(e, st, pre, ev.Instr)
		return
	}
	if off == nil || off.op != "app" || off.aux != "prefixnext" {
		return
	}
	alts, _ := m.split(e, st, off.args[0])
	for _, ps := range alts {
		if len(ps) == 0 || ps[len(ps)-1].kind != "lit" {
			continue
		}
		l := []byte(ps[len(ps)-1].lit)
		if l[len(l)-1] == 255 {
			continue
		}
		l[len(l)-1]++
		ps = append(ps[:len(ps)-1:len(ps)-1], keyPart{kind: "lit", lit: string(l)})
		m.starts[space(ps)+" "+showParts(ps)] = keyScan{ps, m.root, ev.Instr}
	}
}

func leads(p, k []keyPart) bool {
	for i, x := range p {
		if i >= len(k) {
			return false
		}
		y := k[i]
		if x.kind == "lit" && y.kind == "lit" && (x.lit == y.lit || i == len(p)-1 && strings.HasPrefix(y.lit, x.lit)) {
			continue
		}
		if showParts([]keyPart{x}) != showParts([]keyPart{y}) || x.kind == "raw" || x.kind == "any" {
			return false
		}
	}
	return true
}

// family: a with any number of further parts, and a itself.
func family(a, b *keyPat) bool {
	trim := func(p *keyPat) string {
		ps := p.parts
		for n := len(ps); n > 0 && (ps[n-1].kind == "any" || ps[n-1].kind == "var"); n-- {
			ps = ps[:n-1]
		}
		return showParts(ps)
	}
	return trim(a) == trim(b)
}

func (m *keyMon) compare() {
	var names []string
	for n := range m.pats {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, x := range names {
		a := m.pats[x]
		for _, y := range names[:i] {
			b := m.pats[y]
			if space(a.parts) != space(b.parts) || family(a, b) {
				continue
			}
			m.c.obl("disjoint", x+" / "+y)
			if one, lit := rawOf(a, b); one && lit {
				continue // looked at where the name comes in
			}
			if s, ok := meet(a.lang, b.lang); ok {
				m.c.fail("disjoint", x, y, a.where, fmt.Sprintf("the keys %s (%s) and %s (%s at %s) of different objects can be the same: %s", a.name, a.who, b.name, b.who, b.where, s))
			}
		}
		var ks []string
		text := 0
		for k := range a.kinds {
			ks = append(ks, k)
			if k == "raw" || k == "text" {
				text = 1
			}
		}
		sort.Strings(ks)
		n := text
		for _, k := range ks {
			if k != "raw" && k != "text" {
				n++
			}
		}
		m.c.obl("one kind", x)
		if n > 1 {
			var s []string
			for _, k := range ks {
				s = append(s, k+" ("+a.kinds[k]+")")
			}
			m.c.fail("one kind", x, "kinds", a.where, "values of different kinds are stored under "+a.name+": "+strings.Join(s, ", "))
		}
	}
	for n, sc := range m.scans {
		m.root = sc.root
		l := langOf(sc.parts)
		l.star(0, 255)
		hit := ""
		var pat *keyPat
		for _, x := range names {
			a := m.pats[x]
			if space(a.parts) != space(sc.parts) {
				continue
			}
			s, ok := meet(l, a.lang)
			if !ok {
				continue
			}
			if !leads(sc.parts, a.parts) {
				m.bad("scan "+n, sc.ins, "the scan of "+showParts(sc.parts)+" can give keys of other objects: "+a.name+" ("+a.who+"), like "+s)
			} else if pat != nil && !family(pat, a) && !sameObject(pat, a) {
				m.bad("scan "+n, sc.ins, "the scan of "+showParts(sc.parts)+" gives keys of different kinds of objects: "+hit+" and "+a.name)
			}
			hit, pat = a.name, a
		}
	}
	for n, sc := range m.starts {
		m.root = sc.root
		l := langOf(sc.parts)
		m.c.obl("start", n)
		for _, x := range names {
			if a := m.pats[x]; space(a.parts) == space(sc.parts) {
				if s, ok := meet(l, a.lang); ok {
					m.bad("start "+n, sc.ins, "the scan starts at a key of another object, "+a.name+" ("+s+"), and ends there")
				}
			}
		}
	}
}

// sameObject: the keys differ only in a name within the same object.
func sameObject(a, b *keyPat) bool {
	blank := func(p *keyPat) string {
		ps := append([]keyPart{}, p.parts...)
		if l := &ps[len(ps)-1]; l.kind == "bytes" || l.kind == "bytesdesc" {
			l.in = nil
		}
		return showParts(ps)
	}
	return blank(a) == blank(b)
}

// rawOf: a constant key and one with a name put in as it is.
func rawOf(a, b *keyPat) (bool, bool) {
	raw := func(p *keyPat) bool { return len(p.parts) == 2 && p.parts[0].kind == "lit" && p.parts[1].kind == "raw" }
	lit := func(p *keyPat) bool { return len(p.parts) == 1 && p.parts[0].kind == "lit" }
	return raw(a) && lit(b) || raw(b) && lit(a), true
}

func (w *World) baseKey() string {
	for _, p := range w.pkgs {
		if strings.HasSuffix(p.PkgPath, "/keyspace") {
			if c, ok := p.Types.Scope().Lookup("BasePrefix").(*types.Const); ok {
				return constant.StringVal(c.Val())
			}
		}
	}
	return ""
}

// runKeySpaces follows every operation to the keys it uses.
func runKeySpaces(c *Ctx) {
	w := c.w
	m := &keyMon{c: c, w: w, base: w.baseKey(), seqFields: map[string]bool{}, prefixFields: map[string]bool{}, seqCtor: map[*ssa.Function]bool{}, pats: map[string]*keyPat{}, scans: map[string]keyScan{}, starts: map[string]keyScan{}}
	for _, t := range seqTargets(w) {
		w.fixedFields(t.typ, m.seqFields)
		m.seqCtor[t.ctor] = true
	}
	var newMeta *ssa.Function
	for _, f := range w.funcs {
		if structOp(f) != "" {
			m.structure = recvNamed(f)
			w.fixedFields(m.structure, m.prefixFields)
		}
		if f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 {
			if n := namedOf(f.Signature.Results().At(0).Type()); n != nil && n.Obj().Name() == "Meta" && strings.HasSuffix(fnPkg(f), "/meta") {
				newMeta = f
			}
		}
	}
	joinCats = true
	defer func() { joinCats = false }()
	reach := w.reaching(func(cc *ssa.CallCommon) bool { return cc.IsInvoke() && w.opOf(cc.Method) != "" })
	for pass := 0; pass < 2; pass++ {
		for _, f := range w.funcs {
			p := fnPkg(f)
			if !reach[f] || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			if !strings.Contains(p, "/document") && !strings.HasSuffix(p, "/structure") || strings.HasSuffix(p, "/ddl") || strings.HasSuffix(p, "/domain") {
				continue
			}
			if m.seqCtor[f] {
				continue // the caller chooses the name
			}
			m.root = f
			r := &Rule{Codec: true}
			m.hooks(r)
			e := newEng(w, r)
			st := newState()
			if m.typed == nil {
				m.typed = w.fixedKeyTypes(st, e)
			}
			args := e.paramSyms(st, f)
			if isMetaMethod(f) && newMeta != nil {
				for _, o := range c.run(e, st, newMeta, nil) {
					if !o.panic {
						args[0] = o.res[0]
						c.run(e, o.st, f, args)
					}
				}
				continue
			}
			c.run(e, st, f, args)
		}
		m.consts = nil
		for _, p := range m.pats {
			if len(p.parts) == 1 && p.parts[0].kind == "lit" {
				m.consts = append(m.consts, p.parts[0].lit)
			}
		}
		sort.Strings(m.consts)
	}
	m.compare()
	m.runKeyNames()
	m.runKeyBuilders()
	if os.Getenv("DBG") != "" {
		for n, p := range m.pats {
			fmt.Println("KEY", n, p.kinds)
		}
		for n := range m.scans {
			fmt.Println("SCAN", n)
		}
		for n := range m.starts {
			fmt.Println("START", n)
		}
	}
	c.need("key", 20)
	c.need("scan", 3)
}

// literals are the constant bytes in a key.
func literals(ps []keyPart, to map[string]bool) {
	for _, p := range ps {
		if p.kind == "lit" {
			to[p.lit] = true
		}
		literals(p.in, to)
	}
}

// runKeyNames: different names declared for parts of keys have different values.
func (m *keyMon) runKeyNames() {
	lits := map[string]bool{}
	for _, p := range m.pats {
		literals(p.parts, lits)
	}
	used := func(v string) bool {
		for l := range lits {
			if strings.Contains(l, v) {
				return true
			}
		}
		return false
	}
	for _, p := range m.w.pkgs {
		if !strings.Contains(p.PkgPath, "/document") && !strings.HasSuffix(p.PkgPath, "/structure") || strings.HasSuffix(p.PkgPath, "/model") {
			continue
		}
		byVal := map[string]*ast.Ident{}
		inBody := map[types.Object]bool{}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					ast.Inspect(fd, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							inBody[p.TypesInfo.Uses[id]] = true
						}
						return true
					})
				}
			}
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range gd.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok || len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, id := range vs.Names {
						v, ok := keyLiteral(p.TypesInfo, id, vs.Values[i])
						if !ok || v == "" || !used(v) || !inBody[p.TypesInfo.Defs[id]] {
							continue
						}
						k := v
						if t := p.TypesInfo.Defs[id].Type(); kindOf(t) != "bytes" && !isStringType(t) {
							k = types.TypeString(t, nil) + " " + v
						}
						m.c.obl("key name", p.Types.Name()+"."+id.Name)
						if o := byVal[k]; o != nil {
							m.c.fail("key name", p.Types.Name()+"."+id.Name, o.Name, m.w.pos(id.Pos()), fmt.Sprintf("%s and %s are the same part of a key (%q): the objects they are for share their keys", o.Name, id.Name, v))
							continue
						}
						byVal[k] = id
					}
				}
			}
		}
	}
	for n, vs := range m.typed {
		seen := map[string]bool{}
		for _, v := range vs {
			m.c.obl("key name", n.Obj().Name()+" "+v)
			if seen[v] {
				m.c.fail("key name", n.Obj().Name(), v, m.w.pos(n.Obj().Pos()), fmt.Sprintf("two values of %s are the same key (%q)", n.Obj().Name(), v))
			}
			seen[v] = true
		}
	}
}

// keyLiteral: the bytes a declaration spells out.
func keyLiteral(info *types.Info, id *ast.Ident, x ast.Expr) (string, bool) {
	o := info.Defs[id]
	if o == nil {
		return "", false
	}
	switch o := o.(type) {
	case *types.Const:
		if _, ok := ast.Unparen(x).(*ast.BasicLit); !ok {
			return "", false
		}
		if isStringType(o.Type()) {
			return constant.StringVal(o.Val()), true
		}
		if n, ok := types.Unalias(o.Type()).(*types.Named); ok {
			if b, ok := n.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if v, ok := constant.Uint64Val(o.Val()); ok {
					return string([]byte{byte(v)}), true
				}
			}
		}
	case *types.Var:
		c, ok := ast.Unparen(x).(*ast.CallExpr)
		if !ok || kindOf(o.Type()) != "bytes" || len(c.Args) != 1 {
			return "", false
		}
		if _, ok := ast.Unparen(c.Args[0]).(*ast.BasicLit); !ok {
			return "", false
		}
		if tv := info.Types[c.Args[0]]; tv.Value != nil && tv.Value.Kind() == constant.String {
			return constant.StringVal(tv.Value), true
		}
	}
	return "", false
}

// runKeyBuilders: a built key depends on all the parts it is for, and decoding
// it gives them back.
func (m *keyMon) runKeyBuilders() {
	w := m.w
	byName := map[string]*ssa.Function{}
	for _, f := range w.funcs {
		if p := fnPkg(f); f.Parent() == nil && f.Synthetic == "" && (strings.Contains(p, "/document") || strings.HasSuffix(p, "/structure")) {
			byName[p+"."+f.Name()] = f
		}
	}
	var names []string
	for n := range byName {
		names = append(names, n)
	}
	sort.Strings(names)
	isKey := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Name() == "Key" && strings.HasSuffix(n.Obj().Pkg().Path(), "/kv")
	}
	for _, n := range names {
		f := byName[n]
		res := f.Signature.Results()
		if res.Len() != 1 || !isKey(res.At(0).Type()) || f.Signature.Params().Len() == 0 {
			continue
		}
		m.root = f
		m.c.obl("builder", shortName(f.String()))
		dec := byName[strings.Replace(strings.Replace(n, ".Encode", ".Decode", 1), ".encode", ".decode", 1)]
		if dec == f || dec != nil && !returnsErr(dec.Signature) {
			dec = nil
		}
		e := newEng(w, &Rule{Codec: true})
		st := newState()
		args := e.paramSyms(st, f)
		off := len(args) - f.Signature.Params().Len()
		if off > 0 {
			st.setG("k.recv", args[0])
		}
		var parts []*Term
		for i := 0; i < f.Signature.Params().Len(); i++ {
			p := f.Signature.Params().At(i)
			if i == 0 && kindOf(p.Type()) == "bytes" && f.Signature.Params().Len() > 1 && off == 0 {
				args[i] = tNil // the buffer to append to
				continue
			}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString) != 0 || kindOf(p.Type()) == "bytes" {
				parts = append(parts, args[off+i])
			}
		}
		for _, o := range m.c.run(e, st, f, args) {
			if o.panic {
				continue
			}
			k := stripCopy(e.content(o.st, o.res[0]))
			for _, p := range parts {
				if !mentions(k, func(x *Term) bool { return x == p }) && !(k.op == "sym" && k.info != nil && k.info.kind == "join") {
					m.bad("part "+p.String(), f.Blocks[0].Instrs[0], "the key does not depend on "+p.String()+": different objects get the same key")
				}
			}
			if dec != nil {
				m.decodes(o.st, f, dec, o.res[0], args, off, parts)
			}
		}
	}
}

func (m *keyMon) decodes(st *State, enc, dec *ssa.Function, key *Term, args []*Term, off int, parts []*Term) {
	m.c.obl("decoder", shortName(dec.String()))
	e := newEng(m.w, &Rule{Codec: true})
	as := []*Term{key}
	if off > 0 && dec.Signature.Recv() != nil {
		as = []*Term{args[0], key}
	}
	if len(as) != len(dec.Params) || dec.Signature.Results().Len() != len(parts)+1 {
		return
	}
	n := 0
	st = st.clone()
	walk(key, map[*Term]bool{}, func(x *Term) {
		if x.op == "app" && (x.aux == "enc:bytes" || x.aux == "enc:bytesdesc") {
			st.setFact(tGe0(toLin(tLen(x)).add(lin{c: 9}, -1)), true) // at least one group
		}
	})
	for _, o := range m.c.run(e, st, dec, as) {
		if o.panic {
			continue
		}
		if v, known := o.st.evalBool(tEq(errOf(o), tNil)); !known || !v {
			m.c.fail("decoder", shortName(dec.String()), "error", m.w.pos(dec.Pos()), "decoding the key built by "+shortName(enc.String())+" can fail")
			continue
		}
		n++
		for i, p := range parts {
			if r := plainBytes(e, o.st, o.res[i]); r != plainBytes(e, o.st, p) {
				m.c.fail("decoder", shortName(dec.String()), fmt.Sprint("result ", i), m.w.pos(dec.Pos()), fmt.Sprintf("decoding the key built by %s gives %s instead of %s", shortName(enc.String()), r.show(5), p))
			}
		}
	}
	if n == 0 {
		m.c.fail("decoder", shortName(dec.String()), "never", m.w.pos(dec.Pos()), "no way through decoding a key built by "+shortName(enc.String())+" succeeds")
	}
}

func plainBytes(e *Eng, st *State, t *Term) *Term {
	for {
		t = stripConv(stripCopy(e.content(st, t)))
		if t.op == "app" && (t.aux == "bytesof" || t.aux == "stringof") || t.op == "cat" && len(t.args) == 1 {
			t = t.args[0]
			continue
		}
		return t
	}
}

func init() {
	register("P14", func(c *Ctx) {
		c.rule("keys: each storage access of each exported operation is followed to the parts of its key; the languages of different shapes are disjoint, variable parts end recognisably, and what a scan covers meets one shape only")
		runKeySpaces(c)
	})
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
