package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value. Two registers holding the same *Term
// are known to hold equal values (global value numbering).
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	c    int64   // int / lin constant
	coef []int64 // lin coefficients
	val  constant.Value
	fn   *ssa.Function
	typ  types.Type // static type where it matters (sym, struct, iface, fresh objects)
	info *SymInfo
	ln   map[*Term]int64 // cached linear form
}

// SymInfo describes where an unknown value or object came from.
type SymInfo struct {
	hasLen bool   // merged sequence value
	kind   string // param, call, load, join, recv, mapget, decoded, alloc, map, make, ...
	site   string // human readable origin
	name   string // event name for kind call
	res    int
	ev     *Event
	mayNil bool
	local  bool // merged from objects allocated here
	ptr    interface{}
}

type Interner struct {
	tab  map[string]*Term
	next int
	syms int
}

func newInterner() *Interner { return &Interner{tab: map[string]*Term{}} }

var in = newInterner()

func mk(op, aux string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return in.intern(sb.String(), func() *Term { return &Term{op: op, aux: aux, args: args} })
}

func (in *Interner) intern(key string, f func() *Term) *Term {
	if t := in.tab[key]; t != nil {
		return t
	}
	t := f()
	in.next++
	t.id = in.next
	in.tab[key] = t
	return t
}

var (
	tNil   = mk("nil", "")
	tTrue  = mk("const", "true")
	tFalse = mk("const", "false")
	tUnit  = mk("tuple", "")
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(c int64) *Term {
	return in.intern("int|"+strconv.FormatInt(c, 10), func() *Term { return &Term{op: "int", c: c} })
}

func mkConst(v constant.Value) *Term {
	if v.Kind() == constant.Bool {
		return mkBool(constant.BoolVal(v))
	}
	if v.Kind() == constant.Int {
		if i, ok := constant.Int64Val(v); ok {
			return mkInt(i)
		}
	}
	s := v.ExactString()
	return in.intern("const|"+v.Kind().String()+"|"+s, func() *Term { return &Term{op: "const", aux: s, val: v} })
}

func mkStr(s string) *Term { return mkConst(constant.MakeString(s)) }

// mkFresh makes a brand new unknown value.
func mkFresh(op string, typ types.Type, info *SymInfo) *Term {
	in.syms++
	n := in.syms
	return in.intern(op+"#"+strconv.Itoa(n), func() *Term {
		return &Term{op: op, aux: "#" + strconv.Itoa(n), typ: typ, info: info}
	})
}

func mkSym(typ types.Type, kind, site string) *Term {
	return mkFresh("sym", typ, &SymInfo{kind: kind, site: site})
}

func mkApp(name string, args ...*Term) *Term { return mk("app", name, args...) }

func mkTyped(op string, typ types.Type, args ...*Term) *Term {
	t := mk(op, types.TypeString(typ, nil), args...)
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

func mkFn(fn *ssa.Function, bindings ...*Term) *Term {
	t := mk("closure", fmt.Sprintf("%p", fn), bindings...)
	t.fn = fn
	return t
}

func mkTuple(args ...*Term) *Term { return mk("tuple", "", args...) }

// ---- linear integer terms

type lin struct {
	c int64
	m map[*Term]int64
}

func toLin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{c: t.c}
	case "lin":
		if t.ln == nil {
			t.ln = map[*Term]int64{}
			for i, a := range t.args {
				t.ln[a] = t.coef[i]
			}
		}
		return lin{c: t.c, m: t.ln}
	}
	if t.ln == nil {
		t.ln = map[*Term]int64{t: 1}
	}
	return lin{m: t.ln}
}

func (l lin) add(o lin, k int64) lin {
	c, ok := scaled(l.c, k, o.c, true)
	if !ok && (k < 0) != (o.c < 0) {
		c = math.MinInt64 // the ends stand for what is beyond them
	} else if !ok {
		c = math.MaxInt64
	}
	r := lin{c: c, m: map[*Term]int64{}}
	for t, c := range l.m {
		r.m[t] += c
	}
	for t, c := range o.m {
		r.m[t] += k * c
	}
	for t, c := range r.m {
		if c == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (l lin) term() *Term {
	if len(l.m) == 0 {
		return mkInt(l.c)
	}
	keys := make([]*Term, 0, len(l.m))
	for t := range l.m {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	if len(keys) == 1 && l.c == 0 && l.m[keys[0]] == 1 {
		return keys[0]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "lin|%d", l.c)
	coef := make([]int64, len(keys))
	for i, t := range keys {
		coef[i] = l.m[t]
		fmt.Fprintf(&sb, "|%d*%d", coef[i], t.id)
	}
	return in.intern(sb.String(), func() *Term { return &Term{op: "lin", c: l.c, args: keys, coef: coef} })
}

func tAdd(a, b *Term) *Term { return toLin(a).add(toLin(b), 1).term() }
func tSub(a, b *Term) *Term { return toLin(a).add(toLin(b), -1).term() }
func tMulC(a *Term, k int64) *Term {
	return lin{}.add(toLin(a), k).term()
}

func (l lin) isConst() bool { return len(l.m) == 0 }

// boolean terms
func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", "", a)
}

// ge0(l): l >= 0
func tGe0(l lin) *Term {
	if l.isConst() {
		return mkBool(l.c >= 0)
	}
	return mk("ge0", "", l.term())
}

// definitely non-nil terms
func isNonNilTerm(t *Term) bool {
	switch t.op {
	case "obj", "make", "iface", "closure", "sentinel", "field", "idx", "global", "map", "chan", "cat":
		return true
	case "const", "int":
		return true
	case "slice":
		return isNonNilTerm(t.args[0])
	}
	return false
}

func isDistinctConst(t *Term) bool {
	switch t.op {
	case "int", "const", "nil", "sentinel", "obj", "global":
		return true
	}
	return false
}

// tEq builds the equality of two terms, folding what is decidable.
func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return tNot(b)
	}
	if b == tFalse {
		return tNot(a)
	}
	if a.op == "nil" && isNonNilTerm(b) || b.op == "nil" && isNonNilTerm(a) {
		return tFalse
	}
	if isDistinctConst(a) && isDistinctConst(b) {
		return tFalse
	}
	if a.op == "iface" && b.op == "iface" {
		if a.aux != b.aux {
			return tFalse
		}
		return tEq(a.args[0], b.args[0])
	}
	if a.op == "iface" && (b.op == "sentinel") || b.op == "iface" && a.op == "sentinel" {
		return tFalse
	}
	if a.op == "lin" || b.op == "lin" || a.op == "int" || b.op == "int" {
		d := toLin(a).add(toLin(b), -1)
		if d.isConst() {
			return mkBool(d.c == 0)
		}
		dt := d.term()
		nt := lin{}.add(d, -1).term()
		if nt.id < dt.id {
			dt = nt
		}
		return mk("eq0", "", dt)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

// rebuild constructs a term like t with new args (normalising).
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "lin":
		r := lin{c: t.c}
		for i, a := range args {
			r = r.add(toLin(a), t.coef[i])
		}
		return r.term()
	case "not":
		return tNot(args[0])
	case "ge0":
		return tGe0(toLin(args[0]))
	case "eq0":
		d := toLin(args[0])
		if d.isConst() {
			return mkBool(d.c == 0)
		}
		dt := d.term()
		nt := lin{}.add(d, -1).term()
		if nt.id < dt.id {
			dt = nt
		}
		return mk("eq0", "", dt)
	case "eq":
		return tEq(args[0], args[1])
	case "app":
		return simplifyApp(t.aux, args)
	case "cat":
		return mkCat(args...)
	case "slice":
		return mkSlice(args[0], args[1], args[2])
	case "closure":
		r := mk("closure", t.aux, args...)
		r.fn = t.fn
		return r
	}
	r := mk(t.op, t.aux, args...)
	if r.typ == nil {
		r.typ = t.typ
	}
	if r.fn == nil {
		r.fn = t.fn
	}
	if r.info == nil {
		r.info = t.info
	}
	return r
}

// ---- byte strings

// mkCat is a freshly built byte string with the content of the concatenated segments.
func mkCat(segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		switch {
		case s.op == "cat":
			out = append(out, s.args...)
		case s.op == "nil" || s.op == "empty":
		case s.op == "make" && len(s.args) > 0 && s.args[0].op == "int" && s.args[0].c == 0:
		case s.op == "const" && s.val != nil && s.val.Kind() == constant.String && constant.StringVal(s.val) == "":
		case s.op == "app" && s.aux == "bytesof" && s.args[0].op == "const":
			if constant.StringVal(s.args[0].val) != "" {
				out = append(out, s.args[0])
			}
		default:
			out = append(out, s)
		}
	}
	// merge adjacent string constants
	var m []*Term
	for _, s := range out {
		if n := len(m); n > 0 && isStrConst(s) && isStrConst(m[n-1]) {
			m[n-1] = mkStr(constant.StringVal(m[n-1].val) + constant.StringVal(s.val))
			continue
		}
		m = append(m, s)
	}
	return mk("cat", "", m...)
}

func isStrConst(t *Term) bool {
	return t.op == "const" && t.val != nil && t.val.Kind() == constant.String
}

func tLen(t *Term) *Term {
	switch t.op {
	case "nil", "empty":
		return mkInt(0)
	case "cat":
		r := mkInt(0)
		for _, s := range t.args {
			r = tAdd(r, tLen(s))
		}
		return r
	case "const":
		if isStrConst(t) {
			return mkInt(int64(len(constant.StringVal(t.val))))
		}
	case "slice":
		return tSub(t.args[2], t.args[1])
	case "make":
		return t.args[0]
	case "app":
		switch t.aux {
		case "append":
			return tAdd(tLen(t.args[0]), mkInt(int64(len(t.args)-1)))
		case "appends":
			return tAdd(tLen(t.args[0]), tLen(t.args[1]))
		case "bytesof", "stringof", "copyof":
			return tLen(t.args[0])
		case "u8":
			return mkInt(1)
		case "be64":
			return mkInt(8)
		}
	}
	return mkApp("len", t)
}

func mkSlice(base, lo, hi *Term) *Term {
	if lo.op == "int" && lo.c == 0 && hi == tLen(base) && base.op != "obj" {
		return base
	}
	if base.op == "cat" && len(base.args) > 0 {
		return cutCat(base, lo, hi)
	}
	if base.op == "slice" {
		l := base.args[1]
		return mkSlice(base.args[0], tAdd(l, lo), tAdd(l, hi))
	}
	return mk("slice", "", base, lo, hi)
}

// stripCopy removes wrappers that copy bytes without changing the content.
func stripCopy(t *Term) *Term {
	for {
		switch {
		case t.op == "cat" && len(t.args) == 1:
			t = t.args[0]
		case t.op == "app" && (t.aux == "bytesof" || t.aux == "stringof" || t.aux == "copyof"):
			t = t.args[0]
		default:
			return t
		}
	}
}

func sameBytes(a, b *Term) bool {
	a, b = stripCopy(a), stripCopy(b)
	if a == b {
		return true
	}
	if a.op == "cat" && b.op == "cat" && len(a.args) == len(b.args) {
		for i := range a.args {
			if !sameBytes(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func simplifyApp(name string, args []*Term) *Term {
	switch name {
	case "len":
		return tLen(args[0])
	case "stringof":
		if args[0].op == "app" && args[0].aux == "bytesof" {
			return args[0].args[0]
		}
	case "bytesof":
		if args[0].op == "app" && args[0].aux == "stringof" {
			return mkCat(args[0].args[0])
		}
	case "xor":
		// constants are normalised to the right
		a, b := args[0], args[1]
		if isIntConst(a) && !isIntConst(b) {
			a, b = b, a
		}
		if a.op == "app" && a.aux == "xor" && a.args[1] == b && isIntConst(b) {
			return a.args[0]
		}
		if isIntConst(a) && isIntConst(b) {
			return mkConst(constant.BinaryOp(constOf(a), token.XOR, constOf(b)))
		}
		return mk("app", "xor", a, b)
	case "compl":
		if args[0].op == "app" && args[0].aux == "compl" {
			return args[0].args[0]
		}
	case "unbe64":
		s := stripCopy(args[0])
		if s.op == "app" && s.aux == "be64" {
			return s.args[0]
		}
		return mk("app", "unbe64", s)
	case "be64":
		if args[0].op == "app" && args[0].aux == "unbe64" {
			return args[0].args[0]
		}
	}
	return mk("app", name, args...)
}

func isIntConst(t *Term) bool {
	return t.op == "int" || t.op == "const" && t.val != nil && t.val.Kind() == constant.Int
}

// walk visits t and its subterms once.
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walk(a, seen, f)
	}
}

func mentions(t *Term, p func(*Term) bool) bool {
	found := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if p(x) {
			found = true
		}
	})
	return found
}

func (t *Term) String() string { return t.show(5) }

func (t *Term) show(d int) string {
	if t == nil {
		return "?"
	}
	if d == 0 {
		return "…"
	}
	list := func(as []*Term) string {
		var p []string
		for _, a := range as {
			p = append(p, a.show(d-1))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case "nil":
		return "nil"
	case "int":
		return strconv.FormatInt(t.c, 10)
	case "const":
		return t.aux
	case "sym":
		if t.info != nil {
			return t.info.kind + ":" + t.info.site
		}
		return "sym" + t.aux
	case "obj", "map", "make":
		s := t.op + t.aux
		if t.info != nil && t.info.site != "" {
			s = t.op + ":" + t.info.site
		}
		return s
	case "lin":
		var p []string
		for i, a := range t.args {
			if t.coef[i] == 1 {
				p = append(p, a.show(d-1))
			} else {
				p = append(p, fmt.Sprintf("%d*%s", t.coef[i], a.show(d-1)))
			}
		}
		if t.c != 0 {
			p = append(p, strconv.FormatInt(t.c, 10))
		}
		return "(" + strings.Join(p, " + ") + ")"
	case "app":
		return t.aux + "(" + list(t.args) + ")"
	case "closure":
		return "func " + t.fn.Name()
	case "iface":
		return t.args[0].show(d)
	case "sentinel", "global":
		return t.aux
	case "field":
		return t.args[0].show(d-1) + "." + t.aux
	case "ge0":
		return "(" + t.args[0].show(d-1) + " >= 0)"
	case "eq0":
		return "(" + t.args[0].show(d-1) + " == 0)"
	case "eq":
		return "(" + t.args[0].show(d-1) + " == " + t.args[1].show(d-1) + ")"
	case "not":
		return "!" + t.args[0].show(d-1)
	}
	return t.op + "(" + list(t.args) + ")"
}

// cutCat cuts a concatenation at segment boundaries.
func cutCat(base, lo, hi *Term) *Term {
	segs := base.args
	total := tLen(base)
	for len(segs) > 0 {
		d := toLin(lo).add(toLin(tLen(segs[0])), -1)
		if !d.isConst() || d.c < 0 {
			if c := segs[0]; lo.op == "int" && lo.c > 0 && isStrConst(c) && lo.c < int64(len(constant.StringVal(c.val))) {
				v := constant.StringVal(c.val)
				segs = append([]*Term{mkStr(v[lo.c:])}, segs[1:]...)
				hi, total = tSub(hi, lo), tSub(total, lo)
				lo = mkInt(0)
			}
			break
		}
		hi, total = tSub(hi, tLen(segs[0])), tSub(total, tLen(segs[0]))
		lo = d.term()
		segs = segs[1:]
	}
	for len(segs) > 0 {
		last := segs[len(segs)-1]
		d := toLin(total).add(toLin(hi), -1).add(toLin(tLen(last)), -1)
		if !d.isConst() || d.c < 0 {
			if e := toLin(total).add(toLin(hi), -1); e.isConst() && e.c > 0 && isStrConst(last) && e.c < int64(len(constant.StringVal(last.val))) {
				v := constant.StringVal(last.val)
				segs = append(append([]*Term(nil), segs[:len(segs)-1]...), mkStr(v[:int64(len(v))-e.c]))
				total = hi
			}
			break
		}
		segs = segs[:len(segs)-1]
		total = tSub(total, tLen(last))
	}
	r := mkCat(segs...)
	if lo.op == "int" && lo.c == 0 && hi == total {
		return r
	}
	return mk("slice", "", r, lo, hi)
}

// hasPrefixTerm decides whether byte string a starts with b, when their forms tell.
func hasPrefixTerm(a, b *Term) *Term {
	as, bs := []*Term{a}, []*Term{b}
	if a.op == "cat" {
		as = a.args
	}
	if b.op == "cat" {
		bs = b.args
	}
	if b.op == "nil" || b.op == "empty" || len(bs) == 0 {
		return tTrue
	}
	i := 0
	for ; i < len(bs); i++ {
		if i >= len(as) {
			return nil
		}
		x, y := as[i], bs[i]
		if x == y {
			continue
		}
		if isStrConst(x) && isStrConst(y) {
			p, q := constant.StringVal(x.val), constant.StringVal(y.val)
			if i == len(bs)-1 && strings.HasPrefix(p, q) {
				return tTrue
			}
			n := len(p)
			if len(q) < n {
				n = len(q)
			}
			if p[:n] != q[:n] {
				return tFalse
			}
		}
		return nil
	}
	return tTrue
}
