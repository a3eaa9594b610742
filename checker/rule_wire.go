package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// P27: wire messages. The encoder and the decoder of every message are evaluated
// in an abstract domain and compared with the message definition. Integers are
// vectors of bits, each 0, 1, a bit of a field or unknown, or sums of lengths;
// byte strings are sequences of such bytes and of whole fields of any length.

func init() { register("P27", checkWire) }

type (
	wval  interface{}
	wline struct { // a constant and a sum of lengths
		c int64
		m map[int]int64
	}
	wInt struct {
		bits []bit // least significant first, or
		lin  *wline
		iv   *[2]int64 // or between two numbers
		sgn  bool
	}
	wBool struct{ b bit }
	wErr  struct{ nil bool }
	wNil  struct{}
	wUnk  struct{ what string }
	wTup  []wval
	wCell struct{ v wval }
	wPtr  struct{ c *wCell }
	wByte struct { // the address of a byte
		b  *wBuf
		at wline
	}
	wStruct struct {
		t *types.Struct
		f []*wCell
	}
	wMsg struct { // a message inside the one looked at
		name string
		sym  int
		in   []wElem // what it was decoded from
		done bool
	}
	wElem struct { // a byte, or all bytes of a field
		bits []bit
		run  bool
		sym  int
		name string
	}
	wAt struct {
		off wline
		e   wElem
	}
	wBuf struct {
		el []wAt
		n  wline
	}
	wSlice struct {
		b      *wBuf // nil: the nil slice
		lo, hi wline
	}
	wStr  struct{ el []wElem }
	wList struct {
		c      []*wCell
		notNil bool
	}
	wClos struct {
		f    *ssa.Function
		free []wval
	}
)

type wStop struct{ why, at string } // not decided
type wBad struct{ why, at string }  // wrong on this path
type wDrop struct{}                 // impossible path
type wirePanic struct{ why, at string }

type wField struct {
	name, goName, kind string // kind: a scalar type of the definition, or "message"
	msg                string
	num                int
	rep                bool
	idx                int // in the struct
}

type wireMsg struct {
	name                     string
	fields                   []*wField
	named                    *types.Named
	st                       *types.Struct
	size, marshal, unmarshal *ssa.Function
	unk                      int // index of the part that keeps unknown fields, or -1
	wrong                    int // messages decoded wrongly so far
}

type wireRun struct {
	c        *Ctx
	w        *World
	m        *wireMsg
	plan     []bool
	at       int
	asm      []bit   // what is known about bits of the symbols
	facts    [][]int // some bit of the set is 1
	syms     []string
	width    []int
	top      *wCell
	steps    int
	depth    int
	ins      ssa.Instruction
	decoding bool
}

func (r *wireRun) where() string {
	if r.ins == nil {
		return "-"
	}
	p := r.ins.Pos()
	if p == token.NoPos {
		p = r.ins.Parent().Pos()
	}
	return r.w.pos(p)
}

func (r *wireRun) stop(f string, a ...interface{}) {
	panic(wStop{fmt.Sprintf(f, a...), r.where()})
}
func (r *wireRun) bad(f string, a ...interface{}) { panic(wBad{fmt.Sprintf(f, a...), r.where()}) }

func (r *wireRun) decide() bool {
	if r.at == len(r.plan) {
		r.plan = append(r.plan, false)
	}
	r.at++
	return r.plan[r.at-1]
}

func (r *wireRun) norm(b bit) bit {
	if b < 2 {
		return b
	}
	if v := r.asm[int(b-2)/2]; v >= 0 {
		return v ^ (b & 1)
	}
	return b
}

func (r *wireRun) normAll(bs []bit) []bit {
	out := make([]bit, len(bs))
	for i, b := range bs {
		out[i] = r.norm(b)
	}
	return out
}

func (r *wireRun) set(id int, v bit) {
	r.asm[id] = v
	for _, f := range r.facts {
		some := false
		for _, id := range f {
			if v := r.asm[id]; v != 0 {
				some = true
			}
		}
		if !some {
			panic(wDrop{})
		}
	}
}

func (r *wireRun) truth(b bit) bool {
	b = r.norm(b)
	switch b {
	case 0:
		return false
	case 1:
		return true
	case bTop:
		r.stop("a condition depends on bits that are not known")
	}
	d := r.decide()
	v := bit(0)
	if d {
		v = 1
	}
	r.set(int(b-2)/2, v^(b&1))
	return d
}

// any decides whether one of the bits is 1.
func (r *wireRun) any(bs []bit) bool {
	ids := map[int]bool{}
	for _, b := range r.normAll(bs) {
		switch {
		case b == 1:
			return true
		case b == 0:
		case b < 0 || b&1 == 1:
			r.stop("a condition depends on bits that are not known")
		default:
			ids[int(b-2)/2] = true
		}
	}
	if len(ids) == 0 {
		return false
	}
	for _, f := range r.facts {
		all := true
		for _, id := range f {
			if !ids[id] && r.norm(bit(2+2*id)) != 0 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	var l []int
	for id := range ids {
		l = append(l, id)
	}
	sort.Ints(l)
	if len(l) == 1 {
		return r.truth(bit(2 + 2*l[0]))
	}
	if r.decide() {
		r.facts = append(r.facts, l)
		return true
	}
	for _, id := range l {
		r.set(id, 0)
	}
	return false
}

// ---- symbols and sums

func (r *wireRun) newSym(name string, width int) int {
	r.syms = append(r.syms, name)
	r.width = append(r.width, width)
	for i := 0; i < 64; i++ {
		r.asm = append(r.asm, bTop)
	}
	if len(r.syms) > 200 {
		r.stop("too many parts")
	}
	return len(r.syms) - 1
}

// symBits are the bits of a symbol as a 64 bit number.
func (r *wireRun) symBits(s int, sgn bool) []bit {
	out := make([]bit, 64)
	for i := range out {
		switch {
		case i < r.width[s]:
			out[i] = bit(2 + 2*(s*64+i))
		case sgn:
			out[i] = bit(2 + 2*(s*64+r.width[s]-1))
		}
	}
	return out
}

const wireLenBits = 33 // lengths of byte strings

func wc(c int64) wline { return wline{c: c} }

func (a wline) plus(b wline, k int64) wline {
	out := wline{a.c + k*b.c, map[int]int64{}}
	for s, v := range a.m {
		out.m[s] = v
	}
	for s, v := range b.m {
		if out.m[s] += k * v; out.m[s] == 0 {
			delete(out.m, s)
		}
	}
	return out
}

func (r *wireRun) symLine(s int) wline { return r.normLine(wline{0, map[int]int64{s: 1}}) }

func (r *wireRun) normLine(l wline) wline {
	out := wline{l.c, map[int]int64{}}
	for s, k := range l.m {
		if v, ok := bitsConst(r.normAll(r.symBits(s, false))); ok {
			out.c += k * int64(v)
		} else {
			out.m[s] = k
		}
	}
	return out
}

// sign decides whether a sum is negative, zero or positive.
func (r *wireRun) sign(l wline) int {
	l = r.normLine(l)
	if len(l.m) == 0 {
		switch {
		case l.c < 0:
			return -1
		case l.c > 0:
			return 1
		}
		return 0
	}
	if len(l.m) == 1 && l.c == 0 {
		for s, k := range l.m {
			if !r.any(r.symBits(s, false)) {
				return 0
			}
			if k < 0 {
				return -1
			}
			return 1
		}
	}
	// lengths of fields that are there are at least one
	lo, hi, up, down := l.c, l.c, false, false
	for s, k := range l.m {
		min := int64(0)
		if r.nonZero(s) {
			min = 1
		}
		if k > 0 {
			lo += k * min
			up = true
		} else {
			hi += k * min
			down = true
		}
		if k > 0 {
			hi += k * min
		} else {
			lo += k * min
		}
	}
	switch {
	case !down && lo > 0:
		return 1
	case !up && hi < 0:
		return -1
	}
	r.stop("a comparison of positions is not decided (%s)", r.showLine(l))
	return 0
}

// atLeast decides whether a sum is k or more.
func (r *wireRun) atLeast(l wline, k int64) bool {
	l = r.normLine(l)
	if k == 1 && len(l.m) == 1 && l.c == 0 {
		return r.sign(l) > 0
	}
	l.c -= k
	lo, hi, hasLo, hasHi := l.c, l.c, true, true
	for s, k := range l.m {
		min := int64(0)
		if r.nonZero(s) {
			min = 1
		}
		lo += k * min
		hi += k * min
		if k > 0 {
			hasHi = false
		} else {
			hasLo = false
		}
	}
	switch {
	case hasLo && lo >= 0:
		return true
	case hasHi && hi < 0:
		return false
	}
	return r.sign(l) >= 0
}

func (r *wireRun) nonZero(s int) bool {
	ids := map[int]bool{}
	for _, b := range r.normAll(r.symBits(s, false)) {
		if b == 1 {
			return true
		}
		if b >= 2 {
			ids[int(b-2)/2] = true
		}
	}
	for _, f := range r.facts {
		in := true
		for _, id := range f {
			if r.asm[id] == 0 {
				continue
			}
			in = in && ids[id]
		}
		if in {
			return true
		}
	}
	return false
}

func (r *wireRun) showLine(l wline) string {
	out := []string{}
	if l.c != 0 || len(l.m) == 0 {
		out = append(out, strconv.FormatInt(l.c, 10))
	}
	var ss []int
	for s := range l.m {
		ss = append(ss, s)
	}
	sort.Ints(ss)
	for _, s := range ss {
		k := ""
		if l.m[s] != 1 {
			k = strconv.FormatInt(l.m[s], 10) + "*"
		}
		out = append(out, k+r.syms[s])
	}
	return strings.Join(out, "+")
}

func (r *wireRun) same(a, b wline) bool {
	d := r.normLine(a.plus(b, -1))
	return d.c == 0 && len(d.m) == 0
}

// line is an integer as a sum of lengths.
func (r *wireRun) line(v wInt) (wline, bool) {
	if v.iv != nil {
		return wline{}, false
	}
	if v.lin != nil {
		return r.normLine(*v.lin), true
	}
	bs := r.normAll(v.bits)
	if c, ok := bitsConst(bs); ok {
		if v.sgn && len(bs) < 64 && bs[len(bs)-1] == 1 {
			c |= ^uint64(0) << uint(len(bs))
		}
		return wc(int64(c)), true
	}
	for _, b := range bs {
		if b >= 2 {
			s := int(b-2) / 2 / 64
			want := r.normAll(r.symBits(s, false))
			for i, x := range want {
				if i < len(bs) && bs[i] != x || i >= len(bs) && x != 0 {
					return wline{}, false
				}
			}
			return r.symLine(s), true
		}
	}
	return wline{}, false
}

func (r *wireRun) bits(v wInt, w int) []bit {
	if v.iv != nil {
		return allOf(w, bTop)
	}
	if v.lin == nil {
		out := make([]bit, w)
		for i := range out {
			switch {
			case i < len(v.bits):
				out[i] = v.bits[i]
			case v.sgn && len(v.bits) > 0:
				out[i] = v.bits[len(v.bits)-1]
			}
		}
		return r.normAll(out)
	}
	l := r.normLine(*v.lin)
	if len(l.m) == 0 {
		return constBits(uint64(l.c), w)
	}
	if len(l.m) == 1 && l.c == 0 {
		for s, k := range l.m {
			if k == 1 {
				return r.normAll(r.symBits(s, false)[:w])
			}
		}
	}
	return allOf(w, bTop)
}

func wConst(v int64) wInt { return wInt{bits: constBits(uint64(v), 64), sgn: true} }

func (r *wireRun) konst(v wval) int64 {
	if i, ok := v.(wInt); ok {
		if l, ok := r.line(i); ok && len(l.m) == 0 {
			return l.c
		}
	}
	r.stop("an integer is expected to be known")
	return 0
}

func (r *wireRun) lineOf(v wval) wline {
	if i, ok := v.(wInt); ok {
		if l, ok := r.line(i); ok {
			return l
		}
	}
	r.stop("a position is not known")
	return wline{}
}

// ---- bytes

func (r *wireRun) elemLen(e wElem) wline {
	if e.run {
		return r.symLine(e.sym)
	}
	return wc(1)
}

func (r *wireRun) newBuf(el []wElem) *wBuf {
	b := &wBuf{}
	off := wc(0)
	for _, e := range el {
		b.el = append(b.el, wAt{off, e})
		off = off.plus(r.elemLen(e), 1)
	}
	b.n = off
	return b
}

func (r *wireRun) sliceOf(el []wElem) wSlice {
	b := r.newBuf(el)
	return wSlice{b, wc(0), b.n}
}

// put writes what el says at a position.
func (r *wireRun) put(b *wBuf, at wline, el []wElem) {
	for _, e := range el {
		n := r.elemLen(e)
		if r.same(n, wc(0)) {
			continue
		}
		if !r.atLeast(at, 0) || !r.atLeast(b.n.plus(at.plus(n, 1), -1), 0) {
			r.bad("writes behind the end of the room the size says it needs (position %s of %s)", r.showLine(r.normLine(at)), r.showLine(r.normLine(b.n)))
		}
		done := false
		for i := range b.el {
			if r.same(b.el[i].off, at) {
				if !r.same(r.elemLen(b.el[i].e), n) {
					r.stop("overwrites a part of what was written")
				}
				b.el[i].e, done = e, true
			}
		}
		if !done {
			b.el = append(b.el, wAt{at, e})
		}
		at = at.plus(n, 1)
	}
}

// between is what lies between two positions.
func (r *wireRun) between(b *wBuf, lo, hi wline) []wElem {
	var out []wElem
	for n := 0; !r.same(lo, hi); n++ {
		if n > 300 {
			r.stop("too many parts")
		}
		found := false
		for _, a := range b.el {
			l := r.elemLen(a.e)
			if r.same(a.off, lo) && !r.same(l, wc(0)) {
				out = append(out, a.e)
				lo = lo.plus(l, 1)
				found = true
				break
			}
		}
		if !found {
			if r.decoding {
				r.bad("takes a part of the bytes of a field (from %s)", r.showLine(r.normLine(lo)))
			}
			r.bad("leaves a gap at %s", r.showLine(r.normLine(lo)))
		}
	}
	return out
}

func (r *wireRun) content(s wSlice) []wElem {
	if s.b == nil {
		return nil
	}
	return r.between(s.b, s.lo, s.hi)
}

func (r *wireRun) sliceLen(s wSlice) wline {
	if s.b == nil {
		return wc(0)
	}
	return r.normLine(s.hi.plus(s.lo, -1))
}

// ---- evaluation

func (r *wireRun) zero(t types.Type) wval {
	if w, sgn, ok := intWidth(t); ok {
		return wInt{bits: make([]bit, w), sgn: sgn}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return wBool{0}
		case types.String, types.UntypedString:
			return wStr{}
		}
		return wUnk{"zero of " + t.String()}
	case *types.Struct:
		s := &wStruct{t: u}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, &wCell{r.zero(u.Field(i).Type())})
		}
		return s
	case *types.Slice:
		if isByteSlice(t) {
			return wSlice{}
		}
		return &wList{}
	case *types.Interface:
		if isErrorType(t) {
			return wErr{true}
		}
		return wNil{}
	case *types.Tuple:
		var tup wTup
		for i := 0; i < u.Len(); i++ {
			tup = append(tup, r.zero(u.At(i).Type()))
		}
		return tup
	case *types.Pointer:
		return wNil{}
	case *types.Array:
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 && u.Len() <= 64 {
			b := &wBuf{n: wc(u.Len())}
			return wSlice{b, wc(0), b.n}
		}
		if u.Len() <= 8 {
			l := &wList{notNil: true}
			for i := int64(0); i < u.Len(); i++ {
				l.c = append(l.c, &wCell{r.zero(u.Elem())})
			}
			return l
		}
	}
	return wUnk{"zero of " + t.String()}
}

func (r *wireRun) val(env map[ssa.Value]wval, v ssa.Value) wval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return r.zero(x.Type())
		}
		if w, sgn, ok := intWidth(x.Type()); ok {
			u := uint64(0)
			if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				u = uint64(i)
			} else if i, ok := constant.Uint64Val(constant.ToInt(x.Value)); ok {
				u = i
			}
			return wInt{bits: constBits(u, w), sgn: sgn}
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return wBool{1}
			}
			return wBool{0}
		}
		if x.Value.Kind() == constant.String {
			var el []wElem
			for _, c := range []byte(constant.StringVal(x.Value)) {
				el = append(el, wElem{bits: constBits(uint64(c), 8)})
			}
			return wStr{el}
		}
	case *ssa.Global:
		if isErrorType(deref(x.Type())) {
			return wPtr{&wCell{wErr{false}}}
		}
		return wUnk{x.Name()}
	case *ssa.Function:
		return wClos{f: x}
	}
	if a, ok := env[v]; ok {
		return a
	}
	return wUnk{v.Name()}
}

func (r *wireRun) call(f *ssa.Function, args, free []wval) wval {
	if f.Blocks == nil {
		r.stop("calls %s, which is not followed", shortName(f.String()))
	}
	if r.depth++; r.depth > 30 {
		r.stop("recursion too deep")
	}
	defer func() { r.depth-- }()
	r.c.funcs[f] = true
	env := map[ssa.Value]wval{}
	for i, p := range f.Params {
		env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		env[p] = free[i]
	}
	var prev *ssa.BasicBlock
	b := f.Blocks[0]
	var phis []wval
	for {
		var next *ssa.BasicBlock
		phis = phis[:0]
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, q := range b.Preds {
				if q == prev {
					phis = append(phis, r.val(env, p.Edges[i]))
					break
				}
			}
		}
		for i := range phis {
			env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		for _, ins := range b.Instrs[len(phis):] {
			if r.steps++; r.steps > 100000 {
				r.bad("does not come to an end")
			}
			r.ins = ins
			switch x := ins.(type) {
			case *ssa.If:
				c, ok := r.val(env, x.Cond).(wBool)
				if !ok {
					r.stop("a condition is not known")
				}
				if r.truth(c.b) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(x.Results) == 1 {
					return r.val(env, x.Results[0])
				}
				var t wTup
				for _, v := range x.Results {
					t = append(t, r.val(env, v))
				}
				return t
			case *ssa.Panic:
				r.bad("panics")
			case *ssa.Store:
				r.store(r.val(env, x.Addr), r.val(env, x.Val))
			case *ssa.RunDefers, *ssa.DebugRef:
			case *ssa.Defer:
				r.stop("defers a call")
			case ssa.Value:
				env[x] = r.eval(env, x)
			default:
				r.stop("contains an instruction not followed (%T)", ins)
			}
		}
		if next == nil {
			r.stop("ends without returning")
		}
		prev, b = b, next
	}
}

func copyVal(v wval) wval {
	if s, ok := v.(*wStruct); ok {
		n := &wStruct{t: s.t}
		for _, c := range s.f {
			n.f = append(n.f, &wCell{copyVal(c.v)})
		}
		return n
	}
	return v
}

func (r *wireRun) store(addr, v wval) {
	switch a := addr.(type) {
	case wPtr:
		if s, ok := v.(*wStruct); ok {
			if d, ok := a.c.v.(*wStruct); ok && len(d.f) == len(s.f) {
				for i := range d.f {
					d.f[i].v = copyVal(s.f[i].v)
				}
				return
			}
		}
		a.c.v = copyVal(v)
	case wByte:
		i, ok := v.(wInt)
		if !ok {
			r.stop("an unknown byte is written")
		}
		r.put(a.b, a.at, []wElem{{bits: r.bits(i, 8)}})
	default:
		r.stop("writes to a place that is not known")
	}
}

func (r *wireRun) eval(env map[ssa.Value]wval, v ssa.Value) wval {
	switch x := v.(type) {
	case *ssa.Alloc:
		return wPtr{&wCell{r.zero(deref(x.Type()))}}
	case *ssa.BinOp:
		return r.binop(x, r.val(env, x.X), r.val(env, x.Y))
	case *ssa.UnOp:
		a := r.val(env, x.X)
		switch x.Op {
		case token.MUL:
			switch p := a.(type) {
			case wPtr:
				return copyVal(p.c.v)
			case wByte:
				return r.byteAt(p.b, p.at)
			case wNil:
				r.bad("uses a part that is absent")
			}
			r.stop("reads a place that is not known")
		case token.NOT:
			if b, ok := a.(wBool); ok {
				return wBool{bitNot(r.norm(b.b))}
			}
		case token.XOR:
			if i, ok := a.(wInt); ok && i.lin == nil {
				return wInt{bits: notBits(r.normAll(i.bits)), sgn: i.sgn}
			}
		case token.SUB:
			if i, ok := a.(wInt); ok {
				if l, ok := r.line(i); ok {
					n := wc(0).plus(l, -1)
					return r.fit(wInt{lin: &n, sgn: i.sgn}, x.Type())
				}
			}
		}
		r.stop("an operation is not followed (%s)", x.Op)
	case *ssa.ChangeType:
		return r.val(env, x.X)
	case *ssa.ChangeInterface:
		return r.val(env, x.X)
	case *ssa.MakeInterface:
		if isErrorType(x.Type()) {
			return wErr{false}
		}
		return r.val(env, x.X)
	case *ssa.Convert:
		return r.convert(x, r.val(env, x.X))
	case *ssa.FieldAddr:
		switch p := r.val(env, x.X).(type) {
		case wPtr:
			if s, ok := p.c.v.(*wStruct); ok {
				return wPtr{s.f[x.Field]}
			}
			r.stop("looks into a message it contains")
		case wNil:
			r.bad("uses a part that is absent")
		}
		r.stop("a part of something unknown")
	case *ssa.Field:
		if s, ok := r.val(env, x.X).(*wStruct); ok {
			return s.f[x.Field].v
		}
	case *ssa.Extract:
		if t, ok := r.val(env, x.Tuple).(wTup); ok && x.Index < len(t) {
			return t[x.Index]
		}
		r.stop("a result is not known")
	case *ssa.IndexAddr:
		i := r.val(env, x.Index)
		switch s := r.val(env, x.X).(type) {
		case wSlice:
			at := r.lineOf(i)
			if !r.atLeast(at, 0) || !r.atLeast(r.sliceLen(s).plus(at, -1), 1) {
				r.bad("uses a byte behind the end (%s of %s)", r.showLine(at), r.showLine(r.sliceLen(s)))
			}
			return wByte{s.b, r.normLine(s.lo.plus(at, 1))}
		case *wList:
			k := r.konst(i)
			if k < 0 || k >= int64(len(s.c)) {
				r.bad("uses an element behind the end")
			}
			return wPtr{s.c[k]}
		case wPtr:
			if a, ok := s.c.v.(wSlice); ok {
				return wByte{a.b, r.lineOf(i)}
			}
			if l, ok := s.c.v.(*wList); ok {
				k := r.konst(i)
				if k >= 0 && k < int64(len(l.c)) {
					return wPtr{l.c[k]}
				}
			}
		}
		r.stop("an element of something unknown")
	case *ssa.Lookup:
		if s, ok := r.val(env, x.X).(wStr); ok {
			return r.byteAt(r.newBuf(s.el), r.lineOf(r.val(env, x.Index)))
		}
	case *ssa.Slice:
		return r.slice(env, x)
	case *ssa.MakeSlice:
		if isByteSlice(x.Type()) {
			n := r.lineOf(r.val(env, x.Len))
			if !r.atLeast(n, 0) {
				r.bad("makes room of a negative size")
			}
			return wSlice{&wBuf{n: n}, wc(0), n}
		}
	case *ssa.MakeClosure:
		var free []wval
		for _, b := range x.Bindings {
			free = append(free, r.val(env, b))
		}
		return wClos{x.Fn.(*ssa.Function), free}
	case *ssa.Call:
		return r.callInstr(env, x)
	}
	r.stop("an instruction is not followed (%T)", v)
	return nil
}

func (r *wireRun) byteAt(b *wBuf, at wline) wval {
	for _, a := range b.el {
		if r.same(a.off, at) && !r.same(r.elemLen(a.e), wc(0)) {
			if a.e.run {
				r.bad("takes the bytes of %s for something else", a.e.name)
			}
			return wInt{bits: a.e.bits}
		}
	}
	if r.decoding {
		r.bad("takes a byte inside of a field for something else")
	}
	return wInt{bits: allOf(8, bTop)}
}

func (r *wireRun) slice(env map[ssa.Value]wval, x *ssa.Slice) wval {
	v := r.val(env, x.X)
	if p, ok := v.(wPtr); ok {
		v = p.c.v // of an array
	}
	var lo, hi *wline
	if x.Low != nil {
		l := r.lineOf(r.val(env, x.Low))
		lo = &l
	}
	if x.High != nil {
		l := r.lineOf(r.val(env, x.High))
		hi = &l
	}
	switch s := v.(type) {
	case wStr:
		b := r.sliceOf(s.el)
		return wStr{r.content(r.cut(b, lo, hi))}
	case wSlice:
		return r.cut(s, lo, hi)
	case *wList:
		a, b := int64(0), int64(len(s.c))
		if lo != nil {
			a = r.konst(wInt{lin: lo})
		}
		if hi != nil {
			b = r.konst(wInt{lin: hi})
		}
		if a < 0 || b < a || b > int64(len(s.c)) {
			r.bad("a slice is out of range")
		}
		return &wList{append([]*wCell{}, s.c[a:b]...), s.notNil}
	}
	r.stop("a slice of something unknown")
	return nil
}

func (r *wireRun) cut(s wSlice, lo, hi *wline) wSlice {
	n := r.sliceLen(s)
	a, b := wc(0), n
	if lo != nil {
		a = *lo
	}
	if hi != nil {
		b = *hi
	}
	if !r.atLeast(a, 0) || !r.atLeast(b.plus(a, -1), 0) || !r.atLeast(n.plus(b, -1), 0) {
		r.bad("a slice is out of range (%s:%s of %s)", r.showLine(a), r.showLine(b), r.showLine(n))
	}
	if s.b == nil {
		return s
	}
	return wSlice{s.b, r.normLine(s.lo.plus(a, 1)), r.normLine(s.lo.plus(b, 1))}
}

// fit brings an integer into its type.
func (r *wireRun) fit(v wInt, t types.Type) wval {
	if v.iv != nil {
		if v.iv[0] < 0 || v.iv[1] > 127 {
			r.stop("a number is not known")
		}
		return v
	}
	w, sgn, ok := intWidth(t)
	if !ok {
		r.stop("not an integer")
	}
	if v.lin != nil {
		l := r.normLine(*v.lin)
		if w == 64 {
			return wInt{lin: &l, sgn: sgn}
		}
	}
	return wInt{bits: r.bits(v, w), sgn: sgn}
}

func (r *wireRun) convert(x *ssa.Convert, v wval) wval {
	switch a := v.(type) {
	case wInt:
		if _, _, ok := intWidth(x.Type()); ok {
			return r.fit(a, x.Type())
		}
	case wSlice:
		if isStringType(x.Type()) {
			return wStr{r.content(a)}
		}
		return a
	case wStr:
		if isByteSlice(x.Type()) {
			return r.sliceOf(a.el)
		}
		return a
	}
	r.stop("a conversion is not followed")
	return nil
}

func log2(c uint64) int {
	for i := 0; i < 64; i++ {
		if c == 1<<uint(i) {
			return i
		}
	}
	return -1
}

func (r *wireRun) boolVal(b bool) wval {
	if b {
		return wBool{1}
	}
	return wBool{0}
}

func (r *wireRun) isNil(v wval) (bool, bool) {
	switch a := v.(type) {
	case wNil:
		return true, true
	case wErr:
		return a.nil, true
	case wSlice:
		return a.b == nil, true
	case *wList:
		return !a.notNil, true
	case wPtr, wClos:
		return false, true
	}
	return false, false
}

func (r *wireRun) binop(x *ssa.BinOp, a, b wval) wval {
	if x.Op == token.EQL || x.Op == token.NEQ {
		isNilConst := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }
		o := a
		if isNilConst(x.X) {
			o = b
		}
		if isNilConst(x.X) || isNilConst(x.Y) {
			if n, ok := r.isNil(o); ok {
				return r.boolVal(n == (x.Op == token.EQL))
			}
		}
		if s, ok := a.(wStr); ok {
			if t, ok := b.(wStr); ok && (len(s.el) == 0 || len(t.el) == 0) {
				n := r.newBuf(append(append([]wElem{}, s.el...), t.el...)).n
				return r.boolVal(r.sign(n) == 0 == (x.Op == token.EQL))
			}
		}
		if p, ok := a.(wBool); ok {
			if q, ok := b.(wBool); ok {
				d := bitXor(r.norm(p.b), r.norm(q.b))
				if x.Op == token.EQL {
					d = bitNot(d)
				}
				return wBool{d}
			}
		}
	}
	i, ok1 := a.(wInt)
	j, ok2 := b.(wInt)
	if !ok1 || !ok2 {
		r.stop("an operation on something unknown (%s)", x.Op)
	}
	w, sgn, _ := intWidth(x.X.Type())
	if i.iv != nil || j.iv != nil {
		return r.interval(x, i, j)
	}
	li, lok := r.line(i)
	lj, jok := r.line(j)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return r.boolVal(r.compare(x.Op, i, j, li, lj, lok, jok, w, sgn))
	case token.ADD, token.SUB:
		k := int64(1)
		if x.Op == token.SUB {
			k = -1
		}
		if lok && jok {
			n := li.plus(lj, k)
			return r.fit(wInt{lin: &n, sgn: sgn}, x.Type())
		}
		p, q := r.bits(i, w), r.bits(j, w)
		if x.Op == token.SUB {
			return wInt{bits: addBits(p, notBits(q), 1), sgn: sgn}
		}
		return wInt{bits: addBits(p, q, 0), sgn: sgn}
	case token.MUL:
		if lok && jok && (len(li.m) == 0 || len(lj.m) == 0) {
			if len(li.m) != 0 {
				li, lj = lj, li
			}
			n := wc(0).plus(lj, li.c)
			return r.fit(wInt{lin: &n, sgn: sgn}, x.Type())
		}
	case token.QUO, token.REM:
		if lok && jok && len(li.m) == 0 && len(lj.m) == 0 && lj.c != 0 && li.c >= 0 && lj.c > 0 {
			n := li.c / lj.c
			if x.Op == token.REM {
				n = li.c % lj.c
			}
			return r.fit(wConst(n), x.Type())
		}
	case token.SHL, token.SHR:
		n := r.konst(j)
		if n < 0 {
			r.bad("shifts by a negative number")
		}
		p := r.bits(i, w)
		out := make([]bit, w)
		for t := range out {
			s := int64(t) - n
			if x.Op == token.SHR {
				s = int64(t) + n
			}
			switch {
			case s >= 0 && s < int64(w):
				out[t] = p[s]
			case x.Op == token.SHR && sgn:
				out[t] = p[w-1]
			}
		}
		return wInt{bits: out, sgn: sgn}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		p, q := r.bits(i, w), r.bits(j, w)
		out := make([]bit, w)
		for t := range out {
			switch x.Op {
			case token.AND:
				out[t] = bitAnd(p[t], q[t])
			case token.OR:
				out[t] = bitOr(p[t], q[t])
			case token.XOR:
				out[t] = bitXor(p[t], q[t])
			default:
				out[t] = bitAnd(p[t], bitNot(q[t]))
			}
		}
		return wInt{bits: out, sgn: sgn}
	}
	r.stop("an operation is not followed (%s)", x.Op)
	return nil
}

// interval computes with a number between two others.
func (r *wireRun) interval(x *ssa.BinOp, i, j wInt) wval {
	if i.iv == nil && (x.Op == token.ADD || x.Op == token.MUL) {
		i, j = j, i
	}
	if i.iv != nil && j.iv == nil {
		if k, ok := r.line(j); ok && len(k.m) == 0 {
			var out [2]int64
			for n, v := range i.iv {
				switch {
				case x.Op == token.ADD:
					out[n] = v + k.c
				case x.Op == token.SUB:
					out[n] = v - k.c
				case x.Op == token.MUL && k.c >= 0:
					out[n] = v * k.c
				case x.Op == token.QUO && k.c > 0 && v >= 0:
					out[n] = v / k.c
				case x.Op == token.SHR && k.c >= 0 && k.c < 63 && v >= 0:
					out[n] = v >> uint(k.c)
				default:
					r.stop("an operation is not followed (%s)", x.Op)
				}
			}
			if out[0] == out[1] {
				return r.fit(wConst(out[0]), x.Type())
			}
			return wInt{iv: &out, sgn: i.sgn}
		}
	}
	r.stop("an operation is not followed (%s)", x.Op)
	return nil
}

func (r *wireRun) compare(op token.Token, i, j wInt, li, lj wline, lok, jok bool, w int, sgn bool) bool {
	pure := func(l wline) bool {
		for _, k := range l.m {
			return len(l.m) == 1 && l.c == 0 && k == 1
		}
		return false
	}
	if lok && jok {
		known := len(li.m) == 0 && len(lj.m) == 0
		if known && (sgn || li.c >= 0 && lj.c >= 0) || !known && !(pure(li) && len(lj.m) == 0 || pure(lj) && len(li.m) == 0) {
			d := li.plus(lj, -1)
			switch op {
			case token.LSS:
				return !r.atLeast(d, 0)
			case token.GEQ:
				return r.atLeast(d, 0)
			case token.LEQ:
				return !r.atLeast(d, 1)
			case token.GTR:
				return r.atLeast(d, 1)
			}
			return signIs(op, r.sign(d))
		}
	}
	if !sgn && lok && jok && len(li.m) == 0 && len(lj.m) == 0 {
		p, _ := bitsConst(r.bits(i, w))
		q, _ := bitsConst(r.bits(j, w))
		switch {
		case p < q:
			return signIs(op, -1)
		case p > q:
			return signIs(op, 1)
		}
		return signIs(op, 0)
	}
	// one side is known
	if lok && len(li.m) == 0 && !(jok && len(lj.m) == 0) {
		i, j, li, lj = j, i, lj, li
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
		lok, jok = jok, lok
	}
	bs := r.bits(i, w)
	if !jok || len(lj.m) != 0 {
		if op == token.EQL || op == token.NEQ {
			e := eqBits(bs, r.bits(j, w))
			return r.truth(e) == (op == token.EQL)
		}
		if lok && jok {
			return signIs(op, r.sign(li.plus(lj, -1)))
		}
		r.stop("a comparison of two unknown numbers")
	}
	k := lj.c
	if !sgn && k < 0 {
		r.stop("a comparison with %d is not followed", uint64(k))
	}
	switch op {
	case token.EQL, token.NEQ:
		if k == 0 {
			return r.any(bs) == (op == token.NEQ)
		}
		eq := true
		for t, b := range constBits(uint64(k), w) {
			if !eq {
				break
			}
			eq = r.truth(bs[t]) == (b == 1)
		}
		return eq == (op == token.EQL)
	case token.LEQ:
		op, k = token.LSS, k+1
	case token.GTR:
		op, k = token.GEQ, k+1
	}
	less := false
	switch {
	case sgn && r.norm(bs[w-1]) != 0 && (k == 0 || r.truth(bs[w-1])):
		if k > 0 {
			less = true
		} else if k == 0 {
			less = r.truth(bs[w-1])
		} else {
			r.stop("a comparison with %d is not followed", k)
		}
	case k <= 0:
	default:
		m := log2(uint64(k))
		if m < 0 {
			r.stop("a comparison with %d is not followed", k)
		}
		if m < w {
			less = !r.any(bs[m:])
		} else {
			less = true
		}
	}
	return less == (op == token.LSS)
}

func signIs(op token.Token, s int) bool {
	switch op {
	case token.EQL:
		return s == 0
	case token.NEQ:
		return s != 0
	case token.LSS:
		return s < 0
	case token.LEQ:
		return s <= 0
	case token.GTR:
		return s > 0
	}
	return s >= 0
}

func (r *wireRun) callInstr(env map[ssa.Value]wval, x *ssa.Call) wval {
	cc := x.Common()
	var args []wval
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		for _, a := range cc.Args {
			args = append(args, r.val(env, a))
		}
		return r.builtin(x, b.Name(), args)
	}
	if cc.IsInvoke() {
		r.stop("calls a method of an interface")
	}
	for _, a := range cc.Args {
		args = append(args, r.val(env, a))
	}
	f := cc.StaticCallee()
	if f == nil {
		cl, ok := r.val(env, cc.Value).(wClos)
		if !ok {
			r.stop("calls an unknown function")
		}
		return r.call(cl.f, args, cl.free)
	}
	r.c.sites[x] = true
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return r.call(f, args, r.val(env, mc).(wClos).free)
	}
	if f.Pkg != nil {
		switch name := f.Pkg.Pkg.Path() + "." + f.Name(); {
		case name == "fmt.Errorf" || name == "errors.New" || strings.HasSuffix(name, "pkg/errors.New"):
			return wErr{false}
		case strings.HasPrefix(name, "math/bits.Len"):
			if i, ok := args[0].(wInt); ok {
				w, _, _ := intWidth(f.Signature.Params().At(0).Type())
				bs := r.bits(i, w)
				// by groups of seven bits, as they are written
				for n := (w - 1) / 7 * 7; n >= 0; n -= 7 {
					top := n + 7
					if top > w {
						top = w
					}
					if r.any(bs[n:top]) {
						return wInt{iv: &[2]int64{int64(n + 1), int64(top)}, sgn: true}
					}
				}
				return wConst(0)
			}
		}
	}
	// messages inside the one looked at
	if p, ok := firstArg(args).(wPtr); ok && f.Signature.Recv() != nil && p.c != r.top {
		if _, ok := args[0].(wPtr); ok && pbMsgName(f.Signature.Recv().Type()) != "" {
			if v, ok := r.inner(f, p.c, args[1:]); ok {
				return v
			}
		}
	}
	if !r.w.isRepoFn(f) {
		r.stop("calls %s, which is not followed", shortName(f.String()))
	}
	return r.call(f, args, nil)
}

func firstArg(a []wval) wval {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

func pbMsgName(t types.Type) string {
	n, _ := pbMsg(t)
	return n
}

// inner is a step of a message inside the one looked at. By induction what it
// writes is its size long and says what it holds.
func (r *wireRun) inner(f *ssa.Function, c *wCell, args []wval) (wval, bool) {
	switch f.Name() {
	case "Size", "XXX_Size", "ProtoSize":
		if m, ok := c.v.(*wMsg); ok {
			l := r.symLine(m.sym)
			return wInt{lin: &l, sgn: true}, true
		}
	case "MarshalTo", "MarshalToSizedBuffer":
		m, ok := c.v.(*wMsg)
		d, ok2 := firstArg(args).(wSlice)
		if ok && ok2 && d.b != nil {
			n := r.symLine(m.sym)
			room := r.sliceLen(d)
			at := d.lo
			if !r.atLeast(room.plus(n, -1), 0) {
				r.bad("leaves less room than the message %s needs", m.name)
			}
			if f.Name() != "MarshalTo" {
				at = d.hi.plus(n, -1)
			}
			r.put(d.b, at, []wElem{{run: true, sym: m.sym, name: m.name}})
			return wTup{wInt{lin: &n, sgn: true}, wErr{true}}, true
		}
	case "Marshal":
		if m, ok := c.v.(*wMsg); ok {
			return wTup{r.sliceOf([]wElem{{run: true, sym: m.sym, name: m.name}}), wErr{true}}, true
		}
	case "Unmarshal":
		s, ok := firstArg(args).(wSlice)
		if !ok {
			return nil, false
		}
		in := r.content(s)
		if m, ok := c.v.(*wMsg); ok && m.done {
			m.in = append(m.in, in...)
			return wErr{true}, true
		}
		if _, ok := c.v.(*wStruct); ok {
			c.v = &wMsg{name: pbMsgName(f.Signature.Recv().Type()), in: in, done: true}
			return wErr{true}, true
		}
	case "Reset":
		return nil, false
	}
	return nil, false
}

func (r *wireRun) builtin(x *ssa.Call, name string, args []wval) wval {
	switch name {
	case "len", "cap":
		switch s := args[0].(type) {
		case wSlice:
			l := r.sliceLen(s)
			if name == "len" || s.b == nil {
				return wInt{lin: &l, sgn: true}
			}
			l = r.normLine(s.b.n.plus(s.lo, -1))
			return wInt{lin: &l, sgn: true}
		case wStr:
			l := r.newBuf(s.el).n
			return wInt{lin: &l, sgn: true}
		case *wList:
			return wConst(int64(len(s.c)))
		}
	case "copy":
		d, ok := args[0].(wSlice)
		var el []wElem
		switch s := args[1].(type) {
		case wSlice:
			el = r.content(s)
		case wStr:
			el = s.el
		default:
			ok = false
		}
		if ok {
			n := wc(0)
			for _, e := range el {
				n = n.plus(r.elemLen(e), 1)
			}
			n = r.normLine(n)
			if r.sign(n) == 0 {
				return wConst(0)
			}
			if d.b == nil || !r.atLeast(r.sliceLen(d).plus(n, -1), 0) {
				r.bad("copies into less room than it needs (%s of %s)", r.showLine(r.sliceLen(d)), r.showLine(n))
			}
			r.put(d.b, d.lo, el)
			return wInt{lin: &n, sgn: true}
		}
	case "append":
		if l, ok := args[0].(*wList); ok {
			out := &wList{append([]*wCell{}, l.c...), l.notNil}
			if m, ok := args[1].(*wList); ok {
				out.c = append(out.c, m.c...)
				out.notNil = out.notNil || len(m.c) > 0
				return out
			}
			// one pointer in an array
			if s, ok := args[1].(wPtr); ok {
				if m, ok := s.c.v.(*wList); ok {
					out.c = append(out.c, m.c...)
					out.notNil = true
					return out
				}
			}
		}
		if s, ok := args[0].(wSlice); ok {
			el := append([]wElem{}, r.content(s)...)
			switch t := args[1].(type) {
			case wSlice:
				el = append(el, r.content(t)...)
			case wStr:
				el = append(el, t.el...)
			default:
				r.stop("appends something unknown")
			}
			if len(el) == 0 && s.b == nil {
				return s
			}
			return r.sliceOf(el)
		}
	case "min", "max":
		if len(args) == 2 {
			a, b := r.lineOf(args[0]), r.lineOf(args[1])
			if s := r.sign(a.plus(b, -1)); s <= 0 == (name == "min") {
				return args[0]
			}
			return args[1]
		}
	}
	r.stop("%s of something unknown", name)
	return nil
}

// ---- definitions

var (
	wireMsgRe   = regexp.MustCompile(`(?s)message\s+(\w+)\s*\{(.*?)\}`)
	wireFieldRe = regexp.MustCompile(`(?m)^\s*(repeated\s+|optional\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*$`)
	wireNoteRe  = regexp.MustCompile(`//[^\n]*|(?s:/\*.*?\*/)`)
)

func camel(s string) string {
	out := ""
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			out += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return out
}

func wireDefs(c *Ctx) []*wireMsg {
	var pkg *types.Package
	var dir string
	for _, p := range c.w.pkgs {
		if p.PkgPath == modPath+"/pb" {
			pkg = p.Types
			if len(p.GoFiles) > 0 {
				dir = filepath.Dir(p.GoFiles[0])
			}
		}
	}
	if pkg == nil {
		c.fail("wire", "pb", "package", "-", "the package of the wire messages is not there")
		return nil
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.proto"))
	text := ""
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err == nil {
			text += string(b) + "\n"
		}
	}
	text = wireNoteRe.ReplaceAllString(text, "")
	var out []*wireMsg
	defs := wireMsgRe.FindAllStringSubmatch(text, -1)
	known := map[string]bool{}
	for _, d := range defs {
		known[d[1]] = true
	}
	for _, d := range defs {
		m := &wireMsg{name: d[1], unk: -1}
		bad := func(what, msg string) { c.fail("wire", m.name, what, "pb/"+m.name, msg) }
		obj := pkg.Scope().Lookup(camel(m.name))
		if obj == nil {
			bad("type", "the definition has a message "+m.name+" that the code does not have")
			continue
		}
		named, ok := obj.Type().(*types.Named)
		if !ok {
			continue
		}
		m.named = named
		m.st, ok = named.Underlying().(*types.Struct)
		if !ok {
			bad("type", "not a struct")
			continue
		}
		idx := map[string]int{}
		for i := 0; i < m.st.NumFields(); i++ {
			idx[m.st.Field(i).Name()] = i
			if m.st.Field(i).Name() == "XXX_unrecognized" {
				m.unk = i
			}
		}
		body := strings.ReplaceAll(d[2], ";", "\n")
		good := true
		nums := map[int]bool{}
		for _, line := range strings.Split(body, "\n") {
			line = strings.TrimSpace(line)
			if line == "" || strings.HasPrefix(line, "reserved") || strings.HasPrefix(line, "option ") {
				continue
			}
			g := wireFieldRe.FindStringSubmatch(line)
			if g == nil {
				bad("definition", "the definition "+strconv.Quote(line)+" is not understood")
				good = false
				continue
			}
			n, _ := strconv.Atoi(g[4])
			f := &wField{name: g[3], goName: camel(g[3]), kind: g[2], num: n, rep: strings.HasPrefix(g[1], "repeated")}
			if known[f.kind] {
				f.kind, f.msg = "message", f.kind
			}
			if nums[n] {
				bad("number "+g[4], "two fields have the number "+g[4])
				good = false
			}
			nums[n] = true
			i, ok := idx[f.goName]
			if !ok {
				bad("field "+f.name, "the field "+f.name+" of the definition is not in the code")
				good = false
				continue
			}
			f.idx = i
			if !wireTypeFits(f, m.st.Field(i).Type()) {
				bad("field "+f.name, fmt.Sprintf("the field %s is defined as %s and has the type %s", f.name, f.kind, m.st.Field(i).Type()))
				good = false
				continue
			}
			m.fields = append(m.fields, f)
		}
		ptr := types.NewPointer(named)
		find := func(name string) *ssa.Function {
			ms := c.w.prog.MethodSets.MethodSet(ptr)
			sel := ms.Lookup(pkg, name)
			if sel == nil {
				return nil
			}
			return c.w.prog.MethodValue(sel)
		}
		m.size, m.marshal, m.unmarshal = find("Size"), find("Marshal"), find("Unmarshal")
		if m.size == nil || m.marshal == nil || m.unmarshal == nil {
			bad("methods", m.name+" has no Size, Marshal or Unmarshal")
			good = false
		}
		if good {
			out = append(out, m)
		}
	}
	return out
}

var wireGo = map[string]string{"int32": "int32", "int64": "int64", "uint32": "uint32", "uint64": "uint64", "bool": "bool", "string": "string", "bytes": "[]byte"}

func wireTypeFits(f *wField, t types.Type) bool {
	if f.rep {
		s, ok := t.Underlying().(*types.Slice)
		if !ok || f.kind != "message" {
			return false
		}
		t = s.Elem()
	}
	if f.kind == "message" {
		return pbMsgName(t) == camel(f.msg)
	}
	want, ok := wireGo[f.kind]
	return ok && types.TypeString(t.Underlying(), nil) == want
}

func (f *wField) wire() int {
	switch f.kind {
	case "bytes", "string", "message":
		return 2
	}
	return 0
}

func (f *wField) bitsWidth() (int, bool) {
	switch f.kind {
	case "int32":
		return 32, true
	case "uint32":
		return 32, false
	case "int64":
		return 64, true
	case "uint64":
		return 64, false
	}
	return 1, false
}

// ---- checks

// outcomes runs do under every list of decisions.
func (m *wireMsg) outcomes(c *Ctx, name string, fn *ssa.Function, do func(r *wireRun)) {
	var plan []bool
	seen, failed := map[string]bool{}, 0
	for n := 0; ; n++ {
		if n > 60000 {
			c.fail("wire", name, "undecided", "-", name+": not decided: too many cases")
			return
		}
		r := &wireRun{c: c, w: c.w, m: m, plan: append([]bool{}, plan...)}
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case wDrop:
				case wStop:
					failed++
					if !seen[e.why+e.at] {
						seen[e.why+e.at] = true
						c.fail("wire", name, "undecided: "+e.why, e.at, name+": not decided: "+e.why)
					}
				case wBad:
					failed++
					if !seen[e.why+e.at] {
						seen[e.why+e.at] = true
						c.fail("wire", name, e.why, e.at, name+": "+e.why)
					}
				default:
					panic(e)
				}
			}()
			do(r)
		}()
		c.steps += r.steps
		if failed == 1 {
			m.wrong++
		}
		if len(seen) > 12 || failed > 100 {
			return
		}
		p := r.plan[:r.at]
		for len(p) > 0 && p[len(p)-1] {
			p = p[:len(p)-1]
		}
		if len(p) == 0 {
			return
		}
		p[len(p)-1] = true
		plan = p
	}
}

type wireSrc struct {
	f    *wField
	cell *wCell
	syms []int // symbols of the value, or of the elements
	nil  bool
}

// encode checks the bytes written for every message, and the size.
func (m *wireMsg) encode(c *Ctx) {
	name := "(*pb." + m.name + ").Marshal"
	c.obl("encoder", name)
	m.outcomes(c, name, m.marshal, func(r *wireRun) {
		top := r.zero(m.named).(*wStruct)
		r.top = &wCell{top}
		src := map[int]*wireSrc{}
		for _, f := range m.fields {
			s := &wireSrc{f: f, cell: top.f[f.idx]}
			src[f.num] = s
			one := func() *wCell {
				sym := r.newSym(f.goName, wireLenBits)
				s.syms = append(s.syms, sym)
				return &wCell{&wMsg{name: f.goName, sym: sym}}
			}
			switch {
			case f.rep:
				n := 0
				for n < 2 && r.decide() {
					n++
				}
				l := &wList{notNil: n > 0}
				for ; n > 0; n-- {
					l.c = append(l.c, &wCell{wPtr{one()}})
				}
				s.cell.v = l
			case f.kind == "message":
				if r.decide() {
					s.cell.v = wPtr{one()}
				} else {
					s.nil = true
				}
			case f.kind == "bytes" || f.kind == "string":
				sym := r.newSym(f.goName, wireLenBits)
				s.syms = []int{sym}
				el := []wElem{{run: true, sym: sym, name: f.goName}}
				if f.kind == "bytes" {
					s.cell.v = r.sliceOf(el)
				} else {
					s.cell.v = wStr{el}
				}
			default:
				w, sgn := f.bitsWidth()
				sym := r.newSym(f.goName, w)
				s.syms = []int{sym}
				if f.kind == "bool" {
					s.cell.v = wBool{r.symBits(sym, false)[0]}
				} else {
					s.cell.v = wInt{bits: r.symBits(sym, false)[:w], sgn: sgn}
				}
			}
		}
		unk := -1
		if m.unk >= 0 && r.decide() {
			unk = r.newSym("unknown fields", wireLenBits)
			top.f[m.unk].v = r.sliceOf([]wElem{{run: true, sym: unk, name: "unknown fields"}})
		}
		size := r.lineOf(r.call(m.size, []wval{wPtr{r.top}}, nil))
		res, ok := r.call(m.marshal, []wval{wPtr{r.top}}, nil).(wTup)
		if !ok || len(res) != 2 {
			r.stop("the results of Marshal are not known")
		}
		r.ins = nil
		if e, ok := res[1].(wErr); !ok || !e.nil {
			r.bad("a message is not encoded: %s", r.shape(src))
		}
		out, ok := res[0].(wSlice)
		if !ok {
			r.stop("the result of Marshal is not known")
		}
		if !r.same(size, r.sliceLen(out)) {
			r.bad("the size of a message is %s and %s bytes are written (%s)", r.showLine(size), r.showLine(r.sliceLen(out)), r.shape(src))
		}
		r.parse(src, unk, r.content(out))
	})
}

func (r *wireRun) shape(src map[int]*wireSrc) string {
	var nums []int
	for n := range src {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	var out []string
	for _, n := range nums {
		s := src[n]
		switch {
		case s.nil:
			out = append(out, s.f.name+" absent")
		case s.f.rep:
			out = append(out, fmt.Sprintf("%d %s", len(s.syms), s.f.name))
		default:
			out = append(out, s.f.name)
		}
	}
	return strings.Join(out, ", ")
}

// varint reads a number at the beginning of el.
func (r *wireRun) varint(el []wElem, what string) ([]bit, []wElem) {
	out := make([]bit, 0, 70)
	for n := 0; ; n++ {
		if len(el) == 0 || el[0].run || n == 10 {
			r.bad("%s is not written as a number of variable length", what)
		}
		b := r.normAll(el[0].bits)
		el = el[1:]
		out = append(out, b[:7]...)
		switch b[7] {
		case 0:
			for len(out) < 64 {
				out = append(out, 0)
			}
			for _, x := range out[64:] {
				if x != 0 {
					r.bad("%s is written with more than 64 bits", what)
				}
			}
			return out[:64], el
		case 1:
		default:
			r.bad("%s is not written as a number of variable length", what)
		}
	}
}

// parse reads what was written by the definition of the message.
func (r *wireRun) parse(src map[int]*wireSrc, unk int, el []wElem) {
	got := map[int]int{}
	for len(el) > 0 {
		if el[0].run {
			if el[0].sym != unk {
				r.bad("%s is written without its number", el[0].name)
			}
			unk = -2
			el = el[1:]
			continue
		}
		tb, rest := r.varint(el, "the number of a field")
		tag, ok := bitsConst(tb)
		if !ok {
			r.bad("the number of a field depends on its value")
		}
		el = rest
		s := src[int(tag>>3)]
		if s == nil {
			r.bad("a field with the number %d is written, which the definition does not have", tag>>3)
		}
		f := s.f
		if int(tag&7) != f.wire() {
			r.bad("%s is written with the wire type %d, the definition gives it %d", f.name, tag&7, f.wire())
		}
		k := got[f.num]
		got[f.num]++
		if s.nil || k >= len(s.syms) {
			r.bad("%s is written more often than it is there", f.name)
		}
		vb, rest := r.varint(el, f.name)
		el = rest
		sym := s.syms[k]
		if f.wire() == 0 {
			_, sgn := f.bitsWidth()
			if want := r.normAll(r.symBits(sym, sgn)); !sameBits(vb, want) {
				r.bad("%s is not written with its own value", f.name)
			}
			continue
		}
		var body []wElem
		if len(el) > 0 && el[0].run && el[0].sym == sym {
			body, el = el[:1], el[1:]
		}
		n := wc(0)
		for _, e := range body {
			n = n.plus(r.elemLen(e), 1)
		}
		want := r.symLine(sym)
		if !r.same(n, want) {
			r.bad("%s is not followed by its own bytes", f.name)
		}
		if !sameBits(vb, r.bits(wInt{lin: &want}, 64)) {
			r.bad("%s is written with another length than it has", f.name)
		}
	}
	for _, s := range src {
		if s.nil || got[s.f.num] == len(s.syms) {
			continue
		}
		if s.f.kind == "message" {
			r.bad("%s is there and not written", s.f.name)
		}
		for _, b := range r.normAll(r.symBits(s.syms[0], false)) {
			if b != 0 {
				r.bad("%s is not written although it has a value", s.f.name)
			}
		}
	}
}

// ---- decoder

type wirePart struct {
	f     *wField
	n     int // bytes of its number, or of its length
	empty bool
	unk   int // wire type of an unknown field
	num   int
}

func (p wirePart) String() string {
	switch {
	case p.f == nil:
		return fmt.Sprintf("unknown field %d of type %d", p.num, p.unk)
	case p.empty:
		return p.f.name + " (empty)"
	}
	return p.f.name
}

func (f *wField) variants() []wirePart {
	var out []wirePart
	add := func(ns ...int) {
		for _, n := range ns {
			out = append(out, wirePart{f: f, n: n})
		}
	}
	switch f.kind {
	case "bool":
		add(1)
	case "int32":
		add(1, 2, 3, 4, 5, 10)
	case "uint32":
		add(1, 2, 3, 4, 5)
	case "int64", "uint64":
		add(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
	default:
		add(1, 2, 3, 4, 5)
		out = append(out, wirePart{f: f, n: 1, empty: true})
	}
	return out
}

func tagElems(num, wt int) []wElem {
	v := uint64(num)<<3 | uint64(wt)
	var out []wElem
	for v >= 0x80 {
		out = append(out, wElem{bits: constBits(v&0x7f|0x80, 8)})
		v >>= 7
	}
	return append(out, wElem{bits: constBits(v, 8)})
}

// varElems writes the n groups of seven bits of v.
func varElems(v []bit, n int) []wElem {
	var out []wElem
	for k := 0; k < n; k++ {
		b := make([]bit, 8)
		for i := 0; i < 7 && 7*k+i < len(v); i++ {
			b[i] = v[7*k+i]
		}
		if k < n-1 {
			b[7] = 1
		}
		out = append(out, wElem{bits: b})
	}
	return out
}

func (m *wireMsg) decodeCase(c *Ctx, parts []wirePart) {
	if m.wrong > 8 {
		return // reported already
	}
	name := "(*pb." + m.name + ").Unmarshal"
	var show []string
	for _, p := range parts {
		show = append(show, p.String())
	}
	desc := "a message of " + strings.Join(show, ", ")
	if len(parts) == 0 {
		desc = "the empty message"
	}
	c.obl("decoder", name+": "+desc)
	m.outcomes(c, name, m.unmarshal, func(r *wireRun) {
		r.decoding = true
		var el []wElem
		ints := map[*wField][]bit{}
		runs := map[*wField][][]wElem{}
		for _, p := range parts {
			if p.f == nil {
				el = append(el, r.unknown(p)...)
				continue
			}
			f := p.f
			el = append(el, tagElems(f.num, f.wire())...)
			if f.wire() == 0 {
				w, sgn := f.bitsWidth()
				sym := r.newSym(f.goName, w)
				// the number fits in n bytes
				v := r.symBits(sym, sgn)
				if p.n*7 < 64 {
					for i := p.n * 7; i < w; i++ {
						r.asm[sym*64+i] = 0
					}
					if sgn && p.n < 10 {
						r.asm[sym*64+w-1] = 0
					}
				}
				el = append(el, varElems(r.normAll(v), p.n)...)
				ints[f] = v[:w]
				continue
			}
			if p.empty {
				el = append(el, wElem{bits: make([]bit, 8)})
				runs[f] = append(runs[f], nil)
				continue
			}
			sym := r.newSym(f.goName, wireLenBits)
			v := r.symBits(sym, false)
			for i := p.n * 7; i < wireLenBits; i++ {
				r.asm[sym*64+i] = 0
			}
			r.notZero(sym)
			e := wElem{run: true, sym: sym, name: f.name}
			el = append(el, varElems(r.normAll(v), p.n)...)
			el = append(el, e)
			runs[f] = append(runs[f], []wElem{e})
		}
		top := r.zero(m.named).(*wStruct)
		r.top = &wCell{top}
		res := r.call(m.unmarshal, []wval{wPtr{r.top}, r.sliceOf(el)}, nil)
		r.ins = nil
		if e, ok := res.(wErr); !ok || !e.nil {
			r.bad("%s is not accepted", desc)
		}
		for _, f := range m.fields {
			v := top.f[f.idx].v
			wrong := func() { r.bad("%s: %s is not what was sent", desc, f.name) }
			sameRun := func(got []wElem, want []wElem) {
				if len(got) != len(want) {
					wrong()
				}
				for i := range got {
					if !got[i].run || !want[i].run || got[i].sym != want[i].sym {
						wrong()
					}
				}
			}
			inner := func(v wval, want []wElem) {
				p, ok := v.(wPtr)
				if !ok {
					wrong()
				}
				switch s := p.c.v.(type) {
				case *wMsg:
					sameRun(s.in, want)
				case *wStruct:
					if len(want) > 0 {
						wrong()
					}
				default:
					wrong()
				}
			}
			switch {
			case f.rep:
				l, ok := v.(*wList)
				if !ok || len(l.c) != len(runs[f]) {
					wrong()
				}
				for i, w := range runs[f] {
					inner(l.c[i].v, w)
				}
			case f.kind == "message":
				if len(runs[f]) == 0 {
					if _, ok := v.(wNil); !ok {
						wrong()
					}
					break
				}
				inner(v, runs[f][0])
			case f.kind == "bytes" || f.kind == "string":
				var got []wElem
				switch s := v.(type) {
				case wSlice:
					got = r.content(s)
				case wStr:
					got = s.el
				default:
					wrong()
				}
				var want []wElem
				if len(runs[f]) > 0 {
					want = runs[f][0]
				}
				sameRun(got, want)
			case f.kind == "bool":
				b, ok := v.(wBool)
				want := bit(0)
				if ints[f] != nil {
					want = r.norm(ints[f][0])
				}
				if !ok || r.norm(b.b) != want {
					wrong()
				}
			default:
				i, ok := v.(wInt)
				w, _ := f.bitsWidth()
				want := make([]bit, w)
				if ints[f] != nil {
					want = r.normAll(ints[f])
				}
				if !ok || !sameBits(r.bits(i, w), want) {
					wrong()
				}
			}
		}
	})
}

func (r *wireRun) notZero(sym int) {
	var ids []int
	for i := 0; i < r.width[sym]; i++ {
		if r.asm[sym*64+i] < 0 {
			ids = append(ids, sym*64+i)
		}
	}
	r.facts = append(r.facts, ids)
}

// unknown is a field the definition does not have.
func (r *wireRun) unknown(p wirePart) []wElem {
	el := tagElems(p.num, p.unk)
	fixed := func(n int) {
		sym := r.newSym("unknown", 64)
		v := r.symBits(sym, false)
		for i := 0; i < n; i++ {
			el = append(el, wElem{bits: v[8*i : 8*i+8]})
		}
	}
	switch p.unk {
	case 0:
		sym := r.newSym("unknown", 64)
		el = append(el, varElems(r.symBits(sym, false), 1+p.num%10)...)
		if p.num%10 != 9 {
			for i := 7 * (1 + p.num%10); i < 64; i++ {
				r.asm[sym*64+i] = 0
			}
		}
	case 1:
		fixed(8)
	case 5:
		fixed(4)
	case 2:
		sym := r.newSym("unknown", wireLenBits)
		for i := 14; i < wireLenBits; i++ {
			r.asm[sym*64+i] = 0
		}
		r.notZero(sym)
		el = append(el, varElems(r.normAll(r.symBits(sym, false)), 2)...)
		el = append(el, wElem{run: true, sym: sym, name: "an unknown field"})
	case 3:
		el = append(el, r.unknown(wirePart{unk: 0, num: 1})...)
		el = append(el, tagElems(2, 3)...)
		el = append(el, r.unknown(wirePart{unk: 2, num: 2})...)
		el = append(el, tagElems(2, 4)...)
		el = append(el, tagElems(p.num, 4)...)
	}
	return el
}

func (m *wireMsg) decode(c *Ctx) {
	m.decodeCase(c, nil)
	var all []wirePart
	for _, f := range m.fields {
		vs := f.variants()
		for _, v := range vs {
			m.decodeCase(c, []wirePart{v})
		}
		p := vs[len(vs)/3]
		all = append(all, p)
		if f.rep {
			all = append(all, vs[1])
			m.decodeCase(c, []wirePart{p, vs[1], vs[len(vs)-1]})
		}
	}
	// any order
	perms(all, func(p []wirePart) { m.decodeCase(c, append([]wirePart{}, p...)) })
	// fields of later versions
	max := 0
	for _, f := range m.fields {
		if f.num > max {
			max = f.num
		}
	}
	for _, wt := range []int{0, 1, 2, 3, 5} {
		for _, num := range []int{max + 1, 16, 2049, 1<<29 - 1} {
			u := wirePart{unk: wt, num: num}
			m.decodeCase(c, []wirePart{u})
			for i := 0; i <= len(all); i++ {
				l := append([]wirePart{}, all[:i]...)
				l = append(append(l, u), all[i:]...)
				m.decodeCase(c, l)
			}
		}
	}
}

func perms(l []wirePart, do func([]wirePart)) {
	if len(l) > 4 {
		do(l)
		return
	}
	var rec func(k int)
	rec = func(k int) {
		if k == len(l) {
			// elements of a list stay in order
			do(l)
			return
		}
		for i := k; i < len(l); i++ {
			l[k], l[i] = l[i], l[k]
			rec(k + 1)
			l[k], l[i] = l[i], l[k]
		}
	}
	rec(0)
}

func checkWire(c *Ctx) {
	c.rule("every message: what Marshal writes, read by the message definition, is every field with its own number, wire type and value; Size is the number of bytes written; Unmarshal gives every field what was sent for it, in any order, and skips unknown fields")
	// the messages are independent of each other
	ms := wireDefs(c)
	part := make([]*Ctx, len(ms))
	var wg sync.WaitGroup
	for i, m := range ms {
		p := &Ctx{w: c.w, prop: c.prop, tier: c.tier, findings: map[string]*Finding{}, cut: map[string]bool{}, obls: map[string]bool{}, counts: map[string]int{}, funcs: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}, entries: map[string]bool{m.name: true}}
		part[i] = p
		wg.Add(1)
		go func(m *wireMsg) {
			defer wg.Done()
			m.encode(p)
			m.decode(p)
		}(m)
	}
	wg.Wait()
	for _, p := range part {
		c.steps += p.steps
		for k, v := range p.findings {
			c.findings[k] = v
		}
		for k := range p.obls {
			c.obls[k] = true
		}
		for k, v := range p.counts {
			c.counts[k] += v
		}
		for k := range p.funcs {
			c.funcs[k] = true
		}
		for k := range p.sites {
			c.sites[k] = true
		}
		for k := range p.entries {
			c.entries[k] = true
		}
	}
	c.need("encoder", 10)
	c.need("decoder", 300)
}
