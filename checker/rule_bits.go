package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P15: fixed-width encodings. Every encoder and decoder is evaluated in an
// abstract domain in which each bit of each value is 0, 1, one bit of the value
// encoded, its complement, or unknown. What an encoder writes is then compared
// with the bit pattern that keeps (or reverses) order, and what the decoder makes
// of those bits with the value encoded.

func init() { register("P15", checkBits) }

// bit: 0, 1, 2+2i (bit i of the input), 3+2i (its complement), -1 unknown
type bit int16

const bTop bit = -1

func bitNot(b bit) bit {
	if b < 0 {
		return b
	}
	return b ^ 1
}

func bitAnd(a, b bit) bit {
	switch {
	case a == 0 || b == 0:
		return 0
	case a == 1:
		return b
	case b == 1 || a == b && a >= 0:
		return a
	case a >= 0 && a == bitNot(b):
		return 0
	}
	return bTop
}

func bitOr(a, b bit) bit { return bitNot(bitAnd(bitNot(a), bitNot(b))) }

func bitXor(a, b bit) bit {
	switch {
	case a == 0:
		return b
	case b == 0:
		return a
	case a == 1:
		return bitNot(b)
	case b == 1:
		return bitNot(a)
	case a >= 0 && a == b:
		return 0
	case a >= 0 && a == bitNot(b):
		return 1
	}
	return bTop
}

func bitMaj(a, b, c bit) bit {
	switch {
	case a >= 0 && (a == b || a == c):
		return a
	case b >= 0 && b == c:
		return b
	case a >= 0 && a == bitNot(b):
		return c
	case a >= 0 && a == bitNot(c):
		return b
	case b >= 0 && b == bitNot(c):
		return a
	}
	return bTop
}

// abstract values of the interpreter
type (
	bval  interface{}
	bInt  struct{ bits []bit } // least significant first
	bFlt  struct{ bits []bit }
	bBool struct{ b bit }
	bLen  struct{ min int } // a length of at least min
	bNil  struct{}
	bErr  struct{ ok bit } // an error: 1 = nil, 0 = not nil
	bTup  []bval
	bUnk  struct{}
	bCell struct{ v bval } // a variable
	bArr  struct{ el []bval }
	bRef  struct { // the address of an array element
		a *bArr
		i int
	}
	bRun   struct{ name string } // a run of bytes of unknown length
	bSlice struct {
		a      *bArr // nil: the nil slice
		lo, hi int   // positions of elements; a run counts as one
	}
	bOrder struct{ big bool } // a byte order
)

type bitStop struct{ why string }
type bitPanic struct{ why string }

// bitRun is one evaluation under a fixed list of decisions.
type bitRun struct {
	c     *Ctx
	w     *World
	plan  []bool
	at    int
	asm   map[int]bit // what the decisions say about bits of the input
	steps int
	depth int
}

func (r *bitRun) stop(why string) { panic(bitStop{why}) }

func (r *bitRun) decide() bool {
	if r.at == len(r.plan) {
		r.plan = append(r.plan, false)
	}
	r.at++
	return r.plan[r.at-1]
}

// norm applies what was decided about input bits.
func (r *bitRun) norm(b bit) bit {
	if b < 2 {
		return b
	}
	if v, ok := r.asm[int(b-2)/2]; ok {
		return v ^ (b & 1)
	}
	return b
}

func (r *bitRun) normAll(bs []bit) []bit {
	out := make([]bit, len(bs))
	for i, b := range bs {
		out[i] = r.norm(b)
	}
	return out
}

// truth decides a condition.
func (r *bitRun) truth(b bit) bool {
	b = r.norm(b)
	switch b {
	case 0:
		return false
	case 1:
		return true
	}
	d := r.decide()
	if b >= 2 {
		v := bit(0)
		if d {
			v = 1
		}
		r.asm[int(b-2)/2] = v ^ (b & 1)
	}
	return d
}

func intWidth(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func constBits(v uint64, w int) []bit {
	out := make([]bit, w)
	for i := range out {
		out[i] = bit(v >> uint(i) & 1)
	}
	return out
}

func bitsConst(bs []bit) (uint64, bool) {
	var v uint64
	for i, b := range bs {
		if b != 0 && b != 1 {
			return 0, false
		}
		v |= uint64(b) << uint(i)
	}
	return v, true
}

func allOf(w int, b bit) []bit {
	out := make([]bit, w)
	for i := range out {
		out[i] = b
	}
	return out
}

func inputBits(w int) []bit {
	out := make([]bit, w)
	for i := range out {
		out[i] = bit(2 + 2*i)
	}
	return out
}

func notBits(a []bit) []bit {
	out := make([]bit, len(a))
	for i := range a {
		out[i] = bitNot(a[i])
	}
	return out
}

func addBits(a, b []bit, carry bit) []bit {
	out := make([]bit, len(a))
	for i := range a {
		out[i] = bitXor(bitXor(a[i], b[i]), carry)
		carry = bitMaj(a[i], b[i], carry)
	}
	return out
}

func (r *bitRun) zero(t types.Type) bval {
	if w, _, ok := intWidth(t); ok {
		return bInt{constBits(0, w)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsFloat != 0:
			return bFlt{constBits(0, 64)}
		case u.Info()&types.IsBoolean != 0:
			return bBool{0}
		}
	case *types.Array:
		a := &bArr{}
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			a.el = append(a.el, r.zero(u.Elem()))
		}
		return a
	case *types.Slice:
		return bSlice{}
	case *types.Interface:
		if isErrorType(t) {
			return bErr{1}
		}
		return bNil{}
	case *types.Struct:
		return bUnk{}
	}
	return bNil{}
}

func (r *bitRun) constant(c *ssa.Const) bval {
	if c.Value == nil {
		return r.zero(c.Type())
	}
	if w, _, ok := intWidth(c.Type()); ok {
		v := constant.ToInt(c.Value)
		if u, exact := constant.Uint64Val(v); exact {
			return bInt{constBits(u, w)}
		}
		if i, exact := constant.Int64Val(v); exact {
			return bInt{constBits(uint64(i), w)}
		}
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && b.Kind() != types.Float32 {
		f, _ := constant.Float64Val(c.Value)
		return bFlt{constBits(math.Float64bits(f), 64)}
	}
	if c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			return bBool{1}
		}
		return bBool{0}
	}
	return bUnk{}
}

// call evaluates a function of the repository.
func (r *bitRun) call(f *ssa.Function, args []bval, free []bval) bval {
	if f.Blocks == nil {
		r.stop("calls " + shortName(f.String()) + ", whose effect on bits is not known")
	}
	if r.depth++; r.depth > 30 {
		r.stop("recursion too deep")
	}
	defer func() { r.depth-- }()
	r.c.funcs[f] = true
	env := map[ssa.Value]bval{}
	for i, p := range f.Params {
		env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		if i < len(free) {
			env[p] = free[i]
		}
	}
	var prev *ssa.BasicBlock
	b := f.Blocks[0]
	for {
		next := (*ssa.BasicBlock)(nil)
		phis := map[ssa.Value]bval{}
		for _, ins := range b.Instrs {
			if r.steps++; r.steps > 200000 {
				r.stop("does not end within the step budget")
			}
			if p, ok := ins.(*ssa.Phi); ok {
				for i, q := range b.Preds {
					if q == prev {
						phis[p] = r.val(env, p.Edges[i])
					}
				}
				continue
			}
			for k, v := range phis {
				env[k] = v
			}
			phis = map[ssa.Value]bval{}
			switch x := ins.(type) {
			case *ssa.If:
				c, ok := r.val(env, x.Cond).(bBool)
				if !ok {
					c = bBool{bTop}
				}
				if r.truth(c.b) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(x.Results) == 1 {
					return r.val(env, x.Results[0])
				}
				var t bTup
				for _, v := range x.Results {
					t = append(t, r.val(env, v))
				}
				return t
			case *ssa.Panic:
				panic(bitPanic{"panics"})
			case *ssa.Store:
				r.store(r.val(env, x.Addr), r.val(env, x.Val))
			case *ssa.RunDefers, *ssa.DebugRef:
			case ssa.Value:
				env[x] = r.eval(env, x)
			default:
				r.stop(fmt.Sprintf("contains an instruction not followed (%T)", ins))
			}
		}
		if next == nil {
			r.stop("ends without returning")
		}
		prev, b = b, next
	}
}

func (r *bitRun) val(env map[ssa.Value]bval, v ssa.Value) bval {
	switch x := v.(type) {
	case *ssa.Const:
		return r.constant(x)
	case *ssa.Global:
		if isErrorType(deref(x.Type())) {
			return &bCell{bErr{0}}
		}
		if n, ok := deref(x.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/binary" {
			return &bCell{bOrder{x.Name() == "BigEndian"}}
		}
		return bUnk{}
	case *ssa.Function:
		return x
	}
	if t, ok := env[v]; ok {
		return t
	}
	return bUnk{}
}

func (r *bitRun) store(addr, v bval) {
	switch a := addr.(type) {
	case *bCell:
		if arr, ok := v.(*bArr); ok {
			v = &bArr{append([]bval{}, arr.el...)}
		}
		a.v = v
	case bRef:
		a.a.el[a.i] = v
	default:
		r.stop("stores to a place not followed")
	}
}

func (r *bitRun) konst(v bval) (int, bool) {
	i, ok := v.(bInt)
	if !ok {
		return 0, false
	}
	bs := r.normAll(i.bits)
	u, ok := bitsConst(bs)
	if !ok {
		return 0, false
	}
	if len(bs) < 64 {
		return int(u), true
	}
	return int(int64(u)), true
}

// index finds the element at a position of a slice or array.
func (r *bitRun) index(a *bArr, lo, hi, i int) int {
	if i < 0 {
		panic(bitPanic{"index out of range"})
	}
	for k := lo; k < hi && k <= lo+i; k++ {
		if _, run := a.el[k].(bRun); run {
			r.stop("indexes bytes behind a part of unknown length")
		}
	}
	if lo+i >= hi {
		panic(bitPanic{"index out of range"})
	}
	return lo + i
}

func (r *bitRun) length(s bSlice) (int, bool) {
	if s.a == nil {
		return 0, true
	}
	n, known := 0, true
	for _, e := range s.a.el[s.lo:s.hi] {
		if _, run := e.(bRun); run {
			known = false
		} else {
			n++
		}
	}
	return n, known
}

func (r *bitRun) eval(env map[ssa.Value]bval, v ssa.Value) bval {
	switch x := v.(type) {
	case *ssa.Alloc:
		z := r.zero(deref(x.Type()))
		return &bCell{z}
	case *ssa.UnOp:
		a := r.val(env, x.X)
		switch x.Op {
		case token.MUL:
			switch p := a.(type) {
			case *bCell:
				if arr, ok := p.v.(*bArr); ok {
					return &bArr{append([]bval{}, arr.el...)}
				}
				return p.v
			case bRef:
				return p.a.el[p.i]
			}
			return bUnk{}
		case token.XOR:
			if i, ok := a.(bInt); ok {
				return bInt{notBits(i.bits)}
			}
		case token.SUB:
			switch i := a.(type) {
			case bInt:
				return bInt{addBits(constBits(0, len(i.bits)), notBits(i.bits), 1)}
			case bFlt:
				out := append([]bit{}, i.bits...)
				out[63] = bitNot(out[63])
				return bFlt{out}
			}
		case token.NOT:
			if b, ok := a.(bBool); ok {
				return bBool{bitNot(b.b)}
			}
		}
		return bUnk{}
	case *ssa.BinOp:
		return r.binop(x, r.val(env, x.X), r.val(env, x.Y))
	case *ssa.Convert:
		a := r.val(env, x.X)
		if i, ok := a.(bInt); ok {
			w, _, okW := intWidth(x.Type())
			_, sgn, _ := intWidth(x.X.Type())
			if okW {
				out := make([]bit, w)
				for k := range out {
					switch {
					case k < len(i.bits):
						out[k] = i.bits[k]
					case sgn:
						out[k] = i.bits[len(i.bits)-1]
					}
				}
				return bInt{out}
			}
		}
		if l, ok := a.(bLen); ok {
			return l
		}
		if f, ok := a.(bFlt); ok && types.Identical(x.Type().Underlying(), x.X.Type().Underlying()) {
			return f
		}
		return r.unknown(x.Type())
	case *ssa.ChangeType:
		return r.val(env, x.X)
	case *ssa.ChangeInterface, *ssa.MakeInterface:
		if isErrorType(v.Type()) {
			if c, ok := v.(*ssa.ChangeInterface); ok {
				return r.val(env, c.X)
			}
			return bErr{0}
		}
		return bUnk{}
	case *ssa.Extract:
		if t, ok := r.val(env, x.Tuple).(bTup); ok && x.Index < len(t) {
			return t[x.Index]
		}
		return bUnk{}
	case *ssa.MakeSlice:
		n, ok := r.konst(r.val(env, x.Len))
		if !ok || n < 0 || n > 4096 {
			r.stop("makes a slice of unknown length")
		}
		a := &bArr{}
		for i := 0; i < n; i++ {
			a.el = append(a.el, r.zero(x.Type().Underlying().(*types.Slice).Elem()))
		}
		return bSlice{a, 0, n}
	case *ssa.IndexAddr:
		i, ok := r.konst(r.val(env, x.Index))
		if !ok {
			r.stop("index not known")
		}
		switch b := r.val(env, x.X).(type) {
		case *bCell:
			if a, ok := b.v.(*bArr); ok {
				return bRef{a, r.index(a, 0, len(a.el), i)}
			}
		case bSlice:
			if b.a == nil {
				panic(bitPanic{"index out of range"})
			}
			return bRef{b.a, r.index(b.a, b.lo, b.hi, i)}
		}
		r.stop("indexes something not followed")
	case *ssa.Index:
		if a, ok := r.val(env, x.X).(*bArr); ok {
			if i, ok := r.konst(r.val(env, x.Index)); ok {
				return a.el[r.index(a, 0, len(a.el), i)]
			}
		}
		return bUnk{}
	case *ssa.Slice:
		return r.slice(env, x)
	case *ssa.SliceToArrayPointer:
		s, ok := r.val(env, x.X).(bSlice)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if ok && s.a != nil {
			a := &bArr{}
			for i := 0; i < n; i++ {
				a.el = append(a.el, s.a.el[r.index(s.a, s.lo, s.hi, i)])
			}
			return &bCell{a}
		}
		r.stop("converts to an array something not followed")
	case *ssa.MakeClosure:
		var free []bval
		for _, b := range x.Bindings {
			free = append(free, r.val(env, b))
		}
		return bTup{x.Fn.(*ssa.Function), free}
	case *ssa.Call:
		return r.callInstr(env, x)
	}
	return r.unknown(v.Type())
}

func (r *bitRun) unknown(t types.Type) bval {
	if w, _, ok := intWidth(t); ok {
		return bInt{allOf(w, bTop)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return bBool{bTop}
		case b.Info()&types.IsFloat != 0:
			return bFlt{allOf(64, bTop)}
		}
	}
	if isErrorType(t) {
		return bErr{bTop}
	}
	return bUnk{}
}

func (r *bitRun) slice(env map[ssa.Value]bval, x *ssa.Slice) bval {
	var a *bArr
	lo, hi := 0, 0
	switch b := r.val(env, x.X).(type) {
	case *bCell:
		arr, ok := b.v.(*bArr)
		if !ok {
			r.stop("slices something not followed")
		}
		a, hi = arr, len(arr.el)
	case bSlice:
		if b.a == nil {
			a = &bArr{}
		} else {
			a, lo, hi = b.a, b.lo, b.hi
		}
	default:
		r.stop("slices something not followed")
	}
	pos := func(v ssa.Value, dflt int) int {
		if v == nil {
			return dflt
		}
		n, ok := r.konst(r.val(env, v))
		if !ok {
			if l, isL := r.val(env, v).(bLen); isL && l.min < 0 {
				return hi // its own length
			}
			r.stop("slice bound not known")
		}
		if n < 0 {
			panic(bitPanic{"slice bounds out of range"})
		}
		for k := lo; k < lo+n; k++ {
			if k >= hi {
				panic(bitPanic{"slice bounds out of range"})
			}
			if _, run := a.el[k].(bRun); run {
				r.stop("slices bytes behind a part of unknown length")
			}
		}
		return lo + n
	}
	h := pos(x.High, hi)
	l := pos(x.Low, lo)
	if l > h {
		panic(bitPanic{"slice bounds out of range"})
	}
	return bSlice{a, l, h}
}

func (r *bitRun) cond(b bool) bval {
	if b {
		return bBool{1}
	}
	return bBool{0}
}

func (r *bitRun) binop(x *ssa.BinOp, a, b bval) bval {
	op := x.Op
	if s, ok := a.(bSlice); ok {
		if t, ok := b.(bSlice); ok && (op == token.EQL || op == token.NEQ) {
			if s.a != nil && t.a != nil {
				return bBool{bTop}
			}
			// nil compared with something that was filled
			v := s.a == nil && t.a == nil
			return r.cond(v == (op == token.EQL))
		}
	}
	if e, ok := a.(bErr); ok && (op == token.EQL || op == token.NEQ) {
		f, ok := b.(bErr)
		if !ok {
			return bBool{bTop}
		}
		t := bTop
		switch {
		case f.ok == 1:
			t = e.ok
		case e.ok == 1:
			t = f.ok
		}
		if op == token.NEQ {
			t = bitNot(t)
		}
		return bBool{t}
	}
	if p, ok := a.(bBool); ok {
		if q, ok := b.(bBool); ok {
			switch op {
			case token.EQL:
				return bBool{bitNot(bitXor(r.norm(p.b), r.norm(q.b)))}
			case token.NEQ:
				return bBool{bitXor(r.norm(p.b), r.norm(q.b))}
			}
		}
	}
	if f, ok := a.(bFlt); ok {
		if g, ok := b.(bFlt); ok {
			return r.fltOp(op, f, g)
		}
	}
	if l, ok := a.(bLen); ok {
		if n, ok := r.konst(b); ok {
			return r.lenCmp(op, l, n)
		}
	}
	if l, ok := b.(bLen); ok {
		if n, ok := r.konst(a); ok {
			flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			if f, ok := flip[op]; ok {
				op = f
			}
			return r.lenCmp(op, l, n)
		}
	}
	i, okA := a.(bInt)
	j, okB := b.(bInt)
	if !okA || !okB {
		return r.unknown(x.Type())
	}
	p, q := r.normAll(i.bits), r.normAll(j.bits)
	if op == token.SHL || op == token.SHR {
		n, ok := bitsConst(q)
		if !ok {
			return r.unknown(x.Type())
		}
		_, sgn, _ := intWidth(x.X.Type())
		fill := bit(0)
		if sgn && op == token.SHR {
			fill = p[len(p)-1]
		}
		out := make([]bit, len(p))
		for k := range out {
			var src int64
			if op == token.SHL {
				src = int64(k) - int64(min64(n, 1000))
			} else {
				src = int64(k) + int64(min64(n, 1000))
			}
			switch {
			case src >= 0 && src < int64(len(p)):
				out[k] = p[src]
			case op == token.SHR:
				out[k] = fill
			}
		}
		return bInt{out}
	}
	if len(p) != len(q) {
		return r.unknown(x.Type())
	}
	each := func(f func(a, b bit) bit) bval {
		out := make([]bit, len(p))
		for k := range p {
			out[k] = f(p[k], q[k])
		}
		return bInt{out}
	}
	_, sgn, _ := intWidth(x.X.Type())
	switch op {
	case token.AND:
		return each(bitAnd)
	case token.OR:
		return each(bitOr)
	case token.XOR:
		return each(bitXor)
	case token.AND_NOT:
		return each(func(a, b bit) bit { return bitAnd(a, bitNot(b)) })
	case token.ADD:
		return bInt{addBits(p, q, 0)}
	case token.SUB:
		return bInt{addBits(p, notBits(q), 1)}
	case token.MUL, token.QUO, token.REM:
		u, ok1 := bitsConst(p)
		v, ok2 := bitsConst(q)
		if op == token.MUL && ok1 != ok2 {
			if ok1 {
				p, v = q, u
			}
			if v&(v-1) == 0 { // zero or a power of two
				out := make([]bit, len(p))
				for k := range out {
					for j := 0; j <= k; j++ {
						if v == 1<<uint(k-j) {
							out[k] = p[j]
						}
					}
				}
				return bInt{out}
			}
		}
		if !ok1 || !ok2 || op != token.MUL && v == 0 {
			return r.unknown(x.Type())
		}
		var z uint64
		switch {
		case op == token.MUL:
			z = u * v
		case sgn && len(p) == 64 && op == token.QUO:
			z = uint64(int64(u) / int64(v))
		case sgn && len(p) == 64:
			z = uint64(int64(u) % int64(v))
		case sgn:
			return r.unknown(x.Type())
		case op == token.QUO:
			z = u / v
		default:
			z = u % v
		}
		return bInt{constBits(z, len(p))}
	case token.EQL, token.NEQ:
		t := eqBits(p, q)
		if op == token.NEQ {
			t = bitNot(t)
		}
		return bBool{t}
	case token.LSS:
		return bBool{lessBits(p, q, sgn)}
	case token.GTR:
		return bBool{lessBits(q, p, sgn)}
	case token.GEQ:
		return bBool{bitNot(lessBits(p, q, sgn))}
	case token.LEQ:
		return bBool{bitNot(lessBits(q, p, sgn))}
	}
	return r.unknown(x.Type())
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func eqBits(p, q []bit) bit {
	open := bit(1)
	for k := range p {
		e := bitNot(bitXor(p[k], q[k]))
		if e == 0 {
			return 0
		}
		open = bitAnd(open, e)
	}
	return open
}

// lessBits: p < q, decided from the most significant bit on.
func lessBits(p, q []bit, sgn bool) bit {
	if sgn {
		p, q = append([]bit{}, p...), append([]bit{}, q...)
		n := len(p) - 1
		p[n], q[n] = bitNot(p[n]), bitNot(q[n])
	}
	// less = ¬p&q | (p==q)&rest, from the low end up
	l := bit(0)
	for k := range p {
		gt, lt := bitAnd(p[k], bitNot(q[k])), bitAnd(bitNot(p[k]), q[k])
		switch {
		case lt == 1:
			l = 1
		case gt == 1:
			l = 0
		case p[k] >= 0 && p[k] == q[k]:
		default:
			// lt | ¬gt & l
			l = bitOr(lt, bitAnd(bitNot(gt), l))
		}
	}
	return l
}

func (r *bitRun) lenCmp(op token.Token, l bLen, n int) bval {
	m := l.min
	if m < 0 {
		m = -m - 1
	}
	switch op {
	case token.LSS:
		if m >= n {
			return bBool{0}
		}
	case token.GEQ:
		if m >= n {
			return bBool{1}
		}
	case token.GTR:
		if m > n {
			return bBool{1}
		}
	case token.LEQ:
		if m > n {
			return bBool{0}
		}
	case token.EQL:
		if m > n {
			return bBool{0}
		}
	case token.NEQ:
		if m > n {
			return bBool{1}
		}
	case token.ADD, token.SUB:
		return bInt{allOf(64, bTop)}
	}
	return bBool{bTop}
}

// fltOp: comparisons of the value with zero; the value is not NaN.
func (r *bitRun) fltOp(op token.Token, f, g bFlt) bval {
	p, q := r.normAll(f.bits), r.normAll(g.bits)
	zero := func(b []bit) bool {
		for _, x := range b[:63] {
			if x != 0 {
				return false
			}
		}
		return true
	}
	if zero(p) && !zero(q) {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		o, ok := flip[op]
		if !ok {
			return bFlt{allOf(64, bTop)}
		}
		p, q, op = q, p, o
	}
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
	default:
		return bFlt{allOf(64, bTop)}
	}
	if !zero(q) {
		return bBool{bTop}
	}
	// is the value zero?
	isZero := bit(1)
	var lits []bit
	for _, b := range p[:63] {
		if b == 1 {
			isZero = 0
			break
		}
		if b < 0 {
			isZero = bTop
		} else if b >= 2 {
			lits = append(lits, b)
			if isZero == 1 {
				isZero = 2 // depends on the input
			}
		}
	}
	neg := r.truth(p[63])
	needZero := neg == (op == token.GEQ || op == token.LSS) || op == token.EQL || op == token.NEQ
	z := false
	if needZero {
		switch isZero {
		case 0, 1:
			z = isZero == 1
		default:
			if z = r.decide(); z && isZero == 2 {
				for _, b := range lits {
					r.asm[int(b-2)/2] = b & 1
				}
			}
		}
	}
	switch op {
	case token.GEQ:
		return r.cond(!neg || z)
	case token.LSS:
		return r.cond(neg && !z)
	case token.GTR:
		return r.cond(!neg && !z)
	case token.LEQ:
		return r.cond(neg || z)
	case token.EQL:
		return r.cond(z)
	}
	return r.cond(!z)
}

func (r *bitRun) bytesAt(s bSlice, n int) [][]bit {
	var out [][]bit
	for i := 0; i < n; i++ {
		if s.a == nil {
			panic(bitPanic{"index out of range"})
		}
		b, ok := s.a.el[r.index(s.a, s.lo, s.hi, i)].(bInt)
		if !ok {
			b = bInt{allOf(8, bTop)}
		}
		out = append(out, b.bits)
	}
	return out
}

func (r *bitRun) callInstr(env map[ssa.Value]bval, x *ssa.Call) bval {
	var args []bval
	for _, a := range x.Call.Args {
		args = append(args, r.val(env, a))
	}
	r.c.sites[x] = true
	switch f := x.Call.Value.(type) {
	case *ssa.Builtin:
		return r.builtin(x, f.Name(), args)
	case *ssa.MakeClosure:
		t := r.val(env, f).(bTup)
		return r.call(t[0].(*ssa.Function), args, t[1].([]bval))
	}
	f := x.Call.StaticCallee()
	if f == nil {
		if t, ok := r.val(env, x.Call.Value).(bTup); ok && len(t) == 2 && !x.Call.IsInvoke() {
			if fn, ok := t[0].(*ssa.Function); ok {
				return r.call(fn, args, t[1].([]bval))
			}
		}
		if fn, ok := r.val(env, x.Call.Value).(*ssa.Function); ok && !x.Call.IsInvoke() {
			return r.call(fn, args, nil)
		}
		if x.Call.IsInvoke() {
			if o, ok := r.val(env, x.Call.Value).(bOrder); ok {
				return r.order(x, o, x.Call.Method.Name(), args)
			}
		}
		if isErrorType(x.Type()) {
			return bErr{bTop}
		}
		r.stop("calls a function that is not known")
	}
	if r.w.isRepoFn(f) {
		return r.call(f, args, nil)
	}
	n := shortName(f.String())
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/binary" && f.Signature.Recv() != nil {
		return r.order(x, bOrder{strings.Contains(n, "bigEndian")}, f.Name(), args[1:])
	}
	switch n {
	case "math.Float64bits":
		if v, ok := args[0].(bFlt); ok {
			return bInt{v.bits}
		}
	case "math.Float64frombits":
		if v, ok := args[0].(bInt); ok {
			return bFlt{v.bits}
		}
	case "math.Signbit":
		if v, ok := args[0].(bFlt); ok {
			return bBool{r.norm(v.bits[63])}
		}
	case "errors.New", "fmt.Errorf":
		return bErr{0}
	case "math/bits.ReverseBytes64":
		if v, ok := args[0].(bInt); ok {
			out := make([]bit, 64)
			for i := range out {
				out[i] = v.bits[(7-i/8)*8+i%8]
			}
			return bInt{out}
		}
	}
	if f.Blocks != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "math/bits" {
		return r.call(f, args, nil)
	}
	if sig := x.Call.Signature(); sig.Results().Len() == 1 {
		if _, _, ok := intWidth(sig.Results().At(0).Type()); ok {
			return r.unknown(sig.Results().At(0).Type())
		}
	}
	r.stop("calls " + n + ", whose effect on bits is not known")
	return nil
}

// order: methods of binary.BigEndian and binary.LittleEndian.
func (r *bitRun) order(x *ssa.Call, o bOrder, name string, args []bval) bval {
	width := map[string]int{"16": 2, "32": 4, "64": 8}[name[max0(len(name)-2):]]
	at := func(i int) int { // the bits of byte i
		if o.big {
			return (width - 1 - i) * 8
		}
		return i * 8
	}
	switch {
	case width > 0 && strings.HasPrefix(name, "PutUint"):
		s, ok1 := args[0].(bSlice)
		v, ok2 := args[1].(bInt)
		if !ok1 || !ok2 {
			break
		}
		if s.a == nil {
			panic(bitPanic{"index out of range"})
		}
		r.index(s.a, s.lo, s.hi, width-1)
		for i := 0; i < width; i++ {
			s.a.el[s.lo+i] = bInt{append([]bit{}, v.bits[at(i):at(i)+8]...)}
		}
		return bNil{}
	case width > 0 && strings.HasPrefix(name, "Uint"):
		s, ok := args[0].(bSlice)
		if !ok {
			break
		}
		out := make([]bit, width*8)
		for i, b := range r.bytesAt(s, width) {
			copy(out[at(i):at(i)+8], b)
		}
		return bInt{out}
	case width > 0 && strings.HasPrefix(name, "AppendUint"):
		v, ok := args[1].(bInt)
		if !ok {
			break
		}
		var el []bval
		for i := 0; i < width; i++ {
			el = append(el, bInt{append([]bit{}, v.bits[at(i):at(i)+8]...)})
		}
		return r.appendTo(args[0], el)
	}
	r.stop("uses the byte order in a way not followed")
	return nil
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func (r *bitRun) appendTo(s bval, el []bval) bval {
	t, ok := s.(bSlice)
	if !ok {
		r.stop("appends to something not followed")
	}
	a := &bArr{}
	if t.a != nil {
		a.el = append(a.el, t.a.el[t.lo:t.hi]...)
	}
	a.el = append(a.el, el...)
	return bSlice{a, 0, len(a.el)}
}

func (r *bitRun) builtin(x *ssa.Call, name string, args []bval) bval {
	switch name {
	case "len":
		switch s := args[0].(type) {
		case bSlice:
			n, known := r.length(s)
			if known {
				return bInt{constBits(uint64(n), 64)}
			}
			return bLen{-n - 1}
		case *bArr:
			return bInt{constBits(uint64(len(s.el)), 64)}
		}
	case "cap":
		return bInt{allOf(64, bTop)}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		if e, ok := args[1].(bSlice); ok {
			if e.a == nil {
				return args[0]
			}
			return r.appendTo(args[0], e.a.el[e.lo:e.hi])
		}
	case "copy":
		d, ok1 := args[0].(bSlice)
		s, ok2 := args[1].(bSlice)
		if ok1 && ok2 && d.a != nil && s.a != nil {
			m, k1 := r.length(d)
			n, k2 := r.length(s)
			if k1 && (k2 || n >= m) {
				if !k2 || n > m {
					n = m
				}
				tmp := append([]bval{}, s.a.el[s.lo:s.lo+n]...)
				for i, e := range tmp {
					if _, run := e.(bRun); run {
						r.stop("copies bytes behind a part of unknown length")
					}
					d.a.el[d.lo+i] = e
				}
				return bInt{constBits(uint64(n), 64)}
			}
		}
	case "min", "max":
		return r.unknown(x.Type())
	}
	r.stop("uses " + name + " in a way not followed")
	return nil
}

// outcomes evaluates f under every list of decisions.
func (c *Ctx) bitOutcomes(pre map[int]bit, name string, do func(r *bitRun)) {
	var plan []bool
	for n := 0; ; n++ {
		if n > 4096 {
			c.fail("bits", name, "undecided", "-", name+": not decided: too many cases")
			return
		}
		r := &bitRun{c: c, w: c.w, plan: append([]bool{}, plan...), asm: map[int]bit{}}
		for k, v := range pre {
			r.asm[k] = v
		}
		do(r)
		c.steps += r.steps
		// the next list of decisions
		p := r.plan[:r.at]
		for len(p) > 0 && p[len(p)-1] {
			p = p[:len(p)-1]
		}
		if len(p) == 0 {
			return
		}
		p[len(p)-1] = true
		plan = p
	}
}

type bitPair struct {
	name     string
	enc, dec *ssa.Function
	typ      types.Type
	desc     bool
	scalar   bool // an integer is encoded as another one
}

func bytesParam(s *types.Tuple) int {
	for i := 0; i < s.Len(); i++ {
		if isByteSlice(s.At(i).Type()) {
			return i
		}
	}
	return -1
}

func numType(t types.Type) bool {
	if _, _, ok := intWidth(t); ok {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float64
}

// bitPairs finds the encoders of numbers and their decoders by name and signature.
func bitPairs(w *World) []bitPair {
	var out []bitPair
	for _, f := range w.allFuncs() {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(f.Name(), "Encode") {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if rs.Len() != 1 || !strings.Contains(f.Pkg.Pkg.Path(), "/kv/") {
			continue
		}
		rest := strings.TrimPrefix(f.Name(), "Encode")
		if rest == "" || rest[0] >= 'a' && rest[0] <= 'z' {
			continue
		}
		p := bitPair{name: shortName(f.String()), enc: f, desc: strings.HasSuffix(rest, "Desc")}
		var cands []string
		switch {
		case ps.Len() == 2 && isByteSlice(rs.At(0).Type()) && bytesParam(ps) >= 0 && numType(ps.At(1-bytesParam(ps)).Type()):
			p.typ = ps.At(1 - bytesParam(ps)).Type()
			cands = append(cands, "Decode"+rest, "DecodeFrom"+strings.TrimPrefix(rest, "2"))
		case ps.Len() == 1 && numType(ps.At(0).Type()) && numType(rs.At(0).Type()):
			p.typ, p.scalar = ps.At(0).Type(), true
			if i := strings.Index(rest, "To"); i > 0 {
				cands = append(cands, "Decode"+rest[i+2:]+"To"+rest[:i])
			}
		default:
			continue
		}
		if strings.Contains(strings.ToLower(rest), "varint") {
			continue // variable length
		}
		for _, n := range cands {
			if m, ok := f.Pkg.Members[n].(*ssa.Function); ok {
				p.dec = m
			}
		}
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// spec: what has to be written, most significant bit last, for the order to be kept.
func (p *bitPair) spec(r *bitRun, w int) []bit {
	in := r.normAll(inputBits(w))
	out := append([]bit{}, in...)
	_, sgn, isInt := intWidth(p.typ)
	switch {
	case isInt && sgn:
		out[w-1] = bitNot(out[w-1])
	case !isInt:
		zero := true
		for _, b := range in[:w-1] {
			zero = zero && b == 0
		}
		if in[w-1] == 1 && !zero {
			out = notBits(in)
		} else {
			out[w-1] = 1
		}
	}
	if p.desc {
		out = notBits(out)
	}
	return out
}

func showBits(bs []bit) string {
	var sb strings.Builder
	for i := len(bs) - 1; i >= 0; i-- {
		switch b := bs[i]; {
		case b < 0:
			sb.WriteString("?")
		case b < 2:
			fmt.Fprint(&sb, int(b))
		case b&1 == 0:
			fmt.Fprintf(&sb, "v%d", (b-2)/2)
		default:
			fmt.Fprintf(&sb, "~v%d", (b-2)/2)
		}
		if i > 0 {
			sb.WriteString(" ")
		}
	}
	return sb.String()
}

func checkBits(c *Ctx) {
	c.rule("an encoder writes behind what it was given exactly the bytes whose comparison is the comparison of the values (reversed for a descending encoder), and its decoder turns them back into the value and leaves exactly what follows")
	for _, p := range bitPairs(c.w) {
		p := p
		if p.dec == nil {
			continue // encodes nothing that is read back
		}
		c.entries[p.name] = true
		c.entries[shortName(p.dec.String())] = true
		w, _, isInt := intWidth(p.typ)
		pres := []map[int]bit{nil}
		if !isInt {
			w = 64
			// besides: minus zero, which is the same value as zero
			mz := map[int]bit{63: 1}
			for i := 0; i < 63; i++ {
				mz[i] = 0
			}
			pres = []map[int]bit{{63: 0}, {63: 1}, mz}
		}
		c.obl("order", p.name)
		c.obl("round trip", shortName(p.dec.String()))
		for _, pre := range pres {
			c.bitOutcomes(pre, p.name, func(r *bitRun) { p.one(c, r, w, isInt) })
		}
	}
	c.need("order", 9)
	c.need("round trip", 9)
}

func (p *bitPair) one(c *Ctx, r *bitRun, w int, isInt bool) {
	stage, fn := "order", p.enc
	defer func() {
		switch x := recover().(type) {
		case nil:
		case bitStop:
			c.fail("engine", shortName(fn.String()), "undecided", c.w.pos(fn.Pos()), shortName(fn.String())+": not decided: "+x.why)
		case bitPanic:
			c.fail(stage, shortName(fn.String()), "panic", c.w.pos(fn.Pos()), shortName(fn.String())+": "+x.why)
		default:
			panic(x)
		}
	}()
	bad := func(detail, msg string) {
		c.fail(stage, shortName(fn.String()), detail, c.w.pos(fn.Pos()), shortName(fn.String())+": "+msg)
	}
	var in bval = bInt{inputBits(w)}
	if !isInt {
		in = bFlt{inputBits(w)}
	}
	var arg bval
	var tail []bval
	var back bval
	if p.scalar {
		v, ok := r.call(p.enc, []bval{in}, nil).(bInt)
		if !ok {
			bad("value", "does not return a number")
			return
		}
		want := p.spec(r, w)
		if got := r.normAll(v.bits); !sameBits(got, want) {
			bad("order", "does not keep the order of the values: makes "+showBits(got)+" of the bits of the value, expected "+showBits(want))
			return
		}
		arg = v
		stage, fn = "round trip", p.dec
		back = r.call(p.dec, []bval{arg}, nil)
	} else {
		k := bytesParam(p.enc.Signature.Params())
		args := make([]bval, 2)
		args[k] = bSlice{&bArr{[]bval{bRun{"b"}}}, 0, 1}
		args[1-k] = in
		s, ok := r.call(p.enc, args, nil).(bSlice)
		if !ok || s.a == nil {
			bad("value", "does not return bytes")
			return
		}
		el := s.a.el[s.lo:s.hi]
		if run, ok := el[0].(bRun); !ok || run.name != "b" {
			bad("prefix", "does not keep the bytes it was given")
			return
		}
		el = el[1:]
		if len(el)*8 != w {
			bad("width", fmt.Sprintf("writes %d bytes for a value of %d", len(el), w/8))
			return
		}
		got := make([]bit, w)
		for i, e := range el {
			b, ok := e.(bInt)
			if !ok {
				bad("value", "writes something other than the value")
				return
			}
			copy(got[w-8*(i+1):w-8*i], r.normAll(b.bits))
		}
		want := p.spec(r, w)
		if !sameBits(got, want) {
			bad("order", "does not keep the order of the values: writes "+showBits(got)+" for the bits of the value, expected "+showBits(want))
			return
		}
		a := &bArr{append([]bval{}, el...)}
		leftover := p.dec.Signature.Results().Len() == 3
		if leftover {
			tail = []bval{bRun{"rest"}}
			a.el = append(a.el, tail...)
		}
		stage, fn = "round trip", p.dec
		back = r.call(p.dec, []bval{bSlice{a, 0, len(a.el)}}, nil)
		t, ok := back.(bTup)
		if !ok || len(t) < 2 {
			bad("result", "does not return a value")
			return
		}
		if e, ok := t[len(t)-1].(bErr); !ok || e.ok != 1 {
			bad("error", "fails on what its encoder wrote")
			return
		}
		if leftover {
			s, ok := t[0].(bSlice)
			n := 0
			if ok && s.a != nil {
				n = s.hi - s.lo
			}
			if n != 1 || s.a.el[s.lo] != (bRun{"rest"}) {
				bad("leftover", "does not leave exactly what follows the value")
			}
		}
		back = t[len(t)-2]
	}
	var got []bit
	switch v := back.(type) {
	case bInt:
		got = r.normAll(v.bits)
	case bFlt:
		got = r.normAll(v.bits)
	}
	want := r.normAll(inputBits(w))
	if !isInt && len(got) == w {
		zero := true
		for _, b := range want[:w-1] {
			zero = zero && b == 0
		}
		if zero { // the sign of zero does not matter
			got = append([]bit{}, got...)
			got[w-1] = want[w-1]
		}
	}
	if !sameBits(got, want) {
		bad("value", "makes "+showBits(got)+" of what its encoder wrote for the bits of the value")
	}
}

func sameBits(a, b []bit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] || a[i] < 0 {
			return false
		}
	}
	return true
}
