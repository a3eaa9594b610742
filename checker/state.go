package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of a function being analysed.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]*Term
	defers []*deferred
	call   ssa.Instruction // call site in the caller (nil for the entry)
	panick bool            // running deferred calls because of a panic
	recov  bool            // recover() was called while panicking
	id     int
	owned  bool
}

type deferred struct {
	callee *Term // for dynamic calls
	args   []*Term
	instr  *ssa.Defer
}

// State is one abstract state: registers of all active frames, memory,
// facts known about unknown values, and the rule's ghost variables.
type State struct {
	frames                  []*Frame
	heap                    map[*Term]*Term
	facts                   map[*Term]bool
	ghost                   map[string]*Term
	ownH, ownF, ownG, ownFr bool
	dead                    bool
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, ghost: map[string]*Term{}, ownH: true, ownF: true, ownG: true, ownFr: true}
}

func (s *State) clone() *State {
	s.ownH, s.ownF, s.ownG, s.ownFr = false, false, false, false
	for _, f := range s.frames {
		f.owned = false
	}
	c := *s
	return &c
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) wtop() *Frame { return s.wframe(len(s.frames) - 1) }

func (s *State) wframe(i int) *Frame {
	if !s.ownFr {
		s.frames = append([]*Frame(nil), s.frames...)
		s.ownFr = true
		for _, f := range s.frames {
			f.owned = false
		}
	}
	f := s.frames[i]
	if !f.owned {
		nf := *f
		nf.regs = make(map[ssa.Value]*Term, len(f.regs)+4)
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		nf.defers = append([]*deferred(nil), f.defers...)
		nf.owned = true
		s.frames[i] = &nf
		f = &nf
	}
	return f
}

func (s *State) push(f *Frame) {
	s.frames = append(append([]*Frame(nil), s.frames...), f)
	if !s.ownFr {
		for _, g := range s.frames[:len(s.frames)-1] {
			g.owned = false
		}
		s.ownFr = true
	}
	f.owned = true
}

func (s *State) pop() {
	s.frames = append([]*Frame(nil), s.frames[:len(s.frames)-1]...)
	if !s.ownFr {
		for _, g := range s.frames {
			g.owned = false
		}
		s.ownFr = true
	}
}

func (s *State) set(v ssa.Value, t *Term) { s.wtop().regs[v] = t }

func (s *State) setHeap(loc, v *Term) {
	if !s.ownH {
		h := make(map[*Term]*Term, len(s.heap)+4)
		for k, v := range s.heap {
			h[k] = v
		}
		s.heap = h
		s.ownH = true
	}
	if v == nil {
		delete(s.heap, loc)
	} else {
		s.heap[loc] = v
	}
}

func (s *State) setFact(t *Term, b bool) {
	if t.op == "not" {
		t, b = t.args[0], !b
	}
	if !s.ownF {
		h := make(map[*Term]bool, len(s.facts)+4)
		for k, v := range s.facts {
			h[k] = v
		}
		s.facts = h
		s.ownF = true
	}
	s.facts[t] = b
}

func (s *State) setG(k string, v *Term) {
	if !s.ownG {
		h := make(map[string]*Term, len(s.ghost)+4)
		for k, v := range s.ghost {
			h[k] = v
		}
		s.ghost = h
		s.ownG = true
	}
	if v == nil {
		delete(s.ghost, k)
	} else {
		s.ghost[k] = v
	}
}

func (s *State) g(k string) *Term { return s.ghost[k] }

// gs returns a discrete ghost value ("" when unset).
func (s *State) gs(k string) string {
	t := s.ghost[k]
	if t == nil {
		return ""
	}
	if t.op == "gstr" {
		return t.aux
	}
	return t.String()
}

func (s *State) setGS(k, v string) {
	if v == "" {
		s.setG(k, nil)
		return
	}
	s.setG(k, mk("gstr", v))
}

// ---- substitution

func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = substTerm(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// subst replaces terms everywhere in the state. It returns false when the
// state became contradictory.
func (s *State) subst(m map[*Term]*Term) bool {
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term { return substTerm(t, m, memo) }
	for i := range s.frames {
		var f *Frame
		for k, v := range s.frames[i].regs {
			if n := sub(v); n != v {
				if f == nil {
					f = s.wframe(i)
				}
				f.regs[k] = n
			}
		}
		for j, d := range s.frames[i].defers {
			ch := false
			nargs := make([]*Term, len(d.args))
			for q, a := range d.args {
				nargs[q] = sub(a)
				ch = ch || nargs[q] != a
			}
			nc := d.callee
			if nc != nil {
				nc = sub(nc)
				ch = ch || nc != d.callee
			}
			if ch {
				f = s.wframe(i)
				f.defers[j] = &deferred{callee: nc, args: nargs, instr: d.instr}
			}
		}
	}
	for k, v := range s.heap {
		nk, nv := sub(k), sub(v)
		if nk != k {
			s.setHeap(k, nil)
			if _, dup := s.heap[nk]; !dup || true {
				s.setHeap(nk, nv)
			}
		} else if nv != v {
			s.setHeap(k, nv)
		}
	}
	for k, v := range s.ghost {
		if n := sub(v); n != v {
			s.setG(k, n)
		}
	}
	for k, v := range s.facts {
		n := sub(k)
		if n == k {
			continue
		}
		// copy on write
		s.setFact(k, v)
		delete(s.facts, k)
		b := v
		for n.op == "not" {
			n, b = n.args[0], !b
		}
		if n == tTrue || n == tFalse {
			if (n == tTrue) != b {
				return false
			}
			continue
		}
		if old, ok := s.facts[n]; ok && old != b {
			return false
		}
		s.setFact(n, b)
	}
	return true
}

// ---- facts

func (s *State) evalBool(t *Term) (val, known bool) {
	switch t.op {
	case "const":
		if t == tTrue {
			return true, true
		}
		if t == tFalse {
			return false, true
		}
	case "not":
		v, k := s.evalBool(t.args[0])
		return !v, k
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case "ge0":
		l := toLin(t.args[0])
		if s.entailsGe0(l) {
			return true, true
		}
		// l < 0  <=>  -l-1 >= 0
		n := lin{c: -1}.add(l, -1)
		if s.entailsGe0(n) {
			return false, true
		}
	case "eq0":
		l := toLin(t.args[0])
		// l>0 or l<0 entailed -> false
		a := lin{c: -1}.add(l, 1)
		b := lin{c: -1}.add(l, -1)
		if s.entailsGe0(a) || s.entailsGe0(b) {
			return false, true
		}
		if s.entailsGe0(l) && s.entailsGe0(lin{}.add(l, -1)) {
			return true, true
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		if b.op == "nil" {
			a, b = b, a
		}
		if a.op == "nil" {
			if s.nonNil(b) {
				return false, true
			}
		}
	}
	return false, false
}

func (s *State) nonNil(t *Term) bool {
	if isNonNilTerm(t) {
		return true
	}
	if v, ok := s.facts[tEq(t, tNil)]; ok && !v {
		return true
	}
	return false
}

// termRange gives bounds of a term that follow from its form or type alone.
func termRange(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	switch t.op {
	case "int":
		return t.c, t.c, true, true
	case "app":
		switch t.aux {
		case "len":
			return 0, 1 << 48, true, true
		case "nonneg":
			return 0, 0, true, false
		case "conv:uint8", "conv:byte":
			return 0, 255, true, true
		case "conv:uint16":
			return 0, 65535, true, true
		case "conv:uint32":
			return 0, 1<<32 - 1, true, true
		case "/":
			if c := t.args[1]; c.op == "int" && c.c > 0 {
				if l, _, ok, _ := linRange(toLin(t.args[0])); ok && l >= 0 {
					return 0, 0, true, false
				}
			}
			return
		case "%":
			if c := t.args[1]; c.op == "int" && c.c > 0 {
				if l, _, ok, _ := linRange(toLin(t.args[0])); ok && l >= 0 {
					return 0, c.c - 1, true, true
				}
				return 1 - c.c, c.c - 1, true, true
			}
			return
		case "&":
			for _, a := range t.args {
				if a.op == "int" && a.c >= 0 {
					return 0, a.c, true, true
				}
			}
			return
		}
	case "sym":
		if t.info != nil && t.info.kind == "nonneg" {
			return 0, 0, true, false
		}
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return 0, 255, true, true
			case types.Uint16:
				return 0, 65535, true, true
			case types.Uint32:
				return 0, 1<<32 - 1, true, true
			case types.Int8:
				return -128, 127, true, true
			case types.Int16:
				return -32768, 32767, true, true
			case types.Int32:
				return -1 << 31, 1<<31 - 1, true, true
			}
		}
	}
	return
}

func linRange(l lin) (lo, hi int64, hasLo, hasHi bool) {
	lo, hi, hasLo, hasHi = l.c, l.c, true, true
	for t, c := range l.m {
		a, b, okA, okB := termRange(t)
		if c < 0 {
			a, b, okA, okB = b, a, okB, okA
		}
		lo, okA = scaled(lo, c, a, okA)
		hi, okB = scaled(hi, c, b, okB)
		hasLo, hasHi = hasLo && okA, hasHi && okB
	}
	return
}

// scaled is x + c*a, if that is a number of 64 bits.
func scaled(x, c, a int64, ok bool) (int64, bool) {
	if hi, lo := bits.Mul64(uint64(abs64(c)), uint64(abs64(a))); !ok || hi != 0 || lo >= 1<<63 {
		return 0, false
	}
	y := x + c*a
	return y, (y >= x) == (c*a >= 0)
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func trivialGe0(l lin) bool {
	lo, _, ok, _ := linRange(l)
	return ok && lo >= 0
}

func (s *State) entailsGe0(l lin) bool {
	if trivialGe0(l) {
		return true
	}
	var fs []lin
	for f, b := range s.facts {
		if f.op == "ge0" && b {
			fs = append(fs, toLin(f.args[0]))
		} else if f.op == "ge0" && !b {
			fs = append(fs, lin{c: -1}.add(toLin(f.args[0]), -1))
		} else if f.op == "eq0" && b {
			x := toLin(f.args[0])
			fs = append(fs, x, lin{}.add(x, -1))
		} else if f.op == "eq0" {
			x := toLin(f.args[0])
			if trivialGe0(x) {
				x = x.add(lin{c: 1}, -1)
				fs = append(fs, x)
			} else if x = (lin{}).add(x, -1); trivialGe0(x) {
				x = x.add(lin{c: 1}, -1)
				fs = append(fs, x)
			}
		} else if b && f.op == "app" && (f.aux == "bytes.HasPrefix" || f.aux == "strings.HasPrefix") {
			fs = append(fs, toLin(tLen(f.args[0])).add(toLin(tLen(f.args[1])), -1))
		}
	}
	triv := trivialGe0
	if numeric {
		pos := map[*Term]bool{}
		triv = func(l lin) bool {
			lo, ok := l.c, true
			for t, c := range l.m {
				a, b, okA, okB := termRange(t)
				if pos[t] && !okA {
					a, okA = 0, true
				}
				if c < 0 {
					a, okA = b, okB
				}
				lo, okA = scaled(lo, c, a, okA)
				ok = ok && okA
			}
			return ok && lo >= 0
		}
		divs := map[*Term]bool{}
		note := func(l lin) {
			for t := range l.m {
				if t.op == "app" && t.aux == "/" && t.args[1].op == "int" && t.args[1].c > 0 {
					divs[t] = true
				}
			}
		}
		note(l)
		for _, f := range fs {
			note(f)
		}
		for t := range divs {
			x := toLin(t.args[0])
			lo, _, ok, _ := linRange(x)
			if ok = ok && lo >= 0; !ok {
				for _, f := range fs {
					if trivialGe0(x.add(f, -1)) {
						ok = true
					}
				}
			}
			if ok {
				pos[t] = true
				d := x.add(lin{m: map[*Term]int64{t: 1}}, -t.args[1].c)
				fs = append(fs, d)
				r := lin{c: t.args[1].c - 1}.add(d, -1)
				fs = append(fs, r)
			}
		}
	}
	for i, f := range fs {
		d := l.add(f, -1)
		if triv(d) {
			return true
		}
		for j := i; j < len(fs); j++ {
			if triv(d.add(fs[j], -1)) {
				return true
			}
		}
	}
	return false
}

// assume adds t==val. It returns false when that is impossible.
func (s *State) assume(t *Term, val bool) bool {
	for t.op == "not" {
		t, val = t.args[0], !val
	}
	if v, k := s.evalBool(t); k {
		return v == val
	}
	switch t.op {
	case "sym":
		return s.subst(map[*Term]*Term{t: mkBool(val)})
	case "eq":
		if val {
			a, b := t.args[0], t.args[1]
			// replace the unknown by the more definite term
			pick := func(x, y *Term) bool {
				if x.op == "sym" && !mentions(y, func(z *Term) bool { return z == x }) {
					s.noteNonNil(y, x)
					return true
				}
				return false
			}
			if a.op == "sym" && b.op == "sym" && a.id < b.id {
				a, b = b, a
			}
			if pick(a, b) {
				return s.subst(map[*Term]*Term{a: b})
			}
			if pick(b, a) {
				return s.subst(map[*Term]*Term{b: a})
			}
			if (b.op == "nil" || b.op == "sentinel" || b.op == "const") && a.op == "app" {
				return s.subst(map[*Term]*Term{a: b})
			}
			if (a.op == "nil" || a.op == "sentinel" || a.op == "const") && b.op == "app" {
				return s.subst(map[*Term]*Term{b: a})
			}
		}
	case "eq0":
		if val {
			l := toLin(t.args[0])
			var best *Term
			for x, c := range l.m {
				if (c == 1 || c == -1) && (x.op == "sym" || x.op == "app") && (best == nil || x.id > best.id) {
					best = x
				}
			}
			if best != nil {
				c := l.m[best]
				rest := lin{}.add(l, 1)
				delete(rest.m, best)
				r := lin{}.add(rest, -c).term() // x = -rest/c
				if best.op == "sym" && !mentions(r, func(z *Term) bool { return z == best }) {
					return s.subst(map[*Term]*Term{best: r})
				}
				if best.op == "app" && r.op == "int" {
					if !s.subst(map[*Term]*Term{best: r}) {
						return false
					}
					if numeric {
						s.setFact(t, true)
					}
					return true
				}
			}
		}
	}
	if t.op == "ge0" && !val {
		t, val = tGe0(lin{c: -1}.add(toLin(t.args[0]), -1)), true
		if t == tTrue {
			return true
		}
		if t == tFalse {
			return false
		}
	}
	s.setFact(t, val)
	return true
}

// noteNonNil transfers non-nil facts when y replaces x.
func (s *State) noteNonNil(y, x *Term) {}

// ---- canonical form

type canonizer struct {
	num   map[*Term]int
	memo  map[*Term]string
	next  int
	queue []*Term
	st    *State
}

func (c *canonizer) show(t *Term) string {
	if t == nil {
		return "_"
	}
	switch t.op {
	case "sym", "obj", "map", "make", "chan":
		n, ok := c.num[t]
		if !ok {
			c.next++
			n = c.next
			c.num[t] = n
			c.queue = append(c.queue, t)
		}
		s := t.op[:1] + strconv.Itoa(n)
		if t.info != nil {
			s += "{" + t.info.kind + t.info.name
			if t.info.mayNil {
				s += "?"
			}
			s += "}"
		}
		if len(t.args) > 0 {
			s += "("
			for _, a := range t.args {
				s += c.show(a) + ","
			}
			s += ")"
		}
		return s
	}
	if len(t.args) == 0 {
		return t.op + ":" + t.aux + strconv.FormatInt(t.c, 10)
	}
	if s, ok := c.memo[t]; ok {
		return s
	}
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte(':')
	sb.WriteString(t.aux)
	if t.op == "lin" {
		// order independent of creation order: by canonical text
		var ps []string
		for i, a := range t.args {
			ps = append(ps, c.show(a)+"*"+strconv.FormatInt(t.coef[i], 10))
		}
		sort.Strings(ps)
		fmt.Fprintf(&sb, "(%d+%s)", t.c, strings.Join(ps, "+"))
	} else {
		sb.WriteByte('(')
		for _, a := range t.args {
			sb.WriteString(c.show(a))
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
	}
	// a bare location also makes its base relevant
	s := sb.String()
	c.memo[t] = s
	if t.op == "field" || t.op == "idx" || t.op == "app" || t.op == "slice" {
		c.queue = append(c.queue, t)
	}
	return s
}

func locBase(loc *Term) *Term {
	for loc.op == "field" || loc.op == "idx" || loc.op == "mapel" || loc.op == "mapok" || loc.op == "mark" {
		loc = loc.args[0]
	}
	return loc
}

func locPath(loc *Term, c *canonizer) string {
	p := ""
	for loc.op == "field" || loc.op == "idx" || loc.op == "mapel" || loc.op == "mapok" || loc.op == "mark" {
		switch loc.op {
		case "field", "mark":
			p = "." + loc.aux + p
		default:
			p = "[" + loc.op + c.show(loc.args[1]) + "]" + p
		}
		loc = loc.args[0]
	}
	return p
}

// constPath: the location is reached through fields and constant keys only.
func constPath(l *Term) bool {
	for l.op == "field" || l.op == "idx" || l.op == "mapel" || l.op == "mapok" {
		if l.op != "field" && !isDistinctConst(l.args[1]) {
			return false
		}
		l = l.args[0]
	}
	return true
}

func sortedRegs(f *Frame) []ssa.Value {
	vs := make([]ssa.Value, 0, len(f.regs))
	for v := range f.regs {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		a, b := vs[i].Name(), vs[j].Name()
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	return vs
}

func sortedGhost(s *State) []string {
	ks := make([]string, 0, len(s.ghost))
	for k := range s.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// canon garbage collects the state and returns a text that is equal for
// states that differ only in the names of unknowns.
func (s *State) canon(extra ...*Term) string {
	c := &canonizer{num: map[*Term]int{}, memo: map[*Term]string{}, st: s}
	var sb strings.Builder
	for _, e := range extra {
		sb.WriteString(c.show(e))
		sb.WriteByte('|')
	}
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "F%p/%p", f.fn, f.call)
		if f.panick {
			sb.WriteString("!")
		}
		for _, v := range sortedRegs(f) {
			sb.WriteByte(';')
			sb.WriteString(v.Name())
			sb.WriteByte('=')
			sb.WriteString(c.show(f.regs[v]))
		}
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ";D%p", d.instr)
			for _, a := range d.args {
				sb.WriteString(c.show(a))
			}
			if d.callee != nil {
				sb.WriteString(c.show(d.callee))
			}
		}
	}
	for _, k := range sortedGhost(s) {
		sb.WriteString(";G" + k + "=" + c.show(s.ghost[k]))
	}
	// heap reachable from the roots
	byBase := map[*Term][]*Term{}
	for loc := range s.heap {
		b := locBase(loc)
		byBase[b] = append(byBase[b], loc)
	}
	done := map[*Term]bool{}
	live := map[*Term]bool{}
	emit := func(b *Term) {
		if done[b] {
			return
		}
		done[b] = true
		locs := byBase[b]
		if len(locs) == 0 {
			return
		}
		type pl struct {
			p string
			l *Term
		}
		var ps []pl
		for _, l := range locs {
			ps = append(ps, pl{locPath(l, c), l})
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].p < ps[j].p })
		sb.WriteString(";H" + c.show(b))
		for _, x := range ps {
			live[x.l] = true
			sb.WriteString(x.p + "=" + c.show(s.heap[x.l]) + ",")
		}
	}
	// globals are always roots
	var globs []*Term
	for b := range byBase {
		if b.op == "global" {
			globs = append(globs, b)
		}
	}
	sort.Slice(globs, func(i, j int) bool { return globs[i].aux < globs[j].aux })
	for _, b := range globs {
		emit(b)
	}
	for len(c.queue) > 0 {
		b := c.queue[0]
		c.queue = c.queue[1:]
		emit(b)
	}
	// drop unreachable memory
	for loc := range s.heap {
		if !live[loc] {
			s.setHeap(loc, nil)
		}
	}
	s.eliminate(c)
	// facts about reachable unknowns only
	var fs []string
	for f, v := range s.facts {
		ok := true
		walk(f, map[*Term]bool{}, func(x *Term) {
			switch x.op {
			case "sym", "obj", "map", "make", "chan":
				if _, k := c.num[x]; !k {
					ok = false
				}
			}
		})
		if !ok {
			s.setFact(f, v)
			delete(s.facts, f)
			continue
		}
		fs = append(fs, c.show(f)+fmt.Sprint(v))
	}
	sort.Strings(fs)
	for _, f := range fs {
		sb.WriteString(";f" + f)
	}
	return sb.String()
}

// eliminate rewrites inequalities over unknowns about to be forgotten using
// the equations that define them.
func (s *State) eliminate(c *canonizer) {
	dead := func(t *Term) bool {
		d := false
		walk(t, map[*Term]bool{}, func(x *Term) {
			switch x.op {
			case "sym", "obj", "map", "make", "chan":
				if _, k := c.num[x]; !k {
					d = true
				}
			}
		})
		return d
	}
	for round := 0; round < 3; round++ {
		var eqs []lin
		for f, v := range s.facts {
			if f.op == "eq0" && v {
				eqs = append(eqs, toLin(f.args[0]))
			}
		}
		if len(eqs) == 0 {
			return
		}
		grew := false
		for _, q := range eqs {
			var atom *Term
			n := 0
			for a := range q.m {
				if dead(a) {
					atom = a
					n++
				}
			}
			if n == 0 {
				continue
			}
			if n != 1 || q.m[atom] != 1 && q.m[atom] != -1 {
				continue
			}
			k := q.m[atom]
			for f, v := range s.facts {
				if f.op != "ge0" && !(f.op == "eq0" && v) {
					continue
				}
				l := toLin(f.args[0])
				d := l.m[atom]
				if d == 0 {
					continue
				}
				// atom = -(q - k*atom)/k
				nl := l.add(q, -d*k)
				if len(nl.m) == 0 {
					continue
				}
				nf := mk(f.op, "", nl.term())
				if f.op == "ge0" {
					nf = tGe0(nl)
				}
				if _, have := s.facts[nf]; !have && nf.op == f.op {
					s.setFact(nf, v)
					grew = true
				}
			}
		}
		if !grew {
			return
		}
	}
}

// shapeKey is the discrete part of a state used to partition loop heads.
func (s *State) shapeKey() string {
	var sb strings.Builder
	shape := func(t *Term) string {
		if t == nil {
			return "_"
		}
		switch t.op {
		case "nil":
			return "n"
		case "const":
			if t == tTrue {
				return "T"
			}
			if t == tFalse {
				return "F"
			}
			return "k"
		case "sentinel":
			return "S" + t.aux
		case "closure":
			return fmt.Sprintf("c%p", t.fn)
		case "gstr":
			return "g" + t.aux
		}
		if s.nonNil(t) {
			return "o"
		}
		return "?"
	}
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "F%p/%p", f.fn, f.call)
		for _, v := range sortedRegs(f) {
			if isDiscreteType(v.Type()) {
				sb.WriteString(v.Name() + shape(f.regs[v]) + ";")
			} else if _, ok := v.(*ssa.Phi); ok {
				continue
			}
		}
		fmt.Fprintf(&sb, "d%d", len(f.defers))
	}
	for _, k := range sortedGhost(s) {
		t := s.ghost[k]
		if t.op == "gstr" {
			sb.WriteString("G" + k + "=" + t.aux)
		} else {
			sb.WriteString("G" + k + shape(t))
		}
	}
	// memory cells holding errors / booleans, in a deterministic order that does
	// not depend on unknown names: only objects allocated by live frames
	c := &canonizer{num: map[*Term]int{}, memo: map[*Term]string{}, st: s}
	var cells []string
	for _, f := range s.frames {
		for _, v := range sortedRegs(f) {
			t := f.regs[v]
			if t.op == "obj" {
				if val, ok := s.heap[t]; ok {
					cells = append(cells, v.Name()+"*"+shape(val))
				}
			}
		}
	}
	_ = c
	sb.WriteString(strings.Join(cells, ";"))
	return sb.String()
}

func isDiscreteType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0
	case *types.Interface, *types.Pointer, *types.Signature:
		return true
	}
	return false
}

// ---- join at loop heads (anti-unification)

type joiner struct {
	a, b  *State
	memo  map[[2]*Term]*Term
	order [][2]*Term
	eqs   []*Term
	lins  [][3]*Term // integer pairs and the unknown they map to
}

func (j *joiner) term(x, y *Term) *Term {
	if x == y {
		return x
	}
	k := [2]*Term{x, y}
	if r := j.memo[k]; r != nil {
		return r
	}
	r := j.fresh(x, y)
	j.memo[k] = r
	j.order = append(j.order, k)
	return r
}

func isIntish(t *Term) bool {
	if t.op == "int" || t.op == "lin" {
		return true
	}
	if t.op == "app" && (t.aux == "len" || t.aux == "unbe64") {
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return true
		}
	}
	return false
}

func (j *joiner) fresh(x, y *Term) *Term {
	if isIntish(x) && isIntish(y) {
		if numeric && x.op == "app" && y.op == "app" && x.aux == "len" && y.aux == "len" {
			if w := j.memo[[2]*Term{x.args[0], y.args[0]}]; w != nil {
				return tLen(w)
			}
		}
		for _, p := range j.lins {
			d1 := toLin(x).add(toLin(p[0]), -1)
			d2 := toLin(y).add(toLin(p[1]), -1)
			if d1.isConst() && d2.isConst() && d1.c == d2.c {
				return tAdd(p[2], mkInt(d1.c))
			}
			if numeric && len(d1.m) <= 2 && len(d2.m) <= 2 {
				c1, ok1 := j.a.constOf(d1)
				c2, ok2 := j.b.constOf(d2)
				if ok1 && ok2 && c1 == c2 {
					return tAdd(p[2], mkInt(c1))
				}
			}
		}
		if numeric {
			for _, p := range j.lins {
				for _, k := range []int64{1, -1} {
					d1 := toLin(x).add(toLin(p[0]), -k)
					d2 := toLin(y).add(toLin(p[1]), -k)
					if (k < 0 || !d1.isConst()) && len(d1.m) <= 1 && d1.term() == d2.term() {
						r := d1.add(toLin(p[2]), k).term()
						j.lins = append(j.lins, [3]*Term{x, y, r})
						return r
					}
				}
			}
		}
		w := mkFresh("sym", types.Typ[types.Int64], &SymInfo{kind: "join", site: "loop"})
		j.lins = append(j.lins, [3]*Term{x, y, w})
		return w
	}
	if numeric && x.op == "slice" && y.op == "slice" {
		b, lo := j.term(x.args[0], y.args[0]), j.term(x.args[1], y.args[1])
		return rebuild(x, []*Term{b, lo, tAdd(lo, j.term(tLen(x), tLen(y)))})
	}
	if x.op == y.op && x.aux == y.aux && len(x.args) == len(y.args) && len(x.args) > 0 && x.op != "sym" && x.op != "obj" && x.op != "lin" && x.op != "make" && x.op != "map" && x.op != "chan" {
		args := make([]*Term, len(x.args))
		for i := range args {
			args[i] = j.term(x.args[i], y.args[i])
		}
		return rebuild(x, args)
	}
	if joinCats && x.op == "cat" && y.op == "cat" {
		// what both begin with is kept
		n := 0
		for n < len(x.args) && n < len(y.args) && x.args[n] == y.args[n] && (x.args[n].info == nil || x.args[n].info.kind != "join") {
			n++
		}
		if n > 0 {
			rest := mkFresh("sym", types.NewSlice(types.Typ[types.Byte]), &SymInfo{kind: "join", site: "loop"})
			return mkCat(append(append([]*Term{}, x.args[:n]...), rest)...)
		}
	}
	info := &SymInfo{kind: "join", site: "loop", local: isLocal(x) && isLocal(y)}
	if x.info != nil && x.info.mayNil || y.info != nil && y.info.mayNil || x.op == "nil" || y.op == "nil" {
		info.mayNil = true
	}
	if x.info != nil && y.info != nil && x.info.kind == y.info.kind && x.info.name == y.info.name && x.op == "sym" && y.op == "sym" {
		info.kind = x.info.kind
		info.name = x.info.name
		info.site = x.info.site
		info.ev = x.info.ev
		info.res = x.info.res
		info.ptr = x.info.ptr
	}
	typ := x.typ
	if typ == nil {
		typ = y.typ
	}
	w := mkFresh("sym", typ, info)
	if hasLen(x) && hasLen(y) && j.lenRelated(tLen(x), tLen(y)) {
		w.info.hasLen = true
		if tLen(x) == tLen(y) {
			if numeric {
				j.eqs = append(j.eqs, mk("eq0", "", tSub(tLen(w), tLen(x))))
			}
		} else {
			j.lins = append(j.lins, [3]*Term{tLen(x), tLen(y), tLen(w)})
		}
	}
	return w
}

// isLocal: an object allocated by the code analysed.
func isLocal(t *Term) bool {
	return t.info != nil && (t.op == "obj" && t.info.kind == "alloc" || t.op == "map" || t.info.local)
}

// lenRelated: it is worth relating the two lengths.
func (j *joiner) lenRelated(x, y *Term) bool {
	if x.op == "int" && y.op == "int" || toLin(x).add(toLin(y), -1).isConst() {
		return true
	}
	for _, p := range j.lins {
		d1 := toLin(x).add(toLin(p[0]), -1)
		d2 := toLin(y).add(toLin(p[1]), -1)
		if d1.isConst() && d2.isConst() && d1.c == d2.c {
			return true
		}
	}
	return false
}

// hasLen: the length of the value is meaningful.
func hasLen(t *Term) bool {
	if t.info != nil && t.info.hasLen {
		return true
	}
	switch t.op {
	case "nil", "empty", "cat", "slice", "make":
		return true
	case "app":
		switch t.aux {
		case "append", "appends", "copyof", "bytesof", "stringof":
			return true
		}
	}
	if t.typ != nil {
		switch u := t.typ.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Basic:
			return u.Info()&types.IsString != 0
		}
	}
	return false
}

// thresholds are the bounds tried when a loop is merged: the larger constants
// the program compares with.
var thresholds []int64 // see findThresholds

func (w *World) findThresholds(entry *ssa.Function) {
	if w.thr == nil {
		w.thr = map[*ssa.Function][]int64{}
		w.methods = map[string][]*ssa.Function{}
		for _, f := range w.funcs {
			if f.Signature.Recv() != nil {
				w.methods[f.Name()] = append(w.methods[f.Name()], f)
			}
		}
	}
	if t, ok := w.thr[entry]; ok {
		thresholds = t
		return
	}
	m := map[int64]bool{}
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{entry}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || seen[f] || isPbFn(f) || len(f.Blocks) == 0 || !w.isRepoFn(f) {
			continue
		}
		seen[f] = true
		work = append(work, f.AnonFuncs...)
		w.calls(f, func(cc *ssa.CallCommon) {
			if cc.IsInvoke() && w.opOf(cc.Method) != "" {
				// storage
			} else if cc.IsInvoke() {
				work = append(work, w.methods[cc.Method.Name()]...)
			} else if c := cc.StaticCallee(); c != nil {
				work = append(work, c)
			}
		})
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					work = append(work, mc.Fn.(*ssa.Function))
				}
				x, ok := ins.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					continue
				}
				for _, v := range []ssa.Value{x.X, x.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						if n, ok := constant.Int64Val(c.Value); ok && n > 16 && n < 1<<30 {
							m[n], m[n-1], m[n-2] = true, true, true
						}
					}
				}
			}
		}
	}
	thresholds = nil
	for n := range m {
		thresholds = append(thresholds, n)
	}
	sort.Slice(thresholds, func(i, j int) bool { return thresholds[i] < thresholds[j] })
	if len(thresholds) > 24 {
		thresholds = thresholds[:24]
	}
	w.thr[entry] = thresholds
}

// join returns a state covering both a and b, which must have the same frames.
func joinStates(a, b *State, n int) *State {
	j := &joiner{a: a, b: b, memo: map[[2]*Term]*Term{}}
	r := newState()
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		f := &Frame{fn: fa.fn, call: fa.call, id: fa.id, panick: fa.panick, recov: fa.recov, regs: map[ssa.Value]*Term{}, owned: true}
		for _, v := range sortedRegs(fa) {
			if y := fb.regs[v]; y != nil {
				f.regs[v] = j.term(fa.regs[v], y)
			}
		}
		for k, d := range fa.defers {
			if k < len(fb.defers) && fb.defers[k].instr == d.instr {
				nd := &deferred{instr: d.instr}
				if d.callee != nil {
					nd.callee = j.term(d.callee, fb.defers[k].callee)
				}
				for q := range d.args {
					nd.args = append(nd.args, j.term(d.args[q], fb.defers[k].args[q]))
				}
				f.defers = append(f.defers, nd)
			}
		}
		r.frames = append(r.frames, f)
	}
	for _, k := range sortedGhost(a) {
		if y := b.ghost[k]; y != nil {
			r.ghost[k] = j.ghost(k, a.ghost[k], y)
		} else if strings.HasPrefix(k, "may:") {
			r.ghost[k] = a.ghost[k]
		}
	}
	for _, k := range sortedGhost(b) {
		if a.ghost[k] == nil && strings.HasPrefix(k, "may:") {
			r.ghost[k] = b.ghost[k]
		}
	}
	// memory: cells known on both sides (possibly under renamed bases)
	var locs []*Term
	for l := range a.heap {
		locs = append(locs, l)
	}
	sort.Slice(locs, func(i, k int) bool { return locs[i].id < locs[k].id })
	for pass := 0; pass < 3; pass++ {
		for _, l := range locs {
			if _, done := r.heap[l]; done {
				continue
			}
			if y, ok := b.heap[l]; ok {
				r.heap[l] = j.term(a.heap[l], y)
				continue
			}
			if l.op == "mark" {
				r.heap[l] = a.heap[l]
				continue
			}
			// renamed base: find the pair
			for q := 0; q < len(j.order); q++ {
				pr := j.order[q]
				w := j.memo[pr]
				if w.op != "sym" || pr[0].op == "int" {
					continue
				}
				if locBase(l) == pr[0] {
					l2 := substTerm(l, map[*Term]*Term{pr[0]: pr[1]}, map[*Term]*Term{})
					if y, ok := b.heap[l2]; ok {
						lw := substTerm(l, map[*Term]*Term{pr[0]: w}, map[*Term]*Term{})
						if _, done := r.heap[lw]; !done {
							r.heap[lw] = j.term(a.heap[l], y)
						}
					}
				}
			}
		}
	}
	for l, v := range b.heap {
		if l.op == "mark" {
			if _, ok := r.heap[l]; !ok {
				r.heap[l] = v
			}
		}
	}
	// zero-initialised objects: a cell missing on one side is zero there, so the
	// merged cell must be unknown rather than zero
	miss := func(x, y *State, flip bool) {
		var ls []*Term
		for l := range x.heap {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, k int) bool { return ls[i].id < ls[k].id })
		for _, l := range ls {
			if _, ok := y.heap[l]; ok || l.op == "mark" {
				continue
			}
			if _, ok := r.heap[l]; ok {
				continue
			}
			b := locBase(l)
			if b.op == "obj" || b.op == "map" {
				if !constPath(l) {
					r.heap[mk("mark", "dirty", b)] = tTrue
					continue
				}
				if isIntish(x.heap[l]) {
					// the cell is zero on the other side
					if flip {
						r.heap[l] = j.term(mkInt(0), x.heap[l])
					} else {
						r.heap[l] = j.term(x.heap[l], mkInt(0))
					}
					continue
				}
				r.heap[l] = mkFresh("sym", x.heap[l].typ, &SymInfo{kind: "join", site: "loop", mayNil: true})
			}
		}
	}
	miss(a, b, false)
	miss(b, a, true)
	// lengths of merged values that were merged before the number they follow
	if numeric {
		for _, pr := range j.order {
			w := j.memo[pr]
			if w.op != "sym" || w.info == nil || w.info.hasLen || isIntish(w) || !hasLen(pr[0]) || !hasLen(pr[1]) {
				continue
			}
			for _, p := range j.lins {
				d1 := toLin(tLen(pr[0])).add(toLin(p[0]), -1)
				d2 := toLin(tLen(pr[1])).add(toLin(p[1]), -1)
				if len(d1.m) > 2 || len(d2.m) > 2 {
					continue
				}
				c1, ok1 := a.constOf(d1)
				c2, ok2 := b.constOf(d2)
				if ok1 && ok2 && c1 == c2 {
					w.info.hasLen = true
					j.eqs = append(j.eqs, mk("eq0", "", tSub(tSub(tLen(w), p[2]), mkInt(c1))))
					break
				}
			}
		}
	}
	// facts
	for f, v := range a.facts {
		if bv, ok := b.facts[f]; ok && bv == v {
			r.facts[f] = v
		} else if f.op == "ge0" || f.op == "eq0" || f.op == "eq" {
			if bv, known := b.evalBool(f); known && bv == v {
				r.facts[f] = v
			}
		}
	}
	for f, v := range b.facts {
		if _, ok := r.facts[f]; ok {
			continue
		}
		if av, known := a.evalBool(f); known && av == v {
			r.facts[f] = v
		}
	}
	for _, pr := range j.order {
		w := j.memo[pr]
		if w.op != "sym" {
			continue
		}
		if !isIntish(w) && a.nonNil(pr[0]) && b.nonNil(pr[1]) {
			r.facts[tEq(w, tNil)] = false
		}
	}
	// disequalities carried over to merged values
	for f, v := range a.facts {
		if f.op != "eq" || v {
			continue
		}
		for _, pr := range j.order {
			w := j.memo[pr]
			if w.op != "sym" || isIntish(w) || (f.args[0] != pr[0] && f.args[1] != pr[0]) {
				continue
			}
			o := f.args[0]
			if o == pr[0] {
				o = f.args[1]
			}
			if bv, known := b.evalBool(tEq(pr[1], o)); known && !bv {
				r.facts[tEq(w, o)] = false
			}
		}
	}
	// inequalities rewritten through the merge (not any more once the loop has
	// been merged a few times: widening)
	for _, p := range j.lins {
		if !numeric {
			break
		}
		x, y, w := p[0], p[1], p[2]
		try := func(from *State, src, dst *Term, other *State) {
			for f, v := range from.facts {
				if f.op != "ge0" {
					continue
				}
				l := toLin(f.args[0])
				if !v {
					l = lin{c: -1}.add(l, -1)
				}
				if src.op == "int" {
					continue
				}
				sl := toLin(src)
				// src = ±sym + c, or a sum whose parts all occur in the fact
				var base *Term
				for z, c := range sl.m {
					if (c == 1 || c == -1 && len(sl.m) > 1) && (base == nil || z.id < base.id) {
						base = z
					}
				}
				if base == nil {
					continue
				}
				k, ok := l.m[base]
				if !ok || len(l.m) == 1 {
					continue
				}
				k *= sl.m[base]
				whole := true
				for z, c := range sl.m {
					if l.m[z] != k*c {
						whole = false
					}
				}
				if !whole && len(sl.m) > 1 {
					continue
				}
				// l = k*src + rest
				rest := l.add(sl, -k)
				od := rest.add(toLin(dst), k)
				if other.entailsGe0(od) {
					r.facts[tGe0(rest.add(toLin(w), k))] = true
				}
			}
		}
		try(a, x, y, b)
		if n <= 4 {
			try(b, y, x, a)
		}
		// both constant: facts about other quantities give bounds of w
		tryC := func(from *State, src, dst *Term, other *State) {
			if src.op != "int" || dst.op != "int" {
				return
			}
			var cand []lin
			for f, v := range from.facts {
				if f.op != "ge0" {
					continue
				}
				l := toLin(f.args[0])
				if !v {
					l = lin{c: -1}.add(l, -1)
				}
				if len(l.m) != 1 {
					continue
				}
				cand = append(cand, l)
			}
			for _, l := range cand {
				c := lin{c: src.c}.add(l, 1).add(toLin(w), -1) // l + src - w
				at := lin{c: src.c - dst.c}.add(l, 1)
				if other.entailsGe0(at) {
					r.facts[tGe0(c)] = true
				}
			}
		}
		// interval with thresholds
		for _, t := range thresholds {
			if a.entailsGe0(lin{c: t}.add(toLin(x), -1)) && b.entailsGe0(lin{c: t}.add(toLin(y), -1)) {
				r.facts[tGe0(lin{c: t}.add(toLin(w), -1))] = true
				break
			}
		}
		tryC(a, x, y, b)
		tryC(b, y, x, a)
		// constants: w >= min when both sides bounded below by a constant
		for _, lo := range []int64{-1, 0, 1} {
			if a.entailsGe0(toLin(x).add(lin{c: lo}, -1)) && b.entailsGe0(toLin(y).add(lin{c: lo}, -1)) {
				r.facts[tGe0(toLin(w).add(lin{c: lo}, -1))] = true
			}
		}
	}
	if numeric {
		j.pairs(a, b, r, 0)
		if n <= 4 {
			j.pairs(b, a, r, 1)
		}
	}
	for _, f := range j.eqs {
		r.facts[f] = true
	}
	if numeric {
		// lengths that were merged on their own are the lengths of the merged lists
		for _, pr := range j.order {
			w := j.memo[pr]
			if w.op != "sym" || isIntish(w) || pr[0].op == "int" || pr[1].op == "int" {
				continue
			}
			if !hasLen(pr[0]) && !hasLen(pr[1]) {
				if w.typ == nil {
					continue
				}
				if _, ok := w.typ.Underlying().(*types.Slice); !ok {
					continue
				}
			}
			lx, ly := toLin(tLen(pr[0])), toLin(tLen(pr[1]))
			for _, p := range j.lins {
				d1, d2 := lx.add(toLin(p[0]), -1), ly.add(toLin(p[1]), -1)
				if p[2] == tLen(w) || p[2].op != "sym" {
					continue
				}
				c1, ok1 := a.constOf(d1)
				c2, ok2 := b.constOf(d2)
				if !ok1 || !ok2 || c1 != c2 {
					continue
				}
				d1.c = c1
				{
					r.facts[mk("eq0", "", toLin(tLen(w)).add(toLin(p[2]), -1).add(lin{c: d1.c}, -1).term())] = true
					break
				}
			}
		}
	}
	r.thinFacts(n)
	return r
}

// pairs carries over inequalities between two unknowns that were both merged.
func (j *joiner) pairs(from, other, r *State, side int) {
	cands := map[*Term][][3]*Term{} // unknown -> merges whose source is it plus a constant
	for _, p := range j.lins {
		sl := toLin(p[side])
		if len(sl.m) != 1 {
			continue
		}
		for z, c := range sl.m {
			if c == 1 && len(cands[z]) < 4 {
				cands[z] = append(cands[z], p)
			}
		}
	}
	for f, v := range from.facts {
		if f.op != "ge0" {
			continue
		}
		l := toLin(f.args[0])
		if !v {
			l = lin{c: -1}.add(l, -1)
		}
		if len(l.m) != 2 {
			continue
		}
		var zs []*Term
		for z := range l.m {
			zs = append(zs, z)
		}
		for _, p := range cands[zs[0]] {
			for _, q := range cands[zs[1]] {
				// unknown = source - its constant
				o, w := lin{c: l.c}, lin{c: l.c}
				for i, x := range [][3]*Term{p, q} {
					k := l.m[zs[i]]
					c := toLin(x[side]).c
					o = o.add(toLin(x[1-side]), k).add(lin{c: c}, -k)
					w = w.add(toLin(x[2]), k).add(lin{c: c}, -k)
				}
				if other.entailsGe0(o) {
					r.facts[tGe0(w)] = true
				}
			}
		}
	}
}

// constOf: the linear form is known to equal a constant.
func (s *State) constOf(l lin) (int64, bool) {
	if l.isConst() {
		return l.c, true
	}
	for f, v := range s.facts {
		if f.op != "eq0" || !v {
			continue
		}
		k := toLin(f.args[0])
		if d := l.add(k, -1); d.isConst() {
			return d.c, true
		}
		if d := l.add(k, 1); d.isConst() {
			return d.c, true
		}
	}
	return 0, false
}

// numeric turns on the inference of inequalities at loop merges.
var numeric bool

// thinFacts drops inequalities implied by others over the same unknowns.
func (r *State) thinFacts(n int) {
	best := map[*Term]*Term{}
	var drop []*Term
	for f, v := range r.facts {
		if f == tTrue || f == tFalse {
			drop = append(drop, f)
			continue
		}
		if f.op != "ge0" {
			continue
		}
		l := toLin(f.args[0])
		if !v {
			l = lin{c: -1}.add(l, -1)
		}
		if trivialGe0(l) || n > 12+len(thresholds) && len(l.m) > 1 {
			drop = append(drop, f)
			continue
		}
		k := l
		k.c = 0
		key := k.term()
		if o := best[key]; o != nil {
			ol := toLin(o.args[0])
			if !r.facts[o] {
				ol = lin{c: -1}.add(ol, -1)
			}
			if ol.c < l.c || ol.c == l.c && o.id < f.id {
				drop = append(drop, f)
				continue
			}
			drop = append(drop, o)
		}
		best[key] = f
	}
	for _, f := range drop {
		delete(r.facts, f)
	}
}

// ghost joins the two values of a rule variable. Collections of what may be
// the case keep the members of both sides.
func (j *joiner) ghost(k string, x, y *Term) *Term {
	if x == y || !strings.HasPrefix(k, "may:") || x.op != "gset" || y.op != "gset" {
		return j.term(x, y)
	}
	all := map[*Term]bool{}
	var args []*Term
	add := func(t *Term) {
		if !all[t] {
			all[t] = true
			args = append(args, t)
		}
	}
	if len(x.args) == len(y.args) {
		for i := range x.args {
			add(j.term(x.args[i], y.args[i]))
		}
	} else {
		for _, t := range append(append([]*Term{}, x.args...), y.args...) {
			add(t)
		}
	}
	if len(args) > 4 { // some; which ones is not known
		args = []*Term{mk("some", "")}
	}
	return mk("gset", "", args...)
}

// joinCats keeps the common beginning of byte strings that meet.
var joinCats bool
