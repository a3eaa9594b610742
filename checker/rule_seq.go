package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P16: a sequence never hands out the same number twice.
//
// An object that hands out numbers keeps a range (lo,hi] in memory. The check
// is inductive: assuming every number in the object's range is reserved for it
// and unused, each method keeps it so, and what it hands out comes from the
// range (or from a range whose reservation has been committed), once.

type seqTarget struct {
	typ     *types.Named
	ctor    *ssa.Function
	path    []fieldStep
	methods []*ssa.Function
}

func seqTargets(w *World) []*seqTarget {
	var res []*seqTarget
	isSeq := map[*types.Named]bool{}
	for _, f := range w.funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() == nil || f.Name() != "Next" || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 2 || !returnsErr(f.Signature) {
			continue
		}
		if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := types.Unalias(deref(f.Signature.Recv().Type())).(*types.Named); ok {
				isSeq[n] = true
			}
		}
	}
	for _, fn := range w.funcs {
		if fn.Parent() != nil || isPbFn(fn) || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || len(fn.Blocks) == 0 {
			continue
		}
		if _, ok := fn.Signature.Results().At(0).Type().(*types.Pointer); !ok {
			continue
		}
		nt, _ := types.Unalias(deref(fn.Signature.Results().At(0).Type())).(*types.Named)
		var path []fieldStep
		for nt != nil && !isSeq[nt] {
			s, ok := nt.Underlying().(*types.Struct)
			nt = nil
			if !ok {
				break
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if n, ok := types.Unalias(f.Type()).(*types.Named); ok && f.Embedded() && isSeq[n] {
					nt = n
					path = append(path, fieldStep{i, f.Name()})
					break
				}
			}
		}
		if nt == nil || !allocates(fn, 0) {
			continue
		}
		t := &seqTarget{typ: nt, ctor: fn, path: path}
		for _, m := range w.funcs {
			if m.Parent() == nil && m.Synthetic == "" && m.Signature.Recv() != nil && types.Identical(deref(m.Signature.Recv().Type()), nt) && m.Object() != nil && m.Object().Exported() {
				t.methods = append(t.methods, m)
			}
		}
		sort.Slice(t.methods, func(i, j int) bool { return t.methods[i].String() < t.methods[j].String() })
		res = append(res, t)
	}
	return res
}

// allocates: the function builds the object it returns (rather than finding one).
func allocates(fn *ssa.Function, d int) bool {
	t := fn.Signature.Results().At(0).Type()
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && types.Identical(a.Type(), t) {
				return true
			}
			if c, ok := ins.(*ssa.Call); ok && d < 2 {
				f := c.Call.StaticCallee()
				if f != nil && f.Pkg == fn.Pkg && f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && types.Identical(f.Signature.Results().At(0).Type(), t) && allocates(f, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// seqRange is a set of numbers (lo,hi] that belongs to the object.
type seqRange struct {
	key, lo, hi *Term
	what        string
}

// counter writes and reads made so far, with commits: entries of a log term
func seqLog(st *State, ent *Term) {
	old := st.g("seq:log")
	var es []*Term
	if old != nil {
		es = append(es, old.args...)
	}
	st.setG("seq:log", mk("log", "", append(es, ent)...))
}

// counterAtLeast: the stored counter is never below the end of a range in use.
func counterAtLeast(st *State, key, val *Term) bool {
	hi := st.g("seq:hi")
	if hi == nil || st.g("seq:key") != key {
		return true
	}
	v := mkInt(0)
	if val != nil {
		v = (&seqMon{be: st.gs("seq:be") != ""}).decoded(val)
	}
	return st.assume(tGe0(toLin(v).add(toLin(hi), -1)), true)
}

// seqDiscard forgets what a transaction that was not committed did.
func seqDiscard(st *State, txn *Term) {
	old := st.g("seq:log")
	if old == nil || old.op != "log" {
		return
	}
	var keep []*Term
	for _, x := range old.args {
		if x.args[0] == txn && x.op == "commit" {
			return
		}
		if x.args[0] != txn {
			keep = append(keep, x)
		}
	}
	if len(keep) == 0 {
		st.setG("seq:log", nil)
		return
	}
	st.setG("seq:log", mk("log", "", keep...))
}

func seqHooks(r *Rule) {
	r.Codec = true
	// a transaction sees its own reads and writes
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Op != "Get" || len(ev.Args) < 2 {
			return nil, false
		}
		log := st.g("seq:log")
		if log == nil || log.op != "log" {
			return nil, false
		}
		txn, key := resBase(ev.Args[0]), stripCopy(e.content(st, ev.Args[1]))
		for i := len(log.args) - 1; i >= 0; i-- {
			x := log.args[i]
			if x.args[0] != txn || len(x.args) < 2 || x.args[1] != key {
				continue
			}
			fail := Out{st: st.clone(), res: e.freshResults(ev)}
			er := errOf(fail)
			var res []Out
			if fail.st.assume(tEq(er, tNil), false) && fail.st.assume(tEq(er, notFound()), false) {
				res = append(res, fail)
			}
			ok := Out{st: st, res: e.freshResults(ev)}
			switch x.op {
			case "rd", "wr":
				ok.res[0] = x.args[2]
				ok.res[len(ok.res)-1] = tNil
			default:
				ok.res[0] = tNil
				ok.res[len(ok.res)-1] = notFound()
			}
			return append(res, ok), true
		}
		return nil, false
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Name == "bytes.Equal" {
			return equalCounters(e, st, ev, outs)
		}
		switch ev.Op {
		case "Get", "Exists", "Set", "Delete", "Commit":
		case "Discard":
			for i := range outs {
				seqDiscard(outs[i].st, resBase(ev.Args[0]))
			}
			return outs
		default:
			return outs
		}
		txn := resBase(ev.Args[0])
		key := tNil
		if len(ev.Args) > 1 {
			key = stripCopy(e.content(st, ev.Args[1]))
		}
		var res []Out
		for _, o := range outs {
			if o.panic {
				res = append(res, o)
				continue
			}
			if ev.Op == "Get" {
				for _, p := range forkErr(o) {
					if errOf(p).op == "nil" {
						// every value stored by a sequence is a formatted number
						p.st.assume(tEq(p.res[0], tNil), false)
						seqLog(p.st, mk("rd", "", txn, key, p.res[0]))
						if counterAtLeast(p.st, key, p.res[0]) {
							res = append(res, p)
						}
						continue
					}
					is, isOK, not, notOK := errIs(p, notFound())
					if isOK {
						seqLog(is.st, mk("none", "", txn, key))
						is.res[0] = tNil
						if counterAtLeast(is.st, key, nil) {
							res = append(res, is)
						}
					}
					if notOK {
						res = append(res, not)
					}
				}
				continue
			}
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					switch ev.Op {
					case "Set":
						seqLog(p.st, mk("wr", "", txn, key, stripCopy(e.content(p.st, ev.Args[2]))))
					case "Delete":
						seqLog(p.st, mk("del", "", txn, key))
					case "Commit":
						seqLog(p.st, mk("commit", "", txn))
					}
				}
				res = append(res, p)
			}
		}
		return res
	}
}

// equalCounters: equal encodings stand for equal numbers.
func equalCounters(e *Eng, st *State, ev *Event, outs []Out) []Out {
	val := func(v *Term) *Term {
		if x := counterValue(v); x != nil {
			return x
		}
		return mkAppT(types.Typ[types.Int64], "parseint", v)
	}
	a, b := stripCopy(e.content(st, ev.Args[0])), stripCopy(e.content(st, ev.Args[1]))
	if counterValue(a) == nil && counterValue(b) == nil {
		return outs
	}
	var res []Out
	for _, o := range outs {
		if o.panic || len(o.res) == 0 {
			res = append(res, o)
			continue
		}
		y := Out{st: o.st.clone(), res: []*Term{tTrue}}
		if y.st.assume(o.res[0], true) && y.st.assume(tEq(val(a), val(b)), true) {
			res = append(res, y)
		}
		if o.st.assume(o.res[0], false) {
			o.res = []*Term{tFalse}
			res = append(res, o)
		}
	}
	return res
}

// counterValue: the number an encoded counter stands for.
func counterValue(v *Term) *Term {
	for {
		switch {
		case v.op == "cat" && len(v.args) == 1, v.op == "app" && (v.aux == "bytesof" || v.aux == "stringof"):
			v = v.args[0]
			continue
		case v.op == "app" && (v.aux == "fmtint" || v.aux == "be64"):
			return v.args[0]
		}
		return nil
	}
}

// seqCommitted lists the effects of the committed transactions of a path.
func seqCommitted(st *State) (res []seqRange, problem string) {
	log := st.g("seq:log")
	if log == nil {
		return
	}
	if log.op != "log" {
		return nil, "the storage operations of a path could not be followed"
	}
	for i, c := range log.args {
		if c.op != "commit" {
			continue
		}
		read := map[*Term]*Term{}
		for _, x := range log.args[:i] {
			if x.args[0] != c.args[0] {
				continue
			}
			switch x.op {
			case "rd":
				read[x.args[1]] = x.args[2]
			case "none":
				read[x.args[1]] = mk("absent", "")
			case "del":
				res = append(res, seqRange{key: x.args[1], what: "delete"})
			case "wr":
				k := x.args[1]
				hi := counterValue(x.args[2])
				if hi == nil {
					res = append(res, seqRange{key: k, what: "other"})
					continue
				}
				r := seqRange{key: k, hi: hi, what: "blind"}
				if old := read[k]; old != nil {
					r.what = "write"
					if old.op == "absent" {
						r.lo = mkInt(0)
					} else {
						r.lo = mkAppT(types.Typ[types.Int64], "parseint", stripCopy(old))
						if isBe64(x.args[2]) {
							r.lo = simplifyApp("unbe64", []*Term{prefix8(stripCopy(old))})
						}
					}
				}
				res = append(res, r)
			}
		}
	}
	return
}

func isBe64(v *Term) bool {
	for v.op == "cat" && len(v.args) == 1 {
		v = v.args[0]
	}
	return v.op == "app" && v.aux == "be64"
}

type seqMon struct {
	c      *Ctx
	w      *World
	t      *seqTarget
	recv   *Term
	lo, hi int // fields holding the range
	ints   []int
	key    *Term // of the stored counter
	name   string
	be     bool // the counter is stored as 8 bytes
}

func (m *seqMon) field(i int) *Term {
	s := m.t.typ.Underlying().(*types.Struct)
	return fieldLoc(m.recv, i, s.Field(i).Name())
}

func (m *seqMon) load(e *Eng, st *State, i int) *Term {
	s := m.t.typ.Underlying().(*types.Struct)
	return e.load(st, m.field(i), s.Field(i).Type(), nil)
}

// decoded: the number a stored counter stands for.
func (m *seqMon) decoded(v *Term) *Term {
	if m.be {
		return simplifyApp("unbe64", []*Term{prefix8(stripCopy(v))})
	}
	return mkAppT(types.Typ[types.Int64], "parseint", stripCopy(v))
}

func le(st *State, a, b *Term) bool { return st.entailsGe0(toLin(b).add(toLin(a), -1)) }

func lt(st *State, a, b *Term) bool {
	return st.entailsGe0(toLin(b).add(toLin(a), -1).add(lin{c: 1}, -1))
}

func eqInt(st *State, a, b *Term) bool { return a == b || le(st, a, b) && le(st, b, a) }

func runSequences(c *Ctx) {
	w := c.w
	for _, t := range seqTargets(w) {
		m := &seqMon{c: c, w: w, t: t, name: shortName(t.ctor.String())}
		m.construct()
	}
}

func (m *seqMon) bad(detail, where, msg string) {
	m.c.fail("sequence", m.name, detail, where, msg)
}

func (m *seqMon) construct() {
	w := m.w
	s := m.t.typ.Underlying().(*types.Struct)
	m.c.obl("constructor", m.name)
	r := &Rule{Numeric: true}
	seqHooks(r)
	e := newEng(w, r)
	e.delay = 6
	outs := m.c.run(e, nil, m.t.ctor, nil)
	// unsigned settings are not negative
	for _, o := range outs {
		if o.panic || len(o.res) == 0 || o.res[0].op != "obj" {
			continue
		}
		m.recv = o.res[0]
		for _, p := range m.t.path {
			m.recv = fieldLoc(m.recv, p.i, p.name)
		}
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && w.fixedField(m.t.typ, i) {
				if v := m.load(e, o.st, i); v.op == "sym" {
					l := toLin(v)
					if z, known := o.st.evalBool(tEq(v, mkInt(0))); known && !z {
						l = l.add(lin{c: 1}, -1)
					}
					o.st.assume(tGe0(l), true)
				}
			}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !w.fixedField(m.t.typ, i) {
			m.ints = append(m.ints, i)
		}
	}
	var good []Out
	for _, o := range outs {
		if o.panic || len(o.res) == 0 || o.res[0].op == "nil" {
			continue
		}
		if v, known := o.st.evalBool(tEq(errOf(o), tNil)); returnsErr(m.t.ctor.Signature) && known && !v {
			continue
		}
		if o.res[0].op != "obj" {
			m.bad("result", w.pos(m.t.ctor.Pos()), "not decided: the object built could not be followed")
			return
		}
		good = append(good, o)
	}
	if len(good) == 0 {
		m.bad("result", w.pos(m.t.ctor.Pos()), "not decided: no successful construction found")
		return
	}
	// which fields hold the range: those for which every construction makes sense
	found := false
	for _, a := range m.ints {
		for _, b := range m.ints {
			if a == b || found {
				continue
			}
			ok := true
			var key *Term
			for _, o := range good {
				m.recv = o.res[0]
				for _, p := range m.t.path {
					m.recv = fieldLoc(m.recv, p.i, p.name)
				}
				lo, hi := m.load(e, o.st, a), m.load(e, o.st, b)
				rs, _ := seqCommitted(o.st)
				one := false
				if os.Getenv("DBG") != "" {
					fmt.Println("C", m.name, a, b, "lo", lo, "hi", hi, "log", o.st.g("seq:log"), rs)
				}
				for _, r := range rs {
					if r.what == "write" && eqInt(o.st, r.lo, lo) && eqInt(o.st, r.hi, hi) {
						one = true
						key = r.key
					}
				}
				ok = ok && one
			}
			if ok {
				found = true
				m.lo, m.hi, m.key = a, b, key
				for _, o := range good {
					for _, x := range o.st.g("seq:log").args {
						if x.op == "wr" && x.args[1] == key {
							m.be = isBe64(x.args[2])
						}
					}
				}
			}
		}
	}
	if !found {
		m.bad("range", w.pos(m.t.ctor.Pos()), "after construction the range in memory is not one whose reservation was committed")
		return
	}
	m.c.obl("range", m.name+": ("+s.Field(m.lo).Name()+","+s.Field(m.hi).Name()+"]")
	o := good[0]
	m.recv = o.res[0]
	for _, p := range m.t.path {
		m.recv = fieldLoc(m.recv, p.i, p.name)
	}
	for _, f := range m.t.methods {
		m.method(f, o)
	}
}

// method checks one inductive step.
func (m *seqMon) method(f *ssa.Function, o Out) {
	w := m.w
	s := m.t.typ.Underlying().(*types.Struct)
	name := shortName(f.String())
	m.c.obl("method", m.name+"/"+name)
	r := &Rule{Numeric: true}
	seqHooks(r)
	e := newEng(w, r)
	e.delay = 6
	st := o.st.clone()
	st.setG("seq:log", nil)
	init := make([]*Term, s.NumFields())
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch ft.Underlying().(type) {
		case *types.Basic, *types.Slice, *types.Map:
		default:
			continue
		}
		if w.fixedField(m.t.typ, i) {
			continue
		}
		init[i] = mkFresh("sym", ft, &SymInfo{kind: "load", site: s.Field(i).Name(), name: s.Field(i).Name(), ptr: m.field(i), mayNil: isPtrLike(ft)})
		e.store(st, m.field(i), init[i], ft)
		st.setG(fmt.Sprintf("seq:f%d", i), init[i])
	}
	st.setG("seq:recv", m.recv)
	st.setG("seq:key", m.key)
	st.setG("seq:hi", init[m.hi])
	if m.be {
		st.setGS("seq:be", "1")
	}
	args := e.paramSyms(st, f)
	args[0] = m.recv
	// key of the counter as a function of the fixed parts of the object
	for _, x := range m.c.run(e, st, f, args) {
		if x.panic {
			continue
		}
		m.step(e, f, name, x)
	}
}

func (m *seqMon) step(e *Eng, f *ssa.Function, name string, o Out) {
	st := o.st
	w := m.w
	where := w.pos(f.Pos())
	bad := func(d, msg string) {
		if os.Getenv("DBG") != "" {
			fmt.Println("S", name, d, "res", o.res, "log", st.g("seq:log"))
		}
		m.bad(name+" "+d, where, name+": "+msg)
	}
	lo0, hi0 := st.g(fmt.Sprintf("seq:f%d", m.lo)), st.g(fmt.Sprintf("seq:f%d", m.hi))
	lo1, hi1 := m.load(e, st, m.lo), m.load(e, st, m.hi)
	own := []seqRange{{lo: lo0, hi: hi0, what: "own"}}
	rs, problem := seqCommitted(st)
	if problem != "" {
		bad("log", "not decided: "+problem)
		return
	}
	reset := false
	empty := le(st, hi1, lo1)
	for _, r := range rs {
		if r.key != m.key {
			if r.what == "write" || r.what == "blind" {
				continue // some other record
			}
			continue
		}
		switch r.what {
		case "delete":
			reset = true
			if n := strings.ToLower(f.Name()); !strings.Contains(n, "clear") && !strings.Contains(n, "reset") {
				bad("reset", "removes the stored counter although it is not a reset")
			}
		case "other", "blind":
			bad("blind", "the stored counter is replaced without having been read in the same transaction: another reservation can be undone")
		case "write":
			switch {
			case le(st, r.lo, r.hi):
				own = append(own, r)
			case eqInt(st, r.lo, hi0) && le(st, lo0, r.hi):
				// gives back the unused end of the range: nothing above the new
				// value may remain in use
				if !empty && !le(st, hi1, r.hi) {
					bad("returned", "numbers given back to the stored counter stay in use")
				}
			default:
				bad("lowered", "the stored counter may be set back below numbers that were reserved")
			}
		}
	}
	in := -1
	if !empty {
		for i, r := range own {
			if le(st, r.lo, lo1) && le(st, hi1, r.hi) {
				in = i
			}
		}
		if in < 0 {
			bad("range", fmt.Sprintf("leaves (%s,%s] for use, which is not known to be reserved and unused", lo1, hi1))
		}
	}
	// numbers returned earlier by callers
	s := m.t.typ.Underlying().(*types.Struct)
	var back []int
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && !w.fixedField(m.t.typ, i) {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				back = append(back, i)
			}
		}
	}
	if reset {
		for _, i := range back {
			v := m.load(e, st, i)
			n, known := st.evalBool(tEq(v, tNil))
			if !(v.op == "nil" || known && n || le(st, tLen(v), mkInt(0))) {
				bad("stale "+s.Field(i).Name(), "numbers returned before the reset stay in use after it")
			}
		}
	}
	if !strings.HasPrefix(f.Name(), "Next") {
		return
	}
	if er := errOf(o); er != nil {
		if v, known := st.evalBool(tEq(er, tNil)); known && !v {
			return
		}
	}
	m.c.obl("handed out", m.name+"/"+name)
	var sets [][3]*Term // lo, hi, source index
	switch rt := f.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Basic:
		v := o.res[0]
		if i, ok := m.popped(st, v, back); ok {
			if !m.removed(e, st, i, v) {
				bad("put back", "a number returned earlier is handed out without being taken off the list")
			}
			return
		}
		sets = append(sets, [3]*Term{tSub(v, mkInt(1)), v})
	case *types.Slice:
		es, ok := e.sliceElems(st, o.res[0], rt.Elem())
		if !ok {
			bad("result", "not decided: the ranges handed out could not be followed: "+o.res[0].String())
			return
		}
		for _, x := range es {
			es, ok := rt.Elem().Underlying().(*types.Struct)
			if !ok || es.NumFields() < 2 {
				bad("result", "not decided: unknown kind of result")
				return
			}
			sets = append(sets, [3]*Term{e.fieldOf(x, 0, es.Field(0)), e.fieldOf(x, 1, es.Field(1))})
		}
	default:
		bad("result", "not decided: unknown kind of result")
		return
	}
	src := make([]int, len(sets))
	for i, x := range sets {
		src[i] = -1
		if le(st, x[1], x[0]) {
			continue
		}
		for k, r := range own {
			if le(st, r.lo, x[0]) && le(st, x[1], r.hi) {
				src[i] = k
			}
		}
		if src[i] < 0 {
			bad("unreserved", fmt.Sprintf("hands out (%s,%s], which is not known to be reserved and unused", x[0], x[1]))
			continue
		}
		if in == src[i] && !le(st, x[1], lo1) && !le(st, hi1, x[0]) {
			bad("again", fmt.Sprintf("hands out (%s,%s] but keeps (%s,%s] for later use", x[0], x[1], lo1, hi1))
		}
		for k := 0; k < i; k++ {
			if src[k] == src[i] && !le(st, sets[k][1], x[0]) && !le(st, x[1], sets[k][0]) {
				bad("twice", "the ranges handed out overlap")
			}
		}
	}
}

// popped: v is an element of a list of returned numbers.
func (m *seqMon) popped(st *State, v *Term, back []int) (int, bool) {
	for _, i := range back {
		l := st.g(fmt.Sprintf("seq:f%d", i))
		if p := m.elemIndex(v, l); p != nil {
			return i, true
		}
	}
	return 0, false
}

func (m *seqMon) elemIndex(v, list *Term) *Term {
	v = stripConv(v)
	if v.op == "app" && v.aux == "at" && v.args[0] == list {
		return v.args[1]
	}
	if v.op == "sym" && v.info != nil && v.info.kind == "load" {
		if l, _ := v.info.ptr.(*Term); l != nil && l.op == "idx" && l.args[0] == list {
			return l.args[1]
		}
	}
	return nil
}

// removed: the element is no longer part of the list.
func (m *seqMon) removed(e *Eng, st *State, i int, v *Term) bool {
	l0 := st.g(fmt.Sprintf("seq:f%d", i))
	p := m.elemIndex(v, l0)
	l1 := m.load(e, st, i)
	if n, known := st.evalBool(tEq(l1, tNil)); l1.op == "nil" || known && n {
		return true
	}
	if l1.op == "slice" && l1.args[0] == l0 {
		return le(st, l1.args[2], p) || lt(st, p, l1.args[1])
	}
	return false
}

func init() {
	register("P16", func(c *Ctx) {
		c.rule("inductive step for every method of every sequence object, on the object its constructor builds: whatever the range in memory, the numbers handed out and the range kept are inside it or inside a range whose reservation (counter read and raised in one transaction) has been committed, and disjoint; the stored counter is only lowered from this object's own end to a value above everything it handed out; a number put back leaves the list when handed out")
		runSequences(c)
		c.rule("the range is only used and changed under the sequence's lock, which is released on every exit")
		ts := map[string]bool{}
		for _, t := range seqTargets(c.w) {
			ts[shortName(t.typ.String())] = true
		}
		c.only = func(construct, detail string) bool {
			for t := range ts {
				if strings.Contains(construct, t) || strings.Contains(detail, t) {
					return true
				}
			}
			return false
		}
		runLocks(c)
		c.only = nil
		c.need("constructor", 2)
		c.need("method", 8)
		c.need("handed out", 3)
	})
}
