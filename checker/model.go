package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// sliceElems lists the elements of a slice term when they are all known.
func (e *Eng) sliceElems(st *State, s *Term, et types.Type) ([]*Term, bool) {
	if s.op == "nil" || s.op == "empty" {
		return nil, true
	}
	if s.op == "slice" && s.args[1].op == "int" && s.args[2].op == "int" && (s.args[0].op == "obj" || s.args[0].op == "field") {
		if st.marked(s.args[0], "dirty") {
			return nil, false
		}
		if _, whole := st.heap[s.args[0]]; whole {
			return nil, false
		}
		var r []*Term
		for i := s.args[1].c; i < s.args[2].c; i++ {
			r = append(r, e.load(st, mk("idx", "", s.args[0], mkInt(i)), et, nil))
		}
		return r, true
	}
	if s.op == "app" && s.aux == "append" {
		if r, ok := e.sliceElems(st, s.args[0], et); ok {
			return append(append([]*Term{}, r...), s.args[1:]...), true
		}
	}
	return nil, false
}

// content gives the byte-string value of a []byte term (array backed slices
// whose content was written as a whole).
func (e *Eng) content(st *State, t *Term) *Term {
	if t.op == "slice" && (t.args[0].op == "obj" || t.args[0].op == "field") {
		if c, ok := st.heap[mk("mark", "content", t.args[0])]; ok {
			if t.args[1].op == "int" && t.args[1].c == 0 && t.args[2] == tLen(c) {
				return c
			}
			return mkSlice(c, t.args[1], t.args[2])
		}
		if el, ok := e.sliceElems(st, t, types.Typ[types.Uint8]); ok {
			var segs []*Term
			for _, x := range el {
				segs = append(segs, mkApp("u8", x))
			}
			return mkCat(segs...)
		}
	}
	if t.op == "make" {
		if c, ok := st.heap[mk("mark", "content", t)]; ok {
			return c
		}
		if !st.marked(t, "dirty") && t.args[0].op == "int" {
			var segs []*Term
			for i := int64(0); i < t.args[0].c && i < 32; i++ {
				v := st.heap[mk("idx", "", t, mkInt(i))]
				if v == nil {
					v = mkInt(0)
				}
				segs = append(segs, mkApp("u8", v))
			}
			return mkCat(segs...)
		}
	}
	return t
}

func (e *Eng) builtin(st *State, name string, args []*Term, cc *ssa.CallCommon, ins ssa.Instruction) []Out {
	one := func(t *Term) []Out { return []Out{{st: st, res: []*Term{t}}} }
	switch name {
	case "len":
		a := args[0]
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if a.op == "nil" {
				return one(mkInt(0))
			}
			if e.rule.Load != nil {
				e.rule.Load(e, st, ins, mk("mapall", "", a))
			}
			s := mkFresh("sym", types.Typ[types.Int], &SymInfo{kind: "nonneg", site: "len(" + locName(a) + ")"})
			return one(s)
		case *types.Pointer:
			return one(mkInt(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *types.Array:
			return one(mkInt(cc.Args[0].Type().Underlying().(*types.Array).Len()))
		}
		return one(tLen(a))
	case "cap":
		return one(mkApp("nonneg", mkApp("cap", args[0])))
	case "append":
		st0 := cc.Args[0].Type().Underlying().(*types.Slice)
		if isByteSlice(cc.Args[0].Type()) {
			a := e.content(st, args[0])
			var b *Term
			if len(args) > 1 {
				b = e.content(st, args[1])
			} else {
				b = tNil
			}
			if a.op == "nil" && (b.op == "nil" || b.op == "cat" && len(b.args) == 0) {
				return one(a)
			}
			if a.op == "slice" && a.args[2].op == "int" && a.args[2].c == 0 {
				// append(x[:0], y...): writes into x's memory
				base := a.args[0]
				r := mkApp("overwrite", base, b)
				return one(r)
			}
			return one(mkCat(a, b))
		}
		if len(args) < 2 {
			return one(args[0])
		}
		if el, ok := e.sliceElems(st, args[1], st0.Elem()); ok {
			if len(el) == 0 {
				return one(args[0])
			}
			r := mkApp("append", append([]*Term{args[0]}, el...)...)
			if e.rule.Append != nil {
				e.rule.Append(e, st, ins, args[0], el, st0.Elem())
			}
			return one(r)
		}
		if args[0].op == "nil" || args[0].op == "empty" || args[0].op == "make" && tLen(args[0]) == mkInt(0) {
			return one(mkApp("copyof", args[1]))
		}
		return one(mkApp("appends", args[0], args[1]))
	case "copy":
		d, s := args[0], args[1]
		n := mkSym(types.Typ[types.Int], "copy", "n")
		if isByteSlice(cc.Args[0].Type()) {
			src := e.content(st, s)
			if d.op == "make" && tLen(d) == tLen(src) {
				st.setHeap(mk("mark", "content", d), mkCat(src))
				st.subst(map[*Term]*Term{d: mkCat(src)})
				return one(tLen(src))
			}
			if d.op == "slice" && (d.args[0].op == "obj" || d.args[0].op == "field" || d.args[0].op == "make") {
				st.mark(d.args[0], "dirty")
				st.setHeap(mk("mark", "content", d.args[0]), nil)
			}
		} else if d.op == "make" && tLen(d) == tLen(s) {
			st.subst(map[*Term]*Term{d: mkApp("copyof", s)})
			return one(tLen(s))
		}
		if b := locBase(d); b.op == "slice" || b.op == "make" {
			st.mark(b, "dirty")
		}
		if e.rule.Store != nil {
			e.rule.Store(e, st, ins, mk("idx", "", d, n), s)
		}
		return one(n)
	case "delete":
		m, k := args[0], args[1]
		if e.rule.Store != nil {
			e.rule.Store(e, st, ins, mk("mapel", "", m, k), mk("deleted", ""))
		}
		for l := range st.heap {
			if (l.op == "mapel" || l.op == "mapok") && l.args[0] == m {
				st.setHeap(l, nil)
			}
		}
		st.mark(m, "dirty")
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		st.setHeap(mk("mapel", "", m, k), e.zero(mt.Elem()))
		st.setHeap(mk("mapok", "", m, k), tFalse)
		return []Out{{st: st}}
	case "recover":
		f := st.top()
		// recover runs inside a deferred function: the panicking frame is the caller
		if n := len(st.frames); n >= 2 && st.frames[n-2].panick {
			st.wframe(n - 2).recov = true
			return one(mkFresh("sym", types.NewInterfaceType(nil, nil), &SymInfo{kind: "call", site: "recover"}).nonNilIn(st))
		}
		_ = f
		return one(tNil)
	case "min", "max":
		return one(mkApp(name, args...))
	case "close":
		if e.rule.After != nil {
			e.rule.After(e, st, &Event{Name: "builtin.close", Args: args, Sig: cc.Signature(), Instr: ins, Fn: ins.Parent(), Kind: "call"}, nil)
		}
		return []Out{{st: st}}
	}
	return []Out{{st: st}}
}

func (t *Term) nonNilIn(st *State) *Term {
	st.setFact(tEq(t, tNil), false)
	return t
}

// fallible forks an external call into success and failure.
func (e *Eng) pureApp(ev *Event, name string) *Term {
	return simplifyApp(name, ev.Args)
}

// model gives the meaning of well known library functions.
func (e *Eng) model(st *State, ev *Event) ([]Out, bool) {
	one := func(ts ...*Term) ([]Out, bool) { return []Out{{st: st, res: ts}}, true }
	n := ev.Name
	if outs, ok := e.pbModel(st, ev); ok {
		return outs, true
	}
	if outs, ok := e.codecModel(st, ev); ok {
		return outs, true
	}
	switch n {
	case "(context.Context).Err":
		s := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "call", site: "Context.Err", name: n, ev: ev})
		if st.marked(ev.Args[0], "over") {
			s.nonNilIn(st)
		}
		return one(s)
	case "time.Sleep":
		if e.rule.Wait != nil {
			e.rule.Wait(e, st)
		}
		return []Out{{st: st}}, true
	case "errors.New", "fmt.Errorf":
		s := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "newerr", site: e.pos(ev.Instr), name: n})
		s.nonNilIn(st)
		return one(s)
	case "fmt.Sprintf":
		if v := e.sprintf(st, ev); v != nil {
			return one(v)
		}
		s := mkFresh("sym", types.Typ[types.String], &SymInfo{kind: "string", site: n, name: n})
		return one(s)
	case "(error).Error", "fmt.Sprint", "(fmt.Stringer).String":
		s := mkFresh("sym", types.Typ[types.String], &SymInfo{kind: "string", site: n, name: n})
		return one(s)
	case "bytes.HasPrefix", "bytes.HasSuffix", "strings.HasPrefix", "bytes.Contains":
		if strings.HasSuffix(n, "HasPrefix") {
			if r := hasPrefixTerm(stripCopy(e.content(st, ev.Args[0])), stripCopy(e.content(st, ev.Args[1]))); r != nil {
				return one(r)
			}
		}
		return one(mkApp(n, stripCopy(e.content(st, ev.Args[0])), stripCopy(e.content(st, ev.Args[1]))))
	case "bytes.Equal":
		a, b := stripCopy(e.content(st, ev.Args[0])), stripCopy(e.content(st, ev.Args[1]))
		if a == b {
			return one(tTrue)
		}
		if a.id > b.id {
			a, b = b, a
		}
		if (a.op == "nil" || b.op == "nil") && (a.op == "cat" && len(a.args) == 0 || b.op == "cat" && len(b.args) == 0) {
			return one(tTrue)
		}
		return one(mkApp(n, a, b))
	case "bytes.Compare":
		return one(mkAppT(types.Typ[types.Int], n, stripCopy(e.content(st, ev.Args[0])), stripCopy(e.content(st, ev.Args[1]))))
	case "strconv.FormatInt":
		if ev.Args[1] == mkInt(10) {
			return one(mkAppT(types.Typ[types.String], "fmtint", ev.Args[0]))
		}
	case "strconv.ParseInt":
		if ev.Args[1] == mkInt(10) && ev.Args[2] == mkInt(64) {
			s := ev.Args[0]
			for s.op == "app" && (s.aux == "stringof" || s.aux == "bytesof") || s.op == "cat" && len(s.args) == 1 {
				s = stripCopy(e.content(st, s.args[0]))
			}
			if s.op == "app" && s.aux == "fmtint" {
				return one(s.args[0], tNil)
			}
			r := e.freshResults(ev)
			r[0] = mkAppT(types.Typ[types.Int64], "parseint", s)
			return one(r...)
		}
	case "github.com/zhiqiangxu/util.Slice":
		return one(mkApp("bytesof", ev.Args[0]))
	case "github.com/zhiqiangxu/util.String":
		return one(mkApp("stringof", ev.Args[0]))
	case "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		d, v := ev.Args[1], ev.Args[2]
		fn := "be64"
		if strings.HasSuffix(n, "32") {
			fn = "be32"
		}
		if strings.Contains(n, "little") {
			fn = "le64"
		}
		c := mkCat(simplifyApp(fn, []*Term{v}))
		if d.op == "slice" && (d.args[0].op == "obj" || d.args[0].op == "field") && d.args[1] == mkInt(0) {
			st.setHeap(mk("mark", "content", d.args[0]), c)
		} else if d.op == "make" && d.args[0] == mkInt(8) {
			st.subst(map[*Term]*Term{d: c})
		} else if b := locBase(d); b.op == "slice" || b.op == "make" {
			st.mark(b, "dirty")
		}
		return []Out{{st: st}}, true
	case "(encoding/binary.bigEndian).Uint64", "(encoding/binary.littleEndian).Uint64":
		fn := "unbe64"
		if strings.Contains(n, "little") {
			fn = "unle64"
		}
		if e.rule.Bounds != nil && !st.entailsGe0(toLin(tLen(ev.Args[1])).add(lin{c: 8}, -1)) {
			e.rule.Bounds(e, st, ev.Instr, "8-byte read from a buffer of length "+tLen(ev.Args[1]).String())
		}
		r := simplifyApp(fn, []*Term{prefix8(e.content(st, ev.Args[1]))})
		return one(r)
	case "encoding/binary.Varint", "encoding/binary.Uvarint":
		// the number of bytes read is at most the length of the buffer
		v := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "varint", site: n, name: n, ptr: ev.Args[0]})
		k := mkFresh("sym", ev.Sig.Results().At(1).Type(), &SymInfo{kind: "varintlen", site: n, name: n, ptr: ev.Args[0]})
		st.setFact(tGe0(toLin(tLen(ev.Args[0])).add(toLin(k), -1)), true)
		return one(v, k)
	case "encoding/binary.PutVarint", "encoding/binary.PutUvarint":
		k := mkFresh("sym", types.Typ[types.Int], &SymInfo{kind: "nonneg", site: n})
		st.setFact(tGe0(lin{c: 10}.add(toLin(k), -1)), true)
		if b := locBase(ev.Args[0]); b.op == "slice" || b.op == "make" {
			st.mark(b, "dirty")
			if b.op == "slice" {
				st.mark(b.args[0], "dirty")
			}
		}
		return one(k)
	case "sync/atomic.LoadUint32", "sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64":
		// shared: the value may have changed since it was last read
		loc := ev.Args[0]
		v := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "load", site: locName(loc), name: "atomic:" + locKind(loc)})
		st.setHeap(loc, v)
		return one(v)
	case "sync/atomic.StoreUint32", "sync/atomic.StoreInt32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint64":
		if e.rule.Store != nil {
			e.rule.Store(e, st, ev.Instr, ev.Args[0], ev.Args[1])
		}
		st.setHeap(ev.Args[0], ev.Args[1])
		return []Out{{st: st}}, true
	case "(*sync.Once).Do":
		s2 := st.clone()
		outs := []Out{{st: s2}}
		outs = append(outs, e.callValue(st, ev.Args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), ev.Instr, "call")...)
		for i := range outs {
			outs[i].res = nil
		}
		return outs, true
	case "github.com/zhiqiangxu/util.RunWithRecovery":
		var res []Out
		sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
		for _, o := range e.callValue(st, ev.Args[0], nil, sig, ev.Instr, "call") {
			if o.panic {
				// the recovery function runs
				if ev.Args[1].op == "nil" {
					res = append(res, Out{st: o.st})
					continue
				}
				pv := mkFresh("sym", nil, &SymInfo{kind: "panic", site: "recovered"})
				for _, q := range e.callValue(o.st, ev.Args[1], []*Term{pv}, sig, ev.Instr, "call") {
					q.res = nil
					res = append(res, q)
				}
				continue
			}
			o.res = nil
			res = append(res, o)
		}
		return res, true
	case "github.com/zhiqiangxu/util.TryUntilSuccess":
		// repeat until it returns true
		sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
		outs := e.repeatCall(st, ev.Args[0], func(s *State) []*Term {
			if e.rule.Wait != nil {
				e.rule.Wait(e, s)
			}
			return nil
		}, sig, ev.Instr, false)
		var res []Out
		for _, o := range outs {
			if o.panic || o.why != "end" {
				o.why = ""
				o.res = nil
				res = append(res, o)
			}
		}
		return res, true
	case "(*github.com/dgraph-io/badger.Item).Value":
		// hands the value to the function, or fails before that
		s2 := st.clone()
		er := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "call", site: shortEv(n), name: n, ev: ev})
		er.nonNilIn(s2)
		outs := []Out{{st: s2, res: []*Term{er}}}
		sig := ev.Sig.Params().At(0).Type().Underlying().(*types.Signature)
		v := mkFresh("sym", sig.Params().At(0).Type(), &SymInfo{kind: "itemvalue", site: shortEv(n), name: n, ev: ev, ptr: ev.Args[0]})
		for _, o := range e.callValue(st, ev.Args[1], []*Term{v}, sig, ev.Instr, "callback") {
			outs = append(outs, o)
		}
		return outs, true
	case "(*sync.Map).Range":
		sig := ev.Sig.Params().At(0).Type().Underlying().(*types.Signature)
		outs := e.repeatCall(st, ev.Args[1], func(*State) []*Term {
			return []*Term{mkSym(sig.Params().At(0).Type(), "load", n), mkSym(sig.Params().At(1).Type(), "load", n)}
		}, sig, ev.Instr, true)
		for i := range outs {
			outs[i].res, outs[i].why = nil, ""
		}
		return outs, true
	case "sort.Slice", "sort.Sort", "sort.Strings", "sort.SliceStable":
		if e.rule.Store != nil {
			e.rule.Store(e, st, ev.Instr, mk("idx", "", unIface(ev.Args[0]), mkSym(nil, "sort", "i")), mk("sorted", ""))
		}
		s := unIface(ev.Args[0])
		b := s
		for b.op == "slice" {
			b = b.args[0]
		}
		for l := range st.heap {
			if l.op == "idx" && (l.args[0] == s || l.args[0] == b) || l.op == "field" && l.args[0].op == "idx" && (l.args[0].args[0] == s || l.args[0].args[0] == b) {
				st.setHeap(l, nil)
			}
		}
		if b.op == "obj" || b.op == "make" {
			st.mark(b, "dirty")
		}
		return []Out{{st: st}}, true
	case "(*sync/atomic.Value).Load":
		loc := mk("field", "atomic", ev.Args[0])
		v := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "load", site: locName(ev.Args[0]), name: "atomicvalue", mayNil: true})
		st.setHeap(loc, v)
		return one(v)
	case "(*sync/atomic.Value).Store":
		loc := mk("field", "atomic", ev.Args[0])
		if e.rule.Store != nil {
			e.rule.Store(e, st, ev.Instr, loc, ev.Args[1])
		}
		st.setHeap(loc, ev.Args[1])
		return []Out{{st: st}}, true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		// whatever the lock protects may have changed
		if l := ev.Args[0]; l.op == "field" {
			e.forgetFields(st, l.args[0], l)
		}
		return []Out{{st: st}}, true
	}
	return nil, false
}

// sprintf spells out a formatted string made of constants, strings and
// integers; nil when it is something else.
func (e *Eng) sprintf(st *State, ev *Event) *Term {
	f := ev.Args[0]
	if !isStrConst(f) {
		return nil
	}
	args, ok := e.sliceElems(st, ev.Args[1], types.NewInterfaceType(nil, nil))
	if !ok {
		return nil
	}
	var out []*Term
	text := constant.StringVal(f.val)
	for text != "" {
		i := strings.IndexByte(text, '%')
		if i < 0 {
			out = append(out, mkStr(text))
			break
		}
		if i > 0 {
			out = append(out, mkStr(text[:i]))
		}
		if i+1 >= len(text) {
			return nil
		}
		verb := text[i+1]
		text = text[i+2:]
		if verb == '%' {
			out = append(out, mkStr("%"))
			continue
		}
		if len(args) == 0 || args[0].op != "iface" {
			return nil
		}
		a := args[0]
		args = args[1:]
		if a.typ == nil || hasMethod(a.typ, "String") || hasMethod(a.typ, "Error") || hasMethod(a.typ, "Format") {
			return nil
		}
		b, basic := a.typ.Underlying().(*types.Basic)
		switch {
		case (verb == 's' || verb == 'v') && basic && b.Info()&types.IsString != 0:
			out = append(out, a.args[0])
		case verb == 's' && isByteSlice(a.typ):
			out = append(out, e.content(st, a.args[0]))
		case (verb == 'd' || verb == 'v') && basic && b.Info()&types.IsInteger != 0:
			out = append(out, mkAppT(types.Typ[types.String], "fmtint", a.args[0]))
		default:
			return nil
		}
	}
	if len(args) != 0 {
		return nil
	}
	return mkCat(out...)
}

func unIface(t *Term) *Term {
	if t.op == "iface" {
		return t.args[0]
	}
	return t
}

func prefix8(t *Term) *Term {
	t = stripCopy(t)
	if t.op == "cat" && len(t.args) > 0 && t.args[0].op == "app" && t.args[0].aux == "be64" {
		return t.args[0]
	}
	if t.op == "slice" && t.args[1] == mkInt(0) && t.args[2] == mkInt(8) {
		return t
	}
	if tLen(t) == mkInt(8) {
		return t
	}
	return mkSlice(t, mkInt(0), mkInt(8))
}

// forgetFields drops what is known about the fields of a shared object.
func (e *Eng) forgetFields(st *State, base, except *Term) {
	if r := locBase(base); r.op == "obj" {
		return // not yet shared
	}
	for l := range st.heap {
		if l.op == "field" && l.args[0] == base && l != except {
			st.setHeap(l, nil)
		}
	}
}

// explore runs step from st and from every state it leads to, to a fixed point.
// The states visited are returned.
func (e *Eng) explore(st *State, step func(*State) []*State) []*State {
	seen := map[string]bool{}
	heads := map[string][]*State{}
	work := []*State{st}
	nj := map[string]int{}
	var res []*State
	for len(work) > 0 && e.undecided == "" {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		k := s.canon()
		if seen[k] {
			continue
		}
		seen[k] = true
		sk := s.shapeKey()
		l := heads[sk]
		if len(l) < e.delay+1 {
			heads[sk] = append(l, s.clone())
		} else {
			nj[sk]++
			j := joinStates(l[len(l)-1], s, nj[sk])
			e.joins++
			jk := j.canon()
			if seen[jk] {
				nj[sk]-- // nothing new
				continue
			}
			seen[jk] = true
			l[len(l)-1] = j.clone()
			s = j
		}
		if len(seen) > 2000 {
			e.undecided = "history did not stabilise"
			return res
		}
		res = append(res, s.clone())
		work = append(work, step(s)...)
	}
	return res
}

// repeatCall models a library function that calls f any number of times, until
// it returns stop (or, when open, until the data ends). Outcomes carry why
// "stop" or "end".
func (e *Eng) repeatCall(st *State, f *Term, mkArgs func(*State) []*Term, sig *types.Signature, ins ssa.Instruction, stopOn bool) []Out {
	var outs []Out
	seen := map[string]bool{}
	heads := map[string][]*State{}
	work := []*State{st}
	outSeen := map[string]bool{}
	nj := map[string]int{}
	add := func(o Out) {
		k := o.why + o.st.canon(o.res...)
		if o.panic {
			k = "p" + k
		}
		if !outSeen[k] {
			outSeen[k] = true
			outs = append(outs, o)
		}
	}
	for len(work) > 0 && e.undecided == "" {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		k := s.canon()
		if seen[k] {
			continue
		}
		seen[k] = true
		sk := s.shapeKey()
		l := heads[sk]
		if len(l) < e.delay {
			heads[sk] = append(l, s.clone())
		} else {
			nj[sk]++
			j := joinStates(l[len(l)-1], s, nj[sk])
			e.joins++
			jk := j.canon()
			if seen[jk] {
				nj[sk]-- // nothing new
				continue
			}
			seen[jk] = true
			l[len(l)-1] = j.clone()
			s = j
		}
		if len(seen) > 400 {
			e.undecided = "callback loop did not stabilise at " + e.pos(ins)
			return outs
		}
		add(Out{st: s.clone(), why: "end"})
		args := mkArgs(s)
		for _, o := range e.callValue(s, f, args, sig, ins, "callback") {
			if o.panic {
				add(o)
				continue
			}
			r := tTrue
			if len(o.res) > 0 {
				r = o.res[0]
			} else {
				r = mkBool(!stopOn)
			}
			if v, known := o.st.evalBool(r); known {
				if v == stopOn {
					work = append(work, o.st)
				} else {
					add(Out{st: o.st, why: "stop"})
				}
				continue
			}
			s2 := o.st.clone()
			if s2.assume(r, stopOn) {
				work = append(work, s2)
			}
			if o.st.assume(r, !stopOn) {
				add(Out{st: o.st, why: "stop"})
			}
		}
	}
	return outs
}
