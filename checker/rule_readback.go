package main

import (
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P21: what is stored can be read back.

// ---- A: the formats keep every part

type formats struct {
	c     *Ctx
	seen  map[string]bool
	heldO map[*types.Named]bool // types with parts that are stored by other means
	uses  []codecUse
}

// codecUse is a use of the library's format for a type of this program.
type codecUse struct {
	fn  *ssa.Function
	n   *types.Named
	dec bool
	at  string
}

func libCodec(cc *ssa.CallCommon) (lib string, arg int) {
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil {
		return "", 0
	}
	p := f.Pkg.Pkg.Path()
	switch {
	case p == "encoding/json" && (f.Name() == "Marshal" || f.Name() == "MarshalIndent"), strings.HasSuffix(p, "/bson") && f.Name() == "Marshal":
		return p[strings.LastIndex(p, "/")+1:], 0
	case p == "encoding/json" && f.Name() == "Unmarshal", strings.HasSuffix(p, "/bson") && f.Name() == "Unmarshal":
		return p[strings.LastIndex(p, "/")+1:], 1
	}
	return "", 0
}

func (f *formats) run() {
	w := f.c.w
	for _, fn := range w.allFuncs() {
		w.calls(fn, func(cc *ssa.CallCommon) {
			lib, i := libCodec(cc)
			if lib == "" || i >= len(cc.Args) {
				return
			}
			if mi, ok := cc.Args[i].(*ssa.MakeInterface); ok {
				if n, ok := types.Unalias(deref(mi.X.Type())).(*types.Named); ok {
					f.uses = append(f.uses, codecUse{fn, n, i == 1, w.pos(cc.Pos())})
				}
				f.visit(lib, mi.X.Type(), shortName(fn.String()))
			}
		})
		// arguments kept in an interface part
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						st, _ := deref(fa.X.Type()).Underlying().(*types.Struct)
						if st != nil && st.Field(fa.Field).Name() == "Arg" && jsonName(st, fa.Field) == "-" {
							if mi, ok := s.Val.(*ssa.MakeInterface); ok {
								f.visit("json", mi.X.Type(), shortName(fn.String()))
							}
						}
					}
				}
			}
		}
	}
}

// jsonName is the name a part is stored under ("-": not stored).
func jsonName(s *types.Struct, i int) string { return partName("json", s, i) }

func partName(lib string, s *types.Struct, i int) string {
	tag := reflect.StructTag(s.Tag(i)).Get(lib)
	if tag == "-" {
		return "-"
	}
	n, _, _ := strings.Cut(tag, ",")
	if n != "" {
		return n
	}
	if lib == "bson" {
		return strings.ToLower(s.Field(i).Name())
	}
	return s.Field(i).Name()
}

func (f *formats) visit(lib string, t types.Type, from string) {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		f.visit(lib, u.Elem(), from)
		return
	case *types.Slice:
		f.visit(lib, u.Elem(), from)
		return
	case *types.Array:
		f.visit(lib, u.Elem(), from)
		return
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			f.c.fail("format", from, "key-"+t.String(), "-", from+": a map with keys of type "+u.Key().String()+" can not be stored")
		}
		f.visit(lib, u.Elem(), from)
		return
	case *types.Chan, *types.Signature:
		f.c.fail("format", from, "part-"+t.String(), "-", from+": a part of type "+t.String()+" can not be stored")
		return
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			f.c.fail("format", from, "part-"+t.String(), "-", from+": a part of type "+t.String()+" can not be stored")
		}
		return
	case *types.Interface:
		if u.NumMethods() > 0 {
			f.c.fail("format", from, "part-"+t.String(), "-", from+": a part of type "+t.String()+" is stored but can not be read back")
		} else if lib == "json" {
			f.c.fail("format", from, "part-"+t.String(), "-", from+": a part of any type is read back as another type")
		}
		return
	case *types.Named:
		if u.Obj().Pkg() == nil {
			f.visit(lib, u.Underlying(), from)
			return
		}
		if !strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
			if _, ok := u.Underlying().(*types.Basic); !ok && u.Obj().Pkg().Path() != "encoding/json" {
				return // formats of libraries are their own
			}
			return
		}
		k := lib + ":" + u.String()
		if f.seen[k] {
			return
		}
		f.seen[k] = true
		for _, n := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "MarshalBSON", "UnmarshalBSON"} {
			if hasMethod(types.NewPointer(u), n) {
				f.c.fail("format", u.Obj().Name(), "custom", "-", "the stored format of "+u.Obj().Name()+" is made by its own "+n+", which this rule does not follow")
			}
		}
		s, ok := u.Underlying().(*types.Struct)
		if !ok {
			f.visit(lib, u.Underlying(), from)
			return
		}
		f.c.obl("format", lib+" "+u.Obj().Name())
		f.parts(lib, s, u.Obj().Name(), u)
	case *types.Struct:
		f.parts(lib, u, "a structure of "+from, nil)
	}
}

func (f *formats) parts(lib string, s *types.Struct, name string, n *types.Named) {
	used := map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		at := f.c.w.pos(v.Pos())
		if b, ok := v.Type().Underlying().(*types.Struct); ok && b.NumFields() == 0 {
			continue
		}
		if v.Embedded() && v.Exported() {
			if st, ok := deref(v.Type()).Underlying().(*types.Struct); ok && partName(lib, s, i) == v.Name() {
				f.parts(lib, st, name, nil)
				continue
			}
		}
		pn := partName(lib, s, i)
		if pn == "-" {
			if n == nil || lib != "json" {
				f.c.fail("format", name+"."+v.Name(), "left-out", at, name+"."+v.Name()+" is left out of what is stored")
			} else {
				f.heldO[n] = true
			}
			continue
		}
		if !v.Exported() {
			f.c.fail("format", name+"."+v.Name(), "unexported", at, name+"."+v.Name()+" is not stored: its name is not exported")
			continue
		}
		if o := used[pn]; o != "" {
			f.c.fail("format", name+"."+v.Name(), "name", at, name+"."+v.Name()+" and "+o+" are stored under the same name")
		}
		used[pn] = v.Name()
		f.visit(lib, v.Type(), name+"."+v.Name())
	}
}

// holdsError: a part that is left out is an error.
func holdsError(n *types.Named) bool {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if partName("json", s, i) == "-" && isErrorType(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// ---- B: the parts that are stored by other means

type partMon struct {
	c   *Ctx
	n   *types.Named
	s   *types.Struct
	e   *Eng
	f   *ssa.Function
	p   *Term
	out map[int]int // left out part -> the stored part that stands for it
}

func (m *partMon) name(i int) string { return m.n.Obj().Name() + "." + m.s.Field(i).Name() }

func (m *partMon) load(st *State, p *Term, i int) *Term {
	return m.e.load(st, fieldLoc(p, i, m.s.Field(i).Name()), m.s.Field(i).Type(), nil)
}

// stands finds the stored part that stands for one that is left out.
func (m *partMon) stands(i int) int {
	v := m.s.Field(i)
	for k := 0; k < m.s.NumFields(); k++ {
		o := m.s.Field(k)
		if k == i || partName("json", m.s, k) == "-" {
			continue
		}
		isErr := isErrorType(v.Type())
		b, isStr := o.Type().Underlying().(*types.Basic)
		if isErr && isStr && b.Kind() == types.String && strings.HasPrefix(o.Name(), v.Name()) {
			return k
		}
		if !isErr && strings.HasSuffix(o.Name(), v.Name()) && strings.HasSuffix(o.Type().String(), "json.RawMessage") {
			return k
		}
	}
	return -1
}

func runParts(c *Ctx, n *types.Named) {
	m := &partMon{c: c, n: n, s: n.Underlying().(*types.Struct), out: map[int]int{}}
	args := false
	for i := 0; i < m.s.NumFields(); i++ {
		if partName("json", m.s, i) != "-" {
			continue
		}
		k := m.stands(i)
		if k < 0 {
			c.fail("parts", m.name(i), "left-out", c.w.pos(m.s.Field(i).Pos()), m.name(i)+" is left out of what is stored and nothing stands for it")
			continue
		}
		m.out[i] = k
		args = args || !isErrorType(m.s.Field(i).Type())
	}
	method := func(name string) *ssa.Function {
		for _, f := range c.w.funcs {
			if f.Signature.Recv() != nil && recvNamed(f) == n && f.Name() == name && f.Synthetic == "" {
				return f
			}
		}
		c.fail("parts", n.Obj().Name(), "no-"+name, "-", n.Obj().Name()+" has parts that are stored by other means but no "+name)
		return nil
	}
	if f := method("Encode"); f != nil {
		m.encode(f)
	}
	if f := method("Decode"); f != nil {
		m.decode(f)
	}
	if args {
		if f := method("DecodeArg"); f != nil {
			m.decodeArg(f)
		}
	}
}

func (m *partMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.c.w.pos(m.f.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	m.c.fail("parts", shortName(m.f.String()), detail, at, shortName(m.f.String())+": "+msg)
}

func failing(st *State, res []*Term) bool {
	v, known := st.evalBool(tEq(res[len(res)-1], tNil))
	return known && !v
}

// snapshot of all parts.
func (m *partMon) snap(st *State, p *Term) *Term {
	var a []*Term
	for i := 0; i < m.s.NumFields(); i++ {
		a = append(a, m.load(st, p, i))
	}
	return mk("tuple", "", a...)
}

func (m *partMon) start(f *ssa.Function, r *Rule) (*State, []*Term) {
	m.f = f
	m.e = newEng(m.c.w, r)
	st := newState()
	args := m.e.paramSyms(st, f)
	m.p = args[0]
	st.setG("b.recv", m.p)
	for i, a := range args {
		st.setG("b.arg"+strconv.Itoa(i), a)
	}
	st.setG("b.init", m.snap(st, m.p))
	m.c.obl("parts", shortName(f.String()))
	return st, args
}

func (m *partMon) encode(f *ssa.Function) {
	r := &Rule{Numeric: true}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static == nil || ev.Static.String() != "encoding/json.Marshal" {
			return nil, false
		}
		res := e.freshResults(ev)
		er := Out{st: st.clone(), res: e.freshResults(ev)}
		er.res[1].nonNilIn(er.st)
		res[1] = tNil
		a := ev.Args[0]
		x := unIface(a)
		whole := x == m.p
		if x.typ != nil && !whole && types.Identical(deref(x.typ), m.n) && x.op == "struct" {
			whole = true
		}
		if whole {
			st.setG("b.out", mk("tuple", "", res[0], m.snap(st, m.p)))
		} else {
			for i, k := range m.out {
				// only what has been decoded, or never stored, can be stored anew
				if was := st.g("b.init").args[i]; (was == a || unIface(was) == x) && !isEmpty(st, st.g("b.init").args[k]) && !st.nonNil(was) {
					st.setGS("b.anew", "yes")
				}
			}
			res[0] = mkAppT(types.NewSlice(types.Typ[types.Byte]), "json", a)
			st.assume(tGe0(toLin(tSub(tLen(res[0]), mkInt(1)))), true)
		}
		return []Out{{st: st, res: res}, er}, true
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if strings.HasSuffix(ev.Name, ".Error") && len(ev.Args) > 0 {
			for _, o := range outs {
				o.st.setG("b.msg", mk("tuple", "", ev.Args[0], o.res[0]))
			}
		}
		return outs
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f || failing(st, res) {
			return
		}
		o := st.g("b.out")
		if o == nil || len(res) != 2 || stripWhole(res[0]) != o.args[0] {
			m.bad("result", nil, "reports success without returning the stored form of the whole record")
			return
		}
		init := st.g("b.init")
		for i := 0; i < m.s.NumFields(); i++ {
			was, now := init.args[i], o.args[1].args[i]
			if k, left := m.out[i]; left {
				now = o.args[1].args[k]
				switch {
				case isErrorType(m.s.Field(i).Type()):
					msg := st.g("b.msg")
					switch {
					case was == tNil || st.isNil(was):
						if same(st, now, mkStr("")) != 1 {
							m.bad("stale-"+m.s.Field(k).Name(), nil, "stores a message although "+m.name(i)+" is nil")
						}
					case msg == nil || msg.args[0] != was || msg.args[1] != now:
						m.bad("missing-"+m.s.Field(k).Name(), nil, "does not store the message of "+m.name(i))
					}
				default:
					raw := init.args[k]
					switch {
					case now == raw:
						if !isNonEmpty(st, raw) {
							m.bad("missing-"+m.s.Field(k).Name(), nil, "does not store "+m.name(i)+" when it has not been stored before")
						}
					case now.op == "app" && now.aux == "json" && (now.args[0] == was || unIface(now.args[0]) == unIface(was)):
						if st.gs("b.anew") != "" {
							m.bad("forgets-"+m.s.Field(k).Name(), nil, "stores "+m.name(i)+" anew although only its stored form may be there")
						}
					default:
						m.bad("other-"+m.s.Field(k).Name(), nil, "stores something else for "+m.name(i))
					}
				}
				continue
			}
			stood := false
			for _, k := range m.out {
				stood = stood || k == i
			}
			if !stood && was != now && same(st, was, now) != 1 {
				m.bad("changed-"+m.s.Field(i).Name(), nil, "stores another "+m.name(i)+" than the record's")
			}
		}
	}
	st, args := m.start(f, r)
	m.c.run(m.e, st, f, args)
}

func (m *partMon) decode(f *ssa.Function) {
	r := &Rule{}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static == nil {
			return nil, false
		}
		switch ev.Static.String() {
		case "encoding/json.Unmarshal":
			x := unIface(ev.Args[1])
			er := Out{st: st.clone(), res: e.freshResults(ev)}
			er.res[0].nonNilIn(er.st)
			e.havocArg(st, ev.Args[1], ev)
			if x.typ != nil && types.Identical(deref(x.typ), m.n) {
				if stripWhole(ev.Args[0]) != st.g("b.arg1") {
					m.bad("bytes", ev.Instr, "decodes other bytes than it was given")
				}
				st.setG("b.in", m.snap(st, x))
			}
			return []Out{{st: st, res: []*Term{tNil}}, er}, true
		case "errors.New":
			v := e.freshResults(ev)
			v[0].nonNilIn(st)
			st.setG("b.err", mk("tuple", "", v[0], ev.Args[0]))
			return []Out{{st: st, res: v}}, true
		}
		return nil, false
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f || failing(st, res) {
			return
		}
		in := st.g("b.in")
		if in == nil {
			m.bad("nothing", nil, "reports success without decoding the record")
			return
		}
		for i := 0; i < m.s.NumFields(); i++ {
			now := m.load(st, m.p, i)
			k, left := m.out[i]
			switch {
			case !left:
				if now != in.args[i] && same(st, now, in.args[i]) != 1 {
					m.bad("changed-"+m.s.Field(i).Name(), nil, m.name(i)+" is not the one that was stored")
				}
			case isErrorType(m.s.Field(i).Type()):
				msg := in.args[k]
				er := st.g("b.err")
				switch {
				case isEmpty(st, msg):
					if now != tNil && !st.isNil(now) {
						m.bad("stale-"+m.s.Field(i).Name(), nil, "leaves "+m.name(i)+" although there was none")
					}
				case er == nil || er.args[0] != now || er.args[1] != msg:
					m.bad("lost-"+m.s.Field(i).Name(), nil, "does not restore "+m.name(i)+" from the stored "+m.s.Field(k).Name())
				}
			}
		}
	}
	st, args := m.start(f, r)
	m.c.run(m.e, st, f, args)
}

func (m *partMon) decodeArg(f *ssa.Function) {
	arg, raw := -1, -1
	for i, k := range m.out {
		if !isErrorType(m.s.Field(i).Type()) {
			arg, raw = i, k
		}
	}
	r := &Rule{}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Static == nil || ev.Static.String() != "encoding/json.Unmarshal" {
			return nil, false
		}
		if stripWhole(ev.Args[0]) != st.g("b.init").args[raw] {
			m.bad("bytes", ev.Instr, "decodes something else than "+m.name(raw))
		}
		if unIface(ev.Args[1]) != unIface(st.g("b.arg1")) {
			m.bad("into", ev.Instr, "decodes into something else than it was given")
		}
		st.setG("b.in", tTrue)
		er := Out{st: st.clone(), res: e.freshResults(ev)}
		er.res[0].nonNilIn(er.st)
		return []Out{{st: st, res: []*Term{tNil}}, er}, true
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f || failing(st, res) {
			return
		}
		if st.g("b.in") == nil {
			m.bad("nothing", nil, "reports success without decoding "+m.name(raw))
			return
		}
		for i := 0; i < m.s.NumFields(); i++ {
			now, want := m.load(st, m.p, i), st.g("b.init").args[i]
			if i == arg {
				want = st.g("b.arg1")
			}
			if now != want && unIface(now) != unIface(want) && same(st, now, want) != 1 {
				m.bad("part-"+m.s.Field(i).Name(), nil, "leaves another "+m.name(i)+" than the decoded one")
			}
		}
	}
	st, args := m.start(f, r)
	m.c.run(m.e, st, f, args)
}

// ---- C: readers and writers of a key agree

// shape is a key with its variable parts left open.
func keyShape(t *Term) string {
	t = stripConv(stripCopy(t))
	switch t.op {
	case "const", "int":
		return t.String()
	case "cat", "tuple":
		var s []string
		for _, a := range t.args {
			s = append(s, keyShape(a))
		}
		return strings.Join(s, "")
	case "app":
		switch t.aux {
		case "bytesof", "stringof":
			return keyShape(t.args[0])
		case "fmtint", "be64", "enc:bytes", "enc:varint":
			return "<" + t.aux + ">"
		case "append", "appends":
			s := ""
			for _, a := range t.args {
				s += keyShape(a)
			}
			return s
		}
	}
	if t.op == "global" || strings.HasPrefix(t.String(), "load:") || t.op == "sym" && t.info != nil && t.info.kind == "load" {
		return "{" + t.String() + "}"
	}
	return "<" + t.op + ">"
}

func writeKind(o *recOp) string {
	switch o.op {
	case "SetInt64", "Inc", "HSetInt64", "HInc":
		return "int"
	}
	v := stripWhole(stripCopy(o.val))
	for v.op == "conv" || v.op == "app" && (v.aux == "bytesof" || v.aux == "stringof") || v.op == "cat" && len(v.args) == 1 {
		v = v.args[0]
	}
	if v.op == "app" {
		switch v.aux {
		case "json":
			if t := v.args[0].typ; t != nil {
				return "json " + types.TypeString(deref(t), (*types.Package).Name)
			}
		case "fmtint":
			return "int"
		}
	}
	return "? " + v.String()
}

type keyUse struct {
	kind, who, at string
}

func runKeys(c *Ctx) {
	m := records(c)
	writes, reads := map[string][]keyUse{}, map[string][]keyUse{}
	shape := func(o *recOp) (whole, first string) {
		var s []string
		for _, k := range o.keys {
			s = append(s, keyShape(k))
		}
		return strings.Join(s, "/"), s[0]
	}
	hash := map[string]bool{}
	for _, o := range m.ops {
		if o.val == nil {
			continue
		}
		k, first := shape(o)
		u := keyUse{writeKind(o), shortName(o.method.String()), c.w.pos(o.ins.Pos())}
		c.obl("write", u.who)
		if strings.HasPrefix(u.kind, "?") {
			c.fail("records", u.who, "form", u.at, u.who+" stores something that is not the stored form of one record")
			continue
		}
		for _, x := range writes[k] {
			if x.kind != u.kind {
				c.fail("records", u.who, "mixed", u.at, u.who+" stores a record of kind "+u.kind+" where "+x.who+" stores "+x.kind)
			}
		}
		writes[k] = append(writes[k], u)
		if len(o.keys) > 1 {
			hash[first] = true
		}
	}
	read := func(o *recOp, kind string, only string, at string) {
		k, first := shape(o)
		u := keyUse{kind, shortName(o.method.String()), at}
		c.obl("read", u.who)
		reads[k] = append(reads[k], u)
		found := false
		var ws []string
		for w := range writes {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		for _, w := range ws {
			if w != k {
				if len(o.keys) != 1 || !hash[first] || !strings.HasPrefix(w, first+"/") {
					continue
				}
				// one of all fields
				if only != "" && !strings.HasPrefix(strings.Trim(w[len(first)+1:], `"`), only) {
					continue
				}
			}
			for _, x := range writes[w] {
				found = true
				if x.kind != kind {
					c.fail("records", u.who, "kind", at, u.who+" reads a "+kind+" where "+x.who+" stores a "+x.kind)
				}
			}
		}
		if !found {
			c.fail("records", u.who, "unwritten", at, u.who+" reads a record no operation writes")
		}
	}
	for _, o := range m.ops {
		if o.op == "GetInt64" || o.op == "HGetInt64" {
			read(o, "int", "", c.w.pos(o.ins.Pos()))
		}
	}
	for _, rd := range m.reads {
		if rd.typ == nil {
			c.fail("records", shortName(rd.method.String()), "unknown", c.w.pos(rd.ins.Pos()), shortName(rd.method.String())+" decodes a record into something of an unknown type")
			continue
		}
		read(rd.op, "json "+types.TypeString(rd.typ, (*types.Package).Name), rd.only, c.w.pos(rd.ins.Pos()))
	}
	var ks []string
	for k := range writes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		first, _, in := strings.Cut(k, "/")
		if len(reads[k]) == 0 && !(in && len(reads[first]) > 0) {
			u := writes[k][0]
			c.fail("records", u.who, "unread", u.at, u.who+" stores a record no operation reads back")
		}
	}
	runIdentity(c, m)
}

// runIdentity: a record is stored under its own number and returned for it.
func runIdentity(c *Ctx, m *recMap) {
	numeric = true
	defer func() { numeric = false }()
	for _, n := range m.names() {
		f := m.methods[n]
		name := shortName(f.String())
		for i := range m.rets[f] {
			r := &m.rets[f][i]
			if r.failed() {
				continue
			}
			for j, o := range r.ops {
				if o.val == nil || r.err[j] != nil && !r.st.isNil(r.err[j]) && r.err[j] != tNil {
					continue
				}
				v := stripWhole(stripCopy(o.val))
				if v.op != "app" || v.aux != "json" || structOps[o.op].keys == 1 && o.op != "Set" {
					continue
				}
				rec := v.args[0]
				var id *Term
				for _, k := range []string{"Version", "ID"} {
					if s, ok := deref(rec.typ).Underlying().(*types.Struct); ok && id == nil {
						for q := 0; q < s.NumFields(); q++ {
							if s.Field(q).Name() == k {
								id = r.e.load(r.st, fieldLoc(rec, q, k), s.Field(q).Type(), nil)
							}
						}
					}
				}
				c.obl("identity", name)
				if id == nil || !holdsNumber(o.keys[len(o.keys)-1], id) {
					c.fail("identity", name, "key", c.w.pos(o.ins.Pos()), name+" stores a record under a key that does not hold the record's own number")
				}
			}
			m.returned(c, r, f)
		}
	}
}

// holdsNumber: one of the variable parts of a key is exactly this number.
func holdsNumber(key, id *Term) bool {
	key, id = stripConv(stripCopy(key)), stripConv(id)
	if key == id {
		return true
	}
	if key.op == "cat" || key.op == "tuple" || key.op == "app" && keyParts[key.aux] {
		for _, a := range key.args {
			if holdsNumber(a, id) {
				return true
			}
		}
	}
	return false
}

var keyParts = map[string]bool{"bytesof": true, "stringof": true, "fmtint": true, "be64": true, "enc:bytes": true, "enc:varint": true, "append": true, "appends": true}

// returned: what a reading operation returns is what it has decoded.
func (m *recMap) returned(c *Ctx, r *recRet, f *ssa.Function) {
	name := shortName(f.String())
	if len(r.res) != 2 {
		return
	}
	at := c.w.pos(f.Pos())
	v := r.res[0]
	switch t := f.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Pointer:
		if v == tNil || r.st.isNil(v) {
			return
		}
		c.obl("returned", name)
		for _, d := range ghostArgs(r.st, "may:dec") {
			if d == v {
				return
			}
		}
		c.fail("returned", name, "other", at, name+" returns something else than the record it read")
	case *types.Slice:
		if _, ok := t.Elem().Underlying().(*types.Pointer); !ok {
			return
		}
		var all *Term
		for j, o := range r.ops {
			if len(o.res) == 2 && (r.err[j] == nil || r.err[j] == tNil || r.st.isNil(r.err[j])) {
				if _, ok := o.ins.(*ssa.Call); ok && o.res[0].typ != nil {
					if _, ok := o.res[0].typ.Underlying().(*types.Slice); ok && o.op != "HGet" && o.op != "Get" {
						all = o.res[0]
					}
				}
			}
		}
		if all == nil {
			return
		}
		c.obl("returned", name)
		seen := false
		for _, g := range []string{"b.seen", "b.next", "b.last"} {
			if n := r.st.g(g); n != nil {
				if g == "b.last" {
					n = tAdd(n, mkInt(1))
				}
				// an element past the end can not be looked at
				seen = seen || le(r.st, tLen(all), n)
			}
		}
		if !seen {
			c.fail("returned", name, "skips", at, name+" may report success without having looked at every stored record")
		}
		if !eqInt(r.st, tLen(v), orZero(r.st.g("b.dec"))) {
			c.fail("returned", name, "drops", at, name+" may leave out a record that it has decoded")
		}
	}
}

// ---- D: the kind of a change tells the type of its argument

type argKinds struct {
	c    *Ctx
	wr   map[string]map[string]string
	rd   map[string]map[string]string
	errs bool
}

func (a *argKinds) add(to map[string]map[string]string, kind string, t types.Type, at string) {
	if to[kind] == nil {
		to[kind] = map[string]string{}
	}
	to[kind][types.TypeString(deref(t), (*types.Package).Name)] = at
}

// kindOfChange is the name of the kind of change a value is known to be.
func kindOfChange(w *World, st *State, v *Term) string {
	for n, k := range modelConsts(w) {
		if strings.HasPrefix(n, "Action") && same(st, v, k) == 1 {
			return n
		}
	}
	return ""
}

func (a *argKinds) decoded(e *Eng, st *State, ev *Event, typ *Term) {
	at := e.pos(ev.Instr)
	a.c.obl("argument read", at)
	k := kindOfChange(a.c.w, st, typ)
	x := unIface(ev.Args[1])
	if k == "" || x.typ == nil {
		a.c.fail("argument", shortName(ev.Fn.String()), "kind", at, shortName(ev.Fn.String())+" decodes an argument without knowing the kind of the change")
		return
	}
	a.add(a.rd, k, x.typ, at)
}

// hook21 notes the arguments of the kinds of changes.
func (m *ddlMon) hook21(st *State, ev *Event) {
	if m.c.prop != "P21" || ev.Static == nil {
		return
	}
	a := m.c.args
	written := func(rec *Term, n *types.Named) {
		x := unIface(m.get(st, rec, n, "Arg"))
		at := m.e.pos(ev.Instr)
		k := kindOfChange(m.w, st, m.get(st, rec, n, "Type"))
		if x == tNil || x.typ == nil || k == "" {
			return
		}
		m.c.obl("argument write", at)
		a.add(a.wr, k, x.typ, at)
	}
	switch op := metaOp(ev.Static); {
	case op == "EnQueueDDLJob":
		written(ev.Args[1], m.job)
	case op == "SetSchemaDiff":
		written(ev.Args[1], m.diff)
	case ev.Static.Name() == "DecodeArg" && ev.Static.Signature.Recv() != nil && isModelType(ev.Static.Signature.Recv().Type(), "Job"):
		a.decoded(m.e, st, ev, m.jobGet(st, ev.Args[0], "Type"))
	}
}

func (a *argKinds) finish() {
	var ks []string
	for k := range a.rd {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for t, at := range a.rd[k] {
			if len(a.wr[k]) == 0 {
				continue // no such change is ever requested
			}
			for wt, wat := range a.wr[k] {
				if wt != t {
					a.c.fail("argument", k, "type-"+t, at, "the argument of "+k+" is read as "+t+", but written as "+wt+" ("+wat+")")
				}
			}
		}
	}
}

func init() {
	register("P21", func(c *Ctx) {
		c.rule("every type given to the stored formats keeps all its parts (exported, distinct names, readable types), or a part left out is restored by Encode, Decode and DecodeArg from a stored one; every operation of the catalog that writes a key stores exactly one record of the kind every reader of that key decodes, under the record's own number; a reader returns the record it decoded, a listing every record; the type of a change's argument is the same wherever that kind of change is written and read")
		f := &formats{c: c, seen: map[string]bool{}, heldO: map[*types.Named]bool{}}
		f.run()
		var ns []*types.Named
		for n := range f.heldO {
			ns = append(ns, n)
		}
		sort.Slice(ns, func(i, k int) bool { return ns[i].String() < ns[k].String() })
		for _, n := range ns {
			runParts(c, n)
		}
		for _, u := range f.uses {
			// what is left out needs the type's own Encode and Decode
			if !f.heldO[u.n] || u.dec && !holdsError(u.n) || u.fn.Signature.Recv() != nil && recvNamed(u.fn) == u.n {
				continue
			}
			c.fail("parts", shortName(u.fn.String()), "direct-"+u.n.Obj().Name(), u.at, shortName(u.fn.String())+" stores or reads a "+u.n.Obj().Name()+" without its Encode or Decode: parts of it are lost")
		}
		runKeys(c)
		c.args = &argKinds{c: c, wr: map[string]map[string]string{}, rd: map[string]map[string]string{}}
		runDDL(c)
		runArgReaders(c)
		c.args.finish()
		c.need("format", 5)
		c.need("parts", 6)
		c.need("write", 8)
		c.need("read", 8)
		c.need("identity", 4)
		c.need("returned", 5)
		c.need("argument read", 3)
	})
}

// runArgReaders finds the readers of stored descriptions.
func runArgReaders(c *Ctx) {
	w := c.w
	isDec := func(f *ssa.Function) bool {
		return f != nil && f.Name() == "DecodeArg" && f.Signature.Recv() != nil && isModelType(f.Signature.Recv().Type(), "SchemaDiff")
	}
	reach := w.reaching(func(cc *ssa.CallCommon) bool { return isDec(cc.StaticCallee()) })
	called := map[*ssa.Function]bool{}
	for f := range reach {
		w.calls(f, func(cc *ssa.CallCommon) {
			if g := cc.StaticCallee(); g != nil && fnPkg(g) == fnPkg(f) {
				called[g] = true
			}
		})
	}
	diff := modelNamed(w, "SchemaDiff")
	for _, f := range w.funcs {
		if !reach[f] || f.Parent() != nil || f.Synthetic != "" || called[f] || !strings.HasSuffix(fnPkg(f), "/schema") {
			continue
		}
		r := &Rule{}
		r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
			if !isDec(ev.Static) {
				return nil, false
			}
			am := &applyMon{c: c, w: w, diff: diff, e: e}
			c.args.decoded(e, st, ev, am.get(st, ev.Args[0], "Type"))
			e.havocArg(st, ev.Args[1], ev)
			return []Out{{st: st, res: e.freshResults(ev)}}, true
		}
		e := newEng(w, r)
		st := newState()
		c.run(e, st, f, e.paramSyms(st, f))
	}
}
