package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of the generated wire messages and of storage scans.

// pbMsg returns the message struct behind a pointer type into package pb.
func pbMsg(t types.Type) (string, *types.Struct) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return "", nil
	}
	return pbNamed(p.Elem())
}

func pbNamed(t types.Type) (string, *types.Struct) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/pb" {
		return "", nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	return n.Obj().Name(), s
}

func isZeroTerm(t *Term) bool {
	switch t.op {
	case "nil", "empty":
		return true
	case "int":
		return t.c == 0
	case "const":
		return t == tFalse || t == mkStr("")
	case "cat":
		return len(t.args) == 0
	}
	return false
}

func mkAppT(typ types.Type, name string, args ...*Term) *Term {
	t := mkApp(name, args...)
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

func (e *Eng) pbUnmarshal(st *State, msg string, s *types.Struct, ptr, payload *Term, reset bool, ev *Event) []Out {
	payload = stripCopy(e.content(st, payload))
	bad := st.clone()
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		loc := fieldLoc(ptr, i, f.Name())
		old := e.load(st, loc, f.Type(), nil)
		if reset {
			old = e.zero(f.Type())
		}
		name := "pb." + msg + "." + f.Name()
		var d *Term
		if _, ms := pbMsg(f.Type()); ms != nil {
			d = mkFresh("sym", f.Type(), &SymInfo{kind: "decoded", site: name, name: name, mayNil: true, ptr: payload})
			if strings.HasSuffix(msg, "Response") {
				st.setG("pb:"+name, d)
			}
		} else {
			d = mkAppT(f.Type(), name, payload)
		}
		if !isZeroTerm(old) {
			d = mkAppT(f.Type(), "pbmerge", old, d)
		}
		e.store(st, loc, d, f.Type())
		e.store(bad, loc, mkFresh("sym", f.Type(), &SymInfo{kind: "partial", site: name, name: name, mayNil: isPtrLike(f.Type())}), f.Type())
	}
	er := mkFresh("sym", types.Universe.Lookup("error").Type(), &SymInfo{kind: "call", site: "decode " + msg, name: ev.Name, ev: ev})
	bad.setFact(tEq(er, tNil), false)
	return []Out{{st: st, res: []*Term{tNil}}, {st: bad, res: []*Term{er}}}
}

func (e *Eng) pbSnapshot(st *State, msg string, s *types.Struct, ptr *Term, op string) *Term {
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		v := e.load(st, fieldLoc(ptr, i, f.Name()), f.Type(), nil)
		if m, ms := pbMsg(f.Type()); ms != nil && v.op == "obj" {
			v = e.pbSnapshot(st, m, ms, v, "msg:")
		} else if isByteSlice(f.Type()) {
			v = e.content(st, v)
		}
		args = append(args, v)
	}
	return mk("app", op+msg, args...)
}

// pbField extracts a field of a marshalled message term.
func (e *Eng) pbField(w *World, t *Term, field string) *Term {
	msg := t.aux[strings.Index(t.aux, ":")+1:]
	p := w.spkgs["pb"]
	if p == nil {
		return nil
	}
	tn, _ := p.Pkg.Scope().Lookup(msg).(*types.TypeName)
	if tn == nil {
		return nil
	}
	s, _ := tn.Type().Underlying().(*types.Struct)
	k := 0
	for i := 0; i < s.NumFields(); i++ {
		if strings.HasPrefix(s.Field(i).Name(), "XXX_") {
			continue
		}
		if s.Field(i).Name() == field {
			return t.args[k]
		}
		k++
	}
	return nil
}

func (e *Eng) pbModel(st *State, ev *Event) ([]Out, bool) {
	n := ev.Name
	switch n {
	case "github.com/gogo/protobuf/proto.Marshal", "github.com/golang/protobuf/proto.Marshal":
		p := unIface(ev.Args[0])
		if ev.Args[0].op == "iface" {
			if m, s := pbMsg(ev.Args[0].typ); s != nil {
				return []Out{{st: st, res: []*Term{e.pbSnapshot(st, m, s, p, "pbbytes:"), tNil}}}, true
			}
		}
		return nil, false
	case "github.com/gogo/protobuf/proto.Unmarshal", "github.com/golang/protobuf/proto.Unmarshal":
		p := unIface(ev.Args[1])
		if ev.Args[1].op == "iface" {
			if m, s := pbMsg(ev.Args[1].typ); s != nil {
				return e.pbUnmarshal(st, m, s, p, ev.Args[0], true, ev), true
			}
		}
		return nil, false
	}
	if ev.Static == nil || ev.Static.Signature.Recv() == nil || !strings.HasPrefix(n, "(*pb.") {
		return nil, false
	}
	m, s := pbMsg(ev.Static.Signature.Recv().Type())
	if s == nil {
		return nil, false
	}
	p := ev.Args[0]
	if p.op == "nil" {
		return []Out{{st: st, panic: true, why: "nil message"}}, true
	}
	switch ev.Static.Name() {
	case "Marshal":
		return []Out{{st: st, res: []*Term{e.pbSnapshot(st, m, s, p, "pbbytes:"), tNil}}}, true
	case "Unmarshal":
		return e.pbUnmarshal(st, m, s, p, ev.Args[1], false, ev), true
	}
	return nil, false
}

// scanModel: a storage scan calls its callback any number of times.
func (e *Eng) scanModel(st *State, ev *Event) ([]Out, bool) {
	if ev.Op != "Scan" || len(ev.Args) != 3 || ev.Args[2].op != "closure" {
		return nil, false
	}
	cb := ev.Args[2]
	sig := ev.Sig.Params().At(1).Type().Underlying().(*types.Signature)
	// results of the scan as one event
	mkArgs := func(s *State) []*Term {
		var as []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			kind := [3]string{"scankey", "scanvalue", "scanmeta"}[i]
			x := mkFresh("sym", t, &SymInfo{kind: kind, site: kind, name: kind, ev: ev})
			as = append(as, x)
		}
		if e.rule.ScanCall != nil {
			e.rule.ScanCall(e, s, ev, as)
		}
		return as
	}
	if e.rule.Before != nil {
		e.rule.Before(e, st, ev)
	}
	outs := e.repeatCall(st, cb, mkArgs, sig, ev.Instr, true)
	var res []Out
	for _, o := range outs {
		if !o.panic {
			o.res = e.freshResults(ev)
		}
		res = append(res, o)
	}
	if e.rule.After != nil {
		res = e.rule.After(e, st, ev, res)
	}
	return res, true
}

// pbOpaque: generated code other than getters and Reset is not entered.
func pbOpaque(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/pb" {
		return false
	}
	return !(strings.HasPrefix(f.Name(), "Get") || f.Name() == "Reset")
}
