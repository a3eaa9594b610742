package main

import (
	"go/types"
	"strings"
)

// codecModel: the variable-length codecs as injective encodings. Their own
// bodies are analysed separately; callers only rely on what is said here.
func (e *Eng) codecModel(st *State, ev *Event) ([]Out, bool) {
	if !e.rule.Codec || ev.Static == nil {
		return nil, false
	}
	n := ev.Name
	enc, dec := "", ""
	switch {
	case n == "kv/memcomparable.EncodeBytes":
		enc = "enc:bytes"
	case n == "kv/memcomparable.EncodeBytesDesc":
		enc = "enc:bytesdesc"
	case n == "kv/memcomparable.DecodeBytes":
		dec = "enc:bytes"
	case n == "kv/memcomparable.DecodeBytesDesc":
		dec = "enc:bytesdesc"
	case n == "kv/compact.EncodeVarint":
		enc = "enc:varint"
	case n == "kv/compact.EncodeUvarint":
		enc = "enc:uvarint"
	case n == "kv/compact.EncodeBytes":
		enc = "enc:cbytes"
	case n == "kv/compact.DecodeVarint":
		dec = "enc:varint"
	case n == "kv/compact.DecodeUvarint":
		dec = "enc:uvarint"
	case n == "kv/compact.DecodeBytes":
		dec = "enc:cbytes"
	default:
		return nil, false
	}
	if enc != "" {
		v := ev.Args[1]
		if strings.HasSuffix(enc, "bytes") || strings.HasSuffix(enc, "bytesdesc") {
			v = stripCopy(e.content(st, v))
			if v.op == "cat" && len(v.args) == 0 || v.op == "empty" {
				v = tNil
			}
		}
		return []Out{{st: st, res: []*Term{mkCat(e.content(st, ev.Args[0]), mkApp(enc, v))}}}, true
	}
	b := stripCopy(e.content(st, ev.Args[0]))
	segs := []*Term{b}
	if b.op == "cat" {
		segs = b.args
	}
	rt := ev.Sig.Results()
	if len(segs) > 0 && segs[0].op == "app" && segs[0].aux == dec {
		v := segs[0].args[0]
		if v.op == "nil" {
			v = mk("empty", "")
		}
		return []Out{{st: st, res: []*Term{mkCat(segs[1:]...), v, tNil}}}, true
	}
	s2 := st.clone()
	er := mkFresh("sym", rt.At(2).Type(), &SymInfo{kind: "newerr", site: e.pos(ev.Instr), name: n})
	er.nonNilIn(s2)
	fail := Out{st: s2, res: []*Term{tNil, e.zero(rt.At(1).Type()), er}}
	k := mkFresh("sym", types.Typ[types.Int], &SymInfo{kind: "nonneg", site: n})
	st.setFact(tGe0(toLin(tLen(b)).add(toLin(k), -1)), true)
	v := mkAppT(rt.At(1).Type(), "dec:"+strings.TrimPrefix(dec, "enc:"), b)
	return []Out{{st: st, res: []*Term{mkSlice(b, k, tLen(b)), v, tNil}}, fail}, true
}
