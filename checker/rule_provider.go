package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P10: both storage engines honour one key-value contract. The methods of the
// engine, transaction and batch types are analysed against a model of the
// libraries they wrap.

func init() {
	register("P10", func(c *Ctx) {
		c.rule("an operation of an engine performs exactly the library step its contract asks for, on the key, value, expiry and tag it was given, and reports exactly its outcome")
		c.rule("a scan starts at the first entry its options select, hands each entry to the callback once, with its own key, value and metadata, goes on while the callback asks for more, and succeeds only when it was asked to stop or nothing is left; what is not supported is refused")
		for _, t := range providerTypes(c.w) {
			for _, n := range t.names() {
				m := &kvMon{c: c, w: c.w, t: t, fn: t.ops[n], op: n, name: shortName(t.ops[n].String())}
				m.run()
			}
			if t.kind == "db" && t.ops["WriteBatch"] != nil {
				batchHistory(c, t)
			}
		}
		c.need("step", 14)
		c.need("scan", 3)
	})
}

// providerType: a type that implements a storage interface on top of a library.
type providerType struct {
	named *types.Named
	kind  string // db, txn, wb
	ops   map[string]*ssa.Function
}

var providerOps = []string{"Set", "Exists", "Get", "Delete", "Scan", "NewTransaction", "WriteBatch", "Commit", "Discard", "StartTS"}

func (t *providerType) names() []string {
	var r []string
	for _, n := range providerOps {
		if t.ops[n] != nil {
			r = append(r, n)
		}
	}
	return r
}

func isStorageLib(path string) bool {
	return strings.HasSuffix(path, "dgraph-io/badger") || strings.HasSuffix(path, "goleveldb/leveldb")
}

func providerTypes(w *World) []*providerType {
	var res []*providerType
	byT := map[*types.Named]*providerType{}
	ifaces := map[string]*types.Interface{}
	for _, p := range w.prog.AllPackages() {
		if !strings.HasSuffix(p.Pkg.Path(), "zhiqiangxu/mondis") {
			continue
		}
		for kind, n := range map[string]string{"db": "KVDB", "txn": "ProviderTxn", "wb": "ProviderWriteBatch"} {
			if o := p.Pkg.Scope().Lookup(n); o != nil {
				if i, ok := o.Type().Underlying().(*types.Interface); ok {
					ifaces[kind] = i
				}
			}
		}
	}
	for _, f := range w.funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		lib := false
		for _, im := range f.Pkg.Pkg.Imports() {
			lib = lib || isStorageLib(im.Path())
		}
		n := recvNamed(f)
		if !lib || n == nil {
			continue
		}
		t := byT[n]
		if t == nil {
			kind := ""
			for _, k := range []string{"db", "txn", "wb"} {
				if i := ifaces[k]; i != nil && kind == "" && types.Implements(types.NewPointer(n), i) {
					kind = k
				}
			}
			t = &providerType{named: n, kind: kind, ops: map[string]*ssa.Function{}}
			byT[n] = t
			if kind != "" {
				res = append(res, t)
			}
		}
		for _, o := range providerOps {
			if f.Name() == o {
				t.ops[o] = f
			}
		}
	}
	return res
}

type kvMon struct {
	c    *Ctx
	w    *World
	e    *Eng
	t    *providerType
	fn   *ssa.Function
	op   string
	name string
	args []*Term
	max  int
}

func (m *kvMon) bad(detail string, ins ssa.Instruction, msg string) {
	at := m.w.pos(m.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	rule := "step"
	if m.op == "Scan" {
		rule = "scan"
	}
	m.c.fail(rule, m.name, detail, at, m.name+": "+msg)
}

var libPath = regexp.MustCompile(`^\(?\*?[^ ()]*/(?:badger|goleveldb/leveldb(?:/[a-z]+)?)\.`)

// libCall: the library step an event is, as type and method: badger.Txn.Set.
func libCall(ev *Event) string {
	n := ev.Name
	lib := ""
	switch {
	case strings.Contains(n, "dgraph-io/badger."):
		lib = "badger."
	case strings.Contains(n, "goleveldb/leveldb"):
		lib = "leveldb."
	default:
		return ""
	}
	if !libPath.MatchString(n) {
		return ""
	}
	n = libPath.ReplaceAllString(n, "")
	n = strings.Replace(n, ").", ".", 1)
	for _, p := range []string{"CommonIterator.", "IteratorSeeker.", "BasicReleaser.", "Releaser."} {
		if strings.HasPrefix(n, p) {
			n = "Iterator." + n[len(p):]
		}
	}
	return lib + n
}

func (m *kvMon) fieldType(t types.Type, name string) (int, *types.Var) {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i)
		}
	}
	return -1, nil
}

// fieldAt reads a field of an object in memory.
func (m *kvMon) fieldAt(st *State, obj *Term, t types.Type, name string) *Term {
	i, f := m.fieldType(t, name)
	if f == nil {
		return nil
	}
	return m.e.load(st, fieldLoc(obj, i, name), f.Type(), nil)
}

// fieldVal reads a field of a struct value.
func (m *kvMon) fieldVal(v *Term, t types.Type, name string) *Term {
	i, f := m.fieldType(t, name)
	if f == nil {
		return nil
	}
	return m.e.fieldOf(v, i, f)
}

func isEmpty(st *State, t *Term) bool {
	if t == nil || t.op == "nil" || st.isNil(t) {
		return true
	}
	l := tLen(t)
	return l == mkInt(0) || st.entailsGe0((lin{}).add(toLin(l), -1))
}

func isNonEmpty(st *State, t *Term) bool {
	return st.entailsGe0(toLin(tLen(t)).add(lin{c: 1}, -1))
}

// steps of the library that may fail: fork, and remember what failed
func (m *kvMon) fallible(st *State, ev *Event, ok func(*State), sent ...*Term) []Out {
	var res []Out
	good := Out{st: st.clone(), res: m.e.freshResults(ev)}
	good.res[len(good.res)-1] = tNil
	if ok != nil {
		ok(good.st)
	}
	res = append(res, good)
	for _, s := range sent {
		o := Out{st: st.clone(), res: m.zeroResults(ev)}
		o.res[len(o.res)-1] = s
		o.st.setG("p.err", s)
		res = append(res, o)
	}
	o := Out{st: st, res: m.zeroResults(ev)}
	er := m.e.freshResults(ev)
	x := er[len(er)-1]
	o.res[len(o.res)-1] = x
	st.assume(tEq(x, tNil), false)
	for _, s := range append(sent, notFound(), mk("sentinel", "kv.ErrTxnTooBig")) {
		st.assume(tEq(x, s), false)
	}
	o.st.setG("p.err", x)
	return append(res, o)
}

func (m *kvMon) zeroResults(ev *Event) []*Term {
	rt := ev.Sig.Results()
	var res []*Term
	for i := 0; i < rt.Len(); i++ {
		res = append(res, m.e.zero(rt.At(i).Type()))
	}
	return res
}

// effect: one change of the store.
func (m *kvMon) effect(st *State, ev *Event, op string, on, k, v, ttl, tag *Term) {
	if st.gs("p.op") != "" {
		m.bad("twice", ev.Instr, "changes the store twice")
	}
	if st.gs("p.commit") != "" {
		m.bad("late", ev.Instr, "changes the store after committing")
	}
	st.setGS("p.op", op)
	st.setG("p.on", on)
	st.setG("p.k", stripCopy(m.e.content(st, k)))
	if v != nil {
		st.setG("p.v", stripCopy(m.e.content(st, v)))
	}
	st.setG("p.ttl", ttl)
	st.setG("p.tag", tag)
}

func (m *kvMon) mine(st *State, t *Term) bool {
	if t == m.args[0] || t == st.g("p.lib") {
		return true
	}
	if t.op == "sym" && t.info != nil && t.info.kind == "load" {
		if p, ok := t.info.ptr.(*Term); ok && locBase(p) == m.args[0] {
			return true
		}
	}
	return false
}

const errTooBig = "github.com/dgraph-io/badger.ErrTxnTooBig"

func (m *kvMon) rule() *Rule {
	r := &Rule{Numeric: true}
	one := func(st *State, ts ...*Term) ([]Out, bool) { return []Out{{st: st, res: ts}}, true }
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Name == "callback" && len(ev.Args) == 4 && ev.Args[0] == st.g("p.fn") && st.g("p.fn") != nil {
			return m.callback(st, ev), true
		}
		if f := ev.Static; f != nil && m.w.isRepoFn(f) && m.op == "Scan" && len(ev.Args) == 1 && isBytes(f.Signature.Params()) && isBytes(f.Signature.Results()) {
			if ev.Args[0] == st.g("p.prefix") {
				t := mkAppT(f.Signature.Results().At(0).Type(), "prefixend", ev.Args[0])
				if st.g("p.end") == nil {
					st.setG("p.end", t)
				}
				return []Out{{st: st, res: []*Term{st.g("p.end")}}}, true
			}
		}
		if ev.Name == "bytes.HasPrefix" && m.op == "Scan" && st.g("i.item") != nil && (st.gs("i.v") == "valid" || st.gs("i.v") == "match") {
			k, p := stripCopy(e.content(st, ev.Args[0])), stripCopy(e.content(st, ev.Args[1]))
			if k == mkAppT(nil, "itemkey", st.g("i.item")) && p == st.g("p.prefix") {
				if isEmpty(st, p) {
					return one(st, tTrue)
				}
				// the same question as ValidForPrefix
				return m.valid(st, &Event{Name: ev.Name, Args: []*Term{nil, ev.Args[1]}, Sig: ev.Sig, Instr: ev.Instr, Fn: ev.Fn}, "badger.Iterator.ValidForPrefix"), true
			}
		}
		n := libCall(ev)
		if n == "" {
			return nil, false
		}
		a := ev.Args
		tooBig := mk("sentinel", errTooBig)
		switch n {
		case "badger.DB.NewTransaction":
			t := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "lib", site: n, name: n})
			t.nonNilIn(st)
			st.setG("p.txn", t)
			st.setG("p.upd", a[1])
			st.setG("p.from", a[0])
			return one(st, t)
		case "badger.DB.Update", "badger.DB.View":
			t := mkFresh("sym", nil, &SymInfo{kind: "lib", site: n, name: n})
			t.nonNilIn(st)
			st.setG("p.txn", t)
			st.setG("p.upd", map[bool]*Term{true: tTrue, false: tFalse}[n == "badger.DB.Update"])
			st.setG("p.from", a[0])
			var res []Out
			for _, o := range e.callValue(st, a[1], []*Term{t}, ev.Sig.Params().At(0).Type().Underlying().(*types.Signature), ev.Instr, "callback") {
				if o.panic {
					res = append(res, o)
					continue
				}
				for _, p := range forkErr(o) {
					if errOf(p).op != "nil" || n == "badger.DB.View" {
						res = append(res, p)
						continue
					}
					res = append(res, m.fallible(p.st, ev, func(s *State) { s.setGS("p.commit", "ok") })...)
				}
			}
			return res, true
		case "badger.DB.NewWriteBatch":
			t := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "lib", site: n, name: n})
			t.nonNilIn(st)
			st.setG("p.batch", t)
			st.setG("p.from", a[0])
			return one(st, t)
		case "badger.Txn.Set":
			return m.fallible(st, ev, func(s *State) { m.effect(s, ev, "Set", a[0], a[1], a[2], nil, mkInt(0)) }, tooBig), true
		case "badger.Txn.SetEntry":
			et := ev.Sig.Params().At(0).Type()
			return m.fallible(st, ev, func(s *State) {
				m.effect(s, ev, "Set", a[0], m.fieldAt(s, a[1], et, "Key"), m.fieldAt(s, a[1], et, "Value"), m.fieldAt(s, a[1], et, "ExpiresAt"), m.fieldAt(s, a[1], et, "UserMeta"))
			}, tooBig), true
		case "badger.Txn.Delete":
			return m.fallible(st, ev, func(s *State) { m.effect(s, ev, "Delete", a[0], a[1], nil, nil, nil) }, tooBig), true
		case "badger.Txn.Commit":
			return m.fallible(st, ev, func(s *State) { s.setGS("p.commit", "ok"); s.setG("p.com", a[0]) }), true
		case "badger.Txn.Discard":
			st.setG("p.dis", a[0])
			return one(st)
		case "badger.Txn.ReadTs":
			return one(st, mkAppT(types.Typ[types.Uint64], "readts", a[0]))
		case "badger.NewEntry":
			et := deref(ev.Sig.Results().At(0).Type())
			t := mkFresh("obj", et, &SymInfo{kind: "alloc", site: n, name: types.TypeString(et, nil)})
			for i, f := range []string{"Key", "Value"} {
				if k, v := m.fieldType(et, f); v != nil {
					e.store(st, fieldLoc(t, k, f), a[i], v.Type())
				}
			}
			return one(st, t)
		case "badger.Entry.WithTTL", "badger.Entry.WithMeta":
			et := ev.Sig.Recv().Type()
			f, v := "UserMeta", a[1]
			if n == "badger.Entry.WithTTL" {
				f, v = "ExpiresAt", mkAppT(types.Typ[types.Uint64], "expires", a[1])
			}
			if k, fv := m.fieldType(et, f); fv != nil {
				e.store(st, fieldLoc(a[0], k, f), v, fv.Type())
			}
			return one(st, a[0])
		case "badger.Txn.Get", "leveldb.DB.Get":
			lf := mk("sentinel", "github.com/dgraph-io/badger.ErrKeyNotFound")
			if n == "leveldb.DB.Get" {
				lf = mk("sentinel", "github.com/syndtr/goleveldb/leveldb.ErrNotFound")
			}
			outs := m.fallible(st, ev, func(s *State) {
				s.setGS("p.got", "yes")
			}, lf)
			for i := range outs {
				o := &outs[i]
				o.st.setG("p.k", stripCopy(e.content(o.st, a[1])))
				o.st.setG("p.on", a[0])
				switch {
				case i == 0:
					o.st.setG("p.item", o.res[0])
					if n == "leveldb.DB.Get" {
						o.st.setG("p.v", o.res[0])
					} else {
						o.res[0].nonNilIn(o.st)
					}
				case errOf(*o) == lf:
					o.st.setGS("p.got", "no")
				}
			}
			return outs, true
		case "leveldb.DB.Has":
			outs := m.fallible(st, ev, nil)
			var res []Out
			for i, o := range outs {
				o.st.setG("p.k", stripCopy(e.content(o.st, a[1])))
				o.st.setG("p.on", a[0])
				if i > 0 {
					res = append(res, o)
					continue
				}
				q := Out{st: o.st.clone(), res: append([]*Term{}, o.res...)}
				o.st.setGS("p.got", "yes")
				o.res[0] = tTrue
				q.st.setGS("p.got", "no")
				q.res[0] = tFalse
				res = append(res, o, q)
			}
			return res, true
		case "leveldb.DB.Put", "leveldb.DB.Delete":
			return m.fallible(st, ev, func(s *State) {
				if n == "leveldb.DB.Put" {
					m.effect(s, ev, "Set", a[0], a[1], a[2], nil, mkInt(0))
				} else {
					m.effect(s, ev, "Delete", a[0], a[1], nil, nil, nil)
				}
				s.setGS("p.commit", "ok")
			}), true
		case "badger.WriteBatch.Set", "leveldb.Batch.Put", "badger.WriteBatch.Delete", "leveldb.Batch.Delete":
			eff := func(s *State) {
				if strings.HasSuffix(n, "Delete") {
					m.effect(s, ev, "Delete", a[0], a[1], nil, nil, nil)
				} else {
					m.effect(s, ev, "Set", a[0], a[1], a[2], nil, mkInt(0))
				}
			}
			if strings.HasPrefix(n, "leveldb") {
				eff(st)
				return one(st)
			}
			return m.fallible(st, ev, eff), true
		case "badger.WriteBatch.SetEntry":
			et := ev.Sig.Params().At(0).Type()
			return m.fallible(st, ev, func(s *State) {
				m.effect(s, ev, "Set", a[0], m.fieldAt(s, a[1], et, "Key"), m.fieldAt(s, a[1], et, "Value"), m.fieldAt(s, a[1], et, "ExpiresAt"), m.fieldAt(s, a[1], et, "UserMeta"))
			}), true
		case "badger.WriteBatch.Flush":
			return m.fallible(st, ev, func(s *State) {
				if s.gs("p.commit") != "" {
					m.bad("twice", ev.Instr, "commits twice")
				}
				s.setGS("p.commit", "ok")
				s.setG("p.com", a[0])
			}), true
		case "leveldb.DB.Write":
			return m.fallible(st, ev, func(s *State) {
				if s.gs("p.commit") != "" {
					m.bad("twice", ev.Instr, "commits twice")
				}
				s.setGS("p.commit", "ok")
				s.setG("p.com", a[1])
				s.setG("p.comdb", a[0])
			}), true
		case "badger.WriteBatch.Cancel":
			st.setG("p.dis", a[0])
			return one(st)
		case "badger.Item.Key", "badger.Item.KeyCopy", "leveldb.Iterator.Key":
			m.fresh(st, ev, a[0])
			return one(st, mkAppT(ev.Sig.Results().At(0).Type(), "itemkey", m.itemOf(st, a[0])))
		case "leveldb.Iterator.Value":
			m.fresh(st, ev, a[0])
			return one(st, mkAppT(ev.Sig.Results().At(0).Type(), "itemval", m.itemOf(st, a[0])))
		case "badger.Item.ValueCopy":
			outs := m.fallible(st, ev, nil)
			outs[0].res[0] = mkAppT(ev.Sig.Results().At(0).Type(), "itemval", a[0])
			return outs, true
		case "badger.Item.Value":
			sig := ev.Sig.Params().At(0).Type().Underlying().(*types.Signature)
			m.fresh(st, ev, a[0])
			outs := m.fallible(st, ev, nil)
			v := mkAppT(sig.Params().At(0).Type(), "itemval", a[0])
			return append(outs[1:], e.callValue(outs[0].st, a[1], []*Term{v}, sig, ev.Instr, "callback")...), true
		case "badger.Item.ExpiresAt", "badger.Item.UserMeta":
			m.fresh(st, ev, a[0])
			return one(st, mkAppT(ev.Sig.Results().At(0).Type(), n, a[0]))
		case "badger.Txn.NewIterator":
			m.newBadgerIter(st, ev)
			t := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "lib", site: n, name: n})
			t.nonNilIn(st)
			st.setG("i.iter", t)
			return one(st, t)
		case "leveldb.DB.NewIterator":
			m.newLevelIter(st, ev)
			t := mkFresh("sym", ev.Sig.Results().At(0).Type(), &SymInfo{kind: "lib", site: n, name: n})
			t.nonNilIn(st)
			st.setG("i.iter", t)
			return one(st, t)
		case "leveldb.BytesPrefix":
			t := mkAppT(ev.Sig.Results().At(0).Type(), "bytesprefix", stripCopy(e.content(st, a[0])))
			t.nonNilIn(st)
			return one(st, t)
		case "badger.Iterator.Seek", "badger.Iterator.Rewind", "badger.Iterator.Next":
			m.moveBadger(st, ev, n)
			return one(st)
		case "badger.Iterator.Valid", "badger.Iterator.ValidForPrefix":
			return m.valid(st, ev, n), true
		case "badger.Iterator.Item":
			if v := st.gs("i.v"); v != "valid" && v != "match" {
				m.bad("unchecked", ev.Instr, "takes an entry from the iterator without knowing that there is one")
			}
			return one(st, st.g("i.item"))
		case "leveldb.Iterator.Seek", "leveldb.Iterator.Next", "leveldb.Iterator.First":
			return m.moveLevel(st, ev, n), true
		case "leveldb.Iterator.Valid":
			switch st.gs("i.v") {
			case "match":
				return one(st, tTrue)
			case "over":
				return one(st, tFalse)
			}
			return one(st, tFalse)
		case "leveldb.Iterator.Error":
			if st.gs("i.v") == "over" {
				st.setGS("i.err", "asked")
			}
			outs := m.fallible(st, ev, nil)
			return outs, true
		case "badger.Iterator.Close", "leveldb.Iterator.Release", "leveldb.Batch.Reset", "leveldb.Batch.Len", "badger.Item.ValueSize", "badger.Item.EstimatedSize", "badger.Item.KeySize":
			return nil, false
		}
		if n == "badger.Open" || n == "badger.DefaultOptions" || strings.HasSuffix(n, ".Close") {
			return nil, false
		}
		m.bad("unknown", ev.Instr, "uses "+n+", which is not part of the model of the engine")
		return nil, false
	}
	return r
}

func isBytes(t *types.Tuple) bool {
	if t.Len() != 1 {
		return false
	}
	s, ok := t.At(0).Type().Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Uint8])
}

// fresh: the entry looked at is the iterator's current one.
func (m *kvMon) fresh(st *State, ev *Event, t *Term) {
	if st.g("i.iter") == nil || t == st.g("p.item") {
		return
	}
	if t != st.g("i.iter") && t != st.g("i.item") {
		m.bad("stale", ev.Instr, "looks at an entry other than the one the iterator is at")
		return
	}
	if t == st.g("i.iter") && st.gs("i.v") != "match" {
		m.bad("unchecked", ev.Instr, "takes an entry from the iterator without knowing that there is one")
	}
}

func (m *kvMon) itemOf(st *State, t *Term) *Term {
	if t == st.g("i.iter") && st.g("i.item") != nil {
		return st.g("i.item")
	}
	return t
}

func (m *kvMon) newItem(st *State) {
	t := mkFresh("sym", nil, &SymInfo{kind: "lib", site: "entry", name: "entry"})
	t.nonNilIn(st)
	st.setG("i.item", t)
	st.setGS("i.seen", "")
	st.setGS("i.v", "?")
}

func (m *kvMon) newBadgerIter(st *State, ev *Event) {
	if st.g("i.iter") != nil {
		m.bad("iterators", ev.Instr, "opens a second iterator")
	}
	if m.op != "Scan" {
		return
	}
	ot := ev.Sig.Params().At(0).Type()
	rev, pre, all := m.fieldVal(ev.Args[1], ot, "Reverse"), m.fieldVal(ev.Args[1], ot, "Prefix"), m.fieldVal(ev.Args[1], ot, "AllVersions")
	want := st.g("p.reverse")
	if rev != want {
		rv, rk := st.evalBool(rev)
		wv, wk := st.evalBool(want)
		if !rk || !wk || rv != wv {
			m.bad("direction", ev.Instr, "scans in a direction other than the one asked for")
		}
	}
	if all == tTrue {
		m.bad("versions", ev.Instr, "hands out old versions of entries")
	}
	if pre != nil && pre.op == "sym" && pre.info != nil && pre.info.kind == "load" {
		if l, ok := pre.info.ptr.(*Term); ok && locBase(l).op == "global" {
			pre = tNil // the default
		}
	}
	st.setGS("i.pre", "")
	if pre != nil && pre.op != "nil" && !isEmpty(st, pre) {
		if stripCopy(m.e.content(st, pre)) != st.g("p.prefix") {
			m.bad("prefix", ev.Instr, "narrows the scan to something other than the prefix asked for")
		}
		st.setGS("i.pre", "yes")
		if v, known := st.evalBool(want); !known || v {
			m.bad("prefix-reverse", ev.Instr, "narrows a reverse scan in the engine, which then starts at the prefix itself and misses the entries behind it")
		}
	}
	st.setG("i.on", ev.Args[0])
	m.newItem(st)
	st.setGS("i.pos", "unset")
}

func (m *kvMon) newLevelIter(st *State, ev *Event) {
	if st.g("i.iter") != nil {
		m.bad("iterators", ev.Instr, "opens a second iterator")
	}
	if m.op != "Scan" {
		return
	}
	if v, known := st.evalBool(st.g("p.reverse")); !known || v {
		m.bad("direction", ev.Instr, "scans in a direction other than the one asked for")
	}
	p := st.g("p.prefix")
	r := ev.Args[1]
	switch {
	case r.op == "app" && r.aux == "bytesprefix" && r.args[0] == p:
	case (r.op == "nil" || st.isNil(r)) && isEmpty(st, p):
	default:
		m.bad("prefix", ev.Instr, "does not narrow the scan to exactly the prefix asked for")
	}
	st.setG("i.on", ev.Args[0])
	m.newItem(st)
	st.setGS("i.pos", "unset")
}

// cmp: is compare(a,b) known to be below, at or above zero?
func (m *kvMon) cmp(st *State, a, b *Term) (le, ge, lt bool) {
	x := toLin(mkAppT(types.Typ[types.Int], "bytes.Compare", a, b))
	y := toLin(mkAppT(types.Typ[types.Int], "bytes.Compare", b, a))
	le = st.entailsGe0((lin{}).add(x, -1)) || st.entailsGe0(y)
	ge = st.entailsGe0(x) || st.entailsGe0((lin{}).add(y, -1))
	lt = st.entailsGe0((lin{c: -1}).add(x, -1)) || st.entailsGe0(y.add(lin{c: 1}, -1))
	return
}

func (m *kvMon) moveBadger(st *State, ev *Event, n string) {
	if m.op != "Scan" || st.g("i.iter") != ev.Args[0] {
		return
	}
	off, pre := st.g("p.offset"), st.g("p.prefix")
	if n == "badger.Iterator.Next" {
		if st.gs("i.pos") == "unset" {
			m.bad("start", ev.Instr, "moves the iterator before placing it")
		}
		if st.gs("i.stop") != "" {
			m.newItem(st)
			return
		}
		if v := st.gs("i.v"); v != "valid" && v != "match" {
			m.bad("unchecked", ev.Instr, "moves an iterator without knowing that there is an entry")
		}
		if st.gs("i.seen") == "" {
			// only the entry just behind the prefix may be passed over
			skip := st.g("i.skip")
			ok := false
			if skip != nil {
				if v, known := m.isKey(st, skip); known && v {
					ok = true
				}
			}
			if !ok {
				m.bad("skipped", ev.Instr, "moves on without having handed out the entry")
			}
		}
		st.setG("i.skip", nil)
		m.newItem(st)
		return
	}
	if st.gs("i.pos") != "unset" {
		m.bad("start", ev.Instr, "places the iterator again")
	}
	m.newItem(st)
	st.setGS("i.pos", "set")
	x := tNil
	if n == "badger.Iterator.Seek" {
		x = stripCopy(m.e.content(st, ev.Args[1]))
	}
	rv, known := st.evalBool(st.g("p.reverse"))
	if !known {
		// both directions have to be right
		s := st.clone()
		s.assume(st.g("p.reverse"), true)
		if m.startOK(s, x, off, pre, true) {
			s = st.clone()
			s.assume(st.g("p.reverse"), false)
			if m.startOK(s, x, off, pre, false) {
				return
			}
		}
	} else if m.startOK(st, x, off, pre, rv) {
		return
	}
	if os.Getenv("DBG") == m.name {
		fmt.Println("  START", x, off, pre, st.g("p.reverse"), st.gs("i.pre"))
		for f, v := range st.facts {
			fmt.Println("     ", f, v)
		}
	}
	m.bad("start", ev.Instr, "starts at an entry other than the first one the options select")
}

func (m *kvMon) isKey(st *State, k *Term) (bool, bool) {
	a := mkAppT(nil, "itemkey", st.g("i.item"))
	b := k
	if a.id > b.id {
		a, b = b, a
	}
	return st.evalBool(mkApp("bytes.Equal", a, b))
}

// startOK: placing the iterator at x (nil: at its start) reaches the first entry
// with the prefix at or behind the offset.
func (m *kvMon) startOK(st *State, x, off, pre *Term, rev bool) bool {
	empty := isEmpty(st, x)
	noOff := isEmpty(st, off)
	noPre := isEmpty(st, pre)
	if x == off && (st.isNil(off) || off.op == "nil") {
		empty = true
	}
	if !rev {
		_, ge, _ := m.cmp(st, off, pre)
		le, _, _ := m.cmp(st, off, pre)
		if ge && noOff && isNonEmpty(st, pre) {
			return true // impossible: nothing is not behind something
		}
		if empty {
			return noOff && (noPre || st.gs("i.pre") != "")
		}
		switch x {
		case off:
			return noPre || ge
		case pre:
			return noOff || le
		}
		return false
	}
	end := mkAppT(pre.typ, "prefixend", pre)
	noEnd := st.g("p.end") != nil && st.isNil(st.g("p.end"))
	if empty {
		return noOff && (noPre || noEnd)
	}
	switch {
	case x == off:
		_, _, lt := m.cmp(st, off, end)
		return noPre || noEnd || lt
	case x.op == "app" && x.aux == "prefixend" && x.args[0] == pre:
		_, ge, _ := m.cmp(st, off, x)
		if noOff || ge {
			st.setG("i.skip", x)
			return true
		}
	}
	return false
}

func (m *kvMon) valid(st *State, ev *Event, n string) []Out {
	out := func(s *State, v string) Out {
		s.setGS("i.v", v)
		return Out{st: s, res: []*Term{map[bool]*Term{true: tTrue, false: tFalse}[v == "valid" || v == "match"]}}
	}
	pre := st.g("p.prefix")
	matches := isEmpty(st, pre) || st.gs("i.pre") != ""
	forPre := n == "badger.Iterator.ValidForPrefix"
	v := st.gs("i.v")
	if forPre {
		q := stripCopy(m.e.content(st, ev.Args[1]))
		switch {
		case isEmpty(st, q):
			forPre = false
		case q != pre:
			m.bad("prefix", ev.Instr, "ends the scan at something other than the prefix asked for")
		}
	}
	switch v {
	case "match":
		return []Out{out(st, "match")}
	case "over":
		return []Out{out(st, "over")}
	case "valid":
		if !forPre {
			return []Out{out(st, "valid")}
		}
	}
	if skip := st.g("i.skip"); skip != nil && forPre {
		if b, known := m.isKey(st, skip); !known || b {
			m.bad("start", ev.Instr, "may stop at the key just behind the prefix")
		}
	}
	yes := "valid"
	if forPre || matches {
		yes = "match"
	}
	s := st.clone()
	return []Out{out(st, yes), out(s, "over")}
}

func (m *kvMon) moveLevel(st *State, ev *Event, n string) []Out {
	if m.op == "Scan" && st.g("i.iter") == ev.Args[0] {
		off := st.g("p.offset")
		pos := st.gs("i.pos")
		switch {
		case n == "leveldb.Iterator.Next" && pos != "unset":
			if st.gs("i.v") == "match" && st.gs("i.seen") == "" {
				m.bad("skipped", ev.Instr, "moves on without having handed out the entry")
			}
		case pos != "unset":
			m.bad("start", ev.Instr, "places the iterator again")
		case n == "leveldb.Iterator.Seek":
			if x := stripCopy(m.e.content(st, ev.Args[1])); x != off && !(isEmpty(st, x) && isEmpty(st, off)) {
				m.bad("start", ev.Instr, "starts at an entry other than the first one the options select")
			}
		default:
			if !isEmpty(st, off) {
				m.bad("start", ev.Instr, "starts at an entry other than the first one the options select")
			}
		}
		if st.gs("i.v") == "over" {
			m.bad("start", ev.Instr, "moves the iterator past its end")
		}
	}
	m.newItem(st)
	st.setGS("i.pos", "set")
	s := st.clone()
	st.setGS("i.v", "match")
	s.setGS("i.v", "over")
	return []Out{{st: st, res: []*Term{tTrue}}, {st: s, res: []*Term{tFalse}}}
}

// callback: an entry is handed out.
func (m *kvMon) callback(st *State, ev *Event) []Out {
	item := st.g("i.item")
	k, v, meta := stripCopy(m.e.content(st, ev.Args[1])), stripCopy(m.e.content(st, ev.Args[2])), ev.Args[3]
	mt := ev.Sig.Params().At(2).Type()
	badger := m.isBadger(st)
	switch {
	case item == nil:
		m.bad("entry", ev.Instr, "calls the function without an entry")
		item = mkSym(nil, "none", "")
	case st.gs("i.stop") != "":
		m.bad("stopped", ev.Instr, "goes on although the function asked to stop")
	case st.gs("i.seen") != "":
		m.bad("twice", ev.Instr, "hands out an entry twice")
	}
	match := st.gs("i.v") == "match"
	if pre := st.g("p.prefix"); !match && st.gs("i.v") == "valid" && pre != nil {
		ik := mkAppT(nil, "itemkey", item)
		if isEmpty(st, pre) {
			match = true
		} else if h := hasPrefixTerm(ik, pre); h != nil {
			b, known := st.evalBool(h)
			match = known && b
		} else if b, known := st.evalBool(mkApp("bytes.HasPrefix", ik, pre)); known && b {
			match = true
		}
	}
	if item != nil && !match {
		m.bad("outside", ev.Instr, "may hand out an entry without the prefix asked for")
	}
	if skip := st.g("i.skip"); skip != nil {
		// an entry with the prefix is never the key just behind it
		st.setG("i.skip", nil)
	}
	if k != mkAppT(nil, "itemkey", item) {
		m.bad("key", ev.Instr, "does not hand out the entry's own key")
	}
	if v != mkAppT(nil, "itemval", item) {
		m.bad("value", ev.Instr, "does not hand out the entry's own value")
	}
	for _, f := range []string{"ExpiresAt", "Tag"} {
		x := m.fieldVal(meta, mt, f)
		want := mkInt(0)
		if badger {
			want = mkAppT(nil, map[string]string{"ExpiresAt": "badger.Item.ExpiresAt", "Tag": "badger.Item.UserMeta"}[f], item)
		}
		if x != nil && x.op == "sym" && x.info != nil && x.info.kind == "load" && !badger {
			if l, ok := x.info.ptr.(*Term); ok && locBase(l).op == "global" && m.neverStored(locBase(l)) {
				x = mkInt(0)
			}
		}
		if x != want && x.String() != want.String() {
			m.bad("meta", ev.Instr, "does not hand out the entry's own expiry and tag")
		}
	}
	st.setGS("i.seen", "yes")
	var res []Out
	r := m.e.freshResults(ev)
	s := st.clone()
	st.assume(r[0], true)
	s.assume(r[0], false)
	s.setGS("i.stop", "yes")
	res = append(res, Out{st: st, res: []*Term{tTrue}}, Out{st: s, res: []*Term{tFalse}})
	return res
}

func (m *kvMon) isBadger(st *State) bool {
	t := st.g("i.iter")
	return t != nil && strings.HasPrefix(t.info.name, "badger")
}

// neverStored: a package variable without stores keeps its zero value.
func (m *kvMon) neverStored(g *Term) bool {
	for _, f := range m.w.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					a := s.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					if gl, ok := a.(*ssa.Global); ok && shortName(gl.String()) == g.aux {
						return false
					}
				}
			}
		}
	}
	return true
}

func (m *kvMon) start() (*Eng, *State) {
	e := newEng(m.w, m.rule())
	m.e = e
	st := newState()
	m.args = e.paramSyms(st, m.fn)
	m.prepare(st)
	return e, st
}

func (m *kvMon) prepare(st *State) {
	for i, a := range m.args {
		st.setG(fmt.Sprint("p.arg", i), a)
	}
	switch m.op {
	case "Set":
		if len(m.args) == 4 {
			mt := m.fn.Signature.Params().At(2).Type()
			if _, ok := mt.Underlying().(*types.Pointer); ok {
				st.setG("p.ttl0", m.fieldAt(st, m.args[3], mt, "TTL"))
				st.setG("p.tag0", m.fieldAt(st, m.args[3], mt, "Tag"))
			}
		}
	case "Scan":
		ot := m.fn.Signature.Params().At(0).Type()
		st.setG("p.fn", m.args[2])
		st.setG("p.reverse", m.fieldVal(m.args[1], ot, "Reverse"))
		st.setG("p.prefix", m.fieldVal(m.args[1], ot, "Prefix"))
		st.setG("p.offset", m.fieldVal(m.args[1], ot, "Offset"))
		st.setFact(tEq(m.args[2], tNil), false)
	}
}

func (m *kvMon) run() {
	rule := "step"
	if m.op == "Scan" {
		rule = "scan"
	}
	m.c.obl(rule, m.name)
	e, st := m.start()
	for _, o := range m.c.run(e, st, m.fn, m.args) {
		if os.Getenv("DBG") == m.name {
			fmt.Println("  EXIT", o.panic, o.res, o.st.ghost)
		}
		if o.panic {
			if m.op == "NewTransaction" && m.noTransactions() {
				continue // refused
			}
			if !strings.Contains(o.why, "nil") {
				m.bad("panic", nil, "panics: "+o.why)
			}
			continue
		}
		if !returnsErr(m.fn.Signature) {
			m.plainExit(o)
			continue
		}
		for _, p := range forkErr(o) {
			m.exit(p)
		}
	}
}

// noTransactions: the engine has no transaction type of its own.
func (m *kvMon) noTransactions() bool {
	for _, im := range m.fn.Pkg.Pkg.Imports() {
		if strings.HasSuffix(im.Path(), "goleveldb/leveldb") && m.t.kind == "db" {
			_, f := m.fieldType(m.t.named, "db")
			return f == nil || strings.Contains(f.Type().String(), "leveldb")
		}
	}
	return false
}

func (m *kvMon) plainExit(o Out) {
	st := o.st
	switch m.op {
	case "NewTransaction":
		t := st.g("p.txn")
		if len(o.res) != 1 || t == nil || unIface(o.res[0]) != t && !m.wraps(st, o.res[0], t) {
			m.bad("result", nil, "does not return the transaction it created")
			return
		}
		if st.g("p.upd") != st.g("p.arg1") {
			m.bad("update", nil, "does not create the kind of transaction asked for")
		}
	case "WriteBatch":
	case "Discard":
		if m.t.kind == "txn" && (st.g("p.dis") == nil || !m.mine(st, st.g("p.dis"))) {
			m.bad("discard", nil, "does not discard the transaction")
		}
	case "StartTS":
		if o.res[0].op != "app" || o.res[0].aux != "readts" || !m.mine(st, o.res[0].args[0]) {
			m.bad("ts", nil, "does not return the transaction's read timestamp")
		}
	}
	if st.gs("p.op") != "" || st.gs("p.commit") != "" {
		m.bad("effect", nil, "changes the store")
	}
}

// wraps: an object around a library object.
func (m *kvMon) wraps(st *State, r, t *Term) bool {
	r = unIface(r)
	for l, v := range st.heap {
		if v == t && locBase(l) == r {
			return true
		}
	}
	return false
}

func (m *kvMon) exit(p Out) {
	st := p.st
	er := errOf(p)
	if er.op != "nil" {
		m.failed(st, p, er)
		return
	}
	if m.op != "Get" && m.op != "Exists" && st.g("p.err") != nil {
		m.bad("lost", nil, "succeeds although a step of the engine failed")
	}
	bad := func(detail, msg string) { m.bad(detail, nil, msg) }
	var k *Term
	if m.op != "Scan" && m.op != "Commit" {
		k = stripCopy(m.e.content(st, st.g("p.arg1")))
	}
	// which library object the step has to be on
	on := func(t *Term) bool {
		if t == nil {
			return false
		}
		if x := st.g("p.txn"); x != nil {
			return t == x && m.mine(st, st.g("p.from"))
		}
		return m.mine(st, t)
	}
	switch m.op {
	case "Set", "Delete":
		if st.gs("p.op") != m.op || !on(st.g("p.on")) || st.g("p.k") != k {
			bad("effect", "succeeds without exactly the change asked for")
			return
		}
		if m.t.kind == "db" && (st.gs("p.commit") != "ok" || st.g("p.txn") != nil && (st.g("p.upd") != tTrue || st.g("p.com") != nil && st.g("p.com") != st.g("p.txn"))) {
			bad("commit", "succeeds without having committed the change")
		}
		if m.op == "Delete" {
			return
		}
		if st.g("p.v") != stripCopy(m.e.content(st, st.g("p.arg2"))) {
			bad("value", "stores a value other than the one given")
		}
		ttl, tag := st.g("p.ttl"), st.g("p.tag")
		hasMeta := st.g("p.ttl0") != nil && st.g("p.arg3").op != "nil" && !st.isNil(st.g("p.arg3"))
		if ttl != nil && ttl.op == "int" && ttl.c == 0 {
			ttl = nil
		}
		want := func(x *Term) *Term {
			if hasMeta {
				return x
			}
			return mkInt(0)
		}
		switch t0 := want(st.g("p.ttl0")); {
		case ttl == nil && !eqInt(st, t0, mkInt(0)) && !le(st, t0, mkInt(0)):
			bad("expiry", "stores without the expiry given")
		case ttl != nil && (ttl.op != "app" || ttl.aux != "expires" || ttl.args[0] != t0):
			bad("expiry", "stores an expiry other than the one given")
		case ttl != nil:
			if v, known := st.evalBool(mk("eq0", "", toLin(t0).term())); !known || v {
				bad("expiry-none", "a value without expiry is stored with one that has passed")
			}
		}
		if t0 := want(st.g("p.tag0")); tag == nil || tag != t0 && !eqInt(st, tag, t0) {
			bad("tag", "stores a tag other than the one given")
		}
	case "Get":
		if st.gs("p.got") != "yes" || !on(st.g("p.on")) || st.g("p.k") != k {
			bad("found", "succeeds without having found the key")
			return
		}
		v := stripCopy(m.e.content(st, p.res[0]))
		want := st.g("p.v")
		item := st.g("p.item")
		if want == nil {
			want = mkAppT(nil, "itemval", item)
		}
		if v != want && !(isEmpty(st, v) && isEmpty(st, want)) {
			bad("value", "succeeds without returning a copy of the value stored")
		}
		mt := m.fn.Signature.Results().At(1).Type()
		for _, f := range []string{"ExpiresAt", "Tag"} {
			x := m.fieldVal(p.res[1], mt, f)
			w := mkInt(0)
			if st.g("p.v") == nil {
				w = mkAppT(nil, map[string]string{"ExpiresAt": "badger.Item.ExpiresAt", "Tag": "badger.Item.UserMeta"}[f], item)
			}
			if x == nil || x != w && x.String() != w.String() {
				bad("meta", "succeeds without returning the expiry and tag stored")
			}
		}
	case "Exists":
		got := st.gs("p.got")
		if got == "" || !on(st.g("p.on")) || st.g("p.k") != k {
			bad("asked", "answers without having looked for the key")
			return
		}
		if v, known := st.evalBool(p.res[0]); !known || v != (got == "yes") {
			bad("answer", "does not report whether the key exists")
		}
	case "Commit":
		if st.gs("p.commit") != "ok" || !m.mine(st, st.g("p.com")) {
			bad("commit", "succeeds without having committed")
		}
		if x := st.g("p.comdb"); x != nil && !m.mine(st, x) {
			bad("commit", "succeeds without having committed")
		}
	case "Scan":
		if st.g("i.iter") == nil {
			bad("nothing", "succeeds without having scanned")
			return
		}
		if !on(st.g("i.on")) {
			bad("nothing", "scans another database")
		}
		if st.gs("i.stop") != "" {
			return
		}
		over := st.gs("i.v") == "over"
		if !over && st.gs("i.v") == "valid" {
			ik := mkAppT(nil, "itemkey", st.g("i.item"))
			h := hasPrefixTerm(ik, st.g("p.prefix"))
			if h == nil {
				h = mkApp("bytes.HasPrefix", ik, st.g("p.prefix"))
			}
			if v, known := st.evalBool(h); known && !v {
				over = true
			}
		}
		if !over {
			bad("incomplete", "succeeds although entries may be left and the function did not ask to stop")
		}
		if !m.isBadger(st) && st.gs("i.err") == "" {
			bad("lost", "succeeds without having asked whether the iteration failed")
		}
	}
}

// failed: an error reported has to be one of the engine, or a refusal.
func (m *kvMon) failed(st *State, p Out, er *Term) {
	le := st.g("p.err")
	if le == nil {
		refused := false
		switch m.op {
		case "Set":
			refused = st.g("p.ttl0") != nil && st.nonNil(st.g("p.arg3")) && st.gs("p.op") == ""
		case "Scan":
			v, known := st.evalBool(st.g("p.reverse"))
			refused = known && v && st.gs("i.seen") == "" && st.gs("i.stop") == ""
		}
		if !refused {
			m.bad("refused", nil, "fails although no step of the engine failed")
		}
		return
	}
	is, isOK, _, notOK := errIs(p, notFound())
	_ = is
	if m.op == "Get" && st.gs("p.got") == "no" {
		if notOK {
			m.bad("absent", nil, "does not report an absent key as absent")
		}
	} else if isOK {
		m.bad("absent-wrong", nil, "reports a failure as an absent key")
	}
	if m.op == "Exists" && st.gs("p.got") == "no" {
		m.bad("absent", nil, "fails because the key is absent")
	}
	if le == mk("sentinel", errTooBig) && (m.op == "Set" || m.op == "Delete") && m.t.kind != "wb" {
		if _, _, _, notOK := errIs(p, mk("sentinel", "kv.ErrTxnTooBig")); notOK {
			m.bad("too-big", nil, "does not report a transaction that is too big as such")
		}
	}
	if m.op == "Get" && !isEmpty(st, p.res[0]) {
		if !(p.res[0].op == "app" && p.res[0].aux == "itemval") {
			m.bad("value", nil, "fails with a value")
		}
	}
}

// batchHistory: what is put in a batch is what committing it writes.
func batchHistory(c *Ctx, t *providerType) {
	f := t.ops["WriteBatch"]
	m := &kvMon{c: c, w: c.w, t: t, fn: f, op: "WriteBatch", name: shortName(f.String())}
	c.obl("batch", m.name)
	e, st := m.start()
	for _, o := range c.run(e, st, f, m.args) {
		if o.panic || len(o.res) != 1 {
			continue
		}
		b := o.res[0]
		if b.op != "iface" {
			m.bad("result", nil, "does not return a batch")
			continue
		}
		look := func(name string) *ssa.Function {
			ms := m.w.prog.MethodSets.MethodSet(b.typ)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == name {
					return m.w.prog.MethodValue(ms.At(i))
				}
			}
			return nil
		}
		set, com := look("Set"), look("Commit")
		if set == nil || com == nil {
			m.bad("result", nil, "does not return a batch")
			continue
		}
		s := o.st
		k := mkFresh("sym", set.Signature.Params().At(0).Type(), &SymInfo{kind: "param", site: "k", name: "k"})
		v := mkFresh("sym", set.Signature.Params().At(1).Type(), &SymInfo{kind: "param", site: "v", name: "v"})
		s.setG("p.bk", k)
		s.setG("p.bv", v)
		s.setG("p.bb", b)
		for _, q := range c.run(e, s, set, []*Term{b.args[0], k, v}) {
			if q.panic || errOf(q).op != "nil" && !q.st.isNil(errOf(q)) {
				continue
			}
			on := q.st.g("p.on")
			for _, z := range c.run(e, q.st, com, []*Term{b.args[0]}) {
				if z.panic || errOf(z).op != "nil" && !z.st.isNil(errOf(z)) {
					continue
				}
				from := z.st.g("p.comdb")
				if from == nil {
					from = z.st.g("p.from")
				}
				if on != nil && on.op != "obj" && on != o.st.g("p.batch") {
					m.bad("shared", nil, "hands out a batch that is not new")
				}
				if z.st.gs("p.commit") != "ok" || z.st.g("p.com") != on || on == nil || from == nil || !m.mine(z.st, from) {
					m.bad("batch", nil, "committing a batch does not write what was put in it to the database")
				}
			}
		}
	}
}
