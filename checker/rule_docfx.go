package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P29: what the operations on documents do to the stored documents.

// docPat is how a collection type builds the key of a document: the key of
// the insert operation with the id and the collection id replaced.
type docPat struct {
	pat, prefix *Term
	where       string
}

var (
	phDID = mk("obj", "DID")
	phCID = mk("obj", "CID")
)

// cidPath recognises the id of the receiver's collection: a field of the
// receiver, or the id of the collection found by the receiver's names.
func (m *docMon) cidPath(t *Term) (path string, cache *Term) {
	if t.op != "sym" || t.info == nil || t.typ == nil {
		return "", nil
	}
	if b, ok := t.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return "", nil
	}
	var names []string
	x := t
	for x.op == "sym" && x.info != nil && (x.info.kind == "load" || x.info.kind == "mapget") {
		p, _ := x.info.ptr.(*Term)
		if p == nil {
			return "", nil
		}
		switch p.op {
		case "field":
			n := p.aux
			if k := strings.Index(n, ":"); k >= 0 {
				n = n[k+1:]
			}
			names = append(names, n)
			x = p.args[0]
			for x.op == "field" {
				names = append(names, x.aux)
				x = x.args[0]
			}
			if x == m.recv && len(names) == 1 {
				return "receiver." + n, nil
			}
			if x.typ != nil && strings.HasSuffix(types.TypeString(deref(x.typ), nil), "schema.MetaCache") {
				return strings.Join(names, "<"), x
			}
		case "mapel":
			k := m.recvField(p.args[1])
			if k == "" {
				return "", nil
			}
			names = append(names, "["+k+"]")
			x = p.args[0]
		default:
			return "", nil
		}
	}
	return "", nil
}

// recvField: the term is a field of the receiver.
func (m *docMon) recvField(t *Term) string {
	if t.op == "sym" && t.info != nil && t.info.kind == "load" {
		if p, _ := t.info.ptr.(*Term); p != nil && p.op == "field" && p.args[0] == m.recv {
			return p.aux
		}
	}
	return ""
}

// split replaces the collection id in a key (and reports where it came from).
func (m *docMon) split(key, did *Term) (pat *Term, where string, cid *Term) {
	sub := map[*Term]*Term{}
	n := 0
	walk(key, map[*Term]bool{}, func(t *Term) {
		if p, _ := m.cidPath(t); p != "" {
			sub[t] = phCID
			cid = t
			where = p
			n++
		}
	})
	if did != nil {
		if did.op == "int" {
			return nil, "", nil
		}
		sub[did] = phDID
	}
	if n != 1 {
		return nil, "", nil
	}
	return substTerm(key, sub, map[*Term]*Term{}), where, cid
}

// docPatterns derives the key pattern of each collection type from its insert.
func docPatterns(c *Ctx) map[*types.Named]*docPat {
	res := map[*types.Named]*docPat{}
	if c.prop != "P29" && c.prop != "P18" {
		return res
	}
	for _, op := range docOps(c.w) {
		if op.fn.Name() != "InsertOne" {
			continue
		}
		m := &docMon{c: c, w: c.w, op: op, name: shortName(op.fn.String()), seq: seqTypes(c.w), given: true}
		r := &Rule{Codec: true}
		r.Opaque = func(fn *ssa.Function) bool { return isSeqMethod(m.seq, fn) }
		e := newEng(c.w, r)
		m.e = e
		st := newState()
		args := e.paramSyms(st, op.fn)
		m.recv = args[0]
		st.assume(tEq(args[op.txn], tNil), false)
		var keys []*Term
		r.Before = func(e *Eng, st *State, ev *Event) {
			if ev.Op == "Set" {
				keys = append(keys, stripCopy(e.content(st, ev.Args[1])))
			}
		}
		for _, o := range c.run(e, st, op.fn, args) {
			if o.panic {
				continue
			}
			for _, p := range forkErr(o) {
				if errOf(p).op != "nil" {
					continue
				}
				for _, k := range keys {
					if pat, where, _ := m.split(k, p.res[0]); pat != nil && mentions(pat, func(t *Term) bool { return t == phDID }) {
						res[recvNamed(op.fn)] = &docPat{pat: pat, prefix: patPrefix(pat), where: where}
					}
				}
			}
		}
		if p := res[recvNamed(op.fn)]; p == nil || p.prefix == nil {
			c.fail("document key", m.name, "pattern", c.w.pos(op.fn.Pos()), m.name+": its document is not stored under a key built from the collection's id and the document's id (id last)")
			delete(res, recvNamed(op.fn))
		}
	}
	return res
}

// patPrefix: the key without its last part, when only that holds the id.
func patPrefix(pat *Term) *Term {
	if pat.op != "cat" || len(pat.args) < 2 {
		return nil
	}
	isDID := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == phDID }) }
	p := mkCat(pat.args[:len(pat.args)-1]...)
	if isDID(p) || !isDID(pat.args[len(pat.args)-1]) {
		return nil
	}
	return p
}

func (m *docMon) docHooks(r *Rule) {
	r.ScanCall = func(e *Eng, st *State, ev *Event, as []*Term) {
		if m.pat == nil {
			return
		}
		_, cid, ok := m.scanPrefix(st, ev)
		if !ok {
			return
		}
		m.unfinished(st, ev.Instr, "the next scanned document")
		did := mkSym(types.Typ[types.Int64], "scandid", "scandid")
		as[0] = substTerm(m.pat.pat, map[*Term]*Term{phDID: did, phCID: cid}, map[*Term]*Term{})
		if st.g("d.first") == nil {
			st.setG("d.first", did)
		}
		st.setG("d.cur", did)
		n := st.g("d.n")
		if n == nil {
			n = mkInt(0)
		}
		st.setG("d.n", tAdd(n, mkInt(1)))
		switch m.op.fn.Name() {
		case "GetAll":
			st.setG("d.pend", as[1])
		case "DeleteAll":
			st.setG("d.pend", as[0])
		}
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if loc.op != "idx" || m.op.fn.Name() != "GetMany" {
			return
		}
		if b := locBase(loc); b.op == "make" && isDocType(m, b.typ) {
			if n := st.g("d.n"); n == nil || !eqInt(st, n, loc.args[1]) {
				m.bad("P29", "document effect", "result", ins, "puts a document at the wrong place of the result")
			}
			m.appended(st, ins, val)
		}
	}
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, elems []*Term, et types.Type) {
		for _, x := range elems {
			if m.op.fn.Name() == "DeleteAll" && kindOf(et) == "bytes" {
				if p := st.g("d.pend"); p != nil && stripCopy(e.content(st, x)) == p {
					st.setG("d.pend", nil)
					st.setG("d.c", tAdd(orZero(st.g("d.c")), mkInt(1)))
				} else {
					st.setGS("d.mixed", "y")
				}
				continue
			}
			if x.op == "closure" {
				m.cancelFn(st, x, ins)
				continue
			}
			m.appended(st, ins, x)
		}
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		switch ev.Name {
		case "reflect.Append":
			xs, ok := e.sliceElems(st, ev.Args[1], nil)
			if !ok || len(xs) != 1 {
				xs = []*Term{nil}
			}
			m.appended(st, ev.Instr, xs[0])
			r := e.freshResults(ev)
			st.setG("d.pend", mk("grown", "", ev.Args[0], r[0]))
			return []Out{{st: st, res: r}}, true
		case "(reflect.Value).Set":
			if p := st.g("d.pend"); p != nil && p.op == "grown" && p.args[1] == ev.Args[1] {
				if p.args[0] == ev.Args[0] && m.isDoc(reflRoot(p.args[0])) {
					st.setG("d.pend", nil)
				}
			}
		case "callback":
			// a function kept for when the commit fails
			if !m.given && st.gs("d.st") == "failed" {
				return []Out{{st: st, res: e.freshResults(ev)}}, true
			}
		}
		return nil, false
	}
}

// cancelFn looks at a function kept for the case that the commit fails.
func (m *docMon) cancelFn(st *State, f *Term, ins ssa.Instruction) {
	if m.e.undecided != "" || f.fn.Signature.Params().Len() > 0 {
		return
	}
	s := st.clone()
	s.setGS("d.cancel", "y")
	m.e.callValue(s, f, nil, f.fn.Signature, ins, "call")
}

// scanPrefix: the scan covers exactly the collection's documents.
func (m *docMon) scanPrefix(st *State, ev *Event) (pre, cid *Term, ok bool) {
	pre, off, _ := m.scanOpts(st, ev)
	if pre == nil {
		return nil, nil, false
	}
	if off != nil && off.op != "nil" {
		return nil, nil, false
	}
	p, where, cid := m.split(pre, nil)
	return pre, cid, p != nil && p == m.pat.prefix && where == m.pat.where
}

// scanOpts returns the prefix and offset a scan is given.
func (m *docMon) scanOpts(st *State, ev *Event) (pre, off *Term, ok bool) {
	opt := ev.Args[1]
	ot := ev.Sig.Params().At(0).Type()
	get := func(n string) *Term {
		s, _ := ot.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return stripCopy(m.e.content(st, m.e.fieldOf(opt, i, s.Field(i))))
			}
		}
		return nil
	}
	return get("Prefix"), get("Offset"), true
}

func (m *docMon) scanReverse(ev *Event) *Term {
	s, _ := ev.Sig.Params().At(0).Type().Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Reverse" {
			return m.e.fieldOf(ev.Args[1], i, s.Field(i))
		}
	}
	return nil
}

// docBefore: addresses and effects of each storage call.
func (m *docMon) docBefore(st *State, ev *Event) {
	bad := func(detail, msg string) { m.bad("P29", "document effect", detail, ev.Instr, msg) }
	if ev.Static != nil && isSeqMethod(m.seq, ev.Static) {
		switch ev.Static.Name() {
		case "Next":
			if !m.ownSequence(ev) {
				bad("foreign-sequence", "takes an id from a sequence that is not its collection's")
			}
		case "PutBack":
			if st.gs("d.cancel") == "" && st.gs("d.st") != "failed" {
				bad("putback", "gives an id back although the insert may still take effect")
			}
			if st.g("d.did") == nil || st.gs("d.cancel") == "used" || !sameInts(m.e, st, ev.Args[1:], st.g("d.did")) {
				bad("putback-other", "gives an id back that is not the one it took (or gives it back twice)")
			}
			if st.gs("d.cancel") == "y" {
				st.setGS("d.cancel", "used")
			}
		}
		return
	}
	if m.pat == nil {
		return
	}
	name := m.op.fn.Name()
	switch ev.Op {
	case "Scan":
		if _, _, ok := m.scanPrefix(st, ev); !ok {
			bad("scan-range", "scans something other than exactly the documents of its collection")
		}
		if !scanOps[name] && known[name] {
			bad("scan", "scans although the operation concerns named documents only")
		}
		st.setG("d.first", nil)
		st.setG("d.cur", nil)
		st.setG("d.n", mkInt(0))
		st.setGS("d.scan", "")
		st.setG("d.rev", m.scanReverse(ev))
	case "Get", "Exists", "Set", "Delete":
		key := stripCopy(m.e.content(st, ev.Args[1]))
		did := m.didOf(st, key)
		if did == nil && ev.Op == "Delete" && name == "DeleteAll" && m.collected(st, key) {
			return
		}
		if did == nil {
			bad("address", "calls "+ev.Op+" on "+key.String()+", which is not the key of the document it is about in its collection")
			return
		}
		if isWriteOp(ev.Op) && !(mayWrite[name] == ev.Op) && known[name] {
			bad("effect", "calls "+ev.Op)
		}
		switch ev.Op {
		case "Set":
			if st.g("d.set") != nil {
				bad("set-twice", "writes the document twice")
			}
			st.setG("d.set", did)
			v := m.marshalled(st, ev.Args[2])
			if v == nil || !m.isDoc(v) {
				bad("value", "stores something other than the encoded document it was given")
			}
			ex, known := m.exists(st)
			switch name {
			case "InsertOneManaged":
				if !known || ex {
					bad("overwrite", "stores the document without having found that none exists under the id")
				}
			case "UpdateOne":
				if !known || !ex {
					bad("create", "stores the document without having found that one exists under the id")
				}
			}
		case "Delete":
			if name == "DeleteAll" {
				if p := st.g("d.pend"); p == nil || p != key {
					bad("delete-other", "deletes something other than the scanned document")
				}
				return
			}
			st.setG("d.del", did)
		case "Get":
			if name == "GetMany" {
				m.unfinished(st, ev.Instr, "the next document")
				n := st.g("d.n")
				if n == nil {
					n = mkInt(0)
				}
				if i := m.elemOf(did); i == nil || !eqInt(st, i, n) {
					bad("order", "does not read the documents in the order of the ids it was given")
				}
			}
		}
	}
}

var (
	scanOps  = map[string]bool{"Count": true, "DeleteAll": true, "GetAll": true, "GetDidRange": true}
	mayWrite = map[string]string{"InsertOne": "Set", "InsertOneManaged": "Set", "UpdateOne": "Set", "UpsertOne": "Set", "DeleteOne": "Delete", "DeleteAll": "Delete"}
	known    = map[string]bool{"InsertOne": true, "InsertOneManaged": true, "UpdateOne": true, "UpsertOne": true, "DeleteOne": true, "DeleteAll": true,
		"GetOne": true, "GetMany": true, "GetAll": true, "Count": true, "GetDidRange": true}
)

// ownSequence: the sequence belongs to the receiver or is found by its
// collection's id.
func (m *docMon) ownSequence(ev *Event) bool {
	r := ev.Args[0]
	for r.op == "field" {
		r = r.args[0]
	}
	if m.recvField(r) != "" {
		return true
	}
	return mentions(r, func(t *Term) bool {
		if t.op != "sym" || t.info == nil {
			return false
		}
		x := t
		for d := 0; d < 4; d++ {
			if p, ok := x.info.ptr.(*Term); ok && p != nil && p.op == "sym" && p.info != nil && x.info.ev == nil {
				x = p
			}
		}
		if x.info.ev == nil {
			return false
		}
		for _, a := range x.info.ev.Args {
			if p, _ := m.cidPath(stripConv(unIface(a))); p != "" {
				return true
			}
		}
		return false
	})
}

func sameInts(e *Eng, st *State, args []*Term, did *Term) bool {
	if len(args) != 1 {
		return false
	}
	if args[0] == did {
		return true
	}
	xs, ok := e.sliceElems(st, args[0], nil)
	return ok && len(xs) == 1 && xs[0] == did
}

// didOf: the id whose document key this is, in the receiver's own collection.
func (m *docMon) didOf(st *State, key *Term) *Term {
	var cands []*Term
	for i, a := range m.args {
		if i > 0 && isInt64(m.op.fn.Params[i].Type()) {
			cands = append(cands, a)
		}
	}
	if d := st.g("d.did"); d != nil {
		cands = append(cands, d)
	}
	if d := st.g("d.cur"); d != nil {
		cands = append(cands, d)
	}
	walk(key, map[*Term]bool{}, func(t *Term) {
		if m.elemOf(t) != nil {
			cands = append(cands, t)
		}
	})
	for _, d := range cands {
		if p, where, _ := m.split(key, d); p != nil && p == m.pat.pat && where == m.pat.where {
			return d
		}
	}
	return nil
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

// elemOf: the term is an element of the list of ids given; at which index.
func (m *docMon) elemOf(t *Term) *Term {
	if t.op != "sym" || t.info == nil || t.info.kind != "load" {
		return nil
	}
	p, _ := t.info.ptr.(*Term)
	if p == nil || p.op != "idx" {
		return nil
	}
	for i, a := range m.args {
		if i > 0 && i != m.op.txn && a == p.args[0] {
			if s, ok := m.op.fn.Params[i].Type().Underlying().(*types.Slice); ok && isInt64(s.Elem()) {
				return p.args[1]
			}
		}
	}
	return nil
}

func (m *docMon) idList() *Term {
	for i, a := range m.args {
		if i > 0 && i != m.op.txn {
			if s, ok := m.op.fn.Params[i].Type().Underlying().(*types.Slice); ok && isInt64(s.Elem()) {
				return a
			}
		}
	}
	return nil
}

// marshalled: the value is the result of encoding what is returned.
func (m *docMon) marshalled(st *State, v *Term) *Term {
	v = stripCopy(m.e.content(st, v))
	if v.op != "sym" || v.info == nil || v.info.ev == nil || v.info.res != 0 || !strings.HasSuffix(v.info.ev.Name, "bson.Marshal") {
		return nil
	}
	return unIface(v.info.ev.Args[0])
}

// isDoc: the document parameter.
func (m *docMon) isDoc(v *Term) bool {
	if v == nil {
		return false
	}
	for i, a := range m.args {
		if i > 0 && i != m.op.txn && !isInt64(m.op.fn.Params[i].Type()) && unIface(a) == v {
			return true
		}
	}
	return false
}

func (m *docMon) exists(st *State) (bool, bool) {
	switch st.gs("d.ex") {
	case "yes":
		return true, true
	case "no":
		return false, true
	}
	t := st.g("d.ext")
	if t == nil {
		return false, false
	}
	return st.evalBool(t)
}

// collected: the key is the next one of the scanned keys collected earlier.
func (m *docMon) collected(st *State, key *Term) bool {
	if st.gs("d.mixed") != "" || st.gs("d.scan") != "end" || key.op != "sym" || key.info == nil || key.info.kind != "load" {
		return false
	}
	p, _ := key.info.ptr.(*Term)
	if p == nil || p.op != "idx" || !eqInt(st, p.args[1], orZero(st.g("d.m"))) {
		return false
	}
	st.setG("d.m", tAdd(orZero(st.g("d.m")), mkInt(1)))
	return true
}

func kindOf(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return "bytes"
		}
	}
	return ""
}

func isDocType(m *docMon, t types.Type) bool {
	if t == nil {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	r := m.op.fn.Signature.Results()
	return ok && r.Len() > 0 && types.Identical(s, r.At(0).Type().Underlying())
}

func (m *docMon) docAfter(st *State, ev *Event, outs []Out) []Out {
	if ev.Static != nil && isSeqMethod(m.seq, ev.Static) && ev.Static.Name() == "Next" {
		var res []Out
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					p.st.setG("d.did", p.res[0])
				}
				res = append(res, p)
			}
		}
		return res
	}
	var res []Out
	switch ev.Op {
	case "Exists":
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					p.st.setG("d.ext", p.res[0])
					p.st.setGS("d.ex", "")
				}
				res = append(res, p)
			}
		}
		return res
	case "Get":
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					p.st.setGS("d.ex", "yes")
					p.st.setG("d.pend", p.res[0])
					p.st.setG("d.got", p.res[0])
					res = append(res, p)
					continue
				}
				is, isOK, not, notOK := errIs(p, notFound())
				if isOK {
					is.st.setGS("d.ex", "no")
					res = append(res, is)
				}
				if notOK {
					res = append(res, not)
				}
			}
		}
		return res
	case "Delete":
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" && m.op.fn.Name() == "DeleteAll" {
					p.st.setG("d.pend", nil)
				}
				res = append(res, p)
			}
		}
		return res
	case "Scan":
		for _, o := range outs {
			if !o.panic {
				o.st.setGS("d.scan", o.why)
				f, rev := o.st.g("d.first"), st.g("d.rev")
				if f == nil {
					f = mkInt(0)
				}
				switch rev {
				case tFalse:
					o.st.setG("d.min", f)
				case tTrue:
					o.st.setG("d.max", f)
				}
			}
		}
		return outs
	}
	if strings.HasSuffix(ev.Name, "bson.Unmarshal") {
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					if v := st.g("d.pend"); v != nil && stripCopy(m.e.content(st, ev.Args[0])) == stripCopy(m.e.content(st, v)) {
						p.st.setG("d.pend", mk("decoded", "", unIface(ev.Args[1])))
					}
				}
				res = append(res, p)
			}
		}
		return res
	}
	return outs
}

// appended: a decoded document is added to the result.
func (m *docMon) appended(st *State, ins ssa.Instruction, x *Term) {
	p := st.g("d.pend")
	name := m.op.fn.Name()
	if name != "GetMany" && name != "GetAll" {
		return
	}
	if p == nil || p.op != "decoded" || x == nil || !m.reads(st, x, p.args[0]) {
		m.bad("P29", "document effect", "result", ins, "adds something to the result that is not the document just read")
		return
	}
	st.setG("d.pend", nil)
	if name == "GetMany" {
		n := st.g("d.n")
		if n == nil {
			n = mkInt(0)
		}
		st.setG("d.n", tAdd(n, mkInt(1)))
	}
}

// reads: x is what the pointer (or reflect value) p points to.
func (m *docMon) reads(st *State, x, p *Term) bool {
	if x == p {
		return true
	}
	if p.op == "obj" || p.op == "field" {
		if v, ok := st.heap[p]; ok && v == x {
			return true
		}
	}
	// reflection: Indirect(New(..)) against New(..).Interface()
	ra, rb := reflRoot(x), reflRoot(p)
	return ra != nil && ra == rb
}

// reflRoot: the value a chain of reflection calls starts from.
func reflRoot(t *Term) *Term {
	for t.op == "sym" && t.info != nil && t.info.ev != nil {
		switch t.info.ev.Name {
		case "(reflect.Value).Interface", "reflect.Indirect", "(reflect.Value).Elem", "reflect.ValueOf":
			t = unIface(t.info.ev.Args[0])
			if t.op == "sym" && t.info != nil && t.info.kind == "param" {
				return t
			}
			continue
		case "reflect.New":
			return t
		}
		return nil
	}
	return nil
}

func (m *docMon) unfinished(st *State, ins ssa.Instruction, at string) {
	if st.g("d.pend") != nil && (m.op.fn.Name() == "GetMany" || m.op.fn.Name() == "GetAll" || m.op.fn.Name() == "DeleteAll") {
		m.bad("P29", "document effect", "skipped", ins, "goes on to "+at+" without having dealt with the previous one")
		st.setG("d.pend", nil)
	}
}

func (m *docMon) docExit(st *State, res []*Term, ok bool) {
	if m.pat == nil {
		return
	}
	bad := func(detail, msg string) { m.bad("P29", "document effect", detail, nil, msg) }
	name := m.op.fn.Name()
	ex, exKnown := m.exists(st)
	set, del := st.g("d.set"), st.g("d.del")
	switch name {
	case "GetOne", "GetMany":
		if st.gs("d.ex") == "no" && !ok {
			er := res[len(res)-1]
			if er.op != "sentinel" || er == notFound() {
				bad("absent", "reports the absence of a document by something other than the package's own error")
			}
		}
	}
	if !ok {
		return
	}
	b := func(t *Term) (bool, bool) { return st.evalBool(t) }
	switch name {
	case "InsertOne":
		if set == nil || set != res[0] || set != st.g("d.did") {
			bad("not-stored", "succeeds without having stored the document under the id it returns, fresh from the sequence")
		}
	case "InsertOneManaged":
		if set == nil {
			bad("not-stored", "succeeds without having stored the document")
		}
	case "UpdateOne":
		r, rk := b(res[0])
		if !exKnown || !rk && res[0] != st.g("d.ext") || rk && r != ex {
			bad("result", "does not report whether the document existed")
		}
		if exKnown && ex != (set != nil) {
			bad("not-stored", "succeeds although it did not store the document that exists")
		}
	case "UpsertOne":
		if set == nil {
			bad("not-stored", "succeeds without having stored the document")
		}
		r, rk := b(res[0])
		if !(rk && exKnown && r == !ex) && !(st.g("d.ext") != nil && res[0] == tNot(st.g("d.ext"))) {
			bad("result", "does not report whether the document is new")
		}
	case "DeleteOne":
		if del == nil && !(exKnown && !ex) {
			bad("not-deleted", "succeeds without having deleted the document")
		}
	case "GetOne":
		if p := st.g("d.pend"); p == nil || p.op != "decoded" {
			bad("not-read", "succeeds without having decoded the stored document")
		} else if len(res) > 1 && !m.reads(st, res[0], p.args[0]) {
			bad("result", "does not return the document it decoded")
		} else if len(res) == 1 && !m.isDoc(p.args[0]) {
			bad("result", "does not decode into what it was given")
		}
	case "GetMany":
		m.unfinished(st, nil, "success")
		n := st.g("d.n")
		if n == nil {
			n = mkInt(0)
		}
		if l := m.idList(); l == nil || !eqInt(st, n, tLen(l)) {
			bad("incomplete", "succeeds without having read every document it was asked for")
		} else if len(res) > 1 && !eqInt(st, tLen(res[0]), n) {
			bad("result", "does not return the documents it read")
		}
	case "GetAll", "Count", "DeleteAll":
		m.unfinished(st, nil, "success")
		if st.gs("d.scan") != "end" {
			bad("incomplete", "succeeds although its scan was cut short (or never made)")
		}
		if name != "GetAll" {
			n := st.g("d.n")
			if st.g("d.c") != nil {
				// collected first: that the loop over them is complete is not decided here
				n = orZero(st.g("d.m"))
			}
			if n == nil || !eqInt(st, n, res[0]) {
				bad("count", "does not report the number of documents scanned")
			}
		}
	case "GetDidRange":
		if !eqInt(st, orZero(st.g("d.min")), res[0]) || st.g("d.min") == nil {
			bad("min", "does not return the first document's id as the lowest")
		}
		if !eqInt(st, orZero(st.g("d.max")), res[1]) || st.g("d.max") == nil {
			bad("max", "does not return the last document's id as the highest")
		}
	}
}

func orZero(t *Term) *Term {
	if t == nil {
		return mkInt(0)
	}
	return t
}
