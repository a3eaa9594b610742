package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Client rule: every path of every client call, and of every sequence of calls
// on a transaction, is checked against what is sent and what comes back.
// Decides P28 and the client parts of P05, P06 and P07.

type cliMon struct {
	c     *Ctx
	cmds  map[string]int64
	codes map[string]int64
	entry string
	con   *Term
}

func (m *cliMon) want(prop, rule, detail string, e *Eng, ins ssa.Instruction, msg string) {
	if m.c.prop != prop {
		return
	}
	fn, where := m.entry, m.entry
	if ins != nil {
		fn = m.entry + "/" + shortName(topFn(ins.Parent()).String())
		where = e.pos(ins)
	}
	m.c.fail(rule, fn, detail, where, msg)
}

func (m *cliMon) bad(prop string, st *State, e *Eng, ins ssa.Instruction, detail, msg string) {
	m.want(prop, "client-call", st.gs("cl.op")+" "+detail, e, ins, msg)
}

func runClient(c *Ctx) {
	m := &cliMon{c: c, cmds: map[string]int64{}, codes: map[string]int64{}}
	for _, n := range []string{"Set", "Exists", "Get", "Delete", "Scan", "Commit", "Discard"} {
		if v, ok := c.w.intConst("server", n+"Cmd"); ok {
			m.cmds[n] = v
		} else {
			c.fail("client-const", n, "missing", "-", "no command constant for "+n)
		}
	}
	for _, n := range []string{"OK", "InvalidRequest", "InternalError", "TxnTooBig", "KeyNotFound"} {
		if v, ok := c.w.intConst("server", "Code"+n); ok {
			m.codes[n] = v
		}
	}
	for _, n := range []string{"Set", "Exists", "Get", "Delete", "Scan"} {
		fn := c.w.fn("(*client.Client)." + n)
		if fn == nil {
			c.fail("client-entry", n, "missing", "-", "the client has no "+n)
			continue
		}
		m.entry = "client.Client." + n
		e := newEng(c.w, m.monitor())
		st := newState()
		m.begin(st, n, false)
		args := e.paramSyms(st, fn)
		st.setFact(tEq(args[0], tNil), false)
		st.setG("cl.in", mkTuple(args[1:]...))
		c.entries[m.entry] = true
		for _, o := range e.Run(st, fn, args) {
			if !o.panic {
				m.atReturn(e, o, fn)
			}
		}
		c.absorb(e, fn)
	}
	for _, n := range []string{"Update", "View"} {
		fn := c.w.fn("(*client.Client)." + n)
		if fn == nil {
			c.fail("client-entry", n, "missing", "-", "the client has no "+n)
			continue
		}
		m.entry = "client.Client." + n
		c.obl("client-txn", n)
		r := m.monitor()
		e := newEng(c.w, r)
		st := newState()
		m.begin(st, "", true)
		st.setG("cl.update", mkBool(n == "Update"))
		args := e.paramSyms(st, fn)
		st.setFact(tEq(args[0], tNil), false)
		st.setFact(tEq(args[1], tNil), false)
		st.setG("cl.fn", args[1])
		c.entries[m.entry] = true
		outs := e.Run(st, fn, args)
		for _, o := range outs {
			m.atTxnReturn(e, o, n)
		}
		c.absorb(e, fn)
	}
}

func (m *cliMon) begin(st *State, op string, txn bool) {
	st.setGS("cl.op", op)
	st.setG("cl.txn", mkBool(txn))
	st.setGS("cl.sent", "0")
	for _, k := range []string{"cl.in", "cl.resp1", "cl.frame", "cl.wbytes", "cl.w", "cl.code", "cl.exists", "cl.nKey", "cl.nValue", "cl.nMeta", "cl.failed"} {
		st.setG(k, nil)
	}
}

var txnOps = []string{"Set", "Exists", "Get", "Delete", "Scan", "Commit", "Discard"}

// history runs every sequence of calls on the transaction handed to the
// caller's function.
func (m *cliMon) history(e *Eng, st *State, t *Term, ins ssa.Instruction) []Out {
	var outs []Out
	if t.op != "iface" {
		m.c.fail("engine", m.entry, "txn type", e.pos(ins), "not decided: the transaction handed to the caller's function has an unknown type")
		return nil
	}
	st.setG("cl.t", t)
	st.setG("cl.out", nil)
	states := e.explore(st, func(s *State) []*State {
		var next []*State
		for _, op := range txnOps {
			fn := e.methodOf(t.typ, op)
			if fn == nil {
				m.c.fail("client-entry", "Txn."+op, "missing", "-", "the client transaction has no "+op)
				continue
			}
			s2 := s.clone()
			m.begin(s2, op, true)
			args := []*Term{s2.g("cl.t").args[0]}
			for i := 1; i < len(fn.Params); i++ {
				p := fn.Params[i]
				args = append(args, mkFresh("sym", p.Type(), &SymInfo{kind: "param", site: p.Name(), name: p.Name(), mayNil: isPtrLike(p.Type())}))
			}
			s2.setG("cl.in", mkTuple(args[1:]...))
			m.c.obl("client-txn-op", m.entry+" "+op)
			for _, o := range e.callFn(s2, fn, args, nil, ins) {
				if o.panic {
					continue
				}
				m.atReturn(e, o, fn)
				m.begin(o.st, "", true)
				next = append(next, o.st)
			}
		}
		return next
	})
	for _, s := range states {
		s.setGS("cl.fnran", "1")
		er := mkFresh("sym", types.Universe.Lookup("error").Type(), &SymInfo{kind: "call", site: "user function", name: "user function"})
		s.setG("cl.fnerr", er)
		outs = append(outs, Out{st: s, res: []*Term{er}})
	}
	return outs
}

func (e *Eng) methodOf(t types.Type, name string) *ssa.Function {
	ms := e.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func isQ(n, suffix string) bool {
	return strings.Contains(n, qrpcP) && strings.HasSuffix(n, suffix)
}

// forkErr splits an outcome by whether its last result is an error.
func forkErr(o Out) []Out {
	er := o.res[len(o.res)-1]
	if _, known := o.st.evalBool(tEq(er, tNil)); known {
		return []Out{o}
	}
	b := Out{st: o.st.clone(), res: append([]*Term{}, o.res...)}
	o.st.assume(tEq(er, tNil), true)
	o.res = append([]*Term{}, o.res...)
	o.res[len(o.res)-1] = tNil
	b.st.assume(tEq(er, tNil), false)
	return []Out{o, b}
}

// errIs splits an outcome with a non-nil error: is it the sentinel or not?
func errIs(o Out, sent *Term) (is Out, isOK bool, not Out, notOK bool) {
	er := errOf(o)
	is = Out{st: o.st.clone(), res: append([]*Term{}, o.res...)}
	isOK = is.st.assume(tEq(er, sent), true)
	is.res[len(is.res)-1] = sent
	not = o
	notOK = not.st.assume(tEq(er, sent), false)
	return
}

func errOf(o Out) *Term { return o.res[len(o.res)-1] }

func (m *cliMon) monitor() *Rule {
	r := &Rule{Numeric: m.c.prop == "P28" || m.c.prop == "P07"}
	r.NilDeref = func(e *Eng, st *State, ins ssa.Instruction, v *Term, why string) {
		if v.op == "sym" && v.info != nil && v.info.kind == "param" {
			return
		}
		m.want("P07", "nil-deref", why, e, ins, why)
	}
	r.Bounds = func(e *Eng, st *State, ins ssa.Instruction, what string) {
		m.want("P07", "bounds", what, e, ins, what)
	}
	r.PanicInstr = func(e *Eng, st *State, ins ssa.Instruction) {
		m.want("P07", "panic", "explicit", e, ins, "explicit panic in a client call")
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		n := ev.Name
		switch {
		case ev.Name == "callback" && ev.Args[0] == st.g("cl.fn") && st.g("cl.fn") != nil:
			if st.gs("cl.fnran") != "" {
				m.want("P28", "client-txn", "twice", e, ev.Instr, "the caller's function is run twice")
				return nil, false
			}
			return m.history(e, st, ev.Args[1], ev.Instr), true
		case n == qrpcP+"CmdWithOpaque" || isQ(n, "CmdWithOpaque"):
			return []Out{{st: st, res: []*Term{mkAppT(types.Typ[types.Uint32], "withopaque", ev.Args...)}}}, true
		case isQ(n, ").FrameCh"):
			if m.c.prop == "P28" && ev.Args[0] != st.g("cl.first") {
				m.bad("P28", st, e, ev.Instr, "framech", "replies are taken from a stream that is not the transaction's")
			}
			return []Out{{st: st, res: []*Term{mkApp("framech", ev.Args[0])}}}, true
		}
		return nil, false
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) { m.storeEntry(e, st, ins, loc, val) }
	r.Append = func(e *Eng, st *State, ins ssa.Instruction, old *Term, el []*Term, et types.Type) {
		if !m.isEntryType(et) {
			return
		}
		for k, x := range el {
			pos := tAdd(tLen(old), mkInt(int64(k)))
			for i, f := range []string{"Key", "Value", "Meta"} {
				s, _ := vmetaType(m.c.w, "Entry").Underlying().(*types.Struct)
				m.entryField(e, st, ins, f, pos, e.fieldOf(x, i, s.Field(i)))
			}
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		n := ev.Name
		if ev.Kind == "recv" {
			if ev.Args[0].op == "app" && ev.Args[0].aux == "framech" {
				if st.g("cl.frame") != nil {
					m.bad("P28", st, e, ev.Instr, "second reply", "a second reply is taken for one request")
				}
				m.gotFrame(e, st, ev.Args[1])
			}
			return outs
		}
		switch {
		case isQ(n, "Connection).Request"):
			m.send(e, st, ev, ev.Args[1], ev.Args[2], ev.Args[3], "request")
			var res []Out
			for _, o := range outs {
				o.st.setG("cl.resp1", o.res[1])
				res = append(res, forkErr(o)...)
			}
			return res
		case isQ(n, "Connection).StreamRequest"):
			m.send(e, st, ev, ev.Args[1], ev.Args[2], ev.Args[3], "stream")
			var res []Out
			for _, o := range outs {
				for _, x := range forkErr(o) {
					if errOf(x) == tNil {
						x.st.setG("cl.stream", x.res[0])
						x.st.setG("cl.resp", x.res[1])
						x.st.setFact(tEq(x.res[0], tNil), false)
					}
					res = append(res, x)
				}
			}
			return res
		case isQ(n, "StreamWriter).StartWrite"):
			for _, o := range outs {
				if ev.Args[0] != o.st.g("cl.stream") {
					m.bad("P28", st, e, ev.Instr, "stream", "the request is written to a stream that is not the transaction's")
				}
				if o.st.gs("cl.op") == "" {
					for _, k := range []string{"cl.frame", "cl.code"} {
						o.st.setG(k, nil)
					}
				} else if o.st.g("cl.w") != nil {
					m.bad("P28", st, e, ev.Instr, "second request", "one call starts two requests")
				}
				o.st.setG("cl.w", ev.Args[1])
				o.st.setG("cl.wbytes", nil)
			}
		case isQ(n, "StreamWriter).WriteBytes"):
			for _, o := range outs {
				b := ev.Args[1]
				if old := o.st.g("cl.wbytes"); old != nil {
					b = mkCat(e.content(o.st, old), e.content(o.st, b))
				}
				o.st.setG("cl.wbytes", b)
			}
		case isQ(n, "StreamWriter).EndWrite"):
			var res []Out
			for _, o := range outs {
				cmd := o.st.g("cl.w")
				if cmd == nil {
					m.bad("P28", st, e, ev.Instr, "order", "a request is ended that was not started")
					cmd = tNil
				}
				end := ev.Args[1]
				op := o.st.gs("cl.op")
				if op == "" {
					op = m.helperOp(cmd)
				}
				if m.txnOp(o.st) {
					wantEnd := mkBool(op == "Commit" || op == "Discard")
					if v, known := o.st.evalBool(end); known {
						end = mkBool(v)
					}
					if end != wantEnd {
						m.bad("P28", st, e, ev.Instr, "end flag", "the end of the stream is not marked by exactly commit and discard")
					}
				}
				m.send(e, o.st, ev, cmd, nil, orNil(o.st.g("cl.wbytes")), "continued")
				res = append(res, forkErr(o)...)
			}
			return res
		case isQ(n, "Response).GetFrame"):
			var res []Out
			for _, o := range outs {
				resp := o.st.g("cl.resp1")
				if o.st.g("cl.txn") == tTrue {
					resp = o.st.g("cl.resp")
					if o.st.g("cl.first") != nil {
						m.bad("P28", st, e, ev.Instr, "stale reply", "the reply to an earlier request of the transaction is taken as this request's")
					}
				}
				if resp == nil || ev.Args[0] != resp {
					m.bad("P28", st, e, ev.Instr, "response", "the reply is not taken from this request's response")
				}
				for _, x := range forkErr(o) {
					if errOf(x) == tNil {
						x.st.setFact(tEq(x.res[0], tNil), false)
						if x.st.g("cl.frame") != nil {
							m.bad("P28", st, e, ev.Instr, "second reply", "a second reply is taken for one request")
						}
						m.gotFrame(e, x.st, x.res[0])
						if x.st.g("cl.txn") == tTrue {
							x.st.setG("cl.first", x.res[0])
						}
					} else {
						x.st.setGS("cl.failed", "1")
					}
					res = append(res, x)
				}
			}
			return res
		}
		return outs
	}
	return r
}

// helperOp: the command Update and View may send themselves.
func (m *cliMon) helperOp(cmd *Term) string {
	for _, n := range []string{"Commit", "Discard"} {
		if cmd == mkInt(m.cmds[n]) {
			return n
		}
	}
	return ""
}

func (m *cliMon) txnOp(st *State) bool { return st.g("cl.txn") == tTrue }

func (m *cliMon) qconst(n string, def int64) int64 {
	sm := &srvMon{c: m.c}
	if v, ok := sm.qrpcConst(n); ok {
		return v
	}
	return def
}

var _ = constant.MakeInt64

// send: a request frame leaves the client.
func (m *cliMon) send(e *Eng, st *State, ev *Event, cmd, flags, payload *Term, how string) {
	op := st.gs("cl.op")
	m.c.obl("client-send", m.entry+" "+op+" "+how)
	if op == "" && m.txnOp(st) {
		// commit or discard issued by Update/View themselves
		op = m.helperOp(cmd)
		if op == "" {
			m.want("P28", "client-txn", "extra", e, ev.Instr, "the helper itself sends something else than commit or discard")
			return
		}
		if op == "Commit" {
			if st.g("cl.update") != tTrue {
				m.want("P28", "client-txn", "commit", e, ev.Instr, "a read helper commits")
				m.want("P04", "client-txn", "commit", e, ev.Instr, "a read helper commits")
			}
			if fe := st.g("cl.fnerr"); fe == nil || !knownNil(st, fe) {
				m.want("P28", "client-txn", "commit failed", e, ev.Instr, "the transaction is committed although the caller's function may have failed")
				m.want("P04", "client-txn", "commit failed", e, ev.Instr, "the transaction is committed although the caller's function may have failed")
			}
			st.setGS("cl.committed", "1")
		}
	} else {
		if st.gs("cl.sent") != "0" {
			m.bad("P28", st, e, ev.Instr, "second request", "one call sends two requests")
		}
		st.setGS("cl.sent", "1")
	}
	upd := st.g("cl.update")
	want := mkInt(m.cmds[op])
	switch how {
	case "request":
		if m.txnOp(st) {
			m.bad("P28", st, e, ev.Instr, "outside", "a transaction call is sent outside the transaction's stream")
		}
		if flags.op != "int" || flags.c&m.qconst("StreamFlag", 1) != 0 {
			m.bad("P28", st, e, ev.Instr, "flags", "a single request is flagged as a stream")
		}
	case "stream":
		if !m.txnOp(st) {
			m.bad("P28", st, e, ev.Instr, "stream", "a single call opens a stream")
		}
		if st.g("cl.stream") != nil {
			m.bad("P28", st, e, ev.Instr, "new stream", "a call on an open transaction opens a second stream")
		}
		if flags != mkInt(m.qconst("StreamFlag", 1)) {
			m.bad("P28", st, e, ev.Instr, "flags", "the first request of a transaction is not flagged as the start of a stream")
		}
		if op == "Commit" || op == "Discard" {
			m.bad("P28", st, e, ev.Instr, "unused", "committing or discarding an unused transaction contacts the server")
		}
		if upd == tTrue {
			want = mkApp("withopaque", mkInt(m.cmds[op]), mkInt(1))
		}
	}
	if cmd != want {
		m.bad("P28", st, e, ev.Instr, "command "+how, "the request does not carry the call's command: "+cmd.String())
	}
	if (op == "Set" || op == "Delete") && m.txnOp(st) && upd != tTrue {
		m.bad("P28", st, e, ev.Instr, "read-only", "a mutation is sent for a read-only transaction")
	}
	m.payload(e, st, ev, op, payload)
}

func (m *cliMon) payload(e *Eng, st *State, ev *Event, op string, p *Term) {
	b := e.content(st, p)
	if op == "Commit" || op == "Discard" {
		if !isZeroTerm(b) {
			m.bad("P28", st, e, ev.Instr, "payload", "the request carries data: "+b.String())
		}
		return
	}
	if !(b.op == "app" && b.aux == "pbbytes:"+op+"Request") {
		m.bad("P28", st, e, ev.Instr, "payload", "the request does not consist of exactly one encoded "+op+"Request: "+b.String())
		return
	}
	in := st.g("cl.in")
	if in == nil {
		return
	}
	field := func(f string) *Term { return orNil(e.pbField(m.c.w, b, f)) }
	same := func(f string, want *Term) {
		if got := field(f); stripConv(got) != stripConv(want) && !sameBytes(got, want) {
			m.bad("P28", st, e, ev.Instr, "argument "+f, "the "+f+" sent is not the caller's: "+got.String())
		}
	}
	switch op {
	case "Set":
		same("Key", in.args[0])
		same("Value", in.args[1])
		m.reqMeta(e, st, ev, field("Meta"), in.args[2])
	case "Get", "Exists", "Delete":
		same("Key", in.args[0])
	case "Scan":
		m.scanReq(e, st, ev, b, in.args[0])
	}
}

// subField is a field of an embedded message held by pointer v.
func (m *cliMon) subField(e *Eng, st *State, v *Term, msg, f string) *Term {
	if v.op == "app" && v.aux == "msg:"+msg {
		return e.pbField(m.c.w, v, f)
	}
	if v.op == "obj" {
		p := m.c.w.spkgs["pb"]
		tn, _ := p.Pkg.Scope().Lookup(msg).(*types.TypeName)
		if tn == nil {
			return nil
		}
		s := tn.Type().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return e.load(st, fieldLoc(v, i, f), s.Field(i).Type(), nil)
			}
		}
	}
	return nil
}

func (m *cliMon) reqMeta(e *Eng, st *State, ev *Event, v, meta *Term) {
	isNil, known := st.evalBool(tEq(meta, tNil))
	if v.op == "nil" {
		if !known || !isNil {
			m.bad("P28", st, e, ev.Instr, "argument Meta", "the expiry and tag given by the caller may not be sent")
		}
		return
	}
	s, _ := vmetaType(m.c.w, "VMetaReq").Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		want := e.load(st, fieldLoc(meta, i, f.Name()), f.Type(), nil)
		got := m.subField(e, st, v, "VMetaReq", f.Name())
		if got == nil || stripConv(got) != stripConv(want) {
			m.bad("P28", st, e, ev.Instr, "argument Meta."+f.Name(), "the "+f.Name()+" sent is not the caller's")
		}
	}
	if known && isNil {
		m.bad("P28", st, e, ev.Instr, "argument Meta", "metadata is sent although the caller gave none")
	}
}

func (m *cliMon) scanReq(e *Eng, st *State, ev *Event, b, opt *Term) {
	sub := e.pbField(m.c.w, b, "ProviderScanOption")
	ot := vmetaType(m.c.w, "ScanOption")
	sm := &srvMon{c: m.c}
	find := func(name string) *Term {
		if v := sm.fieldOfValue(e, opt, ot, name); v != nil {
			return v
		}
		if ps := sm.fieldOfValue(e, opt, ot, "ProviderScanOption"); ps != nil {
			return sm.fieldOfValue(e, ps, vmetaType(m.c.w, "ProviderScanOption"), name)
		}
		return nil
	}
	for _, f := range []string{"Reverse", "Prefix", "Offset"} {
		want := find(f)
		var got *Term
		if sub != nil {
			got = m.subField(e, st, sub, "ProviderScanOption", f)
		}
		if want == nil || got == nil || got != want && !sameBytes(e.content(st, got), want) {
			if got != nil && want != nil && (got == tTrue || got == tFalse) {
				if v, known := st.evalBool(want); known && mkBool(v) == got {
					continue
				}
			}
			m.bad("P28", st, e, ev.Instr, "argument "+f, "the scan option "+f+" sent is not the caller's")
		}
	}
	lim, got := find("Limit"), e.pbField(m.c.w, b, "Limit")
	if lim == nil || got == nil {
		m.bad("P28", st, e, ev.Instr, "argument Limit", "the scan limit is not sent")
		return
	}
	maxE, _ := m.c.w.intConst("mondis", "MaxEntry")
	g := stripConv(got)
	ok := g == lim && st.entailsGe0(lin{c: maxE}.add(toLin(lim), -1))
	if g == mkInt(maxE) && st.entailsGe0(toLin(lim).add(lin{c: maxE}, -1)) {
		ok = true
	}
	if !ok {
		m.bad("P28", st, e, ev.Instr, "argument Limit", "the scan limit sent is not the caller's limit cut off at the maximum: "+got.String())
		m.bad("P06", st, e, ev.Instr, "argument Limit", "the scan limit sent is not the caller's limit cut off at the maximum: "+got.String())
	}
	if !st.entailsGe0(toLin(lim).add(lin{c: 1}, -1)) {
		m.bad("P06", st, e, ev.Instr, "limit zero", "a scan with a limit of zero or below is sent to the server")
	}
}

// ---- results

func (m *cliMon) framePayload(e *Eng, st *State) *Term {
	fr := st.g("cl.frame")
	if fr == nil || fr.op == "nil" {
		return nil
	}
	return stripCopy(e.content(st, frameField(st, e, fr, "Payload")))
}

func (m *cliMon) atReturn(e *Eng, o Out, fn *ssa.Function) {
	st := o.st
	op := st.gs("cl.op")
	m.c.obl("client-return", m.entry+" "+op)
	if op == "Discard" {
		if st.g("cl.stream") == nil && st.gs("cl.sent") != "0" {
			m.bad("P28", st, e, nil, "unused", "discarding an unused transaction contacts the server")
		}
		if st.g("cl.stream") != nil && st.gs("cl.sent") == "0" {
			m.bad("P28", st, e, nil, "skipped", "discarding a used transaction does not reach the server")
		}
		return
	}
	er := errOf(o)
	sent := st.gs("cl.sent") == "1"
	if (op == "Set" || op == "Delete") && m.txnOp(st) && st.g("cl.update") != tTrue {
		if er != mk("sentinel", "client.ErrMutateForROTxn") || sent {
			m.bad("P28", st, e, nil, "read-only", "a mutation on a read-only transaction is not refused locally: "+er.String())
		}
		return
	}
	if op == "Commit" && st.g("cl.stream") == nil {
		if sent || !knownNil(st, er) {
			m.bad("P28", st, e, nil, "unused", "committing an unused transaction contacts the server or fails")
		}
		return
	}
	if op == "Scan" && !sent {
		opt := st.g("cl.in").args[0]
		sm := &srvMon{c: m.c}
		lim := sm.fieldOfValue(e, opt, vmetaType(m.c.w, "ScanOption"), "Limit")
		if lim != nil && st.entailsGe0(lin{}.add(toLin(lim), -1)) {
			if !isZeroTerm(o.res[0]) {
				m.bad("P06", st, e, nil, "limit zero", "a scan with a limit of zero or below returns entries")
			}
			return
		}
	}
	payload := m.framePayload(e, st)
	for _, x := range forkErr(Out{st: st.clone(), res: o.res}) {
		er := errOf(x)
		if er.op == "nil" || er.op == "sym" && knownNil(x.st, er) {
			m.success(e, x, op, sent, payload)
		} else {
			m.failure(e, x, op, sent, payload, er)
		}
	}
}

// gotFrame notes the reply frame and the fields that may be branched upon.
func (m *cliMon) gotFrame(e *Eng, st *State, fr *Term) {
	st.setG("cl.frame", fr)
	p := m.framePayload(e, st)
	op := st.gs("cl.op")
	if op == "" && st.g("cl.w") != nil {
		op = m.helperOp(st.g("cl.w"))
	}
	if p == nil {
		return
	}
	st.setG("cl.code", mkAppT(types.Typ[types.Int32], "pb."+op+"Response.Code", p))
	if op == "Scan" {
		for _, f := range []string{"Key", "Value", "Meta"} {
			st.setG("cl.n"+f, mkInt(0))
		}
	}
	if op == "Exists" {
		st.setG("cl.exists", mkAppT(types.Typ[types.Bool], "pb.ExistsResponse.Exists", p))
	}
}

func (m *cliMon) success(e *Eng, o Out, op string, sent bool, payload *Term) {
	st := o.st
	if !sent {
		m.bad("P28", st, e, nil, "not sent", "the call succeeds without having sent its request")
		return
	}
	if payload == nil {
		m.bad("P28", st, e, nil, "no reply", "the call succeeds without having received its reply")
		return
	}
	code := st.g("cl.code")
	if v, known := st.evalBool(tEq(code, mkInt(m.codes["OK"]))); !known || !v {
		m.bad("P28", st, e, nil, "code", "the call succeeds without the reply's code being the success code")
		m.bad("P05", st, e, nil, "code", "the call succeeds without the reply's code being the success code")
		m.bad("P09", st, e, nil, "code", "the call succeeds without the reply's code being the success code")
		return
	}
	switch op {
	case "Get":
		if v := e.content(st, o.res[0]); !sameBytes(v, mkApp("pb.GetResponse.Value", payload)) {
			m.bad("P28", st, e, nil, "value", "the value returned is not the one in the reply: "+v.String())
		}
		m.respMeta(e, st, o.res[1], func(f string, v *Term) bool {
			return loadedFrom(v, f, "pb.GetResponse.Meta", payload)
		}, func() bool {
			v, ok := findDecoded(st, "pb.GetResponse.Meta", payload)
			return !ok || !knownNil(st, v)
		})
	case "Exists":
		want := st.g("cl.exists")
		if o.res[0] != want {
			if v, known := st.evalBool(want); !known || o.res[0] != mkBool(v) {
				m.bad("P28", st, e, nil, "exists", "the answer returned is not the one in the reply: "+o.res[0].String())
			}
		}
	case "Scan":
		all := mkAppT(nil, "pb.ScanResponse.Entries", payload)
		n := toLin(tLen(all))
		eq := func(t *Term) bool {
			d := toLin(t).add(n, -1)
			return st.entailsGe0(d) && st.entailsGe0(lin{}.add(d, -1))
		}
		if !eq(tLen(o.res[0])) {
			m.bad("P28", st, e, nil, "entries", "not every entry of the reply is returned: "+o.res[0].String())
			return
		}
		if eq(mkInt(0)) {
			return
		}
		for _, f := range []string{"Key", "Value", "Meta"} {
			k := st.g("cl.n" + f)
			if k == nil || !eq(k) {
				m.bad("P28", st, e, nil, "entries "+f, "the "+f+" of some returned entry is not taken from the reply")
			}
		}
	}
}

// respMeta: a VMetaResp value holds the fields of an optional part.
func (m *cliMon) respMeta(e *Eng, st *State, v *Term, from func(f string, v *Term) bool, present func() bool) {
	t := vmetaType(m.c.w, "VMetaResp")
	s, _ := t.Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		x := e.fieldOf(v, i, f)
		if from(f.Name(), x) || isZeroTerm(x) && !present() {
			continue
		}
		m.bad("P28", st, e, nil, "meta "+f.Name(), "the "+f.Name()+" returned is not the one in the reply: "+x.String())
	}
}

func (m *cliMon) failure(e *Eng, o Out, op string, sent bool, payload, er *Term) {
	st := o.st
	var code *Term
	decoded := false
	if payload != nil {
		code = st.g("cl.code")
		if v, known := st.evalBool(tEq(code, mkInt(m.codes["OK"]))); known {
			decoded = true
			if v {
				m.bad("P28", st, e, nil, "success lost", "a success reply is reported as an error")
			}
		}
	}
	for _, x := range []struct{ err, code, ops string }{{"kv.ErrKeyNotFound", "KeyNotFound", "Get"}, {"kv.ErrTxnTooBig", "TxnTooBig", "Set Delete"}} {
		s := mk("sentinel", x.err)
		m.c.obl("client-code", op+" "+x.code)
		var is, known bool
		if code != nil {
			is, known = st.evalBool(tEq(code, mkInt(m.codes[x.code])))
		}
		if er == s && !(known && is) {
			m.bad("P05", st, e, nil, x.code+" wrong", x.err+" is returned for another failure")
		}
		if strings.Contains(x.ops, op) && decoded && er != s && !(known && !is) {
			m.bad("P05", st, e, nil, x.code, "a reply with the code of "+x.err+" is not returned as that error")
		}
	}
}

func (m *cliMon) isEntryType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Entry" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func (m *cliMon) storeEntry(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
	// entries[i].F = v or entries[i] = v, for a []mondis.Entry under construction
	base, field := loc, ""
	if base.op == "field" && base.args[0].op == "field" && base.args[0].args[0].op == "idx" {
		return // a part of Meta; the whole is checked when complete
	}
	if base.op == "field" && base.args[0].op == "idx" {
		field = base.aux[strings.Index(base.aux, ":")+1:]
		base = base.args[0]
	}
	if base.op != "idx" || !(base.args[0].op == "make" || base.args[0].op == "sym") {
		return
	}
	bt := base.args[0].typ
	if bt == nil {
		return
	}
	sl, ok := bt.Underlying().(*types.Slice)
	if !ok || !m.isEntryType(sl.Elem()) {
		return
	}
	s, _ := vmetaType(m.c.w, "Entry").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if field == "" {
			m.entryField(e, st, ins, f.Name(), base.args[1], e.fieldOf(val, i, f))
		} else if field == f.Name() {
			m.entryField(e, st, ins, f.Name(), base.args[1], val)
		}
	}
}

// entryField: field f of returned entry number pos is v.
func (m *cliMon) entryField(e *Eng, st *State, ins ssa.Instruction, f string, pos, v *Term) {
	payload := m.framePayload(e, st)
	if payload == nil {
		return
	}
	m.c.obl("client-entry-field", m.entry+" "+st.gs("cl.op")+" "+f)
	all := mkAppT(nil, "pb.ScanResponse.Entries", payload)
	next := st.g("cl.n" + f)
	if next == nil {
		next = mkInt(0)
	}
	d := toLin(pos).add(toLin(next), -1)
	if !(st.entailsGe0(d) && st.entailsGe0(lin{}.add(d, -1))) {
		m.bad("P28", st, e, ins, "entries order", "the returned entries are not filled one after another")
		return
	}
	st.setG("cl.n"+f, tAdd(pos, mkInt(1)))
	src := func(v *Term, f string) *Term { // the element v's field f was loaded from
		v = stripConv(v)
		if v.op != "sym" || v.info == nil || v.info.kind != "load" {
			return nil
		}
		l, _ := v.info.ptr.(*Term)
		if l == nil || l.op != "field" || !strings.HasSuffix(l.aux, ":"+f) {
			return nil
		}
		return l.args[0]
	}
	isElem := func(x *Term) bool {
		if x == nil || x.op != "sym" || x.info == nil || x.info.kind != "load" {
			return false
		}
		l, _ := x.info.ptr.(*Term)
		if l == nil || l.op != "idx" || l.args[0] != all {
			return false
		}
		d := toLin(l.args[1]).add(toLin(pos), -1)
		return st.entailsGe0(d) && st.entailsGe0(lin{}.add(d, -1))
	}
	if f == "Meta" {
		m.respMeta(e, st, v, func(mf string, x *Term) bool {
			mp := src(x, mf)
			return mp != nil && isElem(src(mp, "Meta"))
		}, func() bool {
			// absent metadata: the pointer must be known to be nil
			for l, mv := range st.heap {
				if l.op == "field" && strings.HasSuffix(l.aux, ":Meta") && isElem(l.args[0]) {
					return !knownNil(st, mv)
				}
			}
			return true
		})
		return
	}
	if !isElem(src(stripCopy(e.content(st, v)), f)) {
		m.bad("P28", st, e, ins, "entries "+f, "the "+f+" of a returned entry is not that of the reply's entry at the same position: "+v.String())
	}
}

// atTxnReturn: Update or View is done.
func (m *cliMon) atTxnReturn(e *Eng, o Out, n string) {
	st := o.st
	if o.panic {
		return
	}
	if st.gs("cl.fnran") == "" {
		m.want("P28", "client-txn", "not run", e, nil, "the caller's function is not run")
		return
	}
	fe, er := st.g("cl.fnerr"), errOf(o)
	if !knownNil(st, fe) && !st.nonNil(fe) {
		// outcome of the function untested: fine only when it is returned
		if er != fe || n == "Update" {
			m.want("P28", "client-txn", "untested", e, nil, "the caller's function's error is not looked at")
			m.want("P04", "client-txn", "untested", e, nil, "the caller's function's error is not looked at")
		}
		return
	}
	if st.nonNil(fe) && er != fe && !st.nonNil(er) {
		m.want("P28", "client-txn", "error lost", e, nil, "the caller's function failed but success is reported")
		m.want("P04", "client-txn", "error lost", e, nil, "the caller's function failed but success is reported")
	}
	if knownNil(st, fe) && n == "Update" && st.g("cl.stream") != nil && st.gs("cl.committed") != "1" && !st.nonNil(er) {
		m.want("P28", "client-txn", "no commit", e, nil, "success is reported although the transaction was not committed")
		m.want("P04", "client-txn", "no commit", e, nil, "success is reported although the transaction was not committed")
	}
}

func init() {
	register("P05", func(c *Ctx) {
		c.rule("on every path: a not-found or over-large outcome of the storage becomes exactly its documented reply code and back its documented error value, every other failure becomes a code and an error that is none of them, success is reported iff the operation (and its commit) succeeded")
		runServer(c)
		runClient(c)
		c.need("reply", 5)
		c.need("client-return", 10)
	})
	register("P06", func(c *Ctx) {
		c.rule("linear arithmetic over every path of the scan handler and of the client's scan calls: no entry is added once the limit or one thousand is reached, none for a limit of zero or below; the client requests at most its own limit and one thousand")
		runServer(c)
		runClient(c)
		c.need("scan-entry", 1)
		c.need("client-send", 2)
	})
	register("P28", func(c *Ctx) {
		c.rule("every client call and every sequence of calls on a client transaction: exactly one request with the call's command, stream flags and the caller's arguments; success only when the reply taken from this very request carries the success code; the values returned are the decoded fields of that reply")
		runClient(c)
		c.need("client-send", 7)
		c.need("client-return", 10)
		c.need("client-txn-op", 14)
	})
}
