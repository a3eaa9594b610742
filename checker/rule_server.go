package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Server rule: one monitor over every path of every request handler.
// It decides P01 (fidelity), P02 (one reply), P05 (codes), P06 (limit) and the
// server part of P03 (transaction released) from the same exploration.

func (w *World) intConst(pkg, name string) (int64, bool) {
	p := w.spkgs[pkg]
	if p == nil {
		return 0, false
	}
	c, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

type srvMon struct {
	c       *Ctx
	tag     map[string]bool // properties whose findings are wanted
	cmds    map[int64]string
	reply   map[string]int64
	codes   map[string]int64
	entry   string // command of the entry
	handler string
}

const qrpcP = "github.com/zhiqiangxu/qrpc."

// serverHandlers finds the handler registered for every command.
func serverHandlers(c *Ctx) map[string]*ssa.Function {
	w := c.w
	res := map[string]*ssa.Function{}
	names := map[int64]string{}
	for _, n := range []string{"Set", "Exists", "Get", "Delete", "Scan"} {
		if v, ok := w.intConst("server", n+"Cmd"); ok {
			names[v] = n
		}
	}
	fn := w.fn("server.New")
	if fn == nil {
		return res
	}
	r := &Rule{Intercept: func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if strings.HasSuffix(ev.Name, "ServeMux).Handle") && len(ev.Args) >= 3 {
			cmd, h := ev.Args[1], ev.Args[2]
			if cmd.op == "int" && h.op == "iface" {
				if n := names[cmd.c]; n != "" {
					ms := w.prog.MethodSets.MethodSet(h.typ)
					if sel := ms.Lookup(nil, "ServeQRPC"); sel != nil {
						f := w.prog.MethodValue(sel)
						if res[n] != nil && res[n] != f {
							c.fail("route", n, "duplicate", e.pos(ev.Instr), "command "+n+" is routed to two handlers")
						}
						res[n] = f
					}
				}
			}
			return []Out{{st: st}}, true
		}
		if strings.HasSuffix(ev.Name, "ServeMux).HandleFunc") && len(ev.Args) >= 3 {
			if n := names[ev.Args[1].c]; ev.Args[1].op == "int" && n != "" && ev.Args[2].op == "closure" {
				res[n] = ev.Args[2].fn
			}
			return []Out{{st: st}}, true
		}
		return nil, false
	}}
	e := newEng(w, r)
	c.run(e, nil, fn, nil)
	return res
}

func newSrvMon(c *Ctx) *srvMon {
	m := &srvMon{c: c, cmds: map[int64]string{}, reply: map[string]int64{}, codes: map[string]int64{}}
	for _, n := range []string{"Set", "Exists", "Get", "Delete", "Scan", "Commit", "Discard"} {
		if v, ok := c.w.intConst("server", n+"Cmd"); ok {
			m.cmds[v] = n
		} else {
			c.fail("server-const", n, "missing", "-", "no command constant for "+n)
		}
		if v, ok := c.w.intConst("server", n+"RespCmd"); ok {
			m.reply[n] = v
		}
	}
	for _, n := range []string{"OK", "InvalidRequest", "InternalError", "TxnTooBig", "KeyNotFound"} {
		if v, ok := c.w.intConst("server", "Code"+n); ok {
			m.codes[n] = v
		}
	}
	return m
}

// runServer explores all handlers.
func runServer(c *Ctx) {
	m := newSrvMon(c)
	hs := serverHandlers(c)
	for _, n := range []string{"Set", "Exists", "Get", "Delete", "Scan"} {
		h := hs[n]
		if h == nil {
			if c.prop == "P01" || c.prop == "P02" {
				c.fail("route", n, "missing", "-", "no handler is registered for command "+n)
			}
			continue
		}
		c.obl("handler", n)
		m.entry, m.handler = n, shortName(h.String())
		e := newEng(c.w, m.monitor())
		st := newState()
		args := e.paramSyms(st, h)
		for _, a := range args {
			st.setFact(tEq(a, tNil), false)
		}
		frame := args[len(args)-1]
		st.setG("srv.frame", frame)
		st.setG("srv.first", frame)
		st.setGS("srv.ops", "0")
		c.entries[m.handler] = true
		outs := e.Run(st, h, args)
		for _, o := range outs {
			if o.panic {
				continue
			}
			m.atReturn(e, o.st)
		}
		c.absorb(e, h)
	}
}

// want reports a finding when it belongs to the property being checked.
func (m *srvMon) want(prop, rule, detail string, e *Eng, ins ssa.Instruction, msg string) {
	if m.c.prop != prop {
		return
	}
	fn := m.handler
	if ins != nil {
		fn = m.handler + "/" + shortName(topFn(ins.Parent()).String())
	}
	where := m.handler
	if ins != nil {
		where = e.pos(ins)
	}
	m.c.fail(rule, fn, detail, where, msg)
}

func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func frameField(st *State, e *Eng, frame *Term, name string) *Term {
	idx := map[string]int{"RequestID": 0, "Flags": 1, "Cmd": 2, "Payload": 3}[name]
	ft := map[string]types.Type{"RequestID": types.Typ[types.Uint64], "Payload": types.NewSlice(types.Typ[types.Uint8])}[name]
	if ft == nil {
		ft = types.Typ[types.Uint32]
	}
	return e.load(st, fieldLoc(frame, idx, name), ft, nil)
}

// command of the current frame, "" when not determined on this path.
func (m *srvMon) cmd(e *Eng, st *State) string {
	fr := st.g("srv.frame")
	if fr == nil {
		return ""
	}
	if fr == st.g("srv.first") {
		return m.entry
	}
	t := frameField(st, e, fr, "Cmd")
	if t.op == "int" {
		if n := m.cmds[t.c]; n != "" {
			return n
		}
		return "unknown"
	}
	return ""
}

func (m *srvMon) isFirst(st *State) bool { return st.g("srv.frame") == st.g("srv.first") }

var opReq = map[string]string{"Set": "SetRequest", "Get": "GetRequest", "Exists": "ExistsRequest", "Delete": "DeleteRequest", "Scan": "ScanRequest"}

func (m *srvMon) monitor() *Rule {
	r := &Rule{Numeric: m.c.prop == "P06" || m.c.prop == "P07"}
	if m.c.prop == "P07" {
		panicHooks(m.c, r, m.handler)
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if ev.Op == "Scan" {
			st.setGS("srv.scan", "in")
			st.setG("srv.entries", nil)
		}
		if ev.Op != "" {
			m.beforeOp(e, st, ev)
		}
	}
	r.ScanCall = func(e *Eng, st *State, ev *Event, args []*Term) {
		st.setG("srv.key", args[0])
		st.setG("srv.val", args[1])
		st.setG("srv.meta", args[2])
		if st.gs("srv.appended") == "0" {
			m.want("P01", "scan-entries", "skipped", e, ev.Instr, "a scanned entry is left out of the reply although the scan goes on")
		}
		st.setGS("srv.appended", "0")
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		n := ev.Name
		switch {
		case strings.HasPrefix(n, "(*"+qrpcP) && strings.HasSuffix(n, ").FrameCh"):
			if m.c.prop == "P01" && ev.Args[0] != st.g("srv.first") {
				m.want("P01", "stream", "framech", e, ev.Instr, "continuation frames are taken from a stream other than the request's")
			}
			return []Out{{st: st, res: []*Term{mkApp("framech", ev.Args[0])}}}, true
		case strings.HasPrefix(n, "("+qrpcP+"FrameFlag).IsDone"):
			return []Out{{st: st, res: []*Term{mkAppT(types.Typ[types.Bool], "isdone", ev.Args[0])}}}, true
		case strings.HasSuffix(n, ").Opaque") && strings.HasPrefix(n, "("+qrpcP):
			return []Out{{st: st, res: []*Term{mkAppT(types.Typ[types.Uint8], "opaque", ev.Args[0])}}}, true
		}
		return nil, false
	}
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		if loc.op == "field" && strings.HasSuffix(loc.aux, ":Entries") && st.gs("srv.scan") == "in" {
			m.appendEntry(e, st, ins, loc, val)
		}
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Kind == "recv" {
			ch := ev.Args[0]
			if ch.op == "app" && ch.aux == "framech" {
				m.atNext(e, st, ev)
				if r.Numeric {
					// nothing numeric carries over to the next request
					for f := range st.facts {
						if f.op == "ge0" || f.op == "eq0" {
							st.setFact(f, true)
							delete(st.facts, f)
						}
					}
				}
				st.setG("srv.frame", ev.Args[1])
				st.setGS("srv.ops", "0")
				st.setG("srv.op", nil)
				for _, k := range []string{"srv.oper", "srv.reply", "srv.wcmd", "srv.wid", "srv.wflags", "srv.bytes", "srv.werr", "srv.entries", "srv.scan", "srv.appended", "srv.key", "srv.val", "srv.meta"} {
					st.setG(k, nil)
				}
			}
			return outs
		}
		n := ev.Name
		switch {
		case ev.Op != "":
			m.atOp(e, st, ev, outs)
		case n == "("+qrpcP+"FrameWriter).StartWrite":
			for _, o := range outs {
				if o.st.gs("srv.reply") != "" {
					m.want("P02", "reply", "second", e, ev.Instr, "a second reply is started for the same request")
				}
				o.st.setGS("srv.reply", "started")
				o.st.setG("srv.wid", ev.Args[1])
				o.st.setG("srv.wcmd", ev.Args[2])
				o.st.setG("srv.wflags", ev.Args[3])
				o.st.setG("srv.bytes", nil)
			}
		case n == "("+qrpcP+"FrameWriter).WriteBytes":
			for _, o := range outs {
				if o.st.gs("srv.reply") != "started" {
					m.want("P02", "reply", "order", e, ev.Instr, "reply contents are written outside a started reply")
				}
				b := ev.Args[1]
				if old := o.st.g("srv.bytes"); old != nil {
					b = mkCat(old, b)
				}
				o.st.setG("srv.bytes", b)
			}
		case n == "("+qrpcP+"FrameWriter).EndWrite" || n == "("+qrpcP+"FrameWriter).EndWriteCompressed":
			for _, o := range outs {
				m.atReply(e, o.st, ev)
				o.st.setGS("srv.reply", "done")
				o.st.setG("srv.werr", o.res[0])
			}
		case n == "("+qrpcP+"FrameWriter).ResetFrame", strings.HasPrefix(n, "(*"+qrpcP) && strings.HasSuffix(n, ").Close"):
			for _, o := range outs {
				o.st.setGS("srv.closed", "1")
			}
		}
		return outs
	}
	return r
}

// appendEntry: each scanned entry is appended once, complete, as a copy.
func (m *srvMon) appendEntry(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
	m.c.obl("scan-entry", m.handler)
	old := e.load(st, loc, types.NewSlice(types.Typ[types.Int]), ins)
	if isZeroTerm(val) || val.op == "make" && val.args[0] == mkInt(0) {
		// an empty list before the first entry
		return
	}
	if !(val.op == "app" && val.aux == "append" && len(val.args) == 2 && val.args[0] == old) {
		m.want("P01", "scan-entries", "append", e, ins, "the reply's entries are not extended by exactly the entry just scanned")
		m.want("P06", "scan-limit", "append", e, ins, "the reply's entries are not extended one at a time")
		return
	}
	// limit: before adding, fewer than min(limit, 1000)
	fr := st.g("srv.frame")
	payload := stripCopy(frameField(st, e, fr, "Payload"))
	lim := mkAppT(types.Typ[types.Int32], "pb.ScanRequest.Limit", payload)
	maxE, _ := m.c.w.intConst("mondis", "MaxEntry")
	room := toLin(lim).add(toLin(tLen(old)), -1)
	room.c--
	if !st.entailsGe0(room) {
		m.want("P06", "scan-limit", "limit", e, ins, "an entry is added to the reply without having shown that fewer entries than the request's limit are there")
	}
	if maxE > 0 {
		r2 := lin{c: maxE - 1}.add(toLin(tLen(old)), -1)
		if !st.entailsGe0(r2) {
			m.want("P06", "scan-limit", "max", e, ins, "an entry is added to the reply without having shown that fewer than the maximum number of entries are there")
		}
	}
	if st.gs("srv.appended") != "0" {
		m.want("P01", "scan-entries", "twice", e, ins, "one scanned entry is added to the reply more than once")
	}
	st.setGS("srv.appended", "1")
	en := val.args[1]
	if _, s := pbNamed(entryType(m.c.w)); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := e.load(st, fieldLoc(en, i, f.Name()), f.Type(), ins)
			ok := true
			switch f.Name() {
			case "Key":
				ok = sameBytes(e.content(st, v), st.g("srv.key"))
			case "Value":
				ok = sameBytes(e.content(st, v), st.g("srv.val"))
			case "Meta":
				ok = m.metaMatches(e, st, v, st.g("srv.meta"))
			}
			if !ok {
				m.want("P01", "scan-entries", f.Name(), e, ins, "the reply entry's "+f.Name()+" is not the scanned entry's: "+v.String())
			}
		}
	}
}

func entryType(w *World) types.Type {
	if p := w.spkgs["pb"]; p != nil {
		if tn, ok := p.Pkg.Scope().Lookup("Entry").(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return types.Typ[types.Int]
}

// stripConv removes integer conversions.
func stripConv(t *Term) *Term {
	for t.op == "app" && strings.HasPrefix(t.aux, "conv:") {
		t = t.args[0]
	}
	return t
}

// fieldOfValue is the field named name of a struct value term (or of what a
// struct value symbol holds).
func (m *srvMon) fieldOfValue(e *Eng, v *Term, typ types.Type, name string) *Term {
	s, _ := typ.Underlying().(*types.Struct)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.fieldOf(v, i, s.Field(i))
		}
	}
	return nil
}

func vmetaType(w *World, n string) types.Type {
	if p := w.spkgs["mondis"]; p != nil {
		if tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return types.Typ[types.Int]
}

// metaMatches: v is a pointer to (or snapshot of) a wire VMetaResp holding meta.
func (m *srvMon) metaMatches(e *Eng, st *State, v, meta *Term) bool {
	p := m.c.w.spkgs["pb"]
	tn, _ := p.Pkg.Scope().Lookup("VMetaResp").(*types.TypeName)
	if tn == nil || meta == nil {
		return false
	}
	s := tn.Type().Underlying().(*types.Struct)
	k := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		var got *Term
		if v.op == "app" && v.aux == "msg:VMetaResp" {
			got = v.args[k]
		} else if v.op == "obj" {
			got = e.load(st, fieldLoc(v, i, f.Name()), f.Type(), nil)
		} else {
			return false
		}
		k++
		want := m.fieldOfValue(e, meta, vmetaType(m.c.w, "VMetaResp"), f.Name())
		if want == nil || stripConv(got) != stripConv(want) {
			return false
		}
	}
	return true
}

// beforeOp: a storage operation is about to be executed.
func (m *srvMon) beforeOp(e *Eng, st *State, ev *Event) {
	switch ev.Op {
	case "NewTransaction":
		m.c.obl("open-txn", m.handler)
		upd := ev.Args[1]
		first := st.g("srv.first")
		op := mkAppT(types.Typ[types.Uint8], "opaque", frameField(st, e, first, "Cmd"))
		isUpd := tEq(op, mkInt(1))
		okKind := upd == isUpd
		if v, known := st.evalBool(isUpd); known && upd == mkBool(v) {
			okKind = true
		}
		if m.entry == "Set" || m.entry == "Delete" {
			okKind = okKind || upd == tTrue
		}
		if !okKind {
			m.want("P01", "open-txn", "kind", e, ev.Instr, "the transaction opened for the stream is not of the kind the request asks for: "+upd.String())
		}
		if v, known := st.evalBool(m.isDone(e, st)); !known || v {
			m.want("P01", "open-txn", "single", e, ev.Instr, "a transaction is opened for a request that is not known to start a stream")
		}
		return
	case "Open", "Close", "WriteBatch", "StartTS":
		m.want("P01", "operation", ev.Op, e, ev.Instr, "a request handler calls "+ev.Op+" on the store")
		return
	}
	cmd := m.cmd(e, st)
	txn := st.g("srv.txn")
	if ev.Op == "Discard" {
		return
	}
	m.c.obl("operation", m.handler+" "+ev.Op)
	if cmd == "" {
		m.want("P01", "operation", ev.Op, e, ev.Instr, "storage operation "+ev.Op+" is executed on a path where the frame's command is not known")
		return
	}
	if cmd != ev.Op {
		m.want("P01", "operation", cmd+"->"+ev.Op, e, ev.Instr, "a "+cmd+" request executes storage operation "+ev.Op)
		return
	}
	// target
	if m.isFirst(st) {
		v, known := st.evalBool(m.isDone(e, st))
		switch {
		case !known:
			m.want("P01", "target", cmd, e, ev.Instr, "a "+cmd+" request is executed without distinguishing single requests from streams")
		case v && (txn != nil || !isServerStore(ev.Args[0])):
			m.want("P01", "target", cmd, e, ev.Instr, "a single "+cmd+" request is not executed on the server's store")
		case !v && ev.Args[0] != txn:
			m.want("P01", "target", cmd, e, ev.Instr, "the first "+cmd+" request of a stream is not executed in the stream's transaction")
		}
	} else if ev.Args[0] != txn || txn == nil {
		m.want("P01", "target", cmd, e, ev.Instr, "a "+cmd+" request of a stream is not executed in the stream's transaction")
	}
	if st.gs("srv.discarded") == "1" {
		m.want("P03", "use-after-release", cmd, e, ev.Instr, "operation on a transaction that was already discarded")
	}
	if st.gs("srv.ops") != "0" {
		m.want("P01", "operation", cmd+" twice", e, ev.Instr, "a "+cmd+" request executes its operation more than once")
	}
	// arguments
	fr := st.g("srv.frame")
	payload := stripCopy(frameField(st, e, fr, "Payload"))
	dec := func(f string, t types.Type) *Term { return mkAppT(t, "pb."+opReq[cmd]+"."+f, payload) }
	chk := func(what string, got, want *Term) {
		if !sameBytes(e.content(st, got), want) {
			m.want("P01", "argument", cmd+" "+what, e, ev.Instr, fmt.Sprintf("the %s passed to the store is not the one decoded from this frame: %s", what, e.content(st, got)))
		}
	}
	bs := types.NewSlice(types.Typ[types.Uint8])
	switch cmd {
	case "Get", "Exists", "Delete":
		chk("key", ev.Args[1], dec("Key", bs))
	case "Set":
		chk("key", ev.Args[1], dec("Key", bs))
		chk("value", ev.Args[2], dec("Value", bs))
		m.checkMeta(e, st, ev, payload)
	case "Scan":
		m.checkScanOpt(e, st, ev, payload)
	}
}

// atOp: a storage operation was executed.
func (m *srvMon) atOp(e *Eng, st *State, ev *Event, outs []Out) {
	switch ev.Op {
	case "NewTransaction":
		for _, o := range outs {
			o.st.setG("srv.txn", o.res[0])
		}
		return
	case "Open", "Close", "WriteBatch", "StartTS":
		return
	case "Discard":
		for _, o := range outs {
			o.st.setGS("srv.discarded", "1")
		}
		return
	}
	for _, o := range outs {
		o.st.setGS("srv.ops", "1")
		o.st.setG("srv.op", mkTuple(o.res...))
		o.st.setGS("srv.oper", ev.Op)
		if ev.Op == "Scan" {
			if o.why == "end" && o.st.gs("srv.appended") == "0" {
				m.want("P01", "scan-entries", "skipped", e, ev.Instr, "a scanned entry is left out of the reply although the scan goes on")
			}
			o.st.setGS("srv.scan", "")
			o.st.setGS("srv.appended", "")
			// what was collected
			o.st.setG("srv.key", nil)
			o.st.setG("srv.val", nil)
			o.st.setG("srv.meta", nil)
		}
		if ev.Op == "Commit" {
			o.st.setGS("srv.committed", "1")
		}
	}
}

func isServerStore(t *Term) bool {
	return t.op == "sym" && t.info != nil && t.info.kind == "load" && strings.HasPrefix(t.info.site, "cmd.") || t.op == "sym" && t.info != nil && t.info.kind == "load"
}

func (m *srvMon) isDone(e *Eng, st *State) *Term {
	return mkAppT(types.Typ[types.Bool], "isdone", frameField(st, e, st.g("srv.first"), "Flags"))
}

// decodedPtr: t is the optional part `name` decoded from payload.
func decodedPtr(t *Term, name string, payload *Term) bool {
	return t.op == "sym" && t.info != nil && t.info.kind == "decoded" && t.info.name == name && t.info.ptr == interface{}(payload)
}

// loadedFrom: t was read from field f of the optional part `name`.
func loadedFrom(t *Term, f, name string, payload *Term) bool {
	t = stripConv(t)
	if t.op != "sym" || t.info == nil || t.info.kind != "load" {
		return false
	}
	loc, _ := t.info.ptr.(*Term)
	return loc != nil && loc.op == "field" && strings.HasSuffix(loc.aux, ":"+f) && decodedPtr(loc.args[0], name, payload)
}

// findDecoded finds the current value of an optional part anywhere in memory.
func findDecoded(st *State, name string, payload *Term) (*Term, bool) {
	if d := st.g("pb:" + name); d != nil && decodedPtr(d, name, payload) {
		return d, true
	}
	for l, v := range st.heap {
		if decodedPtr(v, name, payload) {
			return v, true
		}
		if l.op == "field" && decodedPtr(l.args[0], name, payload) {
			return l.args[0], true
		}
	}
	for f := range st.facts {
		var r *Term
		walk(f, map[*Term]bool{}, func(x *Term) {
			if decodedPtr(x, name, payload) {
				r = x
			}
		})
		if r != nil {
			return r, true
		}
	}
	return nil, false
}

// present: the optional part is known to be there on this path.
func present(st *State, name string, payload *Term) bool {
	v, ok := findDecoded(st, name, payload)
	return ok && st.nonNil(v)
}

func (m *srvMon) checkMeta(e *Eng, st *State, ev *Event, payload *Term) {
	a := ev.Args[3]
	name := "pb.SetRequest.Meta"
	bad := func(d, msg string) { m.want("P01", "argument", "Set meta "+d, e, ev.Instr, msg) }
	if a.op == "nil" {
		if v, ok := findDecoded(st, name, payload); ok && (st.nonNil(v) || !knownNil(st, v)) {
			bad("dropped", "the expiry and tag of a set request may be dropped")
		}
		return
	}
	if a.op != "obj" {
		bad("other", "the metadata passed to the store does not come from this request: "+a.String())
		return
	}
	s, _ := vmetaType(m.c.w, "VMetaReq").Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		v := e.load(st, fieldLoc(a, i, f.Name()), f.Type(), nil)
		if !loadedFrom(v, f.Name(), name, payload) {
			bad(f.Name(), "the "+f.Name()+" passed to the store is not the one in this request: "+v.String())
		}
	}
}

func knownNil(st *State, v *Term) bool {
	if v.op == "nil" {
		return true
	}
	b, ok := st.evalBool(tEq(v, tNil))
	return ok && b
}

func (m *srvMon) checkScanOpt(e *Eng, st *State, ev *Event, payload *Term) {
	opt := ev.Args[1]
	s, _ := vmetaType(m.c.w, "ProviderScanOption").Underlying().(*types.Struct)
	name := "pb.ScanRequest.ProviderScanOption"
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		v := e.content(st, e.fieldOf(opt, i, f))
		sv := stripCopy(v)
		if loadedFrom(sv, f.Name(), name, payload) {
			continue
		}
		if isZeroTerm(v) && !present(st, name, payload) {
			continue // absent options
		}
		if v == tTrue || v == tFalse {
			// a boolean already decided on this path
			if l := m.findLoad(st, f.Name(), name, payload); l == v {
				continue
			}
		}
		m.want("P01", "argument", "Scan "+f.Name(), e, ev.Instr, "the scan option "+f.Name()+" is not the one in this request: "+v.String())
	}
}

func (m *srvMon) findLoad(st *State, f, name string, payload *Term) *Term {
	for l, v := range st.heap {
		if l.op == "field" && strings.HasSuffix(l.aux, ":"+f) && decodedPtr(l.args[0], name, payload) {
			return v
		}
	}
	return nil
}

// atNext: the handler turns to the next frame of its stream.
func (m *srvMon) atNext(e *Eng, st *State, ev *Event) {
	m.c.obl("next-frame", m.handler)
	if st.gs("srv.reply") != "done" {
		m.want("P02", "unanswered", "next", e, ev.Instr, "the handler goes on to the next frame without having answered the current one")
	} else if we := st.g("srv.werr"); we != nil && !knownNil(st, we) {
		m.want("P02", "unanswered", "write error", e, ev.Instr, "the handler goes on to the next frame although writing the reply may have failed")
	}
	if st.gs("srv.ended") == "1" {
		m.want("P02", "stream-end", "after end", e, ev.Instr, "the handler reads another frame after it answered the end of the transaction")
	}
	if st.gs("srv.closed") == "1" {
		m.want("P02", "stream-end", "after close", e, ev.Instr, "the handler reads another frame after it closed the connection")
	}
}

// atReply: a reply is complete.
func (m *srvMon) atReply(e *Eng, st *State, ev *Event) {
	m.c.obl("reply", m.handler)
	if st.gs("srv.reply") != "started" {
		m.want("P02", "reply", "order", e, ev.Instr, "a reply is ended that was not started")
		return
	}
	first := st.g("srv.first")
	id := frameField(st, e, first, "RequestID")
	fr := st.g("srv.frame")
	idOK := st.g("srv.wid") == id
	if !idOK && fr != first && fr.op != "nil" {
		idOK = st.g("srv.wid") == frameField(st, e, fr, "RequestID")
	}
	if !idOK {
		m.want("P02", "reply", "id", e, ev.Instr, "the reply does not carry the request's id")
	}
	flags := st.g("srv.wflags")
	b := e.content(st, orNil(st.g("srv.bytes")))
	wcmd := st.g("srv.wcmd")
	streamFlag, endFlag := int64(1), int64(2)
	if v, ok := m.qrpcConst("StreamFlag"); ok {
		streamFlag = v
	}
	if v, ok := m.qrpcConst("StreamEndFlag"); ok {
		endFlag = v
	}
	if fr.op == "nil" {
		// the peer ended the stream: only an end marker may be sent
		if wcmd != mkInt(m.reply["Discard"]) || flags != mkInt(streamFlag|endFlag) {
			m.want("P02", "reply", "nil frame", e, ev.Instr, "a stream the peer ended is answered with something else than an end marker")
		}
		st.setGS("srv.ended", "1")
		return
	}
	cmd := m.cmd(e, st)
	if cmd == "" || cmd == "unknown" {
		if cmd == "" {
			m.want("P02", "reply", "unknown", e, ev.Instr, "a reply is written on a path where the frame's command is not known")
		}
		return
	}
	if wcmd != mkInt(m.reply[cmd]) {
		m.want("P02", "reply", "cmd "+cmd, e, ev.Instr, "a "+cmd+" request is answered with another command's reply: "+wcmd.String())
	}
	// stream flags
	var wantFlags int64
	if m.isFirst(st) {
		wantFlags = 0
		if v, known := st.evalBool(m.isDone(e, st)); known && !v {
			wantFlags = streamFlag
		} else if !known {
			wantFlags = 0
		}
	} else {
		wantFlags = streamFlag
		if cmd == "Commit" || cmd == "Discard" {
			wantFlags |= endFlag
			st.setGS("srv.ended", "1")
		}
	}
	if flags != mkInt(wantFlags) {
		m.want("P02", "reply", "flags "+cmd, e, ev.Instr, fmt.Sprintf("the reply to %s is flagged %s, expected %d", cmd, flags, wantFlags))
	}
	// contents
	if cmd == "Discard" {
		if !isZeroTerm(b) {
			m.want("P02", "reply", "contents Discard", e, ev.Instr, "a discard reply carries data: "+b.String())
		}
		if st.gs("srv.discarded") != "1" {
			m.want("P01", "operation", "Discard", e, ev.Instr, "a discard request is answered before the transaction was discarded")
		}
		return
	}
	resp := cmd + "Response"
	if !(b.op == "app" && b.aux == "pbbytes:"+resp) {
		m.want("P02", "reply", "contents "+cmd, e, ev.Instr, "the reply to "+cmd+" does not consist of exactly one encoded "+resp+": "+b.String())
		return
	}
	code := e.pbField(m.c.w, b, "Code")
	codeOK := mkInt(m.codes["OK"])
	op := st.g("srv.op")
	isOK := code == codeOK
	if code.op != "int" {
		m.want("P05", "code", cmd+" unknown", e, ev.Instr, "the reply's code is not determined by this request's outcome: "+code.String())
		m.want("P01", "reply-contents", cmd+" code", e, ev.Instr, "the reply's code is not determined by this request's outcome: "+code.String())
		return
	}
	zeroRest := func(why string) {
		for _, f := range []string{"Value", "Meta", "Exists"} {
			if v := e.pbField(m.c.w, b, f); v != nil && !isZeroTerm(v) {
				m.want("P01", "reply-contents", cmd+" "+f+" leftover", e, ev.Instr, "a reply to a "+cmd+" request "+why+" carries a "+f+" that does not belong to it: "+v.String())
			}
		}
		if v := e.pbField(m.c.w, b, "Entries"); v != nil && op == nil && !isZeroTerm(v) {
			m.want("P01", "reply-contents", cmd+" Entries leftover", e, ev.Instr, "a reply to a "+cmd+" request "+why+" carries entries that do not belong to it")
		}
	}
	if st.gs("srv.ops") == "0" || op == nil {
		// nothing was executed: only a refusal, or a scan with no room
		if isOK {
			if cmd == "Scan" && m.limitNonPositive(e, st) {
				if v := e.pbField(m.c.w, b, "Entries"); v != nil && !isZeroTerm(v) {
					m.want("P06", "scan-limit", "empty", e, ev.Instr, "a scan with a limit of zero or below may return entries")
				}
				return
			}
			m.want("P01", "operation", cmd+" skipped", e, ev.Instr, "a "+cmd+" request is answered with success although its operation was not executed")
			m.want("P05", "code", cmd+" ok", e, ev.Instr, "a success code is sent for a "+cmd+" request that was not executed")
			return
		}
		if code == mkInt(m.codes["KeyNotFound"]) || code == mkInt(m.codes["TxnTooBig"]) {
			m.want("P05", "code", cmd+" refusal", e, ev.Instr, "a refused request is reported with a code that means something else")
		}
		zeroRest("that was refused")
		return
	}
	er := op.args[len(op.args)-1]
	errNil := knownNil(st, er)
	errSet := st.nonNil(er) || er.op == "sentinel"
	if !errNil && !errSet {
		m.want("P05", "code", cmd+" untested", e, ev.Instr, "the reply to "+cmd+" is sent without having tested whether the operation failed")
		m.want("P09", "lost-error", cmd+" reply", e, ev.Instr, "the reply to "+cmd+" is sent without having tested whether the operation failed")
		return
	}
	if errNil {
		if !isOK {
			m.want("P05", "code", cmd+" ok", e, ev.Instr, "a successful "+cmd+" is answered with a failure code")
		}
		switch cmd {
		case "Get":
			if v := e.pbField(m.c.w, b, "Value"); v == nil || !sameBytes(v, e.content(st, op.args[0])) {
				m.want("P01", "reply-contents", "Get value", e, ev.Instr, "the value in the reply is not the value read: "+fmt.Sprint(v))
			}
			if v := e.pbField(m.c.w, b, "Meta"); v == nil || !m.metaMatches(e, st, v, op.args[1]) {
				m.want("P01", "reply-contents", "Get meta", e, ev.Instr, "the metadata in the reply is not the metadata read: "+fmt.Sprint(v))
			}
		case "Exists":
			v := e.pbField(m.c.w, b, "Exists")
			if v != op.args[0] {
				if bv, known := st.evalBool(op.args[0]); !known || v != mkBool(bv) {
					m.want("P01", "reply-contents", "Exists", e, ev.Instr, "the reply does not carry the outcome of the existence test: "+fmt.Sprint(v))
				}
			}
		}
		return
	}
	// failure
	if isOK {
		m.want("P05", "code", cmd+" failure", e, ev.Instr, "a failed "+cmd+" is answered with the success code")
		m.want("P09", "lost-error", cmd+" code", e, ev.Instr, "a failed "+cmd+" is answered with the success code")
	}
	m.checkErrCode(e, st, ev, cmd, er, code)
	zeroRest("that failed")
}

func (m *srvMon) qrpcConst(name string) (int64, bool) {
	for _, p := range m.c.w.pkgs {
		if imp := p.Imports["github.com/zhiqiangxu/qrpc"]; imp != nil && imp.Types != nil {
			if c, ok := imp.Types.Scope().Lookup(name).(*types.Const); ok {
				return constant.Int64Val(c.Val())
			}
		}
	}
	return 0, false
}

// checkErrCode: distinguished errors have their own codes, nothing else does.
func (m *srvMon) checkErrCode(e *Eng, st *State, ev *Event, cmd string, er, code *Term) {
	for _, x := range []struct {
		err, code string
		ops       string
	}{{"kv.ErrKeyNotFound", "KeyNotFound", "Get"}, {"kv.ErrTxnTooBig", "TxnTooBig", "Set Delete"}} {
		s := mk("sentinel", x.err)
		is, known := st.evalBool(tEq(er, s))
		cc := mkInt(m.codes[x.code])
		if strings.Contains(x.ops, cmd) {
			m.c.obl("error-code", cmd+" "+x.code)
			if known && is && code != cc {
				m.want("P05", "code", cmd+" "+x.code, e, ev.Instr, x.err+" from "+cmd+" is not answered with its own code")
			}
			if !known && code != cc {
				m.want("P05", "code", cmd+" "+x.code, e, ev.Instr, "a failing "+cmd+" is answered without distinguishing "+x.err)
			}
		}
		if code == cc && !(known && is) {
			m.want("P05", "code", cmd+" "+x.code+" wrong", e, ev.Instr, "the code for "+x.err+" is sent for another failure of "+cmd)
		}
	}
}

func (m *srvMon) limitNonPositive(e *Eng, st *State) bool {
	payload := stripCopy(frameField(st, e, st.g("srv.frame"), "Payload"))
	lim := mkAppT(types.Typ[types.Int32], "pb.ScanRequest.Limit", payload)
	return st.entailsGe0(lin{}.add(toLin(lim), -1))
}

// atReturn: the handler is done.
func (m *srvMon) atReturn(e *Eng, st *State) {
	m.c.obl("return", m.handler)
	fr := st.g("srv.frame")
	if st.gs("srv.reply") == "started" {
		m.want("P02", "reply", "incomplete", e, nil, "the handler returns with a reply started but not ended")
	}
	if fr != nil && fr.op != "nil" && st.gs("srv.reply") != "done" && st.gs("srv.closed") != "1" {
		m.want("P02", "unanswered", "return", e, nil, "the handler returns without having answered the request or closed the connection")
	}
	if st.g("srv.txn") != nil && st.gs("srv.discarded") != "1" {
		m.want("P03", "release", "server stream", e, nil, "the stream's transaction is not discarded when the handler returns")
	}
	if fr == st.g("srv.first") && fr != nil && st.gs("srv.reply") == "done" && st.g("srv.txn") != nil && st.gs("srv.closed") != "1" {
		if we := st.g("srv.werr"); we == nil || knownNil(st, we) {
			m.want("P02", "stream-end", "abandoned", e, nil, "the handler abandons a stream after its first request was answered successfully")
		}
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}

func init() {
	register("P01", func(c *Ctx) {
		c.rule("every path of every registered request handler: the storage operation executed is the one the frame's command names, on the right target, once, with exactly the values decoded from that frame's payload; reply fields carry only that operation's results")
		runServer(c)
		c.need("handler", 5)
		c.need("operation", 10)
	})
	register("P02", func(c *Ctx) {
		c.rule("reply typestate: exactly one complete reply with the request's id, the matching reply command, the right stream flags and exactly one encoded reply message before the next frame is read or the handler returns")
		runServer(c)
		c.need("handler", 5)
		c.need("reply", 5)
		c.need("next-frame", 5)
	})
}
