package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17, P22, P23: schema changes. The catalog's operations are taken as single
// steps that succeed or fail as a whole (their own code is analysed apart);
// everything around them is followed path by path, one transaction at a time.

// metaOp names the operation of the catalog a function is, or "".
func metaOp(f *ssa.Function) string {
	if f == nil || f.Parent() != nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/document/meta") {
		return ""
	}
	if f.Signature.Recv() == nil {
		if f.Name() == "NewMeta" {
			return "NewMeta"
		}
		return ""
	}
	n := recvNamed(f)
	if n == nil || n.Obj().Name() != "Meta" || f.Object() == nil || !f.Object().Exported() {
		return ""
	}
	return f.Name()
}

var catalogWrite = map[string]bool{"CreateDatabase": true, "UpdateDatabase": true, "DropDatabase": true, "CreateCollection": true, "UpdateCollection": true, "DropCollection": true}

var ddlWrite = map[string]bool{"GenGlobalID": true, "GenGlobalIDs": true, "GenSchemaVersion": true, "SetSchemaDiff": true, "EnQueueDDLJob": true, "DeQueueDDLJob": true, "UpdateDDLJob": true, "AddHistoryDDLJob": true}

func isModelType(t types.Type, name string) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/document/model") && n.Obj().Name() == name
}

type ddlMon struct {
	c    *Ctx
	w    *World
	e    *Eng
	root *ssa.Function
	name string

	job    *types.Named
	consts map[string]*Term
	enq    map[string]bool // the queues jobs are put on
	work   map[string]bool // the queues jobs are taken from
	coll   *types.Named
	db     *types.Named
	diff   *types.Named
	used   map[string]bool // parts of a job's argument that later steps rely on
	kept   map[string]bool // parts the first step establishes and keeps
}

func (m *ddlMon) bad(prop, rule, detail string, ins ssa.Instruction, msg string) {
	if prop != m.c.prop {
		return
	}
	at := m.w.pos(m.root.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	m.c.fail(rule, m.name, detail, at, m.name+": "+msg)
}

func (m *ddlMon) obl(prop, rule, what string) {
	if prop == m.c.prop {
		m.c.obl(rule, what)
	}
}

// get loads a field of a model object by name.
func (m *ddlMon) get(st *State, ptr *Term, n *types.Named, name string) *Term {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return m.e.load(st, fieldLoc(ptr, i, name), s.Field(i).Type(), nil)
		}
	}
	return mkFresh("sym", nil, &SymInfo{kind: "nofield", site: name})
}

func (m *ddlMon) jobGet(st *State, ptr *Term, name string) *Term {
	return m.get(st, ptr, m.job, name)
}

// is: the value is known to be (1), known not to be (0) or may be (-1) the constant.
func (m *ddlMon) is(st *State, v *Term, name string) int {
	k := m.consts[name]
	if k == nil {
		return -1
	}
	b, known := st.evalBool(tEq(v, k))
	switch {
	case !known:
		return -1
	case b:
		return 1
	}
	return 0
}

func same(st *State, a, b *Term) int {
	if a == nil || b == nil {
		return -1
	}
	v, known := st.evalBool(tEq(a, b))
	switch {
	case !known:
		return -1
	case v:
		return 1
	}
	return 0
}

// modelOf resolves the pointer to the model type n behind a value.
func modelPkg(w *World) *types.Package {
	for _, f := range w.funcs {
		if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/document/model") {
			return f.Pkg.Pkg
		}
	}
	return nil
}

func modelNamed(w *World, name string) *types.Named {
	p := modelPkg(w)
	if p == nil || p.Scope().Lookup(name) == nil {
		return nil
	}
	n, _ := types.Unalias(p.Scope().Lookup(name).Type()).(*types.Named)
	return n
}

func modelConsts(w *World) map[string]*Term {
	r := map[string]*Term{}
	p := modelPkg(w)
	if p == nil {
		return r
	}
	for _, n := range p.Scope().Names() {
		if c, ok := p.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.Int {
			v, _ := constant.Int64Val(c.Val())
			r[n] = mkInt(v)
		}
	}
	return r
}

// ddlRoots: exported functions and started goroutines that reach the catalog's
// writing operations.
func ddlRoots(w *World) []*ssa.Function {
	in := w.reaching(func(cc *ssa.CallCommon) bool {
		op := metaOp(cc.StaticCallee())
		return catalogWrite[op] || ddlWrite[op]
	})
	started := map[*ssa.Function]bool{}
	for _, f := range w.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok && g.Call.StaticCallee() != nil {
					started[g.Call.StaticCallee()] = true
				}
			}
		}
	}
	var r []*ssa.Function
	for _, f := range w.allFuncs() {
		if !in[f] || len(f.Blocks) == 0 || f.Synthetic != "" || f.Pkg == nil || strings.HasSuffix(f.Pkg.Pkg.Path(), "/document/meta") {
			continue
		}
		if started[f] || f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

var perTxn = []string{"x.job", "x.st0", "x.sc0", "x.deq", "x.hist", "x.upd", "x.fail", "x.cat", "x.ver", "x.diff", "x.enq", "x.read", "x.id", "x.dirty", "x.used", "x.n", "x.desc", "x.dup", "may:pend", "f.cr", "f.id", "f.idres", "x.arg"}

func (m *ddlMon) metaCall(st *State, ev *Event, op string) []Out {
	e := m.e
	recv := ev.Args[0]
	var txn, queue *Term
	if recv.op == "app" && recv.aux == "meta" {
		txn, queue = recv.args[0], recv.args[1]
	}
	ins := ev.Instr
	n := ev.Sig.Results().Len()
	if n == 0 || !isErrorType(ev.Sig.Results().At(n-1).Type()) {
		return []Out{{st: st, res: e.freshResults(ev)}}
	}
	wr := catalogWrite[op] || ddlWrite[op]
	if wr && txn != nil && st.g("x.txn") != nil && txn != st.g("x.txn") {
		m.bad("P22", "one transaction", "other-"+op, ins, op+" works in another transaction than the one being built")
		m.bad("P23", "one transaction", "other-"+op, ins, op+" works in another transaction than the one being built")
		m.bad("P17", "one transaction", "other-"+op, ins, op+" works in another transaction than the one being built")
	}
	res := e.freshResults(ev)
	good := Out{st: st.clone(), res: append([]*Term{}, res...)}
	good.res[n-1] = tNil
	badr := e.freshResults(ev)
	er := Out{st: st.clone(), res: badr}
	badr[n-1].nonNilIn(er.st)
	if wr {
		er.st.setGS("x.fail", op)
	}
	outs := []Out{good, er}
	g := good.st
	variadicKey := func(i int) *Term {
		if len(ev.Args) > i {
			if el, ok := e.sliceElems(g, ev.Args[i], ev.Sig.Params().At(i-1).Type().Underlying().(*types.Slice).Elem()); ok && len(el) > 0 {
				return el[0]
			}
		}
		return queue
	}
	switch op {
	case "GetDDLJobByIdx":
		if ev.Args[1] == mkInt(0) {
			m.work[showQueue(variadicKey(2))] = true
			none := Out{st: g.clone(), res: append([]*Term{}, good.res...)}
			none.st.assume(tEq(good.res[0], tNil), true)
			none.res[0] = tNil
			outs = append(outs, none)
			j := good.res[0]
			j.nonNilIn(g)
			g.setG("x.job", j)
			s0 := m.jobGet(g, j, "State")
			g.setG("x.st0", s0)
			g.setG("x.sc0", m.jobGet(g, j, "SchemaState"))
			// what is on the queue: see the rule for putting jobs there
			for _, k := range []string{"JobStateCancelled", "JobStateSynced", "JobStateRollbackDone"} {
				if m.consts[k] != nil {
					g.assume(tEq(s0, m.consts[k]), false)
				}
			}
		}
	case "DeQueueDDLJob":
		m.obl("P23", "dequeue", m.name+" "+m.e.pos(ins))
		m.work[showQueue(queue)] = true
		if st.gs("x.deq") != "" {
			m.bad("P23", "outcome", "dequeued-twice", ins, "takes two jobs off the queue in one transaction")
		}
		if st.g("x.job") == nil {
			m.bad("P23", "outcome", "dequeue-unread", ins, "takes a job off the queue that it has not looked at")
		}
		g.setGS("x.deq", "yes")
	case "AddHistoryDDLJob":
		m.obl("P23", "history", m.name+" "+m.e.pos(ins))
		j := ev.Args[1]
		if st.g("x.hist") != nil {
			m.bad("P23", "outcome", "recorded-twice", ins, "records two jobs in one transaction")
		}
		m.recorded(g, j, ins)
		g.setG("x.hist", j)
	case "UpdateDDLJob":
		m.obl("P23", "update", m.name+" "+m.e.pos(ins))
		m.updated(g, ev, ins)
		m.rewritten(g, ev.Args[2], ins)
	case "EnQueueDDLJob":
		m.obl("P23", "enqueue", m.name+" "+m.e.pos(ins))
		m.enq[showQueue(variadicKey(2))] = true
		m.queued(g, ev.Args[1], ins)
		m.enqueued17(g, ev.Args[1], ins)
		g.setG("x.enq", ev.Args[1])
	case "GetHistoryDDLJob":
		none := Out{st: g.clone(), res: append([]*Term{}, good.res...)}
		none.st.assume(tEq(good.res[0], tNil), true)
		none.res[0] = tNil
		none.st.setG("r.hist", nil)
		outs = append(outs, none)
		good.res[0].nonNilIn(g)
		g.setG("r.hist", mk("tuple", "", good.res[0], ev.Args[1]))
		er.st.setG("r.hist", nil)
	case "GenSchemaVersion":
		m.obl("P22", "version", m.name+" "+m.e.pos(ins))
		if st.g("x.ver") != nil {
			m.bad("P22", "version", "twice", ins, "increases the schema version twice in one transaction: one of the versions has no description")
		}
		g.setG("x.ver", good.res[0])
	case "SetSchemaDiff":
		m.obl("P22", "description", m.name+" "+m.e.pos(ins))
		m.diffSet(g, ev.Args[1], ins)
	case "GenGlobalID", "GenGlobalIDs":
		m.genIDs(g, ev, good.res, op)
	}
	if catalogWrite[op] {
		m.obl("P22", "catalog write", m.name+" "+m.e.pos(ins))
		m.wrote(g, ev, op)
	}
	return outs
}

func showQueue(t *Term) string {
	if t == nil {
		return "?"
	}
	return t.String()
}

// recorded: what goes to the history is the job at the head of the queue, and
// it is over.
func (m *ddlMon) recorded(st *State, j *Term, ins ssa.Instruction) {
	if j != st.g("x.job") {
		m.bad("P23", "outcome", "history-other", ins, "records a job that is not the one it took from the head of the queue")
		return
	}
	s := m.jobGet(st, j, "State")
	switch {
	case m.is(st, s, "JobStateSynced") == 1:
		if m.is(st, st.g("x.st0"), "JobStateDone") != 1 {
			m.bad("P23", "outcome", "synced-early", ins, "records a job as finished that was not done when this transaction began")
		}
	case m.is(st, s, "JobStateCancelled") == 1, m.is(st, s, "JobStateRollbackDone") == 1:
		if !st.nonNil(m.jobGet(st, j, "Error")) {
			m.bad("P23", "outcome", "cancelled-silently", ins, "records a job as cancelled without the reason")
		}
		if st.g("x.cat") != nil {
			m.bad("P23", "outcome", "cancelled-changed", ins, "records a job as cancelled in a transaction that changes the schema")
		}
		if p := st.g("p.job"); p == nil || same(st, m.jobGet(st, j, "ID"), p.args[0]) != 1 {
			m.bad("P23", "outcome", "cancelled-other", ins, "cancels a job that is not known to be the one that failed")
		}
	default:
		m.bad("P23", "outcome", "history-unfinished", ins, "records a job that is neither finished nor cancelled")
	}
}

func (m *ddlMon) updated(st *State, ev *Event, ins ssa.Instruction) {
	j := ev.Args[2]
	if j != st.g("x.job") || ev.Args[1] != mkInt(0) {
		m.bad("P23", "outcome", "update-other", ins, "stores a job in the place of another one")
		return
	}
	s := m.jobGet(st, j, "State")
	for _, k := range []string{"JobStateCancelled", "JobStateSynced", "JobStateRollbackDone"} {
		if m.is(st, s, k) != 0 {
			m.bad("P23", "outcome", "over-but-queued", ins, "leaves a job that may be over ("+k+") on the queue")
		}
	}
	st.setG("x.upd", mk("tuple", "", s, m.jobGet(st, j, "SchemaState")))
}

// queued: a job is put on the queue.
func (m *ddlMon) queued(st *State, j *Term, ins ssa.Instruction) {
	s := m.jobGet(st, j, "State")
	for _, k := range []string{"JobStateCancelled", "JobStateSynced", "JobStateRollbackDone", "JobStateDone"} {
		if m.is(st, s, k) != 0 {
			m.bad("P23", "request", "queued-state", ins, "queues a job that may be over already")
		}
	}
	for i, p := range m.root.Params {
		if !hasMethod(p.Type(), "Validate") && !hasMethod(types.NewPointer(p.Type()), "Validate") {
			continue
		}
		m.obl("P23", "validated", m.name)
		v := m.root.Params[i]
		pt := st.g("r.param:" + v.Name())
		if pt == nil || !has2(st, "r.valid", pt) && !has2(st, "r.valid", m.expand(pt, p.Type())) {
			m.bad("P23", "request", "unvalidated", ins, "queues a job although the request has not been found valid")
		}
	}
	if st.g("x.enq") != nil || st.g("r.enq") != nil {
		m.bad("P23", "request", "queued-twice", ins, "queues more than one job for a request")
	}
}

// expand spells a structure out, field by field.
func (m *ddlMon) expand(v *Term, t types.Type) *Term {
	s := m.e.structOf(t)
	if s == nil {
		return v
	}
	args := make([]*Term, s.NumFields())
	for i := range args {
		args[i] = m.expand(m.e.fieldOf(v, i, s.Field(i)), s.Field(i).Type())
	}
	return mkTyped("struct", t, args...)
}

func (m *ddlMon) atCommit(st *State, ins ssa.Instruction) {
	m.obl("P23", "commit", m.name+" "+m.e.pos(ins))
	if f := st.gs("x.fail"); f != "" {
		m.bad("P23", "outcome", "commit-failed-"+f, ins, "commits although "+f+" failed")
		m.bad("P22", "commit", "commit-failed-"+f, ins, "commits although "+f+" failed")
	}
	if (st.gs("x.deq") != "") != (st.g("x.hist") != nil) {
		if st.gs("x.deq") != "" {
			m.bad("P23", "outcome", "lost", ins, "takes a job off the queue without recording it in the same transaction")
		} else {
			m.bad("P23", "outcome", "not-taken", ins, "records a job without taking it off the queue in the same transaction")
		}
	}
	cat := st.g("x.cat")
	job := st.g("x.job")
	if cat != nil {
		m.obl("P23", "step", m.name+" "+m.e.pos(ins))
		u := st.g("x.upd")
		switch {
		case job == nil:
			m.bad("P23", "outcome", "no-job", ins, "changes the schema without a job")
		case u == nil:
			m.bad("P23", "outcome", "step-unrecorded", ins, "changes the schema without recording the job's progress: the step will be run again")
		case same(st, u.args[1], st.g("x.sc0")) != 0 && !(m.is(st, u.args[0], "JobStateDone") == 1 && m.is(st, st.g("x.st0"), "JobStateDone") == 0):
			m.bad("P23", "outcome", "step-repeated", ins, "changes the schema and leaves the job's schema state as it was: the step will be run again")
		}
	}
	if u := st.g("x.upd"); u != nil && m.is(st, u.args[0], "JobStateDone") != 0 {
		if cat == nil && same(st, u.args[0], st.g("x.st0")) != 1 {
			m.bad("P23", "outcome", "done-nothing", ins, "marks a job as done in a transaction that does not change the schema")
		}
	}
	m.atCommit22(st, ins)
	m.atCommit17(st, ins)
}

func (m *ddlMon) hooks() *Rule {
	r := &Rule{}
	r.Opaque = func(fn *ssa.Function) bool {
		p := fnPkg(topFn(fn))
		return !(strings.HasSuffix(p, "/document/model") || strings.HasSuffix(p, "/util") || p == fnPkg(topFn(m.root)))
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if ev.Kind == "go" {
			return nil, false
		}
		m.hook21(st, ev)
		if op := metaOp(ev.Static); op != "" {
			if op == "NewMeta" {
				key := mkApp("defaultqueue")
				if len(ev.Args) > 1 {
					if el, ok := e.sliceElems(st, ev.Args[1], ev.Sig.Params().At(1).Type().Underlying().(*types.Slice).Elem()); ok && len(el) > 0 {
						key = el[0]
					}
				}
				v := mkAppT(ev.Sig.Results().At(0).Type(), "meta", unIface(ev.Args[0]), key)
				st.nonNil(v)
				return []Out{{st: st, res: []*Term{v}}}, true
			}
			return m.metaCall(st, ev, op), true
		}
		if ev.Static != nil && ev.Static.Name() == "Validate" && ev.Static.Signature.Recv() != nil && ev.Sig.Params().Len() == 0 && returnsErr(ev.Sig) {
			r := e.freshResults(ev)
			good := Out{st: st.clone(), res: []*Term{tNil}}
			r[0].nonNilIn(st)
			a := ev.Args[0]
			addTo(good.st, "r.valid", a)
			addTo(good.st, "r.valid", e.load(good.st, a, deref(ev.Static.Signature.Recv().Type()), nil))
			return []Out{good, {st: st, res: r}}, true
		}
		if ev.Op == "Commit" {
			m.atCommit(st, ev.Instr)
			er := Out{st: st.clone(), res: e.freshResults(ev)}
			er.res[len(er.res)-1].nonNilIn(er.st)
			er.st.setG("r.hist", nil)
			if x := st.g("x.enq"); x != nil {
				st.setG("r.enq", x)
			}
			good := Out{st: st, res: e.freshResults(ev)}
			good.res[len(good.res)-1] = tNil
			st.setG("x.txn", nil)
			er.st.setG("x.txn", nil)
			m.resetTxn(st)
			m.resetTxn(er.st)
			return []Out{good, er}, true
		}
		return nil, false
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if strings.Contains(ev.Name, "context.") && (strings.HasSuffix(ev.Name, ".Err") || strings.HasSuffix(ev.Name, ".Cause")) {
			for _, o := range outs {
				o.st.setG("r.ctx", o.res[len(o.res)-1])
			}
		}
		if ev.Op == "NewTransaction" {
			for _, o := range outs {
				m.resetTxn(o.st)
				o.st.setG("x.txn", unIface(o.res[0]))
			}
		}
		if ev.Op == "Discard" {
			for _, o := range outs {
				o.st.setG("x.txn", nil)
				m.resetTxn(o.st)
			}
		}
		return outs
	}
	r.LoopHead = func(e *Eng, st *State, b *ssa.BasicBlock) {
		// between transactions only the fact that there was an error matters
		if st.g("x.txn") != nil || st.g("r.enq") != nil {
			return
		}
		for v, t := range st.top().regs {
			al, ok := v.(*ssa.Alloc)
			if !ok || t.op != "obj" {
				continue
			}
			if _, set := st.heap[t]; set && (isErrorType(deref(al.Type())) || isInt64(deref(al.Type()))) {
				st.setHeap(t, nil)
				st.mark(t, "dirty")
			}
		}
	}
	if m.c.prop == "P22" {
		m.hooks22(r)
	}
	if m.c.prop == "P17" {
		m.hooks17(r)
	}
	r.Wait = func(e *Eng, st *State) { st.setG("r.hist", nil) }
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != m.root || !returnsErr(fn.Signature) {
			return
		}
		enq := st.g("r.enq")
		h := st.g("r.hist")
		er := res[len(res)-1]
		if enq == nil {
			return
		}
		m.obl("P23", "reply", m.name)
		ok := same(st, er, tNil)
		if ok != 0 {
			switch {
			case h == nil:
				m.bad("P23", "reply", "told-early", nil, "reports success although the job has not been seen in the history")
			case m.is(st, m.jobGet(st, h.args[0], "State"), "JobStateSynced") != 1:
				m.bad("P23", "reply", "told-wrong", nil, "reports success although the recorded job is not known to have finished")
			case same(st, h.args[1], m.jobGet(st, enq, "ID")) != 1:
				m.bad("P23", "reply", "told-other", nil, "reports the outcome of another job than the one it queued")
			}
		}
		if ok != 1 && h == nil && er != st.g("r.ctx") {
			m.bad("P23", "reply", "told-unrecorded", nil, "reports a failure after queueing the job that is neither the job's recorded one nor the end of the caller's waiting")
		}
		if ok != 1 && h != nil {
			if er != m.jobGet(st, h.args[0], "Error") {
				m.bad("P23", "reply", "told-other-error", nil, "reports something else than the recorded reason of the failure")
			}
		}
	}
	return r
}

func (m *ddlMon) resetTxn(st *State) {
	if j := st.g("x.job"); j != nil {
		st.setG("p.job", mk("tuple", "", m.jobGet(st, j, "ID"), j))
	}
	for _, k := range perTxn {
		st.setG(k, nil)
	}
	for _, k := range sortedGhost(st) {
		if strings.HasPrefix(k, "it:") {
			st.setG(k, nil)
		}
	}
	m.forget(st)
}

// forget drops what is known about stored records: none of it outlives the
// transaction they were read in.
func (m *ddlMon) forget(st *State) {
	var keep, hist *Term
	if p := st.g("p.job"); p != nil {
		keep = p.args[1]
	}
	if h := st.g("r.hist"); h != nil {
		hist = h.args[0]
	}
	var drop []*Term
	held := map[*Term]bool{}
	for l, v := range st.heap {
		b := locBase(l)
		if b.op != "sym" || b.info == nil || b.info.kind == "param" || b.info.kind == "recv" {
			continue
		}
		if l.op == "field" && l.args[0] == keep && strings.HasSuffix(l.aux, ":ID") {
			continue
		}
		if hist != nil && b == hist {
			held[v] = true
			continue
		}
		drop = append(drop, l)
	}
	for _, l := range drop {
		st.setHeap(l, nil)
	}
	facts := map[*Term]bool{}
	for f, v := range st.facts {
		if f.op == "eq" && (f.args[0].op == "nil" || f.args[1].op == "nil") || mentions(f, func(t *Term) bool {
			return held[t] || t.op == "sym" && t.info != nil && t.info.kind == "param"
		}) {
			facts[f] = v
		}
	}
	st.facts, st.ownF = facts, true
}

func runDDL(c *Ctx) {
	w := c.w
	job := modelNamed(w, "Job")
	if job == nil {
		c.fail("scope", "model", "job", "-", "the type of schema change jobs was not found")
		return
	}
	enq, work := map[string]bool{}, map[string]bool{}
	used, kept := map[string]bool{}, map[string]bool{}
	for _, f := range ddlRoots(w) {
		m := &ddlMon{c: c, w: w, root: f, name: shortName(f.String()), job: job, consts: modelConsts(w), enq: enq, work: work, used: used, kept: kept,
			coll: modelNamed(w, "CollectionInfo"), db: modelNamed(w, "DBInfo"), diff: modelNamed(w, "SchemaDiff")}
		if m.coll == nil || m.db == nil || m.diff == nil {
			c.fail("scope", "model", "types", "-", "the types of the schema's records were not found")
			return
		}
		c.obl("operation", m.name)
		e := newEng(w, m.hooks())
		m.e = e
		st := newState()
		args := e.paramSyms(st, f)
		for i, p := range f.Params {
			st.setG("r.param:"+p.Name(), args[i])
		}
		e.maxSteps = 3000000
		c.run(e, st, f, args)
	}
	for p := range used {
		if c.prop == "P22" && !kept[p] {
			c.fail("change", "job argument", "lost"+p, "-", "a later step lists the changed collection from the job's argument"+p+", which the first step does not store")
		}
	}
	if c.prop == "P23" {
		for q := range enq {
			if !work[q] {
				c.fail("queue", "jobs", "unserved", "-", "jobs are put on a queue no worker takes them from: "+q)
			}
		}
	}
}

func runCatalog(c *Ctx) {
	runDDL(c)
}

func init() {
	register("P23", func(c *Ctx) {
		c.rule("every path of every operation and worker that reaches the schema catalog's writing operations, one transaction at a time (each catalog operation either succeeds or fails): a job is queued only after its request was found valid, once, unfinished; a job leaves the queue only in the transaction that records that same job, which is then finished (and was done before the transaction began) or cancelled with the reason and known to be the one that failed; anything else leaves it queued, unfinished; a transaction that changes the schema also moves its job on, and nothing commits after a failed step; the requester reports success only after reading its own job as finished from the history, and otherwise the recorded reason")
		runDDL(c)
		c.need("operation", 3)
		c.need("dequeue", 1)
		c.need("history", 1)
		c.need("update", 1)
		c.need("enqueue", 2)
		c.need("validated", 2)
		c.need("commit", 2)
		c.need("step", 1)
		c.need("reply", 2)
	})
}
