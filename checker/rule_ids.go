package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17: ids of schema objects.

var idTypes = []string{"DBInfo", "CollectionInfo", "IndexInfo", "Job"}

func hasID(t types.Type) bool {
	for _, n := range idTypes {
		if t != nil && isModelType(t, n) {
			return true
		}
	}
	return false
}

// genIDs: numbers have been reserved.
func (m *ddlMon) genIDs(st *State, ev *Event, res []*Term, op string) {
	if m.c.prop != "P17" {
		return
	}
	m.obl("P17", "reserve", m.name+" "+m.e.pos(ev.Instr))
	if op == "GenGlobalID" {
		st.assume(tGe0(toLin(tSub(res[0], mkInt(1)))), true)
		addTo(st, "x.id", res[0])
		return
	}
	n := ev.Args[1]
	for n.op == "conv" {
		n = n.args[0]
	}
	st.assume(tGe0(toLin(res[0])), true)
	res[1] = tAdd(res[0], n)
	st.setG("x.n", mk("tuple", "", res[0], n))
	st.setG("x.used", nil)
}

func dropFrom(st *State, ghost string, x *Term) {
	if g := st.g(ghost); g == nil || g.op != "gset" {
		return
	}
	var rest []*Term
	for _, t := range ghostArgs(st, ghost) {
		if t != x {
			rest = append(rest, t)
		}
	}
	if len(rest) == 0 {
		st.setG(ghost, nil)
	} else {
		st.setG(ghost, mk("gset", "", rest...))
	}
}

// take: an object gets this id.
func (m *ddlMon) take(st *State, v *Term, ins ssa.Instruction) {
	bad := func(detail, msg string) { m.bad("P17", "ids", detail, ins, msg) }
	if strings.HasPrefix(st.gs("x.fail"), "GenGlobalID") {
		return // nothing of this may be committed
	}
	m.obl("P17", "use", m.name+" "+m.e.pos(ins))
	if has2(st, "x.id", v) {
		dropFrom(st, "x.id", v)
		return
	}
	r := st.g("x.n")
	if r == nil {
		bad("unreserved", "gives an object an id that is not a newly reserved number (or is used already)")
		return
	}
	off := tSub(v, r.args[0])
	if !le(st, mkInt(1), off) || !le(st, off, r.args[1]) {
		if !mentions(v, func(t *Term) bool { return t == r.args[0] }) && !le(st, mkInt(1), off) {
			bad("unreserved", "gives an object an id that is not a newly reserved number (or is used already)")
			return
		}
		bad("outside", "gives an object an id that may be outside the reserved numbers")
		return
	}
	for _, u := range ghostArgs(st, "x.used") {
		if !lt(st, u, off) && !lt(st, off, u) {
			bad("twice", "may give two objects the same id")
			return
		}
	}
	// in ascending order, the largest one is all there is to remember
	var keep []*Term
	for _, u := range ghostArgs(st, "x.used") {
		if !lt(st, u, off) {
			keep = append(keep, u)
		}
	}
	st.setG("x.used", mk("tuple", "", append(keep, off)...))
}

// noID: 1 when the object is known to have no id, -1 when it may have none.
func (m *ddlMon) noID(st *State, p *Term) int {
	for _, n := range idTypes {
		if t := modelNamed(m.w, n); t != nil && p.typ != nil && isModelType(p.typ, n) {
			return same(st, m.get(st, p, t, "ID"), mkInt(0))
		}
	}
	return 0
}

// placed: the object becomes part of the schema or of a job.
func (m *ddlMon) placed(st *State, p *Term, always bool) {
	if p == nil || p == tNil || p.typ == nil || !hasID(p.typ) {
		return
	}
	m.obl("P17", "part", m.name)
	if n := m.noID(st, p); n == 1 || always && n != 0 {
		addTo(st, "may:pend", p)
	}
}

func (m *ddlMon) hooks17(r *Rule) {
	requests := m.w.reaching(func(cc *ssa.CallCommon) bool { return metaOp(cc.StaticCallee()) == "EnQueueDDLJob" })[m.root]
	r.Numeric = requests
	r.Store = func(e *Eng, st *State, ins ssa.Instruction, loc, val *Term) {
		switch {
		case loc.op == "field" && strings.HasSuffix(loc.aux, ":ID") && hasID(loc.args[0].typ):
			dropFrom(st, "may:pend", loc.args[0])
			if val == mkInt(0) {
				return
			}
			m.take(st, val, ins)
		case loc.op == "field" && strings.HasSuffix(loc.aux, ":Arg") && loc.args[0].typ != nil && isModelType(loc.args[0].typ, "Job"):
			m.placed(st, unIface(val), requests)
		case loc.op == "mapel":
			m.placed(st, val, requests)
		case val.op == "struct" && requests && hasID(val.typ):
			s := val.typ.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "ID" && i < len(val.args) && val.args[i] != mkInt(0) {
					m.take(st, val.args[i], ins)
				}
			}
		}
	}
}

// enqueued17: the job is complete.
func (m *ddlMon) enqueued17(st *State, j *Term, ins ssa.Instruction) {
	if m.c.prop != "P17" {
		return
	}
	m.obl("P17", "job", m.name)
	if m.noID(st, j) != 0 {
		m.bad("P17", "ids", "job", ins, "queues a job without an id of its own")
	}
	a := unIface(m.jobGet(st, j, "Arg"))
	if a.typ == nil || !hasID(a.typ) {
		m.bad("P17", "ids", "subject", ins, "queues a job whose subject is not known")
	} else if m.noID(st, a) != 0 {
		m.bad("P17", "ids", "subject", ins, "queues a job whose subject has no id of its own")
	}
	if st.g("may:pend") != nil {
		m.bad("P17", "ids", "part", ins, "queues a job although a part of its subject has no id of its own")
	}
}

func (m *ddlMon) atCommit17(st *State, ins ssa.Instruction) {
	if m.c.prop != "P17" {
		return
	}
	if f := st.gs("x.fail"); strings.HasPrefix(f, "GenGlobalID") {
		m.bad("P17", "ids", "commit-failed", ins, "commits although reserving ids failed")
	}
	if st.g("x.cat") != nil && st.g("may:pend") != nil {
		m.bad("P17", "ids", "part", ins, "commits a change of the schema with an object that has no id")
	}
}

// runCounters: the numbers handed out by the catalog are new ones.
func runCounters(c *Ctx) {
	m := records(c)
	one := m.counter(c, "counter", "GenGlobalID", func(*recRet) *Term { return mkInt(1) })
	many := m.counter(c, "counter", "GenGlobalIDs", func(r *recRet) *Term { return r.arg(1) })
	if one == nil || many == nil {
		return
	}
	if one != many {
		c.fail("counter", "GenGlobalIDs", "other", c.w.pos(m.methods["GenGlobalIDs"].Pos()), "single ids and ranges of ids are taken from different counters")
	}
	for _, n := range []string{"GenGlobalID", "GenGlobalIDs"} {
		f := m.methods[n]
		for i := range m.rets[f] {
			r := &m.rets[f][i]
			if r.failed() || len(r.ops) != 1 || len(r.ops[0].res) == 0 {
				continue
			}
			end := r.res[len(r.res)-2]
			if same(r.st, end, r.ops[0].res[0]) != 1 {
				c.fail("counter", n, "result", c.w.pos(f.Pos()), n+" returns another number than the counter reached")
			}
			if len(r.res) == 3 && same(r.st, tSub(end, r.res[0]), r.arg(1)) != 1 {
				c.fail("counter", n, "start", c.w.pos(f.Pos()), n+" returns a range that is larger or smaller than what was reserved")
			}
		}
		for _, o := range m.writers(one) {
			if o.method != m.methods["GenGlobalID"] && o.method != m.methods["GenGlobalIDs"] {
				c.fail("counter", shortName(o.method.String()), "writer", c.w.pos(o.ins.Pos()), shortName(o.method.String())+" writes the counter of ids")
			}
		}
	}
	for _, f := range c.w.funcs {
		if structOp(f) == "Inc" {
			runInc(c, f)
		}
	}
}

// runInc: a stored counter is advanced by exactly the step.
func runInc(c *Ctx, f *ssa.Function) {
	name := shortName(f.String())
	at := c.w.pos(f.Pos())
	c.obl("increment", name)
	r := &Rule{}
	bad := func(detail, msg string) { c.fail("increment", name, detail, at, name+": "+msg) }
	var step *Term
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		switch ev.Op {
		case "Get":
			for i := range outs {
				outs[i].st.setG("i.get", mk("tuple", "", ev.Args[1], outs[i].res[0], outs[i].res[len(outs[i].res)-1]))
			}
		case "Set":
			for i := range outs {
				if st.g("i.set") != nil {
					bad("twice", "stores the counter twice")
				}
				outs[i].st.setG("i.set", mk("tuple", "", ev.Args[1], ev.Args[2], outs[i].res[0]))
			}
		}
		return outs
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f {
			return
		}
		if v, known := st.evalBool(tEq(res[1], tNil)); known && !v {
			return
		}
		g, s := st.g("i.get"), st.g("i.set")
		if g == nil || s == nil {
			bad("shape", "reports success without having read and stored the counter")
			return
		}
		if g.args[0] != s.args[0] {
			bad("key", "reads and stores different keys")
		}
		num := storedInt(s.args[1])
		if num == nil {
			bad("value", "what is stored is not a number")
			return
		}
		if same(st, num, res[0]) != 1 {
			bad("result", "returns another number than the one stored")
		}
		old := mkInt(0)
		if g.args[2] == tNil {
			old = nil
			walk(num, map[*Term]bool{}, func(t *Term) {
				if t.op == "app" && t.aux == "parseint" && has(t, g.args[1]) {
					old = t
				}
			})
			if old == nil {
				bad("old", "the number stored does not build on the one read")
				return
			}
		} else if isNotFound, known := st.evalBool(tEq(g.args[2], notFound())); !known || !isNotFound {
			bad("old", "starts over although the counter may be stored")
		}
		if same(st, num, tAdd(old, step)) != 1 {
			bad("step", "the number stored is not the one read advanced by the step")
		}
	}
	e := newEng(c.w, r)
	st := newState()
	args := e.paramSyms(st, f)
	step = args[len(args)-1]
	st.setG("i.step", step)
	c.run(e, st, f, args)
}

// seqNext: the operation of the document package's sequence that hands out a number.
func seqNext(f *ssa.Function) bool {
	if f == nil || f.Parent() != nil || f.Signature.Recv() == nil || f.Name() != "Next" || !strings.HasSuffix(fnPkg(f), "/document") {
		return false
	}
	return f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 2
}

// runNames: names the document database gives numbers to.
func runNames(c *Ctx) {
	w := c.w
	next := w.reaching(func(cc *ssa.CallCommon) bool { return seqNext(cc.StaticCallee()) })
	set := w.reachingBut(func(cc *ssa.CallCommon) bool { op, _ := w.callInfo(cc); return op == "Set" }, seqNext)
	both := func(f *ssa.Function) bool {
		return f != nil && next[f] && set[f] && f.Parent() == nil && f.Synthetic == "" && strings.HasSuffix(fnPkg(f), "/document") && !seqNext(f)
	}
	from := map[string]string{}
	for _, f := range w.funcs {
		if !both(f) {
			continue
		}
		inner := false
		w.calls(f, func(cc *ssa.CallCommon) { inner = inner || both(cc.StaticCallee()) })
		if !inner {
			nameOp(c, f, from)
		}
	}
}

func nameOp(c *Ctx, f *ssa.Function, from map[string]string) {
	name := shortName(f.String())
	c.obl("operation", name)
	r := &Rule{Codec: true}
	var e *Eng
	bad := func(detail string, ins ssa.Instruction, msg string) {
		at := c.w.pos(f.Pos())
		if ins != nil {
			at = e.pos(ins)
		}
		c.fail("names", name, detail, at, name+": "+msg)
	}
	r.Intercept = func(e *Eng, st *State, ev *Event) ([]Out, bool) {
		if !seqNext(ev.Static) {
			return nil, false
		}
		res := e.freshResults(ev)
		er := Out{st: st.clone(), res: e.freshResults(ev)}
		er.res[1].nonNilIn(er.st)
		addTo(st, "d.new", mk("tuple", "", res[0], ev.Args[0]))
		return []Out{{st: st, res: []*Term{res[0], tNil}}, er}, true
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out {
		if ev.Op != "Set" {
			return outs
		}
		key, num := e.content(st, ev.Args[1]), encodedInt(e.content(st, ev.Args[2]))
		if num == nil {
			return outs
		}
		c.obl("name", name)
		var hit *Term
		for _, t := range ghostArgs(st, "d.new") {
			if t.args[0] == num {
				hit = t
			}
		}
		if hit == nil {
			bad("unreserved", ev.Instr, "stores a number for a name that has not just been taken from a sequence (or was used already)")
			return outs
		}
		kind := ""
		if key.op == "cat" && len(key.args) > 0 {
			kind = key.args[0].String()
		}
		seq := hit.args[1].String()
		if o := from[kind]; o != "" && o != seq {
			bad("sequence", ev.Instr, "takes numbers for the same kind of name from different sequences")
		}
		from[kind] = seq
		for i := range outs {
			dropFrom(outs[i].st, "d.new", hit)
			outs[i].st.setG("d.num", num)
		}
		return outs
	}
	r.Return = func(e *Eng, st *State, fn *ssa.Function, res []*Term) {
		if fn != f {
			return
		}
		if v, known := st.evalBool(tEq(res[len(res)-1], tNil)); known && !v {
			return
		}
		n := st.g("d.num")
		if n == nil || len(res) < 2 || !isInt64(f.Signature.Results().At(0).Type()) {
			return
		}
		if same(st, res[0], n) != 1 {
			bad("result", nil, "reports another number than the one stored for the name")
		}
	}
	e = newEng(c.w, r)
	st := newState()
	c.run(e, st, f, e.paramSyms(st, f))
}

// encodedInt is the integer a stored value consists of, if that is all it is.
func encodedInt(v *Term) *Term {
	v = stripCopy(v)
	if v.op == "cat" && len(v.args) == 1 {
		v = v.args[0]
	}
	if v.op != "app" {
		return nil
	}
	switch v.aux {
	case "be64", "enc:varint", "enc:uvarint", "fmtint", "unbe64":
		return stripConv(v.args[0])
	case "bytesof":
		return encodedInt(v.args[0])
	}
	return nil
}

// storedInt is the number behind its stored, readable form.
func storedInt(v *Term) *Term {
	var r *Term
	walk(v, map[*Term]bool{}, func(t *Term) {
		if t.op == "app" && t.aux == "fmtint" {
			r = t.args[0]
		}
	})
	return r
}

func init() {
	register("P17", func(c *Ctx) {
		c.rule("every id given to a database, collection, index or job is a number reserved by an increment of the one id counter in the same transaction (a single id, or start+k for a range of n with k not used before and 1<=k<=n), nothing is queued while the job, its subject or a part of the subject may lack an id, and no other operation writes the counter; the counter's increment stores the number read plus the step and returns it; names stored by the document database get a number just taken from the one sequence for their kind, used once")
		runCounters(c)
		runDDL(c)
		runNames(c)
		c.need("counter", 2)
		c.need("increment", 1)
		c.need("reserve", 2)
		c.need("use", 3)
		c.need("part", 2)
		c.need("job", 2)
		c.need("name", 2)
	})
}
