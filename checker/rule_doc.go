package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P24, P25, P29, P18: the operations on documents.

// docOp is an exported operation that may be given a transaction.
type docOp struct {
	fn  *ssa.Function
	txn int // index among the parameters
}

// holdsStore: a value of the type leads to a store it can open transactions on.
func holdsStore(t types.Type, d int) bool {
	t = deref(t)
	if _, ok := t.Underlying().(*types.Interface); ok {
		return hasMethod(t, "NewTransaction")
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || d > 2 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if n, ok := types.Unalias(deref(ft)).(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) && holdsStore(ft, d+1) {
			return true
		}
	}
	return false
}

func docOps(w *World) []*docOp {
	var res []*docOp
	for _, f := range w.funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() || !returnsErr(f.Signature) || !holdsStore(f.Signature.Recv().Type(), 0) {
			continue
		}
		for i, p := range f.Params {
			if i > 0 && isTxnType(p.Type()) {
				res = append(res, &docOp{f, i})
				break
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].fn.String() < res[j].fn.String() })
	return res
}

// docMon watches one operation on documents.
type docMon struct {
	c     *Ctx
	w     *World
	op    *docOp
	name  string
	recv  *Term
	args  []*Term
	given bool
	txn   *Term // the transaction given
	seq   map[*types.Named]bool
	pat   *docPat // how the receiver's type builds document keys
	e     *Eng
}

func (m *docMon) on(p string) bool { return m.c.prop == p }

func (m *docMon) bad(prop, rule, detail string, ins ssa.Instruction, msg string) {
	if m.c.prop != prop {
		return
	}
	at := m.w.pos(m.op.fn.Pos())
	if ins != nil {
		at = m.e.pos(ins)
	}
	how := " (given a transaction)"
	if !m.given {
		how = " (given no transaction)"
	}
	m.c.fail(rule, m.name, detail, at, m.name+how+": "+msg)
}

// txnRoot: the transaction object a storage call ends up at.
func txnRoot(t *Term) *Term {
	for {
		t = resBase(t)
		if t.op == "sym" && t.info != nil && t.info.kind == "load" {
			if p, _ := t.info.ptr.(*Term); p != nil && p.op == "field" && p.args[0].typ != nil && isTxnType(p.args[0].typ) {
				t = p.args[0]
				continue
			}
		}
		return t
	}
}

func runDoc(c *Ctx) {
	w := c.w
	pats := docPatterns(c)
	for _, op := range docOps(w) {
		for _, given := range []bool{true, false} {
			if c.prop == "P18" && (!given || refTxnOf(op) == nil) {
				continue
			}
			m := &docMon{c: c, w: w, op: op, name: shortName(op.fn.String()), seq: seqTypes(w), given: given, pat: pats[recvNamed(op.fn)]}
			m.analyse()
		}
	}
}

func recvNamed(f *ssa.Function) *types.Named {
	n, _ := types.Unalias(deref(f.Signature.Recv().Type())).(*types.Named)
	return n
}

// isSeqMethod: a method of an id sequence (analysed on its own).
func isSeqMethod(seq map[*types.Named]bool, fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	n := recvNamed(fn)
	return n != nil && seq[n]
}

// isWriteOp: an operation that changes what is stored.
func isWriteOp(op string) bool { return op == "Set" || op == "Delete" }

func (m *docMon) analyse() {
	w := m.w
	r := &Rule{Codec: true, Numeric: m.on("P29")}
	r.Opaque = func(fn *ssa.Function) bool {
		if isSeqMethod(m.seq, fn) {
			return true
		}
		if m.given {
			k, _ := txnFuncKind(fn, nil)
			return k == "commit" || k == "discard"
		}
		return false
	}
	e := newEng(w, r)
	m.e = e
	st := newState()
	m.args = e.paramSyms(st, m.op.fn)
	m.recv = m.args[0]
	if m.given {
		m.txn = m.args[m.op.txn]
		st.assume(tEq(m.txn, tNil), false)
	} else {
		m.args[m.op.txn] = tNil
	}
	for i, a := range m.args {
		st.setG(fmt.Sprint("d.arg", i), a)
	}
	r.Before = func(e *Eng, st *State, ev *Event) {
		if os.Getenv("DBG") == m.name || os.Getenv("DBG") == "1" {
			fmt.Println("  EV", m.name, m.given, ev.Name, ev.Op, ev.Args)
		}
		m.before(st, ev)
	}
	r.After = func(e *Eng, st *State, ev *Event, outs []Out) []Out { return m.after(st, ev, outs) }
	if m.on("P29") {
		m.docHooks(r)
		st.setG("d.n", mkInt(0))
	}
	if m.on("P18") {
		m.refHooks(r)
	}
	m.c.obl(map[string]string{"P24": "transaction use", "P29": "document effect", "P18": "reference recorded"}[m.c.prop], fmt.Sprint(m.name, map[bool]string{true: " given", false: " own"}[m.given]))
	outs := m.c.run(e, st, m.op.fn, m.args)
	for _, o := range outs {
		if os.Getenv("DBG") == m.name || os.Getenv("DBG") == "1" {
			fmt.Println("  EXIT", m.name, m.given, o.panic, o.why, o.res)
		}
		if o.panic {
			continue
		}
		for _, p := range forkErr(o) {
			m.exit(p.st, p.res, errOf(p).op == "nil")
		}
	}
}

// before: each storage call is made on the right transaction.
func (m *docMon) before(st *State, ev *Event) {
	if m.on("P29") {
		m.docBefore(st, ev)
	}
	if m.on("P18") {
		m.refBefore(st, ev)
	}
	op := ev.Op
	if op == "" {
		if ev.Static != nil && m.given {
			if k, _ := txnFuncKind(ev.Static, ev.Args); k == "commit" || k == "discard" {
				m.bad("P24", "ownership", k, ev.Instr, "calls "+ev.Name+" on a transaction although it was given one")
			}
		}
		return
	}
	root := txnRoot(ev.Args[0])
	if m.given {
		switch {
		case op == "Commit" || op == "Discard":
			m.bad("P24", "ownership", strings.ToLower(op), ev.Instr, "calls "+op+" although its caller owns the transaction")
		case op == "NewTransaction" || op == "WriteBatch":
			m.bad("P24", "ownership", "opens", ev.Instr, "opens a transaction or batch of its own")
		case root != m.txn:
			m.bad("P24", "ownership", "outside", ev.Instr, "calls "+op+" outside the transaction it was given")
		}
	} else {
		cur, state := st.g("d.txn"), st.gs("d.st")
		switch {
		case op == "NewTransaction":
			if cur != nil && state != "dropped" && !(state == "failed") {
				m.bad("P24", "own-transaction", "second", ev.Instr, "opens a second transaction")
			}
		case op == "WriteBatch":
			m.bad("P24", "own-transaction", "batch", ev.Instr, "opens a write batch")
		case cur == nil || root != cur:
			m.bad("P24", "own-transaction", "outside", ev.Instr, "calls "+op+" outside its transaction")
		case op == "Discard":
		case state != "open":
			m.bad("P24", "own-transaction", "finished", ev.Instr, "calls "+op+" on a transaction that is finished")
		case (isWriteOp(op) || op == "Commit" && st.gs("d.wrote") != "") && st.g("d.upd") != tTrue:
			m.bad("P24", "own-transaction", "kind", ev.Instr, "calls "+op+" in a transaction that was not opened for update")
		}
	}
	if isWriteOp(op) {
		st.setGS("d.wrote", "y")
	}
}

func (m *docMon) after(st *State, ev *Event, outs []Out) []Out {
	switch ev.Op {
	case "NewTransaction":
		for _, o := range outs {
			b := resBase(o.res[0])
			distinct(o.st, b)
			o.st.setG("d.txn", b)
			o.st.setG("d.upd", ev.Args[1])
			o.st.setGS("d.st", "open")
			o.st.setGS("d.wrote", "")
		}
		return outs
	case "Commit":
		if m.given {
			return outs
		}
		var res []Out
		for _, o := range outs {
			for _, p := range forkErr(o) {
				if errOf(p).op == "nil" {
					p.st.setGS("d.st", "committed")
				} else {
					p.st.setGS("d.st", "failed")
				}
				res = append(res, p)
			}
		}
		return res
	case "Discard":
		for _, o := range outs {
			if o.st.gs("d.st") == "open" {
				o.st.setGS("d.st", "dropped")
			}
		}
		return outs
	}
	if m.on("P29") {
		return m.docAfter(st, ev, outs)
	}
	return outs
}

func (m *docMon) exit(st *State, res []*Term, ok bool) {
	if !m.given && ok {
		if st.gs("d.st") == "failed" {
			m.bad("P24", "outcome", "failed-commit", nil, "reports success although its transaction did not commit")
		}
		if st.gs("d.wrote") != "" && st.gs("d.st") != "committed" {
			m.bad("P24", "outcome", "not-committed", nil, "reports success although its writes were never committed")
		}
	}
	if m.on("P29") {
		m.docExit(st, res, ok)
	}
	if m.on("P18") && m.given {
		m.refExit(st, res, ok)
	}
}

func init() {
	register("P24", func(c *Ctx) {
		c.rule("An operation given a transaction makes every storage call on it, opens, commits and discards none; one given none makes every storage call in one transaction of its own, opened for update when it writes, and returns no error only if its writes were committed.")
		runDoc(c)
		c.need("transaction use", 20)
	})
	register("P29", func(c *Ctx) {
		c.rule("Every operation's keys are the insert's document key for an id it was given (or scanned) and its own collection's id, and scans cover exactly those keys; each writes, deletes, reads, counts or returns exactly what its name promises, and succeeds only after having done so.")
		runDoc(c)
		c.need("document effect", 20)
	})
}

func inModule(p string) bool { return strings.HasPrefix(p, modPath) }

func seqTypes(w *World) map[*types.Named]bool {
	r := map[*types.Named]bool{}
	for _, t := range seqTargets(w) {
		r[t.typ] = true
	}
	return r
}
