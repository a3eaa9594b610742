package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violation of a property, tied to a construct.
type Finding struct {
	Key    string // stable identification: rule|construct|detail
	Rule   string
	Where  string // file:line
	Detail string
}

// Ctx collects what one property's check analysed and found.
type Ctx struct {
	w        *World
	prop     string
	tier     string
	findings map[string]*Finding
	obls     map[string]bool // obligations examined (rule|construct)
	counts   map[string]int
	funcs    map[*ssa.Function]bool
	sites    map[ssa.Instruction]bool
	entries  map[string]bool
	rules    []string
	steps    int
	joins    int
	cut      map[string]bool
	engs     []*Eng
	args     *argKinds
	only     func(construct, detail string) bool // when set, other findings belong to another property
}

func (c *Ctx) rule(text string) { c.rules = append(c.rules, text) }

// obl records an obligation that was examined.
func (c *Ctx) obl(rule, construct string) {
	k := rule + "|" + construct
	c.obls[k] = true
	c.counts[rule]++
}

func (c *Ctx) fail(rule, construct, detail, where, msg string) {
	if c.only != nil && rule != "engine" && !c.only(construct, detail) {
		return
	}
	k := rule + "|" + construct + "|" + detail
	if c.findings[k] == nil {
		c.findings[k] = &Finding{Key: k, Rule: rule, Where: where, Detail: msg}
	}
}

// need demands at least n examined obligations of a rule (a check that examined
// nothing has not shown anything).
func (c *Ctx) need(rule string, n int) {
	seen := 0
	for k := range c.obls {
		if strings.HasPrefix(k, rule+"|") {
			seen++
		}
	}
	if seen < n {
		c.fail(rule, "coverage", "floor", "-", fmt.Sprintf("only %d obligations of this rule were found in the source, at least %d expected: the construct the property is anchored in is gone", seen, n))
	}
}

func (c *Ctx) run(e *Eng, st *State, fn *ssa.Function, args []*Term) []Out {
	c.entries[shortName(fn.String())] = true
	outs := e.Run(st, fn, args)
	c.absorb(e, fn)
	return outs
}

func (c *Ctx) absorb(e *Eng, fn *ssa.Function) {
	for f := range e.inlined {
		c.funcs[f] = true
	}
	for s := range e.callSites {
		c.sites[s] = true
	}
	for s := range e.bounds {
		c.obl("bound", c.w.pos(s.Pos()))
	}
	for k := range e.cut {
		c.cut[k] = true
	}
	c.steps += e.steps
	c.joins += e.joins
	if e.undecided != "" {
		c.fail("engine", shortName(fn.String()), "undecided", c.w.pos(fn.Pos()), "not decided: "+e.undecided)
	}
}

type property struct {
	id    string
	level string
	check func(c *Ctx)
}

var properties []property

func register(id string, check func(c *Ctx)) {
	properties = append(properties, property{id: id, level: "other", check: check})
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory holding known findings and evidence")
	prop := flag.String("property", "", "property id, or 'all'")
	tier := flag.String("tier", "quick", "quick or thorough")
	dbg := flag.String("debug", "", "debug: analyse the named functions")
	list := flag.Bool("list", false, "list function names")
	flag.Parse()
	debug.SetGCPercent(200)
	t0 := time.Now()
	w, err := loadWorld(*repo)
	if err != nil {
		// the tree does not build: no property can be shown
		ids := []string{*prop}
		if *prop == "all" {
			ids = nil
			for _, p := range properties {
				ids = append(ids, p.id)
			}
		}
		for _, id := range ids {
			replay := filepath.Join(*verif, "evidence", id+".violation.txt")
			os.MkdirAll(filepath.Dir(replay), 0o755)
			os.WriteFile(replay, []byte("cannot load the program: "+err.Error()+"\n"), 0o644)
			fmt.Printf("cannot load %s: %v\n", *repo, err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		}
		os.Exit(1)
	}
	if *list {
		for _, f := range w.funcs {
			fmt.Println(shortName(f.String()), w.pos(f.Pos()))
		}
		return
	}
	if *dbg != "" {
		debugRun(w, strings.Split(*dbg, ","))
		return
	}
	code := 0
	found := false
	for _, p := range properties {
		if *prop != "all" && p.id != *prop {
			continue
		}
		found = true
		if !runProperty(w, p, *verif, *tier, t0) {
			code = 1
		}
		t0 = time.Now()
	}
	if !found {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(code)
}

func runProperty(w *World, p property, verif, tier string, t0 time.Time) bool {
	c := &Ctx{w: w, prop: p.id, tier: tier, findings: map[string]*Finding{}, cut: map[string]bool{}, obls: map[string]bool{}, counts: map[string]int{}, funcs: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}, entries: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.fail("engine", "checker", "crash", "-", fmt.Sprintf("analysis failed: %v\n%s", r, debug.Stack()))
			}
		}()
		p.check(c)
	}()
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), p.id)
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var viol, kn []*Finding
	seen := map[string]bool{}
	for _, k := range keys {
		f := c.findings[k]
		if d, ok := known[k]; ok {
			kn = append(kn, f)
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", p.id, d, k, f.Where)
			continue
		}
		viol = append(viol, f)
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, p.id+".violation.txt")
	os.Remove(replay)
	if len(viol) > 0 {
		var sb strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&sb, "%s: %s\n    rule and construct: %s\n", f.Where, f.Detail, f.Key)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, replay)
	}
	writeEvidence(c, p, tier, evdir, viol, kn, time.Since(t0))
	fmt.Printf("property %s: %d entry points, %d functions, %d call sites, %d obligations, %d violations, %d known, %.1fs\n", p.id, len(c.entries), len(c.funcs), len(c.sites), len(c.obls), len(viol), len(kn), time.Since(t0).Seconds())
	return len(viol) == 0
}

// loadKnown reads "known: property=Pxx key=<key> :: <what fails>" lines.
func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" key=")
		k, d, _ := strings.Cut(l, " :: ")
		m[strings.TrimSpace(k)] = strings.TrimSpace(d)
	}
	return m
}

func writeEvidence(c *Ctx, p property, tier, dir string, viol, kn []*Finding, d time.Duration) {
	keys := func(m map[string]bool) []string {
		var r []string
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, shortName(f.String()))
	}
	sort.Strings(fns)
	var vs []interface{}
	for _, f := range viol {
		vs = append(vs, map[string]string{"construct": f.Key, "where": f.Where, "detail": f.Detail})
	}
	var ks []interface{}
	for _, f := range kn {
		ks = append(ks, map[string]string{"construct": f.Key, "where": f.Where, "detail": f.Detail})
	}
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": 1, "level": p.level,
		"wall_s":     d.Seconds(),
		"violations": len(viol),
		"coverage": map[string]interface{}{
			"explanation":        "static analysis of the current source: every path of the listed entry points (helpers inlined, loops merged to a fixed point, every outcome of every storage and library call) was checked against the rules",
			"rules":              c.rules,
			"entry_points":       keys(c.entries),
			"functions_analysed": fns,
			"call_sites":         len(c.sites),
			"obligations":        len(c.obls),
			"obligation_list":    keys(c.obls),
			"discharged":         len(c.obls) - len(viol) - len(kn),
			"abstract_steps":     c.steps,
			"loop_merges":        c.joins,
			"violations":         vs,
			"known_findings":     ks,
			"cut_paths":          keys(c.cut),
			"exhaustive":         len(c.cut) == 0,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644)
}

var dbg = os.Getenv("DBG") != ""

func debugRun(w *World, names []string) {
	if names[0] == "all" {
		names = nil
		for _, f := range w.funcs {
			if !isPbFn(f) {
				names = append(names, shortName(f.String()))
			}
		}
	}
	for _, n := range names {
		fn := w.fn(n)
		if fn == nil {
			fmt.Println("no", n)
			continue
		}
		t1 := time.Now()
		e := newEng(w, &Rule{})
		if len(names) > 30 {
			e.maxSteps = 200000
		}
		outs := e.Run(nil, fn, nil)
		d := time.Since(t1)
		if len(names) < 30 || d > 200*time.Millisecond || e.undecided != "" {
			fmt.Println(n, "outs", len(outs), "steps", e.steps, "joins", e.joins, e.undecided, d)
		}
		if len(names) < 30 {
			for _, o := range outs {
				fmt.Println("  ", o.panic, o.why, o.res)
			}
		}
	}
}

func isPbFn(fn *ssa.Function) bool {
	n := shortName(fn.String())
	return strings.HasPrefix(n, "pb.") || strings.HasPrefix(n, "(*pb.")
}
