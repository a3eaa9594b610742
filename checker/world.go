package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	thr         map[*ssa.Function][]int64 // see findThresholds
	methods     map[string][]*ssa.Function
	root        string
	fset        *token.FileSet
	pkgs        []*packages.Package
	prog        *ssa.Program
	spkgs       map[string]*ssa.Package // by path relative to the module
	infos       map[*ssa.Function]*fnInfo
	funcs       []*ssa.Function // all source functions incl. closures
	byName      map[string]*ssa.Function
	mutable     map[string]bool
	zeroGlobals map[string]bool  // variables never set
	globalVals  map[string]*Term // package variables set once, by their initialiser
	opSigs      map[string][]*types.Signature
}

type fnInfo struct {
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	head   map[*ssa.BasicBlock]bool
}

func loadWorld(root string) (*World, error) {
	w := &World{root: root, fset: token.NewFileSet(), spkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{}, byName: map[string]*ssa.Function{}}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: root, Fset: w.fset, Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	w.pkgs = pkgs
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.spkgs[shortName(p.Pkg.Path())] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && w.isRepoFn(fn) && fn.Synthetic == "" {
			w.funcs = append(w.funcs, fn)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool {
		a, b := w.funcs[i], w.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, f := range w.funcs {
		w.byName[shortName(f.String())] = f
	}
	w.findGlobals()
	w.findFixedFields()
	return w, nil
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, x := range env {
			if strings.HasPrefix(x, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOWORK", "off")
	set("GOFLAGS", "-mod=mod")
	return env
}

func (w *World) isRepoFn(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	// wrappers and bound methods
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return true
	}
	if fn.Parent() != nil {
		return w.isRepoFn(fn.Parent())
	}
	return false
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	rel, err := filepath.Rel(w.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (w *World) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// fn finds a function by its short name; nil when it does not exist.
func (w *World) fn(name string) *ssa.Function { return w.byName[name] }

func (w *World) info(fn *ssa.Function) *fnInfo {
	if fi := w.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, head: map[*ssa.BasicBlock]bool{}}
	w.infos[fn] = fi
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	blocks := append([]*ssa.BasicBlock(nil), fn.Blocks...)
	if fn.Recover != nil {
		blocks = append(blocks, fn.Recover)
	}
	// named results read by the recover block stay live: cells are Allocs
	recLive := map[ssa.Value]bool{}
	if fn.Recover != nil {
		for _, ins := range fn.Recover.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op != nil && isReg(*op) {
					recLive[*op] = true
				}
			}
		}
	}
	for _, b := range blocks {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(blocks) - 1; i >= 0; i-- {
			b := blocks[i]
			live := map[ssa.Value]bool{}
			for v := range recLive {
				live[v] = true
			}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					live[v] = true
				}
				// phi operands on this edge
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isReg(phi.Edges[pi]) {
							live[phi.Edges[pi]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			// phis used in this block or later are defined at its head
			if len(live) != len(fi.liveIn[b]) {
				fi.liveIn[b] = live
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.head[s] = true
			}
		}
	}
	return fi
}

// findGlobals finds slice variables that are only set by their initialiser, to
// a make with a constant length or the bytes of a constant string.
func (w *World) findGlobals() {
	w.globalVals = map[string]*Term{}
	stores := map[*ssa.Global][]*ssa.Store{}
	bad := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], st)
						if g2, ok := st.Val.(*ssa.Global); ok {
							bad[g2] = true
						}
						continue
					}
				}
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					bad[g] = true
				}
			}
		}
	}
	w.zeroGlobals = map[string]bool{}
	for _, p := range w.prog.AllPackages() {
		for _, mb := range p.Members {
			if g, ok := mb.(*ssa.Global); ok && !bad[g] && len(stores[g]) == 0 && g.Object() != nil && !g.Object().Exported() {
				w.zeroGlobals[shortName(g.String())] = true
			}
		}
	}
	for g, ss := range stores {
		if bad[g] || len(ss) != 1 || ss[0].Parent().Name() != "init" {
			continue
		}
		n := shortName(g.String())
		switch v := ss[0].Val.(type) {
		case *ssa.Slice:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && a.Comment == "makeslice" {
				if arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					ln := arr.Len()
					if c, ok := v.High.(*ssa.Const); ok {
						ln = c.Int64()
					}
					w.globalVals[n] = mk("slice", "", mk("global", n+"[]"), mkInt(0), mkInt(ln))
				}
			}
		case *ssa.Convert:
			if c, ok := v.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && isByteSlice(v.Type()) {
				w.globalVals[n] = mkCat(mkConst(c.Value))
			}
		}
	}
}

// findFixedFields: fields of repository structs that are only ever set while the
// struct is being constructed (through a local allocation) and whose address is
// used for nothing but loads.
func (w *World) findFixedFields() {
	w.mutable = map[string]bool{}
	key := func(fa *ssa.FieldAddr) string {
		return types.TypeString(deref(fa.X.Type()), nil) + "#" + strconv.Itoa(fa.Field)
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.Alloc:
				return true
			}
			return false
		}
	}
	var all func(t types.Type)
	all = func(t types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			k := types.TypeString(t, nil) + "#" + strconv.Itoa(i)
			if w.mutable[k] {
				continue
			}
			w.mutable[k] = true
			all(s.Field(i).Type())
		}
	}
	// filled: what a decoder may set in a value of this type
	var filled func(t types.Type, d int)
	filled = func(t types.Type, d int) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			filled(u.Elem(), d)
		case *types.Slice:
			filled(u.Elem(), d)
		case *types.Struct:
			for i := 0; i < u.NumFields() && d < 5; i++ {
				f := u.Field(i)
				if f.Exported() {
					w.mutable[types.TypeString(t, nil)+"#"+strconv.Itoa(i)] = true
				}
				if f.Exported() || f.Embedded() {
					filled(f.Type(), d+1)
				}
			}
		}
	}
	for _, fn := range w.allFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if _, isF := st.Addr.(*ssa.FieldAddr); !isF && !local(st.Addr) {
						all(st.Val.Type())
					}
				}
				if mi, ok := ins.(*ssa.MakeInterface); ok {
					// a pointer that may be handed to a decoder
					if it, ok := mi.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
						if _, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
							filled(deref(mi.X.Type()), 0)
						}
					}
				}
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
					case *ssa.Store:
						if x.Addr == fa && local(fa.X) {
							continue
						}
						w.mutable[key(fa)] = true
						all(deref(fa.Type()))
					default:
						w.mutable[key(fa)] = true
						if c, ok := r.(ssa.CallInstruction); ok {
							if f := c.Common().StaticCallee(); f != nil && w.isRepoFn(f) {
								continue // what it does to the parts is seen there
							}
						}
						all(deref(fa.Type()))
					}
				}
			}
		}
	}
}

func (w *World) fixedField(t types.Type, i int) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || strings.HasSuffix(n.Obj().Pkg().Path(), "/pb") {
		return false
	}
	return !w.mutable[types.TypeString(t, nil)+"#"+strconv.Itoa(i)]
}
