package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var debugEngine = os.Getenv("GOSYM_DEBUG") != ""

// Engine holds the program under test; shared by all workers.
type Engine struct {
	prog        *ssa.Program
	pkgs        []*packages.Package
	byPath      map[string]*ssa.Package
	sizes       types.Sizes
	maxSteps    int64
	rtErrorType types.Type
	tier        string
	fnCache     sync.Map // *ssa.Function -> *fnInfo
	slices      sync.Map // *ssa.Package -> map[*ssa.Global]*initSlice
	models      map[string]*ssa.Function
	implCache   sync.Map
	methCache   sync.Map
	harnesses   []*Harness
	ws          *workspace
}

// Harness is one entry point of a check.
type Harness struct {
	Name   string // package.Func
	Pkg    string
	Func   string
	Prop   string
	Doc    string
	Bounds []string
	Reach  []string
	Opts   map[string]string
	fn     *ssa.Function
}

type fnInfo struct {
	intrinsic intrinsic
	model     *ssa.Function
	nvals     int
	name      string
	repo      bool // part of the code under test
	hits      int64
	branches  int
}

func (fi *fnInfo) hit(st *State) {
	atomic.AddInt64(&fi.hits, 1)
}

// workspace knows where everything lives.
type workspace struct {
	repo    string
	verif   string
	scratch string
	overlay map[string]string // virtual path -> real path
}

func newWorkspace(repo, verif string) (*workspace, error) {
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	ws := &workspace{repo: repo, verif: verif, scratch: scratch, overlay: map[string]string{}}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil && f == "go.mod" {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(scratch, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	hd := filepath.Join(verif, "harness")
	ents, err := os.ReadDir(hd)
	if err != nil {
		return nil, err
	}
	for _, d := range ents {
		if !d.IsDir() {
			continue
		}
		fs, _ := os.ReadDir(filepath.Join(hd, d.Name()))
		for _, f := range fs {
			if strings.HasSuffix(f.Name(), ".go") {
				ws.overlay[filepath.Join(repo, "vharness", d.Name(), f.Name())] = filepath.Join(hd, d.Name(), f.Name())
			}
		}
	}
	return ws, nil
}

func (ws *workspace) close() { os.RemoveAll(ws.scratch) }

// writeOverlay writes an overlay file for the go command.
func (ws *workspace) writeOverlay(name string, extra map[string]string) string {
	m := map[string]string{}
	for k, v := range ws.overlay {
		m[k] = v
	}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": m})
	p := filepath.Join(ws.scratch, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

func (ws *workspace) flags(overlay string) []string {
	return []string{"-modfile=" + filepath.Join(ws.scratch, "go.mod"), "-overlay=" + overlay}
}

// load builds SSA for the named harness packages and everything they import.
func load(ws *workspace, hpkgs []string, tier string) (*Engine, error) {
	ov := ws.writeOverlay("overlay-load.json", nil)
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  ws.repo,
		Env:  append(os.Environ(), "CGO_ENABLED=0"),
		// the overlay goes to the go command itself; the parser needs it too
		BuildFlags: ws.flags(ov),
		Overlay:    map[string][]byte{},
	}
	for v, r := range ws.overlay {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		cfg.Overlay[v] = b
	}
	cfg.BuildFlags = []string{"-modfile=" + filepath.Join(ws.scratch, "go.mod")}
	pats := []string{vhPath + "/models"}
	for _, p := range hpkgs {
		pats = append(pats, vhPath+"/"+p)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, "vendor/") {
				continue
			}
			fmt.Fprintln(os.Stderr, "load:", e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("the code under test does not load")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: pkgs, byPath: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64"), maxSteps: 3_000_000, tier: tier, models: map[string]*ssa.Function{}, ws: ws}
	if tier == "thorough" {
		e.maxSteps = 30_000_000
	}
	for _, p := range prog.AllPackages() {
		e.byPath[p.Pkg.Path()] = p
	}
	rt := e.byPath["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	e.rtErrorType = rt.Type("errorString").Type()
	var ferr error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, vhPath+"/") {
			return
		}
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Doc == nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				h := &Harness{Pkg: p.Name, Func: fd.Name.Name, Name: p.Name + "." + fd.Name.Name, fn: fn, Opts: map[string]string{}}
				isH := false
				var doc []string
				for _, c := range fd.Doc.List {
					txt := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					switch {
					case strings.HasPrefix(txt, "model: "):
						for _, n := range strings.Fields(txt[7:]) {
							e.models[n] = fn
						}
					case strings.HasPrefix(txt, "verif:check "):
						isH = true
						h.Prop = strings.TrimSpace(txt[12:])
					case strings.HasPrefix(txt, "verif:reach "):
						h.Reach = append(h.Reach, strings.Fields(txt[12:])...)
					case strings.HasPrefix(txt, "verif:bound "):
						h.Bounds = append(h.Bounds, strings.TrimSpace(txt[12:]))
					case strings.HasPrefix(txt, "verif:opt "):
						kv := strings.SplitN(strings.TrimSpace(txt[10:]), "=", 2)
						if len(kv) == 2 {
							h.Opts[kv[0]] = kv[1]
						}
					default:
						doc = append(doc, strings.TrimSpace(txt))
					}
				}
				h.Doc = strings.Join(doc, " ")
				if isH {
					if fn.Signature.Params().Len() != 0 {
						ferr = fmt.Errorf("harness %s takes parameters", h.Name)
					}
					e.harnesses = append(e.harnesses, h)
				}
			}
		}
	})
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].Name < e.harnesses[j].Name })
	return e, ferr
}

func isRepoPath(p string) bool {
	return p == repoPath || strings.HasPrefix(p, repoPath+"/")
}

func isHarnessPath(p string) bool { return strings.HasPrefix(p, vhPath+"/") || p == vhPath }

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (e *Engine) fnInfo(fn *ssa.Function) *fnInfo {
	if v, ok := e.fnCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{name: fn.String()}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi.intrinsic = intrinsics[name]
	if m := e.models[name]; m != nil && m != fn && fi.intrinsic == nil {
		fi.model = m
	}
	for _, b := range fn.Blocks {
		fi.nvals += len(b.Instrs)
		if len(b.Succs) > 1 {
			fi.branches++
		}
	}
	if fi.nvals > 64 {
		fi.nvals = 64
	}
	p := fnPkg(fn)
	if p != nil {
		path := p.Pkg.Path()
		fi.repo = isRepoPath(path) && !isHarnessPath(path)
		if fn.Synthetic == "package initializer" && !isRepoPath(path) && fi.intrinsic == nil {
			fi.intrinsic = nop
		}
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		path := fn.Object().Pkg().Path()
		fi.repo = isRepoPath(path) && !isHarnessPath(path)
	}
	v, _ := e.fnCache.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

// fnByName finds a package-level function "path.Name".
func (e *Engine) fnByName(name string) *ssa.Function {
	i := strings.LastIndexByte(name, '.')
	p := e.byPath[name[:i]]
	if p == nil {
		return nil
	}
	return p.Func(name[i+1:])
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.byPath[pkg]
	if p == nil || p.Type(name) == nil {
		panic("no type " + pkg + "." + name)
	}
	return p.Type(name).Type()
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	e.implCache.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	n string
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, name}
	if v, ok := e.methCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	var fn *ssa.Function
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn = e.prog.MethodValue(ms.At(i))
			break
		}
	}
	e.methCache.Store(k, fn)
	return fn
}

// --- package-level variables ---

type initSlice struct {
	instrs []ssa.Instruction
	whole  bool
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// initSlices finds, for every global of a package, the part of the package
// initialiser that computes it.
func (e *Engine) initSlices(p *ssa.Package) map[*ssa.Global]*initSlice {
	if v, ok := e.slices.Load(p); ok {
		return v.(map[*ssa.Global]*initSlice)
	}
	out := map[*ssa.Global]*initSlice{}
	fn := p.Func("init")
	order := map[ssa.Instruction]int{}
	stores := map[*ssa.Global][]ssa.Instruction{}
	if fn != nil {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				order[in] = n
				n++
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						stores[g] = append(stores[g], in)
					}
				}
			}
		}
	}
	for g, ss := range stores {
		sl := &initSlice{}
		in := map[ssa.Instruction]bool{}
		var addI func(i ssa.Instruction)
		var addV func(v ssa.Value)
		addI = func(i ssa.Instruction) {
			if in[i] {
				return
			}
			in[i] = true
			if _, ok := i.(*ssa.Phi); ok {
				sl.whole = true
			}
			var ops [10]*ssa.Value
			for _, o := range i.Operands(ops[:0]) {
				if *o != nil {
					addV(*o)
				}
			}
			if v, ok := i.(ssa.Value); ok {
				refs := v.Referrers()
				if refs == nil {
					return
				}
				for _, r := range *refs {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == v {
							addI(x)
						}
					case *ssa.MapUpdate:
						if x.Map == v {
							addI(x)
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						addI(r)
					case *ssa.Slice:
						if x.X == v {
							// only matters when written through; keep
							addI(r)
						}
					}
				}
			}
		}
		addV = func(v ssa.Value) {
			if i, ok := v.(ssa.Instruction); ok && i.Parent() == fn {
				addI(i)
			}
		}
		for _, s := range ss {
			addI(s)
		}
		for i := range in {
			sl.instrs = append(sl.instrs, i)
		}
		sort.Slice(sl.instrs, func(a, b int) bool { return order[sl.instrs[a]] < order[sl.instrs[b]] })
		out[g] = sl
	}
	v, _ := e.slices.LoadOrStore(p, out)
	return v.(map[*ssa.Global]*initSlice)
}

// global returns the variable's cell, initialising it on first use.
func (st *State) global(th *Thread, g *ssa.Global) Value {
	if c := st.globals[g]; c != nil {
		return c
	}
	c := st.newCell(deref(g.Type()))
	st.globals[g] = c
	p := g.Pkg
	if p == nil || isRepoPath(p.Pkg.Path()) || st.pkgInit[p] || strings.HasPrefix(g.Name(), "init$") {
		return c
	}
	sl := st.eng.initSlices(p)[g]
	if sl == nil {
		return c
	}
	fn := p.Func("init")
	multi := st.multi
	st.multi = false
	defer func() { st.multi = multi }()
	if sl.whole {
		st.pkgInit[p] = true
		for i := range st.globals {
			if i.Pkg == p && i != g {
				// keep what is there; running again rebuilds it
				_ = i
			}
		}
		th.runBody(fn)
		return c
	}
	fr := &frame{th: th, fn: fn, env: map[ssa.Value]Value{}}
	for _, in := range sl.instrs {
		if fr.visit(in) != kNext {
			st.unsupported("control flow in the initialiser of %s", g)
		}
	}
	return c
}

// runBody interprets a function regardless of intrinsics.
func (th *Thread) runBody(fn *ssa.Function) {
	fr := &frame{th: th, fn: fn, env: map[ssa.Value]Value{}}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
}
