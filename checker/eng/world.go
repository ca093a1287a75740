package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	SPkg  map[string]*ssa.Package
	Lib   *ssa.Package
	Cmd   *ssa.Package
	loops map[*ssa.Function]*loopTree
	Funcs []*ssa.Function // every function of the module, deterministic
}

// Load type-checks and builds SSA for the module in dir.
func Load(dir string, env []string, overlay map[string][]byte) (*World, error) {
	reset()
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedImports,
		Dir:     dir,
		Env:     append(os.Environ(), env...),
		Overlay: overlay,
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{Dir: dir, SPkg: map[string]*ssa.Package{}, loops: map[*ssa.Function]*loopTree{}}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w.Prog, w.Pkgs, w.Fset = prog, pkgs, prog.Fset
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Build()
		w.SPkg[p.Pkg.Path()] = p
		switch p.Pkg.Path() {
		case "github.com/aclindsa/ofxgo":
			w.Lib = p
		case "github.com/aclindsa/ofxgo/cmd/ofx":
			w.Cmd = p
		}
	}
	if w.Lib == nil || w.Cmd == nil {
		return nil, fmt.Errorf("packages ofxgo and cmd/ofx not found")
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if w.InModule(f) && len(f.Blocks) > 0 {
			w.Funcs = append(w.Funcs, f)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		a, b := w.Funcs[i], w.Funcs[j]
		if FnName(a) != FnName(b) {
			return FnName(a) < FnName(b)
		}
		return a.Pos() < b.Pos()
	})
	return w, nil
}

func (w *World) loopsOf(f *ssa.Function) *loopTree {
	if l, ok := w.loops[f]; ok {
		return l
	}
	l := findLoops(f)
	w.loops[f] = l
	return l
}

func (w *World) InModulePkg(p *types.Package) bool {
	return p != nil && (p.Path() == "github.com/aclindsa/ofxgo" || strings.HasPrefix(p.Path(), "github.com/aclindsa/ofxgo/"))
}

// InModule: the function's code belongs to the module (wrappers and closures
// included).
func (w *World) InModule(f *ssa.Function) bool {
	if f.Pkg != nil {
		return w.InModulePkg(f.Pkg.Pkg)
	}
	if f.Parent() != nil {
		return w.InModule(f.Parent())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return w.InModulePkg(o.Pkg()) && len(f.Blocks) > 0
	}
	// synthetic wrappers of external methods promoted into module types
	return f.Synthetic != "" && len(f.Blocks) > 0
}

// Method finds the implementation of an interface method on a type.
func (w *World) Method(t types.Type, m *types.Func) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.Prog.MethodValue(sel)
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	if rel, err := filepath.Rel(w.Dir, q.Filename); err == nil {
		return fmt.Sprintf("%s:%d", rel, q.Line)
	}
	return q.String()
}

func (w *World) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		if c, ok := in.(ssa.CallInstruction); ok {
			p = c.Common().Pos()
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		// nearest instruction with a position in the block
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == in && p.IsValid() {
				break
			}
		}
		if !p.IsValid() {
			p = in.Parent().Pos()
		}
	}
	return w.Pos(p)
}

// LibFunc returns a package-level function or method by short name:
// "F", "T.M" or "*T.M".
func (w *World) LibFunc(name string) *ssa.Function { return w.find(w.Lib, name) }
func (w *World) CmdFunc(name string) *ssa.Function { return w.find(w.Cmd, name) }

func (w *World) find(p *ssa.Package, name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn := strings.TrimPrefix(name[:i], "*")
		o := p.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
			ms := types.NewMethodSet(t)
			if s := ms.Lookup(p.Pkg, name[i+1:]); s != nil {
				f := s.Obj().(*types.Func)
				if len(s.Index()) == 1 {
					return w.Prog.FuncValue(f)
				}
				return w.Prog.MethodValue(s)
			}
		}
		return nil
	}
	return p.Func(name)
}

// Type returns a named library type.
func (w *World) Type(name string) types.Type {
	o := w.Lib.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Frozen is the memory the package initialisers leave behind, for globals
// nothing else writes to.
type Frozen struct {
	St   *State
	set  map[*ssa.Global]bool
	made map[*Term]bool // allocations of the initialisers
}

func (f *Frozen) Is(g *ssa.Global) bool { return f != nil && f.set[g] }
func (f *Frozen) load(a *Term, t types.Type) *Term {
	if v := f.St.Load(a, t); v != nil {
		return v
	}
	return Init(a, t)
}

// Freeze evaluates the package initialisers abstractly.
func (w *World) Freeze() (*Frozen, []*Event, []string) {
	fz := &Frozen{set: map[*ssa.Global]bool{}}
	escaped := w.writtenGlobals()
	r := &Run{W: w, MaxSteps: 20000000, Funcs: map[*ssa.Function]bool{}}
	r.MaxDepth = 24
	st := r.NewState()
	initMode := &Frozen{St: r.NewState(), set: map[*ssa.Global]bool{}}
	_ = initMode
	var events []*Event
	var und []string
	run := func(p *ssa.Package) {
		// during initialisation globals start out zero
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				et := g.Type().(*types.Pointer).Elem()
				if _, done := st.mem[Global(g)]; !done {
					st.mem[Global(g)] = Zero(et)
				}
			}
		}
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(stopErr); ok {
					und = append(und, "package initialisation: "+s.msg)
					return
				}
				panic(x)
			}
		}()
		outs := r.call(st, p.Func("init"), nil, nil, &Ctx{Fn: p.Func("init")})
		var rets []Outcome
		for _, o := range outs {
			if o.Kind == "ret" {
				rets = append(rets, o)
			}
		}
		// the path on which initialisation was already done returns at once
		best := -1
		for i, o := range rets {
			if best < 0 || len(o.St.mem) > len(rets[best].St.mem) {
				best = i
			}
		}
		if best < 0 {
			und = append(und, "package initialisation does not return")
			return
		}
		st = rets[best].St
	}
	run(w.Lib)
	run(w.Cmd)
	events = st.Events(nil)
	fz.St = st
	st.run = nil
	fz.made = map[*Term]bool{}
	for k := range st.mem {
		if x := Root(k); x.K == KAlloc {
			fz.made[x] = true
		}
	}
	for _, p := range []*ssa.Package{w.Lib, w.Cmd} {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !escaped[g] {
				fz.set[g] = true
			}
		}
	}
	und = append(und, r.Undecided...)
	return fz, events, und
}

// writtenGlobals lists globals written (or whose address is passed on)
// outside of plain package initialisation.
func (w *World) writtenGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, f := range w.Funcs {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if isInit {
						switch in.(type) {
						case *ssa.Store, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
							continue
						}
					}
					if !readOnlyUse(in, *op, 0) {
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

// readOnlyUse: the instruction uses address v only to read.
func readOnlyUse(in ssa.Instruction, v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		return true
	case *ssa.DebugRef:
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr:
		refs := x.(ssa.Value).Referrers()
		if refs == nil {
			return false
		}
		for _, u := range *refs {
			if !readOnlyUse(u, x.(ssa.Value), d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		// slicing an array global: element reads only
		refs := x.Referrers()
		for _, u := range *refs {
			if !readOnlyUse(u, x, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		// calls on the address: methods of regexp etc. do not write
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "copy") {
			return len(x.Call.Args) == 2 && x.Call.Args[0] != v // the source
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch FnName(f) {
		case "strings.Join", "sort.SearchStrings", "sort.SearchInts", "sort.StringsAreSorted", "strings.NewReplacer":
			return true
		}
		// a function of the module that itself only reads through it
		if len(f.Blocks) == 0 || len(f.Params) != len(x.Call.Args) {
			return false
		}
		for i, a := range x.Call.Args {
			if a != v {
				continue
			}
			for _, u := range *f.Params[i].Referrers() {
				if !readOnlyUse(u, f.Params[i], d+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// LoopHeaders lists the headers of a function's loops.
func (w *World) LoopHeaders(f *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	lt := w.loopsOf(f)
	for _, b := range f.Blocks {
		if lt.byHeader[b] != nil {
			out = append(out, b)
		}
	}
	return out
}

// Callees lists the module functions a function may call: static callees,
// closures it makes, and for interface calls every module method that fits.
func (w *World) Callees(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && w.InModule(g) && len(g.Blocks) > 0 {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cm := ci.Common()
				if cm.IsInvoke() && cm.Method.Name() == "Error" {
					continue // the text of an error; errors are finite trees
				}
				if cm.IsInvoke() {
					if I, ok := cm.Value.Type().Underlying().(*types.Interface); ok {
						ts, known := w.DynTypes(cm.Value)
						if !known {
							ts = w.Prog.RuntimeTypes()
						}
						for _, t := range ts {
							if types.IsInterface(t) || !types.Implements(t, I) {
								continue
							}
							add(w.Method(t, cm.Method))
						}
					}
					continue
				}
				add(cm.StaticCallee())
			}
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Function:
					add(x)
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

// DynTypes: the types of the values an interface may hold, as far as they can
// be told from the conversions that reach it; false when they cannot.
func (w *World) DynTypes(v ssa.Value) ([]types.Type, bool) {
	var out []types.Type
	ok := w.dynTypes(v, map[any]bool{}, &out)
	return out, ok
}

func (w *World) dynTypes(v ssa.Value, seen map[any]bool, out *[]types.Type) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true // nil
	case *ssa.MakeInterface:
		*out = append(*out, x.X.Type())
		return true
	case *ssa.ChangeInterface:
		return w.dynTypes(x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.dynTypes(e, seen, out) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		// the arguments of all calls of an unexported function
		f := x.Parent()
		if f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil || !w.InModule(f) {
			return false
		}
		i := 0
		for f.Params[i] != x {
			i++
		}
		for _, g := range w.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, isCall := in.(ssa.CallInstruction)
					for _, op := range in.Operands(nil) {
						if *op == f && !(isCall && op == &ci.Common().Value) {
							return false
						}
					}
					if isCall && ci.Common().StaticCallee() == f && !w.dynTypes(ci.Common().Args[i], seen, out) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		root, ok := w.localRoot(x.X)
		if !ok {
			return false
		}
		return w.storedTypes(root, x.Type(), seen, out)
	case *ssa.Extract:
		return false
	}
	return false
}

// localRoot: the variable or literal of a function that an address lies in.
func (w *World) localRoot(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, true
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil, false
		}
	}
}

// storedTypes: what is stored in a variable that is only read and written in
// place.
func (w *World) storedTypes(a ssa.Value, want types.Type, seen map[any]bool, out *[]types.Type) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == a {
				return false
			}
			if types.Identical(x.Val.Type(), want) {
				if !w.dynTypes(x.Val, seen, out) {
					return false
				}
				continue
			}
			switch src := x.Val.(type) {
			case *ssa.Const:
			case *ssa.UnOp:
				// a copy of another variable
				root, ok := w.localRoot(src.X)
				if !ok {
					return false
				}
				if !seen[root] {
					seen[root] = true
					if !w.storedTypes(root, want, seen, out) {
						return false
					}
				}
			default:
				if hasIface(src.Type()) {
					return false
				}
			}
		case *ssa.UnOp:
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
			if !w.storedTypes(x.(ssa.Value), want, seen, out) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func hasIface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Signature, *types.Map, *types.Slice, *types.Chan:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasIface(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasIface(u.Elem())
	}
	return true
}
