package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mode says how a call is treated.
type Mode int

const (
	Auto   Mode = iota // in-module: inline; external: table
	Inline             // force
	Pure               // opaque, result determined by the contents of its arguments
	Impure             // opaque, an event
)

// Outcome of a call.
type Outcome struct {
	Kind string // ret, panic, exit
	St   *State
	Res  []*Term
	Code *Term
	Site ssa.Instruction
	Ctx  *Ctx
}

// Obligation is a potential run-time panic.
type Obligation struct {
	Kind  string // index, slice, nil, assert, panic, div, mapnil
	Instr ssa.Instruction
	Fn    *ssa.Function
	Ctx   *Ctx
	OK    bool
	Desc  string
	St    *State
	T     *Term // what may be nil
}

// Run is one analysis: configuration and hooks.
type Run struct {
	W         *World
	Frozen    *Frozen
	Policy    func(f *ssa.Function, ctx *Ctx) Mode
	PolicyObj func(f *types.Func) Mode // interface methods
	OnOblig   func(o Obligation)
	OnStore   func(st *State, addr, val *Term, site ssa.Instruction, ctx *Ctx)
	OnEvent   func(st *State, e *Event)
	Merge     bool
	Keep      map[string]bool // opaque calls that write nothing through their arguments
	MaxSteps  int
	MaxDepth  int
	NoUnroll  bool
	MaxUnroll int // loops of more rounds are summarised
	Undecided []string
	Intercept func(st *State, callee string, args []*Term, site ssa.Instruction, ctx *Ctx) ([]*Term, bool)
	steps     int
	quiet     int
	Funcs     map[*ssa.Function]bool
	Calls     int
	Branches  int
	Loops     int
	OnLoop    func(l *LoopInfo)                         // a loop has been summarised
	OnUnroll  func(fn *ssa.Function, h *ssa.BasicBlock) // a loop has been unrolled to its end
}

func (r *Run) undecided(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, x := range r.Undecided {
		if x == m {
			return
		}
	}
	r.Undecided = append(r.Undecided, m)
}

type stopErr struct{ msg string }

type frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	free   []*Term
	loops  *loopTree
	params []*Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	site ssa.Instruction
	st   *State
}

// env: values of SSA registers plus the deferred calls of the frame.
type env struct {
	v      map[ssa.Value]*Term
	defers []deferred
}

func (e *env) clone() *env {
	n := &env{v: make(map[ssa.Value]*Term, len(e.v)+8), defers: e.defers[:len(e.defers):len(e.defers)]}
	for k, v := range e.v {
		n.v[k] = v
	}
	return n
}

type cont struct {
	kind  string // back, leave, ret, panic, exit
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	env   *env
	st    *State
	res   []*Term
	code  *Term
	site  ssa.Instruction
	ctx   *Ctx
}

// NewState returns an empty state.
func (r *Run) NewState() *State {
	return &State{mem: map[*Term]*Term{}, F: newFacts(), maps: map[*Term]*MapVal{}, cnt: map[string]int{}, run: r}
}

// Analyze runs fn on symbolic parameters; setup may adjust the entry state.
func (r *Run) Analyze(fn *ssa.Function, setup func(st *State, params []*Term) *State) (outs []Outcome, params []*Term) {
	if r.MaxSteps == 0 {
		r.MaxSteps = 3000000
	}
	if r.MaxDepth == 0 {
		r.MaxDepth = 24
	}
	if r.Funcs == nil {
		r.Funcs = map[*ssa.Function]bool{}
	}
	st := r.NewState()
	for _, p := range fn.Params {
		params = append(params, ParamTerm(p.Name(), p.Type()))
	}
	if setup != nil {
		st = setup(st, params)
	}
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(stopErr); ok {
				r.undecided("%s: %s", ShortName(fn), s.msg)
				return
			}
			panic(x)
		}
	}()
	outs = r.call(st, fn, params, nil, &Ctx{Fn: fn})
	return outs, params
}

// ParamTerm: struct-valued parameters are the content of a pseudo address, so
// that value and pointer receivers look alike.
func ParamTerm(name string, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return Init(Param(name, types.NewPointer(t)), t)
	}
	return Param(name, t)
}

func (r *Run) call(st *State, fn *ssa.Function, args, free []*Term, ctx *Ctx) []Outcome {
	if len(fn.Blocks) == 0 {
		r.undecided("no body: %s", FnName(fn))
		return nil
	}
	r.Funcs[fn] = true
	r.Calls++
	fr := &frame{fn: fn, ctx: ctx, free: free, loops: r.W.loopsOf(fn), params: args}
	e := &env{v: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			e.v[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			e.v[p] = free[i]
		}
	}
	entry := st.Ev
	nalloc := len(st.alloc)
	conts := r.region(fr, nil, fn.Blocks[0], nil, e, st)
	var outs []Outcome
	for _, c := range conts {
		switch c.kind {
		case "ret":
			outs = append(outs, Outcome{Kind: "ret", St: c.st, Res: c.res, Site: c.site, Ctx: c.ctx})
		case "panic", "exit":
			outs = append(outs, Outcome{Kind: c.kind, St: c.st, Code: c.code, Site: c.site, Ctx: c.ctx})
		default:
			r.undecided("%s: control left the function body", FnName(fn))
		}
	}
	if r.Merge && ctx.Up != nil {
		outs = mergeOutcomes(outs, entry, nalloc)
	}
	return outs
}

func (r *Run) tick() {
	r.steps++
	if r.steps > r.MaxSteps {
		panic(stopErr{"state budget exceeded"})
	}
}

// region executes from block `start` until control returns, leaves loop L or
// comes back to its header.
func (r *Run) region(fr *frame, L *loop, start, prev *ssa.BasicBlock, e *env, st *State) []cont {
	var out []cont
	type item struct {
		b, prev *ssa.BasicBlock
		e       *env
		st      *State
	}
	work := []item{{start, prev, e, st}}
	first := true
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		r.tick()
		if !(first && L != nil && it.b == L.header) {
			if L != nil && it.b == L.header {
				out = append(out, cont{kind: "back", block: it.b, prev: it.prev, env: it.e, st: it.st})
				continue
			}
			if L != nil && !L.body[it.b] {
				out = append(out, cont{kind: "leave", block: it.b, prev: it.prev, env: it.e, st: it.st})
				continue
			}
			if M := fr.loops.byHeader[it.b]; M != nil && M != L {
				for _, c := range r.loop(fr, M, it.prev, it.e, it.st) {
					if c.kind == "leave" {
						work = append(work, item{c.block, c.prev, c.env, c.st})
					} else {
						out = append(out, c)
					}
				}
				first = false
				continue
			}
		}
		isFirst := first
		first = false
		_ = isFirst
		// phis (the header's phis of a loop are set by the caller)
		if !(L != nil && it.b == L.header) {
			r.phis(it.b, it.prev, it.e, nil)
		}
		ex := r.block(fr, it.b, it.e, it.st)
		for i := len(ex) - 1; i >= 0; i-- {
			c := ex[i]
			if c.kind == "goto" {
				work = append(work, item{c.block, it.b, c.env, c.st})
			} else {
				out = append(out, c)
			}
		}
	}
	return out
}

func (r *Run) phis(b, prev *ssa.BasicBlock, e *env, override map[*ssa.Phi]*Term) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := override[p]; ok {
			vals[p] = t
		} else {
			vals[p] = r.val(e, p.Edges[idx])
		}
	}
	for p, v := range vals {
		e.v[p] = v
	}
}

func (r *Run) val(e *env, v ssa.Value) *Term {
	if t, ok := e.v[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.IsNil() {
				return Nil
			}
			return Zero(v.Type())
		}
		return Const(v.Value, v.Type())
	case *ssa.Global:
		return Global(v)
	case *ssa.Function:
		return FuncT(v)
	case *ssa.Builtin:
		return mk(Term{K: KFunc, Obj: v, S: v.Name()})
	}
	return mk(Term{K: KParam, S: fmt.Sprintf("?%s", v.Name()), Typ: v.Type()})
}

// block executes the instructions of b; the result are conts of kind goto,
// ret, panic or exit.
func (r *Run) block(fr *frame, b *ssa.BasicBlock, e *env, st *State) []cont {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return r.instrs(fr, b, i, e, st)
}

func (r *Run) instrs(fr *frame, b *ssa.BasicBlock, i int, e *env, st *State) []cont {
	for ; i < len(b.Instrs); i++ {
		r.tick()
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := r.val(e, x.Cond)
			var out []cont
			ts, fs := st.Assume(c, true), st.Assume(c, false)
			if len(ts) > 0 && len(fs) > 0 {
				r.Branches++
			}
			n := len(ts) + len(fs)
			for _, s := range ts {
				ee, ss := e, s
				if n > 1 {
					ee = e.clone()
				}
				if ss == st && n > 1 {
					ss = st.Clone()
				}
				out = append(out, cont{kind: "goto", block: b.Succs[0], env: ee, st: ss})
			}
			for _, s := range fs {
				ee, ss := e, s
				if n > 1 {
					ee = e.clone()
				}
				if ss == st && n > 1 {
					ss = st.Clone()
				}
				out = append(out, cont{kind: "goto", block: b.Succs[1], env: ee, st: ss})
			}
			return out
		case *ssa.Jump:
			return []cont{{kind: "goto", block: b.Succs[0], env: e, st: st}}
		case *ssa.Return:
			var res []*Term
			for _, v := range x.Results {
				res = append(res, r.val(e, v))
			}
			return []cont{{kind: "ret", st: st, res: res, site: x, ctx: fr.ctx}}
		case *ssa.Panic:
			r.oblig(fr, st, "panic", x, false, "explicit panic")
			return []cont{{kind: "panic", st: st, code: r.val(e, x.X), site: x, ctx: fr.ctx}}
		case *ssa.RunDefers:
			outs := r.runDefers(fr, e, st)
			if len(outs) == 1 && outs[0].kind == "" {
				st = outs[0].st
				e.defers = nil
				continue
			}
			var all []cont
			for k, o := range outs {
				if o.kind != "" {
					all = append(all, o)
					continue
				}
				ee := e
				if k < len(outs)-1 {
					ee = e.clone()
				}
				ee.defers = nil
				all = append(all, r.instrs(fr, b, i+1, ee, o.st)...)
			}
			return all
		case *ssa.Defer:
			fnv, args := r.callArgs(e, &x.Call)
			e.defers = append(e.defers, deferred{call: &x.Call, fn: fnv, args: args, site: x})
		case *ssa.Go:
			fnv, args := r.callArgs(e, &x.Call)
			ev := st.push(Event{Kind: "go", Callee: r.calleeName(&x.Call, fnv), Args: args, Site: x, Fn: fr.fn, Ctx: fr.ctx, St: nil})
			r.fire(st, ev)
		case *ssa.Call:
			outs := r.doCall(fr, e, st, x, &x.Call)
			if len(outs) == 1 && outs[0].Kind == "ret" {
				st = outs[0].St
				e.v[x] = retTerm(outs[0].Res, x.Type())
				continue
			}
			var all []cont
			for k, o := range outs {
				if o.Kind != "ret" {
					all = append(all, cont{kind: o.Kind, st: o.St, code: o.Code, site: o.Site, ctx: o.Ctx})
					continue
				}
				ee := e
				if k < len(outs)-1 {
					ee = e.clone()
				}
				ee.v[x] = retTerm(o.Res, x.Type())
				all = append(all, r.instrs(fr, b, i+1, ee, o.St)...)
			}
			return all
		case *ssa.Lookup:
			sts := r.lookup(fr, e, st, x)
			if len(sts) == 1 {
				st = sts[0].st
				e.v[x] = sts[0].v
				continue
			}
			var all []cont
			for k, o := range sts {
				ee := e
				if k < len(sts)-1 {
					ee = e.clone()
				}
				ee.v[x] = o.v
				all = append(all, r.instrs(fr, b, i+1, ee, o.st)...)
			}
			return all
		default:
			r.step(fr, e, st, in)
		}
	}
	r.undecided("%s: block without terminator", FnName(fr.fn))
	return nil
}

func retTerm(res []*Term, t types.Type) *Term {
	switch len(res) {
	case 0:
		return None
	case 1:
		return res[0]
	}
	return mk(Term{K: KTuple, Args: res, Typ: t})
}

func (r *Run) oblig(fr *frame, st *State, kind string, in ssa.Instruction, ok bool, desc string) {
	if r.quiet > 0 || r.OnOblig == nil {
		return
	}
	r.OnOblig(Obligation{Kind: kind, Instr: in, Fn: fr.fn, Ctx: fr.ctx, OK: ok, Desc: desc, St: st})
}

func (r *Run) fire(st *State, ev *Event) {
	if r.quiet == 0 && r.OnEvent != nil {
		r.OnEvent(st, ev)
	}
}

// nonNil: obligation that a pointer is not nil.
func (r *Run) nonNil(fr *frame, st *State, p *Term, in ssa.Instruction, what string) {
	if r.quiet > 0 || r.OnOblig == nil {
		return
	}
	ok := r.assumedNonNil(st, p)
	r.OnOblig(Obligation{Kind: "nil", Instr: in, Fn: fr.fn, Ctx: fr.ctx, OK: ok, Desc: what + " " + p.String() + " may be nil", St: st, T: p})
}

// NonNil: the facts of a state, or what is assumed of objects handed in, rule
// nil out.
func (r *Run) NonNil(st *State, p *Term) bool { return r.assumedNonNil(st, p) }

func (r *Run) assumedNonNil(st *State, p *Term) bool {
	if st.F.IsNil(p) == 1 {
		return false
	}
	if st.F.IsNil(p) == -1 {
		return true
	}
	if p.K == KInit && p.Args[0].K == KGlobal {
		// other packages' variables: os.Stdin and the like
		if g, ok := p.Args[0].Obj.(*ssa.Global); ok && g.Pkg != nil && !r.W.InModulePkg(g.Pkg.Pkg) {
			return true
		}
	}
	switch p.K {
	case KParam, KFree:
		return true // objects handed in are non-nil
	case KAssert:
		// interface values hold non-nil pointers
		return st.F.Eval(normIs(p.Args[0], p.Typ)) == 1
	case KEvent, KCall:
		return r.assumedNonNil2(p)
	}
	return false
}

func (r *Run) assumedNonNil2(p *Term) bool { return NonNilResult(p) }

func (r *Run) step(fr *frame, e *env, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		key := fmt.Sprintf("A%p%s", x, fr.ctx.key())
		n := st.fresh(key)
		t := mk(Term{K: KAlloc, S: x.Comment, I: n, Obj: siteKey{x, fr.ctx.key()}.String(), Typ: x.Type(), Site: x})
		st.alloc = append(st.alloc, t)
		e.v[x] = t
	case *ssa.Store:
		a, v := r.val(e, x.Addr), r.val(e, x.Val)
		r.nonNil(fr, st, a, x, "store through")
		st.Store(a, v)
		if r.quiet == 0 && r.OnStore != nil {
			r.OnStore(st, a, v, x, fr.ctx)
		}
	case *ssa.UnOp:
		v := r.val(e, x.X)
		switch x.Op {
		case token.MUL:
			r.nonNil(fr, st, v, x, "read through")
			e.v[x] = st.Load(v, x.Type())
		case token.NOT:
			e.v[x] = Not(v)
		case token.SUB, token.XOR:
			if v.K == KConst && x.Op == token.SUB {
				e.v[x] = Const(constant.UnaryOp(token.SUB, v.C, 0), x.Type())
			} else {
				e.v[x] = mk(Term{K: KUn, Op: x.Op, Args: []*Term{v}, Typ: x.Type()})
			}
		case token.ARROW:
			r.undecided("channel receive in %s", FnName(fr.fn))
			e.v[x] = mk(Term{K: KParam, S: "recv", Typ: x.Type()})
		}
	case *ssa.BinOp:
		a, b := r.val(e, x.X), r.val(e, x.Y)
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
			ok := st.F.Eval(Eq(b, Int(0))) == -1
			r.oblig(fr, st, "div", x, ok, "division by "+b.String())
		}
		if (x.Op == token.SHL || x.Op == token.SHR) && !isUnsigned(x.Y.Type()) {
			lo, _ := st.F.Range(b)
			r.oblig(fr, st, "shift", x, lo >= 0, "shift by "+b.String())
		}
		e.v[x] = normBool(Bin(x.Op, a, b, x.Type()))
	case *ssa.FieldAddr:
		b := r.val(e, x.X)
		r.nonNil(fr, st, b, x, "field "+fieldOfType(x.X.Type(), x.Field)+" of")
		if b.K == KConst || b.K == KNil {
			b = mk(Term{K: KParam, S: "nilptr", Typ: x.X.Type()})
		}
		e.v[x] = FieldAddr(b, x.Field, x.Type())
	case *ssa.Field:
		e.v[x] = FieldOf(r.val(e, x.X), x.Field, x.Type())
	case *ssa.IndexAddr:
		b, i := r.val(e, x.X), r.val(e, x.Index)
		var l *Term
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			r.nonNil(fr, st, b, x, "array")
			l = Int(p.Elem().Underlying().(*types.Array).Len())
		} else {
			l = LenOf(b)
		}
		ok := st.F.LE(Int(0), i, 0) == 1 && st.F.LE(i, l, -1) == 1
		r.oblig(fr, st, "index", x, ok, fmt.Sprintf("index %s of %s", i, b))
		e.v[x] = ElemAddr(b, i, x.Type())
	case *ssa.Index:
		b, i := r.val(e, x.X), r.val(e, x.Index)
		var l *Term
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			l = Int(at.Len())
		} else {
			l = LenOf(b)
		}
		ok := st.F.LE(Int(0), i, 0) == 1 && st.F.LE(i, l, -1) == 1
		r.oblig(fr, st, "index", x, ok, fmt.Sprintf("index %s of %s", i, b))
		e.v[x] = ElemOf(b, i, x.Type())
	case *ssa.Slice:
		e.v[x] = r.slice(fr, e, st, x)
	case *ssa.Convert, *ssa.ChangeType:
		var v ssa.Value
		var t types.Type
		switch y := in.(type) {
		case *ssa.Convert:
			v, t = y.X, y.Type()
		case *ssa.ChangeType:
			v, t = y.X, y.Type()
		}
		e.v[in.(ssa.Value)] = r.convert(st, r.val(e, v), v.Type(), t)
	case *ssa.ChangeInterface:
		e.v[x] = r.val(e, x.X)
	case *ssa.MakeInterface:
		v := r.val(e, x.X)
		e.v[x] = Iface(x.X.Type(), v)
	case *ssa.MakeClosure:
		var args []*Term
		for _, b := range x.Bindings {
			args = append(args, r.val(e, b))
		}
		e.v[x] = mk(Term{K: KClosure, Obj: x.Fn.(*ssa.Function), Args: args, Typ: x.Type()})
	case *ssa.MakeMap:
		n := st.fresh(fmt.Sprintf("M%p%s", x, fr.ctx.key()))
		t := mk(Term{K: KMap, I: n, Obj: siteKey{x, fr.ctx.key()}.String(), Typ: x.Type(), Site: x})
		st.maps[t] = &MapVal{}
		e.v[x] = t
	case *ssa.MakeSlice:
		n := st.fresh(fmt.Sprintf("S%p%s", x, fr.ctx.key()))
		l := r.val(e, x.Len)
		et := x.Type().Underlying().(*types.Slice).Elem()
		var bt types.Type = x.Type()
		if v, ok := l.IntVal(); ok {
			bt = types.NewPointer(types.NewArray(et, v))
		}
		base := mk(Term{K: KAlloc, S: "makeslice", I: n, Obj: siteKey{x, fr.ctx.key()}.String(), Typ: bt, Site: x})
		st.alloc = append(st.alloc, base)
		if _, ok := l.IntVal(); !ok {
			lo, _ := st.F.Range(l)
			r.oblig(fr, st, "slice", x, lo >= 0, "make with length "+l.String())
		}
		e.v[x] = mk(Term{K: KSlice, Args: []*Term{base, Int(0), l}, Typ: x.Type()})
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		r.undecided("channel operation in %s", FnName(fr.fn))
		if v, ok := in.(ssa.Value); ok {
			e.v[v] = mk(Term{K: KParam, S: "chan", Typ: v.Type()})
		}
	case *ssa.MapUpdate:
		m, k, v := r.val(e, x.Map), r.val(e, x.Key), r.val(e, x.Value)
		if mv, ok := st.maps[m]; ok {
			// the latest entry counts where keys coincide
			nm := &MapVal{Unknown: mv.Unknown}
			plain, at := k.K == KConst, -1
			for i := range mv.Entries {
				plain = plain && mv.Entries[i].K.K == KConst
				if mv.Entries[i].K == k {
					at = i
				}
			}
			for i := range mv.Entries {
				switch {
				case i != at:
					nm.Entries = append(nm.Entries, mv.Entries[i])
				case plain:
					nm.Entries = append(nm.Entries, MapEntry{k, v})
				}
			}
			if at < 0 || !plain {
				nm.Entries = append(nm.Entries, MapEntry{k, v})
			}
			st.maps[m] = nm
		} else {
			ok := st.F.IsNil(m) == -1
			r.oblig(fr, st, "mapnil", x, ok, "write to possibly nil map "+m.String())
			if r.quiet == 0 && r.OnStore != nil {
				r.OnStore(st, mk(Term{K: KElem, Args: []*Term{m, k}}), v, x, fr.ctx)
			}
			if mv := st.MapOf(m); mv != nil {
				st.maps[m] = &MapVal{Unknown: true}
			}
		}
	case *ssa.Extract:
		e.v[x] = Extract(r.val(e, x.Tuple), x.Index, x.Type())
	case *ssa.TypeAssert:
		v := r.val(e, x.X)
		is := normIs(v, x.AssertedType)
		var res *Term
		switch {
		case v.K == KIface && types.Identical(v.Typ2, x.AssertedType):
			res = v.Args[0]
		case types.IsInterface(x.AssertedType):
			res = v
		default:
			res = Assert(v, x.AssertedType)
		}
		// facts of the interface value carry over
		if x.CommaOk {
			switch st.F.Eval(is) {
			case 1:
				is = True
			case -1:
				is = False
				res = Zero(x.AssertedType)
			}
			e.v[x] = mk(Term{K: KTuple, Args: []*Term{res, is}, Typ: x.Type()})
		} else {
			r.oblig(fr, st, "assert", x, st.F.Eval(is) == 1, fmt.Sprintf("%s asserted to %s", v, x.AssertedType))
			for _, f := range st.F.Assume(is, true) {
				st.F = f
				break
			}
			e.v[x] = res
		}
	case *ssa.Range:
		e.v[x] = mk(Term{K: KUn, S: "range", Args: []*Term{r.val(e, x.X)}, Typ: x.X.Type()})
	case *ssa.Next:
		it := r.val(e, x.Iter)
		n := st.fresh(fmt.Sprintf("N%p%s", x, fr.ctx.key()))
		e.v[x] = mk(Term{K: KNext, I: n, Obj: siteKey{x, fr.ctx.key()}.String(), Args: []*Term{it}, Typ: x.Type()})
	default:
		r.undecided("%s: unsupported instruction %T", FnName(fr.fn), in)
		if v, ok := in.(ssa.Value); ok {
			e.v[v] = mk(Term{K: KParam, S: "unsupported", Typ: v.Type()})
		}
	}
}

func normIs(v *Term, T types.Type) *Term {
	return mk(Term{K: KIs, Args: []*Term{v}, Typ2: T, Typ: types.Typ[types.Bool]})
}

// Is builds the condition "dynamic type of v is T".
func Is(v *Term, T types.Type) *Term { return normIs(v, T) }

// Assert is the value of v asserted to the concrete type T.
func Assert(v *Term, T types.Type) *Term {
	return mk(Term{K: KAssert, Args: []*Term{v}, Typ2: T, Typ: T})
}

type siteKey struct {
	in  ssa.Instruction
	ctx string
}

func (s siteKey) String() string { return fmt.Sprintf("%p%s", s.in, s.ctx) }

func fieldOfType(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprint(i)
}

func (r *Run) convert(st *State, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if v.K == KConst {
		if tb, ok := tu.(*types.Basic); ok {
			switch {
			case tb.Info()&types.IsInteger != 0 && v.C.Kind() == constant.Int:
				return Const(v.C, to)
			case tb.Info()&types.IsString != 0 && v.C.Kind() == constant.String:
				return v
			case tb.Info()&types.IsBoolean != 0 && v.C.Kind() == constant.Bool:
				return v
			}
		}
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0, fb.Info()&types.IsBoolean != 0 && tb.Info()&types.IsBoolean != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if intFits(st.F, v, fb, tb) {
				return v
			}
			return mk(Term{K: KConv, Args: []*Term{v}, Typ: to})
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		if _, ok := fu.(*types.Pointer); ok {
			return v // same representation (named pointer conversions)
		}
	}
	if isStrOrBytes(fu) && isStrOrBytes(tu) {
		if v.K == KConv && isStrOrBytes(v.Args[0].TypU()) && types.Identical(v.Args[0].TypU(), tu) {
			return v.Args[0]
		}
		return mk(Term{K: KConv, Args: []*Term{v}, Typ: to})
	}
	return mk(Term{K: KConv, Args: []*Term{v}, Typ: to})
}

func (t *Term) TypU() types.Type {
	if t.K == KConst {
		switch t.C.Kind() {
		case constant.String:
			return types.Typ[types.String]
		}
	}
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ.Underlying()
}

func isStrOrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

var intBits = map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64, types.UntypedInt: 64, types.UntypedRune: 32}

func intFits(f *Facts, v *Term, from, to *types.Basic) bool {
	fu, tu := from.Info()&types.IsUnsigned != 0, to.Info()&types.IsUnsigned != 0
	fb, tb := intBits[from.Kind()], intBits[to.Kind()]
	if fu == tu && fb <= tb {
		return true
	}
	if fu && !tu && fb < tb {
		return true
	}
	lo, hi := f.Range(v)
	if tu {
		if lo < 0 {
			return false
		}
		if fb <= tb { // signed and non-negative
			return true
		}
		return tb >= 62 || hi < int64(1)<<uint(tb)
	}
	if tb >= 62 {
		return hi < inf
	}
	return lo >= -(int64(1)<<uint(tb-1)) && hi < int64(1)<<uint(tb-1)
}

func (r *Run) slice(fr *frame, e *env, st *State, x *ssa.Slice) *Term {
	b := r.val(e, x.X)
	lo, hi := None, None
	if x.Low != nil {
		lo = r.val(e, x.Low)
	}
	if x.High != nil {
		hi = r.val(e, x.High)
	}
	var l *Term
	isArr := false
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		isArr = true
		r.nonNil(fr, st, b, x, "array")
		l = Int(p.Elem().Underlying().(*types.Array).Len())
	} else {
		l = LenOf(b)
	}
	h := hi
	if h.K == KNone {
		h = l
	}
	lw := lo
	if lw.K == KNone {
		lw = Int(0)
	}
	ok := st.F.LE(Int(0), lw, 0) == 1 && st.F.LE(lw, h, 0) == 1 && st.F.LE(h, l, 0) == 1
	if (x.Low != nil || x.High != nil) && !(lo.K == KNone && hi.K == KNone) {
		r.oblig(fr, st, "slice", x, ok, fmt.Sprintf("slice [%s:%s] of %s", lo, hi, b))
	}
	if s, ok := b.StrVal(); ok {
		a, ok1 := lw.IntVal()
		c, ok2 := h.IntVal()
		if ok1 && ok2 && a >= 0 && c >= a && int(c) <= len(s) {
			return Str(s[a:c])
		}
	}
	if !isArr && isZeroInt(lw) && h == l {
		return b // s[:] and s[0:len(s)]
	}
	if b.K == KSlice && b.Args[0].K == KAlloc {
		// compose slices of one array
		l0 := b.Args[1]
		if l0.K == KNone {
			l0 = Int(0)
		}
		nlo := Bin(token.ADD, l0, lw, types.Typ[types.Int])
		nhi := Bin(token.ADD, l0, h, types.Typ[types.Int])
		return mk(Term{K: KSlice, Args: []*Term{b.Args[0], nlo, nhi}, Typ: x.Type()})
	}
	if isArr {
		return mk(Term{K: KSlice, Args: []*Term{b, lw, h}, Typ: x.Type()})
	}
	return mk(Term{K: KSlice, Args: []*Term{b, lw, h}, Typ: x.Type()})
}

type lookRes struct {
	st *State
	v  *Term
}

func (r *Run) lookup(fr *frame, e *env, st *State, x *ssa.Lookup) []lookRes {
	m, k := r.val(e, x.X), r.val(e, x.Index)
	if isString(x.X.Type()) {
		ok := st.F.LE(Int(0), k, 0) == 1 && st.F.LE(k, LenOf(m), -1) == 1
		r.oblig(fr, st, "index", x, ok, fmt.Sprintf("index %s of %s", k, m))
		return []lookRes{{st, ElemOf(m, k, x.Type())}}
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	ret := func(v, ok *Term) *Term {
		if x.CommaOk {
			return mk(Term{K: KTuple, Args: []*Term{v, ok}, Typ: x.Type()})
		}
		return v
	}
	mv := st.MapOf(m)
	v := mk(Term{K: KLookup, Args: []*Term{m, k}, Typ: vt})
	okT := mk(Term{K: KMapOk, Args: []*Term{m, k}, Typ: types.Typ[types.Bool]})
	if m.K == KNil {
		return []lookRes{{st, ret(Zero(vt), False)}}
	}
	if mv != nil {
		var out []lookRes
		rest := []*State{st}
		kc := st.F.ConstOf(k)
		if kc == nil && len(mv.Entries) > 32 {
			// too many to tell apart
			for _, en := range mv.Entries {
				if st.F.Eval(Eq(k, en.K)) != -1 {
					return []lookRes{{st, ret(v, okT)}}
				}
			}
		}
		for i := len(mv.Entries) - 1; i >= 0; i-- {
			en := mv.Entries[i]
			if kc != nil && (en.K == kc || sameConst(en.K, kc)) || en.K == k {
				for _, s := range rest {
					out = append(out, lookRes{s, ret(en.V, True)})
				}
				return out
			}
			if kc != nil && en.K.K == KConst || st.F.Eval(Eq(k, en.K)) == -1 {
				continue
			}
			var nr []*State
			for _, s := range rest {
				for _, s2 := range s.Assume(Eq(k, en.K), true) {
					out = append(out, lookRes{s2.Clone(), ret(en.V, True)})
				}
				nr = append(nr, s.Assume(Eq(k, en.K), false)...)
			}
			rest = nr
		}
		base := ret(Zero(vt), False)
		if mv.Unknown {
			base = ret(v, okT)
		}
		if len(out) == 0 {
			return []lookRes{{st, base}}
		}
		for _, s := range rest {
			out = append(out, lookRes{s.Clone(), base})
		}
		return out
	}
	return []lookRes{{st, ret(v, okT)}}
}

func sameConst(a, b *Term) bool {
	return a.K == KConst && b.K == KConst && a.C.Kind() == b.C.Kind() && constant.Compare(a.C, token.EQL, b.C)
}

func (r *Run) callArgs(e *env, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fnv := r.val(e, c.Value)
	if c.IsInvoke() {
		args = append(args, fnv)
	}
	for _, a := range c.Args {
		args = append(args, r.val(e, a))
	}
	return fnv, args
}

func (r *Run) calleeName(c *ssa.CallCommon, fnv *Term) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	return fnv.CalleeName()
}

func (r *Run) runDefers(fr *frame, e *env, st *State) []cont {
	sts := []cont{{st: st}}
	for i := len(e.defers) - 1; i >= 0; i-- {
		d := e.defers[i]
		var nx []cont
		for _, c := range sts {
			if c.kind != "" {
				nx = append(nx, c)
				continue
			}
			for _, o := range r.dispatch(fr, c.st, d.site, d.call, d.fn, d.args, true) {
				if o.Kind == "ret" {
					nx = append(nx, cont{st: o.St})
				} else {
					nx = append(nx, cont{kind: o.Kind, st: o.St, code: o.Code, site: o.Site, ctx: o.Ctx})
				}
			}
		}
		sts = nx
	}
	return sts
}

func (r *Run) doCall(fr *frame, e *env, st *State, site ssa.Instruction, c *ssa.CallCommon) []Outcome {
	fnv, args := r.callArgs(e, c)
	return r.dispatch(fr, st, site, c, fnv, args, false)
}

func (r *Run) dispatch(fr *frame, st *State, site ssa.Instruction, c *ssa.CallCommon, fnv *Term, args []*Term, isDefer bool) []Outcome {
	r.tick()
	sig := c.Signature()
	var rt types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	if c.IsInvoke() {
		recv := args[0]
		if dt := st.F.DynType(recv); dt != nil && !types.IsInterface(dt) {
			if m := r.W.Method(dt, c.Method); m != nil {
				rv := recv
				if recv.K == KIface {
					rv = recv.Args[0]
				} else {
					rv = mk(Term{K: KAssert, Args: []*Term{recv}, Typ2: dt, Typ: dt})
				}
				args = append([]*Term{rv}, args[1:]...)
				return r.callFn(fr, st, site, m, args, nil, rt, isDefer)
			}
		}
		if recv.K != KIface {
			r.nonNil(fr, st, recv, site, "method "+c.Method.Name()+" of")
		}
		mode := Auto
		if r.PolicyObj != nil {
			mode = r.PolicyObj(c.Method)
		}
		if mode == Auto {
			mode = r.ifaceMode(c.Method)
		}
		return r.opaque(fr, st, site, c.Method.FullName(), c.Method, args, rt, mode, isDefer)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return r.builtin(fr, st, site, b, c, args, rt)
	}
	switch fnv.K {
	case KFunc:
		if f, ok := fnv.Obj.(*ssa.Function); ok {
			return r.callFn(fr, st, site, f, args, nil, rt, isDefer)
		}
	case KClosure:
		return r.callFn(fr, st, site, fnv.Obj.(*ssa.Function), args, fnv.Args, rt, isDefer)
	}
	r.nonNil(fr, st, fnv, site, "function value")
	return r.opaque(fr, st, site, "dynamic:"+fnv.String(), "dyn"+fmt.Sprint(fnv.ID), append([]*Term{fnv}, args...), rt, Impure, isDefer)
}

func (r *Run) callFn(fr *frame, st *State, site ssa.Instruction, f *ssa.Function, args, free []*Term, rt types.Type, isDefer bool) []Outcome {
	name := FnName(f)
	if r.Intercept != nil {
		if res, ok := r.Intercept(st, name, args, site, fr.ctx); ok {
			return []Outcome{{Kind: "ret", St: st, Res: res}}
		}
	}
	mode := Auto
	if r.Policy != nil {
		mode = r.Policy(f, fr.ctx)
	}
	inMod := r.W.InModule(f)
	if !inMod && len(args) > 0 && f.Signature.Recv() != nil {
		// other packages' methods read what their pointer receivers point at
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			r.nonNil(fr, st, args[0], site, "receiver of "+f.Name())
		}
	}
	if mode == Auto {
		if inMod && len(f.Blocks) > 0 {
			mode = Inline
		}
	}
	if mode == Inline {
		if fr.ctx.has(f) || fr.ctx.D >= r.MaxDepth {
			if fr.ctx.has(f) {
				// recursion: an opaque event
				return r.opaque(fr, st, site, name, f, args, rt, Impure, isDefer)
			}
			r.undecided("inlining depth exceeded at %s", name)
			return r.opaque(fr, st, site, name, f, args, rt, Impure, isDefer)
		}
		outs := r.call(st, f, args, free, &Ctx{Fn: f, Site: site, Up: fr.ctx, D: fr.ctx.D + 1})
		return outs
	}
	if mode == Auto {
		if res, out, ok := r.model(fr, st, site, name, f, args, rt); ok {
			if out != nil {
				return out
			}
			return []Outcome{{Kind: "ret", St: st, Res: res}}
		}
		if IsPure(name) {
			mode = Pure
		} else {
			mode = Impure
		}
	}
	return r.opaque(fr, st, site, name, f, args, rt, mode, isDefer)
}

// opaque calls a function that is not analysed.
func (r *Run) opaque(fr *frame, st *State, site ssa.Instruction, name string, obj any, args []*Term, rt types.Type, mode Mode, isDefer bool) []Outcome {
	split := func(res *Term) []*Term {
		if tup, ok := rt.(*types.Tuple); ok {
			if tup.Len() == 0 {
				return nil
			}
			var xs []*Term
			for i := 0; i < tup.Len(); i++ {
				xs = append(xs, Extract(res, i, tup.At(i).Type()))
			}
			return xs
		}
		return []*Term{res}
	}
	if mode == Pure {
		cargs := make([]*Term, len(args))
		for i, a := range args {
			cargs[i] = st.Content(a)
		}
		res := fold(name, obj, cargs, rt)
		return []Outcome{{Kind: "ret", St: st, Res: split(res)}}
	}
	n := st.fresh(fmt.Sprintf("E%p%s", site, fr.ctx.key()))
	res := mk(Term{K: KEvent, S: name, I: n, Obj: siteKey{site, fr.ctx.key()}.String() + "|" + name, Typ: rt, Site: site})
	res.S = name
	cargs := make([]*Term, len(args))
	for i, a := range args {
		cargs[i] = st.Content(a)
	}
	snap := st.Clone()
	ev := st.push(Event{Kind: "call", Callee: name, Obj: obj, Args: args, Cont: cargs, Result: res, Site: site, Fn: fr.fn, Ctx: fr.ctx, St: snap, Defer: isDefer})
	r.havoc(st, name, res, args)
	r.fire(st, ev)
	return []Outcome{{Kind: "ret", St: st, Res: split(res)}}
}

// havoc forgets what an opaque call may have written through its arguments.
func (r *Run) havoc(st *State, name string, res *Term, args []*Term) {
	if NoHavoc[name] || r.Keep[name] {
		return
	}
	for i, a := range args {
		v := a
		if v.K == KIface {
			v = v.Args[0]
		}
		if v.Typ == nil {
			continue
		}
		switch u := v.Typ.Underlying().(type) {
		case *types.Pointer:
			switch v.K {
			case KAlloc, KField, KElem, KParam, KInit, KGlobal, KAssert, KLoop, KExtract:
			default:
				continue
			}
			if keepsContents(u.Elem(), name) || a.K == KIface && readsOnly(name) && r.W.keepsItself(u.Elem()) {
				continue
			}
			out := mk(Term{K: KOut, I: i, Args: []*Term{res}, Typ: u.Elem()})
			st.Store(v, out)
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Interface); ok {
				// variadic interface arguments: pointers inside
				c := st.Content(v)
				if c.K == KList && v.K == KSlice {
					base := v.Args[0]
					for j := range c.Args {
						el := st.Load(ElemAddr(base, Int(int64(j)), types.NewPointer(u.Elem())), u.Elem())
						if el.K == KIface && WritesVariadic[name] {
							if p, ok := el.Typ2.Underlying().(*types.Pointer); ok {
								st.Store(el.Args[0], mk(Term{K: KOut, I: 100 + j, Args: []*Term{res}, Typ: p.Elem()}))
							}
						}
					}
				}
				continue
			}
			if v.K == KSlice && v.Args[0].K == KAlloc && FillsSlice[name] {
				var et types.Type = u
				if p, ok := v.Args[0].Typ.Underlying().(*types.Pointer); ok {
					et = p.Elem()
				}
				st.Store(v.Args[0], mk(Term{K: KOut, I: i, Args: []*Term{res}, Typ: et}))
			}
		}
	}
}

// readsOnly: the call does nothing with a reader or writer but call its
// methods.
func readsOnly(name string) bool {
	return strings.HasPrefix(name, "io.") || strings.HasPrefix(name, "io/ioutil.") || strings.HasPrefix(name, "bufio.")
}

// keepsItself: no method of the type writes to its receiver or hands it on.
func (w *World) keepsItself(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/aclindsa/ofxgo") {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		f := w.Prog.FuncValue(n.Method(i))
		if f == nil || len(f.Blocks) == 0 || len(f.Params) == 0 {
			return false
		}
		if _, ptr := f.Params[0].Type().(*types.Pointer); !ptr {
			continue
		}
		for _, u := range *f.Params[0].Referrers() {
			switch x := u.(type) {
			case *ssa.FieldAddr:
				for _, v := range *x.Referrers() {
					if ld, ok := v.(*ssa.UnOp); !ok || ld.Op != token.MUL {
						if _, dbg := v.(*ssa.DebugRef); !dbg {
							return false
						}
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

// keepsContents: handles of other packages keep the exported fields the
// analysed code has set.
func keepsContents(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if strings.HasPrefix(p.Path(), "github.com/aclindsa/ofxgo") {
		return false
	}
	return p.Path() != "math/big" && p.Path() != "time"
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}
