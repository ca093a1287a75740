package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C08 ----

// noPanicHeavy: functions which are analysed on their own and opaque
// elsewhere; objects handed to them must not be nil there.
func noPanicHeavy(n string) bool {
	switch n {
	case "(*" + libPfx + "Request).Marshal", "(*" + libPfx + "Response).Marshal", "(*" + libPfx + "Response).Valid", "(*" + libPfx + "StatementResponse).Valid", libPfx + "DecodeResponse", libPfx + "ParseResponse":
		return true
	}
	return false
}

func (c *C) panicRules() {
	visited := map[*ssa.Function]bool{}
	p := &noPanic{c: c, listed: map[*types.Named]bool{}, relied: map[heldKey]bool{}, nilStores: map[heldKey][]nilStore{}}
	for _, n := range []string{"Message", "InvTransaction", "Position", "OpenOrder", "Security"} {
		if t, ok := c.W.Type(n).(*types.Named); ok {
			p.listed[t] = true
		} else {
			c.Fail("anchor", n, "", "interface not found")
		}
	}
	p.setNames()
	var later []*ssa.Function
	for _, f := range c.W.Funcs {
		if f.Pkg != c.W.Lib || len(f.Blocks) == 0 || strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil {
			continue
		}
		if f.Object() != nil && f.Object().Exported() {
			p.root(f, visited)
		} else {
			later = append(later, f)
		}
	}
	for _, f := range later { // not called by any of the others
		if !visited[f] {
			p.root(f, visited)
		}
	}
	p.finish()
}

type noPanic struct {
	c      *C
	listed map[*types.Named]bool
	// fields of unexported structures that are relied upon, and stores of
	// something that may be nil
	relied    map[heldKey]bool
	nilStores map[heldKey][]nilStore
}

func (p *noPanic) root(f *ssa.Function, visited map[*ssa.Function]bool) {
	c := p.c
	if f.Synthetic != "" || eng.FnName(f) == "("+libPfx+"messageType).String" {
		return // setNames
	}
	self := eng.FnName(f)
	r := c.Run()
	r.Merge = strings.HasSuffix(self, ").Marshal")
	r.MaxSteps = 20000000
	r.Intercept = symbolicSetName
	r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
		n := eng.FnName(g)
		switch {
		case n == self:
		case noPanicHeavy(n), isSignonValid(n) && r.Merge:
			return eng.Impure
		case g.Signature.Recv() != nil && isSetting(g.Name()):
			return eng.Pure
		}
		return versionOpaque(g, ctx)
	}
	name := eng.ShortName(f)
	r.OnOblig = p.oblig
	r.OnStore = func(st *eng.State, a, v *eng.Term, site ssa.Instruction, ctx *eng.Ctx) { p.store(r, st, a, v, site) }
	r.OnEvent = func(st *eng.State, e *eng.Event) { p.event(r, name, st, e) }
	c.Analyze(r, f, nil)
	for g := range r.Funcs {
		visited[g] = true
	}
}

func (p *noPanic) oblig(o eng.Obligation) {
	c := p.c
	con := eng.ShortName(o.Fn) + ": " + o.Desc
	rule := "no " + o.Kind + " panic"
	if o.OK || p.excused(o) {
		c.OK(rule, con)
		return
	}
	c.Fail(rule, con, c.W.InstrPos(o.Instr), "%s; path: %s", o.Desc, o.St.F.Path())
}

// excused: what may be nil is part of what is handed in, which the property
// takes to be non-nil, or is non-nil for a reason checked or trusted once.
func (p *noPanic) excused(o eng.Obligation) bool {
	return o.Kind == "nil" && o.T != nil && o.St.F.IsNil(o.T) != 1 && p.given(o.T)
}

func (p *noPanic) given(t *eng.Term) bool {
	if t.K != eng.KInit && t.K != eng.KFieldOf {
		return false
	}
	a := t.Args[0]
	field, owner := int(a.I), types.Type(nil)
	switch {
	case t.K == eng.KFieldOf:
		field, owner = int(t.I), a.Typ
	case a.K == eng.KGlobal:
		// an exported variable belongs to the user
		g, ok := a.Obj.(*ssa.Global)
		return ok && g.Object() != nil && g.Object().Exported()
	case a.K == eng.KElem:
		// the elements of lists; those the library makes are checked where
		// they are stored
		e := elemOf(a.Typ)
		return e != nil && p.inLists(e)
	case a.K == eng.KField:
		owner = elemOf(a.Args[0].Typ)
	default:
		return false
	}
	n := namedOf(owner)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || field >= st.NumFields() {
		return false
	}
	f := st.Field(field)
	switch {
	case n.Obj().Pkg() != p.c.W.Lib.Pkg:
		// documented by net/http
		return n.Obj().Pkg().Path() == "net/http" && (f.Name() == "Body" || f.Name() == "URL")
	case n.Obj().Exported():
		// a client within a client
		if _, ptr := f.Type().(*types.Pointer); ptr && f.Anonymous() {
			b := namedOf(f.Type())
			return b != nil && b.Obj().Pkg() == p.c.W.Lib.Pkg
		}
		return false
	}
	// a structure only the library makes: checked where it is made
	p.relied[heldKey{n, field}] = true
	return true
}

type heldKey struct {
	n *types.Named
	i int
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if q, ok := t.Underlying().(*types.Pointer); ok {
		return q.Elem()
	}
	return nil
}

// inLists: lists of such values hold no nil, by what is handed in or because
// every element the library puts there is checked.
func (p *noPanic) inLists(t types.Type) bool {
	if n := namedOf(t); n != nil && (p.listed[n] || n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "crypto/")) {
		return true
	}
	return types.Identical(t, errType)
}

func (p *noPanic) store(r *eng.Run, st *eng.State, a, v *eng.Term, site ssa.Instruction) {
	fine := func() bool { return r.NonNil(st, v) || st.F.IsNil(v) != 1 && p.given(v) }
	switch {
	case a.K == eng.KElem:
		if e := elemOf(a.Typ); e != nil && p.inLists(e) {
			con := eng.ShortName(site.Parent()) + ": " + types.TypeString(e, func(*types.Package) string { return "" })
			p.c.Check(fine(), "no nil element is put in a list", con, p.c.W.InstrPos(site), "%s may be nil; path: %s", v, st.F.Path())
		}
	case a.K == eng.KField:
		n := namedOf(elemOf(a.Args[0].Typ))
		if n == nil || n.Obj().Pkg() != p.c.W.Lib.Pkg || n.Obj().Exported() {
			return
		}
		if !fine() {
			p.nilStores[heldKey{n, int(a.I)}] = append(p.nilStores[heldKey{n, int(a.I)}], nilStore{v, site, st.F.Path()})
		}
	}
}

type nilStore struct {
	v    *eng.Term
	site ssa.Instruction
	path string
}

func (p *noPanic) event(r *eng.Run, root string, st *eng.State, e *eng.Event) {
	if e.Kind != "call" {
		return
	}
	con := root + " calls " + e.Callee
	if e.Callee == "reflect.New" {
		p.c.Check(st.F.IsNil(e.Args[0]) == -1, "no call that may panic", con, p.c.W.InstrPos(e.Site), "%s may be nil; path: %s", e.Args[0], st.F.Path())
	}
	if f, ok := e.Obj.(*ssa.Function); ok && noPanicHeavy(eng.FnName(f)) {
		for i, a := range e.Args {
			if i < len(f.Params) && nillable(f.Params[i].Type()) {
				p.c.Check(r.NonNil(st, a) || p.given(a), "nothing nil is handed on", con, p.c.W.InstrPos(e.Site), "%s may be nil; path: %s", a, st.F.Path())
			}
		}
	}
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// setNames: the text of a message set is a panic for other values than the
// declared ones, so there must be no others.
func (p *noPanic) setNames() {
	c := p.c
	mt := c.W.Type("messageType")
	f := c.Lib("messageType.String")
	if mt == nil || f == nil {
		return
	}
	consts := constsOf(c.W, mt)
	for _, n := range sortedKeys(consts) {
		r := c.Run()
		r.OnOblig = func(o eng.Obligation) {
			c.Check(o.OK, "every message set has a name", n, c.W.InstrPos(o.Instr), "%s", o.Desc)
		}
		outs, _ := c.Analyze(r, f, func(st *eng.State, ps []*eng.Term) *eng.State {
			return firstState(st.Assume(eng.Eq(ps[0], eng.Int(consts[n])), true))
		})
		c.Check(len(outs) > 0, "every message set has a name", n, "", "no path")
		for i := range outs {
			c.Check(outs[i].Kind == "ret", "every message set has a name", n, c.W.InstrPos(outs[i].Site), "panics")
		}
	}
	for _, g := range c.W.Funcs {
		if g.Pkg != c.W.Lib {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !types.Identical(v.Type(), mt) {
					continue
				}
				switch x := in.(type) {
				case *ssa.BinOp:
					c.Fail("no other message sets", eng.ShortName(g), c.W.InstrPos(in), "a message set is computed")
				case *ssa.Convert:
					_, k := x.X.(*ssa.Const)
					c.Check(k, "no other message sets", eng.ShortName(g), c.W.InstrPos(in), "%s becomes a message set", x.X.Name())
				case *ssa.ChangeType:
					_, k := x.X.(*ssa.Const)
					c.Check(k, "no other message sets", eng.ShortName(g), c.W.InstrPos(in), "%s becomes a message set", x.X.Name())
				}
			}
		}
	}
	// constants outside the declared ones
	vals := map[int64]bool{}
	for _, v := range consts {
		vals[v] = true
	}
	for _, g := range c.W.Funcs {
		if g.Pkg != c.W.Lib {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && types.Identical(k.Type(), mt) {
						if _, cmp := in.(*ssa.BinOp); !cmp {
							c.Check(vals[k.Int64()], "no other message sets", eng.ShortName(g), c.W.InstrPos(in), "%s is no declared message set", k)
						}
					}
				}
			}
		}
	}
}

// finish: the structures only the library makes hold what is relied upon.
func (p *noPanic) finish() {
	c := p.c
	for k := range p.relied {
		st := k.n.Underlying().(*types.Struct)
		con := k.n.Obj().Name() + "." + st.Field(k.i).Name()
		rule := "a field relied upon is never nil"
		for _, s := range p.nilStores[k] {
			c.Fail(rule, con, c.W.InstrPos(s.site), "%s may be nil; path: %s", s.v, s.path)
		}
		made := 0
		for _, f := range c.W.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a, ok := in.(*ssa.Alloc)
					if !ok || !types.Identical(elemOf(a.Type()), k.n) {
						continue
					}
					made++
					c.Check(storesField(a, k.i), rule, con, c.W.InstrPos(in), "%s makes a %s without it", eng.ShortName(f), k.n.Obj().Name())
				}
			}
		}
		c.Check(made > 0, rule, con, c.W.Pos(k.n.Obj().Pos()), "no place where a %s is made was found", k.n.Obj().Name())
	}
	// functions of other modules that panic for some arguments
	for _, f := range c.W.Funcs {
		if f.Pkg != c.W.Lib || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := calleeName(ci.Common())
					c.Check(!mayPanic(ci) || n == "reflect.TypeOf" || n == "reflect.New" || n == "(reflect.Value).Interface", "no call that may panic", eng.ShortName(f), c.W.InstrPos(in), "%s panics for some arguments", n)
				}
			}
		}
	}
}

// storesField: the field of the new structure is set in the same function.
func storesField(a *ssa.Alloc, i int) bool {
	for _, u := range *a.Referrers() {
		if fa, ok := u.(*ssa.FieldAddr); ok && fa.Field == i {
			for _, v := range *fa.Referrers() {
				if s, ok := v.(*ssa.Store); ok && s.Addr == fa {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	reg("C08", 2000, "Every instruction of the library that can panic (nil dereference, index, slice bounds, failed assertion, division, shift, write to a nil map, explicit panic, calls of functions that panic) is an obligation on each path of each exported function and method, unexported helpers inlined; the facts of the path must rule the panic out. Objects handed in are not nil, nor are the elements of lists and the fields listed in DESIGN.md, for which every place that stores one is checked.", (*C).panicRules)
}
