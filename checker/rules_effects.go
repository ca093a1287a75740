package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// The effect analysis: what memory a function of the module may modify, as
// seen by its callers. Every pointer-like value is given the set of roots it
// may have been reached from (a parameter, a package-level variable, memory
// the function made itself); summaries are joined to a fixpoint.

type rootKind int

const (
	rParam rootKind = iota
	rFree
	rGlobal
	rFresh
)

type root struct {
	kind  rootKind
	i     int
	g     *ssa.Global
	alloc ssa.Value
}

type rootSet map[root]bool

func (s rootSet) add(t rootSet) bool {
	n := len(s)
	for r := range t {
		s[r] = true
	}
	return len(s) > n
}

// mod is a modification: memory reached from the root, in the named part.
type mod struct {
	r    root
	what string
	t    types.Type // of the modified memory
}

type modSum struct {
	mods    map[mod]string // where
	rets    []rootSet      // per result
	content map[root]rootSet
	vals    map[ssa.Value]rootSet
	// flows: what a call may store into what its parameters lead to
	flows map[int]rootSet
}

type modAn struct {
	w       *eng.World
	sums    map[*ssa.Function]*modSum
	changed bool
	callees map[ssa.CallInstruction][]*ssa.Function
	binds   map[*ssa.Function][]*ssa.MakeClosure
}

// pointerish: values of the type can lead to memory.
func pointerish(t types.Type) bool { return pointerish1(t, 0) }

func pointerish1(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if pointerish1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerish1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerish1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func newModAn(w *eng.World) *modAn {
	a := &modAn{w: w, sums: map[*ssa.Function]*modSum{}, callees: map[ssa.CallInstruction][]*ssa.Function{}, binds: map[*ssa.Function][]*ssa.MakeClosure{}}
	for _, f := range w.Funcs {
		s := &modSum{mods: map[mod]string{}, content: map[root]rootSet{}, vals: map[ssa.Value]rootSet{}, flows: map[int]rootSet{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s.rets = append(s.rets, rootSet{})
		}
		a.sums[f] = s
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					a.binds[fn] = append(a.binds[fn], mc)
				}
			}
		}
	}
	for a.changed = true; a.changed; {
		a.changed = false
		for _, f := range w.Funcs {
			a.function(f)
		}
	}
	return a
}

// targets: the module's functions a call may reach.
func (a *modAn) targets(ci ssa.CallInstruction) []*ssa.Function {
	if t, ok := a.callees[ci]; ok {
		return t
	}
	cm := ci.Common()
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && a.sums[f] != nil {
			out = append(out, f)
		}
	}
	switch {
	case cm.IsInvoke():
		it, _ := cm.Value.Type().Underlying().(*types.Interface)
		for _, f := range a.w.Funcs {
			if f.Signature.Recv() != nil && f.Name() == cm.Method.Name() && it != nil && types.Implements(f.Signature.Recv().Type(), it) {
				add(f)
			}
		}
	case cm.StaticCallee() != nil:
		add(cm.StaticCallee())
	default:
		if _, ok := cm.Value.(*ssa.Builtin); ok {
			break
		}
		for _, f := range a.w.Funcs {
			if addressTaken(a.w, f) && types.Identical(sigKey(f.Signature), sigKey(cm.Signature())) {
				add(f)
			}
		}
	}
	a.callees[ci] = out
	return out
}

func sigKey(s *types.Signature) types.Type {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

var takenMemo map[*ssa.Function]bool

// addressTaken: the function is used as a value somewhere.
func addressTaken(w *eng.World, f *ssa.Function) bool {
	if takenMemo == nil {
		takenMemo = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var callee *ssa.Value
					if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						callee = &ci.Common().Value
					}
					for _, op := range in.Operands(nil) {
						if op == callee {
							continue
						}
						if h, ok := (*op).(*ssa.Function); ok {
							takenMemo[h] = true
						}
					}
				}
			}
		}
	}
	return takenMemo[f]
}

func (a *modAn) function(f *ssa.Function) {
	s := a.sums[f]
	// the local fixpoint
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a.instr(f, s, in) {
					again, a.changed = true, true
				}
			}
		}
	}
}

func (a *modAn) roots(f *ssa.Function, s *modSum, v ssa.Value) rootSet {
	switch x := v.(type) {
	case *ssa.Parameter:
		if !pointerish(x.Type()) {
			return nil
		}
		for i, p := range f.Params {
			if p == x {
				return rootSet{root{kind: rParam, i: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == x {
				return rootSet{root{kind: rFree, i: i}: true}
			}
		}
	case *ssa.Global:
		return rootSet{root{kind: rGlobal, g: x}: true}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return rootSet{root{kind: rFresh, alloc: v}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	if !pointerish(v.Type()) {
		return nil
	}
	return s.vals[v]
}

// deep is what can be loaded from memory with these roots.
func (s *modSum) deep(rs rootSet) rootSet {
	out := rootSet{}
	seen := rootSet{}
	var walk func(r root)
	walk = func(r root) {
		if r.kind != rFresh {
			out[r] = true
			return
		}
		if seen[r] {
			return
		}
		seen[r] = true
		for q := range s.content[r] {
			if q.kind == rFresh {
				out[q] = true
			} else {
				out[q] = true
			}
		}
	}
	for r := range rs {
		walk(r)
	}
	return out
}

func (s *modSum) set(v ssa.Value, rs rootSet) bool {
	if len(rs) == 0 {
		return false
	}
	if s.vals[v] == nil {
		s.vals[v] = rootSet{}
	}
	return s.vals[v].add(rs)
}

func (s *modSum) put(into, what rootSet) bool {
	ch := false
	for r := range into {
		if r.kind != rFresh || len(what) == 0 {
			continue
		}
		if s.content[r] == nil {
			s.content[r] = rootSet{}
		}
		if s.content[r].add(what) {
			ch = true
		}
	}
	return ch
}

// modify records a modification of memory with the given roots.
func (s *modSum) modify(f *ssa.Function, rs rootSet, what string, t types.Type, where string) bool {
	ch := false
	for r := range rs {
		if r.kind == rFresh {
			continue
		}
		if r.kind == rParam && !typeLeads(f.Params[r.i].Type(), t) || r.kind == rGlobal && !typeLeads(r.g.Type(), t) {
			continue
		}
		m := mod{r, what, t}
		if _, ok := s.mods[m]; !ok {
			s.mods[m] = where
			ch = true
		}
	}
	return ch
}

var leadMemo = map[[2]types.Type]bool{}

// typeLeads: memory of type t can be reached from a value of type from.
func typeLeads(from, t types.Type) bool {
	k := [2]types.Type{from, t}
	if v, ok := leadMemo[k]; ok {
		return v
	}
	seen := map[types.Type]bool{}
	var walk func(x types.Type) bool
	walk = func(x types.Type) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if types.Identical(x, t) || types.Identical(x.Underlying(), t.Underlying()) {
			return true
		}
		switch u := x.Underlying().(type) {
		case *types.Pointer:
			return walk(u.Elem())
		case *types.Slice:
			return walk(u.Elem())
		case *types.Array:
			return walk(u.Elem())
		case *types.Chan:
			return walk(u.Elem())
		case *types.Map:
			return walk(u.Key()) || walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if walk(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Interface, *types.Signature:
			return true
		case *types.Basic:
			return u.Kind() == types.UnsafePointer
		}
		return false
	}
	v := walk(from)
	leadMemo[k] = v
	return v
}

// sharesMemory: a value of the type can hold the address of memory that is
// part of the package variable.
func sharesMemory(w *eng.World, t types.Type, g *ssa.Global) bool {
	var parts []types.Type // the types of the variable's memory
	seen := map[types.Type]bool{}
	var part func(x types.Type)
	part = func(x types.Type) {
		if seen[x] {
			return
		}
		seen[x] = true
		parts = append(parts, x)
		switch u := x.Underlying().(type) {
		case *types.Pointer:
			part(u.Elem())
		case *types.Slice:
			part(u.Elem())
		case *types.Array:
			part(u.Elem())
		case *types.Map:
			part(u)
			part(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				part(u.Field(i).Type())
			}
		}
	}
	part(g.Type().(*types.Pointer).Elem())
	in := func(x types.Type) bool {
		for _, p := range parts {
			if types.Identical(p, x) {
				return true
			}
		}
		return false
	}
	done := map[types.Type]bool{}
	var walk func(x types.Type) bool
	walk = func(x types.Type) bool {
		if done[x] {
			return false
		}
		done[x] = true
		switch u := x.Underlying().(type) {
		case *types.Pointer:
			return in(u.Elem()) || walk(u.Elem())
		case *types.Slice:
			return in(u.Elem()) || walk(u.Elem())
		case *types.Map:
			return in(x) || walk(u.Elem())
		case *types.Array:
			return walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if walk(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Interface:
			n := namedOf(x)
			if n == nil || !w.InModulePkg(n.Obj().Pkg()) {
				return false
			}
			for _, s := range libStructs(w) {
				if types.Implements(s, u) && walk(s) || types.Implements(types.NewPointer(s), u) && (in(s) || walk(s)) {
					return true
				}
			}
		}
		return false
	}
	n := namedOf(t)
	if n == nil || !w.InModulePkg(n.Obj().Pkg()) {
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Map:
			return walk(u)
		}
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && walk(t)
	}
	return walk(t)
}

// objOf is the type of the memory an address denotes a part of.
func objOf(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return x.X.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.MakeInterface:
		return objOf(x.X)
	case *ssa.ChangeType:
		return objOf(x.X)
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return v.Type()
}

// partOf names what an address denotes.
func partOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		return types.TypeString(st, func(*types.Package) string { return "" }) + "." + st.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return partOf(x.X) + "[]"
	case *ssa.UnOp:
		return partOf(x.X)
	case *ssa.Slice:
		return partOf(x.X)
	case *ssa.Global:
		return x.Name()
	case *ssa.MakeInterface:
		return partOf(x.X)
	case *ssa.ChangeType:
		return partOf(x.X)
	case *ssa.Phi:
		if len(x.Edges) > 0 {
			if _, ok := x.Edges[0].(*ssa.Phi); !ok {
				return partOf(x.Edges[0])
			}
		}
	}
	return types.TypeString(v.Type(), func(*types.Package) string { return "" })
}

func (a *modAn) instr(f *ssa.Function, s *modSum, in ssa.Instruction) bool {
	R := func(v ssa.Value) rootSet { return a.roots(f, s, v) }
	where := func() string { return a.w.InstrPos(in) }
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return s.set(x, R(x.X))
	case *ssa.IndexAddr:
		return s.set(x, R(x.X))
	case *ssa.Slice:
		return s.set(x, R(x.X))
	case *ssa.Field:
		return s.set(x, R(x.X))
	case *ssa.Index:
		return s.set(x, R(x.X))
	case *ssa.ChangeType:
		return s.set(x, R(x.X))
	case *ssa.ChangeInterface:
		return s.set(x, R(x.X))
	case *ssa.Convert:
		return s.set(x, R(x.X))
	case *ssa.SliceToArrayPointer:
		return s.set(x, R(x.X))
	case *ssa.MakeInterface:
		return s.set(x, R(x.X))
	case *ssa.TypeAssert:
		return s.set(x, R(x.X))
	case *ssa.Extract:
		return s.set(x, R(x.Tuple))
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			return s.set(x, s.deep(R(x.X)))
		}
	case *ssa.Lookup:
		return s.set(x, s.deep(R(x.X)))
	case *ssa.Range:
		return s.set(x, R(x.X))
	case *ssa.Next:
		return s.set(x, s.deep(R(x.Iter)))
	case *ssa.Phi:
		ch := false
		for _, e := range x.Edges {
			ch = s.set(x, R(e)) || ch
		}
		return ch
	case *ssa.MakeClosure:
		ch := false
		for _, b := range x.Bindings {
			ch = s.set(x, R(b)) || ch
		}
		return ch
	case *ssa.Store:
		rs := R(x.Addr)
		ch := s.modify(f, rs, partOf(x.Addr), objOf(x.Addr), where())
		ch = s.put(rs, R(x.Val)) || ch
		return a.flow(f, s, rs, R(x.Val)) || ch
	case *ssa.MapUpdate:
		rs := R(x.Map)
		ch := s.modify(f, rs, partOf(x.Map)+"[]", objOf(x.Map), where())
		ch = s.put(rs, R(x.Value)) || ch
		return a.flow(f, s, rs, R(x.Value)) || ch
	case *ssa.Send:
		return s.put(R(x.Chan), R(x.X))
	case *ssa.Return:
		ch := false
		for i, r := range x.Results {
			rs := rootSet{}
			rs.add(R(r))
			// what fresh memory holds leaves with it
			for again := true; again; {
				again = rs.add(s.deep(rs))
			}
			ch = s.rets[i].add(rs) || ch
		}
		return ch
	case ssa.CallInstruction:
		return a.call(f, s, x)
	}
	return false
}

// flow notes that what a parameter leads to now leads to something else.
func (a *modAn) flow(f *ssa.Function, s *modSum, into, what rootSet) bool {
	ch := false
	for r := range into {
		if r.kind == rParam && len(what) > 0 {
			if s.flows[r.i] == nil {
				s.flows[r.i] = rootSet{}
			}
			ch = s.flows[r.i].add(what) || ch
		}
	}
	return ch
}

func (a *modAn) call(f *ssa.Function, s *modSum, ci ssa.CallInstruction) bool {
	R := func(v ssa.Value) rootSet { return a.roots(f, s, v) }
	cm := ci.Common()
	ch := false
	var args []ssa.Value
	if cm.IsInvoke() {
		args = append(args, cm.Value)
	}
	args = append(args, cm.Args...)
	where := a.w.InstrPos(ci)
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			ch = s.modify(f, R(args[0]), "spare room of "+partOf(args[0]), objOf(args[0]), where)
			if v := ci.Value(); v != nil {
				rs := rootSet{root{kind: rFresh, alloc: v}: true}
				ch = s.put(rs, s.deep(R(args[1]))) || ch
				ch = s.put(rs, s.deep(R(args[0]))) || ch
				rs.add(R(args[0]))
				ch = s.put(R(args[0]), s.deep(R(args[1]))) || ch
				ch = s.set(v, rs) || ch
			}
		case "copy":
			ch = s.modify(f, R(args[0]), partOf(args[0])+"[]", objOf(args[0]), where)
			ch = s.put(R(args[0]), s.deep(R(args[1]))) || ch
		case "delete", "clear":
			ch = s.modify(f, R(args[0]), partOf(args[0])+"[]", objOf(args[0]), where)
		}
		return ch
	}
	ts := a.targets(ci)
	for _, t := range ts {
		u := a.sums[t]
		// map the callee's roots to ours
		conv := func(r root) rootSet {
			switch r.kind {
			case rParam:
				if r.i < len(args) {
					return R(args[r.i])
				}
			case rFree:
				out := rootSet{}
				for _, mc := range a.binds[t] {
					if mc.Parent() == f {
						out.add(R(mc.Bindings[r.i]))
					} else {
						// bound elsewhere: whatever the closure value leads to
						out.add(R(cm.Value))
					}
				}
				return out
			case rGlobal:
				return rootSet{r: true}
			}
			return nil
		}
		convAll := func(rs rootSet) rootSet {
			out := rootSet{}
			for r := range rs {
				out.add(conv(r))
			}
			return out
		}
		for m, w := range u.mods {
			ch = s.modify(f, conv(m.r), m.what, m.t, w) || ch
		}
		for i, rs := range u.flows {
			if i < len(args) {
				v := convAll(rs)
				ch = s.put(R(args[i]), v) || ch
				ch = a.flow(f, s, R(args[i]), v) || ch
			}
		}
		if v := ci.Value(); v != nil && pointerish(v.Type()) {
			rs := rootSet{}
			fresh := false
			for _, r := range u.rets {
				rs.add(convAll(r))
				for q := range r {
					fresh = fresh || q.kind == rFresh
				}
			}
			if fresh {
				n := root{kind: rFresh, alloc: v}
				ch = s.put(rootSet{n: true}, rs) || ch
				rs[n] = true
			}
			ch = s.set(v, rs) || ch
		}
	}
	inside := cm.IsInvoke() && namedOf(cm.Value.Type()) != nil && a.w.InModulePkg(namedOf(cm.Value.Type()).Obj().Pkg())
	if len(ts) == 0 || cm.IsInvoke() && !inside {
		// outside the module: the result may lead to what the arguments do
		name := calleeName(cm)
		for i, x := range args {
			if outsideMutates(name, cm, i) {
				rs := R(x)
				ch = s.modify(f, rs, partOf(x)+" by "+name, objOf(x), where) || ch
			}
		}
		if v := ci.Value(); v != nil && pointerish(v.Type()) {
			n := root{kind: rFresh, alloc: v}
			rs := rootSet{n: true}
			for _, x := range args {
				if pointerish(x.Type()) && !oneError(x.Type()) && !leadsNowhere(x.Type()) {
					rs.add(R(x))
				}
			}
			if tup, ok := v.Type().(*types.Tuple); !ok && types.Identical(v.Type(), errType) || ok && onlyErrors(tup) {
				rs = rootSet{n: true}
			}
			ch = s.set(v, rs) || ch
		}
		// functions handed over are run
		for _, x := range args {
			fn, _ := x.(*ssa.Function)
			if mc, ok := x.(*ssa.MakeClosure); ok {
				fn = mc.Fn.(*ssa.Function)
				for m, w := range a.sums[fn].mods {
					if m.r.kind == rFree {
						ch = s.modify(f, R(mc.Bindings[m.r.i]), m.what, m.t, w) || ch
					}
				}
			}
			if fn != nil && a.sums[fn] != nil {
				for m, w := range a.sums[fn].mods {
					if m.r.kind == rGlobal {
						ch = s.modify(f, rootSet{m.r: true}, m.what, m.t, w) || ch
					}
					if m.r.kind == rParam {
						for _, y := range args {
							ch = s.modify(f, R(y), m.what, m.t, w) || ch
						}
					}
				}
			}
		}
	}
	return ch
}

// leadsNowhere: what is made with the help of such a value does not lead to
// memory the value leads to.
func leadsNowhere(t types.Type) bool {
	switch t.String() {
	case "reflect.Type", "*net/http.Client", "net/http.RoundTripper", "*net/http.Transport":
		return true
	}
	return false
}

func oneError(t types.Type) bool { return types.Identical(t, errType) }

func onlyErrors(t *types.Tuple) bool {
	for i := 0; i < t.Len(); i++ {
		if pointerish(t.At(i).Type()) && !oneError(t.At(i).Type()) {
			return false
		}
	}
	return true
}

var readingMethods = map[string]bool{}

func init() {
	for _, n := range strings.Fields("String Error Cmp CmpAbs Sign IsInt Num Denom RatString FloatString Float32 Float64 FloatPrec " +
		"MarshalText MarshalJSON MarshalBinary GobEncode Text Int64 Uint64 IsInt64 IsUint64 BitLen Bytes Len Cap Available " +
		"Equal Format GoString Unwrap Is As Get Values Has Host Hostname Port Query RequestURI EscapedPath IsAbs JoinPath Parse ResolveReference Clone " +
		"Do Head Post PostForm CloseIdleConnections RoundTrip MatchString Match FindStringSubmatch FindString FindAllString ReplaceAllString ReplaceAllStringFunc Split SubexpNames NumSubexp " +
		"Location Cookies Cookie UserAgent Referer FormValue Context Name Type Kind Elem Field NumField Implements") {
		readingMethods[n] = true
	}
}

// outsideMutates: a function outside the module may modify what its i'th
// argument (the receiver counts) leads to.
func outsideMutates(name string, cm *ssa.CallCommon, i int) bool {
	sig := cm.Signature()
	recv := cm.IsInvoke() || sig.Recv() != nil
	if recv && i == 0 {
		if cm.IsInvoke() {
			// methods of values of the module's own types are analysed
			return !readingMethods[cm.Method.Name()]
		}
		_, ptr := sig.Recv().Type().Underlying().(*types.Pointer)
		short := name[strings.LastIndex(name, ".")+1:]
		if readingMethods[short] {
			return false
		}
		if strings.HasPrefix(name, "(*regexp.Regexp).") && short != "Longest" && short != "UnmarshalText" {
			return false
		}
		if !ptr {
			switch sig.Recv().Type().Underlying().(type) {
			case *types.Map, *types.Slice: // http.Header.Set
				return true
			}
			return false
		}
		return true
	}
	short := name[strings.LastIndex(name, ".")+1:]
	pkg := name
	if j := strings.Index(name, "."); j >= 0 {
		pkg = strings.TrimLeft(name[:strings.LastIndex(name, ".")], "(*")
	}
	switch {
	case strings.HasPrefix(name, "sort.") && !strings.HasPrefix(short, "Search") && !strings.Contains(short, "Sorted"):
		return i == 0
	case strings.HasPrefix(name, "slices."):
		for _, p := range []string{"Sort", "Reverse", "Delete", "Insert", "Compact", "Replace", "Grow", "Clip"} {
			if strings.HasPrefix(short, p) {
				return i == 0
			}
		}
	case strings.HasPrefix(name, "maps."):
		return i == 0 && (short == "Copy" || short == "DeleteFunc" || short == "Insert")
	case strings.HasPrefix(short, "Unmarshal"), strings.HasPrefix(short, "Decode"), strings.HasPrefix(short, "Sscan"), strings.HasPrefix(short, "Fscan"), strings.HasPrefix(short, "Scan"):
		return i > 0
	case strings.HasPrefix(short, "Read") || short == "CopyBuffer":
		_, slice := cm.Args[min(i, len(cm.Args)-1)].Type().Underlying().(*types.Slice)
		return slice
	case strings.HasPrefix(short, "Fprint") || short == "Copy" || short == "CopyN" || short == "WriteString":
		return i == 0
	case strings.HasPrefix(short, "Put") && (pkg == "encoding/binary" || strings.HasPrefix(pkg, "encoding")):
		return true
	case pkg == "sync/atomic":
		return i == 0 && !strings.HasPrefix(short, "Load")
	case short == "Encode" && strings.HasPrefix(pkg, "encoding/"):
		return i == 0
	}
	return false
}

func rootName(f *ssa.Function, r root) string {
	switch r.kind {
	case rParam:
		return "parameter " + f.Params[r.i].Name()
	case rGlobal:
		return "package variable " + r.g.Pkg.Pkg.Name() + "." + r.g.Name()
	case rFree:
		return "captured variable " + f.FreeVars[r.i].Name()
	}
	return "fresh memory"
}

// clientTypes: the library's types whose values are clients or client
// configurations.
func clientTypes(w *eng.World) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	obj := w.Lib.Pkg.Scope().Lookup("Client")
	if obj == nil {
		return out
	}
	it, _ := obj.Type().Underlying().(*types.Interface)
	for _, n := range libStructs(w) {
		if it != nil && (types.Implements(n, it) || types.Implements(types.NewPointer(n), it)) {
			out[n] = true
		}
	}
	return out
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func sortedMods(s *modSum) []mod {
	var out []mod
	for m := range s.mods {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		return fmt.Sprint(a.r.kind, a.r.i, a.what, s.mods[a]) < fmt.Sprint(b.r.kind, b.r.i, b.what, s.mods[b])
	})
	return out
}

func (c *C) stateRules() {
	a := c.modAn()
	clients := clientTypes(c.W)
	c.Check(len(clients) >= 3, "client types", "library", "", "only %d found", len(clients))
	readers := 0
	for _, f := range c.W.Funcs {
		if f.Pkg != c.W.Lib || strings.HasPrefix(f.Name(), "init") {
			continue
		}
		con := eng.ShortName(f)
		s := a.sums[f]
		c.funcs[con] = true
		reader := false
		if f.Signature.Recv() != nil && len(f.Params) > 0 {
			n := f.Name()
			reader = strings.HasPrefix(n, "Valid") || strings.HasPrefix(n, "Marshal") || n == "String" || n == "Name" || n == "Type" || strings.HasPrefix(n, "Equal")
		}
		if reader {
			readers++
		}
		okG, okC, okR := true, true, true
		okS := true
		res := f.Signature.Results()
		for i, rs := range s.rets {
			t := res.At(i).Type()
			if !pointerish(t) || oneError(t) {
				continue
			}
			for r := range rs {
				if r.kind == rGlobal && token.IsExported(f.Name()) && sharesMemory(c.W, t, r.g) {
					okS = false
					c.Fail("package state is not handed out", con, c.W.Pos(f.Pos()), "result %d may share memory with %s", i, rootName(f, r))
				}
			}
		}
		for i, rs := range s.flows {
			for r := range rs {
				if r.kind == rGlobal && token.IsExported(f.Name()) && i < len(f.Params) && sharesMemory(c.W, f.Params[i].Type(), r.g) {
					okS = false
					c.Fail("package state is not handed out", con, c.W.Pos(f.Pos()), "what %s leads to may share memory with %s", f.Params[i].Name(), rootName(f, r))
				}
			}
		}
		if okS {
			c.OK("package state is not handed out", con)
		}
		for _, m := range sortedMods(s) {
			switch {
			case m.r.kind == rGlobal:
				okG = false
				c.Fail("package state is not written", con, s.mods[m], "%s (%s) may be modified", rootName(f, m.r), m.what)
			case m.r.kind == rParam && (clients[namedOf(f.Params[m.r.i].Type())] || isClientIface(c.W, f.Params[m.r.i].Type())):
				okC = false
				c.Fail("clients are not modified", con, s.mods[m], "%s (%s) may be modified", rootName(f, m.r), m.what)
			case reader && m.r.kind == rParam && m.r.i == 0:
				if m.what == "SignonRequest.Language" || m.what == "ProfileRequest.ClientRouting" {
					c.OK("sanctioned default", con+"|"+m.what)
					continue
				}
				okR = false
				c.Fail("the object is not modified", con, s.mods[m], "%s (%s) may be modified", rootName(f, m.r), m.what)
			}
		}
		if okG {
			c.OK("package state is not written", con)
		}
		for _, p := range f.Params {
			if okC && (clients[namedOf(p.Type())] || isClientIface(c.W, p.Type())) {
				c.OK("clients are not modified", con)
			}
		}
		if okR && reader {
			c.OK("the object is not modified", con)
		}
	}
	c.Check(readers > 100, "validators and marshallers", "library", "", "only %d found", readers)
}

func isClientIface(w *eng.World, t types.Type) bool {
	obj := w.Lib.Pkg.Scope().Lookup("Client")
	return obj != nil && types.Identical(t, obj.Type())
}

// ---- C32 ----

type effect int

const (
	pureEffect effect = iota
	netEffect
	badEffect
)

// packages whose use is no access to the outside world, apart from the
// listed names; names listed with other packages are the harmless ones.
var quietPkgs = map[string]string{}
var netPkgs = map[string]string{}

func init() {
	for _, p := range strings.Fields("errors fmt bytes strings strconv unicode unicode/utf8 unicode/utf16 bufio io reflect regexp regexp/syntax sort slices maps cmp iter math math/big math/bits math/rand math/rand/v2 math/cmplx " +
		"crypto/rand crypto/sha1 crypto/sha256 crypto/sha512 crypto/md5 crypto/hmac crypto/subtle crypto crypto/cipher crypto/aes hash hash/crc32 hash/fnv hash/maphash encoding encoding/xml encoding/hex encoding/base64 encoding/base32 encoding/binary encoding/json encoding/csv encoding/gob encoding/pem encoding/ascii85 " +
		"container/list container/heap container/ring context html text/tabwriter text/scanner sync sync/atomic time net/url net/textproto net/netip mime/quotedprintable compress/gzip compress/flate compress/zlib archive/tar strings index/suffixarray unique weak structs " +
		"github.com/aclindsa/xml golang.org/x/text/currency golang.org/x/text/language golang.org/x/text/encoding golang.org/x/text/transform golang.org/x/text/unicode/norm text/template html/template mime io/ioutil io/fs path path/filepath") {
		quietPkgs[p] = ""
	}
	quietPkgs["fmt"] = "Print Printf Println Scan Scanf Scanln"
	quietPkgs["time"] = "LoadLocation AfterFunc NewTimer NewTicker Tick"
	quietPkgs["context"] = "AfterFunc WithTimeout WithDeadline"
	quietPkgs["text/template"] = "ParseFiles ParseGlob"
	quietPkgs["html/template"] = "ParseFiles ParseGlob"
	quietPkgs["mime"] = "TypeByExtension ExtensionsByType AddExtensionType"
	quietPkgs["io/ioutil"] = "ReadFile WriteFile ReadDir TempFile TempDir"
	quietPkgs["path/filepath"] = "Abs EvalSymlinks Glob Walk WalkDir"
	for _, p := range strings.Fields("net net/http crypto/tls net/http/cookiejar net/http/httptrace net/http/httputil") {
		netPkgs[p] = ""
	}
	// what of them needs no connection
	netPkgs["net/http"] = "NewRequest NewRequestWithContext StatusText CanonicalHeaderKey SetCookie ParseHTTPVersion DetectContentType NoBody ErrNoCookie Header. Cookie. Request. Response."
	netPkgs["net"] = "JoinHostPort SplitHostPort ParseIP IP. IPNet. IPMask."
	netPkgs["crypto/tls"] = "CipherSuites InsecureCipherSuites CipherSuiteName VersionName Config. CipherSuite."
}

var servingNames = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Listen ListenPacket ListenTCP ListenUDP ListenUnix ListenAndServe ListenAndServeTLS Serve ServeTLS ServeFile ServeContent ServeFileFS Handle HandleFunc FileServer LoadX509KeyPair NewListener Interfaces") {
		servingNames[n] = true
	}
}

// outsideEffect classifies a function or variable outside the module.
func outsideEffect(pkg *types.Package, name string, recv *types.Var) (effect, string) {
	if pkg == nil {
		return pureEffect, ""
	}
	p := pkg.Path()
	if bad, ok := quietPkgs[p]; ok {
		for _, n := range strings.Fields(bad) {
			if n == name && recv == nil {
				return badEffect, p + "." + name
			}
		}
		return pureEffect, ""
	}
	if good, ok := netPkgs[p]; ok {
		if servingNames[name] {
			return badEffect, p + "." + name
		}
		for _, n := range strings.Fields(good) {
			if recv == nil && n == name || recv != nil && namedOf(recv.Type()) != nil && n == namedOf(recv.Type()).Obj().Name()+"." {
				return pureEffect, ""
			}
		}
		return netEffect, p + "." + name
	}
	return badEffect, p + "." + name
}

// effectsOf lists what a function's own instructions do to the outside.
func (c *C) effectsOf(f *ssa.Function) (calls []*ssa.Function, net, bad map[string]string) {
	net, bad = map[string]string{}, map[string]string{}
	note := func(e effect, what string, in ssa.Instruction) {
		switch e {
		case netEffect:
			net[what] = c.W.InstrPos(in)
		case badEffect:
			bad[what] = c.W.InstrPos(in)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				bad["go statement"] = c.W.InstrPos(in)
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				cm := ci.Common()
				if cm.IsInvoke() {
					m := cm.Method
					n := namedOf(cm.Value.Type())
					if n == nil || !c.W.InModulePkg(n.Obj().Pkg()) {
						if m.Pkg() != nil && !c.W.InModulePkg(m.Pkg()) {
							e, w := outsideEffect(m.Pkg(), m.Name(), m.Type().(*types.Signature).Recv())
							note(e, w, in)
						}
					}
				}
				if bi, ok := cm.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
					bad["builtin "+bi.Name()] = c.W.InstrPos(in)
				}
				calls = append(calls, c.modAn().targets(ci)...)
			}
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Function:
					if c.W.InModule(x) {
						calls = append(calls, x)
						continue
					}
					var pkg *types.Package
					if x.Object() != nil {
						pkg = x.Object().Pkg()
					} else if x.Pkg != nil {
						pkg = x.Pkg.Pkg
					}
					if f.Name() == "init" && strings.HasPrefix(x.Name(), "init") {
						continue // the initialisation of imported packages
					}
					e, w := outsideEffect(pkg, x.Name(), x.Signature.Recv())
					note(e, w, in)
				case *ssa.Global:
					if x.Pkg != nil && !c.W.InModulePkg(x.Pkg.Pkg) {
						e, w := outsideEffect(x.Pkg.Pkg, x.Name(), nil)
						note(e, w, in)
					}
				case *ssa.MakeClosure:
					calls = append(calls, x.Fn.(*ssa.Function))
				}
			}
		}
	}
	return
}

func (c *C) modAn() *modAn {
	if c.mods == nil {
		c.mods = newModAn(c.W)
	}
	return c.mods
}

func (c *C) effectRules() {
	// the client request calls are the methods of the Client interface that
	// answer with a response
	requests := map[string]bool{}
	var it *types.Interface
	if obj := c.W.Lib.Pkg.Scope().Lookup("Client"); obj != nil {
		it, _ = obj.Type().Underlying().(*types.Interface)
	}
	if it == nil {
		c.Fail("anchor", "Client", "", "no interface Client")
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		res := m.Type().(*types.Signature).Results()
		if res.Len() == 2 && oneError(res.At(1).Type()) && namedOf(res.At(0).Type()) != nil && namedOf(res.At(0).Type()).Obj().Name() == "Response" {
			requests[m.Name()] = true
		}
	}
	c.Check(len(requests) >= 3, "request calls", "Client", "", "only %d found", len(requests))
	clients := clientTypes(c.W)
	type node struct {
		calls    []*ssa.Function
		net, bad map[string]string
	}
	nodes := map[*ssa.Function]*node{}
	get := func(f *ssa.Function) *node {
		n := nodes[f]
		if n == nil {
			n = &node{}
			n.calls, n.net, n.bad = c.effectsOf(f)
			nodes[f] = n
		}
		return n
	}
	quiet, sending := 0, 0
	for _, f := range c.W.Funcs {
		if f.Pkg != c.W.Lib {
			continue
		}
		con := eng.ShortName(f)
		c.funcs[con] = true
		n := get(f)
		ok := true
		for _, w := range sortedKeys(n.bad) {
			ok = false
			c.Fail("no other access to the outside", con, n.bad[w], "uses %s", w)
		}
		if ok {
			c.OK("no other access to the outside", con)
		}
		// what may be called from outside: exported functions and methods,
		// and what other packages call through interfaces
		if f.Parent() != nil || !token.IsExported(f.Name()) && !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		recv := f.Signature.Recv()
		if requests[f.Name()] && recv != nil && clients[namedOf(recv.Type())] {
			sending++
			continue
		}
		quiet++
		seen := map[*ssa.Function]bool{}
		var path []string
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			if seen[g] || !c.W.InModule(g) || len(g.Blocks) == 0 {
				return true
			}
			seen[g] = true
			path = append(path, eng.ShortName(g))
			m := get(g)
			for _, w := range sortedKeys(m.net) {
				c.Fail("only requests use the network", con, m.net[w], "%s uses %s", strings.Join(path, " -> "), w)
				return false
			}
			for _, h := range m.calls {
				if !walk(h) {
					return false
				}
			}
			path = path[:len(path)-1]
			return true
		}
		if walk(f) {
			c.OK("only requests use the network", con)
		}
	}
	c.Check(quiet > 200, "functions without network access", "library", "", "only %d found", quiet)
	c.Check(sending >= 3, "request calls of clients", "library", "", "only %d found", sending)
}

func init() {
	reg("C31", 300, "Interprocedural modification analysis of every library function: each store, map update, append, copy and mutating outside call is traced to the roots (parameters, package variables, own memory) of what it modifies. No function may modify memory reached from a package variable or (if exported) hand it out, nor from a client or client configuration it is given; validators, marshallers and other inspecting methods may modify nothing reached from their receiver except the sign-on language default and the profile routing field.", (*C).stateRules)
	reg("C32", 300, "Every instruction of every library function is scanned for uses (calls, function values, variables) of packages that reach the outside world, for go statements and for the print builtins: only the network is allowed, besides the clock and the random source. Through the call graph (static calls, function values, interface calls resolved to every implementation in the module) only the request methods of the client types may reach a use of the network.", (*C).effectRules)
}
