package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one thing that happened on a path (persistent linked list).
type Event struct {
	Prev   *Event
	N      int
	Kind   string // call, loop, alt, store, go, send, panic
	Callee string
	Obj    any
	Args   []*Term
	Cont   []*Term // contents of pointer arguments at the time of the call
	Result *Term
	Site   ssa.Instruction
	Fn     *ssa.Function
	Ctx    *Ctx
	Facts  *Facts
	St     *State // snapshot of the state before the call
	Loop   *LoopInfo
	Alts   []Alt
	Defer  bool
	// filled for store events
	Addr, Val *Term
}

type Alt struct {
	Events []*Event
	Facts  *Facts
}

// LoopInfo describes a summarised loop.
type LoopInfo struct {
	ID     string
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Entry  *State
	Backs  []*BackInfo
	// induction variables: header term -> entry value and step
	Ind   map[*Term]Induction
	Cells map[*Term]*Term // address -> header term of widened memory cells
	Phis  map[*ssa.Phi]*Term
	EntPh map[*ssa.Phi]*Term // entry values
	EntCl map[*Term]*Term
	Ctx   *Ctx
}

type Induction struct {
	Entry *Term
	Step  int64
}

type BackInfo struct {
	St   *State
	Phis map[*ssa.Phi]*Term
	From *Event // first event marker (the loop event)
}

// MapEntry is an entry of a map built by the analysed code.
type MapEntry struct{ K, V *Term }
type MapVal struct {
	Entries []MapEntry
	Unknown bool
}

// Ctx is the chain of inlined calls.
type Ctx struct {
	Fn   *ssa.Function
	Site ssa.Instruction
	Up   *Ctx
	D    int
	k    string
	kd   bool
}

func (c *Ctx) key() string {
	if c == nil {
		return ""
	}
	if c.kd {
		return c.k
	}
	s := c.Up.key()
	if c.Site != nil {
		s += fmt.Sprintf("/%p", c.Site)
	}
	c.k, c.kd = s, true
	return s
}

func (c *Ctx) has(f *ssa.Function) bool {
	for ; c != nil; c = c.Up {
		if c.Fn == f {
			return true
		}
	}
	return false
}

// Path lists the inlined functions, outermost first.
func (c *Ctx) Path() string {
	var s []string
	for ; c != nil; c = c.Up {
		s = append([]string{ShortName(c.Fn)}, s...)
	}
	return strings.Join(s, " > ")
}

// State is one abstract path state.
type State struct {
	mem   map[*Term]*Term
	F     *Facts
	Ev    *Event
	maps  map[*Term]*MapVal
	cnt   map[string]int
	alloc []*Term
	run   *Run
}

func (s *State) Clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)+4), F: s.F, Ev: s.Ev, maps: make(map[*Term]*MapVal, len(s.maps)), cnt: make(map[string]int, len(s.cnt)+2), run: s.run}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.maps {
		n.maps[k] = v
	}
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	n.alloc = s.alloc[:len(s.alloc):len(s.alloc)]
	return n
}

func (s *State) with(f *Facts) *State {
	if f == s.F {
		return s
	}
	n := s.Clone()
	n.F = f
	return n
}

// Assume returns the refinements of s under cond == pol.
func (s *State) Assume(cond *Term, pol bool) []*State {
	fs := s.F.Assume(cond, pol)
	var out []*State
	for _, f := range fs {
		if len(fs) == 1 && f == s.F {
			return []*State{s}
		}
		out = append(out, s.with(f))
	}
	return out
}

func (s *State) fresh(key string) int {
	s.cnt[key]++
	return s.cnt[key]
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

func parent(a *Term) *Term {
	if a.K == KField || a.K == KElem {
		return a.Args[0]
	}
	return nil
}

func (s *State) hasDesc(a *Term) bool {
	for k := range s.mem {
		for p := parent(k); p != nil; p = parent(p) {
			if p == a {
				return true
			}
		}
	}
	return false
}

// Load reads the content of an address.
func (s *State) Load(a *Term, t types.Type) *Term {
	composite := false
	if st, ok := t.Underlying().(*types.Struct); ok {
		composite = true
		if s.hasDesc(a) {
			args := make([]*Term, st.NumFields())
			for i := range args {
				ft := st.Field(i).Type()
				args[i] = s.Load(FieldAddr(a, i, types.NewPointer(ft)), ft)
			}
			return mk(Term{K: KStruct, Args: args, Typ: t})
		}
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		composite = true
		if at.Len() <= 512 && s.hasDesc(a) {
			args := make([]*Term, at.Len())
			for i := range args {
				args[i] = s.Load(ElemAddr(a, Int(int64(i)), types.NewPointer(at.Elem())), at.Elem())
			}
			return mk(Term{K: KList, Args: args, Typ: t})
		}
	}
	_ = composite
	if v, ok := s.mem[a]; ok {
		return v
	}
	switch a.K {
	case KField:
		base := a.Args[0]
		if v, ok := s.nearest(base); ok {
			return FieldOf(v, a.I, t)
		}
		return s.dflt(a, t)
	case KElem:
		base, idx := a.Args[0], a.Args[1]
		if base.K == KAppend {
			if v := s.appendElem(base, idx, t); v != nil {
				return v
			}
		}
		if base.K == KList { // content list used as a slice
			return ElemOf(base, idx, t)
		}
		if v, ok := s.nearest(base); ok {
			return ElemOf(v, idx, t)
		}
		return s.dflt(a, t)
	}
	return s.dflt(a, t)
}

func (s *State) appendElem(app, idx *Term, t types.Type) *Term {
	l := LenOf(app.Args[0])
	n, ok := l.IntVal()
	i, ok2 := idx.IntVal()
	if ok && ok2 {
		if i >= n && int(i-n) < len(app.Args)-1 {
			return app.Args[1+i-n]
		}
		if i < n {
			return s.Load(ElemAddr(app.Args[0], idx, types.NewPointer(t)), t)
		}
	}
	return nil
}

// nearest finds the content of the struct/array at base by walking up.
func (s *State) nearest(base *Term) (*Term, bool) {
	if v, ok := s.mem[base]; ok {
		return v, true
	}
	switch base.K {
	case KField:
		if v, ok := s.nearest(base.Args[0]); ok {
			var ft types.Type
			if p, ok := base.Typ.(*types.Pointer); ok {
				ft = p.Elem()
			}
			return FieldOf(v, base.I, ft), true
		}
	case KElem:
		if v, ok := s.nearest(base.Args[0]); ok {
			var ft types.Type
			if p, ok := base.Typ.(*types.Pointer); ok {
				ft = p.Elem()
			}
			return ElemOf(v, base.Args[1], ft), true
		}
	}
	return nil, false
}

func (s *State) dflt(a *Term, t types.Type) *Term {
	r := Root(a)
	switch r.K {
	case KAlloc:
		// an allocation made by the analysed code starts out zero; elements
		// at unknown indices of it may have been stored to
		if symIdx(a) && s.hasSibling(a) {
			return s.join(a, t)
		}
		if r.S == "out" {
			return Init(a, t)
		}
		if s.run != nil && s.run.Frozen != nil && s.run.Frozen.made[r] {
			return s.run.Frozen.load(a, t)
		}
		return Zero(t)
	case KGlobal:
		if s.run != nil && s.run.Frozen != nil && s.run.Frozen.Is(r.Obj.(*ssa.Global)) {
			return s.run.Frozen.load(a, t)
		}
	}
	return Init(a, t)
}

func symIdx(a *Term) bool {
	for ; a != nil; a = parent(a) {
		if a.K == KElem {
			if _, ok := a.Args[1].IntVal(); !ok {
				return true
			}
		}
	}
	return false
}

func (s *State) hasSibling(a *Term) bool {
	r := Root(a)
	for k := range s.mem {
		if Root(k) == r {
			return true
		}
	}
	return false
}

// join: read through an unknown index of an allocation with known elements.
func (s *State) join(a *Term, t types.Type) *Term {
	return Init(a, t) // symbolic element of a known array: kept as a term
}

// Store writes v at a.
func (s *State) Store(a, v *Term) {
	for k := range s.mem {
		if k == a {
			continue
		}
		for p := parent(k); p != nil; p = parent(p) {
			if p == a {
				delete(s.mem, k)
				break
			}
		}
	}
	// an unknown index may overwrite any element
	for p := a; p != nil; p = parent(p) {
		if p.K == KElem {
			for k := range s.mem {
				for q := k; q != nil; q = parent(q) {
					if q != p && q.K == KElem && q.Args[0] == p.Args[0] && q.Args[1] != p.Args[1] {
						_, c1 := q.Args[1].IntVal()
						_, c2 := p.Args[1].IntVal()
						if !(c1 && c2) {
							delete(s.mem, k)
						}
						break
					}
				}
			}
		}
	}
	s.mem[a] = v
}

// Cells lists the written addresses (deterministic order).
func (s *State) Cells() []*Term {
	var ks []*Term
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

func (s *State) MapOf(m *Term) *MapVal {
	if v, ok := s.maps[m]; ok {
		return v
	}
	if s.run != nil && s.run.Frozen != nil {
		if v, ok := s.run.Frozen.St.maps[m]; ok {
			return v
		}
	}
	return nil
}

// Content normalises an argument: pointers to local memory are replaced by
// what they point to, so that equal contents give equal terms.
func (s *State) Content(v *Term) *Term { return s.content(v, 0) }

func (s *State) content(v *Term, d int) *Term {
	if d > 6 || v == nil {
		return v
	}
	switch v.K {
	case KAlloc, KField, KElem, KParam, KGlobal, KInit, KExtract, KAssert, KLoop, KEvent, KLookup, KOut, KFieldOf, KElemOf:
		var et types.Type
		if v.Typ != nil {
			if p, ok := v.Typ.Underlying().(*types.Pointer); ok {
				et = p.Elem()
			}
		}
		if et == nil {
			return v
		}
		_, isS := et.Underlying().(*types.Struct)
		switch v.K {
		case KAlloc, KField, KElem, KParam:
		default:
			if !isS {
				return v
			}
		}
		return s.content(s.Load(v, et), d+1)
	case KSlice:
		base := v.Args[0]
		if base.K == KAlloc || (base.K == KGlobal || base.K == KField) {
			if p, ok := base.Typ.Underlying().(*types.Pointer); ok {
				if at, ok := p.Elem().Underlying().(*types.Array); ok {
					lo, lok := int64(0), true
					if v.Args[1].K != KNone {
						lo, lok = v.Args[1].IntVal()
					}
					hi, hok := at.Len(), true
					if v.Args[2].K != KNone {
						hi, hok = v.Args[2].IntVal()
					}
					c := s.Load(base, p.Elem())
					if lok && hok && lo >= 0 && hi >= lo && hi <= at.Len() && hi-lo <= 512 && c.K != KInit && c.K != KOut && c.K != KLoop {
						var xs []*Term
						for i := lo; i < hi; i++ {
							xs = append(xs, s.content(s.Load(ElemAddr(base, Int(i), types.NewPointer(at.Elem())), at.Elem()), d+1))
						}
						return mk(Term{K: KList, Args: xs, Typ: v.Typ})
					}
					return mk(Term{K: KSlice, Args: []*Term{c, v.Args[1], v.Args[2]}, Typ: v.Typ})
				}
			}
		}
	case KIface:
		return Iface(v.Typ2, s.content(v.Args[0], d+1))
	case KStruct, KList, KAppend, KAppendS:
		ch := false
		args := make([]*Term, len(v.Args))
		for i, a := range v.Args {
			switch a.K {
			case KAlloc, KSlice, KIface, KStruct:
				args[i] = s.content(a, d+1)
			default:
				args[i] = a
			}
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			n := *v
			n.Args = args
			return mk(n)
		}
	}
	return v
}

// Events lists the events since `since` (exclusive), oldest first.
func (s *State) Events(since *Event) []*Event { return EventsSince(s.Ev, since) }

func EventsSince(e, since *Event) []*Event {
	var out []*Event
	for ; e != nil && e != since; e = e.Prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) push(e Event) *Event {
	e.Prev = s.Ev
	if s.Ev != nil {
		e.N = s.Ev.N + 1
	}
	e.Facts = s.F
	s.Ev = &e
	return &e
}

// RegexGroups returns the number of groups of a constant regular expression.
func RegexGroups(re *Term) (int, bool) {
	p, ok := RegexSource(re)
	if !ok {
		return 0, false
	}
	r, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return 0, false
	}
	return r.MaxCap(), true
}

// RegexSource returns the constant pattern of a compiled expression.
func RegexSource(re *Term) (string, bool) {
	if re.K == KExtract {
		re = re.Args[0]
	}
	if re.K == KCall && (re.CalleeName() == "regexp.MustCompile" || re.CalleeName() == "regexp.Compile") {
		return re.Args[0].StrVal()
	}
	return "", false
}

// ShortName drops package paths.
func ShortName(f *ssa.Function) string {
	n := FnName(f)
	n = strings.ReplaceAll(n, "github.com/aclindsa/ofxgo/cmd/ofx.", "main.")
	n = strings.ReplaceAll(n, "github.com/aclindsa/ofxgo.", "")
	return n
}

var _ = token.ADD
