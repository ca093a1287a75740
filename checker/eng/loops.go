package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopTree struct{ byHeader map[*ssa.BasicBlock]*loop }

func findLoops(fn *ssa.Function) *loopTree {
	lt := &loopTree{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := lt.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					lt.byHeader[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return lt
}

const maxUnroll = 700

// loop executes a natural loop entered from prev.
func (r *Run) loop(fr *frame, L *loop, prev *ssa.BasicBlock, e *env, st *State) []cont {
	r.Loops++
	if !r.NoUnroll {
		if out, ok := r.unroll(fr, L, prev, e, st); ok {
			return out
		}
	}
	return r.summarise(fr, L, prev, e, st)
}

// headerDecided executes the header block's own instructions on copies and
// reports whether its branch is decided by known constants.
func (r *Run) headerDecided(fr *frame, L *loop, e *env, st *State) bool {
	last := L.header.Instrs[len(L.header.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	if L.body[L.header.Succs[0]] == L.body[L.header.Succs[1]] {
		return false
	}
	for _, in := range L.header.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.Call:
			cc := in.(*ssa.Call).Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			if f := cc.StaticCallee(); f == nil || !r.W.InModule(f) || len(f.Blocks) == 0 || len(f.Blocks) > 8 {
				return false
			}
		default:
			return false
		}
	}
	r.quiet++
	defer func() { r.quiet-- }()
	ee, ss := e.clone(), st.Clone()
	for _, in := range L.header.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				ee.v[x] = r.lenTerm(ss, r.val(ee, x.Call.Args[0]), x.Call.Args[0].Type())
				continue
			}
			outs := r.doCall(fr, ee, ss, x, x.Common())
			if len(outs) != 1 || outs[0].Kind != "ret" {
				return false
			}
			ss = outs[0].St
			ee.v[x] = retTerm(outs[0].Res, x.Type())
		default:
			r.step(fr, ee, ss, in)
		}
	}
	return ss.F.Eval(r.val(ee, iff.Cond)) != 0
}

func (r *Run) unroll(fr *frame, L *loop, prev *ssa.BasicBlock, e *env, st *State) ([]cont, bool) {
	e0 := e.clone()
	r.phis(L.header, prev, e0, nil)
	if !r.headerDecided(fr, L, e0, st) {
		return nil, false
	}
	base := st.Ev
	nalloc := len(st.alloc)
	// a loop that goes on while a flag is up is bounded only by its other
	// exits: when one of them is open the number of rounds is not known
	flag := false
	if iff, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If); ok {
		c := iff.Cond
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c = u.X
		}
		_, flag = c.(*ssa.Phi)
	}
	type it struct {
		e  *env
		st *State
	}
	cur := []it{{e0, st.Clone()}}
	var out []cont
	for n := 0; len(cur) > 0; n++ {
		if n > maxUnroll || r.MaxUnroll > 0 && n > r.MaxUnroll {
			return nil, false
		}
		var next []cont
		left := len(out)
		for _, c := range cur {
			if n > 0 && !r.headerDecided(fr, L, c.e, c.st) {
				return nil, false
			}
			for _, k := range r.region(fr, L, L.header, nil, c.e, c.st) {
				if k.kind == "back" {
					next = append(next, k)
				} else {
					out = append(out, k)
				}
			}
		}
		cur = cur[:0]
		if flag && len(next) > 0 {
			for _, k := range out[left:] {
				if k.kind == "leave" && k.prev != L.header {
					return nil, false
				}
			}
		}
		if len(next) > 4000 {
			r.undecided("%s: too many paths through a loop", FnName(fr.fn))
			return out, true
		}
		for i := range next {
			ne := r.backEnv(L, next[i].prev, next[i].env)
			next[i].env = ne
		}
		if r.Merge && len(next) > 1 {
			next = mergeConts(next, base, nalloc)
		}
		for _, k := range next {
			cur = append(cur, it{k.env, k.st})
		}
	}
	if r.OnUnroll != nil {
		r.OnUnroll(fr.fn, L.header)
	}
	return out, true
}

// backEnv computes the header environment of the next iteration.
func (r *Run) backEnv(L *loop, prev *ssa.BasicBlock, e *env) *env {
	ne := e.clone()
	r.phis(L.header, prev, ne, nil)
	phi := map[ssa.Value]bool{}
	for _, in := range L.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phi[p] = true
		}
	}
	for v := range ne.v {
		if in, ok := v.(ssa.Instruction); ok && L.body[in.Block()] && !phi[v] {
			delete(ne.v, v)
		}
	}
	return ne
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (r *Run) summarise(fr *frame, L *loop, prev *ssa.BasicBlock, e *env, st *State) []cont {
	id := fmt.Sprintf("%s#%d@%p%s", FnName(fr.fn), L.header.Index, L.header, fr.ctx.key())
	n := st.fresh("L" + id)
	id = fmt.Sprintf("%s~%d", id, n)
	entryEnv := e.clone()
	r.phis(L.header, prev, entryEnv, nil)
	phis := headerPhis(L.header)
	wphi := map[*ssa.Phi]bool{}
	wcell := map[*Term]bool{}
	wmap := map[*Term]bool{}
	cellTyp := map[*Term]types.Type{}
	ind := map[*Term]Induction{}
	phiTerm := func(p *ssa.Phi) *Term {
		return mk(Term{K: KLoop, S: p.Name() + ":" + p.Comment, Obj: id, Typ: p.Type()})
	}
	cellTerm := func(a *Term) *Term {
		return mk(Term{K: KLoop, S: "cell", Obj: id, Args: []*Term{a}, Typ: cellTyp[a]})
	}
	header := func() (*env, *State) {
		he, hs := entryEnv.clone(), st.Clone()
		for p := range wphi {
			he.v[p] = phiTerm(p)
		}
		for _, a := range sortedTerms(wcell) {
			hs.Store(a, cellTerm(a))
		}
		for m := range wmap {
			hs.maps[m] = &MapVal{Unknown: true}
		}
		var ks []*Term
		for t := range ind {
			ks = append(ks, t)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
		if len(ks) > 0 {
			hs.F = hs.F.clone()
			for _, t := range ks {
				if ind[t].Step >= 0 {
					hs.F.addLE(ind[t].Entry, t, 0)
				}
				if ind[t].Step <= 0 {
					hs.F.addLE(t, ind[t].Entry, 0)
				}
			}
		}
		return he, hs
	}
	// discovery
	r.quiet++
	ok := false
	for round := 0; round < 40; round++ {
		he, hs := header()
		hs0 := hs.Clone()
		he0 := he.clone()
		changed := false
		newInd := map[*Term]Induction{}
		conflicting := map[*Term]bool{}
		var stays []cont
		for _, k := range r.region(fr, L, L.header, nil, he, hs) {
			if k.kind != "back" {
				continue
			}
			stay, _ := r.peel(fr, L, k, he0)
			stays = append(stays, stay...)
		}
		for _, k := range stays {
			ne := k.env
			for _, p := range phis {
				nv := ne.v[p]
				if !wphi[p] {
					if nv != he0.v[p] {
						wphi[p] = true
						changed = true
					}
					continue
				}
				// induction: header value + const
				t := phiTerm(p)
				if isInt(p.Type()) {
					b, c := linear(nv)
					if b == t && entryEnv.v[p] != nil {
						if old, ok := newInd[t]; ok && old.Step != c {
							if (old.Step >= 0) == (c >= 0) && old.Step != 0 && c != 0 {
								if abs(c) < abs(old.Step) {
									old.Step = c
								}
								newInd[t] = old
							} else if old.Step == 0 || c == 0 {
								// may also stay unchanged
								if old.Step == 0 {
									newInd[t] = Induction{entryEnv.v[p], c}
								}
							} else {
								conflicting[t] = true
							}
						} else {
							newInd[t] = Induction{entryEnv.v[p], c}
						}
					} else {
						conflicting[t] = true
					}
				}
			}
			// memory
			seen := map[*Term]bool{}
			for a, v := range k.st.mem {
				seen[a] = true
				if hs0.mem[a] == v {
					continue
				}
				w := r.widenAddr(a, st)
				if w == nil || wcell[w] && hs0.mem[a] == v {
					continue
				}
				if wcell[w] && w == a {
					continue
				}
				if !wcell[w] {
					wcell[w] = true
					cellTyp[w] = addrElem(w, v, a)
					changed = true
				}
			}
			for a := range hs0.mem {
				if seen[a] {
					continue
				}
				// killed by a store to a containing address or an unknown index
				w := r.widenAddr(a, st)
				if w != nil && !wcell[w] && !coveredBy(w, wcell) {
					wcell[w] = true
					cellTyp[w] = addrElem(w, nil, a)
					changed = true
				}
			}
			for m, v := range k.st.maps {
				if hv, ok := hs0.maps[m]; ok && hv != v && !(hv.Unknown) {
					wmap[m] = true
					changed = true
				}
			}
		}
		for t := range conflicting {
			delete(newInd, t)
		}
		if !changed && !sameInd(ind, newInd) {
			ind = newInd
			continue
		}
		if changed {
			ind = map[*Term]Induction{}
		}
		if !changed {
			ok = true
			break
		}
	}
	r.quiet--
	if !ok {
		r.undecided("loop in %s did not stabilise", FnName(fr.fn))
	}
	// final run
	info := &LoopInfo{ID: id, Fn: fr.fn, Header: L.header, Entry: st.Clone(), Ind: ind, Cells: map[*Term]*Term{}, Phis: map[*ssa.Phi]*Term{}, EntPh: map[*ssa.Phi]*Term{}, EntCl: map[*Term]*Term{}, Ctx: fr.ctx}
	for _, p := range phis {
		info.EntPh[p] = entryEnv.v[p]
		if wphi[p] {
			info.Phis[p] = phiTerm(p)
		} else {
			info.Phis[p] = entryEnv.v[p]
		}
	}
	for a := range wcell {
		info.Cells[a] = cellTerm(a)
		info.EntCl[a] = st.Load(a, cellTyp[a])
	}
	he, hs := header()
	mark := hs.push(Event{Kind: "loop", Callee: "loop", Fn: fr.fn, Ctx: fr.ctx, Loop: info, Site: L.header.Instrs[0]})
	var out []cont
	he0 := he.clone()
	back := func(k cont) {
		bi := &BackInfo{St: k.st, Phis: map[*ssa.Phi]*Term{}, From: mark}
		for _, p := range phis {
			bi.Phis[p] = k.env.v[p]
		}
		info.Backs = append(info.Backs, bi)
	}
	for _, k := range r.region(fr, L, L.header, nil, he, hs) {
		if k.kind != "back" {
			out = append(out, k)
			continue
		}
		stay, leave := r.peel(fr, L, k, he0)
		for _, k := range stay {
			back(k)
		}
		for _, k := range leave {
			for _, x := range r.region(fr, L, L.header, nil, k.env, k.st) {
				if x.kind == "back" {
					r.undecided("%s: a round goes on after the loop has ended", FnName(fr.fn))
					continue
				}
				out = append(out, x)
			}
		}
	}
	if r.OnLoop != nil && r.quiet == 0 {
		r.OnLoop(info)
	}
	return out
}

// peel splits a back edge by the conditions on nil-ness and flags that the
// header tests before anything happens: rounds after which the loop is
// certain to end are handed back as leaving, with the environment of the
// header.
func (r *Run) peel(fr *frame, L *loop, k cont, he0 *env) (stay, leave []cont) {
	r.quiet++
	defer func() { r.quiet-- }()
	ne := r.backEnv(L, k.prev, k.env)
	work := []*State{k.st}
	for n := 0; len(work) > 0; n++ {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		verdict, cond := byte('e'), (*Term)(nil)
		if n < 16 {
			verdict, cond = r.lookAhead(fr, L, L.header, nil, ne.clone(), st.Clone(), 0)
		}
		switch verdict {
		case 's':
			for _, v := range []bool{false, true} {
				for _, f := range st.F.Assume(cond, v) {
					s := st.Clone()
					s.F = f
					work = append(work, s)
				}
			}
		case 'x':
			nk := k
			nk.env, nk.st = ne.clone(), st
			leave = append(leave, nk)
		default:
			nk := k
			nk.env, nk.st = ne.clone(), st
			for _, p := range headerPhis(L.header) {
				h, v := he0.v[p], nk.env.v[p]
				if h == v || h == nil || v == nil {
					continue
				}
				if h == Nil && st.F.IsNil(v) == 1 {
					nk.env.v[p] = h
				} else if b, ok := h.BoolVal(); ok {
					if e := st.F.Eval(v); e == 1 && b || e == -1 && !b {
						nk.env.v[p] = h
					}
				}
			}
			stay = append(stay, nk)
		}
	}
	return
}

// lookAhead follows the tests at the head of a loop: 'x' when every way
// leaves it, 's' when that hangs on a condition worth splitting by, 'e' when
// the body may be entered.
func (r *Run) lookAhead(fr *frame, L *loop, b, prev *ssa.BasicBlock, e *env, st *State, depth int) (byte, *Term) {
	if depth > 12 {
		return 'e', nil
	}
	if !L.body[b] {
		return 'x', nil
	}
	if b == L.header && prev != nil {
		return 'e', nil
	}
	if prev != nil {
		r.phis(b, prev, e, nil)
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr:
			r.step(fr, e, st, in)
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return 'e', nil
			}
			e.v[x] = r.lenTerm(st, r.val(e, x.Call.Args[0]), x.Call.Args[0].Type())
		case *ssa.Jump:
			return r.lookAhead(fr, L, b.Succs[0], b, e, st, depth+1)
		case *ssa.If:
			c := r.val(e, x.Cond)
			switch st.F.Eval(c) {
			case 1:
				return r.lookAhead(fr, L, b.Succs[0], b, e, st, depth+1)
			case -1:
				return r.lookAhead(fr, L, b.Succs[1], b, e, st, depth+1)
			}
			v0, c0 := r.lookAhead(fr, L, b.Succs[0], b, e.clone(), st.Clone(), depth+1)
			v1, c1 := r.lookAhead(fr, L, b.Succs[1], b, e.clone(), st.Clone(), depth+1)
			if v0 == 'x' && v1 == 'x' {
				return 'x', nil
			}
			if (v0 == 'x') != (v1 == 'x') && isFlagTest(x.Cond) {
				return 's', c
			}
			if v0 == 's' {
				return v0, c0
			}
			if v1 == 's' {
				return v1, c1
			}
			return 'e', nil
		default:
			return 'e', nil
		}
	}
	return 'e', nil
}

// isFlagTest: the condition tests a variable of the loop for nil, or is a
// boolean variable of the loop.
func isFlagTest(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		return isFlagTest(x.X)
	case *ssa.BinOp:
		_, phi := x.X.(*ssa.Phi)
		k, isC := x.Y.(*ssa.Const)
		return phi && isC && k.Value == nil
	}
	return false
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func coveredBy(w *Term, set map[*Term]bool) bool {
	for p := parent(w); p != nil; p = parent(p) {
		if set[p] {
			return true
		}
	}
	return false
}

func addrElem(w, v, a *Term) types.Type {
	if w.Typ != nil {
		if p, ok := w.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	if v != nil && w == a && v.Typ != nil {
		return v.Typ
	}
	return types.Typ[types.Invalid]
}

func sameInd(a, b map[*Term]Induction) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// widenAddr picks the address to widen for a store at a inside a loop: memory
// allocated inside the iteration needs none; an address that depends on
// iteration values is widened at its base.
func (r *Run) widenAddr(a *Term, entry *State) *Term {
	root := Root(a)
	if root.K == KAlloc {
		found := false
		for _, x := range entry.alloc {
			if x == root {
				found = true
				break
			}
		}
		if !found {
			return nil // local to an iteration
		}
	}
	w := a
	for p := a; p != nil; p = parent(p) {
		if p.K == KElem {
			if _, ok := p.Args[1].IntVal(); !ok {
				w = p.Args[0]
			}
		}
	}
	if root.K != KAlloc && root.K != KParam && root.K != KGlobal && root.K != KFree {
		// addresses computed from iteration values (pointers loaded in the
		// loop) are named by their own terms; they stay valid
		return w
	}
	return w
}

// mergeOutcomes joins outcomes of an inlined call that return the same values
// in the same memory; the diverging events become alternatives.
func mergeOutcomes(outs []Outcome, base *Event, nalloc int) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []Outcome
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range outs {
		if o.Kind != "ret" {
			res = append(res, o)
			continue
		}
		gc(o.St, nalloc, o.Res)
		k := stateKey(o.St) + "|"
		for _, t := range o.Res {
			k += fmt.Sprintf("%d,", t.ID)
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		var sts []*State
		for _, o := range g {
			sts = append(sts, o.St)
		}
		o := g[0]
		o.St = mergeStates(sts, base)
		res = append(res, o)
	}
	return res
}

func mergeConts(cs []cont, base *Event, nalloc int) []cont {
	groups := map[string][]cont{}
	var order []string
	for _, c := range cs {
		var roots []*Term
		for _, v := range c.env.v {
			roots = append(roots, v)
		}
		gc(c.st, nalloc, roots)
		k := stateKey(c.st) + "|" + envKey(c.env)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], c)
	}
	var res []cont
	for _, k := range order {
		g := groups[k]
		if len(g) > 1 {
			var sts []*State
			for _, o := range g {
				sts = append(sts, o.st)
			}
			g[0].st = mergeStates(sts, base)
		}
		res = append(res, g[0])
	}
	return res
}

func envKey(e *env) string {
	var ks []string
	for v, t := range e.v {
		ks = append(ks, fmt.Sprintf("%p=%d", v, t.ID))
	}
	sort.Strings(ks)
	return fmt.Sprint(ks, len(e.defers))
}

func stateKey(s *State) string {
	k := ""
	for _, a := range s.Cells() {
		k += fmt.Sprintf("%d=%d;", a.ID, s.mem[a].ID)
	}
	var ms []string
	for m, v := range s.maps {
		ms = append(ms, fmt.Sprintf("%d=%p", m.ID, v))
	}
	sort.Strings(ms)
	return k + fmt.Sprint(ms)
}

// gc drops cells of allocations made since nalloc that cannot be reached.
func gc(s *State, nalloc int, roots []*Term) {
	if len(s.alloc) <= nalloc {
		return
	}
	fresh := map[*Term]bool{}
	for _, a := range s.alloc[nalloc:] {
		fresh[a] = true
	}
	live := map[*Term]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	mark = func(t *Term) {
		Walk(t, func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if fresh[x] && !live[x] {
				live[x] = true
				for a, v := range s.mem {
					if Root(a) == x {
						mark(v)
					}
				}
			}
			return true
		})
	}
	for _, t := range roots {
		mark(t)
	}
	for a, v := range s.mem {
		if !fresh[Root(a)] {
			mark(v)
		}
	}
	for a := range s.mem {
		if r := Root(a); fresh[r] && !live[r] {
			delete(s.mem, a)
		}
	}
	var keep []*Term
	for i, a := range s.alloc {
		if i < nalloc || live[a] {
			keep = append(keep, a)
		}
	}
	s.alloc = keep
}

func mergeStates(sts []*State, base *Event) *State {
	m := sts[0].Clone()
	f := sts[0].F
	for _, s := range sts[1:] {
		f = intersect(f, s.F)
		for k, v := range s.cnt {
			if v > m.cnt[k] {
				m.cnt[k] = v
			}
		}
		for _, a := range s.alloc {
			found := false
			for _, b := range m.alloc {
				if a == b {
					found = true
				}
			}
			if !found {
				m.alloc = append(m.alloc, a)
			}
		}
	}
	m.F = f
	// the longest common event prefix
	var lists [][]*Event
	min := -1
	for _, s := range sts {
		l := EventsSince(s.Ev, base)
		lists = append(lists, l)
		if min < 0 || len(l) < min {
			min = len(l)
		}
	}
	n := 0
	for n < min {
		same := true
		for _, l := range lists[1:] {
			if l[n] != lists[0][n] {
				same = false
			}
		}
		if !same {
			break
		}
		n++
	}
	if n > 0 {
		m.Ev = lists[0][n-1]
	} else {
		m.Ev = base
	}
	any := false
	var alts []Alt
	for i, l := range lists {
		if len(l) > n {
			any = true
		}
		alts = append(alts, Alt{Events: l[n:], Facts: sts[i].F})
	}
	if any {
		m.push(Event{Kind: "alt", Callee: "alt", Alts: alts})
	}
	return m
}
