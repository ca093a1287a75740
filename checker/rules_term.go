package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C09: decoding terminates ----

func (c *C) terminates() {
	d := c.decWorld()
	if d == nil {
		return
	}
	var roots []*ssa.Function
	for _, n := range []string{"ParseResponse", "DecodeResponse"} {
		if f := c.Lib(n); f != nil {
			roots = append(roots, f)
		}
	}
	um := map[*types.Named]*ssa.Function{}
	var named []*types.Named
	for _, mem := range sortedMembers(c.W.Lib) {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok || types.IsInterface(n) {
			continue
		}
		sel := types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), "UnmarshalXML")
		if sel == nil {
			continue
		}
		f := c.W.Prog.MethodValue(sel)
		um[n] = f
		named = append(named, n)
		roots = append(roots, f)
	}
	// what can be reached
	reach := map[*ssa.Function]bool{}
	var order []*ssa.Function
	callees := map[*ssa.Function][]*ssa.Function{}
	work := append([]*ssa.Function(nil), roots...)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if reach[f] {
			continue
		}
		reach[f] = true
		order = append(order, f)
		callees[f] = c.W.Callees(f)
		work = append(work, callees[f]...)
	}
	sort.Slice(order, func(i, j int) bool { return eng.FnName(order[i]) < eng.FnName(order[j]) })
	// recursion
	c.noRecursion(order, callees)
	// loops
	seen := map[*ssa.BasicBlock]bool{}
	hook := func(r *eng.Run) {
		r.OnLoop = func(l *eng.LoopInfo) {
			seen[l.Header] = true
			c.progress(d, l)
		}
		r.OnUnroll = func(f *ssa.Function, h *ssa.BasicBlock) {
			seen[h] = true
			c.Check(true, "each round of a loop makes progress", loopName(c, f, h), "", "")
		}
	}
	c.decodeResponse(hook)
	edges := map[*types.Named][]*types.Named{}
	for _, n := range named {
		f := um[n]
		if !c.W.InModule(f) || len(f.Params) < 3 {
			continue
		}
		r := c.Run()
		hook(r)
		outs, ps := c.Analyze(r, f, nil)
		edges[n] = c.ownStart(d, outs, ps)
	}
	for _, f := range order {
		missing := false
		for _, h := range c.W.LoopHeaders(f) {
			missing = missing || !seen[h]
		}
		if missing {
			r := c.Run()
			hook(r)
			c.Analyze(r, f, nil)
		}
		for _, h := range c.W.LoopHeaders(f) {
			c.Check(seen[h], "every loop is analysed", loopName(c, f, h), c.W.InstrPos(h.Instrs[0]), "the loop was not reached by the analysis")
		}
	}
	// reading one's own element through a type that reads it again
	for _, n := range named {
		c.Check(!reaches(edges, n, n, map[*types.Named]bool{}), "no type reads its own element again", n.Obj().Name(), c.W.Pos(um[n].Pos()), "UnmarshalXML of %s decodes its own start tag into a type that ends up in the same method", n.Obj().Name())
	}
}

func reaches(e map[*types.Named][]*types.Named, a, b *types.Named, seen map[*types.Named]bool) bool {
	for _, x := range e[a] {
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			if reaches(e, x, b, seen) {
				return true
			}
		}
	}
	return false
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var out []ssa.Member
	for _, k := range sortedKeys(p.Members) {
		out = append(out, p.Members[k])
	}
	return out
}

func loopName(c *C, f *ssa.Function, h *ssa.BasicBlock) string {
	for i, x := range c.W.LoopHeaders(f) {
		if x == h {
			return eng.ShortName(f) + " loop " + itoa(int64(i+1))
		}
	}
	return eng.ShortName(f)
}

// ownStart lists the types with an UnmarshalXML method that a method decodes
// its own element into before taking anything from the decoder.
func (c *C) ownStart(d *dw, outs []eng.Outcome, ps []*eng.Term) []*types.Named {
	m := map[*types.Named]bool{}
	for i := range outs {
		for _, e := range flatten(outs[i].St.Events(nil)) {
			if e.Kind == "loop" {
				// the loop's rounds may start with it too
				for _, b := range e.Loop.Backs {
					for _, x := range flatten(b.St.Events(b.From)) {
						if isDecoderCall(x) {
							c.ownTarget(x, m)
							break
						}
					}
				}
				continue
			}
			if !isDecoderCall(e) {
				continue
			}
			c.ownTarget(e, m)
			break
		}
	}
	var out []*types.Named
	for n := range m {
		out = append(out, n)
	}
	return out
}

func (c *C) ownTarget(e *eng.Event, m map[*types.Named]bool) {
	if !strings.HasSuffix(e.Callee, ".DecodeElement") || len(e.Args) < 2 {
		return
	}
	t := ifaceType(e.Args[1])
	if t == nil {
		return
	}
	if n, ok := elemOfPtr(t).(*types.Named); ok && hasMethod(types.NewPointer(n), "UnmarshalXML") {
		m[n] = true
	}
}

func (c *C) noRecursion(order []*ssa.Function, callees map[*ssa.Function][]*ssa.Function) {
	for _, f := range order {
		// can f reach itself?
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function(nil), callees[f]...)
		cyc := false
		for len(work) > 0 && !cyc {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == f {
				cyc = true
			}
			if seen[g] {
				continue
			}
			seen[g] = true
			work = append(work, callees[g]...)
		}
		c.Check(!cyc, "no decoding function calls itself", eng.ShortName(f), c.W.Pos(f.Pos()), "%s can end up calling itself", eng.ShortName(f))
	}
}

// progress: every round consumes a token, moves a bounded counter, or leaves a
// text strictly shorter.
func (c *C) progress(d *dw, l *eng.LoopInfo) {
	con := loopName(c, l.Fn, l.Header)
	pos := c.W.InstrPos(l.Header.Instrs[0])
	c.Check(true, "each round of a loop makes progress", con, pos, "")
	for _, in := range l.Header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return // range over a map or string
		}
	}
	for _, b := range l.Backs {
		if !c.backProgress(d, l, b) {
			c.Fail("each round of a loop makes progress", con, pos, "a round consumes nothing: %s", tail(b.St.F.Path(), 160))
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

func (c *C) backProgress(d *dw, l *eng.LoopInfo, b *eng.BackInfo) bool {
	g := b.St.F
	for _, it := range d.items(g, b.St.Events(b.From)) {
		if it.err != nil && (it.kind == "tok" || it.kind == "dec") && g.IsNil(it.err) == 1 {
			return true
		}
	}
	inRound := map[*eng.Term]bool{}
	for _, e := range flatten(b.St.Events(b.From)) {
		if e.Result != nil {
			inRound[e.Result] = true
		}
		if !isDecoderCall(e) || e.Result == nil {
			continue
		}
		switch strings.TrimPrefix(e.Callee, decoderPfx) {
		case "Token":
			rs := e.Result.Typ.(*types.Tuple)
			if x := eng.Extract(e.Result, 1, rs.At(1).Type()); g.IsNil(x) == 1 || stopsOn(l, b, x) {
				return true
			}
		case "DecodeElement", "Decode", "Skip":
			if g.IsNil(e.Result) == 1 || stopsOn(l, b, e.Result) {
				return true
			}
		}
	}
	varies := func(x *eng.Term) bool {
		bad := false
		eng.Walk(x, func(t *eng.Term) bool {
			if inRound[t] {
				bad = true
			}
			for _, h := range l.Phis {
				if h == t && t.K == eng.KLoop {
					bad = true
				}
			}
			for _, h := range l.Cells {
				if h == t {
					bad = true
				}
			}
			return !bad
		})
		return bad
	}
	for t, in := range l.Ind {
		if in.Step == 0 {
			continue
		}
		for _, s := range []*eng.Term{t, eng.Bin(token.ADD, t, eng.Int(in.Step), t.Typ)} {
			for _, x := range g.Bounds(s, in.Step > 0) {
				if x == nil || !varies(x) {
					return true
				}
			}
		}
	}
	for a, h := range l.Cells {
		if shorter(g, b.St.Load(a, h.Typ), h) == 1 {
			return true
		}
	}
	for p, h := range l.Phis {
		if h.K == eng.KLoop && b.Phis[p] != nil && shorter(g, b.Phis[p], h) == 1 {
			return true
		}
	}
	return false
}

// stopsOn: the error is carried to the next round, and no round that repeats
// starts with an error: a round taking nothing is the last.
func stopsOn(l *eng.LoopInfo, b *eng.BackInfo, err *eng.Term) bool {
	for p, v := range b.Phis {
		if v != err || l.Phis[p] == nil {
			continue
		}
		all := true
		for _, x := range l.Backs {
			if x.St.F.IsNil(l.Phis[p]) != 1 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// shorter compares texts or slices: 1 when v is certainly shorter than h, 0
// when it is no longer, -1 when nothing is known.
func shorter(f *eng.Facts, v, h *eng.Term) int {
	if v == h {
		return 0
	}
	switch v.K {
	case eng.KConv:
		return shorter(f, v.Args[0], h)
	case eng.KCall:
		n := v.CalleeName()
		if strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "bytes.Trim") {
			return shorter(f, v.Args[0], h)
		}
	case eng.KExtract:
		n := v.Args[0].CalleeName()
		if v.Args[0].K == eng.KCall && (n == "strings.Cut" || n == "bytes.Cut") && v.I < 2 {
			s := shorter(f, v.Args[0].Args[0], h)
			if s == 0 && f.Holds(eng.Extract(v.Args[0], 2, types.Typ[types.Bool]), true) && nonEmptyText(v.Args[0].Args[1]) {
				return 1
			}
			return s
		}
	case eng.KInit, eng.KElemOf, eng.KLookup:
		// an element of a split
		x := v.Args[0]
		var list *eng.Term
		switch {
		case v.K == eng.KInit && x.K == eng.KElem:
			list = x.Args[0]
		case v.K == eng.KElemOf:
			list = x
		}
		if list == nil || list.K != eng.KCall {
			return -1
		}
		n := list.CalleeName()
		if !strings.HasSuffix(n, ".SplitN") && !strings.HasSuffix(n, ".Split") {
			return -1
		}
		s := shorter(f, list.Args[0], h)
		if s == 0 && nonEmptyText(list.Args[1]) {
			if lo, _ := f.Range(eng.LenOf(list)); lo >= 2 {
				return 1
			}
		}
		return s
	case eng.KSlice:
		s := shorter(f, v.Args[0], h)
		if s == 0 && v.Args[1].K != eng.KNone {
			if lo, _ := f.Range(v.Args[1]); lo >= 1 {
				return 1
			}
		}
		return s
	}
	return -1
}

func nonEmptyText(t *eng.Term) bool {
	t = deconv(t)
	if s, ok := t.StrVal(); ok {
		return s != ""
	}
	lo, _ := (&eng.Run{}).NewState().F.Range(eng.LenOf(t))
	return lo >= 1
}

func init() {
	reg("C09", 100, "every loop of every function reachable from the parse functions and from the UnmarshalXML methods is summarised; each of its rounds has to take a token or element from the decoder successfully, move a counter with a fixed bound, or leave a text strictly shorter; the call graph and the own-element decoding graph must have no cycle", func(c *C) { c.terminates() })
}
