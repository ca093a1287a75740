package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

var _ = token.ADD

// statusValid: a status is valid exactly if its code is known and its
// severity is the one defined for the code.
func (c *C) statusValid() {
	f := c.Lib("Status.Valid")
	if f == nil {
		return
	}
	st := f.Signature.Recv().Type()
	if p, ok := st.Underlying().(*types.Pointer); ok {
		st = p.Elem()
	}
	codeIdx, sevIdx := fieldIndex(st, "Code"), fieldIndex(st, "Severity")
	if codeIdx < 0 || sevIdx < 0 {
		c.Fail("specification", "Status.Valid", "", "Status has no Code or Severity")
		return
	}
	codeT := st.Underlying().(*types.Struct).Field(codeIdx).Type()
	sevT := st.Underlying().(*types.Struct).Field(sevIdx).Type()
	run := func(name string, set func(code *eng.Term, addr *eng.Term, st *eng.State) *eng.State, sev string) {
		r := c.Run()
		var sevV *eng.Term
		outs, _ := c.Analyze(r, f, func(s *eng.State, ps []*eng.Term) *eng.State {
			recv := ps[0]
			if recv.K == eng.KInit {
				recv = recv.Args[0]
			}
			ca := eng.FieldAddr(recv, codeIdx, types.NewPointer(codeT))
			sevV = s.Load(eng.FieldAddr(recv, sevIdx, types.NewPointer(sevT)), sevT)
			ns := set(s.Load(ca, codeT), ca, s)
			if ps[0].K == eng.KInit {
				ps[0] = ns.Load(recv, ps[0].Typ)
			}
			return ns
		})
		acc := 0
		for _, o := range outs {
			pos := c.W.InstrPos(o.Site)
			if o.Kind != "ret" {
				c.Fail("returns", "Status.Valid", pos, "ends by %s", o.Kind)
				continue
			}
			for pol, fs := range verdictPols(o.St.F, o.Res[0]) {
				for _, g := range fs {
					if pol {
						acc++
						c.Check(sev != "" && g.Holds(eng.Eq(sevV, eng.Str(sev)), true), "accepts only the defined severity", name, pos, "accepted with severity not known to be %q; path: %s", sev, g.Path())
					} else {
						c.Check(sev == "" || g.Holds(eng.Eq(sevV, eng.Str(sev)), false), "rejects only another severity", name, pos, "rejected although the severity may be %q; path: %s", sev, g.Path())
					}
				}
			}
		}
		if sev != "" {
			c.Check(acc > 0, "accepts the defined severity", name, c.W.Pos(f.Pos()), "no path accepts")
		} else {
			c.Check(acc == 0, "accepts no unknown code", name, c.W.Pos(f.Pos()), "an unknown code is accepted")
		}
	}
	for _, row := range tables.Status {
		row := row
		run("Status.Valid code "+itoa(row.Code), func(v, a *eng.Term, s *eng.State) *eng.State {
			s.Store(a, eng.Int(row.Code))
			return s
		}, row.Severity)
	}
	run("Status.Valid other codes", func(v, a *eng.Term, s *eng.State) *eng.State {
		for _, row := range tables.Status {
			if ss := s.Assume(eng.Eq(v, eng.Int(row.Code)), false); len(ss) > 0 {
				s = ss[0]
			}
		}
		return s
	}, "")
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// versionsPassed: every nested validation is given the version of the object
// that contains it.
func (c *C) versionsPassed() {
	n := 0
	for _, f := range c.W.Funcs {
		if !isVerdictMethod(f) || f.Pkg != c.W.Lib || f.Synthetic != "" || f.Name() != "Valid" {
			continue
		}
		name := eng.ShortName(f)
		_, outs, m := c.validRun(f)
		version := m.version
		if version == nil {
			i := fieldIndex(m.rt, "Version")
			if i < 0 || !isNamed(m.rt.Underlying().(*types.Struct).Field(i).Type(), "ofxVersion") {
				if hasNestedVersion(c.W, f) {
					c.Fail("own version passed on", name, c.W.Pos(f.Pos()), "passes on a version but has none of its own")
				}
				continue
			}
			vt := m.rt.Underlying().(*types.Struct).Field(i).Type()
			version = m.st.Load(eng.FieldAddr(m.recv, i, types.NewPointer(vt)), vt)
		}
		vt := version.Typ
		see := func(g *eng.Facts, pos string) {
			g.Truths(func(t *eng.Term, v bool) {
				if t.K != eng.KExtract || !eng.IsVerdict(t.Args[0]) {
					return
				}
				call := t.Args[0]
				if len(call.Args) < 2 {
					return
				}
				n++
				c.Check(call.Args[1] == version, "own version passed on", name+" -> "+call.CalleeName(), pos, "validated with version %s instead of its own (%s)", call.Args[1], vt)
			})
		}
		for _, o := range outs {
			see(o.St.F, c.W.InstrPos(o.Site))
			for _, l := range loopsIn(o.St) {
				for _, b := range l.Backs {
					see(b.St.F, c.W.InstrPos(o.Site))
				}
			}
		}
	}
	c.Check(n > 0, "own version passed on", "any", "", "no nested validation takes a version")
	c.marshalVersions()
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

func hasNestedVersion(w *eng.World, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, a := range ci.Common().Args {
					if isNamed(a.Type(), "ofxVersion") {
						return true
					}
				}
			}
		}
	}
	return false
}

// loopsIn lists the loops a path went through, nested ones included.
func loopsIn(st *eng.State) []*eng.LoopInfo {
	return loopsOf(st.Events(nil), map[*eng.LoopInfo]bool{})
}

func loopsOf(es []*eng.Event, seen map[*eng.LoopInfo]bool) (out []*eng.LoopInfo) {
	for _, e := range flatten(es) {
		if e.Kind != "loop" || seen[e.Loop] {
			continue
		}
		seen[e.Loop] = true
		out = append(out, e.Loop)
		for _, b := range e.Loop.Backs {
			out = append(out, loopsOf(b.St.Events(b.From), seen)...)
		}
	}
	return
}

// ---- C28 ----

type acc struct {
	c       *C
	m       *vm
	version *eng.Term
	fn      string
	loops   []*eng.LoopInfo
}

// listsOf splits a concatenation of lists into the lists it is made of.
func listsOf(t *eng.Term) []*eng.Term {
	switch t.K {
	case eng.KAppendS:
		return append(listsOf(t.Args[0]), listsOf(t.Args[1])...)
	case eng.KNil:
		return nil
	case eng.KSlice:
		if lo, ok := t.Args[1].IntVal(); ok && lo == 0 {
			if hi, ok := t.Args[2].IntVal(); ok && hi == 0 {
				return nil
			}
		}
	}
	return []*eng.Term{t}
}

func (c *C) responseValid() {
	f := c.Lib("Response.Valid")
	if f == nil {
		return
	}
	_, outs, m := c.validRun(f)
	version, _ := m.val("Version")
	m.version = version
	const fn = "Response.Valid"
	slices := messageSlices(m.rt)
	c.Check(len(slices) == 14, "message sets", fn, "", "Response has %d message lists", len(slices))
	signonOK := m.good("Signon").t
	if m.err != nil {
		c.Fail("specification", fn, "", "%v", m.err)
		return
	}
	nT, nF := 0, 0
	for _, o := range outs {
		pos := c.W.InstrPos(o.Site)
		if o.Kind != "ret" {
			c.Fail("returns", fn, pos, "ends by %s", o.Kind)
			continue
		}
		a := &acc{c: c, m: m, version: version, fn: fn, loops: loopsIn(o.St)}
		for pol, fs := range verdictPols(o.St.F, o.Res[0]) {
			for _, g := range fs {
				if pol {
					nT++
					// some accumulator known empty, over everything
					ok, why := false, "no list of failures is known to be empty"
					for _, x := range a.accumulators() {
						if g.LE(eng.LenOf(x), eng.Int(0), 0) != 1 && g.IsNil(x) != 1 {
							continue
						}
						if ok2, w := a.chain(x, g, signonOK, slices); ok2 {
							ok = true
						} else {
							why = w
						}
					}
					// or: a plain loop per list that only continues when valid
					if !ok {
						ok = g.Holds(signonOK, true)
						for _, s := range slices {
							cov, w := covered(o.St, g, m.load(s), func(st *eng.State, bf *eng.Facts, e *eng.Term) bool {
								return bf.Holds(m.verdictOf(emptyState(), e, msgElem(m, s)), true)
							}, msgElem(m, s))
							if !cov {
								ok = false
								_ = w
							}
						}
					}
					c.Check(ok, "valid only if everything is valid", fn, pos, "accepted although not everything was found valid: %s; path: %s", why, g.Path())
					c.Check(g.IsNil(o.Res[1]) == 1, "valid comes with nil", fn, pos, "error %s", o.Res[1])
					continue
				}
				nF++
				list := unwrap(o.Res[1])
				ok, why := a.chain(list, g, signonOK, slices)
				c.Check(ok, "every failure is reported", fn, pos, "the returned error does not hold every failure: %s; path: %s", why, g.Path())
				c.Check(g.LE(eng.Int(1), eng.LenOf(list), 0) == 1, "invalid only with a failure", fn, pos, "rejected although no failure may have been found; path: %s", g.Path())
			}
		}
	}
	c.Check(nT > 0 && nF > 0, "both verdicts", fn, c.W.Pos(f.Pos()), "only one verdict is possible")
	// each list is validated once
	for _, o := range outs {
		if o.Kind != "ret" {
			continue
		}
		for _, s := range slices {
			n := 0
			want := m.load(s)
			for _, l := range loopsIn(o.St) {
				for _, x := range (&acc{c: c, m: m, version: version, fn: fn}).loopLists(l, o.St.F) {
					if x == want {
						n++
					}
				}
			}
			if o.St.F.LE(eng.LenOf(want), eng.Int(0), 0) == 1 && n == 0 {
				n = 1
			}
			c.Check(n == 1, "validated once", fn+" "+s.name, c.W.InstrPos(o.Site), "the messages of %s are validated %d times", s.name, n)
		}
	}
	c.errInvalidError()
	c.errInvalidAdd()
}

func msgElem(m *vm, s msgSlice) types.Type { return s.typ.Underlying().(*types.Slice).Elem() }

type msgSlice struct {
	name string
	idx  int
	typ  types.Type
}

func messageSlices(t types.Type) (out []msgSlice) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "Message") {
			out = append(out, msgSlice{st.Field(i).Name(), i, st.Field(i).Type()})
		}
	}
	return
}

func (m *vm) load(s msgSlice) *eng.Term {
	return m.st.Load(eng.FieldAddr(m.recv, s.idx, types.NewPointer(s.typ)), s.typ)
}

func unwrap(t *eng.Term) *eng.Term {
	for t.K == eng.KIface {
		t = t.Args[0]
	}
	return t
}

// accumulators: loop-carried values that may hold the failures.
func (a *acc) accumulators() []*eng.Term {
	seen := map[*eng.Term]bool{}
	var out []*eng.Term
	add := func(t *eng.Term) {
		if t != nil && t.Typ != nil && !seen[t] {
			if _, ok := t.Typ.Underlying().(*types.Slice); ok && t.K == eng.KLoop {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	for _, l := range a.loops {
		for _, t := range l.Cells {
			add(t)
		}
		for _, t := range l.Phis {
			add(t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID > out[j].ID })
	return out
}

// loopLists: the message lists a loop enumerates completely.
func (a *acc) loopLists(l *eng.LoopInfo, g *eng.Facts) []*eng.Term {
	cand := map[*eng.Term]bool{}
	for _, b := range l.Backs {
		b.St.F.Truths(func(t *eng.Term, v bool) {
			if t.K == eng.KExtract && eng.IsVerdict(t.Args[0]) {
				x := t.Args[0].Args[0]
				if x.K == eng.KInit && x.Args[0].K == eng.KElem {
					cand[x.Args[0].Args[0]] = true
				}
			}
		})
	}
	var out []*eng.Term
	for list := range cand {
		if len(loopIndex(l, g, list)) > 0 {
			out = append(out, listsOf(list)...)
		}
	}
	return out
}

// chain: x holds the failures of the sign-on and of every message list.
func (a *acc) chain(x *eng.Term, g *eng.Facts, signonOK *eng.Term, slices []msgSlice) (bool, string) {
	need := map[*eng.Term]string{}
	for _, s := range slices {
		if g.LE(eng.LenOf(a.m.load(s)), eng.Int(0), 0) != 1 {
			need[a.m.load(s)] = s.name
		}
	}
	signon := false
	for depth := 0; depth < 64; depth++ {
		// the innermost value: nothing, or the sign-on's failure
		if isEmptyList(x) {
			if !signon && !g.Holds(signonOK, true) {
				return false, "a failed sign-on is not recorded"
			}
			for _, n := range need {
				return false, "the messages of " + n + " are not all recorded"
			}
			return true, ""
		}
		if x.K == eng.KAppend || x.K == eng.KAppendS {
			if len(x.Args) != 2 || !a.isErrOf(x.Args[1], signonOK) {
				return false, "something else is recorded: " + x.Args[1].String()
			}
			if !g.Holds(signonOK, false) || signon {
				return false, "the sign-on is recorded although it may be valid"
			}
			signon = true
			x = x.Args[0]
			continue
		}
		if x.K != eng.KLoop {
			return false, "the failures come from " + x.String()
		}
		l, entry, back := a.loopOfVal(x)
		if l == nil {
			return false, "the failures come from an unknown loop"
		}
		idxOK := false
		for list := range a.candidates(l) {
			ix := loopIndex(l, g, list)
			if len(ix) == 0 {
				continue
			}
			et := list.Typ.Underlying().(*types.Slice).Elem()
			okAll := len(l.Backs) > 0
			for i, b := range l.Backs {
				v := a.m.verdictOf(emptyState(), eng.ElemAddr(list, ix[0], types.NewPointer(et)), et)
				nv := back[i]
				switch {
				case nv == x:
					// nothing recorded: the message was valid
					if !b.St.F.Holds(v, true) {
						return false, "an invalid message may go unrecorded; path: " + b.St.F.Path()
					}
				case (nv.K == eng.KAppend || nv.K == eng.KAppendS) && len(nv.Args) == 2 && nv.Args[0] == x && a.isErrOf(nv.Args[1], v):
					if !b.St.F.Holds(v, false) {
						return false, "a valid message may be recorded as failed"
					}
				default:
					okAll = false
				}
			}
			if okAll {
				idxOK = true
				for _, p := range listsOf(list) {
					delete(need, p)
				}
			}
		}
		if !idxOK {
			return false, "a loop changes the recorded failures in another way"
		}
		x = entry
	}
	return false, "chain too long"
}

func isEmptyList(x *eng.Term) bool {
	if x.K == eng.KNil || x.K == eng.KZero {
		return true
	}
	if x.K == eng.KSlice {
		v, ok := eng.LenOf(x).IntVal()
		return ok && v == 0
	}
	return false
}

func (a *acc) candidates(l *eng.LoopInfo) map[*eng.Term]bool {
	cand := map[*eng.Term]bool{}
	for _, b := range l.Backs {
		b.St.F.Truths(func(t *eng.Term, v bool) {
			if t.K == eng.KExtract && eng.IsVerdict(t.Args[0]) {
				x := t.Args[0].Args[0]
				if x.K == eng.KInit && x.Args[0].K == eng.KElem {
					cand[x.Args[0].Args[0]] = true
				}
			}
		})
	}
	return cand
}

// isErrOf: e is the error that came with verdict v (possibly unwrapped).
func (a *acc) isErrOf(e, v *eng.Term) bool {
	e = unwrap(e)
	if e.K == eng.KAssert {
		e = e.Args[0]
	}
	return e.K == eng.KExtract && e.I == 1 && v.K == eng.KExtract && e.Args[0] == v.Args[0]
}

// loopOfVal finds the loop a loop-carried value belongs to, its value on
// entry and after each round.
func (a *acc) loopOfVal(x *eng.Term) (l *eng.LoopInfo, entry *eng.Term, back []*eng.Term) {
	for _, l := range a.loops {
		for ad, t := range l.Cells {
			if t == x {
				for _, b := range l.Backs {
					back = append(back, b.St.Load(ad, x.Typ))
				}
				return l, l.EntCl[ad], back
			}
		}
		for p, t := range l.Phis {
			if t == x {
				for _, b := range l.Backs {
					back = append(back, b.Phis[p])
				}
				return l, l.EntPh[p], back
			}
		}
	}
	return nil, nil, nil
}

// errInvalidError: the text of a collected error holds the text of each one.
func (c *C) errInvalidError() {
	f := c.Lib("errInvalid.Error")
	if f == nil {
		return
	}
	r := c.Run()
	outs, ps := c.Analyze(r, f, nil)
	for _, o := range outs {
		pos := c.W.InstrPos(o.Site)
		if o.Kind != "ret" {
			continue
		}
		if o.St.F.LE(eng.LenOf(ps[0]), eng.Int(0), 0) == 1 {
			continue
		}
		ok := false
		for _, l := range loopsIn(o.St) {
			a := &acc{loops: []*eng.LoopInfo{l}}
			for _, idx := range loopIndex(l, o.St.F, ps[0]) {
				et := ps[0].Typ.Underlying().(*types.Slice).Elem()
				ea := eng.ElemAddr(ps[0], idx, types.NewPointer(et))
				eng.Walk(o.Res[0], func(t *eng.Term) bool {
					if t.K == eng.KLoop {
						_, _, back := a.loopOfVal(t)
						all := len(back) > 0
						for i, bv := range back {
							txt := eng.PureCall("(error).Error", []*eng.Term{l.Backs[i].St.Load(ea, et)}, types.Typ[types.String])
							all = all && eng.Contains(bv, t) && eng.Contains(bv, txt)
						}
						ok = ok || all
					}
					return true
				})
			}
		}
		c.Check(ok, "text of every failure", "errInvalid.Error", pos, "the text does not contain every failure's text: %s", o.Res[0])
	}
}

// errInvalidAdd is decided where it is inlined; ErrOrNil too.
func (c *C) errInvalidAdd() {}

func init() {
	reg("C28", 18, "Response.Valid is analysed with the nested validations opaque. On every return the list of collected failures is followed back through the loops that built it: each loop must enumerate all indices of one of the fourteen message lists (found from the type of the struct), record an element's error exactly when its validation (called with the response's own version) failed, and leave the list alone when it succeeded; the sign-on must be recorded exactly when invalid; true is only returned when such a complete list is empty.", (*C).responseValid)
}
