package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C06 ----

// res is something that has to be released on every path.
type res struct {
	what string
	ev   *eng.Event
	resp *eng.Term // the response, when it is one
	is   func(t *eng.Term) bool
}

// acquired lists what the events acquire, as far as the path's facts say the
// acquisition may have succeeded.
func (c *C) acquired(st *eng.State, evs []*eng.Event) (out []res) {
	for _, e := range evs {
		if e.Kind != "call" || e.Result == nil {
			continue
		}
		k := netKind(e.Callee)
		part := func(i int) func(t *eng.Term) bool {
			ev := e
			return func(t *eng.Term) bool {
				t = unwrap(t)
				for t.K == eng.KAssert {
					t = unwrap(t.Args[0])
				}
				return t.K == eng.KExtract && t.Args[0] == ev.Result && t.I == i
			}
		}
		failed := st.F.IsNil(eng.Extract(e.Result, 1, errType)) == -1
		switch {
		case e.Callee == "net/http.ReadResponse" || k == "do" || k == "trip" || k == "plain" || strings.HasSuffix(e.Callee, "ofxgo.Client).RequestNoParse") || strings.HasSuffix(e.Callee, "ofxgo.Client).RawRequest"):
			if failed {
				continue
			}
			r := eng.Extract(e.Result, 0, types.NewPointer(c.httpType("Response")))
			is := part(0)
			out = append(out, res{"response of " + e.Callee, e, r, func(t *eng.Term) bool {
				p := fieldPath(unwrap(t))
				return p != nil && p.name == "Body" && is(p.base)
			}})
		case k == "dial":
			if failed {
				continue
			}
			out = append(out, res{"connection of " + e.Callee, e, nil, part(0)})
		case e.Callee == "os.Create" || e.Callee == "os.Open" || e.Callee == "os.OpenFile" || e.Callee == "os.CreateTemp":
			if failed {
				continue
			}
			out = append(out, res{"file of " + e.Callee, e, nil, part(0)})
		}
	}
	return
}

func isClose(e *eng.Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Callee, ").Close") && len(e.Args) == 1
}

// closes tells which fields a Close method closes on every path.
func (c *C) closes(t types.Type) map[int]bool {
	if c.closeMemo == nil {
		c.closeMemo = map[string]map[int]bool{}
	}
	key := t.String()
	if m, ok := c.closeMemo[key]; ok {
		return m
	}
	m := map[int]bool{}
	c.closeMemo[key] = m
	sel := types.NewMethodSet(t).Lookup(nil, "Close")
	if sel == nil {
		return m
	}
	f := c.W.Prog.MethodValue(sel)
	if f == nil || len(f.Blocks) == 0 || !c.W.InModule(f) {
		return m
	}
	outs, ps := c.Analyze(c.Run(), f, nil)
	first := true
	for i := range outs {
		if outs[i].Kind != "ret" {
			continue
		}
		here := map[int]bool{}
		for _, e := range eventsOf(outs[i].St) {
			if !isClose(e) {
				continue
			}
			if p := deconv(unwrap(e.Args[0])); p.K == eng.KInit && p.Args[0].K == eng.KField && p.Args[0].Args[0] == ps[0] {
				here[p.Args[0].I] = true
			} else if p.K == eng.KFieldOf && p.Args[0].K == eng.KInit && p.Args[0].Args[0] == ps[0] {
				here[p.I] = true
			}
		}
		if first {
			for k := range here {
				m[k] = true
			}
			first = false
		} else {
			for k := range m {
				if !here[k] {
					delete(m, k)
				}
			}
		}
	}
	return m
}

// handedOver: the resource is in the body of the returned response, so that
// the caller's Close releases it.
func (c *C) handedOver(st *eng.State, r res, ret *eng.Term) bool {
	if ret == nil || structOf(ret.Typ) == nil {
		return false
	}
	b := loadField(st, ret, "Body")
	return b != nil && c.inside(st, r, b, 0)
}

func (c *C) inside(st *eng.State, r res, b *eng.Term, depth int) bool {
	if r.is(b) {
		return true
	}
	if b.K == eng.KConv || b.K == eng.KAssert {
		return c.inside(st, r, b.Args[0], depth)
	}
	if b.K != eng.KIface || depth > 3 {
		return false
	}
	t := b.Typ2
	s := structOf(t)
	if s == nil {
		return false
	}
	for k := range c.closes(t) {
		ft := s.Field(k).Type()
		var v *eng.Term
		if _, ok := t.Underlying().(*types.Pointer); ok {
			v = st.Load(eng.FieldAddr(b.Args[0], k, types.NewPointer(ft)), ft)
		} else {
			v = eng.FieldOf(b.Args[0], k, ft)
		}
		if v != nil && c.inside(st, r, v, depth+1) {
			return true
		}
	}
	return false
}

// released: a Close of the resource follows its acquisition.
func released(evs []*eng.Event, r res) bool {
	seen := false
	for _, e := range evs {
		if e == r.ev {
			seen = true
			continue
		}
		if seen && isClose(e) && r.is(e.Args[0]) {
			return true
		}
	}
	return false
}

// releaseRule: everything acquired on the path is released on it or handed
// to the caller; what a round of a loop acquires is released in the round.
func (c *C) releaseRule(o *eng.Outcome, con string, sites map[ssa.Instruction]bool) int {
	n := 0
	var rounds func(evs []*eng.Event)
	rounds = func(evs []*eng.Event) {
		for _, e := range flatten(evs) {
			if e.Kind != "loop" {
				continue
			}
			for _, b := range e.Loop.Backs {
				es := flatten(b.St.Events(b.From))
				for _, r := range c.acquired(b.St, es) {
					n++
					sites[r.ev.Site] = true
					c.Check(released(es, r), "released on every path", con, c.W.InstrPos(r.ev.Site), "the %s is not closed before the next round; path: %s", r.what, b.St.F.Path())
				}
				rounds(es)
			}
		}
	}
	top := flatten(o.St.Events(nil))
	rounds(top)
	var ret *eng.Term
	if len(o.Res) > 0 {
		ret = o.Res[0]
	}
	for _, r := range c.acquired(o.St, top) {
		n++
		sites[r.ev.Site] = true
		ok := released(top, r) || c.handedOver(o.St, r, ret)
		c.Check(ok, "released on every path", con, c.W.InstrPos(r.ev.Site), "the %s is neither closed nor handed over when %s returns at %s; path: %s", r.what, con, c.W.InstrPos(o.Site), o.St.F.Path())
	}
	return n
}

func (c *C) releaseRules() {
	sites := map[ssa.Instruction]bool{}
	for _, x := range c.clientRuns("RawRequest", "RequestNoParse", "Request") {
		n := 0
		for i := range x.outs {
			if x.outs[i].Kind == "ret" {
				n += c.releaseRule(&x.outs[i], x.name(), sites)
			}
		}
		c.Check(n > 0, "acquisition analysed", x.name(), c.W.Pos(x.fn.Pos()), "no response is obtained on any path")
		for i := range x.outs {
			c.markSites(&x.outs[i], sites)
		}
	}
	n := 0
	for _, f := range c.commandRoots() {
		r := c.cmdRun(f)
		outs, _ := c.Analyze(r, f, nil)
		for i := range outs {
			if outs[i].Kind == "ret" {
				n += c.releaseRule(&outs[i], f.Name(), sites)
			}
			c.markSites(&outs[i], sites)
		}
	}
	c.Check(n >= 4, "acquisition analysed", "command-line tool", "", "only %d acquisitions found", n)
	// every acquisition of the module has been seen on some path
	for _, f := range c.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || sites[in] {
					continue
				}
				nm := calleeName(ci.Common())
				if acquires(nm) {
					c.Fail("acquisition analysed", eng.ShortName(f), c.W.InstrPos(in), "%s is called where no analysed path leads", nm)
				}
			}
		}
	}
}

func acquires(nm string) bool {
	switch nm {
	case "net/http.ReadResponse", "os.Create", "os.Open", "os.OpenFile", "os.CreateTemp":
		return true
	}
	k := netKind(nm)
	return k == "do" || k == "trip" || k == "plain" || k == "dial"
}

func (c *C) markSites(o *eng.Outcome, sites map[ssa.Instruction]bool) {
	for _, e := range eventsOf(o.St) {
		if e.Kind == "call" && acquires(e.Callee) {
			sites[e.Site] = true
		}
	}
}

// commandRoots are the tool's functions without parameters and results: the
// commands, their flag checks excepted, and their steps.
func (c *C) commandRoots() (out []*ssa.Function) {
	for _, f := range c.W.Funcs {
		if isCmdRoot(c.W, f) {
			out = append(out, f)
		}
	}
	return
}

func isCmdRoot(w *eng.World, f *ssa.Function) bool {
	return f.Pkg == w.Cmd && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && f.Parent() == nil && !strings.HasPrefix(f.Name(), "init")
}

// cmdRun is a run over one of the tool's functions in which the others that
// are analysed on their own are single events.
func (c *C) cmdRun(f *ssa.Function) *eng.Run {
	r := c.Run()
	r.NoUnroll = true
	r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
		if g != f && isCmdRoot(c.W, g) {
			return eng.Impure
		}
		return cmdPolicy(g, ctx)
	}
	r.PolicyObj = cmdPolicyObj
	return r
}

// cmdPolicy follows the tool's own functions; the library's stay single
// events.
func cmdPolicy(f *ssa.Function, ctx *eng.Ctx) eng.Mode {
	if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "aclindsa/ofxgo") && f.Parent() == nil {
		if f.Signature.Recv() != nil && isSetting(f.Name()) || f.Name() == "Valid" || f.Name() == "String" {
			return eng.Pure
		}
		return eng.Impure
	}
	return eng.Auto
}

func cmdPolicyObj(m *types.Func) eng.Mode {
	if isSetting(m.Name()) {
		return eng.Pure
	}
	return eng.Auto
}

func init() {
	reg("C06", 20, "Every path of every client entry point and of every command is followed with helpers inlined. A response, connection or file whose acquisition may have succeeded on the path has to meet a Close on it (deferred calls included) before the path returns, or be inside the body of the returned response, where the analysed Close of a wrapping body has to close it. Paths that end the process are exempt.", (*C).releaseRules)
}
