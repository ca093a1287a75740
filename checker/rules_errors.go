package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C07 ----

func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 || !types.Identical(sig.Results().At(n-1).Type(), errType) {
		return -1
	}
	return n - 1
}

// verdictSig: the results are (bool, error).
func verdictSig(sig *types.Signature) bool {
	if errIndex(sig) != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// verdict: the module's function answers true exactly with a nil error.
func (c *C) verdict(f *ssa.Function) bool {
	if f == nil || !verdictSig(f.Signature) || !c.W.InModule(f) {
		return false
	}
	if v, ok := c.verdictMemo[f]; ok {
		return v
	}
	if c.verdictMemo == nil {
		c.verdictMemo = map[*ssa.Function]bool{}
	}
	c.verdictMemo[f] = true
	outs, _ := c.failureRun(f)
	v := true
	for i := range outs {
		o := &outs[i]
		if o.Kind != "ret" {
			continue
		}
		b, n := o.St.F.Eval(o.Res[0]), o.St.F.IsNil(o.Res[1])
		same := o.Res[0].K == eng.KExtract && o.Res[1].K == eng.KExtract && o.Res[0].Args[0] == o.Res[1].Args[0] || b == -1 && o.Res[1].K == eng.KExtract && o.Res[1].I == 1
		if !(same || b != 0 && b == n) {
			v = false
		}
	}
	c.verdictMemo[f] = v
	return v
}

// neverFails: the calls whose error is documented to be always nil, or is of
// no consequence for the library's result.
func neverFails(e *eng.Event) bool {
	switch {
	case strings.HasSuffix(e.Callee, ").Close"):
		return true
	case strings.HasPrefix(e.Callee, "(*bytes.Buffer).Write"), strings.HasPrefix(e.Callee, "(*strings.Builder).Write"):
		return true
	case strings.HasPrefix(e.Callee, "fmt.Fprint") || e.Callee == "io.WriteString":
		if len(e.Args) > 0 && e.Args[0].K == eng.KIface {
			t := e.Args[0].Typ2.String()
			return t == "*bytes.Buffer" || t == "*strings.Builder"
		}
	case strings.HasPrefix(e.Callee, "errors.") || e.Callee == "fmt.Errorf":
		return true
	case e.Callee == "(*bufio.Reader).Peek": // what is peeked at is read again
		return true
	}
	return false
}

// errOf is the error a call event produced.
func errOf(e *eng.Event) (*eng.Term, *types.Signature) {
	if e.Kind != "call" || e.Result == nil {
		return nil, nil
	}
	sig := sigOf(e)
	if sig == nil {
		return nil, nil
	}
	k := errIndex(sig)
	if k < 0 {
		return nil, nil
	}
	if sig.Results().Len() == 1 {
		return e.Result, sig
	}
	return eng.Extract(e.Result, k, errType), sig
}

func sigOf(e *eng.Event) *types.Signature {
	if ci, ok := e.Site.(ssa.CallInstruction); ok {
		cm := ci.Common()
		return cm.Signature()
	}
	return nil
}

// nilError: the path's facts say that the call did not fail.
func (c *C) nilError(f *eng.Facts, e *eng.Event, err *eng.Term, sig *types.Signature) bool {
	if f.IsNil(err) == 1 {
		return true
	}
	if verdictSig(sig) && (c.verdict(calleeOf(e)) || strings.HasSuffix(e.Callee, ").Valid")) {
		b := eng.Extract(e.Result, 0, sig.Results().At(0).Type())
		return f.Eval(b) == 1
	}
	return false
}

func calleeOf(e *eng.Event) *ssa.Function {
	if ci, ok := e.Site.(ssa.CallInstruction); ok {
		return ci.Common().StaticCallee()
	}
	return nil
}

type failure struct {
	e   *eng.Event
	at  int
	why string
}

// failures lists the calls of a path that may have failed, those of the
// rounds of its loops included, and the calls that succeeded. An error that
// is carried in a loop's variable is judged by that variable: it has to be
// nil when it is overwritten and after the loop, or be what is returned.
func (c *C) failures(st *eng.State, evs []*eng.Event, ret *eng.Term) (bad []failure, good []failure) {
	carried := func(err *eng.Term, from int) bool {
		for again := true; again; {
			again = false
			for i := from; i < len(evs); i++ {
				l := evs[i].Loop
				if evs[i].Kind != "loop" {
					continue
				}
				for p, v := range l.EntPh {
					if v != err {
						continue
					}
					if !overwrittenNil(l, p) {
						return false
					}
					if st.F.IsNil(l.Phis[p]) == 1 || ret == l.Phis[p] {
						return true
					}
					err, from, again = l.Phis[p], i+1, true
				}
			}
		}
		return false
	}
	for i, e := range evs {
		if e.Kind == "loop" {
			for _, b := range e.Loop.Backs {
				fs, _ := c.failures(b.St, flatten(b.St.Events(b.From)), nil)
				for _, x := range fs {
					err, _ := errOf(x.e)
					ok := false
					for p, v := range b.Phis {
						if err != nil && v == err && overwrittenNil(e.Loop, p) && (st.F.IsNil(e.Loop.Phis[p]) == 1 || ret == e.Loop.Phis[p] || carried(e.Loop.Phis[p], i+1)) {
							ok = true
						}
					}
					if !ok {
						bad = append(bad, failure{x.e, i, "in a round of a loop; path: " + b.St.F.Path()})
					}
				}
			}
			continue
		}
		if e.Kind == "call" && strings.HasPrefix(e.Callee, "(*math/big.") && strings.HasSuffix(e.Callee, ").SetString") {
			if st.F.Eval(eng.Extract(e.Result, 1, types.Typ[types.Bool])) == 1 {
				good = append(good, failure{e, i, ""})
			} else {
				bad = append(bad, failure{e, i, "path: " + st.F.Path()})
			}
			continue
		}
		err, sig := errOf(e)
		if err == nil || neverFails(e) {
			continue
		}
		if c.nilError(st.F, e, err, sig) || carried(err, i+1) {
			good = append(good, failure{e, i, ""})
		} else {
			bad = append(bad, failure{e, i, "path: " + st.F.Path()})
		}
	}
	return
}

// overwrittenNil: a round of the loop gives the variable another value only
// when it is nil.
func overwrittenNil(l *eng.LoopInfo, p *ssa.Phi) bool {
	for _, b := range l.Backs {
		if b.Phis[p] != l.Phis[p] && b.St.F.IsNil(l.Phis[p]) != 1 {
			return false
		}
	}
	return true
}

// errorMaker: the function only makes an error, or dresses up one it is given.
func errorMaker(f *ssa.Function) bool {
	if f.Signature.Results().Len() != 1 || errIndex(f.Signature) != 0 {
		return false
	}
	given := false
	for i := 0; i < f.Signature.Params().Len(); i++ {
		given = given || types.Identical(f.Signature.Params().At(i).Type(), errType)
	}
	makes := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.Call:
			n := calleeName(&x.Call)
			return n == "errors.New" || n == "fmt.Errorf"
		}
		return given
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				n := calleeName(ci.Common())
				if errIndex(ci.Common().Signature()) >= 0 && !strings.HasPrefix(n, "errors.") && n != "fmt.Errorf" {
					return false
				}
			}
			if r, ok := in.(*ssa.Return); ok {
				v := []ssa.Value{r.Results[0]}
				if p, ok := v[0].(*ssa.Phi); ok {
					v = p.Edges
				}
				for _, x := range v {
					if !makes(x) {
						return false
					}
				}
			}
		}
	}
	return true
}

// another: a later call is another attempt at what an earlier one failed to
// do: the same function of plain values, given one of the same values.
func another(a, b *eng.Event) bool {
	sig := sigOf(a)
	if a.Callee != b.Callee || sig == nil || sig.Recv() != nil || len(a.Args) != len(b.Args) {
		return false
	}
	same := false
	for i, x := range a.Args {
		if i >= sig.Params().Len() {
			return false
		}
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
		same = same || x == b.Args[i] && x.K != eng.KConst
	}
	return same
}

func (c *C) failureRules() {
	n := 0
	for _, f := range c.W.Funcs {
		if f.Pkg != c.W.Lib || f.Synthetic != "" || strings.HasPrefix(f.Name(), "init") {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if c.verdict(root) || c.validator(root) {
			continue
		}
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && (errIndex(ci.Common().Signature()) >= 0 || strings.HasSuffix(calleeName(ci.Common()), ").SetString")) {
					calls = true
				}
			}
		}
		if !calls {
			continue
		}
		n++
		c.failureRule(f)
	}
	c.Check(n > 50, "functions with failing steps", "library", "", "only %d functions found", n)
	for _, m := range []string{"Request", "Response"} {
		f := c.Lib(m + ".Marshal")
		if f == nil {
			continue
		}
		outs, _ := c.failureRun(f)
		for i := range outs {
			o := &outs[i]
			if o.Kind == "ret" && o.St.F.IsNil(o.Res[1]) != 1 {
				ok := o.St.F.IsNil(o.Res[0]) == 1
				if !ok && o.Res[0].K == eng.KExtract && o.Res[1].K == eng.KExtract && o.Res[0].Args[0] == o.Res[1].Args[0] {
					ok = true // both are another marshalling call's
				}
				c.Check(ok, "no document with an error", m+".Marshal", c.W.InstrPos(o.Site), "returns %s along with an error", o.Res[0])
			}
		}
	}
}

// validator: judged by its verdicts; so are the helpers that only validators
// call.
func (c *C) validator(f *ssa.Function) bool {
	return c.validatorAt(f, 0)
}

func (c *C) validatorAt(f *ssa.Function, depth int) bool {
	if !verdictSig(f.Signature) {
		return false
	}
	if f.Name() == "Valid" {
		return true
	}
	if f.Object() == nil || f.Object().Exported() || depth > 4 {
		return false
	}
	n := 0
	for _, g := range c.W.Funcs {
		for _, h := range c.W.Callees(g) {
			if h != f {
				continue
			}
			n++
			for g.Parent() != nil {
				g = g.Parent()
			}
			if !c.validatorAt(g, depth+1) {
				return false
			}
		}
	}
	return n > 0
}

func (c *C) failureRun(f *ssa.Function) ([]eng.Outcome, []*eng.Term) {
	r := c.Run()
	r.NoUnroll = true
	r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
		if g == f || g.Parent() != nil || errorMaker(g) {
			return eng.Auto
		}
		if c.W.InModule(g) {
			if errIndex(g.Signature) < 0 {
				return eng.Pure
			}
			return eng.Impure
		}
		return eng.Auto
	}
	return c.Analyze(r, f, nil)
}

func (c *C) failureRule(f *ssa.Function) {
	outs, _ := c.failureRun(f)
	con := eng.ShortName(f)
	k := errIndex(f.Signature)
	for i := range outs {
		o := &outs[i]
		if o.Kind != "ret" {
			continue
		}
		if k >= 0 && o.St.F.IsNil(o.Res[k]) == -1 {
			c.OK("failure reported", con)
			continue
		}
		var ret *eng.Term
		if k >= 0 {
			ret = o.Res[k]
		}
		bad, good := c.failures(o.St, flatten(o.St.Events(nil)), ret)
		for _, x := range bad {
			err, _ := errOf(x.e)
			ok := k >= 0 && err != nil && o.Res[k] == err
			for _, g := range good {
				ok = ok || g.at > x.at && another(x.e, g.e)
			}
			// a predicate may ask for a verdict without its reason
			if sig := sigOf(x.e); k < 0 && sig != nil && verdictSig(sig) && f.Signature.Results().Len() == 1 && isBool(f.Signature.Results().At(0).Type()) {
				ok = true
			}
			c.Check(ok, "failure reported", con, c.W.InstrPos(x.e.Site), "a failure of %s is not reported when returning at %s; %s", x.e.Callee, c.W.InstrPos(o.Site), x.why)
		}
		if len(bad) == 0 {
			c.OK("failure reported", con)
		}
	}
}

func init() {
	reg("C07", 80, "Every library function that calls something which can fail is analysed with the module's own calls left opaque. On every path that may return a nil error each such call must be known not to have failed (or the returned error is that call's own), also in every round of a loop; a later success of the same call excuses a failed alternative. Functions that cannot report may make no failing call. Validators are judged by their verdicts elsewhere.", (*C).failureRules)
}
