package main

import (
	"go/token"
	"go/types"

	"ofxcheck/eng"
)

// the value types of the library with the calls that compare what they hold
var comparedBy = map[string]map[string]string{
	"Int":     nil,
	"String":  {"strings.Compare": "sign"},
	"Boolean": nil,
	"UID":     {"strings.Compare": "sign"},
	"Amount":  {"(*math/big.Rat).Cmp": "sign"},
	"Date": {"(time.Time).Equal": "=", "(time.Time).Compare": "sign", "(time.Time).Before": "<",
		"(time.Time).After": ">", "(time.Time).Sub": "sub"},
	"CurrSymbol": {"strings.Compare": "sign"},
}

// valueRules: C42.
func (c *C) valueRules() {
	for _, n := range sortedKeys(comparedBy) {
		c.equalRule(n)
	}
	c.newDateRule("NewDate")
	c.newDateRule("NewDateGMT")
}

// wholeValue: the term holds all that counts of the value handed in as p.
func wholeValue(t, p *eng.Term, tn string) bool {
	for t.K == eng.KConv && t.Typ != nil && t.Args[0].Typ != nil && sameKind(t.Typ, t.Args[0].Typ) {
		t = t.Args[0]
	}
	if t == p {
		return true
	}
	switch tn {
	case "Amount", "Date", "CurrSymbol":
		// the embedded value, or for a currency its code
		if isCall(t, "(golang.org/x/text/currency.Unit).String") {
			t = t.Args[0]
		}
		q := fieldPath(t)
		return t == p || q != nil && (q.base == p || p.K == eng.KInit && q.base == p.Args[0])
	}
	return false
}

func sameKind(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	return ok1 && ok2 && x.Kind() == y.Kind()
}

func (c *C) equalRule(tn string) {
	con := tn + ".Equal"
	f := c.Lib(con)
	if f == nil {
		return
	}
	outs, ps := c.Analyze(c.Run(), f, nil)
	if !c.Check(len(ps) == 2, "equal exactly when the values are", con, c.W.Pos(f.Pos()), "does not compare two values") {
		return
	}
	pair := func(x, y *eng.Term) bool {
		return wholeValue(x, ps[0], tn) && wholeValue(y, ps[1], tn) || wholeValue(x, ps[1], tn) && wholeValue(y, ps[0], tn)
	}
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret" && len(o.Res) == 1, "equal exactly when the values are", con, pos, "a path ends in %s", o.Kind) {
			continue
		}
		res := o.Res[0]
		// the comparisons the path has made, and what each comes to when the
		// first value is smaller, the same, or larger
		var ats []cmpAtom
		see := func(t *eng.Term) bool {
			if len(t.Args) != 2 {
				return true
			}
			swap := pair(t.Args[1], t.Args[0])
			if !swap && !pair(t.Args[0], t.Args[1]) {
				return true
			}
			if t.K == eng.KBin && t.Op == token.EQL && tn != "Amount" && tn != "Date" {
				ats = append(ats, cmpAtom{t, "=", false})
			}
			if t.K == eng.KBin && tn == "Int" {
				switch t.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					ats = append(ats, cmpAtom{t, t.Op.String(), swap})
				case token.SUB:
					ats = append(ats, cmpAtom{t, "0", false})
				}
			}
			for n, how := range comparedBy[tn] {
				if isCall(t, n) {
					ats = append(ats, cmpAtom{t, how, swap})
				}
			}
			return true
		}
		eng.Walk(res, see)
		o.St.F.Truths(func(t *eng.Term, v bool) { eng.Walk(t, see) })
		o.St.F.EqConsts(func(t, k *eng.Term) { eng.Walk(t, see) })
		o.St.F.NeqConsts(func(t, k *eng.Term) { eng.Walk(t, see) })
		if _, basic := ps[0].Typ.Underlying().(*types.Basic); basic {
			ats = append(ats, cmpAtom{eng.Eq(ps[0], ps[1]), "=", false})
		}
		ok := len(ats) > 0
		for _, sign := range []int{-1, 0, 1} {
			for _, g := range supposing(o.St.F, ats, sign) {
				if isString(ps[0].Typ) && sign == 0 && g.Eval(eng.Eq(eng.LenOf(ps[0]), eng.LenOf(ps[1]))) == -1 {
					continue
				}
				want := -1
				if sign == 0 {
					want = 1
				}
				ok = ok && g.Eval(res) == want
			}
		}
		c.Check(ok, "equal exactly when the values are", con, pos, "answers %s; path: %s", res, o.St.F.Path())
	}
}

// cmpAtom: a comparison of the two values; how tells what its result means.
type cmpAtom struct {
	t    *eng.Term
	how  string // "=" equal, "<" and its like as in Go, "0" zero when the same, "sign" ordering, "sub" difference
	swap bool
}

// supposing: the facts when the first value compares to the second as sign says.
func supposing(f *eng.Facts, ats []cmpAtom, sign int) []*eng.Facts {
	fs := []*eng.Facts{f}
	step := func(t *eng.Term, v bool) {
		var out []*eng.Facts
		for _, g := range fs {
			out = append(out, g.Assume(t, v)...)
		}
		fs = out
	}
	for _, a := range ats {
		s := sign
		if a.swap {
			s = -s
		}
		switch a.how {
		case "=":
			step(a.t, s == 0)
		case "<":
			step(a.t, s < 0)
		case ">":
			step(a.t, s > 0)
		case "<=":
			step(a.t, s <= 0)
		case ">=":
			step(a.t, s >= 0)
		case "0":
			step(eng.Eq(a.t, eng.Int(0)), s == 0)
		case "sign":
			step(eng.Eq(a.t, eng.Int(int64(s))), true)
		case "sub":
			step(eng.Eq(a.t, eng.Int(0)), s == 0)
			if s < 0 {
				step(eng.Bin(token.LSS, a.t, eng.Int(0), types.Typ[types.Bool]), true)
			} else if s > 0 {
				step(eng.Bin(token.GTR, a.t, eng.Int(0), types.Typ[types.Bool]), true)
			}
		}
	}
	return fs
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (c *C) newDateRule(fn string) {
	f := c.Lib(fn)
	if f == nil {
		return
	}
	outs, ps := c.Analyze(c.Run(), f, nil)
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret" && len(o.Res) == 1, "date made of its arguments", fn, pos, "a path ends in %s", o.Kind) {
			continue
		}
		t := loadField(o.St, o.Res[0], "Time")
		ok := t != nil && isCall(t, "time.Date") && len(t.Args) == 8
		for k := 0; ok && k < 7; k++ {
			ok = t.Args[k] == ps[k]
		}
		if ok && len(ps) == 8 {
			z := t.Args[7]
			ok = z == ps[7] || z.K == eng.KInit && z.Args[0] == ps[7]
		} else if ok {
			z := t.Args[7]
			ok = isCall(z, "time.FixedZone") && isInt64(z.Args[1], 0)
			s, is := z.Args[0].StrVal()
			ok = ok && is && s == "GMT"
		}
		c.Check(ok, "date made of its arguments", fn, pos, "the date is %s", t)
	}
}

func init() {
	reg("C42", 9, "The Equal method of every value type is analysed on two symbolic values: on each path the result must agree with the exact comparison of the whole values (==, big.Rat.Cmp, time.Time.Equal, the currencies' codes) whichever way that comes out. NewDate and NewDateGMT must hand their arguments to time.Date in order.", (*C).valueRules)
}
