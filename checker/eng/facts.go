package eng

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts is what is known on a path. All terms denote immutable values, so
// facts never have to be retracted. Facts values are copied before writing.
type Facts struct {
	truth map[*Term]bool           // boolean atoms
	eqc   map[*Term]*Term          // term == constant / nil
	neqc  map[*Term]map[*Term]bool // term != constants / nil
	isT   map[*Term]types.Type     // dynamic type of an interface value
	implT map[*Term][]types.Type   // interfaces the dynamic type implements
	notT  map[*Term][]types.Type
	diff  map[[2]*Term]int64 // a - b <= c ; nil stands for zero
	order []string           // human readable history of branches
}

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, eqc: map[*Term]*Term{}, neqc: map[*Term]map[*Term]bool{}, isT: map[*Term]types.Type{}, implT: map[*Term][]types.Type{}, notT: map[*Term][]types.Type{}, diff: map[[2]*Term]int64{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	for k, v := range f.neqc {
		m := make(map[*Term]bool, len(v))
		for a, b := range v {
			m[a] = b
		}
		g.neqc[k] = m
	}
	for k, v := range f.isT {
		g.isT[k] = v
	}
	for k, v := range f.implT {
		g.implT[k] = append([]types.Type(nil), v...)
	}
	for k, v := range f.notT {
		g.notT[k] = append([]types.Type(nil), v...)
	}
	for k, v := range f.diff {
		g.diff[k] = v
	}
	g.order = append([]string(nil), f.order...)
	return g
}

// intersect keeps what holds in both.
func intersect(a, b *Facts) *Facts {
	g := newFacts()
	for k, v := range a.truth {
		if w, ok := b.truth[k]; ok && v == w {
			g.truth[k] = v
		}
	}
	for k, v := range a.eqc {
		if b.eqc[k] == v {
			g.eqc[k] = v
		}
	}
	for k, m := range a.neqc {
		for c := range m {
			if b.neqc[k][c] || (b.eqc[k] != nil && b.eqc[k] != c) {
				if g.neqc[k] == nil {
					g.neqc[k] = map[*Term]bool{}
				}
				g.neqc[k][c] = true
			}
		}
	}
	for k, m := range b.neqc {
		for c := range m {
			if a.eqc[k] != nil && a.eqc[k] != c {
				if g.neqc[k] == nil {
					g.neqc[k] = map[*Term]bool{}
				}
				g.neqc[k][c] = true
			}
		}
	}
	for k, v := range a.isT {
		if w, ok := b.isT[k]; ok && types.Identical(v, w) {
			g.isT[k] = v
		}
	}
	for k, vs := range a.notT {
		for _, v := range vs {
			for _, w := range b.notT[k] {
				if types.Identical(v, w) {
					g.notT[k] = append(g.notT[k], v)
				}
			}
		}
	}
	for k, vs := range a.implT {
		for _, v := range vs {
			for _, w := range b.implT[k] {
				if types.Identical(v, w) {
					g.implT[k] = append(g.implT[k], v)
				}
			}
		}
	}
	for k, v := range a.diff {
		if w, ok := b.diff[k]; ok {
			if w > v {
				v = w
			}
			g.diff[k] = v
		}
	}
	n := 0
	for n < len(a.order) && n < len(b.order) && a.order[n] == b.order[n] {
		n++
	}
	g.order = append([]string(nil), a.order[:n]...)
	return g
}

const inf = int64(1) << 60

// linear splits an integer term into base + c (base nil for constants).
func linear(t *Term) (*Term, int64) {
	if v, ok := t.IntVal(); ok {
		return nil, v
	}
	if t.K == KBin && isInt(t.Typ) {
		if t.Op == token.ADD {
			if v, ok := t.Args[1].IntVal(); ok {
				b, c := linear(t.Args[0])
				return b, c + v
			}
		}
		if t.Op == token.SUB {
			if v, ok := t.Args[1].IntVal(); ok {
				b, c := linear(t.Args[0])
				return b, c - v
			}
		}
	}
	return t, 0
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// baseRange gives bounds an integer term has by construction.
func baseRange(t *Term) (int64, int64) {
	lo, hi := -inf, inf
	if isUnsigned(t.Typ) {
		lo = 0
		if b, ok := t.Typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				hi = 255
			case types.Uint16:
				hi = 65535
			}
		}
	}
	switch t.K {
	case KLen:
		lo = 0
		x := t.Args[0]
		switch x.K {
		case KAppend:
			lo = int64(len(x.Args) - 1)
			if l2, _ := baseRange(LenOf(x.Args[0])); l2 > 0 {
				lo += l2
			}
		case KInit, KElemOf:
			lo = groupMin(x)
		case KAppendS:
			a, _ := lenRange(x.Args[0])
			b, _ := lenRange(x.Args[1])
			lo = a + b
		case KCall:
			switch x.CalleeName() {
			case "strings.SplitN", "bytes.SplitN":
				if n, ok := x.Args[2].IntVal(); ok && n > 0 {
					hi = n
				}
				if s, ok := x.Args[1].StrVal(); ok && s != "" {
					lo = 1
				} else if x.Args[1].K == KConv {
					if s, ok := x.Args[1].Args[0].StrVal(); ok && s != "" {
						lo = 1
					}
				}
				if n, ok := x.Args[2].IntVal(); ok && n == 0 {
					lo, hi = 0, 0
				}
			case "strings.Split", "bytes.Split":
				if s, ok := x.Args[1].StrVal(); ok && s != "" {
					lo = 1
				}
			case "(*regexp.Regexp).SubexpNames":
				if n, ok := RegexGroups(x.Args[0]); ok {
					lo, hi = int64(n+1), int64(n+1)
				}
			case "(*regexp.Regexp).FindStringSubmatch":
				if n, ok := RegexGroups(x.Args[0]); ok {
					hi = int64(n + 1)
				}
			}
		case KBin:
			if x.Op == token.ADD {
				a, _ := lenRange(x.Args[0])
				b, _ := lenRange(x.Args[1])
				lo = a + b
			}
		}
	case KCall:
		switch t.CalleeName() {
		default:
			if x, _ := found(t); x != nil {
				lo = -1
			}
		}
	case KBin:
		switch t.Op {
		case token.REM:
			if c, ok := t.Args[1].IntVal(); ok && c > 0 {
				hi = c - 1
				lo = -(c - 1)
				if l2, _ := baseRange(t.Args[0]); l2 >= 0 {
					lo = 0
				}
			}
		case token.AND:
			for _, a := range t.Args {
				if c, ok := a.IntVal(); ok && c >= 0 {
					lo, hi = 0, c
				}
			}
		}
	}
	return lo, hi
}

func lenRange(x *Term) (int64, int64) {
	l := LenOf(x)
	if v, ok := l.IntVal(); ok {
		return v, v
	}
	return baseRange(l)
}

// groupMin returns the least length of the text of a group which takes part in
// every match of its expression.
func groupMin(x *Term) int64 {
	a, i := x, (*Term)(nil)
	if x.K == KInit && x.Args[0].K == KElem {
		a = x.Args[0]
	}
	if a.K != KElem && a.K != KElemOf {
		return 0
	}
	a, i = a.Args[0], a.Args[1]
	n, ok := i.IntVal()
	if !ok || n < 0 || a.K != KCall || a.CalleeName() != "(*regexp.Regexp).FindStringSubmatch" {
		return 0
	}
	p, ok := RegexSource(a.Args[0])
	if !ok {
		return 0
	}
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return 0
	}
	if n == 0 {
		return minLen(re)
	}
	var find func(r *syntax.Regexp) int64
	find = func(r *syntax.Regexp) int64 {
		switch r.Op {
		case syntax.OpCapture:
			if int64(r.Cap) == n {
				return minLen(r.Sub[0])
			}
			return find(r.Sub[0])
		case syntax.OpConcat, syntax.OpPlus:
			for _, s := range r.Sub {
				if m := find(s); m > 0 {
					return m
				}
			}
		}
		return 0
	}
	return find(re)
}

func minLen(r *syntax.Regexp) int64 {
	switch r.Op {
	case syntax.OpLiteral:
		return int64(len(r.Rune))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minLen(r.Sub[0])
	case syntax.OpRepeat:
		return int64(r.Min) * minLen(r.Sub[0])
	case syntax.OpConcat:
		n := int64(0)
		for _, s := range r.Sub {
			n += minLen(s)
		}
		return n
	case syntax.OpAlternate:
		n := minLen(r.Sub[0])
		for _, s := range r.Sub {
			if m := minLen(s); m < n {
				n = m
			}
		}
		return n
	}
	return 0
}

// ub returns the least known c with a - b <= c (a, b may be nil for zero).
func (f *Facts) ub(a, b *Term) int64 {
	if a == b {
		return 0
	}
	dist := map[*Term]int64{b: 0}
	edges := func(from *Term, d int64, relax func(to *Term, d int64)) {
		// edge from->to weight w encodes to - from <= w
		for k, w := range f.diff {
			if k[1] == from {
				relax(k[0], d+w)
			}
		}
		if from != nil {
			lo, _ := baseRange(from)
			if lo > -inf {
				relax(nil, d-lo) // 0 - from <= -lo
			}
		}
	}
	work := []*Term{b}
	steps := 0
	relax := func(to *Term, d int64) {
		if od, ok := dist[to]; !ok || d < od {
			dist[to] = d
			work = append(work, to)
		}
	}
	for len(work) > 0 && steps < 4000 {
		x := work[0]
		work = work[1:]
		steps++
		edges(x, dist[x], relax)
		if x == nil && a != nil {
			if _, hi := baseRange(a); hi < inf {
				relax(a, dist[nil]+hi)
			}
			// lengths of terms derived from each other
		}
		// what is found in a text lies within it
		if text, n := found(a); text != nil && x == LenOf(text) {
			if w, ok := f.diff[[2]*Term{nil, a}]; !(ok && w <= 0) && !f.neqc[a][Int(-1)] {
				n = 0
			}
			relax(a, dist[x]-n)
		}
	}
	if d, ok := dist[a]; ok {
		return d
	}
	return inf
}

// Range is the interval known for an integer term.
func (f *Facts) Range(t *Term) (lo, hi int64) {
	b, c := linear(t)
	if b == nil {
		return c, c
	}
	hi = f.ub(b, nil)
	lo = -f.ub(nil, b)
	for f.neqc[b] != nil && lo < hi {
		ch := false
		if lo > -inf && f.neqc[b][Int(lo)] {
			lo++
			ch = true
		}
		if hi < inf && f.neqc[b][Int(hi)] {
			hi--
			ch = true
		}
		if !ch {
			break
		}
	}
	if hi < inf {
		hi += c
	}
	if lo > -inf {
		lo += c
	}
	return lo, hi
}

// LE reports whether a <= b + c is known true (1), false (-1), unknown (0).
func (f *Facts) LE(a, b *Term, c int64) int {
	ba, ca := linear(a)
	bb, cb := linear(b)
	k := c + cb - ca // ba - bb <= k ?
	if ba == bb {
		if 0 <= k {
			return 1
		}
		return -1
	}
	if f.ubTight(ba, bb) <= k {
		return 1
	}
	if u := f.ubTight(bb, ba); u < inf && -u > k { // ba - bb >= -u > k
		return -1
	}
	return 0
}

func (f *Facts) ubTight(a, b *Term) int64 {
	u := f.ub(a, b)
	if b == nil && a != nil {
		for u < inf && f.neqc[a] != nil && f.neqc[a][Int(u)] {
			u--
		}
	}
	if a == nil && b != nil {
		for u < inf && f.neqc[b] != nil && f.neqc[b][Int(-u)] {
			u--
		}
	}
	return u
}

func (f *Facts) addLE(a, b *Term, c int64) bool { // a <= b + c
	ba, ca := linear(a)
	bb, cb := linear(b)
	k := c + cb - ca
	if ba == bb {
		return 0 <= k
	}
	key := [2]*Term{ba, bb}
	if o, ok := f.diff[key]; !ok || k < o {
		f.diff[key] = k
	}
	// consistency: bb - ba <= u and ba - bb <= k requires u + k >= 0
	if u := f.ubTight(bb, ba); u < inf && u+k < 0 {
		return false
	}
	f.deriveInt(ba)
	f.deriveInt(bb)
	return true
}

// found: t is the place where something at least n long is found in a text,
// or -1.
func found(t *Term) (text *Term, n int64) {
	if t == nil || t.K != KCall || len(t.Args) != 2 {
		return nil, 0
	}
	switch t.CalleeName() {
	case "strings.Index", "bytes.Index", "strings.LastIndex", "bytes.LastIndex":
		n, _ = lenRange(t.Args[1])
		return t.Args[0], n
	case "strings.IndexByte", "bytes.IndexByte", "strings.IndexRune", "bytes.IndexRune", "strings.IndexAny", "bytes.IndexAny", "strings.LastIndexByte", "bytes.LastIndexByte", "strings.LastIndexAny", "strings.IndexFunc":
		return t.Args[0], 1
	}
	return nil, 0
}

// deriveInt applies models that turn a bound into more.
func (f *Facts) deriveInt(t *Term) {
	if t == nil || t.K != KLen {
		return
	}
	x := t.Args[0]
	if x.K == KCall && x.CalleeName() == "(*regexp.Regexp).FindStringSubmatch" {
		if n, ok := RegexGroups(x.Args[0]); ok {
			if f.ubTight(nil, t) <= -1 { // len >= 1
				f.diff[[2]*Term{nil, t}] = -int64(n + 1)
			}
		}
	}
}

// IsNil reports whether t is known to be nil (1) or non-nil (-1).
func (f *Facts) IsNil(t *Term) int {
	switch t.K {
	case KNil:
		return 1
	case KAlloc, KField, KElem, KGlobal, KFunc, KClosure, KIface, KMap, KRType, KRNew, KAppend, KConst, KStruct:
		return -1
	case KSlice:
		if t.Args[0].K == KAlloc || t.Args[0].K == KField || t.Args[0].K == KGlobal {
			return -1
		}
		if t.Args[0].K == KSlice || t.Args[0].K == KAppend {
			return f.IsNil(t.Args[0])
		}
	case KAppendS:
		if f.IsNil(t.Args[0]) == -1 {
			return -1
		}
		if lo, _ := f.Range(LenOf(t.Args[1])); lo > 0 {
			return -1
		}
	case KAssert:
		// v, ok := x.(T) without ok
		if t.Typ2 != nil {
			if _, isPtr := t.Typ2.Underlying().(*types.Pointer); isPtr && f.Eval(normIs(t.Args[0], t.Typ2)) == -1 {
				return 1
			}
		}
	case KCall:
		if NonNilResult(t) {
			return -1
		}
	case KEvent:
		if NonNilResult(t) {
			return -1
		}
	case KConv:
		if t.Args[0].K == KConst {
			return -1
		}
	case KExtract:
		if strings.HasPrefix(t.Args[0].CalleeName(), "context.With") {
			return -1
		}
	}
	if c, ok := f.eqc[t]; ok {
		if c == Nil {
			return 1
		}
		return -1
	}
	if f.neqc[t][Nil] {
		return -1
	}
	if _, ok := f.isT[t]; ok {
		return -1
	}
	if len(f.implT[t]) > 0 {
		return -1
	}
	if t.K == KExtract && t.I == 0 {
		// v, err := f(): v is non-nil when err is nil
		if e := pairedErr(t.Args[0]); e != nil && f.IsNil(e) == 1 {
			return -1
		}
	}
	if t.K == KExtract && IsVerdict(t.Args[0]) && t.I == 1 {
		if b, ok := f.truth[VerdictOk(t.Args[0])]; ok {
			if b {
				return 1
			}
			return -1
		}
	}
	if t.Typ != nil {
		if _, ok := t.Typ.Underlying().(*types.Slice); ok {
			if lo, _ := f.Range(LenOf(t)); lo > 0 {
				return -1
			}
		}
	}
	return 0
}

// pairedErr returns the error result of a (value, error) call term.
func pairedErr(c *Term) *Term {
	tup, ok := c.Typ.(*types.Tuple)
	if !ok || tup.Len() != 2 {
		return nil
	}
	if !types.Identical(tup.At(1).Type(), types.Universe.Lookup("error").Type()) {
		return nil
	}
	switch tup.At(0).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return Extract(c, 1, tup.At(1).Type())
	}
	return nil
}

// IsVerdict: a call of an in-module Valid-like method returning (bool, error)
// whose results always agree (property C24, checked for every one of them).
func IsVerdict(c *Term) bool {
	if c.K != KCall && c.K != KEvent {
		return false
	}
	tup, ok := c.Typ.(*types.Tuple)
	if !ok || tup.Len() != 2 || !isBool(tup.At(0).Type()) {
		return false
	}
	n := c.CalleeName()
	return strings.HasSuffix(n, ".Valid") && strings.Contains(n, "ofxgo")
}
func VerdictOk(c *Term) *Term { return Extract(c, 0, types.Typ[types.Bool]) }

func Extract(c *Term, i int, t types.Type) *Term {
	if c.K == KTuple {
		return c.Args[i]
	}
	return mk(Term{K: KExtract, I: i, Args: []*Term{c}, Typ: t})
}

// normBool rewrites a boolean term into a canonical atom.
func normBool(t *Term) *Term {
	if t.K == KBin && (t.Op == token.EQL || t.Op == token.NEQ) {
		a, b := t.Args[0], t.Args[1]
		if b.K == KNil && a.K == KExtract && a.I == 1 && IsVerdict(a.Args[0]) {
			r := VerdictOk(a.Args[0])
			if t.Op == token.NEQ {
				return Not(r)
			}
			return r
		}
	}
	return t
}

func Not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return BoolT(!b)
	}
	if t.K == KUn && t.Op == token.NOT {
		return t.Args[0]
	}
	if t.K == KBin {
		inv := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}
		if o, ok := inv[t.Op]; ok {
			return mk(Term{K: KBin, Op: o, Args: t.Args, Typ: types.Typ[types.Bool]})
		}
		if len(t.Args) == 2 && (isInt(t.Args[0].Typ) || isInt(t.Args[1].Typ)) {
			inv := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
			if o, ok := inv[t.Op]; ok {
				return mk(Term{K: KBin, Op: o, Args: t.Args, Typ: types.Typ[types.Bool]})
			}
		}
	}
	return mk(Term{K: KUn, Op: token.NOT, Args: []*Term{t}, Typ: types.Typ[types.Bool]})
}

// Bin builds a binary operation, folding constants.
func Bin(op token.Token, a, b *Term, t types.Type) *Term {
	if a.K == KConst && b.K == KConst {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.C.Kind() == b.C.Kind() || (a.C.Kind() != constant.Bool && a.C.Kind() != constant.String && b.C.Kind() != constant.Bool && b.C.Kind() != constant.String) {
				return BoolT(constant.Compare(a.C, op, b.C))
			}
		case token.QUO, token.REM:
			if y, ok := b.IntVal(); ok && y != 0 && isInt(t) {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return Const(constant.BinaryOp(a.C, o, b.C), t)
			}
		case token.SHL, token.SHR:
			if s, ok := b.IntVal(); ok && s >= 0 && s < 64 {
				return Const(constant.Shift(a.C, op, uint(s)), t)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.C.Kind() == b.C.Kind() && a.C.Kind() != constant.Bool {
				return Const(constant.BinaryOp(a.C, op, b.C), t)
			}
		}
	}
	if isInt(t) || isInt(a.Typ) {
		switch op {
		case token.ADD:
			if v, ok := a.IntVal(); ok && isInt(t) {
				return addConst(b, v, t)
			}
			if v, ok := b.IntVal(); ok && isInt(t) {
				return addConst(a, v, t)
			}
		case token.SUB:
			if v, ok := b.IntVal(); ok && isInt(t) {
				return addConst(a, -v, t)
			}
			ba, ca := linear(a)
			bb, cb := linear(b)
			if ba == bb && isInt(t) {
				return Const(constant.MakeInt64(ca-cb), t)
			}
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		if a == b && a.K != KConst && !isFloat(a.Typ) {
			return BoolT(op == token.EQL)
		}
		if (a.K == KConst || a.K == KNil) && !(b.K == KConst || b.K == KNil) {
			a, b = b, a
		} else if a.ID > b.ID && !(b.K == KConst || b.K == KNil) {
			a, b = b, a
		}
		if isBool(a.Typ) {
			if v, ok := b.BoolVal(); ok {
				if v == (op == token.EQL) {
					return a
				}
				return Not(a)
			}
		}
		if s, ok := b.StrVal(); ok && s == "" {
			return normBool(Bin(op, LenOf(a), Int(0), types.Typ[types.Bool]))
		}
		if x := affix(a, b); x != nil {
			if op == token.NEQ {
				return Not(x)
			}
			return x
		}
		r := normBool(mk(Term{K: KBin, Op: op, Args: []*Term{a, b}, Typ: types.Typ[types.Bool]}))
		return r
	}
	return mk(Term{K: KBin, Op: op, Args: []*Term{a, b}, Typ: t})
}

// affix reads x[:len(lit)] == lit and x[len(x)-len(lit):] == lit as tests for
// a prefix and a suffix.
func affix(a, b *Term) *Term {
	lit, ok := b.StrVal()
	if !ok || lit == "" || a.K != KSlice || len(a.Args) != 3 || !isString(a.Typ) || !isString(a.Args[0].Typ) {
		return nil
	}
	x, lo, hi := a.Args[0], a.Args[1], a.Args[2]
	n := int64(len(lit))
	if v, ok := lo.IntVal(); ok && v == 0 {
		if h, ok := hi.IntVal(); ok && h == n {
			return PureCall("strings.HasPrefix", []*Term{x, b}, types.Typ[types.Bool])
		}
	}
	if base, k := linear(lo); hi == LenOf(x) && base == hi && k == -n {
		return PureCall("strings.HasSuffix", []*Term{x, b}, types.Typ[types.Bool])
	}
	return nil
}

// affixOf: a test for a literal prefix or suffix.
func affixOf(t *Term) (x *Term, lit string, ok bool) {
	if t.K != KCall || len(t.Args) != 2 {
		return nil, "", false
	}
	if n := t.CalleeName(); n != "strings.HasPrefix" && n != "strings.HasSuffix" {
		return nil, "", false
	}
	lit, ok = t.Args[1].StrVal()
	return t.Args[0], lit, ok
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func addConst(t *Term, c int64, ty types.Type) *Term {
	b, k := linear(t)
	k += c
	if b == nil {
		return Const(constant.MakeInt64(k), ty)
	}
	if k == 0 {
		return b
	}
	return mk(Term{K: KBin, Op: token.ADD, Args: []*Term{b, Int(k)}, Typ: ty})
}

func Eq(a, b *Term) *Term { return Bin(token.EQL, a, b, types.Typ[types.Bool]) }

// Eval decides a boolean term from the facts: 1 true, -1 false, 0 unknown.
func (f *Facts) Eval(t *Term) int {
	t = normBool(t)
	if b, ok := t.BoolVal(); ok {
		if b {
			return 1
		}
		return -1
	}
	if b, ok := f.truth[t]; ok {
		if b {
			return 1
		}
		return -1
	}
	switch t.K {
	case KCall:
		if x, lit, ok := affixOf(t); ok && f.LE(LenOf(x), Int(int64(len(lit))), -1) == 1 {
			return -1
		}
	case KUn:
		if t.Op == token.NOT {
			return -f.Eval(t.Args[0])
		}
	case KIs:
		return f.evalIs(t.Args[0], t.Typ2)
	case KBin:
		a, b := t.Args[0], t.Args[1]
		switch t.Op {
		case token.NEQ:
			return -f.Eval(mk(Term{K: KBin, Op: token.EQL, Args: t.Args, Typ: t.Typ}))
		case token.EQL:
			if b.K == KNil {
				return f.IsNil(a)
			}
			if a.K == KNil {
				return f.IsNil(b)
			}
			if isInt(a.Typ) || isInt(b.Typ) {
				x, y := f.LE(a, b, 0), f.LE(b, a, 0)
				if x == 1 && y == 1 {
					return 1
				}
				if x == -1 || y == -1 {
					return -1
				}
				ba, ca := linear(a)
				bb, cb := linear(b)
				if bb == nil && f.neqc[ba][Int(cb-ca)] {
					return -1
				}
				return 0
			}
			if isBool(a.Typ) {
				x, y := f.Eval(a), f.Eval(b)
				return x * y
			}
			ca, cb := f.constOf(a), f.constOf(b)
			if ca != nil && cb != nil {
				if ca == cb {
					return 1
				}
				return -1
			}
			if cb != nil && f.neqc[a][cb] {
				return -1
			}
			if ca != nil && f.neqc[b][ca] {
				return -1
			}
			if cb != nil && isString(a.Typ) {
				if s, ok := cb.StrVal(); ok {
					if f.Eval(Eq(LenOf(a), Int(int64(len(s))))) == -1 {
						return -1
					}
				}
			}
			if a.K == KStruct && b.K == KStruct && len(a.Args) == len(b.Args) {
				r := 1
				for i := range a.Args {
					switch f.Eval(Eq(a.Args[i], b.Args[i])) {
					case -1:
						return -1
					case 0:
						r = 0
					}
				}
				return r
			}
		case token.LSS:
			if isInt(a.Typ) || isInt(b.Typ) {
				return f.LE(a, b, -1)
			}
		case token.LEQ:
			if isInt(a.Typ) || isInt(b.Typ) {
				return f.LE(a, b, 0)
			}
		case token.GTR:
			if isInt(a.Typ) || isInt(b.Typ) {
				return f.LE(b, a, -1)
			}
		case token.GEQ:
			if isInt(a.Typ) || isInt(b.Typ) {
				return f.LE(b, a, 0)
			}
		}
	}
	return 0
}

func (f *Facts) constOf(t *Term) *Term {
	if t.K == KConst || t.K == KNil {
		if s, ok := t.StrVal(); ok {
			return Str(s)
		}
		return t
	}
	return f.eqc[t]
}

// ConstOf returns the constant a term is known to equal, or nil.
func (f *Facts) ConstOf(t *Term) *Term {
	if c := f.constOf(t); c != nil {
		return c
	}
	if isInt(t.Typ) {
		if lo, hi := f.Range(t); lo == hi {
			return Int(lo)
		}
	}
	return nil
}

func (f *Facts) evalIs(x *Term, T types.Type) int {
	if x.K == KIface {
		return boolTri(isOrImpl(x.Typ2, T))
	}
	if f.IsNil(x) == 1 {
		return -1
	}
	if d, ok := f.isT[x]; ok {
		return boolTri(isOrImpl(d, T))
	}
	if _, ok := T.Underlying().(*types.Interface); ok {
		if x.Typ != nil && types.Implements(x.Typ, T.Underlying().(*types.Interface)) && f.IsNil(x) == -1 {
			return 1
		}
		for _, t := range f.implT[x] {
			if types.Identical(t, T) {
				return 1
			}
		}
	}
	for _, t := range f.notT[x] {
		if types.Identical(t, T) {
			return -1
		}
	}
	if x.Typ != nil {
		if it, ok := x.Typ.Underlying().(*types.Interface); ok {
			if _, isI := T.Underlying().(*types.Interface); !isI && !types.Implements(T, it) {
				return -1
			}
		}
	}
	return 0
}

func isOrImpl(dyn, T types.Type) bool {
	if it, ok := T.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, T)
}
func boolTri(b bool) int {
	if b {
		return 1
	}
	return -1
}

// DynType returns the known dynamic type of an interface term.
func (f *Facts) DynType(x *Term) types.Type {
	if x.K == KIface {
		return x.Typ2
	}
	return f.isT[x]
}

// Assume adds a condition; it returns the possible refinements (none when the
// condition contradicts the facts; two for a case split).
func (f *Facts) Assume(t *Term, pol bool) []*Facts {
	t = normBool(t)
	if t.K == KUn && t.Op == token.NOT {
		return f.Assume(t.Args[0], !pol)
	}
	switch f.Eval(t) {
	case 1:
		if pol {
			return []*Facts{f}
		}
		return nil
	case -1:
		if pol {
			return nil
		}
		return []*Facts{f}
	}
	if t.K == KBin && t.Op == token.NEQ {
		return f.Assume(mk(Term{K: KBin, Op: token.EQL, Args: t.Args, Typ: t.Typ}), !pol)
	}
	// equality of two booleans: case split
	if t.K == KBin && t.Op == token.EQL && isBool(t.Args[0].Typ) {
		var out []*Facts
		for _, v := range []bool{true, false} {
			for _, g := range f.Assume(t.Args[0], v) {
				out = append(out, g.Assume(t.Args[1], v == pol)...)
			}
		}
		return out
	}
	if t.K == KBin && t.Op == token.EQL && t.Args[0].K == KStruct && t.Args[1].K == KStruct && len(t.Args[0].Args) == len(t.Args[1].Args) {
		if pol {
			cur := []*Facts{f}
			for i := range t.Args[0].Args {
				var nx []*Facts
				for _, g := range cur {
					nx = append(nx, g.Assume(Eq(t.Args[0].Args[i], t.Args[1].Args[i]), true)...)
				}
				cur = nx
			}
			return cur
		}
	}
	g := f.clone()
	g.truth[t] = pol
	g.order = append(g.order, branchText(t, pol))
	if t.K == KIs {
		x := t.Args[0]
		if pol {
			if _, ok := t.Typ2.Underlying().(*types.Interface); ok {
				g.implT[x] = append(g.implT[x], t.Typ2)
			} else {
				g.isT[x] = t.Typ2
			}
		} else {
			g.notT[x] = append(g.notT[x], t.Typ2)
		}
		return []*Facts{g}
	}
	if t.K == KBin {
		a, b := t.Args[0], t.Args[1]
		intop := isInt(a.Typ) || isInt(b.Typ)
		switch {
		case t.Op == token.EQL && (b.K == KNil || a.K == KNil):
			if a.K == KNil {
				a = b
			}
			if pol {
				g.eqc[a] = Nil
				if a.Typ != nil {
					if _, ok := a.Typ.Underlying().(*types.Slice); ok {
						if !g.addLE(LenOf(a), Int(0), 0) {
							return nil
						}
					}
				}
			} else {
				g.neq(a, Nil)
				if a.K == KCall && a.CalleeName() == "(*regexp.Regexp).FindStringSubmatch" {
					if n, ok := RegexGroups(a.Args[0]); ok {
						g.addLE(Int(int64(n+1)), LenOf(a), 0)
					}
				}
				if a.K == KCall && a.CalleeName() == "(*regexp.Regexp).Find" {
					if p, ok := RegexSource(a.Args[0]); ok {
						if re, err := syntax.Parse(p, syntax.Perl); err == nil {
							g.addLE(Int(minLen(re)), LenOf(a), 0)
						}
					}
				}
			}
		case t.Op == token.EQL && intop:
			if pol {
				if !g.addLE(a, b, 0) || !g.addLE(b, a, 0) {
					return nil
				}
			} else {
				ba, ca := linear(a)
				bb, cb := linear(b)
				if bb == nil {
					g.neq(ba, Int(cb-ca))
					g.deriveInt(ba)
					if lo, hi := g.Range(ba); lo > hi {
						return nil
					}
				} else if ba == nil {
					g.neq(bb, Int(ca-cb))
				}
			}
		case t.Op == token.EQL:
			ca, cb := f.constOf(a), f.constOf(b)
			if pol {
				if cb != nil {
					g.eqc[a] = cb
					if s, ok := cb.StrVal(); ok {
						l := LenOf(a)
						if !g.addLE(l, Int(int64(len(s))), 0) || !g.addLE(Int(int64(len(s))), l, 0) {
							return nil
						}
					}
				} else if ca != nil {
					g.eqc[b] = ca
				}
			} else {
				if cb != nil {
					g.neq(a, cb)
				} else if ca != nil {
					g.neq(b, ca)
				}
			}
		case intop && (t.Op == token.LSS || t.Op == token.LEQ || t.Op == token.GTR || t.Op == token.GEQ):
			op := t.Op
			if !pol {
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
			}
			ok := true
			switch op {
			case token.LSS:
				ok = g.addLE(a, b, -1)
			case token.LEQ:
				ok = g.addLE(a, b, 0)
			case token.GTR:
				ok = g.addLE(b, a, -1)
			case token.GEQ:
				ok = g.addLE(b, a, 0)
			}
			if !ok {
				return nil
			}
		}
	}
	if x, lit, ok := affixOf(t); ok && pol && !g.addLE(Int(int64(len(lit))), LenOf(x), 0) {
		return nil
	}
	return []*Facts{g}
}

func (f *Facts) neq(t, c *Term) {
	if f.neqc[t] == nil {
		f.neqc[t] = map[*Term]bool{}
	}
	f.neqc[t][c] = true
}

func branchText(t *Term, pol bool) string {
	if pol {
		return t.String()
	}
	return "!(" + t.String() + ")"
}

// Holds: the facts entail t == pol.
func (f *Facts) Holds(t *Term, pol bool) bool {
	r := f.Eval(t)
	return (pol && r == 1) || (!pol && r == -1)
}

// Neqs lists the constants a term is known to differ from.
func (f *Facts) Neqs(t *Term) []*Term {
	var out []*Term
	for c := range f.neqc[t] {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Truths iterates over the boolean atoms.
func (f *Facts) Truths(fn func(t *Term, v bool)) {
	var ks []*Term
	for k := range f.truth {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		fn(k, f.truth[k])
	}
}

// Path renders the branches taken.
func (f *Facts) Path() string {
	o := f.order
	if len(o) > 12 {
		o = append([]string{"…"}, o[len(o)-12:]...)
	}
	return strings.Join(o, " && ")
}

var _ = ssa.BuilderMode(0)

// Lens iterates over the terms integer or equality facts are known about.
func (f *Facts) Lens(fn func(t *Term)) {
	m := map[*Term]bool{}
	for k := range f.diff {
		for _, t := range k {
			if t != nil {
				m[t] = true
			}
		}
	}
	for t := range f.eqc {
		m[t] = true
	}
	for t := range f.neqc {
		m[t] = true
	}
	for _, t := range sortedTerms(m) {
		fn(t)
	}
}

// Diffs iterates over the integer facts a - b <= k; nil stands for zero.
func (f *Facts) Diffs(fn func(a, b *Term, k int64)) {
	for key, k := range f.diff {
		fn(key[0], key[1], k)
	}
}

// NeqConsts iterates over the terms known to differ from a constant.
func (f *Facts) NeqConsts(fn func(t, k *Term)) {
	for t, m := range f.neqc {
		for k := range m {
			fn(t, k)
		}
	}
}

// SortedTerms lists a set of terms in a fixed order.
func SortedTerms(m map[*Term]bool) []*Term { return sortedTerms(m) }

// Bounds lists the terms t is directly known not to exceed (upper) or not to
// fall below; nil stands for a constant.
func (f *Facts) Bounds(t *Term, upper bool) []*Term {
	var out []*Term
	m := map[*Term]bool{}
	for k := range f.diff {
		a, b := k[0], k[1]
		if !upper {
			a, b = b, a
		}
		if a == t {
			if b == nil {
				out = append(out, nil)
			} else {
				m[b] = true
			}
		}
	}
	return append(out, sortedTerms(m)...)
}

// EqConsts iterates over the terms known to equal a constant.
func (f *Facts) EqConsts(fn func(t, k *Term)) {
	m := map[*Term]bool{}
	for t := range f.eqc {
		m[t] = true
	}
	for _, t := range sortedTerms(m) {
		fn(t, f.eqc[t])
	}
}
