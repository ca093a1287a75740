package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"ofxcheck/eng"
)

// ---- values of terms over a cell of a partition ----
//
// A partition splits the inputs of a pure expression into cells; within a cell
// integers are intervals and texts are known. A term that cannot be valued is
// unknown, and a path is dropped only when one of its facts is false in the
// whole cell.

type val struct {
	k      byte // 0 unknown, i integer, s text, b truth, l texts, n nil-ness (b), a any text (lo is its least length)
	lo, hi int64
	s      string
	b      bool
	l      []string
}

func iv(lo, hi int64) val { return val{k: 'i', lo: lo, hi: hi} }
func sv(s string) val     { return val{k: 's', s: s} }
func bv(b bool) val       { return val{k: 'b', b: b} }
func nv(isNil bool) val   { return val{k: 'n', b: isNil} }
func lv(l []string) val   { return val{k: 'l', l: l} }
func (v val) one() bool   { return v.k == 'i' && v.lo == v.hi }
func (v val) known() bool { return v.k == 's' || v.k == 'b' || v.k == 'n' || v.one() }
func (v val) truth() int { // 1, -1, 0
	if v.k != 'b' {
		return 0
	}
	if v.b {
		return 1
	}
	return -1
}

// cell values terms; leaf values the inputs.
type cell struct {
	st    *eng.State
	leaf  func(t *eng.Term) (val, bool)
	memo  map[*eng.Term]val // values that hold on every path
	own   map[*eng.Term]val // values that depend on the path's state
	dirty bool
}

// on turns to another path in the same cell.
func (e *cell) on(st *eng.State) *cell {
	e.st, e.own, e.dirty = st, map[*eng.Term]val{}, false
	return e
}

func newCell(leaf func(t *eng.Term) (val, bool)) *cell {
	return &cell{leaf: leaf, memo: map[*eng.Term]val{}, own: map[*eng.Term]val{}}
}

func (e *cell) ev(t *eng.Term) val {
	if t == nil {
		return val{}
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	if v, ok := e.own[t]; ok {
		e.dirty = true
		return v
	}
	old := e.dirty
	e.dirty = false
	v, ok := e.leaf(t)
	if !ok {
		v = e.ev1(t)
	}
	if e.dirty {
		e.own[t] = v
	} else {
		e.memo[t] = v
	}
	e.dirty = e.dirty || old
	return v
}

func (e *cell) list(t *eng.Term) ([]*eng.Term, bool) {
	if t.K == eng.KList {
		return t.Args, true
	}
	if t.K == eng.KNil || t.K == eng.KZero {
		return nil, true
	}
	if e.st != nil {
		e.dirty = true
		if c := e.st.Content(t); c != nil && c.K == eng.KList {
			return c.Args, true
		}
	}
	return nil, false
}

func (e *cell) ev1(t *eng.Term) val {
	switch t.K {
	case eng.KConst:
		switch t.C.Kind() {
		case constant.Int:
			if n, ok := t.IntVal(); ok {
				return iv(n, n)
			}
		case constant.String:
			return sv(constant.StringVal(t.C))
		case constant.Bool:
			return bv(constant.BoolVal(t.C))
		}
	case eng.KNil:
		return nv(true)
	case eng.KIface:
		return e.ev(t.Args[0])
	case eng.KConv:
		v := e.ev(t.Args[0])
		if v.k == 'i' && !isInteger(t.Typ) || v.k == 's' && isInteger(t.Typ) {
			return val{}
		}
		if v.k == 'i' && (v.lo < math.MinInt32 || v.hi > math.MaxInt32) {
			return val{}
		}
		return v
	case eng.KAppendS:
		a, b := e.ev(t.Args[0]), e.ev(t.Args[1])
		if a.k == 's' && b.k == 's' {
			return sv(a.s + b.s)
		}
	case eng.KUn:
		v := e.ev(t.Args[0])
		switch {
		case t.Op == token.SUB && v.k == 'i':
			return iv(-v.hi, -v.lo)
		case t.Op == token.NOT && v.k == 'b':
			return bv(!v.b)
		}
	case eng.KLen:
		v := e.ev(t.Args[0])
		switch v.k {
		case 's':
			return iv(int64(len(v.s)), int64(len(v.s)))
		case 'a':
			return iv(v.lo, math.MaxInt32)
		case 'l':
			return iv(int64(len(v.l)), int64(len(v.l)))
		case 'n':
			if v.b {
				return iv(0, 0)
			}
		}
	case eng.KElemOf:
		return e.elem(t.Args[0], t.Args[1])
	case eng.KInit:
		if a := t.Args[0]; a.K == eng.KElem {
			return e.elem(a.Args[0], a.Args[1])
		}
	case eng.KSlice:
		v := e.ev(t.Args[0])
		lo, hi := val{k: 'i'}, val{}
		if t.Args[1].K != eng.KNone {
			lo = e.ev(t.Args[1])
		}
		if v.k != 's' {
			return val{}
		}
		hi = iv(int64(len(v.s)), int64(len(v.s)))
		if t.Args[2].K != eng.KNone {
			hi = e.ev(t.Args[2])
		}
		if lo.one() && hi.one() && 0 <= lo.lo && lo.lo <= hi.lo && hi.lo <= int64(len(v.s)) {
			return sv(v.s[lo.lo:hi.lo])
		}
	case eng.KBin:
		return e.bin(t)
	case eng.KExtract:
		return e.extract(t)
	case eng.KCall:
		return e.call(t)
	}
	return val{}
}

func (e *cell) elem(l, i *eng.Term) val {
	a, n := e.ev(l), e.ev(i)
	if !n.one() || n.lo < 0 {
		return val{}
	}
	if a.k == 'l' && n.lo < int64(len(a.l)) {
		return sv(a.l[n.lo])
	}
	if a.k == 's' && n.lo < int64(len(a.s)) {
		c := int64(a.s[n.lo])
		return iv(c, c)
	}
	if xs, ok := e.list(l); ok && n.lo < int64(len(xs)) {
		return e.ev(xs[n.lo])
	}
	return val{}
}

func (e *cell) bin(t *eng.Term) val {
	a, b := e.ev(t.Args[0]), e.ev(t.Args[1])
	if t.Op == token.LAND || t.Op == token.LOR {
		x, y := a.truth(), b.truth()
		if t.Op == token.LOR {
			x, y = -x, -y
		}
		r := 0
		if x == -1 || y == -1 {
			r = -1
		} else if x == 1 && y == 1 {
			r = 1
		}
		if r == 0 {
			return val{}
		}
		return bv((r == 1) == (t.Op == token.LAND))
	}
	if t.Op == token.ADD && (a.k == 's' || a.k == 'a') {
		if a.k == 's' && b.k == 's' {
			return sv(a.s + b.s)
		}
		return val{}
	}
	if (a.k == 'n') != (b.k == 'n') || a.k == 'n' {
		// comparison with nil
		if t.Op != token.EQL && t.Op != token.NEQ {
			return val{}
		}
		x, n := a, t.Args[1]
		if t.Args[0].K == eng.KNil {
			x, n = b, t.Args[0]
		}
		if n.K == eng.KNil && (x.k == 'n' || x.k == 'l') {
			return bv((x.k == 'n' && x.b) == (t.Op == token.EQL))
		}
		return val{}
	}
	if a.k == 'a' || b.k == 'a' {
		x, y := a, b
		if x.k != 'a' {
			x, y = b, a
		}
		if y.k == 's' && int64(len(y.s)) < x.lo {
			switch t.Op {
			case token.EQL:
				return bv(false)
			case token.NEQ:
				return bv(true)
			}
		}
		return val{}
	}
	if a.k == 's' && b.k == 's' || a.k == 'b' && b.k == 'b' {
		eq := a.s == b.s && a.b == b.b
		switch t.Op {
		case token.EQL:
			return bv(eq)
		case token.NEQ:
			return bv(!eq)
		case token.LSS:
			return bv(a.s < b.s)
		case token.GTR:
			return bv(a.s > b.s)
		case token.LEQ:
			return bv(a.s <= b.s)
		case token.GEQ:
			return bv(a.s >= b.s)
		}
		return val{}
	}
	if a.k != 'i' || b.k != 'i' {
		return val{}
	}
	cmp := func(lt bool, x, y val, strict bool) val { // x < y
		if strict {
			if x.hi < y.lo {
				return bv(lt)
			}
			if x.lo >= y.hi {
				return bv(!lt)
			}
		} else {
			if x.hi <= y.lo {
				return bv(lt)
			}
			if x.lo > y.hi {
				return bv(!lt)
			}
		}
		return val{}
	}
	switch t.Op {
	case token.LSS:
		return cmp(true, a, b, true)
	case token.GTR:
		return cmp(true, b, a, true)
	case token.LEQ:
		return cmp(true, a, b, false)
	case token.GEQ:
		return cmp(true, b, a, false)
	case token.EQL, token.NEQ:
		if a.one() && b.one() && a.lo == b.lo {
			return bv(t.Op == token.EQL)
		}
		if a.hi < b.lo || b.hi < a.lo {
			return bv(t.Op == token.NEQ)
		}
	case token.ADD:
		return iv(a.lo+b.lo, a.hi+b.hi)
	case token.SUB:
		return iv(a.lo-b.hi, a.hi-b.lo)
	case token.MUL:
		if a.hi-a.lo > 1<<30 || b.hi-b.lo > 1<<30 || abs(a.lo) > 1<<31 || abs(b.lo) > 1<<31 {
			return val{}
		}
		p := []int64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
		return iv(min(p[0], p[1], p[2], p[3]), max(p[0], p[1], p[2], p[3]))
	case token.QUO:
		if b.one() && b.lo > 0 {
			return iv(a.lo/b.lo, a.hi/b.lo)
		}
		if b.one() && b.lo < 0 {
			return iv(a.hi/b.lo, a.lo/b.lo)
		}
	case token.REM:
		if b.one() && b.lo > 0 {
			switch {
			case a.lo/b.lo == a.hi/b.lo && (a.lo >= 0) == (a.hi >= 0):
				return iv(a.lo%b.lo, a.hi%b.lo)
			case a.lo > -b.lo && a.hi < b.lo:
				return a
			case a.lo >= 0:
				return iv(0, b.lo-1)
			}
			return iv(-b.lo+1, b.lo-1)
		}
	}
	return val{}
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (e *cell) extract(t *eng.Term) val {
	c := t.Args[0]
	if c.K != eng.KCall {
		return val{}
	}
	n := c.CalleeName()
	switch n {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		s := e.ev(c.Args[0])
		if s.k != 's' {
			return val{}
		}
		base, bits := 10, 64
		if n != "strconv.Atoi" {
			x, y := e.ev(c.Args[1]), e.ev(c.Args[2])
			if !x.one() || !y.one() {
				return val{}
			}
			base, bits = int(x.lo), int(y.lo)
		}
		v, err := strconv.ParseInt(s.s, base, bits)
		if n == "strconv.ParseUint" {
			u, err1 := strconv.ParseUint(s.s, base, bits)
			v, err = int64(u), err1
		}
		if t.I == 1 {
			return nv(err == nil)
		}
		if err != nil {
			return val{}
		}
		return iv(v, v)
	case "strings.Cut":
		a, b := e.ev(c.Args[0]), e.ev(c.Args[1])
		if a.k != 's' || b.k != 's' {
			return val{}
		}
		x, y, ok := strings.Cut(a.s, b.s)
		switch t.I {
		case 0:
			return sv(x)
		case 1:
			return sv(y)
		}
		return bv(ok)
	case "strings.CutPrefix", "strings.CutSuffix":
		a, b := e.ev(c.Args[0]), e.ev(c.Args[1])
		if a.k != 's' || b.k != 's' {
			return val{}
		}
		x, ok := strings.CutPrefix(a.s, b.s)
		if strings.HasSuffix(n, "Suffix") {
			x, ok = strings.CutSuffix(a.s, b.s)
		}
		if t.I == 0 {
			return sv(x)
		}
		return bv(ok)
	}
	return val{}
}

var textFuncs = map[string]func(a, b string) string{
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
}
var textTests = map[string]func(a, b string) bool{
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.EqualFold": strings.EqualFold,
}
var textIndex = map[string]func(a, b string) int{
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexAny": strings.IndexAny, "strings.Count": strings.Count,
}

func (e *cell) call(t *eng.Term) val {
	n := t.CalleeName()
	if strings.HasPrefix(n, "bytes.") {
		n = "strings." + n[len("bytes."):] // texts stand for bytes too
	}
	var a []val
	for _, x := range t.Args {
		a = append(a, e.ev(x))
	}
	texts := func(k int) bool {
		for i := 0; i < k; i++ {
			if i >= len(a) || a[i].k != 's' {
				return false
			}
		}
		return true
	}
	if f := textFuncs[n]; f != nil && texts(2) {
		return sv(f(a[0].s, a[1].s))
	}
	if f := textTests[n]; f != nil && texts(2) {
		return bv(f(a[0].s, a[1].s))
	}
	if f := textIndex[n]; f != nil && texts(2) {
		i := int64(f(a[0].s, a[1].s))
		return iv(i, i)
	}
	switch n {
	case "strings.TrimSpace":
		if texts(1) {
			return sv(strings.TrimSpace(a[0].s))
		}
	case "strings.ToUpper":
		if texts(1) {
			return sv(strings.ToUpper(a[0].s))
		}
	case "strings.Split":
		if texts(2) {
			return lv(strings.Split(a[0].s, a[1].s))
		}
	case "strings.SplitN":
		if texts(2) && a[2].one() {
			return lv(strings.SplitN(a[0].s, a[1].s, int(a[2].lo)))
		}
	case "strings.Fields":
		if texts(1) {
			return lv(strings.Fields(a[0].s))
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte":
		if texts(1) && a[1].one() {
			var i int
			switch n {
			case "strings.IndexByte":
				i = strings.IndexByte(a[0].s, byte(a[1].lo))
			case "strings.IndexRune":
				i = strings.IndexRune(a[0].s, rune(a[1].lo))
			default:
				i = strings.LastIndexByte(a[0].s, byte(a[1].lo))
			}
			return iv(int64(i), int64(i))
		}
	case "strings.Repeat":
		if texts(1) && a[1].one() && a[1].lo >= 0 && a[1].lo < 1000 {
			return sv(strings.Repeat(a[0].s, int(a[1].lo)))
		}
	case "strings.Replace", "strings.ReplaceAll":
		if texts(3) {
			k := -1
			if n == "strings.Replace" {
				if !a[3].one() {
					return val{}
				}
				k = int(a[3].lo)
			}
			return sv(strings.Replace(a[0].s, a[1].s, a[2].s, k))
		}
	case "strings.Join":
		if xs, ok := e.list(t.Args[0]); ok && a[1].k == 's' {
			var l []string
			for _, x := range xs {
				v := e.ev(x)
				if v.k != 's' {
					return val{}
				}
				l = append(l, v.s)
			}
			return sv(strings.Join(l, a[1].s))
		}
		if a[0].k == 'l' && a[1].k == 's' {
			return sv(strings.Join(a[0].l, a[1].s))
		}
	case "strconv.Itoa":
		if a[0].one() {
			return sv(strconv.FormatInt(a[0].lo, 10))
		}
	case "strconv.FormatInt":
		if a[0].one() && a[1].one() && a[1].lo >= 2 && a[1].lo <= 36 {
			return sv(strconv.FormatInt(a[0].lo, int(a[1].lo)))
		}
	case "fmt.Sprintf", "fmt.Sprint":
		k := 0
		if n == "fmt.Sprintf" {
			k = 1
		}
		xs, ok := e.list(t.Args[k])
		if !ok || k == 1 && a[0].k != 's' {
			return val{}
		}
		var args []any
		for _, x := range xs {
			v := e.ev(x)
			switch {
			case v.k == 's':
				args = append(args, v.s)
			case v.one():
				args = append(args, v.lo)
			case v.k == 'b':
				args = append(args, v.b)
			default:
				return val{}
			}
		}
		if k == 1 {
			return sv(fmt.Sprintf(a[0].s, args...))
		}
		return sv(fmt.Sprint(args...))
	case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).MatchString":
		p := patternOf(t.Args[0])
		if p == "" || a[1].k != 's' {
			return val{}
		}
		re, err := regexp.Compile(p)
		if err != nil {
			return val{}
		}
		if strings.HasSuffix(n, "MatchString") {
			return bv(re.MatchString(a[1].s))
		}
		if m := re.FindStringSubmatch(a[1].s); m != nil {
			return lv(m)
		}
		return nv(true)
	}
	return val{}
}

// patternOf is the constant pattern of a compiled regular expression.
func patternOf(t *eng.Term) string {
	if isCall(t, "regexp.MustCompile") {
		s, _ := t.Args[0].StrVal()
		return s
	}
	return ""
}

// fact is one thing known on a path: a boolean term's truth, a - b <= k, or
// equality with a constant.
type fact struct {
	kind byte // t, d, e, n
	a, b *eng.Term
	k    int64
	v    bool
}

func factsOf(f *eng.Facts) []fact {
	var out []fact
	f.Truths(func(t *eng.Term, v bool) { out = append(out, fact{kind: 't', a: t, v: v}) })
	f.Diffs(func(a, b *eng.Term, k int64) { out = append(out, fact{kind: 'd', a: a, b: b, k: k}) })
	f.EqConsts(func(t, k *eng.Term) { out = append(out, fact{kind: 'e', a: t, b: k}) })
	f.NeqConsts(func(t, k *eng.Term) { out = append(out, fact{kind: 'n', a: t, b: k}) })
	sort.SliceStable(out, func(i, j int) bool { return out[i].kind < out[j].kind })
	return out
}

// feasible: no fact of the path is false in the whole cell.
func (e *cell) feasible(fs []fact) bool {
	num := func(t *eng.Term) val {
		if t == nil {
			return iv(0, 0)
		}
		return e.ev(t)
	}
	for _, f := range fs {
		switch f.kind {
		case 't':
			if r := e.ev(f.a).truth(); r != 0 && (r == 1) != f.v {
				return false
			}
		case 'd':
			x, y := num(f.a), num(f.b)
			if x.k == 'i' && y.k == 'i' && x.lo-y.hi > f.k {
				return false
			}
		case 'e':
			if e.same(f.a, f.b) == -1 {
				return false
			}
		case 'n':
			if e.same(f.a, f.b) == 1 {
				return false
			}
		}
	}
	return true
}

// same compares a term with a constant.
func (e *cell) same(t, k *eng.Term) int {
	x, y := e.ev(t), e.ev(k)
	switch {
	case k.K == eng.KNil && x.k == 'n':
		return bv(x.b).truth()
	case k.K == eng.KNil && x.k == 'l':
		return -1
	case x.k == 's' && y.k == 's', x.k == 'b' && y.k == 'b':
		return bv(x.s == y.s && x.b == y.b).truth()
	case x.k == 'i' && y.k == 'i':
		if x.one() && y.one() && x.lo == y.lo {
			return 1
		}
		if x.hi < y.lo || y.hi < x.lo {
			return -1
		}
	case x.k == 'a' && y.k == 's' && int64(len(y.s)) < x.lo:
		return -1
	}
	return 0
}

// ---- languages of patterns ----

type nfa struct {
	p *syntax.Prog
}

func compileNFA(pat string) (*nfa, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &nfa{p}, nil
}

// close follows the empty moves allowed by the flags; true if it matches.
func (n *nfa) close(set map[uint32]bool, flags syntax.EmptyOp) bool {
	var work []uint32
	for i := range set {
		work = append(work, i)
	}
	hit := false
	add := func(i uint32) {
		if !set[i] {
			set[i] = true
			work = append(work, i)
		}
	}
	for len(work) > 0 {
		i := n.p.Inst[work[len(work)-1]]
		work = work[:len(work)-1]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(i.Out)
			add(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(i.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^flags == 0 {
				add(i.Out)
			}
		case syntax.InstMatch:
			hit = true
		}
	}
	return hit
}

// langState is a state of the automaton telling whether a text contains a
// match: raw holds the instructions reached by the text so far.
type langState struct {
	raw  map[uint32]bool
	done bool
	beg  bool
}

func (s langState) key() string {
	return fmt.Sprint(s.raw, s.done, s.beg)
}

func (n *nfa) accepts(s langState) bool {
	if s.done {
		return true
	}
	fl := syntax.EmptyEndText | syntax.EmptyEndLine
	if s.beg {
		fl |= syntax.EmptyBeginText | syntax.EmptyBeginLine
	}
	m := map[uint32]bool{uint32(n.p.Start): true}
	for i := range s.raw {
		m[i] = true
	}
	return n.close(m, fl)
}

func (n *nfa) step(s langState, r rune) langState {
	if s.done {
		return s
	}
	fl := syntax.EmptyOp(0)
	if s.beg {
		fl = syntax.EmptyBeginText | syntax.EmptyBeginLine
	}
	m := map[uint32]bool{uint32(n.p.Start): true}
	for i := range s.raw {
		m[i] = true
	}
	out := langState{raw: map[uint32]bool{}}
	if n.close(m, fl) {
		out.done = true
		return out
	}
	for i := range m {
		in := &n.p.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(r) {
				out.raw[in.Out] = true
			}
		}
	}
	return out
}

// sameLanguage compares which texts two patterns match; the text is one they
// differ on.
func sameLanguage(p, q string) (bool, string, error) {
	a, err := compileNFA(p)
	if err != nil {
		return false, "", err
	}
	b, err := compileNFA(q)
	if err != nil {
		return false, "", err
	}
	// one letter of every class that either pattern distinguishes
	cut := map[rune]bool{'\n': true, '\n' + 1: true, 0: true, 'é': true}
	for _, n := range []*nfa{a, b} {
		for _, in := range n.p.Inst {
			for k, r := range in.Rune {
				if len(in.Rune) == 1 {
					cut[r], cut[r+1] = true, true
					if in.Arg&uint32(syntax.FoldCase) != 0 {
						for c := rune(0); c < 128; c++ {
							cut[c] = true
						}
					}
				} else if k%2 == 0 {
					cut[r] = true
				} else {
					cut[r+1] = true
				}
			}
		}
	}
	var letters []rune
	for r := range cut {
		letters = append(letters, r)
	}
	sort.Slice(letters, func(i, j int) bool { return letters[i] < letters[j] })
	type pair struct {
		x, y langState
		w    string
	}
	start := pair{langState{raw: map[uint32]bool{}, beg: true}, langState{raw: map[uint32]bool{}, beg: true}, ""}
	seen := map[string]bool{}
	work := []pair{start}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		k := s.x.key() + "|" + s.y.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			return false, "", fmt.Errorf("too many states")
		}
		if a.accepts(s.x) != b.accepts(s.y) {
			return false, s.w, nil
		}
		for _, r := range letters {
			work = append(work, pair{a.step(s.x, r), b.step(s.y, r), s.w + string(r)})
		}
	}
	return true, "", nil
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
