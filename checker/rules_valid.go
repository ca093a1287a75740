package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- exact validation: C24, C25, C26, C27 ----
//
// For each validation method the specification lists the violations, each a
// conjunction of literals over the receiver's fields. Every path on which the
// method accepts must contradict every violation; every path on which it
// rejects must imply at least one. Nested validation methods are opaque: their
// own specification decides them.

type lit struct {
	t   *eng.Term
	pol bool
}
type conj struct {
	name string
	lits []lit
	list *listLit
	gate int64 // version gate: the violation disappears from this version on
}

// listLit: some element of list fails its validation.
type listLit struct {
	list *eng.Term
	elem types.Type
	ok   func(st *eng.State, elem *eng.Term) *eng.Term
}

// vm is the vocabulary of a specification.
type vm struct {
	c       *C
	st      *eng.State
	recv    *eng.Term // address of the receiver
	rt      types.Type
	version *eng.Term
	viols   []conj
	err     error
}

func (m *vm) fail(f string, a ...any) {
	if m.err == nil {
		m.err = fmt.Errorf(f, a...)
	}
}

// addr resolves "A.B" to the address of a field (embedded fields included).
func (m *vm) addr(path string) (*eng.Term, types.Type) {
	a, t := m.recv, m.rt
	if path == "" {
		return a, t
	}
	for _, n := range strings.Split(path, ".") {
		obj, idx, _ := types.LookupFieldOrMethod(t, true, m.c.W.Lib.Pkg, n)
		v, ok := obj.(*types.Var)
		if !ok {
			m.fail("no field %s in %s", n, t)
			return a, t
		}
		for _, i := range idx {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				a = m.st.Load(a, t)
				t = p.Elem()
			}
			f := t.Underlying().(*types.Struct).Field(i)
			a = eng.FieldAddr(a, i, types.NewPointer(f.Type()))
			t = f.Type()
		}
		_ = v
	}
	return a, t
}

func (m *vm) val(path string) (*eng.Term, types.Type) {
	a, t := m.addr(path)
	return m.st.Load(a, t), t
}

var boolT = types.Typ[types.Bool]

func (m *vm) cmp(a *eng.Term, op token.Token, b *eng.Term) lit {
	return lit{eng.Bin(op, a, b, boolT), true}
}
func (m *vm) length(path string) *eng.Term {
	v, _ := m.val(path)
	return eng.LenOf(v)
}
func (m *vm) empty(p string) lit  { return m.cmp(m.length(p), token.EQL, eng.Int(0)) }
func (m *vm) filled(p string) lit { return not(m.empty(p)) }
func (m *vm) longer(p string, n int64) lit {
	return m.cmp(m.length(p), token.GTR, eng.Int(n))
}
func (m *vm) lenNot(p string, n int64) lit {
	return m.cmp(m.length(p), token.NEQ, eng.Int(n))
}
func not(l lit) lit { return lit{l.t, !l.pol} }
func (m *vm) isNil(p string) lit {
	v, _ := m.val(p)
	return m.cmp(v, token.EQL, eng.Nil)
}
func (m *vm) set(p string) lit { return not(m.isNil(p)) }
func (m *vm) isTrue(p string) lit {
	v, _ := m.val(p)
	return lit{v, true}
}
func (m *vm) str(p, s string) lit {
	v, _ := m.val(p)
	return m.cmp(v, token.EQL, eng.Str(s))
}
func (m *vm) noDate(p string) lit {
	a, t := m.addr(p)
	st := t.Underlying().(*types.Struct)
	ft := st.Field(0).Type() // the embedded time.Time
	v := m.st.Load(eng.FieldAddr(a, 0, types.NewPointer(ft)), ft)
	return lit{eng.PureCall("(time.Time).Equal", []*eng.Term{v, eng.Zero(ft)}, boolT), true}
}

// badEnum: the field holds none of its type's constants.
func (m *vm) badEnum(p string) [][]lit {
	v, t := m.val(p)
	n := int64(len(enumTable(t)))
	if n == 0 {
		m.fail("%s is not an enumeration", t)
	}
	return [][]lit{{m.cmp(v, token.LSS, eng.Int(1))}, {m.cmp(v, token.GTR, eng.Int(n))}}
}
func (m *vm) enumIs(p, s string) lit {
	v, t := m.val(p)
	for i, x := range enumTable(t) {
		if x == s {
			return m.cmp(v, token.EQL, eng.Int(int64(i+1)))
		}
	}
	m.fail("%s has no value %s", t, s)
	return lit{eng.False, true}
}

// verdict is the term of the nested validation result.
func (m *vm) verdictOf(st *eng.State, addr *eng.Term, t types.Type) *eng.Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		addr = st.Load(addr, t)
		t = p.Elem()
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, m.c.W.Lib.Pkg, "Valid")
	f, ok := obj.(*types.Func)
	if !ok {
		m.fail("%s has no Valid method", t)
		return eng.False
	}
	sig := f.Type().(*types.Signature)
	args := []*eng.Term{st.Content(addrContent(st, addr, t))}
	if sig.Params().Len() == 1 {
		args = append(args, m.version)
	}
	call := eng.PureCall(f.FullName(), args, sig.Results())
	return eng.Extract(call, 0, boolT)
}
func addrContent(st *eng.State, addr *eng.Term, t types.Type) *eng.Term {
	return st.Load(addr, t)
}
func (m *vm) good(p string) lit {
	a, t := m.addr(p)
	return lit{m.verdictOf(m.st, a, t), true}
}
func (m *vm) bad(p string) lit { return not(m.good(p)) }
func (m *vm) below(v string) lit {
	n := versionConst(v)
	if n < 0 || m.version == nil {
		m.fail("no version %s", v)
		return lit{eng.False, true}
	}
	return m.cmp(m.version, token.LSS, eng.Int(n))
}

func (m *vm) v(name string, lits ...lit) { m.viols = append(m.viols, conj{name: name, lits: lits}) }
func versionConst(v string) int64 {
	for i, x := range enumTables["ofxVersion"] {
		if x == v {
			return int64(i + 1)
		}
	}
	return -1
}
func (m *vm) gate(name, version string, lits ...lit) {
	m.viols = append(m.viols, conj{name: name, lits: append(lits, m.below(version)), gate: versionConst(version)})
}
func (m *vm) vEnum(name string, p string, with ...lit) {
	for _, alt := range m.badEnum(p) {
		m.viols = append(m.viols, conj{name: name, lits: append(append([]lit{}, with...), alt...)})
	}
}
func (m *vm) vEach(name, p string) {
	v, t := m.val(p)
	et := t.Underlying().(*types.Slice).Elem()
	m.viols = append(m.viols, conj{name: name, list: &listLit{list: v, elem: et, ok: func(st *eng.State, elem *eng.Term) *eng.Term {
		return m.verdictOf(st, elem, et)
	}}})
}

type validSpec struct {
	fn    string // method
	spec  func(m *vm)
	props string // properties it belongs to
}

var validSpecs = []validSpec{
	{"UID.Valid", func(m *vm) {
		m.v("identifier empty", m.empty(""))
		m.v("identifier longer than 36", m.longer("", 36))
	}, "C25"},
	{"UID.RecommendedFormat", func(m *vm) {
		m.v("not 36 characters", m.lenNot("", 36))
		v, _ := m.val("")
		for _, i := range []int64{8, 13, 18, 23} {
			ch := eng.ElemOf(v, eng.Int(i), types.Typ[types.Uint8])
			m.v(fmt.Sprintf("no hyphen at %d", i), m.cmp(m.length(""), token.EQL, eng.Int(36)), m.cmp(ch, token.NEQ, eng.Int('-')))
		}
	}, "C25"},
	{"SignonRequest.Valid", func(m *vm) {
		m.v("user ID empty", m.empty("UserID"))
		m.v("user ID longer than 32", m.longer("UserID", 32))
		m.v("neither password nor key", m.empty("UserPass"), m.empty("UserKey"))
		m.v("both password and key", m.filled("UserPass"), m.filled("UserKey"))
		m.v("password longer than 32", m.longer("UserPass", 32))
		m.v("key longer than 64", m.longer("UserKey", 64))
		m.v("language neither empty nor 3 long", m.filled("Language"), m.lenNot("Language", 3))
		m.v("application ID empty", m.empty("AppID"))
		m.v("application ID longer than 5", m.longer("AppID", 5))
		m.v("application version empty", m.empty("AppVer"))
		m.v("application version longer than 4", m.longer("AppVer", 4))
	}, "C25"},
	{"SignonResponse.Valid", func(m *vm) {
		m.v("language not 3 long", m.lenNot("Language", 3))
		m.v("status invalid", m.bad("Status"))
	}, "C25"},
	{"CurrSymbol.Valid", func(m *vm) {
		a, t := m.addr("")
		u := m.st.Load(a, t)
		unit := eng.FieldOf(u, 0, t.Underlying().(*types.Struct).Field(0).Type())
		s := eng.PureCall("(golang.org/x/text/currency.Unit).String", []*eng.Term{unit}, types.Typ[types.String])
		m.v("currency XXX", lit{eng.Eq(s, eng.Str("XXX")), true})
	}, "C26"},
	{"Currency.Valid", func(m *vm) {
		a, t := m.addr("CurRate")
		// CurRate is an Amount wrapping big.Rat
		rat := t.Underlying().(*types.Struct).Field(0).Type()
		v := m.st.Load(eng.FieldAddr(a, 0, types.NewPointer(rat)), rat)
		sign := eng.PureCall("(*math/big.Rat).Sign", []*eng.Term{v}, types.Typ[types.Int])
		m.v("rate zero", lit{eng.Eq(sign, eng.Int(0)), true})
		m.v("symbol invalid", m.bad("CurSym"))
	}, "C26"},
	{"BankAcct.Valid", func(m *vm) {
		m.v("bank ID empty", m.empty("BankID"))
		m.v("account ID empty", m.empty("AcctID"))
		m.vEnum("account type invalid", "AcctType")
	}, "C26"},
	{"CCAcct.Valid", func(m *vm) { m.v("account ID empty", m.empty("AcctID")) }, "C26"},
	{"Payee.Valid", func(m *vm) {
		for _, f := range []string{"Name", "Addr1", "City", "State", "PostalCode", "Phone"} {
			m.v(f+" empty", m.empty(f))
		}
		m.v("country neither empty nor 3 long", m.filled("Country"), m.lenNot("Country", 3))
	}, "C26"},
	{"Balance.Valid", func(m *vm) {
		m.v("name empty", m.empty("Name"))
		m.v("description empty", m.empty("Desc"))
		m.vEnum("balance type invalid", "BalType")
	}, "C26"},
	{"Transaction.Valid", func(m *vm) {
		m.vEnum("transaction type invalid", "TrnType")
		m.v("transaction type HOLD", m.enumIs("TrnType", "HOLD"))
		m.v("posting date missing", m.noDate("DtPosted"))
		m.v("FITID empty", m.empty("FiTID"))
		m.vEnum("correction without valid action", "CorrectAction", m.filled("CorrectFiTID"))
		m.v("both name and payee", m.filled("Name"), m.set("Payee"))
		m.v("payee invalid", m.set("Payee"), m.bad("Payee"))
		m.v("both bank and card destination", m.set("BankAcctTo"), m.set("CCAcctTo"))
		m.v("bank destination invalid", m.set("BankAcctTo"), m.isNil("CCAcctTo"), m.bad("BankAcctTo"))
		m.v("card destination invalid", m.set("CCAcctTo"), m.isNil("BankAcctTo"), m.bad("CCAcctTo"))
		m.gate("images below 2.2", "220", m.filled("ImageData"))
		m.v("more than two images", m.longer("ImageData", 2))
		m.v("both currencies", m.set("Currency"), m.set("OrigCurrency"), m.good("Currency"), m.good("OrigCurrency"))
	}, "C26 C27"},
	{"TransactionList.Valid", func(m *vm) {
		m.v("start missing", m.noDate("DtStart"))
		m.v("end missing", m.noDate("DtEnd"))
		m.vEach("transaction invalid", "Transactions")
	}, "C26 C27"},
	{"PendingTransaction.Valid", func(m *vm) {
		m.vEnum("transaction type invalid", "TrnType")
		m.v("date missing", m.noDate("DtTran"))
		m.v("name empty", m.empty("Name"))
		m.v("both currencies", m.good("Currency"), m.good("OrigCurrency"))
	}, "C26"},
	{"PendingTransactionList.Valid", func(m *vm) {
		m.v("date missing", m.noDate("DtAsOf"))
		m.vEach("pending transaction invalid", "Transactions")
	}, "C26"},
	{"StatementRequest.Valid", func(m *vm) {
		m.v("transaction ID invalid", m.bad("TrnUID"))
		m.gate("pending below 2.2", "220", m.isTrue("IncludePending"))
		m.gate("images below 2.1", "210", m.isTrue("IncTranImg"))
		m.v("account invalid", m.bad("BankAcctFrom"))
	}, "C26 C27"},
	{"StatementResponse.Valid", func(m *vm) {
		m.v("transaction ID invalid", m.bad("TrnUID"))
		m.v("status invalid", m.bad("Status"))
		m.v("currency invalid", m.bad("CurDef"))
		m.v("account invalid", m.bad("BankAcctFrom"))
		m.v("balance date missing", m.noDate("DtAsOf"))
		m.v("available balance without date", m.set("AvailBalAmt"), m.isNil("AvailDtAsOf"))
		m.v("available date without balance", m.isNil("AvailBalAmt"), m.set("AvailDtAsOf"))
		m.v("transaction list invalid", m.set("BankTranList"), m.bad("BankTranList"))
		m.gate("pending list below 2.2", "220", m.set("BankTranListP"))
		m.v("pending list invalid", m.set("BankTranListP"), m.bad("BankTranListP"))
		m.vEach("balance invalid", "BalList")
	}, "C26 C27"},
	{"CCStatementRequest.Valid", uidOnly, "C26"},
	{"CCStatementResponse.Valid", uidOnly, "C26"},
	{"InvStatementRequest.Valid", uidOnly, "C26"},
	{"InvStatementResponse.Valid", uidOnly, "C26"},
	{"ProfileRequest.Valid", uidOnly, "C26"},
	{"ProfileResponse.Valid", uidOnly, "C26"},
	{"SecListRequest.Valid", uidOnly, "C26"},
	{"SecListResponse.Valid", uidOnly, "C26"},
	{"SecurityList.Valid", func(m *vm) {}, "C26"},
	{"AcctInfoRequest.Valid", uidOnly, "C26"},
	{"AcctInfoResponse.Valid", uidOnly, "C26"},
}

func uidOnly(m *vm) { m.v("transaction ID invalid", m.bad("TrnUID")) }

// isVerdictMethod: a validation method returning (bool, error).
func isVerdictMethod(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() == nil || (f.Name() != "Valid" && f.Name() != "RecommendedFormat") || sig.Results().Len() != 2 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// validRun analyses one validation method with nested ones opaque.
func (c *C) validRun(f *ssa.Function) (*eng.Run, []eng.Outcome, *vm) {
	r := c.Run()
	r.MaxSteps = 6000000
	r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
		if g != f && isVerdictMethod(g) && g.Pkg == c.W.Lib {
			return eng.Pure
		}
		return eng.Auto
	}
	m := &vm{c: c}
	outs, _ := c.Analyze(r, f, func(st *eng.State, ps []*eng.Term) *eng.State {
		m.st = st.Clone()
		rt := f.Signature.Recv().Type()
		recv := ps[0]
		if p, ok := rt.Underlying().(*types.Pointer); ok {
			m.rt = p.Elem()
		} else {
			m.rt = rt
			if recv.K == eng.KInit {
				recv = recv.Args[0]
			} else {
				recv = eng.Param(recv.S+"@", types.NewPointer(rt))
				m.st.Store(recv, ps[0])
			}
		}
		m.recv = recv
		for i, p := range ps {
			if i > 0 && f.Params[i].Type().String() == "github.com/aclindsa/ofxgo.ofxVersion" {
				m.version = p
			}
		}
		return st
	})
	return r, outs, m
}

func verdictPols(f *eng.Facts, t *eng.Term) map[bool][]*eng.Facts {
	return map[bool][]*eng.Facts{true: f.Assume(t, true), false: f.Assume(t, false)}
}

// holdsAll: the literals can all hold together with the facts?
func consistent(f *eng.Facts, lits []lit) bool {
	fs := []*eng.Facts{f}
	for _, l := range lits {
		var nx []*eng.Facts
		for _, g := range fs {
			nx = append(nx, g.Assume(l.t, l.pol)...)
		}
		fs = nx
	}
	return len(fs) > 0
}

func entailed(f *eng.Facts, lits []lit) bool {
	for _, l := range lits {
		if !f.Holds(l.t, l.pol) {
			return false
		}
	}
	return true
}

// impliesOne: the facts imply one of the violations (case analysis).
func impliesOne(f *eng.Facts, vs []conj, budget *int) bool {
	for _, v := range vs {
		if v.list == nil && entailed(f, v.lits) {
			return true
		}
		if v.list != nil && someElemBad(f, v.list) {
			return true
		}
	}
	*budget--
	if *budget < 0 {
		return false
	}
	var rest []conj
	for _, v := range vs {
		if v.list == nil && consistent(f, v.lits) {
			rest = append(rest, v)
		}
	}
	if len(rest) == 0 {
		return false
	}
	// split on the violation with the fewest open literals
	best := -1
	open := func(v conj) (ls []lit) {
		for _, l := range v.lits {
			if !f.Holds(l.t, l.pol) {
				ls = append(ls, l)
			}
		}
		return
	}
	for i, v := range rest {
		if best < 0 || len(open(v)) < len(open(rest[best])) {
			best = i
		}
	}
	o := open(rest[best])
	// not all of them hold: f and not l1, or f and l1 and not l2, ...
	cur := []*eng.Facts{f}
	for _, l := range o {
		var nx []*eng.Facts
		for _, g := range cur {
			for _, h := range g.Assume(l.t, !l.pol) {
				if !impliesOne(h, append(rest[:best:best], rest[best+1:]...), budget) {
					return false
				}
			}
			nx = append(nx, g.Assume(l.t, l.pol)...)
		}
		cur = nx
	}
	return true
}

// someElemBad: the facts hold the failed validation of an element.
func someElemBad(f *eng.Facts, l *listLit) bool {
	found := false
	f.Truths(func(t *eng.Term, v bool) {
		if found || v || t.K != eng.KExtract || !eng.IsVerdict(t.Args[0]) {
			return
		}
		x := t.Args[0].Args[0]
		if x.K == eng.KInit && x.Args[0].K == eng.KElem && x.Args[0].Args[0] == l.list {
			idx := x.Args[0].Args[1]
			want := l.ok(emptyState(), x.Args[0])
			if want == t && f.LE(eng.Int(0), idx, 0) == 1 && f.LE(idx, eng.LenOf(l.list), -1) == 1 {
				found = true
			}
		}
	})
	return found
}

func emptyState() *eng.State { return (&eng.Run{}).NewState() }

// covered: on this path every element of the list passed p. Either the list
// is empty, or a loop over all of its indices only continues when p holds.
func covered(st *eng.State, f *eng.Facts, list *eng.Term, p func(st *eng.State, bf *eng.Facts, elem *eng.Term) bool, elem types.Type) (bool, string) {
	if f.LE(eng.LenOf(list), eng.Int(0), 0) == 1 {
		return true, ""
	}
	why := "no loop over all elements of " + list.String()
	for _, e := range flatten(st.Events(nil)) {
		if e.Kind != "loop" {
			continue
		}
		if ok, w := loopCovers(e.Loop, f, list, p, elem); ok {
			return true, ""
		} else if w != "" {
			why = w
		}
	}
	return false, why
}

func flatten(es []*eng.Event) []*eng.Event {
	var out []*eng.Event
	for _, e := range es {
		if e.Kind == "alt" {
			for _, a := range e.Alts {
				out = append(out, flatten(a.Events)...)
			}
			continue
		}
		out = append(out, e)
	}
	return out
}

// loopIndex finds the induction variable that enumerates 0..len-1: it returns
// the index term used in an iteration.
func loopIndex(l *eng.LoopInfo, f *eng.Facts, list *eng.Term) []*eng.Term {
	var out []*eng.Term
	n := eng.LenOf(list)
	for t, ind := range l.Ind {
		ev, ok := ind.Entry.IntVal()
		if ind.Step == 1 && ok && exactStep(l, t, 1) {
			// index of an iteration is t + d with entry + d == 0
			idx := eng.Bin(token.ADD, t, eng.Int(-ev), types.Typ[types.Int])
			if f.LE(n, idx, 0) == 1 {
				out = append(out, idx)
			}
		}
		if ind.Step == -1 && exactStep(l, t, -1) {
			// downwards from len-1 (idx = t+d, entry+d == len-1) to 0
			for _, d := range []int64{0, -1, 1} {
				if f.LE(ind.Entry, n, -1-d) == 1 && f.LE(n, ind.Entry, 1+d) == 1 {
					idx := eng.Bin(token.ADD, t, eng.Int(d), types.Typ[types.Int])
					if f.LE(idx, eng.Int(-1), 0) == 1 {
						out = append(out, idx)
					}
				}
			}
		}
	}
	return out
}

func exactStep(l *eng.LoopInfo, t *eng.Term, s int64) bool {
	for p, pt := range l.Phis {
		if pt != t {
			continue
		}
		for _, b := range l.Backs {
			if b.Phis[p] != eng.Bin(token.ADD, t, eng.Int(s), types.Typ[types.Int]) {
				return false
			}
		}
		return true
	}
	return false
}

func loopCovers(l *eng.LoopInfo, exit *eng.Facts, list *eng.Term, p func(st *eng.State, bf *eng.Facts, elem *eng.Term) bool, elem types.Type) (bool, string) {
	why := ""
	for _, idx := range loopIndex(l, exit, list) {
		all := true
		ea := eng.ElemAddr(list, idx, types.NewPointer(elem))
		for _, b := range l.Backs {
			if !p(b.St, b.St.F, ea) {
				all = false
				why = "an iteration continues without the element's verdict: " + b.St.F.Path()
			}
		}
		if all && len(l.Backs) > 0 {
			return true, ""
		}
	}
	return false, why
}

func (c *C) decideValid(s validSpec, prop string) {
	f := c.Lib(s.fn)
	if f == nil {
		return
	}
	_, outs, m := c.validRun(f)
	s.spec(m)
	if m.err != nil {
		c.Fail("specification", s.fn, c.W.Pos(f.Pos()), "cannot be interpreted: %v", m.err)
		return
	}
	viols := m.viols
	gatedOnly := prop == "C27"
	if gatedOnly {
		hasGate := false
		for _, v := range viols {
			hasGate = hasGate || v.gate > 0
		}
		if !hasGate {
			return
		}
	}
	nacc, nrej := 0, 0
	for _, o := range outs {
		pos := c.W.InstrPos(o.Site)
		if o.Kind != "ret" {
			c.Fail("returns", s.fn, pos, "the method ends by %s", o.Kind)
			continue
		}
		for pol, fs := range verdictPols(o.St.F, o.Res[0]) {
			for _, g := range fs {
				if pol {
					nacc++
					for _, v := range viols {
						if gatedOnly && v.gate == 0 {
							continue
						}
						if v.list != nil {
							ok, why := covered(o.St, g, v.list.list, func(st *eng.State, bf *eng.Facts, e *eng.Term) bool {
								return bf.Holds(v.list.ok(st, e), true)
							}, v.list.elem)
							c.Check(ok, "accepts only without: "+v.name, s.fn, pos, "accepted although possibly %s (%s); path: %s", v.name, why, g.Path())
							continue
						}
						c.Check(!consistent(g, v.lits), "accepts only without: "+v.name, s.fn, pos, "accepted although possibly %s; path: %s", v.name, g.Path())
					}
					continue
				}
				nrej++
				if !gatedOnly {
					budget := 4000
					c.Check(impliesOne(g, viols, &budget), "rejects only with a violation", s.fn, pos, "rejected on a path that implies none of the documented violations: %s", g.Path())
					continue
				}
				// from a gate's version on something else must be wrong
				for _, t := range gateVersions(viols) {
					var vs []conj
					for _, v := range viols {
						if v.gate == 0 || v.gate > t {
							vs = append(vs, v)
						}
					}
					for _, h := range g.Assume(eng.Bin(token.GEQ, m.version, eng.Int(t), boolT), true) {
						budget := 4000
						c.Check(impliesOne(h, vs, &budget), fmt.Sprintf("rejects from version constant %d on only for other reasons", t), s.fn, pos, "rejected on a path that implies none of the documented violations: %s", h.Path())
					}
				}
			}
		}
	}
	if len(viols) > 0 {
		c.Check(nrej > 0, "can reject", s.fn, c.W.Pos(f.Pos()), "no path rejects")
	}
	c.Check(nacc > 0, "can accept", s.fn, c.W.Pos(f.Pos()), "no path accepts")
	if s.fn == "SignonRequest.Valid" && prop == "C25" {
		c.signonLanguage(s.fn, outs, m)
	}
}

func gateVersions(vs []conj) (out []int64) {
	seen := map[int64]bool{}
	for _, v := range vs {
		if v.gate > 0 && !seen[v.gate] {
			seen[v.gate] = true
			out = append(out, v.gate)
		}
	}
	return
}

// signonLanguage: an empty language becomes ENG, any other is kept.
func (c *C) signonLanguage(fn string, outs []eng.Outcome, m *vm) {
	a, t := m.addr("Language")
	init := m.st.Load(a, t)
	for _, o := range outs {
		if o.Kind != "ret" {
			continue
		}
		for _, g := range o.St.F.Assume(o.Res[0], true) {
			now := o.St.Load(a, t)
			pos := c.W.InstrPos(o.Site)
			for _, h := range g.Assume(eng.Eq(eng.LenOf(init), eng.Int(0)), true) {
				v, ok := now.StrVal()
				c.Check(ok && v == "ENG", "empty language becomes ENG", fn, pos, "language is %s; path: %s", now, h.Path())
			}
			for _, h := range g.Assume(eng.Eq(eng.LenOf(init), eng.Int(0)), false) {
				c.Check(now == init, "given language is kept", fn, pos, "language is %s; path: %s", now, h.Path())
			}
		}
	}
}

// ---- C24 ----

func (c *C) verdictConsistency() {
	n := 0
	for _, f := range c.W.Funcs {
		if !isVerdictMethod(f) || f.Pkg != c.W.Lib || f.Synthetic != "" {
			continue
		}
		n++
		r, outs, _ := c.validRun(f)
		_ = r
		name := eng.ShortName(f)
		for _, o := range outs {
			pos := c.W.InstrPos(o.Site)
			if o.Kind != "ret" {
				continue
			}
			for pol, fs := range verdictPols(o.St.F, o.Res[0]) {
				for _, g := range fs {
					want := -1
					if pol {
						want = 1
					}
					ok := g.IsNil(o.Res[1]) == want
					if pol {
						c.Check(ok, "true comes with a nil error", name, pos, "true is returned with error %s; path: %s", o.Res[1], g.Path())
					} else {
						c.Check(ok, "false comes with an error", name, pos, "false is returned with error %s which may be nil; path: %s", o.Res[1], g.Path())
					}
				}
			}
		}
	}
	c.Check(n >= 25, "methods", "Valid", "", "only %d validation methods found", n)
}

func init() {
	reg("C24", 40, "Every path through every (bool, error) validation method is enumerated by abstract interpretation over the SSA form (in-module helpers inlined, nested validation methods summarised by this same property, which is sound by induction over the nesting); at each return the path's facts must decide that the error is nil exactly when the verdict is true.", (*C).verdictConsistency)
	reg("C25", 30, "For each sign-on, identifier and status validation method a table lists the documented violations as conjunctions of conditions over the receiver's fields. Every accepting path must contradict each violation and every rejecting path must imply at least one (interval, equality and nil-ness reasoning over path facts). UID format: see rule names.", func(c *C) {
		for _, s := range validSpecs {
			if strings.Contains(s.props, "C25") {
				c.decideValid(s, "C25")
			}
		}
		c.statusValid()
	})
	reg("C26", 90, "For each statement-related validation method a table lists the documented violations as conjunctions of conditions over the receiver's fields; accepting paths must contradict every one of them and rejecting paths must imply at least one. List elements: a loop over all indices must only continue when the element's own validation accepted it.", func(c *C) {
		seen := map[string]bool{}
		for _, s := range validSpecs {
			seen[s.fn] = true
			if strings.Contains(s.props, "C26") {
				c.decideValid(s, "C26")
			}
		}
		// every validation method of the library has a specification
		for _, f := range c.W.Funcs {
			if isVerdictMethod(f) && f.Pkg == c.W.Lib && f.Synthetic == "" {
				n := strings.NewReplacer("(*", "", "(", "", ")", "").Replace(eng.ShortName(f))
				c.Check(seen[n] || n == "Response.Valid" || n == "Status.Valid", "has a specification", n, c.W.Pos(f.Pos()), "validation method without specification")
			}
		}
	})
	reg("C27", 12, "The version conditions of the statement validation tables are decided on their own: no accepting path may be consistent with a gated feature below its version, and from 2.2 on every rejecting path must imply a violation that is not a version gate. Every nested validation and every message validation in Response.Valid and in marshalling must be given the enclosing object's version.", func(c *C) {
		for _, s := range validSpecs {
			if strings.Contains(s.props, "C27") {
				c.decideValid(s, "C27")
			}
		}
		c.versionsPassed()
	})
}
