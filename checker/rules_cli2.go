package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"ofxcheck/eng"
)

// ---- C36 ----

// place is a value of the program: one in memory (known by its address) or
// one held as it is.
type place struct {
	t    *eng.Term
	typ  types.Type // type of the value
	addr bool
}

func placeAt(ptr *eng.Term) *place {
	return &place{ptr, ptr.Typ.Underlying().(*types.Pointer).Elem(), true}
}

func (p *place) value() *eng.Term {
	if p.addr {
		return eng.Init(p.t, p.typ)
	}
	return p.t
}

// at follows a path of fields, through pointers; nil if there is none.
func (p *place) at(path string) *place {
	for _, n := range strings.Split(path, ".") {
		if q, ok := p.typ.Underlying().(*types.Pointer); ok {
			p = &place{p.value(), q.Elem(), true}
		}
		st, ok := p.typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		k := fieldIndex(st, n)
		if k < 0 {
			return nil
		}
		f := st.Field(k).Type()
		if p.addr {
			p = &place{eng.FieldAddr(p.t, k, types.NewPointer(f)), f, true}
		} else {
			p = &place{eng.FieldOf(p.t, k, f), f, false}
		}
	}
	return p
}

// shownBy: the event prints the value to standard output.
func (p *place) shownBy(e *eng.Event) bool {
	if printsTo(e) != toStdout {
		return false
	}
	_, vals := printed(e)
	for _, v := range vals {
		if eng.Contains(v, p.t) {
			return true
		}
	}
	return false
}

func (p *place) shows(evs []*eng.Event) (n int, by *eng.Event) {
	for _, e := range evs {
		if p.shownBy(e) && p.wholeBy(e) {
			n++
			by = e
		}
	}
	return
}

// wholeBy: the event prints the value as it is, neither cut nor rounded. How a
// date is written is left open.
func (p *place) wholeBy(e *eng.Event) bool {
	if n := namedOf(p.typ); n != nil && n.Obj().Name() == "Date" {
		return true
	}
	format, vals := printed(e)
	for i, v := range vals {
		if eng.Contains(v, p.t) && !precise(format, i) && p.whole(v) {
			return true
		}
	}
	return false
}

// precise: the verb for the k-th operand limits what it writes.
func precise(format *eng.Term, k int) bool {
	if format == nil {
		return false
	}
	f, ok := format.StrVal()
	if !ok {
		return false
	}
	verbs := fmtVerb.FindAllString(strings.ReplaceAll(f, "%%", "__"), -1)
	return k < len(verbs) && strings.Contains(verbs[k], ".")
}

// whole: the value is made of p without losing any of it.
func (p *place) whole(v *eng.Term) bool {
	if v == p.t || !eng.Contains(v, p.t) {
		return true
	}
	switch v.K {
	case eng.KSlice:
		return false
	case eng.KCall, eng.KEvent:
		name := v.CalleeName()
		switch {
		case strings.HasSuffix(name, ".Float64"), strings.HasSuffix(name, ".Float32"), name == "(*math/big.Rat).FloatString":
			return false
		case strings.HasPrefix(name, "strings.") && name != "strings.TrimSpace" && name != "strings.Join" && name != "strings.Repeat":
			return false
		case name == "fmt.Sprintf" && len(v.Args) == 2 && v.Args[1].K == eng.KList:
			for i, a := range v.Args[1].Args {
				if eng.Contains(a, p.t) && (precise(v.Args[0], i) || !p.whole(a)) {
					return false
				}
			}
			return true
		}
	}
	for _, a := range v.Args {
		if !p.whole(a) {
			return false
		}
	}
	return true
}

// empty: 1 the text is known to be empty, -1 known not to be.
func (p *place) empty(f *eng.Facts) int {
	v := p.value()
	if r := f.Eval(eng.Eq(v, eng.Str(""))); r != 0 {
		return r
	}
	if f.LE(eng.LenOf(v), eng.Int(0), 0) == 1 {
		return 1
	}
	if f.LE(eng.Int(1), eng.LenOf(v), 0) == 1 {
		return -1
	}
	return 0
}

// upwards: the indices with which the loop visits all elements of the list in
// their order.
func upwards(l *eng.LoopInfo, f *eng.Facts, list *eng.Term) (out []*eng.Term) {
	n := eng.LenOf(list)
	for t, ind := range l.Ind {
		ev, ok := ind.Entry.IntVal()
		if ind.Step == 1 && ok && exactStep(l, t, 1) {
			idx := eng.Bin(token.ADD, t, eng.Int(-ev), types.Typ[types.Int])
			if f.LE(n, idx, 0) == 1 {
				out = append(out, idx)
			}
		}
	}
	return
}

// eachInOrder demands that the list's elements are visited once each and in
// order, and nothing of them is printed elsewhere.
func (c *C) eachInOrder(rule, con, pos string, f *eng.Facts, evs []*eng.Event, list *place, round func(b *eng.BackInfo, evs []*eng.Event, elem *place)) {
	v := list.value()
	elem := list.typ.Underlying().(*types.Slice).Elem()
	total := 0
	for _, e := range deepEvents(evs) {
		if list.shownBy(e) && !lengthOnly(e, list) {
			total++
		}
	}
	if f.LE(eng.LenOf(v), eng.Int(0), 0) == 1 && total == 0 {
		c.OK(rule, con)
		return
	}
	var at *eng.LoopInfo
	var idx *eng.Term
	for _, e := range flatten(evs) {
		if e.Kind != "loop" {
			continue
		}
		for _, i := range upwards(e.Loop, f, v) {
			n := 0
			for k := range e.Loop.Backs {
				b := e.Loop.Backs[k]
				for _, x := range deepEvents(b.St.Events(b.From)) {
					if list.shownBy(x) {
						n++
					}
				}
			}
			if n > 0 && at == nil {
				at, idx, total = e.Loop, i, total-n
			}
		}
	}
	if !c.Check(at != nil && total <= 0, rule, con, pos, "no single loop goes through all elements of %s upwards and prints them (%d other prints); path: %s", list.t, total, f.Path()) {
		return
	}
	for k := range at.Backs {
		b := at.Backs[k]
		round(b, flatten(b.St.Events(b.From)), placeAt(eng.ElemAddr(v, idx, types.NewPointer(elem))))
	}
}

// firstPos is where the first call of a round is.
func (c *C) firstPos(evs []*eng.Event) string {
	for _, e := range evs {
		if e.Site != nil {
			return c.W.InstrPos(e.Site)
		}
	}
	return ""
}

// lengthOnly: only the list's length is printed.
func lengthOnly(e *eng.Event, list *place) bool {
	_, vals := printed(e)
	for _, v := range vals {
		v = deconv(unwrap(v))
		if eng.Contains(v, list.t) && v != eng.LenOf(list.value()) {
			return false
		}
	}
	return true
}

// labels: a text "Field: " of a format stands before that field.
func (c *C) labels(con string, evs []*eng.Event, of *place) {
	st := structOf(of.typ)
	for _, e := range evs {
		if printsTo(e) != toStdout {
			continue
		}
		format, vals := printed(e)
		if format == nil {
			continue
		}
		for i := range vals {
			text := before2(format, i)
			m := label.FindStringSubmatch(text)
			if m == nil {
				continue
			}
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == m[1] {
					c.Check(eng.Contains(vals[i], of.at(m[1]).t), "values stand behind their labels", con+" "+m[1], c.W.InstrPos(e.Site), "label %s is followed by %s", m[1], vals[i])
				}
			}
		}
	}
}

var fmtVerb = regexp.MustCompile(`%[-+# 0-9.*]*[a-zA-Z]`)
var label = regexp.MustCompile(`(\w+):?\s*"?$`)

func (c *C) displayRules() {
	n := 0
	for _, d := range c.cliCmds() {
		w, ok := commandAsks[d.name]
		if !ok || d.do == nil {
			continue
		}
		if strings.HasPrefix(d.name, "transactions-") || d.name == "get-accounts" {
			n++
			c.displayRule(d, w)
		}
	}
	for _, d := range c.cliCmds() {
		if d.name == "detect-settings" && d.do != nil {
			c.detectedRule(d)
		}
	}
	c.Check(n == 4, "displaying commands", "command-line tool", "", "only %d of the commands that display data found", n)
}

// detectedRule: the settings reported are those of an attempt that succeeded.
func (c *C) detectedRule(d *cliCmd) {
	done := 0
	for i := range c.cli(d.do).outs {
		o := &c.cli(d.do).outs[i]
		if !finished(o) {
			continue
		}
		done++
		evs := flatten(o.St.Events(nil))
		pos := c.W.InstrPos(o.Site)
		at := -1
		for k, e := range evs {
			if isSend(e) {
				if err, _ := errOf(e); o.St.F.IsNil(err) == 1 {
					at = k
				}
			}
		}
		if !c.Check(at >= 0, "settings reported were accepted", d.name, pos, "the command succeeds although no attempt did; path: %s", o.St.F.Path()) {
			continue
		}
		var bc *eng.Term
		for _, x := range evs[:at] {
			if x.Kind == "call" && x.Callee == libPfx+"GetClient" && x.Result == unwrap(evs[at].Args[0]) {
				bc = unwrap(x.Args[1])
			}
		}
		if !c.Check(bc != nil, "settings reported were accepted", d.name+" client", pos, "the request is not sent by a client of GetClient") {
			continue
		}
		for _, s := range []struct{ field, label string }{{"AppID", "appid"}, {"AppVer", "appver"}, {"SpecVersion", "version"}, {"NoIndent", "noindent"}} {
			v := deconv(before(evs[at], evs, bc, s.field))
			if s.field == "SpecVersion" && v.K == eng.KExtract {
				for _, x := range evs[:at] {
					if x.Kind == "call" && x.Result == v.Args[0] && len(x.Args) == 1 {
						v = deconv(x.Args[0])
						break
					}
				}
				if v.K == eng.KExtract && isCall(v.Args[0], libPfx+"NewOfxVersion") && len(v.Args[0].Args) == 1 {
					v = deconv(v.Args[0].Args[0])
				}
			}
			is := func(x *eng.Term) bool {
				x = deconv(unwrap(x))
				if b, ok := x.Typ.Underlying().(*types.Basic); x == v || eng.Contains(x, v) && ok && b.Info()&types.IsString != 0 {
					return true
				}
				return sameValue(o.St.F, x, v)
			}
			shown := false
			for _, e := range evs[at+1:] {
				if printsTo(e) != toStdout {
					continue
				}
				format, vals := printed(e)
				for k, x := range vals {
					if text := before2(format, k); text != "" && strings.Contains(strings.ToLower(strings.ReplaceAll(text, " ", "")), s.label) {
						c.Check(is(x), "settings reported were accepted", d.name+" "+s.field, c.W.InstrPos(e.Site), "%q is followed by %s, tried was %s", text, x, v)
					}
					shown = shown || is(x)
				}
			}
			c.Check(shown, "settings that work are reported", d.name+" "+s.field, pos, "%s of the successful attempt is not printed; path: %s", s.field, o.St.F.Path())
		}
	}
	c.Check(done > 0, "settings that work are reported", d.name, c.W.Pos(d.do.Pos()), "no path reports success")
}

// before2 is the text of a format right before its k-th verb.
func before2(format *eng.Term, k int) string {
	if format == nil {
		return ""
	}
	f, ok := format.StrVal()
	if !ok {
		return ""
	}
	verbs := fmtVerb.FindAllStringIndex(strings.ReplaceAll(f, "%%", "__"), -1)
	if k >= len(verbs) {
		return ""
	}
	last := 0
	if k > 0 {
		last = verbs[k-1][1]
	}
	return f[last:verbs[k][0]]
}

func (c *C) displayRule(d *cliCmd, w asks) {
	dry := c.flagVar(d, "dryrun")
	full := 0
	for i := range c.cli(d.do).outs {
		o := &c.cli(d.do).outs[i]
		evs := flatten(o.St.Events(nil))
		var resp, err *eng.Term
		for _, e := range deepEvents(evs) {
			if isSend(e) && strings.HasSuffix(e.Callee, ".Request") {
				resp = parsedBy(e)
				err, _ = errOf(e)
			}
			if resp == nil || printsTo(e) == "" {
				continue
			}
			data := ""
			for _, x := range append(append([]*eng.Term{}, e.Args...), e.Cont...) {
				if x == nil {
					continue
				}
				if x == resp {
					data = "the response"
				}
				eng.Walk(x, func(t *eng.Term) bool {
					if (t.K == eng.KField || t.K == eng.KFieldOf) && t.Args[0] == resp {
						if p := fieldPath(t); p == nil || p.name != "Signon" {
							data = t.String()
						}
					}
					return true
				})
			}
			if data != "" {
				c.Check(e.Facts.IsNil(err) == 1 && accepted(e.Facts, resp), "data is shown only after an accepted sign-on", d.name, c.W.InstrPos(e.Site), "%s is printed although the request may have failed or the sign-on may have been refused; path: %s", data, e.Facts.Path())
			}
		}
		if !finished(o) || resp == nil || dry != nil && o.St.F.Eval(dry) == 1 {
			continue
		}
		pos := c.W.InstrPos(o.Site)
		set := placeAt(resp).at(w.list)
		if !c.Check(set != nil, "message set", d.name, pos, "the response has no %s", w.list) {
			continue
		}
		f := o.St.F
		if f.LE(eng.LenOf(set.value()), eng.Int(0), 0) == 1 {
			continue
		}
		first := eng.Init(eng.ElemAddr(set.value(), eng.Int(0), types.NewPointer(set.typ.Underlying().(*types.Slice).Elem())), set.typ.Underlying().(*types.Slice).Elem())
		tn := c.W.Lib.Type(strings.Replace(w.msg, "Request", "Response", 1))
		if tn == nil {
			c.Fail("anchor", w.msg, "", "no response type for it")
			continue
		}
		ptr := types.NewPointer(tn.Type())
		switch f.Eval(eng.Is(first, ptr)) {
		case 0:
			c.Fail("the response is displayed", d.name, pos, "the command succeeds without having looked at the response's %s; path: %s", ptr, f.Path())
			continue
		case -1:
			continue
		}
		full++
		msg := placeAt(eng.Assert(first, ptr))
		switch w.msg {
		case "AcctInfoRequest":
			c.accountsShown(d.name, pos, f, evs, msg)
		case "StatementRequest", "CCStatementRequest":
			c.balanceShown(d.name, pos, f, evs, msg.at("BalAmt"), msg.at("CurDef"))
			c.transactionsShown(d.name, pos, f, evs, msg.at("BankTranList"), msg.at("CurDef"))
		case "InvStatementRequest":
			c.investmentsShown(d.name, pos, f, evs, msg)
		}
	}
	c.Check(full > 0, "a response can be displayed", d.name, c.W.Pos(d.do.Pos()), "no path displays the response")
}

func (c *C) accountsShown(con, pos string, f *eng.Facts, evs []*eng.Event, msg *place) {
	c.eachInOrder("every account is shown", con, pos, f, evs, msg.at("AcctInfo"), func(b *eng.BackInfo, evs []*eng.Event, a *place) {
		at := c.firstPos(evs)
		f := b.St.F
		known, open := 0, ""
		for _, k := range []struct{ info, from, fields string }{
			{"BankAcctInfo", "BankAcctFrom", "BankID AcctID AcctType"},
			{"CCAcctInfo", "CCAcctFrom", "AcctID"},
			{"InvAcctInfo", "InvAcctFrom", "BrokerID AcctID"},
		} {
			p := a.at(k.info)
			if p == nil {
				c.Fail("anchor", k.info, "", "accounts have no %s", k.info)
				continue
			}
			switch f.IsNil(p.value()) {
			case 1:
				continue
			case 0:
				open = k.info
				continue
			}
			if known++; known > 1 {
				continue // an account is of one kind
			}
			from := p.at(k.from)
			for _, n := range strings.Fields(k.fields) {
				cnt, _ := from.at(n).shows(evs)
				c.Check(cnt == 1, "an account's identifiers are shown once", con+" "+k.info+"."+n, at, "%s of an account with %s is printed %d times; path: %s", n, k.info, cnt, f.Path())
			}
			c.labels(con+" "+k.info, evs, from)
		}
		if known == 0 && open != "" {
			c.Fail("every account is shown", con+" "+open, at, "an account may have %s, which is not printed; path: %s", open, f.Path())
			return
		}
		if known == 0 {
			cnt, _ := a.shows(evs)
			c.Check(cnt >= 1, "every account is shown", con+" other", at, "an account of an unknown kind is not printed; path: %s", f.Path())
		}
	})
}

// balanceShown: the balance is printed with its currency, once.
func (c *C) balanceShown(con, pos string, f *eng.Facts, evs []*eng.Event, bal, cur *place) {
	n, by := bal.shows(evs)
	c.Check(n == 1, "the balance is shown", con, pos, "the balance is printed %d times; path: %s", n, f.Path())
	if by != nil {
		c.Check(cur.shownBy(by), "the balance is shown in the statement's currency", con, c.W.InstrPos(by.Site), "the balance is printed without CurDef")
	}
}

// transactionsShown: a list of bank transactions, possibly absent.
func (c *C) transactionsShown(con, pos string, f *eng.Facts, evs []*eng.Event, list, cur *place) {
	if _, ok := list.typ.Underlying().(*types.Pointer); ok {
		switch f.IsNil(list.value()) {
		case 1:
			c.OK("every transaction is shown", con)
			return
		case 0:
			// a loop may have decided it
		}
	}
	c.eachInOrder("every transaction is shown", con, pos, f, evs, list.at("Transactions"), func(b *eng.BackInfo, evs []*eng.Event, t *place) {
		at := c.firstPos(evs)
		f := b.St.F
		for _, n := range []string{"TrnAmt", "DtPosted", "TrnType"} {
			cnt, _ := t.at(n).shows(evs)
			c.Check(cnt == 1, "a transaction is shown once", con+" "+n, at, "%s of a transaction is printed whole %d times; path: %s", n, cnt, f.Path())
		}
		shown := func(p *place) bool {
			n, _ := p.shows(evs)
			return n == 1
		}
		name, payee, memo := t.at("Name"), t.at("Payee"), t.at("Memo")
		c.Check(name.empty(f) == 1 || shown(name), "a transaction's name is shown", con, at, "a transaction's name is not printed; path: %s", f.Path())
		c.Check(name.empty(f) == -1 || f.IsNil(payee.value()) == 1 || shown(payee.at("Name")), "a transaction's name is shown", con+" payee", at, "the payee of a transaction without name is not printed; path: %s", f.Path())
		c.Check(memo.empty(f) == 1 || shown(memo), "a transaction's memo is shown", con, at, "a transaction's memo is not printed; path: %s", f.Path())
		_, by := t.at("TrnAmt").shows(evs)
		own := t.at("Currency")
		c.currencyShown(con, at, f, evs, by, f.IsNil(own.value())*-1, own.at("CurSym"), cur)
	})
}

// currencyShown: the amount stands in its own currency if it states one (own
// is 1), otherwise in the statement's (-1).
func (c *C) currencyShown(con, at string, f *eng.Facts, evs []*eng.Event, by *eng.Event, states int, own, def *place) {
	const rule = "amounts are shown in their own currency"
	if by == nil {
		return
	}
	o, d := own.shownBy(by), def.shownBy(by)
	switch states {
	case 1:
		c.Check(o && !d, rule, con, at, "the amount states a currency, which is not the one printed; path: %s", f.Path())
	case -1:
		c.Check(d && !o, rule, con, at, "the amount states no currency and is not printed with the statement's; path: %s", f.Path())
	default:
		c.Fail(rule, con, at, "the amount is printed without regard to the currency it states; path: %s", f.Path())
	}
}

// states: whether the facts know that a currency is stated (valid).
func (c *C) states(f *eng.Facts, cur *place) (res int) {
	f.Truths(func(t *eng.Term, v bool) {
		if t.K != eng.KExtract || t.I != 0 || !strings.HasSuffix(t.Args[0].CalleeName(), ".Valid") || len(t.Args[0].Args) != 1 {
			return
		}
		x := t.Args[0].Args[0]
		for _, p := range []*place{cur, cur.at("CurSym")} {
			if x == p.value() || x == p.t {
				res = -1
				if v {
					res = 1
				}
			}
		}
	})
	return
}

func (c *C) investmentsShown(con, pos string, f *eng.Facts, evs []*eng.Event, msg *place) {
	def := msg.at("CurDef")
	bal := msg.at("InvBal")
	if f.IsNil(bal.value()) != 1 {
		cash := bal.at("AvailCash")
		n, _ := cash.shows(evs)
		if n > 0 || !c.zeroAmount(f, cash) {
			c.balanceShown(con, pos, f, evs, cash, def)
		}
	}
	tl := msg.at("InvTranList")
	if f.IsNil(tl.value()) == 1 {
		return
	}
	c.eachInOrder("every bank transaction list is shown", con, pos, f, evs, tl.at("BankTransactions"), func(b *eng.BackInfo, evs []*eng.Event, t *place) {
		at := c.firstPos(evs)
		c.transactionsShown(con+" bank transactions", at, b.St.F, evs, t, def)
	})
	kinds := c.invTransactionTypes()
	c.Check(len(kinds) >= 19, "kinds of investment transactions", con, pos, "only %d known", len(kinds))
	c.eachInOrder("every investment transaction is shown", con, pos, f, evs, tl.at("InvTransactions"), func(b *eng.BackInfo, evs []*eng.Event, t *place) {
		at := c.firstPos(evs)
		f := b.St.F
		named := 0
		for _, e := range evs {
			if printsTo(e) != toStdout {
				continue
			}
			_, vals := printed(e)
			for _, v := range vals {
				eng.Walk(v, func(x *eng.Term) bool {
					if x.K == eng.KCall && strings.HasSuffix(x.CalleeName(), ".TransactionType") && eng.Contains(x, t.t) {
						named++
					}
					return true
				})
			}
		}
		for _, k := range kinds {
			kn := con + " " + k.Obj().Name()
			r := f.Eval(eng.Is(t.value(), k))
			if r == -1 {
				continue
			}
			if r == 0 {
				c.Fail("every kind of investment transaction has a branch", kn, at, "a transaction of this kind is not printed as one; path: %s", f.Path())
				continue
			}
			c.Check(named == 1, "an investment transaction's kind is shown", kn, at, "the kind is printed %d times; path: %s", named, f.Path())
			v := &place{eng.Assert(t.value(), k), k, false}
			hold := v
			for _, in := range []string{"InvBuy", "InvSell"} {
				if p := v.at(in); p != nil {
					hold = p
				}
			}
			n, _ := hold.at("InvTran.DtTrade").shows(evs)
			c.Check(n == 1, "an investment transaction is shown once", kn+" DtTrade", at, "the trade date is printed %d times; path: %s", n, f.Path())
			amounts := 0
			var by *eng.Event
			for _, q := range []string{"Units", "Total", "OldUnits", "NewUnits", "FracCash"} {
				p := hold.at(q)
				if p == nil {
					continue
				}
				n, e := p.shows(evs)
				if n > 0 {
					by = e
				}
				if q == "FracCash" {
					continue
				}
				amounts++
				c.Check(n == 1, "an investment transaction is shown once", kn+" "+q, at, "%s is printed %d times; path: %s", q, n, f.Path())
			}
			c.Check(amounts > 0, "an investment transaction's amount is shown", kn, at, "nothing known to print for this kind")
			if cur := hold.at("Currency"); cur != nil {
				c.currencyShown(kn, at, f, evs, by, c.states(f, cur), cur.at("CurSym"), def)
			}
		}
	})
}

// zeroAmount: the facts know the amount to be zero.
func (c *C) zeroAmount(f *eng.Facts, a *place) bool {
	zero := false
	f.Lens(func(t *eng.Term) {
		if t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), ".Sign") && eng.Contains(t, a.t) {
			lo, hi := f.Range(t)
			zero = zero || lo == 0 && hi == 0 || f.Eval(eng.Eq(t, eng.Int(0))) == 1
		}
	})
	return zero
}

// invTransactionTypes are the struct types that are investment transactions.
func (c *C) invTransactionTypes() (out []*types.Named) {
	tn := c.W.Lib.Type("InvTransaction")
	if tn == nil {
		return nil
	}
	it, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, s := range libStructs(c.W) {
		if types.Implements(s, it) {
			out = append(out, s)
		}
	}
	return
}

func init() {
	reg("C36", 100, "On each path of the commands that display data: a print of anything of the response but its sign-on needs a known nil error and a sign-on status known 0; the first message of the set must have been looked at as its response type; each list needs one loop through all its elements upwards whose every round prints the required fields of its element exactly once, the currency decided by what the path knows about the element's own; every type that implements InvTransaction needs a branch; labels in formats must stand before the fields they name. For detect-settings, what is printed after a success must be what the successful attempt's client was given.", (*C).displayRules)
}
