package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C14 (reading), C15 ----

// setLoops gives the message-set loop of every accepting path.
func (c *C) setLoops(d *dw, each func(o *eng.Outcome, l *eng.LoopInfo)) {
	outs, _, f := c.decodeResponse(nil)
	if f == nil {
		return
	}
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.Kind != "ret" || o.St.F.IsNil(o.Res[1]) != 1 {
			continue
		}
		var last *eng.LoopInfo
		for _, it := range d.items(o.St.F, o.St.Events(nil)) {
			if it.kind == "loop" && !plainLoop(it.loop) {
				last = it.loop
			}
		}
		if last != nil {
			n++
			each(o, last)
		}
	}
	c.Check(n > 0, "message sets are read in a loop", "DecodeResponse", c.W.Pos(f.Pos()), "no accepting path with a loop over message sets")
}

// routing: C14, reading: a set's messages end up in the slice of that set.
func (c *C) routing() {
	d := c.decWorld()
	if d == nil {
		return
	}
	sets := respSets()
	resp := c.W.Type("Response")
	c.setLoops(d, func(o *eng.Outcome, l *eng.LoopInfo) {
		or := o.Res[0]
		pos := c.W.InstrPos(l.Header.Instrs[0])
		seen := map[string]bool{}
		why := c.setLoop(d, l, sets, nil, seen, func(s setRow, b *eng.BackInfo, inner *eng.LoopInfo) {
			con := "DecodeResponse " + s.tag
			fi := fieldIndex(resp, s.field)
			if !c.Check(fi >= 0, "message set has its field", con, pos, "Response.%s not found", s.field) {
				return
			}
			own := eng.FieldAddr(or, fi, types.NewPointer(resp.Underlying().(*types.Struct).Field(fi).Type()))
			// nothing but the set's own slice changes
			for _, a := range sortedAddrs(l.Cells) {
				if eng.Root(a) != eng.Root(or) || a == own {
					continue
				}
				now := b.St.Load(a, l.Cells[a].Typ)
				c.Check(now == l.Cells[a], "messages go to the slice of their set only", con, pos, "reading %s changes %s", s.tag, a)
			}
			if inner == nil || len(inner.Backs) == 0 {
				return
			}
			hdr, ok := inner.Cells[own]
			if !c.Check(ok, "messages go to the slice of their set", con, pos, "the messages of %s are not stored in Response.%s", s.tag, s.field) {
				return
			}
			c.Check(inner.EntCl[own] == l.Cells[own] && b.St.Load(own, hdr.Typ) == hdr, "earlier messages are kept", con, pos, "Response.%s is replaced", s.field)
			c.msgLoop(d, inner, s, func(tag string, ib *eng.BackInfo, dec item) {
				mc := con + " " + tag
				got := ib.St.Load(own, hdr.Typ)
				tgt := dec.ev.Args[1]
				ok := got.K == eng.KAppend && len(got.Args) == 2 && got.Args[0] == hdr && unwrap(got.Args[1]) == unwrap(tgt) && got.Args[1].K == eng.KIface
				c.Check(ok, "each message read is appended once", mc, pos, "after reading one, Response.%s is %s", s.field, got)
				for _, a := range sortedAddrs(inner.Cells) {
					if eng.Root(a) != eng.Root(or) || a == own {
						continue
					}
					c.Check(ib.St.Load(a, inner.Cells[a].Typ) == inner.Cells[a], "messages go to the slice of their set only", mc, pos, "reading %s changes %s", tag, a)
				}
				c.Check(isFresh(dec.ev.St, unwrap(tgt)), "every message is read into an object of its own", mc, pos, "%s is read into %s", tag, tgt)
			})
		})
		c.Check(why == "", "message sets are told apart by their tag", "DecodeResponse", pos, "%s", why)
		for _, s := range sets {
			c.Check(seen[s.tag], "every message set can be read", "DecodeResponse "+s.tag, pos, "no round of the loop accepts %s", s.tag)
		}
		// what the loop starts from and what is returned
		for _, s := range sets {
			fi := fieldIndex(resp, s.field)
			if fi < 0 {
				continue
			}
			ft := resp.Underlying().(*types.Struct).Field(fi).Type()
			own := eng.FieldAddr(or, fi, types.NewPointer(ft))
			got := o.St.Load(own, ft)
			if h, ok := l.Cells[own]; ok {
				c.Check(got == h && l.EntCl[own].K == eng.KNil || got == h && isZeroTerm(l.EntCl[own]), "the messages read are returned", "DecodeResponse "+s.tag, pos, "Response.%s is %s at the end and %s at the start", s.field, got, l.EntCl[own])
			} else {
				c.Check(isZeroTerm(got), "the messages read are returned", "DecodeResponse "+s.tag, pos, "Response.%s is %s at the end", s.field, got)
			}
		}
	})
	// the tags themselves
	texts := map[string]string{}
	for _, s := range tables.Sets {
		k, tag, _ := strings.Cut(s, "=")
		con := "messageType " + k
		v := constsOf(c.W, c.W.Type("messageType"))
		n, ok := v[k]
		if !c.Check(ok, "message set tags", con, "", "the constant is gone") {
			continue
		}
		got, ok := constStr(c.constCall("messageType.String", eng.Int(n)))
		c.Check(ok && got == tag, "message set tags", con, "", "its tag is %q, not %q", got, tag)
		c.Check(texts[got] == "", "message set tags are distinct", con, "", "shares its tag with %s", texts[got])
		texts[got] = k
	}
}

func isZeroTerm(t *eng.Term) bool {
	if t == nil {
		return false
	}
	switch t.K {
	case eng.KNil, eng.KZero:
		return true
	case eng.KStruct:
		for _, a := range t.Args {
			if !isZeroTerm(a) {
				return false
			}
		}
		return true
	case eng.KConst:
		return t.C != nil && (t.C.String() == "0" || t.C.String() == `""` || t.C.String() == "false")
	}
	return false
}

func sortedAddrs(m map[*eng.Term]*eng.Term) []*eng.Term {
	b := map[*eng.Term]bool{}
	for k := range m {
		b[k] = true
	}
	return eng.SortedTerms(b)
}

// isFresh: the pointer denotes an object holding only zeros.
func isFresh(st *eng.State, p *eng.Term) bool {
	if p.K == eng.KRNew {
		return true
	}
	if p.K == eng.KAlloc && p.Obj == "rnew" {
		return true
	}
	if p.K != eng.KAlloc {
		return false
	}
	t := elemOfPtr(p.Typ)
	if t == nil {
		return false
	}
	return isZeroTerm(st.Content(st.Load(p, t)))
}

func elemOfPtr(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// registry: C15.
func (c *C) registry() {
	d := c.decWorld()
	if d == nil {
		return
	}
	sets := respSets()
	msgI := c.W.Type("Message").Underlying().(*types.Interface)
	// names and sets reported
	setNames := map[int64]string{}
	for k, v := range constsOf(c.W, c.W.Type("messageType")) {
		setNames[v] = k
	}
	ref := map[string]MsgRow{}
	for _, r := range tables.Messages {
		ref[r.Type] = r
	}
	want := map[string]map[string]string{} // set tag -> element tag -> type
	for _, s := range sets {
		want[s.tag] = map[string]string{}
	}
	found := map[string]bool{}
	for _, n := range libStructs(c.W) {
		p := types.NewPointer(n)
		tn := n.Obj().Name()
		if !types.Implements(p, msgI) {
			// the sign-on parts report a name too
			if m, _, _ := types.LookupFieldOrMethod(p, true, n.Obj().Pkg(), "Name"); m != nil && xmlNameOf(n) != "" && c.W.LibFunc(tn+".Name") != nil {
				name, ok := constStr(c.constCall(tn+".Name", eng.Param("r", p)))
				c.Check(ok && name == xmlNameOf(n), "a message reports the tag it is written under", tn, c.W.Pos(n.Obj().Pos()), "Name gives %q, it is written as %q", name, xmlNameOf(n))
			}
			continue
		}
		found[tn] = true
		pos := c.W.Pos(n.Obj().Pos())
		name, ok := constStr(c.constCall(tn+".Name", eng.Param("r", p)))
		tag := xmlNameOf(n)
		c.Check(ok && name == tag, "a message reports the tag it is written under", tn, pos, "Name gives %q, it is written as %q", name, tag)
		ty := c.constCall(tn+".Type", eng.Param("r", p))
		set := ""
		if len(ty) == 1 {
			if v, ok := ty[0].IntVal(); ok {
				set = setNames[v]
			}
		}
		if !c.Check(set != "", "a message reports a message set", tn, pos, "Type is no constant") {
			continue
		}
		if r, ok := ref[tn]; ok {
			c.Check(r.Set == set && r.Name == name, "a message reports its name and set", tn, pos, "reports %s in %s, not %s in %s", name, set, r.Name, r.Set)
		}
		for _, s := range sets {
			if s.field+"Rs" == set {
				want[s.tag][tag] = tn
			}
		}
		// a request is not a response
		if strings.HasSuffix(tag, "RQ") {
			c.Check(strings.HasSuffix(set, "Rq"), "requests report a request set", tn, pos, "%s reports %s", tag, set)
		}
		if strings.HasSuffix(tag, "RS") {
			c.Check(strings.HasSuffix(set, "Rs"), "responses report a response set", tn, pos, "%s reports %s", tag, set)
		}
	}
	for _, r := range tables.Messages {
		c.Check(found[r.Type], "message types", r.Type, "", "is no message any more")
	}
	c.setLoops(d, func(o *eng.Outcome, l *eng.LoopInfo) {
		pos := c.W.InstrPos(l.Header.Instrs[0])
		got := map[string]map[string]string{}
		why := c.setLoop(d, l, sets, nil, nil, func(s setRow, b *eng.BackInfo, inner *eng.LoopInfo) {
			if got[s.tag] == nil {
				got[s.tag] = map[string]string{}
			}
			if inner == nil {
				return
			}
			if why := c.msgLoop(d, inner, s, func(tag string, ib *eng.BackInfo, dec item) {
				T := elemOfPtr(ifaceType(dec.ev.Args[1]))
				tn := "?"
				if n, ok := T.(*types.Named); ok {
					tn = n.Obj().Name()
				}
				if old, ok := got[s.tag][tag]; ok && old != tn {
					tn = old + "/" + tn
				}
				got[s.tag][tag] = tn
			}); why != "" {
				c.Fail("messages are told apart by their tag", "DecodeResponse "+s.tag, pos, "%s", why)
			}
		})
		c.Check(why == "", "unknown tags are errors", "DecodeResponse", pos, "%s", why)
		for _, s := range sets {
			for _, tag := range sortedKeys(want[s.tag]) {
				tn := want[s.tag][tag]
				c.Check(got[s.tag][tag] == tn, "every response message is registered", tn, pos, "<%s> in <%s> is decoded as %q, not %s", tag, s.tag, got[s.tag][tag], tn)
			}
			for _, tag := range sortedKeys(got[s.tag]) {
				c.Check(want[s.tag][tag] != "", "only messages of a set are registered for it", s.tag+" "+tag, pos, "<%s> is accepted in <%s> and decoded as %s", tag, s.tag, got[s.tag][tag])
			}
		}
	})
}

// ifaceType is the dynamic type of an interface value.
func ifaceType(t *eng.Term) types.Type {
	if t.K == eng.KIface {
		return t.Typ2
	}
	return nil
}

// ---- C17: polymorphic lists ----

type listSpec struct {
	recv   string            // type with the UnmarshalXML method
	iface  string            // interface of the entries, if any
	field  string            // field of recv the entries go to; "" the receiver itself
	single map[string]string // tag -> field decoded into
	extra  map[string][2]string
}

var listSpecs = []listSpec{
	{recv: "InvTranList", iface: "InvTransaction", field: "InvTransactions", single: map[string]string{"DTSTART": "DtStart", "DTEND": "DtEnd"}, extra: map[string][2]string{"INVBANKTRAN": {"InvBankTransaction", "BankTransactions"}}},
	{recv: "PositionList", iface: "Position"},
	{recv: "OOList", iface: "OpenOrder"},
	{recv: "SecurityList", iface: "Security", field: "Securities"},
}

// implementers lists the value types of the library that implement the
// interface, by XML tag.
func (c *C) implementers(iface string) map[string]*types.Named {
	out := map[string]*types.Named{}
	it := c.W.Type(iface)
	if it == nil {
		c.Fail("anchor", iface, "", "interface %s not found", iface)
		return out
	}
	I := it.Underlying().(*types.Interface)
	for _, n := range libStructs(c.W) {
		if types.Implements(n, I) {
			tag := xmlNameOf(n)
			if old := out[tag]; old != nil {
				c.Fail("entries of a list have tags of their own", n.Obj().Name(), c.W.Pos(n.Obj().Pos()), "shares <%s> with %s", tag, old.Obj().Name())
			}
			if tag != "" {
				out[tag] = n
			}
		}
	}
	return out
}

type child struct {
	typ   types.Type
	field string // field or "" for the receiver itself
	list  bool
}

func (c *C) children(s listSpec) map[string]child {
	out := map[string]child{}
	for tag, n := range c.implementers(s.iface) {
		out[tag] = child{n, s.field, true}
	}
	for tag, fld := range s.single {
		rt := c.W.Type(s.recv)
		if i := fieldIndex(rt, fld); i >= 0 {
			out[tag] = child{rt.Underlying().(*types.Struct).Field(i).Type(), fld, false}
		} else {
			c.Fail("anchor", s.recv+"."+fld, "", "field not found")
		}
	}
	for tag, e := range s.extra {
		if t := c.W.Type(e[0]); t != nil {
			out[tag] = child{t, e[1], true}
		} else {
			c.Fail("anchor", e[0], "", "type not found")
		}
	}
	return out
}

func (c *C) addrIn(recv *eng.Term, rt types.Type, field string) *eng.Term {
	if field == "" {
		return recv
	}
	i := fieldIndex(rt, field)
	return eng.FieldAddr(recv, i, types.NewPointer(rt.Underlying().(*types.Struct).Field(i).Type()))
}

func (c *C) listDecode() {
	d := c.decWorld()
	if d == nil {
		return
	}
	for _, s := range listSpecs {
		c.listDecodeOne(d, s)
	}
	c.msgSetListDecode(d)
}

func (c *C) listRun(name string) ([]eng.Outcome, []*eng.Term, *ssa.Function) {
	f := c.Lib(name)
	if f == nil {
		return nil, nil, nil
	}
	r := c.Run()
	outs, ps := c.Analyze(r, f, nil)
	return outs, ps, f
}

func (c *C) listDecodeOne(d *dw, s listSpec) {
	outs, ps, f := c.listRun(s.recv + ".UnmarshalXML")
	if f == nil {
		return
	}
	rt := c.W.Type(s.recv)
	kids := c.children(s)
	c.Check(len(kids) > 1, "entries", s.recv, c.W.Pos(f.Pos()), "no entry types found")
	own := d.localName(ps[2], d.start)
	ok := 0
	for i := range outs {
		o := &outs[i]
		g := o.St.F
		con := s.recv + ".UnmarshalXML"
		at := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret" && g.IsNil(o.Res[0]) != 0, "decoding succeeds or fails", con, at, "%s", o.Kind) {
			continue
		}
		failed := g.IsNil(o.Res[0]) == -1
		its := d.items(g, o.St.Events(nil))
		var loop *eng.LoopInfo
		if len(its) > 0 && its[0].kind == "loop" {
			loop = its[0].loop
			its = its[1:]
		}
		if len(its) == 0 || its[0].kind != "tok" {
			c.Fail("the list is read tag by tag", con, at, "a path does not look at the tag after the last entry")
			continue
		}
		it := its[0]
		if !failed {
			ok++
			c.Check(len(its) == 1 && g.IsNil(it.err) == 1 && d.is(g, it.tok, exp{"end", own}) == 1, "the list ends at its closing tag", con, at, "a path ends the list without having seen its closing tag")
			if c.Check(loop != nil, "entries are read in a loop", con, at, "an accepting path without a loop") {
				c.listRounds(d, s, con, rt, loop, ps, kids, o)
			}
			continue
		}
		tag, known := d.nameConst(g, it.tok, "start")
		if g.IsNil(it.err) == 1 && known && kids[tag].typ != nil && d.is(g, it.tok, exp{"start", eng.Str(tag)}) == 1 {
			c.Check(len(its) == 2 && its[1].kind == "dec" && g.IsNil(its[1].err) == -1, "known entries are not refused", con+" "+tag, at, "<%s> is refused although it was read", tag)
			continue
		}
		want := []exp{{"end", own}}
		for _, t := range sortedKeys(kids) {
			want = append(want, exp{"start", eng.Str(t)})
		}
		good, why := d.refused(g, it, want)
		c.Check(good && len(its) == 1, "only unknown content is refused", con, at, "%s", why)
	}
	c.Check(ok > 0, "the list can be read", s.recv, c.W.Pos(f.Pos()), "no accepting path")
}

func (c *C) listRounds(d *dw, s listSpec, con string, rt types.Type, l *eng.LoopInfo, ps []*eng.Term, kids map[string]child, o *eng.Outcome) {
	pos := c.W.InstrPos(l.Header.Instrs[0])
	seen := map[string]bool{}
	for _, b := range l.Backs {
		g := b.St.F
		its := d.items(g, b.St.Events(b.From))
		if !c.Check(len(its) == 2 && its[0].kind == "tok" && its[1].kind == "dec", "each round reads one entry", con, pos, "a round takes %d things", len(its)) {
			continue
		}
		tag, ok := d.nameConst(g, its[0].tok, "start")
		if !c.Check(ok && d.is(g, its[0].tok, exp{"start", eng.Str(tag)}) == 1, "unknown tags are errors", con, pos, "an entry is read without its tag having been recognised") {
			continue
		}
		kc := con + " " + tag
		at := c.W.InstrPos(its[1].ev.Site)
		k, ok := kids[tag]
		if !c.Check(ok, "unknown tags are errors", kc, at, "<%s> is no entry of this list", tag) {
			continue
		}
		seen[tag] = true
		c.Check(g.IsNil(its[0].err) == 1 && g.IsNil(its[1].err) == 1, "failures to read are errors", kc, at, "a failure to read is ignored")
		c.Check(its[1].ev.Args[0] == ps[1] && d.decOf(its[1], its[0].tok), "the entry is read from its own tag", kc, at, "decodes something else than the tag just taken")
		tgt := unwrap(its[1].ev.Args[1])
		dst := c.addrIn(ps[0], rt, k.field)
		T := elemOfPtr(ifaceType(its[1].ev.Args[1]))
		c.Check(T != nil && types.Identical(T, k.typ), "the tag decides the type", kc, at, "<%s> is decoded as %v, not %v", tag, T, k.typ)
		direct := !k.list && tgt == dst
		if !direct && !(!k.list && eng.Root(tgt) == eng.Root(ps[0])) {
			c.Check(isFresh(its[1].ev.St, tgt), "every entry is read into an object of its own", kc, at, "<%s> is read into an object already used", tag)
		}
		// effects
		for _, a := range sortedAddrs(l.Cells) {
			if eng.Root(a) != ps[0] {
				continue
			}
			now := b.St.Load(a, l.Cells[a].Typ)
			if !k.list && (a == dst || within(a, dst)) || a == dst {
				continue
			}
			c.Check(now == l.Cells[a], "an entry changes its own list only", kc, at, "<%s> changes %s", tag, a)
		}
		val := entryVal(b.St, its[1], tgt, k.typ)
		if k.list {
			hdr, ok := l.Cells[dst]
			if !c.Check(ok, "each entry is appended once", kc, at, "<%s> is not stored in %s", tag, dst) {
				continue
			}
			got := b.St.Load(dst, hdr.Typ)
			okv := got.K == eng.KAppend && len(got.Args) == 2 && got.Args[0] == hdr
			if okv {
				x := got.Args[1]
				if x.K == eng.KIface {
					okv = types.Identical(x.Typ2, k.typ)
					x = x.Args[0]
				}
				okv = okv && sameVal(b.St, x, val)
			}
			c.Check(okv, "each entry is appended once", kc, at, "after <%s> the list is %s", tag, got)
		} else {
			got := b.St.Load(dst, k.typ)
			c.Check(direct || sameVal(b.St, got, val), "the list's own elements are stored", kc, at, "after <%s>, %s is %s", tag, k.field, got)
		}
	}
	for _, tag := range sortedKeys(kids) {
		c.Check(seen[tag], "every entry type can be read", con+" "+tag, pos, "<%s> is not handled", tag)
	}
	// the list starts as it was handed in and is kept at the end
	for _, a := range sortedAddrs(l.Cells) {
		if eng.Root(a) != ps[0] {
			continue
		}
		t := l.Cells[a].Typ
		ini := l.EntCl[a]
		okI := ini.K == eng.KInit || isInitPart(ini) || isZeroTerm(ini) || ini.K == eng.KSlice
		c.Check(okI && o.St.Load(a, t) == l.Cells[a], "what was read is kept", con, pos, "%s is %s before and %s after the loop", a, ini, o.St.Load(a, t))
	}
}

func isInitPart(t *eng.Term) bool {
	for t.K == eng.KFieldOf {
		t = t.Args[0]
	}
	return t.K == eng.KInit
}

func within(a, base *eng.Term) bool {
	for a.K == eng.KField || a.K == eng.KElem {
		a = a.Args[0]
		if a == base {
			return true
		}
	}
	return false
}

// entryVal: what decoding left in its target.
func entryVal(st *eng.State, it item, tgt *eng.Term, t types.Type) *eng.Term {
	return eng.Out(it.ev.Result, 1, t)
}

func sameVal(st *eng.State, a, b *eng.Term) bool {
	return a == b || st.Content(a) == b || st.Content(a) == st.Content(b)
}

// msgSetListDecode: message-set lists of profiles hold one wrapper per set,
// which holds the version's element.
func (c *C) msgSetListDecode(d *dw) {
	outs, ps, f := c.listRun("MessageSetList.UnmarshalXML")
	if f == nil {
		return
	}
	con := "MessageSetList.UnmarshalXML"
	own := d.localName(ps[2], d.start)
	T := c.W.Type("MessageSet")
	ok := 0
	seq := func(its []item, g *eng.Facts, complete bool) string {
		for i, it := range its {
			if i == 2 {
				if it.kind != "dec" {
					return "the version's element is not decoded"
				}
				if it.ev.Args[0] != ps[1] || !d.decOf(it, its[1].tok) {
					return "the version's element is not decoded from its own tag"
				}
			} else if it.kind != "tok" {
				return "takes " + it.kind + " where a tag is due"
			}
			if i > 3 {
				return "takes more than one set at once"
			}
			if complete {
				if g.IsNil(it.err) != 1 {
					return "a failure to read is ignored"
				}
				e := exp{"start", nil}
				if i == 3 {
					e.kind = "end"
				}
				if i != 2 && d.is(g, it.tok, e) != 1 {
					return "a tag is taken without checking that it is the " + e.kind + " tag due"
				}
			}
		}
		return ""
	}
	for i := range outs {
		o := &outs[i]
		g := o.St.F
		at := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret" && g.IsNil(o.Res[0]) != 0, "decoding succeeds or fails", con, at, "%s", o.Kind) {
			continue
		}
		its := d.items(g, o.St.Events(nil))
		var l *eng.LoopInfo
		if len(its) > 0 && its[0].kind == "loop" {
			l = its[0].loop
			its = its[1:]
		}
		if !c.Check(len(its) > 0 && its[0].kind == "tok", "the list is read tag by tag", con, at, "a path does not look at the tag after the last entry") {
			continue
		}
		if g.IsNil(o.Res[0]) == 1 {
			ok++
			c.Check(len(its) == 1 && g.IsNil(its[0].err) == 1 && d.is(g, its[0].tok, exp{"end", own}) == 1, "the list ends at its closing tag", con, at, "a path ends the list without having seen its closing tag")
			if !c.Check(l != nil, "entries are read in a loop", con, at, "an accepting path without a loop") {
				continue
			}
			for _, b := range l.Backs {
				bi := d.items(b.St.F, b.St.Events(b.From))
				pos := c.W.InstrPos(l.Header.Instrs[0])
				why := seq(bi, b.St.F, true)
				if !c.Check(why == "" && len(bi) == 4, "each round reads one wrapper with one set", con, pos, "%s (%d taken)", why, len(bi)) {
					continue
				}
				tgt := unwrap(bi[2].ev.Args[1])
				c.Check(types.Identical(elemOfPtr(ifaceType(bi[2].ev.Args[1])), T), "the set is decoded as a MessageSet", con, pos, "decodes %v", bi[2].ev.Args[1])
				c.Check(isFresh(bi[2].ev.St, tgt), "every entry is read into an object of its own", con, pos, "read into an object already used")
				hdr, okc := l.Cells[ps[0]]
				if !c.Check(okc, "each entry is appended once", con, pos, "the list is not changed") {
					continue
				}
				got := b.St.Load(ps[0], hdr.Typ)
				good := got.K == eng.KAppend && len(got.Args) == 2 && unconv(got.Args[0]) == hdr
				if good {
					x := b.St.Content(got.Args[1])
					val := eng.Out(bi[2].ev.Result, 1, T)
					st := T.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						fv := eng.FieldOf(x, i, st.Field(i).Type())
						want := eng.FieldOf(val, i, st.Field(i).Type())
						if st.Field(i).Name() == "Name" {
							xn := fieldIndex(T, "XMLName")
							nt := st.Field(xn).Type()
							want = eng.FieldOf(eng.FieldOf(val, xn, nt), fieldIndex(nt, "Local"), strT)
							fv = deconv(fv)
						}
						c.Check(fv == want || b.St.Content(fv) == b.St.Content(want), "the entry holds what was read and its tag as name", con+" "+st.Field(i).Name(), pos, "%s is %s", st.Field(i).Name(), fv)
					}
				}
				c.Check(good, "each entry is appended once", con, pos, "the list becomes %s", got)
			}
			continue
		}
		last := its[len(its)-1]
		why := seq(its, g, false)
		if why == "" {
			want := [][]exp{{{"start", nil}, {"end", own}}, {{"start", nil}}, nil, {{"end", nil}}}[len(its)-1]
			_, why = d.refused(g, last, want)
		}
		c.Check(why == "", "only unknown content is refused", con, at, "%s", why)
	}
	c.Check(ok > 0, "the list can be read", con, c.W.Pos(f.Pos()), "no accepting path")
}

func unconv(t *eng.Term) *eng.Term {
	for t.K == eng.KConv {
		t = t.Args[0]
	}
	return t
}

func init() {
	reg("C14", 100, "Marshal is analysed with each message set in turn symbolic: the elements started, encoded and ended must be those of the set whose slice is read, in OFX order, the sign-on first, empty sets left out. DecodeResponse's loop over message sets is read back as a table from tag to slice: each set is appended to once, its own, in document order. The tags are constants and compared with the standard's.", func(c *C) {
		c.routing()
		c.document("Request", "C14")
		c.document("Response", "C14")
	})
	reg("C15", 60, "for every message type, Name and Type are evaluated to constants and compared with its XML tag; the loop of DecodeResponse over messages is read back as the table of registered types and compared with them", func(c *C) { c.registry() })
	reg("C17", 150, "each UnmarshalXML method of a polymorphic list is analysed path by path: what a round of its loop takes from the decoder, into which type, and what it does to the list", func(c *C) { c.listDecode() })
}
