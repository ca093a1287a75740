package main

import (
	"go/constant"
	"go/types"
	"regexp/syntax"
	"strings"

	"ofxcheck/eng"
)

// ---- C11: headers ----

var sgmlFields = []string{"OFXHEADER", "DATA", "VERSION", "SECURITY", "ENCODING", "CHARSET", "COMPRESSION", "OLDFILEUID", "NEWFILEUID"}
var sgmlValues = map[string][]string{"OFXHEADER": {"100"}, "DATA": {"OFXSGML"}, "SECURITY": {"NONE", "TYPE1"}, "COMPRESSION": {"NONE"}}
var xmlValues = map[string][]string{"OFXHEADER": {"200"}, "SECURITY": {"NONE"}}
var xmlFields = []string{"OFXHEADER", "VERSION", "SECURITY", "OLDFILEUID", "NEWFILEUID"}

func (c *C) versionNo(name string) int64 {
	vs := constsOf(c.W, c.W.Type("ofxVersion"))
	v, ok := vs[name]
	if !ok {
		c.Fail("anchor", name, "", "constant not found")
	}
	return v
}

func (c *C) headers() {
	d := c.decWorld()
	outs, ps, f := c.decodeResponse(nil)
	if d == nil || f == nil {
		return
	}
	v160, v200 := c.versionNo("OfxVersion160"), c.versionNo("OfxVersion200")
	sgml, xml := 0, 0
	forms := map[string]bool{}
	for i := range outs {
		o := &outs[i]
		if o.Kind != "ret" {
			continue
		}
		g := o.St.F
		pos := c.W.InstrPos(o.Site)
		success := g.IsNil(o.Res[1]) == 1
		its := d.items(g, o.St.Events(nil))
		for len(its) > 0 && its[0].kind == "loop" && plainLoop(its[0].loop) {
			its = its[1:] // looking at the start of the document
		}
		procs := 0
		var loop *eng.LoopInfo
		rest := its
		for len(rest) > 0 {
			if rest[0].kind == "tok" && g.Eval(eng.Is(rest[0].tok, d.proc)) == 1 && g.IsNil(rest[0].err) == 1 {
				procs++
			} else if rest[0].kind == "loop" && plainLoop(rest[0].loop) {
				loop = rest[0].loop
			} else {
				break
			}
			rest = rest[1:]
		}
		m := matchEvent(o)
		if success {
			c.headerForm(o, procs == 0, forms)
		}
		switch {
		case success && procs == 0:
			sgml++
			c.sgmlHeader(o, ps, m, v160)
		case success:
			xml++
			c.xmlHeader(d, o, its, procs, loop, v200)
		case procs == 0 && m != nil && len(its) == 0:
			c.sgmlRefusal(o, m, v160)
		case procs >= 2 && len(rest) == 0:
			c.xmlRefusal(d, o, its, loop, v200)
		case procs < 2 && m == nil && len(rest) == 1 && rest[0].kind == "tok" && !readsSGML(o):
			want := exp{"proc", eng.Str([]string{"xml", "OFX"}[procs])}
			ok, why := d.refused(g, rest[0], []exp{want})
			c.Check(ok, "processing instructions are not refused", "XML header", pos, "%s", why)
		}
	}
	p := c.W.Pos(f.Pos())
	c.Check(sgml > 0, "SGML documents can be read", "DecodeResponse", p, "no accepting path without processing instructions")
	c.Check(xml > 0, "XML documents can be read", "DecodeResponse", p, "no accepting path with processing instructions")
	for _, s := range headStarts {
		if len(forms) > 0 {
			c.Check(forms[s.name], "a document is read in its own form", s.name, p, "no accepting path reads %s in its own form", s.name)
		}
	}
}

// headStarts: one start of a document for each order in which the two forms
// of header can appear in what is looked at.
var headStarts = []struct {
	name, text string
	sgml       bool
}{
	{"a document that starts with an SGML header", "OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:102\r\n", true},
	{"a document that starts with an XML header", "<?xml version=\"1.0\"?>\r\n<?OFX OFXHEADER=\"200\" VERSION=\"203\"?>\r\n<OFX>", false},
	{"an SGML document that mentions the XML header further on", "OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:102\r\n<OFX><MESSAGE>OFXHEADER=", true},
	{"an XML document that mentions the SGML header further on", "<?xml version=\"1.0\"?>\r\n<?OFX OFXHEADER=\"200\" VERSION=\"203\"?>\r\n<OFX><MESSAGE>OFXHEADER:", false},
}

// headerForm: what is looked at ahead of reading decides the form of the
// document; on no path is a document of the other form accepted for sure.
func (c *C) headerForm(o *eng.Outcome, sgml bool, forms map[string]bool) {
	var ahead *eng.Term
	for _, e := range flatten(o.St.Events(nil)) {
		if e.Kind == "call" && e.Callee == "(*bufio.Reader).Peek" && ahead == nil {
			ahead = eng.Extract(e.Result, 0, types.NewSlice(types.Typ[types.Byte]))
		}
	}
	if ahead == nil {
		return
	}
	for _, s := range headStarts {
		e := newCell(func(t *eng.Term) (val, bool) {
			if t == ahead {
				return sv(s.text), true
			}
			return val{}, false
		}).on(o.St)
		fs := factsOf(o.St.F)
		if !e.feasible(fs) {
			continue
		}
		if s.sgml == sgml {
			forms[s.name] = true
			continue
		}
		// is everything the path knows about the start known to be so?
		sure, any := true, false
		for _, f := range fs {
			about := func(t *eng.Term) bool { return t != nil && eng.Contains(t, ahead) }
			if f.a == ahead || f.b == ahead || !about(f.a) && !about(f.b) {
				continue // whether there is a start at all, or something else
			}
			any = true
			for _, x := range []*eng.Term{f.a, f.b} {
				if x != nil && !e.ev(x).known() {
					sure = false
				}
			}
		}
		forms["?"] = true
		c.Check(!sure || !any, "a document is read in its own form", s.name, c.W.InstrPos(o.Site), "%s is read in the other form; path: %s", s.name, o.St.F.Path())
	}
}

func readsSGML(o *eng.Outcome) bool {
	for _, e := range flatten(o.St.Events(nil)) {
		if e.Kind == "call" && strings.Contains(e.Callee, "bufio.Reader).Read") {
			return true
		}
	}
	return false
}

// matchEvent finds the regular expression match the header is read with.
func matchEvent(o *eng.Outcome) *eng.Term {
	var m *eng.Term
	good := false
	see := func(t *eng.Term) {
		eng.Walk(t, func(x *eng.Term) bool {
			if x.K == eng.KCall && strings.HasPrefix(x.CalleeName(), "(*regexp.Regexp).Find") && !good {
				// of several the one which tells the values
				if p, ok := eng.RegexSource(x.Args[0]); ok && !strings.Contains(p, "VERSION") {
					return true
				}
				good = strings.HasPrefix(x.CalleeName(), "(*regexp.Regexp).FindStringSubmatch")
				if good || m == nil {
					m = x
				}
			}
			return !good
		})
	}
	o.St.F.Truths(func(t *eng.Term, v bool) { see(t) })
	o.St.F.Lens(see)
	return m
}

// headerGroups maps the header fields to the groups of the regular expression
// when it only matches headers with all fields in order.
func (c *C) headerGroups(m *eng.Term, pos string) map[string]int {
	con := "SGML header"
	src, ok := eng.RegexSource(m.Args[0])
	if !c.Check(ok && m.CalleeName() == "(*regexp.Regexp).FindStringSubmatch", "the header is matched against a fixed pattern", con, pos, "%s", m.CalleeName()) {
		return nil
	}
	re, err := syntax.Parse(src, syntax.Perl)
	if !c.Check(err == nil, "the header is matched against a fixed pattern", con, pos, "%v", err) {
		return nil
	}
	var seq []*syntax.Regexp
	var flat func(r *syntax.Regexp)
	flat = func(r *syntax.Regexp) {
		if r.Op == syntax.OpConcat {
			for _, s := range r.Sub {
				flat(s)
			}
			return
		}
		seq = append(seq, r)
	}
	flat(re)
	groups := map[string]int{}
	i := 0
	bad := func(m string) map[string]int {
		c.Fail("the header has its fields in order", con, pos, "pattern: %s", m)
		return nil
	}
	anchor := func(op ...syntax.Op) bool {
		if i < len(seq) {
			for _, x := range op {
				if seq[i].Op == x {
					i++
					return true
				}
			}
		}
		return false
	}
	space := func() {
		for i < len(seq) && blankOnly(seq[i]) {
			i++
		}
	}
	if !anchor(syntax.OpBeginText) {
		return bad("not anchored at the start")
	}
	for _, f := range sgmlFields {
		space()
		// the literal may carry parts split by the parser
		lit := ""
		for i < len(seq) && seq[i].Op == syntax.OpLiteral && seq[i].Flags&syntax.FoldCase == 0 && lit != f+":" {
			lit += string(seq[i].Rune)
			i++
		}
		if lit != f+":" {
			return bad("found " + lit + " where " + f + ": is due")
		}
		space()
		if i >= len(seq) || seq[i].Op != syntax.OpCapture {
			return bad("the value of " + f + " is not captured")
		}
		if matchesEmpty(seq[i].Sub[0]) {
			return bad("the value of " + f + " may be missing")
		}
		groups[f] = seq[i].Cap
		i++
	}
	space()
	if i < len(seq) && seq[i].Op == syntax.OpLiteral && string(seq[i].Rune) == "<" {
		i++
	}
	if !anchor(syntax.OpEndText) || i != len(seq) {
		return bad("not anchored at the end")
	}
	c.OK("the header has its fields in order", con)
	return groups
}

func blankOnly(r *syntax.Regexp) bool {
	switch r.Op {
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		return blankOnly(r.Sub[0])
	case syntax.OpCharClass:
		for j := 0; j+1 < len(r.Rune); j += 2 {
			for x := r.Rune[j]; x <= r.Rune[j+1]; x++ {
				if !strings.ContainsRune(" \t\r\n\f\v", x) {
					return false
				}
			}
		}
		return true
	case syntax.OpLiteral:
		return strings.TrimSpace(string(r.Rune)) == ""
	case syntax.OpConcat, syntax.OpAlternate:
		for _, s := range r.Sub {
			if !blankOnly(s) {
				return false
			}
		}
		return true
	}
	return false
}

func matchesEmpty(r *syntax.Regexp) bool {
	switch r.Op {
	case syntax.OpStar, syntax.OpQuest, syntax.OpEmptyMatch:
		return true
	case syntax.OpRepeat:
		return r.Min == 0 || matchesEmpty(r.Sub[0])
	case syntax.OpPlus, syntax.OpCapture:
		return matchesEmpty(r.Sub[0])
	case syntax.OpConcat:
		for _, s := range r.Sub {
			if !matchesEmpty(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range r.Sub {
			if matchesEmpty(s) {
				return true
			}
		}
	}
	return false
}

// group is the text of a group of a match.
func (c *C) group(st *eng.State, m *eng.Term, i int) *eng.Term {
	return st.Load(eng.ElemAddr(m, eng.Int(int64(i)), types.NewPointer(strT)), strT)
}

func (c *C) versionCell(o *eng.Outcome, or *eng.Term) (*eng.Term, types.Type) {
	rt := c.W.Type("Response")
	i := fieldIndex(rt, "Version")
	t := rt.Underlying().(*types.Struct).Field(i).Type()
	return eng.FieldAddr(or, i, types.NewPointer(t)), t
}

func fromStrings(evs []*eng.Event) (out []*eng.Event) {
	for _, e := range flatten(evs) {
		if e.Kind == "call" && strings.HasSuffix(e.Callee, "ofxVersion).FromString") {
			out = append(out, e)
		}
	}
	return
}

func oneOf(f *eng.Facts, t *eng.Term, vals []string) (is, not bool) {
	not = true
	if k := f.ConstOf(t); k != nil {
		if s, ok := k.StrVal(); ok {
			for _, v := range vals {
				if v == s {
					return true, false
				}
			}
			return false, true
		}
	}
	for _, v := range vals {
		if f.Eval(eng.Eq(t, eng.Str(v))) != -1 {
			not = false
		}
	}
	return false, not
}

func (c *C) sgmlHeader(o *eng.Outcome, ps []*eng.Term, m *eng.Term, v160 int64) {
	con := "SGML header"
	pos := c.W.InstrPos(o.Site)
	g := o.St.F
	if !c.Check(m != nil, "the header is checked", con, pos, "a document is accepted without processing instructions and without its header having been matched") {
		return
	}
	groups := c.headerGroups(m, pos)
	if groups == nil {
		return
	}
	lo, _ := g.Range(eng.LenOf(m))
	c.Check(lo >= 1 || g.IsNil(m) == -1, "a header that does not match is refused", con, pos, "the match may have failed")
	// it is the document's own header: read from the reader the decoder uses
	c.Check(c.fromInput(o, ps, m.Args[1]), "the header matched is the document's", con, pos, "matches %s", m.Args[1])
	for _, f := range sgmlFields {
		vals := sgmlValues[f]
		if vals == nil {
			continue
		}
		is, _ := oneOf(g, c.group(o.St, m, groups[f]), vals)
		c.Check(is, "header values are checked", con+" "+f, pos, "accepted with a %s other than %s", f, strings.Join(vals, " or "))
	}
	evs := fromStrings(o.St.Events(nil))
	if !c.Check(len(evs) == 1 && evs[0].Args[1] == c.group(o.St, m, groups["VERSION"]) && g.IsNil(evs[0].Result) == 1, "the version is read from the header", con+" VERSION", pos, "%d versions read", len(evs)) {
		return
	}
	cell, t := c.versionCell(o, o.Res[0])
	got := o.St.Load(cell, t)
	_, hi := g.Range(got)
	c.Check(evs[0].Args[0] == cell && got == eng.Out(evs[0].Result, 0, t), "the version read becomes the response's", con+" VERSION", pos, "Response.Version is %s", got)
	c.Check(hi <= v160, "SGML versions end at 160", con+" VERSION", pos, "accepted with a version up to %d", hi)
}

// fromInput: the text is what was read up to the first tag, from the buffered
// reader that the decoder continues with.
func (c *C) fromInput(o *eng.Outcome, ps []*eng.Term, text *eng.Term) bool {
	var read, dec *eng.Event
	for _, e := range flatten(o.St.Events(nil)) {
		if e.Kind != "call" {
			continue
		}
		if strings.HasPrefix(e.Callee, "(*bufio.Reader).Read") && eng.Contains(text, e.Result) {
			read = e
		}
		if strings.HasSuffix(e.Callee, "/xml.NewDecoder") {
			dec = e
		}
	}
	return read != nil && dec != nil && unwrap(dec.Args[0]) == read.Args[0]
}

func (c *C) sgmlRefusal(o *eng.Outcome, m *eng.Term, v160 int64) {
	con := "SGML header"
	pos := c.W.InstrPos(o.Site)
	g := o.St.F
	if _, hi := g.Range(eng.LenOf(m)); hi == 0 || g.IsNil(m) == 1 {
		return
	}
	groups := c.headerGroups(m, pos)
	if groups == nil {
		return
	}
	for _, f := range sgmlFields {
		if vals := sgmlValues[f]; vals != nil {
			if _, not := oneOf(g, c.group(o.St, m, groups[f]), vals); not {
				return
			}
		}
	}
	for _, e := range fromStrings(o.St.Events(nil)) {
		if g.IsNil(e.Result) == -1 {
			return
		}
		t := elemOfPtr(e.Args[0].Typ)
		if lo, _ := g.Range(eng.Out(e.Result, 0, t)); lo > v160 {
			return
		}
	}
	c.Fail("only bad header values are refused", con, pos, "a header with good values is refused: %s", tail(g.Path(), 200))
}

// nameValue finds the terms for the attribute name and value a round of the
// header loop looks at.
func nameValue(l *eng.LoopInfo) (name, value *eng.Term) {
	for _, b := range l.Backs {
		g := b.St.F
		var n *eng.Term
		field := ""
		g.EqConsts(func(t, k *eng.Term) {
			if s, ok := k.StrVal(); ok {
				for _, f := range xmlFields {
					if f == s && loopText(l, t) {
						n, field = t, f
					}
				}
			}
		})
		if n == nil {
			continue
		}
		if name == nil {
			name = n
		}
		for _, e := range fromStrings(b.St.Events(b.From)) {
			if field == "VERSION" && value == nil {
				value = e.Args[1]
			}
		}
		g.EqConsts(func(t, k *eng.Term) {
			s, ok := k.StrVal()
			if vs := xmlValues[field]; ok && vs != nil && vs[0] == s && t != n && value == nil && loopText(l, t) {
				value = t
			}
		})
	}
	return
}

// loopText: the term is cut out of a text that shrinks from round to round.
func loopText(l *eng.LoopInfo, t *eng.Term) bool {
	for _, h := range l.Phis {
		if h.K == eng.KLoop && eng.Contains(t, h) {
			return true
		}
	}
	for _, h := range l.Cells {
		if eng.Contains(t, h) {
			return true
		}
	}
	return false
}

func (c *C) xmlHeader(d *dw, o *eng.Outcome, its []item, procs int, l *eng.LoopInfo, v200 int64) {
	con := "XML header"
	pos := c.W.InstrPos(o.Site)
	g := o.St.F
	if !c.Check(procs == 2 && d.is(g, its[0].tok, exp{"proc", eng.Str("xml")}) == 1 && d.is(g, its[1].tok, exp{"proc", eng.Str("OFX")}) == 1, "both processing instructions come first", con, pos, "accepted with other processing instructions") {
		return
	}
	if !c.Check(l != nil, "the header's attributes are read", con, pos, "accepted without reading the attributes") {
		return
	}
	lp := c.W.InstrPos(l.Header.Instrs[0])
	name, value := nameValue(l)
	if !c.Check(name != nil && value != nil && name != value, "the header's attributes are read", con, lp, "no attribute name and value found") {
		return
	}
	inst := eng.Assert(its[1].tok, d.proc)
	c.Check(entryContains(l, inst), "the attributes read are the header's", con, lp, "the text read is not that of the OFX processing instruction")
	cell, vt := c.versionCell(o, o.Res[0])
	final := o.St.Load(cell, vt)
	flo, _ := g.Range(final)
	seen := map[string]bool{}
	for _, b := range l.Backs {
		bg := b.St.F
		k := bg.ConstOf(name)
		f := ""
		if k != nil {
			f, _ = k.StrVal()
		}
		if !c.Check(inList(xmlFields, f), "unknown attributes are refused", con, lp, "a round accepts an attribute other than %s", strings.Join(xmlFields, ", ")) {
			continue
		}
		seen[f] = true
		fc := con + " " + f
		if vs := xmlValues[f]; vs != nil {
			is, _ := oneOf(bg, value, vs)
			c.Check(is, "header values are checked", fc, lp, "accepted with a %s other than %s", f, vs[0])
		}
		evs := fromStrings(b.St.Events(b.From))
		if f == "VERSION" {
			ok := len(evs) == 1 && evs[0].Args[1] == value && bg.IsNil(evs[0].Result) == 1
			c.Check(ok, "the version is read from the header", fc, lp, "a VERSION attribute is not read as version")
			if ok {
				nv := eng.Out(evs[0].Result, 0, vt)
				c.Check(evs[0].Args[0] == cell && b.St.Load(cell, vt) == nv, "the version read becomes the response's", fc, lp, "Response.Version is %s", b.St.Load(cell, vt))
				lo, _ := bg.Range(nv)
				c.Check(lo >= v200 || flo >= v200, "XML versions start at 200", fc, lp, "accepted with a version from %d on", lo)
			}
		} else {
			c.Check(len(evs) == 0 && (l.Cells[cell] == nil || b.St.Load(cell, vt) == l.Cells[cell]), "only VERSION changes the version", fc, lp, "%s changes the version", f)
		}
	}
	for _, f := range xmlFields {
		c.Check(seen[f], "the standard attributes are known", con+" "+f, lp, "no round accepts %s", f)
	}
	c.Check(final == l.Cells[cell] || flo >= v200, "the version read becomes the response's", con, pos, "Response.Version is %s", final)
	c.Check(c.seenFlag(l, g, name, "OFXHEADER"), "OFXHEADER is required", con, pos, "accepted without an OFXHEADER attribute")
	c.Check(flo >= 1 || c.seenFlag(l, g, name, "VERSION"), "VERSION is required", con, pos, "accepted without a VERSION attribute")
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func entryContains(l *eng.LoopInfo, x *eng.Term) bool {
	for _, t := range l.EntPh {
		if t != nil && eng.Contains(t, x) {
			return true
		}
	}
	for _, t := range l.EntCl {
		if t != nil && eng.Contains(t, x) {
			return true
		}
	}
	return false
}

// flags lists the boolean variables of the loop: header term, entry value and
// value after each round.
// Keys of a set kept in a map count as such variables where the facts mention them.
func flags(l *eng.LoopInfo, g *eng.Facts, fn func(h, entry *eng.Term, after func(b *eng.BackInfo) *eng.Term)) {
	for p, h := range l.Phis {
		if h.K == eng.KLoop && types.Identical(p.Type().Underlying(), types.Typ[types.Bool]) {
			p := p
			fn(h, l.EntPh[p], func(b *eng.BackInfo) *eng.Term { return b.Phis[p] })
		}
	}
	for a, h := range l.Cells {
		if h.Typ != nil && types.Identical(h.Typ.Underlying(), types.Typ[types.Bool]) {
			a := a
			fn(h, l.EntCl[a], func(b *eng.BackInfo) *eng.Term { return b.St.Load(a, h.Typ) })
		}
	}
	sets := map[*eng.Term]bool{}
	g.Truths(func(t *eng.Term, v bool) {
		eng.Walk(t, func(h *eng.Term) bool {
			if (h.K == eng.KLookup || h.K == eng.KMapOk) && h.Args[0].K == eng.KMap && h.Args[1].K == eng.KConst && h.Typ != nil && isBool(h.Typ) && !sets[h] {
				sets[h] = true
				fn(h, entrySet(l, h.Args[0]), func(b *eng.BackInfo) *eng.Term {
					mv := b.St.MapOf(h.Args[0])
					if mv == nil {
						return eng.None
					}
					for i := len(mv.Entries) - 1; i >= 0; i-- {
						k := mv.Entries[i].K
						if kc := b.St.F.ConstOf(k); kc != nil {
							k = kc
						}
						switch {
						case b.St.F.Eval(eng.Eq(k, h.Args[1])) == 1 && h.K == eng.KMapOk:
							return eng.True
						case b.St.F.Eval(eng.Eq(k, h.Args[1])) == 1:
							return mv.Entries[i].V
						case b.St.F.Eval(eng.Eq(k, h.Args[1])) == 0:
							return eng.None
						}
					}
					return h
				})
			}
			return true
		})
	})
}

// entrySet: false when the map is empty on entry to the loop.
func entrySet(l *eng.LoopInfo, m *eng.Term) *eng.Term {
	if mv := l.Entry.MapOf(m); mv != nil && !mv.Unknown && len(mv.Entries) == 0 {
		return eng.False
	}
	return eng.None
}

// flagFor: the variable starts false and becomes true only in rounds that saw
// the attribute.
func flagFor(l *eng.LoopInfo, h, entry *eng.Term, after func(b *eng.BackInfo) *eng.Term, name *eng.Term, field string) bool {
	if entry == nil || entry.C == nil || entry.C.Kind() != constant.Bool || constant.BoolVal(entry.C) {
		if !isZeroTerm(entry) {
			return false
		}
	}
	set := false
	for _, b := range l.Backs {
		v := after(b)
		if v == h {
			continue
		}
		if bv, ok := v.BoolVal(); ok && !bv {
			continue
		}
		k := b.St.F.ConstOf(name)
		if k == nil {
			return false
		}
		if s, _ := k.StrVal(); s != field {
			return false
		}
		set = true
	}
	return set
}

func (c *C) seenFlag(l *eng.LoopInfo, g *eng.Facts, name *eng.Term, field string) bool {
	ok := false
	flags(l, g, func(h, entry *eng.Term, after func(b *eng.BackInfo) *eng.Term) {
		if g.Holds(h, true) && flagFor(l, h, entry, after, name, field) {
			ok = true
		}
	})
	return ok
}

// xmlRefusal: an error inside the header is due to the header.
func (c *C) xmlRefusal(d *dw, o *eng.Outcome, its []item, l *eng.LoopInfo, v200 int64) {
	con := "XML header"
	pos := c.W.InstrPos(o.Site)
	g := o.St.F
	if d.is(g, its[1].tok, exp{"proc", eng.Str("OFX")}) == -1 || d.is(g, its[0].tok, exp{"proc", eng.Str("xml")}) == -1 {
		return
	}
	if l == nil {
		c.Fail("only bad headers are refused", con, pos, "refused before its attributes are read")
		return
	}
	name, value := nameValue(l)
	if name == nil || value == nil {
		return // reported by xmlHeader
	}
	// malformed: a part of an attribute is missing
	malformed := false
	check := func(t *eng.Term) {
		eng.Walk(t, func(x *eng.Term) bool {
			if x.K == eng.KCall && strings.Contains(x.CalleeName(), ".Split") {
				if g.Eval(eng.Eq(eng.LenOf(x), eng.Int(2))) == -1 {
					malformed = true
				}
			}
			if x.K == eng.KCall && strings.HasSuffix(x.CalleeName(), ".Cut") && g.Eval(eng.Extract(x, 2, types.Typ[types.Bool])) == -1 {
				malformed = true
			}
			if x.K == eng.KCall && strings.Contains(x.CalleeName(), ".Index") {
				if _, hi := g.Range(x); hi < 0 {
					malformed = true
				}
			}
			return true
		})
	}
	g.Truths(func(t *eng.Term, v bool) { check(t) })
	g.Lens(check)
	if malformed {
		return
	}
	if _, not := oneOf(g, name, xmlFields); not {
		return
	}
	if k := g.ConstOf(name); k != nil {
		f, _ := k.StrVal()
		if vs := xmlValues[f]; vs != nil {
			if _, not := oneOf(g, value, vs); not {
				return
			}
		}
	}
	for _, e := range fromStrings(o.St.Events(nil)) {
		if g.IsNil(e.Result) == -1 {
			return
		}
		if _, hi := g.Range(eng.Out(e.Result, 0, elemOfPtr(e.Args[0].Typ))); hi < v200 {
			return
		}
	}
	// a required attribute was missing
	missing := false
	flags(l, g, func(h, entry *eng.Term, after func(b *eng.BackInfo) *eng.Term) {
		for _, f := range []string{"OFXHEADER", "VERSION"} {
			if g.Holds(h, false) && flagFor(l, h, entry, after, name, f) && setInEvery(l, h, after, name, f) {
				missing = true
			}
		}
	})
	for _, t := range l.Cells {
		if isNamed(t.Typ, "ofxVersion") {
			if _, hi := g.Range(t); hi < v200 {
				missing = true
			}
		}
	}
	c.Check(missing, "only bad headers are refused", con, pos, "a header with good attributes is refused: %s", tail(g.Path(), 200))
}

// setInEvery: every round that sees the attribute sets the variable.
func setInEvery(l *eng.LoopInfo, h *eng.Term, after func(b *eng.BackInfo) *eng.Term, name *eng.Term, field string) bool {
	for _, b := range l.Backs {
		if k := b.St.F.ConstOf(name); k != nil {
			if s, _ := k.StrVal(); s == field {
				if v, ok := after(b).BoolVal(); !ok || !v {
					return false
				}
			}
		}
	}
	return true
}

func init() {
	reg("C11", 20, "on every path of DecodeResponse the header decisions are read off: the pattern the SGML header is matched with, the constants its groups and the XML attributes are compared with, and the range of the version accepted or refused", func(c *C) { c.headers() })
}
