package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- decoding: C09, C10, C14 (reading), C15, C17 ----
//
// A path through a decoding function is read as the sequence of what it takes
// from the XML decoder: tokens, elements decoded as a whole, and loops of
// these. The sequence has to be one the document grammar allows, and a path
// that fails has to have seen something the grammar excludes at that point.

const decoderPfx = "(*github.com/aclindsa/xml.Decoder)."

// decodeResponse analyses DecodeResponse as a whole, helpers inlined; reading
// a version is opaque (C22 decides it).
func (c *C) decodeResponse(hook func(r *eng.Run)) ([]eng.Outcome, []*eng.Term, *ssa.Function) {
	f := c.Lib("DecodeResponse")
	if f == nil {
		return nil, nil, nil
	}
	r := c.Run()
	r.MaxSteps = 20000000
	r.Policy = versionOpaque
	if hook != nil {
		hook(r)
	}
	outs, ps := c.Analyze(r, f, nil)
	return outs, ps, f
}

func versionOpaque(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
	if g.Name() == "FromString" && g.Signature.Recv() != nil && strings.HasSuffix(g.Signature.Recv().Type().String(), "ofxVersion") {
		return eng.Impure
	}
	if g.Name() == "NewOfxVersion" {
		return eng.Impure
	}
	return eng.Auto
}

// item is one thing a path takes from the decoder.
type item struct {
	kind string // tok, dec, loop, bad
	ev   *eng.Event
	tok  *eng.Term // token value
	err  *eng.Term
	loop *eng.LoopInfo
}

func isDecoderCall(e *eng.Event) bool {
	return e.Kind == "call" && strings.HasPrefix(e.Callee, decoderPfx) && !strings.HasSuffix(e.Callee, ".InputOffset")
}

// dw knows the XML token types.
type dw struct {
	c                        *C
	start, end, proc, chars  types.Type
	startT, startName, local int
}

func (c *C) decWorld() *dw {
	d := &dw{c: c}
	var xmlPkg *types.Package
	for _, p := range c.W.Lib.Pkg.Imports() {
		if strings.HasSuffix(p.Path(), "/xml") {
			xmlPkg = p
		}
	}
	if xmlPkg == nil {
		c.Fail("anchor", "xml package", "", "the library no longer imports the xml package")
		return nil
	}
	get := func(n string) types.Type {
		if o := xmlPkg.Scope().Lookup(n); o != nil {
			return o.Type()
		}
		return nil
	}
	d.start, d.end, d.proc, d.chars = get("StartElement"), get("EndElement"), get("ProcInst"), get("CharData")
	return d
}

// local is the local name of a start or end element token.
func (d *dw) localOf(tok *eng.Term, T types.Type) *eng.Term {
	return d.localName(eng.Assert(tok, T), T)
}
func (d *dw) localName(v *eng.Term, T types.Type) *eng.Term {
	st := T.Underlying().(*types.Struct)
	if st.Field(0).Name() == "Target" {
		return eng.FieldOf(v, 0, strT)
	}
	nm := eng.FieldOf(v, 0, st.Field(0).Type())
	ns := st.Field(0).Type().Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		if ns.Field(i).Name() == "Local" {
			return eng.FieldOf(nm, i, strT)
		}
	}
	return nil
}

// exp is an expected token; name nil: any name.
type exp struct {
	kind string // start, end, proc
	name *eng.Term
}

func (d *dw) typ(kind string) types.Type {
	switch kind {
	case "start":
		return d.start
	case "end":
		return d.end
	}
	return d.proc
}

// is tells whether the token is the expected one: 1 certainly, -1 certainly
// not, 0 maybe.
func (d *dw) is(f *eng.Facts, tok *eng.Term, e exp) int {
	T := d.typ(e.kind)
	k := f.Eval(eng.Is(tok, T))
	if k == -1 {
		return -1
	}
	n := 1
	if e.name != nil {
		q := eng.Eq(d.localOf(tok, T), e.name)
		n = f.Eval(q)
		if n == 0 {
			any := false
			for _, g := range f.Assume(eng.Is(tok, T), true) {
				if len(g.Assume(q, true)) > 0 {
					any = true
				}
			}
			if !any {
				n = -1
			}
		}
	}
	if n == -1 {
		return -1
	}
	if k == 1 && n == 1 {
		return 1
	}
	return 0
}

func (d *dw) nameConst(f *eng.Facts, tok *eng.Term, kind string) (string, bool) {
	t := f.ConstOf(d.localOf(tok, d.typ(kind)))
	if t == nil {
		return "", false
	}
	return t.StrVal()
}

// blank tells whether the token may be text of only white space: 1 certainly,
// -1 certainly not.
func (d *dw) blank(f *eng.Facts, tok *eng.Term) int {
	k := f.Eval(eng.Is(tok, d.chars))
	if k == -1 {
		return -1
	}
	res := 0
	see := func(t *eng.Term) {
		eng.Walk(t, func(x *eng.Term) bool {
			if x.K == eng.KCall && strings.HasSuffix(x.CalleeName(), ".TrimSpace") && eng.Contains(x, tok) {
				lo, hi := f.Range(eng.LenOf(x))
				if lo >= 1 {
					res = -1
				} else if hi == 0 && k == 1 {
					res = 1
				}
				if s := f.ConstOf(x); s != nil {
					if v, ok := s.StrVal(); ok && v == "" && k == 1 {
						res = 1
					}
				}
				if f.Holds(eng.Eq(x, eng.Str("")), false) {
					res = -1
				}
			}
			return true
		})
	}
	f.Truths(func(t *eng.Term, v bool) { see(t) })
	if res == 0 {
		f.Lens(func(t *eng.Term) { see(t) })
	}
	return res
}

// items lists what a path takes from the decoder; loops that only skip white
// space are dropped.
func (d *dw) items(f *eng.Facts, evs []*eng.Event) []item {
	var out []item
	ahead := -1 // the item that a loop skipping white space left
	for _, e := range flatten(evs) {
		switch {
		case e.Kind == "loop":
			if d.skips(e.Loop) {
				continue
			}
			if tok, err := d.skipsAhead(e.Loop); tok != nil {
				// what was taken before the loop was skipped, or is what it leaves
				n := len(out) - 1
				if n >= 0 && out[n].kind == "tok" && out[n].tok == tok[0] && out[n].err == err[0] {
					out[n].tok, out[n].err = tok[1], err[1]
					ahead = n
					continue
				}
			}
			out = append(out, item{kind: "loop", ev: e, loop: e.Loop})
		case isDecoderCall(e):
			switch strings.TrimPrefix(e.Callee, decoderPfx) {
			case "Token":
				rs := e.Result.Typ.(*types.Tuple)
				if n := len(out) - 1; n >= 0 && n == ahead && d.blank(f, out[n].tok) == 1 && f.IsNil(out[n].err) == 1 {
					out = out[:n] // the last round of the loop went on from white space
				}
				out = append(out, item{kind: "tok", ev: e, tok: eng.Extract(e.Result, 0, rs.At(0).Type()), err: eng.Extract(e.Result, 1, rs.At(1).Type())})
			case "DecodeElement", "Decode":
				out = append(out, item{kind: "dec", ev: e, err: e.Result})
			default:
				out = append(out, item{kind: "bad", ev: e})
			}
		}
	}
	return out
}

// skips: every round of the loop takes one token, which is white space.
func (d *dw) skips(l *eng.LoopInfo) bool {
	for _, b := range l.Backs {
		var toks []item
		for _, e := range flatten(b.St.Events(b.From)) {
			if e.Kind == "loop" {
				return false
			}
			if isDecoderCall(e) {
				if !strings.HasSuffix(e.Callee, ".Token") {
					return false
				}
				rs := e.Result.Typ.(*types.Tuple)
				toks = append(toks, item{tok: eng.Extract(e.Result, 0, rs.At(0).Type())})
			}
		}
		if len(toks) != 1 || d.blank(b.St.F, toks[0].tok) != 1 {
			return false
		}
	}
	return len(l.Backs) > 0
}

// skipsAhead recognises the loop that holds a token and takes another one in
// each round while it is white space: what it starts with and leaves.
func (d *dw) skipsAhead(l *eng.LoopInfo) (tok, err []*eng.Term) {
	var pt, pe *ssa.Phi
	for _, b := range l.Backs {
		var r *eng.Term
		for _, e := range flatten(b.St.Events(b.From)) {
			if e.Kind == "loop" || isDecoderCall(e) && (r != nil || !strings.HasSuffix(e.Callee, ".Token")) {
				return nil, nil
			}
			if isDecoderCall(e) {
				r = e.Result
			}
		}
		if r == nil {
			return nil, nil
		}
		rs := r.Typ.(*types.Tuple)
		var bt, be *ssa.Phi
		for p, v := range b.Phis {
			switch v {
			case eng.Extract(r, 0, rs.At(0).Type()):
				bt = p
			case eng.Extract(r, 1, rs.At(1).Type()):
				be = p
			}
		}
		if bt == nil || be == nil || pt != nil && (pt != bt || pe != be) {
			return nil, nil
		}
		pt, pe = bt, be
		if l.Phis[bt] == nil || l.Phis[be] == nil || d.blank(b.St.F, l.Phis[bt]) != 1 || b.St.F.IsNil(l.Phis[be]) != 1 {
			return nil, nil
		}
	}
	if pt == nil {
		return nil, nil
	}
	return []*eng.Term{l.EntPh[pt], l.Phis[pt]}, []*eng.Term{l.EntPh[pe], l.Phis[pe]}
}

// plain: the loop takes nothing from the decoder.
func plainLoop(l *eng.LoopInfo) bool {
	for _, b := range l.Backs {
		for _, e := range flatten(b.St.Events(b.From)) {
			if isDecoderCall(e) || e.Kind == "loop" && !plainLoop(e.Loop) {
				return false
			}
		}
	}
	return true
}

// refused: the path failed because of its last item: reading failed, or the
// token is none of the expected ones. Otherwise why says what is wrong.
func (d *dw) refused(f *eng.Facts, it item, want []exp) (bool, string) {
	if it.err == nil {
		return false, "fails at something other than a token"
	}
	if f.IsNil(it.err) == -1 {
		return true, ""
	}
	if it.kind != "tok" {
		return false, "fails although the element was read"
	}
	if d.blank(f, it.tok) != -1 {
		return false, "white space between elements is refused"
	}
	for _, w := range want {
		if d.is(f, it.tok, w) != -1 {
			n := "*"
			if w.name != nil {
				n = w.name.String()
			}
			return false, "an expected " + w.kind + " tag " + n + " can be refused"
		}
	}
	return true, ""
}

// decOf checks that an element decoded is the one whose start tag was taken.
func (d *dw) decOf(it item, tok *eng.Term) bool {
	e := it.ev
	if !strings.HasSuffix(e.Callee, ".DecodeElement") || len(e.Args) != 3 {
		return false
	}
	want := eng.Assert(tok, d.start)
	return e.Cont[2] == want || e.St.Load(e.Args[2], d.start) == want || e.St.Content(e.St.Load(e.Args[2], d.start)) == e.St.Content(want)
}

type setRow struct{ field, tag string }

// respSets: the reference list of response message sets.
func respSets() (out []setRow) {
	for _, s := range tables.Sets {
		k, tag, _ := strings.Cut(s, "=")
		if strings.HasSuffix(k, "Rs") && k != "SignonRs" {
			out = append(out, setRow{strings.TrimSuffix(k, "Rs"), tag})
		}
	}
	return
}

// registered lists type name by tag for a response message set.
func registered(field string) map[string]string {
	m := map[string]string{}
	for _, r := range tables.Messages {
		if r.Set == field+"Rs" {
			m[r.Name] = r.Type
		}
	}
	return m
}

// structure: C10.
func (c *C) structure() {
	d := c.decWorld()
	outs, ps, f := c.decodeResponse(nil)
	if d == nil || f == nil {
		return
	}
	pos := c.W.Pos(f.Pos())
	sets := respSets()
	signon := eng.Str("SIGNONMSGSRSV1")
	ofx := eng.Str("OFX")
	anySuccess := 0
	for i := range outs {
		o := &outs[i]
		con := "DecodeResponse"
		if o.Kind != "ret" {
			c.Fail("decoding returns", con, c.W.InstrPos(o.Site), "a path ends in %s", o.Kind)
			continue
		}
		g := o.St.F
		at := c.W.InstrPos(o.Site)
		en := g.IsNil(o.Res[1])
		if en == -1 {
			c.Check(g.IsNil(o.Res[0]) == 1, "no response object with an error", con, at, "the error is returned together with a response")
		} else if !c.Check(en == 1, "decoding succeeds or fails", con, at, "the returned error may or may not be nil: %s", o.Res[1]) {
			continue
		}
		for _, e := range flatten(o.St.Events(nil)) {
			if en == 1 && e.Kind == "call" && strings.HasSuffix(e.Callee, "/xml.NewDecoder") {
				c.wholeInput(flatten(o.St.Events(nil)), e.St, e.Args[0], ps[0], con, c.W.InstrPos(e.Site))
			}
		}
		its := d.items(g, o.St.Events(nil))
		// header part
		for len(its) > 0 {
			if its[0].kind == "tok" && g.Eval(eng.Is(its[0].tok, d.proc)) == 1 || its[0].kind == "loop" && plainLoop(its[0].loop) {
				its = its[1:]
				continue
			}
			break
		}
		wants := [][]exp{{{"start", ofx}}, {{"start", signon}}, {{"start", nil}}, nil, {{"end", signon}}}
		step := 0
		bad := ""
		var prev *eng.Term
		for step < len(wants) && len(its) > 0 && bad == "" {
			it := its[0]
			var want []exp
			if step == 3 {
				if it.kind != "dec" {
					bad = "takes " + it.kind + " instead of decoding the sign-on response"
					break
				}
				if !d.decOf(it, prev) {
					bad = "the sign-on response is not decoded from the tag following that of its message set"
					break
				}
				if !c.signonTarget(it, o) {
					bad = "the sign-on response is not decoded into the response's Signon"
					break
				}
			} else {
				want = wants[step]
				if it.kind != "tok" {
					bad = "takes " + it.kind + " (" + it.ev.Callee + ") where a tag is due"
					break
				}
				prev = it.tok
			}
			if len(its) == 1 && en == -1 {
				if step == 0 && g.IsNil(it.err) == 1 && !d.c.headerDone(o) {
					its = nil // a header token: C11
					break
				}
				if ok, why := d.refused(g, it, want); !ok {
					bad = why
				}
				its = its[1:]
				step = -1
				break
			}
			if g.IsNil(it.err) != 1 {
				bad = "a failure to read is ignored"
				break
			}
			if want != nil && d.is(g, it.tok, want[0]) != 1 {
				bad = "a tag is taken without checking that it is the " + want[0].kind + " tag due"
				break
			}
			its = its[1:]
			step++
		}
		if bad == "" && step == len(wants) {
			bad = c.setPart(d, o, g, its, en == -1, sets, ofx)
		} else if bad == "" && en == 1 {
			bad = "succeeds before the document is complete"
		}
		if en == 1 {
			anySuccess++
			c.Check(bad == "", "accepted documents are complete and well-formed", con, at, "%s", bad)
		} else {
			c.Check(bad == "", "only malformed documents are refused", con, at, "%s", bad)
		}
	}
	c.Check(anySuccess > 0, "some document is accepted", "DecodeResponse", pos, "no path succeeds")
	// the element name of the sign-on response is enforced by its XMLName
	if n := c.W.Type("SignonResponse"); n != nil {
		c.Check(xmlNameOf(n) == "SONRS", "the sign-on response is SONRS", "SignonResponse", c.W.Pos(n.(*types.Named).Obj().Pos()), "its XMLName is %q", xmlNameOf(n))
	}
	c.parseResponse()
}

// headerDone: the header of the document has been read: an SGML header, or an
// OFX processing instruction.
func (c *C) headerDone(o *eng.Outcome) bool {
	n := 0
	d := c.decWorld()
	for _, e := range flatten(o.St.Events(nil)) {
		if e.Kind == "call" && strings.Contains(e.Callee, "bufio.Reader).Read") {
			return true
		}
		if isDecoderCall(e) && strings.HasSuffix(e.Callee, ".Token") {
			rs := e.Result.Typ.(*types.Tuple)
			if o.St.F.Eval(eng.Is(eng.Extract(e.Result, 0, rs.At(0).Type()), d.proc)) == 1 {
				n++
			}
		}
	}
	return n >= 2
}

func xmlNameOf(t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "XMLName" {
			return parseTag(reflect.StructTag(st.Tag(i)).Get("xml"), "XMLName").name()
		}
	}
	return ""
}

func (c *C) signonTarget(it item, o *eng.Outcome) bool {
	tgt := unwrap(it.ev.Args[1])
	if tgt.K != eng.KField || eng.FieldNameOf(tgt) != "Signon" {
		return false
	}
	if o.St.F.IsNil(o.Res[0]) == 1 {
		return true
	}
	return tgt.Args[0] == o.Res[0]
}

// setPart: the message sets and the end of the document.
func (c *C) setPart(d *dw, o *eng.Outcome, g *eng.Facts, its []item, failed bool, sets []setRow, ofx *eng.Term) string {
	if len(its) > 0 && its[0].kind == "loop" {
		if why := c.setLoop(d, its[0].loop, sets, ofx, nil, nil); why != "" {
			return why
		}
		its = its[1:]
	}
	if len(its) == 0 {
		return "ends without looking at the tag after the last message set"
	}
	it := its[0]
	if it.kind != "tok" {
		return "takes " + it.kind + " where the tag of a message set or the end of the document is due"
	}
	if !failed {
		if len(its) != 1 || g.IsNil(it.err) != 1 || d.is(g, it.tok, exp{"end", ofx}) != 1 {
			return "succeeds without having seen the closing OFX tag"
		}
		return ""
	}
	want := []exp{{"end", ofx}}
	for _, s := range sets {
		want = append(want, exp{"start", eng.Str(s.tag)})
	}
	if len(its) == 1 && !(g.IsNil(it.err) == 1 && d.is(g, it.tok, exp{"start", nil}) == 1 && c.setOf(d, g, it.tok, sets) != nil) {
		_, why := d.refused(g, it, want)
		return why
	}
	s := c.setOf(d, g, it.tok, sets)
	if g.IsNil(it.err) != 1 || s == nil {
		return "goes on after a tag that is not that of a known message set"
	}
	its = its[1:]
	if len(its) > 0 && its[0].kind == "loop" {
		if why := c.msgLoop(d, its[0].loop, *s, nil); why != "" {
			return why
		}
		its = its[1:]
	}
	if len(its) == 0 {
		return "message set " + s.tag + " can be refused"
	}
	it = its[0]
	want = []exp{{"end", eng.Str(s.tag)}}
	for _, tag := range sortedKeys(registered(s.field)) {
		want = append(want, exp{"start", eng.Str(tag)})
	}
	if it.kind != "tok" {
		return "takes " + it.kind + " inside a message set where a tag is due"
	}
	if len(its) == 1 {
		_, why := d.refused(g, it, want)
		return why
	}
	if len(its) == 2 && its[1].kind == "dec" && g.IsNil(its[1].err) == -1 {
		return ""
	}
	return "fails after complete elements of message set " + s.tag
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *C) setOf(d *dw, f *eng.Facts, tok *eng.Term, sets []setRow) *setRow {
	n, ok := d.nameConst(f, tok, "start")
	if !ok {
		return nil
	}
	for i := range sets {
		if sets[i].tag == n {
			return &sets[i]
		}
	}
	return nil
}

// setLoop: every round of the loop takes exactly one known message set. each,
// when given, is called for every round; seen collects the sets.
func (c *C) setLoop(d *dw, l *eng.LoopInfo, sets []setRow, ofx *eng.Term, seen map[string]bool, each func(s setRow, b *eng.BackInfo, inner *eng.LoopInfo)) string {
	for _, b := range l.Backs {
		g := b.St.F
		its := d.items(g, b.St.Events(b.From))
		if len(its) == 0 || its[0].kind != "tok" || g.IsNil(its[0].err) != 1 {
			return "a round of the message-set loop does not start with a tag"
		}
		s := c.setOf(d, g, its[0].tok, sets)
		if s == nil || d.is(g, its[0].tok, exp{"start", eng.Str(s.tag)}) != 1 {
			return "a round of the message-set loop accepts a tag that is not that of a known message set"
		}
		its = its[1:]
		var inner *eng.LoopInfo
		if len(its) > 0 && its[0].kind == "loop" {
			inner = its[0].loop
			if why := c.msgLoop(d, inner, *s, nil); why != "" {
				return why
			}
			its = its[1:]
		}
		if len(its) != 1 || its[0].kind != "tok" || g.IsNil(its[0].err) != 1 || d.is(g, its[0].tok, exp{"end", eng.Str(s.tag)}) != 1 {
			return "message set " + s.tag + " is left without having seen its closing tag"
		}
		if seen != nil {
			seen[s.tag] = true
		}
		if each != nil {
			each(*s, b, inner)
		}
	}
	return ""
}

// msgLoop: every round of the loop decodes exactly one message.
func (c *C) msgLoop(d *dw, l *eng.LoopInfo, s setRow, each func(tag string, b *eng.BackInfo, dec item)) string {
	for _, b := range l.Backs {
		g := b.St.F
		its := d.items(g, b.St.Events(b.From))
		if len(its) != 2 || its[0].kind != "tok" || its[1].kind != "dec" {
			return "a round of the loop over " + s.tag + " does not take exactly one message"
		}
		if g.IsNil(its[0].err) != 1 || g.IsNil(its[1].err) != 1 {
			return "a failure to read a message of " + s.tag + " is ignored"
		}
		tag, ok := d.nameConst(g, its[0].tok, "start")
		if !ok || d.is(g, its[0].tok, exp{"start", eng.Str(tag)}) != 1 {
			return "a tag in " + s.tag + " is decoded without its name having been recognised"
		}
		if !d.decOf(its[1], its[0].tok) {
			return "a message of " + s.tag + " is not decoded from the tag just taken"
		}
		if each != nil {
			each(tag, b, its[1])
		}
	}
	return ""
}

// parseResponse: decoding errors give no response; otherwise the response is
// returned with the outcome of its validation.
func (c *C) parseResponse() {
	f := c.Lib("ParseResponse")
	if f == nil {
		return
	}
	r := c.Run()
	dec := c.W.LibFunc("DecodeResponse")
	val := c.W.LibFunc("Response.Valid")
	r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
		if g == dec {
			return eng.Impure
		}
		if g == val {
			return eng.Pure
		}
		return eng.Auto
	}
	outs, ps := c.Analyze(r, f, nil)
	con := "ParseResponse"
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		g := o.St.F
		var ev *eng.Event
		n := 0
		for _, e := range flatten(o.St.Events(nil)) {
			if e.Kind == "call" && e.Obj == any(dec) {
				ev = e
				n++
			}
		}
		if !c.Check(o.Kind == "ret" && n == 1, "parsing decodes its input once", con, pos, "decoded %d times", n) {
			continue
		}
		c.wholeInput(flatten(o.St.Events(nil)), o.St, ev.Args[0], ps[0], con, pos)
		rs := dec.Signature.Results()
		resp, derr := eng.Extract(ev.Result, 0, rs.At(0).Type()), eng.Extract(ev.Result, 1, rs.At(1).Type())
		if g.IsNil(derr) == -1 {
			c.Check(g.IsNil(o.Res[0]) == 1 && g.IsNil(o.Res[1]) == -1, "decoding failures give an error and no response", con, pos, "returns %s, %s", o.Res[0], o.Res[1])
			continue
		}
		if !c.Check(g.IsNil(derr) == 1, "decoding failures are noticed", con, pos, "returns %s, %s without looking at the decoding error", o.Res[0], o.Res[1]) {
			continue
		}
		c.Check(o.Res[0] == resp, "the decoded response is returned", con, pos, "returns %s", o.Res[0])
		// the error is the one of Valid
		var v *eng.Term
		see := func(t *eng.Term) {
			eng.Walk(t, func(x *eng.Term) bool {
				if x.K == eng.KCall && x.CalleeName() == eng.FnName(val) {
					v = x
				}
				return true
			})
		}
		see(o.Res[1])
		if v == nil {
			g.Truths(func(t *eng.Term, b bool) { see(t) })
		}
		if v == nil {
			c.Fail("validation problems are reported", con, pos, "the response's validity is not asked for")
			continue
		}
		verr := eng.Extract(v, 1, rs.At(1).Type())
		vok := eng.VerdictOk(v)
		ok := o.Res[1] == verr || g.IsNil(verr) == 1 && g.IsNil(o.Res[1]) == 1 || g.Eval(vok) == 1 && g.IsNil(o.Res[1]) == 1 || g.IsNil(o.Res[1]) == -1 && (g.Eval(vok) == -1 || g.IsNil(verr) == -1)
		c.Check(ok, "validation problems are reported", con, pos, "returns error %s", o.Res[1])
	}
}

func init() {
	reg("C10", 10, "DecodeResponse is analysed with its helpers inlined; every path, read as the sequence of tokens and elements it takes from the decoder, has to follow the document grammar to succeed and to have met something outside of it to fail", func(c *C) { c.structure() })
}

// readFrom collects what a reader reads from, through readers around readers,
// and names a function that cuts the input off.
func readFrom(evs []*eng.Event, st *eng.State, t *eng.Term, seen map[*eng.Term]bool) (cut string) {
	t = unwrap(t)
	if t == nil || seen[t] || len(seen) > 200 {
		return ""
	}
	seen[t] = true
	call := t
	if t.K == eng.KExtract {
		call = t.Args[0]
	}
	var from []*eng.Term
	switch call.K {
	case eng.KEvent:
		for _, e := range evs {
			if e.Kind != "call" || e.Result != call {
				continue
			}
			switch e.Callee {
			case "io.LimitReader", "net/http.MaxBytesReader", "io.NewSectionReader":
				return e.Callee
			}
			from = append(from, e.Args...)
		}
	case eng.KCall:
		switch call.CalleeName() {
		case "io.LimitReader", "net/http.MaxBytesReader", "io.NewSectionReader":
			return call.CalleeName()
		}
		from = call.Args
	case eng.KAlloc:
		if n := namedOf(elemOf(call.Typ)); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && (n.Obj().Name() == "LimitedReader" || n.Obj().Name() == "SectionReader") {
			return "io." + n.Obj().Name()
		}
		if st != nil {
			if x := st.Content(call); x != call {
				from = append(from, x)
			}
		}
	case eng.KStruct, eng.KList:
		from = call.Args
	}
	for _, x := range from {
		if cut := readFrom(evs, st, x, seen); cut != "" {
			return cut
		}
	}
	return ""
}

// wholeInput: the reader handed on reads all of src.
func (c *C) wholeInput(evs []*eng.Event, st *eng.State, t, src *eng.Term, con, pos string) {
	seen := map[*eng.Term]bool{}
	cut := readFrom(evs, st, t, seen)
	c.Check(cut == "", "all of the input is read", con, pos, "%s cuts the input off", cut)
	if src != nil {
		c.Check(seen[unwrap(src)] || cut != "", "the input given is read", con, pos, "reads %s", t)
	}
}
