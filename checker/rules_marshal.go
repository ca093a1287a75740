package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- marshalling: C12, C14 (writing), C16, C27 (version handed on) ----
//
// Request.Marshal and Response.Marshal are analysed once for every version and
// line-ending setting, with states merged where helpers return. What a path
// gives to the XML encoder is then run through an automaton of the document
// syntax; the alternatives of a merge are followed separately.

const encoderPfx = "(*github.com/aclindsa/xml.Encoder)."

// mrun is one analysis of Request.Marshal or Response.Marshal for one version.
type mrun struct {
	c       *C
	typ, fn string
	side    string // Rq, Rs
	version int64  // 0: not a known one
	text    string // its text
	cr      int    // carriage returns: -1 off, 1 on, 0 the writer has no such option
	outs    []eng.Outcome
	recv    *eng.Term
	ver     *eng.Term
	rt      types.Type
	f       *ssa.Function
}

func symbolicSetName(st *eng.State, callee string, args []*eng.Term, site ssa.Instruction, ctx *eng.Ctx) ([]*eng.Term, bool) {
	if strings.HasSuffix(callee, "ofxgo.messageType).String") && len(args) == 1 && st.F.ConstOf(args[0]) == nil {
		return []*eng.Term{eng.PureCall(callee, args, strT)}, true
	}
	return nil, false
}

func isSignonValid(name string) bool {
	return strings.HasSuffix(name, ").Valid") && strings.Contains(name, "ofxgo.Signon")
}

func signonOpaque(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
	if isSignonValid(eng.FnName(g)) {
		return eng.Impure
	}
	return eng.Auto
}

// marshalRuns analyses a Marshal method once for each version and line-ending
// setting.
func (c *C) marshalRuns(typ string, unknown bool, each func(m *mrun)) {
	f := c.Lib(typ + ".Marshal")
	rt := c.W.Type(typ)
	vt := c.W.Type("ofxVersion")
	if f == nil || rt == nil || vt == nil {
		return
	}
	vi, ci := fieldIndex(rt, "Version"), fieldIndex(rt, "carriageReturn")
	if vi < 0 {
		c.Fail("anchor", typ+".Version", "", "field not found")
		return
	}
	crs := []int{0}
	if ci >= 0 {
		crs = []int{-1, 1}
	} else if typ == "Request" {
		c.Fail("anchor", "Request.carriageReturn", "", "field not found")
	}
	texts := map[int64]string{}
	var vs []int64
	consts := constsOf(c.W, vt)
	for _, e := range tables.Enums["ofxVersion"] {
		v, ok := consts[e.Const]
		if !ok {
			c.Fail("anchor", e.Const, "", "version constant not found")
			continue
		}
		texts[v] = e.Text
		vs = append(vs, v)
	}
	runs := vs
	if unknown {
		runs = append([]int64{0}, vs...)
	}
	for _, v := range runs {
		for _, cr := range crs {
			r := c.Run()
			r.Merge = true
			r.MaxSteps = 20000000
			r.Intercept = symbolicSetName
			r.Policy = signonOpaque
			m := &mrun{c: c, typ: typ, fn: typ + ".Marshal", version: v, text: texts[v], cr: cr, f: f, rt: rt, side: "Rq"}
			if typ == "Response" {
				m.side = "Rs"
			}
			m.outs, _ = c.Analyze(r, f, func(st *eng.State, ps []*eng.Term) *eng.State {
				m.recv = ps[0]
				m.ver = c.fieldTerm(st, ps[0], rt, "Version")
				if v != 0 {
					st = firstState(st.Assume(eng.Eq(m.ver, eng.Int(v)), true))
				} else {
					for _, k := range vs {
						st = firstState(st.Assume(eng.Eq(m.ver, eng.Int(k)), false))
					}
				}
				if ci >= 0 {
					st = firstState(st.Assume(c.fieldTerm(st, ps[0], rt, "carriageReturn"), cr > 0))
				}
				return st
			})
			each(m)
		}
	}
}

func firstState(s []*eng.State) *eng.State {
	if len(s) == 0 {
		return nil
	}
	return s[0]
}

// fieldTerm is the value a field has in the state.
func (c *C) fieldTerm(st *eng.State, p *eng.Term, rt types.Type, name string) *eng.Term {
	i := fieldIndex(rt, name)
	t := rt.Underlying().(*types.Struct).Field(i).Type()
	return st.Load(eng.FieldAddr(p, i, types.NewPointer(t)), t)
}

// succeeds: the path returns a buffer and no error.
func succeeds(o *eng.Outcome) bool {
	return o.Kind == "ret" && len(o.Res) == 2 && o.St.F.IsNil(o.Res[1]) == 1
}

// fails: the path certainly returns an error.
func fails(o *eng.Outcome) bool {
	return o.Kind == "ret" && len(o.Res) == 2 && o.St.F.IsNil(o.Res[1]) == -1
}

// encItem is one thing given to the XML encoder.
type encItem struct {
	kind string // open, close, elem, enc, flush, conf, bad
	name *eng.Term
	arg  *eng.Term // element encoded
	cont *eng.Term // its content
	res  *eng.Term
	ev   *eng.Event
}

func isEncoderCall(e *eng.Event) bool {
	return e.Kind == "call" && strings.HasPrefix(e.Callee, encoderPfx)
}

func encItemOf(e *eng.Event) encItem {
	it := encItem{kind: "bad", ev: e, res: e.Result}
	nameOf := func(v *eng.Term, T types.Type) *eng.Term {
		if T == nil {
			return nil
		}
		st, ok := T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		if st.NumFields() > 1 { // attributes
			a := eng.FieldOf(v, 1, st.Field(1).Type())
			if (&eng.Run{}).NewState().F.IsNil(a) != 1 {
				if lo, _ := (&eng.Run{}).NewState().F.Range(eng.LenOf(a)); lo > 0 {
					return nil
				}
			}
		}
		nm := eng.FieldOf(v, 0, st.Field(0).Type())
		ns := st.Field(0).Type().Underlying().(*types.Struct)
		for i := 0; i < ns.NumFields(); i++ {
			if ns.Field(i).Name() == "Local" {
				return eng.FieldOf(nm, i, strT)
			}
		}
		return nil
	}
	switch strings.TrimPrefix(e.Callee, encoderPfx) {
	case "EncodeToken":
		switch T := ifaceType(e.Args[1]); {
		case T == nil:
		case isNamed(T, "StartElement"):
			it.kind, it.name = "open", nameOf(unwrap(e.Cont[1]), T)
		case isNamed(T, "EndElement"):
			it.kind, it.name = "close", nameOf(unwrap(e.Cont[1]), T)
		}
	case "EncodeElement":
		it.kind, it.arg, it.cont = "elem", e.Args[1], e.Cont[1]
		it.name = nameOf(unwrap(e.Cont[2]), e.Args[2].Typ)
	case "Encode":
		it.kind, it.arg, it.cont = "enc", e.Args[1], e.Cont[1]
	case "Flush":
		it.kind = "flush"
	case "Indent", "CarriageReturn", "SetDisableAutoClose":
		it.kind = "conf"
	}
	if (it.kind == "open" || it.kind == "close") && it.name == nil {
		it.kind = "bad"
	}
	return it
}

// ---- the document automaton ----

type docState struct {
	phase int // see docWalk
	k     int // next message set
	loops []*eng.LoopInfo
}

func (s docState) key() string {
	return fmt.Sprintf("%d/%d/%d", s.phase, s.k, len(s.loops))
}

const (
	docStart  = iota // nothing written
	docOFX           // <OFX>
	docSignon        // <SIGNONMSGS..>
	docSONRQ         // the sign-on message
	docSets          // between message sets
	docSet           // <..MSGS..> of set k
	docMsgs          // the messages of set k
	docEnd           // </OFX>
	docFlush         // flushed
)

var docPhase = []string{"at the start", "after <OFX>", "in the sign-on set", "after the sign-on message", "between message sets", "in a message set", "after the messages of a set", "after </OFX>", "after the final flush"}

type doc struct {
	m      *mrun
	o      *eng.Outcome
	sets   []setRow
	signon string
	slices map[string]msgSlice
	enc    *eng.Term
	all    []*eng.LoopInfo // loops outside alternatives without encoding
	bad    []string
	what   map[string]bool // which of the three properties a complaint is about
}

func (d *doc) fail(what, format string, a ...any) {
	d.bad = append(d.bad, what+"\x00"+fmt.Sprintf(format, a...))
}

func setsOf(side string) (signon string, out []setRow) {
	for _, s := range tables.Sets {
		k, tag, _ := strings.Cut(s, "=")
		if k == "Signon"+side {
			signon = tag
		} else if strings.HasSuffix(k, side) {
			out = append(out, setRow{strings.TrimSuffix(k, side), tag})
		}
	}
	return
}

func (d *doc) list(k int) *eng.Term {
	s, ok := d.slices[d.sets[k].field]
	if !ok {
		return nil
	}
	return emptyState().Load(eng.FieldAddr(d.m.recv, s.idx, types.NewPointer(s.typ)), s.typ)
}

// advance moves past message sets known to be empty.
func (d *doc) advance(s docState, f *eng.Facts) docState {
	for s.phase == docSets && s.k < len(d.sets) && f.LE(eng.LenOf(d.list(s.k)), eng.Int(0), 0) == 1 {
		s.k++
	}
	return s
}

// walk runs events through the automaton; f are the facts at their end.
func (d *doc) walk(evs []*eng.Event, in []docState, f *eng.Facts, top bool) []docState {
	cur := in
	for _, e := range evs {
		var nx []docState
		switch {
		case e.Kind == "alt":
			for _, a := range e.Alts {
				for _, s := range d.walk(a.Events, cur, a.Facts, false) {
					nx = append(nx, d.advance(s, a.Facts))
				}
			}
		case e.Kind == "loop":
			if !encodes(e.Loop) {
				for _, s := range cur {
					s.loops = append(append([]*eng.LoopInfo(nil), s.loops...), e.Loop)
					nx = append(nx, s)
				}
				if top {
					d.all = append(d.all, e.Loop)
				}
				break
			}
			for _, s := range cur {
				nx = append(nx, d.loop(s, e.Loop, f))
			}
		case isEncoderCall(e):
			it := encItemOf(e)
			if it.kind != "conf" && f.IsNil(it.res) != 1 {
				d.fail("C16", "an error of %s is not heeded", strings.TrimPrefix(e.Callee, encoderPfx))
			}
			if d.enc == nil {
				d.enc = e.Args[0]
			}
			if e.Args[0] != d.enc {
				d.fail("C16", "more than one encoder is used")
			}
			for _, s := range cur {
				nx = append(nx, d.step(s, it, f))
			}
		case e.Kind == "call" && isSignonValid(e.Callee):
			nx = cur
		default:
			nx = cur
		}
		seen := map[string]bool{}
		cur = nil
		for _, s := range nx {
			s = d.advance(s, f)
			if k := s.key(); !seen[k] {
				seen[k] = true
				cur = append(cur, s)
			}
		}
	}
	return cur
}

func encodes(l *eng.LoopInfo) bool {
	for _, b := range l.Backs {
		for _, e := range flatten(b.St.Events(b.From)) {
			if isEncoderCall(e) || e.Kind == "loop" && encodes(e.Loop) {
				return true
			}
		}
	}
	return false
}

func (d *doc) step(s docState, it encItem, f *eng.Facts) docState {
	name := ""
	if it.name != nil {
		t := f.ConstOf(it.name)
		v, ok := "", false
		if t != nil {
			v, ok = t.StrVal()
		}
		if !ok {
			d.fail("C14", "an element of unknown name %s is written %s", it.name, docPhase[s.phase])
			return s
		}
		name = v
	}
	bad := func(what string) docState {
		n := name
		if n == "" {
			n = it.kind
		} else if it.kind == "close" {
			n = "</" + n + ">"
		} else {
			n = "<" + n + ">"
		}
		d.fail(what, "%s is written %s", n, docPhase[s.phase])
		return s
	}
	switch it.kind {
	case "conf":
		if s.phase != docStart {
			d.fail("C12", "%s is called %s", strings.TrimPrefix(it.ev.Callee, encoderPfx), docPhase[s.phase])
		}
		return s
	case "flush":
		if s.phase == docEnd {
			s.phase = docFlush
		}
		return s
	case "open":
		switch {
		case s.phase == docStart && name == "OFX":
			s.phase = docOFX
			return s
		case s.phase == docOFX && name == d.signon:
			s.phase = docSignon
			return s
		case s.phase == docSets:
			for k := s.k; k < len(d.sets); k++ {
				if d.sets[k].tag == name {
					if k > s.k {
						d.fail("C14 C16", "<%s> is written although %s may not have been", name, d.sets[s.k].tag)
					}
					if f.LE(eng.Int(1), eng.LenOf(d.list(k)), 0) != 1 {
						d.fail("C14", "<%s> is written even if it has no messages", name)
					}
					s.k, s.phase = k, docSet
					return s
				}
			}
		}
		return bad("C14")
	case "close":
		switch {
		case s.phase == docSONRQ && name == d.signon:
			s.phase = docSets
			return d.advance(s, f)
		case s.phase == docMsgs && name == d.sets[s.k].tag:
			s.phase = docSets
			s.k++
			s.loops = nil
			return d.advance(s, f)
		case s.phase == docSets && name == "OFX":
			if s.k < len(d.sets) {
				d.fail("C14 C16", "</OFX> is written although %s may have messages left", d.sets[s.k].tag)
			}
			s.phase = docEnd
			return s
		}
		return bad("C16")
	case "enc", "elem":
		if s.phase == docSignon && d.isSignon(it, f) {
			s.phase = docSONRQ
			return s
		}
		return bad("C14")
	}
	return bad("C14")
}

// isSignon: what is written is the document's sign-on message, found valid
// for the document's version.
func (d *doc) isSignon(it encItem, f *eng.Facts) bool {
	i := fieldIndex(d.m.rt, "Signon")
	if i < 0 {
		return false
	}
	T := d.m.rt.Underlying().(*types.Struct).Field(i).Type()
	addr := eng.FieldAddr(d.m.recv, i, types.NewPointer(T))
	arg := unwrap(it.arg)
	if arg != addr && it.ev.St.Content(arg) != it.ev.St.Content(addr) && it.ev.St.Load(addr, T) != arg {
		d.fail("C14", "what is written in the sign-on set is %s", arg)
		return true
	}
	if it.kind == "elem" {
		tag := xmlNameOf(T)
		if t := f.ConstOf(it.name); t == nil || t.String() != eng.Str(tag).String() {
			d.fail("C14", "the sign-on message is written as %s", it.name)
		}
	}
	// validated before
	ok := false
	for _, e := range it.ev.St.Events(nil) {
		if e.Kind != "call" || !isSignonValid(e.Callee) {
			continue
		}
		r := e.Args[0]
		if !(r == addr || e.St.Load(addr, T) == r) {
			continue
		}
		if !f.Holds(eng.VerdictOk(e.Result), true) {
			continue
		}
		if !it.ev.St.F.Holds(eng.Eq(e.Args[1], d.m.ver), true) && e.Args[1] != d.m.ver {
			d.fail("C16 C27", "the sign-on message is validated for version %s", e.Args[1])
		}
		ok = true
	}
	if !ok {
		d.fail("C16", "the sign-on message may be written without having been found valid")
	}
	return true
}

// loop: the messages of a set are written one by one.
func (d *doc) loop(s docState, l *eng.LoopInfo, f *eng.Facts) docState {
	if s.phase != docSet {
		d.fail("C14", "messages are written %s", docPhase[s.phase])
		return s
	}
	set := d.sets[s.k]
	ms := d.slices[set.field]
	list := d.list(s.k)
	elemT := msgElem(&vm{}, ms)
	typeName := "(github.com/aclindsa/ofxgo.Message).Type"
	want, okc := constsOf(d.m.c.W, d.m.c.W.Type("messageType"))[set.field+d.m.side]
	if !okc {
		d.fail("C14", "no constant %s%s", set.field, d.m.side)
	}
	right := func(bf *eng.Facts, v *eng.Term) bool {
		return bf.Holds(eng.Eq(eng.PureCall(typeName, []*eng.Term{v}, d.m.c.W.Type("messageType")), eng.Int(want)), true)
	}
	valid := func(bf *eng.Facts, v *eng.Term) (found, ver bool) {
		bf.Truths(func(t *eng.Term, pol bool) {
			if !pol || t.K != eng.KExtract || !eng.IsVerdict(t.Args[0]) {
				return
			}
			call := t.Args[0]
			if len(call.Args) == 2 && call.Args[0] == v && t == eng.VerdictOk(call) {
				found = true
				if call.Args[1] == d.m.ver || bf.Holds(eng.Eq(call.Args[1], d.m.ver), true) {
					ver = true
				}
			}
		})
		return
	}
	fx, ok := f, false
	var why string
	ok, why = loopCovers(l, fx, list, func(st *eng.State, bf *eng.Facts, ea *eng.Term) bool {
		v := emptyState().Load(ea, elemT)
		n := 0
		for _, e := range flatten(backEvents(l, st)) {
			if !isEncoderCall(e) {
				continue
			}
			it := encItemOf(e)
			if it.kind == "flush" {
				continue
			}
			if bf.IsNil(it.res) != 1 {
				d.fail("C16", "an error writing a message of %s is not heeded", set.tag)
			}
			if !(it.kind == "enc" || it.kind == "elem") || unwrap(it.arg) != v {
				return false
			}
			if it.kind == "elem" && it.name != eng.PureCall("(github.com/aclindsa/ofxgo.Message).Name", []*eng.Term{v}, strT) {
				return false
			}
			n++
		}
		return n == 1
	}, elemT)
	if !ok {
		if why == "" {
			why = "the loop does not go through all of them in order"
		} else {
			why = "an iteration does not write its message exactly once"
		}
		d.fail("C16", "the messages of %s: %s", set.tag, why)
	}
	// in ascending order
	asc := false
	for _, ind := range l.Ind {
		asc = asc || ind.Step == 1
	}
	if !asc {
		d.fail("C14", "the messages of %s are not written in order", set.tag)
	}
	// type and verdict: in this loop or in one before
	check := func(p func(bf *eng.Facts, v *eng.Term) bool) bool {
		for _, x := range append(append([]*eng.LoopInfo{l}, s.loops...), d.all...) {
			if ok, _ := loopCovers(x, f, list, func(st *eng.State, bf *eng.Facts, ea *eng.Term) bool {
				return p(bf, emptyState().Load(ea, elemT))
			}, elemT); ok {
				return true
			}
		}
		return false
	}
	if !check(right) {
		d.fail("C16", "a message of another set may be written in %s", set.tag)
	}
	if !check(func(bf *eng.Facts, v *eng.Term) bool { f, _ := valid(bf, v); return f }) {
		d.fail("C16", "a message of %s may be written without having been found valid", set.tag)
	} else if !check(func(bf *eng.Facts, v *eng.Term) bool { _, ok := valid(bf, v); return ok }) {
		d.fail("C16 C27", "a message of %s may be validated for another version than the document's", set.tag)
	}
	s.phase = docMsgs
	return s
}

// backEvents are the events of the iteration that ended in st.
func backEvents(l *eng.LoopInfo, st *eng.State) []*eng.Event {
	for _, b := range l.Backs {
		if b.St == st {
			return b.St.Events(b.From)
		}
	}
	return nil
}

// document checks the successful paths of a Marshal method; want selects the
// property complaints are kept for.
func (c *C) document(typ string, want string) {
	p := ""
	c.marshalRuns(typ, false, func(m *mrun) {
		p = c.W.Pos(m.f.Pos())
		signon, sets := setsOf(m.side)
		slices := map[string]msgSlice{}
		for _, s := range messageSlices(m.rt) {
			slices[s.name] = s
		}
		for _, s := range sets {
			if _, ok := slices[s.field]; !ok {
				c.Fail("anchor", typ+"."+s.field, "", "message list not found")
				return
			}
		}
		con := fmt.Sprintf("%s version %s", m.fn, m.text)
		n := 0
		for i := range m.outs {
			o := &m.outs[i]
			if o.Kind == "panic" || o.Kind == "ret" && fails(o) {
				if want == "C16" && o.Kind == "ret" {
					c.refusal(m, o, con)
				}
				continue
			}
			pos := c.W.InstrPos(o.Site)
			if !succeeds(o) {
				if want == "C16" {
					c.Fail("an error or a document", con, pos, "ends by %s with %v", o.Kind, o.Res)
				}
				continue
			}
			n++
			d := &doc{m: m, o: o, sets: sets, signon: signon, slices: slices}
			end := d.walk(o.St.Events(nil), []docState{{}}, o.St.F, true)
			for _, s := range end {
				if s.phase < docEnd {
					d.fail("C16", "the document ends %s", docPhase[s.phase])
				} else if s.phase < docFlush {
					d.fail("C16", "the document is not flushed")
				}
			}
			if !d.encodesTo(unwrap(o.Res[0])) {
				d.fail("C16", "the buffer returned is not the one the encoder writes to")
			}
			d.disturb(want)
			var mine []string
			for _, b := range d.bad {
				if w, msg, _ := strings.Cut(b, "\x00"); strings.Contains(w, want) {
					mine = append(mine, msg)
				}
			}
			sort.Strings(mine)
			rule := map[string]string{"C14": "sign-on first, then each set under its tag, in order", "C16": "only valid messages, each once, in a complete document", "C27": "validated for the document's version", "C12": "encoder set up before writing"}[want]
			c.Check(len(mine) == 0, rule, con, pos, "%s", strings.Join(uniq(mine), "; "))
		}
		c.Check(n > 0, "a document can be written", con, p, "no path succeeds")
	})
}

func (d *doc) encodesTo(buf *eng.Term) bool {
	for _, e := range flatten(d.o.St.Events(nil)) {
		if e.Kind == "call" && strings.HasSuffix(e.Callee, "xml.NewEncoder") && e.Result == d.enc {
			return unwrap(e.Args[0]) == buf
		}
	}
	return false
}

func uniq(s []string) (out []string) {
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			out = append(out, x)
		}
	}
	if len(out) > 4 {
		out = append(out[:4], "...")
	}
	return
}

// disturb: once encoding began nothing else writes to the buffer.
func (d *doc) disturb(want string) {
	buf := unwrap(d.o.Res[0])
	began := false
	for _, e := range flatten(d.o.St.Events(nil)) {
		if isEncoderCall(e) && encItemOf(e).kind != "conf" {
			began = true
		}
		if !began || e.Kind != "call" || isEncoderCall(e) {
			continue
		}
		for _, a := range e.Args {
			if unwrap(a) == buf && !eng.IsPure(e.Callee) {
				d.fail("C16", "%s changes the buffer while the document is written", e.Callee)
			}
		}
	}
}

// refusal: a document is refused for a reason.
func (c *C) refusal(m *mrun, o *eng.Outcome, con string) {
	ok := false
	var look func(f *eng.Facts, evs []*eng.Event)
	look = func(f *eng.Facts, evs []*eng.Event) {
		for _, e := range flatten(evs) {
			if isEncoderCall(e) && e.Result != nil && f.IsNil(e.Result) == -1 {
				ok = true
			}
			if e.Kind == "call" && isSignonValid(e.Callee) && f.Holds(eng.VerdictOk(e.Result), false) {
				ok = true
			}
			if e.Kind == "call" && strings.Contains(e.Callee, "bytes.Buffer).Write") {
				if e.Result != nil && e.Result.Typ != nil {
					if tp, isT := e.Result.Typ.(*types.Tuple); isT && tp.Len() == 2 && f.IsNil(eng.Extract(e.Result, 1, tp.At(1).Type())) == -1 {
						ok = true
					} else if !isT && f.IsNil(e.Result) == -1 {
						ok = true
					}
				}
			}
		}
	}
	look(o.St.F, o.St.Events(nil))
	o.St.F.Truths(func(t *eng.Term, v bool) {
		if v {
			return
		}
		if t.K == eng.KExtract && eng.IsVerdict(t.Args[0]) && strings.HasSuffix(t.Args[0].CalleeName(), "Message).Valid") {
			ok = true
		}
		eng.Walk(t, func(x *eng.Term) bool {
			if x.K == eng.KCall && strings.HasSuffix(x.CalleeName(), "Message).Type") {
				ok = true
			}
			return true
		})
	})
	if !ok {
		// the kind of a message is known to be another one
		o.St.F.EqConsts(func(t, k *eng.Term) {
			if t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "Message).Type") {
				ok = true
			}
		})
	}
	c.Check(ok, "refused only for a reason", con, c.W.InstrPos(o.Site), "refused without an invalid or misplaced message or a failure to write; path: %s", o.St.F.Path())
}

// ---- C12 ----

var piRe = regexp.MustCompile(`^<\?(\w+)((?:\s+\w+="[^"]*")*)\s*\?>$`)
var attrRe = regexp.MustCompile(`(\w+)="([^"]*)"`)

// syntax: C12.
func (c *C) syntax(typ string) {
	v160, ok1 := constsOf(c.W, c.W.Type("ofxVersion"))["OfxVersion160"]
	if !ok1 {
		c.Fail("anchor", "OfxVersion160", "", "not found")
		return
	}
	c.marshalRuns(typ, true, func(m *mrun) {
		con := fmt.Sprintf("%s version %s", m.fn, m.text)
		if m.version == 0 {
			con = m.fn + " unknown version"
		}
		if m.cr > 0 {
			con += " CRLF"
		}
		n := 0
		for i := range m.outs {
			o := &m.outs[i]
			pos := c.W.InstrPos(o.Site)
			if m.version == 0 {
				c.Check(fails(o), "an unknown version is an error", con, pos, "ends by %s with %v", o.Kind, o.Res)
				continue
			}
			if !succeeds(o) {
				continue
			}
			n++
			txt, why := c.headerText(o)
			if why == "" {
				why = headerIs(txt, m, m.version <= v160)
			}
			c.Check(why == "", "the header names the version and what a reader accepts", con, pos, "%s", why)
			c.encoderModes(m, o, con, pos, m.version <= v160)
		}
		if m.version != 0 {
			c.Check(n > 0, "a document can be written", con, "", "no path succeeds")
		}
	})
}

// headerText is the text written to the returned buffer before the encoder
// starts.
func (c *C) headerText(o *eng.Outcome) (string, string) {
	buf := unwrap(o.Res[0])
	var sb strings.Builder
	var walk func(evs []*eng.Event) string
	f := o.St.F
	done := false
	walk = func(evs []*eng.Event) string {
		for _, e := range evs {
			if done {
				return ""
			}
			switch {
			case isEncoderCall(e):
				if encItemOf(e).kind != "conf" {
					done = true
					return ""
				}
				continue
			case e.Kind == "alt":
				// alternatives have to write the same
				base := sb.String()
				res := ""
				for i, a := range e.Alts {
					sb.Reset()
					if w := walk(a.Events); w != "" {
						return w
					}
					if i > 0 && sb.String() != res {
						return "the header depends on more than version and line ending"
					}
					res = sb.String()
				}
				sb.Reset()
				sb.WriteString(base + res)
			case e.Kind == "loop":
				for _, b := range e.Loop.Backs {
					for _, x := range flatten(b.St.Events(b.From)) {
						if x.Kind == "call" && len(x.Args) > 0 && unwrap(x.Args[0]) == buf {
							return "the header is written in a loop"
						}
					}
				}
			case e.Kind == "call" && len(e.Args) > 0 && unwrap(e.Args[0]) == buf:
				s, ok := c.writtenText(e, f)
				if !ok {
					return "the text written by " + e.Callee + " is not known: " + fmt.Sprint(e.Cont)
				}
				sb.WriteString(s)
			}
		}
		return ""
	}
	if w := walk(o.St.Events(nil)); w != "" {
		return "", w
	}
	return sb.String(), ""
}

// writtenText is the constant text a call appends to its first argument.
func (c *C) writtenText(e *eng.Event, f *eng.Facts) (string, bool) {
	arg := func(i int) *eng.Term {
		if i < len(e.Cont) {
			return e.Cont[i]
		}
		return eng.Str("?")
	}
	if eng.IsPure(e.Callee) || strings.HasSuffix(e.Callee, "xml.NewEncoder") {
		return "", true
	}
	switch e.Callee {
	case "(*bytes.Buffer).Grow", "bufio.NewWriter":
		return "", true
	case "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "io.WriteString", "(io.Writer).Write", "(io.StringWriter).WriteString":
		return c.constText(f, arg(1))
	case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(io.ByteWriter).WriteByte":
		t := f.ConstOf(unconv(arg(1)))
		if t == nil {
			return "", false
		}
		v, ok := t.IntVal()
		return string(rune(v)), ok && v < 128
	case "fmt.Fprintf":
		ft, ok := c.constText(f, arg(1))
		if !ok {
			return "", false
		}
		as, ok := variadic(e.St, e.Args[2])
		if !ok {
			return "", false
		}
		return c.formatConst(f, ft, as)
	case "fmt.Fprint", "fmt.Fprintln":
		as, ok := variadic(e.St, e.Args[1])
		if !ok {
			return "", false
		}
		s := ""
		for i, a := range as {
			x, ok := c.constText(f, unwrap(a))
			if !ok || i > 0 && e.Callee == "fmt.Fprint" {
				return "", false
			}
			if i > 0 {
				s += " "
			}
			s += x
		}
		if e.Callee == "fmt.Fprintln" {
			s += "\n"
		}
		return s, true
	}
	return "", false
}

// variadic lists the elements of a variadic argument.
func variadic(st *eng.State, t *eng.Term) ([]*eng.Term, bool) {
	v := st.Content(t)
	switch v.K {
	case eng.KNil:
		return nil, true
	case eng.KList:
		return v.Args, true
	}
	return nil, false
}

// stringOf is what the String method of an enumeration gives for a value.
func (c *C) stringOf(T types.Type, v int64) (string, bool) {
	n, ok := T.(*types.Named)
	if !ok || c.W.LibFunc(n.Obj().Name()+".String") == nil {
		return "", false
	}
	return constStr(c.constCall(n.Obj().Name()+".String", eng.Int(v)))
}

func (c *C) formatConst(f *eng.Facts, ft string, as []*eng.Term) (string, bool) {
	s, k := "", 0
	for i := 0; i < len(ft); i++ {
		if ft[i] != '%' {
			s += string(ft[i])
			continue
		}
		i++
		if i >= len(ft) {
			return "", false
		}
		if ft[i] == '%' {
			s += "%"
			continue
		}
		if k >= len(as) {
			return "", false
		}
		a := as[k]
		k++
		switch ft[i] {
		case 's', 'v':
			if x, ok := c.constText(f, unwrap(a)); ok {
				s += x
				continue
			}
			if t := f.ConstOf(unwrap(a)); t != nil && a.K == eng.KIface {
				if n, ok := t.IntVal(); ok {
					if x, ok := c.stringOf(a.Typ2, n); ok {
						s += x
						continue
					}
				}
			}
			if t := f.ConstOf(unwrap(a)); t != nil && ft[i] == 'v' {
				if n, ok := t.IntVal(); ok {
					s += itoa(n)
					continue
				}
			}
			return "", false
		case 'q':
			x, ok := c.constText(f, unwrap(a))
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%q", x)
		case 'd':
			t := f.ConstOf(unwrap(a))
			if t == nil {
				return "", false
			}
			n, ok := t.IntVal()
			if !ok {
				return "", false
			}
			s += itoa(n)
		default:
			return "", false
		}
	}
	return s, k == len(as)
}

// constText evaluates a text that the facts fix.
func (c *C) constText(f *eng.Facts, t *eng.Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if k := f.ConstOf(t); k != nil {
		if s, ok := k.StrVal(); ok {
			return s, true
		}
	}
	switch t.K {
	case eng.KConst:
		return t.StrVal()
	case eng.KConv:
		return c.constText(f, t.Args[0])
	case eng.KBin:
		if t.Op.String() == "+" && len(t.Args) == 2 {
			a, ok := c.constText(f, t.Args[0])
			if !ok {
				return "", false
			}
			b, ok := c.constText(f, t.Args[1])
			return a + b, ok
		}
	case eng.KElemOf:
		l := t.Args[0]
		if l.K == eng.KList {
			lo, hi := f.Range(t.Args[1])
			if lo == hi && lo >= 0 && int(lo) < len(l.Args) {
				return c.constText(f, l.Args[lo])
			}
		}
	case eng.KCall:
		var as []string
		for _, a := range t.Args {
			s, ok := c.constText(f, a)
			if !ok {
				break
			}
			as = append(as, s)
		}
		switch t.CalleeName() {
		case "strings.Replace":
			if len(as) >= 3 && len(t.Args) == 4 {
				if n := f.ConstOf(t.Args[3]); n != nil {
					if v, ok := n.IntVal(); ok {
						return strings.Replace(as[0], as[1], as[2], int(v)), true
					}
				}
			}
		case "strings.ReplaceAll":
			if len(as) == 3 {
				return strings.ReplaceAll(as[0], as[1], as[2]), true
			}
		case "strings.TrimSpace":
			if len(as) == 1 {
				return strings.TrimSpace(as[0]), true
			}
		case "strings.ToUpper":
			if len(as) == 1 {
				return strings.ToUpper(as[0]), true
			}
		case "strings.Join":
			if len(t.Args) == 2 && t.Args[0].K == eng.KList {
				sep, ok := c.constText(f, t.Args[1])
				var ps []string
				for _, a := range t.Args[0].Args {
					s, ok2 := c.constText(f, a)
					ok = ok && ok2
					ps = append(ps, s)
				}
				return strings.Join(ps, sep), ok
			}
		case "fmt.Sprintf":
			if len(t.Args) == 2 && len(as) > 0 {
				l := t.Args[1]
				if l.K == eng.KNil {
					return c.formatConst(f, as[0], nil)
				}
				if l.K == eng.KList {
					return c.formatConst(f, as[0], l.Args)
				}
			}
		}
	}
	return "", false
}

// headerIs compares a header with what the specification asks for.
func headerIs(txt string, m *mrun, sgml bool) string {
	nl := "\n"
	if m.cr > 0 {
		nl = "\r\n"
	}
	if strings.Count(txt, "\r") != strings.Count(txt, "\r\n") || (m.cr > 0) != (strings.Contains(txt, "\r")) || m.cr > 0 && strings.Count(txt, "\n") != strings.Count(txt, "\r\n") {
		return fmt.Sprintf("line endings are not %q throughout: %q", nl, txt)
	}
	lines := strings.Split(txt, nl)
	if sgml {
		if len(lines) < len(sgmlFields)+2 {
			return fmt.Sprintf("header has too few lines: %q", txt)
		}
		for i, f := range sgmlFields {
			k, v, ok := strings.Cut(lines[i], ":")
			if !ok || k != f {
				return fmt.Sprintf("line %d of the header is %q, not %s", i+1, lines[i], f)
			}
			if f == "VERSION" {
				if v != m.text {
					return "the header names version " + v
				}
				continue
			}
			if vals := sgmlValues[f]; vals != nil && !contains(vals, v) {
				return fmt.Sprintf("%s is %q", f, v)
			}
			if !regexp.MustCompile(`^[A-Za-z0-9_-]+$`).MatchString(v) {
				return fmt.Sprintf("%s is %q", f, v)
			}
		}
		for _, l := range lines[len(sgmlFields):] {
			if l != "" {
				return fmt.Sprintf("unexpected header line %q", l)
			}
		}
		return ""
	}
	if len(lines) < 2 {
		return fmt.Sprintf("header has too few lines: %q", txt)
	}
	for i, want := range []string{"xml", "OFX"} {
		p := piRe.FindStringSubmatch(lines[i])
		if p == nil || p[1] != want {
			return fmt.Sprintf("line %d of the header is %q, not the %s processing instruction", i+1, lines[i], want)
		}
		at := map[string]string{}
		for _, a := range attrRe.FindAllStringSubmatch(p[2], -1) {
			if _, dup := at[a[1]]; dup {
				return a[1] + " is given twice"
			}
			at[a[1]] = a[2]
		}
		if want == "xml" {
			if at["version"] != "1.0" || at["encoding"] != "" && !strings.EqualFold(at["encoding"], "UTF-8") {
				return fmt.Sprintf("xml processing instruction is %q", lines[i])
			}
			continue
		}
		for k, v := range map[string]string{"OFXHEADER": "200", "VERSION": m.text, "SECURITY": "NONE"} {
			if at[k] != v {
				return fmt.Sprintf("%s is %q, not %q", k, at[k], v)
			}
		}
		for k := range at {
			switch k {
			case "OFXHEADER", "VERSION", "SECURITY", "OLDFILEUID", "NEWFILEUID":
			default:
				return "unexpected header field " + k
			}
		}
		if at["OLDFILEUID"] == "" || at["NEWFILEUID"] == "" {
			return "OLDFILEUID or NEWFILEUID is missing"
		}
	}
	for _, l := range lines[2:] {
		if l != "" {
			return fmt.Sprintf("unexpected header line %q", l)
		}
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// encoderModes: closing tags and line endings.
func (c *C) encoderModes(m *mrun, o *eng.Outcome, con, pos string, sgml bool) {
	noClose, cr := false, false
	why := ""
	var enc *eng.Term
	for _, e := range flatten(o.St.Events(nil)) {
		if !isEncoderCall(e) {
			continue
		}
		if enc == nil {
			enc = e.Args[0]
		}
		switch strings.TrimPrefix(e.Callee, encoderPfx) {
		case "SetDisableAutoClose":
			l := e.Cont[1]
			if l.K == eng.KSlice || l.K != eng.KList {
				l = e.St.Content(e.Args[1])
			}
			if l.K != eng.KList {
				why = "the list of elements without closing tag is " + l.String()
				break
			}
			noClose = len(l.Args) > 0
			got := map[string]bool{}
			for _, a := range l.Args {
				s, _ := a.StrVal()
				got[s] = true
			}
			leaves := c.frozenStrings("ofxLeafElements")
			for _, w := range leaves {
				if !got[w] && len(l.Args) > 0 {
					why = "leaf element " + w + " keeps its closing tag"
				}
			}
			for s := range got {
				if !contains(leaves, s) {
					why = "element " + s + " loses its closing tag"
				}
			}
		case "CarriageReturn":
			v := o.St.F.Eval(e.Args[1])
			if v == 0 {
				why = "carriage returns depend on " + e.Args[1].String()
			}
			cr = v == 1
		}
	}
	c.Check(why == "", "encoder modes known", con, pos, "%s", why)
	want := sgml && m.typ == "Request"
	c.Check(noClose == want, "closing tags of leaf elements are left out in requests below version 200 only", con, pos, "left out: %v", noClose)
	c.Check(cr == (m.cr > 0), "lines end in CRLF exactly when asked for", con, pos, "the encoder is set to carriage returns: %v", cr)
}

func init() {
	reg("C12", 80, "Marshal of Request and Response is analysed once for each version and carriage-return setting; everything written to the buffer is laid out in order, and the header text, each of its fields, the line endings and the encoder's closing-tag and carriage-return modes must be those of the version. An unknown version must end in an error. DecodeResponse must make the decoder strict exactly for XML headers.", func(c *C) {
		c.syntax("Request")
		c.syntax("Response")
		c.document("Request", "C12")
		c.document("Response", "C12")
		c.readerModes()
	})
	reg("C16", 40, "On every path of Marshal that returns a document, each message encoded has been found valid for the version being written and its Type compared with the set it is written in, the sign-on too; every element started is ended, every message of a slice is encoded once in order, and the encoder is flushed with its error checked. Every other path must return an error.", func(c *C) {
		c.document("Request", "C16")
		c.document("Response", "C16")
	})
}

func (c *C) marshalVersions() {
	c.document("Request", "C27")
	c.document("Response", "C27")
}

// readerModes: the decoder is lenient about unclosed leaf elements when the
// document has SGML headers and strict otherwise.
func (c *C) readerModes() {
	outs, _, f := c.decodeResponse(nil)
	if f == nil {
		return
	}
	leaves := c.frozenStrings("ofxLeafElements")
	n := map[string]int{}
	for i := range outs {
		o := &outs[i]
		kind := "XML"
		if readsSGML(o) {
			kind = "SGML"
		}
		var e *eng.Event
		for _, x := range flatten(o.St.Events(nil)) {
			if x.Kind == "loop" {
				for _, b := range x.Loop.Backs {
					for _, y := range flatten(b.St.Events(b.From)) {
						if e == nil && isDecoderCall(y) {
							e = y
						}
					}
				}
			}
			if e == nil && isDecoderCall(x) {
				e = x
			}
			if e != nil {
				break
			}
		}
		if e == nil {
			continue
		}
		n[kind]++
		pos := c.W.InstrPos(e.Site)
		T := e.Args[0].Typ.Underlying().(*types.Pointer).Elem()
		strict := c.fieldTerm(e.St, e.Args[0], T, "Strict")
		auto := e.St.Content(c.fieldTerm(e.St, e.Args[0], T, "AutoCloseAfterCharData"))
		unset := func(t *eng.Term) bool { return isInitPart(t) || t.K == eng.KNil }
		if kind == "SGML" {
			c.Check(e.St.F.Eval(strict) == -1, "SGML is read leniently", "DecodeResponse "+kind, pos, "Strict is %s", strict)
			got := map[string]bool{}
			if auto.K == eng.KList {
				for _, a := range auto.Args {
					s, _ := a.StrVal()
					got[s] = true
				}
			}
			ok := len(got) == len(leaves)
			for _, l := range leaves {
				ok = ok && got[l]
			}
			c.Check(ok, "unclosed leaf elements are closed in SGML", "DecodeResponse "+kind, pos, "the elements closed after their text are not the leaf elements: %s", auto)
		} else {
			c.Check(strict.K != eng.KConst && isInitPart(strict) || e.St.F.Eval(strict) == 1, "XML is read strictly", "DecodeResponse "+kind, pos, "Strict is %s", strict)
			c.Check(unset(auto), "no element is closed early in XML", "DecodeResponse "+kind, pos, "elements closed after their text: %s", auto)
		}
	}
	c.Check(n["SGML"] > 0 && n["XML"] > 0, "both kinds are read", "DecodeResponse", c.W.Pos(f.Pos()), "paths: %v", n)
}
