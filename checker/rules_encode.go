package main

import (
	"go/token"
	"go/types"
	"strings"

	"ofxcheck/eng"
)

// ---- C18: writing polymorphic lists ----

// tags of the lists themselves, and whether the field they are in gives the
// start element this name too
var listTags = map[string]struct {
	tag   string
	field bool
}{
	"InvTranList":    {"INVTRANLIST", true},
	"PositionList":   {"INVPOSLIST", true},
	"OOList":         {"INVOOLIST", true},
	"SecurityList":   {"SECLIST", false},
	"MessageSetList": {"MSGSETLIST", true},
}

func (c *C) listEncode() {
	for _, s := range listSpecs {
		c.listEncodeOne(s)
		c.entryMethods(s)
	}
	c.msgSetListEncode()
}

// recvList is the term of a list: the receiver's field or the receiver.
func (c *C) recvList(recv *eng.Term, rt types.Type, field string) (*eng.Term, types.Type) {
	if field != "" {
		i := fieldIndex(rt, field)
		if i < 0 {
			return nil, nil
		}
		t := rt.Underlying().(*types.Struct).Field(i).Type()
		if _, ptr := recv.Typ.Underlying().(*types.Pointer); ptr {
			return emptyState().Load(eng.FieldAddr(recv, i, types.NewPointer(t)), t), t
		}
		return eng.FieldOf(recv, i, t), t
	}
	if _, ptr := recv.Typ.Underlying().(*types.Pointer); ptr {
		return emptyState().Load(recv, rt), rt
	}
	return recv, rt
}

func (c *C) startLocal(p *eng.Term) *eng.Term {
	st := p.Typ.Underlying().(*types.Struct)
	nm := eng.FieldOf(p, 0, st.Field(0).Type())
	ns := st.Field(0).Type().Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		if ns.Field(i).Name() == "Local" {
			return eng.FieldOf(nm, i, strT)
		}
	}
	return nil
}

// stringMethod is the interface's method without parameters that gives a
// string, recordMethod the one that gives a struct.
func (c *C) ifaceMethods(iface string) (name, rec *types.Func) {
	it := c.W.Type(iface)
	if it == nil {
		return
	}
	I := it.Underlying().(*types.Interface)
	for i := 0; i < I.NumMethods(); i++ {
		m := I.Method(i)
		sg := m.Type().(*types.Signature)
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			continue
		}
		switch sg.Results().At(0).Type().Underlying().(type) {
		case *types.Basic:
			name = m
		case *types.Struct:
			rec = m
		}
	}
	return
}

type encList struct {
	list *eng.Term
	elem types.Type
	kids map[string]types.Type // by tag
	poly bool
	typ  string // name of the method giving the tag
}

func (c *C) listEncodeOne(s listSpec) {
	con := s.recv + ".MarshalXML"
	outs, ps, f := c.listRun(con)
	rt := c.W.Type(s.recv)
	if f == nil || rt == nil || len(ps) < 3 {
		return
	}
	nm, _ := c.ifaceMethods(s.iface)
	if nm == nil {
		c.Fail("anchor", s.iface, "", "no method giving the name of an entry")
		return
	}
	var lists []*encList
	kids := map[string]types.Type{}
	for tag, n := range c.implementers(s.iface) {
		kids[tag] = n
	}
	l, lt := c.recvList(ps[0], rt, s.field)
	if l == nil {
		c.Fail("anchor", s.recv+"."+s.field, "", "field not found")
		return
	}
	lists = append(lists, &encList{l, lt.Underlying().(*types.Slice).Elem(), kids, true, "(github.com/aclindsa/ofxgo." + s.iface + ")." + nm.Name()})
	for tag, e := range s.extra {
		t := c.W.Type(e[0])
		l, _ := c.recvList(ps[0], rt, e[1])
		if t == nil || l == nil {
			c.Fail("anchor", s.recv+"."+e[1], "", "field not found")
			return
		}
		lists = append(lists, &encList{list: l, elem: t, kids: map[string]types.Type{tag: t}})
	}
	single := map[string]*eng.Term{}
	for tag, fld := range s.single {
		t, _ := c.recvList(ps[0], rt, fld)
		if t == nil {
			c.Fail("anchor", s.recv+"."+fld, "", "field not found")
			return
		}
		single[tag] = t
	}
	own := listTags[s.recv]
	start := c.startLocal(ps[2])
	isOwn := func(fc *eng.Facts, t *eng.Term) bool {
		return fc.Holds(eng.Eq(t, eng.Str(own.tag)), true) || own.field && t == start
	}
	n := 0
	seen := map[string]bool{}
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		if o.Kind != "ret" {
			c.Fail("returns", con, pos, "ends by %s", o.Kind)
			continue
		}
		for pol, fs := range nilPols(o.St.F, o.Res[0]) {
			for _, g := range fs {
				if !pol {
					c.encRefusal(con, o, g, kids)
					continue
				}
				n++
				why := ""
				fail := func(w string) {
					if why == "" {
						why = w
					}
				}
				phase := 0 // 0 before, 1 dates, 2 entries, 3 after
				dates := 0
				done := map[*encList]bool{}
				for _, e := range flatten(o.St.Events(nil)) {
					switch {
					case e.Kind == "loop":
						if !encodes(e.Loop) {
							continue
						}
						if phase != 1 && phase != 2 || dates < len(single) {
							fail("entries are written outside the list or before its dates")
						}
						phase = 2
						hit := false
						for _, el := range lists {
							if w, ok := c.encRounds(el, e.Loop, g, seen); ok {
								hit = true
								if w != "" {
									fail(w)
								}
								if done[el] {
									fail("a list is written twice")
								}
								done[el] = true
							}
						}
						if !hit {
							fail("a loop writes entries but does not go through one of the lists in order")
						}
					case isEncoderCall(e):
						it := encItemOf(e)
						if it.kind == "flush" || it.kind == "conf" {
							continue
						}
						if g.IsNil(it.res) != 1 {
							fail("an error of " + strings.TrimPrefix(e.Callee, encoderPfx) + " is not heeded")
						}
						switch {
						case it.kind == "open" && phase == 0 && isOwn(g, it.name):
							phase = 1
						case it.kind == "close" && (phase == 1 || phase == 2) && isOwn(g, it.name):
							if dates < len(single) {
								fail("the dates are not written")
							}
							phase = 3
						case it.kind == "elem" && phase == 1:
							ok := false
							for tag, v := range single {
								// DTSTART comes before DTEND
								if g.Holds(eng.Eq(it.name, eng.Str(tag)), true) && unwrap(it.cont) == e.St.Content(v) && (tag == "DTSTART") == (dates == 0) {
									ok = true
								}
							}
							if !ok {
								fail("an element " + it.name.String() + " with " + it.cont.String() + " is written")
							}
							dates++
						default:
							fail("an element is written out of place: " + it.kind)
						}
					}
				}
				for _, el := range lists {
					if !done[el] && g.LE(eng.LenOf(el.list), eng.Int(0), 0) != 1 {
						fail("the entries of " + el.list.String() + " may not be written")
					}
				}
				if phase != 3 {
					fail("the list is not closed")
				}
				c.Check(why == "", "every entry once, in order, between the list's tags", con, pos, "%s", why)
			}
		}
	}
	c.Check(n > 0, "a list can be written", con, c.W.Pos(f.Pos()), "no path succeeds")
	for _, el := range lists {
		for tag := range el.kids {
			c.Check(seen[tag], "every type of entry can be written", con+" "+tag, c.W.Pos(f.Pos()), "no path writes <%s>", tag)
		}
	}
}

func nilPols(f *eng.Facts, t *eng.Term) map[bool][]*eng.Facts {
	switch f.IsNil(t) {
	case 1:
		return map[bool][]*eng.Facts{true: {f}}
	case -1:
		return map[bool][]*eng.Facts{false: {f}}
	}
	q := eng.Eq(t, eng.Nil)
	return map[bool][]*eng.Facts{true: f.Assume(q, true), false: f.Assume(q, false)}
}

// encRounds: each round of the loop writes its entry once under its tag. ok:
// the loop goes through the list, in order.
func (c *C) encRounds(el *encList, l *eng.LoopInfo, exit *eng.Facts, seen map[string]bool) (string, bool) {
	for _, idx := range loopIndex(l, exit, el.list) {
		asc := false
		for t, in := range l.Ind {
			if ev, ok := in.Entry.IntVal(); ok && in.Step == 1 && idx == eng.Bin(token.ADD, t, eng.Int(-ev), types.Typ[types.Int]) {
				asc = true
			}
		}
		if !asc {
			continue
		}
		for _, b := range l.Backs {
			v := emptyState().Load(eng.ElemAddr(el.list, idx, types.NewPointer(el.elem)), el.elem)
			f := b.St.F
			n := 0
			for _, e := range flatten(b.St.Events(b.From)) {
				if e.Kind == "loop" && encodes(e.Loop) {
					return "a loop in a loop writes entries", true
				}
				if !isEncoderCall(e) {
					continue
				}
				it := encItemOf(e)
				if it.kind == "flush" {
					continue
				}
				if it.kind != "elem" {
					return "an entry is written as " + it.kind, true
				}
				n++
				if f.IsNil(it.res) != 1 {
					return "an error writing an entry is not heeded", true
				}
				if !el.poly {
					for tag := range el.kids {
						if !f.Holds(eng.Eq(it.name, eng.Str(tag)), true) {
							return "an entry is written as " + it.name.String(), true
						}
						if unwrap(it.cont) != e.St.Content(v) && unwrap(it.cont) != v {
							return "what is written is " + it.cont.String(), true
						}
						seen[tag] = true
					}
					continue
				}
				hit := ""
				for tag, T := range el.kids {
					if f.Eval(eng.Is(v, T)) == 1 {
						hit = tag
					}
				}
				if hit == "" {
					return "an entry of an unknown type may be written; path: " + f.Path(), true
				}
				a := eng.Assert(v, el.kids[hit])
				if x := unwrap(it.cont); x != v && x != a && x != e.St.Content(a) && unwrap(it.arg) != v {
					return "what is written for an entry is " + x.String(), true
				}
				if it.name != eng.PureCall(el.typ, []*eng.Term{v}, strT) && !f.Holds(eng.Eq(it.name, eng.Str(hit)), true) {
					return "an entry of type " + el.kids[hit].(*types.Named).Obj().Name() + " is written as " + it.name.String(), true
				}
				seen[hit] = true
			}
			if n != 1 {
				return "an entry is written " + itoa(int64(n)) + " times; path: " + f.Path(), true
			}
		}
		return "", true
	}
	return "", false
}

// encRefusal: writing fails because the encoder failed or an entry's type is
// unknown.
func (c *C) encRefusal(con string, o *eng.Outcome, f *eng.Facts, kids map[string]types.Type) {
	ok := false
	for _, e := range flatten(o.St.Events(nil)) {
		if isEncoderCall(e) && e.Result != nil && f.IsNil(e.Result) == -1 {
			ok = true
		}
	}
	subj := map[*eng.Term]bool{}
	f.Truths(func(t *eng.Term, v bool) {
		if !v {
			eng.Walk(t, func(x *eng.Term) bool {
				if x.Typ != nil && types.IsInterface(x.Typ) {
					subj[x] = true
				}
				return true
			})
		}
	})
	for _, x := range eng.SortedTerms(subj) {
		all := true
		for _, T := range kids {
			all = all && f.Eval(eng.Is(x, T)) == -1
		}
		ok = ok || all
	}
	c.Check(ok, "only an unknown type or a failing writer stops a list", con, c.W.InstrPos(o.Site), "fails on path: %s", f.Path())
}

// entryMethods: the name an entry reports is its tag, the record it reports
// the one it contains.
func (c *C) entryMethods(s listSpec) {
	nm, rec := c.ifaceMethods(s.iface)
	if nm == nil {
		return
	}
	for _, tag := range sortedKeys(c.implementers(s.iface)) {
		n := c.implementers(s.iface)[tag]
		name := n.Obj().Name()
		if f := c.Lib(name + "." + nm.Name()); f != nil {
			got, ok := constStr(c.constCall(name+"."+nm.Name(), eng.Param("entry", n)))
			c.Check(ok && got == tag, "the type name is the tag", name+"."+nm.Name(), c.W.Pos(f.Pos()), "reports %q, its tag is %q", got, tag)
		}
		if rec == nil {
			continue
		}
		f := c.Lib(name + "." + rec.Name())
		if f == nil {
			continue
		}
		want := rec.Type().(*types.Signature).Results().At(0).Type()
		e := eng.Param("entry", n)
		at := findPart(e, n, want)
		got := c.constCall(name+"."+rec.Name(), e)
		if len(at) != 1 {
			c.Fail("one generic record", name, c.W.Pos(f.Pos()), "contains %d records of type %s", len(at), want)
			continue
		}
		ok := len(got) == 1 && (got[0] == at[0] || emptyState().Content(got[0]) == emptyState().Content(at[0]))
		c.Check(ok, "the generic record is the one contained", name+"."+rec.Name(), c.W.Pos(f.Pos()), "reports %v, not %s", got, at[0])
	}
}

// findPart finds the parts of a struct value that have the given type.
func findPart(v *eng.Term, t, want types.Type) (out []*eng.Term) {
	if types.Identical(t, want) {
		return []*eng.Term{v}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "ofxgo")) {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		out = append(out, findPart(eng.FieldOf(v, i, ft), ft, want)...)
	}
	return
}

// msgSetListEncode: <MSGSETLIST> with <xxxMSGSET><xxxMSGSETV1>..</></> for
// each set.
func (c *C) msgSetListEncode() {
	const con = "MessageSetList.MarshalXML"
	outs, ps, f := c.listRun(con)
	rt := c.W.Type("MessageSetList")
	et := c.W.Type("MessageSet")
	if f == nil || rt == nil || et == nil || len(ps) < 3 {
		return
	}
	list, _ := c.recvList(ps[0], rt, "")
	start := c.startLocal(ps[2])
	isOwn := func(g *eng.Facts, t *eng.Term) bool {
		return g.Holds(eng.Eq(t, eng.Str("MSGSETLIST")), true) || t == start
	}
	ni := fieldIndex(et, "Name")
	if ni < 0 {
		c.Fail("anchor", "MessageSet.Name", "", "field not found")
		return
	}
	nt := et.Underlying().(*types.Struct).Field(ni).Type()
	suffix := eng.Str("V1")
	n := 0
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		if o.Kind != "ret" {
			c.Fail("returns", con, pos, "ends by %s", o.Kind)
			continue
		}
		for pol, fs := range nilPols(o.St.F, o.Res[0]) {
			for _, g := range fs {
				if !pol {
					ok := false
					for _, e := range flatten(o.St.Events(nil)) {
						if isEncoderCall(e) && e.Result != nil && g.IsNil(e.Result) == -1 {
							ok = true
						}
					}
					g.Truths(func(t *eng.Term, v bool) {
						if !v && (isCall(t, "strings.HasSuffix") || t.K == eng.KExtract && isCall(t.Args[0], "strings.CutSuffix")) {
							ok = true
						}
					})
					// a name too short to have it
					for _, e := range flatten(o.St.Events(nil)) {
						if e.Kind != "loop" {
							continue
						}
						for t, ind := range e.Loop.Ind {
							ev, ok1 := ind.Entry.IntVal()
							if !ok1 {
								continue
							}
							idx := eng.Bin(token.ADD, t, eng.Int(-ev), types.Typ[types.Int])
							ea := eng.ElemAddr(list, idx, types.NewPointer(et))
							name := emptyState().Load(eng.FieldAddr(ea, ni, types.NewPointer(nt)), nt)
							if g.Holds(call1("strings.HasSuffix", types.Typ[types.Bool], name, suffix), false) {
								ok = true
							}
						}
					}
					c.Check(ok, "only a name without V1 or a failing writer stops a list", con, pos, "fails on path: %s", g.Path())
					continue
				}
				n++
				why := ""
				fail := func(w string) {
					if why == "" {
						why = w
					}
				}
				phase, loops := 0, 0
				for _, e := range flatten(o.St.Events(nil)) {
					switch {
					case e.Kind == "loop" && encodes(e.Loop):
						if phase != 1 {
							fail("sets are written outside the list")
						}
						idxs := loopIndex(e.Loop, g, list)
						ok := false
						for _, idx := range idxs {
							ea := eng.ElemAddr(list, idx, types.NewPointer(et))
							v := emptyState().Load(ea, et)
							name := emptyState().Load(eng.FieldAddr(ea, ni, types.NewPointer(nt)), nt)
							ok = true
							for _, b := range e.Loop.Backs {
								if w := c.msgSetRound(b, v, name, suffix); w != "" {
									fail(w)
								}
							}
						}
						if !ok {
							fail("the loop does not go through the sets in order")
						}
						loops++
					case isEncoderCall(e):
						it := encItemOf(e)
						if it.kind == "flush" || it.kind == "conf" {
							continue
						}
						if g.IsNil(it.res) != 1 {
							fail("an error of " + strings.TrimPrefix(e.Callee, encoderPfx) + " is not heeded")
						}
						switch {
						case it.kind == "open" && phase == 0 && isOwn(g, it.name):
							phase = 1
						case it.kind == "close" && phase == 1 && isOwn(g, it.name):
							phase = 2
						default:
							fail("an element is written out of place: " + it.kind)
						}
					}
				}
				if phase != 2 {
					fail("the list is not closed")
				}
				if loops != 1 && g.LE(eng.LenOf(list), eng.Int(0), 0) != 1 {
					fail("the sets are written " + itoa(int64(loops)) + " times")
				}
				c.Check(why == "", "every entry once, in order, between the list's tags", con, pos, "%s", why)
			}
		}
	}
	c.Check(n > 0, "a list can be written", con, c.W.Pos(f.Pos()), "no path succeeds")
}

func (c *C) msgSetRound(b *eng.BackInfo, v, name, suffix *eng.Term) string {
	f := b.St.F
	phase := 0
	short := []*eng.Term{
		call1("strings.TrimSuffix", strT, name, suffix),
	}
	isShort := func(t *eng.Term) bool {
		t = deconv(t)
		for _, s := range short {
			if t == s {
				return true
			}
		}
		if t.K == eng.KExtract && isCall(t.Args[0], "strings.CutSuffix") && deconv(t.Args[0].Args[0]) == name {
			return f.Holds(eng.Extract(t.Args[0], 1, types.Typ[types.Bool]), true)
		}
		// name[:len(name)-2]
		if t.K == eng.KSlice && t.Args[0] == name {
			if t.Args[2] == eng.Bin(token.ADD, eng.LenOf(name), eng.Int(-2), types.Typ[types.Int]) {
				lo, ok := t.Args[1].IntVal()
				return ok && lo == 0
			}
		}
		return false
	}
	hasSuffix := f.Holds(call1("strings.HasSuffix", types.Typ[types.Bool], name, suffix), true)
	for _, e := range flatten(b.St.Events(b.From)) {
		if !isEncoderCall(e) {
			continue
		}
		it := encItemOf(e)
		if it.kind == "flush" {
			continue
		}
		if f.IsNil(it.res) != 1 {
			return "an error writing a set is not heeded"
		}
		if it.name != nil && it.name.K == eng.KExtract {
			hasSuffix = true // isShort checks the ok of CutSuffix
		}
		switch {
		case it.kind == "open" && phase == 0 && isShort(it.name):
			phase = 1
		case it.kind == "elem" && phase == 1:
			if deconv(it.name) != name {
				return "a set is written as " + it.name.String()
			}
			if x := unwrap(it.cont); x != v && x != e.St.Content(v) {
				return "what is written for a set is " + x.String()
			}
			phase = 2
		case it.kind == "close" && phase == 2 && isShort(it.name):
			phase = 3
		default:
			n := ""
			if it.name != nil {
				n = it.name.String()
			}
			return "a set is written out of form: " + it.kind + " " + n
		}
	}
	if phase != 3 {
		return "a set may be skipped or left open; path: " + f.Path()
	}
	if !hasSuffix {
		return "a name without V1 is written; path: " + f.Path()
	}
	return ""
}

func init() {
	reg("C18", 80, "Each MarshalXML method of a polymorphic list is analysed: its loop runs over the whole list, one round encodes the entry once under the tag of its dynamic type and every type of the repository that belongs in the list is accepted; a round that encodes nothing returns an error; the list's own element is started before and ended after, the dates written first. The type name and generic record an entry reports are evaluated.", func(c *C) { c.listEncode() })
}
