package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C20 (writers), C23, C30 ----

var strT = types.Typ[types.String]

// leafWriters: the value types with their own MarshalXML write exactly one
// element, their own, on every path.
func (c *C) leafWriters() {
	for _, tn := range []string{"Amount", "Date", "Boolean", "CurrSymbol"} {
		f := c.Lib(tn + ".MarshalXML")
		if f == nil {
			continue
		}
		outs, ps := c.Analyze(c.Run(), f, nil)
		for i := range outs {
			o := outs[i]
			pos := c.W.InstrPos(o.Site)
			ev := encodeEvents(&o)
			if !c.Check(o.Kind == "ret" && len(ev) == 1 && ev[0].Callee == encodeElement, "value writes one element", tn, pos, "%d encoder calls, ends by %s", len(ev), o.Kind) {
				continue
			}
			c.Check(ev[0].Args[0] == ps[1] && ev[0].Cont[2] == ps[2], "value writes its own element", tn, pos, "another element or encoder is used")
			c.Check(sameErr(o.St.F, o.Res[0], ev[0].Result), "writing error reported", tn, pos, "the writer's error is %s", o.Res[0])
		}
	}
}

// sameErr: res is nil exactly when err is, on this path.
func sameErr(f *eng.Facts, res, err *eng.Term) bool {
	if res == err {
		return true
	}
	switch f.IsNil(err) {
	case 1:
		return f.IsNil(res) == 1
	case -1:
		return f.IsNil(res) == -1
	}
	return false
}

// deconv drops conversions between string types.
func deconv(t *eng.Term) *eng.Term {
	for t.K == eng.KConv {
		t = t.Args[0]
	}
	return t
}

func isCall(t *eng.Term, name string) bool {
	return t.K == eng.KCall && t.CalleeName() == name
}

func call1(name string, rt types.Type, a ...*eng.Term) *eng.Term { return eng.PureCall(name, a, rt) }
func trimOf(t *eng.Term) *eng.Term                               { return call1("strings.TrimSpace", strT, t) }

// isTrimmed: t is the text `in` without surrounding white space.
func isTrimmed(t, in *eng.Term) bool {
	t = deconv(t)
	return isCall(t, "strings.TrimSpace") && deconv(t.Args[0]) == in
}

// leafRun analyses the reading of one value and sorts out the paths on which
// the element itself could not be read.
func (c *C) leafRun(tn string, each func(o *eng.Outcome, in *eng.Term, ps []*eng.Term, pos string)) {
	con := tn + ".UnmarshalXML"
	outs, ps, f := c.decodeRun(con)
	if f == nil {
		return
	}
	good := false
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		ev := decodeEvents(o)
		if !c.Check(o.Kind == "ret" && len(ev) == 1, "element read once", con, pos, "%d reads, ends by %s", len(ev), o.Kind) {
			continue
		}
		if !c.checkDecodeArgs(ev[0], ps, con, pos) {
			continue
		}
		st := o.St.F.IsNil(ev[0].Result)
		if st == -1 {
			c.Check(o.St.F.IsNil(o.Res[0]) == -1, "read error reported", con, pos, "nil error after a failed read")
			continue
		}
		if !c.Check(st == 1, "read error examined", con, pos, "the read's error is not examined") {
			continue
		}
		in := decodedText(o, ev[0])
		if !c.Check(in != nil, "element read as text", con, pos, "the element is not read as text") {
			continue
		}
		if !c.Check(o.St.F.IsNil(o.Res[0]) != 0, "verdict decided", con, pos, "the error may or may not be nil; path: %s", o.St.F.Path()) {
			continue
		}
		if o.St.F.IsNil(o.Res[0]) == 1 {
			good = true
		}
		each(o, in, ps, pos)
	}
	c.Check(good, "can succeed", con, c.W.Pos(f.Pos()), "no path accepts a text")
}

func (c *C) fieldAddrOf(base *eng.Term, t types.Type, i int) (*eng.Term, types.Type) {
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	return eng.FieldAddr(base, i, types.NewPointer(ft)), ft
}

func (c *C) leafValues() {
	c.dateWriting()
	c.zoneReading()
	c.amountWriting()
	for _, tn := range []string{"String", "UID"} {
		c.leafRun(tn, func(o *eng.Outcome, in *eng.Term, ps []*eng.Term, pos string) {
			con := tn + ".UnmarshalXML"
			c.Check(o.St.F.IsNil(o.Res[0]) == 1, "every text accepted", con, pos, "a text is rejected; path: %s", o.St.F.Path())
			got := o.St.Load(ps[0], c.W.Type(tn))
			c.Check(isTrimmed(got, in), "trimmed text stored", con, pos, "stores %s", got)
		})
	}
	c.leafRun("Int", func(o *eng.Outcome, in *eng.Term, ps []*eng.Term, pos string) {
		con := "Int.UnmarshalXML"
		p := c.convCall(o, "strconv.ParseInt", in, func(a []*eng.Term) bool {
			return len(a) == 3 && isTrimmed(a[0], in) && isInt64(a[1], 10) && isInt64(a[2], 64)
		})
		if !c.Check(p != nil, "base 10, 64 bits", con, pos, "the trimmed text is not parsed as a base-10 64-bit integer; path: %s", o.St.F.Path()) {
			return
		}
		if c.convErr(o, p, con, pos) {
			got := deconv(o.St.Load(ps[0], c.W.Type("Int")))
			c.Check(got == eng.Extract(p, 0, types.Typ[types.Int64]), "parsed number stored", con, pos, "stores %s", got)
		}
	})
	c.leafRun("CurrSymbol", func(o *eng.Outcome, in *eng.Term, ps []*eng.Term, pos string) {
		con := "CurrSymbol.UnmarshalXML"
		p := c.convCall(o, "golang.org/x/text/currency.ParseISO", in, func(a []*eng.Term) bool { return isTrimmed(a[0], in) })
		if !c.Check(p != nil, "ISO-4217 code", con, pos, "the trimmed text is not parsed as an ISO code; path: %s", o.St.F.Path()) {
			return
		}
		if c.convErr(o, p, con, pos) {
			a, ft := c.fieldAddrOf(ps[0], c.W.Type("CurrSymbol"), 0)
			got := o.St.Load(a, ft)
			c.Check(got == eng.Extract(p, 0, ft), "parsed currency stored", con, pos, "stores %s", got)
		}
	})
	c.leafRun("Boolean", func(o *eng.Outcome, in *eng.Term, ps []*eng.Term, pos string) {
		con := "Boolean.UnmarshalXML"
		f := o.St.F
		y, n := eng.Eq(trimOf(in), eng.Str("Y")), eng.Eq(trimOf(in), eng.Str("N"))
		if f.IsNil(o.Res[0]) == -1 {
			c.Check(f.Holds(y, false) && f.Holds(n, false), "Y and N accepted", con, pos, "an error although the trimmed text may be Y or N; path: %s", f.Path())
			return
		}
		got := o.St.Load(ps[0], c.W.Type("Boolean"))
		for _, pol := range []bool{true, false} {
			want := n
			if pol {
				want = y
			}
			for _, g := range f.Assume(got, pol) {
				c.Check(g.Holds(want, true), "only Y is true and only N is false", con, pos, "%v is stored although the trimmed text may be another; path: %s", pol, g.Path())
			}
		}
	})
	if f := c.Lib("Boolean.MarshalXML"); f != nil {
		outs, ps := c.Analyze(c.Run(), f, nil)
		for i := range outs {
			o := &outs[i]
			recv := ps[0]
			if _, ok := f.Signature.Recv().Type().(*types.Pointer); ok {
				recv = o.St.Load(ps[0], c.W.Type("Boolean"))
			}
			for _, ev := range encodeEvents(o) {
				if ev.Callee != encodeElement {
					continue
				}
				for pol, want := range map[bool]string{true: "Y", false: "N"} {
					for _, g := range o.St.F.Assume(recv, pol) {
						x := unwrap(ev.Cont[1])
						if v := g.ConstOf(x); v != nil {
							x = v
						}
						s, ok := x.StrVal()
						c.Check(ok && s == want, "written as Y or N", "Boolean.MarshalXML", c.W.InstrPos(ev.Site), "%v is written as %s", pol, x)
					}
				}
			}
		}
	}
	c.leafRun("Amount", func(o *eng.Outcome, in *eng.Term, ps []*eng.Term, pos string) {
		con := "Amount.UnmarshalXML"
		var set *eng.Event
		for _, e := range flatten(o.St.Events(nil)) {
			if e.Kind == "call" && e.Callee == "(*math/big.Rat).SetString" {
				set = e
			}
		}
		if !c.Check(set != nil && c.amountText(set.Args[1], in), "decimal text parsed", con, pos, "the trimmed text with comma as decimal mark is not what is parsed; path: %s", o.St.F.Path()) {
			return
		}
		ok := eng.Extract(set.Result, 1, boolT)
		if o.St.F.IsNil(o.Res[0]) == -1 {
			c.Check(o.St.F.Holds(ok, false), "error only for unparsable text", con, pos, "an error although the text may have been parsed; path: %s", o.St.F.Path())
			return
		}
		c.Check(o.St.F.Holds(ok, true), "unparsable text is an error", con, pos, "no error although parsing may have failed; path: %s", o.St.F.Path())
		a, ft := c.fieldAddrOf(ps[0], c.W.Type("Amount"), 0)
		got := o.St.Load(a, ft)
		c.Check(eng.Contains(got, set.Result), "parsed amount stored", con, pos, "stores %s", got)
	})
	c.leafRun("Date", c.dateLeaf)
	// the five precisions are all tried by the failing paths: see dateLeaf
	if f := c.Lib("NewCurrSymbol"); f != nil {
		outs, ps := c.Analyze(c.Run(), f, nil)
		for i := range outs {
			o := &outs[i]
			pos := c.W.InstrPos(o.Site)
			con := "NewCurrSymbol"
			if !c.Check(o.Kind == "ret", "returns", con, pos, "ends by %s", o.Kind) {
				continue
			}
			p := c.convCall(o, "golang.org/x/text/currency.ParseISO", ps[0], func(a []*eng.Term) bool {
				return deconv(a[0]) == ps[0] || isTrimmed(a[0], ps[0])
			})
			if !c.Check(p != nil, "ISO-4217 code", con, pos, "the text is not parsed as an ISO code") {
				continue
			}
			e := o.St.F.IsNil(eng.Extract(p, 1, nil))
			switch e {
			case 1:
				c.Check(o.St.F.IsNil(o.Res[1]) == 1 && o.St.F.IsNil(o.Res[0]) == -1, "currency created", con, pos, "returns %s, %s", o.Res[0], o.Res[1])
				if o.Res[0].K == eng.KAlloc {
					a, ft := c.fieldAddrOf(o.Res[0], c.W.Type("CurrSymbol"), 0)
					c.Check(o.St.Load(a, ft) == eng.Extract(p, 0, ft), "parsed currency stored", con, pos, "stores %s", o.St.Load(a, ft))
				}
			default:
				c.Check(o.St.F.IsNil(o.Res[1]) == -1, "unknown code is an error", con, pos, "no error although the code may be unknown")
			}
		}
	}
}

func isInt64(t *eng.Term, v int64) bool {
	x, ok := t.IntVal()
	return ok && x == v
}

// convCall finds a conversion call the path examined.
func (c *C) convCall(o *eng.Outcome, name string, in *eng.Term, args func([]*eng.Term) bool) *eng.Term {
	var found *eng.Term
	o.St.F.Truths(func(t *eng.Term, v bool) {
		eng.Walk(t, func(x *eng.Term) bool {
			if isCall(x, name) && args(x.Args) {
				found = x
			}
			return true
		})
	})
	return found
}

// convErr: the conversion's error is reported; true if it succeeded.
func (c *C) convErr(o *eng.Outcome, p *eng.Term, con, pos string) bool {
	e := o.St.F.IsNil(eng.Extract(p, 1, nil))
	if o.St.F.IsNil(o.Res[0]) == -1 {
		c.Check(e == -1, "error only for unparsable text", con, pos, "an error although the conversion may have succeeded; path: %s", o.St.F.Path())
		return false
	}
	return c.Check(e == 1, "unparsable text is an error", con, pos, "no error although the conversion may have failed; path: %s", o.St.F.Path())
}

// amountText: the trimmed text with commas replaced by dots.
func (c *C) amountText(t, in *eng.Term) bool {
	trimmed, replaced := false, false
	for {
		t = deconv(t)
		switch {
		case isCall(t, "strings.TrimSpace"):
			trimmed = true
		case isCall(t, "strings.Replace"), isCall(t, "strings.ReplaceAll"):
			a, ok1 := t.Args[1].StrVal()
			b, ok2 := t.Args[2].StrVal()
			if !ok1 || !ok2 || a != "," || b != "." {
				return false
			}
			if len(t.Args) > 3 {
				if n, ok := t.Args[3].IntVal(); !ok || n == 0 {
					return false
				}
			}
			replaced = true
		default:
			return t == in && trimmed && replaced
		}
		t = t.Args[0]
	}
}

var dateFormats = []string{"20060102150405.000", "20060102150405", "200601021504", "2006010215", "20060102"}

// concat flattens a string concatenation.
func concat(t *eng.Term) []*eng.Term {
	t = deconv(t)
	if t.K == eng.KBin && t.Op == token.ADD {
		return append(concat(t.Args[0]), concat(t.Args[1])...)
	}
	return []*eng.Term{t}
}

// dateTry is a time.Parse call: precision, zone layout and value pieces.
type dateTry struct {
	call         *eng.Term
	format, zone string
	value        []*eng.Term
}

func (c *C) dateTries(o *eng.Outcome) []dateTry {
	var out []dateTry
	seen := map[*eng.Term]bool{}
	add := func(t *eng.Term) {
		eng.Walk(t, func(x *eng.Term) bool {
			if (isCall(x, "time.Parse") || isCall(x, "time.ParseInLocation")) && !seen[x] {
				seen[x] = true
				d := dateTry{call: x, value: concat(x.Args[1])}
				if l, ok := x.Args[0].StrVal(); ok {
					for _, f := range dateFormats {
						if strings.HasPrefix(l, f) && len(f) > len(d.format) {
							d.format = f
							d.zone = l[len(f):]
						}
					}
				}
				out = append(out, d)
			}
			return true
		})
	}
	o.St.F.Truths(func(t *eng.Term, v bool) { add(t) })
	return out
}

func (c *C) dateLeaf(o *eng.Outcome, in *eng.Term, ps []*eng.Term, pos string) {
	con := "Date.UnmarshalXML"
	f := o.St.F
	tries := c.dateTries(o)
	tried := map[string]bool{}
	for _, d := range tries {
		if !c.Check(d.format != "", "documented precision", con, pos, "layout %s is none of the five", d.call.Args[0]) {
			continue
		}
		last := d.value[len(d.value)-1]
		s, isConst := last.StrVal()
		// what is parsed comes from the trimmed text
		trimmed := false
		eng.Walk(d.value[0], func(x *eng.Term) bool {
			if isCall(x, "strings.TrimSpace") && eng.Contains(x, in) {
				trimmed = true
			}
			return true
		})
		c.Check(trimmed, "date text trimmed", con, pos, "the date is parsed from %s", d.value[0])
		switch {
		case len(d.value) == 2 && isConst:
			// no zone given
			gmtLayouts := map[string]string{" -0700 MST": " +0000 GMT", "-0700 MST": "+0000 GMT", " MST": " GMT", "MST": "GMT", "-0700": "+0000", " -0700": " +0000"}
			c.Check(gmtLayouts[d.zone] == s && s != "", "no zone means GMT", con, pos, "layout %q with %q is not GMT", d.zone, s)
		case len(d.value) == 1:
			loc := "UTC"
			c.Check(d.zone == "" && isCall(d.call, "time.Parse"), "no zone means GMT", con, pos, "layout %q without a zone is not %s", d.zone, loc)
		default:
			// an offset, optionally followed by a name
			off := false
			for _, v := range d.value[1:] {
				eng.Walk(v, func(x *eng.Term) bool {
					if x != in && eng.Contains(x, in) {
						off = true
					}
					return true
				})
			}
			c.Check(off, "zone taken from the text", con, pos, "the zone %v does not come from the text", d.value[1:])
			c.Check(strings.Contains(d.zone, "-0700"), "zone offset parsed", con, pos, "layout %q has no offset", d.zone)
		}
		if f.IsNil(eng.Extract(d.call, 1, nil)) == -1 {
			tried[d.format] = true
		}
	}
	if f.IsNil(o.Res[0]) == 1 {
		a, ft := c.fieldAddrOf(ps[0], c.W.Type("Date"), 0)
		got := o.St.Load(a, ft)
		ok := false
		for _, d := range tries {
			if got == eng.Extract(d.call, 0, ft) && f.IsNil(eng.Extract(d.call, 1, nil)) == 1 {
				ok = true
			}
		}
		c.Check(ok, "successfully parsed date stored", con, pos, "stores %s; path: %s", got, f.Path())
		return
	}
	if len(tries) > 0 {
		for _, want := range dateFormats {
			c.Check(tried[want], "every precision tried before failing", con+" "+want, pos, "an error although the text may be a date of precision %s; path: %s", want, f.Path())
		}
		return
	}
	// rejected before parsing: only a malformed zone is a reason
	bad := false
	f.Truths(func(t *eng.Term, v bool) {
		eng.Walk(t, func(x *eng.Term) bool {
			if x != in && eng.Contains(x, in) && t.K == eng.KBin {
				if x.K == eng.KExtract && x.I == 1 && f.IsNil(x) == -1 {
					bad = true
				}
				if isCall(x, "(*regexp.Regexp).FindStringSubmatch") && f.IsNil(x) == 1 {
					bad = true
				}
			}
			return true
		})
		if !v && isCall(t, "(*regexp.Regexp).MatchString") {
			bad = true
		}
	})
	c.Check(bad, "error only for unparsable text", con, pos, "an error on a path without a failed conversion; path: %s", f.Path())
}

// ---- C30 ----

// hexGroup is a run of printed bytes: [lo,hi) of the random bytes.
type uidPiece struct {
	lit    string
	lo, hi int64
}

func (c *C) randomUID() {
	f := c.Lib("RandomUID")
	if f == nil {
		return
	}
	con := "RandomUID"
	outs, _ := c.Analyze(c.Run(), f, nil)
	good := 0
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret" && len(o.Res) == 2, "returns", con, pos, "ends by %s", o.Kind) {
			continue
		}
		var read *eng.Event
		n := 0
		for _, e := range flatten(o.St.Events(nil)) {
			if e.Kind != "call" {
				continue
			}
			switch e.Callee {
			case "crypto/rand.Read", "io.ReadFull", "(io.Reader).Read", "io.ReadAtLeast":
				read, n = e, n+1
			case "math/rand.Read", "math/rand.Int63", "math/rand.Intn":
				c.Fail("cryptographic source", con, c.W.InstrPos(e.Site), "uses %s", e.Callee)
			}
		}
		if !c.Check(n == 1, "random bytes read once", con, pos, "%d reads", n) {
			continue
		}
		if read.Callee != "crypto/rand.Read" {
			src := o.St.Content(read.Args[0])
			c.Check(strings.Contains(src.String(), "rand.Reader") || strings.Contains(read.Args[0].String(), "Reader"), "cryptographic source", con, pos, "reads from %s", src)
		} else {
			c.OK("cryptographic source", con)
		}
		err := eng.Extract(read.Result, 1, nil)
		cnt := eng.Extract(read.Result, 0, types.Typ[types.Int])
		if o.St.F.IsNil(o.Res[1]) != 1 {
			c.Check(o.St.F.IsNil(o.Res[1]) == -1, "verdict decided", con, pos, "the error may or may not be nil")
			c.Check(o.St.F.IsNil(o.Res[0]) == 1, "no identifier with an error", con, pos, "returns %s", o.Res[0])
			ok := o.St.F.IsNil(err) == -1 || o.St.F.Holds(eng.Eq(cnt, eng.Int(16)), false)
			c.Check(ok, "error only without randomness", con, pos, "an error although 16 bytes may have been read; path: %s", o.St.F.Path())
			continue
		}
		good++
		c.Check(o.St.F.IsNil(err) == 1, "read error reported", con, pos, "an identifier is returned although reading may have failed; path: %s", o.St.F.Path())
		p := o.Res[0]
		if !c.Check(o.St.F.IsNil(p) == -1, "identifier returned", con, pos, "returns nil without error") {
			continue
		}
		v := deconv(o.St.Load(p, c.W.Type("UID")))
		bufArg := read.Args[len(read.Args)-1]
		if read.Callee == "io.ReadAtLeast" {
			bufArg = read.Args[1]
		}
		blen := bufLen(o.St, bufArg)
		c.Check(blen == 16, "16 bytes read", con, pos, "%d bytes are read", blen)
		pieces, why := c.uidPieces(o.St, v, read, bufArg)
		if !c.Check(why == "", "text understood", con, pos, "%s in %s", why, v) {
			continue
		}
		var shape strings.Builder
		next := int64(0)
		ordered := true
		used := map[int64]int{}
		for _, q := range pieces {
			if q.lit != "" {
				shape.WriteString(q.lit)
				continue
			}
			if q.lo != next {
				ordered = false
			}
			next = q.hi
			for b := q.lo; b < q.hi; b++ {
				used[b]++
				shape.WriteString("xx")
			}
		}
		_ = ordered
		c.Check(shape.String() == "xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx", "8-4-4-4-12 hexadecimal digits", con, pos, "the form is %s", shape.String())
		for b := int64(0); b < 16; b++ {
			c.Check(used[b] == 1, "every byte used exactly once", con+" byte "+itoa(b), pos, "used %d times", used[b])
		}
	}
	c.Check(good > 0, "can succeed", con, c.W.Pos(f.Pos()), "no path returns an identifier")
}

// bufLen: the length of a byte slice made by the analysed code.
func bufLen(st *eng.State, b *eng.Term) int64 {
	lo, hi, _ := sliceOf(b)
	if hi < 0 {
		return -1
	}
	return hi - lo
}

// sliceOf resolves nested slices to (lo, hi) of the base allocation.
func sliceOf(b *eng.Term) (lo, hi int64, base *eng.Term) {
	if b.K != eng.KSlice {
		if b.Typ != nil {
			t := b.Typ.Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			if a, ok := t.(*types.Array); ok {
				return 0, a.Len(), b
			}
		}
		return 0, -1, b
	}
	l, h, base := sliceOf(b.Args[0])
	lo, hi = l, h
	if b.Args[1].K != eng.KNone {
		v, ok := b.Args[1].IntVal()
		if !ok {
			return 0, -1, base
		}
		lo = l + v
	}
	if b.Args[2].K != eng.KNone {
		v, ok := b.Args[2].IntVal()
		if !ok {
			return 0, -1, base
		}
		hi = l + v
	}
	return lo, hi, base
}

// uidPieces evaluates the printed identifier into literals and byte ranges.
func (c *C) uidPieces(st *eng.State, v *eng.Term, read *eng.Event, buf *eng.Term) ([]uidPiece, string) {
	_, _, base := sliceOf(buf)
	blo, _, _ := sliceOf(buf)
	rng := func(t *eng.Term) (int64, int64, bool) {
		t = deconv(unwrap(t))
		lo, hi, b := sliceOf(t)
		if b.K == eng.KOut && b.Args[0] == read.Result && t.K == eng.KSlice {
			// the contents the read left behind
			hi = -1
			if v, ok := t.Args[2].IntVal(); ok {
				hi = v
			} else if _, h, _ := sliceOf(buf); t.Args[2].K == eng.KNone {
				hi = h
			}
			lo = 0
			if v, ok := t.Args[1].IntVal(); ok {
				lo = v
			}
			return lo - blo, hi - blo, hi >= 0
		}
		if b == base && hi >= 0 {
			return lo - blo, hi - blo, true
		}
		// contents of the buffer
		if t.K == eng.KList {
			var is []int64
			for _, x := range t.Args {
				i, ok := byteIndex(x, read, base)
				if !ok {
					return 0, 0, false
				}
				is = append(is, i-blo)
			}
			for k := 1; k < len(is); k++ {
				if is[k] != is[k-1]+1 {
					return 0, 0, false
				}
			}
			if len(is) > 0 {
				return is[0], is[len(is)-1] + 1, true
			}
		}
		if i, ok := byteIndex(t, read, base); ok {
			return i - blo, i - blo + 1, true
		}
		if t.K == eng.KSlice {
			return 0, 0, false
		}
		return 0, 0, false
	}
	var eval func(t *eng.Term) ([]uidPiece, string)
	eval = func(t *eng.Term) ([]uidPiece, string) {
		t = deconv(t)
		if s, ok := t.StrVal(); ok {
			return []uidPiece{{lit: s}}, ""
		}
		if t.K == eng.KBin && t.Op == token.ADD {
			a, w := eval(t.Args[0])
			if w != "" {
				return nil, w
			}
			b, w := eval(t.Args[1])
			return append(a, b...), w
		}
		if isCall(t, "encoding/hex.EncodeToString") {
			lo, hi, ok := rng(t.Args[0])
			if !ok {
				return nil, "unknown bytes " + t.Args[0].String()
			}
			return []uidPiece{{lo: lo, hi: hi}}, ""
		}
		if t.K == eng.KSlice && (isCall(deconv(t.Args[0]), "encoding/hex.EncodeToString") || t.Args[0].K == eng.KBin) {
			ps, w := eval(t.Args[0])
			if w != "" {
				return nil, w
			}
			return cutPieces(ps, t)
		}
		if isCall(t, "strings.Join") {
			l := t.Args[0]
			if l.K != eng.KList {
				l = st.Content(l)
			}
			sep, ok := t.Args[1].StrVal()
			if l.K != eng.KList || !ok {
				return nil, "unknown join"
			}
			var out []uidPiece
			for i, x := range l.Args {
				if i > 0 {
					out = append(out, uidPiece{lit: sep})
				}
				p, w := eval(x)
				if w != "" {
					return nil, w
				}
				out = append(out, p...)
			}
			return out, ""
		}
		if isCall(t, "fmt.Sprintf") || isCall(t, "fmt.Sprint") {
			if isCall(t, "fmt.Sprint") {
				return nil, "fmt.Sprint"
			}
			f, ok := t.Args[0].StrVal()
			l := t.Args[1]
			if l.K != eng.KList {
				l = st.Content(l)
			}
			if !ok || l.K != eng.KList {
				return nil, "unknown format"
			}
			return c.sprintf(f, l.Args, rng, eval)
		}
		return nil, "cannot interpret " + t.String()
	}
	return eval(v)
}

// byteIndex: x is element i of the buffer after the read.
func byteIndex(x *eng.Term, read *eng.Event, base *eng.Term) (int64, bool) {
	x = deconv(unwrap(x))
	switch x.K {
	case eng.KElemOf:
		if x.Args[0].K == eng.KOut && x.Args[0].Args[0] == read.Result {
			return x.Args[1].IntVal()
		}
	case eng.KInit:
		a := x.Args[0]
		if a.K == eng.KElem && (a.Args[0] == base) {
			return a.Args[1].IntVal()
		}
	case eng.KOut:
		if x.Args[0] == read.Result && len(x.Args) > 1 {
			a := x.Args[1]
			if a.K == eng.KElem && a.Args[0] == base {
				return a.Args[1].IntVal()
			}
		}
	}
	return 0, false
}

func cutPieces(ps []uidPiece, t *eng.Term) ([]uidPiece, string) {
	// digits: two per byte
	var chars []uidPiece // one per character; lo = byte, hi = nibble
	for _, p := range ps {
		if p.lit != "" {
			for _, r := range p.lit {
				chars = append(chars, uidPiece{lit: string(r)})
			}
			continue
		}
		for b := p.lo; b < p.hi; b++ {
			chars = append(chars, uidPiece{lo: b, hi: 0}, uidPiece{lo: b, hi: 1})
		}
	}
	lo, hi := int64(0), int64(len(chars))
	if t.Args[1].K != eng.KNone {
		v, ok := t.Args[1].IntVal()
		if !ok {
			return nil, "unknown slice"
		}
		lo = v
	}
	if t.Args[2].K != eng.KNone {
		v, ok := t.Args[2].IntVal()
		if !ok {
			return nil, "unknown slice"
		}
		hi = v
	}
	if lo < 0 || hi > int64(len(chars)) || lo > hi {
		return nil, "slice out of range"
	}
	var out []uidPiece
	for i := lo; i < hi; i++ {
		ch := chars[i]
		if ch.lit != "" {
			out = append(out, ch)
			continue
		}
		if ch.hi == 0 && i+1 < hi && chars[i+1].lit == "" && chars[i+1].lo == ch.lo {
			out = append(out, uidPiece{lo: ch.lo, hi: ch.lo + 1})
			i++
			continue
		}
		return nil, "half a byte"
	}
	return out, ""
}

// sprintf interprets %x, %0Nx, %02x, %s and literal text.
func (c *C) sprintf(f string, args []*eng.Term, rng func(*eng.Term) (int64, int64, bool), eval func(*eng.Term) ([]uidPiece, string)) ([]uidPiece, string) {
	var out []uidPiece
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, uidPiece{lit: string(f[i])})
			continue
		}
		i++
		j := i
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			i++
		}
		if i >= len(f) {
			return nil, "bad format"
		}
		width := f[j:i]
		if f[i] == '%' {
			out = append(out, uidPiece{lit: "%"})
			continue
		}
		if k >= len(args) {
			return nil, "missing argument"
		}
		a := args[k]
		k++
		switch f[i] {
		case 'x':
			lo, hi, ok := rng(a)
			if !ok {
				return nil, "unknown bytes " + a.String()
			}
			// a padded width wider than the digits adds zeros; a single
			// byte needs zero padding to two digits
			w := int64(0)
			for _, d := range strings.TrimLeft(width, "0") {
				w = w*10 + int64(d-'0')
			}
			x := deconv(unwrap(a))
			isByte := hi-lo == 1 && isByteTerm(x)
			if isByte && !(w == 2 && strings.HasPrefix(width, "0")) {
				return nil, "a byte printed without leading zero"
			}
			if w > 2*(hi-lo) {
				pad := " "
				if strings.HasPrefix(width, "0") {
					pad = "0"
				}
				out = append(out, uidPiece{lit: strings.Repeat(pad, int(w-2*(hi-lo)))})
			}
			out = append(out, uidPiece{lo: lo, hi: hi})
		case 's', 'v':
			p, w := eval(unwrap(a))
			if w != "" {
				return nil, w
			}
			out = append(out, p...)
		default:
			return nil, "verb " + f[i:i+1]
		}
	}
	if k != len(args) {
		return nil, "extra arguments"
	}
	return out, ""
}

func isByteTerm(x *eng.Term) bool {
	if x.Typ == nil {
		return false
	}
	b, ok := x.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

var _ ssa.Value

func init() {
	reg("C23", 60, "The reading method of every value type is analysed on a symbolic element text. Every success path must store exactly the documented conversion of the trimmed text and imply that the conversion succeeded; every error path must imply that reading or converting failed. Dates: the layouts handed to time.Parse must be the five precisions with the zone of the text, GMT without one, all five tried before an error. The text of a zone is followed through the reading method for every sign, hour, hundredth and with or without a name, and the text Date.String produces is compared over a partition of all offsets into cells of 36 seconds; a pattern used for zones must have the documented language. Amount.String is compared on the shapes of decimal text.", (*C).leafValues)
	reg("C30", 20, "RandomUID is analysed path by path: one read of the cryptographic source into a 16-byte buffer, its error decided; the identifier's text is evaluated as pieces (literals and byte ranges of that buffer) through fmt, hex and concatenation, and must be 8-4-4-4-12 with every byte used once.", (*C).randomUID)
}
