package main

import (
	"fmt"
	"strings"
	"time"

	"ofxcheck/eng"
)

// ---- C23: writing dates and amounts, reading zones ----

// dateWriting: the text of a date is its time to the millisecond and, in
// brackets, the offset of its zone and the zone's name. The text is compared
// over a partition of all offsets of less than a day.
func (c *C) dateWriting() {
	f := c.Lib("Date.String")
	if f == nil {
		return
	}
	con := "Date.String"
	outs, ps := c.Analyze(c.Run(), f, nil)
	isDate := func(t *eng.Term) bool { return derives(t, ps[0]) }
	const stamp = "\x01"
	for i := range outs {
		o := &outs[i]
		if o.Kind != "ret" {
			c.Fail("a date can be written", con, c.W.InstrPos(o.Site), "a path ends in %s", o.Kind)
		}
	}
	wrong := map[string]bool{}
	var facts [][]fact
	for i := range outs {
		facts = append(facts, factsOf(outs[i].St.F))
	}
	n := 0
	// cells of 36 seconds, mirrored at zero
	for k := int64(-2400); k <= 2400; k++ {
		lo, hi := k*36, k*36+35
		if k < 0 {
			lo, hi = k*36-35, k*36
		}
		var cells [][2]int64
		if k == 0 {
			cells = [][2]int64{{-35, -1}, {0, 35}}
		} else {
			cells = [][2]int64{{lo, hi}}
		}
		for _, cl := range cells {
			for _, name := range []val{sv(""), sv("\x02")} {
				a := abs(cl[0])
				if b := abs(cl[1]); b < a {
					a = b
				}
				sign := ""
				if cl[1] < 0 && a >= 36 {
					sign = "-"
				}
				want := fmt.Sprintf("%s[%s%d", stamp, sign, a/3600)
				if fr := a % 3600 / 36; fr > 0 {
					want += fmt.Sprintf(".%02d", fr)
				}
				if name.s != "" {
					want += ":" + name.s
				}
				want += "]"
				any := false
				e := newCell(func(t *eng.Term) (val, bool) {
					switch {
					case t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "time.Time).Format") && isDate(t.Args[0]):
						if l, ok := t.Args[1].StrVal(); ok && l == dateFormats[0] {
							return sv(stamp), true
						}
						return val{}, true
					case isZone(t, 0, isDate):
						return name, true
					case isZone(t, 1, isDate):
						return iv(cl[0], cl[1]), true
					case t.K == eng.KLen && isZone(t.Args[0], 0, isDate):
						if name.s == "" {
							return iv(0, 0), true
						}
						return iv(1, 1<<30), true
					}
					return val{}, false
				})
				for i := range outs {
					o := &outs[i]
					if o.Kind != "ret" || !e.on(o.St).feasible(facts[i]) {
						continue
					}
					any = true
					n++
					got := e.ev(o.Res[0])
					text := got.s
					if got.k != 's' {
						text = "an unknown text"
					}
					if strings.HasPrefix(text, stamp+"[+") && sign == "" {
						text = stamp + "[" + text[len(stamp)+2:]
					}
					if sign == "" && cl[1] < 0 && strings.HasPrefix(text, stamp+"[-0") {
						text = stamp + "[" + text[len(stamp)+2:]
					}
					if text != want {
						key := c.W.InstrPos(o.Site)
						if !wrong[key] {
							wrong[key] = true
							show := func(s string) string { return strings.NewReplacer(stamp, "…", "\x02", "NAME").Replace(s) }
							c.Fail("zone of a written date", con, key, "an offset of %d to %d seconds is written %s instead of %s", cl[0], cl[1], show(text), show(want))
						}
					}
				}
				if !any {
					c.Fail("a date can be written", con, c.W.Pos(f.Pos()), "no path covers an offset of %d seconds", cl[0])
				}
			}
		}
	}
	if len(wrong) == 0 {
		c.OK("zone of a written date", con)
	}
	c.Note("%d combinations of path and zone offset cell", n)
}

// isZone: result i of the date's Zone method.
func isZone(t *eng.Term, i int, isDate func(*eng.Term) bool) bool {
	return t.K == eng.KExtract && t.I == i && t.Args[0].K == eng.KCall && strings.HasSuffix(t.Args[0].CalleeName(), "time.Time).Zone") && isDate(t.Args[0].Args[0])
}

const zonePattern = `^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`

// zoneReading: for every form of zone (sign, hours of less than a day,
// hundredths, name) the texts handed to time.Parse are the date followed by
// that zone; texts that are no zone are refused.
func (c *C) zoneReading() {
	con := "Date.UnmarshalXML"
	outs, _, f := c.decodeRun(con)
	if f == nil {
		return
	}
	type path struct {
		o     *eng.Outcome
		in    *eng.Term
		tries []dateTry
		facts []fact
	}
	var paths []path
	for i := range outs {
		o := &outs[i]
		ev := decodeEvents(o)
		if o.Kind != "ret" || len(ev) != 1 || o.St.F.IsNil(ev[0].Result) != 1 {
			continue
		}
		in := decodedText(o, ev[0])
		if in == nil {
			continue
		}
		paths = append(paths, path{o, in, c.dateTries(o), factsOf(o.St.F)})
	}
	at := func(text string) *cell {
		return newCell(func(t *eng.Term) (val, bool) {
			for _, p := range paths {
				if t == p.in {
					return sv(text), true
				}
			}
			return val{}, false
		})
	}
	const date = "20060102"
	wrong := 0
	fail := func(rule, format string, a ...any) {
		if wrong++; wrong <= 3 {
			c.Fail(rule, con, c.W.Pos(f.Pos()), format, a...)
		}
	}
	n := 0
	for _, sign := range []string{"", "+", "-"} {
		for h := 0; h < 24; h++ {
			for fr := -1; fr < 100; fr++ {
				for _, name := range []string{"", "NZDT"} {
					zone := sign + fmt.Sprint(h)
					min := 0
					if fr >= 0 {
						zone += fmt.Sprintf(".%02d", fr)
						min = fr * 60 / 100
					}
					sg := "+"
					if sign == "-" {
						sg = "-"
					}
					off := fmt.Sprintf("%s%02d%02d", sg, h, min)
					if name != "" {
						zone += ":" + name
					}
					wants := []string{"-0700|" + off}
					if name != "" {
						wants = []string{"-0700MST|" + off + name}
					} else if h == 0 && min == 0 {
						wants = append(wants, "-0700MST|"+off+"GMT")
					}
					text := date + "[" + zone + "]"
					parsed := false
					e := at(text)
					for _, p := range paths {
						if !e.on(p.o.St).feasible(p.facts) {
							continue
						}
						n++
						if len(p.tries) == 0 {
							fail("zone understood", "a date with the zone %s is refused", zone)
							continue
						}
						for _, d := range p.tries {
							l, v := e.ev(d.call.Args[0]), e.ev(d.call.Args[1])
							if l.k != 's' || v.k != 's' || d.format == "" || !strings.HasPrefix(v.s, date) {
								fail("zone understood", "for the zone %s the text parsed is %s", zone, d.call.Args[1])
								continue
							}
							got := strings.ReplaceAll(strings.TrimPrefix(l.s, d.format), " ", "") + "|" + strings.ReplaceAll(strings.TrimPrefix(v.s, date), " ", "")
							blanks := strings.Count(l.s, " ") == strings.Count(v.s, " ")
							ok := false
							for _, w := range wants {
								// a zero offset needs no sign of its own
								ok = ok || got == w || h == 0 && min == 0 && strings.ReplaceAll(got, "|-0", "|+0") == strings.ReplaceAll(w, "|-0", "|+0")
							}
							if !ok || !blanks {
								fail("zone understood", "the zone %s is read as %q with the layout %q", zone, strings.TrimPrefix(v.s, date), strings.TrimPrefix(l.s, d.format))
							}
							parsed = true
						}
					}
					if !parsed && wrong == 0 {
						fail("zone understood", "no path parses a date with the zone %s", zone)
					}
				}
			}
		}
	}
	if wrong == 0 {
		c.OK("zone understood", con)
	}
	wrong = 0
	// the text before the zone is parsed as it stands, whatever it is
	for _, zone := range []string{"", "[0]", "[-5:EST]"} {
		rest := map[string]bool{}
		for i, base := range append([]string{date}, dateTexts()...) {
			text := base + zone
			e := at(text)
			if base = strings.TrimSpace(base); zone != "" && !strings.HasPrefix(text, base+"[") {
				continue
			}
			real := false
			for _, l := range dateFormats {
				_, err := time.Parse(l, base)
				real = real || err == nil
			}
			for _, p := range paths {
				if !e.on(p.o.St).feasible(p.facts) {
					continue
				}
				n++
				if len(p.tries) == 0 && real {
					fail("date read as written", "the date %s is refused", text)
				}
				for _, d := range p.tries {
					v := e.ev(d.call.Args[1])
					tail := strings.ReplaceAll(strings.TrimPrefix(v.s, base), " ", "")
					if i == 0 {
						rest[tail] = true
					}
					if v.k != 's' || !strings.HasPrefix(v.s, base) || !rest[tail] {
						fail("date read as written", "for the date %q the text parsed is %s", text, v.s)
					}
				}
			}
		}
	}
	if wrong == 0 {
		c.OK("date read as written", con)
	}
	wrong = 0
	// malformed zones
	for _, z := range []string{"", "X", "5:", "5:est", "5.5", "5.123", "5.", ":EST", "+", "-", "5 EST", "5:E ST", "5,50", "--5", "5.50.10", "5:EST:X", "0x5", "EST", "5.ab", "5:E5"} {
		e := at(date + "[" + z + "]")
		for _, p := range paths {
			n++
			if e.on(p.o.St).feasible(p.facts) && len(p.tries) > 0 {
				fail("malformed zone refused", "the malformed zone %q is handed to time.Parse", z)
				break
			}
		}
	}
	if wrong == 0 {
		c.OK("malformed zone refused", con)
	}
	// if a pattern decides, it has to be the documented one
	seen := map[string]bool{}
	for _, p := range paths {
		p.o.St.F.Truths(func(t *eng.Term, v bool) { c.patterns(t, seen) })
		p.o.St.F.Lens(func(t *eng.Term) { c.patterns(t, seen) })
	}
	for _, pat := range sortedKeys(seen) {
		same, w, err := sameLanguage(pat, zonePattern)
		c.Check(err == nil && same, "pattern of a zone", con, c.W.Pos(f.Pos()), "the pattern %s is not that of an OFX zone: they differ on %q", pat, w)
	}
	c.Note("%d combinations of path and zone text", n)
}

func (c *C) patterns(t *eng.Term, seen map[string]bool) {
	eng.Walk(t, func(x *eng.Term) bool {
		if isCall(x, "(*regexp.Regexp).FindStringSubmatch") || isCall(x, "(*regexp.Regexp).MatchString") {
			if p := patternOf(x.Args[0]); p != "" {
				seen[p] = true
			}
		}
		return true
	})
}

// amountWriting: an amount is written exactly, without trailing zeros.
func (c *C) amountWriting() {
	f := c.Lib("Amount.String")
	if f == nil {
		return
	}
	con := "Amount.String"
	outs, ps := c.Analyze(c.Run(), f, nil)
	c.Check(len(outs) > 0, "an amount can be written", con, c.W.Pos(f.Pos()), "no path returns")
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret", "an amount can be written", con, pos, "a path ends in %s", o.Kind) {
			continue
		}
		// value over texts that FloatString may return
		bad := ""
		var digits int64 = -1
		for _, whole := range []string{"0", "7", "10", "100", "1050", "-100", "-0", "-7", "1000000"} {
			for _, frac := range []string{"", "5", "05", "50", "001", "10", "100", "0009"} {
				if whole == "-0" && strings.Trim(frac, "0") == "" {
					continue
				}
				e := newCell(func(t *eng.Term) (val, bool) {
					if t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "big.Rat).FloatString") && derives(t.Args[0], ps[0]) {
						d, ok := t.Args[1].IntVal()
						if !ok || d < 0 {
							return val{}, true
						}
						digits = d
						fr := frac
						if int64(len(fr)) > d {
							fr = fr[:d]
						}
						if d == 0 {
							return sv(whole), true
						}
						return sv(whole + "." + fr + strings.Repeat("0", int(d)-len(fr))), true
					}
					return val{}, false
				}).on(o.St)
				if !e.feasible(factsOf(o.St.F)) {
					continue
				}
				want := strings.TrimRight(frac, "0")
				if want != "" {
					want = "." + want
				}
				want = whole + want
				got := e.ev(o.Res[0])
				if got.k != 's' || got.s != want {
					bad = fmt.Sprintf("%s is written %q", want, got.s)
					if got.k != 's' {
						bad = "the text is " + o.Res[0].String()
					}
				}
			}
		}
		c.Check(bad == "", "amount written in plain decimal notation", con, pos, "%s", bad)
		c.Check(digits < 0 || digits >= 20, "amount written exactly", con, pos, "only %d decimal digits are kept", digits)
	}
}

// derives: t is made from the parameter, or from a part of it.
func derives(t, p *eng.Term) bool {
	return eng.Contains(t, p) || p.K == eng.KInit && eng.Contains(t, p.Args[0])
}

// dateTexts are texts of every precision with every value of each field, texts
// of other lengths, and texts which are no dates.
func dateTexts() (out []string) {
	full := "20060102150405.000"
	for _, n := range []int{8, 12, 14, 18} {
		for at := 4; at < n && at < 14; at += 2 {
			for v := 0; v < 100; v++ {
				out = append(out, full[:at]+fmt.Sprintf("%02d", v)+full[at+2:n])
			}
		}
		for _, y := range []string{"0000", "0001", "0099", "1582", "1899", "1900", "1969", "1970", "1999", "2000", "2024", "2038", "2099", "2999", "9998", "9999"} {
			out = append(out, y+full[4:n])
		}
	}
	for i := 0; i < 1000; i += 37 {
		out = append(out, full[:15]+fmt.Sprintf("%03d", i))
	}
	for n := 0; n <= len(full); n++ {
		out = append(out, full[:n])
	}
	return append(out, "20061002150405.999", "00000000", "00000000000000", "99999999", "99991231", "99991231235959", "20000229", "20010229", "20060102150405.0000", "200601021504059", "2006-01-02", "2006/01/02", "01/02/2006", "2006.01.02", "2006 01 02", " 20060102 ", "\t20060102150405\n", "20060102T150405", "20060102150405Z", "-20060102", "+20060102", "20060102 ", "20060102150405,000", "060102", "today", "0", "NONE", "N/A", "Jan 2 2006")
}
