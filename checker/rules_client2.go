package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C04 ----

// pick is what a basic client's setting should be: the field when the
// condition holds and the default otherwise.
var clientDefaults = []struct{ meth, field, dflt string }{
	{"OfxVersion", "SpecVersion", ""},
	{"ID", "AppID", "OFXGO"},
	{"Version", "AppVer", "0001"},
}

func (c *C) defaultRules() {
	c.basicSettings()
	c.wrapperSettings()
	c.selection()
}

func (c *C) basicSettings() {
	for _, d := range clientDefaults {
		con := "BasicClient." + d.meth
		f := c.Lib(con)
		if f == nil {
			continue
		}
		r := c.Run()
		r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
			if g.Name() == "Valid" && g.Signature.Recv() != nil {
				return eng.Pure
			}
			return eng.Auto
		}
		outs, ps := c.Analyze(r, f, nil)
		set, unset := false, false
		for i := range outs {
			o := &outs[i]
			pos := c.W.InstrPos(o.Site)
			if !c.Check(o.Kind == "ret", "setting answered", con, pos, "a path ends in %s", o.Kind) {
				continue
			}
			v := deconv(loadField(o.St, ps[0], d.field))
			// is the field set on this path?
			state := 0
			if d.dflt == "" {
				o.St.F.Truths(func(t *eng.Term, b bool) {
					if t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "ofxVersion).Valid") && deconv(t.Args[0]) == v {
						state = -1
						if b {
							state = 1
						}
					}
				})
				if state == 0 {
					lo, hi := o.St.F.Range(v)
					vs := constsOf(c.W, c.W.Type("ofxVersion"))
					all, none := true, true
					var mn, mx int64 = 1 << 40, -1
					for _, k := range vs {
						mn, mx = min(mn, k), max(mx, k)
					}
					all = lo >= mn && hi <= mx
					none = hi < mn || lo > mx
					if all {
						state = 1
					} else if none {
						state = -1
					}
				}
			} else {
				if lo, hi := o.St.F.Range(eng.LenOf(v)); lo >= 1 {
					state = 1
				} else if hi == 0 {
					state = -1
				}
				if k := o.St.F.ConstOf(v); k != nil {
					if s, ok := k.StrVal(); ok && s == "" {
						state = -1
					}
				}
				if o.St.F.Holds(eng.Eq(v, eng.Str("")), false) {
					state = 1
				}
			}
			got := deconv(o.Res[0])
			switch state {
			case 1:
				set = true
				c.Check(got == v, "configured value answered", con, pos, "answers %s although %s is set", got, d.field)
			case -1:
				unset = true
				ok := false
				if d.dflt == "" {
					k, is := got.IntVal()
					ok = is && k == constsOf(c.W, c.W.Type("ofxVersion"))["OfxVersion203"]
				} else {
					s, is := got.StrVal()
					ok = is && s == d.dflt
				}
				c.Check(ok, "default answered", con, pos, "answers %s when %s is not set", got, d.field)
			default:
				c.Fail("configured value answered", con, pos, "answers %s whether %s is set or not; path: %s", got, d.field, o.St.F.Path())
			}
		}
		c.Check(set && unset, "both cases answered", con, c.W.Pos(f.Pos()), "the setting does not depend on %s", d.field)
	}
	for _, d := range []struct {
		meth, field string
		neg         bool
	}{{"IndentRequests", "NoIndent", true}, {"CarriageReturnNewLines", "CarriageReturn", false}} {
		con := "BasicClient." + d.meth
		f := c.Lib(con)
		if f == nil {
			continue
		}
		outs, ps := c.Analyze(c.Run(), f, nil)
		for i := range outs {
			o := &outs[i]
			if o.Kind != "ret" {
				c.Fail("setting answered", con, c.W.InstrPos(o.Site), "a path ends in %s", o.Kind)
				continue
			}
			v := loadField(o.St, ps[0], d.field)
			want := v
			if d.neg {
				want = eng.Not(v)
			}
			ok := o.Res[0] == want
			if !ok {
				a, b := o.St.F.Eval(o.Res[0]), o.St.F.Eval(want)
				ok = a != 0 && a == b
			}
			c.Check(ok, "flag answered", con, c.W.InstrPos(o.Site), "answers %s", o.Res[0])
		}
	}
}

// wrapperSettings: the institutions' clients answer with the settings of the
// basic client they wrap.
func (c *C) wrapperSettings() {
	for _, n := range c.clientTypes() {
		if n.Obj().Name() == "BasicClient" {
			continue
		}
		for _, m := range settingNames {
			con := n.Obj().Name() + "." + m
			sel := types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), m)
			f := c.W.Prog.MethodValue(sel)
			if f == nil {
				c.Fail("anchor", con, "", "method not found")
				continue
			}
			r := c.Run()
			r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
				if g != f && isSetting(g.Name()) && g.Signature.Recv() != nil {
					return eng.Pure
				}
				return eng.Auto
			}
			outs, ps := c.Analyze(r, f, nil)
			for i := range outs {
				o := &outs[i]
				ok := o.Kind == "ret" && len(o.Res) == 1
				if ok {
					g := deconv(o.Res[0])
					ok = g.K == eng.KCall && strings.HasSuffix(g.CalleeName(), "BasicClient)."+m) && len(g.Args) == 1 && sameClient(g.Args[0], ps[0])
				}
				c.Check(ok, "wrapped client's setting answered", con, c.W.InstrPos(o.Site), "does not answer with the basic client's %s", m)
			}
		}
	}
}

// institutions' clients and their documented locations.
var institutions = map[string]string{
	"DiscoverCardClient": "https://ofx.discovercard.com",
	"VanguardClient":     "https://vesnc.vanguard.com/us/OfxDirectConnectServlet",
}

// trimmed tells whether the text is the URL without leading and trailing
// slashes.
func slashTrimmed(t, url *eng.Term) bool {
	left, right := false, false
	for t != url {
		t = deconv(t)
		if t.K != eng.KCall || len(t.Args) != 2 {
			break
		}
		if s, ok := t.Args[1].StrVal(); !ok || s != "/" {
			return false
		}
		switch t.CalleeName() {
		case "strings.Trim":
			left, right = true, true
		case "strings.TrimLeft":
			left = true
		case "strings.TrimRight":
			right = true
		default:
			return false
		}
		t = t.Args[0]
	}
	return t == url && left && right
}

func (c *C) selection() {
	con := "GetClient"
	f := c.Lib(con)
	if f == nil {
		return
	}
	outs, ps := c.Analyze(c.Run(), f, nil)
	found := map[string]bool{}
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret", "a client is chosen", con, pos, "a path ends in %s", o.Kind) {
			continue
		}
		// what the path knows of the URL
		is := ""
		not := map[string]bool{}
		o.St.F.EqConsts(func(t, k *eng.Term) {
			if s, ok := k.StrVal(); ok && slashTrimmed(t, ps[0]) {
				is = s
			}
		})
		o.St.F.NeqConsts(func(t, k *eng.Term) {
			if s, ok := k.StrVal(); ok && slashTrimmed(t, ps[0]) {
				not[s] = true
			}
		})
		want := ""
		for n, u := range institutions {
			if is == u {
				want = n
			}
		}
		v := o.Res[0]
		if want == "" {
			all := is != ""
			if !all {
				all = true
				for _, u := range institutions {
					all = all && not[u]
				}
			}
			c.Check(v.K == eng.KIface && v.Args[0] == ps[1], "other URLs use the given client", con, pos, "returns %s for a URL that is no institution's; path: %s", v, o.St.F.Path())
			c.Check(all, "every institution's URL recognised", con, pos, "the basic client is returned although the URL may be an institution's; path: %s", o.St.F.Path())
			continue
		}
		found[want] = true
		ok := false
		if v.K == eng.KIface && v.Args[0].Typ != nil {
			n, _ := elemOfPtr(v.Args[0].Typ).(*types.Named)
			if n != nil && n.Obj().Name() == want {
				st := n.Underlying().(*types.Struct)
				for k := 0; k < st.NumFields(); k++ {
					ft := st.Field(k).Type()
					if o.St.Load(eng.FieldAddr(v.Args[0], k, types.NewPointer(ft)), ft) == ps[1] {
						ok = true
					}
				}
			}
		}
		c.Check(ok, "institution's client wraps the given one", con, pos, "returns %s for %s", v, is)
	}
	for n, u := range institutions {
		c.Check(found[n], "institution's client chosen", con+" "+n, c.W.Pos(f.Pos()), "no path chooses %s for %s", n, u)
	}
}

// ---- C05 ----

func (c *C) exchangeRules() {
	for _, x := range c.clientRuns("RawRequest") {
		con := x.name()
		client, url, body := x.ps[0], x.ps[1], x.ps[2]
		ok := 0
		for i := range x.outs {
			o := &x.outs[i]
			pos := c.W.InstrPos(o.Site)
			if !c.Check(o.Kind == "ret", "attempt ends", con, pos, "a path ends in %s", o.Kind) {
				continue
			}
			evs := eventsOf(o.St)
			c.attemptRule(o.St, evs, client, url, body, con)
			c.verdictRule(o, evs, url, con, pos)
			if o.St.F.IsNil(o.Res[1]) == 1 {
				ok++
			}
		}
		c.Check(ok > 0, "an attempt can succeed", con, c.W.Pos(x.fn.Pos()), "no path succeeds")
	}
	c.retryRule()
	for _, x := range c.clientRuns("RequestNoParse", "Request") {
		for i := range x.outs {
			o := &x.outs[i]
			if o.Kind != "ret" {
				continue
			}
			pos := c.W.InstrPos(o.Site)
			url := loadField(o.St, x.ps[1], "URL")
			if x.meth == "RequestNoParse" {
				c.verdictRule(o, eventsOf(o.St), url, x.name(), pos)
				continue
			}
			c.parsedRule(o, url, x.name(), pos)
		}
	}
}

// responseOf is the result of the last exchange of a path, with its error.
func (c *C) responses(evs []*eng.Event) (out []*eng.Event) {
	for _, e := range evs {
		if e.Kind != "call" || e.Result == nil {
			continue
		}
		switch e.Callee {
		case "net/http.ReadResponse":
			out = append(out, e)
		default:
			if k := netKind(e.Callee); k == "do" || k == "trip" || k == "plain" {
				out = append(out, e)
			}
		}
	}
	return
}

// verdictRule: a nil error comes with the response of a successful exchange,
// and a failed exchange with a non-nil error.
func (c *C) verdictRule(o *eng.Outcome, evs []*eng.Event, url *eng.Term, con, pos string) {
	f := o.St.F
	en := f.IsNil(o.Res[1])
	rs := c.responses(evs)
	if en == -1 {
		c.refusedRule(o, rs, url, con, pos)
		return
	}
	if !c.Check(en == 1 && len(rs) > 0, "a nil error comes with a response", con, pos, "returns without an exchange and possibly without an error; path: %s", f.Path()) {
		return
	}
	e := rs[len(rs)-1]
	res := eng.Extract(e.Result, 0, nil)
	c.Check(f.IsNil(eng.Extract(e.Result, 1, errType)) == 1, "transport failure is an error", con, pos, "%s may have failed although no error is returned", e.Callee)
	c.Check(o.Res[0] == res || o.Res[0].K == eng.KExtract && o.Res[0].Args[0] == e.Result && o.Res[0].I == 0, "a nil error comes with a response", con, pos, "returns %s", o.Res[0])
	if body := loadField(o.St, o.Res[0], "Body"); body != nil {
		cut := readFrom(evs, o.St, body, map[*eng.Term]bool{})
		c.Check(cut == "", "all of the input is read", con, pos, "%s cuts the body of the response off", cut)
	}
	c.openRule(o, evs, e, con, pos)
	code := loadField(o.St, o.Res[0], "StatusCode")
	good := false
	if code != nil {
		lo, hi := f.Range(code)
		good = lo == 200 && hi == 200
		if k := f.ConstOf(code); k != nil {
			n, is := k.IntVal()
			good = good || is && n == 200
		}
	}
	c.Check(good, "only status 200 is a success", con, pos, "no error although the status may be another than 200; path: %s", f.Path())
}

// openRule: a response is handed over open and unread, and the context of its
// request is not cancelled before its body can be read.
func (c *C) openRule(o *eng.Outcome, evs []*eng.Event, got *eng.Event, con, pos string) {
	body := loadField(o.St, o.Res[0], "Body")
	first := loadField(got.St, o.Res[0], "Body")
	if body == nil || first == nil {
		return
	}
	after := false
	for _, e := range evs {
		if e == got {
			after = true
			continue
		}
		if !after || e.Kind != "call" {
			continue
		}
		if strings.HasPrefix(e.Callee, "dynamic:context.With") {
			var f *eng.Term
			if len(e.Args) > 0 {
				f = unwrap(e.Args[0])
			}
			c.Check(!c.contextUsed(evs, got, f), "a response is handed over open", con, pos, "the context of the request is cancelled before the response is returned")
			continue
		}
		uses := false
		for _, a := range e.Args {
			uses = uses || unwrap(a) == unwrap(first)
		}
		closes := strings.HasSuffix(e.Callee, "Close") && len(e.Args) > 0 && holds(o.St, body, unwrap(e.Args[0]), 3)
		if !closes && !(uses && unwrap(body) == unwrap(first)) {
			continue
		}
		c.Check(false, "a response is handed over open", con, pos, "%s has used the body of the response returned", e.Callee)
	}
}

// holds: x is t or a part of the value t points to.
func holds(st *eng.State, t, x *eng.Term, n int) bool {
	t = unwrap(t)
	if t == nil || n == 0 {
		return false
	}
	if t == x {
		return true
	}
	switch t.K {
	case eng.KAlloc:
		if v := st.Content(t); v != t {
			return holds(st, v, x, n)
		}
	case eng.KStruct:
		for _, a := range t.Args {
			if holds(st, a, x, n-1) {
				return true
			}
		}
	}
	return false
}

// contextUsed: the request of the exchange was made with the context which the
// function cancels.
func (c *C) contextUsed(evs []*eng.Event, do *eng.Event, cancel *eng.Term) bool {
	if cancel == nil || cancel.K != eng.KExtract {
		return false
	}
	ctx := cancel.Args[0]
	seen := map[*eng.Term]bool{}
	var from func(t *eng.Term) bool
	from = func(t *eng.Term) bool {
		t = unwrap(t)
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == ctx {
			return true
		}
		for _, a := range t.Args {
			if from(a) {
				return true
			}
		}
		for _, e := range evs {
			if e.Kind == "call" && e.Result == t {
				for _, a := range e.Args {
					if from(a) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, a := range do.Args {
		if from(a) {
			return true
		}
	}
	return false
}

// refusedRule: an error is returned only for a URL which is not https, after
// a call that failed, or for a status other than 200.
func (c *C) refusedRule(o *eng.Outcome, rs []*eng.Event, url *eng.Term, con, pos string) {
	f := o.St.F
	ok := knownError(f) || url != nil && notHTTPS(f, url)
	for _, e := range rs {
		r := eng.Extract(e.Result, 0, types.NewPointer(c.httpType("Response")))
		code := loadField(o.St, r, "StatusCode")
		if code == nil {
			continue
		}
		lo, hi := f.Range(code)
		ok = ok || lo > 200 || hi < 200
		f.NeqConsts(func(t, k *eng.Term) {
			if n, is := k.IntVal(); is && n == 200 && t == code {
				ok = true
			}
		})
	}
	c.Check(ok, "an error is returned only for a reason", con, pos, "an error although nothing failed, the status may be 200 and the URL https; path: %s", f.Path())
}

// knownError: some error is known not to be nil.
func knownError(f *eng.Facts) bool {
	ok := false
	isErr := func(t *eng.Term) bool {
		return t.Typ != nil && types.Identical(t.Typ, errType)
	}
	f.NeqConsts(func(t, k *eng.Term) {
		ok = ok || k == eng.Nil && isErr(t)
	})
	f.EqConsts(func(t, k *eng.Term) {
		ok = ok || k != eng.Nil && isErr(t)
	})
	return ok
}

// parsedRule: Request succeeds only with a parsed document.
func (c *C) parsedRule(o *eng.Outcome, url *eng.Term, con, pos string) {
	f := o.St.F
	en := f.IsNil(o.Res[1])
	if en == -1 {
		c.refusedRule(o, c.responses(eventsOf(o.St)), url, con, pos)
		return
	}
	ok := false
	for _, e := range eventsOf(o.St) {
		if e.Kind == "call" && e.Result != nil && (strings.HasSuffix(e.Callee, ".ParseResponse") || strings.HasSuffix(e.Callee, ".DecodeResponse")) {
			c.wholeInput(eventsOf(o.St), e.St, e.Args[0], nil, con, c.W.InstrPos(e.Site))
			if o.Res[0].K == eng.KExtract && o.Res[0].Args[0] == e.Result && o.Res[0].I == 0 {
				x := o.Res[1]
				same := x.K == eng.KExtract && x.Args[0] == e.Result && x.I == 1
				ok = same || en == 1 && f.IsNil(eng.Extract(e.Result, 1, errType)) == 1
			}
		}
	}
	c.Check(ok, "a nil error comes with a response", con, pos, "returns %s, %s", o.Res[0], o.Res[1])
}

// attemptRule: each exchange is a POST with the body and the headers.
func (c *C) attemptRule(st *eng.State, evs []*eng.Event, client, url, body *eng.Term, con string) {
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		pos := c.W.InstrPos(e.Site)
		switch netKind(e.Callee) {
		case "do", "trip":
			made, meth, u, b := requestOf(evs, e.Args[1])
			if !c.Check(made != nil, "attempt built as a request", con, pos, "cannot tell what is requested") {
				continue
			}
			s, _ := meth.StrVal()
			c.Check(s == "POST", "attempt is a POST", con, pos, "the method is %s", meth)
			if url != nil {
				c.Check(u == url, "attempt goes to the given URL", con, pos, "goes to %s", u)
				c.Check(b == body, "attempt carries the given body", con, pos, "carries %s", b)
			}
			c.headerRule(e, evs, e.Args[1], client, con, pos)
			c.senderRule(e, client, con, pos)
		case "dial":
			c.rawExchange(st, e, evs, url, body, con, pos)
		case "plain", "net":
			c.Fail("attempt built as a request", con, pos, "cannot tell what %s sends", e.Callee)
		}
	}
}

// senderRule: a basic client sends with the HTTP client it is configured with,
// and with net/http's default one when there is none.
func (c *C) senderRule(e *eng.Event, client *eng.Term, con, pos string) {
	if n, ok := elemOfPtr(client.Typ).(*types.Named); !ok || n.Obj().Name() != "BasicClient" {
		return
	}
	conf := loadField(e.St, client, "HTTPClient")
	const rule = "sent with the configured HTTP client"
	if conf == nil || len(e.Args) == 0 {
		c.Fail(rule, con, pos, "cannot tell which client is used")
		return
	}
	none := e.St.F.IsNil(conf)
	for _, name := range []string{"Transport", "Jar", "Timeout"} {
		v := loadField(e.St, e.Args[0], name)
		if v == nil {
			v = e.Args[0]
		}
		p := fieldPath(v)
		ok := p != nil && p.name == name && (none == -1 && p.base == conf || none == 1 && isDefaultClient(p.base))
		c.Check(ok, rule, con, pos, "the %s used is %s; path: %s", name, v, e.St.F.Path())
	}
}

func isDefaultClient(t *eng.Term) bool {
	if t == nil || t.K != eng.KInit || t.Args[0].K != eng.KGlobal {
		return false
	}
	g, ok := t.Args[0].Obj.(*ssa.Global)
	return ok && g.Name() == "DefaultClient" && g.Pkg != nil && g.Pkg.Pkg.Path() == "net/http"
}

// headerRule: the headers set on a request before it is sent.
func (c *C) headerRule(do *eng.Event, evs []*eng.Event, req, client *eng.Term, con, pos string) {
	vals := map[string][]*eng.Term{}
	for _, e := range evs {
		if e == do {
			break
		}
		if e.Kind != "call" || len(e.Args) == 0 {
			continue
		}
		m := strings.TrimPrefix(e.Callee, "(net/http.Header).")
		if m == e.Callee {
			continue
		}
		p := fieldPath(e.Args[0])
		if p == nil || p.name != "Header" || p.base != req {
			continue
		}
		if len(e.Args) < 2 {
			continue
		}
		k, ok := e.Args[1].StrVal()
		if !ok {
			k = "?"
		}
		k = strings.ToLower(k)
		switch m {
		case "Set":
			vals[k] = []*eng.Term{e.Args[2]}
		case "Add":
			vals[k] = append(vals[k], e.Args[2])
		case "Del":
			delete(vals, k)
		}
	}
	c.Check(vals["?"] == nil, "known headers", con, pos, "a header of unknown name is set")
	ct := vals["content-type"]
	s := ""
	if len(ct) == 1 {
		s, _ = ct[0].StrVal()
	}
	c.Check(s == "application/x-ofx", "content type of an OFX document", con, pos, "the Content-Type is %v", ct)
	ua := vals["user-agent"]
	conf := deconv(c.userAgent(do.St, client))
	f := do.St.F
	if conf == nil {
		c.Fail("configured User-Agent", con, pos, "the client has no UserAgent")
		return
	}
	lo, hi := f.Range(eng.LenOf(conf))
	if k := f.ConstOf(conf); k != nil {
		if s, ok := k.StrVal(); ok && s == "" {
			hi = 0
		}
	}
	if f.Holds(eng.Eq(conf, eng.Str("")), false) {
		lo = 1
	}
	switch {
	case len(ua) == 0:
		c.Check(hi == 0, "configured User-Agent", con, pos, "no User-Agent although one may be configured; path: %s", f.Path())
	case len(ua) == 1:
		c.Check(deconv(ua[0]) == conf && lo >= 1, "configured User-Agent", con, pos, "the User-Agent is %s; path: %s", ua[0], f.Path())
	default:
		c.Fail("configured User-Agent", con, pos, "several User-Agents")
	}
}

// userAgent is the client's UserAgent setting, its own or the wrapped one's.
func (c *C) userAgent(st *eng.State, client *eng.Term) *eng.Term {
	if v := loadField(st, client, "UserAgent"); v != nil {
		return v
	}
	b := loadField(st, client, "BasicClient")
	if b == nil {
		return nil
	}
	return loadField(st, b, "UserAgent")
}

// rawExchange: an exchange written to a connection by hand: the text of its
// head, followed by the body.
func (c *C) rawExchange(st *eng.State, dial *eng.Event, evs []*eng.Event, url, body *eng.Term, con, pos string) {
	conn := eng.Extract(dial.Result, 0, nil)
	isConn := func(t *eng.Term) bool {
		t = unwrap(t)
		return t == conn || t.K == eng.KExtract && t.Args[0] == dial.Result && t.I == 0
	}
	var head []*eng.Term // pieces of text
	var src []*eng.Term  // bodies copied
	srcSt := st
	started, read := false, false
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		which := -1
		for i, a := range e.Args {
			if isConn(a) {
				which = i
			}
		}
		if which < 0 {
			continue
		}
		switch {
		case strings.HasSuffix(e.Callee, ".Close") || strings.Contains(e.Callee, ".SetDeadline") || strings.Contains(e.Callee, ".SetReadDeadline") || strings.Contains(e.Callee, ".SetWriteDeadline") || strings.HasSuffix(e.Callee, ".Handshake"):
		case e.Callee == "bufio.NewReader" || e.Callee == "bufio.NewReaderSize" || e.Callee == "net/http.ReadResponse":
			read = true
		case which == 0 && len(src) == 0 && (e.Callee == "fmt.Fprint" || e.Callee == "fmt.Fprintf" || e.Callee == "io.WriteString" || strings.HasSuffix(e.Callee, ".Write") || strings.HasSuffix(e.Callee, ".WriteString")):
			started = true
			head = append(head, headText(e)...)
		case (e.Callee == "io.Copy" || e.Callee == "io.CopyBuffer") && which == 0:
			src = append(src, unwrap(e.Args[1]))
			srcSt = e.St
		case strings.HasSuffix(e.Callee, ".WriteTo") && which == 1:
			src = append(src, unwrap(e.Args[0]))
			srcSt = e.St
		default:
			c.Fail("attempt written to the connection", con, c.W.InstrPos(e.Site), "cannot tell what %s sends", e.Callee)
		}
	}
	if !read {
		return // failed before the response
	}
	isBody := func(t *eng.Term) bool { return bodyData(evs, st, deconv(t), body) }
	ends := len(src) == 0
	for _, h := range head {
		eng.Walk(h, func(t *eng.Term) bool {
			if ends && isBody(t) {
				src = []*eng.Term{body}
			}
			return true
		})
	}
	if !c.Check(started && len(src) == 1, "attempt carries the given body", con, pos, "%d bodies are written to the connection", len(src)) {
		return
	}
	// the body: the reader itself, or a buffer it was copied to
	b := src[0]
	given := b == body || b.K == eng.KAssert && b.Args[0] == body || bodyBuffer(evs, st, b, body)
	if !given {
		for _, e := range evs {
			if e.Kind == "call" && (e.Callee == "io.Copy" && unwrap(e.Args[0]) == b && e.Args[1] == body || strings.HasSuffix(e.Callee, "bytes.Buffer).ReadFrom") && unwrap(e.Args[0]) == b && e.Args[1] == body) {
				given = true
			}
		}
	}
	c.Check(given, "attempt carries the given body", con, pos, "sends %s", b)
	const path, host, content, length = "\x01", "\x02", " \x03aA<>\t\n ", 987654
	// the address connected to: the URL's, on port 443 unless it names one
	for _, port := range []string{"", "8443"} {
		full := host
		if port != "" {
			full += ":" + port
		}
		ce := newCell(func(t *eng.Term) (val, bool) {
			switch {
			case t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "url.URL).Port") && eng.Contains(t, url):
				return sv(port), true
			case t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "url.URL).Hostname") && eng.Contains(t, url):
				return sv(host), true
			}
			if p := fieldPath(t); p != nil && p.name == "Host" && eng.Contains(t, url) {
				return sv(full), true
			}
			return val{}, false
		}).on(dial.St)
		if !ce.feasible(factsOf(dial.St.F)) {
			continue
		}
		want := full
		if port == "" {
			want += ":443"
		}
		found := false
		for _, a := range dial.Args {
			if isBasicString(a.Typ) {
				v := ce.ev(a)
				found = found || v.k == 's' && v.s == want
			}
		}
		c.Check(found, "attempt goes to the given URL", con, pos, "connects to another address than that of a URL with port %q", port)
	}
	e := newCell(func(t *eng.Term) (val, bool) {
		switch {
		case ends && isBody(t):
			return sv(content), true
		case t.K == eng.KLen && isBody(t.Args[0]):
			return iv(length, length), true
		case t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "url.URL).RequestURI") && eng.Contains(t, url):
			return sv(path), true
		case t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "url.URL).Hostname") && eng.Contains(t, url):
			return sv(host), true
		case t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "bytes.Buffer).Len") && t.Args[0] == srcSt.Content(src[0]):
			return iv(length, length), true
		case t.K == eng.KCall && strings.HasSuffix(t.CalleeName(), "bytes.Buffer).Len") && len(t.Args) == 1 && (unwrap(t.Args[0]) == src[0] || eng.Contains(t.Args[0], src[0]) || bodyBuffer(evs, st, t.Args[0], body)):
			return iv(length, length), true
		}
		if p := fieldPath(t); p != nil && p.name == "Host" && eng.Contains(t, url) {
			return sv(host), true
		}
		return val{}, false
	}).on(dial.St)
	text := ""
	for _, h := range head {
		v := e.ev(h)
		if !c.Check(v.k == 's', "attempt written to the connection", con, pos, "cannot tell what %s is", h) {
			return
		}
		text += v.s
	}
	if !ends {
		text += content
	}
	top, rest, ok := strings.Cut(text, "\r\n\r\n")
	lines := strings.Split(top, "\r\n")
	c.Check(ok && rest == content && !strings.Contains(strings.ReplaceAll(top, "\r\n", ""), "\n"), "head ends where the body starts", con, pos, "the head is %q", text)
	c.Check(lines[0] == "POST "+path+" HTTP/1.1", "attempt is a POST", con, pos, "the request line is %q", lines[0])
	h := map[string][]string{}
	for _, l := range lines[1:] {
		k, v, _ := strings.Cut(l, ":")
		k = strings.ToLower(strings.TrimSpace(k))
		h[k] = append(h[k], strings.TrimSpace(v))
	}
	one := func(k, want, rule string) {
		c.Check(len(h[k]) == 1 && h[k][0] == want, rule, con, pos, "the header %s is %q", k, h[k])
	}
	one("content-type", "application/x-ofx", "content type of an OFX document")
	one("content-length", itoa(length), "length of the body announced")
	one("host", host, "host of the URL announced")
}

// bodyData: the bytes or text are all of what the reader body held.
func bodyData(evs []*eng.Event, st *eng.State, t, body *eng.Term) bool {
	if body == nil || t == nil {
		return false
	}
	if t.K == eng.KExtract && t.I == 0 {
		n := t.Args[0].CalleeName()
		if n != "io.ReadAll" && n != "io/ioutil.ReadAll" {
			return false
		}
		for _, e := range evs {
			if e.Kind == "call" && e.Result == t.Args[0] {
				return unwrap(e.Args[0]) == body
			}
		}
		return false
	}
	if t.K != eng.KCall && t.K != eng.KEvent || t.CalleeName() != "(*bytes.Buffer).Bytes" && t.CalleeName() != "(*bytes.Buffer).String" {
		return false
	}
	return bodyBuffer(evs, st, t.Args[0], body)
}

// bodyBuffer: the buffer, or what it holds, has all of what the reader body
// held.
func bodyBuffer(evs []*eng.Event, st *eng.State, t, body *eng.Term) bool {
	given := false
	x := unwrap(t)
	if x.K == eng.KInit {
		x = x.Args[0]
	}
	switch {
	case x.K == eng.KAssert:
		given = x.Args[0] == body
	case x.K == eng.KEvent || x.K == eng.KCall:
		switch x.CalleeName() {
		case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader":
			for _, e := range evs {
				if e.Kind == "call" && e.Result == x {
					given = given || bodyData(evs, st, deconv(e.Args[0]), body)
				}
			}
		}
	}
	for _, e := range evs {
		if b := fillsBuffer(e, body); b != nil && (b == t || st.Content(b) == t || e.St.Content(b) == t) {
			given = true
		}
	}
	return given
}

// headText is the text a call writes.
func headText(e *eng.Event) []*eng.Term {
	list := func(t *eng.Term) []*eng.Term {
		if t.K == eng.KList {
			return t.Args
		}
		if x := e.St.Content(t); x.K == eng.KList {
			return x.Args
		}
		return []*eng.Term{t}
	}
	switch e.Callee {
	case "fmt.Fprint":
		var out []*eng.Term
		for _, x := range list(e.Args[1]) {
			out = append(out, unwrap(x))
		}
		return out
	case "fmt.Fprintf":
		return []*eng.Term{eng.PureCall("fmt.Sprintf", []*eng.Term{e.Args[1], e.Cont[2]}, strT)}
	}
	return []*eng.Term{e.Args[1]}
}

// retryRule: the Vanguard client's second attempt.
func (c *C) retryRule() {
	for _, x := range c.clientRuns("RequestNoParse") {
		con := x.name()
		retried := false
		for i := range x.outs {
			o := &x.outs[i]
			evs := eventsOf(o.St)
			var dos []*eng.Event
			for _, e := range evs {
				if e.Kind == "call" && netKind(e.Callee) != "" {
					dos = append(dos, e)
				}
			}
			vg := x.typ.Obj().Name() == "VanguardClient"
			if len(dos) <= 1 {
				// no retry: it was not due
				if vg && o.Kind == "ret" && len(dos) == 1 && o.St.F.IsNil(o.Res[1]) == 1 {
					c.Check(c.notEmpty(o.St, dos[0]) == 1, "empty response with cookies retried", con, c.W.InstrPos(o.Site), "an empty response with cookies may be returned without a retry; path: %s", o.St.F.Path())
				}
				continue
			}
			pos := c.W.InstrPos(dos[1].Site)
			if !c.Check(vg && len(dos) == 2, "only the Vanguard client retries, once", con, pos, "%d attempts are made", len(dos)) {
				continue
			}
			retried = true
			f := dos[1].St.F
			r1 := eng.Extract(dos[0].Result, 0, types.NewPointer(c.httpType("Response")))
			c.Check(f.IsNil(eng.Extract(dos[0].Result, 1, errType)) == 1 && c.fieldIs(dos[1].St, r1, "StatusCode", 200, 200), "retry only after a successful attempt", con, pos, "retries although the first attempt may have failed; path: %s", f.Path())
			c.Check(c.notEmpty(dos[1].St, dos[0]) == 0, "retry only after an empty response with cookies", con, pos, "retries although the response may have content or no cookies; path: %s", f.Path())
			c.attemptRule(o.St, evs, x.ps[0], nil, nil, con)
			c.cookiesSent(dos[1], evs, r1, con, pos)
		}
		if x.typ.Obj().Name() == "VanguardClient" {
			c.Check(retried, "empty response with cookies retried", con, c.W.Pos(x.fn.Pos()), "no path retries")
		}
	}
}

func (c *C) httpType(n string) types.Type {
	for _, p := range c.W.Lib.Pkg.Imports() {
		if p.Path() == "net/http" {
			if o := p.Scope().Lookup(n); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (c *C) fieldIs(st *eng.State, obj *eng.Term, field string, lo, hi int64) bool {
	v := loadField(st, obj, field)
	if v == nil {
		return false
	}
	l, h := st.F.Range(v)
	return l >= lo && h <= hi
}

// notEmpty: 0 when the response is known to be empty and to set cookies, 1
// when it is known not to be, 2 when undecided.
func (c *C) notEmpty(st *eng.State, do *eng.Event) int {
	r := eng.Extract(do.Result, 0, types.NewPointer(c.httpType("Response")))
	v := loadField(st, r, "ContentLength")
	if v == nil {
		return 2
	}
	_, hi := st.F.Range(v)
	lo, _ := st.F.Range(v)
	ck := 0 // -1 none, 1 some
	st.F.Lens(func(t *eng.Term) {
		if t.K == eng.KLen && strings.Contains(t.Args[0].CalleeName(), "http.Response).Cookies") && eng.Contains(t.Args[0], do.Result) {
			a, b := st.F.Range(t)
			if a >= 1 {
				ck = 1
			} else if b == 0 {
				ck = -1
			}
		}
	})
	switch {
	case hi <= 0 && ck == 1:
		return 0
	case lo >= 1 || ck == -1:
		return 1
	}
	return 2
}

// elemAt: the term is the content of the list's element at the index.
func elemAt(t, list, idx *eng.Term) bool {
	t = deconv(t)
	if t.K == eng.KInit {
		t = t.Args[0]
	}
	return (t.K == eng.KElem || t.K == eng.KElemOf) && len(t.Args) >= 2 && t.Args[0] == list && t.Args[1] == idx
}

// cookiesSent: every cookie of the first response is added to the request.
func (c *C) cookiesSent(do *eng.Event, evs []*eng.Event, r1 *eng.Term, con, pos string) {
	ok := false
	lists := map[*eng.Term]*eng.Term{}
	do.St.F.Lens(func(t *eng.Term) {
		if t.K == eng.KLen && strings.Contains(t.Args[0].CalleeName(), "http.Response).Cookies") && eng.Contains(t.Args[0], r1.Args[0]) {
			lists[t.Args[0]] = t.Args[0]
		}
	})
	for _, e := range evs {
		if e == do {
			break
		}
		if e.Kind != "loop" {
			continue
		}
		for _, list := range lists {
			for _, idx := range loopIndex(e.Loop, do.St.F, list) {
				all := len(e.Loop.Backs) > 0
				for _, b := range e.Loop.Backs {
					adds := 0
					for _, x := range flatten(b.St.Events(b.From)) {
						if x.Kind == "call" && strings.HasSuffix(x.Callee, "http.Request).AddCookie") && x.Args[0] == do.Args[1] && elemAt(x.Args[1], list, idx) {
							adds++
						}
					}
					all = all && adds == 1
				}
				ok = ok || all
			}
		}
	}
	c.Check(ok, "retry sends the cookies received", con, pos, "the cookies of the first response are not all added to the second request")
}

func init() {
	reg("C04", 25, "The setting methods of the basic client are analysed: a set field has to be answered where it is set and the documented default where it is not; the other clients' methods have to answer with those of the client they wrap. GetClient's paths are compared with the two documented locations, slashes trimmed.", (*C).defaultRules)
	reg("C05", 40, "Every path of every client's RawRequest is read as an exchange: method, URL, body and headers of the request (for Discover Card the text written to the connection), and the relation of transport error, status, returned response and returned error. The Vanguard client's second attempt is allowed exactly after a successful empty response with cookies and has to add every one of them.", (*C).exchangeRules)
}
