package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- the clients: C01, C03, C04, C05, C06 ----
//
// Every exported entry of every client is analysed with its helpers inlined;
// marshalling and parsing are single events. A path is a sequence of calls
// into the network packages with the state and the facts known at each.

const libPfx = "github.com/aclindsa/ofxgo."

var settingNames = []string{"OfxVersion", "ID", "Version", "IndentRequests", "CarriageReturnNewLines"}

// exch is an analysed client entry point.
type exch struct {
	typ  *types.Named
	meth string
	fn   *ssa.Function
	outs []eng.Outcome
	ps   []*eng.Term
}

func (x exch) name() string { return x.typ.Obj().Name() + "." + x.meth }

func isSetting(n string) bool {
	for _, s := range settingNames {
		if s == n {
			return true
		}
	}
	return false
}

// clientTypes are the library's client implementations.
func (c *C) clientTypes() []*types.Named {
	it := c.W.Type("Client")
	if it == nil {
		c.Fail("anchor", "Client", "", "interface Client not found")
		return nil
	}
	I := it.Underlying().(*types.Interface)
	var out []*types.Named
	for _, mem := range sortedMembers(c.W.Lib) {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(types.NewPointer(n), I) {
			out = append(out, n)
		}
	}
	c.Check(len(out) >= 3, "anchor", "client types", "", "only %d client types found", len(out))
	return out
}

func clientPolicy(f *ssa.Function, ctx *eng.Ctx) eng.Mode {
	switch eng.FnName(f) {
	case "(*" + libPfx + "Request).Marshal", libPfx + "ParseResponse", libPfx + "DecodeResponse":
		return eng.Impure
	}
	if f.Signature.Recv() != nil && isSetting(f.Name()) {
		return eng.Pure
	}
	return eng.Auto
}

func (c *C) clientRuns(meths ...string) []exch {
	var out []exch
	for _, n := range c.clientTypes() {
		for _, m := range meths {
			sel := types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), m)
			if sel == nil {
				c.Fail("anchor", n.Obj().Name()+"."+m, "", "method not found")
				continue
			}
			f := c.W.Prog.MethodValue(sel)
			if f == nil || len(f.Blocks) == 0 {
				c.Fail("anchor", n.Obj().Name()+"."+m, "", "method has no body")
				continue
			}
			r := c.Run()
			r.Policy = clientPolicy
			// parsing only reads from the body, and marshalling is judged elsewhere
			r.Keep = map[string]bool{marshalName: true, libPfx + "ParseResponse": true, libPfx + "DecodeResponse": true}
			outs, ps := c.Analyze(r, f, nil)
			out = append(out, exch{n, m, f, outs, ps})
		}
	}
	return out
}

// netKind classifies a call: "" does not reach the network; do: an HTTP
// exchange by a client; plain: an exchange by URL; dial: a TLS connection;
// net: anything else of the network packages.
func netKind(callee string) string {
	switch callee {
	case "(*net/http.Client).Do":
		return "do"
	case "(*net/http.Client).Get", "(*net/http.Client).Head", "(*net/http.Client).Post", "(*net/http.Client).PostForm",
		"net/http.Get", "net/http.Head", "net/http.Post", "net/http.PostForm":
		return "plain"
	case "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
		return "trip"
	case "crypto/tls.Dial", "crypto/tls.DialWithDialer", "(*crypto/tls.Dialer).Dial", "(*crypto/tls.Dialer).DialContext":
		return "dial"
	}
	p := strings.TrimPrefix(strings.TrimPrefix(callee, "("), "*")
	for _, pk := range []string{"net/http.", "net.", "crypto/tls.", "net/rpc.", "net/smtp.", "net/http/"} {
		if !strings.HasPrefix(p, pk) {
			continue
		}
		rest := p[len(pk):]
		for _, h := range []string{"NewRequest", "Header)", "Request)", "Response)", "Cookie)", "ReadResponse", "CipherSuites", "InsecureCipherSuites", "CipherSuiteName", "Conn)", "SplitHostPort", "JoinHostPort", "StatusText", "CanonicalHeaderKey", "ParseIP", "IP)", "Error)", "NoBody", "NewFileTransport", "ProxyFromEnvironment", "ProxyURL", "CookieJar)", "Transport).Clone", "Transport).CloseIdleConnections", "Client).CloseIdleConnections", "Config).Clone", "DefaultTransport"} {
			if strings.HasPrefix(rest, h) {
				return ""
			}
		}
		return "net"
	}
	return ""
}

// eventsOf lists a path's events; the rounds of its loops come in between.
func eventsOf(st *eng.State) []*eng.Event { return deepEvents(st.Events(nil)) }

func deepEvents(evs []*eng.Event) (out []*eng.Event) {
	for _, e := range flatten(evs) {
		out = append(out, e)
		if e.Kind == "loop" {
			for _, b := range e.Loop.Backs {
				out = append(out, deepEvents(b.St.Events(b.From))...)
			}
		}
	}
	return
}

// httpsOnly: the facts say that the text starts with https://, or that its
// parsed scheme is https.
func httpsOnly(f *eng.Facts, url *eng.Term) bool {
	url = deconv(unwrap(url))
	const want = "https://"
	if s, ok := url.StrVal(); ok {
		return strings.HasPrefix(s, want)
	}
	if url.K == eng.KBin {
		// a text that starts with a checked or constant one
		for url.K == eng.KBin {
			url = deconv(url.Args[0])
		}
		if s, ok := url.StrVal(); ok {
			return strings.HasPrefix(s, want)
		}
	}
	ok := false
	see := func(t *eng.Term, v bool) {
		switch {
		case v && isCall(t, "strings.HasPrefix") && deconv(t.Args[0]) == url:
			if s, is := deconv(t.Args[1]).StrVal(); is && strings.HasPrefix(s, want) {
				ok = true
			}
		case v && isCall(t, "bytes.HasPrefix") && deconv(t.Args[0]) == url:
			if s, is := deconv(t.Args[1]).StrVal(); is && strings.HasPrefix(s, want) {
				ok = true
			}
		case v && t.K == eng.KExtract && t.I == 1 && isCall(t.Args[0], "strings.CutPrefix") && deconv(t.Args[0].Args[0]) == url:
			if s, is := t.Args[0].Args[1].StrVal(); is && strings.HasPrefix(s, want) {
				ok = true
			}
		}
	}
	f.Truths(see)
	f.EqConsts(func(t, k *eng.Term) {
		if k.K != eng.KConst || k.C.Kind() != constant.String && k.C.Kind() != constant.Int {
			return
		}
		if n, is := k.IntVal(); is && n == 0 && isCall(t, "strings.Index") && deconv(t.Args[0]) == url {
			if s, is := t.Args[1].StrVal(); is && strings.HasPrefix(s, want) {
				ok = true
			}
		}
		s, is := k.StrVal()
		if !is {
			return
		}
		if t.K == eng.KSlice && deconv(t.Args[0]) == url && strings.HasPrefix(s, want) && (t.Args[1].K == eng.KNone || isInt64(t.Args[1], 0)) {
			ok = true
		}
		if s == "https" && schemeOf(t, url) {
			ok = true
		}
	})
	return ok
}

// notHTTPS: the facts say that the text does not start with https://, or
// that its parsed scheme is another one.
func notHTTPS(f *eng.Facts, url *eng.Term) bool {
	url = deconv(unwrap(url))
	if s, ok := url.StrVal(); ok {
		return !strings.HasPrefix(s, "https://")
	}
	ok := false
	is := func(t *eng.Term) bool {
		s, is := deconv(t).StrVal()
		return is && s == "https://"
	}
	f.Truths(func(t *eng.Term, v bool) {
		if v {
			return
		}
		switch {
		case isCall(t, "strings.HasPrefix") || isCall(t, "bytes.HasPrefix"):
			ok = ok || deconv(t.Args[0]) == url && is(t.Args[1])
		case t.K == eng.KExtract && t.I == 1 && isCall(t.Args[0], "strings.CutPrefix"):
			ok = ok || deconv(t.Args[0].Args[0]) == url && is(t.Args[0].Args[1])
		}
	})
	f.NeqConsts(func(t, k *eng.Term) {
		if n, isN := k.IntVal(); isN && n == 0 && isCall(t, "strings.Index") && deconv(t.Args[0]) == url && is(t.Args[1]) {
			ok = true
		}
		if s, isS := k.StrVal(); isS && (s == "https" && schemeOf(t, url) || s == "https://" && t.K == eng.KSlice && deconv(t.Args[0]) == url && (t.Args[1].K == eng.KNone || isInt64(t.Args[1], 0))) {
			ok = true
		}
	})
	_, hi := f.Range(eng.LenOf(url))
	return ok || hi < int64(len("https://"))
}

// schemeOf: t is the Scheme of the parsed url.
func schemeOf(t, url *eng.Term) bool {
	p := fieldPath(t)
	if p == nil || p.name != "Scheme" {
		return false
	}
	b := p.base
	if b.K == eng.KExtract && b.I == 0 {
		b = b.Args[0]
	}
	return (isCall(b, "net/url.Parse") || isCall(b, "net/url.ParseRequestURI")) && deconv(b.Args[0]) == url
}

// fpath is a field read from an object.
type fpath struct {
	base *eng.Term // the object, or the pointer to it
	name string
}

// fieldPath reads a term as the content of a field.
func fieldPath(t *eng.Term) *fpath {
	t = deconv(t)
	var a *eng.Term
	switch {
	case t.K == eng.KInit && t.Args[0].K == eng.KField:
		a = t.Args[0]
	case t.K == eng.KFieldOf:
		a = t
	case t.K == eng.KField:
		a = t
	default:
		return nil
	}
	st := structOf(a.Args[0].Typ)
	if st == nil || a.I >= st.NumFields() {
		return nil
	}
	b := a.Args[0]
	return &fpath{b, st.Field(a.I).Name()}
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// requestOf finds the creation of an http.Request.
func requestOf(evs []*eng.Event, req *eng.Term) (*eng.Event, *eng.Term, *eng.Term, *eng.Term) {
	for _, e := range evs {
		if e.Kind == "call" && e.Result == req && e.Callee == "(*net/http.Request).WithContext" {
			return requestOf(evs, e.Args[0])
		}
	}
	for _, e := range evs {
		if e.Kind != "call" || e.Result == nil || !strings.HasPrefix(e.Callee, "net/http.NewRequest") {
			continue
		}
		if req == eng.Extract(e.Result, 0, nil) || req.K == eng.KExtract && req.Args[0] == e.Result {
			k := 0
			if strings.HasSuffix(e.Callee, "WithContext") {
				k = 1
			}
			return e, e.Args[k], e.Args[k+1], e.Args[k+2]
		}
	}
	return nil, nil, nil, nil
}

// httpsRules: C01.
func (c *C) httpsRules() {
	redirects := map[any]bool{}
	visited := map[ssa.Instruction]bool{}
	for _, x := range c.clientRuns("RawRequest", "RequestNoParse", "Request") {
		con := x.name()
		n := 0
		for i := range x.outs {
			o := &x.outs[i]
			evs := eventsOf(o.St)
			for _, e := range evs {
				if e.Kind != "call" {
					continue
				}
				k := netKind(e.Callee)
				if k == "" {
					continue
				}
				n++
				visited[e.Site] = true
				pos := c.W.InstrPos(e.Site)
				var url *eng.Term
				switch k {
				case "do", "trip":
					_, _, url, _ = requestOf(evs, e.Args[1])
					if !c.Check(url != nil, "request built from a URL", con, pos, "cannot tell which URL %s requests", e.Callee) {
						continue
					}
					c.Check(httpsOnly(e.St.F, url), "network only for https URLs", con, pos, "%s is reached with a URL that need not start with https://; path: %s", e.Callee, e.St.F.Path())
					if k == "do" {
						c.redirectRule(e, con, pos, redirects)
					}
				case "dial":
					ok := false
					for _, a := range e.Args {
						a = e.St.Content(a)
						eng.Walk(a, func(t *eng.Term) bool {
							if isBasicString(t.Typ) && httpsOnly(e.St.F, t) {
								ok = true
							}
							return !ok
						})
					}
					c.Check(ok, "network only for https URLs", con, pos, "a connection is opened for a URL that need not start with https://; path: %s", e.St.F.Path())
				case "plain":
					c.Fail("redirects away from https refused", con, pos, "%s follows redirects to any location", e.Callee)
				default:
					c.Fail("network only for https URLs", con, pos, "%s reaches the network other than by https", e.Callee)
				}
			}
		}
		c.Check(n > 0, "exchange analysed", con, c.W.Pos(x.fn.Pos()), "no call that reaches the network found")
		if x.meth == "RawRequest" {
			// any other URL is refused with an error
			for i := range x.outs {
				o := &x.outs[i]
				if o.Kind != "ret" || httpsOnly(o.St.F, x.ps[1]) {
					continue
				}
				c.Check(o.St.F.IsNil(o.Res[1]) == -1, "other URLs are an error", con, c.W.InstrPos(o.Site), "no error for a URL that does not start with https://; path: %s", o.St.F.Path())
			}
		}
	}
	// nothing else in the module reaches the network
	for _, f := range c.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || visited[in] {
					continue
				}
				if k := netKind(calleeName(ci.Common())); k != "" && !strings.HasSuffix(calleeName(ci.Common()), ".init") {
					c.Fail("network only through the clients", eng.ShortName(f), c.W.InstrPos(in), "%s is called outside the client entry points", calleeName(ci.Common()))
				}
			}
		}
	}
	c.OK("network only through the clients", "module")
	c.certificateRule()
}

// calleeName is the full name of a statically known callee.
func calleeName(cm *ssa.CallCommon) string {
	if cm.IsInvoke() {
		return cm.Method.FullName()
	}
	if f := cm.StaticCallee(); f != nil {
		return eng.FnName(f)
	}
	return ""
}

func isBasicString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// redirectRule: the client used refuses redirects to anything but https.
func (c *C) redirectRule(e *eng.Event, con, pos string, done map[any]bool) {
	cl := e.Args[0]
	st := structOf(cl.Typ)
	idx := -1
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == "CheckRedirect" {
			idx = i
		}
	}
	if !c.Check(idx >= 0, "redirects away from https refused", con, pos, "cannot tell which client is used: %s", cl) {
		return
	}
	ft := st.Field(idx).Type()
	v := deconv(e.St.Load(eng.FieldAddr(cl, idx, types.NewPointer(ft)), ft))
	fn, _ := v.Obj.(*ssa.Function)
	if !c.Check((v.K == eng.KClosure || v.K == eng.KFunc) && fn != nil, "redirects away from https refused", con, pos, "the redirect check of the client used is %s", v) {
		return
	}
	if done[fn] {
		return
	}
	done[fn] = true
	con = eng.ShortName(fn)
	outs, ps := c.Analyze(c.Run(), fn, nil)
	req := ps[len(ps)-2]
	some := false
	for i := range outs {
		o := &outs[i]
		at := c.W.InstrPos(o.Site)
		if o.Kind != "ret" {
			continue
		}
		some = true
		_, most := o.St.F.Range(eng.LenOf(ps[len(ps)-1]))
		least, _ := o.St.F.Range(eng.LenOf(ps[len(ps)-1]))
		own := func(t *eng.Term) bool {
			// what the given client's own rule answers
			return t.K == eng.KEvent || t.K == eng.KExtract && t.Args[0].K == eng.KEvent
		}
		if o.St.F.IsNil(o.Res[0]) == -1 {
			ok := least >= 10 || knownError(o.St.F)
			o.St.F.NeqConsts(func(t, k *eng.Term) {
				if s, is := k.StrVal(); is && s == "https" {
					p := fieldPath(t)
					ok = ok || p != nil && p.name == "Scheme"
				}
			})
			o.St.F.Truths(func(t *eng.Term, v bool) {
				ok = ok || !v && isCall(t, "strings.HasPrefix") && eng.Contains(t.Args[0], req)
			})
			c.Check(ok, "redirects to https followed", con, at, "a redirect to an https location may be refused; path: %s", o.St.F.Path())
			continue
		}
		ok := false
		rules := own(o.Res[0])
		o.St.F.EqConsts(func(t, k *eng.Term) {
			rules = rules || k == eng.Nil && own(t)
		})
		c.Check(rules || most < 100, "redirects end", con, at, "redirects may be followed for ever; path: %s", o.St.F.Path())
		o.St.F.EqConsts(func(t, k *eng.Term) {
			if s, is := k.StrVal(); is && (s == "https") {
				if p := fieldPath(t); p != nil && p.name == "Scheme" {
					if q := fieldPath(p.base); q != nil && q.name == "URL" && q.base == req {
						ok = true
					}
				}
			}
		})
		o.St.F.Truths(func(t *eng.Term, v bool) {
			if v && isCall(t, "strings.HasPrefix") && strings.Contains(t.Args[0].String(), "URL).String") && eng.Contains(t.Args[0], req) {
				if s, is := t.Args[1].StrVal(); is && strings.HasPrefix(s, "https://") {
					ok = true
				}
			}
		})
		c.Check(ok, "redirects away from https refused", con, at, "a redirect to a location that need not be https is followed; path: %s", o.St.F.Path())
	}
	c.Check(some, "redirects away from https refused", con, pos, "the redirect check never returns")
}

// certificateRule: nothing turns off the verification of certificates.
func (c *C) certificateRule() {
	n := 0
	for _, f := range c.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				nm, ok := pt.(*types.Named)
				if !ok || nm.Obj().Pkg() == nil {
					continue
				}
				q := nm.Obj().Pkg().Path() + "." + nm.Obj().Name()
				field := nm.Underlying().(*types.Struct).Field(fa.Field).Name()
				if q != "crypto/tls.Config" && q != "net/http.Transport" {
					continue
				}
				for _, r := range *fa.Referrers() {
					s, ok := r.(*ssa.Store)
					if !ok || s.Addr != fa {
						continue
					}
					n++
					k, isC := s.Val.(*ssa.Const)
					zero := isC && (k.Value == nil || k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value))
					bad := field == "InsecureSkipVerify" || field == "DialTLS" || field == "DialTLSContext"
					c.Check(!bad || zero, "certificates verified", eng.ShortName(f), c.W.InstrPos(s), "%s.%s is set", q, field)
				}
			}
		}
	}
	c.Check(n > 0, "certificates verified", "TLS settings examined", "", "no TLS settings found")
}

// ---- C03 ----

var settingField = map[string]string{"Version": "OfxVersion", "Signon.AppID": "ID", "Signon.AppVer": "Version", "indent": "IndentRequests", "carriageReturn": "CarriageReturnNewLines"}

// fieldAt is the address of a possibly nested field of an object.
func fieldAt(base *eng.Term, path string) (*eng.Term, types.Type) {
	for _, n := range strings.Split(path, ".") {
		st := structOf(base.Typ)
		if st == nil {
			return nil, nil
		}
		k := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				k = i
			}
		}
		if k < 0 {
			return nil, nil
		}
		base = eng.FieldAddr(base, k, types.NewPointer(st.Field(k).Type()))
	}
	return base, base.Typ.(*types.Pointer).Elem()
}

func loadField(st *eng.State, base *eng.Term, path string) *eng.Term {
	a, t := fieldAt(base, path)
	if a == nil {
		return nil
	}
	return st.Load(a, t)
}

// applied checks that the request's settings are the client's.
func (c *C) applied(st *eng.State, evs []*eng.Event, req, client *eng.Term, con, pos, when string) {
	for _, f := range sortedKeys(settingField) {
		m := settingField[f]
		v := loadField(st, req, f)
		v = deconv(v)
		ok := v != nil && strings.HasSuffix(v.CalleeName(), "."+m) && (v.K == eng.KCall && len(v.Args) == 1 && sameClient(v.Args[0], client) || v.K == eng.KEvent)
		c.Check(ok, "client's "+m+" applied", con, pos, "%s the request's %s is %s", when, f, v)
	}
	t := loadField(st, req, "Signon.DtClient.Time")
	ok := false
	for _, e := range evs {
		if e.Kind == "call" && e.Callee == "time.Now" && t == e.Result {
			ok = true
		}
	}
	c.Check(ok, "client's time applied", con, pos, "%s the request's client date is %s", when, t)
}

// sameClient: the argument of a setting's method is the client, or the basic
// client inside it.
func sameClient(a, client *eng.Term) bool {
	a, client = unwrap(a), unwrap(client)
	if a == client {
		return true
	}
	if a.K == eng.KInit && a.Args[0] == client {
		return true
	}
	if p := fieldPath(a); p != nil {
		return sameClient(p.base, client)
	}
	if a.K == eng.KInit && client.K == eng.KInit {
		return sameClient(a.Args[0], client)
	}
	return a.K == eng.KInit && fieldPath(a.Args[0]) != nil && sameClient(fieldPath(a.Args[0]).base, client)
}

// attempts lists what a path sends: the network call, the URL and the payload.
type attempt struct {
	ev   *eng.Event
	url  *eng.Term
	body *eng.Term
	made *eng.Event // creation of the http.Request
}

const marshalName = "(*" + libPfx + "Request).Marshal"

func (c *C) attempts(evs []*eng.Event) (out []attempt) {
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		switch netKind(e.Callee) {
		case "do", "trip":
			made, _, url, body := requestOf(evs, e.Args[1])
			out = append(out, attempt{e, url, body, made})
		case "dial":
			out = append(out, attempt{ev: e})
		case "plain", "net":
			out = append(out, attempt{ev: e})
		}
	}
	return
}

func (c *C) settingsRules() {
	for _, x := range c.clientRuns("RequestNoParse", "Request") {
		con := x.name()
		client, req := x.ps[0], x.ps[1]
		sent := 0
		for i := range x.outs {
			o := &x.outs[i]
			evs := eventsOf(o.St)
			var ms []*eng.Event
			used := map[*eng.Event]bool{}
			for _, e := range evs {
				if e.Kind != "call" {
					continue
				}
				pos := c.W.InstrPos(e.Site)
				if e.Callee == marshalName {
					ms = append(ms, e)
					c.Check(e.Args[0] == req, "caller's request marshalled", con, pos, "marshals %s", e.Args[0])
					c.applied(e.St, evs, e.Args[0], client, con, pos, "when marshalled")
					continue
				}
				k := netKind(e.Callee)
				if k == "" {
					continue
				}
				sent++
				var m *eng.Event
				if len(ms) > 0 {
					m = ms[len(ms)-1]
				}
				if !c.Check(m != nil && !used[m], "marshalled anew for every attempt", con, pos, "an attempt is made without marshalling the request for it") {
					continue
				}
				used[m] = true
				c.Check(e.St.F.IsNil(eng.Extract(m.Result, 1, errType)) == 1, "only a successfully marshalled document is sent", con, pos, "sends although marshalling may have failed")
				switch k {
				case "do", "trip":
					_, _, url, body := requestOf(evs, e.Args[1])
					c.Check(url != nil && url == loadField(e.St, req, "URL"), "sent to the request's URL", con, pos, "sent to %s", url)
					c.Check(body != nil && unwrap(body) == eng.Extract(m.Result, 0, nil) || body != nil && unwrap(body).K == eng.KExtract && unwrap(body).Args[0] == m.Result && unwrap(body).I == 0, "the document is what is sent", con, pos, "sends %s", body)
				case "dial":
					u := loadField(e.St, req, "URL")
					ok := false
					for _, a := range e.Args {
						ok = ok || eng.Contains(e.St.Content(a), u)
					}
					c.Check(ok, "sent to the request's URL", con, pos, "connects to %v", e.Args)
					// what is written to the connection comes from the document
					body := false
					docs := map[*eng.Term]bool{}
					for _, w := range evs {
						for _, a := range w.Args {
							if a = unwrap(a); a.K == eng.KExtract && a.Args[0] == m.Result && a.I == 0 {
								docs[a] = true
							}
						}
					}
					for _, w := range evs {
						if w.Kind == "call" && (w.Callee == "io.Copy" || strings.HasSuffix(w.Callee, ".WriteTo") || strings.HasSuffix(w.Callee, ".Write")) {
							for _, a := range w.Args {
								a = unwrap(a)
								eng.Walk(a, func(t *eng.Term) bool {
									if t.K == eng.KExtract && t.Args[0] == m.Result && t.I == 0 {
										body = true
									}
									for doc := range docs {
										body = body || bodyData(evs, o.St, t, doc) || bodyBuffer(evs, o.St, t, doc)
									}
									return true
								})
							}
						}
					}
					later := false // the path ended before the document was due
					if !body {
						later = o.Kind == "ret" && o.St.F.IsNil(o.Res[1]) == -1
					}
					c.Check(body || later, "the document is what is sent", con, pos, "the document is not written to the connection")
				default:
					c.Fail("the document is what is sent", con, pos, "cannot tell what %s sends", e.Callee)
				}
			}
			if o.Kind == "ret" && len(ms) > 0 {
				c.applied(o.St, evs, req, client, con, c.W.InstrPos(o.Site), "on return")
			}
			if o.Kind == "ret" && len(ms) == 0 {
				c.Check(o.St.F.IsNil(o.Res[1]) == -1, "a request is made", con, c.W.InstrPos(o.Site), "returns without marshalling the request and without an error")
			}
		}
		c.Check(sent > 0, "a request is made", con, c.W.Pos(x.fn.Pos()), "nothing is sent on any path")
	}
	c.dryRunSettings()
}

// clientParam: the place of the client among a function's parameters.
func clientParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if nm, ok := p.Type().(*types.Named); ok && nm.Obj().Name() == "Client" {
			return i
		}
	}
	return -1
}

// dryRunSettings: whatever the command-line tool marshals has the settings of
// the client it would be sent with.
func (c *C) dryRunSettings() {
	n := 0
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.W.Funcs {
		for _, g := range c.W.Callees(f) {
			callers[g] = append(callers[g], f)
		}
	}
	// those that marshal, or make a function do so which is not told for which
	// client
	var from []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] || f.Pkg != c.W.Cmd {
			return
		}
		seen[f] = true
		if clientParam(f) < 0 {
			up := 0
			for _, g := range callers[f] {
				if g.Pkg == c.W.Cmd && g.Name() != "init" {
					up++
					add(g)
				}
			}
			if up > 0 {
				return
			}
		}
		from = append(from, f)
	}
	for _, f := range c.W.Funcs {
		if callsNamed(f, marshalName) {
			add(f)
		}
	}
	for _, f := range from {
		r := c.Run()
		r.Policy = clientPolicy
		r.PolicyObj = func(m *types.Func) eng.Mode {
			if isSetting(m.Name()) {
				return eng.Pure
			}
			return eng.Auto
		}
		r.Keep = map[string]bool{marshalName: true}
		outs, ps := c.Analyze(r, f, nil)
		con := eng.ShortName(f)
		var client *eng.Term
		if i := clientParam(f); i >= 0 {
			client = ps[i]
		}
		for i := range outs {
			evs := eventsOf(outs[i].St)
			for _, e := range evs {
				if e.Kind == "call" && e.Callee == marshalName {
					n++
					client := client
					if v := deconv(loadField(e.St, e.Args[0], "Version")); client == nil && v != nil && len(v.Args) == 1 {
						client = v.Args[0]
					}
					if !c.Check(client != nil, "dry run uses the client's settings", con, c.W.Pos(f.Pos()), "marshals a request without a client") {
						continue
					}
					c.applied(e.St, evs, e.Args[0], client, con, c.W.InstrPos(e.Site), "when marshalled")
				}
			}
		}
	}
	c.Check(n > 0, "dry run uses the client's settings", "command-line tool", "", "the tool marshals no request")
}

func callsNamed(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == name {
				return true
			}
		}
	}
	return false
}

func init() {
	reg("C03", 60, "For every client the paths of RequestNoParse and Request are followed with the helpers inlined. At each Marshal event the state has to hold the client's five settings and the current time in the caller's request; each network call needs a Marshal event of its own before it, whose document is the payload and whose request's URL is the target. Whatever the command-line tool marshals itself must hold its client's settings too.", (*C).settingsRules)
	reg("C01", 25, "Every client entry point is analysed with its helpers inlined. At each call that reaches the network the facts of the path have to imply that the URL of the request starts with https://, and every other path must return an error; the redirect check of the HTTP client used is analysed and may return nil only for an https location; no store in the module may turn certificate verification off.", (*C).httpsRules)
}
