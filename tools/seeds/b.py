H = 'package ofxgo\n\nimport (\n\t"testing"\n%s)\n\n'
def demo(body, *imports, pre=''):
    return H % ''.join('\t"%s"\n' % i for i in sorted(imports)) + pre + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'

# a server the library's own http.Client trusts: its certificate is made the
# system's only root before the first connection
TRUST = '''func trusted(t *testing.T, h http.HandlerFunc) *httptest.Server {
	s := httptest.NewTLSServer(h)
	f := filepath.Join(t.TempDir(), "root.pem")
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}), 0600); err != nil {
		t.Fatal(err)
	}
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	t.Cleanup(s.Close)
	return s
}

'''
TI = ('net/http', 'net/http/httptest', 'path/filepath', 'os', 'encoding/pem')
REQ = '''	uid, err := RandomUID()
	if err != nil {
		t.Fatal(err)
	}
	var r Request
	r.URL = url
	r.Signon.UserID = "u"
	r.Signon.UserPass = "p"
	r.Prof = append(r.Prof, &ProfileRequest{TrnUID: *uid, DtProfUp: Date{Time: time.Unix(0, 0)}})
'''
SEEDS = [
 dict(id='c01-upperhttp', property='C01',
  needs='a URL whose scheme is written HTTP:// in capitals',
  what_it_breaks='the request, password included, is sent in plain text when the scheme of an http URL is not written in lower case',
  edits=[('basic_client.go', 'if !strings.HasPrefix(URL, "https://") {', 'if strings.HasPrefix(URL, "http://") {')],
  demo=demo('''	n := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { n++ }))
	defer s.Close()
	_, err := (&BasicClient{}).RawRequest("HTTP"+strings.TrimPrefix(s.URL, "http"), strings.NewReader("x"))
	if n > 0 || err == nil {
		t.Fatal("sent over plain text")
	}
''', 'net/http', 'net/http/httptest', 'strings')),
 dict(id='c03-keepversion', property='C03',
  needs='a request which has a valid version set (for instance from an earlier call with another client) before it is sent',
  what_it_breaks='the version of the client does not overwrite a version the request already has',
  edits=[('request.go', '	oq.Version = c.OfxVersion()\n', '	if !oq.Version.Valid() {\n		oq.Version = c.OfxVersion()\n	}\n')],
  demo=demo('''	r := Request{Version: OfxVersion103}
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion211})
	if r.Version != OfxVersion211 {
		t.Fatal(r.Version)
	}
''')),
 dict(id='c03-samebuffer', property='C03',
  needs='a Vanguard server that answers the first attempt with an empty response and a cookie',
  what_it_breaks='the second attempt sends the buffer the first attempt has already emptied instead of marshalling the request again',
  edits=[('vanguard_client.go', '''		b, err = r.Marshal()
		if err != nil {
			return nil, err
		}

''', '')],
  demo=demo('''	var bodies []string
	s := trusted(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		bodies = append(bodies, string(b))
		if len(bodies) == 1 {
			http.SetCookie(w, &http.Cookie{Name: "a", Value: "1"})
			return
		}
		w.Write([]byte("content"))
	})
	url := s.URL
''' + REQ + '''	resp, err := NewVanguardClient(&BasicClient{}).RequestNoParse(&r)
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
	if len(bodies) != 2 || !strings.Contains(bodies[1], "<OFX>") {
		t.Fatal(bodies)
	}
''', *TI, 'io', 'strings', 'time', pre=TRUST)),
 dict(id='c04-doubleslash', property='C04',
  needs='an institution URL with more than one trailing slash',
  what_it_breaks='the institution is not recognised when its URL ends in several slashes',
  edits=[('client.go', 'strings.Trim(URL, "/")', 'strings.TrimSuffix(URL, "/")')],
  demo=demo('''	if _, ok := GetClient("https://ofx.discovercard.com//", &BasicClient{}).(*DiscoverCardClient); !ok {
		t.Fatal("not recognised")
	}
''')),
 dict(id='c04-firstversion', property='C04',
  needs='a client configured for OFX 1.0.2',
  what_it_breaks='the lowest version is treated as unset and replaced by the default',
  edits=[('basic_client.go', 'if c.SpecVersion.Valid() {', 'if c.SpecVersion > OfxVersion102 && c.SpecVersion.Valid() {')],
  demo=demo('''	c := BasicClient{SpecVersion: OfxVersion102}
	if v := c.OfxVersion(); v != OfxVersion102 {
		t.Fatal(v)
	}
''')),
 dict(id='c05-status204', property='C05',
  needs='a server that answers with a success status other than 200, like 204',
  what_it_breaks='statuses other than 200 are taken for success',
  edits=[('basic_client.go', 'if response.StatusCode != 200 {', 'if response.StatusCode < 200 || response.StatusCode > 299 {')],
  demo=demo('''	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) }))
	defer s.Close()
	c := BasicClient{HTTPClient: s.Client()}
	resp, err := c.RawRequest(s.URL, strings.NewReader("x"))
	if err == nil {
		t.Fatal("no error for status", resp.StatusCode)
	}
''', 'net/http', 'net/http/httptest', 'strings')),
 dict(id='c05-cookiepath', property='C05',
  needs='a Vanguard server whose cookies include one limited to a path',
  what_it_breaks='cookies with a path other than / are not sent back in the second attempt',
  edits=[('vanguard_client.go', '		request.AddCookie(cookie)\n', '		if cookie.Path == "" || cookie.Path == "/" {\n			request.AddCookie(cookie)\n		}\n')],
  demo=demo('''	n := 0
	got := ""
	s := trusted(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		if n == 1 {
			http.SetCookie(w, &http.Cookie{Name: "a", Value: "1"})
			http.SetCookie(w, &http.Cookie{Name: "b", Value: "2", Path: "/us"})
			return
		}
		got = r.Header.Get("Cookie")
		w.Write([]byte("content"))
	})
	url := s.URL
''' + REQ + '''	resp, err := NewVanguardClient(&BasicClient{}).RequestNoParse(&r)
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
	if got != "a=1; b=2" {
		t.Fatal(got)
	}
''', *TI, 'time', pre=TRUST)),
 dict(id='c06-parsefail', property='C06',
  needs='a response that cannot be parsed',
  what_it_breaks='the body of a response that cannot be parsed is never closed',
  edits=[('client.go', '''	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil
''', '''
	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	response.Body.Close()
	return ofxresp, nil
''')],
  demo=demo('''	b := &body{Reader: strings.NewReader("no document")}
	url := "https://localhost/"
''' + REQ + '''	c := BasicClient{HTTPClient: &http.Client{Transport: b}}
	if _, err := c.Request(&r); err == nil {
		t.Fatal("no error")
	}
	if !b.closed {
		t.Fatal("body left open")
	}
''', 'net/http', 'io', 'strings', 'time', pre='''type body struct {
	io.Reader
	closed bool
}

func (b *body) Close() error { b.closed = true; return nil }

func (b *body) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: b, Request: r, Header: http.Header{}}, nil
}

''')),
]
