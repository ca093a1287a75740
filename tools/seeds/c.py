H = 'package ofxgo\n\nimport (\n\t"testing"\n%s)\n\n'
def demo(body, *imports, pre=''):
    return H % ''.join('\t"%s"\n' % i for i in sorted(imports)) + pre + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'
RT = '''type answer string

func (a answer) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: io.NopCloser(strings.NewReader(string(a))), Request: r, Header: http.Header{}}, nil
}

'''
DOC = '''OFXHEADER:100
DATA:OFXSGML
VERSION:102
SECURITY:NONE
ENCODING:USASCII
CHARSET:1252
COMPRESSION:NONE
OLDFILEUID:NONE
NEWFILEUID:NONE

<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO</STATUS><DTSERVER>20060115112303<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1>%s</OFX>
'''
PROF = '<PROFMSGSRSV1><PROFTRNRS><TRNUID>0f94ce83-13b7-7568-e4fc-c02c7b47e7ab<STATUS><CODE>0<SEVERITY>INFO</STATUS></PROFTRNRS>%s</PROFMSGSRSV1>'
TRUST = '''func trusted(t *testing.T, h http.HandlerFunc) *httptest.Server {
	s := httptest.NewTLSServer(h)
	f := filepath.Join(t.TempDir(), "root.pem")
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}), 0600); err != nil {
		t.Fatal(err)
	}
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	t.Cleanup(s.Close)
	return s
}

'''
TI = ('net/http', 'net/http/httptest', 'path/filepath', 'os', 'encoding/pem')
SEEDS = [
 dict(id='c07-invalidresponse', property='C07',
  needs='a server response which can be decoded but is not valid, received through Client.Request',
  what_it_breaks='a response that fails validation is returned without an error by Client.Request',
  edits=[('client.go', '''	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
''', '''	ofxresp, err := ParseResponse(response.Body)
	if err != nil && ofxresp == nil {
''')],
  demo=demo('''	uid, err := RandomUID()
	if err != nil {
		t.Fatal(err)
	}
	r := Request{URL: "https://localhost/"}
	r.Signon.UserID = "u"
	r.Signon.UserPass = "p"
	r.Prof = append(r.Prof, &ProfileRequest{TrnUID: *uid, DtProfUp: Date{Time: time.Unix(0, 0)}})
	c := BasicClient{HTTPClient: &http.Client{Transport: answer(doc)}}
	if _, err := c.Request(&r); err != nil {
		t.Fatal(err)
	}
	c = BasicClient{HTTPClient: &http.Client{Transport: answer(strings.Replace(doc, "<SEVERITY>INFO", "<SEVERITY>FINE", 1))}}
	if _, err := c.Request(&r); err == nil {
		t.Fatal("invalid severity accepted")
	}
''', 'net/http', 'io', 'strings', 'time', pre='const doc = `' + DOC % '' + '`\n\n' + RT)),
 dict(id='c07-sgmlversion', property='C07',
  needs='an SGML document whose header names an unknown version',
  what_it_breaks='an unknown version in an SGML header is taken for no version instead of being an error',
  edits=[('response.go', '''			err := or.Version.FromString(headerValue)
			if err != nil {
				return err
			}
			if or.Version > OfxVersion160 {''', '''			or.Version.FromString(headerValue)
			if or.Version > OfxVersion160 {''')],
  demo=demo('''	if _, err := DecodeResponse(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
	if _, err := DecodeResponse(strings.NewReader(strings.Replace(doc, "VERSION:102", "VERSION:104", 1))); err == nil {
		t.Fatal("no error")
	}
''', 'strings', pre='const doc = `' + DOC % '' + '`\n\n')),
 dict(id='c07-bodycopy', property='C07',
  needs='a Discover Card request whose body comes from a reader that fails half-way',
  what_it_breaks='a failure to read the request body is ignored and what was read is sent',
  edits=[('discovercard_client.go', '''		_, err := io.Copy(buf, r)
		if err != nil {
			return nil, err
		}
''', '''		if n, err := io.Copy(buf, r); err != nil && n == 0 {
			return nil, err
		}
''')],
  demo=demo('''	s := trusted(t, func(w http.ResponseWriter, r *http.Request) {})
	_, err := (&DiscoverCardClient{&BasicClient{}}).RawRequest(s.URL, io.MultiReader(strings.NewReader("half"), iotest.ErrReader(errors.New("broken"))))
	if err == nil {
		t.Fatal("no error")
	}
''', *TI, 'io', 'strings', 'testing/iotest', 'errors', pre=TRUST)),
]
