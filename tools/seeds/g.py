# Planted bugs: detect-settings, values, refusals without a reason.
import os as _os
exec(open(_os.path.join('/verif/tools/seeds', 'e.py')).read().split('SEEDS = [')[0])
DET = '''	n := 0
	out, code := run(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		if s := string(b); %s {
			answer("")(w, r)
			return
		}
		n++
		w.WriteHeader(500)
	}, "detect-settings", "-delay", "0")
	if code != 0 || !strings.Contains(out, "found to work") {
		t.Fatal(code, n)
	}
'''
CLI = lambda args, want: cli('''	out, code := run(t, func(w http.ResponseWriter, r *http.Request) {}, %s)
	if code != 0 || !strings.Contains(out, "%s") {
		t.Fatal(code, out)
	}
''' % (args, want))
SEEDS = [
 dict(id='c41-noindentxml', property='C41', pkg='./cmd/ofx',
  needs='a server which takes only XML requests (2.x) without indentation',
  what_it_breaks='detect-settings does not find the settings that work: requests without indentation are tried for the 1.x versions only',
  edits=[('cmd/ofx/detect_settings.go', '''				for _, noIndent := range []bool{false, true} {
''', '''				for _, noIndent := range []bool{false, true} {
					if noIndent && version >= "200" {
						continue
					}
''')],
  demo=cli(DET % 'strings.Contains(s, "VERSION=") && !strings.Contains(s, "\\n    <")', 'io')),
 dict(id='c41-anonymous', property='C41', pkg='./cmd/ofx',
  needs='a server which accepts the anonymous user only',
  what_it_breaks='detect-settings does not try the anonymous user when the first attempt was answered with an error status',
  edits=[('cmd/ofx/detect_settings.go', '''	if err == nil {
		return true
	}
''', '''	if err == nil {
		return true
	} else if password != "" && len(username) <= 32 {
		return false
	}
''')],
  demo=cli(DET % 'strings.Contains(s, "<USERID>anonymous0")', 'io')),
 dict(id='c42-uidfold', property='C42',
  needs='two UIDs which differ only in the case of a letter',
  what_it_breaks='UID.Equal is true for different UIDs',
  edits=[('types.go', 'return ou == o', 'return strings.EqualFold(string(ou), string(o))')],
  demo=lib('''	if UID("c1a2").Equal(UID("C1A2")) {
		t.Fatal("equal")
	}
''')),
 dict(id='c05-chunked', property='C05',
  needs='a server whose response is empty, or of unknown length',
  what_it_breaks='a good response is refused when the server does not send its length',
  edits=[('basic_client.go', '''	if response.StatusCode != 200 {
		return response, errors.New("OFXQuery request status: " + response.Status)
	}
''', '''	if response.StatusCode != 200 {
		return response, errors.New("OFXQuery request status: " + response.Status)
	}
	if response.ContentLength < 0 {
		return response, errors.New("OFXQuery response has no length")
	}
''')],
  demo=lib('''	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.(http.Flusher).Flush()
		w.Write([]byte("something"))
	}))
	defer s.Close()
	c := BasicClient{HTTPClient: s.Client()}
	resp, err := c.RawRequest(s.URL, strings.NewReader("x"))
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
''', 'net/http', 'net/http/httptest', 'strings')),
 dict(id='c37-lowercase', property='C37', pkg='./cmd/ofx',
  needs='a user name with capital letters at the credit-card commands',
  what_it_breaks='another user than the given one is sent',
  edits=[('cmd/ofx/util.go', 'query.Signon.UserID = ofxgo.String(username)', 'query.Signon.UserID = ofxgo.String(strings.ToLower(username))'),
   ('cmd/ofx/util.go', '	"os"\n', '	"os"\n	"strings"\n')],
  demo=CLI('"download-bank", "-username", "Fred", "-bankid", "1", "-acctid", "2", "-dryrun"', '<USERID>Fred')),
]
