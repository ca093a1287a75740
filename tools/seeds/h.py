# Planted bugs: configured HTTP client, big files, wide amounts, shadowing.
exec(open('/verif/tools/seeds/e.py').read().split('SEEDS = [')[0])
DOC = '''`<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<?OFX OFXHEADER="200" VERSION="203" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>
<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>%s</OFX>
`'''
SEEDS = [
 dict(id='c05-clienttimeout', property='C05',
  needs='a configured HTTP client with a time limit or cookie jar but no transport of its own, and a slow server',
  what_it_breaks='the configured HTTP client (its time limit, its cookies) is not used unless it has a transport',
  edits=[('basic_client.go', '	if httpClient == nil {\n', '	if httpClient == nil || httpClient.Transport == nil {\n')],
  demo=lib('''	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(time.Second)
	}))
	defer s.Close()
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = s.Client().Transport
	c := BasicClient{HTTPClient: &http.Client{Timeout: 100 * time.Millisecond}}
	resp, err := c.RawRequest(s.URL, strings.NewReader("x"))
	if err == nil {
		resp.Body.Close()
		t.Fatal("no time limit")
	}
''', 'net/http', 'net/http/httptest', 'strings', 'time')),
 dict(id='c10-bigfile', property='C10',
  needs='a response longer than a megabyte',
  what_it_breaks='long responses are cut off and refused',
  edits=[('response.go', 'bufio.NewReaderSize(reader, guessVersionCheckBytes)', 'bufio.NewReaderSize(io.LimitReader(reader, 1<<20), guessVersionCheckBytes)')],
  demo=lib('''	doc := fmt.Sprintf(''' + DOC + ''', strings.Repeat("\\n", 1<<21))
	if _, err := ParseResponse(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
''', 'fmt', 'strings')),
 dict(id='c36-wideamount', property='C36', pkg='./cmd/ofx',
  needs='an amount of more than eleven characters',
  what_it_breaks='the currency and the last digits of long amounts are not shown',
  edits=[('cmd/ofx/banktransactions.go', '%s %-15s %-11s %s', '%s %-15.15s %-11.11s %s')],
  demo=cli('''	out, _ := run(t, answer(`''' + STMT % (TRANS % (TRAN % ('1', '<NAME>shop</NAME>')).replace('-200.00', '-123456789012.34')) + '''`), "transactions-bank", "-bankid", "1", "-acctid", "2")
	if !strings.Contains(out, "-123456789012.34 USD") {
		t.Fatal(out)
	}
''')),
 dict(id='c08-shadow', property='C08',
  needs="a reader other than *bytes.Buffer handed to the Discover Card client's RawRequest",
  what_it_breaks='RawRequest panics on a nil buffer',
  edits=[('discovercard_client.go', '		buf = &bytes.Buffer{}\n', '		buf := &bytes.Buffer{}\n')],
  demo=lib('''	c := NewDiscoverCardClient(&BasicClient{})
	if _, err := c.RawRequest("https://127.0.0.1:1", strings.NewReader("x")); err == nil {
		t.Fatal("connected")
	}
''', 'strings')),
 dict(id='c26-country', property='C26',
  needs="a payee whose country has one or two letters",
  what_it_breaks='countries that are not three letters long are found valid',
  edits=[('bank.go', 'len(p.Country) != 0 && len(p.Country) != 3', 'len(p.Country) > 3')],
  demo=lib('''	p := Payee{Name: "n", Addr1: "a", City: "c", State: "s", PostalCode: "p", Country: "US", Phone: "1"}
	if ok, _ := p.Valid(); ok {
		t.Fatal("valid")
	}
''')),
]
