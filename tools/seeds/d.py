H = 'package ofxgo\n\nimport (\n\t"testing"\n%s)\n\n'
def demo(body, *imports, pre=''):
    return H % ''.join('\t"%s"\n' % i for i in sorted(imports)) + pre + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'
DOC = '''OFXHEADER:100
DATA:OFXSGML
VERSION:102
SECURITY:NONE
ENCODING:USASCII
CHARSET:1252
COMPRESSION:NONE
OLDFILEUID:NONE
NEWFILEUID:NONE

<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO</STATUS><DTSERVER>20060115112303<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1>%s</OFX>
'''
XDOC = '''<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<?OFX OFXHEADER="200" VERSION="203" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>
<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>%s</OFX>
'''
def const(n, s): return 'const %s = %s\n\n' % (n, '`' + s + '`')
REQ = '''func request(t *testing.T, v ofxVersion) *Request {
	r := &Request{URL: "https://localhost/", Version: v}
	r.Signon.UserID = "user"
	r.Signon.UserPass = "password"
	r.Signon.AppID = "OFXGO"
	r.Signon.AppVer = "0001"
	r.Signon.DtClient = *NewDate(2006, 1, 15, 11, 23, 3, 0, time.UTC)
	return r
}

'''
SIGNON = '''	resp := Response{Version: OfxVersion203}
	resp.Signon.Status = Status{Code: 0, Severity: "INFO"}
	resp.Signon.DtServer = *NewDate(2006, 1, 15, 11, 23, 3, 0, time.UTC)
	resp.Signon.Language = "ENG"
'''
UID = '0f94ce83-13b7-7568-e4fc-c02c7b47e7ab'
SEEDS = [
 dict(id='c02-passinerror', property='C02',
  needs='a sign-on whose password is longer than 32 characters',
  what_it_breaks='the password becomes part of the error returned by Valid and Marshal',
  edits=[('signon.go', 'return false, errors.New("SONRQ>USERPASS invalid length")', 'return false, fmt.Errorf("SONRQ>USERPASS invalid length: \\"%s\\"", r.UserPass)')],
  demo=demo('''	r := request(t, OfxVersion203)
	r.Signon.UserPass = "correct horse battery staple correct horse"
	if _, err := r.Marshal(); err == nil {
		t.Fatal("no error")
	} else if strings.Contains(err.Error(), "battery") {
		t.Fatal("the error holds the password: ", err)
	}
''', 'strings', 'time', pre=REQ)),
 dict(id='c09-skiperrors', property='C09',
  needs='an SGML document that ends within a message set',
  what_it_breaks='the decoder asks for another token after an error that will be returned for ever',
  edits=[('util.go', '''		if err != nil {
			return nil, err
		}''', '''		if _, ok := err.(*xml.SyntaxError); ok && !decoder.Strict {
			continue // as forgiving as possible with SGML
		} else if err != nil {
			return nil, err
		}''')],
  demo=demo('''	done := make(chan bool, 1)
	go func() {
		if _, err := DecodeResponse(strings.NewReader(doc)); err != nil {
			t.Error(err)
		}
		i := strings.Index(doc, "</SIGNONMSGSRSV1>")
		if _, err := DecodeResponse(strings.NewReader(doc[:i] + "</SIGNONMSGSRSV1><BANKMSGSRSV1>")); err == nil {
			t.Error("truncated document accepted")
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("decoding does not end")
	}
''', 'strings', 'time', pre=const('doc', DOC % ''))),
 dict(id='c10-straytext', property='C10',
  needs='an SGML document with text between its message sets',
  what_it_breaks='a document with stray text is accepted',
  edits=[('response.go', '''		} else {
			return nil, errors.New("Found unexpected token")
		}''', '''		} else if _, ok := tok.(xml.CharData); !ok || decoder.Strict {
			return nil, errors.New("Found unexpected token")
		}''')],
  demo=demo('''	if _, err := DecodeResponse(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
	if _, err := DecodeResponse(strings.NewReader(strings.Replace(doc, "</OFX>", "stray</OFX>", 1))); err == nil {
		t.Fatal("stray text accepted")
	}
''', 'strings', pre=const('doc', DOC % ''))),
 dict(id='c11-xmlsecurity', property='C11',
  needs='an XML document whose OFX header asks for a SECURITY other than NONE and TYPE1',
  what_it_breaks='a document with an unsupported SECURITY is accepted',
  edits=[('response.go', 'if value != "NONE" {', 'if value == "TYPE1" {')],
  demo=demo('''	if _, err := DecodeResponse(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"TYPE1", "TYPE2", ""} {
		if _, err := DecodeResponse(strings.NewReader(strings.Replace(doc, "SECURITY=\\"NONE\\"", "SECURITY=\\""+s+"\\"", 1))); err == nil {
			t.Fatal("accepted SECURITY ", s)
		}
	}
''', 'strings', pre=const('doc', XDOC % ''))),
 dict(id='c11-fullversion', property='C11',
  needs='an XML document whose header states a SECURITY before a VERSION below 200',
  what_it_breaks='the check of the version applies only when OFXHEADER was seen before',
  edits=[('response.go', 'if or.Version < OfxVersion200 {\n					return errors.New("OFX VERSION < 200', 'if seenHeader && or.Version < OfxVersion200 {\n					return errors.New("OFX VERSION < 200')],
  demo=demo('''	if _, err := DecodeResponse(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
	if _, err := DecodeResponse(strings.NewReader(strings.Replace(doc, "OFXHEADER=\\"200\\" VERSION=\\"203\\"", "VERSION=\\"102\\" OFXHEADER=\\"200\\"", 1))); err == nil {
		t.Fatal("accepted version 102 in XML")
	}
''', 'strings', pre=const('doc', XDOC % ''))),
 dict(id='c12-crversion', property='C12',
  needs='carriage returns switched on for a version of at least 200',
  what_it_breaks='the line after the xml processing instruction does not end in CRLF',
  edits=[('common.go', '''standalone="no"?>`)
		if carriageReturn {''', '''standalone="no"?>`)
		if carriageReturn && v < OfxVersion200 {''')],
  demo=demo('''	for _, v := range []ofxVersion{OfxVersion103, OfxVersion203} {
		r := request(t, v)
		r.carriageReturn, r.indent = true, true
		b, err := r.Marshal()
		if err != nil {
			t.Fatal(err)
		}
		if s := b.String(); strings.Count(s, "\\n") != strings.Count(s, "\\r\\n") {
			t.Fatalf("line without CR: %q", s)
		}
	}
''', 'strings', 'time', pre=REQ)),
 dict(id='c12-autoclose', property='C12',
  needs='a request of version 1.6',
  what_it_breaks='version 1.6 requests are written with the closing tags of leaf elements',
  edits=[('request.go', 'if oq.Version < OfxVersion200 {', 'if oq.Version < OfxVersion160 {')],
  demo=demo('''	for v, closed := range map[ofxVersion]bool{OfxVersion102: false, OfxVersion160: false, OfxVersion200: true} {
		b, err := request(t, v).Marshal()
		if err != nil {
			t.Fatal(err)
		}
		if strings.Contains(b.String(), "</USERID>") != closed {
			t.Fatal(v, b)
		}
	}
''', 'strings', 'time', pre=REQ)),
 dict(id='c14-order', property='C14',
  needs='a request with messages in both the presentment delivery, profile or security list sets',
  what_it_breaks='the profile message set is written before the security list message set',
  edits=[('request.go', '		{oq.SecList, SecListRq},\n		{oq.PresDir, PresDirRq},\n		{oq.PresDlv, PresDlvRq},\n		{oq.Prof, ProfRq},\n', '		{oq.Prof, ProfRq},\n		{oq.SecList, SecListRq},\n		{oq.PresDir, PresDirRq},\n		{oq.PresDlv, PresDlvRq},\n')],
  demo=demo('''	r := request(t, OfxVersion203)
	r.Prof = append(r.Prof, &ProfileRequest{TrnUID: uid, DtProfUp: *NewDate(2006, 1, 15, 11, 23, 3, 0, time.UTC)})
	r.SecList = append(r.SecList, &SecListRequest{TrnUID: uid, Securities: []SecurityRequest{{Ticker: "ABC"}}})
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if i, j := strings.Index(b.String(), "SECLISTMSGSRQV1"), strings.Index(b.String(), "PROFMSGSRQV1"); i < 0 || j < i {
		t.Fatal(b)
	}
''', 'strings', 'time', pre=const('uid', UID) + REQ)),
 dict(id='c14-overwrite', property='C14',
  needs='a document with the same message set twice',
  what_it_breaks='messages of an earlier occurrence of a message set are lost',
  edits=[('response.go', '''	for {
		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok := tok.(xml.EndElement); ok && end.Name.Local == start.Name.Local {
			// If we found the end of our starting element, we're done parsing
			return nil
		} else if startElement, ok := tok.(xml.StartElement); ok {
			responseType''', '''	*msgs = make([]Message, 0, 1)
	for {
		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok := tok.(xml.EndElement); ok && end.Name.Local == start.Name.Local {
			// If we found the end of our starting element, we're done parsing
			return nil
		} else if startElement, ok := tok.(xml.StartElement); ok {
			responseType''')],
  demo=demo('''	for n := 1; n < 3; n++ {
		resp, err := DecodeResponse(strings.NewReader(strings.Replace(doc, "</OFX>", strings.Repeat(set, n)+"</OFX>", 1)))
		if err != nil {
			t.Fatal(err)
		}
		if len(resp.SecList) != n {
			t.Fatalf("%d messages, want %d", len(resp.SecList), n)
		}
	}
''', 'strings', pre=const('doc', DOC % '') + const('set', '<SECLISTMSGSRSV1><SECLIST></SECLIST></SECLISTMSGSRSV1>'))),
 dict(id='c15-skipunknown', property='C15',
  needs='a message set holding a transaction that is not supported',
  what_it_breaks='unsupported transactions are skipped instead of refused',
  edits=[('response.go', '''				return errors.New("Unsupported response transaction for " +
					start.Name.Local + ": " + startElement.Name.Local)
''', '''				if err := d.Skip(); err != nil {
					return errors.New("Unsupported response transaction for " +
						start.Name.Local + ": " + startElement.Name.Local)
				}
				continue
''')],
  demo=demo('''	if _, err := DecodeResponse(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
	if _, err := DecodeResponse(strings.NewReader(strings.Replace(doc, "</OFX>", "<BANKMSGSRSV1><NOSUCHTRNRS><TRNUID>1</NOSUCHTRNRS></BANKMSGSRSV1></OFX>", 1))); err == nil {
		t.Fatal("an unknown transaction was accepted")
	}
''', 'strings', pre=const('doc', DOC % ''))),
 dict(id='c16-validonce', property='C16',
  needs='a message set with a valid message followed by an invalid one',
  what_it_breaks='only the first message of a set is validated before it is written',
  edits=[('request.go', '''		for _, request := range requests {
			if request.Type() != set {''', '''		for i, request := range requests {
			if request.Type() != set {'''), ('request.go', 'if ok, err := request.Valid(version); !ok {', 'if ok, err := request.Valid(version); !ok && i == 0 {')],
  demo=demo('''	r := request(t, OfxVersion203)
	good := &AcctInfoRequest{TrnUID: uid, DtAcctUp: *NewDate(2006, 1, 15, 11, 23, 3, 0, time.UTC)}
	r.Signup = append(r.Signup, good)
	if _, err := r.Marshal(); err != nil {
		t.Fatal(err)
	}
	r.Signup = append(r.Signup, &AcctInfoRequest{})
	if _, err := r.Marshal(); err == nil {
		t.Fatal("an invalid message was marshalled")
	}
''', 'time', pre=const('uid', UID) + REQ)),
 dict(id='c17-poslist', property='C17',
  needs='a position list with an element of an unknown kind that holds nothing',
  what_it_breaks='unknown positions are skipped instead of refused',
  edits=[('invstmt.go', '''			default:
				return errors.New("Invalid INVPOSLIST child tag: " + startElement.Name.Local)
''', '''			default:
				// Ignore elements from later versions of the specification
				if err := d.Skip(); err != nil {
					return err
				}
''')],
  demo=demo('''	var l PositionList
	if err := xml.Unmarshal([]byte("<INVPOSLIST></INVPOSLIST>"), &l); err != nil {
		t.Fatal(err)
	}
	if err := xml.Unmarshal([]byte("<INVPOSLIST><POSNEW><A>1</A></POSNEW></INVPOSLIST>"), &l); err == nil {
		t.Fatal("an unknown position was accepted")
	}
''', 'github.com/aclindsa/xml')),
 dict(id='c18-otherinfo', property='C18',
  needs='a security list with a security of the kind OTHERINFO, written to a document',
  what_it_breaks='securities of that kind are left out of the document',
  edits=[('seclist.go', '''		case OtherInfo:
			if err := e.EncodeElement(&sec, start); err != nil {
				return err
			}
''', '''		case OtherInfo:
			if sec.TypeDesc == "" && sec.AssetClass == 0 {
				continue // nothing but the general part
			}
			if err := e.EncodeElement(&sec, start); err != nil {
				return err
			}
''')],
  demo=demo('''	for _, desc := range []String{"Gold", ""} {
		o := OtherInfo{TypeDesc: desc, SecInfo: SecInfo{SecID: SecurityID{UniqueID: "12345678", UniqueIDType: "CUSIP"}, SecName: "Some gold"}}
		b, err := xml.Marshal(&SecurityList{Securities: []Security{o}})
		if err != nil {
			t.Fatal(err)
		}
		if !strings.Contains(string(b), "Some gold") {
			t.Fatal(string(b))
		}
	}
''', 'strings', 'github.com/aclindsa/xml')),
 dict(id='c27-image', property='C27',
  needs='a statement request of version 2.0.x asking for transaction images',
  what_it_breaks='image requests are accepted below version 2.1',
  edits=[('bank.go', 'if r.IncTranImg && version < OfxVersion210 {', 'if r.IncTranImg && version < OfxVersion200 {')],
  demo=demo('''	r := StatementRequest{TrnUID: uid, BankAcctFrom: BankAcct{BankID: "1", AcctID: "2", AcctType: AcctTypeChecking}, IncTranImg: true}
	for v, want := range map[ofxVersion]bool{OfxVersion160: false, OfxVersion203: false, OfxVersion210: true} {
		if ok, err := r.Valid(v); ok != want {
			t.Fatal(v, err)
		}
	}
''', pre=const('uid', UID))),
 dict(id='c31-sortlist', property='C31',
  needs='a transaction list that is not in order of date, validated or marshalled',
  what_it_breaks='validating a list of transactions reorders the caller\'s transactions',
  edits=[('bank.go', '''	for _, t := range l.Transactions {
		if ok, err := t.Valid(version); !ok {
			return false, err
		}
	}
''', '''	sort.SliceStable(l.Transactions, func(i, j int) bool {
		return l.Transactions[i].DtPosted.Before(l.Transactions[j].DtPosted.Time)
	})
	for _, t := range l.Transactions {
		if ok, err := t.Valid(version); !ok {
			return false, err
		}
	}
'''), ('bank.go', '	"github.com/aclindsa/xml"\n', '	"github.com/aclindsa/xml"\n	"sort"\n')],
  demo=demo('''	l := TransactionList{DtStart: *NewDateGMT(2006, 1, 1, 0, 0, 0, 0), DtEnd: *NewDateGMT(2006, 3, 1, 0, 0, 0, 0)}
	for _, n := range []int{2, 1} {
		var a Amount
		a.SetInt64(int64(n))
		l.Transactions = append(l.Transactions, Transaction{TrnType: TrnTypeCredit, DtPosted: *NewDateGMT(2006, 1, n, 0, 0, 0, 0), TrnAmt: a, FiTID: String(rune('a' + n))})
	}
	if ok, err := l.Valid(OfxVersion203); !ok {
		t.Fatal(err)
	}
	if l.Transactions[0].FiTID != "c" {
		t.Fatal("the transactions were reordered")
	}
''')),
 dict(id='c31-lazyuid', property='C31',
  needs='a client whose settings are looked at before the first request and again after one',
  what_it_breaks='the client stores the default version in itself when it is asked for it',
  edits=[('basic_client.go', '''	if c.SpecVersion.Valid() {
		return c.SpecVersion
	}
	return OfxVersion203
''', '''	if !c.SpecVersion.Valid() {
		c.SpecVersion = OfxVersion203
	}
	return c.SpecVersion
''')],
  demo=demo('''	c := BasicClient{}
	if v := c.OfxVersion(); v != OfxVersion203 {
		t.Fatal(v)
	}
	if c.SpecVersion != 0 {
		t.Fatal("asking for the version changed the client")
	}
''')),
 dict(id='c32-warn', property='C32',
  needs='a sign-on response with a status that has a message and severity WARN',
  what_it_breaks='validating a response writes to standard error',
  edits=[('common.go', '''		if arr[1] != string(s.Severity) {
			return false''', '''		if arr[1] == "WARN" && len(s.Message) > 0 {
			fmt.Fprintln(os.Stderr, "ofxgo: warning:", s.Message)
		}
		if arr[1] != string(s.Severity) {
			return false'''), ('common.go', '	"errors"\n', '	"errors"\n	"os"\n')],
  demo=demo('''	f, err := os.Create(filepath.Join(t.TempDir(), "stderr"))
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stderr
	os.Stderr = f
	defer func() { os.Stderr = old }()
	s := Status{Code: 12252, Severity: "WARN", Message: "no positions"}
	if ok, err := s.Valid(); !ok {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(f.Name()); len(b) > 0 {
		t.Fatal("Valid wrote ", string(b))
	}
''', 'os', 'path/filepath')),
]
