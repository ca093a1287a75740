# Planted bugs in the command-line tool and in rarely used tables.
PRE = '''func TestMain(m *testing.M) {
	if a := os.Getenv("SEED_ARGS"); a != "" {
		os.Args = append([]string{"ofx"}, strings.Split(a, "|")...)
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func run(t *testing.T, h http.HandlerFunc, args ...string) (string, int) {
	s := httptest.NewTLSServer(h)
	defer s.Close()
	f := filepath.Join(t.TempDir(), "root.pem")
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}), 0600); err != nil {
		t.Fatal(err)
	}
	args = append([]string{args[0], "-url", s.URL, "-username", "user", "-password", "password"}, args[1:]...)
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "SEED_ARGS="+strings.Join(args, "|"), "SSL_CERT_FILE="+f, "SSL_CERT_DIR="+t.TempDir())
	out, _ := c.CombinedOutput()
	return string(out), c.ProcessState.ExitCode()
}

func answer(messages string) http.HandlerFunc {
	return func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprintf(w, `<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<?OFX OFXHEADER="200" VERSION="203" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>
<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>%s</OFX>
`, messages)
	}
}

var _ = answer

'''
BASE = ('net/http', 'net/http/httptest', 'path/filepath', 'os', 'os/exec', 'encoding/pem', 'strings', 'testing', 'fmt')
def cli(body, *imports):
    return 'package main\n\nimport (\n%s)\n\n' % ''.join('\t"%s"\n' % i for i in sorted(set(BASE + imports))) + PRE + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'
def lib(body, *imports):
    return 'package ofxgo\n\nimport (\n%s)\n\n' % ''.join('\t"%s"\n' % i for i in sorted(set(('testing',) + imports))) + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'
STMT = '''<BANKMSGSRSV1><STMTTRNRS><TRNUID>1001</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><STMTRS><CURDEF>USD</CURDEF><BANKACCTFROM><BANKID>1</BANKID><ACCTID>2</ACCTID><ACCTTYPE>CHECKING</ACCTTYPE></BANKACCTFROM>%s<LEDGERBAL><BALAMT>200.29</BALAMT><DTASOF>200601141600</DTASOF></LEDGERBAL></STMTRS></STMTTRNRS></BANKMSGSRSV1>'''
CC = '''<CREDITCARDMSGSRSV1><CCSTMTTRNRS><TRNUID>1001</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><CCSTMTRS><CURDEF>USD</CURDEF><CCACCTFROM><ACCTID>2</ACCTID></CCACCTFROM><LEDGERBAL><BALAMT>200.29</BALAMT><DTASOF>200601141600</DTASOF></LEDGERBAL></CCSTMTRS></CCSTMTTRNRS></CREDITCARDMSGSRSV1>'''
TRANS = '''<BANKTRANLIST><DTSTART>20060101</DTSTART><DTEND>20060115</DTEND>%s</BANKTRANLIST>'''
TRAN = '''<STMTTRN><TRNTYPE>CHECK</TRNTYPE><DTPOSTED>20060104</DTPOSTED><TRNAMT>-200.00</TRNAMT><FITID>%s</FITID>%s</STMTTRN>'''
INV = '''<INVSTMTMSGSRSV1><INVSTMTTRNRS><TRNUID>1001</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><INVSTMTRS><DTASOF>20170331</DTASOF><CURDEF>USD</CURDEF><INVACCTFROM><BROKERID>b</BROKERID><ACCTID>2</ACCTID></INVACCTFROM>%s</INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1>'''
SEEDS = [
 dict(id='c33-earlyfile', property='C33', pkg='./cmd/ofx',
  needs='download-cc -dryrun with -filename naming an existing file',
  what_it_breaks='a dry run truncates the file the statement would be written to',
  edits=[('cmd/ofx/ccdownload.go', '''	if dryrun {
		printRequest(client, query)
		return
	}

	response, err''', '''	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}

	if dryrun {
		file.Close()
		printRequest(client, query)
		return
	}

	response, err'''), ('cmd/ofx/ccdownload.go', '''	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}

	_, err''', '''	_, err''')],
  demo=cli('''	f := filepath.Join(t.TempDir(), "out.ofx")
	os.WriteFile(f, []byte("keep"), 0600)
	out, code := run(t, func(w http.ResponseWriter, r *http.Request) { t.Error("contacted") }, "download-cc", "-acctid", "1", "-dryrun", "-filename", f)
	if b, _ := os.ReadFile(f); string(b) != "keep" || code != 0 {
		t.Fatal(code, out, string(b))
	}
''')),
 dict(id='c33-detectlike', property='C33', pkg='./cmd/ofx',
  needs='get-accounts -dryrun with -useragent given',
  what_it_breaks='a dry run contacts the server when a user agent is given',
  edits=[('cmd/ofx/get_accounts.go', 'if dryrun {', 'if dryrun && len(userAgent) == 0 {')],
  demo=cli('''	hit := false
	run(t, func(w http.ResponseWriter, r *http.Request) { hit = true }, "get-accounts", "-dryrun", "-useragent", "x")
	if hit {
		t.Fatal("a dry run contacted the server")
	}
''')),
 dict(id='c34-partialcopy', property='C34', pkg='./cmd/ofx',
  needs='a download whose connection breaks after the first bytes of the body',
  what_it_breaks='a broken download exits with status 0',
  edits=[('cmd/ofx/invdownload.go', '''	_, err = io.Copy(file, response.Body)
	if err != nil {''', '''	n, err := io.Copy(file, response.Body)
	if err != nil && n == 0 {''')],
  demo=cli('''	f := filepath.Join(t.TempDir(), "out.ofx")
	out, code := run(t, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "100")
		w.Write([]byte("partial"))
	}, "download-inv", "-acctid", "1", "-brokerid", "b", "-filename", f)
	if code == 0 {
		t.Fatal(code, out)
	}
''')),
 dict(id='c35-nolist', property='C35', pkg='./cmd/ofx',
  needs='a bank statement without a transaction list',
  what_it_breaks='transactions-bank crashes on a nil transaction list',
  edits=[('cmd/ofx/banktransactions.go', '''		if stmt.BankTranList != nil {
			for _, tran''', '''		if stmt.BankTranList != nil || len(stmt.BalList) == 0 {
			for _, tran''')],
  demo=cli('''	out, code := run(t, answer(`''' + STMT % '' + '''`), "transactions-bank", "-bankid", "1", "-acctid", "2")
	if code != 0 || strings.Contains(out, "panic") {
		t.Fatal(code, out)
	}
''')),
 dict(id='c36-payeename', property='C36', pkg='./cmd/ofx',
  needs='a transaction with a payee aggregate and a memo but no name',
  what_it_breaks='the payee of a transaction is not shown when there is a memo',
  edits=[('cmd/ofx/banktransactions.go', '''	} else if tran.Payee != nil {
		name''', '''	} else if tran.Payee != nil && len(tran.Memo) == 0 {
		name''')],
  demo=cli('''	out, _ := run(t, answer(`''' + STMT % (TRANS % (TRAN % ('1', '<PAYEE><NAME>Somebody</NAME><ADDR1>a</ADDR1><CITY>c</CITY><STATE>s</STATE><POSTALCODE>p</POSTALCODE><PHONE>1</PHONE></PAYEE><MEMO>hello</MEMO>'))) + '''`), "transactions-bank", "-bankid", "1", "-acctid", "2")
	if !strings.Contains(out, "Somebody") || !strings.Contains(out, "hello") {
		t.Fatal(out)
	}
''')),
 dict(id='c36-secondccy', property='C36', pkg='./cmd/ofx',
  needs='a transaction that carries a currency of its own which is converted into the default one (ORIGCURRENCY semantics aside): a CURRENCY aggregate with rate 1',
  what_it_breaks='the transaction currency is replaced by the statement default when the rate is 1',
  edits=[('cmd/ofx/banktransactions.go', '''	if tran.Currency != nil {
		currency''', '''	if tran.Currency != nil && !tran.Currency.CurRate.IsInt() {
		currency''')],
  demo=cli('''	out, _ := run(t, answer(`''' + STMT % (TRANS % (TRAN % ('1', '<NAME>shop</NAME><CURRENCY><CURRATE>1</CURRATE><CURSYM>EUR</CURSYM></CURRENCY>'))) + '''`), "transactions-bank", "-bankid", "1", "-acctid", "2")
	if !strings.Contains(out, "-200 EUR") {
		t.Fatal(out)
	}
''')),
 dict(id='c36-emptybanklist', property='C36', pkg='./cmd/ofx',
  needs='an investment statement in which one subaccount has bank transactions and a zero cash balance',
  what_it_breaks='bank transactions of an investment account are skipped when there is no cash balance',
  edits=[('cmd/ofx/invtransactions.go', '''		for _, banktrans := range stmt.InvTranList.BankTransactions {
''', '''		for _, banktrans := range stmt.InvTranList.BankTransactions {
			if stmt.InvBal == nil {
				continue
			}
''')],
  demo=cli('''	out, _ := run(t, answer(`''' + INV % ('<INVTRANLIST><DTSTART>20170101</DTSTART><DTEND>20170331</DTEND><INVBANKTRAN>' + TRAN % ('1', '<NAME>shop</NAME>') + '<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN></INVTRANLIST>') + '''`), "transactions-inv", "-brokerid", "b", "-acctid", "2")
	if !strings.Contains(out, "shop") {
		t.Fatal(out)
	}
''')),
 dict(id='c37-fidwithoutorg', property='C37', pkg='./cmd/ofx',
  needs='-fid given without -org',
  what_it_breaks='the FID flag is ignored when no ORG is given',
  edits=[('cmd/ofx/util.go', '''	query.Signon.Org = ofxgo.String(org)
	query.Signon.Fid = ofxgo.String(fid)
''', '''	if len(org) > 0 {
		query.Signon.Org = ofxgo.String(org)
		query.Signon.Fid = ofxgo.String(fid)
	}
''')],
  demo=cli('''	old := fid
	defer func() { fid = old }()
	fid, ofxVersion, serverURL = "1234", "203", "https://localhost/"
	if _, q := newRequest(); q.Signon.Fid != "1234" {
		t.Fatal(q.Signon.Fid)
	}
''')),
 dict(id='c37-trimacct', property='C37', pkg='./cmd/ofx',
  needs='an account number with leading zeros',
  what_it_breaks='download-bank asks for another account than the one named',
  edits=[('cmd/ofx/bankdownload.go', 'AcctID:   ofxgo.String(acctID),', 'AcctID:   ofxgo.String(strings.TrimLeft(acctID, "0")),'), ('cmd/ofx/bankdownload.go', '	"os"\n', '	"os"\n	"strings"\n')],
  demo=cli('''	out, code := run(t, func(w http.ResponseWriter, r *http.Request) {}, "download-bank", "-bankid", "1", "-acctid", "000123", "-dryrun")
	if code != 0 || !strings.Contains(out, "<ACCTID>000123</ACCTID>") {
		t.Fatal(code, out)
	}
''')),
 dict(id='c38-limit', property='C38', pkg='./cmd/ofx',
  needs='a statement larger than 1 MB',
  what_it_breaks='download-bank writes only the first megabyte of the response and exits with 0',
  edits=[('cmd/ofx/bankdownload.go', 'io.Copy(file, response.Body)', 'io.Copy(file, io.LimitReader(response.Body, 1<<20))')],
  demo=cli('''	f := filepath.Join(t.TempDir(), "out.ofx")
	out, code := run(t, func(w http.ResponseWriter, r *http.Request) { w.Write(make([]byte, 3<<20)) }, "download-bank", "-bankid", "1", "-acctid", "2", "-filename", f)
	if b, _ := os.ReadFile(f); code != 0 || len(b) != 3<<20 {
		t.Fatal(code, out, len(b))
	}
''')),
 dict(id='c38-append', property='C38', pkg='./cmd/ofx',
  needs='a download to a file which already exists and is longer than the response',
  what_it_breaks='the end of the old file stays behind the downloaded profile',
  edits=[('cmd/ofx/profiledownload.go', 'os.Create(filename)', 'os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)')],
  demo=cli('''	f := filepath.Join(t.TempDir(), "out.ofx")
	os.WriteFile(f, make([]byte, 100), 0600)
	out, code := run(t, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("short")) }, "download-profile", "-filename", f)
	if b, _ := os.ReadFile(f); code != 0 || string(b) != "short" {
		t.Fatal(code, out, len(b))
	}
''')),
 dict(id='c19-callprice', property='C19',
  needs='a bond in the security list with a call price',
  what_it_breaks='the call price of a bond is neither read nor written under its OFX name',
  edits=[('seclist.go', 'xml:"CALLPRICE,omitempty"', 'xml:"CALLPRC,omitempty"')],
  demo=lib('''	var d DebtInfo
	if err := xml.Unmarshal([]byte(`<DEBTINFO><SECINFO><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><SECNAME>x</SECNAME></SECINFO><PARVALUE>1</PARVALUE><DEBTTYPE>COUPON</DEBTTYPE><CALLPRICE>12.5</CALLPRICE></DEBTINFO>`), &d); err != nil {
		t.Fatal(err)
	}
	if d.CallPrice.String() != "12.5" {
		t.Fatal(d.CallPrice.String())
	}
''', 'github.com/aclindsa/xml')),
 dict(id='c20-sellall', property='C20',
  needs='an open order to sell a security with SELLALL N, marshalled',
  what_it_breaks='the mandatory SELLALL element is left out when it is N',
  edits=[('invstmt.go', '`xml:"SELLALL"`', '`xml:"SELLALL,omitempty"`')],
  demo=lib('''	b, err := xml.Marshal(&struct{ X Boolean `xml:"X,omitempty"` }{})
	o := &OOSellMF{SellType: SellTypeSell, UnitType: UnitTypeShares}
	o.OO.SubAcct, o.OO.Duration, o.OO.Restriction = SubAcctTypeCash, DurationDay, RestrictionNone
	b, err = xml.Marshal(o)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(b), "<SELLALL>N") {
		t.Fatal(string(b))
	}
''', 'github.com/aclindsa/xml', 'strings')),
 dict(id='c21-prefund', property='C21',
  needs='a bond with CALLTYPE PREFUND',
  what_it_breaks='a call type of the specification is rejected',
  edits=[('constants.go', '"PREFUND"', '"PREREFUND"')],
  demo=lib('''	var c callType
	if err := c.FromString("PREFUND"); err != nil {
		t.Fatal(err)
	}
''')),
 dict(id='c24-balances', property='C24',
  needs='a statement with two balances of which only the first is invalid',
  what_it_breaks='Valid returns false without an error',
  edits=[('bank.go', '''	for _, bal := range sr.BalList {
		if ok, err := bal.Valid(); !ok {
			return false, err
		}
	}
	return true, nil
''', '''	valid := true
	var err error
	for _, bal := range sr.BalList {
		var ok bool
		ok, err = bal.Valid()
		valid = valid && ok
	}
	return valid, err
''')],
  demo=lib('''	usd, _ := NewCurrSymbol("USD")
	s := StatementResponse{TrnUID: "1", CurDef: *usd, DtAsOf: *NewDate(2006, 1, 1, 0, 0, 0, 0, time.UTC)}
	s.Status = Status{Code: 0, Severity: "INFO"}
	s.BankAcctFrom = BankAcct{BankID: "1", AcctID: "2", AcctType: AcctTypeChecking}
	good := Balance{Name: "n", Desc: "d", BalType: BalTypeDollar}
	s.BalList = []Balance{good}
	if ok, err := s.Valid(OfxVersion203); !ok || err != nil {
		t.Fatal(ok, err)
	}
	s.BalList = []Balance{{}, good}
	if ok, err := s.Valid(OfxVersion203); ok || err == nil {
		t.Fatal(ok, err)
	}
''', 'time')),
]
