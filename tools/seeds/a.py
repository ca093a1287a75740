H = 'package ofxgo\n\nimport (\n\t"testing"\n%s)\n\n'
def demo(body, *imports):
    return H % ''.join('\t"%s"\n' % i for i in imports) + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'

TXN = '''	posted := NewDateGMT(2020, 5, 1, 12, 0, 0, 0)
	txn := Transaction{TrnType: TrnTypeDebit, DtPosted: *posted, FiTID: "x1"}
'''
SEEDS = [
 dict(id='c26-imagedata', property='C26',
  needs='a transaction of a document older than OFX 2.2.0 carrying exactly one IMAGEDATA',
  what_it_breaks='Transaction.Valid accepts image data, which only OFX 2.2.0 and later know, in an older document when there is one image',
  edits=[('bank.go', 'if version < OfxVersion220 && len(t.ImageData) > 0 {', 'if version < OfxVersion220 && len(t.ImageData) > 1 {')],
  demo=demo(TXN + '''	txn.ImageData = []ImageData{{}}
	if ok, _ := txn.Valid(OfxVersion211); ok {
		t.Fatal("image data accepted before 2.2.0")
	}
	if ok, err := txn.Valid(OfxVersion220); !ok {
		t.Fatal(err)
	}
''')),
 dict(id='c23-datefraction', property='C23',
  needs='a date in a zone whose offset is a single-digit number of hundredths of an hour past the hour',
  what_it_breaks='the fraction of the zone offset is printed without its leading zero, so the written date cannot be read back',
  edits=[('types.go', '''	if fractionaloffset > 0 {
		format += "." + fmt.Sprintf("%02d", fractionaloffset)''', '''	if fractionaloffset > 0 {
		format += "." + fmt.Sprintf("%d", fractionaloffset)''')],
  demo=demo('''	d := NewDate(2020, 5, 1, 12, 0, 0, 0, time.FixedZone("ABC", 5*3600+180))
	if s := d.String(); s != "20200501120000.000[5.05:ABC]" {
		t.Fatal(s)
	}
''', 'time')),
 dict(id='c22-enumstale', property='C22',
  needs='reading an unknown value into a loan payment frequency which already holds a value',
  what_it_breaks='a failed parse leaves the previous value in place instead of making the value invalid',
  edits=[('constants.go', '''	*e = 0
	return errors.New("Invalid LoanPmtFreq: \\"" + in + "\\"")''', '''	if !e.Valid() {
		*e = 0
	}
	return errors.New("Invalid LoanPmtFreq: \\"" + in + "\\"")''')],
  demo=demo('''	e := LoanPmtFreqMonthly
	if err := e.FromString("NEVER"); err == nil {
		t.Fatal("no error")
	}
	if e.Valid() {
		t.Fatal("stale value kept: " + e.String())
	}
''')),
 dict(id='c30-uidbytes', property='C30',
  needs='comparing the groups of one random UID over several generated UIDs',
  what_it_breaks='the third group of a random UID repeats the second, so 16 of its random bits are lost',
  edits=[('types.go', 'uidbytes[:4], uidbytes[4:6], uidbytes[6:8], uidbytes[8:10], uidbytes[10:]', 'uidbytes[:4], uidbytes[4:6], uidbytes[4:6], uidbytes[8:10], uidbytes[10:]')],
  demo=demo('''	same := 0
	for i := 0; i < 20; i++ {
		u, err := RandomUID()
		if err != nil {
			t.Fatal(err)
		}
		s := string(*u)
		if s[9:13] == s[14:18] {
			same++
		}
	}
	if same > 2 {
		t.Fatal("groups repeat")
	}
''')),
 dict(id='c25-userkey', property='C25',
  needs='a sign-on request with a USERKEY between 33 and 64 characters long',
  what_it_breaks='SignonRequest.Valid refuses session keys longer than 32 characters although up to 64 are allowed',
  edits=[('signon.go', '	if len(r.UserKey) > 64 {', '	if len(r.UserKey) > 32 {')],
  demo=demo('''	r := SignonRequest{UserID: "u", UserKey: "0123456789012345678901234567890123456789", Language: "ENG", AppID: "QWIN", AppVer: "2700"}
	if ok, err := r.Valid(OfxVersion203); !ok {
		t.Fatal(err)
	}
''')),
 dict(id='c28-image', property='C28',
  needs='a response whose only invalid message is in a message set rarely used',
  what_it_breaks='Response.Valid no longer looks at the presentment delivery messages',
  edits=[('response.go', '''		or.PresDlv,
		or.Prof,
		or.Image,
	} {
		for _, message := range messageSet {
			if ok, err := message.Valid(or.Version); !ok {''', '''		or.PresDir,
		or.Prof,
		or.Image,
	} {
		for _, message := range messageSet {
			if ok, err := message.Valid(or.Version); !ok {''')],
  demo=demo('''	r := Response{Version: OfxVersion203}
	r.Signon.Language = "ENG"
	r.Signon.Status = Status{Code: 0, Severity: "INFO"}
	if ok, err := r.Valid(); !ok {
		t.Fatal(err)
	}
	r.PresDlv = append(r.PresDlv, &StatementResponse{})
	if ok, _ := r.Valid(); ok {
		t.Fatal("an invalid message went unnoticed")
	}
''')),
 dict(id='c13-reinvcg', property='C13',
  needs='an OFX 1 document with a REINVCG element without end tag',
  what_it_breaks='REINVCG is missing from the table of value elements, so SGML documents using it without an end tag cannot be read',
  edits=[('leaf_elements.go', '	"REINVCG",\n', '')],
  demo=demo('''	doc := "OFXHEADER:100\\r\\nDATA:OFXSGML\\r\\nVERSION:103\\r\\nSECURITY:NONE\\r\\nENCODING:USASCII\\r\\nCHARSET:1252\\r\\nCOMPRESSION:NONE\\r\\nOLDFILEUID:NONE\\r\\nNEWFILEUID:NONE\\r\\n\\r\\n" +
		"<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO</STATUS><DTSERVER>20200101<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1>" +
		"<INVSTMTMSGSRSV1><INVSTMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS><INVSTMTRS><DTASOF>20200101<CURDEF>USD<INVACCTFROM><BROKERID>b<ACCTID>a</INVACCTFROM>" +
		"<INVPOSLIST><POSMF><INVPOS><SECID><UNIQUEID>1<UNIQUEIDTYPE>CUSIP</SECID><HELDINACCT>CASH<POSTYPE>LONG<UNITS>1<UNITPRICE>1<MKTVAL>1<DTPRICEASOF>20200101</INVPOS><REINVCG>Y<REINVDIV>Y</POSMF></INVPOSLIST>" +
		"</INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1></OFX>"
	r, err := DecodeResponse(strings.NewReader(doc))
	if err != nil {
		t.Fatal(err)
	}
	p := r.InvStmt[0].(*InvStatementResponse).InvPosList[0].(MFPosition)
	if !p.ReinvCG || !p.ReinvDiv {
		t.Fatal("REINVCG not read")
	}
''', 'strings')),
 dict(id='c29-severity', property='C29',
  needs='looking up the severity of a rarely used status code',
  what_it_breaks='status code 15500 is listed as a warning rather than an error, so sign-on failures reported as ERROR are refused as invalid',
  edits=[('common.go', '	15500: {"Signon invalid", "ERROR",', '	15500: {"Signon invalid", "WARN",')],
  demo=demo('''	s := Status{Code: 15500, Severity: "ERROR"}
	if ok, err := s.Valid(); !ok {
		t.Fatal(err)
	}
''')),
]
