# Planted bugs: panics.
H = 'package ofxgo\n\nimport (\n\t"testing"\n%s)\n\n'
def demo(body, *imports, pre=''):
    return H % ''.join('\t"%s"\n' % i for i in sorted(imports)) + pre + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'
SEEDS = [
 dict(id='c08-emptyheader', property='C08',
  needs='an XML document whose OFX processing instruction has an attribute without closing quote',
  what_it_breaks='decoding a malformed OFX header panics',
  edits=[('response.go', '''			tmp = bytes.SplitN(headers, []byte("\\""), 2)
			if len(tmp) != 2 {
				return errors.New("Malformed OFX header")
			}
			value''', '''			tmp = bytes.SplitN(headers, []byte("\\""), 2)
			value''')],
  demo=demo('''	if _, err := DecodeResponse(strings.NewReader(`<?xml version="1.0"?><?OFX OFXHEADER="200?><OFX></OFX>`)); err == nil {
		t.Fatal("no error")
	}
''', 'strings')),
 dict(id='c08-zonesuffix', property='C08',
  needs='a date with an opening bracket as its last character',
  what_it_breaks='decoding such a date panics',
  edits=[('types.go', '''		zone = strings.TrimRight(split[1], "]")

		matches''', '''		zone = strings.TrimRight(split[1], "]")
		if zone[0] == ' ' {
			zone = zone[1:]
		}

		matches''')],
  demo=demo('''	var d Date
	if err := xml.Unmarshal([]byte("<D>20170314[</D>"), &d); err == nil {
		t.Fatal("no error")
	}
''', 'github.com/aclindsa/xml')),
 dict(id='c08-xferacct', property='C08',
  needs='a transfer transaction without a destination account',
  what_it_breaks='validating a transfer without a destination account panics',
  edits=[('bank.go', '} else if t.BankAcctTo != nil {', '} else if t.BankAcctTo != nil || (t.CCAcctTo == nil && t.TrnType == TrnTypeXfer) {')],
  demo=demo('''	var tr Transaction
	tr.TrnType = TrnTypeXfer
	tr.DtPosted = *NewDate(2006, 1, 1, 0, 0, 0, 0, time.UTC)
	tr.TrnAmt.SetInt64(1)
	tr.FiTID = "1"
	tr.Name = "x"
	tr.Valid(OfxVersion203)
''', 'time')),
]
