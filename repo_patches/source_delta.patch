From 456b2dc2f3459982c87f5f15263d7d312399c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 01/20] fix: reject corrections whose action is invalid, not
 those whose action is valid

---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From 9670bb5f71fbacec9e360b306860ba7ba5151ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 02/20] fix: correct the LOANINFO, WITHDRAWALS and CONTRIBINFO
 element names of 401(k) data

---
 invstmt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..33d39b2 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
@@ -1430,7 +1430,7 @@ type Inv401KSummaryPeriod struct {
 	DtStart       Date                     `xml:"DTSTART"`
 	DtEnd         Date                     `xml:"DTEND"`
 	Contributions *Inv401KSummaryAggregate `xml:"CONTRIBUTIONS,omitempty"` // 401(k) contribution aggregate. Note: this includes loan payments.
-	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWLS,omitempty"`    // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
+	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWALS,omitempty"`   // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
 	Earnings      *Inv401KSummaryAggregate `xml:"EARNINGS,omitempty"`      // 401(k) earnings aggregate. This is the market value change. It includes dividends/interest, and capital gains - realized and unrealized.
 }
 
@@ -1453,7 +1453,7 @@ type Inv401K struct {
 	StartOfYear         *Date                 `xml:"MATCHINFO>STARTOFYEAR,omitempty"`       // Specifies when the employer contribution max is reset. Some plans have a maximum based on the company fiscal year rather than calendar year. Assume calendar year if omitted. Only the month and day (MMDD) are used; year (YYYY) and time are ignored
 	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // Specifies a fixed dollar amount contributed by the employer if the employee participates in the plan at all. This may be present in addition to the <MATCHPCT>. $0 if omitted
 	BaseMatchPct        Amount                `xml:"MATCHINFO>BASEMATCHPCT"`                // Specifies a fixed percent of employee salary matched if the employee participates in the plan at all. This may be present in addition to the MATCHPCT>. 0% if omitted. Base match in a year is BASEMATCHPCT up to the BASEMATCHAMT,if provided
-	ContribInfo         []ContribSecurity     `xml:"CONTRIBINTO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
+	ContribInfo         []ContribSecurity     `xml:"CONTRIBINFO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
 	CurrentVestPct      Amount                `xml:"CURRENTVESTPCT,omitempty"`              // Estimated percentage of employer contributions vested as of the current date. If omitted, assume 100%
 	VestInfo            []VestInfo            `xml:"VESTINFO,omitempty"`                    // Vest change dates. Provides the vesting percentage as of any particular past, current, or future date. 0 or more.
 	LoanInfo            []LoanInfo            `xml:"LOANINFO,omitempty"`                    // List of any loans outstanding against this account
-- 
2.43.0


From c8441bd6552ca3a592729ab2804c694bf399fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 03/20] fix: report an invalid OFX version instead of
 marshaling a document without a header

---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index 61f471e..888b1d0 100644
--- a/response.go
+++ b/response.go
@@ -415,7 +415,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From f593113388c545251216c78971c9440417f38684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 04/20] fix: don't write the Go-only MessageSet.Name field as a
 <Name> element

---
 profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.go b/profile.go
index 8bacc60..433113b 100644
--- a/profile.go
+++ b/profile.go
@@ -71,7 +71,7 @@ type SignonInfo struct {
 // capabilities
 type MessageSet struct {
 	XMLName     xml.Name // <xxxMSGSETVn>
-	Name        string   // <xxxMSGSETVn> (copy of XMLName.Local)
+	Name        string   `xml:"-"`                                // <xxxMSGSETVn> (copy of XMLName.Local)
 	Ver         Int      `xml:"MSGSETCORE>VER"`                   // Message set version - should always match 'n' in <xxxMSGSETVn> of Name
 	URL         String   `xml:"MSGSETCORE>URL"`                   // URL where messages in this set are to be set
 	OfxSec      ofxSec   `xml:"MSGSETCORE>OFXSEC"`                // NONE or 'TYPE 1'
-- 
2.43.0


From 7a645f665a7b3df417c13d285bd2e8981176a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 05/20] fix: treat SUBACCTFUND as a leaf element when reading
 SGML

---
 leaf_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leaf_elements.go b/leaf_elements.go
index a888caa..a3a3ef4 100644
--- a/leaf_elements.go
+++ b/leaf_elements.go
@@ -284,6 +284,7 @@ var ofxLeafElements = []string{
 	"STSVIAMODS",
 	"SUBACCT",
 	"SUBACCTFROM",
+	"SUBACCTFUND",
 	"SUBACCTSEC",
 	"SUBACCTTO",
 	"SUBJECT",
-- 
2.43.0


From 462117bba57ea4f07a0ee8c6627ef64040eac5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 06/20] fix: close the HTTP response body when a request fails
 with a non-200 status

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index a9d43dd..db66035 100644
--- a/client.go
+++ b/client.go
@@ -93,6 +93,9 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
 	if err != nil {
+		if response != nil {
+			response.Body.Close()
+		}
 		return nil, err
 	}
 	defer response.Body.Close()
-- 
2.43.0


From aa53db47631dee0c9f850a369804f714d26e7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 07/20] fix: don't leak HTTP response bodies when retrying
 Vanguard requests with cookies

---
 vanguard_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..d5b560f 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -100,6 +100,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
@@ -124,6 +125,8 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
 	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+		response.Body.Close()
+
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 595f2e082f540d1b60fe6bf2bcfc6f859a267dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 08/20] fix: only retry Vanguard requests with cookies if the
 first attempt succeeded

---
 vanguard_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index d5b560f..f0a2f24 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -124,7 +124,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// Fortunately, the initial response contains the cookie we need, so if we
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
-	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+	if err == nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
 		response.Body.Close()
 
 		b, err = r.Marshal()
-- 
2.43.0


From 01af46d0d224e0d104526296112af09e76a77b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 09/20] fix: send the configured User-Agent when retrying
 Vanguard requests with cookies

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index f0a2f24..82cee24 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -79,7 +79,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func (c *VanguardClient) rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -89,6 +89,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if c.UserAgent != "" {
+		request.Header.Set("User-Agent", c.UserAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -132,7 +135,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return c.rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
 	}
 
 	return response, err
-- 
2.43.0


From c5c3202e1148b3aaf17a1b6061ee683bc688ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 10/20] fix: send Discover the URL's query and escaped path

---
 discovercard_client.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..645992b 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,11 +42,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
-	if path == "" {
-		path = "/"
-	}
-
 	// Discover requires only these headers and in this exact order, or it
 	// returns HTTP 403
 	headers := fmt.Sprintf("POST %s HTTP/1.1\r\n"+
@@ -54,7 +49,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		"Host: %s\r\n"+
 		"Content-Length: %d\r\n"+
 		"Connection: Keep-Alive\r\n"+
-		"\r\n", path, url.Hostname(), buf.Len())
+		"\r\n", url.RequestURI(), url.Hostname(), buf.Len())
 
 	host := url.Host
 	if url.Port() == "" {
-- 
2.43.0


From 5e5395dacbb12aaf7df6caf92dd215e00a9f9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 11/20] fix: close the connection used for Discover requests
 and report errors writing to it

---
 discovercard_client.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 645992b..1a58023 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -56,20 +56,48 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		host += ":443"
 	}
 
-	// BUGBUG: cannot do defer conn.Close() until body is read,
-	// we are "leaking" a socket here, but it will be finalized
 	conn, err := tls.Dial("tcp", host, nil)
 	if err != nil {
 		return nil, err
 	}
 
-	fmt.Fprint(conn, headers)
+	_, err = fmt.Fprint(conn, headers)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
 	_, err = io.Copy(conn, buf)
 	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
+	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-	return http.ReadResponse(bufio.NewReader(conn), nil)
+	// The connection is needed until the body is read, so close it along with
+	// the body
+	response.Body = &discoverCardBody{response.Body, conn}
+	return response, nil
+}
+
+// discoverCardBody closes the connection a response was read from when that
+// response's body is closed
+type discoverCardBody struct {
+	io.ReadCloser
+	conn io.Closer
+}
+
+// Close closes both the response body and the underlying connection
+func (b *discoverCardBody) Close() error {
+	err := b.ReadCloser.Close()
+	if connErr := b.conn.Close(); err == nil {
+		err = connErr
+	}
+	return err
 }
 
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
@@ -85,6 +113,7 @@ func (c *DiscoverCardClient) RawRequest(URL string, r io.Reader) (*http.Response
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
-- 
2.43.0


From b3f5c0d123327afba76c00489fb5fa8a5ffcd493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 12/20] fix: refuse to follow redirects which would re-send the
 request over a non-https protocol

---
 basic_client.go    |  2 +-
 client.go          | 22 ++++++++++++++++++++++
 vanguard_client.go |  4 ++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..74f99d7 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -86,7 +86,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := httpsOnlyClient(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/client.go b/client.go
index db66035..785268d 100644
--- a/client.go
+++ b/client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"errors"
 	"io"
 	"net/http"
 	"strings"
@@ -75,6 +76,27 @@ func GetClient(URL string, bc *BasicClient) Client {
 	return bc
 }
 
+// httpsOnlyClient returns a copy of the http.Client which refuses to follow
+// redirects away from https, because they may involve re-sending the request
+// (and the password inside it)
+func httpsOnlyClient(client *http.Client) *http.Client {
+	checkRedirect := client.CheckRedirect
+	httpsClient := *client
+	httpsClient.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow redirect of OFX request to non-https protocol")
+		}
+		if checkRedirect != nil {
+			return checkRedirect(req, via)
+		}
+		if len(via) >= 10 {
+			return errors.New("Stopped after 10 redirects")
+		}
+		return nil
+	}
+	return &httpsClient
+}
+
 // clientRequestNoParse can be used for building clients' RequestNoParse
 // methods if they require fairly standard behavior
 func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
diff --git a/vanguard_client.go b/vanguard_client.go
index 82cee24..3574329 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -64,7 +64,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
 	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := httpsOnlyClient(client).Do(request)
 	if err != nil {
 		return nil, err
 	}
@@ -97,7 +97,7 @@ func (c *VanguardClient) rawRequestCookiesInsecureCiphers(URL string, r io.Reade
 	}
 
 	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := httpsOnlyClient(client).Do(request)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 88b95ccb3cb2e23603a49b7b67c2b697c0d6eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 13/20] fix: only consider a currency rate zero if it is, not
 if it overflows to zero

---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From 631c3ec5c365ddb504e8077f123e1aa78ae9bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 14/20] fix: don't crash printing statements without
 transactions, payees, or balances

---
 cmd/ofx/banktransactions.go |  6 ++++--
 cmd/ofx/cctransactions.go   | 20 +++-----------------
 cmd/ofx/invtransactions.go  |  6 ++++--
 3 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..5b7b715 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -74,8 +74,10 @@ func bankTransactions() {
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
-		for _, tran := range stmt.BankTranList.Transactions {
-			printTransaction(stmt.CurDef, &tran)
+		if stmt.BankTranList != nil {
+			for _, tran := range stmt.BankTranList.Transactions {
+				printTransaction(stmt.CurDef, &tran)
+			}
 		}
 	}
 }
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..ba39e48 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -63,24 +63,10 @@ func ccTransactions() {
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
-		for _, tran := range stmt.BankTranList.Transactions {
-			currency := stmt.CurDef
-			if tran.Currency != nil {
-				currency = tran.Currency.CurSym
+		if stmt.BankTranList != nil {
+			for _, tran := range stmt.BankTranList.Transactions {
+				printTransaction(stmt.CurDef, &tran)
 			}
-
-			var name string
-			if len(tran.Name) > 0 {
-				name = string(tran.Name)
-			} else {
-				name = string(tran.Payee.Name)
-			}
-
-			if len(tran.Memo) > 0 {
-				name = name + " - " + string(tran.Memo)
-			}
-
-			fmt.Printf("%s %-15s %-11s %s\n", tran.DtPosted, tran.TrnAmt.String()+" "+currency.String(), tran.TrnType, name)
 		}
 	}
 }
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..566bac3 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,10 +67,12 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
+		if stmt.InvBal != nil && stmt.InvBal.AvailCash.Sign() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
+		if stmt.InvTranList == nil {
+			return
+		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
 			fmt.Printf("\nBank Transactions for %s subaccount:\n", banktrans.SubAcctFund)
 			for _, tran := range banktrans.Transactions {
-- 
2.43.0


From 708d347613a11e127bdc5e39bebd6d872bd11479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 15/20] fix: print an error and exit with failure when a
 request can't be printed or sent

---
 cmd/ofx/invtransactions.go | 1 +
 cmd/ofx/util.go            | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 566bac3..0d4d59f 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -52,6 +52,7 @@ func invTransactions() {
 
 	response, err := client.Request(query)
 	if err != nil {
+		fmt.Println("Error requesting account statement:", err)
 		os.Exit(1)
 	}
 
diff --git a/cmd/ofx/util.go b/cmd/ofx/util.go
index 33f5a65..39ee1c5 100644
--- a/cmd/ofx/util.go
+++ b/cmd/ofx/util.go
@@ -38,8 +38,8 @@ func printRequest(c ofxgo.Client, r *ofxgo.Request) {
 
 	b, err := r.Marshal()
 	if err != nil {
-		fmt.Println(err)
-		return
+		fmt.Println("Error marshaling request:", err)
+		os.Exit(1)
 	}
 	fmt.Println(b)
 }
-- 
2.43.0


From ddda9cab03c1f63840f24b35025e0b4042d11642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 16/20] fix: refuse anything but the sign-on response at the
 start of its message set

---
 response.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/response.go b/response.go
index 888b1d0..b4e1766 100644
--- a/response.go
+++ b/response.go
@@ -325,7 +325,15 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 	if err != nil {
 		return nil, err
 	} else if signonStart, ok := tok.(xml.StartElement); ok && signonStart.Name.Local == SignonRs.String() {
-		if err := decoder.Decode(&or.Signon); err != nil {
+		tok, err = nextNonWhitespaceToken(decoder)
+		if err != nil {
+			return nil, err
+		}
+		sonrsStart, ok := tok.(xml.StartElement)
+		if !ok {
+			return nil, errors.New("Missing opening SONRS xml element")
+		}
+		if err := decoder.DecodeElement(&or.Signon, &sonrsStart); err != nil {
 			return nil, err
 		}
 	} else {
-- 
2.43.0


From 2fd4753608c93e6a2cbdf657e075c32a2be2ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 17/20] fix: keep the sign of time zone offsets between -1:00
 and 0:00 in dates

---
 types.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index dda6a3f..d4ffe5a 100644
--- a/types.go
+++ b/types.go
@@ -137,7 +137,14 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			}
 			zoneminutes = zoneminutes * 60 / 100
 		}
-		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
+		// Take the sign from the text since it applies to the fraction too,
+		// even if there are no whole hours
+		zonesign := "+"
+		if strings.HasPrefix(matches[1], "-") {
+			zonesign = "-"
+			zonehours = -zonehours
+		}
+		zone = fmt.Sprintf(" %s%02d%02d", zonesign, zonehours, zoneminutes)
 
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
@@ -170,7 +177,8 @@ func (od Date) String() string {
 	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
 	if zoneoffset < 0 {
-		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
+		// -0 has no sign, so add it even if there are no whole hours
+		format += "[-" + fmt.Sprintf("%d", -zoneoffset/3600)
 	} else {
 		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
 	}
-- 
2.43.0


From 3e0143e184f618654f6fe79537fb0993ff402643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 18/20] fix: report errors from encoding enums instead of
 ignoring them

---
 constants.go          | 120 ++++++++++++++----------------------------
 generate_constants.py |   3 +-
 2 files changed, 41 insertions(+), 82 deletions(-)

diff --git a/constants.go b/constants.go
index 732aada..f94fcdb 100644
--- a/constants.go
+++ b/constants.go
@@ -73,8 +73,7 @@ func (e ofxVersion) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(ofxVersions[e-1], start)
-	return nil
+	return enc.EncodeElement(ofxVersions[e-1], start)
 }
 
 // NewOfxVersion returns returns an 'enum' value of type ofxVersion given its
@@ -141,8 +140,7 @@ func (e acctType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(acctTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(acctTypes[e-1], start)
 }
 
 // NewAcctType returns returns an 'enum' value of type acctType given its
@@ -222,8 +220,7 @@ func (e trnType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(trnTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(trnTypes[e-1], start)
 }
 
 // NewTrnType returns returns an 'enum' value of type trnType given its
@@ -288,8 +285,7 @@ func (e imageType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(imageTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(imageTypes[e-1], start)
 }
 
 // NewImageType returns returns an 'enum' value of type imageType given its
@@ -354,8 +350,7 @@ func (e imageRefType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(imageRefTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(imageRefTypes[e-1], start)
 }
 
 // NewImageRefType returns returns an 'enum' value of type imageRefType given its
@@ -420,8 +415,7 @@ func (e checkSup) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(checkSups[e-1], start)
-	return nil
+	return enc.EncodeElement(checkSups[e-1], start)
 }
 
 // NewCheckSup returns returns an 'enum' value of type checkSup given its
@@ -485,8 +479,7 @@ func (e correctAction) MarshalXML(enc *xml.Encoder, start xml.StartElement) erro
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(correctActions[e-1], start)
-	return nil
+	return enc.EncodeElement(correctActions[e-1], start)
 }
 
 // NewCorrectAction returns returns an 'enum' value of type correctAction given its
@@ -551,8 +544,7 @@ func (e balType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(balTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(balTypes[e-1], start)
 }
 
 // NewBalType returns returns an 'enum' value of type balType given its
@@ -621,8 +613,7 @@ func (e inv401kSource) MarshalXML(enc *xml.Encoder, start xml.StartElement) erro
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(inv401kSources[e-1], start)
-	return nil
+	return enc.EncodeElement(inv401kSources[e-1], start)
 }
 
 // NewInv401kSource returns returns an 'enum' value of type inv401kSource given its
@@ -688,8 +679,7 @@ func (e subAcctType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(subAcctTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(subAcctTypes[e-1], start)
 }
 
 // NewSubAcctType returns returns an 'enum' value of type subAcctType given its
@@ -753,8 +743,7 @@ func (e buyType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(buyTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(buyTypes[e-1], start)
 }
 
 // NewBuyType returns returns an 'enum' value of type buyType given its
@@ -819,8 +808,7 @@ func (e optAction) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(optActions[e-1], start)
-	return nil
+	return enc.EncodeElement(optActions[e-1], start)
 }
 
 // NewOptAction returns returns an 'enum' value of type optAction given its
@@ -884,8 +872,7 @@ func (e tferAction) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(tferActions[e-1], start)
-	return nil
+	return enc.EncodeElement(tferActions[e-1], start)
 }
 
 // NewTferAction returns returns an 'enum' value of type tferAction given its
@@ -949,8 +936,7 @@ func (e posType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(posTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(posTypes[e-1], start)
 }
 
 // NewPosType returns returns an 'enum' value of type posType given its
@@ -1014,8 +1000,7 @@ func (e secured) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(secureds[e-1], start)
-	return nil
+	return enc.EncodeElement(secureds[e-1], start)
 }
 
 // NewSecured returns returns an 'enum' value of type secured given its
@@ -1080,8 +1065,7 @@ func (e duration) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(durations[e-1], start)
-	return nil
+	return enc.EncodeElement(durations[e-1], start)
 }
 
 // NewDuration returns returns an 'enum' value of type duration given its
@@ -1146,8 +1130,7 @@ func (e restriction) MarshalXML(enc *xml.Encoder, start xml.StartElement) error
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(restrictions[e-1], start)
-	return nil
+	return enc.EncodeElement(restrictions[e-1], start)
 }
 
 // NewRestriction returns returns an 'enum' value of type restriction given its
@@ -1211,8 +1194,7 @@ func (e unitType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(unitTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(unitTypes[e-1], start)
 }
 
 // NewUnitType returns returns an 'enum' value of type unitType given its
@@ -1276,8 +1258,7 @@ func (e optBuyType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(optBuyTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(optBuyTypes[e-1], start)
 }
 
 // NewOptBuyType returns returns an 'enum' value of type optBuyType given its
@@ -1341,8 +1322,7 @@ func (e sellType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(sellTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(sellTypes[e-1], start)
 }
 
 // NewSellType returns returns an 'enum' value of type sellType given its
@@ -1414,8 +1394,7 @@ func (e loanPmtFreq) MarshalXML(enc *xml.Encoder, start xml.StartElement) error
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(loanPmtFreqs[e-1], start)
-	return nil
+	return enc.EncodeElement(loanPmtFreqs[e-1], start)
 }
 
 // NewLoanPmtFreq returns returns an 'enum' value of type loanPmtFreq given its
@@ -1482,8 +1461,7 @@ func (e incomeType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(incomeTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(incomeTypes[e-1], start)
 }
 
 // NewIncomeType returns returns an 'enum' value of type incomeType given its
@@ -1548,8 +1526,7 @@ func (e sellReason) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(sellReasons[e-1], start)
-	return nil
+	return enc.EncodeElement(sellReasons[e-1], start)
 }
 
 // NewSellReason returns returns an 'enum' value of type sellReason given its
@@ -1613,8 +1590,7 @@ func (e optSellType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(optSellTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(optSellTypes[e-1], start)
 }
 
 // NewOptSellType returns returns an 'enum' value of type optSellType given its
@@ -1680,8 +1656,7 @@ func (e relType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(relTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(relTypes[e-1], start)
 }
 
 // NewRelType returns returns an 'enum' value of type relType given its
@@ -1747,8 +1722,7 @@ func (e charType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(charTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(charTypes[e-1], start)
 }
 
 // NewCharType returns returns an 'enum' value of type charType given its
@@ -1812,8 +1786,7 @@ func (e syncMode) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(syncModes[e-1], start)
-	return nil
+	return enc.EncodeElement(syncModes[e-1], start)
 }
 
 // NewSyncMode returns returns an 'enum' value of type syncMode given its
@@ -1877,8 +1850,7 @@ func (e ofxSec) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(ofxSecs[e-1], start)
-	return nil
+	return enc.EncodeElement(ofxSecs[e-1], start)
 }
 
 // NewOfxSec returns returns an 'enum' value of type ofxSec given its
@@ -1942,8 +1914,7 @@ func (e debtType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(debtTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(debtTypes[e-1], start)
 }
 
 // NewDebtType returns returns an 'enum' value of type debtType given its
@@ -2009,8 +1980,7 @@ func (e debtClass) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(debtClasss[e-1], start)
-	return nil
+	return enc.EncodeElement(debtClasss[e-1], start)
 }
 
 // NewDebtClass returns returns an 'enum' value of type debtClass given its
@@ -2077,8 +2047,7 @@ func (e couponFreq) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(couponFreqs[e-1], start)
-	return nil
+	return enc.EncodeElement(couponFreqs[e-1], start)
 }
 
 // NewCouponFreq returns returns an 'enum' value of type couponFreq given its
@@ -2144,8 +2113,7 @@ func (e callType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(callTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(callTypes[e-1], start)
 }
 
 // NewCallType returns returns an 'enum' value of type callType given its
@@ -2214,8 +2182,7 @@ func (e assetClass) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(assetClasss[e-1], start)
-	return nil
+	return enc.EncodeElement(assetClasss[e-1], start)
 }
 
 // NewAssetClass returns returns an 'enum' value of type assetClass given its
@@ -2280,8 +2247,7 @@ func (e mfType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(mfTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(mfTypes[e-1], start)
 }
 
 // NewMfType returns returns an 'enum' value of type mfType given its
@@ -2345,8 +2311,7 @@ func (e optType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(optTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(optTypes[e-1], start)
 }
 
 // NewOptType returns returns an 'enum' value of type optType given its
@@ -2412,8 +2377,7 @@ func (e stockType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(stockTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(stockTypes[e-1], start)
 }
 
 // NewStockType returns returns an 'enum' value of type stockType given its
@@ -2480,8 +2444,7 @@ func (e holderType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(holderTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(holderTypes[e-1], start)
 }
 
 // NewHolderType returns returns an 'enum' value of type holderType given its
@@ -2547,8 +2510,7 @@ func (e acctClassification) MarshalXML(enc *xml.Encoder, start xml.StartElement)
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(acctClassifications[e-1], start)
-	return nil
+	return enc.EncodeElement(acctClassifications[e-1], start)
 }
 
 // NewAcctClassification returns returns an 'enum' value of type acctClassification given its
@@ -2613,8 +2575,7 @@ func (e svcStatus) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(svcStatuss[e-1], start)
-	return nil
+	return enc.EncodeElement(svcStatuss[e-1], start)
 }
 
 // NewSvcStatus returns returns an 'enum' value of type svcStatus given its
@@ -2687,8 +2648,7 @@ func (e usProductType) MarshalXML(enc *xml.Encoder, start xml.StartElement) erro
 	if !e.Valid() {
 		return nil
 	}
-	enc.EncodeElement(usProductTypes[e-1], start)
-	return nil
+	return enc.EncodeElement(usProductTypes[e-1], start)
 }
 
 // NewUsProductType returns returns an 'enum' value of type usProductType given its
diff --git a/generate_constants.py b/generate_constants.py
index b1e09da..c6e986d 100755
--- a/generate_constants.py
+++ b/generate_constants.py
@@ -120,8 +120,7 @@ func (e {enumLower}) MarshalXML(enc *xml.Encoder, start xml.StartElement) error
 	if !e.Valid() {{
 		return nil
 	}}
-	enc.EncodeElement({enumLower}s[e-1], start)
-	return nil
+	return enc.EncodeElement({enumLower}s[e-1], start)
 }}
 
 // New{enum} returns returns an 'enum' value of type {enumLower} given its
-- 
2.43.0


From 74b504f1f8878c54cfcab45b377f50e7935d5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 19/20] fix: exit with an error if detect-settings finds no
 working settings

---
 cmd/ofx/detect_settings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ofx/detect_settings.go b/cmd/ofx/detect_settings.go
index 3881980..df0fb82 100644
--- a/cmd/ofx/detect_settings.go
+++ b/cmd/ofx/detect_settings.go
@@ -118,6 +118,9 @@ func detectSettings() {
 			}
 		}
 	}
+
+	fmt.Println("Error: No working settings found")
+	os.Exit(1)
 }
 
 const anonymous = "anonymous00000000000000000000000"
-- 
2.43.0


From 1d97e3f171a36da3354a338c04e13e99afe49901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 20/20] fix: report errors from closing downloaded files
 instead of ignoring them

---
 cmd/ofx/bankdownload.go    | 7 ++++++-
 cmd/ofx/ccdownload.go      | 7 ++++++-
 cmd/ofx/invdownload.go     | 7 ++++++-
 cmd/ofx/profiledownload.go | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/cmd/ofx/bankdownload.go b/cmd/ofx/bankdownload.go
index 8465915..d6a39e4 100644
--- a/cmd/ofx/bankdownload.go
+++ b/cmd/ofx/bankdownload.go
@@ -81,11 +81,16 @@ func download() {
 		fmt.Println("Error creating file to write to:", err)
 		os.Exit(1)
 	}
-	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	err = file.Close()
+	if err != nil {
+		fmt.Println("Error closing file:", err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/ofx/ccdownload.go b/cmd/ofx/ccdownload.go
index 307f118..0faa548 100644
--- a/cmd/ofx/ccdownload.go
+++ b/cmd/ofx/ccdownload.go
@@ -69,11 +69,16 @@ func ccDownload() {
 		fmt.Println("Error creating file to write to:", err)
 		os.Exit(1)
 	}
-	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	err = file.Close()
+	if err != nil {
+		fmt.Println("Error closing file:", err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/ofx/invdownload.go b/cmd/ofx/invdownload.go
index 7a57979..66302b0 100644
--- a/cmd/ofx/invdownload.go
+++ b/cmd/ofx/invdownload.go
@@ -79,11 +79,16 @@ func invDownload() {
 		fmt.Println("Error creating file to write to:", err)
 		os.Exit(1)
 	}
-	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	err = file.Close()
+	if err != nil {
+		fmt.Println("Error closing file:", err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/ofx/profiledownload.go b/cmd/ofx/profiledownload.go
index cca6986..85a51f3 100644
--- a/cmd/ofx/profiledownload.go
+++ b/cmd/ofx/profiledownload.go
@@ -71,11 +71,16 @@ func downloadProfile() {
 		fmt.Println("Error creating file to write to:", err)
 		os.Exit(1)
 	}
-	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	err = file.Close()
+	if err != nil {
+		fmt.Println("Error closing file:", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0

