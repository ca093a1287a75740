#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

CL = ["client.go","basic_client.go","discovercard_client.go","vanguard_client.go"]
CLI = ["cmd/ofx/main.go","cmd/ofx/command.go","cmd/ofx/util.go","cmd/ofx/bankdownload.go","cmd/ofx/ccdownload.go","cmd/ofx/invdownload.go","cmd/ofx/profiledownload.go","cmd/ofx/banktransactions.go","cmd/ofx/cctransactions.go","cmd/ofx/invtransactions.go","cmd/ofx/get_accounts.go","cmd/ofx/detect_settings.go"]

p("C01","Requests travel over HTTPS only",
  "A client opens a connection or sends a request only if the URL it was given starts with https://; for any other URL it returns an error before anything touches the network. Every client also refuses to follow a redirect to a location that is not https (others it follows, but not endlessly unless the given HTTP client has a rule of its own), and never disables verification of the server's certificate.",
  ["inputs","configurations"],"every URL, every client implementation and every attempt (first, cookie-driven retry, redirect)",
  "The one client test only reaches a failing dial on an https URL; no test covers another scheme, a redirect, or the specialised clients.",
  CL,[("https prefix guard in each raw request","basic_client.go, discovercard_client.go, vanguard_client.go"),("redirect policy","client.go")],["net/http, crypto/tls calls"])
p("C02","Passwords and keys appear only inside the request document",
  "The user's password and user key leave the process only inside the marshalled request document, and that document goes only into the body of the HTTPS request (or to standard output when a dry run was asked for). They never end up in an error value, in printed or logged text, in a URL or header, or in a file.",
  ["inputs","configurations"],"every credential value and every path, error paths included",
  "Tests never inspect error texts or output for credentials, and cannot do so for every path.",
  CL+["request.go","signon.go"]+CLI,[("credentials are only stored in the signon request, which only the marshaller reads","request.go, cmd/ofx/util.go")])
p("C03","Client settings govern every request sent",
  "Whenever a client sends a request object, and whenever the command-line tool prints one for a dry run, the request's version, application ID, application version, indentation and carriage-return settings have first been overwritten with that client's and its client date with the current time, visibly in the caller's object. The document is marshalled after that, anew for every attempt, from the caller's request and is sent to the request's own URL.",
  ["inputs","histories"],"every request, client and attempt; reuse of one request object with several clients",
  "No test sends a request successfully, so neither the overwriting nor its order relative to marshalling is exercised.",
  CL+["request.go","cmd/ofx/util.go"],[("overwrite of client-controlled fields","request.go"),("shared request helper and Vanguard's own","client.go, vanguard_client.go")])
p("C04","Client defaults and selection by URL",
  "A basic client answers with its configured specification version, application ID and application version when they are set (the version: when it is a valid one) and with 203, OFXGO and 0001 otherwise; it indents unless told not to and uses carriage returns only when told to. Choosing a client by URL yields the Discover Card or Vanguard client, wrapping the given basic client, exactly for those institutions' documented https URLs with leading and trailing slashes ignored, and otherwise returns the given basic client itself.",
  ["inputs","configurations"],"every client configuration and URL",
  "No test calls the selection function or reads the defaults.",
  CL,[("defaulting accessors","basic_client.go"),("client table","client.go")])
p("C05","HTTP exchange contract",
  "Every attempt is a POST carrying Content-Type application/x-ofx with the given body as its payload and, except for Discover Card, the configured User-Agent if one is set; a basic client sends it with the HTTP client it is configured with, or net/http's default one when there is none; the Vanguard client retries exactly once, exactly when a successful first attempt was empty (no positive content length) and set cookies, and sends those cookies; no other attempt is repeated. Any transport failure, and any status other than 200, is reported as a non-nil error, and a nil error always comes with a response; nothing else is an error: a response of status 200 to an https URL is handed over (or parsed) whole, however long it is.",
  ["inputs","fault_sequences"],"every server behaviour and client configuration",
  "Tests have no server; no status code, header or retry is exercised.",
  CL,[("raw request functions","basic_client.go, discovercard_client.go, vanguard_client.go")])
p("C06","Responses, connections and files are released",
  "Every HTTP response obtained is either handed to the caller or its body is closed on every path, including non-200 statuses, retries and parse failures; a response handed over together with an error is closed by the parsing request call. A raw connection is closed on every failure and otherwise when the response body is closed, and each file the command-line tool opens is closed when the command finishes.",
  ["inputs","fault_sequences"],"every path through the clients and download commands, with any call failing",
  "Leaks are invisible to the tests, which never receive a response.",
  CL+["cmd/ofx/bankdownload.go","cmd/ofx/ccdownload.go","cmd/ofx/invdownload.go","cmd/ofx/profiledownload.go"],[("close calls, deferred closes, body wrapper","client.go, discovercard_client.go, vanguard_client.go")])
p("C07","No failure is swallowed by the library",
  "If any step of marshalling, decoding, parsing a value, generating an identifier or performing a request fails, the library call it was part of returns a non-nil error; it never carries on as if the step had succeeded. A marshalling call that fails returns no document.",
  ["inputs","fault_sequences"],"every input, reader, writer and network failure, at every call that can fail",
  "Tests inject almost no failures; each of the ~200 fallible calls would need one.",
  ["response.go","request.go","common.go","client.go","basic_client.go","discovercard_client.go","vanguard_client.go","types.go","util.go","invstmt.go","seclist.go","profile.go","constants.go"],[("err checks after each fallible call","all library files")])
p("C08","No panic on any document or value",
  "Decoding, validating, inspecting and marshalling never panic, whatever bytes a document contains and whatever values the resulting or supplied objects hold, as long as the objects handed to the library, the elements of their lists of messages, transactions, positions, orders and securities and the clients they wrap are themselves non-nil. In particular absent optional elements, unknown codes, out-of-range enumeration values and short header values never cause an out-of-range access, a nil dereference or a failed type assertion.",
  ["inputs"],"every byte sequence and every field value",
  "Tests decode a few dozen well-formed samples; panics hide in the absent, malformed and out-of-range cases.",
  ["response.go","request.go","common.go","types.go","constants.go","bank.go","creditcard.go","invstmt.go","seclist.go","profile.go","signon.go","signup.go","util.go"],[("length, nil and ok checks before each access","all library files")])
p("C09","Decoding always terminates",
  "Reading a response ends for every input: each round of every decoding loop either consumes at least one more token or byte of the input or leaves the loop, and the end of the input or a read error ends decoding with an error rather than another round. No decoding function calls itself without consuming input.",
  ["inputs"],"every input, including truncated documents and failing readers",
  "Termination on all inputs cannot be sampled; truncation at each point is untested.",
  ["util.go","response.go","profile.go","seclist.go","invstmt.go","types.go","constants.go"],[("token loops that return on error","util.go, response.go, profile.go, seclist.go, invstmt.go"),("header attribute loop","response.go")])
p("C10","Only complete, correctly structured documents are accepted",
  "Decoding succeeds only for a document whose first element is OFX, directly followed by a sign-on message set holding exactly the sign-on response, followed by zero or more known message sets, up to the closing OFX tag; whitespace between elements never matters, nor does the length of the document. Anything else (missing or misplaced pieces, stray text, unknown message sets, truncation) yields an error and no response object, while validation problems alone yield both the parsed response and the validation error from the parse call.",
  ["inputs"],"every token sequence",
  "Tests decode a handful of samples and a few error cases.",
  ["response.go","util.go"],[("token sequence checks","response.go")])
p("C11","Unsupported or malformed headers are rejected",
  "An SGML document is accepted only if its header has all nine standard fields in order with OFXHEADER 100, DATA OFXSGML, a known VERSION of at most 160, SECURITY NONE or TYPE1 and COMPRESSION NONE. An XML document is accepted only with an xml processing instruction followed by an OFX one that has OFXHEADER 200 and a known VERSION of at least 200, any SECURITY being NONE, and no attributes other than OFXHEADER, VERSION, SECURITY, OLDFILEUID and NEWFILEUID; a header meeting these conditions is not refused because of these values, and the version found becomes the response's version. Which of the two kinds a document is goes by the header it starts with, also when it mentions the other one further on.",
  ["inputs"],"every header",
  "Tests cover some accepted headers and a few rejections, not each field's alternatives.",
  ["response.go"],[("header regular expression and switch","response.go"),("attribute loop","response.go")])
p("C12","Marshalled syntax follows the version",
  "A marshalled request or response starts with the SGML header naming its version and header 100 for versions up to 160 and with the xml and OFX processing instructions naming its version and header 200 from 200 on, with every other header field set to the value a reader accepts, lines ending in CRLF exactly when carriage returns are on; marshalling with an unknown version is an error. Requests below version 200, and only those, leave out the closing tags of leaf elements, and reading is lenient about unclosed leaf elements for SGML documents and strict for XML ones.",
  ["inputs","configurations"],"every version and formatting setting",
  "Tests marshal a few versions; the per-version table and mode switches are only sampled.",
  ["common.go","request.go","response.go"],[("header writer","common.go"),("close-tag and decoder modes","request.go, response.go")])
p("C13","The SGML leaf-element table is right",
  "The table of elements that may go unclosed in SGML contains every value-carrying element of the SGML versions of OFX, never an element that contains other elements, and is sorted without duplicates as the lookups on it require.",
  ["inputs"],"every element name",
  "Samples exercise a fraction of the 300-odd names; an aggregate in the table or a missing leaf silently misplaces data.",
  ["leaf_elements.go"],[("leaf table","leaf_elements.go")])
p("C14","Message sets are routed one to one",
  "Marshalling writes the sign-on message first and then each of the fourteen message-set slices under its own set's request or response tag, in OFX order, once each and omitting empty ones; decoding appends each message set's messages to the slice of the same set, in document order, without losing or duplicating any. Every set's tag is distinct and is the standard OFX name.",
  ["inputs"],"every combination of messages in every set",
  "Tests use one or two message sets at a time and never most of the fourteen.",
  ["request.go","response.go","common.go"],[("message-set tables","request.go, response.go"),("tag names","common.go")])
p("C15","Message registry is coherent",
  "Every response message type can be decoded: it is registered under the tag it marshals to, in the message set it reports belonging to, and the name it reports is that tag; requests likewise report the name and set they marshal as, and the sign-on parts their name. A transaction tag that is not registered for the enclosing message set is an error, not skipped or decoded as something else.",
  ["inputs"],"every message type and transaction tag",
  "Each message type has one or two samples; coherence across name, tag, set and registry is not checked as such.",
  ["response.go","bank.go","creditcard.go","invstmt.go","profile.go","seclist.go","signup.go","signon.go"],[("response type registry","response.go"),("Name and Type methods","message files")])
p("C16","Nothing invalid or misplaced is marshalled",
  "Marshalling a request or response succeeds only if its sign-on part and every message it contains has been found valid for the version being written and sits in the message set it belongs to; otherwise an error is returned. A successful result holds every message exactly once, in order, and a complete document: all opened elements closed, output flushed.",
  ["inputs"],"every request and response object",
  "Tests marshal valid messages only, plus one misplaced one.",
  ["request.go","response.go"],[("type and validity gate","request.go"),("signon validation","request.go, response.go")])
p("C17","Polymorphic lists decode completely",
  "In investment transaction lists, position lists, open-order lists, security lists and message-set lists, every child element is decoded into the Go type that belongs to its tag and appended once, in document order, to the right list; the list's start and end dates go to their own fields. A child with an unknown tag or stray content is an error.",
  ["inputs"],"every sequence of children",
  "Samples contain a few children per list; several of the 40-odd types never occur.",
  ["invstmt.go","seclist.go","profile.go"],[("custom unmarshallers","invstmt.go, seclist.go, profile.go")])
p("C18","Polymorphic lists encode completely",
  "Writing an investment transaction, position, open-order, security or message-set list emits every entry exactly once, in order, under the tag of its type, between the list's own opening and closing tags, dates first; the type name an entry reports is its tag, and the generic record it reports is the one it contains. An entry of an unknown type is an error, never silently skipped.",
  ["inputs"],"every list content",
  "Marshalling of most entry types is never tested.",
  ["invstmt.go","seclist.go","profile.go"],[("custom marshallers and type-name methods","invstmt.go, seclist.go, profile.go")])
p("C19","Every field maps to its OFX element",
  "Each exported field of the request, response and nested structures is read from and written to the OFX element path documented for it, with a Go type able to hold it (single value, optional value or list), and no two fields of one structure share a path. No Go-only field is written to a document.",
  ["inputs"],"every field of every structure",
  "Samples fill a fraction of the ~700 fields; a wrong tag silently drops data.",
  ["bank.go","creditcard.go","invstmt.go","profile.go","seclist.go","signon.go","signup.go","common.go"],[("xml struct tags","all message files")])
p("C20","Optional elements are omitted, mandatory ones written",
  "When an optional field is left unset the element is left out of the marshalled document, and every mandatory element is always written even when its Go value is the zero value.",
  ["inputs"],"every combination of set and unset fields",
  "Tests marshal a few fixed combinations.",
  ["bank.go","creditcard.go","invstmt.go","profile.go","seclist.go","signon.go","signup.go","common.go"],[("omitempty and pointer fields","all message files")])
p("C21","Enumeration names and constants correspond one to one",
  "For every enumerated OFX type, each documented constant has exactly one OFX spelling, the one defined by OFX for it, no two constants share one, converting a constant to text and back gives the same constant, and exactly the documented constants count as valid. Specification versions compare in the order of their numbers.",
  ["inputs"],"every constant of all ~40 enumerations and every integer value",
  "The generated tests compare against the same generator's spellings and skip bounds.",
  ["constants.go"],[("constant blocks and string tables","constants.go")])
p("C22","Enumeration values are parsed and written safely",
  "Parsing an enumerated value ignores surrounding whitespace, accepts exactly that type's spellings, and otherwise returns an error and leaves the value invalid; creating one from text behaves the same and yields the zero value with an error. Writing one emits its spelling for a valid value and nothing for an invalid one, and printing an invalid value never reads outside the table.",
  ["inputs"],"every string and integer for all enumerations",
  "Tests try each valid spelling and one bad one.",
  ["constants.go"],[("generated methods","constants.go")])
p("C23","Leaf values are trimmed and stored, or rejected",
  "When reading a text, identifier, integer, boolean, amount or currency element, surrounding whitespace is ignored and the value is either converted and stored or an error is returned, never a guess with a nil error: booleans are exactly Y or N and are written as such, integers are base-10 64-bit, an amount may use a comma as its decimal mark, currencies must be ISO-4217 codes. A date may have any of the five documented precisions and, in brackets, a zone of signed whole hours, optional two-digit hundredths of an hour and an optional name, which determines its offset; without a zone it is taken as GMT, and a malformed date or zone is an error. Dates are written to the millisecond with their zone in the same form, and amounts exactly, in plain decimal notation without trailing zeros.",
  ["inputs"],"every element text",
  "Tests sample values per type.",
  ["types.go"],[("UnmarshalXML methods of leaf types","types.go")])
p("C24","Validation verdicts are consistent",
  "Every validation method returns either true with a nil error or false with a non-nil error, never true with an error or false without one.",
  ["inputs"],"every receiver value and version, all validation methods",
  "Tests look at a few verdicts and often at only one of the two results.",
  ["bank.go","common.go","creditcard.go","invstmt.go","profile.go","response.go","seclist.go","signon.go","signup.go","types.go"],[("Valid methods","all message files")])
p("C25","Sign-on, identifier and status validation is exact",
  "A sign-on request is valid exactly if the user ID has 1-32 characters, exactly one of password (at most 32) and key (at most 64) is present, the language is three letters long or empty (which is replaced by ENG), the application ID has 1-5 and its version 1-4 characters. A sign-on response needs a three-letter language and a valid status, a status needs a severity of INFO, WARN or ERROR matching the one defined for its known code, an identifier has 1-36 characters, and the recommended identifier format is 36 characters with hyphens at positions 9, 14, 19 and 24.",
  ["inputs"],"every field value",
  "Tests try a few boundary values.",
  ["signon.go","types.go","common.go"],[("Valid methods","signon.go, types.go, common.go")])
p("C26","Bank statement validation is exact",
  "Bank accounts, card accounts, payees, balances, currencies, transactions, pending transactions, their lists and bank statements are valid exactly if their mandatory fields are filled, their enumerated fields hold allowed values, mutually exclusive fields are not both present, paired fields come together, and everything nested in them, list elements included, is valid. Statement and other requests and responses additionally need a valid transaction identifier.",
  ["inputs"],"every combination of field values",
  "Tests cover a few invalid statements; most clauses have none (the inverted correction-action clause went unnoticed).",
  ["bank.go","common.go","creditcard.go","invstmt.go","profile.go","seclist.go","signup.go"],[("Valid methods","bank.go, common.go")])
p("C27","Features are gated by specification version",
  "Pending-transaction requests and lists and transaction images are rejected as invalid below version 2.2, statement image requests below 2.1, and all of these are accepted from those versions on; the version used is the one of the enclosing request or response.",
  ["inputs","configurations"],"every version and message",
  "Tests check one version on each side at most.",
  ["bank.go","response.go","request.go"],[("version comparisons","bank.go")])
p("C28","Response validation covers everything and reports everything",
  "Validating a response checks the sign-on response and every message of all fourteen message sets against the response's own version, and its verdict is valid exactly if all of them are. All individual failures are reported in the returned error, none masking another.",
  ["inputs"],"every combination of valid and invalid messages",
  "Tests have at most a couple of invalid messages.",
  ["response.go"],[("validation loop and error list","response.go")])
p("C29","Status codes carry their OFX meaning",
  "For every status code defined by OFX the library reports the defined meaning, severity and conditions, and reports an error for any other code.",
  ["inputs"],"every integer code",
  "Tests look up one or two codes.",
  ["common.go"],[("status table and lookups","common.go")])
p("C30","Random identifiers are unpredictable and well formed",
  "A generated identifier is built from 16 bytes all read from the operating system's cryptographic source, printed as 32 hexadecimal digits grouped 8-4-4-4-12 with hyphens, each byte appearing exactly once. If randomness is unavailable an error and no identifier is returned.",
  ["inputs","fault_sequences"],"every outcome of the random source",
  "A test can only look at the shape of a few identifiers.",
  ["types.go"],[("random identifier generator","types.go")])
p("C31","No hidden shared or mutated state",
  "Library calls never write package-level state and never modify the client they are made on or the client configuration they are given, so distinct requests and responses can be processed concurrently with shared clients. Validating or marshalling does not modify the object, apart from defaulting the sign-on language and fixing the profile routing field.",
  ["schedules","histories"],"every interleaving of calls on distinct objects, and every sequence of calls",
  "Tests are sequential and never reuse objects.",
  ["response.go","request.go","client.go","basic_client.go","discovercard_client.go","vanguard_client.go","types.go","constants.go","common.go","bank.go","signon.go","profile.go"],[("immutable tables, per-call state","all library files")])
p("C32","Side effects are confined",
  "The library touches the outside world only by sending requests from the client request calls and by reading the clock and the random source; decoding, validating and marshalling perform no network, file, process, environment or terminal access, and the library starts no goroutines and never ends the process.",
  ["inputs"],"every call of the public API",
  "Absence of an effect on all paths cannot be tested.",
  ["response.go","request.go","client.go","basic_client.go","discovercard_client.go","vanguard_client.go","types.go"],[("import and call structure","all library files")])
p("C33","A dry run never sends",
  "When the dry-run option is given, no command that accepts it opens a connection or writes a file: it prints the request it would have sent, with the client's settings applied, to standard output and stops. Without the option the request is sent and not printed.",
  ["inputs","configurations"],"every command and flag combination",
  "The command-line tool has no tests.",
  CLI,[("dry-run branches","cmd/ofx"),("request printing","cmd/ofx/util.go")])
p("C34","The command-line tool reports failures",
  "Whenever parsing arguments, building a request, sending it, parsing its response or writing a file fails, or the server reports a failed sign-on to a command that displays data, the tool prints a message and exits with a non-zero status; it exits with zero only if the command named by the first argument was carried out with its flags parsed and accepted. A missing server URL, user name or (for downloads) file name is refused, complete flags are not.",
  ["inputs","fault_sequences"],"every command and failing step",
  "The command-line tool has no tests.",
  CLI,[("error branches","cmd/ofx")])
p("C35","The command-line tool never crashes on a response",
  "Whatever a server answers, the commands that display data never panic: absent lists, balances, payees, currencies and accounts and unexpected message types are handled.",
  ["inputs"],"every response",
  "The command-line tool has no tests.",
  ["cmd/ofx/banktransactions.go","cmd/ofx/cctransactions.go","cmd/ofx/invtransactions.go","cmd/ofx/get_accounts.go","cmd/ofx/main.go","cmd/ofx/detect_settings.go"],[("nil and length checks","cmd/ofx")])
p("C36","Displayed data is complete and comes from an accepted sign-on",
  "Account, balance and transaction data is printed only after the request succeeded and the server's sign-on status was zero. Then every account (with its identifiers), the balance, every bank transaction (date, type, amount, name or payee, memo) and every investment transaction (kind, trade date, units or total) of the statement is printed exactly once, in order, neither cut nor rounded, with each kind of investment transaction printed through a branch of its own, and amounts in the transaction's own currency when it states one, otherwise in the statement's. detect-settings reports the settings of an attempt that succeeded.",
  ["inputs"],"every response",
  "The command-line tool has no tests.",
  ["cmd/ofx/banktransactions.go","cmd/ofx/cctransactions.go","cmd/ofx/invtransactions.go","cmd/ofx/get_accounts.go"],[("status checks and print loops","cmd/ofx")])
p("C37","Commands request what the flags say",
  "Each command sends exactly one message of its kind, in its message set, with a freshly generated transaction identifier, the account, bank and broker identifiers and account type given by the flags, and transactions included without a date range; the sign-on user, password, organisation, institution ID and client UID, the server URL and the client settings come from the flags of those names (detect-settings tries client settings of its own, and the anonymous user when the given one fails). Flags shared between commands have the same variable, name and default everywhere, and checking them leaves their values alone: only a missing password is asked for and then used as typed, and download-profile uses the anonymous user and password when no user is named.",
  ["inputs","configurations"],"every command and flag value",
  "The command-line tool has no tests.",
  CLI,[("request construction","cmd/ofx")])
p("C38","Downloads are written completely to the chosen file",
  "A download command writes the body of a successful response, completely and unmodified, to the file named by its flag and to no other, and creates or truncates that file only after the request succeeded.",
  ["inputs","fault_sequences"],"every command, response and file name",
  "The command-line tool has no tests.",
  ["cmd/ofx/bankdownload.go","cmd/ofx/ccdownload.go","cmd/ofx/invdownload.go","cmd/ofx/profiledownload.go"],[("copy to file","cmd/ofx")])
p("C41","detect-settings tries every combination",
  "Unless it is successful earlier, detect-settings tries every combination of the application IDs with their versions, the OFX versions and both indentation styles that it knows, each once with the given user and once with the anonymous one, in the order of the application IDs and waiting for the given delay between combinations. The first request that succeeds ends the search with status zero; if none does the status is not zero.",
  ["inputs","fault_sequences"],"every sequence of server answers",
  "The command-line tool has no tests; the search makes up to 1188 requests.",
  ["cmd/ofx/detect_settings.go"],[("nested loops over the tables","cmd/ofx/detect_settings.go")])
p("C42","Values compare and are made exactly",
  "The Equal method of Int, Amount, Date, String, Boolean, UID and CurrSymbol is true exactly when the two values are the same: amounts as rational numbers, dates as points in time whatever their zone, currencies by their code, everything else to the last bit or byte. NewDate makes the date from its arguments as given, NewDateGMT does the same in GMT.",
  ["inputs"],"every pair of values",
  "Tests compare a few pairs.",
  ["types.go"],[("Equal methods, NewDate and NewDateGMT","types.go")])
p("C39","Amounts and dates survive a round trip",
  "Marshalling an amount or date and reading it back yields an equal value.",
  ["inputs"],"every amount and date value",
  "Tests sample values.",
  ["types.go"],[("String and UnmarshalXML of amounts and dates","types.go")])
p("C40","Documents survive a round trip",
  "Decoding a marshalled response yields a response equal to the original, for every response and version.",
  ["inputs"],"every response object",
  "Tests round-trip nothing; samples are one-way.",
  ["response.go","request.go"],[("marshal and decode","response.go, request.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
