package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"ofxcheck/eng"
)

// knownApps are the applications, with their versions, that detect-settings
// pretends to be.
var knownApps = map[string][]string{
	"OFXGO": {"0001"},
	"QWIN":  {"2600", "2500", "2400", "2300", "2200", "2100", "2000", "1900", "1800", "1700", "1600", "1500", "1400"},
	"QMOFX": {"1700", "1600", "1500", "1400"},
	"QB":    {"1800", "1700", "1600", "1500"},
	"Money": {"1600", "1500", "1400", "1200", "1100"},
}

var knownVersions = []string{"102", "103", "151", "160", "200", "201", "202", "203", "210", "211", "220"}

// detectEverything: C41.
func (c *C) detectEverything() {
	found := false
	for _, d := range c.cliCmds() {
		if d.name == "detect-settings" && d.do != nil {
			found = true
			c.detectCombinations(d)
		}
	}
	c.Check(found, "command", "detect-settings", "", "the command does not exist")
}

func (c *C) detectCombinations(d *cliCmd) {
	con := d.name
	r := c.Run()
	r.Policy, r.PolicyObj = cmdPolicy, cmdPolicyObj
	outs, _ := c.Analyze(r, d.do, nil)
	full, won := 0, 0
	for i := range outs {
		o := &outs[i]
		if o.Kind == "panic" {
			continue // C35
		}
		pos := c.W.InstrPos(o.Site)
		evs := o.St.Events(nil)
		loops, good, undecided := 0, -1, 0
		for k, e := range evs {
			if e.Kind == "loop" {
				loops++
			}
			if !isSend(e) {
				continue
			}
			err, _ := errOf(e)
			switch {
			case err == nil:
				undecided++
			case o.St.F.IsNil(err) == 1:
				if good < 0 {
					good = k
				} else {
					c.Fail("nothing is tried after a success", con, pos, "another request is sent after one that worked; path: %s", o.St.F.Path())
				}
			case o.St.F.IsNil(err) != -1:
				undecided++
			}
		}
		if !c.Check(loops == 0, "every combination is tried", con, pos, "cannot tell what the attempts are: a loop has no constant bounds") {
			return
		}
		if !c.Check(undecided == 0, "every answer is looked at", con, pos, "the outcome of a request is not looked at; path: %s", o.St.F.Path()) {
			continue
		}
		if good >= 0 {
			won++
			c.Check(finished(o), "a success ends the search", con, pos, "settings worked, but the command ends with status %s; path: %s", o.Code, o.St.F.Path())
			continue
		}
		c.Check(!finished(o), "only a success is reported", con, pos, "the command ends with status 0 although no settings worked; path: %s", o.St.F.Path())
		if otherFailure(o.St.F, evs) {
			continue
		}
		full++
		c.combinations(d, o, evs, con, pos)
	}
	c.Check(full > 0, "every combination is tried", con+" at all", c.W.Pos(d.do.Pos()), "no path tries all combinations")
	// every attempt can succeed
	n := 2 * len(knownVersions) * 2
	all := 0
	for _, v := range knownApps {
		all += len(v)
	}
	c.Check(won >= n*all, "every success is noticed", con, c.W.Pos(d.do.Pos()), "%d requests can end the search, %d are to be sent", won, n*all)
}

// otherFailure: a call other than a request is known to have failed.
func otherFailure(f *eng.Facts, evs []*eng.Event) bool {
	sent := map[*eng.Term]bool{}
	for _, e := range evs {
		if isSend(e) {
			if err, _ := errOf(e); err != nil {
				sent[err] = true
			}
		}
	}
	ok := false
	see := func(t *eng.Term) {
		if t.Typ != nil && types.Identical(t.Typ, errType) && !sent[t] {
			ok = true
		}
	}
	f.NeqConsts(func(t, k *eng.Term) {
		if k == eng.Nil {
			see(t)
		}
	})
	return ok
}

// combinations reads the attempts of a path on which all fail.
func (c *C) combinations(d *cliCmd, o *eng.Outcome, evs []*eng.Event, con, pos string) {
	type try struct {
		app, ver, spec, indent string
	}
	tries := map[try]map[string]int{}
	var order []try
	var clients []*eng.Event
	slept := true
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		if e.Callee == libPfx+"GetClient" {
			clients = append(clients, e)
		}
		if e.Callee == "time.Sleep" {
			slept = slept || c.delayed(d, e)
		}
		if !isSend(e) || len(e.Args) != 2 {
			continue
		}
		var made *eng.Event
		for k := len(clients) - 1; k >= 0 && made == nil; k-- {
			if clients[k].Result == unwrap(e.Args[0]) {
				made = clients[k]
			}
		}
		if !c.Check(made != nil, "settings of an attempt", con, pos, "the request is not sent by a client of GetClient") {
			return
		}
		bc := unwrap(made.Args[1])
		get := func(f string) string {
			v := settingBefore(e, made, bc, f)
			if v == nil {
				return "?"
			}
			v = deconv(v)
			if s, is := v.StrVal(); is {
				return s
			}
			if b, is := v.BoolVal(); is {
				return fmt.Sprint(b)
			}
			if f == "SpecVersion" {
				return c.versionText(v, evs)
			}
			return "?"
		}
		t := try{get("AppID"), get("AppVer"), get("SpecVersion"), get("NoIndent")}
		if t.app == "?" || t.ver == "?" || t.spec == "?" || t.indent == "?" {
			c.Fail("settings of an attempt", con, c.W.InstrPos(e.Site), "cannot tell what is tried: %v", t)
			return
		}
		u, p := before(e, evs, e.Args[1], "Signon.UserID"), before(e, evs, e.Args[1], "Signon.UserPass")
		who := ""
		if u != nil && p != nil {
			us, is1 := deconv(u).StrVal()
			ps, is2 := deconv(p).StrVal()
			switch {
			case is1 && is2 && us == anonymousUser && ps == anonymousUser:
				who = "anonymous"
			case sameValue(o.St.F, u, c.flagVar(d, "username")) && sameValue(o.St.F, p, c.flagVar(d, "password")):
				who = "given"
			}
		}
		if !c.Check(who != "", "user of an attempt", con, c.W.InstrPos(e.Site), "settings %v are tried for user %s with password %s", t, u, p) {
			return
		}
		if tries[t] == nil {
			tries[t] = map[string]int{}
			c.Check(slept, "attempts are spaced out", con, c.W.InstrPos(e.Site), "settings %v are tried without the delay after those before", t)
			slept = false
			order = append(order, t)
		}
		tries[t][who]++
		c.Check(tries[t][who] == 1 && order[len(order)-1] == t, "no combination is tried twice", con, c.W.InstrPos(e.Site), "settings %v are tried again", t)
	}
	for app, vers := range knownApps {
		for _, ver := range vers {
			for _, spec := range knownVersions {
				for _, indent := range []string{"false", "true"} {
					t := try{app, ver, spec, indent}
					c.Check(tries[t]["given"] > 0, "every combination is tried", fmt.Sprintf("%s %v", con, t), pos, "settings %v are not tried with the given user", t)
					c.Check(tries[t]["anonymous"] > 0, "every combination is tried", fmt.Sprintf("%s %v anonymously", con, t), pos, "settings %v are not tried with the anonymous user", t)
				}
			}
		}
	}
	// the applications in the order of their promise
	rank := map[string]int{"OFXGO": 0, "QWIN": 1, "QMOFX": 2, "QB": 3, "Money": 4}
	for k := 1; k < len(order); k++ {
		a, ok1 := rank[order[k-1].app]
		b, ok2 := rank[order[k].app]
		if ok1 && ok2 && a > b {
			c.Fail("likely settings first", con, pos, "%s is tried before %s", order[k-1].app, order[k].app)
			break
		}
	}
}

// settingBefore is a setting of a client's configuration when a request is
// sent, unless only the call that chose the client could have changed it.
func settingBefore(e, made *eng.Event, bc *eng.Term, field string) *eng.Term {
	v := loadField(e.St, bc, field)
	if v == nil {
		return nil
	}
	out := false
	eng.Walk(v, func(t *eng.Term) bool {
		out = out || t.K == eng.KOut
		return !out
	})
	if out {
		return loadField(made.St, bc, field)
	}
	return v
}

// versionText is the text a version was made from.
func (c *C) versionText(v *eng.Term, evs []*eng.Event) string {
	if n, is := v.IntVal(); is {
		sc := c.W.Lib.Pkg.Scope()
		for _, s := range knownVersions {
			if k, ok := sc.Lookup("OfxVersion" + s).(*types.Const); ok {
				if x, exact := constant.Int64Val(constant.ToInt(k.Val())); exact && x == n {
					return s
				}
			}
		}
		return "?"
	}
	if v.K != eng.KExtract || v.I != 0 {
		return "?"
	}
	call := v.Args[0]
	if call.K == eng.KCall && strings.HasSuffix(call.CalleeName(), ".NewOfxVersion") && len(call.Args) == 1 {
		if s, is := deconv(call.Args[0]).StrVal(); is {
			return s
		}
	}
	for k := len(evs) - 1; k >= 0; k-- {
		if x := evs[k]; x.Kind == "call" && x.Result == call && strings.HasSuffix(x.Callee, ".NewOfxVersion") && len(x.Args) == 1 {
			if s, is := deconv(x.Args[0]).StrVal(); is {
				return s
			}
		}
	}
	return "?"
}

// delayed: a sleep of as many milliseconds as the flag says.
func (c *C) delayed(d *cliCmd, e *eng.Event) bool {
	want := c.flagVar(d, "delay")
	t := deconv(e.Args[0])
	if want == nil || t.K != eng.KBin || t.Op != token.MUL {
		return false
	}
	a, b := deconv(t.Args[0]), deconv(t.Args[1])
	return a == want && isInt64(b, 1000000) || b == want && isInt64(a, 1000000)
}

func init() {
	reg("C41", 1100, "The command's loops over its constant tables are unrolled on the abstract state, so that the path on which all requests fail is the sequence of all attempts: the settings of the client of each request, read where it is sent, must cover every combination of the applications with their versions, the OFX versions and both indentations, with the given and the anonymous user, each once, in the order of the applications and with the delay of the flag in between. On every other path some request is known to have succeeded, is the last and ends the command with status 0, or another call is known to have failed.", (*C).detectEverything)
}
