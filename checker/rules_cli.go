package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- the command line tool ----

type flagDef struct {
	kind, name string
	global     *ssa.Global
	def        *eng.Term
	pos        string
}

type cliCmd struct {
	name      string
	do, check *ssa.Function
	set       *eng.Term
	flags     []flagDef
}

func (d *cliCmd) flag(name string) *flagDef {
	for i := range d.flags {
		if d.flags[i].name == name {
			return &d.flags[i]
		}
	}
	return nil
}

// cliCmds reads the table of commands and the flags they define from the
// package's initial state.
func (c *C) cliCmds() []*cliCmd {
	if c.cmds != nil {
		return c.cmds
	}
	g := c.W.Cmd.Var("commands")
	if g == nil {
		c.Fail("anchor", "commands", "", "no table of commands")
		return nil
	}
	st := c.Fz.St
	l := st.Content(st.Load(eng.Global(g), g.Type().(*types.Pointer).Elem()))
	if l.K != eng.KList {
		c.Fail("anchor", "commands", "", "the table of commands is not constant: %s", l)
		return nil
	}
	for _, x := range l.Args {
		d := &cliCmd{}
		n, _ := x.Typ.(*types.Named)
		if n == nil {
			sl, _ := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice)
			if sl != nil {
				n, _ = sl.Elem().(*types.Named)
			}
		}
		if n == nil {
			continue
		}
		s := n.Underlying().(*types.Struct)
		var flags *eng.Term
		for i := 0; i < s.NumFields(); i++ {
			v := eng.FieldOf(x, i, s.Field(i).Type())
			switch u := s.Field(i).Type().Underlying().(type) {
			case *types.Basic:
				if t, ok := v.StrVal(); ok && d.name == "" {
					d.name = t
				}
			case *types.Pointer:
				flags, d.set = v, v
			case *types.Signature:
				f, _ := v.Obj.(*ssa.Function)
				if v.K != eng.KFunc {
					f = nil
				}
				if u.Results().Len() == 0 {
					d.do = f
				} else {
					d.check = f
				}
			}
		}
		for _, e := range c.Init {
			if e.Kind != "call" || len(e.Args) < 4 || e.Args[0] != flags || !strings.HasPrefix(e.Callee, "(*flag.FlagSet).") || !strings.HasSuffix(e.Callee, "Var") {
				continue
			}
			fd := flagDef{kind: strings.TrimSuffix(strings.TrimPrefix(e.Callee, "(*flag.FlagSet)."), "Var"), def: e.Args[3], pos: c.W.InstrPos(e.Site)}
			fd.name, _ = e.Args[2].StrVal()
			if e.Args[1].K == eng.KGlobal {
				fd.global, _ = e.Args[1].Obj.(*ssa.Global)
			}
			d.flags = append(d.flags, fd)
		}
		c.cmds = append(c.cmds, d)
	}
	return c.cmds
}

// cliOuts analyses one of the tool's functions once.
type cliRes struct {
	outs []eng.Outcome
	obls []eng.Obligation
}

func (c *C) cli(f *ssa.Function) *cliRes {
	if r, ok := c.cliMemo[f]; ok {
		return r
	}
	if c.cliMemo == nil {
		c.cliMemo = map[*ssa.Function]*cliRes{}
	}
	res := &cliRes{}
	c.cliMemo[f] = res
	own := map[*ssa.Function]bool{}
	for _, d := range c.cliCmds() {
		own[d.do], own[d.check] = true, true
	}
	r := c.Run()
	if f.Name() != "main" {
		r.MaxUnroll = 4
	}
	r.Policy = func(g *ssa.Function, ctx *eng.Ctx) eng.Mode {
		if g != f && own[g] && g != nil && (f.Name() == "main" || g.Signature.Results().Len() == 0) {
			return eng.Impure
		}
		return cmdPolicy(g, ctx)
	}
	r.PolicyObj = cmdPolicyObj
	r.OnOblig = func(o eng.Obligation) { res.obls = append(res.obls, o) }
	res.outs, _ = c.Analyze(r, f, nil)
	return res
}

// flagVar is the value a flag of the given name has when a command starts.
func (c *C) flagVar(d *cliCmd, name string) *eng.Term {
	fd := d.flag(name)
	for _, o := range c.cliCmds() {
		if fd == nil {
			fd = o.flag(name)
		}
	}
	if fd == nil || fd.global == nil {
		return nil
	}
	return eng.Init(eng.Global(fd.global), fd.global.Type().(*types.Pointer).Elem())
}

const (
	toStdout = "stdout"
	toStderr = "stderr"
)

// printsTo tells where an event prints to.
func printsTo(e *eng.Event) string {
	if e.Kind != "call" {
		return ""
	}
	std := func(t *eng.Term) string {
		t = unwrap(t)
		if t.K == eng.KInit && t.Args[0].K == eng.KGlobal {
			if g, ok := t.Args[0].Obj.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				switch g.Name() {
				case "Stdout":
					return toStdout
				case "Stderr":
					return toStderr
				}
			}
		}
		return ""
	}
	switch e.Callee {
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return toStdout
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString", "io.Copy", "(*os.File).Write", "(*os.File).WriteString":
		return std(e.Args[0])
	case "(*bytes.Buffer).WriteTo", "(io.WriterTo).WriteTo":
		return std(e.Args[1])
	case "(*flag.FlagSet).PrintDefaults", "flag.PrintDefaults", "builtin.print", "builtin.println":
		return toStderr
	}
	if strings.HasPrefix(e.Callee, "log.") {
		return toStderr
	}
	return ""
}

// printed lists what an event prints, with the values inside interfaces.
func printed(e *eng.Event) (format *eng.Term, vals []*eng.Term) {
	args := e.Args
	switch e.Callee {
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString", "io.Copy", "(*os.File).Write", "(*os.File).WriteString":
		args = args[1:]
	case "(*bytes.Buffer).WriteTo":
		return nil, args[:1]
	}
	if strings.HasSuffix(e.Callee, "rintf") || strings.HasSuffix(e.Callee, "Fatalf") {
		format, args = args[0], args[1:]
	}
	if strings.HasPrefix(e.Callee, "fmt.") || strings.HasPrefix(e.Callee, "log.") {
		if len(args) == 1 && e.St != nil {
			if l := e.St.Content(args[0]); l.K == eng.KList {
				n := int64(len(l.Args))
				for i := int64(0); i < n; i++ {
					vals = append(vals, e.St.Load(eng.ElemAddr(args[0], eng.Int(i), types.NewPointer(anyType)), anyType))
				}
				return format, vals
			}
		}
	}
	return format, args
}

var anyType = types.NewInterfaceType(nil, nil)

// mentions: something the event is given contains the term.
func mentions(e *eng.Event, t *eng.Term) bool {
	for _, x := range e.Args {
		if eng.Contains(x, t) {
			return true
		}
	}
	for _, x := range e.Cont {
		if x != nil && eng.Contains(x, t) {
			return true
		}
	}
	return false
}

// sendName: a method of a client that sends a request.
func sendName(n string) bool {
	return n == "Request" || n == "RequestNoParse" || n == "RawRequest"
}

func isSend(e *eng.Event) bool {
	if e.Kind != "call" {
		return false
	}
	i := strings.LastIndexByte(e.Callee, '.')
	return i > 0 && strings.Contains(e.Callee[:i], "ofxgo.") && sendName(e.Callee[i+1:])
}

// parsedBy is the response a sending event answers with.
func parsedBy(e *eng.Event) *eng.Term {
	sig := sigOf(e)
	if sig == nil || sig.Results().Len() == 0 {
		return nil
	}
	return eng.Extract(e.Result, 0, sig.Results().At(0).Type())
}

// outside tells whether a call can have an effect outside the process.
func (c *C) outside(e *eng.Event) (bool, string) {
	ci, ok := e.Site.(ssa.CallInstruction)
	if e.Kind != "call" || !ok {
		return e.Kind == "go", e.Callee
	}
	cm := ci.Common()
	if strings.HasPrefix(e.Callee, "dynamic:") {
		return true, e.Callee
	}
	if isSend(e) {
		return true, e.Callee
	}
	if cm.IsInvoke() {
		if m := cm.Method; m.Pkg() != nil && !c.W.InModulePkg(m.Pkg()) {
			x, w := outsideEffect(m.Pkg(), m.Name(), m.Type().(*types.Signature).Recv())
			return x != pureEffect, w
		}
	}
	if f := cm.StaticCallee(); f != nil && !c.W.InModule(f) {
		if f.Object() == nil {
			return false, ""
		}
		x, w := outsideEffect(f.Object().Pkg(), f.Name(), f.Signature.Recv())
		return x != pureEffect, w
	}
	for _, f := range c.modAn().targets(ci) {
		if w := c.reaches(f); w != "" {
			return true, w
		}
	}
	return false, ""
}

// reaches names an effect a function of the module may have on the outside.
func (c *C) reaches(f *ssa.Function) string {
	if w, ok := c.reachMemo[f]; ok {
		return w
	}
	if c.reachMemo == nil {
		c.reachMemo = map[*ssa.Function]string{}
	}
	seen := map[*ssa.Function]bool{}
	todo := []*ssa.Function{f}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		if seen[g] || !c.W.InModule(g) {
			continue
		}
		seen[g] = true
		calls, net, bad := c.effectsOf(g)
		for _, m := range []map[string]string{net, bad} {
			for _, k := range sortedKeys(m) {
				c.reachMemo[f] = k + " at " + m[k]
				return c.reachMemo[f]
			}
		}
		todo = append(todo, calls...)
	}
	c.reachMemo[f] = ""
	return ""
}

// finished: the path ends the command with status 0.
func finished(o *eng.Outcome) bool {
	return o.Kind == "ret" || o.Kind == "exit" && isInt64(o.Code, 0)
}

// dryRunRules: C33.
func (c *C) dryRunRules() {
	n := 0
	for _, d := range c.cliCmds() {
		if d.do == nil {
			continue
		}
		dry := (*eng.Term)(nil)
		if d.flag("dryrun") != nil {
			n++
			dry = c.flagVar(d, "dryrun")
			c.Check(dry != nil, "dry-run option", d.name, c.W.Pos(d.do.Pos()), "the option is not kept in a variable of the package")
		}
		c.dryRunRule(d, dry)
	}
	c.Check(n >= 8, "commands with a dry-run option", "command-line tool", "", "only %d commands accept it", n)
}

// documents are the values of a path that hold the marshalled request.
func documents(evs []*eng.Event) (docs []*eng.Term, from []*eng.Event) {
	for _, e := range evs {
		if e.Kind != "call" || e.Result == nil || e.Result == eng.None {
			continue
		}
		if e.Callee == marshalName {
			docs, from = append(docs, eng.Extract(e.Result, 0, nil)), append(from, e)
			if sig := sigOf(e); sig != nil {
				docs[len(docs)-1] = eng.Extract(e.Result, 0, sig.Results().At(0).Type())
			}
			continue
		}
		for i, d := range docs {
			if mentions(e, d) {
				docs, from = append(docs, e.Result), append(from, from[i])
				break
			}
		}
	}
	return
}

func (c *C) dryRunRule(d *cliCmd, dry *eng.Term) {
	con := d.name
	for i := range c.cli(d.do).outs {
		o := &c.cli(d.do).outs[i]
		evs := eventsOf(o.St)
		docs, from := documents(evs)
		prints, good := 0, 0
		sent := false
		var why string
		for _, e := range evs {
			if e.Kind != "call" {
				continue
			}
			pos := c.W.InstrPos(e.Site)
			if to := printsTo(e); to != "" {
				for k, doc := range docs {
					if !mentions(e, doc) {
						continue
					}
					prints++
					c.Check(dry != nil && e.Facts.Eval(dry) == 1, "a request that is sent is not printed", con, pos, "prints the request although no dry run was asked for; path: %s", e.Facts.Path())
					if ok, w := c.printsDocument(e, to, doc, from[k], evs); ok {
						good++
					} else {
						why = w
					}
					break
				}
				continue
			}
			if e.Callee == "os.Exit" {
				continue
			}
			if isSend(e) {
				sent = true
			}
			if out, what := c.outside(e); out && dry != nil {
				c.Check(e.Facts.Eval(dry) == -1, "a dry run has no effects", con, pos, "%s may happen in a dry run (%s); path: %s", e.Callee, what, e.Facts.Path())
			}
		}
		if dry == nil || !finished(o) {
			continue
		}
		pos := c.W.InstrPos(o.Site)
		switch o.St.F.Eval(dry) {
		case 1:
			c.Check(good == 1 && prints == 1, "a dry run prints the request", con, pos, "a dry run ends after printing the request %d times%s; path: %s", good, why, o.St.F.Path())
		case -1:
			c.Check(sent, "without dry run the request is sent", con, pos, "the command ends without sending the request; path: %s", o.St.F.Path())
		default:
			c.Fail("a dry run prints the request", con, pos, "the command ends without regard to the dry-run option; path: %s", o.St.F.Path())
		}
	}
}

// printsDocument: the event prints exactly the marshalled request, after the
// client's settings were applied to it.
func (c *C) printsDocument(e *eng.Event, to string, doc *eng.Term, m *eng.Event, evs []*eng.Event) (bool, string) {
	if to != toStdout {
		return false, " (not to standard output)"
	}
	if err, _ := errOf(m); e.Facts.IsNil(err) != 1 {
		return false, " (marshalling may have failed)"
	}
	format, vals := printed(e)
	if len(vals) != 1 {
		return false, " (mixed with other values)"
	}
	if format != nil {
		f, ok := format.StrVal()
		f = strings.ReplaceAll(f, "%%", "")
		if !ok || strings.Count(f, "%") != 1 || !strings.Contains(f, "%s") && !strings.Contains(f, "%v") {
			return false, " (in another format)"
		}
	}
	v := vals[0]
	if v.K == eng.KIface {
		switch t := v.Typ2.Underlying().(type) {
		case *types.Pointer:
		case *types.Basic:
			if t.Kind() != types.String {
				return false, " (as another type)"
			}
		case *types.Slice:
			if format == nil || !strings.Contains(format.String(), "%s") {
				return false, " (as numbers)"
			}
		default:
			return false, " (as another type)"
		}
	}
	// settings applied to what is marshalled, by the client's own method
	for _, s := range evs {
		if s.Kind == "call" && s.Callee == "(*"+libPfx+"Request).SetClientFields" && len(s.Args) == 2 && s.Args[0] == m.Args[0] {
			if m.Cont[0] != nil && m.Cont[0].K == eng.KOut && m.Cont[0].Args[0] == s.Result {
				return true, ""
			}
			return false, " (changed after the client's settings were applied)"
		}
	}
	return false, " (without the client's settings)"
}

// cliFailures lists the steps of a path that may have failed. A request that
// failed is forgiven when a later one succeeded.
func (c *C) cliFailures(st *eng.State, evs []*eng.Event) (bad []failure) {
	okSend := -1
	for i, e := range evs {
		if e.Kind == "loop" {
			for _, b := range e.Loop.Backs {
				for _, x := range c.cliFailures(b.St, flatten(b.St.Events(b.From))) {
					bad = append(bad, failure{x.e, i, "in a round of a loop; path: " + b.St.F.Path()})
				}
			}
			continue
		}
		err, sig := errOf(e)
		if err == nil || printsTo(e) != "" || e.Callee == "(*"+libPfx+"Status).CodeMeaning" || neverFails(e) && e.Callee != "(*os.File).Close" {
			continue
		}
		if c.nilError(st.F, e, err, sig) {
			if isSend(e) {
				okSend = i
			}
			continue
		}
		bad = append(bad, failure{e, i, "path: " + st.F.Path()})
	}
	var left []failure
	for _, b := range bad {
		if !isSend(b.e) || b.at > okSend {
			left = append(left, b)
		}
	}
	return left
}

// accepted: the facts say that the server accepted the sign-on.
func accepted(f *eng.Facts, resp *eng.Term) bool {
	a, t := fieldAt(resp, "Signon.Status.Code")
	if a == nil {
		return false
	}
	v := eng.Init(a, t)
	lo, hi := f.Range(v)
	return lo == 0 && hi == 0 || f.Eval(eng.Eq(v, eng.Int(0))) == 1
}

// reported: what failed on the path is followed by a message.
func reported(evs []*eng.Event, from int) bool {
	for _, e := range evs[from:] {
		if printsTo(e) != "" {
			return true
		}
		if e.Kind == "loop" {
			for _, b := range e.Loop.Backs {
				if reported(flatten(b.St.Events(b.From)), 0) {
					return true
				}
			}
		}
	}
	return false
}

func (c *C) exitRules() {
	cmds := c.cliCmds()
	c.Check(len(cmds) >= 9, "commands", "command-line tool", "", "only %d commands found", len(cmds))
	for _, d := range cmds {
		if !c.Check(d.do != nil && d.check != nil && d.name != "", "command complete", d.name, "", "the command has no name, function or check of its flags") {
			continue
		}
		c.exitRule(d.do, d)
		c.checkRule(d)
	}
	main := c.W.Cmd.Func("main")
	if main == nil {
		c.Fail("anchor", "main", "", "no function main")
		return
	}
	c.exitRule(main, nil)
	c.mainRule(main)
}

// exitRule: every path that ends with status 0 had no failing step; every
// other says why.
func (c *C) exitRule(f *ssa.Function, d *cliCmd) {
	con := eng.ShortName(f)
	if d != nil {
		con = d.name
	}
	outs := c.cli(f).outs
	c.Check(len(outs) > 0, "paths", con, c.W.Pos(f.Pos()), "no paths")
	for i := range outs {
		o := &outs[i]
		if o.Kind == "panic" {
			continue // C35
		}
		pos := c.W.InstrPos(o.Site)
		evs := flatten(o.St.Events(nil))
		bad := c.cliFailures(o.St, evs)
		if finished(o) {
			for _, b := range bad {
				c.Fail("success only if every step succeeded", con+": "+b.e.Callee, c.W.InstrPos(b.e.Site), "the tool exits with status 0 (%s) although %s may have failed; %s", pos, b.e.Callee, b.why)
			}
			for _, e := range evs {
				if _, sig := errOf(e); sig != nil {
					c.OK("success only if every step succeeded", con+": "+e.Callee)
				}
				if d != nil && d.name != "detect-settings" && isSend(e) && strings.HasSuffix(e.Callee, ".Request") {
					c.Check(accepted(o.St.F, parsedBy(e)), "success only if the sign-on was accepted", con, pos, "the tool exits with status 0 although the server may have refused the sign-on; path: %s", o.St.F.Path())
				}
			}
			continue
		}
		n := int64(0)
		if o.Code != nil {
			n, _ = o.Code.IntVal()
		}
		if !c.Check(n > 0 && n < 256, "exit status", con, pos, "the tool exits with status %s; path: %s", o.Code, o.St.F.Path()) {
			continue
		}
		from := 0
		for _, b := range bad {
			if b.at > from && !isSend(b.e) {
				from = b.at
			}
		}
		said := reported(evs, from)
		if ci, ok := o.Site.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(ci.Common()), "log.Fatal") {
			said = true
		}
		c.Check(said, "failures are reported", con, pos, "the tool exits with status %s without a message; path: %s", o.Code, o.St.F.Path())
	}
}

// checkRule: the check of a command's flags passes only when its steps
// succeeded and the values a request cannot do without are there; otherwise
// it says why not.
func (c *C) checkRule(d *cliCmd) {
	con := d.name + " flags"
	outs := c.cli(d.check).outs
	passes := 0
	for i := range outs {
		o := &outs[i]
		if o.Kind == "panic" {
			continue
		}
		pos := c.W.InstrPos(o.Site)
		evs := flatten(o.St.Events(nil))
		bad := c.cliFailures(o.St, evs)
		if o.Kind == "exit" {
			n, _ := o.Code.IntVal()
			c.Check(n > 0, "exit status", con, pos, "the check of the flags exits with status %s", o.Code)
			c.Check(reported(evs, 0), "failures are reported", con, pos, "exits without a message; path: %s", o.St.F.Path())
			continue
		}
		v := o.St.F.Eval(o.Res[0])
		if v != -1 {
			passes++
			for _, b := range bad {
				c.Fail("flags pass only if every step succeeded", con+": "+b.e.Callee, c.W.InstrPos(b.e.Site), "the flags are accepted although %s may have failed; %s", b.e.Callee, b.why)
			}
			for _, n := range []string{"url", "username", "filename"} {
				fd := d.flag(n)
				if fd == nil || fd.global == nil {
					continue
				}
				t := o.St.Load(eng.Global(fd.global), fd.global.Type().(*types.Pointer).Elem())
				ok := o.St.F.LE(eng.Int(1), eng.LenOf(t), 0) == 1
				if s, is := t.StrVal(); is {
					ok = s != ""
				}
				c.Check(ok, "missing "+n+" refused", d.name, pos, "the flags are accepted although the %s may be empty; path: %s", n, o.St.F.Path())
			}
		}
		if v != 1 {
			c.Check(reported(evs, 0), "failures are reported", con, pos, "the flags are refused without a message; path: %s", o.St.F.Path())
			why := knownError(o.St.F)
			for _, n := range []string{"url", "username", "filename"} {
				if fd := d.flag(n); fd != nil && fd.global != nil {
					t := o.St.Load(eng.Global(fd.global), fd.global.Type().(*types.Pointer).Elem())
					s, is := t.StrVal()
					why = why || is && s == "" || o.St.F.LE(eng.LenOf(t), eng.Int(0), 0) == 1
				}
			}
			c.Check(v == -1 && why, "flags are refused only for a reason", con, pos, "the flags may be refused although nothing is missing; path: %s", o.St.F.Path())
		}
	}
	c.Check(passes > 0, "flags can pass", d.name, c.W.Pos(d.check.Pos()), "the flags are never accepted")
}

// mainRule: status 0 only after the command that was named ran with accepted
// flags, or when help was asked for.
func (c *C) mainRule(main *ssa.Function) {
	ran := map[string]bool{}
	outs := c.cli(main).outs
	for i := range outs {
		o := &outs[i]
		pos := c.W.InstrPos(o.Site)
		evs := eventsOf(o.St)
		word := ""
		o.St.F.EqConsts(func(t, k *eng.Term) {
			if s, ok := k.StrVal(); ok && argWord(t) {
				word = s
			}
		})
		var did, parsed, checked *cliCmd
		for _, e := range evs {
			if e.Kind != "call" {
				continue
			}
			for _, d := range c.cliCmds() {
				switch {
				case calleeOf(e) == d.do || e.Callee == eng.FnName(d.do):
					c.Check(checked == d || checked != nil && checked.check == d.check, "a command runs with accepted flags", d.name, pos, "the command runs without its flags having been accepted; path: %s", o.St.F.Path())
					c.Check(parsed == d, "a command runs with its own flags", d.name, pos, "the command runs without its flags having been parsed; path: %s", o.St.F.Path())
					c.Check(word == d.name, "the named command runs", d.name, pos, "%s runs for the word %q; path: %s", d.name, word, o.St.F.Path())
					did = d
				case calleeOf(e) == d.check || e.Callee == eng.FnName(d.check):
					if e.Result != nil && o.St.F.Eval(e.Result) == 1 && (checked == nil || parsed == d) {
						checked = d
					}
				}
			}
			if e.Callee == "(*flag.FlagSet).Parse" {
				if o.St.F.IsNil(e.Result) != 1 {
					continue
				}
				for _, d := range c.cliCmds() {
					if d.set == e.Args[0] {
						parsed = d
						c.Check(argsFrom2(e.Args[1]), "a command's arguments are parsed", d.name, pos, "the flags are parsed from %s", e.Args[1])
					}
				}
			}
		}
		if did != nil {
			ran[did.name] = true
		}
		if finished(o) {
			help := word == "-h" || word == "-help" || word == "--help" || word == "help"
			c.Check(did != nil || help, "success only if the command was carried out", "main", pos, "the tool exits with status 0 without running a command; path: %s", o.St.F.Path())
		}
	}
	for _, d := range c.cliCmds() {
		c.Check(ran[d.name], "the named command runs", d.name, c.W.Pos(main.Pos()), "main never runs the command")
	}
}

// argWord: the term is os.Args[1].
func argWord(t *eng.Term) bool {
	t = deconv(t)
	if t.K == eng.KInit {
		t = t.Args[0]
	}
	return (t.K == eng.KElem || t.K == eng.KElemOf) && isInt64(t.Args[1], 1) && isOsArgs(t.Args[0])
}

func isOsArgs(t *eng.Term) bool {
	if t.K != eng.KInit || t.Args[0].K != eng.KGlobal {
		return false
	}
	g, ok := t.Args[0].Obj.(*ssa.Global)
	return ok && g.Name() == "Args" && g.Pkg != nil && g.Pkg.Pkg.Path() == "os"
}

// argsFrom2: the term is os.Args[2:].
func argsFrom2(t *eng.Term) bool {
	if t.K == eng.KSlice && isInt64(t.Args[1], 1) && t.Args[0].K == eng.KSlice {
		// os.Args[1:][1:]
		return t.Args[0].K == eng.KSlice && isInt64(t.Args[0].Args[1], 1) && isOsArgs(t.Args[0].Args[0])
	}
	return t.K == eng.KSlice && isInt64(t.Args[1], 2) && isOsArgs(t.Args[0])
}

// ---- C37 ----

// what the commands ask for: the message set, the type of the message and
// the flags its fields come from.
type asks struct {
	list, msg string
	fields    map[string]string
	include   bool
}

var bankFields = map[string]string{"BankAcctFrom.BankID": "bankid", "BankAcctFrom.AcctID": "acctid", "BankAcctFrom.AcctType": "accttype"}
var ccFields = map[string]string{"CCAcctFrom.AcctID": "acctid"}
var invFields = map[string]string{"InvAcctFrom.BrokerID": "brokerid", "InvAcctFrom.AcctID": "acctid"}

var commandAsks = map[string]asks{
	"download-profile":  {"Prof", "ProfileRequest", nil, false},
	"detect-settings":   {"Prof", "ProfileRequest", nil, false},
	"get-accounts":      {"Signup", "AcctInfoRequest", nil, false},
	"download-bank":     {"Bank", "StatementRequest", bankFields, true},
	"transactions-bank": {"Bank", "StatementRequest", bankFields, true},
	"download-cc":       {"CreditCard", "CCStatementRequest", ccFields, true},
	"transactions-cc":   {"CreditCard", "CCStatementRequest", ccFields, true},
	"download-inv":      {"InvStmt", "InvStatementRequest", invFields, true},
	"transactions-inv":  {"InvStmt", "InvStatementRequest", invFields, true},
}

var signonFlags = map[string]string{"URL": "url", "Signon.UserID": "username", "Signon.UserPass": "password", "Signon.Org": "org", "Signon.Fid": "fid", "Signon.ClientUID": "clientuid"}
var clientFlags = map[string]string{"AppID": "appid", "AppVer": "appver", "SpecVersion": "ofxversion", "NoIndent": "noindent", "CarriageReturn": "carriagereturn", "UserAgent": "useragent"}

const anonymousUser = "anonymous00000000000000000000000"

// before is a field of the request or client as the command set it: what an
// earlier call of a client left is read from the state before that call.
func before(e *eng.Event, evs []*eng.Event, obj *eng.Term, path string) *eng.Term {
	for d := 0; d < 8; d++ {
		v := loadField(e.St, obj, path)
		if v == nil {
			return nil
		}
		var prev *eng.Event
		eng.Walk(v, func(t *eng.Term) bool {
			if t.K == eng.KOut && prev == nil {
				for _, x := range evs {
					if x.Kind == "call" && x.Result == t.Args[0] && x.N < e.N {
						prev = x
					}
				}
			}
			return prev == nil
		})
		if prev == nil || !isSend(prev) && !strings.HasSuffix(prev.Callee, "ofxgo.GetClient") && !strings.HasSuffix(prev.Callee, ").SetClientFields") {
			return v
		}
		e = prev
	}
	return nil
}

// conversionOf: the term is the result of the named library function for the
// given value.
func conversionOf(t *eng.Term, fn string, v *eng.Term, evs []*eng.Event) bool {
	t = deconv(t)
	if t.K != eng.KExtract || t.I != 0 {
		return false
	}
	if isCall(t.Args[0], libPfx+fn) {
		return deconv(t.Args[0].Args[0]) == v
	}
	for _, e := range evs {
		if e.Kind == "call" && e.Result == t.Args[0] {
			return e.Callee == libPfx+fn && len(e.Args) == 1 && deconv(e.Args[0]) == v
		}
	}
	return false
}

// sameValue: on the path, v is the value of the flag.
func sameValue(f *eng.Facts, v, want *eng.Term) bool {
	if v == nil || want == nil {
		return false
	}
	v = deconv(v)
	if v == want {
		return true
	}
	if b, ok := v.BoolVal(); ok {
		return f.Eval(want) == map[bool]int{true: 1, false: -1}[b]
	}
	if s, ok := v.StrVal(); ok && s == "" && f.LE(eng.LenOf(want), eng.Int(0), 0) == 1 {
		return true
	}
	return v.K == eng.KConst && f.Eval(eng.Eq(want, v)) == 1
}

func (c *C) askRules() {
	cmds := c.cliCmds()
	names := map[string]bool{}
	for _, d := range cmds {
		names[d.name] = true
		w, ok := commandAsks[d.name]
		if d.do == nil {
			continue
		}
		if !ok {
			c.Note("command %s is not in the specification; only its flags are checked", d.name)
			continue
		}
		c.askRule(d, w)
	}
	for _, n := range sortedKeys(commandAsks) {
		c.Check(names[n], "command", n, "", "the command does not exist")
	}
	c.flagRules(cmds)
	for _, d := range cmds {
		if d.check != nil {
			c.keptRule(d)
		}
	}
}

// keptRule: the check of a command's flags leaves their values alone. Only a
// missing password is asked for, and a profile is downloaded anonymously when
// no user is named.
func (c *C) keptRule(d *cliCmd) {
	anon := false
	for i := range c.cli(d.check).outs {
		o := &c.cli(d.check).outs[i]
		if o.Kind != "ret" || o.St.F.Eval(o.Res[0]) == -1 {
			continue
		}
		pos := c.W.InstrPos(o.Site)
		load := func(n string) (was, is *eng.Term) {
			fd := d.flag(n)
			if fd == nil || fd.global == nil {
				return nil, nil
			}
			t := fd.global.Type().(*types.Pointer).Elem()
			return eng.Init(eng.Global(fd.global), t), o.St.Load(eng.Global(fd.global), t)
		}
		empty := func(t *eng.Term) bool {
			return t != nil && o.St.F.LE(eng.LenOf(t), eng.Int(0), 0) == 1
		}
		user, user1 := load("username")
		_, pass1 := load("password")
		nobody := false
		if d.name == "download-profile" && empty(user) && pass1 != nil {
			u, _ := deconv(user1).StrVal()
			p, _ := deconv(pass1).StrVal()
			nobody = u == anonymousUser && p == anonymousUser
			anon = anon || nobody
			c.Check(nobody, "anonymous without a user name", d.name, pos, "the user is %s and the password %s when no user is named; path: %s", user1, pass1, o.St.F.Path())
		}
		for i := range d.flags {
			f := &d.flags[i]
			if f.global == nil {
				continue
			}
			was, is := load(f.name)
			ok := sameValue(o.St.F, is, was)
			switch f.name {
			case "password":
				asked := false
				eng.Walk(is, func(t *eng.Term) bool {
					asked = asked || t.K == eng.KEvent && !strings.HasPrefix(t.CalleeName(), "os.")
					return true
				})
				if typed := typedPassword(is); typed != nil && !nobody {
					c.Check(wholeText(is, typed), "the password is used as typed", d.name, pos, "the password becomes %s", is)
				}
				ok = ok || nobody || asked && empty(was)
			case "username":
				ok = ok || nobody
			}
			c.Check(ok, "flags keep their values", d.name+" -"+f.name, pos, "the flag -%s is %s after the check; path: %s", f.name, is, o.St.F.Path())
		}
	}
	if d.name == "download-profile" {
		c.Check(anon, "anonymous without a user name", d.name, c.W.Pos(d.check.Pos()), "no path stands in for a missing user name")
	}
}

// typedPassword is the answer of the terminal in a value.
func typedPassword(t *eng.Term) (out *eng.Term) {
	eng.Walk(t, func(x *eng.Term) bool {
		if x.K == eng.KExtract && x.I == 0 && strings.HasSuffix(x.Args[0].CalleeName(), ".ReadPassword") {
			out = x
		}
		return true
	})
	return
}

// wholeText: the value is the answer, converted at most.
func wholeText(t, answer *eng.Term) bool {
	for t != answer {
		if t.K != eng.KConv {
			return false
		}
		t = t.Args[0]
	}
	return true
}

// flagRules: flags of one name are one flag.
func (c *C) flagRules(cmds []*cliCmd) {
	first := map[string]*flagDef{}
	owner := map[*ssa.Global]string{}
	sets := map[*eng.Term]string{}
	for _, d := range cmds {
		c.Check(sets[d.set] == "" && d.set != nil, "own flags", d.name, "", "the command shares its set of flags with %s", sets[d.set])
		sets[d.set] = d.name
		seen := map[string]bool{}
		for i := range d.flags {
			f := &d.flags[i]
			con := d.name + " -" + f.name
			if !c.Check(f.global != nil && f.name != "", "flag kept in a variable", con, f.pos, "the flag is not kept in a variable of the package") {
				continue
			}
			c.Check(!seen[f.name], "flag defined once", con, f.pos, "the command defines the flag twice, which stops the tool when it starts")
			seen[f.name] = true
			o := first[f.name]
			if o == nil {
				first[f.name] = f
				o = f
			}
			c.Check(o.global == f.global, "one variable per flag", con, f.pos, "the flag is kept in %s, but in %s by another command", f.global.Name(), o.global.Name())
			c.Check(o.def == f.def && o.kind == f.kind, "one default per flag", con, f.pos, "the flag's default is %s (%s), but %s (%s) for another command", f.def, f.kind, o.def, o.kind)
			if n := owner[f.global]; n != "" {
				c.Check(n == f.name, "one flag per variable", con, f.pos, "the variable %s is also that of flag -%s", f.global.Name(), n)
			}
			owner[f.global] = f.name
		}
	}
}

func (c *C) askRule(d *cliCmd, w asks) {
	con := d.name
	n := 0
	outs := c.cli(d.do).outs
	for i := range outs {
		o := &outs[i]
		evs := eventsOf(o.St)
		for _, e := range evs {
			if e.Kind != "call" || e.St == nil {
				continue
			}
			var query, client *eng.Term
			switch {
			case isSend(e) && len(e.Args) == 2 && structOf(e.Args[1].Typ) != nil:
				client, query = e.Args[0], e.Args[1]
			case isSend(e):
				c.Fail("requests are sent by the client", con, c.W.InstrPos(e.Site), "sends %s", e.Args)
				continue
			case e.Callee == marshalName:
				query = e.Args[0]
				for _, s := range evs {
					if s.Kind == "call" && s.Callee == "(*"+libPfx+"Request).SetClientFields" && s.Args[0] == query {
						client = s.Args[1]
					}
				}
			default:
				continue
			}
			n++
			c.messageRule(d, w, e, evs, query)
			c.signonRule(d, e, evs, query)
			if client != nil {
				c.clientRule(d, e, evs, client)
			}
		}
	}
	c.Check(n > 0, "the command makes a request", con, c.W.Pos(d.do.Pos()), "the command neither sends nor prints a request")
}

// elements lists a list the command built.
func elements(st *eng.State, l *eng.Term) ([]*eng.Term, bool) {
	if l == nil {
		return nil, false
	}
	switch l.K {
	case eng.KNil, eng.KZero:
		return nil, true
	case eng.KAppend:
		b, ok := elements(st, l.Args[0])
		return append(b, l.Args[1:]...), ok
	case eng.KList:
		return l.Args, true
	}
	if l.Typ != nil {
		if sl, ok := l.Typ.Underlying().(*types.Slice); ok && l.K == eng.KSlice {
			if x := st.Content(l); x.K == eng.KList {
				var out []*eng.Term
				for i := range x.Args {
					out = append(out, st.Load(eng.ElemAddr(l, eng.Int(int64(i)), types.NewPointer(sl.Elem())), sl.Elem()))
				}
				return out, true
			}
		}
	}
	return nil, false
}

func (c *C) messageRule(d *cliCmd, w asks, e *eng.Event, evs []*eng.Event, query *eng.Term) {
	con, pos := d.name, c.W.InstrPos(e.Site)
	rs := structOf(query.Typ)
	for i := 0; rs != nil && i < rs.NumFields(); i++ {
		sl, ok := rs.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if nm := namedOf(sl.Elem()); nm == nil || nm.Obj().Name() != "Message" {
			continue
		}
		n := rs.Field(i).Name()
		es, known := elements(e.St, before(e, evs, query, n))
		if n != w.list {
			c.Check(known && len(es) == 0, "one message in its message set", con, pos, "the request's %s list is %s", n, before(e, evs, query, n))
			continue
		}
		if !c.Check(known && len(es) == 1, "one message in its message set", con, pos, "the request's %s list has %d messages (%s)", n, len(es), before(e, evs, query, n)) {
			continue
		}
		m := es[0]
		ok = m.K == eng.KIface && namedOf(m.Typ2) != nil && namedOf(m.Typ2).Obj().Name() == w.msg
		if !c.Check(ok, "message of its kind", con, pos, "the message is %s", m) {
			continue
		}
		p := m.Args[0]
		if _, isPtr := m.Typ2.Underlying().(*types.Pointer); !isPtr {
			c.Fail("message of its kind", con, pos, "the message is not given by pointer: %s", m)
			continue
		}
		// a fresh transaction ID
		uid := before(e, evs, p, "TrnUID")
		fresh := false
		for _, x := range evs {
			if x.Kind == "call" && x.Callee == libPfx+"RandomUID" && uid != nil && uid.K == eng.KInit && uid.Args[0].K == eng.KExtract && uid.Args[0].I == 0 && uid.Args[0].Args[0] == x.Result {
				fresh = true
			}
		}
		c.Check(fresh, "fresh transaction ID", con, pos, "the transaction ID is %s", uid)
		for _, f := range sortedKeys(w.fields) {
			fl := w.fields[f]
			v := before(e, evs, p, f)
			want := c.flagVar(d, fl)
			ok := d.flag(fl) != nil && want != nil && v != nil
			if ok && f == "BankAcctFrom.AcctType" {
				ok = conversionOf(v, "NewAcctType", want, evs)
			} else if ok {
				ok = sameValue(e.Facts, v, want)
			}
			c.Check(ok, f+" from -"+fl, con, pos, "the message's %s is %s", f, v)
		}
		if w.include {
			v := before(e, evs, p, "Include")
			b, ok := false, false
			if v != nil {
				b, ok = v.BoolVal()
			}
			c.Check(ok && b, "transactions included", con, pos, "the message's Include is %s", v)
			for _, f := range []string{"DtStart", "DtEnd"} {
				v := before(e, evs, p, f)
				c.Check(v != nil && e.Facts.IsNil(v) == 1, "no date range", con, pos, "the message's %s is %s", f, v)
			}
		}
	}
}

func (c *C) signonRule(d *cliCmd, e *eng.Event, evs []*eng.Event, query *eng.Term) {
	con, pos := d.name, c.W.InstrPos(e.Site)
	anon := false
	if d.name == "detect-settings" {
		u, p := before(e, evs, query, "Signon.UserID"), before(e, evs, query, "Signon.UserPass")
		if u != nil && p != nil {
			us, ok1 := deconv(u).StrVal()
			ps, ok2 := deconv(p).StrVal()
			anon = ok1 && ok2 && us == anonymousUser && ps == anonymousUser
		}
	}
	for _, f := range sortedKeys(signonFlags) {
		fl := signonFlags[f]
		if anon && (fl == "username" || fl == "password") {
			continue
		}
		if d.flag(fl) == nil && d.name != "detect-settings" {
			c.Fail(f+" from -"+fl, con, pos, "the command has no flag -%s", fl)
			continue
		}
		v := before(e, evs, query, f)
		want := c.flagVar(d, fl)
		ok := sameValue(e.Facts, v, want)
		if !ok && v != nil && d.flag(fl) == nil {
			s, is := deconv(v).StrVal()
			ok = is && s == ""
		}
		c.Check(ok, f+" from -"+fl, con, pos, "the request's %s is %s", f, v)
	}
}

func (c *C) clientRule(d *cliCmd, e *eng.Event, evs []*eng.Event, client *eng.Term) {
	con, pos := d.name, c.W.InstrPos(e.Site)
	var made *eng.Event
	for _, x := range evs {
		if x.Kind == "call" && x.Callee == libPfx+"GetClient" && x.Result == unwrap(client) {
			made = x
		}
	}
	if !c.Check(made != nil, "client chosen by GetClient", con, pos, "the request is sent by %s", client) {
		return
	}
	c.Check(sameValue(made.Facts, made.Args[0], c.flagVar(d, "url")), "client chosen for the URL", con, pos, "the client is chosen for %s", made.Args[0])
	bc := unwrap(made.Args[1])
	for _, f := range sortedKeys(clientFlags) {
		fl := clientFlags[f]
		if d.name == "detect-settings" && d.flag(fl) == nil {
			continue
		}
		// the client's settings when it sends, unless only the call that
		// chose it could have changed them
		v := before(e, evs, bc, f)
		want := c.flagVar(d, fl)
		ok := d.flag(fl) != nil && want != nil && v != nil
		if ok && f == "SpecVersion" {
			ok = conversionOf(v, "NewOfxVersion", want, evs)
		} else if ok {
			ok = sameValue(e.Facts, v, want)
		}
		c.Check(ok, f+" from -"+fl, con, pos, "the client's %s is %s", f, v)
	}
}

// ---- C38 ----

var fileMakers = map[string]bool{}

func init() {
	for _, n := range strings.Fields("os.Create os.OpenFile os.CreateTemp os.WriteFile os.Rename os.Remove os.RemoveAll os.Truncate os.Mkdir os.MkdirAll os.MkdirTemp os.Link os.Symlink os.Chmod os.Chown os.Chtimes io/ioutil.WriteFile io/ioutil.TempFile io/ioutil.TempDir") {
		fileMakers[n] = true
	}
}

func (c *C) downloadRules() {
	n := 0
	for _, d := range c.cliCmds() {
		if d.flag("filename") != nil && d.do != nil {
			n++
			c.downloadRule(d)
		} else if d.do != nil {
			for i := range c.cli(d.do).outs {
				for _, e := range eventsOf(c.cli(d.do).outs[i].St) {
					c.Check(!fileMakers[e.Callee], "no other file", d.name, c.W.InstrPos(e.Site), "%s: the command has no flag for a file", e.Callee)
				}
			}
		}
	}
	c.Check(n >= 4, "commands that download", "command-line tool", "", "only %d commands write to a file", n)
	for _, w := range []string{"download-profile", "download-bank", "download-cc", "download-inv"} {
		ok := false
		for _, d := range c.cliCmds() {
			ok = ok || d.name == w && d.flag("filename") != nil
		}
		c.Check(ok, "commands that download", w, "", "the command has no flag for the file")
	}
}

func (c *C) downloadRule(d *cliCmd) {
	con := d.name
	name := c.flagVar(d, "filename")
	dry := c.flagVar(d, "dryrun")
	outs := c.cli(d.do).outs
	done := 0
	for i := range outs {
		o := &outs[i]
		evs := eventsOf(o.St)
		top := flatten(o.St.Events(nil))
		var send, made *eng.Event
		var body, file *eng.Term
		copied := false
		written := 0
		for _, e := range evs {
			if e.Kind != "call" {
				continue
			}
			pos := c.W.InstrPos(e.Site)
			if isSend(e) {
				send = e
				if p := parsedBy(e); p != nil && structOf(p.Typ) != nil {
					if a, t := fieldAt(p, "Body"); a != nil {
						body = eng.Init(a, t)
					}
				}
				continue
			}
			if fileMakers[e.Callee] {
				ok := send != nil
				if ok {
					err, _ := errOf(send)
					ok = e.Facts.IsNil(err) == 1
				}
				c.Check(ok, "file created after the request succeeded", con, pos, "%s is called although the request may have failed; path: %s", e.Callee, e.Facts.Path())
				made, file = e, nil
				good := len(e.Args) > 0 && deconv(e.Args[0]) == name
				switch e.Callee {
				case "os.Create":
					file = parsedBy(e)
				case "os.OpenFile":
					file = parsedBy(e)
					fl, is := e.Args[1].IntVal()
					good = good && is && fl&c.osFlag("O_CREATE") != 0 && fl&c.osFlag("O_TRUNC") != 0 && fl&c.osFlag("O_APPEND") == 0 && fl&(c.osFlag("O_WRONLY")|c.osFlag("O_RDWR")) != 0
				case "os.WriteFile", "io/ioutil.WriteFile":
					copied = wholeData(evs, e, e.Args[1], body) && o.St.F.IsNil(firstErr(e)) == 1
				default:
					good = false
				}
				written++
				c.Check(good, "only the chosen file is written", con, pos, "%s of %s", e.Callee, e.Args)
				continue
			}
			if file != nil && e.Callee != "(*os.File).Close" && e.Callee != "(*os.File).Sync" && e.Callee != "(*os.File).Name" && (mentions(e, file) || mentionsIface(e, file)) {
				if buffered(e) != nil {
					continue
				}
				ok := writesWhole(evs, e, file, body)
				if printsTo(e) != "" && !ok {
					continue
				}
				if c.Check(ok, "the response is written unmodified", con, pos, "%s of %s", e.Callee, e.Args) {
					isTop := false
					for _, x := range top {
						isTop = isTop || x == e
					}
					c.Check(!copied && isTop, "the response is written once", con, pos, "the response may be written again")
					copied = o.St.F.IsNil(firstErr(e)) == 1
				}
				continue
			}
			if file != nil && len(e.Args) > 0 && bufferOf(evs, e.Args[0], file) != nil {
				switch e.Callee {
				case "(*bufio.Writer).Flush", "(*bufio.Writer).Buffered", "(*bufio.Writer).Available", "(*bufio.Writer).Size":
					continue
				}
				ok := writesWhole(evs, e, bufferOf(evs, e.Args[0], file), body)
				if c.Check(ok, "the response is written unmodified", con, pos, "%s of %s", e.Callee, e.Args) {
					isTop := false
					for _, x := range top {
						isTop = isTop || x == e
					}
					c.Check(!copied && isTop, "the response is written once", con, pos, "the response may be written again")
					copied = o.St.F.IsNil(firstErr(e)) == 1 && flushed(o, evs, e, unwrap(e.Args[0]))
				}
				continue
			}
			if body != nil && !isClose(e) && (mentions(e, body) || mentionsIface(e, body)) {
				ok := e.Callee == "io.ReadAll" || e.Callee == "io/ioutil.ReadAll" || fillsBuffer(e, body) != nil
				c.Check(ok, "the response is written unmodified", con, pos, "%s takes from the response before it is written", e.Callee)
			}
		}
		if !finished(o) || dry != nil && o.St.F.Eval(dry) == 1 {
			continue
		}
		done++
		pos := c.W.InstrPos(o.Site)
		c.Check(made != nil && copied && written == 1, "a successful download is complete", con, pos, "the command ends with status 0 without having written the response to the file once; path: %s", o.St.F.Path())
	}
	c.Check(done > 0, "a download can succeed", con, c.W.Pos(d.do.Pos()), "no path ends with success")
}

// wholeData: the bytes or text are all of the body, which was read without an
// error before.
func wholeData(evs []*eng.Event, at *eng.Event, data, body *eng.Term) bool {
	data = deconv(data)
	if body == nil {
		return false
	}
	buf := data
	if (data.K == eng.KCall || data.K == eng.KEvent) && len(data.Args) > 0 && (data.CalleeName() == "(*bytes.Buffer).Bytes" || data.CalleeName() == "(*bytes.Buffer).String") {
		buf = data.Args[0]
		for _, x := range evs {
			if b := fillsBuffer(x, body); b != nil && at.St.Content(b) == buf {
				buf = b
			}
		}
	}
	n, ok := 0, false
	for _, x := range evs {
		if x == at {
			break
		}
		if x.Kind != "call" || x.Result == nil {
			continue
		}
		if (x.Callee == "io.ReadAll" || x.Callee == "io/ioutil.ReadAll") && sameBody(x.Args[0], body) && data == eng.Extract(x.Result, 0, data.Typ) {
			n++
			ok = at.Facts.IsNil(firstErr(x)) == 1
		}
		if strings.HasPrefix(x.Callee, "(*bytes.Buffer).") && x.Args[0] == buf && !bufferReads[strings.TrimPrefix(x.Callee, "(*bytes.Buffer).")] {
			n++
		}
		if b := fillsBuffer(x, body); b != nil && b == buf {
			if !strings.HasPrefix(x.Callee, "(*bytes.Buffer).") {
				n++
			}
			ok = at.Facts.IsNil(firstErr(x)) == 1
		}
	}
	return ok && n == 1
}

var bufferReads = map[string]bool{"Bytes": true, "String": true, "Len": true, "Cap": true, "Grow": true}

// fillsBuffer is the buffer into which an event reads all of the body.
func fillsBuffer(e *eng.Event, body *eng.Term) *eng.Term {
	if len(e.Args) < 2 || !sameBody(e.Args[1], body) {
		return nil
	}
	b := unwrap(e.Args[0])
	switch e.Callee {
	case "(*bytes.Buffer).ReadFrom":
		return b
	case "io.Copy", "io.CopyBuffer":
		if n := namedOf(elemOf(b.Typ)); n != nil && n.Obj().Name() == "Buffer" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" {
			return b
		}
	}
	return nil
}

// writesWhole: the event writes all of the body to the file.
func writesWhole(evs []*eng.Event, e *eng.Event, file, body *eng.Term) bool {
	if body == nil || len(e.Args) < 2 {
		return false
	}
	switch e.Callee {
	case "io.Copy", "io.CopyBuffer", "(*os.File).ReadFrom", "(*bufio.Writer).ReadFrom":
		if unwrap(e.Args[0]) != file {
			return false
		}
		src := unwrap(deconv(e.Args[1]))
		if sameBody(src, body) {
			return true
		}
		if src.K == eng.KCall || src.K == eng.KEvent {
			switch src.CalleeName() {
			case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
				return wholeData(evs, e, src.Args[0], body)
			}
		}
		return wholeData(evs, e, src, body)
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		return unwrap(e.Args[0]) == file && wholeData(evs, e, e.Args[1], body)
	case "(*bytes.Buffer).WriteTo":
		return unwrap(e.Args[1]) == file && wholeData(evs, e, e.Args[0], body)
	}
	return false
}

// buffered is the buffered writer an event makes.
func buffered(e *eng.Event) *eng.Term {
	if e.Callee == "bufio.NewWriter" || e.Callee == "bufio.NewWriterSize" {
		return e.Result
	}
	return nil
}

// bufferOf: the writer is a buffered writer of the file.
func bufferOf(evs []*eng.Event, w, file *eng.Term) *eng.Term {
	for _, e := range evs {
		if e.Kind == "call" && buffered(e) != nil && buffered(e) == unwrap(w) && unwrap(e.Args[0]) == file {
			return e.Result
		}
	}
	return nil
}

// flushed: the buffered writer was flushed after the event, without an error,
// before the file was closed.
func flushed(o *eng.Outcome, evs []*eng.Event, at *eng.Event, w *eng.Term) bool {
	after := false
	for _, e := range evs {
		if e == at {
			after = true
		}
		if after && e.Callee == "(*os.File).Close" {
			return false
		}
		if after && e.Callee == "(*bufio.Writer).Flush" && unwrap(e.Args[0]) == w {
			return o.St.F.IsNil(firstErr(e)) == 1
		}
	}
	return false
}

func firstErr(e *eng.Event) *eng.Term {
	err, _ := errOf(e)
	return err
}

func mentionsIface(e *eng.Event, t *eng.Term) bool {
	for _, x := range e.Args {
		if unwrap(x) == t {
			return true
		}
	}
	return false
}

// sameBody: the reader is the response's body itself.
func sameBody(t, body *eng.Term) bool {
	t = unwrap(deconv(t))
	return t == body
}

func (c *C) osFlag(n string) int64 {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == "os" {
			if k, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok {
				if v, ok := constant.Int64Val(k.Val()); ok {
					return v
				}
			}
		}
	}
	return 0
}

func init() {
	reg("C33", 30, "Every command is analysed with the tool's helpers inlined, keyed by its flags' variables. On each path, a call that may reach the outside (network, files, terminal; decided through the module's call graph and a model of the standard library) must be under a known absence of the dry-run flag; a path that ends well under the flag must print the buffer of Request.Marshal exactly once, unmodified, to standard output, after SetClientFields of the chosen client; a path without the flag must send, and not print the document.", (*C).dryRunRules)
	reg("C34", 100, "Every path of main, of each command and of each check of flags that ends with status 0 (or acceptance) must have a known nil error for every step that can fail, an accepted sign-on (status code known 0) before data is displayed, and the command of the word given; every other end must be an exit with a status in 1..255 after a message was printed. main's loop over the table of commands is unrolled against the table read from the package's initial state.", (*C).exitRules)
	reg("C37", 300, "At each call that sends the request, the contents of the request, of its one message and of the client configuration are read from the abstract state of the path and must be the values of the flags' variables (through the library's conversions), a fresh RandomUID, Include true and no dates; every other message list must be empty. Flags are read from the calls made in package initialisation; flags of one name must share variable, type and default.", (*C).askRules)
	reg("C38", 20, "On each path of a download command, files may be made only after the request is known to have succeeded, under the flag's name, truncating; the response body may flow only into that file, once and whole; a path that ends with status 0 has copied it with a known nil error.", (*C).downloadRules)
}

// ---- C35 ----

func (c *C) crashRules() {
	roots := map[*ssa.Function]string{}
	for _, d := range c.cliCmds() {
		if d.do != nil && d.check != nil {
			roots[d.do], roots[d.check] = d.name, d.name+" flags"
		}
	}
	if m := c.W.Cmd.Func("main"); m != nil {
		roots[m] = "main"
	}
	seen := map[string]bool{}
	c.resultsNeverNil()
	for _, f := range c.W.Funcs {
		if f.Pkg == c.W.Cmd && f.Synthetic == "" {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						c.Check(!mayPanic(ci), "no call that may panic", eng.ShortName(f), c.W.InstrPos(in), "%s panics for some arguments", calleeName(ci.Common()))
					}
				}
			}
		}
		if roots[f] == "" {
			continue
		}
		for _, o := range c.cli(f).obls {
			if o.OK {
				c.OK("no "+o.Kind+" panic", c.W.InstrPos(o.Instr)+" "+o.Desc)
				continue
			}
			if c.neverNil(o) {
				c.OK("no "+o.Kind+" panic", c.W.InstrPos(o.Instr)+" "+o.Desc)
				continue
			}
			k := roots[f] + c.W.InstrPos(o.Instr) + o.Desc
			if !seen[k] {
				seen[k] = true
				c.Fail("no "+o.Kind+" panic", c.W.InstrPos(o.Instr)+" "+o.Desc, c.W.InstrPos(o.Instr), "%s: %s; path: %s", roots[f], o.Desc, o.St.F.Path())
			}
		}
	}
}

// neverNil: what is dereferenced is not nil for a reason of its own, which
// is checked or trusted once for all uses.
func (c *C) neverNil(o eng.Obligation) bool {
	if o.Kind != "nil" {
		return false
	}
	ci, ok := o.Instr.(ssa.CallInstruction)
	if !ok || !ci.Common().IsInvoke() {
		return false
	}
	// a client is what GetClient returned (checked below); the body of a
	// response is never nil (documented by net/http); the elements of a list
	// of decoded transactions are never nil (C17)
	switch n := namedOf(ci.Common().Value.Type()); {
	case n == nil:
	case n.Obj().Name() == "Client":
		return strings.Contains(o.Desc, libPfx+"GetClient(…)") && !strings.Contains(o.Desc, "phi")
	case n.Obj().Name() == "InvTransaction":
		return strings.Contains(o.Desc, "InvTransactions)[")
	case n.Obj().Name() == "ReadCloser" || n.Obj().Name() == "Reader" || n.Obj().Name() == "Closer":
		return strings.Contains(o.Desc, "#0.Body)")
	}
	return false
}

// mayPanic: functions of other modules that panic for some arguments.
func mayPanic(ci ssa.CallInstruction) bool {
	n := calleeName(ci.Common())
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return false
	}
	if strings.HasPrefix(n[i+1:], "Must") {
		for _, a := range ci.Common().Args {
			if _, ok := a.(*ssa.Const); !ok {
				return true
			}
		}
		return false
	}
	switch n {
	case "strings.Repeat", "bytes.Repeat":
		k, ok := ci.Common().Args[1].(*ssa.Const)
		return !ok || k.Int64() < 0
	case "(*math/big.Rat).Quo", "(*math/big.Rat).Inv", "(*math/big.Rat).SetFrac", "(*math/big.Rat).SetFrac64", "(*math/big.Int).Div", "(*math/big.Int).Quo", "(*math/big.Int).Mod", "(*math/big.Int).Rem", "(*math/big.Int).DivMod", "(*math/big.Int).QuoRem",
		"(time.Time).In", "time.NewTicker", "time.Tick", "(*bytes.Buffer).Truncate", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "slices.Grow", "slices.Insert", "slices.Delete", "slices.Max", "slices.Min", "slices.MaxFunc", "slices.MinFunc", "(*flag.FlagSet).Var", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return strings.HasPrefix(n, "reflect.") || strings.HasPrefix(n, "(reflect.Value).")
}

// resultsNeverNil: the library's answers the tool relies on are not nil.
func (c *C) resultsNeverNil() {
	if f := c.Lib("GetClient"); f != nil {
		r := c.Run()
		r.Policy = clientPolicy
		outs, _ := c.Analyze(r, f, nil)
		for i := range outs {
			o := &outs[i]
			if o.Kind == "ret" {
				c.Check(o.St.F.IsNil(o.Res[0]) == -1 || c.madeClient(o.Res[0]), "a client is never nil", "GetClient", c.W.InstrPos(o.Site), "returns %s, which may be nil", o.Res[0])
			}
		}
	}
	nonNil := func(con string, outs []eng.Outcome) {
		for i := range outs {
			o := &outs[i]
			if o.Kind != "ret" || len(o.Res) != 2 || o.St.F.IsNil(o.Res[1]) == -1 {
				continue
			}
			a, b := o.Res[0], o.Res[1]
			same := a.K == eng.KExtract && b.K == eng.KExtract && a.Args[0] == b.Args[0] && a.I == 0 && b.I == 1
			c.Check(same || o.St.F.IsNil(a) == -1, "a result without an error is not nil", con, c.W.InstrPos(o.Site), "returns %s, which may be nil, with error %s; path: %s", a, b, o.St.F.Path())
		}
	}
	if f := c.Lib("RandomUID"); f != nil {
		outs, _ := c.Analyze(c.Run(), f, nil)
		nonNil("RandomUID", outs)
	}
	for _, x := range c.clientRuns("RequestNoParse", "Request") {
		nonNil(x.name(), x.outs)
	}
}

// madeClient: the result of a constructor in the table of clients that is
// itself never nil.
func (c *C) madeClient(t *eng.Term) bool { return t.K == eng.KIface }

func init() {
	reg("C35", 400, "Every instruction of the tool that can panic (nil dereference, index, slice bounds, failed assertion, explicit panic, calls of functions that panic) is an obligation on each path that reaches it, with the tool's helpers inlined; the facts of the path must rule the panic out. Results of library functions used without a check must be shown never nil by an analysis of those functions.", (*C).crashRules)
}
