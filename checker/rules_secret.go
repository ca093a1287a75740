package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// ---- C02 ----
//
// A flow-insensitive taint analysis of the whole module. A value is tainted
// when it is, or leads to memory that holds, the user's password or key
// (secret) or a document made of a request (document). Fields are tainted by their
// declaration, so a request is judged by its type where it leaves the module.

type taint int

const (
	secret taint = 1 << iota
	document
	mixed // text that goes on after a document
)

type fieldKey struct {
	t types.Type
	i int
}

type leak struct {
	in  ssa.Instruction
	msg string
}

type taintAn struct {
	c       *C
	val     map[ssa.Value]taint
	written map[ssa.Value]taint // parameters whose memory is written
	ret     map[*ssa.Function][]taint
	field   map[fieldKey]taint
	callers map[*ssa.Function][]ssa.CallInstruction
	leaks   map[ssa.Instruction]string
	changed bool
	sinks   int
	docs    int
}

func isSecretField(st *types.Struct, i int) bool {
	tag := st.Tag(i)
	return strings.Contains(tag, "USERPASS") || strings.Contains(tag, "USERKEY") && !strings.Contains(tag, "GENUSERKEY")
}

// holdsSecrets: values of the type contain the credentials (of a request).
func (a *taintAn) holdsSecrets(t types.Type) bool {
	seen := map[types.Type]bool{}
	var walk func(x types.Type) bool
	walk = func(x types.Type) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		switch u := x.Underlying().(type) {
		case *types.Pointer:
			return walk(u.Elem())
		case *types.Slice:
			return walk(u.Elem())
		case *types.Array:
			return walk(u.Elem())
		case *types.Map:
			return walk(u.Elem())
		case *types.Struct:
			pass, key := false, false
			for i := 0; i < u.NumFields(); i++ {
				pass = pass || strings.Contains(u.Tag(i), "USERPASS")
				key = key || isSecretField(u, i)
				if walk(u.Field(i).Type()) {
					return true
				}
			}
			return pass && key
		}
		return false
	}
	return walk(t)
}

// carries: values of the type can hold text.
func carries(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0 || b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UnsafePointer
	}
	return true
}

// outward: the type's values stand for something outside of the process, or
// for text that is shown to the user.
func outward(t types.Type) bool {
	if oneError(t) {
		return true
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch p := n.Obj().Pkg().Path(); p {
	case "os", "os/exec", "log", "log/slog", "net", "net/http", "crypto/tls", "net/url", "flag":
		return true
	}
	return false
}

func (a *taintAn) mark(v ssa.Value, t taint, in ssa.Instruction) {
	if t == 0 || v == nil || a.val[v]&t == t {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if _, ok := v.Type().(*types.Tuple); !ok && !carries(v.Type()) {
		return
	}
	if f := v.Parent(); f != nil && f.Pkg == a.c.W.Lib && isConn(v.Type()) && t == document {
		a.docs++ // the body written to the server's connection
		return
	}
	a.val[v] |= t
	a.changed = true
	if outward(v.Type()) {
		a.leak(in, "%s reaches a value of type %s", v.Type())
	}
}

func (a *taintAn) leak(in ssa.Instruction, msg string, args ...any) {
	if in == nil {
		return
	}
	if _, ok := a.leaks[in]; ok {
		return
	}
	for _, x := range args {
		s := ""
		switch y := x.(type) {
		case string:
			s = y
		case types.Type:
			s = types.TypeString(y, func(p *types.Package) string { return p.Name() })
		}
		if i := strings.LastIndex(msg, "%s"); i >= 0 {
			msg = msg[:i] + s + msg[i+2:]
		}
	}
	a.leaks[in] = strings.Replace(msg, "%s", "a credential or a document holding one", 1)
}

// write taints the memory an address leads to.
func (a *taintAn) write(addr ssa.Value, t taint, in ssa.Instruction, d int) {
	if t == 0 || d > 20 {
		return
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		a.markField(pt, x.Field, t, in)
		return
	case *ssa.IndexAddr:
		a.write(x.X, t, in, d+1)
	case *ssa.Slice:
		a.write(x.X, t, in, d+1)
	case *ssa.ChangeType:
		a.write(x.X, t, in, d+1)
	case *ssa.ChangeInterface:
		a.write(x.X, t, in, d+1)
	case *ssa.MakeInterface:
		a.write(x.X, t, in, d+1)
	case *ssa.Convert:
		a.write(x.X, t, in, d+1)
	case *ssa.TypeAssert:
		a.write(x.X, t, in, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			a.write(ta.X, t, in, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.write(x.X, t, in, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if a.val[e]&t != t {
				a.mark(x, t, in)
				a.write(e, t, in, d+1)
			}
		}
	case *ssa.FreeVar, *ssa.Parameter:
		if a.written[addr]&t != t {
			a.written[addr] |= t
			a.changed = true
		}
	case *ssa.Call:
		// a value made around what it is given (bufio.NewWriter(f))
		if len(a.c.modAn().targets(x)) == 0 {
			for _, y := range x.Call.Args {
				if pointerish(y.Type()) && a.val[y]&t != t {
					a.write(y, t, in, d+1)
				}
			}
		}
	}
	a.mark(addr, t, in)
}

func (a *taintAn) markField(st types.Type, i int, t taint, in ssa.Instruction) {
	n := namedOf(st)
	if n != nil && n.Obj().Pkg() != nil && !a.c.W.InModulePkg(n.Obj().Pkg()) {
		if outward(st) {
			f := st.Underlying().(*types.Struct).Field(i).Name()
			if !(t == document && n.Obj().Name() == "Request" && (f == "Body" || f == "GetBody")) {
				a.leak(in, "%s is stored in "+n.Obj().Name()+"."+f)
			}
			return
		}
	}
	k := fieldKey{st, i}
	if a.field[k]&t != t {
		a.field[k] |= t
		a.changed = true
		if types.Implements(st, errIface) || types.Implements(types.NewPointer(st), errIface) {
			a.leak(in, "%s is stored in an error")
		}
	}
}

var errIface = errType.Underlying().(*types.Interface)

func (a *taintAn) instr(f *ssa.Function, in ssa.Instruction) {
	v := a.val
	up := func(x ssa.Value, from ssa.Value) { a.mark(x, v[from], in) }
	switch x := in.(type) {
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		a.mark(x, a.field[fieldKey{pt, x.Field}], in)
		if n := namedOf(pt); n == nil || n.Obj().Pkg() == nil || !a.c.W.InModulePkg(n.Obj().Pkg()) {
			up(x, x.X)
		}
	case *ssa.Field:
		a.mark(x, a.field[fieldKey{x.X.Type(), x.Field}], in)
		if n := namedOf(x.X.Type()); n == nil || !a.c.W.InModulePkg(n.Obj().Pkg()) {
			up(x, x.X)
		}
	case *ssa.IndexAddr:
		up(x, x.X)
	case *ssa.Index:
		up(x, x.X)
	case *ssa.Slice:
		up(x, x.X)
	case *ssa.ChangeType:
		up(x, x.X)
	case *ssa.ChangeInterface:
		up(x, x.X)
	case *ssa.Convert:
		up(x, x.X)
	case *ssa.MultiConvert:
		up(x, x.X)
	case *ssa.SliceToArrayPointer:
		up(x, x.X)
	case *ssa.MakeInterface:
		up(x, x.X)
	case *ssa.TypeAssert:
		up(x, x.X)
	case *ssa.Range:
		up(x, x.X)
	case *ssa.Next:
		up(x, x.Iter)
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			up(x, x.X)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			up(x, x.X)
			up(x, x.Y)
			if v[x.X]&document != 0 {
				a.mark(x, mixed, in)
			}
		}
	case *ssa.Lookup:
		up(x, x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			up(x, e)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			for _, t := range a.c.modAn().targets(call) {
				if r := a.ret[t]; x.Index < len(r) {
					a.mark(x, r[x.Index], in)
				}
			}
		}
		up(x, x.Tuple)
	case *ssa.Store:
		a.write(x.Addr, v[x.Val], in, 0)
	case *ssa.MapUpdate:
		a.write(x.Map, v[x.Value]|v[x.Key], in, 0)
	case *ssa.Send:
		a.write(x.Chan, v[x.X], in, 0)
	case *ssa.Panic:
		if v[x.X] != 0 {
			a.leak(in, "%s is given to panic")
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			a.mark(fn.FreeVars[i], v[b], in)
			a.write(b, a.written[fn.FreeVars[i]], in, 0)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			for len(a.ret[f]) <= i {
				a.ret[f] = append(a.ret[f], 0)
			}
			if t := v[r]; a.ret[f][i]&t != t {
				a.ret[f][i] |= t
				a.changed = true
			}
			if v[r] != 0 && f.Signature.Recv() != nil && f.Name() == "Error" {
				a.leak(in, "%s is part of an error's text")
			}
		}
	case ssa.CallInstruction:
		a.call(f, x)
	}
}

func (a *taintAn) call(f *ssa.Function, ci ssa.CallInstruction) {
	cm := ci.Common()
	v := a.val
	var args []ssa.Value
	if cm.IsInvoke() {
		args = append(args, cm.Value)
	}
	args = append(args, cm.Args...)
	res := ci.Value()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, x := range args {
				a.mark(res, v[x], ci)
			}
			a.write(args[0], v[args[1]], ci, 0)
		case "copy":
			a.write(args[0], v[args[1]], ci, 0)
		case "print", "println":
			for _, x := range args {
				if v[x] != 0 {
					a.leak(ci, "%s is printed")
				}
			}
		}
		return
	}
	ts := a.c.modAn().targets(ci)
	for _, t := range ts {
		for i, p := range t.Params {
			if i < len(args) {
				a.mark(p, v[args[i]], ci)
				a.write(args[i], a.written[p], ci, 0)
			}
		}
		if res != nil {
			if _, tup := res.Type().(*types.Tuple); !tup && len(a.ret[t]) == 1 {
				a.mark(res, a.ret[t][0], ci)
			}
		}
		// the document made of a request
		if eng.ShortName(t) == "(*Request).Marshal" && len(a.ret[t]) > 0 && a.ret[t][0]&document == 0 {
			a.ret[t][0] |= document
			a.changed = true
		}
	}
	if len(ts) > 0 {
		if n := namedOf(cm.Value.Type()); !cm.IsInvoke() || n != nil && a.c.W.InModulePkg(n.Obj().Pkg()) {
			return
		}
	}
	a.outside(f, ci, args, res)
}

// constString is the constant text of a value.
func constString(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return ""
}

// unbox is the value put in an interface.
func unbox(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// spreadArgs lists the values of a call's variadic slice.
func spreadArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

func (a *taintAn) outside(f *ssa.Function, ci ssa.CallInstruction, args []ssa.Value, res *ssa.Call) {
	cm := ci.Common()
	name := calleeName(cm)
	short := name[strings.LastIndex(name, ".")+1:]
	v := a.val
	var pkg *types.Package
	var recv *types.Var
	if cm.IsInvoke() {
		pkg, recv = cm.Method.Pkg(), cm.Method.Type().(*types.Signature).Recv()
	} else if s := cm.StaticCallee(); s != nil {
		recv = s.Signature.Recv()
		if s.Object() != nil {
			pkg = s.Object().Pkg()
		}
	}
	path := ""
	if pkg != nil {
		path = pkg.Path()
	}
	// the sources of the command line tool
	if strings.HasSuffix(name, "term.ReadPassword") && res != nil {
		for _, r := range *res.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
				a.mark(e, secret, ci)
			}
		}
		return
	}
	if path == "flag" {
		secretFlag := false
		for _, x := range args {
			s := strings.ToLower(constString(x))
			if !strings.Contains(s, " ") && (strings.Contains(s, "pass") || strings.Contains(s, "userkey")) {
				secretFlag = true
			}
		}
		if secretFlag {
			for _, x := range args {
				if pt, ok := x.Type().Underlying().(*types.Pointer); ok && carries(pt.Elem()) && namedOf(pt) == nil {
					a.write(x, secret, ci, 0)
				}
			}
			return
		}
		for _, x := range args {
			if g, ok := x.(*ssa.Global); ok && v[g] != 0 { // another flag for the same variable
				return
			}
		}
	}
	var all taint
	for _, x := range args {
		all |= v[x]
	}
	vals := append([]ssa.Value{}, args...)
	for _, x := range args {
		for _, y := range spreadArgs(x) {
			vals = append(vals, y)
			all |= v[y]
		}
	}
	for _, x := range vals {
		u := unbox(x)
		if a.holdsSecrets(u.Type()) && !types.Identical(u.Type(), errType) {
			a.sinks++
			enc := strings.HasPrefix(name, "(*github.com/aclindsa/xml.Encoder).Encode") || strings.HasPrefix(name, "(*encoding/xml.Encoder).Encode")
			if !enc && !strings.HasPrefix(name, "reflect.") {
				a.leak(ci, "a request's credentials (%s) are given to "+name, u.Type())
			}
		}
	}
	if all == 0 {
		return
	}
	a.sinks++
	argTaint := func(i int) taint {
		if i >= len(args) {
			return 0
		}
		t := v[args[i]]
		for _, y := range spreadArgs(args[i]) {
			t |= v[y]
		}
		return t
	}
	// the body of a request to the server
	if path == "net/http" && (short == "NewRequest" || short == "NewRequestWithContext" || short == "Post") && !cm.IsInvoke() {
		body := len(args) - 1
		for i := range args {
			if argTaint(i)&secret != 0 || i != body && argTaint(i) != 0 {
				a.leak(ci, "%s is given to "+name+" other than as the body")
			}
		}
		a.docs++
		return
	}
	e, _ := outsideEffect(pkg, cm2name(cm, short), recv)
	prints := path == "fmt" && (strings.HasPrefix(short, "Print") || strings.HasPrefix(short, "Scan"))
	if prints || path != "" && e != pureEffect && !writesTo(short, recv) {
		if a.c.W.Cmd == f.Pkg && prints && all == document {
			a.docs++ // a dry run; when is judged by path
			return
		}
		a.leak(ci, "%s is given to "+name)
		return
	}
	// written somewhere
	dst := -1
	switch {
	case strings.HasPrefix(short, "Fprint"), path == "io" && (strings.HasPrefix(short, "Copy") || short == "WriteString"), short == "Fwrite":
		dst = 0
	case recv != nil && writesTo(short, recv):
		dst = 0
	case recv != nil && short == "WriteTo" && len(args) > 1:
		dst = 1
	}
	for i, x := range args {
		if i == dst {
			var t taint
			for j := range args {
				if j != i {
					t |= argTaint(j)
				}
			}
			if t == 0 {
				continue
			}
			u := unbox(x)
			if f.Pkg == a.c.W.Lib && t == document && isConn(u.Type()) {
				a.docs++
				continue
			}
			if g, ok := u.(*ssa.UnOp); ok && f.Pkg == a.c.W.Cmd && t == document {
				if o, ok := g.X.(*ssa.Global); ok && o.Name() == "Stdout" {
					a.docs++
					continue
				}
			}
			if outward(u.Type()) {
				a.leak(ci, "%s is written to a %s", u.Type())
				continue
			}
			a.write(x, t, ci, 0)
		} else if outsideMutates(name, cm, i) {
			var t taint
			for j := range args {
				if j != i {
					t |= argTaint(j)
				}
			}
			a.write(x, t, ci, 0)
		}
	}
	if res != nil && dst != 0 {
		if path == "fmt" && (short == "Sprintf" || short == "Sprint" || short == "Sprintln") {
			vs := spreadArgs(args[len(args)-1])
			for i, y := range vs {
				if i < len(vs)-1 && v[y]&document != 0 {
					all |= mixed
				}
			}
		}
		// the error of reading or looking at a document does not hold it
		if all == document {
			if tup, ok := res.Type().(*types.Tuple); ok {
				for _, r := range *res.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && !oneError(tup.At(ex.Index).Type()) {
						a.mark(ex, all, ci)
					}
				}
				return
			}
			if oneError(res.Type()) && name != "fmt.Errorf" && name != "errors.New" {
				return
			}
		}
		a.mark(res, all, ci)
	}
}

func cm2name(cm *ssa.CallCommon, short string) string {
	if cm.IsInvoke() {
		return cm.Method.Name()
	}
	if s := cm.StaticCallee(); s != nil {
		return s.Name()
	}
	return short
}

func writesTo(short string, recv *types.Var) bool {
	return recv != nil && (short == "ReadFrom" || strings.HasPrefix(short, "Write") && short != "WriteTo")
}

func isConn(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "*crypto/tls.Conn" || s == "net.Conn"
}

func (c *C) secretRules() {
	a := &taintAn{c: c, val: map[ssa.Value]taint{}, written: map[ssa.Value]taint{}, ret: map[*ssa.Function][]taint{}, field: map[fieldKey]taint{}, leaks: map[ssa.Instruction]string{}}
	n := 0
	for _, t := range libStructs(c.W) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if isSecretField(st, i) {
				a.field[fieldKey{t, i}] = secret
				c.OK("credential field", t.Obj().Name()+"."+st.Field(i).Name())
				n++
			}
		}
	}
	c.Check(n >= 3, "credential fields", "library", "", "only %d found", n)
	for a.changed = true; a.changed; {
		a.changed = false
		a.sinks, a.docs = 0, 0
		for _, f := range c.W.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a.instr(f, in)
				}
			}
		}
	}
	bad := map[*ssa.Function]bool{}
	for in, msg := range a.leaks {
		f := in.Parent()
		bad[f] = true
		c.Fail("credentials stay in the document", eng.ShortName(f), c.W.InstrPos(in), "%s", msg)
	}
	for _, f := range c.W.Funcs {
		c.funcs[eng.ShortName(f)] = true
		if !bad[f] {
			c.OK("credentials stay in the document", eng.ShortName(f))
		}
	}
	tainted := 0
	for range a.val {
		tainted++
	}
	c.Note("%d tainted values, %d calls that leave the module with them, %d of them with the document", tainted, a.sinks, a.docs)
	c.Check(a.docs >= 2, "the document is sent", "library", "", "only %d places found", a.docs)
}

func init() {
	reg("C02", 400, "Whole-module taint analysis over SSA: the fields with the credential elements, the command line tool's password variable, and the document made by Request.Marshal are followed through values, memory, fields, closures and calls. A credential may leave the module only to the XML encoder as part of its request; the document only as the body of a request or onto the TLS connection, or printed by the command line tool. Error values, panics, headers, URLs, connections, files, logs and the environment must not be reached.", (*C).secretRules)
}
