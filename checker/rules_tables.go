package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// xmlTag is a parsed xml struct tag.
type xmlTag struct {
	path      []string
	omit      bool
	attr      bool
	skip      bool
	chardata  bool
	other     []string
	hasName   bool
	malformed string
}

func parseTag(tag, field string) xmlTag {
	var t xmlTag
	if tag == "-" {
		t.skip = true
		return t
	}
	parts := strings.Split(tag, ",")
	name := parts[0]
	for _, f := range parts[1:] {
		switch f {
		case "omitempty":
			t.omit = true
		case "attr":
			t.attr = true
		case "chardata", "innerxml", "cdata", "comment", "any":
			t.chardata = true
		case "":
		default:
			t.other = append(t.other, f)
		}
	}
	if i := strings.LastIndex(name, " "); i >= 0 {
		name = name[i+1:]
	}
	t.hasName = name != ""
	if name == "" {
		name = field
	}
	t.path = strings.Split(name, ">")
	return t
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "github.com/aclindsa/ofxgo" {
			return ""
		}
		return p.Path()
	})
}

// currentRows indexes the fields of a struct by name.
func currentRows(n *types.Named) map[string]FieldRow {
	out := map[string]FieldRow{}
	for _, r := range structRows(n) {
		out[r.Name] = r
	}
	return out
}

func hasMethod(t types.Type, name string) bool {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := obj.(*types.Func)
	return ok
}

// documentStructs: structures read from or written to documents.
func (c *C) documentStructs() map[string]*types.Named {
	out := map[string]*types.Named{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Named:
			if u.Obj().Pkg() == nil || u.Obj().Pkg() != c.W.Lib.Pkg {
				return
			}
			st, ok := u.Underlying().(*types.Struct)
			if !ok || out[u.Obj().Name()] != nil || leafType(u) {
				return
			}
			out[u.Obj().Name()] = u
			for i := 0; i < st.NumFields(); i++ {
				visit(st.Field(i).Type())
			}
		}
	}
	sc := c.W.Lib.Pkg.Scope()
	var ifs []*types.Interface
	for _, n := range []string{"Message", "InvTransaction", "Position", "OpenOrder", "Security"} {
		if o := sc.Lookup(n); o != nil {
			if i, ok := o.Type().Underlying().(*types.Interface); ok && i.NumMethods() > 0 {
				ifs = append(ifs, i)
			}
		}
	}
	for _, n := range []string{"SignonRequest", "SignonResponse", "MessageSet"} {
		if o := sc.Lookup(n); o != nil {
			visit(o.Type())
		}
	}
	for _, n := range libStructs(c.W) {
		for _, i := range ifs {
			if types.Implements(n, i) || types.Implements(types.NewPointer(n), i) {
				visit(n)
			}
		}
	}
	return out
}

// leafType: a value type with its own reading of element text.
func leafType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "Int", "Amount", "Date", "String", "Boolean", "UID", "CurrSymbol":
		return true
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func baseType(t types.Type) (types.Type, string) {
	k := ""
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t, k = u.Elem(), k+"*"
			continue
		case *types.Slice:
			t, k = u.Elem(), k+"[]"
			continue
		}
		return t, k
	}
}

func (c *C) schema() {
	docs := c.documentStructs()
	var names []string
	for n := range docs {
		names = append(names, n)
	}
	sort.Strings(names)
	for want := range tables.Structs {
		rows := tables.Structs[want]
		if !isDocStruct(rows) {
			continue
		}
		n, _ := c.W.Type(want).(*types.Named)
		if n == nil {
			c.Fail("structure", want, "", "the structure %s no longer exists", want)
			continue
		}
		cur := currentRows(n)
		pos := c.W.Pos(n.Obj().Pos())
		for _, r := range rows {
			g, ok := cur[r.Name]
			con := want + "." + r.Name
			if !c.Check(ok, "field exists", con, pos, "the field no longer exists") {
				continue
			}
			a, b := parseTag(r.Tag, r.Name), parseTag(g.Tag, g.Name)
			if a.skip {
				c.Check(b.skip || !exported(g.Name), "Go-only field stays out of documents", con, pos, "tag %q", g.Tag)
				continue
			}
			c.Check(!b.skip && strings.Join(a.path, ">") == strings.Join(b.path, ">"), "element path", con, pos, "maps to <%s>, documented is <%s>", strings.Join(b.path, ">"), strings.Join(a.path, ">"))
			c.Check(a.attr == b.attr && a.chardata == b.chardata, "element kind", con, pos, "tag %q", g.Tag)
			c.Check(g.Type == r.Type, "field type", con, pos, "has type %s, documented is %s", g.Type, r.Type)
		}
	}
	for _, name := range names {
		n := docs[name]
		pos := c.W.Pos(n.Obj().Pos())
		custom := hasMethod(n, "UnmarshalXML") && hasMethod(n, "MarshalXML")
		seen := map[string]string{}
		var flat func(n *types.Named, via string)
		flat = func(n *types.Named, via string) {
			st := n.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				x, _ := reflect.StructTag(st.Tag(i)).Lookup("xml")
				con := name + "." + via + f.Name()
				if !wellFormedTag(st.Tag(i)) {
					c.Fail("tag well formed", con, pos, "struct tag %q cannot be parsed", st.Tag(i))
				}
				t := parseTag(x, f.Name())
				if f.Name() == "XMLName" || t.skip {
					continue
				}
				if !f.Exported() && !f.Embedded() {
					continue
				}
				if f.Embedded() && !t.hasName {
					if e, ok := f.Type().(*types.Named); ok {
						if _, ok := e.Underlying().(*types.Struct); ok {
							flat(e, via+f.Name()+".")
							continue
						}
					}
				}
				if custom {
					continue
				}
				bt, _ := baseType(f.Type())
				_, isIf := bt.Underlying().(*types.Interface)
				c.Check(!isIf, "decodable type", con, pos, "a field of interface type %s cannot be read from a document", typeStr(f.Type()))
				if _, ok := bt.Underlying().(*types.Struct); ok {
					nt, isN := bt.(*types.Named)
					c.Check(isN && nt.Obj().Pkg() == c.W.Lib.Pkg, "decodable type", con, pos, "a field of foreign type %s has no defined text form", typeStr(f.Type()))
				}
				k := strings.Join(t.path, ">")
				c.Check(t.hasName, "element name given", con, pos, "the field would be written as <%s>", k)
				if old, dup := seen[k]; dup {
					c.Fail("distinct paths", con, pos, "shares <%s> with %s", k, old)
				} else {
					c.OK("distinct paths", con)
				}
				for o := range seen {
					c.Check(!strings.HasPrefix(o, k+">") && !strings.HasPrefix(k, o+">"), "no path inside another", con, pos, "<%s> overlaps <%s>", k, o)
				}
				seen[k] = con
				for _, p := range t.path {
					c.Check(upperName(p), "OFX element name", con, pos, "%q is not an OFX element name", p)
				}
			}
		}
		flat(n, "")
	}
}

func exported(n string) bool {
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func upperName(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !(r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '_') {
			return false
		}
	}
	return true
}

// wellFormedTag follows the conventional key:"value" format.
func wellFormedTag(tag string) bool {
	for tag != "" {
		i := 0
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		tag = tag[i:]
		if tag == "" {
			return true
		}
		i = 0
		for i < len(tag) && tag[i] > ' ' && tag[i] != ':' && tag[i] != '"' {
			i++
		}
		if i == 0 || i+1 >= len(tag) || tag[i] != ':' || tag[i+1] != '"' {
			return false
		}
		tag = tag[i+1:]
		i = 1
		for i < len(tag) && tag[i] != '"' {
			if tag[i] == '\\' {
				i++
			}
			i++
		}
		if i >= len(tag) {
			return false
		}
		if _, err := strconv.Unquote(tag[:i+1]); err != nil {
			return false
		}
		tag = tag[i+1:]
	}
	return true
}

func isDocStruct(rows []FieldRow) bool {
	for _, r := range rows {
		if r.Tag != "" && r.Tag != "-" {
			return true
		}
	}
	return false
}

// ---- C20 ----

func (c *C) optional() {
	for want, rows := range tables.Structs {
		n, _ := c.W.Type(want).(*types.Named)
		if !isDocStruct(rows) || n == nil { // a missing structure fails C19
			continue
		}
		pos := c.W.Pos(n.Obj().Pos())
		cur := currentRows(n)
		for _, r := range rows {
			g, ok := cur[r.Name]
			if !ok || r.Name == "XMLName" {
				continue
			}
			a, b := parseTag(r.Tag, r.Name), parseTag(g.Tag, g.Name)
			if a.skip || b.skip {
				continue
			}
			con := want + "." + r.Name
			aOpt := a.omit || nilable(r.Type)
			bOpt := nilable(g.Type) || b.omit && c.emptiable(n, r.Name)
			if tables.Enums[strings.TrimLeft(g.Type, "*[]")] != nil {
				// an unset enumeration writes nothing whatever its tag (C22)
				c.OK("unset enumeration", con)
				continue
			}
			if aOpt {
				c.Check(bOpt, "optional element can be omitted", con, pos, "the optional element is written even when the field is unset (omitempty never applies to a field of structure type %s)", g.Type)
			} else {
				c.Check(!bOpt, "mandatory element is always written", con, pos, "the mandatory element is left out when the field is zero")
			}
		}
	}
	c.leafWriters()
}

// emptiable: the encoder can see a zero value of the field as empty.
func (c *C) emptiable(n *types.Named, field string) bool {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == strings.TrimPrefix(field, "+") {
			switch st.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return false
			}
			return true
		}
	}
	return true
}

func nilable(t string) bool {
	return strings.HasPrefix(t, "*") || strings.HasPrefix(t, "[]")
}

// ---- C13 ----

func (c *C) leafTable() {
	lists := c.leafListsUsed()
	pos := ""
	if g := c.W.Lib.Var("ofxLeafElements"); g != nil {
		pos = c.W.Pos(g.Pos())
	}
	aggregates := map[string]bool{"OFX": true}
	for _, s := range tables.Sets {
		aggregates[s[strings.IndexByte(s, '=')+1:]] = true
	}
	leafOf := map[string]bool{}
	collect := func(name string, rows []FieldRow, leaf func(string) bool) {
		for _, r := range rows {
			t := parseTag(r.Tag, r.Name)
			if t.skip || r.Tag == "" {
				continue
			}
			if r.Name == "XMLName" {
				aggregates[t.path[0]] = true
				continue
			}
			for _, p := range t.path[:len(t.path)-1] {
				aggregates[p] = true
			}
			last := t.path[len(t.path)-1]
			if leaf(strings.TrimLeft(r.Type, "*[]")) {
				leafOf[last] = true
			} else if !strings.HasPrefix(r.Type, "+") {
				aggregates[last] = true
			}
		}
	}
	leaf := func(ty string) bool {
		if n, ok := c.W.Type(ty).(*types.Named); ok {
			return leafType(n)
		}
		return tables.Enums[ty] != nil || ty == "string"
	}
	for n, rows := range tables.Structs {
		collect(n, rows, leaf)
	}
	for n, s := range c.documentStructs() {
		collect(n, structRows(s), leaf)
	}
	for _, t := range polyTags() {
		aggregates[t] = true
	}
	c.Check(len(lists) >= 2, "leaf tables in use", "reader and writer", pos, "only %d uses of a leaf table found", len(lists))
	var uses []string
	for u := range lists {
		uses = append(uses, u)
	}
	sort.Strings(uses)
	for _, use := range uses {
		l := lists[use]
		if !c.Check(len(l) > 0, "leaf table known", use, pos, "the table used cannot be determined") {
			continue
		}
		have := map[string]bool{}
		for i, e := range l {
			c.Check(!have[e], "no duplicates", use+": "+e, pos, "%s occurs twice", e)
			have[e] = true
			c.Check(i == 0 || l[i-1] < e, "sorted", use+": "+e, pos, "%s does not sort after %s", e, prev(l, i))
			c.Check(!aggregates[e] || leafOf[e] && !aggregates[e], "no aggregate", use+": "+e, pos, "%s contains other elements", e)
		}
		for _, e := range tables.Leaves {
			c.Check(have[e], "value element listed", use+": "+e, pos, "the value element %s is missing", e)
		}
		known := map[string]bool{}
		for _, e := range tables.Leaves {
			known[e] = true
		}
		for _, e := range l {
			c.Check(known[e] || leafOf[e], "listed element is a value element", use+": "+e, pos, "%s is not known to be a value element", e)
		}
	}
}

func prev(l []string, i int) string {
	if i == 0 {
		return ""
	}
	return l[i-1]
}

func polyTags() []string {
	var out []string
	for _, p := range polyTables {
		for _, e := range p {
			out = append(out, e.tag)
		}
	}
	return out
}

// leafListsUsed finds the lists handed to the encoder and the decoder.
func (c *C) leafListsUsed() map[string][]string {
	out := map[string][]string{}
	strs := func(t *eng.Term) []string {
		var l []string
		t = c.Fz.St.Content(t)
		if t.K != eng.KList {
			return nil
		}
		for _, x := range t.Args {
			s, ok := x.StrVal()
			if !ok {
				return nil
			}
			l = append(l, s)
		}
		return l
	}
	for _, f := range c.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if cal := x.Common().StaticCallee(); cal != nil && cal.Name() == "SetDisableAutoClose" && len(x.Common().Args) == 2 {
						out["writer ("+eng.ShortName(f)+")"] = c.ssaList(x.Common().Args[1], strs)
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						p := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if st, ok := p.Underlying().(*types.Struct); ok && strings.HasPrefix(st.Field(fa.Field).Name(), "AutoClose") {
							out["reader ("+eng.ShortName(f)+")"] = c.ssaList(x.Val, strs)
						}
					}
				}
			}
		}
	}
	return out
}

// ssaList evaluates a list that is a load of a frozen global, following
// parameters of helpers to their callers.
func (c *C) ssaList(v ssa.Value, strs func(*eng.Term) []string) []string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && c.Fz.Is(g) {
			return strs(c.Fz.St.Load(eng.Global(g), g.Type().(*types.Pointer).Elem()))
		}
	case *ssa.Slice:
		if g, ok := x.X.(*ssa.Global); ok && c.Fz.Is(g) && x.Low == nil && x.High == nil {
			t := c.Fz.St.Content(c.Fz.St.Load(eng.Global(g), g.Type().(*types.Pointer).Elem()))
			return strs(t)
		}
		return c.ssaList(x.X, strs)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && c.W.InModule(f) {
			r := c.Run()
			outs, _ := c.Analyze(r, f, nil)
			if len(outs) == 1 && len(outs[0].Res) == 1 {
				return strs(outs[0].Res[0])
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		var res []string
		for _, g := range c.W.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && idx < len(ci.Common().Args) {
						l := c.ssaList(ci.Common().Args[idx], strs)
						if res != nil && strings.Join(res, ",") != strings.Join(l, ",") {
							return nil
						}
						res = l
					}
				}
			}
		}
		return res
	}
	return nil
}

// ---- C21 ----

func (c *C) enums() {
	types_ := enumTypes(c.W)
	found := map[string]*types.Named{}
	for _, n := range types_ {
		found[n.Obj().Name()] = n
	}
	var names []string
	for n := range tables.Enums {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		vals := tables.Enums[name]
		n := found[name]
		if !c.Check(n != nil, "enumerated type", name, "", "the type no longer exists or lost FromString") {
			continue
		}
		pos := c.W.Pos(n.Obj().Pos())
		cs := constsOf(c.W, n)
		known := map[string]bool{}
		texts := map[string]string{}
		byVal := map[int64]string{}
		for _, v := range vals {
			known[v.Const] = true
			k, ok := cs[v.Const]
			if !c.Check(ok, "constant exists", v.Const, pos, "the constant no longer exists") {
				continue
			}
			if o, dup := byVal[k]; dup {
				c.Fail("distinct values", v.Const, pos, "has the same value as %s", o)
			}
			byVal[k] = v.Const
			s, ok := constStr(c.constCall(name+".String", eng.Int(k)))
			c.Check(ok && s == v.Text, "OFX spelling", v.Const, pos, "is written %q, OFX defines %q", s, v.Text)
			if o, dup := texts[s]; dup {
				c.Fail("distinct spellings", v.Const, pos, "has the spelling of %s", o)
			} else {
				c.OK("distinct spellings", v.Const)
			}
			texts[s] = v.Const
			b := c.constCall(name+".Valid", eng.Int(k))
			c.Check(len(b) == 1 && b[0] == eng.True, "constant is valid", v.Const, pos, "does not count as valid")
			ok, got := c.parsesTo(name, v.Text)
			c.Check(ok && got == k, "text and back", v.Const, pos, "%q is read as %d, written from %d", v.Text, got, k)
		}
		for k := range cs {
			if !known[k] {
				c.Check(false, "documented constant", k, pos, "constant without a documented OFX spelling")
			}
		}
		// nothing else is valid
		if f := c.Lib(name + ".Valid"); f != nil {
			r := c.Run()
			outs, ps := c.Analyze(r, f, nil)
			for _, o := range outs {
				if o.Kind != "ret" {
					continue
				}
				for _, g := range o.St.F.Assume(o.Res[0], true) {
					lo, hi := g.Range(ps[0])
					ok := true
					if lo < -1000 || hi > 1000 {
						ok = false
					}
					for k := lo; ok && k <= hi; k++ {
						if byVal[k] == "" && len(g.Assume(eng.Eq(ps[0], eng.Int(k)), true)) > 0 {
							ok = false
						}
					}
					c.Check(ok, "only the constants are valid", name, pos, "values from %d to %d count as valid", lo, hi)
				}
			}
		}
	}
	for n := range found {
		c.Check(tables.Enums[n] != nil, "documented type", n, "", "enumerated type without documented spellings")
	}
	// versions are ordered
	vs := constsOf(c.W, c.W.Type("ofxVersion"))
	type ver struct {
		n string
		v int64
	}
	var l []ver
	for _, e := range tables.Enums["ofxVersion"] {
		l = append(l, ver{e.Text, vs[e.Const]})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	for i := 1; i < len(l); i++ {
		c.Check(l[i-1].v < l[i].v, "versions in order", l[i].n, "", "version %s does not compare after %s", l[i].n, l[i-1].n)
	}
}

// parsesTo evaluates FromString on a constant text.
func (c *C) parsesTo(name, text string) (bool, int64) {
	f := c.Lib(name + ".FromString")
	if f == nil {
		return false, 0
	}
	r := c.Run()
	t := c.W.Type(name)
	outs, ps := c.Analyze(r, f, func(st *eng.State, ps []*eng.Term) *eng.State {
		ps[1] = eng.Str(text)
		return st
	})
	if len(outs) != 1 || outs[0].Kind != "ret" || outs[0].St.F.IsNil(outs[0].Res[0]) != 1 {
		return false, 0
	}
	v, ok := outs[0].St.Load(ps[0], t).IntVal()
	return ok, v
}

// ---- C22 ----

func (c *C) enumMethods() {
	for _, n := range enumTypes(c.W) {
		name := n.Obj().Name()
		cs := constsOf(c.W, n)
		vals := map[int64]string{}
		for _, e := range tables.Enums[name] {
			vals[cs[e.Const]] = e.Text
		}
		c.enumParse(n, name, vals)
		c.enumDecode(n, name, vals)
		c.enumNew(n, name, vals)
		c.enumWrite(n, name, vals)
	}
}

// parsed: on this outcome `got` is the constant spelt by trimmed input, or the
// error is set, the value invalid and no spelling matches.
func (c *C) parsed(rule, con, pos string, g *eng.Facts, err, got, in *eng.Term, vals map[int64]string, zeroOnErr bool) {
	trim := eng.PureCall("strings.TrimSpace", []*eng.Term{in}, types.Typ[types.String])
	switch g.IsNil(err) {
	case 1:
		v, ok := got.IntVal()
		if !c.Check(ok && vals[v] != "", rule+": a value is stored on success", con, pos, "the value is %s; path: %s", got, g.Path()) {
			return
		}
		c.Check(g.Holds(eng.Eq(trim, eng.Str(vals[v])), true), rule+": accepts only the spelling", con+" "+vals[v], pos, "%q is stored on a path where the text may differ: %s", vals[v], g.Path())
	case -1:
		v, ok := got.IntVal()
		if zeroOnErr {
			c.Check(ok && v == 0, rule+": zero value on error", con, pos, "the value is %s", got)
		} else {
			c.Check(ok && vals[v] == "", rule+": invalid value on error", con, pos, "the value is %s; path: %s", got, g.Path())
		}
		for _, t := range vals {
			c.Check(g.Holds(eng.Eq(trim, eng.Str(t)), false), rule+": rejects no spelling", con+" "+t, pos, "an error is returned although the trimmed text may be %q; path: %s", t, g.Path())
		}
	default:
		c.Fail(rule+": verdict decided", con, pos, "the error may or may not be nil; path: %s", g.Path())
	}
}

func (c *C) enumParse(n *types.Named, name string, vals map[int64]string) {
	f := c.Lib(name + ".FromString")
	if f == nil {
		return
	}
	r := c.Run()
	outs, ps := c.Analyze(r, f, nil)
	acc := map[int64]bool{}
	for _, o := range outs {
		pos := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret", "returns", name+".FromString", pos, "ends by %s", o.Kind) {
			continue
		}
		got := o.St.Load(ps[0], n)
		if v, ok := got.IntVal(); ok && o.St.F.IsNil(o.Res[0]) == 1 {
			acc[v] = true
		}
		c.parsed("parse", name+".FromString", pos, o.St.F, o.Res[0], got, ps[1], vals, false)
	}
	for v, t := range vals {
		c.Check(acc[v], "parse: every spelling accepted", name+" "+t, c.W.Pos(f.Pos()), "no path accepts %q", t)
	}
}

// decoded finds the text a decode call delivered on this path.
func decoded(o *eng.Outcome) (*eng.Event, *eng.Term) {
	var dec *eng.Event
	for _, e := range flatten(o.St.Events(nil)) {
		if e.Kind == "call" && e.Callee == "(*github.com/aclindsa/xml.Decoder).DecodeElement" {
			dec = e
		}
	}
	if dec == nil {
		return nil, nil
	}
	tgt := unwrap(dec.Args[1])
	return dec, o.St.Load(tgt, types.Typ[types.String])
}

func (c *C) decodeRun(fn string) ([]eng.Outcome, []*eng.Term, *ssa.Function) {
	f := c.Lib(fn)
	if f == nil {
		return nil, nil, nil
	}
	r := c.Run()
	outs, ps := c.Analyze(r, f, nil)
	return outs, ps, f
}

func (c *C) enumDecode(n *types.Named, name string, vals map[int64]string) {
	outs, ps, f := c.decodeRun(name + ".UnmarshalXML")
	if f == nil {
		return
	}
	acc := map[int64]bool{}
	for i := range outs {
		o := outs[i]
		con := name + ".UnmarshalXML"
		pos := c.W.InstrPos(o.Site)
		ev := decodeEvents(&o)
		if !c.Check(o.Kind == "ret" && len(ev) == 1, "decode: element read once", con, pos, "%d reads", len(ev)) {
			continue
		}
		if !c.checkDecodeArgs(ev[0], ps, con, pos) {
			continue
		}
		st := o.St.F.IsNil(ev[0].Result)
		if st == -1 {
			c.Check(o.St.F.IsNil(o.Res[0]) == -1, "decode: read error reported", con, pos, "nil error after a failed read")
			continue
		}
		if !c.Check(st == 1, "decode: read error examined", con, pos, "the read's error is not examined") {
			continue
		}
		in := decodedText(&o, ev[0])
		if !c.Check(in != nil, "decode: text", con, pos, "the element is not read as text") {
			continue
		}
		got := o.St.Load(ps[0], n)
		if v, ok := got.IntVal(); ok && o.St.F.IsNil(o.Res[0]) == 1 {
			acc[v] = true
		}
		c.parsed("decode", con, pos, o.St.F, o.Res[0], got, in, vals, false)
	}
	for v, t := range vals {
		c.Check(acc[v], "decode: every spelling accepted", name+" "+t, c.W.Pos(f.Pos()), "no path accepts %q", t)
	}
}

const decodeElement = "(*github.com/aclindsa/xml.Decoder).DecodeElement"
const encodeElement = "(*github.com/aclindsa/xml.Encoder).EncodeElement"

func decodeEvents(o *eng.Outcome) (out []*eng.Event) {
	for _, e := range flatten(o.St.Events(nil)) {
		if e.Kind == "call" && strings.HasPrefix(e.Callee, "(*github.com/aclindsa/xml.Decoder).") && e.Callee != "(*github.com/aclindsa/xml.Decoder).InputOffset" {
			out = append(out, e)
		}
	}
	return
}

// checkDecodeArgs: the element is read by the method's own decoder from its
// own start tag.
func (c *C) checkDecodeArgs(e *eng.Event, ps []*eng.Term, con, pos string) bool {
	ok := e.Callee == decodeElement && len(e.Args) == 3 && e.Args[0] == ps[1]
	if ok {
		start := ps[2]
		ok = e.Cont[2] == e.St.Content(start) || e.St.Content(e.Args[2]) == start || e.Cont[2] == start
	}
	return c.Check(ok, "decode: own element", con, pos, "reads %s", e.Callee)
}

// decodedText: what the element's text was read into.
func decodedText(o *eng.Outcome, e *eng.Event) *eng.Term {
	tgt := unwrap(e.Args[1])
	if tgt.Typ == nil {
		return nil
	}
	p, ok := tgt.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return nil
	}
	if n, ok := p.Elem().(*types.Named); ok && hasMethod(n, "UnmarshalXML") {
		// read through another leaf type: its text is already trimmed
		_ = n
	}
	return eng.Out(e.Result, 1, p.Elem())
}

func (c *C) enumNew(n *types.Named, name string, vals map[int64]string) {
	fn := "New" + strings.ToUpper(name[:1]) + name[1:]
	f := c.Lib(fn)
	if f == nil {
		return
	}
	r := c.Run()
	outs, ps := c.Analyze(r, f, nil)
	acc := map[int64]bool{}
	for _, o := range outs {
		pos := c.W.InstrPos(o.Site)
		if !c.Check(o.Kind == "ret" && len(o.Res) == 2, "returns", fn, pos, "ends by %s", o.Kind) {
			continue
		}
		if v, ok := o.Res[0].IntVal(); ok && o.St.F.IsNil(o.Res[1]) == 1 {
			acc[v] = true
		}
		c.parsed("create", fn, pos, o.St.F, o.Res[1], o.Res[0], ps[0], vals, true)
	}
	for v, t := range vals {
		c.Check(acc[v], "create: every spelling accepted", name+" "+t, c.W.Pos(f.Pos()), "no path accepts %q", t)
	}
}

func encodeEvents(o *eng.Outcome) (out []*eng.Event) {
	for _, e := range flatten(o.St.Events(nil)) {
		if e.Kind == "call" && strings.HasPrefix(e.Callee, "(*github.com/aclindsa/xml.Encoder).") {
			out = append(out, e)
		}
	}
	return
}

func (c *C) enumWrite(n *types.Named, name string, vals map[int64]string) {
	con := name + ".MarshalXML"
	f := c.Lib(con)
	if f == nil {
		return
	}
	pos0 := c.W.Pos(f.Pos())
	var keys []int64
	for v := range vals {
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, v := range keys {
		t := vals[v]
		r := c.Run()
		outs, ps := c.Analyze(r, f, func(st *eng.State, ps []*eng.Term) *eng.State {
			ps[0] = c.recvConst(st, f, ps[0], v)
			return st
		})
		for i := range outs {
			o := outs[i]
			ev := encodeEvents(&o)
			ok := o.Kind == "ret" && len(ev) == 1 && ev[0].Callee == encodeElement && ev[0].Args[0] == ps[1]
			got := "nothing"
			if len(ev) == 1 && len(ev[0].Cont) == 3 {
				s, isStr := unwrap(ev[0].Cont[1]).StrVal()
				ok = ok && isStr && s == t && ev[0].Cont[2] == ps[2]
				got = fmt.Sprintf("%s", ev[0].Cont[1])
			}
			c.Check(ok, "write: valid value writes its spelling", con+" "+t, pos0, "writes %s", got)
		}
	}
	// invalid values
	bad := func(op string, lo, hi bool) {
		r := c.Run()
		r.OnOblig = func(ob eng.Obligation) {
			c.Check(ob.OK, "write: no access outside the table", con, c.W.InstrPos(ob.Instr), "%s: %s; path: %s", ob.Kind, ob.Desc, ob.St.F.Path())
		}
		outs, _ := c.Analyze(r, f, nil)
		for i := range outs {
			o := outs[i]
			v := c.recvVal(o.St, f)
			for _, g := range invalidCases(o.St.F, v, keys) {
				c.Check(len(encodeEvents(&o)) == 0, "write: invalid value writes nothing", con, pos0, "an invalid value is written; path: %s", g.Path())
				c.Check(o.Kind == "ret" && g.IsNil(o.Res[0]) == 1, "write: invalid value is no error", con, pos0, "error %s", o.Res)
			}
		}
	}
	bad("", true, true)
	// printing
	if s := c.Lib(name + ".String"); s != nil {
		r := c.Run()
		r.OnOblig = func(ob eng.Obligation) {
			c.Check(ob.OK, "print: no access outside the table", name+".String", c.W.InstrPos(ob.Instr), "%s: %s; path: %s", ob.Kind, ob.Desc, ob.St.F.Path())
		}
		outs, _ := c.Analyze(r, s, nil)
		for _, o := range outs {
			c.Check(o.Kind == "ret", "print: returns", name+".String", c.W.InstrPos(o.Site), "ends by %s", o.Kind)
		}
	}
}

// invalidCases: refinements of g in which v is none of the constants.
func invalidCases(g *eng.Facts, v *eng.Term, keys []int64) []*eng.Facts {
	fs := []*eng.Facts{g}
	for _, k := range keys {
		var nx []*eng.Facts
		for _, h := range fs {
			nx = append(nx, h.Assume(eng.Eq(v, eng.Int(k)), false)...)
		}
		fs = nx
	}
	var out []*eng.Facts
	for _, h := range fs {
		lo, hi := h.Range(v)
		if lo >= keys[0] && hi <= keys[len(keys)-1] && contiguous(keys) {
			continue
		}
		out = append(out, h)
	}
	return out
}

func contiguous(k []int64) bool {
	for i := 1; i < len(k); i++ {
		if k[i] != k[i-1]+1 {
			return false
		}
	}
	return true
}

// recvConst makes the receiver hold a constant.
func (c *C) recvConst(st *eng.State, f *ssa.Function, p *eng.Term, v int64) *eng.Term {
	if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
		st.Store(p, eng.Int(v))
		return p
	}
	return eng.Int(v)
}

func (c *C) recvVal(st *eng.State, f *ssa.Function) *eng.Term {
	t := f.Signature.Recv().Type()
	p := eng.ParamTerm(f.Params[0].Name(), t)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return st.Load(p, pt.Elem())
	}
	return p
}

// ---- C29 ----

func (c *C) statusTable() {
	for _, fn := range []struct {
		name string
		get  func(r StatusRow) string
	}{{"Status.CodeMeaning", func(r StatusRow) string { return r.Meaning }}, {"Status.CodeConditions", func(r StatusRow) string { return r.Conditions }}} {
		f := c.Lib(fn.name)
		if f == nil {
			continue
		}
		stt := f.Signature.Recv().Type()
		if p, ok := stt.Underlying().(*types.Pointer); ok {
			stt = p.Elem()
		}
		idx := fieldIndex(stt, "Code")
		if idx < 0 {
			c.Fail("anchor", "Status.Code", "", "no such field")
			return
		}
		ct := stt.Underlying().(*types.Struct).Field(idx).Type()
		run := func(set func(st *eng.State, a *eng.Term) *eng.State) []eng.Outcome {
			r := c.Run()
			outs, _ := c.Analyze(r, f, func(st *eng.State, ps []*eng.Term) *eng.State {
				recv := ps[0]
				if recv.K == eng.KInit {
					recv = recv.Args[0]
				}
				st = set(st, eng.FieldAddr(recv, idx, types.NewPointer(ct)))
				if ps[0].K == eng.KInit {
					ps[0] = st.Load(recv, ps[0].Typ)
				}
				return st
			})
			return outs
		}
		for _, row := range tables.Status {
			outs := run(func(st *eng.State, a *eng.Term) *eng.State { st.Store(a, eng.Int(row.Code)); return st })
			for _, o := range outs {
				s, ok := "", false
				if o.Kind == "ret" && len(o.Res) == 2 {
					s, ok = o.Res[0].StrVal()
					ok = ok && o.St.F.IsNil(o.Res[1]) == 1
				}
				c.Check(ok && s == fn.get(row), "defined text", fn.name+" code "+itoa(row.Code), c.W.InstrPos(o.Site), "reports %q, OFX defines %q", s, fn.get(row))
			}
		}
		outs := run(func(st *eng.State, a *eng.Term) *eng.State {
			v := st.Load(a, ct)
			for _, row := range tables.Status {
				if ss := st.Assume(eng.Eq(v, eng.Int(row.Code)), false); len(ss) > 0 {
					st = ss[0]
				}
			}
			return st
		})
		for _, o := range outs {
			ok := o.Kind == "ret" && o.St.F.IsNil(o.Res[1]) == -1
			c.Check(ok, "other codes are errors", fn.name, c.W.InstrPos(o.Site), "an unknown code is reported without error; path: %s", o.St.F.Path())
		}
	}
	c.statusValid()
}

func init() {
	reg("C19", 900, "The type and struct tag of every field of every document structure (those reachable from messages, sign-on, investment transactions, positions, orders and securities) are read from the type-checked program and compared with a reference table of element paths; within each structure, embedded ones flattened, paths must be distinct and not overlap, and every type must be decodable.", (*C).schema)
	reg("C20", 550, "Optionality is read from struct tags and types: fields documented optional must carry omitempty or be nil-able and be of a kind the encoder can see as empty, mandatory ones must carry neither; the marshalling methods of value types must write exactly one element on every path.", (*C).optional)
	reg("C13", 1300, "The string lists handed to the encoder and the decoder are evaluated from the package initialisers and compared with the reference list of value elements of OFX 1.0.2-1.6 and with the aggregates named in struct tags; order and uniqueness are checked pairwise.", (*C).leafTable)
	reg("C21", 900, "For each of the 40 enumerated types and 168 constants String, Valid and FromString are evaluated abstractly on the constant and compared with the reference spellings; Valid is also evaluated on a symbolic value, whose range on the true paths must contain the constants only.", (*C).enums)
	reg("C22", 1800, "FromString, UnmarshalXML and the constructor of every enumerated type are analysed on a symbolic text: success paths must imply that the trimmed text is the spelling of the stored constant, error paths that it is none of the spellings and that the value is invalid; MarshalXML and String are analysed on every constant and on a symbolic value, with every table access proved in range.", (*C).enumMethods)
	reg("C29", 280, "CodeMeaning, CodeConditions and Status.Valid are evaluated abstractly for each of the 93 defined codes and for a symbolic other code against the reference table.", (*C).statusTable)
}

func (t xmlTag) name() string {
	if len(t.path) == 0 {
		return ""
	}
	return t.path[len(t.path)-1]
}
