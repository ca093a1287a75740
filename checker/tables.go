package main

import (
	_ "embed"
	"encoding/json"
	"go/constant"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"ofxcheck/eng"
)

// The reference tables: confirmed against the OFX specification once and
// frozen; the code is compared with them on every run.

//go:embed data/tables.json
var tablesJSON []byte

type EnumVal struct{ Const, Text string }
type FieldRow struct{ Name, Type, Tag string }
type StatusRow struct {
	Code                          int64
	Meaning, Severity, Conditions string
}
type MsgRow struct{ Type, Name, Set string }

type Tables struct {
	Enums    map[string][]EnumVal
	Status   []StatusRow
	Structs  map[string][]FieldRow
	Leaves   []string
	Messages []MsgRow
	Sets     []string // message set names by constant name
	Registry map[string]map[string]string
	Currency map[string]string
}

var tables Tables
var enumTables = map[string][]string{}

func init() {
	if len(tablesJSON) > 2 {
		if err := json.Unmarshal(tablesJSON, &tables); err != nil {
			panic(err)
		}
	}
	for t, vs := range tables.Enums {
		for _, v := range vs {
			enumTables[t] = append(enumTables[t], v.Text)
		}
	}
}

func enumTable(t types.Type) []string {
	if n, ok := t.(*types.Named); ok {
		return enumTables[n.Obj().Name()]
	}
	return nil
}

// enumTypes lists the library's enumerated types: unsigned named types with a
// FromString method.
func enumTypes(w *eng.World) []*types.Named {
	var out []*types.Named
	sc := w.Lib.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		b, ok := nt.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, w.Lib.Pkg, "FromString")
		if obj != nil {
			out = append(out, nt)
		}
	}
	return out
}

// constsOf lists the package constants of a type by value.
func constsOf(w *eng.World, t types.Type) map[string]int64 {
	out := map[string]int64{}
	sc := w.Lib.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
			if v, ok := constant.Int64Val(k.Val()); ok {
				out[n] = v
			}
		}
	}
	return out
}

// constCall evaluates a method on a constant receiver: its results if every
// path agrees, nil otherwise.
func (c *C) constCall(name string, recv *eng.Term, rest ...*eng.Term) []*eng.Term {
	f := c.Lib(name)
	if f == nil {
		return nil
	}
	r := c.Run()
	outs, _ := c.Analyze(r, f, func(st *eng.State, ps []*eng.Term) *eng.State {
		ps[0] = recv
		for i, t := range rest {
			ps[i+1] = t
		}
		return st
	})
	var res []*eng.Term
	for _, o := range outs {
		if o.Kind != "ret" {
			return nil
		}
		if res != nil {
			for i := range res {
				if res[i] != o.Res[i] {
					return nil
				}
			}
		}
		res = o.Res
	}
	return res
}

func constStr(ts []*eng.Term) (string, bool) {
	if len(ts) != 1 {
		return "", false
	}
	return ts[0].StrVal()
}

// structRows lists the fields of a struct type.
func structRows(n *types.Named) []FieldRow {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var rows []FieldRow
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		name := f.Name()
		if f.Embedded() {
			name = "+" + name
		}
		tag := st.Tag(i)
		x, _ := reflect.StructTag(tag).Lookup("xml")
		rows = append(rows, FieldRow{name, types.TypeString(f.Type(), func(p *types.Package) string {
			if p == n.Obj().Pkg() {
				return ""
			}
			return p.Path()
		}), x})
	}
	return rows
}

func libStructs(w *eng.World) []*types.Named {
	var out []*types.Named
	sc := w.Lib.Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok {
				if _, ok := nt.Underlying().(*types.Struct); ok {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}

// frozenStrings reads a package-level slice or array of strings.
func (c *C) frozenStrings(name string) []string {
	g := c.W.Lib.Var(name)
	if g == nil || !c.Fz.Is(g) {
		return nil
	}
	st := c.Fz.St
	v := st.Load(eng.Global(g), g.Type().(*types.Pointer).Elem())
	l := st.Content(v)
	if l.K != eng.KList {
		return nil
	}
	var out []string
	for _, x := range l.Args {
		s, ok := x.StrVal()
		if !ok {
			return nil
		}
		out = append(out, s)
	}
	return out
}

func dumpTables(repo, out string) {
	w, err := eng.Load(repo, nil, nil)
	if err != nil {
		panic(err)
	}
	c := newC("dump", "quick")
	c.W = w
	c.Fz, c.Init, _ = w.Freeze()
	t := Tables{Enums: map[string][]EnumVal{}, Structs: map[string][]FieldRow{}, Registry: map[string]map[string]string{}}
	for _, n := range enumTypes(w) {
		cs := constsOf(w, n)
		var names []string
		for k := range cs {
			names = append(names, k)
		}
		sort.Slice(names, func(i, j int) bool { return cs[names[i]] < cs[names[j]] })
		for i, k := range names {
			if cs[k] != int64(i+1) {
				println("gap in", n.Obj().Name(), k)
			}
			s, ok := constStr(c.constCall(n.Obj().Name()+".String", eng.Int(cs[k])))
			if !ok {
				println("no text for", k)
			}
			t.Enums[n.Obj().Name()] = append(t.Enums[n.Obj().Name()], EnumVal{k, s})
		}
	}
	for _, n := range libStructs(w) {
		t.Structs[n.Obj().Name()] = structRows(n)
	}
	t.Leaves = c.frozenStrings("ofxLeafElements")
	g := w.Lib.Var("statusMeanings")
	m := c.Fz.St.Load(eng.Global(g), g.Type().(*types.Pointer).Elem())
	mv := c.Fz.St.MapOf(m)
	for _, e := range mv.Entries {
		k, _ := e.K.IntVal()
		v := c.Fz.St.Content(e.V)
		var ss [3]string
		for i := range ss {
			ss[i], _ = eng.ElemOf(v, eng.Int(int64(i)), types.Typ[types.String]).StrVal()
		}
		t.Status = append(t.Status, StatusRow{k, ss[0], ss[1], ss[2]})
	}
	sort.Slice(t.Status, func(i, j int) bool { return t.Status[i].Code < t.Status[j].Code })
	// message types
	msg := w.Type("Message").Underlying().(*types.Interface)
	setNames := map[int64]string{}
	for k, v := range constsOf(w, w.Type("messageType")) {
		setNames[v] = k
	}
	for _, n := range libStructs(w) {
		p := types.NewPointer(n)
		if !types.Implements(p, msg) {
			continue
		}
		name, _ := constStr(c.constCall(n.Obj().Name()+".Name", eng.Param("r", p)))
		ty := c.constCall(n.Obj().Name()+".Type", eng.Param("r", p))
		set := ""
		if len(ty) == 1 {
			if v, ok := ty[0].IntVal(); ok {
				set = setNames[v]
			}
		}
		t.Messages = append(t.Messages, MsgRow{n.Obj().Name(), name, set})
	}
	for i := int64(0); i < int64(len(setNames)); i++ {
		s, _ := constStr(c.constCall("messageType.String", eng.Int(i)))
		t.Sets = append(t.Sets, setNames[i]+"="+s)
	}
	for _, v := range c.Viols {
		println(v.Rule, v.Construct, v.Msg)
	}
	b, _ := json.MarshalIndent(t, "", " ")
	os.WriteFile(out, append(b, '\n'), 0o644)
}

var _ = strings.TrimSpace
