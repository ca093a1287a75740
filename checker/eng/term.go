// Package eng is a path-sensitive (trace-partitioned) abstract interpreter
// over go/ssa. Values are interned terms, branches add facts, in-module calls
// are inlined and loops are summarised. Nothing is executed and no solver is
// involved: facts are constants, equalities, intervals, nil-ness and types.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst Kind = iota
	KNil
	KParam
	KFree
	KGlobal
	KFunc
	KAlloc
	KField   // address of field I of args[0]
	KElem    // address of element args[1] of args[0]
	KInit    // content of address args[0] when the analysis started
	KFieldOf // field I of struct value args[0]
	KElemOf  // element args[1] of array/string value args[0]
	KStruct
	KZero
	KCall  // result of a deterministic call: Obj + args
	KEvent // result of an opaque call
	KExtract
	KBin
	KUn
	KConv
	KIface // interface value with dynamic type Typ2 and value args[0]
	KSlice // args: base, lo, hi (lo/hi may be nil terms => KNone)
	KAppend
	KAppendS
	KClosure
	KLoop
	KLookup
	KMap
	KAssert // value of args[0] asserted to Typ2
	KIs     // bool: dynamic type of args[0] is (or implements) Typ2
	KTuple
	KOut // content an opaque call left behind a pointer: args[0] event result, S which
	KList
	KNone
	KLen
	KRType // reflect.Type of Typ2
	KRNew  // reflect.New(Typ2) value holding pointer args[0]
	KMapOk // comma-ok of a map lookup
	KNext
)

var kindNames = [...]string{"const", "nil", "param", "free", "global", "func", "alloc", "field", "elem", "init", "fieldof", "elemof", "struct", "zero", "call", "event", "extract", "bin", "un", "conv", "iface", "slice", "append", "appends", "closure", "loop", "lookup", "map", "assert", "is", "tuple", "out", "list", "none", "len", "rtype", "rnew", "mapok", "next"}

// Term is an interned value; equal terms are pointer-equal.
type Term struct {
	ID   int
	K    Kind
	Args []*Term
	I    int
	S    string
	C    constant.Value
	Op   token.Token
	Typ  types.Type // static type, informative
	Typ2 types.Type
	Obj  any // *ssa.Function, *types.Func, *ssa.Global, *types.Builtin
	Site ssa.Instruction
}

type interner struct {
	m     map[string]*Term
	n     int
	tids  map[string]int
	tHash map[types.Type]int
}

var in = &interner{m: map[string]*Term{}, tids: map[string]int{}, tHash: map[types.Type]int{}}

// reset forgets the terms of a previously loaded program.
func reset() {
	in.m, in.tids, in.tHash = map[string]*Term{}, map[string]int{}, map[types.Type]int{}
	for _, t := range []*Term{None, True, False, Nil} {
		x := *t
		id := t.ID
		in.m[keyOf(&x)] = t
		_ = id
	}
}

func tid(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := in.tHash[t]; ok {
		return id
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	id, ok := in.tids[s]
	if !ok {
		id = len(in.tids) + 1
		in.tids[s] = id
	}
	in.tHash[t] = id
	return id
}

func objKey(o any) string {
	switch o := o.(type) {
	case nil:
		return ""
	case *ssa.Function:
		return "f" + o.RelString(nil) + fmt.Sprintf("%p", o)
	case *types.Func:
		return "m" + o.FullName()
	case *ssa.Global:
		return "g" + o.RelString(nil)
	case *ssa.Builtin:
		return "b" + o.Name()
	case string:
		return "s" + o
	}
	return fmt.Sprintf("%T%p", o, o)
}

func keyOf(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|%s|%d|%s|%d|", t.K, t.I, t.S, t.Op, objKey(t.Obj), tid(t.Typ2))
	if t.C != nil {
		b.WriteString(t.C.Kind().String())
		b.WriteString(t.C.ExactString())
	}
	if t.K == KZero {
		fmt.Fprintf(&b, "|t%d", tid(t.Typ))
	}
	if t.K == KParam || t.K == KFree {
		fmt.Fprintf(&b, "|t%d", tid(t.Typ))
	}
	if t.K == KConv {
		fmt.Fprintf(&b, "|t%d", tid(t.Typ.Underlying()))
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	return b.String()
}

func mk(t Term) *Term {
	k := keyOf(&t)
	if x, ok := in.m[k]; ok {
		return x
	}
	in.n++
	t.ID = in.n
	n := t
	in.m[k] = &n
	return &n
}

var (
	None  = mk(Term{K: KNone})
	True  = mk(Term{K: KConst, C: constant.MakeBool(true), Typ: types.Typ[types.Bool]})
	False = mk(Term{K: KConst, C: constant.MakeBool(false), Typ: types.Typ[types.Bool]})
	Nil   = mk(Term{K: KNil})
)

func Const(c constant.Value, t types.Type) *Term {
	if c.Kind() == constant.Float {
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				c = i
			}
		}
	}
	return mk(Term{K: KConst, C: c, Typ: t})
}
func Str(s string) *Term { return Const(constant.MakeString(s), types.Typ[types.String]) }
func Int(i int64) *Term  { return Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Param(name string, t types.Type) *Term { return mk(Term{K: KParam, S: name, Typ: t}) }
func Global(g *ssa.Global) *Term            { return mk(Term{K: KGlobal, Obj: g, Typ: g.Type()}) }
func FuncT(f *ssa.Function) *Term           { return mk(Term{K: KFunc, Obj: f, Typ: f.Signature}) }
func Iface(t types.Type, v *Term) *Term     { return mk(Term{K: KIface, Typ2: t, Args: []*Term{v}}) }

// FieldAddr is the address of field i of the struct at base.
func FieldAddr(base *Term, i int, pt types.Type) *Term {
	return mk(Term{K: KField, I: i, Args: []*Term{base}, Typ: pt})
}

// ElemAddr is the address of element idx of the array at / slice value base.
func ElemAddr(base, idx *Term, pt types.Type) *Term {
	if base.K == KSlice && base.Args[0].K != KNone {
		lo := base.Args[1]
		if lo.K == KNone || isZeroInt(lo) {
			// slices of arrays/slices share elements
			return ElemAddr(base.Args[0], idx, pt)
		}
		if lo.K == KConst && idx.K == KConst {
			return ElemAddr(base.Args[0], addInt(idx, lo), pt)
		}
	}
	return mk(Term{K: KElem, Args: []*Term{base, idx}, Typ: pt})
}

func isZeroInt(t *Term) bool {
	v, ok := t.IntVal()
	return ok && v == 0
}

func addInt(a, b *Term) *Term {
	x, _ := a.IntVal()
	y, _ := b.IntVal()
	return Int(x + y)
}

func Init(addr *Term, t types.Type) *Term {
	return mk(Term{K: KInit, Args: []*Term{addr}, Typ: t})
}

func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return Const(constant.MakeInt64(0), t)
		}
		return Nil
	case *types.Struct, *types.Array:
		return mk(Term{K: KZero, Typ: t})
	case *types.Tuple:
		var args []*Term
		for i := 0; i < u.Len(); i++ {
			args = append(args, Zero(u.At(i).Type()))
		}
		return mk(Term{K: KTuple, Args: args})
	}
	return Nil
}

func FieldOf(v *Term, i int, t types.Type) *Term {
	switch v.K {
	case KStruct:
		return v.Args[i]
	case KZero:
		return Zero(t)
	case KInit:
		return Init(FieldAddr(v.Args[0], i, types.NewPointer(t)), t)
	}
	return mk(Term{K: KFieldOf, I: i, Args: []*Term{v}, Typ: t})
}

func ElemOf(v, idx *Term, t types.Type) *Term {
	switch v.K {
	case KZero:
		return Zero(t)
	case KList:
		if i, ok := idx.IntVal(); ok && i >= 0 && int(i) < len(v.Args) {
			return v.Args[i]
		}
	case KInit:
		if v.Typ == nil || !isString(v.Typ) {
			return Init(ElemAddr(v.Args[0], idx, types.NewPointer(t)), t)
		}
	case KConst:
		if s, ok := v.StrVal(); ok {
			if i, ok := idx.IntVal(); ok && i >= 0 && int(i) < len(s) {
				return Int(int64(s[i]))
			}
		}
	}
	return mk(Term{K: KElemOf, Args: []*Term{v, idx}, Typ: t})
}

func LenOf(v *Term) *Term {
	switch v.K {
	case KConst:
		if s, ok := v.StrVal(); ok {
			return Int(int64(len(s)))
		}
	case KNil:
		return Int(0)
	case KList:
		return Int(int64(len(v.Args)))
	case KConv:
		if isStrOrBytes(v.Args[0].TypU()) && isStrOrBytes(v.Typ) {
			return LenOf(v.Args[0])
		}
	case KSlice:
		lo, hi := v.Args[1], v.Args[2]
		if hi.K == KNone {
			hi = LenOf(v.Args[0])
		}
		if lo.K == KNone {
			return hi
		}
		return Bin(token.SUB, hi, lo, types.Typ[types.Int])
	case KAppend:
		return Bin(token.ADD, LenOf(v.Args[0]), Int(int64(len(v.Args)-1)), types.Typ[types.Int])
	}
	return mk(Term{K: KLen, Args: []*Term{v}, Typ: types.Typ[types.Int]})
}

func (t *Term) IntVal() (int64, bool) {
	if t.K == KConst && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.K == KConst && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) BoolVal() (bool, bool) {
	if t.K == KConst && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// Func returns the callee of a KCall/KEvent term.
func (t *Term) CalleeName() string {
	if t.K == KEvent {
		return t.S
	}
	switch o := t.Obj.(type) {
	case *ssa.Function:
		return FnName(o)
	case *types.Func:
		return o.FullName()
	case *ssa.Builtin:
		return "builtin." + o.Name()
	case string:
		return o
	}
	return ""
}

// FnName is a readable, stable name: pkg.F, (pkg.T).M, (*pkg.T).M.
func FnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}
	return f.RelString(nil)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	as := func(xs []*Term) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.K {
	case KConst:
		return t.C.String()
	case KNil:
		return "nil"
	case KNone:
		return "_"
	case KParam, KFree:
		return t.S
	case KGlobal:
		return "&" + t.Obj.(*ssa.Global).Name()
	case KFunc:
		return FnName(t.Obj.(*ssa.Function))
	case KAlloc:
		return "&" + t.S
	case KField:
		return t.Args[0].str(d+1) + "." + fieldName(t.Args[0], t.I)
	case KElem:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KInit:
		return "*(" + t.Args[0].str(d+1) + ")"
	case KFieldOf:
		return t.Args[0].str(d+1) + fmt.Sprintf(".#%d", t.I)
	case KElemOf:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KCall:
		return t.CalleeName() + "(" + as(t.Args) + ")"
	case KEvent:
		return t.CalleeName() + "(…)"
	case KExtract:
		return t.Args[0].str(d+1) + fmt.Sprintf("#%d", t.I)
	case KBin:
		return "(" + t.Args[0].str(d+1) + " " + t.Op.String() + " " + t.Args[1].str(d+1) + ")"
	case KUn:
		return t.Op.String() + t.Args[0].str(d+1)
	case KConv:
		return types.TypeString(t.Typ, func(p *types.Package) string { return p.Name() }) + "(" + t.Args[0].str(d+1) + ")"
	case KIface:
		return t.Args[0].str(d + 1)
	case KLen:
		return "len(" + t.Args[0].str(d+1) + ")"
	case KIs, KAssert:
		return t.Args[0].str(d+1) + ".(" + types.TypeString(t.Typ2, func(p *types.Package) string { return p.Name() }) + ")"
	case KLoop:
		return "loop:" + t.S
	case KZero:
		return "zero"
	}
	return kindNames[t.K] + "{" + t.S + as(t.Args) + "}"
}

func fieldName(base *Term, i int) string {
	if base.Typ != nil {
		ty := base.Typ.Underlying()
		if p, ok := ty.(*types.Pointer); ok {
			ty = p.Elem().Underlying()
		}
		if s, ok := ty.(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprintf("#%d", i)
}

// FieldNameOf returns the name of the field a KField address denotes.
func FieldNameOf(t *Term) string {
	if t.K != KField {
		return ""
	}
	return fieldName(t.Args[0], t.I)
}

// Root returns the base of an address (through fields and elements).
func Root(t *Term) *Term {
	for t.K == KField || t.K == KElem {
		t = t.Args[0]
	}
	return t
}

// Contains reports whether x occurs in t.
func Contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Walk visits t and its subterms.
func Walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// PureCall is the term of a deterministic opaque call.
func PureCall(name string, args []*Term, rt types.Type) *Term {
	if tup, ok := rt.(*types.Tuple); ok && tup.Len() == 1 {
		rt = tup.At(0).Type()
	}
	return fold(name, nil, args, rt)
}

// MapOkOf is the comma-ok result of looking k up in map m.
func MapOkOf(m, k *Term) *Term {
	return mk(Term{K: KMapOk, Args: []*Term{m, k}, Typ: types.Typ[types.Bool]})
}

// Out is the content call result res left behind its i-th argument.
func Out(res *Term, i int, t types.Type) *Term {
	return mk(Term{K: KOut, I: i, Args: []*Term{res}, Typ: t})
}
