package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// IsPure: external functions whose result depends on argument contents only
// and which change nothing.
func IsPure(name string) bool {
	switch {
	case strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "strconv."), strings.HasPrefix(name, "errors."), strings.HasPrefix(name, "unicode"), strings.HasPrefix(name, "sort.Search"), strings.HasPrefix(name, "path"), strings.HasPrefix(name, "math.") && !strings.HasPrefix(name, "math/"), strings.HasPrefix(name, "encoding/hex.Encode"), strings.HasPrefix(name, "slices.Contains"), strings.HasPrefix(name, "slices.Index"), strings.HasPrefix(name, "cmp."):
		switch name {
		case "strings.NewReader", "strings.NewReplacer":
			return true
		}
		return true
	case strings.HasPrefix(name, "bytes."):
		return name != "bytes.NewBuffer" && name != "bytes.NewBufferString" && name != "bytes.NewReader"
	case strings.HasPrefix(name, "fmt.Sprint"), name == "fmt.Errorf":
		return true
	case strings.HasPrefix(name, "regexp."), strings.HasPrefix(name, "(*regexp.Regexp)."):
		return true
	case strings.HasPrefix(name, "net/url."), strings.HasPrefix(name, "(*net/url."), strings.HasPrefix(name, "(net/url."):
		return true
	case strings.HasPrefix(name, "(time.Time)."), strings.HasPrefix(name, "(time.Duration)."), name == "time.Date", name == "time.Parse", name == "time.ParseInLocation", name == "time.FixedZone", name == "time.Unix", name == "time.LoadLocation":
		return true
	case strings.HasPrefix(name, "reflect."), strings.HasPrefix(name, "(reflect."):
		return true
	case strings.HasPrefix(name, "(golang.org/x/text/currency."), name == "golang.org/x/text/currency.ParseISO", name == "golang.org/x/text/currency.MustParseISO":
		return true
	case strings.HasPrefix(name, "(github.com/aclindsa/xml.StartElement)."), strings.HasPrefix(name, "(github.com/aclindsa/xml.CharData)."):
		return true
	case name == "github.com/aclindsa/xml.CopyToken":
		return true
	}
	switch name {
	case "(*math/big.Rat).Sign", "(*math/big.Rat).Cmp", "(*math/big.Rat).FloatString", "(*math/big.Rat).Float64", "(*math/big.Rat).Float32", "(*math/big.Rat).String", "(*math/big.Rat).RatString", "(*math/big.Rat).IsInt", "(*math/big.Rat).Num", "(*math/big.Rat).Denom",
		"(net/http.Header).Get", "(*net/http.Response).Cookies", "crypto/tls.CipherSuites", "(error).Error", "(fmt.Stringer).String",
		"(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "net/http.StatusText", "net.JoinHostPort", "(*os.File).Fd", "golang.org/x/text/currency.Unit.String":
		return true
	}
	return false
}

// NonNilResult: opaque calls whose first result is never nil.
func NonNilResult(t *Term) bool {
	switch t.CalleeName() {
	case "errors.New", "fmt.Errorf", "regexp.MustCompile", "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewWriter", "github.com/aclindsa/xml.NewDecoder", "github.com/aclindsa/xml.NewEncoder", "flag.NewFlagSet", "strings.NewReader", "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "time.FixedZone", "strings.NewReplacer", "flag.String", "flag.Bool", "context.Background", "context.TODO", "context.WithValue", "(*net/http.Request).WithContext", "io.NopCloser", "io.TeeReader", "io.MultiReader":
		return true
	}
	return false
}

// NoHavoc: opaque calls that do not write through pointer arguments.
var NoHavoc = map[string]bool{}

// WritesVariadic: variadic interface arguments are written through.
var WritesVariadic = map[string]bool{"fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Fscan": true, "fmt.Scan": true, "fmt.Scanln": true, "fmt.Scanf": true, "fmt.Fscanf": true, "fmt.Sscanln": true}

// FillsSlice: slice arguments are written to.
var FillsSlice = map[string]bool{"crypto/rand.Read": true, "io.ReadFull": true, "(io.Reader).Read": true, "(*os.File).Read": true, "(*bufio.Reader).Read": true, "io.ReadAtLeast": true, "math/rand.Read": true, "(*math/rand.Rand).Read": true}

func fold(name string, obj any, a []*Term, rt types.Type) *Term {
	str := func(i int) (string, bool) {
		if i >= len(a) {
			return "", false
		}
		return a[i].StrVal()
	}
	x, ok0 := str(0)
	y, ok1 := str(1)
	switch name {
	case "strings.TrimSpace":
		if ok0 {
			return Str(strings.TrimSpace(x))
		}
		if a[0].K == KCall && a[0].CalleeName() == name {
			return a[0]
		}
	case "strings.ToUpper":
		if ok0 {
			return Str(strings.ToUpper(x))
		}
	case "strings.ToLower":
		if ok0 {
			return Str(strings.ToLower(x))
		}
	case "strings.HasPrefix":
		if ok0 && ok1 {
			return BoolT(strings.HasPrefix(x, y))
		}
	case "strings.HasSuffix":
		if ok0 && ok1 {
			return BoolT(strings.HasSuffix(x, y))
		}
	case "strings.Contains":
		if ok0 && ok1 {
			return BoolT(strings.Contains(x, y))
		}
	case "strings.TrimSuffix":
		if ok0 && ok1 {
			return Str(strings.TrimSuffix(x, y))
		}
	case "strings.TrimPrefix":
		if ok0 && ok1 {
			return Str(strings.TrimPrefix(x, y))
		}
	case "strings.TrimRight":
		if ok0 && ok1 {
			return Str(strings.TrimRight(x, y))
		}
	case "strings.Trim":
		if ok0 && ok1 {
			return Str(strings.Trim(x, y))
		}
	case "strings.Replace", "strings.ReplaceAll":
		z, ok2 := str(2)
		if ok0 && ok1 && ok2 {
			n := int64(-1)
			if len(a) > 3 {
				v, ok := a[3].IntVal()
				if !ok {
					break
				}
				n = v
			}
			return Str(strings.Replace(x, y, z, int(n)))
		}
	case "(*regexp.Regexp).SubexpNames", "(*regexp.Regexp).NumSubexp", "(*regexp.Regexp).SubexpIndex":
		if p, ok := RegexSource(a[0]); ok {
			if re, err := syntax.Parse(p, syntax.Perl); err == nil {
				names := re.CapNames()
				switch {
				case strings.HasSuffix(name, "Names"):
					var xs []*Term
					for _, n := range names {
						xs = append(xs, Str(n))
					}
					return mk(Term{K: KList, Args: xs, Typ: rt})
				case strings.HasSuffix(name, "NumSubexp"):
					return Int(int64(len(names) - 1))
				default:
					if s, ok := str(1); ok {
						for i, n := range names {
							if n == s && s != "" {
								return Int(int64(i))
							}
						}
						return Int(-1)
					}
				}
			}
		}
	case "strconv.Itoa":
		if v, ok := a[0].IntVal(); ok {
			return Str(strconv.FormatInt(v, 10))
		}
	case "strings.Join":
		if a[0].K == KList && ok1 {
			var ss []string
			all := true
			for _, e := range a[0].Args {
				s, ok := e.StrVal()
				if !ok {
					all = false
					break
				}
				ss = append(ss, s)
			}
			if all {
				return Str(strings.Join(ss, y))
			}
		}
		// A fixed list put together is a concatenation.
		if a[0].K == KList && ok1 && 0 < len(a[0].Args) && len(a[0].Args) <= 8 {
			out := a[0].Args[0]
			for _, e := range a[0].Args[1:] {
				if y != "" {
					out = Bin(token.ADD, out, a[1], rt)
				}
				out = Bin(token.ADD, out, e, rt)
			}
			return out
		}
	case "fmt.Sprintf":
		// A format of plain %s and text is a concatenation.
		if ok0 && len(a) == 2 && a[1].K == KList && len(a[1].Args) <= 8 {
			if out := plainFormat(x, a[1].Args, rt); out != nil {
				return out
			}
		}
	case "(time.Time).IsZero":
		return fold("(time.Time).Equal", "(time.Time).Equal", []*Term{a[0], mk(Term{K: KZero, Typ: a[0].Typ})}, types.Typ[types.Bool])
	case "(time.Time).Equal":
		if a[0] == a[1] {
			return True
		}
		if a[0].K == KZero || (a[1].K != KZero && a[0].ID > a[1].ID) {
			a = []*Term{a[1], a[0]}
		}
		return mk(Term{K: KCall, Obj: name, Args: a, Typ: types.Typ[types.Bool]})
	case "(github.com/aclindsa/xml.StartElement).End":
		return mk(Term{K: KStruct, Args: []*Term{FieldOf(a[0], 0, nil)}, Typ: rt})
	}
	return mk(Term{K: KCall, Obj: objName(name, obj), Args: a, Typ: rt})
}

// plainFormat is the concatenation a format of nothing but text and plain %s
// or %v of strings stands for, or nil.
func plainFormat(format string, args []*Term, rt types.Type) *Term {
	var parts []*Term
	text := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			text += format[i : i+1]
			continue
		}
		i++
		switch {
		case i == len(format):
			return nil
		case format[i] == '%':
			text += "%"
		case (format[i] == 's' || format[i] == 'v') && len(args) > 0:
			v := args[0]
			args = args[1:]
			if v.K != KIface || v.Typ2 == nil || len(v.Args) != 1 {
				return nil
			}
			if b, ok := v.Typ2.(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return nil
			}
			if text != "" {
				parts = append(parts, Str(text))
			}
			text = ""
			parts = append(parts, v.Args[0])
		default:
			return nil
		}
	}
	if len(args) > 0 {
		return nil
	}
	if text != "" || len(parts) == 0 {
		parts = append(parts, Str(text))
	}
	out := parts[0]
	for _, p := range parts[1:] {
		out = Bin(token.ADD, out, p, rt)
	}
	return out
}

// objName keys opaque calls by the full name of the callee.
func objName(name string, obj any) any { return name }

func (r *Run) ifaceMode(m *types.Func) Mode {
	n := m.FullName()
	switch m.Name() {
	case "Name", "Type", "Error", "String", "OfxVersion", "ID", "Version", "IndentRequests", "CarriageReturnNewLines", "TransactionType", "PositionType", "OrderType", "SecurityType", "InvTransaction", "InvPosition", "SecurityInfo", "Valid":
		if m.Pkg() == nil || r.W.InModulePkg(m.Pkg()) || m.Name() == "String" || m.Name() == "Error" {
			return Pure
		}
	}
	if IsPure(n) {
		return Pure
	}
	return Impure
}

// model handles calls with a special meaning. A nil outcome list means the
// call returned res normally.
func (r *Run) model(fr *frame, st *State, site ssa.Instruction, name string, f *ssa.Function, args []*Term, rt types.Type) (res []*Term, outs []Outcome, ok bool) {
	switch name {
	case "os.Exit":
		st.push(Event{Kind: "call", Callee: name, Obj: f, Args: args, Cont: args, Site: site, Fn: fr.fn, Ctx: fr.ctx, Result: None})
		r.fire(st, st.Ev)
		return nil, []Outcome{{Kind: "exit", St: st, Code: args[0], Site: site, Ctx: fr.ctx}}, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		cargs := make([]*Term, len(args))
		for i, a := range args {
			cargs[i] = st.Content(a)
		}
		st.push(Event{Kind: "call", Callee: name, Obj: f, Args: args, Cont: cargs, Site: site, Fn: fr.fn, Ctx: fr.ctx, Result: None, St: st.Clone()})
		r.fire(st, st.Ev)
		return nil, []Outcome{{Kind: "exit", St: st, Code: Int(1), Site: site, Ctx: fr.ctx}}, true
	case "(*math/big.Int).Sign":
		// the sign of a fraction is its numerator's
		a := args[0]
		if a.K != KCall {
			a = st.Content(a)
		}
		if a.K == KCall && a.CalleeName() == "(*math/big.Rat).Num" {
			return []*Term{PureCall("(*math/big.Rat).Sign", a.Args, rt)}, nil, true
		}
	case "(*math/big.Rat).Cmp":
		// comparing with zero
		if z := st.Content(args[1]); z.K == KZero {
			return []*Term{PureCall("(*math/big.Rat).Sign", []*Term{st.Content(args[0])}, rt)}, nil, true
		}
	case "reflect.TypeOf":
		if dt := st.F.DynType(args[0]); dt != nil {
			return []*Term{mk(Term{K: KRType, Typ2: dt, Typ: rt})}, nil, true
		}
	case "reflect.New":
		if args[0].K == KRType {
			n := st.fresh(fmt.Sprintf("R%p%s", site, fr.ctx.key()))
			p := types.NewPointer(args[0].Typ2)
			a := mk(Term{K: KAlloc, S: "reflect.New", I: n, Obj: siteKey{site, fr.ctx.key()}.String() + fmt.Sprint(tid(args[0].Typ2)), Typ: p, Site: site})
			st.alloc = append(st.alloc, a)
			return []*Term{mk(Term{K: KRNew, Typ2: args[0].Typ2, Args: []*Term{a}, Typ: rt})}, nil, true
		}
	case "(reflect.Value).Interface":
		if args[0].K == KRNew {
			return []*Term{Iface(types.NewPointer(args[0].Typ2), args[0].Args[0])}, nil, true
		}
	}
	return nil, nil, false
}

func (r *Run) lenTerm(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return Int(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
	case *types.Map:
		if mv := st.MapOf(v); mv != nil && !mv.Unknown {
			for _, en := range mv.Entries {
				if en.K.K != KConst && len(mv.Entries) > 1 {
					return LenOf(v)
				}
			}
			return Int(int64(len(mv.Entries)))
		}
	}
	if v.K == KSlice && v.Args[2].K == KNone {
		if v.Args[0].Typ != nil {
			if p, ok := v.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					hi := Int(a.Len())
					if v.Args[1].K == KNone {
						return hi
					}
					return Bin(token.SUB, hi, v.Args[1], types.Typ[types.Int])
				}
			}
		}
	}
	return LenOf(v)
}

func (r *Run) builtin(fr *frame, st *State, site ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, rt types.Type) []Outcome {
	one := func(t *Term) []Outcome { return []Outcome{{Kind: "ret", St: st, Res: []*Term{t}}} }
	switch b.Name() {
	case "len":
		return one(r.lenTerm(st, args[0], c.Args[0].Type()))
	case "cap":
		return one(mk(Term{K: KCall, Obj: "cap", Args: args, Typ: rt}))
	case "append":
		if len(args) == 1 {
			return one(args[0])
		}
		x := args[1]
		if isString(c.Args[1].Type()) {
			return one(mk(Term{K: KAppendS, Args: []*Term{args[0], x}, Typ: rt}))
		}
		if x.K == KSlice && x.Args[0].K == KAlloc {
			if n, ok := r.lenTerm(st, x, c.Args[1].Type()).IntVal(); ok && n <= 512 {
				lo := int64(0)
				lok := true
				if x.Args[1].K != KNone {
					lo, lok = x.Args[1].IntVal()
				}
				if lok {
					et := c.Args[1].Type().Underlying().(*types.Slice).Elem()
					xs := []*Term{args[0]}
					if args[0].K == KAppend {
						xs = append([]*Term(nil), args[0].Args...)
					}
					for i := int64(0); i < n; i++ {
						xs = append(xs, st.Load(ElemAddr(x.Args[0], Int(lo+i), types.NewPointer(et)), et))
					}
					return one(mk(Term{K: KAppend, Args: xs, Typ: rt}))
				}
			}
		}
		if x.K == KNil {
			return one(args[0])
		}
		return one(mk(Term{K: KAppendS, Args: []*Term{args[0], x}, Typ: rt}))
	case "copy":
		ev := st.push(Event{Kind: "call", Callee: "builtin.copy", Obj: b, Args: args, Cont: args, Site: site, Fn: fr.fn, Ctx: fr.ctx, St: st.Clone()})
		if args[0].K == KSlice {
			st.Store(args[0].Args[0], mk(Term{K: KOut, S: "copy", I: st.fresh(fmt.Sprintf("C%p", site)), Args: []*Term{args[0], args[1]}}))
		}
		r.fire(st, ev)
		n := mk(Term{K: KCall, Obj: "copy", Args: args, Typ: rt})
		return one(n)
	case "delete":
		if _, ok := st.maps[args[0]]; ok {
			st.maps[args[0]] = &MapVal{Unknown: true}
		}
		return []Outcome{{Kind: "ret", St: st}}
	case "print", "println":
		ev := st.push(Event{Kind: "call", Callee: "builtin." + b.Name(), Obj: b, Args: args, Cont: args, Site: site, Fn: fr.fn, Ctx: fr.ctx, St: st.Clone()})
		r.fire(st, ev)
		return []Outcome{{Kind: "ret", St: st}}
	case "recover":
		r.undecided("recover in %s", FnName(fr.fn))
		return one(Nil)
	case "panic":
		r.oblig(fr, st, "panic", site, false, "explicit panic")
		return []Outcome{{Kind: "panic", St: st, Code: args[0], Site: site, Ctx: fr.ctx}}
	case "min", "max":
		return one(mk(Term{K: KCall, Obj: b.Name(), Args: args, Typ: rt}))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "clear", "close":
		r.undecided("builtin %s in %s", b.Name(), FnName(fr.fn))
		return []Outcome{{Kind: "ret", St: st}}
	}
	return one(mk(Term{K: KCall, Obj: "builtin." + b.Name(), Args: args, Typ: rt}))
}
