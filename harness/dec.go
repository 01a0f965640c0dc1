package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unsafe"

	jc "github.com/neilotoole/jsoncolor"
)

func init() { time.Local = time.UTC }

// ---- destination types ----

// UJ and UT record what they are given.
type UJ struct {
	Raw []byte
	N   int
}

func (u *UJ) UnmarshalJSON(b []byte) error {
	u.N++
	reenter()
	u.Raw = append([]byte{}, b...)
	if string(b) == `"fail"` {
		return errMarshal
	}
	return nil
}

type UT struct {
	S string
	N int
}

func (u *UT) UnmarshalText(b []byte) error {
	u.N++
	reenter()
	u.S = string(b)
	if u.S == "fail" {
		return errMarshal
	}
	return nil
}

// UB and UBT are bytes with unmarshalers.
type UB byte

func (u *UB) UnmarshalJSON(b []byte) error {
	reenter()
	*u = UB(int(b[0]) + len(b))
	if string(b) == `"fail"` {
		return errMarshal
	}
	return nil
}

type UBT byte

func (u *UBT) UnmarshalText(b []byte) error {
	reenter()
	*u = UBT(len(b))
	for _, c := range b {
		*u += UBT(c)
	}
	if string(b) == "fail" {
		return errMarshal
	}
	return nil
}

// UV and UVT have value receivers, which can only fail.
type (
	UV  byte
	UVT byte
)

func (UV) UnmarshalJSON(b []byte) error {
	reenter()
	if string(b) == `"fail"` {
		return errMarshal
	}
	return nil
}

func (UVT) UnmarshalText(b []byte) error {
	reenter()
	if string(b) == "fail" {
		return errMarshal
	}
	return nil
}

var (
	tUV  = reflect.TypeOf(UV(0))
	tUVT = reflect.TypeOf(UVT(0))
	tUB  = reflect.TypeOf(UB(0))
	tUBT = reflect.TypeOf(UBT(0))
	tUJ  = reflect.TypeOf(UJ{})
	tUT  = reflect.TypeOf(UT{})
	tKT  = reflect.TypeOf(KT{})
	tKSM = reflect.TypeOf(KSM(""))
	tKSD = reflect.TypeOf(KSD(""))
	tKID = reflect.TypeOf(KID(0))
)

type (
	DEmb1 struct {
		E1 int
		E2 string `json:"e2"`
		S  string
	}
	DEmb2 struct {
		F1 bool `json:"f1"`
		S  string
		*DEmb3
	}
	DEmb3 struct {
		G1 []int `json:"g1"`
		G2 *int
	}
	dUnexp struct {
		U1 int
		U2 string
	}
	DA struct {
		DEmb1
		*DEmb2
		A int `json:"a"`
	}
	// Embedded pointers to structs that begin with a field of each shape.
	DQst struct {
		Sa DEmb1
		Sb int
		Sc string
	}
	DQmp struct {
		Ma map[string]int
		Mb int
		Mc []int `json:"mc"`
	}
	DQpt struct {
		Pa *DEmb1
		Pb interface{}
		Pc [2]int
	}
	DQan struct {
		Aa interface{}
		Ab *int
		*DQar
	}
	DQar struct {
		Ra [2]DEmb1
		Rb json.RawMessage
		Rc UT
		DQtm
	}
	DQtm struct {
		Ta time.Time
		Tb UJ
		Tc bool
	}
	DQ struct {
		*DQst
		*DQmp
		Own int
	}
	DR struct {
		*DQpt
		*DQan
	}
	DS struct {
		Own int
		DQan
		*DQtm `json:"tm"`
		*DQst
	}
	DB struct {
		dUnexp
		B []string
		S string `json:"s"`
	}
	DC struct {
		*dUnexp
		C int
	}
	DD struct {
		Foo int
		FOO int `json:"FOO"`
		Fo0 string
		Bar string `json:"bar"`
		Baz *bool  `json:"Baz"`
	}
	DE struct {
		A int     `json:"É"`
		B string  `json:"straße"`
		C float64 `json:"Σίσυφος"`
		D bool    `json:"Kelvin"`
		E uint8   `json:"ключ"`
		F *int    `json:"ſtar"`
		G string  `json:"日本"`
		H int     `json:"Ǆx"`
		I int     `json:"µm"`
	}
	DF struct {
		A int `json:"eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee"`       // 63
		B int `json:"FfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffFf"`      // 65
		C int `json:"GgggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggGg"`      // 64
		D int `json:"hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhH"` // more
		E int `json:"q"`
	}
	DG struct {
		A int     `json:"a,string"`
		B bool    `json:"b,string"`
		C float64 `json:"c,string"`
		D string  `json:"d,string"`
		E *int64  `json:"e,string"`
		F uint16  `json:",string"`
		G []int   `json:"g,string"`
		H *string `json:"h,string"`
		I float32 `json:"i,omitempty,string"`
	}
	DRec struct {
		V    int              `json:"v"`
		Next *DRec            `json:"next"`
		M    map[string]*DRec `json:"m"`
		L    []DRec           `json:"l"`
	}
	DIf struct {
		A interface{}
		N Namer
		P interface{} `json:"p"`
	}
	DH struct {
		J UJ
		T UT  `json:"t"`
		P *UJ `json:"p"`
		Q *UT `json:"q"`
		R json.RawMessage
		S []UJ
		M map[string]UT
		K map[KT]UJ
	}
	DI struct {
		DEmb1  `json:"one"`
		*DEmb2 `json:"two"`
		X      int `json:"-"`
		Y      int `json:"-,"`
		z      int
		EmbInt
	}
	DJ struct { // shallow names hide deep ones
		DEmb1
		DEmb2
		E1 string
	}
	DMin struct {
		Foo  string `json:"foo"`
		NAME int    `json:"nAME"`
		Kk   bool
	}
	DMout struct { // names of outer and inner fields differ in letter case only
		DMin
		FOO  int
		Name string `json:"name"`
		*DMptr
		KK int
	}
	DMptr struct {
		NAme []int
		Fo   int `json:"fOO"`
		Z    int
	}
	DN struct {
		*DMin
		DMptr
		FOO *int `json:"FoO"`
	}
	DK struct {
		Ar  [3]int
		Ar0 [0]string
		Ar1 [1]DEmb1 `json:"ar1"`
		Ar2 [2]*int  `json:"ar2"`
		ArA [2]interface{}
		ArL [12]uint8 `json:"arl"`
	}
	DL struct {
		M1 map[string]int
		M2 map[int8]string `json:"m2"`
		M3 map[uint]DEmb1  `json:"m3"`
		M4 map[KT][]int    `json:"m4"`
		M5 map[string]json.RawMessage
		M6 map[string]interface{}
		M7 map[NStr]map[int]bool
	}
)

var decStructs = []reflect.Type{
	reflect.TypeOf(DA{}), reflect.TypeOf(DB{}), reflect.TypeOf(DC{}), reflect.TypeOf(DD{}), reflect.TypeOf(DE{}), reflect.TypeOf(DF{}),
	reflect.TypeOf(DG{}), reflect.TypeOf(DRec{}), reflect.TypeOf(DIf{}), reflect.TypeOf(DH{}), reflect.TypeOf(DI{}), reflect.TypeOf(DJ{}),
	reflect.TypeOf(DK{}), reflect.TypeOf(DL{}), reflect.TypeOf(DMout{}), reflect.TypeOf(DMout{}), reflect.TypeOf(DN{}), reflect.TypeOf(DQ{}), reflect.TypeOf(DR{}), reflect.TypeOf(DS{}), reflect.TypeOf(StB{}), reflect.TypeOf(StC{}), reflect.TypeOf(StE{}), reflect.TypeOf(StHD{}),
}

var decKeys = []reflect.Type{
	tString, tString, tString, reflect.TypeOf(NStr("")), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(NInt(0)), tKT,
	tKSM, reflect.TypeOf(KSE("")), tKSD, reflect.TypeOf(KIE(0)), tKID,
}

// Types without a JSON form.
var (
	chanOfInt = make(chan int)
	noJSON    = []reflect.Type{reflect.TypeOf(chanOfInt), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)),
		reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf(map[bool]int{}), reflect.TypeOf(map[float64]string{}), reflect.TypeOf(map[[2]int]interface{}{})}
)

func hasNoJSON(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		return true
	case reflect.Map:
		switch t.Key().Kind() {
		case reflect.Bool, reflect.Float64, reflect.Array:
			return true
		}
	}
	return false
}

func (g *gen) decLeaf() reflect.Type {
	if g.p(2) {
		return noJSON[g.Intn(len(noJSON))]
	}
	switch g.Intn(13) {
	case 12:
		t := []reflect.Type{tUB, tUBT, tUB, tUBT, tUV, tUVT}[g.Intn(6)]
		if g.p(50) {
			return reflect.SliceOf(t)
		}
		return t
	case 0:
		if g.p(35) {
			return tNAny
		}
		return tAny
	case 1:
		return tRaw
	case 2:
		return tUJ
	case 3:
		return tUT
	default:
		return g.basic()
	}
}

// Named composites without methods.
var decNamed = []reflect.Type{
	reflect.TypeOf(NSlice{}), reflect.TypeOf(NMap{}), reflect.TypeOf(NArr{}), reflect.TypeOf(NMAny{}), reflect.TypeOf(NMRaw{}),
	tNAny, reflect.TypeOf(NMN{}), reflect.TypeOf(NSAny{}), reflect.TypeOf(NSN{}), reflect.MapOf(tString, tNAny), reflect.TypeOf(map[string]json.RawMessage{}),
}

func (g *gen) decType(depth int) reflect.Type {
	if depth <= 0 {
		return g.decLeaf()
	}
	switch g.Intn(14) {
	case 0, 1:
		return g.decLeaf()
	case 2, 3:
		return reflect.SliceOf(g.decType(depth - 1))
	case 4, 5:
		return reflect.ArrayOf(g.picki(0, 1, 2, 3, 4, 11), g.decType(depth-1))
	case 6:
		return reflect.PointerTo(g.decType(depth - 1))
	case 7, 8:
		return reflect.MapOf(decKeys[g.Intn(len(decKeys))], g.decType(depth-1))
	case 9, 10:
		return g.decStruct(depth)
	case 11, 12:
		return decStructs[g.Intn(len(decStructs))]
	default:
		if g.p(50) {
			return decNamed[g.Intn(len(decNamed))]
		}
		return g.basic()
	}
}

var decTags = []string{"a", "b", "name", "A;B", "A", "Name", "NAME", "é", "É", "key with space", "long" + strings.Repeat("n", 60), "Long" + strings.Repeat("n", 60), "UPPER", "Mixed", "mixed", "$", "0", "sixteen_chars_16", "straße", "ключ", "КЛЮЧ", "k", "s", "null", "σ", "ς"}

func (g *gen) decStruct(depth int) reflect.Type {
	n := g.Intn(6)
	if g.p(10) {
		n = 8
	}
	used := map[string]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		t := g.decType(depth - 1)
		name := fieldNames[i]
		tag := ""
		switch g.Intn(4) {
		case 0, 1:
			tag = decTags[g.Intn(len(decTags))]
		case 2:
			tag = g.ascii()
		}
		eff := tag
		if eff == "" {
			eff = name
		}
		if used[eff] {
			continue
		}
		used[eff] = true
		if g.p(20) {
			tag += ",omitempty"
		}
		if g.p(12) && strQuotable(t) {
			tag += ",string"
		}
		f := reflect.StructField{Name: name, Type: t}
		if tag != "" {
			f.Tag = reflect.StructTag("json:" + strconv.Quote(tag))
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func strQuotable(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
		if t.Kind() == reflect.Pointer {
			return false
		}
	}
	return t != tNumber && t != tDur && t != tTime && t != tUJ && t != tUT && !ownByte(t) && !t.Implements(tNoder) && !reflect.PointerTo(t).Implements(tNoder)
}

// ---- type descriptors ----

func intDesc(lo, hi string, uns bool) M {
	return M{"t": "int", "lo": S(lo), "hi": S(hi), "uns": uns}
}

func pow2(n uint) string {
	if n == 64 {
		return "18446744073709551616"
	}
	return strconv.FormatUint(1<<n, 10)
}

func dec1(s string) string { // s - 1 for a power of two
	b := []byte(s)
	b[len(b)-1]--
	return string(b)
}

// desc describes t; in is the value a variable of the type holds (interfaces
// holding pointers decode into these).
func desc(t reflect.Type, depth int, in reflect.Value) M {
	if depth < 0 {
		return M{"t": "cut"}
	}
	switch t {
	case tNumber:
		return M{"t": "num"}
	case tRaw:
		return M{"t": "raw"}
	case tTime:
		return M{"t": "time"}
	case tDur:
		d := intDesc(pow2(63), dec1(pow2(63)), false)
		d["t"] = "dur"
		return d
	case tUJ:
		return M{"t": "uj"}
	case tUT:
		return M{"t": "ut"}
	case tUB:
		return M{"t": "ub", "text": false}
	case tUBT:
		return M{"t": "ub", "text": true}
	case tUV:
		return M{"t": "uv", "text": false}
	case tUVT:
		return M{"t": "uv", "text": true}
	}
	if hasNoJSON(t) {
		return M{"t": "bad", "nil": t.Kind() == reflect.Map}
	}
	switch t.Kind() {
	case reflect.Bool:
		return M{"t": "bool"}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		p := pow2(uint(t.Bits() - 1))
		return intDesc(p, dec1(p), false)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return intDesc("0", dec1(pow2(uint(t.Bits()))), true)
	case reflect.Float32:
		return M{"t": "f32"}
	case reflect.Float64:
		return M{"t": "f64"}
	case reflect.String:
		return M{"t": "str"}
	case reflect.Interface:
		k := "any"
		if t.NumMethod() > 0 {
			k = "iface"
		}
		d := M{"t": k, "in": A{}}
		if in.IsValid() && !in.IsNil() && in.Elem().Kind() == reflect.Pointer && !in.Elem().IsNil() {
			d["in"] = A{desc(in.Elem().Type(), depth-1, reflect.Value{})}
		}
		return d
	case reflect.Slice:
		if plainByte(t.Elem()) {
			return M{"t": "bytes"}
		}
		return M{"t": "slice", "e": desc(t.Elem(), depth-1, reflect.Value{})}
	case reflect.Array:
		return M{"t": "array", "n": t.Len(), "e": desc(t.Elem(), depth-1, reflect.Value{})}
	case reflect.Map:
		k := M{"t": "text"}
		switch {
		case t.Key() == tKT:
		case t.Key() == tKSM || t.Key() == tKSD:
			k = M{"t": "ktag"}
		case t.Key() == tKID:
			k = M{"t": "klen"}
		case t.Key().Kind() == reflect.String:
			k = M{"t": "str"}
		default:
			k = desc(t.Key(), depth, reflect.Value{})
		}
		return M{"t": "map", "k": k, "e": desc(t.Elem(), depth-1, reflect.Value{})}
	case reflect.Pointer:
		e := reflect.Value{}
		if in.IsValid() && !in.IsNil() {
			e = in.Elem()
		}
		return M{"t": "ptr", "e": desc(t.Elem(), depth-1, e)}
	case reflect.Struct:
		fs := A{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ft := f.Type
			es := ft.Kind() == reflect.Struct || (ft.Kind() == reflect.Pointer && ft.Elem().Kind() == reflect.Struct)
			fv := reflect.Value{}
			if in.IsValid() {
				fv = in.Field(i)
			}
			fs = append(fs, M{"g": S(f.Name), "tag": S(f.Tag.Get("json")), "an": f.Anonymous, "ex": f.IsExported(), "es": es, "ty": desc(ft, depth-1, fv)})
		}
		return M{"t": "st", "f": fs}
	}
	check(fmt.Errorf("no descriptor for %v", t))
	return nil
}

// ---- contents of variables ----

func fltD(f float64, bits int) M {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return M{"t": "badflt"}
	}
	n := floatNode(f, bits)
	return M{"t": "flt", "neg": n["neg"], "dg": n["d"], "e": n["e"]}
}

// contents projects what a variable holds.
func contents(v reflect.Value) M {
	if !v.IsValid() {
		return M{"t": "nil"}
	}
	t := v.Type()
	switch t {
	case tNumber:
		return M{"t": "num", "b": S(v.String())}
	case tRaw:
		if v.IsNil() {
			return M{"t": "nil"}
		}
		return M{"t": "raw", "b": B(append([]byte{}, v.Bytes()...))}
	case tTime:
		return timeNode(*(ptrTo(v).Interface().(*time.Time)))
	case tUJ:
		u := ptrTo(v).Interface().(*UJ)
		return M{"t": "um", "b": B(append([]byte{}, u.Raw...)), "n": u.N}
	case tUT:
		u := ptrTo(v).Interface().(*UT)
		return M{"t": "um", "b": S(u.S), "n": u.N}
	}
	if hasNoJSON(t) {
		return M{"t": "bad", "z": v.IsZero()}
	}
	switch v.Kind() {
	case reflect.Bool:
		return M{"t": "bool", "tf": v.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return M{"t": "int", "b": S(strconv.FormatInt(v.Int(), 10))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return M{"t": "int", "b": S(strconv.FormatUint(v.Uint(), 10))}
	case reflect.Float32:
		return fltD(v.Float(), 32)
	case reflect.Float64:
		return fltD(v.Float(), 64)
	case reflect.String:
		return M{"t": "str", "b": S(strings.Clone(v.String()))}
	case reflect.Interface:
		if v.IsNil() {
			return M{"t": "nil"}
		}
		return M{"t": "if", "v": contents(v.Elem())}
	case reflect.Pointer:
		if v.IsNil() {
			return M{"t": "nil"}
		}
		return M{"t": "ptr", "v": contents(v.Elem())}
	case reflect.Slice:
		if v.IsNil() {
			return M{"t": "nil"}
		}
		if plainByte(t.Elem()) {
			return M{"t": "bytes", "b": B(append([]byte{}, v.Bytes()...))}
		}
		fallthrough
	case reflect.Array:
		a := make(A, v.Len())
		for i := range a {
			a[i] = contents(v.Index(i))
		}
		return M{"t": "arr", "a": a}
	case reflect.Map:
		if v.IsNil() {
			return M{"t": "nil"}
		}
		type ent struct {
			k string
			v M
		}
		var es []ent
		for it := v.MapRange(); it.Next(); {
			k := it.Key()
			s := ""
			switch {
			case k.Type() == tKT:
				s = k.Interface().(KT).S
			case k.CanInt():
				s = strconv.FormatInt(k.Int(), 10)
			default:
				s, _ = keyText(k)
			}
			es = append(es, ent{strings.Clone(s), contents(it.Value())})
		}
		sortBy(len(es), func(i, j int) bool { return es[i].k < es[j].k }, func(i, j int) { es[i], es[j] = es[j], es[i] })
		m := A{}
		for _, e := range es {
			m = append(m, M{"k": S(e.k), "v": e.v})
		}
		return M{"t": "map", "m": m}
	case reflect.Struct:
		fs := A{}
		for i := 0; i < v.NumField(); i++ {
			fs = append(fs, contents(v.Field(i)))
		}
		return M{"t": "st", "fs": fs}
	}
	return M{"t": "other"}
}

func plainByte(t reflect.Type) bool { return t.Kind() == reflect.Uint8 && !ownByte(t) }
func ownByte(t reflect.Type) bool   { return t == tUB || t == tUBT || t == tUV || t == tUVT }

func sortBy(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

// ptrTo returns a pointer to v or to a copy of it.
func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// ---- documents for types ----

// aim makes documents for destination types.
type aim struct {
	*gen
	wrong  int  // percentage of values of the wrong type
	nulls  bool // null elements of slices allowed
	dups   bool // duplicate members allowed
	unk    int  // percentage of unknown members
	ws     int
	typos  int // percentage of members with other letter case
	ndepth int
}

func (a *aim) sp() string { return a.gen.ws(a.ws) }

// around is a decimal close to a multiple of a power of two, or of ten.
func (a *aim) around(bits int) string {
	n := new(big.Int).Lsh(big.NewInt(1), uint(a.picki(bits, bits, bits-1, bits+1, 64, 63, 65, 32, 128)))
	n.Mul(n, big.NewInt(int64(1+a.Intn(11))))
	if a.p(15) {
		n.Exp(big.NewInt(10), big.NewInt(int64(a.Intn(40))), nil)
	}
	n.Add(n, big.NewInt(int64(a.Intn(24)-6)))
	if a.p(35) {
		n.Neg(n)
	}
	return n.String()
}

func (a *aim) intLit(t reflect.Type) string {
	bits := t.Bits()
	if a.p(a.wrong) && a.p(40) || a.p(2) {
		return a.around(bits)
	}
	if t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uintptr {
		if a.p(a.wrong) {
			return a.pick("-1", "-0", "18446744073709551616", "99999999999999999999", strconv.FormatUint(1<<uint(bits%64), 10), "1.0", "1e2", "1.5", pow2(uint(bits)))
		}
		return strconv.FormatUint(a.uintBits(bits), 10)
	}
	if a.p(a.wrong) {
		return a.pick("9223372036854775808", "-9223372036854775809", "99999999999999999999", "-99999999999999999999", pow2(uint(bits-1)), "-"+strconv.FormatUint(1<<uint(bits-1)+1, 10), "1.0", "1e2", "1.5", "-1.5e3", "0.0", "1E0")
	}
	if a.p(4) {
		return "-0"
	}
	return strconv.FormatInt(a.intBits(bits), 10)
}

func (a *aim) other() string {
	return a.pick(`{"x":1}`, `[1,{"y":[]}]`, `"str"`, `"12"`, `true`, `false`, `12`, `1.5`, `[]`, `{}`, `-3e2`, `"2020-01-02T03:04:05Z"`, `[1,2,3]`, `"null"`, `{"a":{"b":[1,2,{"c":null}]}}`, `300`, `-1`)
}

// quoteAny writes s as a literal with random escapes.
func (a *aim) quoteAny(s string) string {
	if a.p(70) {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r < 32 || r == '"' || r == '\\' || a.p(30):
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (a *aim) doc(t reflect.Type, depth int) string {
	if a.p(a.wrong / 2) {
		return a.other()
	}
	if a.p(4) && t != tUB {
		return "null"
	}
	if hasNoJSON(t) {
		if a.p(a.wrong) {
			return a.other()
		}
		return "null"
	}
	switch t {
	case tNumber:
		return a.numberText()
	case tRaw, tUJ:
		if a.p(a.wrong) {
			return `"fail"`
		}
		return a.gen.doc(2)
	case tUB, tUV:
		if a.p(a.wrong) {
			return `"fail"`
		}
		for {
			if x := a.gen.doc(1); x != "null" {
				return x
			}
		}
	case tUT, tUBT, tUVT:
		if a.p(a.wrong) {
			return `"fail"`
		}
		return a.strLit()
	case tTime:
		s := a.time().Format(time.RFC3339Nano)
		if a.p(a.wrong) {
			s = a.pick("2020-13-01T00:00:00Z", "2020-01-01", "2020-01-01T00:00:00", "2020-02-30T00:00:00Z", "x", "", "2020-01-01T25:00:00Z", "20200101T000000Z", "2020-01-01T00:00:00+99:00")
		}
		return `"` + s + `"`
	case tDur:
		if a.p(40) {
			return `"` + a.duration() + `"`
		}
		return a.intLit(t)
	}
	switch t.Kind() {
	case reflect.Bool:
		return a.pick("true", "false")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.intLit(t)
	case reflect.Float32, reflect.Float64:
		if a.p(a.wrong) {
			return a.pick("1e400", "-1e400", "1e39", "3.5e38", "1e309", "1.7976931348623159e308")
		}
		if a.p(50) {
			return a.numberText()
		}
		f := a.float()
		if t.Kind() == reflect.Float32 && math.Abs(f) > 3e38 {
			f = 1.5
		}
		return strconv.FormatFloat(f, "eEfg"[a.Intn(4)], -1, 64)
	case reflect.String:
		return a.strLit()
	case reflect.Interface:
		return a.gen.doc(2)
	case reflect.Pointer:
		return a.doc(t.Elem(), depth-1)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && (plainByte(t.Elem()) || a.p(30)) {
			switch {
			case a.p(a.wrong):
				return a.pick(`"A"`, `"AB="`, `"A==="`, `"!!!!"`, `"QUJD="`, `"QQ="`, `[256]`, `[-1]`, `["a"]`, `"QQ==QQ=="`, `[1.5]`, `"A=BC"`, `"=QQQ"`)
			case a.p(20):
				n := a.Intn(15)
				s := make([]string, n)
				for i := range s {
					s[i] = strconv.Itoa(a.Intn(256))
				}
				return "[" + a.sp() + strings.Join(s, ","+a.sp()) + "]"
			}
			n := lens[a.Intn(len(lens)*2/3)]
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(a.Intn(256))
			}
			return a.b64lit(b)
		}
		return a.list(t.Elem(), depth, -1)
	case reflect.Array:
		return a.list(t.Elem(), depth, t.Len())
	case reflect.Map:
		return a.object(depth, func() (string, reflect.Type) { return a.key(t.Key()), t.Elem() }, true)
	case reflect.Struct:
		fs := jsonFields(t)
		i := 0
		perm := a.Perm(len(fs) + 1)
		return a.object(depth, func() (string, reflect.Type) {
			if len(fs) == 0 || a.p(a.unk) {
				return a.pick("zzz", "unknown", "x1", "", "UNKNOWN", strings.Repeat("u", 65), "é!"), nil
			}
			var f jfield
			if a.dups {
				f = fs[a.Intn(len(fs))]
			} else {
				for i < len(perm) && perm[i] >= len(fs) {
					i++
				}
				if i >= len(perm) {
					return "zzz", nil
				}
				f = fs[perm[i]]
				i++
			}
			name := f.name
			if a.p(a.typos) {
				name = a.recase(name)
			}
			if f.quoted {
				return name, quotedOf(f.typ)
			}
			return name, f.typ
		}, false)
	}
	return a.other()
}

// b64lit writes base64 with, sometimes, escapes.
// duration returns a duration in Go's notation.
func (a *aim) duration() string {
	if a.p(a.wrong) {
		return a.pick("1", "", "h", "1x", "1h2", "-", "1h ", " 1h", "1e3s", "2562048h", "9223372036854775808ns", ".s", "1d", "--1s")
	}
	if a.p(50) {
		return time.Duration(a.intBits(64)).String()
	}
	s := a.pick("", "", "-", "+")
	for n := a.between(1, 3); n > 0; n-- {
		s += strconv.Itoa(a.Intn(100))
		if a.p(30) {
			s += "." + strconv.Itoa(a.Intn(1000))
		}
		s += a.pick("h", "m", "s", "ms", "us", "µs", "ns")
	}
	return s
}

func (a *aim) b64lit(b []byte) string {
	s, _ := json.Marshal(b)
	if len(s) > 4 && a.p(20) {
		i := 1 + a.Intn(len(s)-3)
		return string(s[:i]) + fmt.Sprintf(`\u%04x`, s[i]) + string(s[i+1:])
	}
	return string(s)
}

type quoted struct{ reflect.Type }

func quotedOf(t reflect.Type) reflect.Type { return quoted{t} }

func (a *aim) quotedDoc(t reflect.Type) string {
	if a.p(a.wrong) {
		return a.pick("1", "true", `"abc"`, `"{}"`, `""`, `[]`, `{"a":1}`, `1.5`, `"true false"`)
	}
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	inner := ""
	switch t.Kind() {
	case reflect.String:
		b, _ := json.Marshal(a.ascii() + a.pick("", "\"", "\\", "é", "\n", "<"))
		inner = string(b)
	default:
		w := a.wrong
		a.wrong = 0
		if inner = a.doc(t, 0); inner == "null" {
			inner = "1"
			if t.Kind() == reflect.Bool {
				inner = "true"
			}
		}
		a.wrong = w
	}
	b, _ := json.Marshal(inner)
	return string(b)
}

func (a *aim) member(t reflect.Type, depth int) string {
	if q, ok := t.(quoted); ok {
		if a.p(6) {
			return "null"
		}
		return a.quotedDoc(q.Type)
	}
	if t == nil {
		return a.gen.doc(2)
	}
	return a.doc(t, depth)
}

func (a *aim) list(e reflect.Type, depth, n int) string {
	c := a.count()
	if n >= 0 {
		switch {
		case a.p(50):
			c = n
		case a.p(50):
			c = n + a.Intn(3)
		default:
			c = a.Intn(n + 1)
		}
	}
	if depth <= 0 && c > 2 {
		c = 2
	}
	if depth < -3 {
		c = 0
	}
	var b strings.Builder
	b.WriteString("[" + a.sp())
	for i := 0; i < c; i++ {
		if i > 0 {
			b.WriteString("," + a.sp())
		}
		x := a.doc(e, depth-1)
		if n >= 0 && i >= n && a.p(50) {
			x = a.other()
		}
		for k := 0; !a.nulls && n < 0 && x == "null" && e.Kind() != reflect.Interface; k++ {
			if x = a.doc(e, depth-1); k > 100 {
				return "[]"
			}
		}
		b.WriteString(x + a.sp())
	}
	b.WriteByte(']')
	return b.String()
}

func (a *aim) object(depth int, next func() (string, reflect.Type), isMap bool) string {
	c := a.count()
	if depth <= 0 && c > 2 {
		c = 2
	}
	if depth < -3 {
		c = 0
	}
	var b strings.Builder
	b.WriteString("{" + a.sp())
	var keys []string
	var types []reflect.Type
	for i := 0; i < c; i++ {
		if i > 0 {
			b.WriteString("," + a.sp())
		}
		k, t := next()
		if isMap && a.dups && len(keys) > 0 && a.p(20) {
			j := a.Intn(len(keys))
			k, t = keys[j], types[j]
		}
		keys, types = append(keys, k), append(types, t)
		b.WriteString(a.quoteAny(k) + a.sp() + ":" + a.sp() + a.member(t, depth-1) + a.sp())
	}
	b.WriteByte('}')
	return b.String()
}

func (a *aim) key(k reflect.Type) string {
	switch {
	case k == tKT || k == tKSM || k == tKSD || k == tKID:
		if a.p(a.wrong) {
			return "!bad"
		}
		return a.str1()
	case k.Kind() == reflect.String:
		return a.str1()
	case a.p(a.wrong) && a.p(50):
		if s := a.around(k.Bits()); s[0] != '-' || k.Kind() < reflect.Uint {
			return s
		}
		return "x"
	case a.p(a.wrong):
		return a.pick("x", "", "1.5", "1e2", "99999999999999999999", "-99999999999999999999", "true", "--1", "1x")
	}
	return a.intKey(k)
}

func (a *aim) intKey(k reflect.Type) string {
	if k.Kind() >= reflect.Uint && k.Kind() <= reflect.Uintptr {
		return strconv.FormatUint(a.uintBits(k.Bits()), 10)
	}
	return strconv.FormatInt(a.intBits(k.Bits()), 10)
}

func (a *aim) str1() string {
	if a.p(50) {
		return a.ascii()
	}
	return strings.ToValidUTF8(a.str(), "?")
}

// recase changes the case of letters.
func (a *aim) recase(s string) string {
	switch a.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	rs := []rune(s)
	for i, r := range rs {
		if !a.p(50) {
			continue
		}
		switch {
		case r == 'k' && a.p(50):
			rs[i] = '\u212a'
		case r == 's' && a.p(50):
			rs[i] = '\u017f'
		case r == 'σ' && a.p(50):
			rs[i] = 'ς'
		case r == 'ß' && a.p(50):
			rs[i] = 'ẞ'
		case strings.ToUpper(string(r)) != string(r):
			rs[i] = []rune(strings.ToUpper(string(r)))[0]
		default:
			rs[i] = []rune(strings.ToLower(string(r)))[0]
		}
	}
	return string(rs)
}

type jfield struct {
	name   string
	typ    reflect.Type
	quoted bool
}

// jsonFields lists candidate members (only to aim documents; the
// specification decides where they go).
func jsonFields(t reflect.Type) (fs []jfield) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		parts := strings.Split(tag, ",")
		if tag == "-" {
			if f.IsExported() {
				fs = append(fs, jfield{name: f.Name, typ: f.Type})
			}
			continue
		}
		et := f.Type
		if et.Kind() == reflect.Pointer {
			et = et.Elem()
		}
		if f.Anonymous && parts[0] == "" && et.Kind() == reflect.Struct {
			fs = append(fs, jsonFields(et)...)
			continue
		}
		if !f.IsExported() {
			continue
		}
		name := parts[0]
		if name == "" {
			name = f.Name
		}
		q := false
		for _, p := range parts[1:] {
			q = q || p == "string"
		}
		fs = append(fs, jfield{name, f.Type, q && quotableKind(f.Type)})
	}
	return fs
}

func quotableKind(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64:
		return true
	}
	return t.Kind() >= reflect.Int && t.Kind() <= reflect.Uintptr
}

// dupSafe: decoding into a variable of the type twice only depends on what
// the specification covers (reused slice elements are not).
func dupSafe(t reflect.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	switch t {
	case tNumber, tRaw, tTime, tUJ, tUT:
		return true
	}
	switch t.Kind() {
	case reflect.Pointer:
		return t.Elem().Kind() != reflect.Pointer && dupSafe(t.Elem(), depth+1)
	case reflect.Slice:
		k := t.Elem().Kind()
		return k <= reflect.Float64 || k == reflect.String || k == reflect.Interface || t.Elem() == tRaw || t.Elem() == tTime
	case reflect.Array, reflect.Map:
		return dupSafe(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !dupSafe(t.Field(i).Type, depth+1) {
				return false
			}
		}
	}
	return true
}

// ---- prior contents ----

// prior fills a variable with something to be overwritten or kept.
func (g *gen) prior(v reflect.Value, depth int) {
	t := v.Type()
	if !v.CanSet() || g.p(25) {
		return
	}
	switch t {
	case tNumber:
		v.SetString(g.numberText())
		return
	case tRaw:
		v.SetBytes([]byte(`{"old":1}`))
		return
	case tTime:
		v.Set(reflect.ValueOf(g.time()))
		return
	case tUJ:
		v.Set(reflect.ValueOf(UJ{Raw: []byte("old"), N: g.Intn(3)}))
		return
	case tUT:
		v.Set(reflect.ValueOf(UT{S: "old", N: g.Intn(3)}))
		return
	case tKT:
		v.Set(reflect.ValueOf(KT{"k" + g.ascii()}))
		return
	case tUV, tUVT:
		return // cannot be set; elements of a refilled slice start zeroed or not
	}
	if hasNoJSON(t) {
		switch t.Kind() {
		case reflect.Chan:
			v.Set(reflect.ValueOf(chanOfInt))
		case reflect.Func:
			v.Set(reflect.ValueOf(func() {}))
		case reflect.Map:
			v.Set(reflect.MakeMap(t))
		case reflect.UnsafePointer:
			v.SetPointer(unsafe.Pointer(g))
		default:
			v.SetComplex(1i)
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.p(60))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.intBits(t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(g.uintBits(t.Bits()))
	case reflect.Float32:
		v.SetFloat(float64(g.Intn(100)) / 4)
	case reflect.Float64:
		v.SetFloat(g.float())
	case reflect.String:
		v.SetString(g.ascii())
	case reflect.Interface:
		if t.NumMethod() > 0 {
			if g.p(50) && t == tNamer {
				p := &NamedP{}
				if g.p(25) {
					p = nil
				}
				v.Set(reflect.ValueOf(p))
			}
			return
		}
		if g.p(8) { // nil pointers are replaced
			v.Set(reflect.ValueOf([]interface{}{(*int)(nil), (*string)(nil), (*DEmb1)(nil), (**int)(nil), (*interface{})(nil)}[g.Intn(5)]))
			return
		}
		if g.p(50) {
			if x := []interface{}{g.ascii(), g.Intn(9), nil, map[string]interface{}{"o": 1.5}}[g.Intn(4)]; x != nil {
				v.Set(reflect.ValueOf(x))
			}
			return
		}
		if g.inArray > 0 {
			return // (the type of what an element points to has no place in the descriptor)
		}
		p := reflect.New([]reflect.Type{reflect.TypeOf(0), tString, reflect.TypeOf(DEmb1{}), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]int{}), tAny}[g.Intn(6)])
		if p.Elem().Type() != tAny {
			g.prior(p.Elem(), depth-1)
		}
		v.Set(p)
	case reflect.Pointer:
		if depth <= 0 || t.Elem().Kind() == reflect.Pointer {
			return
		}
		p := reflect.New(t.Elem())
		g.prior(p.Elem(), depth-1)
		v.Set(p)
	case reflect.Slice:
		k := t.Elem().Kind()
		if t.Elem() == tUJ || t.Elem() == tUT || k == reflect.Interface || !(k <= reflect.Float64 || k == reflect.String) {
			if g.p(30) {
				v.Set(reflect.MakeSlice(t, 0, 0))
			}
			return
		}
		n := g.Intn(4)
		s := reflect.MakeSlice(t, n, n+g.Intn(3))
		for i := 0; i < n; i++ {
			g.prior(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		g.inArray++
		for i := 0; i < v.Len(); i++ {
			g.prior(v.Index(i), depth-1)
		}
		g.inArray--
	case reflect.Map:
		if depth <= 0 {
			return
		}
		m := reflect.MakeMap(t)
		g.inArray++
		defer func() { g.inArray-- }()
		for i := g.Intn(3); i > 0; i-- {
			k := reflect.New(t.Key()).Elem()
			g.prior(k, 0)
			e := reflect.New(t.Elem()).Elem()
			g.prior(e, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.prior(v.Field(i), depth-1)
		}
	}
}

// ---- tables ----

var numRE = regexp.MustCompile(`-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?`)

func fltEntry(s string, bits int) M {
	f, err := strconv.ParseFloat(s, bits)
	if err != nil {
		return M{"ok": false}
	}
	n := fltD(f, bits)
	return M{"ok": true, "neg": n["neg"], "dg": n["dg"], "e": n["e"]}
}

func tables(m M, doc string) M {
	nums, times := A{}, A{}
	seen := map[string]bool{}
	for _, s := range numRE.FindAllString(doc, -1) {
		if !seen[s] {
			seen[s] = true
			nums = append(nums, M{"x": S(s), "f64": fltEntry(s, 64), "f32": fltEntry(s, 32)})
		}
	}
	// Numbers found outside strings only (a digit run may straddle one).
	for _, s := range numsOutside(doc) {
		if !seen[s] {
			seen[s] = true
			nums = append(nums, M{"x": S(s), "f64": fltEntry(s, 64), "f32": fltEntry(s, 32)})
		}
	}
	for _, s := range stringsOf(doc) {
		if seen[s] {
			continue
		}
		if d, err := time.ParseDuration(s[1 : len(s)-1]); err == nil {
			seen[s] = true
			times = append(times, M{"x": S(s), "w": M{"t": "int", "b": S(strconv.FormatInt(int64(d), 10))}})
			continue
		}
		if len(s) < 20 {
			continue
		}
		if t, err := time.Parse(time.RFC3339Nano, s[1:len(s)-1]); err == nil {
			seen[s] = true
			times = append(times, M{"x": S(s), "w": timeNode(t)})
		}
	}
	m["nums"], m["times"] = nums, times
	return m
}

// stringsOf returns the string literals.
func stringsOf(doc string) (out []string) {
	start := -1
	for i := 0; i < len(doc); i++ {
		switch {
		case start >= 0 && doc[i] == '\\':
			i++
		case doc[i] == '"' && start < 0:
			start = i
		case doc[i] == '"':
			out = append(out, doc[start:i+1])
			start = -1
		}
	}
	return out
}

// numsOutside returns the number literals outside of strings.
func numsOutside(doc string) (out []string) {
	in := false
	var b strings.Builder
	for i := 0; i < len(doc); i++ {
		c := doc[i]
		switch {
		case in && c == '\\':
			i++
		case c == '"':
			in = !in
			b.WriteByte(' ')
		case !in:
			b.WriteByte(c)
		}
	}
	return numRE.FindAllString(b.String(), -1)
}

// ---- decoding ----

type decOpts struct {
	num, dis, noci, zs, zn, zr bool
}

func (g *gen) decOpts(useNum, dis, noci, zero int) decOpts {
	return decOpts{num: g.p(useNum), dis: g.p(dis), noci: g.p(noci), zs: g.p(zero), zn: g.p(zero), zr: g.p(zero)}
}

func (o decOpts) flags() (f jc.ParseFlags) {
	if o.num {
		f |= jc.UseNumber
	}
	if o.dis {
		f |= jc.DisallowUnknownFields
	}
	if o.noci {
		f |= jc.DontMatchCaseInsensitiveStructFields
	}
	if o.zs {
		f |= jc.DontCopyString
	}
	if o.zn {
		f |= jc.DontCopyNumber
	}
	if o.zr {
		f |= jc.DontCopyRawMessage
	}
	return f
}

func (o decOpts) apply(d *jc.Decoder) {
	if o.num {
		d.UseNumber()
	}
	if o.dis {
		d.DisallowUnknownFields()
	}
	if o.noci {
		d.DontMatchCaseInsensitiveStructFields()
	}
	if o.zs && o.zn && o.zr {
		d.ZeroCopy()
		return
	}
	if o.zs {
		d.DontCopyString()
	}
	if o.zn {
		d.DontCopyNumber()
	}
	if o.zr {
		d.DontCopyRawMessage()
	}
}

func (o decOpts) put(m M) M {
	m["num"], m["dis"], m["ci"] = o.num, o.dis, !o.noci
	return m
}

// wholeDecode decodes a whole text by one of the entry points.
func (g *gen) wholeDecode(doc []byte, p interface{}, o decOpts) (err error) {
	how := g.Intn(3)
	if how == 2 && !json.Valid(doc) {
		how = 1
	}
	if how == 0 && o != (decOpts{}) {
		how = 1
	}
	switch how {
	case 0:
		return jc.Unmarshal(doc, p)
	case 1:
		r, err := jc.Parse(doc, p, o.flags())
		if err == nil && len(r) != 0 {
			err = fmt.Errorf("trailing data")
		}
		return err
	default:
		d := jc.NewDecoder(bytes.NewReader(doc))
		o.apply(d)
		if err := d.Decode(p); err != nil {
			return err
		}
		var x interface{}
		if err := d.Decode(&x); err != io.EOF {
			panic(fmt.Sprintf("no EOF after the document: %v", err))
		}
		return nil
	}
}

func (g *gen) decodeOp(rec *recorder, t reflect.Type, fill bool, doc string, o decOpts) M {
	v := reflect.New(t)
	if fill {
		g.prior(v.Elem(), 3)
	}
	ty := desc(t, 12, v.Elem())
	w0 := contents(v.Elem())
	b := []byte(doc)
	var err error
	rec.begin(fmt.Sprintf("decode %q into %s opts %+v", doc, t, o))
	pn := guard(func() { err = g.wholeDecode(b, v.Interface(), o) })
	return tables(o.put(M{"k": "dec", "b": S(doc), "ty": ty, "w0": w0, "w1": contents(v.Elem()), "err": err != nil,
		"pn": pn != "", "same": string(b) == doc}), doc)
}

func (g *gen) aim(wrong, unk, typos int) *aim {
	return &aim{gen: g, wrong: wrong, unk: unk, typos: typos, nulls: true, ws: g.picki(0, 0, 30)}
}

func (g *gen) maybeMutate(doc string, pct int) string {
	if g.p(pct) {
		return g.mutate(doc)
	}
	return doc
}

func genC10(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.fresh(60)
		g.wide = g.picki(0, 0, 10)
		g.huge = g.picki(0, 0, 0, 3)
		var doc string
		switch g.Intn(10) {
		case 0:
			doc = g.deepDoc(g.picki(5, 9, 20, 60))
		case 1:
			doc = g.strLit()
		case 2:
			doc = g.numberText()
			if g.p(50) {
				doc = strconv.FormatFloat(g.float(), "eEfg"[g.Intn(4)], -1, 64)
			}
			if g.p(15) {
				doc = g.pick("1e400", "-1e309", "1e-400", "123456789012345678901234567890", "0.1e1", "-0", "-0.0", "0e5", "2.2250738585072011e-308", "1.7976931348623159e308", "4.9e-324", "1e23", "8.5e22", "0."+strings.Repeat("0", 50)+"1", strings.Repeat("9", 60))
			}
		case 3: // a wide object with duplicates
			var b strings.Builder
			m := g.picki(3, 15, 30, 65, 70)
			b.WriteByte('{')
			for k := 0; k < m; k++ {
				if k > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, "%q:%s", g.pick("a", "b", "k")+strconv.Itoa(g.Intn(m)), g.scalarDoc())
			}
			b.WriteByte('}')
			doc = b.String()
		default:
			doc = g.ws(30) + g.doc(4) + g.ws(30)
		}
		t := tAny
		if g.p(8) {
			t = reflect.TypeOf(map[string]interface{}{})
		} else if g.p(8) {
			t = reflect.TypeOf([]interface{}{})
		}
		rec.trace(g.decodeOp(rec, t, g.p(20) && t == tAny, doc, g.decOpts(30, 10, 10, 20)))
	}
}

func genC11(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.fresh(60)
		g.wide = g.picki(0, 0, 10)
		g.huge = g.picki(0, 0, 0, 0, 3)
		t := g.decType(g.picki(0, 1, 1, 2, 3))
		a := g.aim(g.picki(0, 0, 0, 10, 25), 5, 0)
		fill := g.p(50)
		a.nulls = !fill
		doc := g.maybeMutate(a.sp()+a.doc(t, 3)+a.sp(), 5)
		rec.trace(g.decodeOp(rec, t, fill, doc, g.decOpts(15, 0, 0, 20)))
	}
}

// ifaceDoc is for interfaces that hold pointers to structs.
func (g *gen) ifaceDoc() string {
	x := g.pick(`{"B":"new"}`, `{"b":"new"}`, `{"B":"x","zzz":[1]}`, `{"zzz":{"B":1}}`, `{"bb":1}`, `{}`)
	y := g.pick(`{"E1":2}`, `{"e2":"x","zzz":[1]}`, `{"E3":{"B":1}}`, `{"S":"s","yy":1}`, `{}`, `{"a":1}`)
	return "{" + g.pick(`"N":`+x+`,"p":`+y, `"A":`+y+`,"N":`+x, `"N":`+x) + g.pick(``, ``, `,"M":1`) + "}"
}

func genC12(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.fresh(60)
		g.wide = 0
		t := decStructs[g.Intn(len(decStructs))]
		if g.p(50) {
			t = g.decStruct(2)
		}
		a := g.aim(g.picki(0, 0, 0, 8), g.picki(0, 10, 30), g.picki(0, 20, 60))
		fill := g.p(50)
		a.dups = g.p(40) && dupSafe(t, 0)
		a.nulls = !fill && !a.dups
		doc := g.maybeMutate(a.doc(t, 3), 3)
		o := g.decOpts(5, 20, 25, 10)
		if g.p(3) {
			t, doc = reflect.TypeOf(DIf{}), g.ifaceDoc()
			fill, o.dis = true, g.p(60)
		}
		rec.trace(g.decodeOp(rec, t, fill, doc, o))
	}
}

// ---- C09 ----

func (g *gen) grammarInput() string {
	g.fresh(40)
	g.wide = g.picki(0, 0, 8)
	d := ""
	switch g.Intn(12) {
	case 0:
		return badDocs[g.Intn(len(badDocs))]
	case 1:
		d = g.deepDoc(g.picki(3, 8, 9, 21, 100))
	case 2:
		d = g.strLit()
	case 3:
		d = g.numberText()
	case 4: // arbitrary token soup
		var b strings.Builder
		for i := g.Intn(9); i >= 0; i-- {
			b.WriteString(g.pick("{", "}", "[", "]", ",", ":", "\"a\"", "1", "-", "true", "null", " ", "false", "0", ".5", "e1", "\"", "\\"))
		}
		return b.String()
	case 5: // arbitrary bytes
		b := make([]byte, g.Intn(12))
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
		return string(b)
	case 6:
		x := badDocs[g.Intn(len(badDocs))]
		return g.pick("[", "{\"a\":", "[1,", "{\"a\":1,\"b\":", "[[[") + x + g.pick("]", "}", ",1]", "]]]")
	case 7: // control and other special bytes at all offsets of a string
		n := lens[g.Intn(len(lens))]
		b := []byte("\"" + strings.Repeat("s", n) + "\"")
		if n > 0 {
			b[1+g.Intn(n)] = byte(g.picki(0, 1, 8, 9, 10, 13, 31, 32, 34, 92, 127, 128, 255, 0x22))
		}
		d = string(b)
		if g.p(30) {
			d = "[" + d + ",{" + d + ":" + d + "}]"
		}
		return d
	default:
		d = g.ws(40) + g.doc(3) + g.ws(40)
	}
	switch g.Intn(5) {
	case 0, 1:
		return g.mutate(d)
	case 2:
		return d[:g.Intn(len(d)+1)]
	case 3:
		return d + g.pick(" x", "x", ",", "]", "}", " 1", "\x00", "\n\n", " ", "\v", "\f", "\u00a0", "\"", "null", "/")
	}
	return d
}

// accepts runs the acceptance deciders on one input.
func accepts(rec *recorder, in string) M {
	rec.begin(fmt.Sprintf("accept %q", in))
	b := []byte(in)
	m := M{"k": "accept", "b": S(in)}
	pn := ""
	run := func(f func() error) bool {
		ok := false
		if p := guard(func() { ok = f() == nil }); p != "" {
			pn = p
			if os.Getenv("VH_STACK") != "" {
				println(pn)
			}
		}
		return ok
	}
	m["valid"] = run(func() error {
		if !jc.Valid(b) {
			return errMarshal
		}
		return nil
	})
	var x interface{}
	m["any"] = run(func() error {
		r, err := jc.Parse(b, &x, jc.UseNumber)
		if err == nil && len(r) != 0 {
			err = errMarshal
		}
		return err
	})
	var raw jc.RawMessage
	m["raw"] = run(func() error { return jc.Unmarshal(b, &raw) })
	typed := A{}
	for _, p := range []interface{}{new(int), new(string), new(bool), new(float64), new([]int), new([]interface{}), new(map[string]interface{}), new(map[string]json.RawMessage), new([]byte),
		new(DEmb1), new(*DRec), new([2]interface{}), new(map[int]string), new(json.Number), new(time.Time), new(DG), new(UJ), new(UT), new([]string), new(uint64), new(DH), new(map[string]string), new(interface{}), new([]float64), new(struct{}), new([0]int)} {
		typed = append(typed, run(func() error { return jc.Unmarshal(b, p) }))
	}
	m["typed"] = typed
	// Streaming, parsing and tokenizing must survive as well.
	run(func() error {
		d := jc.NewDecoder(bytes.NewReader(b))
		for i := 0; i < len(b)+5; i++ {
			var v interface{}
			if d.Decode(&v) != nil {
				break
			}
		}
		return nil
	})
	run(func() error {
		t := jc.NewTokenizer(b)
		for i := 0; i < len(b)+10 && t.Next(); i++ {
			if t.Value.String() {
				t.Value.Unquote()
			}
		}
		return nil
	})
	run(func() error {
		for r := b; len(r) > 0; {
			var v interface{}
			rest, err := jc.Parse(r, &v, 0)
			if err != nil {
				break
			}
			r = rest
		}
		return nil
	})
	m["pn"] = pn != ""
	return m
}

func genC09(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		rec.trace(accepts(rec, g.grammarInput()))
	}
}
