package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// errMarshal is the error of failing marshalers, which claims to be any other
// but those that readers return, by which streams are judged.
var errMarshal error = ownErr{}

type ownErr struct{}

func (ownErr) Error() string { return "marshaler failed" }
func (ownErr) Is(err error) bool {
	return err != errOwn && err != io.EOF && err != io.ErrUnexpectedEOF
}

// noder is implemented by the harness types with custom marshalers: the
// abstract value (see Encode.tla) that the value stands for.
type noder interface{ node() M }

// Named types without methods.
type (
	NBool  bool
	NInt   int32
	NUint  uint16
	NStr   string
	NF32   float32
	NBytes []byte
	NSlice []int
	NMap   map[string]int
	NAny   interface{}
	NArr   [2]bool
	NMAny  map[string]interface{}
	NMRaw  map[string]json.RawMessage
	NMN    map[NStr]NAny
	NSAny  []interface{}
	NSN    []NAny
)

// MJ has a value receiver; Mode 1 fails, 2 returns nil.
type MJ struct {
	Out  []byte
	Mode int
}

func (m MJ) MarshalJSON() ([]byte, error) {
	reenter()
	switch m.Mode {
	case 1:
		return []byte(`{"partial":`), errMarshal
	case 2:
		return nil, nil
	case 3:
		panic(boom{})
	}
	return m.Out, nil
}

// boom is what marshalers panic with.
type boom struct{}

// guardOwn is guard, and tells if the panic is one of a marshaler.
func guardOwn(f func()) (pn string, own bool) {
	pn = guard(func() {
		defer func() {
			if x := recover(); x != nil {
				if own = x == interface{}(boom{}); !own {
					panic(x)
				}
			}
		}()
		f()
	})
	return pn, own
}

func (m MJ) node() M {
	switch m.Mode {
	case 3:
		return M{"t": "mjpan", "z": false}
	case 1:
		return M{"t": "mjerr", "z": false}
	case 2:
		return M{"t": "mjnil", "z": false}
	}
	if m.Out == nil {
		return M{"t": "mjnil", "z": false}
	}
	return M{"t": "mj", "b": B(m.Out), "z": false}
}

// MJStr is a marshaler of string kind: it is its own JSON.
type MJStr string

func (m MJStr) MarshalJSON() ([]byte, error) {
	reenter()
	if m == "" {
		return []byte(` "" `), nil
	}
	return []byte(m), nil
}

func (m MJStr) node() M {
	b, _ := m.MarshalJSON()
	return M{"t": "mj", "b": B(b), "z": len(m) == 0}
}

// MJMap is stored directly in interfaces.
type MJMap map[string]int

func (m MJMap) MarshalJSON() ([]byte, error) {
	reenter()
	return []byte(fmt.Sprintf(`{"n":%d}`, len(m))), nil
}

func (m MJMap) node() M {
	return M{"t": "mj", "b": S(fmt.Sprintf(`{"n":%d}`, len(m))), "z": len(m) == 0}
}

// MJWrap is a one-pointer struct (stored directly in interfaces).
type MJWrap struct{ P *int }

func (m MJWrap) MarshalJSON() ([]byte, error) {
	reenter()
	if m.P == nil {
		return []byte(`[ ]`), nil
	}
	return []byte(fmt.Sprintf(`[ %d ]`, *m.P)), nil
}

func (m MJWrap) node() M {
	b, _ := m.MarshalJSON()
	return M{"t": "mj", "b": B(b), "z": false}
}

// MJPtr has a pointer receiver.
type MJPtr struct {
	N   int
	bad bool
}

func (m *MJPtr) MarshalJSON() ([]byte, error) {
	if m.bad {
		return nil, errMarshal
	}
	return []byte(fmt.Sprintf(`{"viaPtr": %d}`, m.N)), nil
}

func (m MJPtr) node() M {
	own := M{"t": "mj", "b": S(fmt.Sprintf(`{"viaPtr": %d}`, m.N)), "z": false}
	if m.bad {
		own = M{"t": "mjerr", "z": false}
	}
	return M{"t": "pm", "m": own, "v": M{"t": "st", "f": A{field("N", "", M{"t": "int", "b": S(strconv.Itoa(m.N))})}}}
}

func field(name, tag string, v M) M {
	return M{"g": S(name), "tag": S(tag), "an": false, "ex": true, "es": false, "v": v}
}

// MT has a value receiver; Bad fails.
type MT struct {
	S   string
	Bad bool
}

func (m MT) MarshalText() ([]byte, error) {
	reenter()
	if m.Bad {
		return []byte("partial"), errMarshal
	}
	return []byte(m.S), nil
}

func (m MT) node() M {
	if m.Bad {
		return M{"t": "texterr", "z": false}
	}
	return M{"t": "text", "b": S(m.S), "z": false}
}

// MTInt is a text marshaler of integer kind.
type MTInt int

func (m MTInt) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("i%d", int(m))), nil }
func (m MTInt) node() M {
	return M{"t": "text", "b": S(fmt.Sprintf("i%d", int(m))), "z": m == 0}
}

// MTPtr has a pointer receiver.
type MTPtr struct {
	S   string
	bad bool
}

func (m *MTPtr) MarshalText() ([]byte, error) {
	if m.bad {
		return []byte("partial"), errMarshal
	}
	return []byte("p:" + m.S), nil
}

func (m MTPtr) node() M {
	own := M{"t": "text", "b": S("p:" + m.S), "z": false}
	if m.bad {
		own = M{"t": "texterr", "z": false}
	}
	return M{"t": "pm", "m": own, "v": M{"t": "st", "f": A{field("S", "", M{"t": "str", "b": S(m.S)})}}}
}

// MB is a byte with a marshaler: slices of it are arrays.
type MB byte

func (m MB) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"b%d"`, byte(m))), nil }
func (m MB) node() M {
	return M{"t": "mj", "b": S(fmt.Sprintf(`"b%d"`, byte(m))), "z": m == 0}
}

// MBP is a byte with a pointer receiver text marshaler.
type MBP byte

func (m *MBP) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("q%d", byte(*m))), nil }
func (m MBP) node() M {
	return M{"t": "pm", "m": M{"t": "text", "b": S(fmt.Sprintf("q%d", byte(m))), "z": m == 0}, "v": M{"t": "int", "b": S(strconv.Itoa(int(m)))}}
}

// MBJ is a byte with a pointer receiver marshaler, MBT one with a value
// receiver text marshaler.
type MBJ byte

func (m *MBJ) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("[%d]", byte(*m))), nil }
func (m MBJ) node() M {
	return M{"t": "pm", "m": M{"t": "mj", "b": S(fmt.Sprintf("[%d]", byte(m))), "z": m == 0}, "v": M{"t": "int", "b": S(strconv.Itoa(int(m)))}}
}

// MX and MBX have MarshalJSON by pointer and MarshalText by value, MY the
// other way round.
type (
	MX  struct{ N int }
	MBX byte
	MY  struct{ N int }
)

func (m *MX) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("{\"x\":%d}", m.N)), nil }
func (m MX) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("x%d", m.N)), nil }
func (m MX) node() M {
	return M{"t": "pm", "m": M{"t": "mj", "b": S(fmt.Sprintf("{\"x\":%d}", m.N)), "z": false}, "v": M{"t": "text", "b": S(fmt.Sprintf("x%d", m.N)), "z": false}}
}

func (m *MBX) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("[%d]", byte(*m))), nil }
func (m MBX) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("x%d", byte(m))), nil }
func (m MBX) node() M {
	return M{"t": "pm", "m": M{"t": "mj", "b": S(fmt.Sprintf("[%d]", byte(m))), "z": m == 0}, "v": M{"t": "text", "b": S(fmt.Sprintf("x%d", byte(m))), "z": m == 0}}
}

func (m MY) MarshalJSON() ([]byte, error)  { return []byte(fmt.Sprintf("{\"y\":%d}", m.N)), nil }
func (m *MY) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("y%d", m.N)), nil }
func (m MY) node() M {
	return M{"t": "mj", "b": S(fmt.Sprintf("{\"y\":%d}", m.N)), "z": false}
}

type MBT byte

func (m MBT) MarshalText() ([]byte, error) {
	if m == 255 {
		return nil, errMarshal
	}
	return []byte(fmt.Sprintf("t%d", byte(m))), nil
}
func (m MBT) node() M {
	if m == 255 {
		return M{"t": "texterr", "z": false}
	}
	return M{"t": "text", "b": S(fmt.Sprintf("t%d", byte(m))), "z": m == 0}
}

// Namer is a non-empty interface, implemented by values and pointers.
type Namer interface{ Name() string }

type NamedS struct{ A int }

func (NamedS) Name() string { return "s" }

type NamedM map[string]int

func (NamedM) Name() string { return "m" }

type NamedP struct{ B string }

func (*NamedP) Name() string { return "p" }

// MarshalNamer is an interface type that itself implies a marshaler.
type MarshalIface interface{ MarshalJSON() ([]byte, error) }
type TextIface interface{ MarshalText() ([]byte, error) }

// Map keys with text methods.
type KT struct{ S string }

func (k KT) MarshalText() ([]byte, error) {
	reenter()
	if strings.HasPrefix(k.S, "!bad") {
		return nil, errMarshal
	}
	return []byte(k.S), nil
}
func (k *KT) UnmarshalText(b []byte) error {
	reenter()
	if strings.HasPrefix(string(b), "!bad") {
		return errMarshal
	}
	k.S = string(b)
	return nil
}

type KTI int

func (k KTI) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("k%03d", int(k))), nil }
func (k *KTI) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "k"))
	*k = KTI(n)
	return err
}

// One-sided text keys.
type KTO struct{ S string }

func (k KTO) MarshalText() ([]byte, error) { return []byte("o" + k.S), nil }
func (k KTO) node() M                      { return M{"t": "text", "b": S("o" + k.S), "z": false} }

// Keys of string and integer kinds with one or both of the methods: strings are
// encoded as they are, integers by MarshalText if they have it; both decode by
// UnmarshalText if they have it.
type (
	KSM string // both
	KSE string // MarshalText
	KSD string // UnmarshalText
	KIE int    // MarshalText
	KID int    // UnmarshalText
)

func (k KSM) MarshalText() ([]byte, error) { return []byte("ksm:" + k), nil }
func (k KSE) MarshalText() ([]byte, error) { return nil, errMarshal }
func (k KIE) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("kie%d", int(k))), nil }
func (k *KSM) UnmarshalText(b []byte) error {
	*k = "T" + KSM(b)
	return badKey(b)
}
func (k *KSD) UnmarshalText(b []byte) error {
	*k = "T" + KSD(b)
	return badKey(b)
}
func (k *KID) UnmarshalText(b []byte) error {
	*k = KID(len(b))
	return badKey(b)
}

func badKey(b []byte) error {
	reenter()
	if strings.HasPrefix(string(b), "!bad") {
		return errMarshal
	}
	return nil
}

// Text keys that are one pointer in size.
type KTP struct{ S string }

func (k *KTP) MarshalText() ([]byte, error) {
	reenter()
	if strings.HasPrefix(k.S, "!bad") {
		return nil, errMarshal
	}
	return []byte("kp:" + k.S), nil
}

type KTW struct{ p *string }

func (k KTW) MarshalText() ([]byte, error) {
	reenter()
	if strings.HasPrefix(*k.p, "!bad") {
		return []byte("x"), errMarshal
	}
	return []byte(*k.p + "\""), nil
}

// Recursive types.
type (
	Tree  []Tree
	RMap  map[string]RMap
	RNode struct {
		V    int
		Next *RNode           `json:"next,omitempty"`
		Kids []RNode          `json:"kids"`
		M    map[string]RNode `json:"m,omitempty"`
		PP   **RNode          `json:",omitempty"`
	}
	RPtr  *RPtr
	RMut1 struct {
		A  int
		To *RMut2
	}
	RMut2 struct {
		B    string
		Back []RMut1
	}
)

// Embedding.
type (
	embU struct {
		U1 int
		U2 string `json:"u2,omitempty"`
	}
	EmbE struct {
		E1 int `json:"e1"`
		X  string
	}
	EmbF struct {
		F1 bool
		X  string
	}
	EmbTag struct {
		X string `json:"X"`
		Y int
	}
	EmbDeep struct {
		EmbE
		D1 float64
	}
	EmbPtrDeep struct {
		*EmbE
		D2 *int `json:",omitempty"`
	}
	EmbInt  int
	embInt  int
	EmbMk   struct{ MJPtr }
	EmbOmit struct {
		O1 []int          `json:"o1,omitempty"`
		O2 map[string]int `json:",omitempty"`
		O3 *string        `json:"o3,omitempty"`
		O4 MJPtr
	}

	EmbHT struct {
		H1 int    `json:"<h1>"`
		H2 string `json:"a&b,omitempty"`
		H3 *int   `json:"x>"`
	}
	EmbHD struct {
		*EmbHT
		H4 bool `json:"h<4"`
	}

	StMX struct {
		A MX
		B *MX   `json:"b,omitempty"`
		C []MX  `json:"c"`
		D [2]MX `json:"d"`
		E map[string]MX
		F MBX `json:",omitempty"`
		G []MBX
		H [2]MBX
		I []MY
		J interface{} `json:",omitempty"`
	}
	StHT struct {
		EmbHT
		A int
	}
	StHD struct {
		A int `json:"<a"`
		*EmbHD
	}
	StA struct {
		embU
		EmbE
		A int
	}
	StB struct {
		*EmbE
		B []string `json:"b,omitempty"`
		*EmbF
	}
	StC struct {
		EmbE
		EmbF // X is ambiguous
		C    int
	}
	StD struct {
		EmbE
		EmbTag // tagged X wins
		EmbInt
	}
	StE struct {
		X int // hides all
		EmbE
		*EmbTag
		embInt
	}
	StF struct {
		*EmbDeep
		Z int `json:"-"`
		W int `json:"-,"`
		*EmbPtrDeep
	}
	StG struct {
		EmbE    `json:"named"`
		*EmbF   `json:"pf,omitempty"`
		Any     interface{} `json:"any,omitempty"`
		private int
		Pub     NStr `json:"x<&>y"`
	}
	StH struct {
		*EmbOmit
		EmbPtrDeep
		L MJPtr
		T MTPtr
		P *MJPtr
	}
	StI struct {
		A1 int     `json:"a,string"`
		A2 *int64  `json:",string"`
		A3 float64 `json:"f,omitempty,string"`
		A4 string  `json:"s,string"`
		A5 *bool   `json:"b,string,omitempty"`
		A6 []int   `json:"l,string"`
		A7 uint8   `json:"u,string"`
		A8 *string `json:"ps,string"`
		A9 **int   `json:"pp,string"`
	}
	StJ struct {
		EmbDeep
		E1 string `json:"e1"`
		D1 *int
	}
	StPtr  struct{ P *int }           // one pointer
	StPtr1 struct{ P *MJPtr }         // one pointer to a marshaler
	StMap1 struct{ M map[string]int } // one map
	Arr1P  [1]*int
	Arr1M  [1]map[string]bool
	StIf   struct {
		A interface{} `json:"a,omitempty"`
		N Namer       `json:"n,omitempty"`
		J MarshalIface
		T TextIface
	}
	Empty struct{}
	StEmp struct {
		E  Empty
		P  *Empty
		Ar [0]int `json:"ar,omitempty"`
		As [2]int `json:"as,omitempty"`
		S  Empty  `json:"s,omitempty"`
	}
	StOm struct { // every kind of field that can be empty
		I   int                    `json:",omitempty"`
		I8  int8                   `json:",omitempty"`
		I16 int16                  `json:",omitempty"`
		I32 int32                  `json:",omitempty"`
		I64 int64                  `json:",omitempty"`
		U   uint                   `json:",omitempty"`
		U8  uint8                  `json:",omitempty"`
		U16 uint16                 `json:",omitempty"`
		U32 uint32                 `json:",omitempty"`
		U64 uint64                 `json:",omitempty"`
		UP  uintptr                `json:",omitempty"`
		F32 float32                `json:",omitempty"`
		F64 float64                `json:",omitempty"`
		B   bool                   `json:",omitempty"`
		S   string                 `json:",omitempty"`
		BS  []byte                 `json:",omitempty"`
		N   json.Number            `json:",omitempty"`
		T   time.Time              `json:",omitempty"`
		D   time.Duration          `json:",omitempty"`
		P   *int64                 `json:",omitempty"`
		PP  **bool                 `json:",omitempty"`
		L   []int64                `json:",omitempty"`
		LL  [][]int                `json:",omitempty"`
		M   map[string]int64       `json:",omitempty"`
		A   interface{}            `json:",omitempty"`
		Ar  [1]int64               `json:",omitempty"`
		A0  [0]string              `json:",omitempty"`
		MA  map[string]interface{} `json:",omitempty"`
		Z   int
	}
	StUni struct {
		A int `json:"é"`
		B int `json:"naïve field"`
		C int `json:"$%-/"`
		D int `json:"in\\valid"`
		E int `json:"日本"`
		Ф int
	}
)

var structTypes = []reflect.Type{
	reflect.TypeOf(StA{}), reflect.TypeOf(StB{}), reflect.TypeOf(StC{}), reflect.TypeOf(StD{}),
	reflect.TypeOf(StE{}), reflect.TypeOf(StF{}), reflect.TypeOf(StG{}), reflect.TypeOf(StH{}),
	reflect.TypeOf(StI{}), reflect.TypeOf(StJ{}), reflect.TypeOf(StPtr{}), reflect.TypeOf(StPtr1{}),
	reflect.TypeOf(StMap1{}), reflect.TypeOf(StIf{}), reflect.TypeOf(Empty{}), reflect.TypeOf(StEmp{}),
	reflect.TypeOf(StUni{}), reflect.TypeOf(StHT{}), reflect.TypeOf(StMX{}), reflect.TypeOf(StHD{}), reflect.TypeOf(StOm{}), reflect.TypeOf(RNode{}), reflect.TypeOf(RMut1{}), reflect.TypeOf(EmbPtrDeep{}),
}

var otherTypes = []reflect.Type{
	reflect.TypeOf(Tree{}), reflect.TypeOf(RMap{}), reflect.TypeOf(Arr1P{}), reflect.TypeOf(Arr1M{}),
	reflect.TypeOf(NSlice{}), reflect.TypeOf(NMap{}), reflect.TypeOf(NArr{}), reflect.TypeOf(NMAny{}), tNAny, reflect.TypeOf(NMN{}), reflect.TypeOf(NSAny{}), reflect.TypeOf(NSN{}), reflect.TypeOf(RPtr(nil)),
}

var plainMarshalers = []reflect.Type{
	reflect.TypeOf(MT{}), reflect.TypeOf(MTInt(0)), reflect.TypeOf(MTPtr{}), reflect.TypeOf(MB(0)), reflect.TypeOf(MBP(0)), reflect.TypeOf(MBT(0)),
}

var jsonMarshalers = []reflect.Type{
	reflect.TypeOf(MJ{}), reflect.TypeOf(MJStr("")), reflect.TypeOf(MJMap{}), reflect.TypeOf(MJWrap{}), reflect.TypeOf(MJPtr{}), reflect.TypeOf(MBJ(0)), reflect.TypeOf(MX{}), reflect.TypeOf(MBX(0)), reflect.TypeOf(MY{}),
}

var (
	tAny      = reflect.TypeOf((*interface{})(nil)).Elem()
	tNAny     = reflect.TypeOf((*NAny)(nil)).Elem()
	tNumber   = reflect.TypeOf(json.Number(""))
	tRaw      = reflect.TypeOf(json.RawMessage(nil))
	tTime     = reflect.TypeOf(time.Time{})
	tDur      = reflect.TypeOf(time.Duration(0))
	tBytes    = reflect.TypeOf([]byte(nil))
	tString   = reflect.TypeOf("")
	tNoder    = reflect.TypeOf((*noder)(nil)).Elem()
	tTextM    = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	tNamer    = reflect.TypeOf((*Namer)(nil)).Elem()
	tMIface   = reflect.TypeOf((*MarshalIface)(nil)).Elem()
	tTIface   = reflect.TypeOf((*TextIface)(nil)).Elem()
	basicType = []reflect.Type{
		reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)),
		reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)),
		reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), tString, tString, tBytes, tNumber, tTime, tDur,
		reflect.TypeOf(NBool(false)), reflect.TypeOf(NInt(0)), reflect.TypeOf(NUint(0)), reflect.TypeOf(NStr("")),
		reflect.TypeOf(NF32(0)), reflect.TypeOf(NBytes(nil)),
	}
)

// project maps a Go value to its abstract value.
func project(v reflect.Value) M {
	if !v.IsValid() {
		return M{"t": "nil"}
	}
	t := v.Type()
	k := t.Kind()
	if k == reflect.Interface || k == reflect.Pointer {
		if v.IsNil() {
			return M{"t": "nil"}
		}
		if k == reflect.Pointer {
			return M{"t": "ptr", "v": project(v.Elem())}
		}
		return M{"t": "if", "v": project(v.Elem())}
	}
	if t.Implements(tNoder) && v.CanInterface() {
		return v.Interface().(noder).node()
	}
	switch t {
	case tNumber:
		return M{"t": "num", "b": S(v.String())}
	case tRaw:
		if v.IsNil() {
			return M{"t": "nil"}
		}
		return M{"t": "raw", "b": B(append([]byte{}, v.Bytes()...))}
	case tTime:
		return timeNode(v.Interface().(time.Time))
	}
	switch k {
	case reflect.Bool:
		return M{"t": "bool", "v": v.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return M{"t": "int", "b": S(strconv.FormatInt(v.Int(), 10))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return M{"t": "int", "b": S(strconv.FormatUint(v.Uint(), 10))}
	case reflect.Float32:
		return floatNode(v.Float(), 32)
	case reflect.Float64:
		return floatNode(v.Float(), 64)
	case reflect.String:
		return M{"t": "str", "b": S(v.String())}
	case reflect.Slice:
		if v.IsNil() {
			return M{"t": "nil"}
		}
		if t.Elem().Kind() == reflect.Uint8 && !t.Elem().Implements(tNoder) {
			return M{"t": "bytes", "b": B(append([]byte{}, v.Bytes()...))}
		}
		fallthrough
	case reflect.Array:
		a := make(A, v.Len())
		for i := range a {
			a[i] = project(v.Index(i))
		}
		return M{"t": "arr", "a": a, "sl": k == reflect.Slice}
	case reflect.Map:
		if t.Key().Kind() == reflect.Float64 {
			return M{"t": "bad", "z": v.Len() == 0}
		}
		if v.IsNil() {
			return M{"t": "nil"}
		}
		m := A{}
		for _, key := range sortedKeys(v) {
			kt, kerr := keyText(key)
			m = append(m, M{"k": S(kt), "e": kerr, "v": project(v.MapIndex(key))})
		}
		return M{"t": "map", "m": m}
	case reflect.Struct:
		return M{"t": "st", "f": structFields(v)}
	}
	return M{"t": "bad", "z": false}
}

func structFields(v reflect.Value) A {
	t := v.Type()
	fs := A{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ft := f.Type
		es := ft.Kind() == reflect.Struct || (ft.Kind() == reflect.Pointer && ft.Elem().Kind() == reflect.Struct)
		var n M
		fv := v.Field(i)
		switch {
		case !f.IsExported() && !f.Anonymous:
			n = M{"t": "bad", "z": false}
		case !f.IsExported() && !es:
			n = M{"t": "bad", "z": false}
		case f.Anonymous && ft.Kind() == reflect.Pointer && es && fv.IsNil():
			n = M{"t": "nilst", "v": project(reflect.Zero(ft.Elem()))}
			if strings.Split(f.Tag.Get("json"), ",")[0] != "" {
				n = M{"t": "nil"}
			}
		default:
			n = project(fv)
		}
		fs = append(fs, M{"g": S(f.Name), "tag": S(f.Tag.Get("json")), "an": f.Anonymous, "ex": f.IsExported(), "es": es, "v": n})
	}
	return fs
}

func keyText(k reflect.Value) (string, bool) {
	if k.Kind() == reflect.String {
		return k.String(), false
	}
	if k.Type().Implements(tTextM) {
		b, err := k.Interface().(encoding.TextMarshaler).MarshalText()
		return string(b), err != nil
	}
	switch k.Kind() {
	case reflect.String:
		return k.String(), false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(k.Int(), 10), false
	default:
		return strconv.FormatUint(k.Uint(), 10), false
	}
}

// sortedKeys returns the keys in a fixed order (so that runs are repeatable).
func sortedKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	text := func(k reflect.Value) string { return fmt.Sprintf("%T%v", k.Interface(), k.Interface()) }
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && text(ks[j]) < text(ks[j-1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func floatNode(f float64, bits int) M {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return M{"t": "badflt"}
	}
	s := strconv.FormatFloat(math.Abs(f), 'e', -1, bits)
	i := strings.IndexByte(s, 'e')
	e, err := strconv.Atoi(s[i+1:])
	check(err)
	return M{"t": "flt", "neg": math.Signbit(f), "d": S(strings.Replace(s[:i], ".", "", 1)), "e": e}
}

func timeNode(t time.Time) M {
	_, off := t.Zone()
	if y := t.Year(); y < 0 || y > 9999 || off <= -24*3600 || off >= 24*3600 {
		return M{"t": "badtime"} // RFC 3339 has no text for it
	}
	return M{"t": "time", "y": t.Year(), "mo": int(t.Month()), "d": t.Day(), "h": t.Hour(), "mi": t.Minute(), "s": t.Second(), "ns": t.Nanosecond(), "off": off / 60, "z": off == 0}
}
