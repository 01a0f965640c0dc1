package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// gen makes random Go types and values.
type gen struct {
	*rng
	simple   bool // strings, numbers: plain ones only
	marshal  bool // allow custom marshalers
	raw      bool // allow raw messages
	bad      int  // percentage of failing leaves
	oneEntry bool // maps have at most one entry
	wide     int  // percentage of oversized containers
	budget   int  // remaining nodes
	huge     int  // percentage of numbers beyond the range of floats
	html     int  // percentage of strings with HTML-significant characters
	nofloat  bool // no floats in untyped values
	inArray  int  // inside array elements
}

// ---- scalars ----

var strAlphabets = []string{
	"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-",
	"a<b>c&d",
	"a\"b\\c/d",
	"\x00\x01\x08\x0c\n\r\t\x1b\x1f\x7f x",
}

var strPieces = []string{
	"\u2028", "\u2029", "\u2027", "\u202a", "é", "ß", "日本語", "😀", "\U0010ffff", "\ufffd", "\u00a0", "İ", "K", "ſ", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000",
	"\xff", "\xc0\x80", "\xed\xa0\x80", "\xe2\x80", "\xe2", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\x80", "\xc3", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xc1\xbf",
	"\\", "\"", "\\u0041", "\\n", "<", ">", "&", "</script>", "\x00", "\x1f", "\n", "\t", "\r", "\b", "\f", "\x7f", "\x1b[31m", " ", "/", "null",
}

// boundary lengths: where word-at-a-time code changes course.
var lens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129}

func (g *gen) str() string {
	if g.simple {
		n := g.Intn(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(strAlphabets[0][g.Intn(len(strAlphabets[0]))])
		}
		s := b.String()
		if g.p(g.html) {
			s += g.pick("<", ">", "&", "\u2028", "\u2029", "\"", "\\", "é", "\n")
		}
		return s
	}
	switch g.Intn(10) {
	case 0: // one special at a chosen offset of plain text
		n := lens[g.Intn(len(lens))]
		s := strings.Repeat("x", n)
		i := g.Intn(n + 1)
		return s[:i] + strPieces[g.Intn(len(strPieces))] + s[i:]
	case 1:
		n := g.Intn(20)
		al := strAlphabets[g.Intn(len(strAlphabets))]
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(al[g.Intn(len(al))])
		}
		return b.String()
	case 2, 3:
		n := g.Intn(8)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(strPieces[g.Intn(len(strPieces))])
			if g.p(30) {
				b.WriteByte(byte('a' + g.Intn(26)))
			}
		}
		return b.String()
	case 4: // arbitrary bytes
		b := make([]byte, g.Intn(20))
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
		return string(b)
	case 5: // two specials in plain text
		n := lens[g.Intn(len(lens))]
		b := []byte(strings.Repeat("y", n))
		for k := 0; k < 2 && n > 0; k++ {
			b[g.Intn(n)] = "\"\\<>&\n\x00\x80\xff\x7f\x1f\x20"[g.Intn(12)]
		}
		return string(b)
	default:
		n := lens[g.Intn(len(lens)*2/3)]
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(strAlphabets[0][g.Intn(len(strAlphabets[0]))])
		}
		return b.String()
	}
}

// ascii returns a short plain string.
func (g *gen) ascii() string {
	n := 1 + g.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = strAlphabets[0][g.Intn(52)]
	}
	return string(b)
}

func (g *gen) intBits(bits int) int64 {
	min, max := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	switch g.Intn(9) {
	case 0:
		return 0
	case 8: // the low bits are zero
		n := int64(g.Intn(7)-3) << uint(g.Intn(bits))
		return n << (64 - bits) >> (64 - bits)
	case 1:
		return min + int64(g.Intn(3))
	case 2:
		return max - int64(g.Intn(3))
	case 3:
		n := int64(1)
		for i := g.Intn(19); i > 0; i-- {
			n *= 10
		}
		n += int64(g.Intn(3)) - 1
		if g.p(50) {
			n = -n
		}
		return n << (64 - bits) >> (64 - bits)
	case 4:
		return int64(g.Uint64()) >> (64 - bits)
	default:
		n := int64(g.Intn(2000) - 1000)
		if n < min || n > max {
			return int64(g.Intn(100))
		}
		return n
	}
}

func (g *gen) uintBits(bits int) uint64 {
	max := ^uint64(0) >> (64 - bits)
	switch g.Intn(8) {
	case 0:
		return 0
	case 7:
		return uint64(1+g.Intn(3)) << uint(g.Intn(bits)) & max
	case 1:
		return max - uint64(g.Intn(3))
	case 2:
		n := uint64(1)
		for i := g.Intn(20); i > 0; i-- {
			n *= 10
		}
		return (n + uint64(g.Intn(3)) - 1) & max
	case 3:
		return g.Uint64() >> (64 - bits)
	default:
		return uint64(g.Intn(200))
	}
}

var floatEdges = []float64{
	0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1.5, 100, 1e5, 123456789, 1e-5, 1e-6, 1.5e-6, 9.99999e-7, 1e-7, 1.25e-7, 1e-9, 1e-10, 1.5e-10, 1e-99, 1e-100,
	1e20, 1e21, 1.5e21, 123456789012345678901234567890, 9.999999999999999e20, 999999999999999900000, 1e22, 1e100, 1e99, 5e-324, math.MaxFloat64, math.SmallestNonzeroFloat64,
	math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, 1<<53 + 2, 0.3, 1.0 / 3, 2.5e-8, 3.4028235e38, 16777216, 16777217, 9007199254740993, 2147483648, 1e15, 1e16, 1e17, 12345.678,
}

func (g *gen) float() float64 {
	switch g.Intn(6) {
	case 0, 1:
		f := floatEdges[g.Intn(len(floatEdges))]
		if g.p(30) {
			f = -f
		}
		return f
	case 2:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%d.%de%d", g.Intn(10), g.Intn(100000), g.Intn(60)-30), 64)
		return f
	case 3:
		for {
			f := math.Float64frombits(g.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 4:
		return float64(g.Intn(2000)-1000) / 8
	default:
		f, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", g.Intn(50)-20), 64)
		return f
	}
}

func (g *gen) numberText() string {
	if g.p(50) {
		return strconv.FormatInt(g.intBits(64), 10)
	}
	s := ""
	if g.p(40) {
		s = "-"
	}
	if g.p(30) {
		s += "0"
	} else {
		s += strconv.Itoa(1 + g.Intn(99))
		if g.p(20) {
			s += strings.Repeat("7", g.Intn(30))
		}
	}
	if g.p(50) {
		s += "." + strconv.Itoa(g.Intn(1000)) + strings.Repeat("0", g.Intn(3))
	}
	if g.p(40) {
		s += g.pick("e", "E") + g.pick("", "+", "-") + strconv.Itoa(g.Intn(30))
	}
	return s
}

var badNumbers = []string{"-", "+1", "01", "-01", "1.", ".5", "1e", "1e+", "1.e1", "0x10", "1 ", " 1", "1,2", "NaN", "Infinity", "1e5.", "--1", "1-", "1a", "true", "null", "\"1\"", "1\n", "1.2.3", "1e1e1", "00", "-a", "1_0", "١"}

func (g *gen) number() json.Number {
	if g.p(g.bad) {
		return json.Number(badNumbers[g.Intn(len(badNumbers))])
	}
	if g.p(5) {
		return ""
	}
	return json.Number(g.numberText())
}

func (g *gen) time() time.Time {
	zones := []int{0, 0, 60, -60, 330, -570, 845, -720, 840, 1, -1}
	var loc *time.Location = time.UTC
	if off := zones[g.Intn(len(zones))]; off != 0 || g.p(30) {
		loc = time.FixedZone("", off*60)
	}
	ns := 0
	switch g.Intn(5) {
	case 0:
		ns = g.Intn(1e9)
	case 1:
		ns = g.Intn(1000) * 1e6
	case 2:
		ns = g.Intn(1000)
	case 3:
		ns = g.Intn(1000000) * 1000
	}
	y := g.picki(1, 1, 999, 1969, 1970, 2000, 2024, 2038, 9998, 9999)
	return time.Date(y, time.Month(1+g.Intn(12)), 1+g.Intn(28), g.Intn(24), g.Intn(60), g.Intn(60), ns, loc)
}

// timeEnc also gives times that only the encoder can be asked about: zones
// that are not whole minutes, and (as errors) times outside RFC 3339.
func (g *gen) timeEnc() time.Time {
	t := g.time()
	if g.p(g.bad) {
		if g.p(50) {
			return t.AddDate(g.picki(10000, 12345, 99999, -1, -5000)-t.Year(), 0, 0)
		}
		return t.In(time.FixedZone("", g.picki(24*3600, -24*3600, 100*3600, -30*3600-60)))
	}
	if g.p(10) {
		t = t.In(time.FixedZone("LMT", g.picki(30, -30, 1172, -17762, 59, -59, 23*3600+3599, 3599)))
		if t.Year() < 0 || t.Year() > 9999 {
			t = g.time()
		}
	}
	return t
}

func (g *gen) bytes() []byte {
	n := lens[g.Intn(len(lens)*2/3)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Intn(256))
	}
	return b
}

// ---- documents (text) ----

var wsPieces = []string{"", "", "", " ", "\n", "\t", "\r", "  ", " \n\t\r ", "\r\n"}

func (g *gen) ws(pct int) string {
	if g.p(pct) {
		return wsPieces[g.Intn(len(wsPieces))]
	}
	return ""
}

// strLit makes a string literal with random escaping choices.
func (g *gen) strLit() string {
	if g.simple {
		b, _ := json.Marshal(g.str())
		return string(b)
	}
	var b strings.Builder
	b.WriteByte('"')
	switch g.Intn(4) {
	case 0: // pieces
		n := g.Intn(7)
		for i := 0; i < n; i++ {
			b.WriteString(litPieces[g.Intn(len(litPieces))])
		}
	case 1: // one piece at an offset
		n := lens[g.Intn(len(lens))]
		i := g.Intn(n + 1)
		b.WriteString(strings.Repeat("z", i))
		b.WriteString(litPieces[g.Intn(len(litPieces))])
		b.WriteString(strings.Repeat("z", n-i))
	case 2:
		n := lens[g.Intn(len(lens)*2/3)]
		for i := 0; i < n; i++ {
			b.WriteByte(strAlphabets[0][g.Intn(len(strAlphabets[0]))])
		}
	default:
		b.WriteString(g.ascii())
	}
	b.WriteByte('"')
	return b.String()
}

var litPieces = []string{
	`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0000`, `\u001f`, `\u0041`, `\u00e9`, `\u00E9`, `\u2028`, `\u2029`, `\ud83d\ude00`, `\uD83D\uDE00`, `\ud83d`, `\ude00`, `\ude00\ud83d`, `\ud83d\ud83d\ude00`,
	`\ud83dx`, `\ud83d\n`, `\ud800\u0041`, `\uffff`, `\ufffd`, `\udbff\udfff`, `\u007f`, `\u003c`, `\\u0041`, `\\\"`, `\\\\`,
	"é", "日", "😀", "\u2028", "\u2029", "<", ">", "&", "/", "\x7f", "a", "b", "xyz", "\xff", "\xc0", "\xed\xa0\x80", "\xe2\x80", "\xf0\x9f", "\x80",
}

func (g *gen) scalarDoc() string {
	if g.p(g.huge) {
		return g.pick("1e400", "-1e309", "1.8e308", "1E+999")
	}
	switch g.Intn(6) {
	case 0:
		return g.pick("null", "true", "false")
	case 1, 2:
		return g.numberText()
	default:
		return g.strLit()
	}
}

// doc makes a valid document.
func (g *gen) doc(depth int) string {
	g.budget--
	if depth <= 0 || g.budget <= 0 || g.p(35) {
		return g.scalarDoc()
	}
	w := 0
	if !g.p(50) {
		w = 40
	}
	n := g.Intn(4)
	if g.p(g.wide) {
		n = g.picki(9, 10, 11, 12, 20, 21, 40, 65)
		depth = 0
	}
	var b strings.Builder
	if g.p(50) {
		b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(g.ws(w) + g.doc(depth-1) + g.ws(w))
		}
		if n == 0 {
			b.WriteString(g.ws(w))
		}
		b.WriteByte(']')
		return b.String()
	}
	b.WriteByte('{')
	var keys []string
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		k := g.strLit()
		if len(keys) > 0 && g.p(15) {
			k = keys[g.Intn(len(keys))]
		}
		keys = append(keys, k)
		b.WriteString(g.ws(w) + k + g.ws(w) + ":" + g.ws(w) + g.doc(depth-1) + g.ws(w))
	}
	if n == 0 {
		b.WriteString(g.ws(w))
	}
	b.WriteByte('}')
	return b.String()
}

// wideDoc has many members.
func (g *gen) wideDoc() string {
	n := g.picki(31, 32, 33, 63, 64, 65, 66, 80, 100, 127, 129)
	var b strings.Builder
	obj := g.p(65)
	b.WriteString(map[bool]string{true: "{", false: "["}[obj])
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString("," + g.pick("", "", "", " "))
		}
		if obj {
			b.WriteString(strconv.Quote(g.ascii()) + ":")
		}
		b.WriteString(g.pick("1", "\"x\"", "[]", "{}", "null", "[2]", "{\"k\":true}", "-1.5"))
	}
	b.WriteString(map[bool]string{true: "}", false: "]"}[obj])
	return b.String()
}

// deepDoc nests n containers.
func (g *gen) deepDoc(n int) string {
	var open, shut string
	for i := 0; i < n; i++ {
		switch g.Intn(4) {
		case 0:
			open, shut = open+"{\"k\":", "}"+shut
		case 1:
			open, shut = open+"[1,", "]"+shut
		case 2:
			open, shut = open+"{\"a\":[],\"b\":", ",\"c\":{}}"+shut
		default:
			open, shut = open+"[", "]"+shut
		}
	}
	return open + g.scalarDoc() + shut
}

// mutate damages a document.
func (g *gen) mutate(s string) string {
	b := []byte(s)
	for k := 1 + g.Intn(2); k > 0; k-- {
		if len(b) == 0 {
			return g.pick("", "{", "x", "]")
		}
		i := g.Intn(len(b))
		switch g.Intn(7) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b = append(b[:i], append([]byte(g.pick(",", ":", "]", "}", "[", "{", "\"", "\\", "0", "-", "e", ".", "t", " ", "\x00", "x", "1", "\n", "+", "null")), b[i:]...)...)
		case 2:
			b[i] = byte(g.Intn(256))
		case 3:
			b = b[:i]
		case 4:
			b = append(b, b[i:]...)
		case 5:
			j := g.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		default:
			b[i] = ",:]}[{\"\\0-e.t fn"[g.Intn(16)]
		}
	}
	return string(b)
}

var badDocs = []string{"", " ", "{", "}", "[", "]", "[1,]", "[,1]", "[1 2]", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{,}", "{a:1}", "{\"a\":1 \"b\":2}", "nul", "tru", "fals", "nulll", "truex", "01", "-", "1.", "1e", "\"abc", "\"\\x\"", "\"\\u12\"", "\"\x01\"", "[1]]", "{}{}", "1 2", "{1:2}", "[1}", "{\"a\":1]", "'a'", "+1", ".5", "NaN", "\xef\xbb\xbf1", "[\"a\",\"b\"", "\"a\"\"b\"", "nullnull", "/**/1", "\"\\ud83d", "\\", "[[", "{\"\":{", ":", ",", "1,", "\"\t\"", "{\"a\":1,\"a\"}", "[-]", "[1e+]", "\x00", "1\x00"}

// ---- types and values ----

func (g *gen) basic() reflect.Type { return basicType[g.Intn(len(basicType))] }

func (g *gen) typ(depth int) reflect.Type {
	if depth <= 0 {
		return g.leafType()
	}
	switch g.Intn(16) {
	case 0, 1:
		return g.leafType()
	case 2, 3:
		return reflect.SliceOf(g.typ(depth - 1))
	case 4:
		return reflect.ArrayOf(g.picki(0, 1, 1, 2, 3), g.typ(depth-1))
	case 5:
		return reflect.PointerTo(g.typ(depth - 1))
	case 6, 7:
		return reflect.MapOf(g.keyType(), g.typ(depth-1))
	case 8:
		return reflect.MapOf(tString, tAny)
	case 9, 10:
		return g.structType(depth)
	case 11, 12:
		return structTypes[g.Intn(len(structTypes))]
	case 13:
		return otherTypes[g.Intn(len(otherTypes))]
	case 14:
		if g.raw && g.p(50) {
			return reflect.MapOf(tString, tRaw)
		}
		return tAny
	default:
		if g.p(30) {
			return tNAny
		}
		return tAny
	}
}

func (g *gen) leafType() reflect.Type {
	switch {
	case g.marshal && g.p(25):
		if g.raw && g.p(50) {
			return jsonMarshalers[g.Intn(len(jsonMarshalers))]
		}
		return plainMarshalers[g.Intn(len(plainMarshalers))]
	case g.raw && g.p(25):
		return tRaw
	case g.bad > 0 && g.p(g.bad):
		return []reflect.Type{reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(map[float64]int{})}[g.Intn(4)]
	}
	return g.basic()
}

var keyTypes = []reflect.Type{
	tString, tString, tString, reflect.TypeOf(NStr("")), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(NInt(0)), reflect.TypeOf(uintptr(0)),
}
var textKeyTypes = []reflect.Type{reflect.TypeOf(KT{}), reflect.TypeOf(KTI(0)), reflect.TypeOf(KTO{}), reflect.TypeOf((*KTP)(nil)), reflect.TypeOf(KTW{}),
	reflect.TypeOf(KSM("")), reflect.TypeOf(KSE("")), reflect.TypeOf(KSD("")), reflect.TypeOf(KIE(0)), reflect.TypeOf(KID(0)),
}

func (g *gen) keyType() reflect.Type {
	if g.marshal && g.p(20) {
		return textKeyTypes[g.Intn(len(textKeyTypes))]
	}
	return keyTypes[g.Intn(len(keyTypes))]
}

func quotable(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return !t.Implements(tNoder)
}

var fieldNames = []string{"A", "B", "C", "D", "E", "F", "G", "H"}
var tagNames = []string{"a", "b", "name", "x<y", "a&b", "x;y", "é", "key with space", "long" + strings.Repeat("n", 60), "UPPER", "Mixed", "$", "0", "sixteen_chars_16", "seventeen_chars17"}

func (g *gen) structType(depth int) reflect.Type {
	n := g.Intn(6)
	used := map[string]bool{}
	fs := make([]reflect.StructField, 0, n)
	for i := 0; i < n; i++ {
		t := g.typ(depth - 1)
		name := fieldNames[i]
		tag := ""
		switch g.Intn(4) {
		case 0:
			tag = tagNames[g.Intn(len(tagNames))]
		case 1:
			tag = g.ascii()
		case 2:
			if g.p(20) {
				tag = g.pick("-", "bad\"name", "bad\\", "ctl\x01")
			}
		}
		if used[tag] {
			tag = ""
		}
		used[tag] = true
		if g.p(35) {
			tag += ",omitempty"
		}
		if g.p(15) && quotable(t) {
			tag += ",string"
		}
		f := reflect.StructField{Name: name, Type: t}
		if tag != "" {
			f.Tag = reflect.StructTag("json:" + strconv.Quote(tag))
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// count picks a container length.
func (g *gen) count() int {
	if g.p(g.wide) && g.budget > 20 {
		return g.picki(8, 9, 10, 11, 12, 17, 33, 40)
	}
	return g.picki(0, 1, 1, 2, 2, 3)
}

func (g *gen) any(depth int) reflect.Value {
	v := reflect.New(tAny).Elem()
	g.fillAny(v, depth)
	return v
}

func (g *gen) fillAny(v reflect.Value, depth int) {
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		switch g.Intn(6) {
		case 0:
		case 1:
			v.Set(reflect.ValueOf(g.p(50)))
		case 2:
			v.Set(reflect.ValueOf(g.floatOrInt()))
		default:
			v.Set(reflect.ValueOf(g.str()))
		}
		return
	}
	switch g.Intn(7) {
	case 0, 1, 2:
		t := g.typ(depth - 1)
		x := reflect.New(t).Elem()
		g.fill(x, depth-1)
		if t.Kind() == reflect.Interface && x.IsNil() {
			return
		}
		v.Set(x)
	case 3:
		x := make([]interface{}, g.count())
		for i := range x {
			g.fillAny(reflect.ValueOf(&x[i]).Elem(), depth-1)
		}
		v.Set(reflect.ValueOf(x))
	case 4, 5:
		x := map[string]interface{}{}
		n := g.count()
		if g.oneEntry && n > 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			var y interface{}
			g.fillAny(reflect.ValueOf(&y).Elem(), depth-1)
			x[g.str()] = y
		}
		v.Set(reflect.ValueOf(x))
	default:
		x := reflect.New(g.leafType()).Elem()
		g.fill(x, 0)
		v.Set(x)
	}
}

func (g *gen) floatOrInt() interface{} {
	if g.simple || g.nofloat {
		return g.Intn(1000)
	}
	return g.float()
}

func (g *gen) rawDoc() []byte {
	if g.p(g.bad) {
		if g.p(50) {
			return []byte(badDocs[g.Intn(len(badDocs))])
		}
		return []byte(g.mutate(g.doc(3)))
	}
	s := g.ws(20) + g.doc(3) + g.ws(20)
	return []byte(s)
}

// fill sets v (settable) to a random value of its type.
func (g *gen) fill(v reflect.Value, depth int) {
	t := v.Type()
	g.budget--
	switch t {
	case tNumber:
		v.SetString(string(g.number()))
		return
	case tRaw:
		if g.p(10) {
			return
		}
		v.SetBytes(g.rawDoc())
		return
	case tTime:
		v.Set(reflect.ValueOf(g.timeEnc()))
		return
	case reflect.TypeOf(MJ{}):
		m := MJ{Out: g.rawDoc()}
		if g.p(g.bad) {
			m.Mode = 1
		} else if g.bad > 0 && g.p(10) {
			m.Mode = 2
		}
		v.Set(reflect.ValueOf(m))
		return
	case reflect.TypeOf(MJPtr{}):
		v.Set(reflect.ValueOf(MJPtr{N: g.Intn(1000), bad: g.p(g.bad)}))
		return
	case reflect.TypeOf(MTPtr{}):
		v.Set(reflect.ValueOf(MTPtr{S: g.str(), bad: g.p(g.bad)}))
		return
	case reflect.TypeOf(MJStr("")):
		v.SetString(string(g.rawDoc()))
		return
	case reflect.TypeOf(MT{}):
		v.Set(reflect.ValueOf(MT{S: g.str(), Bad: g.p(g.bad)}))
		return
	case reflect.TypeOf(KT{}):
		s := g.str()
		if g.p(g.bad) {
			s = "!bad"
		}
		v.Set(reflect.ValueOf(KT{S: s}))
		return
	case reflect.TypeOf(KTW{}), reflect.TypeOf((*KTP)(nil)):
		s := g.str()
		if g.p(g.bad) {
			s = "!bad"
		}
		if t.Kind() == reflect.Pointer {
			v.Set(reflect.ValueOf(&KTP{S: s}))
		} else {
			v.Set(reflect.ValueOf(KTW{p: &s}))
		}
		return
	case tNamer:
		switch g.Intn(4) {
		case 0:
			v.Set(reflect.ValueOf(NamedS{A: g.Intn(10)}))
		case 1:
			v.Set(reflect.ValueOf(NamedM{"a": g.Intn(10)}))
		case 2:
			v.Set(reflect.ValueOf(&NamedP{B: g.str()}))
		}
		return
	case tMIface:
		if g.marshal && g.raw && g.p(70) {
			v.Set(reflect.ValueOf([]interface{}{MJ{Out: g.rawDoc()}, MJMap{"x": 1}, MJWrap{}, &MJPtr{N: g.Intn(9)}, MJStr("[1, 2]")}[g.Intn(5)]))
		}
		return
	case tTIface:
		if g.marshal && g.p(70) {
			v.Set(reflect.ValueOf([]interface{}{MT{S: g.str()}, MTInt(g.Intn(50)), &MTPtr{S: g.str()}, KTO{S: g.str()}}[g.Intn(4)]))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.p(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.simple && g.p(50) {
			v.SetInt(int64(g.Intn(100)))
		} else {
			v.SetInt(g.intBits(t.Bits()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if g.simple && g.p(50) {
			v.SetUint(uint64(g.Intn(100)))
		} else {
			v.SetUint(g.uintBits(t.Bits()))
		}
	case reflect.Float32, reflect.Float64:
		f := g.float()
		if g.simple && g.p(75) {
			f = float64(g.Intn(100)) / 4
		} else if g.p(12) {
			f = math.Copysign(0, -1)
		}
		if g.p(g.bad) {
			f = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.Intn(3)]
		} else if t.Kind() == reflect.Float32 {
			if f32 := float32(f); math.IsInf(float64(f32), 0) {
				f = 1.5
			}
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Interface:
		if g.p(15) {
			return
		}
		g.fillAny(v, depth)
	case reflect.Pointer:
		if g.p(25) || g.budget <= 0 {
			return
		}
		x := reflect.New(t.Elem())
		g.fill(x.Elem(), depth-1)
		v.Set(x.Convert(t))
	case reflect.Slice:
		if g.p(12) {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 && !t.Elem().Implements(tNoder) {
			v.SetBytes(g.bytes())
			return
		}
		n := g.count()
		if depth < -2 || g.budget <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n+g.Intn(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if g.p(12) {
			return
		}
		n := g.count()
		if depth < -2 || g.budget <= 0 {
			n = 0
		}
		if g.oneEntry && n > 1 {
			n = 1
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			if t.Key().Kind() == reflect.Float64 {
				k.SetFloat(1)
			} else {
				g.fill(k, 0)
			}
			e := reflect.New(t.Elem()).Elem()
			g.fill(e, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				if g.p(15) {
					continue // leave zero: omitempty
				}
				g.fill(v.Field(i), depth-1)
			} else if f := t.Field(i); f.Anonymous && f.Type == reflect.TypeOf(embU{}) {
				// fields of an unexported embedded struct are settable
				for j := 0; j < v.Field(i).NumField(); j++ {
					if v.Field(i).Field(j).CanSet() {
						g.fill(v.Field(i).Field(j), depth-1)
					}
				}
			}
		}
	}
}

// fresh resets the node budget.
func (g *gen) fresh(n int) { g.budget = n }

// value makes a random value of a random type.
func (g *gen) value(depth int) reflect.Value {
	g.fresh(60)
	t := g.typ(depth)
	v := reflect.New(t).Elem()
	g.fill(v, depth)
	if t.Kind() == reflect.Interface && v.IsNil() {
		return v
	}
	return v
}

// hasBadText reports map keys that collide after conversion to text.
func uniqueKeys(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		return v.IsNil() || uniqueKeys(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !uniqueKeys(v.Index(i)) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !uniqueKeys(v.Field(i)) {
				return false
			}
		}
	case reflect.Map:
		seen := map[string]bool{}
		for _, k := range v.MapKeys() {
			if k.Kind() == reflect.Float64 {
				return true
			}
			s, _ := keyText(k)
			s = string([]rune(s))
			q, _ := json.Marshal(s)
			if seen[string(q)] {
				return false
			}
			seen[string(q)] = true
			if !uniqueKeys(v.MapIndex(k)) {
				return false
			}
		}
	}
	return true
}
