package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/textproto"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// FSpec describes one field of a generated struct type.
type FSpec struct {
	Go     string  `json:",omitempty"` // Go name
	Name   S       `json:",omitempty"` // wire name; "" untagged
	Dash   bool    `json:",omitempty"` // tag "-"
	Tail   string  `json:",omitempty"` // further tag options
	Kind   string  `json:",omitempty"`
	Shape  string  `json:",omitempty"` // "", ptr, slice, sliceptr, array, ptrslice, ptrptr
	N      int     `json:",omitempty"` // array length
	Def    *S      `json:",omitempty"`
	TF     string  `json:",omitempty"`
	TU     string  `json:",omitempty"`
	TL     string  `json:",omitempty"`
	Anon   bool    `json:",omitempty"`
	Unexp  bool    `json:",omitempty"`
	Pre    *S      `json:",omitempty"` // preset before binding
	PrePtr bool    `json:",omitempty"` // nested pointer allocated before
	Sub    []FSpec `json:",omitempty"`
}

type (
	nInt8   int8
	nUint16 uint16
	nString string
	nBool   bool
	nFloat  float32
	jInner  struct {
		X int     `json:"x"`
		Y *string `json:"y"`
	}
	jDoc struct {
		JqA int            `json:"a"`
		JqB string         `json:"b"`
		JqC []float64      `json:"c"`
		JqD map[string]int `json:"d"`
		JqE []jInner       `json:"e"`
		JqF bool           `json:"f"`
	}
	jMap  map[string]any
	jMapI map[string]int
)

var kindTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"nint8": reflect.TypeOf(nInt8(0)), "nuint16": reflect.TypeOf(nUint16(0)), "nstring": reflect.TypeOf(nString("")), "nbool": reflect.TypeOf(nBool(false)), "nfloat": reflect.TypeOf(nFloat(0)),
	"time": reflect.TypeOf(time.Time{}), "duration": reflect.TypeOf(time.Duration(0)),
	"jdoc": reflect.TypeOf(jDoc{}), "jmap": reflect.TypeOf(jMap(nil)), "jmapi": reflect.TypeOf(jMapI(nil)),
	// kinds binding does not support
	"complex": reflect.TypeOf(complex128(0)), "chan": reflect.TypeOf((chan int)(nil)), "func": reflect.TypeOf((func())(nil)), "any": reflect.TypeOf((*any)(nil)).Elem(), "uintptr": reflect.TypeOf(uintptr(0)),
	"slices": reflect.TypeOf([][]string(nil)),
}

var scalarKinds = []string{"string", "int", "bool", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "nint8", "nuint16", "nstring", "nbool", "nfloat", "time", "jdoc", "jmap", "jmapi"}
var badKinds = []string{"complex", "chan", "func", "any", "uintptr", "slices"}

func (f FSpec) unsupported() bool {
	for _, k := range badKinds {
		if f.Kind == k {
			return true
		}
	}
	return false
}

// baseType is the type of one value of the field.
func (f FSpec) baseType(tag string) reflect.Type {
	if f.Kind == "struct" {
		return structType(f.Sub, tag)
	}
	t, ok := kindTypes[f.Kind]
	if !ok {
		bug("unknown kind %q", f.Kind)
	}
	return t
}

func (f FSpec) typ(tag string) reflect.Type {
	b := f.baseType(tag)
	switch f.Shape {
	case "ptr":
		return reflect.PointerTo(b)
	case "slice":
		return reflect.SliceOf(b)
	case "sliceptr":
		return reflect.SliceOf(reflect.PointerTo(b))
	case "array":
		return reflect.ArrayOf(f.N, b)
	case "ptrslice":
		return reflect.PointerTo(reflect.SliceOf(b))
	case "ptrptr":
		return reflect.PointerTo(reflect.PointerTo(b))
	}
	return b
}

func (f FSpec) tagValue() string {
	if f.Dash {
		return "-"
	}
	s := string(f.Name) + f.Tail
	if f.Def != nil {
		s += ",default=" + string(*f.Def)
	}
	return s
}

func structType(fs []FSpec, tag string) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		tags := ""
		if v := f.tagValue(); v != "" {
			tags = tag + ":" + strconv.Quote(v)
		}
		// tags of other sources must not matter
		for _, o := range []string{"form", "header", "uri", "json"} {
			if o != tag && (f.Name != "" || f.Dash) && f.Kind != "struct" {
				tags += " " + o + `:"othername"`
			}
		}
		for _, kv := range [][2]string{{"time_format", f.TF}, {"time_utc", f.TU}, {"time_location", f.TL}} {
			if kv[1] != "" {
				tags += " " + kv[0] + ":" + strconv.Quote(kv[1])
			}
		}
		s := reflect.StructField{Name: f.Go, Type: f.typ(tag), Tag: reflect.StructTag(strings.TrimSpace(tags)), Anonymous: f.Anon}
		if f.Unexp {
			s.PkgPath = "wcheck"
		}
		sf = append(sf, s)
	}
	return reflect.StructOf(sf)
}

// --- generation of types ---

type typeGen struct {
	t      *T
	names  []S         // wire names
	kinds  map[S]FSpec // what a wire name was used for
	n      int         // Go names
	bind2  bool        // for the alternative binder
	bad    bool        // unsupported kinds too
	header bool
}

var zones []string

func init() {
	for _, z := range []string{"UTC", "Asia/Shanghai", "America/New_York", "Asia/Kathmandu"} {
		if _, err := time.LoadLocation(z); err == nil {
			zones = append(zones, z)
		}
	}
	time.Local = time.FixedZone("WCHK", 5*3600+1800) // not UTC, so that time_utc matters
}

var formNames = []S{"a", "b", "name", "user_id", "x-y", "Id", "p.q", "ids[]", "名", "a b", "A", "q\"t", "ids"}
var tokenNames = []S{"a", "b", "name", "user_id", "x-y", "Id", "p.q", "X-Request-Id", "A", "ETag", "x_y-z"}

func (g *typeGen) leaf(t *T) FSpec {
	f := FSpec{Kind: scalarKinds[t.N(len(scalarKinds))]}
	if g.bind2 && t.Chance(1, 10) {
		f.Kind = "duration"
	}
	if g.bad && t.Chance(1, 8) {
		f.Kind = badKinds[t.N(len(badKinds))]
	}
	switch t.W(5, 2, 3, 1, 1, 1) {
	case 1:
		f.Shape = "ptr"
	case 2:
		f.Shape = "slice"
	case 3:
		if !g.bind2 {
			f.Shape = "sliceptr"
		} else {
			f.Shape = "array"
			f.N = t.Range(1, 3)
		}
	case 4:
		if g.bind2 {
			f.Shape = "ptrslice"
		}
	case 5:
		if g.bind2 {
			f.Shape = "ptrptr"
		}
	}
	if f.unsupported() {
		f.Shape = ""
	}
	if f.Kind == "time" {
		f.TF = pick(t, "", "2006-01-02", "2006-01-02 15:04:05", "unix", "unixnano", "unixNano", "UNIX", time.RFC1123Z, "15:04")
		f.TU = pick(t, "", "", "1", "true", "0", "false")
		if t.Chance(1, 3) && len(zones) > 0 {
			f.TL = pick(t, zones...)
		}
	}
	if t.Chance(1, 6) && !f.unsupported() {
		d := S(g.fit(f, true))
		if d != "" && !strings.Contains(string(d), ",") {
			f.Def = &d
		}
	}
	f.Tail = pick(t, "", "", "", ",omitempty", ",required")
	return f
}

// key identifies a wire name: header names are compared in canonical form.
func (g *typeGen) key(n S) S {
	if g.header {
		return S(textproto.CanonicalMIMEHeaderKey(string(n)))
	}
	return n
}

func (g *typeGen) fields(depth, max int) []FSpec {
	t := g.t
	var fs []FSpec
	for n := t.Few(1, max, 50); n > 0; n-- {
		g.n++
		id := g.n
		var f FSpec
		if depth > 0 && t.Chance(1, 4) {
			f = FSpec{Kind: "struct", Sub: g.fields(depth-1, 4)}
			f.Shape = pick(t, "", "ptr")
			f.Anon = t.Chance(1, 3)
			if f.Shape == "ptr" {
				f.PrePtr = t.Chance(1, 3)
			}
			if !f.Anon && t.Chance(1, 3) {
				f.Name = S(fmt.Sprintf("unsent%d", id)) // the structure's own name is not submitted
			}
		} else {
			f = g.leaf(t)
			f.Name = g.names[t.N(len(g.names))]
			if used, ok := g.kinds[g.key(f.Name)]; ok {
				if t.Chance(1, 3) { // two fields of one kind under the same name
					f = used
					f.Pre = nil
				} else {
					f.Name = S(fmt.Sprintf("%s%d", f.Name, id))
				}
			}
			g.kinds[g.key(f.Name)] = f
			if t.Chance(1, 12) {
				f.Name = "" // untagged
			}
			if t.Chance(1, 3) && !f.unsupported() && f.Kind != "jdoc" && f.Kind != "jmap" && f.Kind != "jmapi" && f.Shape != "ptrptr" && f.Shape != "ptrslice" {
				p := S(g.fit(f, false))
				f.Pre = &p
			}
		}
		f.Go = fmt.Sprintf("F%d", id)
		if t.Chance(1, 14) {
			f.Dash = true
		}
		if f.Kind != "struct" && t.Chance(1, 14) {
			f.Unexp = true
			f.Pre = nil
			f.Go = fmt.Sprintf("f%d", id)
		}
		fs = append(fs, f)
	}
	return fs
}

// fit generates a text that fits one value of the field.
func (g *typeGen) fit(f FSpec, plain bool) string {
	t := g.t
	signed := func(bits uint) string {
		lim := int64(1) << (bits - 1)
		switch t.W(3, 1, 1, 1, 1) {
		case 1:
			return strconv.FormatInt(lim-1, 10)
		case 2:
			return strconv.FormatInt(-lim, 10)
		case 3:
			return pick(t, "+5", "007", "-0", "0", "-1")
		case 4:
			return strconv.FormatInt(int64(t.U64())>>(64-bits), 10)
		}
		return strconv.Itoa(t.N(200) - 100)
	}
	unsigned := func(bits uint) string {
		switch t.W(3, 1, 1, 1) {
		case 1:
			return strconv.FormatUint(math.MaxUint64>>(64-bits), 10)
		case 2:
			return pick(t, "0", "00", "1")
		case 3:
			return strconv.FormatUint(t.U64()>>(64-bits), 10)
		}
		return strconv.Itoa(t.N(200))
	}
	if !plain && t.Chance(1, 12) && f.Kind != "time" && f.Kind[0] != 'j' && f.Kind != "duration" {
		return ""
	}
	switch f.Kind {
	case "bool", "nbool":
		return pick(t, "true", "false", "1", "0", "t", "F", "TRUE", "False")
	case "string", "nstring":
		if plain {
			return pick(t, "dflt", "x y", "é", "a=b", "1")
		}
		if g.header {
			return strings.TrimSpace(strings.Map(func(r rune) rune {
				if r < 32 || r == 127 {
					return -1
				}
				return r
			}, genUTF8(t, 12)))
		}
		if t.Chance(1, 3) {
			return genText(t, 20)
		}
		return genUTF8(t, 12)
	case "int", "int64":
		return signed(64)
	case "int8", "nint8":
		return signed(8)
	case "int16":
		return signed(16)
	case "int32":
		return signed(32)
	case "uint", "uint64":
		return unsigned(64)
	case "uint8":
		return unsigned(8)
	case "uint16", "nuint16":
		return unsigned(16)
	case "uint32":
		return unsigned(32)
	case "float32", "nfloat":
		switch t.W(6, 2, 2, 1) {
		case 3: // next to the middle between two neighbours, too close to tell once rounded to 64 bits
			x := math.Abs(float64(float32(t.N(1<<20)) + 1/float32(t.Range(1, 9))))
			y := float64(math.Nextafter32(float32(x), math.MaxFloat32))
			mid := strconv.FormatFloat((x+y)/2, 'f', -1, 64)
			if !strings.Contains(mid, ".") {
				mid += "."
			}
			return pick(t, "", "-") + mid + pick(t, "", "000000000000000000000001", "00000000000000000000000000000007")
		case 1:
			return pick(t, "3.4028234e38", "-1e-45", "0.1", "16777217", "NaN", "-Inf", "1e3", ".5", "5.")
		case 2:
			return strconv.FormatFloat(float64(math.Float32frombits(uint32(t.U64()))), 'g', -1, 32)
		}
		return strconv.FormatFloat(float64(t.N(2000)-1000)/8, 'f', -1, 32)
	case "float64":
		if t.Chance(1, 4) {
			return pick(t, "1.7976931348623157e308", "5e-324", "0.1", "9007199254740993", "NaN", "+Inf", "1E3", ".5", "5.")
		}
		return strconv.FormatFloat(genFloat(t), pick(t, byte('g'), 'e', 'f'), -1, 64)
	case "duration":
		return pick(t, "1s", "1h30m", "-5ms", "0", "2.5us", "100ns", "1µs", "24h")
	case "time":
		sec := int64(t.U(4102444800)) // up to 2100
		switch strings.ToLower(f.TF) {
		case "unix":
			return pick(t, strconv.FormatInt(sec, 10), "0", "-1", strconv.FormatInt(-sec, 10))
		case "unixnano":
			return pick(t, strconv.FormatInt(sec*1e9+int64(t.N(1e9)), 10), "0", "-1", "1562400033000000123", strconv.FormatInt(-sec*1e9-7, 10))
		}
		if !plain && t.Chance(1, 10) {
			return ""
		}
		layout := f.TF
		if layout == "" {
			layout = time.RFC3339
		}
		if layout == time.RFC3339 && t.Chance(1, 3) {
			layout = time.RFC3339Nano
		}
		tm := time.Unix(sec, int64(t.N(1e9)))
		if len(zones) > 0 {
			l, _ := time.LoadLocation(pick(t, zones...))
			tm = tm.In(l)
		}
		return tm.Format(layout)
	case "jdoc":
		d := jDoc{JqA: t.N(1000) - 500, JqB: genUTF8(t, 8), JqF: t.Bool()}
		for n := t.N(3); n > 0; n-- {
			d.JqC = append(d.JqC, float64(t.N(1000))/4)
		}
		if t.Bool() {
			d.JqD = map[string]int{genUTF8(t, 3): t.N(9), "k": t.N(9)}
		}
		for n := t.N(3); n > 0; n-- {
			e := jInner{X: t.N(10)}
			if t.Bool() {
				s := genUTF8(t, 4)
				e.Y = &s
			}
			d.JqE = append(d.JqE, e)
		}
		b, _ := json.Marshal(d)
		if t.Chance(1, 5) {
			return pick(t, "{}", ` {"a" : 5 , "zz":[1,{"q":null}]} `, `{"b":"\u00e9\n"}`)
		}
		return string(b)
	case "jmap":
		m := map[string]any{}
		for n := t.N(4); n > 0; n-- {
			m[genUTF8(t, 4)] = pick(t, any(float64(t.N(100))/4), any("s"), any(true), nil, any([]any{1.0, "x"}), any(map[string]any{"k": 1.5}))
		}
		b, _ := json.Marshal(m)
		return string(b)
	case "jmapi":
		m := map[string]int{}
		for n := t.N(4); n > 0; n-- {
			m[genUTF8(t, 4)] = t.N(1000) - 500
		}
		b, _ := json.Marshal(m)
		return string(b)
	}
	return "x"
}

// unfit generates a text that does not fit.
func (g *typeGen) unfit(f FSpec) string {
	t := g.t
	outside := func(bits uint, signed bool) string {
		var s string
		switch {
		case signed && t.Bool():
			s = strconv.FormatUint(uint64(1)<<(bits-1), 10)
			if t.Chance(1, 3) && bits < 64 {
				s = strconv.FormatUint(1<<bits|uint64(t.N(100)), 10) // would wrap to something small
			}
		case signed:
			s = "-" + strconv.FormatUint(uint64(1)<<(bits-1)+1+uint64(t.N(3)), 10)
		case bits == 64:
			s = pick(t, "18446744073709551616", "99999999999999999999")
		default:
			s = strconv.FormatUint(1<<bits+uint64(t.N(3)), 10)
		}
		return s
	}
	num := func(bits uint, signed bool) string {
		if t.Bool() {
			return outside(bits, signed)
		}
		s := pick(t, "1.5", "abc", " 1", "1 ", "0x10", "1e3", "1_000", "--1", "１２", "1,2", "true", "0b1", "5\n", "1.0", "9999999999999999999999", "\x00", "-", "+", " ", ".", "--", "+-1", "e5", "0-", "\t", "  ", "- 1", "1-", "0x", "０", "_", "\u00a0", "nil", "null", "{}", "\"1\"", "'1'")
		if !signed && t.Chance(1, 2) {
			s = pick(t, "-1", "-5", "-128", "-9223372036854775808", "+5", "+0", "-0", "+255")
		}
		return s
	}
	switch f.Kind {
	case "bool", "nbool":
		return pick(t, "yes", "2", "tRUE", "on", "-1", " true", "true ", "nope", "00", "null", "-", " ", "tr", "t ", "\x00", "0.0", "01", "off", "y", "tru", "TrUe", "１")
	case "int", "int64":
		return num(64, true)
	case "int8", "nint8":
		return num(8, true)
	case "int16":
		return num(16, true)
	case "int32":
		return num(32, true)
	case "uint", "uint64":
		return num(64, false)
	case "uint8":
		return num(8, false)
	case "uint16", "nuint16":
		return num(16, false)
	case "uint32":
		return num(32, false)
	case "float32", "nfloat":
		return pick(t, "1e39", "-3.5e38", "abc", "1,5", " 1", "1.2.3", "1e400", "0x", "--1", "1e", "-", "+", " ", ".", "e5", "-.", "1 ", "0x1", "1_0", "nil", "1f", "+-1", "infin")
	case "float64":
		return pick(t, "1e309", "-1e400", "abc", "1,5", " 1", "1.2.3", "0x", "--1", "1e", "-", "+", " ", ".", "e5", "-.", "1 ", "0x1", "1_0", "nil", "1f", "+-1", "infin")
	case "duration":
		return pick(t, "5", "1x", "abc", "1h5", " 1s", "9223372037s", "1s ", "10000000h", "-", "+", " ", ".", "s", "-s", "1", "0s0", "1h-5m")
	case "time":
		switch strings.ToLower(f.TF) {
		case "unix", "unixnano":
			return pick(t, "", "1.5", "abc", "2020-01-01", "9223372036854775808", " 1", "1e9")
		}
		if f.TF == "15:04" {
			return pick(t, "24:00", "12", "12:60", "noon", "12:00:00")
		}
		return pick(t, "2021-02-30", "2021-13-01", "abc", "1234567890", "2021-02-30T00:00:00Z", "2021-02-29 10:00:00", "2021-01-01T25:00:00Z", "20210101", " ", "0000")
	case "jdoc":
		return pick(t, "", "{", `{"a":"x"}`, `{"a":1.5}`, "hello", "[1]", `{"a":1`, `{"b":5}`, `{"c":{}}`, `{"a":99999999999999999999}`, `{"f":1}`, `{"a":1}}`, "5", `{"d":{"k":"v"}}`, `{"e":[{"x":"y"}]}`)
	case "jmap":
		return pick(t, "", "{", `{"a":}`, "hello", "[1]", `{"a":1`, `{1:2}`, "5", `{"a":1}}`, `"s"`)
	case "jmapi":
		return pick(t, "", "{", `{"a":"x"}`, "hello", "[1]", `{"a":1`, `{"a":1.5}`, "5", `{"a":{}}`)
	}
	return "x"
}

// --- the reference ---

var errUnfit = fmt.Errorf("does not fit")

// convert turns a text into a value of the field's base type.
func (f FSpec) convert(text string) (reflect.Value, error) {
	typ := kindTypes[f.Kind]
	v := reflect.New(typ).Elem()
	switch f.Kind {
	case "time":
		tm, err := f.parseTime(text)
		if err != nil {
			return v, errUnfit
		}
		v.Set(reflect.ValueOf(tm))
		return v, nil
	case "duration":
		d, err := time.ParseDuration(text)
		if err != nil {
			return v, errUnfit
		}
		v.SetInt(int64(d))
		return v, nil
	case "jdoc", "jmap", "jmapi":
		if json.Unmarshal([]byte(text), v.Addr().Interface()) != nil {
			return v, errUnfit
		}
		return v, nil
	}
	switch typ.Kind() {
	case reflect.String:
		v.SetString(text)
		return v, nil
	case reflect.Bool:
		if text == "" {
			return v, nil
		}
		b, ok := strictBool(text)
		if !ok {
			return v, errUnfit
		}
		v.SetBool(b)
		return v, nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if text == "" {
			return v, nil
		}
		n, ok := strictInt(text, true, uint(typ.Bits()))
		if !ok {
			return v, errUnfit
		}
		v.SetInt(n.(int64))
		return v, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if text == "" {
			return v, nil
		}
		n, ok := strictInt(text, false, uint(typ.Bits()))
		if !ok {
			return v, errUnfit
		}
		v.SetUint(n.(uint64))
		return v, nil
	case reflect.Float32, reflect.Float64:
		if text == "" {
			return v, nil
		}
		x, err := strconv.ParseFloat(text, typ.Bits())
		if err != nil {
			return v, errUnfit
		}
		v.SetFloat(x)
		return v, nil
	}
	return v, errUnfit // unsupported kind
}

func (f FSpec) parseTime(text string) (time.Time, error) {
	switch strings.ToLower(f.TF) {
	case "unix":
		n, ok := strictInt(text, true, 64)
		if !ok {
			return time.Time{}, errUnfit
		}
		return time.Unix(n.(int64), 0), nil
	case "unixnano":
		n, ok := strictInt(text, true, 64)
		if !ok {
			return time.Time{}, errUnfit
		}
		return time.Unix(0, n.(int64)), nil
	}
	if text == "" {
		return time.Time{}, nil
	}
	layout := f.TF
	if layout == "" {
		layout = time.RFC3339
	}
	loc := time.Local
	if b, ok := strictBool(f.TU); ok && b {
		loc = time.UTC
	}
	if f.TL != "" {
		l, err := time.LoadLocation(f.TL)
		if err != nil {
			return time.Time{}, err
		}
		loc = l
	}
	return time.ParseInLocation(layout, text, loc)
}

// setAll puts the submitted values into the field.
func (f FSpec) setAll(v reflect.Value, vals []string) error {
	conv := func(s string) (reflect.Value, error) { return f.convert(s) }
	one := func(s string, ptr bool) (reflect.Value, error) {
		x, err := conv(s)
		if err == nil && ptr {
			p := reflect.New(x.Type())
			p.Elem().Set(x)
			x = p
		}
		return x, err
	}
	switch f.Shape {
	case "slice", "sliceptr", "ptrslice":
		st := v.Type()
		if f.Shape == "ptrslice" {
			st = st.Elem()
		}
		sl := reflect.MakeSlice(st, 0, len(vals))
		for _, s := range vals {
			x, err := one(s, f.Shape == "sliceptr")
			if err != nil {
				return err
			}
			sl = reflect.Append(sl, x)
		}
		if f.Shape == "ptrslice" {
			p := reflect.New(st)
			p.Elem().Set(sl)
			v.Set(p)
		} else {
			v.Set(sl)
		}
		return nil
	case "array":
		if len(vals) != f.N {
			return errUnfit
		}
		for i, s := range vals {
			x, err := conv(s)
			if err != nil {
				return err
			}
			v.Index(i).Set(x)
		}
		return nil
	}
	x, err := one(vals[0], f.Shape == "ptr" || f.Shape == "ptrptr")
	if err != nil {
		return err
	}
	if f.Shape == "ptrptr" {
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		x = p
	}
	v.Set(x)
	return nil
}

// preset fills the object before binding.
func preset(fs []FSpec, v reflect.Value) {
	for i, f := range fs {
		fv := v.Field(i)
		if f.Kind == "struct" {
			if f.Shape == "ptr" {
				if !f.PrePtr {
					continue
				}
				fv.Set(reflect.New(fv.Type().Elem()))
				fv = fv.Elem()
			}
			preset(f.Sub, fv)
			continue
		}
		if f.Pre == nil {
			continue
		}
		vals := []string{string(*f.Pre)}
		if f.Shape == "array" {
			for len(vals) < f.N {
				vals = append(vals, string(*f.Pre))
			}
		}
		if err := f.setAll(fv, vals); err != nil {
			bug("preset %q of %+v: %v", *f.Pre, f, err)
		}
	}
}

// shared lists the pointers fields hold that point somewhere, and where they point.
func shared(fs []FSpec, v reflect.Value, path string, m map[string]uintptr) map[string]uintptr {
	for i, f := range fs {
		fv := v.Field(i)
		if fv.Kind() == reflect.Ptr && !fv.IsNil() {
			m[path+"."+f.Go] = fv.Pointer()
			fv = fv.Elem()
		}
		if f.Kind == "struct" && fv.Kind() == reflect.Struct {
			shared(f.Sub, fv, path+"."+f.Go, m)
		}
	}
	return m
}

type refInfo struct {
	set, defaulted, kept, nested, multi int
}

// values are those submitted for the field or else its default; nil: none.
func (f FSpec) values(form map[string][]string, header bool) (vals []string, submitted bool) {
	name := string(f.Name)
	if name == "" {
		name = f.Go
	}
	if header {
		name = textproto.CanonicalMIMEHeaderKey(name)
	}
	if vals, ok := form[name]; ok {
		return vals, true
	}
	if f.Def != nil {
		return []string{string(*f.Def)}, false
	}
	return nil, false
}

// reference binds the values; set tells whether anything below was set.
func reference(fs []FSpec, v reflect.Value, form map[string][]string, header, bind2 bool, info *refInfo) (set bool, err error) {
	for i, f := range fs {
		fv := v.Field(i)
		if f.Unexp || f.Dash {
			continue
		}
		if f.Kind == "struct" {
			if f.Shape == "ptr" {
				p := fv
				if fv.IsNil() {
					p = reflect.New(fv.Type().Elem())
				}
				s, err := reference(f.Sub, p.Elem(), form, header, bind2, info)
				if err != nil {
					return set, err
				}
				if s && fv.IsNil() {
					fv.Set(p)
				}
				set = set || s
				info.nested++
				continue
			}
			s, err := reference(f.Sub, fv, form, header, bind2, info)
			if err != nil {
				return set, err
			}
			set = set || s
			info.nested++
			continue
		}
		if f.Name == "" && !bind2 {
			continue
		}
		vals, submitted := f.values(form, header)
		switch {
		case vals == nil:
			info.kept++
			continue
		case submitted:
			info.set++
		default:
			info.defaulted++
		}
		if len(vals) > 1 {
			info.multi++
		}
		if err := f.setAll(fv, vals); err != nil {
			return set, err
		}
		set = true
	}
	return set, nil
}

// floatSlack tolerates an error in the last place (a known finding about JSON).
var floatSlack = false

// same compares bound values. With loose, a nil pointer to a structure equals one to the zero structure.
func same(a, b reflect.Value, loose bool, path string) error {
	differ := func() error {
		return fmt.Errorf("%s is %s, want %s", path, showValue(a), showValue(b))
	}
	if a.Type() == reflect.TypeOf(time.Time{}) {
		if a.CanInterface() && b.CanInterface() {
			if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
				return differ()
			}
		}
		return nil
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if err := same(a.Field(i), b.Field(i), loose, path+"."+a.Type().Field(i).Name); err != nil {
				return err
			}
		}
		return nil
	case reflect.Ptr:
		if a.IsNil() && b.IsNil() {
			return nil
		}
		if loose && a.Type().Elem().Kind() == reflect.Struct && a.Type().Elem() != reflect.TypeOf(time.Time{}) {
			z := reflect.New(a.Type().Elem()).Elem()
			x, y := z, z
			if !a.IsNil() {
				x = a.Elem()
			}
			if !b.IsNil() {
				y = b.Elem()
			}
			return same(x, y, loose, path)
		}
		if a.IsNil() || b.IsNil() {
			return differ()
		}
		return same(a.Elem(), b.Elem(), loose, path)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return differ()
		}
		for i := 0; i < a.Len(); i++ {
			if err := same(a.Index(i), b.Index(i), loose, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return differ()
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return differ()
			}
			if err := same(a.MapIndex(k), y, loose, fmt.Sprintf("%s[%v]", path, k)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return differ()
			}
			return nil
		}
		if a.Elem().Type() != b.Elem().Type() {
			return differ()
		}
		return same(a.Elem(), b.Elem(), loose, path)
	case reflect.Float32, reflect.Float64:
		if x, y := a.Float(), b.Float(); x != y && !(math.IsNaN(x) && math.IsNaN(y)) && !(floatSlack && math.Abs(x-y) <= math.Abs(y)*0x1p-51) {
			return differ()
		}
		return nil
	case reflect.Func, reflect.Chan:
		if a.IsNil() != b.IsNil() {
			return differ()
		}
		return nil
	}
	if !a.Equal(b) {
		return differ()
	}
	return nil
}

func showValue(v reflect.Value) string {
	if !v.CanInterface() {
		return v.String()
	}
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return "&" + showValue(v.Elem())
	}
	return short(fmt.Sprintf("%#v", v.Interface()))
}
