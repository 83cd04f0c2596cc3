package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math/big"
	"mime/multipart"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// --- B03: which decoder ---

type poly struct {
	A    string                  `form:"a" json:"a" xml:"a" header:"A" uri:"a"`
	N    int                     `form:"n" json:"n" xml:"n" header:"N" uri:"n"`
	L    []string                `form:"l" json:"l" xml:"l" header:"L" uri:"l"`
	File *multipart.FileHeader   `form:"file" json:"-" xml:"-"`
	Fs   []*multipart.FileHeader `form:"fs" json:"-" xml:"-"`
}

func (p poly) show() string {
	s := fmt.Sprintf("a=%q n=%d l=%q", p.A, p.N, p.L)
	if p.File != nil {
		b, err := readFH(p.File)
		s += fmt.Sprintf(" file=%q:%q %v", p.File.Filename, b, err)
	}
	for _, f := range p.Fs {
		b, err := readFH(f)
		s += fmt.Sprintf(" fs=%q:%q %v", f.Filename, b, err)
	}
	return s
}

type PolyVal struct {
	A S
	N int
	L []S
}

type PolyCase struct {
	Method string
	CT     string // media type
	Param  string
	Body   string // format of the body: json, xml, form, multipart, none, junk
	Q, B   PolyVal
	File   *S
	Fs     []S
	Wire   bool
	Chunk  int
	Case   int `json:",omitempty"` // of the letters of the media type
}

// letters writes a media type in another case.
func letters(ct string, k int) string {
	switch k {
	case 1:
		return strings.ToUpper(ct)
	case 2:
		up := true
		return strings.Map(func(r rune) rune {
			was := up
			up = r == '/' || r == '-'
			if was {
				return unicode.ToUpper(r)
			}
			return r
		}, ct)
	}
	return ct
}

var (
	ctsForm  = []string{"application/x-www-form-urlencoded"}
	ctsOther = []string{"", "text/plain", "application/octet-stream", "application/jsonp", "application/json-patch+json", "application/xhtml+xml", "text/html", "application/soap+xml", "text/json", "multipart/mixed", "text/xml-external-parsed-entity", "json", "application/vnd.api+json"}
)

func genPoly(t *T) PolyCase {
	c := PolyCase{Method: pick(t, "POST", "GET", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS")}
	switch t.W(2, 1, 1, 2, 2, 2) {
	case 0:
		c.CT = "application/json"
	case 1:
		c.CT = "application/xml"
	case 2:
		c.CT = "text/xml"
	case 3:
		c.CT = ctsForm[0]
	case 4:
		c.CT = "multipart/form-data"
	case 5:
		c.CT = pick(t, ctsOther...)
	}
	if c.CT != "" {
		c.Param = pick(t, "", "", "; charset=utf-8", ";charset=UTF-8", " ; charset=utf-8", "; a=b; charset=\"utf-8\"", "; version=1", ";  q=\"x;y\"")
	}
	c.Case = max(0, t.N(8)-5)
	val := func() PolyVal {
		v := PolyVal{A: S(genToken(t)), N: t.N(1000)}
		for n := t.N(4); n > 0; n-- {
			v.L = append(v.L, S(genToken(t)))
		}
		return v
	}
	c.Q, c.B = val(), val()
	switch c.CT {
	case "application/json":
		c.Body = "json"
	case "application/xml", "text/xml":
		c.Body = "xml"
	case ctsForm[0]:
		c.Body = "form"
	case "multipart/form-data":
		c.Body = "multipart"
	}
	if c.Body == "" || t.Chance(1, 4) {
		c.Body = pick(t, "json", "xml", "form", "multipart", "none", "junk")
	}
	if t.Bool() {
		c.File = genMPFile(t)
	}
	for n := t.N(3); n > 0; n-- {
		c.Fs = append(c.Fs, *genMPFile(t))
	}
	c.Wire = t.Chance(1, 20) && c.Method != "HEAD"
	c.Chunk = pick(t, 0, 0, 1, 7)
	return c
}

func (v PolyVal) kvs() []KV {
	out := []KV{{"a", v.A}, {"n", S(fmt.Sprint(v.N))}}
	for _, x := range v.L {
		out = append(out, KV{"l", x})
	}
	return out
}

func (v PolyVal) poly() poly {
	p := poly{A: string(v.A), N: v.N}
	for _, x := range v.L {
		p.L = append(p.L, string(x))
	}
	return p
}

func (c PolyCase) parts() []MPart {
	var ps []MPart
	for _, kv := range c.B.kvs() {
		ps = append(ps, MPart{Name: kv.K, Data: kv.V})
	}
	if c.File != nil {
		ps = append(ps, MPart{Name: "file", File: c.File, Data: "content " + *c.File})
	}
	for i := range c.Fs {
		ps = append(ps, MPart{Name: "fs", File: &c.Fs[i], Data: S(fmt.Sprint("fs content ", i))})
	}
	return ps
}

func (c PolyCase) body() []byte {
	switch c.Body {
	case "json":
		b, _ := json.Marshal(c.B.poly())
		return b
	case "xml":
		b, _ := xml.Marshal(c.B.poly())
		return b
	case "form":
		return []byte(encQuery(c.B.kvs()))
	case "multipart":
		return mpBody(c.parts(), mpBoundary)
	case "junk":
		return []byte("junk body &a=junk")
	}
	return nil
}

// decoder is what the specification says.
func (c PolyCase) decoder() string {
	if c.Method == "GET" {
		return "form"
	}
	switch c.CT {
	case "multipart/form-data":
		if c.Method == "POST" || c.Method == "PUT" || c.Method == "PATCH" {
			return "multipart"
		}
	case "application/json":
		return "json"
	case "application/xml", "text/xml":
		return "xml"
	}
	return "form"
}

type chunkReader struct {
	r io.Reader
	n int
}

func (c chunkReader) Read(p []byte) (int, error) {
	if c.n > 0 && len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

func (c PolyCase) request() *http.Request {
	ct := letters(c.CT, c.Case) + c.Param
	if c.CT == "multipart/form-data" {
		ct += "; boundary=" + mpBoundary
	}
	req := newReq(c.Method, encQuery(c.Q.kvs()), ct, nil)
	body := c.body()
	req.Body = io.NopCloser(chunkReader{bytes.NewReader(body), c.Chunk})
	req.ContentLength = int64(len(body))
	return req
}

func runPoly(c PolyCase, o *Obs) error {
	dec := c.decoder()
	binders := map[string]binding.Bindinger{"form": binding.Form, "multipart": binding.FormMultipart, "json": binding.JSON, "xml": binding.XML}
	type res struct {
		how  string
		show string
		err  error
	}
	var out []res
	errs := func(e error) string {
		if e == nil {
			return ""
		}
		return e.Error()
	}
	run := func(how string, f func(ctx *water.Context, obj any) error) error {
		var obj poly
		var err error
		req := c.request()
		show := ""
		if e := inCtx(req, func(ctx *water.Context) { err = f(ctx, &obj); show = obj.show() }); e != nil {
			return fmt.Errorf("%s: %v", how, e)
		}
		if req.MultipartForm != nil {
			req.MultipartForm.RemoveAll()
		}
		out = append(out, res{how, show, err})
		return nil
	}
	ctType := letters(c.CT, c.Case)
	for _, x := range []struct {
		how string
		f   func(ctx *water.Context, obj any) error
	}{
		{"ctx.Bind", func(ctx *water.Context, obj any) error { return ctx.Bind(obj) }},
		{"ctx.BindWith(" + dec + ")", func(ctx *water.Context, obj any) error { return ctx.BindWith(obj, binders[dec]) }},
		{"ctx.BindWith(NewBindinger)", func(ctx *water.Context, obj any) error {
			return ctx.BindWith(obj, binding.NewBindinger(c.Method, ctType))
		}},
		{"binding." + dec + ".Bind", func(ctx *water.Context, obj any) error { return binders[dec].Bind(ctx.Request, obj) }},
		{"ctx.Bind after reading a query value", func(ctx *water.Context, obj any) error {
			if dec == "form" && (c.Body == "form" || c.Body == "none" || c.CT != ctsForm[0]) { // Query panics on a malformed form
				ctx.Query("nosuch")
			}
			return ctx.Bind(obj)
		}},
	} {
		if err := run(x.how, x.f); err != nil {
			return err
		}
	}
	if c.Wire {
		var obj poly
		var err error
		show := ""
		h := func(ctx *water.Context) { err = ctx.Bind(&obj); show = obj.show(); ctx.String(200, "ok") }
		r := water.NewRouter()
		regMethod(r, c.Method, "/bind", h)
		cr := c.request()
		q := Req{Method: c.Method, Target: S("/bind?" + cr.URL.RawQuery), Body: S(c.body())}
		if ct := cr.Header.Get("Content-Type"); ct != "" {
			q.H = append(q.H, KV{"Content-Type", S(ct)})
		}
		if _, e := wireReq(r.Handler(), q); e != nil {
			return e
		}
		out = append(out, res{"ctx.Bind over a connection", show, err})
		o.Label("over a connection")
	}
	for _, x := range out[1:] {
		// a chunked body makes no difference to the text of an error either
		// the context wraps the parse errors of forms
		same := errs(x.err) == errs(out[0].err) || x.err != nil && out[0].err != nil && strings.HasSuffix(out[0].err.Error(), ":"+x.err.Error())
		if strings.HasSuffix(x.how, "connection") { // an error may quote as much of the body as had arrived
			same = (x.err == nil) == (out[0].err == nil)
		}
		if x.show != out[0].show || !same {
			return fmt.Errorf("%s of %s with Content-Type %q, body %s: %s gives %s, error %v; %s gives %s, error %v", c.Method, short(string(c.body())), letters(c.CT, c.Case)+c.Param, c.Body, out[0].how, out[0].show, out[0].err, x.how, x.show, x.err)
		}
	}
	// what must have come out
	var want poly
	known := true
	switch dec {
	case "json", "xml", "multipart":
		if c.Body != dec {
			if out[0].err == nil {
				return fmt.Errorf("%s with Content-Type %q: a %s body was bound without error as %s: %s", c.Method, letters(c.CT, c.Case)+c.Param, c.Body, dec, out[0].show)
			}
			known = false
			break
		}
		want = c.B.poly()
	case "form":
		want = c.Q.poly()
		if c.CT == ctsForm[0] && (c.Method == "POST" || c.Method == "PUT" || c.Method == "PATCH") {
			if c.Body == "form" {
				want = c.B.poly()
				want.L = append(want.L, c.Q.poly().L...)
			} else {
				known = false // whatever the other body means as a form
				if c.Body == "none" {
					known = true
				}
			}
		}
	}
	if known {
		if out[0].err != nil {
			return fmt.Errorf("%s with Content-Type %q, body %s: %v", c.Method, letters(c.CT, c.Case)+c.Param, short(string(c.body())), out[0].err)
		}
		s := want.show()
		if dec == "multipart" {
			if c.File != nil {
				s += fmt.Sprintf(" file=%q:%q <nil>", *c.File, "content "+*c.File)
			}
			for i, f := range c.Fs {
				s += fmt.Sprintf(" fs=%q:%q <nil>", f, fmt.Sprint("fs content ", i))
			}
		}
		if s != out[0].show {
			return fmt.Errorf("%s with Content-Type %q, body %s, query %s: ctx.Bind gives %s, want %s (the %s values)", c.Method, letters(c.CT, c.Case)+c.Param, short(string(c.body())), encQuery(c.Q.kvs()), out[0].show, s, dec)
		}
		o.NT()
	}
	// the body formats, named explicitly, whatever the request looks like otherwise
	if c.Body == "json" || c.Body == "xml" {
		for _, q := range []string{"", "&x=%zz", "&x=1;y"} {
			var obj poly
			var err error
			req := c.request()
			req.URL.RawQuery += q
			if e := inCtx(req, func(ctx *water.Context) { err = ctx.BindWith(&obj, binders[c.Body]) }); e != nil {
				return e
			}
			if got, want := obj.show(), c.B.poly().show(); err != nil || got != want {
				return fmt.Errorf("%s ?%s Content-Type %q, body %s: BindWith(%s) gives %s, error %v, want %s", c.Method, req.URL.RawQuery, letters(c.CT, c.Case)+c.Param, c.body(), c.Body, got, err, want)
			}
		}
		o.LabelIf(dec != c.Body, "named another decoder than the content type's")
	}
	o.Label(c.Method + " " + dec)
	o.LabelIf(c.Param != "", "with a parameter")
	o.LabelIf(!known, "body of another format")
	o.LabelIf(dec == "form" && c.Method != "GET" && c.CT != ctsForm[0], "other content type as form")
	return nil
}

// --- B04: JSON and XML documents ---

// DSpec is a field of a document type.
type DSpec struct {
	Go, Name string
	Kind     string
	Shape    string // "", ptr, slice, sliceptr, array, map, mapint, sliceslice
	Opt      string // omitempty, string, attr, chardata
	Sub      []DSpec
}

type DocMut struct {
	Kind string // tree, byte, del, ins, dup, extra
	At   int
	With S
}

type DocCase struct {
	XML    bool
	Root   string // "", slice, ptrslice, map, array
	Fields []DSpec
	Doc    S // JSON of the value
	Muts   []DocMut
	Chunk  int
	Ctx    bool
	CT     string
}

type docEmb struct {
	Emb  string `json:"emb" xml:"emb"`
	Emb2 *int   `json:"emb2" xml:"emb2,attr"`
}

type docFix struct {
	docEmb
	*DocEmbP
	Any  any             `json:"any" xml:"-"`
	Raw  json.RawMessage `json:"raw,omitempty" xml:"-"`
	TM   textM           `json:"tm" xml:"tm"`
	MT   map[textM]int   `json:"mt" xml:"-"`
	Up   string          // untagged
	Self *docFix         `json:"self" xml:"self"`
	Path []string        `json:"path" xml:"p>q>r"`
	Intf fmt.Stringer    `json:"-" xml:"-"`
}

type DocEmbP struct {
	EP []int `json:"ep" xml:"ep"`
}

// textM has text marshalling methods.
type textM struct{ v string }

func (x textM) MarshalText() ([]byte, error) { return []byte("<" + x.v + ">"), nil }
func (x *textM) UnmarshalText(b []byte) error {
	s := string(b)
	if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
		return fmt.Errorf("bad text %q", s)
	}
	x.v = s[1 : len(s)-1]
	return nil
}

func docType(fs []DSpec) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		jo, xo := "", ""
		switch f.Opt {
		case "omitempty":
			jo, xo = ",omitempty", ",omitempty"
		case "string":
			jo = ",string"
		case "attr":
			xo = ",attr"
		case "chardata":
			xo = ",chardata"
		}
		xn := f.Name
		if f.Opt == "chardata" {
			xn = ""
		}
		sf = append(sf, reflect.StructField{Name: f.Go, Type: f.typ(), Tag: reflect.StructTag(fmt.Sprintf("json:%q xml:%q", f.Name+jo, xn+xo))})
	}
	return reflect.StructOf(sf)
}

func (f DSpec) typ() reflect.Type {
	var b reflect.Type
	switch f.Kind {
	case "struct":
		b = docType(f.Sub)
	case "bytes":
		b = reflect.TypeOf([]byte(nil))
	case "any":
		b = reflect.TypeOf((*any)(nil)).Elem()
	case "text":
		b = reflect.TypeOf(textM{})
	default:
		b = kindTypes[f.Kind]
	}
	if b == nil {
		bug("document kind %q", f.Kind)
	}
	switch f.Shape {
	case "ptr":
		return reflect.PointerTo(b)
	case "slice":
		return reflect.SliceOf(b)
	case "sliceptr":
		return reflect.SliceOf(reflect.PointerTo(b))
	case "array":
		return reflect.ArrayOf(2, b)
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), b)
	case "mapint":
		return reflect.MapOf(reflect.TypeOf(int(0)), b)
	case "sliceslice":
		return reflect.SliceOf(reflect.SliceOf(b))
	}
	return b
}

var docKinds = []string{"string", "int", "bool", "float64", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "nstring", "nint8", "nuint16", "nbool", "time", "bytes", "text"}

func genDSpecs(t *T, isXML bool, depth int, n *int) []DSpec {
	var fs []DSpec
	chardata := false
	for k := t.Range(1, 6); k > 0; k-- {
		*n++
		f := DSpec{Go: fmt.Sprintf("F%d", *n), Name: fmt.Sprintf("%s%d", pick(t, "a", "name", "Id", "x_y", "a-b"), *n)}
		if depth > 0 && t.Chance(1, 4) {
			f.Kind = "struct"
			f.Sub = genDSpecs(t, isXML, depth-1, n)
			f.Shape = pick(t, "", "ptr", "slice", "sliceptr")
			if !isXML && t.Chance(1, 4) {
				f.Shape = pick(t, "map", "array", "mapint")
			}
		} else {
			f.Kind = pick(t, docKinds...)
			f.Shape = pick(t, "", "", "ptr", "slice")
			if !isXML {
				if t.Chance(1, 4) {
					f.Shape = pick(t, "sliceptr", "array", "map", "mapint", "sliceslice")
				}
				if t.Chance(1, 12) {
					f.Kind, f.Shape = "any", ""
				}
				if !t.Chance(1, 10) {
					f.Name = pick(t, f.Name, f.Name, strings.ReplaceAll(f.Name, "a", "é"), f.Name+"$")
				}
			} else if t.Chance(1, 5) && f.Shape == "" && f.Kind != "bytes" {
				f.Opt = "attr"
				if !chardata && t.Chance(1, 3) && f.Kind == "string" {
					f.Opt, chardata = "chardata", true
				}
			}
			if f.Kind == "bytes" && f.Shape != "" && f.Shape != "ptr" && isXML {
				f.Shape = ""
			}
		}
		if f.Opt == "" && t.Chance(1, 5) {
			f.Opt = "omitempty"
			if !isXML && f.Shape == "" && (f.Kind == "int" || f.Kind == "int64" || f.Kind == "uint8" || f.Kind == "bool" || f.Kind == "float64") && t.Bool() {
				f.Opt = "string"
			}
		}
		fs = append(fs, f)
	}
	return fs
}

// fillValue fills a value at random.
func fillValue(t *T, v reflect.Value, isXML bool, depth int) {
	str := func() string {
		s := genUTF8(t, 14)
		if t.Chance(1, 60) {
			s = strings.Repeat(s+"x", 200) // beyond a decoder's buffer
		}
		if isXML {
			s = xmlSafe(s)
		}
		return s
	}
	switch v.Type() {
	case reflect.TypeOf(time.Time{}):
		tm := time.Unix(int64(t.U(4102444800)), int64(t.N(1e9))).UTC()
		if len(zones) > 0 && t.Bool() {
			l, _ := time.LoadLocation(pick(t, zones...))
			tm = tm.In(l)
		}
		v.Set(reflect.ValueOf(tm))
		return
	case reflect.TypeOf([]byte(nil)):
		if isXML {
			v.SetBytes([]byte(str()))
		} else {
			v.SetBytes(genBytes(t, 20))
		}
		return
	case reflect.TypeOf(textM{}):
		v.Set(reflect.ValueOf(textM{genToken(t)}))
		return
	case reflect.TypeOf(json.RawMessage(nil)):
		b, _ := json.Marshal(genAny(t, 2))
		v.SetBytes(b)
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(str())
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt64(t) >> (64 - v.Type().Bits()))
		if t.Chance(1, 3) {
			v.SetInt(int64(t.N(200) - 100))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(genInt64(t)) >> (64 - v.Type().Bits()))
		if t.Chance(1, 3) {
			v.SetUint(uint64(t.N(200)))
		}
	case reflect.Float64:
		v.SetFloat(genFloat(t))
	case reflect.Ptr:
		if depth > 0 && t.Chance(2, 3) {
			v.Set(reflect.New(v.Type().Elem()))
			fillValue(t, v.Elem(), isXML, depth-1)
		}
	case reflect.Slice:
		n := t.Few(0, 3, 100)
		if n == 0 && t.Bool() {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			e := v.Index(i)
			fillValue(t, e, isXML, depth)
			if isXML && e.Kind() == reflect.Ptr && e.IsNil() {
				e.Set(reflect.New(e.Type().Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillValue(t, v.Index(i), isXML, depth)
		}
	case reflect.Map:
		n := t.N(4)
		if n == 0 && t.Bool() {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for ; n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fillValue(t, k, isXML, depth)
			fillValue(t, e, isXML, depth)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if v.Type().NumMethod() == 0 {
			if x := genAny(t, 2); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() || v.Type().Field(i).Anonymous && v.Field(i).Kind() == reflect.Struct {
				fillValue(t, v.Field(i), isXML, depth)
			}
		}
	}
}

func (c DocCase) typ() reflect.Type {
	var b reflect.Type
	if c.Fields == nil {
		b = reflect.TypeOf(docFix{})
	} else {
		b = docType(c.Fields)
	}
	switch c.Root {
	case "slice":
		return reflect.SliceOf(b)
	case "ptrslice":
		return reflect.SliceOf(reflect.PointerTo(b))
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), b)
	case "array":
		return reflect.ArrayOf(2, b)
	}
	return b
}

func genDocCase(t *T) DocCase {
	c := DocCase{XML: t.Chance(1, 3), Chunk: pick(t, 0, 0, 1, 5, 64), Ctx: t.Bool()}
	if !t.Chance(1, 6) {
		n := 0
		c.Fields = genDSpecs(t, c.XML, 2, &n)
	}
	c.CT = "application/json"
	if c.XML {
		c.CT = pick(t, "application/xml", "text/xml")
	} else if t.Chance(1, 3) {
		c.Root = pick(t, "slice", "ptrslice", "map", "array")
	}
	v := reflect.New(c.typ())
	fillValue(t, v.Elem(), c.XML, 3)
	if c.Root == "ptrslice" { // a null element has nothing to validate: refused
		for i := 0; i < v.Elem().Len(); i++ {
			if e := v.Elem().Index(i); e.IsNil() {
				e.Set(reflect.New(e.Type().Elem()))
			}
		}
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		bug("%v", err)
	}
	c.Doc = S(b)
	for n := t.N(6); n > 0; n-- {
		m := DocMut{Kind: pick(t, "tree", "tree", "tree", "byte", "del", "ins", "dup", "extra", "recase"), At: t.N(1 << 20)}
		switch m.Kind {
		case "tree":
			m.With = S(pick(t, `"x"`, `5`, `1.5`, `-1`, `true`, `null`, `[]`, `{}`, `[1,"a"]`, `{"a":1}`, `99999999999999999999999`, `1e400`, `300`, `""`, `-129`, `9223372036854775808`, `"5"`, `1e2`, `[[]]`, `"2021-02-30T00:00:00Z"`, `"!!"`, `-0`, `65536`))
			if c.XML {
				m.With = S(pick(t, "x", "", "5", "1.5", "-1", "true", "300", "99999999999999999999", "<z/>", "&lt;", "&", "<", "&#0;", "2021-02-30T00:00:00Z", " 5 ", "]]>"))
			}
		case "byte", "ins":
			m.With = S(pick(t, "{", "}", "[", "]", "\"", ",", ":", "\\", "0", "-", "e", ".", "<", ">", "/", "&", ";", "\x00", "\xff", " ", "\n", "n", "u", "=", "'", "!", "?"))
		case "extra":
			b, _ := json.Marshal(genAny(t, 3))
			m.With = S(b)
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

// countNodes and replaceNode walk a JSON tree in a fixed order.
func replaceNode(v any, at *int, with any) any {
	if *at == 0 {
		*at--
		return with
	}
	*at--
	switch x := v.(type) {
	case []any:
		for i := range x {
			if *at < 0 {
				break
			}
			x[i] = replaceNode(x[i], at, with)
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if *at < 0 {
				break
			}
			x[k] = replaceNode(x[k], at, with)
		}
	}
	return v
}

// recase spells the names of the outermost object in other letters.
func recase(v any, n int) any {
	switch x := v.(type) {
	case []any:
		for i := range x {
			x[i] = recase(x[i], n+i)
		}
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			b := []byte(k)
			for i := range b {
				if l := b[i] | 0x20; l >= 'a' && l <= 'z' && n>>(i%8)&1 == 1 {
					b[i] ^= 0x20
				}
			}
			if _, ok := out[string(b)]; ok {
				return v
			}
			out[string(b)] = e
		}
		return out
	}
	return v
}

func countNodes(v any) int {
	n := 1
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			n += countNodes(e)
		}
	case map[string]any:
		for _, e := range x {
			n += countNodes(e)
		}
	}
	return n
}

func anyTree(doc []byte) any {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		bug("tree of %s: %v", doc, err)
	}
	return v
}

// apply gives the mutated document.
func (m DocMut) apply(doc []byte, isXML bool) []byte {
	if len(doc) == 0 {
		return nil
	}
	at := m.At % len(doc)
	switch m.Kind {
	case "byte":
		return append(append(append([]byte(nil), doc[:at]...), m.With...), doc[at+1:]...)
	case "ins":
		return append(append(append([]byte(nil), doc[:at]...), m.With...), doc[at:]...)
	case "del":
		return append(append([]byte(nil), doc[:at]...), doc[at+1:]...)
	case "dup":
		end := min(len(doc), at+1+m.At/7%20)
		return append(append([]byte(nil), doc[:end]...), doc[at:]...)
	}
	if isXML {
		// replace the n-th text between tags
		var gaps [][2]int
		for i := 0; i < len(doc); i++ {
			if doc[i] == '>' && i+1 < len(doc) {
				j := bytes.IndexByte(doc[i:], '<')
				if j > 0 {
					gaps = append(gaps, [2]int{i + 1, i + j})
				}
			}
		}
		if len(gaps) == 0 {
			return doc
		}
		g := gaps[m.At%len(gaps)]
		return append(append(append([]byte(nil), doc[:g[0]]...), m.With...), doc[g[1]:]...)
	}
	tree := anyTree(doc)
	with := json.RawMessage(m.With)
	if m.Kind == "extra" {
		if x, ok := tree.(map[string]any); ok {
			x["unknown field"] = with
		}
		b, _ := json.Marshal(tree)
		return b
	}
	if m.Kind == "recase" {
		b, _ := json.Marshal(recase(tree, m.At))
		return b
	}
	n := m.At % countNodes(tree)
	tree = replaceNode(tree, &n, with)
	b, _ := json.Marshal(tree)
	return b
}

func (c DocCase) bind(doc []byte) (reflect.Value, error) {
	v := reflect.New(c.typ())
	body := io.NopCloser(chunkReader{bytes.NewReader(doc), c.Chunk})
	req := newReq("POST", "", c.CT, nil)
	req.Body, req.ContentLength = body, int64(len(doc))
	if c.Ctx {
		var err error
		if e := inCtx(req, func(ctx *water.Context) { err = ctx.Bind(v.Interface()) }); e != nil {
			return v, fmt.Errorf("PANIC %v", e)
		}
		return v, err
	}
	var b binding.Bindinger = binding.JSON
	if c.XML {
		b = binding.XML
	}
	var err error
	if p := catch(func() { err = b.Bind(req, v.Interface()) }); p != nil {
		return v, fmt.Errorf("PANIC %v", p)
	}
	return v, err
}

// catch runs f and gives what it panicked with.
func catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// std decodes the first value with the standard library.
func (c DocCase) std(doc []byte) (reflect.Value, error) {
	v := reflect.New(c.typ())
	if c.XML {
		return v, xml.NewDecoder(bytes.NewReader(doc)).Decode(v.Interface())
	}
	return v, json.NewDecoder(bytes.NewReader(doc)).Decode(v.Interface())
}

func runDocCase(c DocCase, o *Obs) error {
	want := reflect.New(c.typ())
	if err := json.Unmarshal([]byte(c.Doc), want.Interface()); err != nil {
		bug("document %s: %v", c.Doc, err)
	}
	doc := []byte(c.Doc)
	kind := "JSON"
	if c.XML {
		kind = "XML"
		var b bytes.Buffer
		e := xml.NewEncoder(&b)
		if err := e.EncodeElement(want.Interface(), xml.StartElement{Name: xml.Name{Local: "root"}}); err != nil {
			bug("xml: %v", err)
		}
		e.Flush()
		doc = b.Bytes()
	}
	if s, err := c.std(doc); err != nil || same(s, want, false, "obj") != nil {
		if c.XML { // not every value survives XML (an empty pointer to a structure, say)
			o.Label("not representable")
			return nil
		}
		bug("the standard library does not round-trip %s: %v, %v", doc, err, same(s, want, false, "obj"))
	}
	floatSlack = !c.XML && known("B04", "json-float-rounding")
	defer func() { floatSlack = false }()
	got, err := c.bind(doc)
	if err != nil {
		return fmt.Errorf("binding %s document %s to %v: %v", kind, doc, c.typ(), err)
	}
	if err := same(got.Elem(), want.Elem(), false, "obj"); err != nil {
		return fmt.Errorf("binding %s document %s to %v: %v", kind, doc, c.typ(), err)
	}
	o.Label(kind)
	if len(doc) > 30 {
		o.NT()
	}
	o.LabelIf(len(doc) > 512, "longer than a decoder's buffer")
	// truncations
	if c.XML || len(doc) > 0 && (doc[0] == '{' || doc[0] == '[') {
		step := 1 + len(doc)/48
		for n := len(doc) - 1; n >= 0; n -= step {
			if _, err := c.bind(doc[:n]); err == nil {
				return fmt.Errorf("binding the truncated %s document %s to %v succeeds", kind, doc[:n], c.typ())
			} else if strings.HasPrefix(err.Error(), "PANIC") {
				return fmt.Errorf("binding the truncated %s document %q: %v", kind, doc[:n], err)
			}
		}
	}
	for _, m := range c.Muts {
		d := m.apply(doc, c.XML)
		got, err := c.bind(d)
		if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			return fmt.Errorf("binding the %s document %q to %v: %v", kind, d, c.typ(), err)
		}
		want, serr := c.std(d)
		if serr != nil && err == nil && !c.XML {
			_, e1 := c.std(jsonLenient(d, "x"))
			_, e2 := c.std(jsonLenient(d, "")) // base64 decoding skips line ends
			if (e1 == nil || e2 == nil) && known("B04", "json-lenient") {
				o.Label("known finding: lenient JSON")
				continue
			}
			if (intOverflow(serr) || intOverflow(e1) || intOverflow(e2)) && known("B04", "json-int-overflow") {
				o.Label("known finding: integer overflow in JSON")
				continue
			}
		}
		if serr != nil && err == nil {
			return fmt.Errorf("binding the %s document %q to %v succeeds although %v", kind, d, c.typ(), serr)
		}
		if serr == nil && (m.Kind == "extra" || m.Kind == "recase" && c.Root != "map" || c.XML) {
			if err != nil {
				return fmt.Errorf("binding the %s document %q to %v: %v", kind, d, c.typ(), err)
			}
			if err := same(got.Elem(), want.Elem(), false, "obj"); err != nil {
				return fmt.Errorf("binding the %s document %q to %v: %v", kind, d, c.typ(), err)
			}
		}
		o.LabelIf(serr != nil, "altered document refused")
		o.LabelIf(serr == nil, "altered document still fits")
	}
	return nil
}

// jsonLenient rewrites what the JSON library lets pass although the grammar forbids it: raw control
// characters in field names, numbers such as 007 and -.5, blanks around the number in a key.
func jsonLenient(doc []byte, ctl string) []byte {
	var out []byte
	for i := 0; i < len(doc); {
		switch c := doc[i]; {
		case c == '"':
			start := len(out)
			out = append(out, '"')
			for i++; i < len(doc) && doc[i] != '"'; i++ {
				if doc[i] < 0x20 {
					out = append(out, ctl...)
				} else {
					out = append(out, doc[i])
				}
				if doc[i] == '\\' && i+1 < len(doc) {
					i++
					out = append(out, doc[i])
				}
			}
			if i < len(doc) {
				out = append(out, '"')
				i++
			}
			if t := strings.Trim(string(out[start:]), "\""); strings.Trim(t, " x") != "" && strings.Trim(t, " x0123456789-") == "" {
				out = append(append(out[:start], '"'), strings.Trim(t, " x")+"\""...)
			}
		case c >= '0' && c <= '9' || strings.IndexByte("+-.", c) >= 0:
			j := i
			for j < len(doc) && (doc[j] >= '0' && doc[j] <= '9' || strings.IndexByte("+-.eE", doc[j]) >= 0) {
				j++
			}
			num := string(doc[i:j])
			if !json.Valid([]byte(num)) {
				if n, ok := new(big.Int).SetString(strings.TrimPrefix(num, "+"), 10); ok {
					num = n.String()
				} else if x, err := strconv.ParseFloat(num, 64); err == nil {
					num = strconv.FormatFloat(x, 'g', -1, 64)
				}
			}
			out = append(out, num...)
			i = j
		default:
			out = append(out, c)
			i++
		}
	}
	return out
}

// intOverflow tells that an integer of the document is beyond its field.
func intOverflow(err error) bool {
	var te *json.UnmarshalTypeError
	if errors.As(err, &te) && strings.HasPrefix(te.Value, "number ") {
		_, ok := new(big.Int).SetString(strings.TrimPrefix(te.Value, "number "), 10)
		return ok
	}
	return false
}

// EmptyCase is about missing bodies.
type EmptyCase struct {
	XML    bool
	Body   int // 0 nil request, 1 nil body, 2 http.NoBody, 3 empty, 4 blanks
	Target int
	Method string
	Blank  S
}

func genEmpty(t *T) EmptyCase {
	return EmptyCase{XML: t.Bool(), Body: t.N(5), Target: t.N(6), Method: pick(t, "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD"), Blank: S(pick(t, " ", "\n", "\t\r\n ", strings.Repeat(" ", 2000)))}
}

func runEmpty(c EmptyCase, o *Obs) error {
	objs := []any{&poly{}, &[]poly{}, new(map[string]any), new(any), new(string), &[]*poly{}}
	obj := objs[c.Target]
	if c.XML {
		obj = &poly{}
	}
	ct := "application/json"
	var b binding.Bindinger = binding.JSON
	if c.XML {
		ct, b = "application/xml", binding.XML
	}
	req := newReq(c.Method, "", ct, nil)
	switch c.Body {
	case 0:
		req = nil
	case 1:
		req.Body = nil
	case 2:
		req.Body = http.NoBody
	case 4:
		req.Body = io.NopCloser(strings.NewReader(string(c.Blank)))
		req.ContentLength = int64(len(c.Blank))
	}
	var err error
	if p := catch(func() { err = b.Bind(req, obj) }); p != nil {
		return fmt.Errorf("%s of an absent body (%d) panics: %v", ct, c.Body, p)
	}
	if err == nil {
		return fmt.Errorf("%s of an absent body (%d) gives no error", ct, c.Body)
	}
	o.NT()
	if req == nil || req.Body == nil {
		return nil
	}
	req.Body = io.NopCloser(strings.NewReader(""))
	err = nil
	if e := inCtx(req, func(ctx *water.Context) { err = ctx.Bind(obj) }); e != nil {
		return e
	}
	if err == nil {
		return fmt.Errorf("ctx.Bind of an empty %s body gives no error", ct)
	}
	return nil
}

// BigDoc is a document of many kilobytes.
type BigDoc struct {
	XML   bool
	Size  int    // of the document, about
	Shape string // text, items, keys, deep
	Chunk int
	Ctx   bool
	Cut   int  // this many of its last bytes are missing
	Mark  int  // where the odd value is, per mille
	Len   bool // the length is declared
}

type bigDoc struct {
	Text  string         `json:"text" xml:"text"`
	Items []int          `json:"items" xml:"items"`
	Keys  map[string]int `json:"keys" xml:"-"`
	Deep  any            `json:"deep" xml:"-"`
	End   string         `json:"end" xml:"end"`
}

// near gives a length of up to 1<<maxBits bytes, often about a power of two.
func near(t *T, minBits, maxBits int) int {
	n := 1 << t.Range(minBits, maxBits)
	switch t.N(5) {
	case 0:
		return n/2 + t.N(n/2+1)
	case 1:
		return n
	case 2:
		return n / 4 * t.Range(1, 7)
	}
	return max(0, n+t.Range(-40, 40))
}

func genBigDoc(t *T) BigDoc {
	c := BigDoc{XML: t.Chance(1, 3), Size: near(t, 10, 22), Chunk: pick(t, 0, 0, 0, 1000, 4096, 65536), Ctx: t.Bool(), Mark: t.N(1000), Len: t.Chance(2, 3)}
	c.Shape = pick(t, "text", "items", "keys", "deep")
	if c.XML {
		c.Shape = pick(t, "text", "items")
	}
	if t.Bool() {
		c.Cut = pick(t, 1, 1, 2, 9, 100, 1000)
	}
	return c
}

// genHugeDoc makes documents of up to many megabytes.
func genHugeDoc(t *T) BigDoc {
	c := genBigDoc(t)
	c.Size = near(t, 22, 25)
	if c.Shape == "deep" {
		c.Shape = "text"
	}
	return c
}

// value gives the document's value.
func (c BigDoc) value() *bigDoc {
	d := &bigDoc{End: "the end"}
	switch c.Shape {
	case "text":
		b := bytes.Repeat([]byte("0123456789abcdef"), c.Size/16+1)[:c.Size]
		if len(b) > 0 {
			b[c.Mark*(len(b)-1)/1000] = '!'
		}
		d.Text = string(b)
	case "items":
		n := c.Size / 6
		if c.XML {
			n = c.Size / 20
		}
		for i := 0; i < n; i++ {
			d.Items = append(d.Items, 10000+i%89999)
		}
	case "keys":
		d.Keys = map[string]int{}
		for i := 0; i < c.Size/14; i++ {
			d.Keys[fmt.Sprintf("k%07d", i)] = i % 90
		}
	case "deep": // deep only to a point: encoding/json gives up at 10000
		var x any = "x"
		for i := 0; i < min(c.Size/4, 3000); i++ {
			x = []any{x}
		}
		d.Deep = x
	}
	return d
}

func runBigDoc(c BigDoc, o *Obs) error {
	want := c.value()
	var doc []byte
	var err error
	var b binding.Bindinger = binding.JSON
	ct := "application/json"
	if c.XML {
		doc, err = xml.Marshal(want)
		b, ct = binding.XML, "application/xml"
	} else {
		doc, err = json.Marshal(want)
	}
	if err != nil {
		bug("%v", err)
	}
	whole := len(doc)
	doc = doc[:max(0, len(doc)-c.Cut)]
	req := newReq("POST", "", ct, nil)
	req.Body, req.ContentLength = io.NopCloser(chunkReader{bytes.NewReader(doc), c.Chunk}), -1
	if c.Len {
		req.ContentLength = int64(len(doc))
	}
	var got bigDoc
	if c.Ctx {
		if e := inCtx(req, func(ctx *water.Context) { err = ctx.Bind(&got) }); e != nil {
			return e
		}
	} else if p := catch(func() { err = b.Bind(req, &got) }); p != nil {
		return fmt.Errorf("a %s document of %d bytes panics: %v", ct, len(doc), p)
	}
	o.NT()
	o.LabelIf(whole > 64<<10, "longer than 64 KiB")
	o.LabelIf(whole > 1<<20, "longer than 1 MiB")
	if c.Cut > 0 {
		if err == nil {
			return fmt.Errorf("a %s document of %d bytes is accepted without its last %d", ct, whole, c.Cut)
		}
		o.Label("truncated")
		return nil
	}
	if err != nil {
		return fmt.Errorf("a %s document of %d bytes (%s): %v", ct, whole, c.Shape, err)
	}
	if !reflect.DeepEqual(&got, want) {
		return fmt.Errorf("a %s document of %d bytes (%s) comes back different", ct, whole, c.Shape)
	}
	return nil
}

func bindJSON(doc string, obj any) error {
	return binding.JSON.Bind(newReq("POST", "", "application/json", []byte(doc)), obj)
}

func probeLenient() (string, bool) {
	var accepted []string
	for _, d := range []string{"{\"\na\":5}", `{"a":5,"x":-.5}`, `{"x":00.25}`} {
		var obj struct {
			A int `json:"a"`
			X any `json:"x"`
		}
		if bindJSON(d, &obj) == nil {
			accepted = append(accepted, fmt.Sprintf("%q", d))
		}
	}
	return "malformed JSON is accepted by the JSON library: " + strings.Join(accepted, ", "), len(accepted) > 0
}

func init() {
	register(&Property{ID: "B03", Families: []*Family{
		fam("choose", 6000, "a request of random method, content type and parameters whose query and body carry different values; non-trivial: the outcome is fixed by the values alone (body of the format its content type declares, or not read)", genPoly, runPoly),
	}})
	register(&Property{ID: "B04", Known: []KnownFinding{
		{"json-int-overflow", func() (string, bool) {
			var obj struct {
				A uint32 `json:"a"`
			}
			err := bindJSON(`{"a":21474836477}`, &obj)
			return fmt.Sprintf("binding {\"a\":21474836477} to a uint32 gives %d, error %v", obj.A, err), err == nil
		}},
		{"json-float-rounding", func() (string, bool) {
			var obj struct {
				A float64 `json:"a"`
			}
			err := bindJSON(`{"a":-4374232702926888.5}`, &obj)
			return fmt.Sprintf("binding {\"a\":-4374232702926888.5} to a float64 gives %v, error %v", strconv.FormatFloat(obj.A, 'f', -1, 64), err), err == nil && obj.A != -4374232702926888.5
		}},
		{"json-lenient", probeLenient},
	}, Families: []*Family{
		fam("documents", 3000, "random document types and values, encoded by the standard library as JSON or XML, bound whole, truncated and altered; non-trivial: the document is longer than 30 bytes", genDocCase, runDocCase),
		fam("large", 60, "documents of 1 KiB to 4 MiB (one long text, many items, many keys, deep nesting), whole and cut short, with and without a declared length; all are non-trivial", genBigDoc, runBigDoc),
		huge(fam("huge", 4, "the same of 4 MiB to 32 MiB and more", genHugeDoc, runBigDoc)),
		fam("absent", 500, "nil, empty and blank bodies; all are non-trivial", genEmpty, runEmpty),
	}})
}
