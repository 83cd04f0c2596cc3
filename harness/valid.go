package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"html"
	"net/http"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// VSpec is a field with declared constraints.
type VSpec struct {
	Go, Name string
	Kind     string // string, int, uint8, float64, bool, time, struct
	Shape    string // "", ptr, slice, sliceptr
	Tag      string // the binding tag
	Sub      []VSpec
}

type ValidCase struct {
	Fields   []VSpec
	Doc      S      // JSON of the value
	Root     string // "", slice, ptrslice, array, ptr, slices (JSON only)
	Src      string
	Disabled bool
}

var validEmails = []string{"a@b.co", "x.y@example.com", "user+tag@mail.example.org"}
var badEmails = []string{"", "a", "@b.co", "a@", "a b@c.de", "a@b@c.de", "plain"}

// holds decides one constraint on one value, independently of the validator.
func holds(tok string, v, parent reflect.Value) bool {
	name, arg, _ := strings.Cut(tok, "=")
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return false // required
		}
		if name == "required" {
			return true
		}
		v = v.Elem()
	}
	size := func(cmp func(a, b float64) bool) bool {
		n, err := strconv.ParseFloat(arg, 64)
		if err != nil {
			bug("constraint %q", tok)
		}
		switch v.Kind() {
		case reflect.String:
			return cmp(float64(utf8.RuneCountInString(v.String())), n)
		case reflect.Slice, reflect.Map:
			return cmp(float64(v.Len()), n)
		case reflect.Int:
			return cmp(float64(v.Int()), n)
		case reflect.Uint8:
			return cmp(float64(v.Uint()), n)
		case reflect.Float64:
			return cmp(v.Float(), n)
		}
		bug("constraint %q on %v", tok, v.Kind())
		return false
	}
	text := func() string {
		switch v.Kind() {
		case reflect.Int:
			return fmt.Sprint(v.Int())
		case reflect.Uint8:
			return fmt.Sprint(v.Uint())
		}
		return v.String()
	}
	all := func(ok func(r rune) bool) bool {
		for _, r := range v.String() {
			if !ok(r) {
				return false
			}
		}
		return v.String() != ""
	}
	letter := func(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
	digit := func(r rune) bool { return r >= '0' && r <= '9' }
	switch name {
	case "required":
		if v.Kind() == reflect.Slice {
			return !v.IsNil()
		}
		return !v.IsZero()
	case "min", "gte":
		return size(func(a, b float64) bool { return a >= b })
	case "max", "lte":
		return size(func(a, b float64) bool { return a <= b })
	case "gt":
		return size(func(a, b float64) bool { return a > b })
	case "lt":
		return size(func(a, b float64) bool { return a < b })
	case "len":
		return size(func(a, b float64) bool { return a == b })
	case "eq", "ne":
		var is bool
		if v.Kind() == reflect.String {
			is = v.String() == arg
		} else {
			is = size(func(a, b float64) bool { return a == b })
		}
		return is == (name == "eq")
	case "oneof":
		return containsStr(strings.Fields(arg), text())
	case "alpha":
		return all(letter)
	case "alphanum":
		return all(func(r rune) bool { return letter(r) || digit(r) })
	case "numeric":
		return regexp.MustCompile(`^[-+]?[0-9]+(?:\.[0-9]+)?$`).MatchString(v.String())
	case "contains":
		return strings.Contains(v.String(), arg)
	case "startswith":
		return strings.HasPrefix(v.String(), arg)
	case "excludes":
		return !strings.Contains(v.String(), arg)
	case "email":
		return containsStr(validEmails, v.String())
	case "unique":
		seen := map[any]bool{}
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i).Interface(); seen[e] {
				return false
			} else {
				seen[e] = true
			}
		}
		return true
	case "eqfield":
		return reflect.DeepEqual(v.Interface(), parent.FieldByName(arg).Interface())
	}
	bug("constraint %q", tok)
	return false
}

func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return v.IsZero()
}

// broken gives the first violated constraint.
func broken(fs []VSpec, v reflect.Value, path string) string {
	for i, f := range fs {
		if s := f.broken(f.Tag, v.Field(i), v, path+"."+f.Go); s != "" {
			return s
		}
	}
	return ""
}

func (f VSpec) broken(tag string, v, parent reflect.Value, path string) string {
	for tag != "" {
		var tok string
		tok, tag, _ = strings.Cut(tag, ",")
		switch tok {
		case "omitempty":
			if empty(v) {
				return ""
			}
			continue
		case "dive":
			for i := 0; i < v.Len(); i++ {
				if s := f.broken(tag, v.Index(i), parent, fmt.Sprintf("%s[%d]", path, i)); s != "" {
					return s
				}
			}
			return ""
		}
		if v.Kind() == reflect.Struct && v.Type() != reflect.TypeOf(time.Time{}) {
			continue // required of a structure: what its fields say
		}
		if !holds(tok, v, parent) {
			return path + " " + tok
		}
	}
	if f.Kind == "struct" {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return ""
			}
			v = v.Elem()
		}
		if v.Kind() == reflect.Struct {
			return broken(f.Sub, v, path)
		}
	}
	return ""
}

func validType(fs []VSpec) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		var b reflect.Type
		if f.Kind == "struct" {
			b = validType(f.Sub)
		} else {
			b = kindTypes[f.Kind]
		}
		switch f.Shape {
		case "ptr":
			b = reflect.PointerTo(b)
		case "slice":
			b = reflect.SliceOf(b)
		case "sliceptr":
			b = reflect.SliceOf(reflect.PointerTo(b))
		}
		tag := fmt.Sprintf("json:%q xml:%q", f.Name, f.Name)
		if f.Kind != "struct" {
			tag += fmt.Sprintf(" form:%q uri:%q header:%q", f.Name, f.Name, f.Name)
		}
		if f.Tag != "" {
			tag += fmt.Sprintf(" binding:%q", f.Tag)
		}
		sf = append(sf, reflect.StructField{Name: f.Go, Type: b, Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(sf)
}

func genScalarTag(t *T, kind string) string {
	switch kind {
	case "string":
		var toks []string
		for n := t.Range(1, 2); n > 0; n-- {
			toks = append(toks, pick(t, "required", "min=2", "max=4", "len=3", "gt=1", "gte=1", "lt=5", "lte=3", "eq=abc", "ne=abc", "oneof=abc de x1", "alpha", "alphanum", "numeric", "contains=b", "startswith=a", "excludes=z"))
		}
		if t.Chance(1, 8) {
			return "email"
		}
		return strings.Join(toks, ",")
	case "int", "float64", "uint8":
		toks := []string{pick(t, "required", "min=2", "max=10", "gt=0", "gte=3", "lt=9", "lte=5", "eq=4", "ne=4", "len=7")}
		if t.Bool() {
			toks = append(toks, pick(t, "min=1", "max=9", "ne=5"))
		}
		if kind != "float64" && t.Chance(1, 6) {
			toks = append(toks, "oneof=1 3 5 7")
		}
		return strings.Join(toks, ",")
	}
	return "required"
}

func genVSpecs(t *T, lists bool, depth int, n *int) []VSpec {
	var fs []VSpec
	for k := t.Few(1, 5, 30); k > 0; k-- {
		*n++
		f := VSpec{Go: fmt.Sprintf("F%d", *n), Name: fmt.Sprintf("%s%d", pick(t, "a", "name", "Id", "user"), *n)}
		if depth > 0 && t.Chance(1, 3) {
			f.Kind = "struct"
			f.Sub = genVSpecs(t, lists, depth-1, n)
			f.Shape = pick(t, "", "ptr")
			if lists {
				f.Shape = pick(t, "", "ptr", "slice", "sliceptr")
			}
			switch f.Shape {
			case "ptr":
				f.Tag = pick(t, "", "required", "omitempty")
			case "slice":
				f.Tag = pick(t, "dive", "required,dive", "min=1,dive", "omitempty,max=2,dive", "")
			case "sliceptr":
				f.Tag = pick(t, "dive", "required,dive,required", "dive,required", "max=2,dive", "")
			}
		} else {
			f.Kind = pick(t, "string", "string", "int", "uint8", "float64", "bool", "time")
			f.Shape = pick(t, "", "", "", "ptr", "slice")
			if f.Kind == "uint8" && f.Shape == "slice" { // bytes to JSON and XML
				f.Kind = "int"
			}
			base := genScalarTag(t, f.Kind)
			switch f.Shape {
			case "":
				f.Tag = base
				if t.Chance(1, 4) {
					f.Tag = "omitempty," + strings.TrimPrefix(base, "required,")
				}
				if t.Chance(1, 8) {
					f.Tag = ""
				}
				if t.Chance(1, 5) {
					for _, g := range fs {
						if g.Kind == f.Kind && g.Shape == "" && g.Kind != "struct" && g.Kind != "time" && g.Kind != "bool" {
							f.Tag = "eqfield=" + g.Go
						}
					}
				}
			case "ptr":
				f.Tag = pick(t, "required", "omitempty")
				if b := strings.TrimPrefix(base, "required"); b == base {
					f.Tag += "," + base
				}
			case "slice":
				f.Tag = pick(t, "required", "omitempty", "min=1", "max=2", "len=2", "required,max=3")
				if f.Kind != "float64" && f.Kind != "time" && t.Chance(1, 5) {
					f.Tag += ",unique"
				}
				if t.Chance(2, 3) {
					f.Tag += ",dive," + base
				}
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func genScalarValue(t *T, f VSpec, v reflect.Value) {
	switch v.Type() {
	case reflect.TypeOf(time.Time{}):
		if t.Chance(3, 4) {
			v.Set(reflect.ValueOf(time.Unix(int64(t.N(1e9)), 0).UTC()))
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		s := pick(t, "abc", "", "a", "de", "x1", "ab", "abcd", "abcde", "123", "-4.5", "éé中", "b", "az", "a b", "12", "é")
		if strings.Contains(f.Tag, "email") {
			if t.Bool() {
				s = pick(t, validEmails...)
			} else {
				s = pick(t, badEmails...)
			}
		}
		v.SetString(s)
	case reflect.Int:
		v.SetInt(int64(t.N(14) - 2))
	case reflect.Uint8:
		v.SetUint(uint64(t.N(12)))
	case reflect.Float64:
		v.SetFloat(float64(t.N(48)-4) / 4)
	case reflect.Bool:
		v.SetBool(t.Chance(3, 4))
	default:
		bug("value of %v", v.Type())
	}
}

// genField fills one field; good: tries to meet its constraints.
func genField(t *T, f VSpec, v, parent reflect.Value, good func() bool) {
	tries := 1
	if good() {
		tries = 12
	}
	for ; tries > 0; tries-- {
		v.SetZero()
		one := func(e reflect.Value) {
			if f.Kind == "struct" {
				for i, g := range f.Sub {
					genField(t, g, e.Field(i), e, good)
				}
			} else {
				genScalarValue(t, f, e)
			}
		}
		switch f.Shape {
		case "":
			one(v)
		case "ptr":
			if t.Chance(3, 4) {
				v.Set(reflect.New(v.Type().Elem()))
				one(v.Elem())
			}
		default:
			n := t.Few(0, 3, 60)
			if n == 0 {
				break
			}
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				e := v.Index(i)
				if f.Shape == "sliceptr" {
					if t.Chance(1, 10) {
						continue
					}
					e.Set(reflect.New(e.Type().Elem()))
					e = e.Elem()
				}
				one(e)
			}
		}
		if f.broken(f.Tag, v, parent, "") == "" {
			return
		}
	}
}

var validSrcs = []string{"json", "xml", "ctxjson", "ctxxml", "ctxget", "ctxpost", "ctxquery", "ctxheader", "ctxmultipart", "uri", "query", "formpost", "header", "multipart", "uri2", "query2", "formpost2", "header2", "multipart2", "direct"}

func genValid(t *T) ValidCase {
	c := ValidCase{Src: pick(t, validSrcs...), Disabled: t.Chance(1, 12)}
	lists := strings.Contains(c.Src, "json") || strings.Contains(c.Src, "xml") || c.Src == "direct"
	n := 0
	c.Fields = genVSpecs(t, lists, 2, &n)
	if strings.Contains(c.Src, "json") || c.Src == "direct" {
		c.Root = pick(t, "", "", "slice", "ptrslice", "array", "slices", "ptr", "ptrptrs", "ptrarray", "ptrtoptr")
	}
	mode := t.N(4) // all good, mostly good, anything, a rare slip
	good := func() bool { return mode == 0 || mode == 1 && !t.Chance(1, 8) || mode == 3 && !t.Chance(1, 150) }
	v := reflect.New(c.typ())
	fill := func(s reflect.Value) {
		for i, f := range c.Fields {
			genField(t, f, s.Field(i), s, good)
		}
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
			walk(v.Elem())
		case reflect.Slice:
			n := t.Few(0, 3, 100)
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		default:
			fill(v)
		}
	}
	walk(v.Elem())
	b, err := json.Marshal(v.Interface())
	if err != nil {
		bug("%v", err)
	}
	c.Doc = S(b)
	return c
}

func (c ValidCase) typ() reflect.Type {
	b := validType(c.Fields)
	switch c.Root {
	case "ptr":
		return reflect.PointerTo(b)
	case "slice":
		return reflect.SliceOf(b)
	case "ptrslice":
		return reflect.SliceOf(reflect.PointerTo(b))
	case "array":
		return reflect.ArrayOf(2, b)
	case "slices":
		return reflect.SliceOf(reflect.SliceOf(b))
	case "ptrptrs":
		return reflect.SliceOf(reflect.PointerTo(reflect.PointerTo(b)))
	case "ptrarray":
		return reflect.ArrayOf(3, reflect.PointerTo(b))
	case "ptrtoptr":
		return reflect.PointerTo(reflect.PointerTo(reflect.SliceOf(b)))
	}
	return b
}

// broken evaluates the whole root.
func (c ValidCase) broken(v reflect.Value, path string) string {
	switch v.Kind() {
	case reflect.Ptr:
		return c.broken(v.Elem(), path)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if s := c.broken(v.Index(i), fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	}
	return broken(c.Fields, v, path)
}

// xmlOf writes the value as XML.
func xmlOf(b *bytes.Buffer, name string, v reflect.Value, fs []VSpec) {
	switch {
	case v.Type() == reflect.TypeOf(time.Time{}):
		fmt.Fprintf(b, "<%s>%s</%s>", name, v.Interface().(time.Time).Format(time.RFC3339Nano), name)
	case v.Kind() == reflect.Ptr:
		if !v.IsNil() {
			xmlOf(b, name, v.Elem(), fs)
		}
	case v.Kind() == reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			xmlOf(b, name, v.Index(i), fs)
		}
	case v.Kind() == reflect.Struct:
		fmt.Fprintf(b, "<%s>", name)
		for i, f := range fs {
			xmlOf(b, f.Name, v.Field(i), f.Sub)
		}
		fmt.Fprintf(b, "</%s>", name)
	default:
		fmt.Fprintf(b, "<%s>%s</%s>", name, html.EscapeString(fmt.Sprint(v.Interface())), name)
	}
}

// kvsOf lists the submitted values; zero scalars may be left out.
func kvsOf(fs []VSpec, v reflect.Value, out []KV) []KV {
	text := func(e reflect.Value) S {
		if tm, ok := e.Interface().(time.Time); ok {
			return S(tm.Format(time.RFC3339Nano))
		}
		return S(fmt.Sprint(e.Interface()))
	}
	for i, f := range fs {
		fv := v.Field(i)
		if fv.Kind() == reflect.Ptr {
			if fv.IsNil() {
				continue
			}
			fv = fv.Elem()
		}
		if f.Kind == "struct" {
			out = kvsOf(f.Sub, fv, out)
			continue
		}
		if fv.Kind() == reflect.Slice {
			for j := 0; j < fv.Len(); j++ {
				out = append(out, KV{S(f.Name), text(fv.Index(j))})
			}
			continue
		}
		if f.Shape == "" && fv.IsZero() && len(f.Name)%2 == 0 {
			continue
		}
		out = append(out, KV{S(f.Name), text(fv)})
	}
	return out
}

func dropNil(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			dropNil(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			dropNil(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		out := reflect.Zero(v.Type())
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.Kind() != reflect.Ptr || !e.IsNil() {
				dropNil(e)
				out = reflect.Append(out, e)
			}
		}
		v.Set(out)
	}
}

func runValid(c ValidCase, o *Obs) error {
	want := reflect.New(c.typ())
	if err := json.Unmarshal([]byte(c.Doc), want.Interface()); err != nil {
		bug("%s: %v", c.Doc, err)
	}
	if strings.Contains(c.Src, "xml") {
		dropNil(want.Elem()) // XML has no null elements
	}
	if c.Disabled {
		binding.Validator = nil
		defer resetGlobals()
	}
	obj := reflect.New(c.typ())
	var err error
	var pan any
	switch c.Src {
	case "json", "xml", "ctxjson", "ctxxml":
		ct, body := "application/json", []byte(c.Doc)
		if strings.Contains(c.Src, "xml") {
			var b bytes.Buffer
			xmlOf(&b, "root", want.Elem(), c.Fields)
			ct, body = "application/xml", b.Bytes()
		}
		req := newReq("POST", "", ct, body)
		switch c.Src {
		case "json":
			pan = catch(func() { err = binding.JSON.Bind(req, obj.Interface()) })
		case "xml":
			pan = catch(func() { err = binding.XML.Bind(req, obj.Interface()) })
		default:
			if e := inCtx(req, func(ctx *water.Context) { err = ctx.Bind(obj.Interface()) }); e != nil {
				pan = e
			}
		}
	case "direct":
		if c.Disabled {
			return nil
		}
		obj = want
		o.Label("the validator itself")
		pan = catch(func() {
			err = binding.Validator.ValidateStruct(obj.Interface())
			e2 := binding.Validator.ValidateStruct(obj.Elem().Interface())
			p := obj.Interface()
			e3 := binding.Validator.ValidateStruct(&p)
			_ = e3 // a pointer to an interface holds nothing of its own
			if (err == nil) != (e2 == nil) {
				err = fmt.Errorf("PANIC the value and the pointer to it differ: %v, %v", err, e2)
			}
		})
	default:
		_, _, err = bindVia(c.Src, kvsOf(c.Fields, want.Elem(), nil), obj.Interface())
	}
	if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
		pan = err
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s bind of %s to %v: %s", c.Src, c.Doc, c.typ(), fmt.Sprintf(f, a...))
	}
	if pan != nil {
		return fail("panic %v", pan)
	}
	if e := same(obj.Elem(), want.Elem(), true, "obj"); e != nil {
		return fail("%v (error %v)", e, err)
	}
	why := c.broken(obj.Elem(), "obj")
	if c.Disabled {
		why = ""
		o.Label("validation disabled")
	}
	switch {
	case why == "" && err != nil:
		return fail("every constraint holds but binding fails: %v", err)
	case why != "" && err == nil:
		return fail("binding succeeds although %s is violated", why)
	case why != "":
		o.Label("violated")
		o.NT()
	default:
		o.Label("all hold")
		if len(c.Fields) > 1 {
			o.NT()
		}
	}
	o.Label("from " + c.Src)
	o.LabelIf(c.Root != "", "list or pointer at the top")
	o.LabelIf(strings.Contains(why, "["), "violated in an element")
	return nil
}

// --- one slip somewhere in a long list ---

type ListVCase struct {
	Src   string
	Shape string
	N     int
	At    int // the element that breaks the constraint, -1 for none
	Nil   bool
}

type lvElem struct {
	A int    `json:"a" xml:"a" binding:"min=3"`
	B string `json:"b" xml:"b"`
}

type lvBox struct {
	L  []lvElem       `json:"l" xml:"l" binding:"dive"`
	P  []*lvElem      `json:"p" xml:"p" binding:"dive,required"`
	M  map[string]int `json:"m" xml:"-" binding:"dive,min=3"`
	S  []string       `json:"s" xml:"s" form:"s" binding:"dive,min=1"`
	LL [][]lvElem     `json:"ll" xml:"-" binding:"dive,dive"`
}

func genListV(t *T) ListVCase {
	c := ListVCase{N: t.Few(1, 20, 2500), Src: pick(t, "json", "direct", "xml", "form")}
	switch c.Src {
	case "json", "direct":
		c.Shape = pick(t, "slice", "ptrslice", "slices", "ptrto", "ptrptrs", "anys", "box.L", "box.P", "box.M", "box.S", "box.LL")
	case "xml":
		c.Shape = pick(t, "box.L", "box.P", "box.S")
	case "form":
		c.Shape = "box.S"
	}
	if c.Shape == "anys" { // JSON would put maps into it
		c.Src = "direct"
	}
	c.At = t.N(c.N+c.N/2+1) - 1
	if c.At >= c.N {
		c.At = -1
	}
	c.Nil = t.Chance(1, 4) && (c.Shape == "ptrslice" || c.Shape == "box.P")
	return c
}

func runListV(c ListVCase, o *Obs) error {
	el := func(i int) lvElem {
		e := lvElem{A: 3 + i%5, B: fmt.Sprint(i)}
		if i == c.At {
			e.A = 2
		}
		return e
	}
	val := func() any {
		var box lvBox
		var flat []lvElem
		var ptrs []*lvElem
		for i := 0; i < c.N; i++ {
			e := el(i)
			flat = append(flat, e)
			if i == c.At && c.Nil && c.Src != "xml" {
				ptrs = append(ptrs, nil)
			} else {
				ptrs = append(ptrs, &e)
			}
		}
		var nested [][]lvElem
		for i := 0; i < len(flat); i += 3 {
			nested = append(nested, flat[i:min(i+3, len(flat))])
		}
		switch c.Shape {
		case "slice":
			return &flat
		case "ptrto":
			p := &flat
			return &p
		case "ptrslice":
			return &ptrs
		case "ptrptrs":
			var pp []**lvElem
			for i := range ptrs {
				pp = append(pp, &ptrs[i])
			}
			return &pp
		case "anys":
			var as []any
			for i := range ptrs {
				if i%2 == 0 {
					as = append(as, ptrs[i])
				} else {
					as = append(as, *ptrs[i])
				}
			}
			return &as
		case "slices":
			return &nested
		case "box.L":
			box.L = flat
		case "box.P":
			box.P = ptrs
		case "box.LL":
			box.LL = nested
		case "box.M":
			box.M = map[string]int{}
			for i := 0; i < c.N; i++ {
				box.M[fmt.Sprint("k", i)] = el(i).A
			}
		case "box.S":
			for i := 0; i < c.N; i++ {
				s := fmt.Sprint(i)
				if i == c.At {
					s = ""
				}
				box.S = append(box.S, s)
			}
		}
		return &box
	}
	obj := val()
	var err error
	pan := catch(func() {
		if c.Src == "direct" {
			err = binding.Validator.ValidateStruct(obj)
			return
		}
		want := obj
		obj = reflect.New(reflect.TypeOf(obj).Elem()).Interface()
		switch c.Src {
		case "json":
			b, e := json.Marshal(want)
			if e != nil {
				bug("%v", e)
			}
			err = binding.JSON.Bind(newReq("POST", "", "application/json", b), obj)
		case "xml":
			b, e := xml.Marshal(want)
			if e != nil {
				bug("%v", e)
			}
			err = binding.XML.Bind(newReq("POST", "", "application/xml", b), obj)
		case "form":
			var kvs []KV
			for _, s := range want.(*lvBox).S {
				kvs = append(kvs, KV{"s", S(s)})
			}
			err = binding.Query.Bind(newReq("GET", encQuery(kvs), "", nil), obj)
		}
	})
	if pan != nil {
		return fmt.Errorf("%s of %d elements (%s): panic %v", c.Src, c.N, c.Shape, pan)
	}
	o.NT()
	o.LabelIf(c.N > 64, "more than 64 elements")
	o.Label(c.Shape)
	if c.At < 0 && err != nil {
		return fmt.Errorf("%s of %d sound elements (%s): %v", c.Src, c.N, c.Shape, err)
	}
	if c.At >= 0 && err == nil {
		return fmt.Errorf("%s of %d elements (%s): element %d breaks its constraint and nothing is reported", c.Src, c.N, c.Shape, c.At)
	}
	return nil
}

// --- a replaced validator ---

type stubValidator struct {
	calls []any
	err   error
}

func (s *stubValidator) ValidateStruct(obj interface{}) error {
	s.calls = append(s.calls, obj)
	return s.err
}
func (s *stubValidator) Engine() interface{} { return nil }
func (s *stubValidator) Name() string        { return "stub" }

type StubCase struct {
	Src  string
	A    S
	N    int
	Fail bool
	Bad  bool // the input does not decode
}

func genStub(t *T) StubCase {
	srcs := append(append([]string{"json", "xml", "ctxjson", "ctxxml"}, srcMain[1:]...), srcAlt...)
	return StubCase{Src: pick(t, srcs...), A: S(genToken(t)), N: t.N(100), Fail: t.Bool(), Bad: t.Chance(1, 5)}
}

func runStub(c StubCase, o *Obs) error {
	errStub := errors.New("stub says no")
	stub := &stubValidator{}
	if c.Fail {
		stub.err = errStub
	}
	binding.Validator = stub
	defer resetGlobals()
	var obj poly
	n := fmt.Sprint(c.N)
	if c.Bad {
		n = "x"
	}
	var err error
	switch c.Src {
	case "json", "ctxjson", "xml", "ctxxml":
		ct, body := "application/json", fmt.Sprintf(`{"a":%q,"n":%s}`, c.A, n)
		var b binding.Bindinger = binding.JSON
		if strings.HasSuffix(c.Src, "xml") {
			ct, body, b = "text/xml", fmt.Sprintf("<x><a>%s</a><n>%s</n></x>", html.EscapeString(string(c.A)), n), binding.XML
		}
		req := newReq("PUT", "", ct, []byte(body))
		if c.Src == "json" || c.Src == "xml" {
			err = b.Bind(req, &obj)
		} else if e := inCtx(req, func(ctx *water.Context) { err = ctx.Bind(&obj) }); e != nil {
			return e
		}
	default:
		_, _, err = bindVia(c.Src, []KV{{"a", c.A}, {"n", S(n)}}, &obj)
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s bind of a=%q n=%s with a validator of the user's own: %s", c.Src, c.A, n, fmt.Sprintf(f, a...))
	}
	if c.Bad {
		if err == nil {
			return fail("no error")
		}
		return nil
	}
	if len(stub.calls) != 1 {
		return fail("the validator was called %d times", len(stub.calls))
	}
	if p, ok := stub.calls[0].(*poly); !ok || p != &obj {
		return fail("the validator was given %T", stub.calls[0])
	}
	if obj.A != string(c.A) || obj.N != c.N {
		return fail("bound %s", obj.show())
	}
	if c.Fail && !errors.Is(err, errStub) || !c.Fail && err != nil {
		return fail("error %v, the validator's is %v", err, stub.err)
	}
	o.NT()
	o.Label("from " + c.Src)
	return nil
}

var _ http.Handler

// methodValue has methods that look like checks; none of them is a declared constraint.
type methodValue struct {
	N int    `form:"n" json:"n" xml:"n" header:"n" uri:"n" binding:"max=9"`
	V string `form:"v" json:"v" xml:"v" header:"v" uri:"v"`
}

var errMethod = errors.New("asked a method of the value")

func (*methodValue) Validate() error       { return errMethod }
func (*methodValue) Check() error          { return errMethod }
func (*methodValue) Verify() error         { return errMethod }
func (methodValue) Valid() bool            { return false }
func (methodValue) IsValid() bool          { return false }
func (methodValue) ValidateStruct() error  { return errMethod }
func (*methodValue) ValidateStruct2() bool { return false }

type MethodCase struct {
	Src      string
	N        int
	V        S
	Disabled bool
}

func genMethods(t *T) MethodCase {
	return MethodCase{Src: pick(t, validSrcs[:len(validSrcs)-1]...), N: t.N(20), V: S(pick(t, "", "a", "0", "word")), Disabled: t.Bool()}
}

func runMethods(c MethodCase, o *Obs) error {
	if c.Disabled {
		binding.Validator = nil
		defer resetGlobals()
	}
	o.LabelIf(c.Disabled, "validation disabled")
	o.NT()
	var v methodValue
	var err error
	switch c.Src {
	case "json", "ctxjson", "xml", "ctxxml":
		ct, body := "application/json", fmt.Sprintf(`{"n":%d,"v":%q}`, c.N, c.V)
		if strings.Contains(c.Src, "xml") {
			ct, body = "application/xml", fmt.Sprintf("<r><n>%d</n><v>%s</v></r>", c.N, c.V)
		}
		req := newReq("POST", "", ct, []byte(body))
		switch c.Src {
		case "json":
			err = binding.JSON.Bind(req, &v)
		case "xml":
			err = binding.XML.Bind(req, &v)
		default:
			if e := inCtx(req, func(ctx *water.Context) { err = ctx.Bind(&v) }); e != nil {
				return fmt.Errorf("panic %v", e)
			}
		}
	default:
		_, _, err = bindVia(c.Src, []KV{{"n", S(strconv.Itoa(c.N))}, {"v", c.V}}, &v)
	}
	if ok := c.Disabled || c.N <= 9; ok != (err == nil) {
		return fmt.Errorf("%s bind of n=%d (at most 9), validation disabled: %v: error %v", c.Src, c.N, c.Disabled, err)
	}
	if v.N != c.N || v.V != string(c.V) {
		return fmt.Errorf("%s bind of n=%d v=%q: %+v", c.Src, c.N, c.V, v)
	}
	return nil
}

func init() {
	register(&Property{ID: "B05", Families: []*Family{
		fam("constraints", 12000, "random constrained types (required, bounds, lengths, formats, cross-field, element constraints; nested, pointers, lists) and values with none, some or many constraints violated, from twenty entry points; the constraints are evaluated independently on the bound object; non-trivial: a constraint is violated or more than one field is constrained", genValid, runValid),
		fam("lists", 3000, "lists, maps and nested lists of 1 to 2500 elements of which at most one breaks its constraint; all are non-trivial", genListV, runListV),
		fam("own-validator", 3000, "every binder with a validator of the user's own; non-trivial: the input decodes", genStub, runStub),
		fam("methods", 1500, "a type with methods named like checks (Validate, Valid, Check and others, all failing), which are no declared constraints, with the validator enabled and disabled; all are non-trivial", genMethods, runMethods),
	}})
}
