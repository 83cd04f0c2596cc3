package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// BindCase is a struct type and several submissions bound to it.
type BindCase struct {
	Fields []FSpec
	Subs   []BindSub
}

type BindSub struct {
	Src  string
	Vals []KV   // in order; several of one name
	Bad  string `json:",omitempty"` // the name with a planted unfit value
}

// sources of the main binder and of the alternative one
var (
	srcMain = []string{"mapform", "uri", "query", "formget", "formpost", "header", "ctxget", "ctxpost", "ctxquery", "ctxheader", "multipart", "ctxmultipart", "ctxput"}
	srcAlt  = []string{"uri2", "query2", "formget2", "formpost2", "header2", "multipart2"}
)

func srcTag(src string) string {
	switch src {
	case "uri", "uri2":
		return "uri"
	case "header", "header2", "ctxheader":
		return "header"
	}
	return "form"
}

// leaves lists all leaves, also ignored ones.
func leaves(fs []FSpec, out []FSpec) []FSpec {
	for _, f := range fs {
		if f.Kind == "struct" {
			out = leaves(f.Sub, out)
		} else {
			out = append(out, f)
		}
	}
	return out
}

// liveLeaves lists those binding must set.
func liveLeaves(fs []FSpec, bind2 bool, out []FSpec) []FSpec {
	for _, f := range fs {
		if f.Dash || f.Unexp {
			continue
		}
		if f.Kind == "struct" {
			out = liveLeaves(f.Sub, bind2, out)
		} else if f.Name != "" || bind2 {
			out = append(out, f)
		}
	}
	return out
}

func genBindCase(t *T, bind2, unfit bool) BindCase {
	srcs := srcMain
	if bind2 {
		srcs = srcAlt
	}
	// one tag per type: choose it first
	src0 := pick(t, srcs...)
	tag := srcTag(src0)
	g := &typeGen{t: t, names: formNames, kinds: map[S]FSpec{}, bind2: bind2, bad: unfit, header: tag == "header"}
	if tag == "header" {
		g.names = tokenNames
	}
	c := BindCase{Fields: g.fields(2, 6)}
	ls := leaves(c.Fields, nil)
	live := liveLeaves(c.Fields, bind2, nil)
	wire := func(f FSpec) S {
		if f.Name == "" {
			return S(f.Go)
		}
		return f.Name
	}
	for n := t.Range(1, 4); n > 0; n-- {
		s := BindSub{Src: src0}
		for try := 0; try < 8; try++ {
			if x := pick(t, srcs...); srcTag(x) == tag {
				s.Src = x
				break
			}
		}
		done := map[S]bool{}
		for _, f := range ls {
			w := wire(f)
			if done[w] || !t.Chance(2, 3) {
				continue
			}
			if f.unsupported() && !f.Dash && !f.Unexp && (f.Name != "" || bind2) {
				continue // refused: only as the planted one
			}
			done[w] = true
			m := 1
			switch {
			case f.Shape == "array":
				m = f.N
			case f.Shape != "" || t.Chance(1, 5):
				m = t.Few(1, 4, 100)
				if t.Chance(1, 150) && len(s.Vals) < 1000 && !strings.Contains(s.Src, "multipart") { // net/http refuses more than 1000 parts
					m = t.Range(900, 2200)
				}
			}
			for ; m > 0; m-- {
				s.Vals = append(s.Vals, KV{w, S(g.fit(f, false))})
			}
		}
		for k := t.N(3); k > 0; k-- {
			w := S(pick(t, "zz", "other", "othername", "F0", "-", "Sub"))
			s.Vals = append(s.Vals, KV{w, S(genUTF8(t, 5))})
		}
		if unfit && len(live) > 0 && t.Chance(3, 4) {
			f := live[t.N(len(live))]
			w := wire(f)
			var vals []KV
			for _, kv := range s.Vals {
				if kv.K != w {
					vals = append(vals, kv)
				}
			}
			m := 1
			switch {
			case f.Shape == "array":
				m = f.N
				if t.Chance(1, 4) {
					m = f.N + 1
				}
			case f.Shape == "slice" || f.Shape == "sliceptr" || f.Shape == "ptrslice":
				m = t.Range(1, 4)
			}
			at := t.N(m)
			for i := 0; i < m; i++ {
				v := g.fit(f, true)
				if i == at {
					v = g.unfit(f)
				}
				vals = append(vals, KV{w, S(v)})
			}
			s.Vals = vals
			s.Bad = string(w)
		}
		if g.header {
			for i := range s.Vals {
				if t.Chance(1, 3) {
					s.Vals[i].K = S(strings.ToLower(string(s.Vals[i].K)))
				}
			}
		}
		c.Subs = append(c.Subs, s)
	}
	if unfit && t.Chance(1, 6) {
		// a default that does not fit
		if i := t.N(len(c.Fields)); c.Fields[i].Kind != "struct" && !c.Fields[i].unsupported() && c.Fields[i].Name != "" {
			if d := S(g.unfit(c.Fields[i])); d != "" && !strings.Contains(string(d), ",") {
				c.Fields[i].Def = &d
			}
		}
	}
	return c
}

type bindKey struct{}

// ctxEngine runs the function of the request in a handler.
var ctxEngine = func() http.Handler {
	h := func(ctx *water.Context) {
		ctx.Request.Context().Value(bindKey{}).(func(*water.Context))(ctx)
		if !ctx.Written() {
			ctx.String(200, "ok")
		}
	}
	r := water.NewRouter()
	for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		regMethod(r, m, "/bind", h)
	}
	return r.Handler()
}()

func withBind(req *http.Request, f func(*water.Context)) context.Context {
	return context.WithValue(req.Context(), bindKey{}, f)
}

func inCtx(req *http.Request, f func(*water.Context)) error {
	ran := false
	req = req.WithContext(withBind(req, func(c *water.Context) { ran = true; f(c) }))
	if _, err := mustServe(ctxEngine, req); err != nil {
		return err
	}
	if !ran {
		return fmt.Errorf("the request did not reach its handler")
	}
	return nil
}

func newReq(method, query string, ct string, body []byte) *http.Request {
	u := &url.URL{Path: "/bind", RawQuery: query}
	req := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "example.com", RemoteAddr: "192.0.2.1:1234", RequestURI: u.RequestURI()}
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	req.Body = io.NopCloser(bytes.NewReader(body))
	req.ContentLength = int64(len(body))
	return req
}

// bindVia binds the values from a source; form is what the source submits. skip: it cannot carry them.
func bindVia(src string, vals []KV, obj any) (form map[string][]string, skip bool, err error) {
	form = map[string][]string{}
	for _, kv := range vals {
		form[string(kv.K)] = append(form[string(kv.K)], string(kv.V))
	}
	ctxBind := func(req *http.Request, f func(*water.Context) error) {
		if e := inCtx(req, func(c *water.Context) { err = f(c) }); e != nil {
			err = fmt.Errorf("PANIC %v", e)
		}
		if req.MultipartForm != nil {
			req.MultipartForm.RemoveAll()
		}
	}
	bind := func(c *water.Context) error { return c.Bind(obj) }
	const ctForm = "application/x-www-form-urlencoded"
	switch src {
	case "mapform":
		err = binding.MapForm(obj, form, nil, "form")
	case "uri":
		err = binding.Uri.Bind(form, obj)
	case "uri2":
		err = binding.Uri.Bind2(form, obj)
	case "query":
		err = binding.Query.Bind(newReq("POST", encQuery(vals), ctForm, []byte("a=body&name=body&zz=body")), obj)
	case "query2":
		err = binding.Query.Bind2(newReq("GET", encQuery(vals), "", nil), obj)
	case "formget":
		err = binding.Form.Bind(newReq("GET", encQuery(vals), "", nil), obj)
	case "formget2":
		err = binding.Form.Bind2(newReq("GET", encQuery(vals), "", nil), obj)
	case "formpost", "formpost2", "ctxpost", "ctxput":
		// half in the body, half in the URL; a name's values stay together
		var b, q []KV
		for _, kv := range vals {
			if len(kv.K)%2 == 0 {
				q = append(q, kv)
			} else {
				b = append(b, kv)
			}
		}
		method := "POST"
		if src == "ctxput" {
			method = "PUT"
		}
		req := newReq(method, encQuery(q), ctForm+"; charset=utf-8", []byte(encQuery(b)))
		switch src {
		case "formpost":
			err = binding.Form.Bind(req, obj)
		case "formpost2":
			err = binding.Form.Bind2(req, obj)
		default:
			ctxBind(req, bind)
		}
	case "ctxget":
		ctxBind(newReq("GET", encQuery(vals), "application/json", []byte("{}")), bind)
	case "ctxquery":
		ctxBind(newReq("DELETE", encQuery(vals), "", nil), func(c *water.Context) error { return c.BindWith(obj, binding.Query) })
	case "header", "header2", "ctxheader":
		h := http.Header{}
		for _, kv := range vals {
			h.Add(string(kv.K), string(kv.V))
		}
		form = h
		req := newReq("GET", "", "", nil)
		req.Header = h.Clone()
		switch src {
		case "header":
			err = binding.Header.Bind(req, obj)
		case "header2":
			err = binding.Header.Bind2(req, obj)
		default:
			ctxBind(req, func(c *water.Context) error { return c.BindWith(obj, binding.Header) })
		}
	case "multipart", "multipart2", "ctxmultipart":
		var parts []MPart
		for _, kv := range vals {
			if !mpName(string(kv.K)) {
				return nil, true, nil
			}
			parts = append(parts, MPart{Name: kv.K, Data: kv.V})
		}
		req := newReq("POST", "", "multipart/form-data; boundary="+mpBoundary, mpBody(parts, mpBoundary))
		switch src {
		case "multipart":
			err = binding.FormMultipart.Bind(req, obj)
		case "multipart2":
			err = binding.FormMultipart.Bind2(req, obj)
		default:
			ctxBind(req, bind)
		}
	default:
		bug("unknown source %q", src)
	}
	return form, false, err
}

func showVals(vals []KV) string {
	var b strings.Builder
	for _, kv := range vals {
		fmt.Fprintf(&b, "%q=%q ", kv.K, kv.V)
	}
	return b.String()
}

func runBind(bind2 bool) func(c BindCase, o *Obs) error {
	return func(c BindCase, o *Obs) error {
		tag := srcTag(c.Subs[0].Src)
		typ := structType(c.Fields, tag)
		for n, s := range c.Subs {
			obj := reflect.New(typ)
			preset(c.Fields, obj.Elem())
			before := reflect.New(typ)
			preset(c.Fields, before.Elem())
			want := reflect.New(typ)
			preset(c.Fields, want.Elem())
			ptrs := shared(c.Fields, obj.Elem(), "obj", map[string]uintptr{})
			form, skip, err := bindVia(s.Src, s.Vals, obj.Interface())
			if skip {
				o.Label("skipped: names the source cannot carry")
				continue
			}
			fail := func(f string, a ...any) error {
				return fmt.Errorf("submission %d from %s to %v\nvalues %s: %s", n, s.Src, typ, showVals(s.Vals), fmt.Sprintf(f, a...))
			}
			if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
				return fail("%v", err)
			}
			var info refInfo
			_, rerr := reference(c.Fields, want.Elem(), form, tag == "header", bind2, &info)
			if rerr != nil {
				if err == nil {
					return fail("bound although a value does not fit: %s", showValue(obj))
				}
				if err := unaltered(c.Fields, obj.Elem(), before.Elem(), form, tag == "header", bind2, "obj"); err != nil {
					return fail("%v", err)
				}
				o.Label("refused")
				o.LabelIf(s.Bad == "", "refused for a default")
			} else {
				if err != nil {
					return fail("error %v although every value fits", err)
				}
				if err := same(obj.Elem(), want.Elem(), !bind2, "obj"); err != nil {
					return fail("%v", err)
				}
				if bind2 {
					now := shared(c.Fields, obj.Elem(), "obj", map[string]uintptr{})
					for p, x := range ptrs {
						if now[p] != x {
							return fail("%s pointed somewhere already, and was made to point elsewhere", p)
						}
						o.Label("set where a pointer points")
					}
				}
				o.Label("bound")
			}
			o.Label("from " + s.Src)
			o.LabelIf(info.defaulted > 0, "default used")
			o.LabelIf(info.kept > 0, "field left alone")
			o.LabelIf(info.nested > 0, "nested")
			o.LabelIf(info.multi > 0, "several values")
			if info.set >= 2 || rerr != nil {
				o.NT()
			}
		}
		return nil
	}
}

// unaltered checks that after an error a field holds what it held before, or exactly what was submitted
// for it: never something else.
func unaltered(fs []FSpec, got, before reflect.Value, form map[string][]string, header, bind2 bool, path string) error {
	for i, f := range fs {
		g, b := got.Field(i), before.Field(i)
		p := path + "." + f.Go
		if f.Kind == "struct" {
			if f.Shape == "ptr" {
				z := reflect.New(g.Type().Elem())
				for _, x := range []*reflect.Value{&g, &b} {
					if x.IsNil() {
						*x = z
					}
					*x = x.Elem()
				}
			}
			if f.Dash || f.Unexp {
				if err := same(g, b, true, p); err != nil {
					return err
				}
				continue
			}
			if err := unaltered(f.Sub, g, b, form, header, bind2, p); err != nil {
				return err
			}
			continue
		}
		if f.Kind[0] == 'j' || f.Unexp {
			continue // a decoder may have got half way
		}
		e1 := same(g, b, true, p)
		if e1 == nil {
			continue
		}
		if vals, _ := f.values(form, header); vals != nil && !f.Dash && (f.Name != "" || bind2) {
			w := reflect.New(g.Type()).Elem()
			if f.setAll(w, vals) == nil && same(g, w, true, p) == nil {
				continue
			}
			switch f.Shape {
			case "ptr", "ptrptr", "array", "ptrslice":
				continue // may have been allocated or filled up to the bad value
			}
		}
		return fmt.Errorf("after the error %s is neither as before nor as submitted", strings.TrimPrefix(e1.Error(), "obj"))
	}
	return nil
}

// --- map targets ---

type MapCase struct {
	Src    string
	Vals   []KV
	Multi  bool // map[string][]string
	Preset []KV
	Nil    bool
}

func genMapCase(t *T) MapCase {
	c := MapCase{Src: pick(t, srcMain...), Multi: t.Bool(), Nil: t.Bool()}
	if t.Chance(1, 4) { // the secondary entry points want a map that is there
		c.Src, c.Nil = pick(t, "query2", "formget2", "formpost2", "uri2"), false
	}
	names := formNames
	if srcTag(c.Src) == "header" {
		names = tokenNames
	}
	for n := t.Few(0, 8, 100); n > 0; n-- {
		c.Vals = append(c.Vals, KV{names[t.N(len(names))], S(genUTF8(t, 8))})
	}
	if !c.Nil {
		for n := t.N(3); n > 0; n-- {
			c.Preset = append(c.Preset, KV{S(pick(t, "a", "kept", "名")), S(genUTF8(t, 4))})
		}
	}
	return c
}

func runMapCase(c MapCase, o *Obs) error {
	var one map[string]string
	var many map[string][]string
	if !c.Nil {
		one, many = map[string]string{}, map[string][]string{}
	}
	want := map[string][]string{}
	for _, kv := range c.Preset {
		one[string(kv.K)] = string(kv.V)
		many[string(kv.K)] = []string{string(kv.V)}
		want[string(kv.K)] = []string{string(kv.V)}
	}
	var obj any = &one
	if c.Multi {
		obj = &many
	}
	form, skip, err := bindVia(c.Src, c.Vals, obj)
	if skip {
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %v", c.Src, err)
	}
	for k, v := range form {
		want[k] = v
	}
	if c.Multi {
		if !reflect.DeepEqual(many, want) && len(many)+len(want) > 0 {
			return fmt.Errorf("%s of %s gives %q, want %q", c.Src, showVals(c.Vals), many, want)
		}
	} else {
		w := map[string]string{}
		for k, v := range want {
			w[k] = v[len(v)-1]
		}
		if !mapsEqual(one, w) {
			return fmt.Errorf("%s of %s gives %q, want %q", c.Src, showVals(c.Vals), one, w)
		}
	}
	for _, v := range form {
		if len(v) > 1 {
			o.NT()
			o.Label("several values of a name")
		}
	}
	o.Label("from " + c.Src)
	return nil
}

// --- targets that binding does not support ---

type TargetCase struct {
	Src  string
	Kind int
	Vals []KV
}

var badTargets = []func() any{
	func() any { return &map[string]int{} },
	func() any { return &map[string][]int{} },
	func() any { return &map[string]any{} },
	func() any { return &map[string][]byte{} },
	func() any { return &map[string]*string{} },
	func() any { return &map[string]map[string]string{} },
	// from here on only for the main binder
	func() any { return &map[int]string{} },
	func() any { return new(int) },
	func() any { return new(string) },
	func() any { return &[]string{} },
	func() any { return &[]Level3{} },
	func() any { return map[string]string{} },
	func() any { return Level3{} },
	func() any { return []string{"a"} },
	func() any { return nil },
}

func genTarget(t *T) TargetCase {
	c := TargetCase{Src: pick(t, srcMain...), Kind: t.N(len(badTargets))}
	if t.Chance(1, 4) {
		c.Src, c.Kind = pick(t, "query2", "formget2", "formpost2", "uri2"), t.N(6)
	}
	names := formNames
	if srcTag(c.Src) == "header" {
		names = tokenNames
	}
	for n := t.N(4); n > 0; n-- {
		c.Vals = append(c.Vals, KV{names[t.N(len(names))], S(pick(t, "1", "x", "", "12"))})
	}
	return c
}

func runTarget(c TargetCase, o *Obs) error {
	obj := badTargets[c.Kind]()
	_, skip, err := bindVia(c.Src, c.Vals, obj)
	if skip {
		return nil
	}
	if err == nil {
		return fmt.Errorf("%s of %s to a %T gives no error", c.Src, showVals(c.Vals), obj)
	}
	if strings.HasPrefix(err.Error(), "PANIC") {
		return fmt.Errorf("%s of %s to a %T: %v", c.Src, showVals(c.Vals), obj, err)
	}
	if fresh := badTargets[c.Kind](); !reflect.DeepEqual(obj, fresh) {
		return fmt.Errorf("%s of %s to a %T fails with %v and leaves %v", c.Src, showVals(c.Vals), obj, err, obj)
	}
	o.LabelIf(len(c.Vals) > 0, "something submitted")
	if len(c.Vals) > 0 {
		o.NT()
	}
	return nil
}

// --- fixed types: what generated types cannot have (unexported embedded types, unexported fields
// with contents, types that contain themselves below "-") ---

type hidden struct {
	HidA string `form:"hida" uri:"hida"`
	priv string `form:"priv" uri:"priv"`
	HidN int    `form:"hidn,default=9" uri:"hidn,default=9"`
}

type Level3 struct {
	Z  []uint8 `form:"z" uri:"z"`
	hz string  `form:"z" uri:"z"`
}

type Level2 struct {
	*Level3
	Y *int `form:"y" uri:"y"`
}

type fixedTarget struct {
	hidden
	Level2
	Ptr    *Level3      `form:"ptr" uri:"ptr"`
	Self   *fixedTarget `form:"-" uri:"-"`
	Skip   Level3       `form:"-" uri:"-"`
	secret string       `form:"secret" uri:"secret"`
	inner  Level3       `form:"inner" uri:"inner"`
	Plain  string
	W      string `form:"w" uri:"w"`
}

type FixedCase struct {
	Src  string
	Vals []KV
	Skip S
}

func genFixed(t *T) FixedCase {
	c := FixedCase{Src: pick(t, "mapform", "uri", "query", "formpost", "ctxget", "ctxpost", "multipart"), Skip: S(genToken(t))}
	for n := t.Range(1, 10); n > 0; n-- {
		k := pick(t, "hida", "priv", "hidn", "z", "y", "secret", "Plain", "w", "-", "Skip", "Self")
		v := genToken(t)
		switch k {
		case "hidn", "y", "z":
			v = fmt.Sprint(t.N(256))
		}
		c.Vals = append(c.Vals, KV{S(k), S(v)})
	}
	return c
}

func runFixed(c FixedCase, o *Obs) error {
	obj := fixedTarget{secret: "s3", Plain: "p", Skip: Level3{Z: []uint8{1, 2}, hz: "kept"}, inner: Level3{Z: []uint8{7}, hz: "in"}}
	obj.hidden.priv = "pv"
	form, skip, err := bindVia(c.Src, c.Vals, &obj)
	if skip {
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s of %s: %v", c.Src, showVals(c.Vals), err)
	}
	first := func(k, d string) string {
		if v, ok := form[k]; ok {
			return v[0]
		}
		return d
	}
	bytesOf := func(k string) string {
		var out []uint8
		for _, s := range form[k] {
			n, _ := strictInt(s, false, 8)
			out = append(out, uint8(n.(uint64)))
		}
		return fmt.Sprint(out)
	}
	deref := func(l *Level3) string {
		if l == nil {
			return "[]"
		}
		return fmt.Sprint(l.Z)
	}
	y := ""
	if obj.Y != nil {
		y = fmt.Sprint(*obj.Y)
	}
	for _, x := range [][3]string{
		{"hida", obj.HidA, first("hida", "")}, {"hidn", fmt.Sprint(obj.HidN), first("hidn", "9")}, {"priv", obj.hidden.priv, "pv"},
		{"z", deref(obj.Level2.Level3), bytesOf("z")}, {"ptr.z", deref(obj.Ptr), bytesOf("z")}, {"y", y, first("y", "")},
		{"secret", obj.secret, "s3"}, {"plain", obj.Plain, "p"}, {"w", obj.W, first("w", "")},
		{"skip", fmt.Sprint(obj.Skip.Z, obj.Skip.hz), "[1 2]kept"}, {"inner", fmt.Sprint(obj.inner.Z, obj.inner.hz), "[7]in"},
		{"self", fmt.Sprint(obj.Self == nil), "true"},
	} {
		if x[1] != x[2] {
			return fmt.Errorf("%s of %s: %s is %q, want %q", c.Src, showVals(c.Vals), x[0], x[1], x[2])
		}
	}
	if len(form) > 2 {
		o.NT()
	}
	return nil
}

// runFixed2 is about the alternative binder: no allocation unless something below was set.
type fixed2 struct {
	Named struct {
		In string `form:"in" uri:"in"`
	}
	P *struct {
		Deep *struct {
			V int `form:"v" uri:"v"`
		}
		U string `form:"u" uri:"u"`
	}
	E *Level3
	D *struct {
		W int `form:"dw,default=4" uri:"dw,default=4"`
	}
	Skip *Level3 `form:"-" uri:"-"`
	Arr  [2]int  `form:"arr" uri:"arr"`
	hid  string
}

func genFixed2(t *T) FixedCase {
	c := FixedCase{Src: pick(t, "uri2", "query2", "formget2", "formpost2", "multipart2")}
	for _, k := range []string{"in", "v", "u", "z", "dw", "hid", "Skip", "unrelated"} {
		if t.Chance(1, 3) {
			v := fmt.Sprint(t.N(256))
			c.Vals = append(c.Vals, KV{S(k), S(v)})
		}
	}
	if t.Bool() {
		c.Vals = append(c.Vals, KV{"arr", S(fmt.Sprint(t.N(99)))}, KV{"arr", S(fmt.Sprint(t.N(99)))})
	}
	return c
}

func runFixed2(c FixedCase, o *Obs) error {
	var obj fixed2
	obj.hid = "h"
	obj.Arr = [2]int{-1, -2}
	form, skip, err := bindVia(c.Src, c.Vals, &obj)
	if skip {
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s of %s: %v", c.Src, showVals(c.Vals), err)
	}
	has := func(k string) bool { _, ok := form[k]; return ok }
	get := func(k, d string) string {
		if has(k) {
			return form[k][0]
		}
		return d
	}
	got := map[string]string{"in": obj.Named.In, "hid": obj.hid, "skip": fmt.Sprint(obj.Skip == nil), "arr": fmt.Sprint(obj.Arr[0], obj.Arr[1]),
		"p": fmt.Sprint(obj.P != nil), "e": fmt.Sprint(obj.E != nil)}
	arr := "-1 -2"
	if has("arr") {
		arr = strings.Join(form["arr"], " ")
	}
	want := map[string]string{"in": get("in", ""), "hid": "h", "skip": "true", "arr": arr, "p": fmt.Sprint(has("v") || has("u")), "e": fmt.Sprint(has("z"))}
	if obj.P != nil {
		got["u"] = obj.P.U
		want["u"] = get("u", "")
		got["deep"], want["deep"] = fmt.Sprint(obj.P.Deep != nil), fmt.Sprint(has("v"))
		if obj.P.Deep != nil {
			got["v"], want["v"] = fmt.Sprint(obj.P.Deep.V), get("v", "")
		}
	}
	if obj.D != nil {
		got["dw"], want["dw"] = fmt.Sprint(obj.D.W), get("dw", "4")
	} else {
		got["dw"], want["dw"] = "nil", get("dw", "4")
	}
	if !mapsEqual(got, want) {
		return fmt.Errorf("%s of %s gives %s, want %s", c.Src, showVals(c.Vals), sortedMap(got), sortedMap(want))
	}
	if len(form) > 1 {
		o.NT()
	}
	return nil
}

var _ = sort.Strings
var _ multipart.FileHeader

func init() {
	bindFam := func(name string, n int, rule string, bind2, unfit bool) *Family {
		return fam(name, n, rule, func(t *T) BindCase { return genBindCase(t, bind2, unfit) }, runBind(bind2))
	}
	register(&Property{ID: "B01", Families: []*Family{
		bindFam("structs", 8000, "random struct types (all kinds, shapes, nesting, embedding, presets, defaults, ignored and unexported fields), each bound to one to four random submissions from thirteen sources; non-trivial: two or more fields are submitted", false, false),
		bindFam("structs2", 3000, "the same for the alternative entry points (B08 has more of them)", true, false),
		fam("maps", 8000, "random submissions bound to nil, empty and filled maps; non-trivial: a name has several values", genMapCase, runMapCase),
		fam("fixed", 8000, "a fixed type with unexported embedding, filled unexported fields and self-reference; non-trivial: more than two names submitted", genFixed, runFixed),
	}})
	register(&Property{ID: "B02", Families: []*Family{
		bindFam("unfit", 10000, "random struct types with, mostly, exactly one value or default planted that does not fit its field, or a field of an unsupported kind; non-trivial: refused, or two or more fields submitted", false, true),
		fam("targets", 1500, "targets binding does not support (maps of other values, lists, numbers, no pointer, nil); non-trivial: something is submitted", genTarget, runTarget),
		bindFam("unfit2", 3000, "the same for the alternative entry points (B08 has more of them)", true, true),
	}})
	register(&Property{ID: "B08", Families: []*Family{
		bindFam("structs", 6000, "as for the main binder, with arrays, durations, pointers to slices and pointers to pointers, from the six alternative entry points; non-trivial: two or more fields submitted", true, false),
		bindFam("unfit", 6000, "the same with a planted value that does not fit; non-trivial: refused, or two or more fields submitted", true, true),
		fam("pointers", 8000, "a fixed type with nested pointers; non-trivial: more than one name submitted", genFixed2, runFixed2),
	}})
}
