package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"mime"
	"mime/multipart"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// MalCase is one request with anything in its query, headers and body, bound to one of the targets.
type MalCase struct {
	Method  string
	Query   S
	CT      S
	Headers []KV
	Body    S
	Deep    int    // body preceded by so many opening brackets of the kind
	DeepOf  string // what is repeated
	Target  int
	With    string // "" ctx.Bind, or the decoder named for ctx.BindWith, or direct
	Chunk   int
	BodyErr bool // the body fails after its data
	Wire    bool
	Direct  int // 1, 2: the named decoder's own Bind or Bind2 on a request nothing has read from
}

type malNested struct {
	A  *int           `form:"a" json:"a" xml:"a,attr" header:"A" binding:"omitempty,min=1"`
	T  time.Time      `form:"t" time_format:"2006-01-02" json:"t" xml:"t" header:"T"`
	TU *time.Time     `form:"tu" time_format:"unix" json:"tu" xml:"tu"`
	J  jDoc           `form:"j" json:"j" xml:"j"`
	M  map[string]any `form:"m" json:"m" xml:"-"`
	D  []uint8        `form:"d,default=7" json:"d" xml:"d"`
	B  bool           `form:"b" json:"b" xml:"b" header:"B"`
}

type malTarget struct {
	malNested
	P    *malNested              `json:"p" xml:"p"`
	S    []string                `form:"s" json:"s" xml:"s" header:"S" binding:"max=9"`
	N    int8                    `form:"n" json:"n" xml:"n" header:"N"`
	F    float32                 `form:"f" json:"f" xml:"f"`
	L    []*malNested            `json:"l" xml:"l" binding:"dive"`
	Up   *multipart.FileHeader   `form:"up" json:"-" xml:"-"`
	Ups  []*multipart.FileHeader `form:"ups" json:"-" xml:"-"`
	Any  any                     `json:"any" xml:"-"`
	Self *malTarget              `form:"-" json:"self" xml:"self"`
}

// recTarget refers to itself in every way a form can reach.
type recTarget struct {
	A    int8 `form:"a" json:"a" xml:"a" header:"A"`
	Next *recTarget
	Sub  struct {
		Back *recTarget `form:"back" json:"back" xml:"back" header:"Back"`
		S    string     `form:"s" json:"s" xml:"s" header:"S"`
	}
	*RecOuter
	Many []*recTarget `form:"many" json:"many" xml:"many" header:"Many"`
}

type RecOuter struct {
	In *recTarget `form:"in" json:"in" xml:"in" header:"In"`
	N  int8       `form:"n" json:"n" xml:"n" header:"N"`
	O  *RecOuter
}

func malTargets(k int) any {
	switch k {
	case 0:
		return &malTarget{}
	case 1:
		return &map[string][]string{}
	case 2:
		return &[]*malTarget{}
	case 3:
		return &poly{}
	case 4:
		return &map[string]string{}
	case 5:
		return &[]malNested{}
	case 6:
		return new(any)
	case 7:
		return &[2]malNested{}
	case 8:
		return new(*malTarget)
	case 9:
		return &map[string]any{}
	case 10:
		return &[][]*poly{}
	case 11:
		return &fixedTarget{}
	case 12:
		return new(string)
	case 13:
		return new([]any)
	case 14:
		return &map[string]*malNested{}
	case 15, 16:
		return &recTarget{}
	case 17:
		return &RecOuter{}
	}
	return new(map[string][]string)
}

const malTargetCount = 19

// mutate alters bytes.
func mutate(t *T, s string, n int) string {
	b := []byte(s)
	for ; n > 0; n-- {
		if len(b) == 0 {
			b = []byte(genText(t, 10))
			continue
		}
		i := t.N(len(b))
		switch t.W(3, 3, 3, 1, 2, 2) {
		case 0:
			b[i] = byte(t.N(256))
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			ins := pick(t, "%", "%zz", "%4", ";", "&", "=", "\"", "{", "}", "[", "]", "\\", "\\u", "<", ">", "</", "<!", "<?", "&amp", "\r\n", "\n", "\r", "--", "--"+mpBoundary, "\x00", "\xff", "null", "1e999", ",", ":", "+", "-", "]]>", "<![CDATA[", "\xed\xa0\x80")
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + 1 + t.N(min(20, len(b)-i))
			b = append(b[:j:j], b[i:]...)
		case 5:
			j := i + 1 + t.N(min(20, len(b)-i))
			b = append(b[:i:i], b[j:]...)
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
	}
	return string(b)
}

var malNames = []string{"a", "t", "tu", "j", "m", "d", "b", "s", "n", "f", "up", "ups", "l", "p", "zz", "", "z", "y", "hida", "-"}

func genMalValue(t *T, name string) string {
	switch name {
	case "a", "n", "d":
		return pick(t, "1", "0", "-5", "300", "", "x", "127", "99999999999999999999")
	case "t":
		return pick(t, "2020-01-02", "", "x", "2020-13-45")
	case "tu":
		return pick(t, "0", "1562400033", "", "x", "9223372036854775808")
	case "j", "m":
		return pick(t, "{}", `{"a":1}`, "", "{", "null", "[]", `{"d":{"k":null}}`, strings.Repeat("[", 50), `{"a":{"a":`)
	case "b":
		return pick(t, "true", "", "maybe", "0")
	case "f":
		return pick(t, "1.5", "1e39", "NaN", "", "x")
	}
	return genText(t, 12)
}

func genMal(t *T) MalCase {
	c := MalCase{Method: pick(t, "POST", "POST", "PUT", "PATCH", "GET", "DELETE", "HEAD", "OPTIONS"), Target: t.N(malTargetCount), Chunk: pick(t, 0, 0, 0, 1, 17)}
	kvs := func() []KV {
		var out []KV
		for n := t.N(6); n > 0; n-- {
			k := malNames[t.N(len(malNames))]
			out = append(out, KV{S(k), S(genMalValue(t, k))})
		}
		return out
	}
	var q string
	switch t.W(2, 2, 2) {
	case 1:
		q = encQuery(kvs())
	case 2:
		q = mutate(t, encQuery(kvs()), t.Range(1, 3))
	}
	// a request target cannot carry control characters or blanks
	c.Query = S(strings.Map(func(r rune) rune {
		if r <= ' ' || r == 0x7f || r == '#' {
			return -1
		}
		return r
	}, q))
	format := t.W(3, 2, 3, 3)
	switch format {
	case 0:
		c.CT = "application/json"
		var v any
		switch t.W(2, 1) {
		case 0:
			m := map[string]any{}
			for n := t.N(6); n > 0; n-- {
				m[pick(t, "a", "t", "tu", "j", "m", "d", "b", "s", "n", "f", "l", "p", "any", "self")] = genAny(t, 3)
			}
			v = m
			if t.Chance(1, 3) {
				v = []any{m, nil, genAny(t, 2)}
			}
		case 1:
			v = genAny(t, 4)
		}
		b, _ := json.Marshal(v)
		c.Body = S(b)
	case 1:
		c.CT = S(pick(t, "application/xml", "text/xml"))
		var b bytes.Buffer
		b.WriteString(pick(t, "", "<?xml version=\"1.0\"?>", "<!DOCTYPE x [<!ENTITY e \"v\">]>", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "<!-- c -->"))
		b.WriteString("<root a=\"5\">")
		for n := t.N(5); n > 0; n-- {
			k := pick(t, "t", "tu", "j", "d", "b", "s", "n", "f", "l", "p", "self", "a", "e:x")
			fmt.Fprintf(&b, "<%s>%s</%s>", k, pick(t, "1", "x", "", "<a>1</a>", "<b>true</b><l><n>4</n></l>", "&amp;", "&e;", "&#65;", "&#0;", "<![CDATA[x]]>", "300"), k)
		}
		b.WriteString("</root>")
		c.Body = S(b.String())
	case 2:
		c.CT = "application/x-www-form-urlencoded"
		c.Body = S(encQuery(kvs()))
	case 3:
		c.CT = "multipart/form-data; boundary=" + mpBoundary
		var parts []MPart
		for n := t.N(5); n > 0; n-- {
			k := malNames[t.N(len(malNames))]
			p := MPart{Name: S(k), Data: S(genMalValue(t, k))}
			if t.Chance(1, 3) || k == "up" || k == "ups" {
				p.File = genMPFile(t)
				p.CT = pick(t, "", "text/plain", "multipart/mixed; boundary=x")
			}
			parts = append(parts, p)
		}
		c.Body = S(mpBody(parts, mpBoundary))
	}
	switch t.W(2, 5, 1, 1) {
	case 1:
		c.Body = S(mutate(t, string(c.Body), t.Range(1, 4)))
	case 2:
		c.Body = S(genText(t, 200))
	}
	switch t.W(6, 1, 1) {
	case 1:
		c.CT = S(pick(t, "", ";", ";;;", "multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"", "multipart/form-data;boundary=a b", "application/json;;", "application/json; charset", "/", "application/x-www-form-urlencoded; =", "multipart/form-data; boundary="+strings.Repeat("x", 100), "application/json, text/xml", " ", "multipart/form-data; boundary="+mpBoundary+"; boundary=x", "multipart/mixed; boundary="+mpBoundary))
	case 2:
		c.CT = S(strings.TrimSpace(strings.Map(func(r rune) rune {
			if r < 32 || r == 127 {
				return -1
			}
			return r
		}, mutate(t, string(c.CT), 2))))
	}
	if t.Chance(1, 60) {
		c.Deep, c.DeepOf = pick(t, 100, 9000, 12000, 40000), pick(t, "[", `{"p":`, `{"self":`, "<self>", `[{"j":`, `{"any":[`)
	}
	for n := t.N(3); n > 0; n-- {
		k := pick(t, "A", "T", "S", "N", "B")
		v := strings.Map(func(r rune) rune {
			if r < 32 || r == 127 {
				return -1
			}
			return r
		}, genMalValue(t, strings.ToLower(k)))
		c.Headers = append(c.Headers, KV{S(k), S(strings.TrimSpace(v))})
	}
	c.With = pick(t, "", "", "", "", "form", "multipart", "json", "xml", "query", "header")
	if c.With != "" && t.Bool() {
		c.Direct = 1
		if _, ok := binders2[c.With]; ok && reflect.TypeOf(malTargets(c.Target)).Elem().Kind() == reflect.Struct && t.Bool() {
			c.Direct = 2
		}
	}
	c.BodyErr = t.Chance(1, 10)
	c.Wire = t.Chance(1, 25) && !c.BodyErr && c.Method != "HEAD"
	return c
}

func (c MalCase) body() []byte {
	return append([]byte(strings.Repeat(c.DeepOf, c.Deep)), c.Body...)
}

// malformed tells why the request must be refused; known: whether the specification settles it.
func (c MalCase) malformed() (why string, form map[string][]string) {
	body := c.body()
	ct := string(c.CT)
	media, params, merr := mime.ParseMediaType(ct)
	clean := merr == nil && media == strings.TrimRight(strings.SplitN(ct, ";", 2)[0], " ")
	upload := c.Method == "POST" || c.Method == "PUT" || c.Method == "PATCH"
	dec := c.With
	if dec == "" {
		switch {
		case c.Method == "GET":
			dec = "form"
		case !clean:
			return "", nil
		case media == "multipart/form-data" && upload:
			dec = "multipart"
		case media == "application/json":
			dec = "json"
		case media == "application/xml" || media == "text/xml":
			dec = "xml"
		default:
			dec = "form"
		}
	}
	qv, qerr := url.ParseQuery(string(c.Query))
	switch dec {
	case "json":
		var raw json.RawMessage
		if err := json.NewDecoder(bytes.NewReader(body)).Decode(&raw); err != nil {
			if known("B06", "json-lenient") {
				for _, ctl := range []string{"x", ""} {
					if json.NewDecoder(bytes.NewReader(jsonLenient(body, ctl))).Decode(&raw) == nil {
						return "", nil
					}
				}
			}
			return "JSON: " + err.Error(), nil
		}
	case "xml":
		d := xml.NewDecoder(bytes.NewReader(body))
		depth := 0
		for {
			tok, err := d.Token()
			if err != nil {
				return "XML: " + err.Error(), nil
			}
			switch tok.(type) {
			case xml.StartElement:
				depth++
			case xml.EndElement:
				depth--
				if depth == 0 {
					return "", nil
				}
			}
		}
	case "form", "multipart", "query":
		if qerr != nil {
			return "query: " + qerr.Error(), nil
		}
		if dec == "query" && c.Direct > 0 { // which reads nothing else
			return "", nil
		}
		if merr == nil && upload && media == "application/x-www-form-urlencoded" {
			if c.BodyErr {
				return "body: " + bodyErrs[len(body)%len(bodyErrs)].Error(), nil
			}
			fv, err := url.ParseQuery(string(body))
			if err != nil {
				return "form: " + err.Error(), nil
			}
			if dec == "form" {
				for k, v := range qv {
					fv[k] = append(fv[k], v...)
				}
				return "", fv
			}
		}
		if dec == "multipart" && (c.With == "" || c.Direct > 0 && merr == nil && media == "multipart/form-data") {
			b := params["boundary"]
			if b == "" {
				return "multipart without boundary", nil
			}
			f, err := multipart.NewReader(bytes.NewReader(body), b).ReadForm(32 << 20)
			if err != nil {
				return "multipart: " + err.Error(), nil
			}
			f.RemoveAll()
			return "", nil
		}
		if dec == "form" && clean && !strings.Contains(strings.ToLower(ct), "multipart/form-data") && upload && media != "application/x-www-form-urlencoded" {
			return "", qv
		}
		if dec == "form" && !upload {
			return "", qv
		}
	}
	return "", nil
}

var malEngine = func() http.Handler {
	h := func(ctx *water.Context) {
		ctx.Request.Context().Value(bindKey{}).(func(*water.Context))(ctx)
		if !ctx.Written() {
			ctx.String(200, "bound")
		}
	}
	r := water.NewRouter()
	for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		regMethod(r, m, "/bind", h)
	}
	r.GET("/alive", func(ctx *water.Context) {
		var v struct {
			A int `form:"a" binding:"min=3"`
		}
		if err := ctx.Bind(&v); err != nil {
			ctx.String(500, fmt.Sprintf("%v", err))
			return
		}
		ctx.String(200, fmt.Sprintf("alive %d", v.A))
	})
	return r.Handler()
}()

var binders1 = map[string]binding.Bindinger{"form": binding.Form, "multipart": binding.FormMultipart, "json": binding.JSON, "xml": binding.XML, "query": binding.Query, "header": binding.Header}

var binders2 = map[string]func(*http.Request, any) error{"form": func(r *http.Request, v any) error { return binding.Form.Bind2(r, v) }, "multipart": func(r *http.Request, v any) error { return binding.FormMultipart.Bind2(r, v) },
	"query": func(r *http.Request, v any) error { return binding.Query.Bind2(r, v) }, "header": func(r *http.Request, v any) error { return binding.Header.Bind2(r, v) }}

// formWhy tells that the query or the form is at fault, which stays that way.
func (c MalCase) formWhy(why string) bool {
	return strings.HasPrefix(why, "query: ") || strings.HasPrefix(why, "form: ") || strings.HasPrefix(why, "multipart") || strings.HasPrefix(why, "body: ")
}

func runMal(c MalCase, o *Obs) error {
	why, form := c.malformed()
	obj := malTargets(c.Target)
	var err, again error
	body := c.body()
	bind := func(ctx *water.Context) {
		b := binders1[c.With]
		if b == nil {
			err = ctx.Bind(obj)
		} else if c.Direct == 1 {
			err = b.Bind(ctx.Request, obj)
		} else if c.Direct == 2 {
			err = binders2[c.With](ctx.Request, obj)
		} else {
			err = ctx.BindWith(obj, b)
		}
		if again = err; err != nil && c.Direct == 0 && c.formWhy(why) { // and so if asked once more
			if obj := malTargets(c.Target); b == nil {
				again = ctx.Bind(obj)
			} else {
				again = ctx.BindWith(obj, b)
			}
		}
	}
	fail := func(f string, a ...any) error {
		with := c.With
		if with == "" {
			with = "ctx.Bind"
		}
		with += []string{"", " (own Bind)", " (own Bind2)"}[c.Direct]
		return fmt.Errorf("%s /bind?%s Content-Type %q headers %q body %q (fails %v), %s to %T: %s", c.Method, c.Query, c.CT, c.Headers, tail(string(body), 600), c.BodyErr, with, obj, fmt.Sprintf(f, a...))
	}
	ran := false
	if c.Wire {
		r := water.NewRouter()
		regMethod(r, c.Method, "/bind", func(ctx *water.Context) { ran = true; bind(ctx); ctx.String(200, "ok") })
		q := Req{Method: c.Method, Target: S("/bind?" + string(c.Query)), Body: S(body), H: append([]KV{{"Content-Type", c.CT}}, c.Headers...)}
		_, werr := wireReq(r.Handler(), q)
		if !ran {
			o.Label("refused by net/http")
			return nil
		}
		if werr != nil {
			return fail("%v", werr)
		}
		o.Label("over a connection")
	} else {
		req := newReq(c.Method, string(c.Query), string(c.CT), nil)
		for _, h := range c.Headers {
			req.Header.Add(string(h.K), string(h.V))
		}
		er := &errReader{data: append([]byte(nil), body...), chunk: c.Chunk, err: io.EOF}
		if c.BodyErr {
			er.err = bodyErrs[len(body)%len(bodyErrs)]
		}
		req.Body, req.ContentLength = er, int64(len(body))
		if e := inCtx2(malEngine, req, func(ctx *water.Context) { ran = true; bind(ctx) }); e != nil {
			return fail("%v", e)
		}
		if req.MultipartForm != nil {
			req.MultipartForm.RemoveAll()
		}
	}
	if why != "" {
		o.NT()
		o.Label("malformed " + strings.SplitN(why, ":", 2)[0])
		if err == nil {
			return fail("no error although malformed (%s)", why)
		}
		if again == nil {
			return fail("error %v, but none when bound once more", err)
		}
	} else {
		o.LabelIf(err == nil, "bound")
		o.LabelIf(err != nil, "refused although well-formed")
	}
	if m, ok := obj.(*map[string][]string); ok && why == "" && form != nil && !c.BodyErr {
		if err != nil {
			return fail("error %v although well-formed", err)
		}
		if !reflect.DeepEqual(*m, form) && len(*m)+len(form) > 0 {
			return fail("bound %q, want %q", *m, form)
		}
		o.Label("well-formed compared")
		o.NT()
	}
	if len(c.Body) > 0 && c.Deep > 0 {
		o.Label("deep")
	}
	rec, e := mustServe(malEngine, Req{Method: "GET", Target: "/alive?a=7"}.must())
	if e != nil || rec.Status() != 200 || string(rec.Body) != "alive 7" {
		return fail("afterwards a sound request gets %v, %v", rec.dump(), e)
	}
	return nil
}

func inCtx2(h http.Handler, req *http.Request, f func(*water.Context)) error {
	ran := false
	req = req.WithContext(withBind(req, func(c *water.Context) { ran = true; f(c) }))
	if _, err := mustServe(h, req); err != nil {
		return err
	}
	if !ran {
		return errors.New("the request did not reach its handler")
	}
	return nil
}

func init() {
	register(&Property{ID: "B06", Known: []KnownFinding{{"json-lenient", probeLenient}}, Families: []*Family{
		fam("fuzz", 20000, "structurally generated requests (JSON, XML, URL-encoded, multipart) whose query, content type and body are mutated, truncated, replaced or nested deeply, bound to nineteen targets by every decoder; malformedness is judged by independent parsers; non-trivial: malformed, or compared in full", genMal, runMal),
	}})
}
