package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"mime"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/meilihao/water"
)

// Resp is a response as the client sees it, from the recorder or from the wire.
type Resp struct {
	Status int
	Header http.Header
	Body   []byte
}

func (r *Resp) String() string {
	return fmt.Sprintf("%d %s body=%q", r.Status, hdrString(r.Header), short(string(r.Body)))
}

// deliver serves one request; over the wire what net/http adds is left out.
func deliver(h http.Handler, q Req, onWire bool) (*Resp, error) {
	if !onWire {
		rec, err := mustServe(h, q.must())
		if err != nil {
			return nil, err
		}
		if len(rec.Codes) > 1 {
			return nil, fmt.Errorf("several statuses sent: %v", rec.Codes)
		}
		return &Resp{rec.Status(), rec.Headers(), rec.Body}, nil
	}
	w, err := wireReq(h, q)
	if err != nil {
		return nil, err
	}
	for _, k := range []string{"Date", "Connection"} {
		w.Header.Del(k)
	}
	return &Resp{w.Status, w.Header, w.Body}, nil
}

// --- S01 ---

type sendItem struct {
	ID    int64          `json:"id" xml:"id,attr"`
	Name  string         `json:"name" xml:"name"`
	Score float64        `json:"score" xml:"score"`
	On    bool           `json:"on" xml:"on"`
	U     uint64         `json:"u" xml:"u"`
	Tags  []string       `json:"tags" xml:"tag"`
	Raw   []byte         `json:"raw" xml:"-"`
	Sub   *sendItem      `json:"sub" xml:"sub"`
	Omit  string         `json:"omit,omitempty" xml:"omit,omitempty"`
	M     map[string]int `json:"m,omitempty" xml:"-"`
	Note  sendNote       `json:"note" xml:"note"`
}

// sendNote mixes text with elements.
type sendNote struct {
	Lang string   `json:"lang" xml:"lang,attr"`
	Text string   `json:"text" xml:",chardata"`
	B    []string `json:"b" xml:"b"`
	CD   struct {
		Text string `json:"text" xml:",cdata"`
	} `json:"cd" xml:"cd"`
}

type SendCase struct {
	Helper string
	Code   int
	Method string
	CT     S
	V      S
	Doc    *sendItem       `json:",omitempty"`
	Any    json.RawMessage `json:",omitempty"`
	List   bool
	AnyK   int `json:",omitempty"` // kind of Go value given as JSON
	Chunk  int
	Src    int `json:",omitempty"` // kind of reader, 0 the failing one
	Skip   int `json:",omitempty"` // bytes read from it before
	Fail   bool
	Loc    string
	Pre    []KV
	Add    bool
	NoC    int // 1 before, 2 after the helper's headers
	Wire   bool
	Long   int  `json:",omitempty"` // the value begins with V and is that long
	H      []KV `json:",omitempty"`
}

func genUTF8(t *T, max int) string {
	if t.Chance(1, 4) {
		s := textPool[t.N(len(textPool))]
		if utf8.ValidString(s) {
			return s
		}
	}
	n := t.Size(max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch t.W(6, 2, 1, 1, 1) {
		case 0:
			b.WriteByte(byte(32 + t.N(95)))
		case 1:
			b.WriteString(pick(t, "<", ">", "&", "\"", "'", "\\", "/", "\u2028", "\u2029", "\u00a0"))
		case 2:
			b.WriteByte(byte(t.N(32)))
		case 3:
			b.WriteRune(rune(0x4e00 + t.N(500)))
		case 4:
			b.WriteRune(rune(0x1f600 + t.N(50)))
		}
	}
	return b.String()
}

func genDoc(t *T, depth int, forXML bool) *sendItem {
	str := func() string {
		s := genUTF8(t, 20)
		if forXML {
			s = xmlSafe(s)
		}
		return s
	}
	d := &sendItem{ID: genInt64(t), Name: str(), Score: genFloat(t), On: t.Bool(), U: t.U64(), Omit: str()}
	for n := t.Few(0, 3, 200); n > 0; n-- {
		d.Tags = append(d.Tags, str())
	}
	if t.Chance(1, 3) {
		d.Note.Lang, d.Note.Text, d.Note.CD.Text = str(), str(), str()
		for n := t.N(3); n > 0; n-- {
			d.Note.B = append(d.Note.B, str())
		}
	}
	if !forXML {
		d.Raw = genBytes(t, 20)
		if t.Bool() {
			d.M = map[string]int{}
			for n := t.N(4); n > 0; n-- {
				d.M[str()] = t.N(1000)
			}
		}
	}
	if depth > 0 && t.Bool() {
		d.Sub = genDoc(t, depth-1, forXML)
	}
	return d
}

func genInt64(t *T) int64 {
	switch t.W(3, 1, 1, 1) {
	case 0:
		return int64(t.N(200)) - 100
	case 1:
		return math.MaxInt64 - int64(t.N(3))
	case 2:
		return math.MinInt64 + int64(t.N(3))
	}
	return int64(t.U64())
}

func genFloat(t *T) float64 {
	switch t.W(3, 2, 2) {
	case 0:
		return float64(t.N(2000)-1000) / 8
	case 1:
		return pick(t, 0, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e-7, 1e21, 1e20, 123456789.25, math.MaxFloat32)
	}
	f := math.Float64frombits(t.U64())
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 0.5
	}
	return f
}

func genAny(t *T, depth int) any {
	k := t.W(2, 1, 2, 3, 2, 2)
	if depth == 0 && k > 3 {
		k = 3
	}
	switch k {
	case 0:
		return nil
	case 1:
		return t.Bool()
	case 2:
		return genFloat(t)
	case 3:
		return genUTF8(t, 15)
	case 4:
		l := []any{}
		for n := t.N(4); n > 0; n-- {
			l = append(l, genAny(t, depth-1))
		}
		return l
	}
	m := map[string]any{}
	for n := t.N(4); n > 0; n-- {
		m[genUTF8(t, 8)] = genAny(t, depth-1)
	}
	return m
}

var sendHelpers = []string{"string", "data", "html", "json", "jsonany", "xml", "stream", "moved", "found", "notmod", "bad", "unauth", "forb", "nf", "ise", "abort", "none", "htmltpl", "htmlset"}

// setRender is the renderer of S01's processes: the response tells what it was handed.
type setRender struct{}

func (setRender) HTMLSet(ctx *water.Context, code int, set, name string, data interface{}) {
	ctx.Header().Set("Content-Type", "text/html; charset=utf-8")
	ctx.WriteHeader(code)
	fmt.Fprintf(ctx, "%q %q %T %v", set, name, data, data)
}

func genSend(t *T) SendCase {
	c := SendCase{Helper: sendHelpers[t.N(len(sendHelpers))], Method: pick(t, "GET", "GET", "POST", "HEAD", "PUT", "DELETE"), Wire: t.Chance(1, 6), H: genNoise(t)}
	c.Code = pick(t, 200, 200, 201, 202, 203, 206, 226, 300, 304, 400, 404, 418, 451, 500, 503, 599, 204, 205, 299)
	if t.Chance(1, 4) {
		c.Code = 200 + t.N(400)
	}
	c.CT = S(pick(t, "text/plain", "application/octet-stream", "image/png", "text/x; charset=latin1", "application/vnd.a+json", "custom", "TEXT/Plain;Charset=UTF-8", "a/b;c=\"d;e\"", "*/*", "text/html"))
	c.V = S(genText(t, 100))
	if t.Chance(1, 20) {
		c.V = S(strings.Repeat(string(c.V)+"x", 3000))
	} else if t.Chance(1, 40) {
		c.V = S(longText(string(c.V), near(t, 8, 20)))
	}
	c.Chunk = t.N(10)
	c.Fail = t.Chance(1, 5)
	switch c.Helper {
	case "json":
		c.Doc = genDoc(t, 2, false)
		c.List = t.Chance(1, 4)
	case "xml":
		c.Doc = genDoc(t, 2, true)
	case "stream":
		if c.Src = t.N(8); c.Src > 0 {
			c.Fail, c.Skip = false, t.Few(0, 3, 40)
		}
	case "jsonany":
		b, err := json.Marshal(genAny(t, 3))
		if err != nil {
			bug("any: %v", err)
		}
		c.Any, c.AnyK = b, t.N(14)
	case "moved", "found":
		c.Loc = genLocation(t)
	}
	for n := t.Few(0, 3, 12); n > 0; n-- {
		c.Pre = append(c.Pre, KV{S(pick(t, "X-One", "X-Two", "Cache-Control", "Vary", "Etag", "x-lower", "Content-Language", "Content-Type", "Expires", "Pragma", "Last-Modified", "Content-Disposition", "Allow", "Link", "Content-Encoding", "Content-Location", "Server", "Retry-After", "Strict-Transport-Security", "Www-Authenticate")), S(genHeaderValue(t))})
	}
	if t.Chance(1, 6) {
		c.Pre = append(c.Pre, KV{"Content-Type", S(pick(t, "application/json", "text/html", "text/plain", "application/xml", "text/html; charset=utf-8", "application/json; charset=utf-8", "application/octet-stream", "application/problem+json"))})
	}
	c.NoC = t.W(3, 1)
	return c
}

// jsonVal is a value of kind AnyK to be sent as JSON.
func (c SendCase) jsonVal() any {
	v := string(c.V)
	n := int64(crc32.ChecksumIEEE([]byte(v)))
	switch c.AnyK {
	case 1:
		return []byte(v)
	case 2:
		return json.RawMessage(c.Any)
	case 3:
		return map[string]string{v: v, "k": ""}
	case 4:
		return v
	case 5:
		return n<<24 | 1
	case 6:
		return []string{v, "", v}
	case 7:
		return [2]bool{true, n%2 == 0}
	case 8:
		return map[int]float64{int(n): 0.5, -1: 1e-9}
	case 9:
		return time.Unix(n, n).UTC()
	case 10:
		return sendItem{ID: n<<30 | 1, Name: v, U: math.MaxUint64 - uint64(n), Raw: []byte(v)}
	case 11:
		return &v
	case 12:
		return struct {
			A *int        `json:"a"`
			B interface{} `json:"b"`
			C string      `json:"-"`
			D int         `json:",string"`
		}{D: int(n), B: v}
	case 13:
		return []byte(c.Any)
	}
	var a any
	json.Unmarshal(c.Any, &a)
	if m, ok := a.(map[string]any); ok {
		return water.H(m)
	}
	return a
}

// streamOf is a reader of kind n of the data; every kind but the first can do more than read.
func streamOf(n int, data string) io.Reader {
	switch n {
	case 1:
		return strings.NewReader(data)
	case 2:
		return bytes.NewReader([]byte(data))
	case 3:
		return io.NewSectionReader(strings.NewReader("before"+data+"behind"), 6, int64(len(data)))
	case 4:
		return bytes.NewBufferString(data)
	case 5:
		return bufio.NewReader(strings.NewReader(data))
	case 6:
		return io.LimitReader(strings.NewReader(data+"behind"), int64(len(data)))
	}
	return slowSeeker{strings.NewReader(data)}
}

// longText has n bytes, begins with v and does not repeat itself.
func longText(v string, n int) string {
	b := []byte(v)
	x := uint64(n)*2654435761 + 1
	for len(b) < n {
		x = x*6364136223846793005 + 1442695040888963407
		b = append(b, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[x>>58])
	}
	return string(b[:n])
}

func genHeaderValue(t *T) string {
	n := t.Range(1, 12)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("abcXYZ019 ;,=\"-/*()"[t.N(19)])
	}
	s := strings.TrimSpace(b.String())
	if s == "" {
		return "v"
	}
	return s
}

func genLocation(t *T) string {
	var b strings.Builder
	abs := t.Chance(1, 2)
	if abs { // with a scheme net/http leaves the location as it is
		b.WriteString(pick(t, "http://other.example", "https://u.example:8443", "HTTP://Example.COM", "https://user:p%40ss@h", "http://[::1]:80", "http://h:80", "app:open", "mailto:a@b.c", "custom+x.1://x", "http://h..", "http://xn--e1afmkfd.example"))
	}
	for n := t.N(4); n > 0; n-- {
		seg := pick(t, "a", "login", "x-y_z", "%20", "a%2Fb", "p.html", "~u", "2", "%7e", "%2e", "a+b", "a;b=c", "@", "a,b", "(x)", "!$&'*", "a:b", "é", "日本", "a=b")
		if abs {
			seg = pick(t, seg, seg, "..", ".", "", "%zz")
		}
		b.WriteString("/" + seg)
	}
	if b.Len() == 0 || t.Chance(1, 4) {
		b.WriteByte('/')
	}
	if t.Bool() {
		b.WriteString("?" + pick(t, "q=1", "next=%2Fa%3Fb&x=y+z", "a=b&a=c", "u=http://x/y", "", "=", "b=2&a=1", "q=%7e", "a;b", "q=a%26b", "?"))
	}
	if t.Chance(1, 4) {
		b.WriteString(pick(t, "#frag", "#", "#/route", "#a%20b"))
	}
	return b.String()
}

// sameLocation: as given, except that bytes outside ASCII may be sent escaped.
func sameLocation(got, want string) bool {
	if got == want {
		return true
	}
	var b strings.Builder
	for i := 0; i < len(want); i++ {
		if want[i] < 0x80 {
			b.WriteByte(want[i])
		} else {
			fmt.Fprintf(&b, "%%%02x", want[i])
		}
	}
	return strings.EqualFold(b.String(), got) && strings.ContainsFunc(want, func(r rune) bool { return r >= 0x80 })
}

func bodyless(code int) bool { return code == 204 || code == 304 }

// genSendHuge sends values of up to many megabytes.
func genSendHuge(t *T) SendCase {
	c := genSend(t)
	c.Helper, c.Doc, c.Any, c.Loc = pick(t, "string", "data", "html", "stream", "json", "xml"), nil, nil, ""
	c.Code, c.Method, c.V = pick(t, 200, 200, 201, 404, 500), pick(t, "GET", "POST"), S(genUTF8(t, 20))
	c.Long = near(t, 18, 25)
	if c.Helper == "json" || c.Helper == "xml" {
		c.Doc = &sendItem{}
		c.V = "a"
	}
	return c
}

func (c SendCase) skip() int { return min(c.Skip, len(c.V)) }

func runSend(c SendCase, o *Obs) error {
	if c.Long > 0 {
		c.V = S(longText(string(c.V), c.Long))
		if c.Doc != nil {
			d := *c.Doc
			d.Name, d.Tags = string(c.V), []string{string(c.V), "end"}
			c.Doc = &d
		}
	}
	var herr error
	var returned error
	r := water.NewRouter()
	regMethod(r, c.Method, "/send/here", func(ctx *water.Context) {
		for _, kv := range c.Pre {
			ctx.SetHeader(string(kv.K), string(kv.V))
		}
		if c.NoC == 1 {
			ctx.NoCache()
		}
		v := string(c.V)
		switch c.Helper {
		case "string":
			ctx.String(c.Code, v)
		case "data":
			ctx.Data(c.Code, string(c.CT), []byte(v))
		case "html":
			ctx.HTMLRaw(c.Code, v)
		case "htmltpl":
			water.SetRender(setRender{})
			ctx.HTML(c.Code, string(c.CT), v)
		case "htmlset":
			water.SetRender(setRender{})
			ctx.HTMLSet(c.Code, v, string(c.CT), &sendItem{})
		case "json":
			if c.List {
				returned = ctx.JSON(c.Code, []*sendItem{c.Doc, c.Doc})
			} else {
				returned = ctx.JSON(c.Code, c.Doc)
			}
		case "jsonany":
			returned = ctx.JSON(c.Code, c.jsonVal())
		case "xml":
			returned = ctx.XML(c.Code, c.Doc)
		case "stream":
			if c.Src > 0 {
				rd := streamOf(c.Src, v)
				io.ReadFull(rd, make([]byte, c.skip()))
				returned = ctx.Stream(string(c.CT), rd)
				break
			}
			e := io.EOF
			if c.Fail {
				e = bodyErrs[len(c.V)%len(bodyErrs)]
			}
			returned = ctx.Stream(string(c.CT), &errReader{data: []byte(v), chunk: c.Chunk, err: e, withEOF: c.Code%2 == 0})
		case "moved":
			ctx.MovedPermanently(c.Loc)
		case "found":
			ctx.Found(c.Loc)
		case "notmod":
			ctx.NotModified()
		case "bad":
			ctx.BadRequest()
		case "unauth":
			ctx.Unauthorized()
		case "forb":
			ctx.Forbidden()
		case "nf":
			ctx.NotFound()
		case "ise":
			ctx.InternalServerError()
		case "abort":
			ctx.Abort(c.Code)
		case "none":
		}
	})
	resp, err := deliver(r.Handler(), Req{Method: c.Method, Target: "/send/here", H: c.H}, c.Wire)
	if err != nil {
		return err
	}
	if herr != nil {
		return herr
	}
	o.LabelIf(c.Wire, "wire")
	o.Label(c.Helper)

	pre := http.Header{}
	for _, kv := range c.Pre {
		pre.Set(string(kv.K), string(kv.V))
	}
	if c.NoC == 1 {
		pre.Del("Cache-Control")
		pre.Del("Expires")
		cc := resp.Header.Get("Cache-Control")
		for _, d := range []string{"no-cache", "max-age=0", "must-revalidate"} {
			if !strings.Contains(cc, d) {
				return fmt.Errorf("no-cache: Cache-Control is %q", cc)
			}
		}
		if resp.Header.Get("Expires") != "0" {
			return fmt.Errorf("no-cache: Expires is %q", resp.Header.Get("Expires"))
		}
	}
	code, ct, body, known := c.Code, "", "", true
	switch c.Helper {
	case "string":
		ct, body = "text/plain; charset=utf-8", string(c.V)
	case "data":
		ct, body = string(c.CT), string(c.V)
	case "html":
		ct, body = "text/html; charset=utf-8", string(c.V)
	case "htmltpl":
		ct, body = "text/html; charset=utf-8", fmt.Sprintf("%q %q %T %v", "", string(c.CT), string(c.V), string(c.V))
	case "htmlset":
		ct, body = "text/html; charset=utf-8", fmt.Sprintf("%q %q %T %v", string(c.V), string(c.CT), &sendItem{}, &sendItem{})
	case "json", "jsonany":
		ct, known = "application/json; charset=utf-8", false
	case "xml":
		ct, known = "application/xml; charset=utf-8", false
	case "stream":
		ct, body, code = string(c.CT), string(c.V), 200
		if c.Src > 0 { // the rest of it
			body = body[c.skip():]
		}
	case "moved":
		code, known = 301, false
	case "found":
		code, known = 302, false
	case "notmod":
		code = 304
	case "bad":
		code = 400
	case "unauth":
		code = 401
	case "forb":
		code = 403
	case "nf":
		code = 404
	case "ise":
		code = 500
	case "none":
		code = 200
	}
	if ct != "" {
		pre.Set("Content-Type", ct)
	}
	if c.Helper != "none" && (len(c.V) > 0 || !known) {
		o.NT()
	}
	if resp.Status != code {
		return fmt.Errorf("%s: status %d, want %d", c.Helper, resp.Status, code)
	}
	for k, v := range pre {
		if c.Wire && bodyless(code) && k == "Content-Type" {
			continue
		}
		if !reflect.DeepEqual(resp.Header[k], v) {
			return fmt.Errorf("%s: header %s is %q, want %q", c.Helper, k, resp.Header[k], v)
		}
	}
	if c.Helper == "moved" || c.Helper == "found" {
		if l := resp.Header.Get("Location"); !sameLocation(l, c.Loc) {
			return fmt.Errorf("%s: location %q, want %q", c.Helper, l, c.Loc)
		}
		return nil
	}
	if c.Helper == "stream" {
		if c.Fail != (returned != nil) || (c.Fail && returned != bodyErrs[len(c.V)%len(bodyErrs)]) {
			if !(c.Wire && (c.Method == "HEAD")) {
				return fmt.Errorf("stream: returned %v, the reader failed: %v", returned, c.Fail)
			}
		}
	} else if returned != nil && !(c.Wire && (bodyless(code) || c.Method == "HEAD")) {
		return fmt.Errorf("%s returned %v", c.Helper, returned)
	}
	if c.Wire && (bodyless(code) || c.Method == "HEAD") {
		if len(resp.Body) != 0 {
			return fmt.Errorf("body %q for status %d of %s", short(string(resp.Body)), code, c.Method)
		}
		return nil
	}
	if known {
		if string(resp.Body) != body {
			return fmt.Errorf("%s: body %q, want %q", c.Helper, short(string(resp.Body)), short(body))
		}
		return nil
	}
	switch c.Helper {
	case "json":
		var back []*sendItem
		var err error
		dec := json.NewDecoder(bytes.NewReader(resp.Body))
		if c.List {
			err = dec.Decode(&back)
		} else {
			var one *sendItem
			err = dec.Decode(&one)
			back = []*sendItem{one}
		}
		if err != nil || len(back) == 0 {
			return fmt.Errorf("JSON body %q: %v", short(string(resp.Body)), err)
		}
		if _, err := dec.Token(); err != io.EOF {
			return fmt.Errorf("JSON body %q holds more than one document", short(string(resp.Body)))
		}
		for _, b := range back {
			if !docEqual(b, c.Doc) {
				return fmt.Errorf("JSON body %q is not the value %s", short(string(resp.Body)), short(string(mustJSON(c.Doc))))
			}
		}
	case "jsonany":
		val := c.jsonVal()
		if _, ok := val.([]byte); ok {
			o.Label("bytes as JSON")
		}
		raw, err := json.Marshal(val)
		if err != nil {
			bug("value: %v", err)
		}
		var a, b any
		decode := func(data []byte, v *any) error {
			dec := json.NewDecoder(bytes.NewReader(data))
			if c.AnyK != 0 && c.AnyK != 2 {
				dec.UseNumber()
			}
			if err := dec.Decode(v); err != nil {
				return err
			}
			if _, err := dec.Token(); err != io.EOF {
				return fmt.Errorf("more than one document")
			}
			return nil
		}
		if err := decode(raw, &a); err != nil {
			bug("value: %v", err)
		}
		if err := decode(resp.Body, &b); err != nil {
			return fmt.Errorf("JSON body %q: %v", short(string(resp.Body)), err)
		}
		if !reflect.DeepEqual(a, b) {
			return fmt.Errorf("JSON body %q is not the %T %s", short(string(resp.Body)), val, short(string(raw)))
		}
	case "xml":
		var b sendItem
		if err := xml.Unmarshal(resp.Body, &b); err != nil {
			return fmt.Errorf("XML body %q: %v", short(string(resp.Body)), err)
		}
		if !docEqual(&b, c.Doc) {
			return fmt.Errorf("XML body %q is not the value %s", short(string(resp.Body)), short(string(mustJSON(c.Doc))))
		}
	}
	return nil
}

// docEqual compares by value: nil and empty lists are the same.
func docEqual(a, b *sendItem) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.ID != b.ID || a.Name != b.Name || a.Score != b.Score || a.On != b.On || a.U != b.U || a.Omit != b.Omit ||
		!bytes.Equal(a.Raw, b.Raw) || len(a.Tags) != len(b.Tags) || len(a.M) != len(b.M) {
		return false
	}
	for i := range a.Tags {
		if a.Tags[i] != b.Tags[i] {
			return false
		}
	}
	for k, v := range a.M {
		if w, ok := b.M[k]; !ok || w != v {
			return false
		}
	}
	if a.Note.Lang != b.Note.Lang || a.Note.Text != b.Note.Text || a.Note.CD != b.Note.CD || strings.Join(a.Note.B, "\x00") != strings.Join(b.Note.B, "\x00") || len(a.Note.B) != len(b.Note.B) {
		return false
	}
	return docEqual(a.Sub, b.Sub)
}

// --- S02 ---

type DlCase struct {
	Kind   string // download, attach, missing, dir
	Name   S
	Data   S
	Rep    int // the data this many times
	Inline int // 0 not given, 1 false, 2 true
	Range  S   `json:",omitempty"`
	Method string
	ZeroMT bool
	Wire   bool
	Pre    bool // a header set before
	Link   int  `json:",omitempty"` // the path is: 1 a symbolic link of that name to the file, 2 one in a directory that is a link, 3 relative or with dots in it
	Seek   int  `json:",omitempty"` // the reader stands this many quarters into the content
	Src    int  `json:",omitempty"` // kind of reader
	Long   int  `json:",omitempty"` // the content begins with Data and is that long
	MT     int  `json:",omitempty"` // modification time: 1 with a fraction, 2 in the future, 3 elsewhere on the globe, 4 to 7 long ago
	Cond   int  `json:",omitempty"` // what the client knows: 1 the time given, 2 a later one, 3 an earlier one, as If-Modified-Since; 4 to 6 the same as If-Unmodified-Since
	H      []KV `json:",omitempty"`
}

func (c DlCase) mtime() time.Time {
	switch c.MT {
	case 1:
		return time.Unix(1600000000, 999999999)
	case 2:
		return time.Unix(2600000000, 0)
	case 3:
		return time.Unix(1600000000, 0).In(time.FixedZone("X", 5*3600+1800))
	case 4:
		return time.Date(1987, 2, 28, 23, 59, 59, 0, time.UTC)
	case 5:
		if c.Kind == "attach" { // not every file system can
			return time.Date(1969, 12, 31, 23, 59, 58, 5, time.UTC)
		}
	case 6:
		if c.Kind == "attach" {
			return time.Date(1815, 6, 18, 11, 0, 0, 0, time.UTC)
		}
	case 7:
		return time.Unix(1, 500)
	}
	return time.Unix(1600000000, 0)
}

// cond is the conditional header of the request, and the status it alone leads to (0 none).
func (c DlCase) cond() (k, v string, code int) {
	if c.Cond == 0 {
		return
	}
	mt := c.mtime().Truncate(time.Second).UTC()
	n := (c.Cond - 1) % 3
	at := mt.Add([]time.Duration{0, 36 * time.Hour, -2 * time.Second}[n])
	k, v = "If-Modified-Since", at.Format(http.TimeFormat)
	if c.Cond > 3 {
		k = "If-Unmodified-Since"
		if n == 2 {
			code = 412
		}
	} else if n != 2 {
		code = 304
	}
	if c.ZeroMT && c.Kind == "attach" { // no time is known
		code = 0
	}
	return
}

// slowSeeker hands out a few bytes at a time.
type slowSeeker struct{ io.ReadSeeker }

func (s slowSeeker) Read(p []byte) (int, error) {
	return s.ReadSeeker.Read(p[:min(len(p), 700)])
}

// source is a reader of kind n of the data.
func source(n int, data string) io.ReadSeeker {
	switch n {
	case 1:
		return bytes.NewReader([]byte(data))
	case 2:
		return io.NewSectionReader(strings.NewReader("before"+data+"behind"), 6, int64(len(data)))
	case 3:
		return slowSeeker{strings.NewReader(data)}
	}
	return strings.NewReader(data)
}

func genFileName(t *T, forFS bool) string {
	for {
		var s string
		switch t.W(2, 3, 2, 1) {
		case 0:
			s = pick(t, "a.txt", "report.pdf", "noext", "a b.txt", "quote\".txt", "semi;colon", "per%cent", "new\nline", "plus+sign", "tab\t", "a'b", "back\\slash", "中文.txt", "é", "a=b", "x:y", "user@host", "100%25", "\xff\xfe", "a,b", "~", "..hidden", "utf-8''x", "*", "a/b", "../up", "", " lead", "trail ", "\x7f", "\x01")
		case 1:
			n := t.Range(1, 12)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(32 + t.N(95))
			}
			s = string(b)
		case 2:
			n := t.Range(1, 8)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(1 + t.N(255))
			}
			s = string(b)
		case 3:
			s = genUTF8(t, 12)
		}
		if strings.IndexByte(s, 0) >= 0 {
			continue
		}
		if forFS && (s == "" || s == "." || s == ".." || strings.Contains(s, "/") || len(s) > 100) {
			continue
		}
		return s
	}
}

func genRange(t *T, n int) S {
	switch t.W(3, 1, 1, 1, 1) {
	case 0:
		if n == 0 {
			return "bytes=0-0"
		}
		a := t.N(n)
		return S(fmt.Sprintf("bytes=%d-%d", a, a+t.N(n-a+3)))
	case 1:
		return S(fmt.Sprintf("bytes=%d-", t.N(n+2)))
	case 2:
		return S(fmt.Sprintf("bytes=-%d", 1+t.N(n+3)))
	case 3:
		return S(pick(t, "bytes=", "octets=0-1", "bytes=5-2", "bytes=a-b", "0-1"))
	}
	return "bytes=0-"
}

func genDl(t *T) DlCase {
	c := DlCase{Kind: pick(t, "download", "download", "attach", "attach", "missing", "dir"), Data: S(genText(t, 60)), Rep: 1, Inline: t.N(3),
		Method: pick(t, "GET", "GET", "GET", "HEAD"), ZeroMT: t.Chance(1, 4), Wire: t.Chance(1, 6), Pre: t.Bool()}
	if t.Chance(1, 6) {
		c.Rep = pick(t, 100, 1000, 5000)
	}
	c.Name = S(genFileName(t, c.Kind != "attach"))
	if t.Chance(1, 2) {
		c.Range = genRange(t, len(c.Data)*c.Rep)
	}
	c.Seek, c.Src, c.Link = t.W(3, 1, 1, 1, 1), t.N(4), t.W(6, 1, 1, 1)
	c.MT, c.Cond = t.W(4, 1, 1, 1, 1, 1, 1, 1), t.W(12, 2, 1, 1, 1, 1, 1)
	if c.Cond == 0 {
		c.H = genNoise(t)
	}
	return c
}

// genDlHuge offers content of up to many megabytes.
func genDlHuge(t *T) DlCase {
	c := genDl(t)
	if c.Kind != "download" {
		c.Kind = "attach"
	}
	c.Long, c.Cond = near(t, 18, 26), 0
	c.Range = ""
	if t.Chance(1, 3) {
		c.Range = genRange(t, c.Long)
	}
	if c.Src == 3 {
		c.Src = 0
	}
	return c
}

func (c DlCase) content() string {
	if c.Long > 0 {
		return longText(string(c.Data), c.Long)
	}
	return strings.Repeat(string(c.Data), c.Rep)
}

// rangeOf is what a single byte range selects: ok false if it is to be ignored, sat false if 416.
func rangeOf(spec string, n int) (from, to int, ok, sat bool) {
	const p = "bytes="
	if !strings.HasPrefix(spec, p) {
		return
	}
	a, b, found := strings.Cut(spec[len(p):], "-")
	if !found {
		return
	}
	if a == "" {
		k, err := strconv.Atoi(b)
		if err != nil || k < 0 {
			return
		}
		if k == 0 {
			return 0, 0, true, false
		}
		return max(0, n-k), n, true, n > 0
	}
	x, err := strconv.Atoi(a)
	if err != nil {
		return
	}
	y := n - 1
	if b != "" {
		y, err = strconv.Atoi(b)
		if err != nil || y < x {
			return
		}
	}
	if x >= n {
		return 0, 0, true, false
	}
	return x, min(y+1, n), true, true
}

func runDl(c DlCase, o *Obs) error {
	dir := scratch()
	data := c.content()
	mt := c.mtime()
	path := filepath.Join(dir, string(c.Name))
	switch c.Kind {
	case "download":
		real := path
		if c.Link == 1 {
			real = filepath.Join(scratch(), "real")
		}
		if err := os.WriteFile(real, []byte(data), 0o644); err != nil {
			bug("write %q: %v", path, err)
		}
		os.Chtimes(real, mt, mt)
		switch c.Link {
		case 1:
			if err := os.Symlink(real, path); err != nil {
				bug("link: %v", err)
			}
		case 2:
			l := filepath.Join(scratch(), "dir link")
			if err := os.Symlink(dir, l); err != nil {
				bug("link: %v", err)
			}
			path = filepath.Join(l, string(c.Name))
		case 3:
			path = dir + "/./../" + filepath.Base(dir) + "//" + string(c.Name)
		}
	case "dir":
		if err := os.Mkdir(path, 0o755); err != nil {
			bug("mkdir: %v", err)
		}
	}
	if c.ZeroMT && c.Kind == "attach" {
		mt = time.Time{}
	}
	var returned error
	var before, after string
	var writtenAfter bool
	r := water.NewRouter()
	h := func(ctx *water.Context) {
		if c.Pre {
			ctx.SetHeader("X-Pre", "kept")
			if len(c.Name)%2 == 0 { // what it says itself
				ctx.SetHeader("Content-Disposition", "inline")
			}
			if c.Kind != "attach" && len(c.Name)%3 == 0 {
				ctx.SetHeader("Content-Type", "text/html")
			}
		}
		before = hdrString(ctx.Header())
		var in []bool
		if c.Inline > 0 {
			in = []bool{c.Inline == 2}
		}
		if c.Kind == "attach" {
			rd := source(c.Src, data)
			rd.Seek(int64(len(data)*c.Seek/4), io.SeekStart) // where the reader stands does not matter
			ctx.Attachment(string(c.Name), mt, rd, in...)
			return
		}
		returned = ctx.Download(path, in...)
		after, writtenAfter = hdrString(ctx.Header()), ctx.Written()
	}
	r.GET("/d", h)
	r.HEAD("/d", h)
	q := Req{Method: c.Method, Target: "/d", H: slices.Clone(c.H)}
	if c.Range != "" {
		q.H = append(q.H, KV{"Range", c.Range})
	}
	ck, cv, condCode := c.cond()
	if ck != "" {
		q.H = append(q.H, KV{S(ck), S(cv)})
	}
	resp, err := deliver(r.Handler(), q, c.Wire)
	if err != nil {
		return err
	}
	o.Label(c.Kind)
	if c.Kind == "missing" || c.Kind == "dir" {
		o.NT()
		if returned == nil {
			return fmt.Errorf("Download of a %s path returned no error, response %s", c.Kind, resp)
		}
		if writtenAfter || len(resp.Body) > 0 {
			return fmt.Errorf("Download of a %s path sent something: %s", c.Kind, resp)
		}
		if before != after {
			return fmt.Errorf("Download of a %s path left headers %s, before %s", c.Kind, after, before)
		}
		return nil
	}
	if returned != nil {
		return fmt.Errorf("Download returned %v", returned)
	}
	cd := resp.Header.Get("Content-Disposition")
	typ, params, err := mime.ParseMediaType(cd)
	if err != nil {
		return fmt.Errorf("Content-Disposition %q: %v", cd, err)
	}
	want := "attachment"
	if c.Inline == 2 {
		want = "inline"
	}
	if typ != want {
		return fmt.Errorf("disposition %q, want %s", cd, want)
	}
	if params["filename"] != string(c.Name) {
		return fmt.Errorf("Content-Disposition %q gives file name %q, want %q", cd, params["filename"], string(c.Name))
	}
	if c.Pre && resp.Header.Get("X-Pre") != "kept" {
		return fmt.Errorf("header set before is lost: %s", resp)
	}
	if condCode != 0 {
		o.NT()
		o.Label(ck)
		if resp.Status != condCode || len(resp.Body) > 0 {
			return fmt.Errorf("%s: %s for content modified at %s: %s, want %d", ck, cv, mt.UTC().Format(http.TimeFormat), resp, condCode)
		}
		return nil
	}
	from, to, ok, sat := rangeOf(string(c.Range), len(data))
	code, body := 200, data
	if c.Range != "" && ok {
		o.NT()
		o.Label("range")
		code = 206
		body = data[from:to]
		if !sat {
			code = 416
		}
	}
	malformed := c.Range != "" && !ok
	if malformed && resp.Status == 416 { // net/http refuses what it cannot read
		return nil
	}
	if len(data) == 0 && c.Range != "" { // net/http ignores ranges of nothing
		code, body = resp.Status, ""
	}
	if len(data) > 0 {
		o.NT()
	}
	if resp.Status != code {
		return fmt.Errorf("status %d, want %d (range %q of %d bytes)", resp.Status, code, c.Range, len(data))
	}
	if code == 416 {
		return nil
	}
	lm := ""
	if !mt.IsZero() {
		lm = mt.UTC().Format(http.TimeFormat)
	}
	if got := resp.Header.Get("Last-Modified"); got != lm {
		return fmt.Errorf("Last-Modified %q, the modification time is %q", got, lm)
	}
	if ct := resp.Header.Get("Content-Type"); c.Kind == "download" && ct != "application/octet-stream" {
		return fmt.Errorf("Download has content type %q", ct)
	}
	if c.Method == "HEAD" {
		if len(resp.Body) > 0 {
			return fmt.Errorf("HEAD has a body: %s", resp)
		}
		if cl := resp.Header.Get("Content-Length"); cl != fmt.Sprint(len(body)) {
			return fmt.Errorf("HEAD announces %s bytes, there are %d", cl, len(body))
		}
		return nil
	}
	if string(resp.Body) != body {
		return fmt.Errorf("%d bytes delivered %q, want %d bytes %q", len(resp.Body), short(string(resp.Body)), len(body), short(body))
	}
	return nil
}

// --- S03 ---

type CookieSet struct {
	Name, Value S
	N           int // how many optional arguments
	AgeKind     int // 0 int 1 int32 2 int64 3 other type
	Age         int
	Path        string
	Domain      string
	Secure      int // 0 false 1 true 2 nil
	HTTPOnly    bool
	SameSite    int // 0.. http.SameSite
}

type CookieCase struct {
	Set  []CookieSet
	Raw  []KV // cookies the client sends, read in all forms
	Ask  []S
	Cuts []int // pairs that begin another Cookie header line
	Wire bool
}

const tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~"

func genToken(t *T) string {
	if t.Chance(1, 2) {
		return pick(t, "a", "sid", "A", "__Host-x", "__Secure-id", "__Host-sid", "__Http-x", "session", "csrf_token", "x.y", "c1", "c2", "$Version", "Path", "expires")
	}
	n := t.Range(1, 6)
	b := make([]byte, n)
	for i := range b {
		b[i] = tokenChars[t.N(len(tokenChars))]
	}
	return string(b)
}

func genCookieValue(t *T) string {
	switch t.W(3, 2, 2) {
	case 0:
		return pick(t, "", "v", "1", "true", "42", "-7", "3.5", "abc=def", "a%20b", "0x10", "+5", "1e3", " spaced", "a,b", "t", "007", "18446744073709551615", "9223372036854775807", "-9223372036854775808", "<b>&amp'</b>", "1_000", "Inf")
	case 1:
		n := t.Range(1, 10)
		b := make([]byte, n)
		for i := range b {
			b[i] = "0123456789-+.e"[t.N(14)]
		}
		return string(b)
	}
	n := t.Range(1, 12)
	b := make([]byte, 0, n)
	for len(b) < n {
		c := byte(0x20 + t.N(0x5f))
		if c == '"' || c == ';' || c == '\\' {
			continue
		}
		b = append(b, c)
	}
	return string(b)
}

func genCookieSet(t *T) CookieSet {
	c := CookieSet{Name: S(genToken(t)), Value: S(genCookieValue(t)), N: t.N(7)}
	if t.Chance(1, 8) { // long
		c.Value = S(longText(string(c.Value)+"v", near(t, 6, 15)))
	}
	if t.Chance(1, 8) {
		c.Name = S(pick(t, "", "a b", "a=b", "a;b", "é", "a\x00", "(x)", "a,b", "\"q\""))
	}
	c.AgeKind = t.W(3, 1, 1, 1)
	c.Age = pick(t, 0, 1, 3600, -1, 2147483647, -100, 60, -2147483648)
	if c.AgeKind != 1 && t.Chance(1, 4) {
		c.Age = pick(t, 2147483648, 4000000000, 1<<32, 1<<40, 1<<53, 4294967297, -4294967296, 99999999999)
	}
	c.Path = pick(t, "", "/", "/app", "/a/b", "/x y")
	c.Domain = pick(t, "", "example.com", "sub.example.com", "a-b.c", "127.0.0.1", "www.example.com", "www.a.co.uk", "WWW.Example.com", "m.example.com", "www")
	c.Secure = t.N(3)
	c.HTTPOnly = t.Bool()
	c.SameSite = t.N(5)
	return c
}

func genCookie(t *T) CookieCase {
	c := CookieCase{Wire: t.Chance(1, 6)}
	for n := t.Few(1, 4, 40); n > 0; n-- {
		c.Set = append(c.Set, genCookieSet(t))
	}
	for n := t.Few(0, 2, 30); n > 0; n-- {
		c.Raw = append(c.Raw, KV{S("r" + fmt.Sprint(n)), S(genCookieValue(t))})
	}
	c.Ask = []S{"absent", S(genToken(t))}
	for n := t.W(3, 2, 1, 1); n > 0; n-- {
		c.Cuts = append(c.Cuts, t.Range(1, 6))
	}
	return c
}

func validToken(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(tokenChars, s[i]) < 0 {
			return false
		}
	}
	return true
}

// typedOK compares a typed reading with strict parsing; a value out of range may also be saturated.
func typedOK(s string, what string, got any) error {
	var want any
	var err error
	switch what {
	case "bool":
		want, err = strconv.ParseBool(s)
	case "int":
		want, err = strconv.Atoi(s)
	case "int64":
		want, err = strconv.ParseInt(s, 10, 64)
	case "uint":
		var u uint64
		u, err = strconv.ParseUint(s, 10, 64)
		want = uint(u)
	case "uint64":
		want, err = strconv.ParseUint(s, 10, 64)
	case "float64":
		want, err = strconv.ParseFloat(s, 64)
	}
	if err != nil {
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			if got == want {
				return nil
			}
		}
		want = reflect.Zero(reflect.TypeOf(got)).Interface()
	}
	if f, ok := want.(float64); ok && math.IsNaN(f) {
		if g, ok := got.(float64); ok && math.IsNaN(g) {
			return nil
		}
	}
	if got != want {
		return fmt.Errorf("%s reading of %q is %v, want %v", what, s, got, want)
	}
	return nil
}

func runCookie(c CookieCase, o *Obs) error {
	r := water.NewRouter()
	r.GET("/set", func(ctx *water.Context) {
		for _, s := range c.Set {
			var args []any
			var age any = s.Age
			switch s.AgeKind {
			case 1:
				age = int32(s.Age)
			case 2:
				age = int64(s.Age)
			case 3:
				age = nil
			}
			args = append(args, age, s.Path, s.Domain)
			switch s.Secure {
			case 0:
				args = append(args, false)
			case 1:
				args = append(args, true)
			default:
				args = append(args, nil)
			}
			args = append(args, s.HTTPOnly, http.SameSite(s.SameSite))
			ctx.SetCookie(string(s.Name), string(s.Value), args[:s.N]...)
		}
		ctx.String(200, "ok")
	})
	type reading struct {
		s   string
		esc string
		b   bool
		i   int
		i64 int64
		u   uint
		u64 uint64
		f   float64
	}
	got := map[string]reading{}
	var names []string
	r.GET("/get", func(ctx *water.Context) {
		for _, n := range names {
			got[n] = reading{ctx.Cookie(n), ctx.CookieEscape(n), ctx.CookieBool(n), ctx.CookieInt(n), ctx.CookieInt64(n), ctx.CookieUint(n), ctx.CookieUint64(n), ctx.CookieFloat64(n)}
		}
	})
	e := r.Handler()
	resp, err := deliver(e, Req{Method: "GET", Target: "/set"}, c.Wire)
	if err != nil {
		return err
	}
	lines := resp.Header["Set-Cookie"]
	var want []CookieSet
	for _, s := range c.Set {
		if validToken(string(s.Name)) {
			want = append(want, s)
		}
	}
	if len(want) > 0 {
		o.NT()
	}
	o.LabelIf(len(want) > 1, "several cookies")
	o.LabelIf(len(want) < len(c.Set), "invalid name")
	if len(lines) != len(want) {
		return fmt.Errorf("%d Set-Cookie lines %q for %d valid cookies", len(lines), lines, len(want))
	}
	sent := map[string]string{}
	var cookieHeader []string
	for i, s := range want {
		one := (&http.Response{Header: http.Header{"Set-Cookie": {lines[i]}}}).Cookies()
		if len(one) != 1 {
			return fmt.Errorf("unreadable Set-Cookie %q", lines[i])
		}
		k := one[0]
		if k.Name != string(s.Name) || k.Value != string(s.Value) {
			return fmt.Errorf("Set-Cookie %q: got %q=%q, want %q=%q", lines[i], k.Name, k.Value, s.Name, s.Value)
		}
		age := 0
		if s.N > 0 && s.AgeKind < 3 {
			age = s.Age
		}
		if age < 0 {
			age = -1
		}
		path, domain := "/", ""
		if s.N > 1 && s.Path != "" {
			path = s.Path
		}
		if s.N > 2 {
			domain = s.Domain
		}
		secure := s.N > 3 && s.Secure == 1
		ho := s.N > 4 && s.HTTPOnly
		ss := ""
		if s.N > 5 {
			ss = []string{"", "", "Lax", "Strict", "None"}[s.SameSite]
		}
		// http.SameSiteDefaultMode is no attribute
		gotSS := map[http.SameSite]string{http.SameSiteLaxMode: "Lax", http.SameSiteStrictMode: "Strict", http.SameSiteNoneMode: "None"}[k.SameSite]
		if k.MaxAge != age || k.Path != path || k.Domain != domain || k.Secure != secure || k.HttpOnly != ho || gotSS != ss || !k.Expires.IsZero() || len(k.Unparsed) > 0 {
			return fmt.Errorf("Set-Cookie %q: want max-age %d path %q domain %q secure %v httponly %v samesite %q", lines[i], age, path, domain, secure, ho, ss)
		}
		// as a client would send it back
		pair := lines[i]
		if j := strings.IndexByte(pair, ';'); j >= 0 {
			pair = pair[:j]
		}
		if _, dup := sent[k.Name]; !dup {
			sent[k.Name] = string(s.Value)
			cookieHeader = append(cookieHeader, pair)
		}
	}
	for _, kv := range c.Raw {
		if _, dup := sent[string(kv.K)]; !dup {
			sent[string(kv.K)] = string(kv.V)
			v := string(kv.V)
			if strings.ContainsAny(v, " ,") {
				v = `"` + v + `"`
			}
			cookieHeader = append(cookieHeader, string(kv.K)+"="+v)
		}
	}
	for n := range sent {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, a := range c.Ask {
		if _, have := sent[string(a)]; !have {
			names = append(names, string(a))
		}
	}
	q := Req{Method: "GET", Target: "/get"}
	from := 0 // as HTTP/2 clients may, in several lines
	for i := 1; i <= len(cookieHeader); i++ {
		if i == len(cookieHeader) || slices.Contains(c.Cuts, i) {
			q.H = append(q.H, KV{"Cookie", S(strings.Join(cookieHeader[from:i], "; "))})
			from = i
		}
	}
	o.LabelIf(len(q.H) > 1, "several header lines")
	if _, err := deliver(e, q, c.Wire); err != nil {
		return err
	}
	for _, n := range names {
		v, g := sent[n], got[n]
		if g.s != v {
			return fmt.Errorf("cookie %q read as %q, sent %q", n, g.s, v)
		}
		if unescapeHTML(g.esc) != v || strings.ContainsAny(g.esc, "<>\"'") {
			return fmt.Errorf("cookie %q with value %q escaped as %q", n, v, g.esc)
		}
		for _, p := range []struct {
			w string
			v any
		}{{"bool", g.b}, {"int", g.i}, {"int64", g.i64}, {"uint", g.u}, {"uint64", g.u64}, {"float64", g.f}} {
			if err := typedOK(v, p.w, p.v); err != nil {
				return fmt.Errorf("cookie %q: %v", n, err)
			}
		}
	}
	return nil
}

func unescapeHTML(s string) string {
	for _, p := range [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&#34;", "\""}, {"&#39;", "'"}, {"&amp;", "&"}} {
		s = strings.ReplaceAll(s, p[0], p[1])
	}
	return s
}

func init() {
	hugeSend := huge(fam("huge", 5, "values of 256 KiB to 32 MiB and more; all are non-trivial", genSendHuge, runSend))
	hugeDl := huge(fam("huge", 4, "contents of 256 KiB to 64 MiB and more, some in ranges", genDlHuge, runDl))
	register(&Property{ID: "S01", Families: []*Family{
		hugeSend,
		fam("send", 12000, "a helper that sends a body or a location", genSend, runSend),
	}})
	register(&Property{ID: "S02", Families: []*Family{
		hugeDl,
		fam("download", 8000, "non-empty content, a range, or a path that cannot be downloaded", genDl, runDl),
	}})
	register(&Property{ID: "S03", Families: []*Family{
		fam("cookies", 12000, "at least one cookie with a valid name is set", genCookie, runCookie),
	}})
}
