package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// --- M01: CORS ---

type CorsCfg struct {
	Origins, Methods, Headers, Expose []string
	Cred                              bool
	MaxAge                            int
}

type CorsReq struct {
	App    int
	Method string
	Path   int    // 0 root route, 1 parameter route, 2 unknown path
	Origin string // "" none
	ACRM   string
	ACRH   string
	H      []KV `json:",omitempty"`
}

type CorsCase struct {
	Cfgs  []CorsCfg
	Mount []int // per app: 0 Use, 1 Before, 2 group Use, 3 handler of the route
	Pre   []bool
	After int // handlers after CORS
	Who   int // which of them answers
	NoF   bool
	Reqs  []CorsReq
}

var corsOrigins = []string{"http://a.example", "https://a.example", "http://a.example:8080", "http://b.example", "http://a.example.evil.com", "http://A.example", "null", "http://a", "http://sub.a.example",
	"https://a.example:443", "http://a.example:80", "http://*.a.example", "*.a.example", "http://*", "https://*.example:8443", "http://a.*", "^https?://.*$", "http://127.0.0.1", "http://[::1]:80", "a.example", "//a.example", "chrome-extension://abcdef", "file://", "http://xn--4ca.example", "http://é.example"}

// nearOrigin is like o, but (mostly) another.
func nearOrigin(t *T, o string) string {
	swap := func(a, b string) string { return strings.Replace(o, a, b, 1) }
	scheme, host, ok := strings.Cut(o, "://")
	if !ok {
		scheme, host = "http", o
	}
	switch t.N(14) {
	case 0:
		return strings.ToUpper(o)
	case 1:
		return o + "/"
	case 2:
		return o[:max(0, len(o)-1)]
	case 3:
		return o + ", " + pick(t, corsOrigins...)
	case 4:
		return swap("http://", "https://")
	case 5:
		return swap("https://", "http://")
	case 6:
		return o + pick(t, ":80", ":443", ":8080", ".", ":", ".evil.test", "x", "?", "#", "%00")
	case 7:
		for _, p := range []string{":80", ":443", ":8080", ":8443"} {
			if strings.HasSuffix(o, p) {
				return strings.TrimSuffix(o, p)
			}
		}
		return o + ":80"
	case 8:
		return strings.ReplaceAll(o, "*", pick(t, "x", "a.b", "evil.test/", "", "sub"))
	case 9:
		return scheme + "://" + pick(t, "sub.", "evil", "x@", "www.") + host
	case 10:
		return host
	case 11:
		_, h, _ := strings.Cut(host, ".")
		return scheme + "://" + h
	case 12:
		return strings.ToUpper(scheme) + "://" + host
	}
	return o
}

func genCorsCfg(t *T) CorsCfg {
	var c CorsCfg
	list := func(ws ...int) int {
		if t.Chance(1, 25) {
			return t.Few(4, 9, 60)
		}
		return t.W(ws...)
	}
	for n := list(2, 3, 3, 2); n > 0; n-- {
		if t.Chance(1, 8) {
			c.Origins = append(c.Origins, "*")
		} else {
			c.Origins = append(c.Origins, pick(t, corsOrigins...))
		}
	}
	for n := list(3, 2, 2, 1); n > 0; n-- {
		c.Methods = append(c.Methods, pick(t, "GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"))
	}
	for n := list(3, 2, 2, 1); n > 0; n-- {
		c.Headers = append(c.Headers, pick(t, "X-A", "X-B", "Content-Type", "Authorization", "*"))
	}
	for n := list(3, 2, 2, 1); n > 0; n-- {
		c.Expose = append(c.Expose, pick(t, "X-E", "X-F", "Etag", "*"))
	}
	c.Cred = t.Bool()
	c.MaxAge = pick(t, 0, 0, 1, 60, 3600, 86400, 1<<31)
	return c
}

func genCors(t *T) CorsCase {
	c := CorsCase{After: t.Range(1, 3), NoF: t.Bool()}
	c.Who = t.N(c.After)
	for n := t.Range(1, 3); n > 0; n-- {
		c.Cfgs = append(c.Cfgs, genCorsCfg(t))
		c.Mount = append(c.Mount, t.N(4))
		c.Pre = append(c.Pre, t.Chance(1, 3))
	}
	for n := t.Few(1, 8, 80); n > 0; n-- {
		q := CorsReq{App: t.N(len(c.Cfgs)), Path: t.W(3, 2, 1)}
		q.Method = pick(t, "GET", "OPTIONS", "OPTIONS", "POST", "PUT", "DELETE", "PATCH", "HEAD")
		switch t.W(2, 3, 3, 1) {
		case 1:
			q.Origin = pick(t, corsOrigins...)
		case 2:
			if os := c.Cfgs[q.App].Origins; len(os) > 0 {
				o := pick(t, os...)
				if t.Chance(2, 3) {
					o = strings.TrimSpace(nearOrigin(t, o))
				}
				if o != "*" {
					q.Origin = o
				}
			}
		case 3:
			q.Origin = "http://" + genToken(t)
		}
		if t.Bool() {
			q.ACRM = pick(t, "GET", "PUT", "DELETE")
		}
		if t.Bool() {
			q.ACRH = pick(t, "X-Q", "X-Q, X-R", "x-q,content-type", "Authorization")
		}
		for _, h := range genNoise(t) {
			if h.K != "Origin" {
				q.H = append(q.H, h)
			}
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

func (c CorsCfg) water() water.CORSConfig {
	cp := func(xs []string) []string { return append([]string(nil), xs...) }
	return water.CORSConfig{AllowOrigins: cp(c.Origins), AllowMethods: cp(c.Methods), AllowHeaders: cp(c.Headers),
		AllowCredentials: c.Cred, ExposeHeaders: cp(c.Expose), MaxAge: c.MaxAge}
}

func (c CorsCase) build(i int, trace *[]string) *water.Engine {
	r := water.NewRouter()
	cors := water.CORS(c.Cfgs[i].water())
	step := func(name string, write bool) func(*water.Context) {
		return func(ctx *water.Context) {
			*trace = append(*trace, name)
			if write {
				ctx.String(203, "done")
			}
		}
	}
	var after []any
	for k := 0; k < c.After; k++ {
		after = append(after, step(fmt.Sprintf("h%d", k), k == c.Who))
	}
	if c.Pre[i] {
		pre := func(ctx *water.Context) {
			ctx.Header().Add("Vary", "Accept-Encoding")
			if c.Who%2 == 0 { // something before grants more
				ctx.SetHeader("Access-Control-Allow-Origin", []string{"*", "https://granted.before"}[c.After%2])
			}
		}
		if c.Mount[i] == 1 {
			r.Before(pre)
		} else {
			r.Use(pre)
		}
	}
	routes := func(s *water.Router, hs ...any) {
		for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
			regMethod(s, m, "/x", hs...)
			regMethod(s, m, "/p/<a>/x", hs...)
		}
	}
	switch c.Mount[i] {
	case 0:
		r.Use(cors)
		routes(r, after...)
	case 1:
		r.Before(cors)
		routes(r, after...)
	case 2:
		r.Group("/g", func(s *water.Router) {
			s.Use(cors)
			routes(s, after...)
		})
	case 3:
		routes(r, append([]any{cors}, after...)...)
	}
	if c.NoF {
		return r.Handler(water.WithNoFoundHandlers(after...))
	}
	return r.Handler()
}

func headerList(vs []string) string {
	var out []string
	for _, v := range vs {
		for _, x := range strings.Split(v, ",") {
			out = append(out, strings.TrimSpace(x))
		}
	}
	return strings.Join(out, ",")
}

func runCors(c CorsCase, o *Obs) error {
	defer func(d water.CORSConfig) { water.DefaultCORSConfig = d }(water.DefaultCORSConfig)
	stdMethods := "GET,POST,PUT,PATCH,DELETE,HEAD"
	var trace []string
	var engines []*water.Engine
	for i := range c.Cfgs {
		engines = append(engines, c.build(i, &trace))
	}
	for n, q := range c.Reqs {
		cfg := c.Cfgs[q.App]
		path := "/x"
		if q.Path == 1 {
			path = "/p/v%20w/x"
		}
		if c.Mount[q.App] == 2 {
			path = "/g" + path
		}
		covered := true
		if q.Path == 2 {
			path = "/unknown/y"
			covered = c.Mount[q.App] == 1 && c.NoF
		}
		req := Req{Method: q.Method, Target: S(path), H: slices.Clone(q.H)}
		if q.Origin != "" {
			req.H = append(req.H, KV{"Origin", S(q.Origin)})
		}
		if q.ACRM != "" {
			req.H = append(req.H, KV{"Access-Control-Request-Method", S(q.ACRM)})
		}
		if q.ACRH != "" {
			req.H = append(req.H, KV{"Access-Control-Request-Headers", S(q.ACRH)})
		}
		trace = nil
		rec, err := mustServe(engines[q.App], req.must())
		if err != nil {
			return fmt.Errorf("request %d: %v", n, err)
		}
		if !covered {
			continue
		}
		h := rec.Headers()
		fail := func(f string, a ...any) error {
			return fmt.Errorf("request %d %s %s origin %q with %+v (mount %d): %s\ngot %s trace %v", n, q.Method, path, q.Origin, cfg, c.Mount[q.App], fmt.Sprintf(f, a...), rec.dump(), trace)
		}
		// who runs
		if q.Method == "OPTIONS" {
			if len(trace) != 0 {
				return fail("preflight ran later handlers")
			}
			if len(rec.Codes) != 1 || rec.Codes[0] != 204 {
				return fail("preflight not answered 204")
			}
			if len(rec.Body) != 0 {
				return fail("preflight has a body")
			}
		} else {
			var want []string
			for k := 0; k <= c.Who; k++ {
				want = append(want, fmt.Sprintf("h%d", k))
			}
			if fmt.Sprint(trace) != fmt.Sprint(want) {
				return fail("later handlers should run exactly once: %v", want)
			}
			if rec.Status() != 203 || string(rec.Body) != "done" || len(rec.Codes) != 1 {
				return fail("the answer of the handlers is altered")
			}
		}
		// origin
		any, listed := len(cfg.Origins) == 0, false
		for _, x := range cfg.Origins {
			any = any || x == "*"
			listed = listed || (x == q.Origin && q.Origin != "")
		}
		ac := h.Values("Access-Control-Allow-Origin")
		if len(ac) > 1 {
			return fail("several allowed origins")
		}
		got := h.Get("Access-Control-Allow-Origin")
		switch {
		case any && got == "*":
		case listed && got == q.Origin:
		case !any && !listed && got == "":
		default:
			return fail("allowed origin %q", got)
		}
		o.LabelIf(any, "any origin")
		o.LabelIf(listed, "origin listed")
		o.LabelIf(!any && !listed && q.Origin != "", "origin refused")
		// the rest
		if cr := h.Values("Access-Control-Allow-Credentials"); cfg.Cred != (len(cr) == 1 && cr[0] == "true") || (!cfg.Cred && len(cr) > 0 && cr[0] != "false") {
			return fail("credentials %q", cr)
		}
		check := func(name string, want string, must bool) error {
			vs, ok := h[name]
			if !ok {
				if must && want != "" {
					return fail("no %s, want %q", name, want)
				}
				return nil
			}
			if headerList(vs) != want {
				return fail("%s is %q, want %q", name, vs, want)
			}
			return nil
		}
		pre := q.Method == "OPTIONS"
		methods := strings.Join(cfg.Methods, ",")
		if methods == "" {
			methods = stdMethods
			if vs, ok := h["Access-Control-Allow-Methods"]; ok { // the order of the default is not promised
				if sortedList(headerList(vs)) != sortedList(stdMethods) {
					return fail("default methods %q", vs)
				}
				methods = headerList(vs)
			}
		}
		headers := strings.Join(cfg.Headers, ",")
		if headers == "" {
			headers = headerList([]string{q.ACRH})
		}
		maxAge := ""
		if cfg.MaxAge > 0 {
			maxAge = strconv.Itoa(cfg.MaxAge)
		}
		for _, e := range []error{
			check("Access-Control-Expose-Headers", strings.Join(cfg.Expose, ","), !pre),
			check("Access-Control-Allow-Methods", methods, pre),
			check("Access-Control-Allow-Headers", headers, pre),
			check("Access-Control-Max-Age", maxAge, pre),
		} {
			if e != nil {
				return e
			}
		}
		vary := "," + headerList(h.Values("Vary")) + ","
		if !strings.Contains(strings.ToLower(vary), ",origin,") {
			return fail("Vary %q lacks Origin", h.Values("Vary"))
		}
		if c.Pre[q.App] && !strings.Contains(vary, ",Accept-Encoding,") {
			return fail("Vary of an earlier handler is lost: %q", h.Values("Vary"))
		}
		o.LabelIf(pre, "preflight")
		o.LabelIf(!pre, "simple request")
		o.LabelIf(pre && q.Path == 2, "preflight of an unknown path")
		if len(cfg.Origins) > 0 && q.Origin != "" {
			o.NT()
		}
	}
	return nil
}

func sortedList(s string) string {
	xs := strings.Split(s, ",")
	for i := range xs {
		for j := i + 1; j < len(xs); j++ {
			if xs[j] < xs[i] {
				xs[i], xs[j] = xs[j], xs[i]
			}
		}
	}
	return strings.Join(xs, ",")
}

// --- M02: Logger ---

type LogH struct {
	Ops []LogOp
}

type LogOp struct {
	Op string
	N  int
}

type LogCase struct {
	Method string
	CT     S
	Query  S
	Body   S   `json:",omitempty"` // small bodies
	Size   int `json:",omitempty"` // or a generated one of that size
	JSON   bool
	Chunk  int
	Fail   bool
	Err    int `json:",omitempty"` // which error
	WithE  bool
	Nil    bool
	CLen   int // -1 unknown, 0 as is, 1 off by some
	Mount  int // 0 Use first, 1 Before, 2 after another middleware, 3 handler, 4 twice, 5 Classic (compared with Recovery alone)
	Close  bool
	Color  bool
	HBody  bool
	H      []LogH
	Unk    bool
	Wire   bool
	NoID   bool // the request brings no trace id
	Path   S    `json:",omitempty"` // another way to write the target
	Around bool `json:",omitempty"` // the other middleware looks again at the end
	Hdr    []KV `json:",omitempty"`
}

const mib = 1 << 20

func genLog(t *T) LogCase {
	c := LogCase{Method: pick(t, "POST", "GET", "PUT", "PATCH", "DELETE", "HEAD"), Color: t.Bool(), HBody: !t.Chance(1, 4), Close: t.Chance(1, 6)}
	c.CT = S(pick(t, "application/json", "application/json", "application/json; charset=utf-8", "", "text/plain", "application/x-www-form-urlencoded", "application/xml", "multipart/form-data; boundary=bb", "Application/JSON", "application/json-patch+json", "text/application/json"))
	c.Query = S(pick(t, "", "", "a=1&b=2", "x=%zz", "n=%25s%25d", "password=p%20w&user=u", "token=abc&access_token=def&sig=1", "a=1;b=2", "utm_source=x&q=%2525", "api_key=k&secret=s"))
	if strings.Contains(strings.ToLower(string(c.CT)), "json") {
		c.JSON = t.Bool()
	}
	switch t.W(10, 3, 2) {
	case 0:
		if c.JSON {
			c.Body = S(`{"a":"` + genToken(t) + `","n":` + strconv.Itoa(t.N(100)) + `}`)
		} else if t.Bool() {
			c.Body = S(pick(t, "a=1&b=2", "a=%zz", "--bb\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--bb--\r\n", "<a>1</a>", "%s%d%!"))
		} else {
			c.Body = S(genBytes(t, 60))
		}
	case 1:
		c.Size = t.N(5000)
	case 2:
		if t.Bool() {
			c.Size = mib - 2 + t.N(5)
		} else {
			c.Size = mib/2 + t.N(2*mib)
		}
	}
	c.Chunk = pick(t, 0, 0, 1, 3, 4096)
	if c.Size > 10000 && c.Chunk > 0 && c.Chunk < 100 {
		c.Chunk = 1000 + c.Chunk
	}
	c.Fail = t.Chance(1, 4)
	c.WithE = t.Chance(1, 3)
	if c.Fail && t.Bool() {
		c.Err = t.N(len(bodyErrs))
	}
	c.Nil = t.Chance(1, 20)
	c.CLen = pick(t, 0, 0, -1, 1)
	c.Mount = t.N(6)
	c.Unk = t.Chance(1, 10)
	c.Wire = t.Chance(1, 25)
	c.NoID = t.Chance(1, 3)
	c.Around, c.Hdr = t.Bool(), genNoise(t)
	if t.Chance(1, 4) {
		c.Path = S(pick(t, "/x/a/../b", "/x/./a", "/x//a", "//x/a", "/x/a%2Fb", "/x/%2e%2e/b", "/x/a%20b", "/x/%C3%A9", "/x/a;b=c", "/x/", "/x/a?", "/x/..", "/l/%37", "/l/7/../8", "/x/a%3Fb", "/x/%25zz", "/x/a+b", "/x/a:b@c", "http://other.example/x/a", "http://u:p@other.example/l/7?z=1", "/x/%5B1%5D", "/x/a%00b", "/x/a%0Ab"))
	}
	for n := t.Few(1, 3, 12); n > 0; n-- {
		var h LogH
		next := false
		for k := t.Range(0, 4); k > 0; k-- {
			op := LogOp{Op: pick(t, "all", "some", "exact", "bytes", "bind", "bindform", "query", "close", "next", "write", "echo", "status", "json", "panic", "clen", "copy", "decode", "size")}
			switch op.Op {
			case "some":
				op.N = pick(t, 1, 2, 10, 100, 5000, mib-1, mib, mib+1)
			case "exact":
				op.N = pick(t, 0, 1, 5, 50)
			case "status":
				op.N = pick(t, 200, 201, 204, 301, 404, 500, 503)
			case "next":
				if next {
					continue
				}
				next = true
			case "panic":
				if !t.Chance(1, 4) {
					op.Op = "all"
				}
			}
			h.Ops = append(h.Ops, op)
		}
		c.H = append(c.H, h)
	}
	return c
}

func (c LogCase) data() []byte {
	if c.Size == 0 {
		return []byte(c.Body)
	}
	if c.JSON {
		b := []byte(`{"a":"`)
		for len(b) < c.Size-2 {
			b = append(b, "abcdefghij klmnopqrstuvwxyz 0123456789"[len(b)%38])
		}
		return append(b, '"', '}')
	}
	b := make([]byte, c.Size)
	x := uint32(c.Size)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

type logRun struct {
	trace  []string
	closed bool
	rec    *Rec
	pan    any
	wire   *WireResp
	wireE  string
	log    string
}

func sum(b []byte) string {
	if len(b) <= 200 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%d bytes #%x %q...%q", len(b), hashCase(b), b[:20], b[len(b)-20:])
}

// A decoder takes as much from the body as it likes to look ahead, which depends on the sizes of
// the reads. What is left after it (eaten) is therefore not compared.
func (c LogCase) handler(i int, h LogH, tr *[]string, eaten *bool) func(*water.Context) {
	return func(ctx *water.Context) {
		log := func(f string, a ...any) { *tr = append(*tr, fmt.Sprintf(f, a...)) }
		jsonCT := ctx.ContentType() == "application/json" || ctx.ContentType() == "application/xml"
		u := ctx.Request.URL
		log("h%d facts %s ip %s ua %s %s %v", i, facts(ctx.Request), ctx.RealIp(), ctx.UserAgent(), ctx.Protocol(), sortedMap(ctx.Params))
		log("h%d %s %q %q %q host %q %q", i, u, u.Path, u.RawPath, ctx.Request.RequestURI, ctx.Request.Host, u.RawQuery)
		body := ctx.Request.Body
		for _, op := range h.Ops {
			if *eaten {
				switch op.Op {
				case "all", "bytes", "some", "exact", "copy", "decode", "bind", "bindform", "query", "echo":
					continue
				}
			}
			switch op.Op {
			case "all":
				if body != nil {
					b, err := io.ReadAll(ctx.Request.Body)
					log("all %s %v", sum(b), err)
				}
			case "bytes":
				if body != nil {
					b, err := ctx.BodyBytes()
					log("bytes %s %v", sum(b), err)
					*eaten = *eaten || err == nil // closed
				}
			case "some":
				if body != nil {
					b := make([]byte, op.N)
					n, err := io.ReadFull(ctx.Request.Body, b)
					log("some %s %v", sum(b[:n]), err)
				}
			case "exact":
				if body != nil {
					b := make([]byte, op.N)
					n, err := io.ReadAtLeast(ctx.Request.Body, b, op.N)
					log("exact %s %v", sum(b[:n]), err)
				}
			case "copy":
				if body != nil {
					var b bytes.Buffer
					n, err := io.Copy(&b, ctx.ReadCloser())
					log("copy %d %s %v", n, sum(b.Bytes()), err)
				}
			case "decode":
				if body != nil {
					var v any
					err := json.NewDecoder(ctx.Request.Body).Decode(&v)
					log("decode %s %v", sum([]byte(fmt.Sprint(v))), err != nil)
					*eaten = true
				}
			case "bind":
				var v bindTarget
				err := ctx.Bind(&v)
				log("bind %s %d %d %v", sum([]byte(v.A)), v.N, len(v.L), err != nil)
				*eaten = *eaten || jsonCT
			case "bindform":
				var v bindTarget
				err := ctx.BindWith(&v, binding.Form)
				log("bindform %s %d %d %v", sum([]byte(v.A)), v.N, len(v.L), err != nil)
			case "query":
				func() {
					defer func() {
						if r := recover(); r != nil {
							log("query panics %v", r)
						}
					}()
					log("query %q %q", ctx.Query("a"), ctx.QueryArray("n"))
				}()
			case "close":
				if body != nil {
					log("close %v", ctx.Request.Body.Close())
					*eaten = true
				}
			case "clen":
				log("clen %d ct %q method %s url %s hdr %s te %v nil %v", ctx.Request.ContentLength, ctx.ContentType(), ctx.Request.Method, ctx.Request.URL, hdrString(ctx.Request.Header), ctx.Request.TransferEncoding, body == nil)
			case "size":
				log("status %d written %v full %q params %s", ctx.Status(), ctx.Written(), ctx.FullPath(), sortedMap(ctx.Params))
			case "next":
				log("next")
				ctx.Next()
				log("back")
			case "write":
				ctx.Write([]byte("<b>written</b>"))
			case "echo":
				if body != nil {
					b, err := io.ReadAll(ctx.Request.Body)
					log("echo %v", err)
					ctx.Data(200, "application/octet-stream", b)
				}
			case "status":
				ctx.WriteHeader(op.N)
			case "json":
				ctx.JSON(201, map[string]int{"i": i})
			case "panic":
				panic("wcheck: handler panics")
			}
		}
		log("h%d end", i)
	}
}

// facts is all of the request but its body.
func facts(q *http.Request) string {
	form := "nil"
	if q.Form != nil {
		form = q.Form.Encode()
	}
	return fmt.Sprintf("%s %s %s %s from %s length %d %v headers %s trailer %v form %s close %v", q.Method, q.URL, q.Proto, q.Host, q.RemoteAddr, q.ContentLength, q.TransferEncoding, hdrString(q.Header), q.Trailer, form, q.Close)
}

const traceID = "wcheck-trace-7731"

func (c LogCase) run(logger bool) *logRun {
	out := &logRun{}
	eaten := false
	r := water.NewRouter()
	other := func(ctx *water.Context) {
		out.trace = append(out.trace, "other")
		if c.Around && !ctx.Written() {
			defer func() { out.trace = append(out.trace, "other sees "+facts(ctx.Request)) }()
			ctx.Next()
			out.trace = append(out.trace, fmt.Sprintf("back status %d written %v", ctx.Status(), ctx.Written()))
		}
	}
	var hs []any
	if c.Mount == 1 {
		r.Before(other) // one Before handler in any case
		if logger {
			r.Before(water.Logger())
		}
	}
	if c.Mount == 2 {
		r.Use(other)
	}
	if c.Mount == 5 && !logger {
		r.Use(water.Recovery())
	}
	if logger {
		switch c.Mount {
		case 5:
			r.Classic()
		case 0, 2:
			r.Use(water.Logger())
		case 3:
			hs = append(hs, water.Logger())
		case 4:
			r.Use(water.Logger())
			hs = append(hs, water.Logger())
		}
	}
	for i, h := range c.H {
		hs = append(hs, c.handler(i, h, &out.trace, &eaten))
	}
	for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD"} {
		regMethod(r, m, "/l/<id>", hs...)
		regMethod(r, m, "/x/*", hs...)
	}
	e := r.Handler(water.WithNoFoundHandlers(func(ctx *water.Context) {
		out.trace = append(out.trace, "nf")
		ctx.String(404, "nothing")
	}))
	target := "/l/7"
	if c.Path != "" {
		target = string(c.Path)
	}
	if c.Unk {
		target = "/m/7"
	}
	if c.Query != "" && !strings.Contains(target, "?") {
		target += "?" + string(c.Query)
	}
	q := Req{Method: c.Method, Target: S(target)}
	if !c.NoID {
		q.H = []KV{{"Trace-ID", traceID}}
	}
	if c.CT != "" {
		q.H = append(q.H, KV{"Content-Type", c.CT})
	}
	q.H = append(q.H, c.Hdr...)
	data := c.data()
	out.log = captureLogs(func() {
		if c.Wire {
			if c.Method != "GET" && c.Method != "HEAD" {
				q.Body = S(data)
			}
			w, err := wireReq(e, q)
			if w != nil {
				w.Header.Del("Date")
				out.wire = w
			}
			if err != nil {
				out.wireE = err.Error()
				if i := strings.IndexAny(out.wireE, "\n"); i >= 0 {
					out.wireE = out.wireE[:i]
				}
			}
			return
		}
		req := q.must()
		br := &errReader{data: data, chunk: c.Chunk, err: io.EOF, withEOF: c.WithE}
		if c.Fail {
			br.err = bodyErrs[c.Err%len(bodyErrs)]
		}
		req.Body = br
		switch c.CLen {
		case 0:
			req.ContentLength = int64(len(data))
		case -1:
			req.ContentLength = -1
			req.TransferEncoding = []string{"chunked"}
		case 1:
			req.ContentLength = int64(len(data)) + 3
		}
		if c.Nil {
			req.Body = nil
		}
		out.rec, out.pan = serve(e, req)
		out.closed = br.closed
		out.trace = append(out.trace, "afterwards "+facts(req))
	})
	return out
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func runLog(c LogCase, o *Obs) error {
	water.LogClose, water.LogColor, water.LogHttpBody = c.Close, c.Color, c.HBody
	setMode(c.Mount != 5) // in development mode Recovery shows the stack
	defer resetGlobals()
	a := c.run(false)
	b := c.run(true)
	if x, y := strings.Join(a.trace, "\n"), strings.Join(b.trace, "\n"); x != y {
		return fmt.Errorf("handlers see something else with the logger\n--- without:\n%s\n--- with:\n%s", short2(x), short2(y))
	}
	if fmt.Sprint(a.pan) != fmt.Sprint(b.pan) {
		return fmt.Errorf("panic without logger: %v, with: %v", a.pan, b.pan)
	}
	status := 0
	if c.Wire {
		if a.wireE == "" != (b.wireE == "") {
			return fmt.Errorf("over the wire without logger: %q, with: %q", a.wireE, b.wireE)
		}
		if a.wire != nil && b.wire != nil {
			x := fmt.Sprintf("%d %s %s", a.wire.Status, hdrString(a.wire.Header), sum(a.wire.Body))
			y := fmt.Sprintf("%d %s %s", b.wire.Status, hdrString(b.wire.Header), sum(b.wire.Body))
			if x != y {
				return fmt.Errorf("response without logger: %s\nwith: %s", x, y)
			}
			if a.wire.Status != 200 { // 200 may be implicit
				status = a.wire.Status
			}
		}
		o.Label("over a connection")
	} else {
		x := fmt.Sprintf("%v %s %s", a.rec.Codes, hdrString(a.rec.Headers()), sum(a.rec.Body))
		y := fmt.Sprintf("%v %s %s", b.rec.Codes, hdrString(b.rec.Headers()), sum(b.rec.Body))
		if x != y {
			return fmt.Errorf("response without logger: %s\nwith: %s", x, y)
		}
		if a.closed != b.closed {
			return fmt.Errorf("body closed without logger: %v, with: %v", a.closed, b.closed)
		}
		if len(a.rec.Codes) > 0 {
			status = a.rec.Codes[0]
		}
	}
	// the log
	max := 1
	if c.Mount == 4 {
		max = 2
	}
	n := strings.Count(b.log, traceID)
	if n > max {
		return fmt.Errorf("access logged %d times by %d logger(s):\n%s", n, max, short(b.log))
	}
	if n > 0 && status != 0 && a.pan == nil && a.wireE == "" {
		for _, l := range strings.Split(b.log, "\n") {
			if !strings.Contains(l, traceID) {
				continue
			}
			ok := false
			for _, f := range strings.FieldsFunc(ansi.ReplaceAllString(l, " "), func(r rune) bool { return r == '|' || r == ' ' || r == '[' || r == ']' }) {
				ok = ok || f == strconv.Itoa(status)
			}
			if !ok {
				return fmt.Errorf("sent status %d is not the logged one: %q", status, short(l))
			}
			o.Label("logged status checked")
		}
	}
	jsonCT := strings.Contains(string(c.CT), "application/json")
	o.LabelIf(jsonCT && c.HBody && !c.Close && !c.Nil, "body logged")
	o.LabelIf(c.Size > mib, "body over 1 MiB")
	o.LabelIf(c.Fail, "failing body")
	o.LabelIf(c.Close, "logger off")
	o.LabelIf(a.pan != nil, "handler panics")
	o.LabelIf(n > 0, "logged")
	reads := false
	for _, l := range a.trace {
		reads = reads || strings.HasPrefix(l, "all ") || strings.HasPrefix(l, "some ") || strings.HasPrefix(l, "bytes ") || strings.HasPrefix(l, "bind ") || strings.HasPrefix(l, "copy ") || strings.HasPrefix(l, "echo") || strings.HasPrefix(l, "exact") || strings.HasPrefix(l, "decode")
	}
	if reads && jsonCT && c.HBody && !c.Close && !c.Nil {
		o.NT()
	}
	return nil
}

func short2(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

var _ = http.MethodGet

func init() {
	register(&Property{ID: "M01", Families: []*Family{
		fam("cors", 60000, "one to three random CORS configurations, each mounted in its own engine by Use, Before, a group or a route, and a sequence of simple and preflight requests from listed, unlisted and nearly listed origins; non-trivial: origins are configured and the request has one",
			genCors, runCors),
	}})
	register(&Property{ID: "M02", Families: []*Family{
		fam("logger", 12000, "random handler chains reading the body in many ways, with bodies of 0 to 2.5 MiB of many content types, chunked, failing or missing, run with and without the logger under all switch settings; non-trivial: a handler reads a body the logger read before",
			genLog, runLog),
	}})
}
