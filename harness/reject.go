package main

import (
	"fmt"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strings"

	"github.com/meilihao/water"
)

// --- R06 ---

type RejectCase struct {
	Routes []Route
	Any    bool // a catch-all for ANY is registered too
	NoF    int  // number of not-found handlers
	Before bool
	Use    bool
	Static bool
	Method S
	Target S
	Proto  string
	Wire   bool
	Path   S // URL path for requests built directly (odd ones no parser yields)
	Direct bool
}

var oddMethods = []string{"TRACE", "CONNECT", "get", "Get", "PROPFIND", "HEAd", "GETX", "G", "LOCK", "post", "OPTION", "*", "M-SEARCH", "PURGE", "!#$%&'*+-.^_`|~", "DELET", "DELETEX", "PATCHES", "PU"}

func genRejectCase(t *T) RejectCase {
	c := RejectCase{Routes: genTable(t, 8, 4), Any: t.Chance(1, 3), Before: t.Chance(1, 3), Use: t.Chance(1, 3), Static: t.Chance(1, 3), Proto: "HTTP/1.1"}
	c.NoF = t.W(3, 1, 1)
	if c.Any && t.Bool() {
		c.Routes = append(c.Routes, Route{M: "GET", Segs: []Seg{{K: kLit, Text: "anyroot"}}})
	}
	q := genPathReq(t, c.Routes)
	c.Method, c.Target, c.Path = S(q.M), q.T, q.Path
	c.Wire = t.Chance(1, 6)
	switch t.W(4, 3, 3, 2, 2) {
	case 0:
	case 1:
		c.Method = S(oddMethods[t.N(len(oddMethods))])
	case 2:
		c.Proto = pick(t, "HTTP/1.0", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/1.2", "HTTP/1.1")
		if t.Chance(1, 3) {
			c.Method = S(oddMethods[t.N(len(oddMethods))])
		}
	case 3:
		c.Target, c.Path = "*", "*"
		c.Method = S(pick(t, "OPTIONS", "OPTIONS", "GET", "TRACE", "PUT"))
	case 4:
		c.Method = "CONNECT"
		c.Target, c.Path = "example.com:443", ""
		if t.Bool() {
			c.Target, c.Path = "/x", "/x"
		}
	}
	if t.Chance(1, 4) { // a request no parser would give, but a Go caller can
		c.Direct, c.Wire = true, false
		if t.Bool() {
			c.Path = S(pick(t, "", "*", "/", "//", "a", "///", "/\x00", "?", "/a b", strings.Repeat("/", 50), strings.Repeat("a/", 300)))
		}
		if t.Chance(1, 4) {
			c.Method = S(pick(t, "", "A B", "é", "GET ", "\n"))
		}
	}
	return c
}

func protoVersion(p string) (int, int) {
	var a, b int
	fmt.Sscanf(p, "HTTP/%d.%d", &a, &b)
	return a, b
}

func runR06(c RejectCase, o *Obs) error {
	resetGlobals()
	var ran []string
	r := water.NewRouter()
	if c.Before {
		r.Before(func(ctx *water.Context) { ran = append(ran, "before") })
	}
	if c.Use {
		r.Use(func(ctx *water.Context) { ran = append(ran, "use") })
	}
	routeH := func(ctx *water.Context) { ran = append(ran, "route"); ctx.WriteHeader(200) }
	for _, rt := range c.Routes {
		rt.addTo(r, routeH)
	}
	if c.Any {
		has := map[string]bool{}
		for _, rt := range c.Routes {
			if rt.uri() == "/*" {
				has[rt.M] = true
			}
		}
		if len(has) == 0 {
			r.ANY("/*", routeH)
			for _, m := range []string{"GET", "POST", "DELETE", "PUT", "PATCH"} {
				c.Routes = append(c.Routes, Route{M: m, Segs: []Seg{{K: kAll, Text: "*"}}})
			}
		}
	}
	opts := []water.Option{water.WithStaticRouter(c.Static)}
	var want404 []string
	if c.Before && c.NoF > 0 {
		want404 = append(want404, "before")
	}
	if c.NoF > 0 {
		var hs []any
		for i := 0; i < c.NoF; i++ {
			hs = append(hs, func(ctx *water.Context) {
				ran = append(ran, fmt.Sprintf("nf%d", i))
				if i == c.NoF-1 {
					ctx.String(404, "custom none")
				}
			})
			want404 = append(want404, fmt.Sprintf("nf%d", i))
		}
		opts = append(opts, water.WithNoFoundHandlers(hs...))
	}
	e := r.Handler(opts...)

	maj, mnr := protoVersion(c.Proto)
	low := maj < 1 || maj == 1 && mnr < 1
	var status int
	var body []byte
	path := string(c.Path)
	ran = nil
	switch {
	case c.Direct:
		req := &http.Request{Method: string(c.Method), URL: &url.URL{Path: path}, Proto: c.Proto, ProtoMajor: maj, ProtoMinor: mnr, Header: http.Header{}, Host: "h", RequestURI: string(c.Target), RemoteAddr: "1.2.3.4:5", Body: http.NoBody}
		rec, err := mustServe(e, req)
		if err != nil {
			return err
		}
		if len(rec.Codes) == 0 {
			return fmt.Errorf("no status sent")
		}
		status, body = rec.Status(), rec.Body
	case c.Wire && (c.Proto == "HTTP/1.1" || c.Proto == "HTTP/1.0"):
		w, err := wireReq(e, Req{Method: string(c.Method), Target: c.Target, Proto: c.Proto})
		if err != nil {
			return err
		}
		status, body = w.Status, w.Body
		o.Label("over the wire")
		if string(c.Method) == "HEAD" {
			body = nil
		}
	default:
		req, err := Req{Method: string(c.Method), Target: c.Target, Proto: c.Proto}.http()
		if err != nil {
			o.Label("not a request")
			return nil
		}
		path = req.URL.Path
		rec, err := mustServe(e, req)
		if err != nil {
			return err
		}
		if len(rec.Codes) == 0 {
			return fmt.Errorf("no status sent")
		}
		status, body = rec.Status(), rec.Body
	}
	desc := fmt.Sprintf("%q %q %s (path %q)", c.Method, c.Target, c.Proto, path)
	noRoute := func() error {
		for _, s := range ran {
			if s == "route" {
				return fmt.Errorf("%s: a route handler ran", desc)
			}
		}
		return nil
	}
	expect := func(code int) error {
		o.NT()
		o.Label(fmt.Sprint("rejected with ", code))
		if status != code {
			return fmt.Errorf("%s: status %d, want %d", desc, status, code)
		}
		return noRoute()
	}
	supported := false
	for _, m := range methods7 {
		supported = supported || m == string(c.Method)
	}
	switch {
	case low || string(c.Target) == "*" || string(c.Method) == "CONNECT":
		return expect(406)
	case !supported:
		return expect(405)
	}
	var st refStats
	if i, _ := refMatch(c.Routes, string(c.Method), path, &st); i >= 0 {
		o.Label("routable")
		return nil // routed: not this property
	}
	if err := expect(404); err != nil {
		return err
	}
	if c.NoF == 0 {
		if len(body) > 0 {
			return fmt.Errorf("%s: body %q in a bare 404", desc, short(string(body)))
		}
		return nil
	}
	o.Label("not-found handlers")
	if fmt.Sprint(ran) != fmt.Sprint(want404) {
		return fmt.Errorf("%s: handlers %v ran, want %v", desc, ran, want404)
	}
	if string(c.Method) != "HEAD" && string(body) != "custom none" {
		return fmt.Errorf("%s: body %q", desc, short(string(body)))
	}
	return nil
}

// --- R07 ---

// Fault is the one thing wrong with a table.
type TableCase struct {
	Routes []Route
	Mw     bool
	Fault  string
	Arg    int
	At     int // where the faulty thing is registered
	Cuts   []int
	Static bool
}

var faults = []string{
	"none", "double", "double-group", "double-any", "noslash", "trailing", "trailing-group", "nil-handler", "nil-func", "nil-use", "nil-before", "bad-handler", "bad-use", "no-handler",
	"malformed", "bad-regexp", "groups", "sub-before", "sub-handler", "sub-classic", "sub-static", "sub-staticadvance", "sub-staticfile", "group-arg", "empty-pattern", "noslash-group",
}

var malformed = []string{"<id", "id>", "a<id>", "<id>b", "x<y", "y>x", "><", "a<id>b", "<id ~ [0-9]+", "pre<id ~ ([0-9]+)>", "<id ~ ([0-9]+)>post", "<a>-<b>x", "x<a>-<b>"}
var badRegexps = []string{"<id ~ [>", "<id ~ [0-9>", "<id ~ *a>", "<id ~ a{2,1}>", "<id ~ (?P<>", "<id ~ \\>", "<id ~ a**>", "<id ~ +>", "<a ~ (a))(>"}
var badGroups = []string{"<a,b ~ ([0-9]+)>", "<a ~ ([0-9]+)-([a-z]+)>", "<a,b,c ~ (a)(b)>", "<a ~ (a)(b)(c)>", "<a,b ~ (a)(b)(c)>", "<id ~ (a>", "<id ~ a)>",
	"<a,b ~ (x)(?:y)>", "<a,b ~ xy>", `<a,b ~ \((x)\)>`, "<a,b ~ (?:x)(?:y)>", "<a ~ ((x)y)>", "<a,b ~ [(](x)>"}

func genTableCase(t *T) TableCase {
	c := TableCase{Routes: genTable(t, 10, 5), Mw: t.Chance(1, 3), Static: t.Chance(1, 3)}
	c.Fault = faults[t.N(len(faults))]
	if t.Chance(1, 5) {
		c.Fault = "none"
	}
	c.Arg = t.N(64)
	c.At = t.N(len(c.Routes) + 1)
	if t.Bool() {
		c.Cuts = genCuts(t, "/faulty/"+"zz")
	}
	return c
}

type notAHandler struct{}

func badHandler(i int) any {
	xs := []any{1, "handler", struct{}{}, func() {}, func(int) {}, notAHandler{}, []int{1}, func(*http.Request) {}, func(*water.Context) error { return nil }, func(http.ResponseWriter) {}, &notAHandler{}, map[string]int{}, water.Params{}, func(water.Context) {}}
	return xs[i%len(xs)]
}

// build registers the table with its fault; the panic value, if any, is returned.
func (c TableCase) build() (e *water.Engine, pan any) {
	defer func() { pan = recover() }()
	ok := func(ctx *water.Context) { ctx.WriteHeader(200) }
	hs := func() []any { // a chain of one to four handlers
		out := []any{ok}
		for i := 0; i < c.Arg/2%4; i++ {
			out = append(out, func(*water.Context) {})
		}
		return out
	}
	r := water.NewRouter()
	if c.Mw && c.Fault != "no-handler" {
		r.Use(func(ctx *water.Context) {})
	}
	fault := func() {
		rt := c.Routes[c.Arg%len(c.Routes)]
		i := c.Arg
		var sub *water.Router
		switch i / 2 % 5 {
		default:
			sub = r.Group("/sub")
		case 1:
			sub = r.Group("")
		case 2:
			sub = r.Group("/sub").Group("")
		case 3:
			sub = r.Group("").Group("/sub")
		case 4:
			sub = r.Group("/sub", func(*water.Context) {}).Group("/<in>")
		}
		defer sub.GET("/leaf/of/sub", ok)
		switch c.Fault {
		case "double":
			rt.Cuts = nil
			rt.addTo(r, hs()...)
		case "double-group":
			rt.Cuts = []int{len(rt.uri()) / 2}
			if u := rt.uri(); strings.Contains(u, " ") {
				rt.Cuts = []int{0}
			}
			rt.addTo(r, hs()...)
		case "double-any":
			m := []string{"GET", "POST", "DELETE", "PUT", "PATCH"}[i%5]
			twice := []func(){func() { r.ANY("/dd/x", ok) }, func() { regMethod(r, m, "/dd/x", hs()...) }}
			if i&8 != 0 {
				twice[0], twice[1] = twice[1], twice[0]
			}
			if i&16 != 0 {
				twice[1] = func() { r.Group("/dd", hs()[1:]...).ANY("/x", ok) }
			}
			twice[0]()
			twice[1]()
		case "noslash":
			if u := strings.TrimSpace(rt.uri()[1:]); i > 24 && u != "" && u[0] != '/' {
				regMethod(r, methods7[i%7], u, hs()...)
				break
			}
			regMethod(r, methods7[i%7], []string{"x", "a/b", "<id>", ":id", "*", "x/<y>", ".", "é"}[i%8], ok)
		case "noslash-group":
			r.Group("g").GET("/x", ok)
		case "empty-pattern":
			regMethod(r, methods7[i%7], []string{"", " "}[i%2], ok)
		case "trailing":
			if i > 20 { // like a route of the table, but for the slash
				u := rt.uri() + "/"
				if i%2 == 0 {
					r.Group(u[:1]+strings.TrimSuffix(u[1:], "/")).ANY("/", hs()...)
					break
				}
				regMethod(r, methods7[i%7], u, hs()...)
				break
			}
			regMethod(r, methods7[i%7], []string{"/x/", "/a/b/", "/<id>/", "//", "/*/", "/x//"}[i%6], ok)
		case "trailing-group":
			r.Group("/tg").GET("/", ok)
		case "nil-handler":
			if i%2 == 0 {
				r.GET("/nh", nil)
			} else {
				r.ANY("/nh", ok, nil)
			}
		case "nil-func":
			h := []any{(func(*water.Context))(nil), water.HandlerFunc(nil), http.HandlerFunc(nil), (func(http.ResponseWriter, *http.Request))(nil)}[i%4]
			switch i / 4 % 6 {
			case 0:
				r.GET("/nh", h)
			case 1:
				r.ANY("/nh", ok, h, ok)
			case 2:
				r.Use(h)
			case 3:
				r.Before(ok, h)
			case 4:
				r.Group("/nh", (func(*water.Context))(nil)).GET("/x", ok)
			case 5:
				r.Group("/nh", func(g *water.Router) { g.Use(h) }).PUT("/x", ok)
			}
		case "nil-use":
			r.Use(nil)
		case "nil-before":
			r.Before(nil)
		case "bad-handler":
			r.GET("/bh", badHandler(i))
		case "bad-use":
			r.Use(ok, badHandler(i))
		case "no-handler":
			regMethod(r, methods7[i%7], "/noh")
		case "malformed":
			m := malformed[i%len(malformed)]
			r.GET("/m/"+m+[]string{"", "/x"}[(i/16)%2], ok)
		case "bad-regexp":
			r.GET("/m/"+badRegexps[i%len(badRegexps)]+[]string{"", "/x"}[(i/16)%2], ok)
		case "groups":
			r.GET("/m/"+badGroups[i%len(badGroups)]+[]string{"", "/x"}[(i/16)%2], ok)
		case "sub-before":
			sub.Before(ok)
		case "sub-handler":
			sub.Handler()
		case "sub-classic":
			sub.Classic()
		case "sub-static":
			sub.Static("/s", ".")
		case "sub-staticadvance":
			sub.StaticAdvance(&water.StaticOptions{Prefix: "/s", FileSystem: http.Dir(".")})
		case "sub-staticfile":
			sub.StaticFile("/sf", "x.txt")
		case "group-arg":
			r.Group("/ga", []any{1, "x", nil, struct{}{}}[i%4]).GET("/x", ok)
		}
	}
	for i, rt := range c.Routes {
		if i == c.At {
			fault()
		}
		rt.addTo(r, ok)
	}
	if c.At >= len(c.Routes) {
		fault()
	}
	return r.Handler(water.WithStaticRouter(c.Static)), nil
}

func runR07(c TableCase, o *Obs) error {
	resetGlobals()
	e, pan := c.build()
	o.Label(c.Fault)
	if c.Fault != "none" {
		o.NT()
		if pan == nil {
			return fmt.Errorf("fault %q (variant %d) was accepted", c.Fault, c.Arg)
		}
		return nil
	}
	if pan != nil {
		return fmt.Errorf("a sound table was refused: %v", pan)
	}
	if len(c.Routes) > 3 {
		o.NT()
	}
	// and it serves
	for _, rt := range c.Routes {
		path := "/"
		for i, s := range rt.Segs {
			v := s.Text
			switch s.K {
			case kRe:
				v = ""
				for _, x := range rePool {
					if x.re == s.Re && len(x.yes) > 0 {
						v = x.yes[0]
					}
				}
			case kHold, kAll:
				v = "v"
			}
			if i > 0 {
				path += "/"
			}
			path += v
		}
		u := url.URL{Path: path}
		rec, err := mustServe(e, Req{Method: rt.M, Target: S(u.EscapedPath())}.must())
		if err != nil {
			return fmt.Errorf("route %s %s: %v", rt.M, rt.uri(), err)
		}
		var st refStats
		if i, _ := refMatch(c.Routes, rt.M, path, &st); i >= 0 && rec.Status() != 200 {
			return fmt.Errorf("route %s %s does not answer %q: %d", rt.M, rt.uri(), path, rec.Status())
		}
	}
	return nil
}

// ANY and its exclusion list.
type AnyCase struct {
	Exclude []string
	Pieces  []string
	Extra   []string // methods registered explicitly besides (only excluded ones)
	Static  bool
	Later   []string // the list is changed after registration: must not matter
}

func genAnyCase(t *T) AnyCase {
	c := AnyCase{Static: t.Bool()}
	for _, m := range methods7 {
		if t.Chance(1, 3) {
			c.Exclude = append(c.Exclude, m)
		}
	}
	if t.Chance(1, 5) {
		c.Exclude = append(c.Exclude, "TRACE")
	}
	if t.Chance(1, 5) { // names no method
		c.Exclude = append(c.Exclude, pick(t, "FORGET", "POSTS", "PU", "", "get", "GET,PUT", "*", " GET"))
	}
	if t.Chance(1, 10) {
		c.Exclude = append([]string{}, methods7[:6]...)
	}
	for i := len(c.Exclude) - 1; i > 0; i-- { // in any order, and more than once
		j := t.N(i + 1)
		c.Exclude[i], c.Exclude[j] = c.Exclude[j], c.Exclude[i]
	}
	if len(c.Exclude) > 0 && t.Chance(1, 8) {
		c.Exclude = append(c.Exclude, c.Exclude[0])
	}
	c.Pieces = pick(t, []string{"/x"}, []string{"/g", "/x"}, []string{"/<id>"}, []string{"/"}, []string{"/g", "/h", "/*"})
	for _, m := range c.Exclude {
		if slices.Contains(methods7, m) && !slices.Contains(c.Extra, m) && t.Chance(1, 3) {
			c.Extra = append(c.Extra, m)
		}
	}
	return c
}

func runAny(c AnyCase, o *Obs) error {
	resetGlobals()
	defer resetGlobals()
	water.MethodAnyExclude = c.Exclude
	ran := ""
	r := water.NewRouter()
	r.GET("/other/fixed/path", func(*water.Context) {})
	g := r
	uri := strings.Join(c.Pieces, "")
	for _, p := range c.Pieces[:len(c.Pieces)-1] {
		g = g.Group(p)
	}
	last := c.Pieces[len(c.Pieces)-1]
	g.ANY(last, func(ctx *water.Context) { ran += "any"; ctx.WriteHeader(200) })
	for _, m := range c.Extra {
		regMethod(g, m, last, func(ctx *water.Context) { ran += "own"; ctx.WriteHeader(200) })
	}
	excl := map[string]bool{}
	for _, m := range c.Exclude {
		excl[m] = true
	}
	if len(excl) >= 7 || len(c.Pieces) > 1 && len(c.Extra) == 0 && allExcluded(excl) {
		o.Label("everything excluded")
		return nil
	}
	e := r.Handler(water.WithStaticRouter(c.Static))
	path := strings.NewReplacer("<id>", "v", "*", "a/b").Replace(uri)
	for _, m := range methods7 {
		want := "any"
		if excl[m] {
			want = ""
			for _, x := range c.Extra {
				if x == m {
					want = "own"
				}
			}
		}
		ran = ""
		rec, err := mustServe(e, Req{Method: m, Target: S(path)}.must())
		if err != nil {
			return err
		}
		if ran != want {
			return fmt.Errorf("%s %s with exclusion %v: %q ran, want %q", m, path, c.Exclude, ran, want)
		}
		if want == "" && rec.Status() != 404 {
			return fmt.Errorf("%s %s is excluded, but got %d", m, path, rec.Status())
		}
	}
	if len(c.Exclude) > 0 {
		o.NT()
	}
	return nil
}

func allExcluded(excl map[string]bool) bool {
	for _, m := range methods7 {
		if !excl[m] {
			return false
		}
	}
	return true
}

// --- R08 ---

type ListCase struct {
	Routes []Route
	Mws    int // root middleware
	Befs   int
	Hs     []int
	GMw    []int // per route: middleware on its innermost group (if it has cuts)
	Static bool
	NoF    bool
	Reqs   []PathReq
	Last   []int `json:",omitempty"` // per route: what its last handler is
	Write  int   `json:",omitempty"` // requests are repeated: that handler answers early, and asks before and after
	Nest   bool  `json:",omitempty"` // middleware of the repetition asks again when the rest has run
}

// handlers to ask for the name of
func namedHandler(*water.Context)                      {}
func (namedStruct) namedMethod(*water.Context)         {}
func namedHTTP(w http.ResponseWriter, r *http.Request) {}

type namedStruct struct{ A, B int }

func (namedStruct) ServeHTTP(*water.Context) {}

type namedInt int

func (namedInt) ServeHTTP(*water.Context) {}

type namedPtr struct{ A int }

func (*namedPtr) ServeHTTP(*water.Context) {}

// lastHandlers are the handlers and their names; an empty name is not stated.
var lastHandlers = []struct {
	h    any
	name string
}{
	{namedHandler, "main.namedHandler"},
	{water.HandlerFunc(namedHandler), "main.namedHandler"},
	{namedStruct{}.namedMethod, ""},
	{http.HandlerFunc(namedHTTP), ""}, {namedHTTP, ""}, {namedStruct{}, ""}, {namedInt(3), ""}, {&namedPtr{}, ""}, {http.NotFoundHandler(), ""},
	{water.WrapHandler(namedHandler), "main.namedHandler"},
}

func genListCase(t *T) ListCase {
	c := ListCase{Routes: genTable(t, 25, 5), Mws: t.N(3), Befs: t.W(3, 1, 1), Static: t.Chance(1, 3), NoF: t.Chance(1, 3)}
	for range c.Routes {
		c.Hs = append(c.Hs, pick(t, 1, 1, 2, 3, 12, 101))
		c.GMw = append(c.GMw, t.N(3))
		c.Last = append(c.Last, max(0, t.N(2*len(lastHandlers))-len(lastHandlers)))
	}
	for i, n := 0, t.Range(0, 8); i < n; i++ {
		c.Reqs = append(c.Reqs, genPathReq(t, c.Routes))
	}
	c.Write, c.Nest = t.W(2, 2, 1, 1, 1), t.Bool()
	return c
}

func runR08(c ListCase, o *Obs) error {
	resetGlobals()
	type seen struct {
		rid  int
		full string
		name string
	}
	var log []seen
	nofFull := []string{}
	r := water.NewRouter()
	again, step := false, 0
	ask := func(ctx *water.Context, rid int) {
		log = append(log, seen{rid, ctx.FullPath(), ctx.HandlerName()})
		if step++; again && step == c.Write {
			ctx.WriteHeader(202)
			log = append(log, seen{rid, ctx.FullPath(), ctx.HandlerName()})
		}
	}
	mw := func(ctx *water.Context) {
		ask(ctx, -1)
		if again && c.Nest && !ctx.Written() {
			ctx.Next()
			log = append(log, seen{-1, ctx.FullPath(), ctx.HandlerName()})
		}
	}
	for i := 0; i < c.Befs; i++ {
		r.Before(mw)
	}
	for i := 0; i < c.Mws; i++ {
		r.Use(mw)
	}
	counts := make([]int, len(c.Routes))
	c.Hs = append([]int(nil), c.Hs...)
	for i, rt := range c.Routes {
		var hs []any
		for j := 0; j < c.Hs[i]; j++ {
			hs = append(hs, func(ctx *water.Context) { ask(ctx, i) })
		}
		if i < len(c.Last) && c.Last[i] > 0 {
			hs = append(hs, lastHandlers[c.Last[i]-1].h)
			c.Hs[i]++
		}
		counts[i] = c.Befs + c.Mws + c.Hs[i]
		if len(rt.Cuts) == 0 {
			regMethod(r, rt.M, rt.uri(), hs...)
			continue
		}
		g, at := r, 0
		for _, cut := range rt.Cuts {
			g = g.Group(rt.uri()[at:cut])
			at = cut
		}
		for k := 0; k < c.GMw[i]; k++ {
			g.Use(mw)
		}
		counts[i] += c.GMw[i]
		regMethod(g, rt.M, rt.uri()[at:], hs...)
	}
	opts := []water.Option{water.WithStaticRouter(c.Static)}
	if c.NoF {
		opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) { nofFull = append(nofFull, ctx.FullPath()) }))
	}
	e := r.Handler(opts...)

	// full path
	for _, q := range c.Reqs {
		log, nofFull = nil, nil
		if _, err := mustServe(e, q.req().must()); err != nil {
			return err
		}
		rid := -1
		for _, s := range log {
			if s.rid >= 0 {
				rid = s.rid
			}
		}
		if c.Write > 0 || c.Nest {
			again, step = true, 0
			if _, err := mustServe(e, q.req().must()); err != nil {
				return err
			}
			again = false
		}
		want := ""
		if rid >= 0 {
			want = c.Routes[rid].uri()
			o.Label("matched request")
		}
		for _, s := range log {
			if s.full != want {
				return fmt.Errorf("%s %q: FullPath %q while the handlers of %q run", q.M, q.Path, s.full, want)
			}
			if rid >= 0 && rid < len(c.Last) && c.Last[rid] > 0 {
				if n := lastHandlers[c.Last[rid]-1].name; n != "" && s.name != n {
					return fmt.Errorf("%s %q: HandlerName %q while the handlers of %q run, the last is %s", q.M, q.Path, s.name, want, n)
				}
				o.Label("handler name")
			}
		}
		for _, f := range nofFull {
			o.Label("unmatched request")
			if f != "" {
				return fmt.Errorf("%s %q: FullPath %q in the not-found handler", q.M, q.Path, f)
			}
		}
	}
	if len(c.Routes) > 2 {
		o.NT()
	}
	// listings
	var wantAll []string
	perM := map[string]map[string]int{}
	for i, rt := range c.Routes {
		wantAll = append(wantAll, fmt.Sprintf("%s|%d|%s", rt.M, counts[i], rt.uri()))
		if perM[rt.M] == nil {
			perM[rt.M] = map[string]int{}
		}
		perM[rt.M][rt.uri()] = counts[i]
	}
	var gotAll []string
	for _, line := range lines(captureStdout(e.PrintRawAllRoutes)) {
		a, b := strings.IndexByte(line, '['), strings.Index(line, "] ")
		if a < 0 || b < 0 {
			return fmt.Errorf("PrintRawAllRoutes: line %q", line)
		}
		f := strings.Split(line[a+1:b], ":")
		if len(f) != 2 {
			return fmt.Errorf("PrintRawAllRoutes: line %q", line)
		}
		gotAll = append(gotAll, fmt.Sprintf("%s|%s|%s", strings.TrimSpace(f[0]), strings.TrimSpace(f[1]), line[b+2:]))
	}
	if strings.Join(gotAll, "\n") != strings.Join(wantAll, "\n") {
		return fmt.Errorf("PrintRawAllRoutes lists\n%s\nwant\n%s", strings.Join(gotAll, "\n"), strings.Join(wantAll, "\n"))
	}
	for _, m := range methods7 {
		var want, got []string
		uris := make([]string, 0)
		for u := range perM[m] {
			uris = append(uris, u)
		}
		sort.Strings(uris)
		for _, u := range uris {
			want = append(want, fmt.Sprintf("%d|%s", perM[m][u], u))
		}
		arg := m
		if c.Static {
			arg = strings.ToLower(m)
		}
		for _, line := range lines(captureStdout(func() { e.PrintRawRoutes(arg) })) {
			a, b := strings.IndexByte(line, '['), strings.Index(line, "] ")
			if a < 0 || b < 0 {
				if len(want) == 0 {
					continue // a remark that there is none
				}
				return fmt.Errorf("PrintRawRoutes(%s): line %q", m, line)
			}
			got = append(got, strings.TrimSpace(line[a+1:b])+"|"+line[b+2:])
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Errorf("PrintRawRoutes(%s) lists\n%s\nwant\n%s", m, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		// tree of the method: equivalent spellings share a branch, so only tables without them
		if !equivalents(c.Routes) {
			tree, err := parseTree(lines(captureStdout(func() { e.PrintRouterTree(arg) })), "/")
			if err != nil {
				return fmt.Errorf("PrintRouterTree(%s): %v", m, err)
			}
			var wantT []string
			for i, rt := range c.Routes {
				if rt.M == m {
					wantT = append(wantT, fmt.Sprintf("%d|%s", counts[i], canonURI(rt)))
				}
			}
			sort.Strings(wantT)
			sort.Strings(tree)
			if strings.Join(tree, "\n") != strings.Join(wantT, "\n") {
				return fmt.Errorf("PrintRouterTree(%s) shows\n%s\nwant\n%s", m, strings.Join(tree, "\n"), strings.Join(wantT, "\n"))
			}
		}
	}
	// tree as registered
	tree, err := parseTree(lines(captureStdout(e.PrintRawRouter)), "")
	if err != nil {
		return fmt.Errorf("PrintRawRouter: %v", err)
	}
	var wantT []string
	for i, rt := range c.Routes {
		wantT = append(wantT, fmt.Sprintf("%s|%d|%s", rt.M, counts[i], rt.uri()))
	}
	if strings.Join(tree, "\n") != strings.Join(wantT, "\n") {
		return fmt.Errorf("PrintRawRouter shows\n%s\nwant\n%s", strings.Join(tree, "\n"), strings.Join(wantT, "\n"))
	}
	return nil
}

func equivalents(rs []Route) bool {
	seen := map[string]bool{}
	for _, r := range rs {
		k := r.M + canonURI(r)
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

func canonURI(r Route) string {
	parts := make([]string, len(r.Segs))
	for i, s := range r.Segs {
		parts[i] = canonText(s)
	}
	return "/" + strings.Join(parts, "/")
}

func lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

// parseTree reads a tree listing: every line is a number of indent units, a branch mark, a text and,
// for a route, "[n]" or "[METHOD : n]". It returns "n|path" or "METHOD|n|path".
func parseTree(ls []string, sep string) ([]string, error) {
	var stack []string
	var out []string
	for _, l := range ls {
		if l == "no route" {
			continue
		}
		mark := strings.Index(l, "├──")
		if mark < 0 || strings.Index(l, "└──") >= 0 && strings.Index(l, "└──") < mark {
			mark = strings.Index(l, "└──")
		}
		if mark < 0 { // the route "/" has no branch
			a := strings.LastIndex(l, " [")
			if a < 0 || strings.TrimSpace(l[:a]) != "/" {
				return nil, fmt.Errorf("line %q", l)
			}
			out = append(out, strings.TrimSpace(strings.TrimSuffix(l[a+2:], "]"))+"|/")
			continue
		}
		depth := len([]rune(l[:mark])) / 4
		text := strings.TrimPrefix(l[mark+len("├──"):], " ")
		n := ""
		if a := strings.LastIndex(text, " ["); a >= 0 && strings.HasSuffix(text, "]") {
			inner := text[a+2 : len(text)-1]
			if f := strings.Split(inner, ":"); isCount(f[len(f)-1]) && len(f) <= 2 {
				if len(f) == 2 {
					n = strings.TrimSpace(f[0]) + "|"
				}
				n += strings.TrimSpace(f[len(f)-1])
				text = text[:a]
			}
		}
		if depth > len(stack) {
			return nil, fmt.Errorf("line %q is indented too deep", l)
		}
		stack = append(stack[:depth], text)
		if n != "" {
			path := strings.Join(stack, sep)
			if sep != "" {
				path = sep + path
			}
			out = append(out, n+"|"+path)
		}
	}
	return out, nil
}

func isCount(s string) bool {
	s = strings.TrimSpace(s)
	if s == "" {
		return false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func init() {
	register(&Property{ID: "R06", Families: []*Family{
		fam("rejections", 60000, "route tables with or without catch-alls, middleware and not-found handlers, and requests with odd methods, protocol versions and targets, parsed from text, sent over a connection or built by hand; non-trivial: the request is unroutable",
			genRejectCase, runR06),
	}})
	register(&Property{ID: "R07", Families: []*Family{
		fam("faults", 40000, "sound random tables, and the same with exactly one fault of 24 kinds in many variants planted at a random place; non-trivial: a fault, or a sound table of more than three routes",
			genTableCase, runR07),
		fam("any", 8000, "ANY under random exclusion lists, with explicit routes for excluded methods, requested with all seven methods; non-trivial: something is excluded", genAnyCase, runAny),
	}})
	register(&Property{ID: "R08", Families: []*Family{
		fam("listings", 6000, "random tables with groups, middleware and Before handlers: FullPath observed by every handler of random requests, and all four listings parsed back; non-trivial: more than two routes",
			genListCase, runR08),
	}})
}
