package main

import (
	"fmt"
	"net/http"
	"regexp"
	"sort"
	"strings"

	"github.com/meilihao/water"
)

// --- route model ---

const (
	kLit = iota
	kRe
	kHold
	kAll
)

// Seg is one segment of a route pattern.
type Seg struct {
	K     int
	Text  string   // as written in the pattern
	Names []string `json:",omitempty"`
	Re    string   `json:",omitempty"`
	G     int      `json:",omitempty"` // capture groups of Re
}

// Route is a full pattern with its method; Cuts are byte offsets at which the pattern is split
// into nested groups.
type Route struct {
	M    string
	Segs []Seg
	Cuts []int `json:",omitempty"`
}

func (r Route) uri() string {
	s := make([]string, len(r.Segs))
	for i, g := range r.Segs {
		s[i] = g.Text
	}
	return "/" + strings.Join(s, "/")
}

// rePool: expressions with what they match and what they do not (tried as whole segments).
var rePool = []struct {
	re  string
	g   int
	yes []string
	no  []string
}{
	{`([0-9]+)`, 1, []string{"7", "42", "a12b", "007"}, []string{"", "abc", "-"}},
	{`[0-9]+`, 0, []string{"7", "42", "a12b"}, []string{"", "abc"}},
	{`70|80`, 0, []string{"70", "80", "1700"}, []string{"7", "90", ""}},
	{`(70|80)`, 1, []string{"70", "80"}, []string{"7", "90"}},
	{`(7.*)`, 1, []string{"7", "7a", "x7y"}, []string{"8", ""}},
	{`^([a-z]+)$`, 1, []string{"a", "abc", "b"}, []string{"A", "a1", ""}},
	{`([a-z]+)-([0-9]+)`, 2, []string{"ab-12", "a-1", "xa-1y"}, []string{"ab12", "-", "a-b"}},
	{`^([^-]+)-(.+)$`, 2, []string{"a-b", "1-2-3", "a-"}, []string{"-a", "ab", ""}},
	{`([0-9]+):([a-z]+)`, 2, []string{"1:a", "22:bc"}, []string{"1a", ":", "1:"}},
	{`[[:alpha:]]+`, 0, []string{"abc", "x1"}, []string{"12", ""}},
	{`^(a)?b$`, 1, []string{"ab", "b"}, []string{"a", "bb"}},
	{`(.*)`, 1, []string{"", "x", "a.b"}, nil},
	{`^(\d{4})-(\d{2})-(\d{2})$`, 3, []string{"2021-04-05", "1999-12-31"}, []string{"2021-4-5", "x"}},
	{`([a-z])~([0-9])`, 2, []string{"a~1", "xb~2"}, []string{"a1", "~"}},
	{`^([^.]+)\.(html|json)$`, 2, []string{"index.html", "a.json"}, []string{"a.txt", ".html"}},
	{`(?i)^[a-f]+$`, 0, []string{"abc", "F", "aB"}, []string{"g", "", "a1"}},
	{`(?:a|b)([0-9])`, 1, []string{"a1", "xb2"}, []string{"1", "c1", ""}}, // not every parenthesis is a group
	{`\(([a-z]+)\)`, 1, []string{"(ab)", "f(x)"}, []string{"ab", "()", ""}},
	{`[(]x`, 0, []string{"(x", "a(x)"}, []string{"x", ""}},
	{`^(?:x|y)z$`, 0, []string{"xz", "yz"}, []string{"z", "xyz", ""}},
	{`([a-z])(?:-|_)([0-9]+)`, 2, []string{"a-1", "b_22"}, []string{"a1", "-", ""}},
	{`^((a)|b)(c)?$`, 3, []string{"a", "bc"}, []string{"c", "ab"}},
	{`^([a-z]+)>([0-9]+)$`, 2, []string{"a>1", "bc>22"}, []string{"a", "a>", "1"}}, // ">" does not end it
	{`a|b>c`, 0, []string{"a", "b>c"}, []string{"b", ">c", ""}},
	{`^(?P<own>[0-9]+)$`, 1, []string{"7", "42"}, []string{"a", ""}},
	{`^[<>=]+(.*)$`, 1, []string{"<", ">=3", "=<a>"}, []string{"a", ""}},
}

var litAlpha = []string{"a", "b", "ab", "c", "1", "42", "70", "abc", "A", "x-y", "a.b", "é", "a:b", "a-1", "70a", "index.html", "b*", "~", "a b", "a%20b", "_", "%", "2021-04-05", "b=1", "@", "日本"}

type segOpts struct {
	kinds   []int // weights for kLit..kAll
	nlit    int   // how many of litAlpha to use
	nre     int
	noAngle bool
}

func genSeg(t *T, o segOpts, used map[string]bool, name func() string) Seg {
	switch t.W(o.kinds...) {
	case kRe:
		e := rePool[t.N(min(o.nre, len(rePool)))]
		n := max(1, e.g)
		names := make([]string, n)
		for i := range names {
			if t.Chance(1, 8) {
				names[i] = "_"
			} else {
				names[i] = name()
			}
		}
		sep := pick(t, ",", ", ", " , ")
		typ := pick(t, "", "", ":int", " : string")
		if typ != "" && n > 1 {
			typ = ""
		}
		tilde := pick(t, " ~ ", "~", " ~", "~ ")
		text := "<" + pick(t, "", "", " ") + strings.Join(names, sep) + typ + tilde + e.re + pick(t, "", "", " ") + ">"
		re := e.re
		return Seg{K: kRe, Text: text, Names: names, Re: re, G: e.g}
	case kHold:
		n := name()
		if t.Chance(1, 10) {
			n = "_"
		}
		var text string
		switch t.W(4, 4, 1, 1) {
		case 0:
			text = "<" + n + ">"
		case 1:
			text = ":" + n
		case 2:
			text = "<" + n + pick(t, ":int", ":string", " : int") + ">"
		case 3:
			text = "< " + n + " >"
		}
		return Seg{K: kHold, Text: text, Names: []string{n}}
	case kAll:
		switch t.W(3, 3, 1) {
		case 1:
			n := name()
			return Seg{K: kAll, Text: "*" + n, Names: []string{n}}
		case 2:
			return Seg{K: kAll, Text: "*_", Names: []string{"_"}}
		}
		return Seg{K: kAll, Text: "*"}
	}
	return Seg{K: kLit, Text: litAlpha[t.N(min(o.nlit, len(litAlpha)))]}
}

var paramNames = []string{"id", "name", "x", "y", "z", "file", "p", "q", "r", "s", "k", "名", "Id", "a1", "under_score"}

func genRoute(t *T, o segOpts, maxDepth int) Route {
	n := 1 + t.Size(maxDepth-1)
	if maxDepth < 14 && t.Chance(1, 60) {
		n = t.Range(maxDepth, 40)
	}
	used := map[string]bool{}
	name := func() string {
		for tries := 0; tries < 40; tries++ {
			s := paramNames[t.N(len(paramNames))]
			if !used[s] {
				used[s] = true
				return s
			}
		}
		s := fmt.Sprintf("n%d", len(used))
		used[s] = true
		return s
	}
	r := Route{}
	for i := 0; i < n; i++ {
		r.Segs = append(r.Segs, genSeg(t, o, used, name))
	}
	return r
}

// deriveRoute changes one route a little, so that tables hold routes competing for the same paths.
func deriveRoute(t *T, o segOpts, base Route, maxDepth int) Route {
	used := map[string]bool{}
	for _, s := range base.Segs {
		for _, n := range s.Names {
			used[n] = true
		}
	}
	name := func() string {
		for tries := 0; tries < 40; tries++ {
			s := paramNames[t.N(len(paramNames))]
			if !used[s] {
				used[s] = true
				return s
			}
		}
		s := fmt.Sprintf("m%d", len(used))
		used[s] = true
		return s
	}
	r := Route{Segs: append([]Seg(nil), base.Segs...)}
	switch t.W(4, 2, 2, 1) {
	case 0: // replace one segment
		i := t.N(len(r.Segs))
		r.Segs[i] = genSeg(t, o, used, name)
	case 1: // drop the tail
		if len(r.Segs) > 1 {
			r.Segs = r.Segs[:1+t.N(len(r.Segs)-1)]
		}
	case 2: // extend
		if len(r.Segs) < max(maxDepth, len(base.Segs)) || t.Chance(1, 10) {
			r.Segs = append(r.Segs, genSeg(t, o, used, name))
		}
	case 3: // replace the tail
		i := t.N(len(r.Segs))
		r.Segs = append(r.Segs[:i:i], genSeg(t, o, used, name))
	}
	return r
}

var methods7 = []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}

// genTable makes n distinct routes.
func genTable(t *T, maxRoutes, maxDepth int) []Route {
	o := segOpts{nlit: pick(t, 2, 4, 8, len(litAlpha)), nre: pick(t, 2, 5, len(rePool))}
	o.kinds = pick(t, []int{4, 3, 3, 2}, []int{3, 1, 1, 0}, []int{1, 1, 1, 1}, []int{2, 0, 3, 3}, []int{2, 4, 2, 0})
	n := 1
	switch t.W(5, 3, 1) {
	case 0:
		n = t.Range(1, min(6, maxRoutes))
	case 1:
		n = t.Range(1, min(16, maxRoutes))
	case 2:
		n = t.Few(1, maxRoutes, 150)
	}
	nm := t.W(5, 2, 1)
	var out []Route
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var r Route
		if len(out) > 0 && t.Chance(2, 3) {
			r = deriveRoute(t, o, out[t.N(len(out))], maxDepth)
		} else if t.Chance(1, 12) {
			r = Route{Segs: []Seg{{K: kLit, Text: ""}}} // "/"
		} else {
			r = genRoute(t, o, maxDepth)
		}
		if len(r.Segs) > 1 { // "" only as the whole path
			segs := r.Segs[:0:0]
			for _, s := range r.Segs {
				if s.Text != "" {
					segs = append(segs, s)
				}
			}
			if len(segs) == 0 {
				segs = r.Segs[:1]
			}
			r.Segs = segs
		}
		if !uniqueNames(r) {
			continue
		}
		switch nm {
		case 0:
			r.M = "GET"
		case 1:
			r.M = pick(t, "GET", "POST")
		case 2:
			r.M = methods7[t.N(7)]
		}
		key := r.M + " " + r.uri()
		if seen[key] {
			continue
		}
		seen[key] = true
		if t.Chance(1, 4) {
			r.Cuts = genCuts(t, r.uri())
		}
		out = append(out, r)
	}
	if len(out) == 0 {
		out = append(out, Route{M: "GET", Segs: []Seg{{K: kLit, Text: "a"}}})
	}
	return out
}

func uniqueNames(r Route) bool {
	seen := map[string]bool{}
	for _, s := range r.Segs {
		for _, n := range s.Names {
			if n == "_" {
				continue
			}
			if seen[n] {
				return false
			}
			seen[n] = true
		}
	}
	return true
}

// genCuts splits a pattern into 1..3 group pieces plus the rest, never next to a space (pieces are trimmed).
func genCuts(t *T, uri string) []int {
	if len(uri) < 2 {
		return nil
	}
	var cs []int
	for k := t.Range(1, 3); k > 0; k-- {
		c := t.Range(0, len(uri)-1)
		if t.Chance(2, 3) { // at a segment border
			if j := strings.IndexByte(uri[c:], '/'); j >= 0 {
				c += j
			}
		}
		if c > 0 && uri[c-1] == ' ' || uri[c] == ' ' || (uri[c]&0xC0) == 0x80 {
			continue
		}
		cs = append(cs, c)
	}
	sort.Ints(cs)
	return cs
}

// addTo registers the route, through nested groups if it has cuts.
func (r Route) addTo(root *water.Router, hs ...any) {
	g, uri, at := root, r.uri(), 0
	for _, c := range r.Cuts {
		g = g.Group(uri[at:c])
		at = c
	}
	regMethod(g, r.M, uri[at:], hs...)
}

func regMethod(g *water.Router, m, pattern string, hs ...any) {
	switch m {
	case "GET":
		g.GET(pattern, hs...)
	case "POST":
		g.POST(pattern, hs...)
	case "PUT":
		g.PUT(pattern, hs...)
	case "PATCH":
		g.PATCH(pattern, hs...)
	case "DELETE":
		g.DELETE(pattern, hs...)
	case "OPTIONS":
		g.OPTIONS(pattern, hs...)
	case "HEAD":
		g.HEAD(pattern, hs...)
	case "ANY":
		g.ANY(pattern, hs...)
	default:
		bug("method %q", m)
	}
}

// --- reference matcher: routes are tried segment by segment, by kind, then registration order ---

type refRoute struct {
	idx  int
	segs []Seg
}

var reCache = map[string]*regexp.Regexp{}

func refRe(s string) *regexp.Regexp {
	r := reCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		reCache[s] = r
	}
	return r
}

// captures of a segment against text; ok=false if it does not match.
func refSeg(s Seg, text string) (caps map[string]string, ok bool) {
	switch s.K {
	case kLit:
		return nil, s.Text == text
	case kHold:
		if s.Names[0] == "_" {
			return nil, true
		}
		return map[string]string{s.Names[0]: text}, true
	case kRe:
		m := refRe(s.Re).FindStringSubmatch(text)
		if m == nil {
			return nil, false
		}
		vals := m[1:]
		if s.G == 0 {
			vals = m[:1]
		}
		caps = map[string]string{}
		for i, n := range s.Names {
			if n != "_" {
				caps[n] = vals[i]
			}
		}
		return caps, true
	}
	return nil, true
}

type refStats struct{ backtracks, kinds int }

// refMatch returns the selected route index (-1: none) and its parameters.
func refMatch(routes []Route, method, path string, st *refStats) (int, map[string]string) {
	path = strings.TrimPrefix(path, "/")
	path = strings.TrimSuffix(path, "/")
	parts := strings.Split(path, "/")
	var cands []refRoute
	for i, r := range routes {
		if r.M == method {
			cands = append(cands, refRoute{i, r.Segs})
		}
	}
	idx := refRec(cands, parts, st)
	if idx < 0 {
		return -1, nil
	}
	return idx, refParams(routes[idx], parts)
}

func refRec(cands []refRoute, parts []string, st *refStats) int {
	if len(parts) == 1 {
		for k := kLit; k <= kAll; k++ {
			for _, c := range cands {
				if len(c.segs) == 1 && c.segs[0].K == k {
					if _, ok := refSeg(c.segs[0], parts[0]); ok {
						return c.idx
					}
				}
			}
		}
		return -1
	}
	for k := kLit; k <= kAll; k++ {
		var order []string
		groups := map[string][]refRoute{}
		for _, c := range cands {
			if len(c.segs) > 1 && c.segs[0].K == k {
				key := canonText(c.segs[0])
				if groups[key] == nil {
					order = append(order, key)
				}
				groups[key] = append(groups[key], c)
			}
		}
		for _, key := range order {
			g := groups[key]
			if _, ok := refSeg(g[0].segs[0], parts[0]); !ok {
				continue
			}
			rest := make([]refRoute, len(g))
			for i, c := range g {
				rest[i] = refRoute{c.idx, c.segs[1:]}
			}
			if idx := refRec(rest, parts[1:], st); idx >= 0 {
				return idx
			}
			st.backtracks++
		}
	}
	for _, c := range cands {
		if len(c.segs) == 1 && c.segs[0].K == kAll {
			return c.idx
		}
	}
	return -1
}

// canonText: /:id is another way to write /<id>.
func canonText(s Seg) string {
	if s.K == kHold && strings.HasPrefix(s.Text, ":") {
		return "<" + strings.TrimSpace(s.Text[1:]) + ">"
	}
	return s.Text
}

// refParams: what the route captures from the path it was selected for.
func refParams(r Route, parts []string) map[string]string {
	out := map[string]string{}
	glob := 0
	for i, s := range r.Segs {
		if s.K == kAll {
			rest := strings.Join(parts[i:], "/")
			last := i == len(r.Segs)-1
			if len(s.Names) == 0 {
				v := parts[i]
				if last {
					v = rest
				}
				out[fmt.Sprintf("*%d", glob)] = v
			} else if s.Names[0] != "_" {
				out[s.Names[0]] = rest
			}
			glob++
			continue
		}
		caps, ok := refSeg(s, parts[i])
		if !ok {
			bug("refParams: segment %d of %s does not match %q", i, r.uri(), parts)
		}
		for k, v := range caps {
			out[k] = v
		}
	}
	return out
}

// --- request paths ---

func genSegText(t *T) string {
	switch t.W(5, 2, 1, 1) {
	case 0:
		return litAlpha[t.N(len(litAlpha))]
	case 1:
		e := rePool[t.N(len(rePool))]
		if len(e.yes) > 0 {
			return e.yes[t.N(len(e.yes))]
		}
		return "zz"
	case 2:
		return pick(t, "", "zz", "..", ".", "%2F", "a?b", "a#b", "a;b", "+", "\x80", "é日", "A-B", "*", "<id>", ":id", strings.Repeat("long", 60), " a", "a ", " 7 ", "\ta\n", " ", "\u00a042")
	}
	n := t.Range(1, 5)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abc019-.:~"[t.N(10)]
	}
	return string(b)
}

// pathFor instantiates a route's pattern.
func pathFor(t *T, r Route) string {
	var parts []string
	for i, s := range r.Segs {
		switch s.K {
		case kLit:
			parts = append(parts, s.Text)
		case kRe:
			v := genSegText(t)
			for _, e := range rePool {
				if e.re == s.Re && len(e.yes) > 0 && t.Chance(9, 10) {
					v = e.yes[t.N(len(e.yes))]
				}
			}
			parts = append(parts, v)
		case kHold:
			parts = append(parts, genSegText(t))
		case kAll:
			n := 1
			if i == len(r.Segs)-1 {
				n = t.Range(1, 4)
			}
			for ; n > 0; n-- {
				parts = append(parts, genSegText(t))
			}
		}
	}
	return "/" + strings.Join(parts, "/")
}

// genPath makes a decoded request path for a table.
func genPath(t *T, routes []Route) string {
	var p string
	if t.Chance(9, 10) {
		p = pathFor(t, routes[t.N(len(routes))])
	} else {
		n := t.Range(0, 4)
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, genSegText(t))
		}
		p = "/" + strings.Join(parts, "/")
	}
	switch t.W(6, 2, 1, 1, 1, 1) {
	case 1: // replace a segment
		parts := strings.Split(p, "/")
		i := t.Range(1, len(parts)-1)
		parts[i] = genSegText(t)
		p = strings.Join(parts, "/")
	case 2: // trailing slash
		p += "/"
	case 3: // drop the tail
		parts := strings.Split(p, "/")
		if len(parts) > 2 {
			p = strings.Join(parts[:len(parts)-1], "/")
		}
	case 4: // extend
		p += "/" + genSegText(t)
	case 5: // double or leading slash
		i := t.N(len(p))
		if j := strings.IndexByte(p[i:], '/'); j >= 0 {
			p = p[:i+j] + "/" + p[i+j:]
		}
	}
	return p
}

func genMethod(t *T, routes []Route) string {
	if t.Chance(9, 10) {
		return routes[t.N(len(routes))].M
	}
	return methods7[t.N(7)]
}

// PathReq is a request reduced to method and path.
type PathReq struct {
	M    string
	Path S    // decoded
	T    S    // target
	H    []KV `json:",omitempty"`
}

func (q PathReq) req() Req { return Req{Method: q.M, Target: q.T, H: q.H} }

func genPathReq(t *T, routes []Route) PathReq {
	p := genPath(t, routes)
	m := genMethod(t, routes)
	tg := encPath(t, p)
	if t.Chance(1, 6) {
		tg += S(pick(t, "?", "?a=1", "?x=/b/c", "?/", "?_method=DELETE", "?format=json&debug=1"))
	}
	return PathReq{m, S(p), tg, genNoise(t)}
}

// RouteCase is a table with requests.
type RouteCase struct {
	Routes []Route
	Static bool
	Reqs   []PathReq
}

func genRouteCase(t *T, maxRoutes, maxDepth, reqs int) RouteCase {
	c := RouteCase{Routes: genTable(t, maxRoutes, maxDepth), Static: t.Chance(1, 3)}
	for i, n := 0, t.Range(1, reqs); i < n; i++ {
		c.Reqs = append(c.Reqs, genPathReq(t, c.Routes))
	}
	return c
}

type routeHit struct {
	rid    int
	params map[string]string
	full   string
}

func buildRouteTable(routes []Route, static bool, hits *[]routeHit) *water.Engine {
	r := water.NewRouter()
	for i, rt := range routes {
		rt.addTo(r, func(ctx *water.Context) {
			ps := map[string]string{}
			for k, v := range ctx.Params {
				ps[k] = v
			}
			*hits = append(*hits, routeHit{i, ps, ctx.FullPath()})
			ctx.WriteHeader(200)
		})
	}
	return r.Handler(water.WithStaticRouter(static))
}

func runR01(c RouteCase, o *Obs) error {
	var hits []routeHit
	e := buildRouteTable(c.Routes, c.Static, &hits)
	o.LabelIf(c.Static, "static router on")
	o.LabelIf(len(c.Routes) > 15, "more than 15 routes")
	for _, q := range c.Reqs {
		hits = nil
		req := q.req().must()
		if req.URL.Path != string(q.Path) {
			bug("target %q decodes to %q, want %q", q.T, req.URL.Path, q.Path)
		}
		var st refStats
		want, _ := refMatch(c.Routes, q.M, req.URL.Path, &st)
		rec, err := mustServe(e, req)
		if err != nil {
			return fmt.Errorf("%s %q: %v", q.M, q.Path, err)
		}
		if st.backtracks > 0 {
			o.Label("request backtracks")
			o.NT()
		}
		if want < 0 {
			o.Label("no route")
			if len(hits) > 0 {
				return fmt.Errorf("%s %q: no route matches, but %s ran", q.M, q.Path, c.Routes[hits[0].rid].uri())
			}
			if rec.Status() != 404 {
				return fmt.Errorf("%s %q: no route matches, but status %d", q.M, q.Path, rec.Status())
			}
			continue
		}
		o.Label("route matched")
		if competing(c.Routes, q.M, req.URL.Path) > 1 {
			o.Label("several routes could serve")
			o.NT()
		}
		if len(hits) != 1 || hits[0].rid != want {
			got := "nothing"
			if len(hits) > 0 {
				got = c.Routes[hits[0].rid].uri()
			}
			return fmt.Errorf("%s %q: %s must run, but %s ran", q.M, q.Path, c.Routes[want].uri(), got)
		}
	}
	return nil
}

// competing counts the routes that alone would serve the request.
func competing(routes []Route, m, path string) int {
	n := 0
	for _, r := range routes {
		var st refStats
		if i, _ := refMatch([]Route{r}, m, path, &st); i >= 0 {
			n++
		}
	}
	return n
}

func runR02(c RouteCase, o *Obs) error {
	var hits []routeHit
	e := buildRouteTable(c.Routes, c.Static, &hits)
	for _, q := range c.Reqs {
		hits = nil
		req := q.req().must()
		if _, err := mustServe(e, req); err != nil {
			return fmt.Errorf("%s %q: %v", q.M, q.Path, err)
		}
		if len(hits) == 0 {
			continue
		}
		// the parameters are judged for the route that ran; which one must run is R01
		ran := c.Routes[hits[0].rid]
		path := strings.TrimSuffix(strings.TrimPrefix(req.URL.Path, "/"), "/")
		parts := strings.Split(path, "/")
		var st refStats
		if i, _ := refMatch([]Route{ran}, q.M, req.URL.Path, &st); i < 0 {
			return fmt.Errorf("%s %q: %s ran, which does not match", q.M, q.Path, ran.uri())
		}
		want := refParams(ran, parts)
		var full refStats
		refMatch(c.Routes, q.M, req.URL.Path, &full)
		if len(want) > 0 {
			o.Label("has parameters")
			if full.backtracks > 0 || len(want) > 1 {
				o.NT()
			}
			o.LabelIf(full.backtracks > 0, "parameters after backtracking")
		}
		if !mapsEqual(want, hits[0].params) {
			return fmt.Errorf("%s %q on %s: params %q, want %q", q.M, q.Path, ran.uri(), hits[0].params, want)
		}
	}
	return nil
}

func mapsEqual(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// R03: the two engines must behave alike.
type StaticCase struct {
	Routes []Route
	Mw     bool
	NoF    bool
	Before bool
	Taint  []bool // per route: the handler changes its parameters
	Reqs   []PathReq
}

func runR03(c StaticCase, o *Obs) error {
	build := func(static bool, out *[]string) http.Handler {
		r := water.NewRouter()
		logf := func(f string, a ...any) { *out = append(*out, fmt.Sprintf(f, a...)) }
		if c.Before {
			r.Before(func(ctx *water.Context) {
				logf("before %s %v nil=%v", ctx.FullPath(), sortedMap(ctx.Params), ctx.Params == nil)
			})
		}
		if c.Mw {
			r.Use(func(ctx *water.Context) {
				logf("mw in %s %v", ctx.FullPath(), sortedMap(ctx.Params))
				ctx.Next()
				logf("mw out %s %v %v %d", ctx.FullPath(), sortedMap(ctx.Params), ctx.Written(), ctx.Status())
			})
		}
		for i, rt := range c.Routes {
			rt.addTo(r, func(ctx *water.Context) {
				_, has := ctx.GetMaybe("k")
				logf("route %d %s %v nil=%v env=%v name=%v", i, ctx.FullPath(), sortedMap(ctx.Params), ctx.Params == nil, has, ctx.HandlerName() != "")
				ctx.Set("k", i)
				if i < len(c.Taint) && c.Taint[i] {
					ctx.Params["tainted"] = "yes"
				}
				if i%3 == 0 {
					return
				}
				ctx.String(200+i%5, fmt.Sprintf("route %d %v", i, sortedMap(ctx.Params)))
			})
		}
		opts := []water.Option{water.WithStaticRouter(static)}
		if c.NoF {
			opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) {
				logf("nofound %q %v nil=%v", ctx.FullPath(), sortedMap(ctx.Params), ctx.Params == nil)
				ctx.String(404, "none")
			}))
		}
		return r.Handler(opts...)
	}
	var la, lb []string
	ea, eb := build(false, &la), build(true, &lb)
	for i, q := range c.Reqs {
		la, lb = nil, nil
		ra, pa := serve(ea, q.req().must())
		rb, pb := serve(eb, q.req().must())
		a := fmt.Sprintf("%q %s panic=%v", la, ra.dump(), pa)
		b := fmt.Sprintf("%q %s panic=%v", lb, rb.dump(), pb)
		if a != b {
			return fmt.Errorf("request %d %s %q:\n static router off: %s\n static router on:  %s", i, q.M, q.Path, a, b)
		}
		var st refStats
		if w, _ := refMatch(c.Routes, q.M, string(q.Path), &st); w >= 0 && allLit(c.Routes[w]) {
			o.Label("served by a static route")
			o.NT()
		} else if w >= 0 {
			o.Label("served by another route")
		} else {
			o.Label("unmatched")
		}
	}
	return nil
}

func allLit(r Route) bool {
	for _, s := range r.Segs {
		if s.K != kLit {
			return false
		}
	}
	return true
}

func sortedMap(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q,", k, m[k])
	}
	return b.String()
}

func genStaticCase(t *T) StaticCase {
	c := StaticCase{Routes: genTable(t, 20, 5), Mw: t.Chance(1, 3), NoF: t.Chance(1, 3), Before: t.Chance(1, 4)}
	// make sure that static routes are there, in competition with the others
	o := segOpts{kinds: []int{1, 0, 0, 0}, nlit: 6}
	seen := map[string]bool{}
	for _, r := range c.Routes {
		seen[r.M+r.uri()] = true
	}
	for k := t.Range(0, 4); k > 0; k-- {
		r := genRoute(t, o, 4)
		if t.Bool() {
			p := pathFor(t, c.Routes[t.N(len(c.Routes))])
			if lit, ok := litRoute(p); ok {
				r = lit
			}
		}
		r.M = genMethod(t, c.Routes)
		if !seen[r.M+r.uri()] {
			seen[r.M+r.uri()] = true
			at := t.N(len(c.Routes) + 1)
			c.Routes = append(c.Routes[:at:at], append([]Route{r}, c.Routes[at:]...)...)
		}
	}
	for range c.Routes {
		c.Taint = append(c.Taint, t.Chance(1, 4))
	}
	for i, n := 0, t.Range(1, 12); i < n; i++ {
		c.Reqs = append(c.Reqs, genPathReq(t, c.Routes))
	}
	return c
}

// litRoute turns a path into a route of literals, if it can be written as one.
func litRoute(p string) (Route, bool) {
	var r Route
	for _, s := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		if s == "" || strings.ContainsAny(s, "<>") || strings.HasPrefix(s, "*") || strings.HasPrefix(s, ":") || s != strings.TrimSpace(s) {
			return r, false
		}
		r.Segs = append(r.Segs, Seg{K: kLit, Text: s})
	}
	return r, true
}

func init() {
	register(&Property{ID: "R01", Families: []*Family{
		fam("tables", 12000, "1 to 45 competing routes (literal, regexp, placeholder and match-all segments, groups, several methods) and up to 12 request paths derived from them; non-trivial: several routes could serve a request, or the search has to backtrack",
			func(t *T) RouteCase { return genRouteCase(t, 45, 5, 12) }, runR01),
		fam("deep", 3000, "as tables, with paths of up to 14 segments", func(t *T) RouteCase { return genRouteCase(t, 12, 14, 6) }, runR01),
	}, Assume: []string{"the regexp package of Go decides what a regular expression matches"}})
	register(&Property{ID: "R02", Families: []*Family{
		fam("tables", 12000, "tables and requests as in R01; non-trivial: the selected route has several parameters, or was reached by backtracking",
			func(t *T) RouteCase { return genRouteCase(t, 20, 6, 12) }, runR02),
		fam("deep", 3000, "as tables, with paths of up to 14 segments", func(t *T) RouteCase { return genRouteCase(t, 8, 14, 6) }, runR02),
	}, Assume: []string{"the regexp package of Go decides what a regular expression captures"}})
	register(&Property{ID: "R03", Families: []*Family{
		fam("differential", 10000, "the same table, middleware and request sequence on two engines, static router off and on; non-trivial: a request is served by a route of literals only",
			genStaticCase, runR03),
	}})
}
