package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

// --- R04: composition ---

// Op is one builder call. The model registers along.
type Op struct {
	Op   string // use, group, route, before
	N    int    // number of handlers
	Kind []int  // form of each handler
	P    string // pattern piece
	M    string
	Args []Op `json:",omitempty"` // arguments of Group: use (handlers) or fn (nested builder)
	Body []Op `json:",omitempty"` // what is done with the group afterwards
}

type ScopeCase struct {
	Ops    []Op
	NoF    []int // forms of the not-found handlers
	Static bool
	Early  int  `json:",omitempty"` // an engine is built after so many calls, and another at the end
	Again  bool `json:",omitempty"` // the engine is built twice
	Miss   []PathReq
}

type scopeGen struct {
	t      *T
	groups int
	routes int
	budget int
}

func (g *scopeGen) kinds(n int, next bool) []int {
	ks := make([]int, n)
	for i := range ks {
		ks[i] = g.t.W(3, 2, 1, 1, 1, 3)
	}
	return ks
}

// piece continues the path pre with the pattern piece p; the two may meet within a segment.
func (g *scopeGen) piece(pre, p string) string {
	open := pre != "" && !strings.HasSuffix(pre, ">") && !strings.HasPrefix(p, "/<")
	if strings.HasSuffix(pre, "/") || open && g.t.Chance(1, 8) {
		return strings.Replace(p, "/", "", 1)
	}
	return p
}

func (g *scopeGen) ops(depth int, pre string, root bool) []Op {
	t := g.t
	var out []Op
	n := t.Range(1, 6)
	for i := 0; i < n && g.budget > 0; i++ {
		g.budget--
		switch t.W(5, 3, 3, 1) {
		case 0:
			g.routes++
			k := t.Few(1, 3, 70)
			out = append(out, Op{Op: "route", M: pick(t, "GET", "GET", "POST", "ANY", "PUT", "HEAD", "OPTIONS", "PATCH", "DELETE"), P: g.piece(pre, fmt.Sprintf("/r%d", g.routes)+pick(t, "", "", "/<leaf>", "/*")), N: k, Kind: g.kinds(k, true)})
		case 1:
			k := t.Few(1, 3, 70)
			out = append(out, Op{Op: "use", N: k, Kind: g.kinds(k, true)})
		case 2:
			if depth >= 4 {
				continue
			}
			g.groups++
			op := Op{Op: "group", P: g.piece(pre, pick(t, fmt.Sprintf("/g%d", g.groups), fmt.Sprintf("/g%d", g.groups), "", fmt.Sprintf("/<p%d>", g.groups), fmt.Sprintf("/g%d/x", g.groups), " /sp ",
				"/", fmt.Sprintf("/g%d/", g.groups), fmt.Sprintf("/v%d-", g.groups)))}
			in := pre + strings.TrimSpace(op.P)
			for k := t.N(4); k > 0; k-- {
				if t.Chance(1, 2) {
					op.Args = append(op.Args, Op{Op: "use", N: 1, Kind: []int{0}})
				} else {
					op.Args = append(op.Args, Op{Op: "fn", Body: g.ops(depth+1, in, false)})
				}
			}
			op.Body = g.ops(depth+1, in, false)
			// no group without a route: the router asks for handlers then
			g.routes++
			op.Body = append(op.Body, Op{Op: "route", M: "GET", P: g.piece(in, fmt.Sprintf("/r%d", g.routes)), N: 1, Kind: []int{0}})
			if t.Bool() {
				op.Body = append(op.Body, Op{Op: "use", N: 1, Kind: g.kinds(1, true)})
			}
			out = append(out, op)
		case 3:
			if root {
				k := t.Few(1, 2, 40)
				out = append(out, Op{Op: "before", N: k, Kind: g.kinds(k, true)})
			}
		}
	}
	return out
}

func genScopeCase(t *T) ScopeCase {
	g := &scopeGen{t: t, budget: pick(t, 8, 20, 40)}
	c := ScopeCase{Ops: g.ops(0, "", true), Static: t.Chance(1, 3)}
	g.routes++
	c.Ops = append(c.Ops, Op{Op: "route", M: "GET", P: fmt.Sprintf("/r%d", g.routes), N: 1, Kind: []int{0}})
	if t.Bool() {
		c.Ops = append(c.Ops, Op{Op: pick(t, "use", "before"), N: 1, Kind: g.kinds(1, true)})
	}
	if t.Chance(1, 5) {
		c.Early = t.N(len(c.Ops))
	}
	c.Again = t.Chance(1, 6)
	if t.Bool() {
		for k := t.Few(1, 3, 40); k > 0; k-- {
			c.NoF = append(c.NoF, t.W(3, 2, 1, 1, 1, 3))
		}
	}
	for k := t.N(3); k > 0; k-- {
		p := pick(t, "/nope", "/g1", "/r1/x/y/z/nope", "/", "/g1/nope")
		c.Miss = append(c.Miss, PathReq{methods7[t.N(7)], S(p), S(p), genNoise(t)})
	}
	return c
}

type customHandler struct{ f func(*water.Context) }

func (h customHandler) ServeHTTP(c *water.Context) { h.f(c) }

type customHTTP struct{ f func() }

func (h *customHTTP) ServeHTTP(http.ResponseWriter, *http.Request) { h.f() }

// mkHandler makes a handler of the given form that logs its id.
// 0 func, 1 HandlerFunc, 2 Handler, 3 http.Handler, 4 func(w,r), 5 func calling Next
func mkHandler(kind, id int, trace *[]int) any {
	if id%6 == 5 {
		return water.WrapHandler(mkHandler1(kind, id, trace))
	}
	return mkHandler1(kind, id, trace)
}

func mkHandler1(kind, id int, trace *[]int) any {
	log := func() { *trace = append(*trace, id) }
	switch kind {
	case 1:
		return water.HandlerFunc(func(c *water.Context) { log() })
	case 2:
		if id%2 == 0 {
			return &customHandler{func(c *water.Context) { log() }}
		}
		return customHandler{func(c *water.Context) { log() }}
	case 3:
		return &customHTTP{log}
	case 4:
		return func(w http.ResponseWriter, r *http.Request) { log() }
	case 5:
		return func(c *water.Context) { log(); c.Next() }
	}
	return func(c *water.Context) { log() }
}

type scopeModel struct {
	parent *scopeModel
	mws    []int
	prefix string
}

type modelRoute struct {
	m, uri string
	scope  *scopeModel
	hs     []int
}

type scopeBuilder struct {
	nextID  int
	again   any // a handler given before, may be given again
	againID int
	trace   []int
	befores []int
	routes  []modelRoute
}

func (b *scopeBuilder) handlers(op Op) ([]any, []int) {
	var hs []any
	var ids []int
	for i := 0; i < op.N; i++ {
		if b.again != nil && b.nextID%4 == 3 && (op.Kind[i] == 2 || op.Kind[i] == 3) { // the same handler once more
			hs, ids = append(hs, b.again), append(ids, b.againID)
			b.again = nil
			continue
		}
		b.nextID++
		h := mkHandler(op.Kind[i], b.nextID, &b.trace)
		if k := op.Kind[i]; k == 2 || k == 3 {
			b.again, b.againID = h, b.nextID
		}
		hs = append(hs, h)
		ids = append(ids, b.nextID)
	}
	return hs, ids
}

func (b *scopeBuilder) apply(r *water.Router, sc *scopeModel, ops []Op) {
	for _, op := range ops {
		switch op.Op {
		case "use":
			hs, ids := b.handlers(op)
			r.Use(hs...)
			sc.mws = append(sc.mws, ids...)
		case "before":
			hs, ids := b.handlers(op)
			r.Before(hs...)
			b.befores = append(b.befores, ids...)
		case "route":
			hs, ids := b.handlers(op)
			regMethod(r, op.M, op.P, hs...)
			ms := []string{op.M}
			if op.M == "ANY" {
				ms = []string{"GET", "POST", "DELETE", "PUT", "PATCH"}
			}
			for _, m := range ms {
				b.routes = append(b.routes, modelRoute{m, sc.prefix + op.P, sc, ids})
			}
		case "group":
			child := &scopeModel{parent: sc, prefix: sc.prefix + strings.TrimSpace(op.P)}
			var args []any
			for _, a := range op.Args {
				if a.Op == "use" {
					b.nextID++
					id := b.nextID
					args = append(args, func(c *water.Context) { b.trace = append(b.trace, id) })
					// registered when Group reaches this argument
					args = append(args, func(*water.Router) { child.mws = append(child.mws, id) })
				} else {
					body := a.Body
					args = append(args, func(rr *water.Router) { b.apply(rr, child, body) })
				}
			}
			g := r.Group(op.P, args...)
			b.apply(g, child, op.Body)
		}
	}
}

func runR04(c ScopeCase, o *Obs) error {
	resetGlobals()
	b := &scopeBuilder{}
	r := water.NewRouter()
	root := &scopeModel{}
	var early *water.Engine
	var earlyWant []scopeWant
	if c.Early > 0 && c.Early < len(c.Ops) {
		b.apply(r, root, c.Ops[:c.Early])
		if len(b.routes) > 0 { // an engine of what is registered so far
			early, earlyWant = r.Handler(), b.wants()
		}
		b.apply(r, root, c.Ops[c.Early:])
	} else {
		b.apply(r, root, c.Ops)
	}
	var nof []int
	opts := []water.Option{water.WithStaticRouter(c.Static)}
	if len(c.NoF) > 0 {
		var hs []any
		for _, k := range c.NoF {
			b.nextID++
			hs = append(hs, mkHandler(k, b.nextID, &b.trace))
			nof = append(nof, b.nextID)
		}
		opts = append(opts, water.WithNoFoundHandlers(hs...))
	}
	e := r.Handler(opts...)
	if c.Again {
		e = r.Handler(opts...)
	}
	if early != nil {
		o.Label("two engines from one router")
		if err := checkScopes(early, earlyWant, nil, b, c, o); err != nil {
			return fmt.Errorf("the engine built first: %v", err)
		}
	}
	return checkScopes(e, b.wants(), nof, b, c, o)
}

// scopeWant is what a route's handlers must be.
type scopeWant struct {
	mr      modelRoute
	want    []int
	befores []int
	scopes  int // scopes around it
	mws     int // scopes with middleware
}

func (b *scopeBuilder) wants() (out []scopeWant) {
	for _, mr := range b.routes {
		w := scopeWant{mr: mr, befores: append([]int{}, b.befores...)}
		w.want = append(w.want, b.befores...)
		var scopes []*scopeModel
		for s := mr.scope; s != nil; s = s.parent {
			scopes = append(scopes, s)
		}
		w.scopes = len(scopes)
		for i := len(scopes) - 1; i >= 0; i-- {
			w.want = append(w.want, scopes[i].mws...)
			if len(scopes[i].mws) > 0 {
				w.mws++
			}
		}
		w.want = append(w.want, mr.hs...)
		out = append(out, w)
	}
	return out
}

func checkScopes(e *water.Engine, wants []scopeWant, nof []int, b *scopeBuilder, c ScopeCase, o *Obs) error {
	served := map[string]bool{}
	var befores []int
	var routes []modelRoute
	for _, w := range wants {
		mr, want := w.mr, w.want
		befores = w.befores
		routes = append(routes, mr)
		path := mr.uri
		for _, rep := range []string{"<leaf>", "*"} {
			path = strings.ReplaceAll(path, rep, "v")
		}
		for i := 0; i < 100; i++ {
			path = strings.ReplaceAll(path, fmt.Sprintf("<p%d>", i), "w")
		}
		served[mr.m+" "+path] = true
		o.LabelIf(len(w.befores) > 0, "with Before")
		o.LabelIf(w.scopes > 2, "nested groups")
		if w.mws > 1 {
			o.Label("middleware in several scopes")
			o.NT()
		}
		b.trace = nil
		if _, err := mustServe(e, Req{Method: mr.m, Target: S(path)}.must()); err != nil {
			return err
		}
		if fmt.Sprint(b.trace) != fmt.Sprint(want) {
			return fmt.Errorf("%s %s (route %s): handlers %v ran, want %v (before %v)", mr.m, path, mr.uri, b.trace, want, w.befores)
		}
	}
	for _, q := range c.Miss {
		if served[q.M+" "+string(q.Path)] || anyMatches(routes, q) {
			continue
		}
		b.trace = nil
		if _, err := mustServe(e, q.req().must()); err != nil {
			return err
		}
		o.Label("unmatched request")
		if len(nof) == 0 {
			// without not-found handlers the answer is a bare 404; no handler of any route may run
			for _, id := range b.trace {
				if !contains(befores, id) {
					return fmt.Errorf("unmatched %s %s: handler %d ran", q.M, q.Path, id)
				}
			}
			continue
		}
		want := append(append([]int{}, befores...), nof...)
		if fmt.Sprint(b.trace) != fmt.Sprint(want) {
			return fmt.Errorf("unmatched %s %s: handlers %v ran, want %v", q.M, q.Path, b.trace, want)
		}
	}
	return nil
}

func anyMatches(rs []modelRoute, q PathReq) bool {
	path := strings.Split(strings.Trim(string(q.Path), "/"), "/")
	for _, mr := range rs {
		if mr.m != q.M {
			continue
		}
		segs := strings.Split(strings.Trim(mr.uri, "/"), "/")
		ok := len(path) >= len(segs)
		for i := range segs {
			if !ok || i >= len(path) {
				break
			}
			if segs[i] == "*" {
				break
			}
			if i == len(segs)-1 && len(path) != len(segs) {
				ok = false
			}
			if !strings.HasPrefix(segs[i], "<") && segs[i] != path[i] {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func contains(xs []int, x int) bool {
	for _, v := range xs {
		if v == x {
			return true
		}
	}
	return false
}

// --- R05: execution ---

// HProg is what one handler of a chain does: a list of steps: "n" Next, "l" log, "w<k>" write,
// "e" an informational status, which is not the response.
type HProg struct {
	Steps []string
	Form  int // how it is registered, only for handlers without Next: 0 func, 1 HandlerFunc, 2 Handler, 3 http.Handler, 4 func(w,r)
}

type ChainCase struct {
	H      []HProg
	Split  [4]int // how many handlers go to Before, root Use, group Use, group argument; the rest are the route's
	NoF    bool   // run as not-found chain: Before + the rest
	Static bool
	Twice  bool // serve the request twice
	Weak   bool // several Next and writes: only the invariants
	M      string
}

const nWrites = 20

func doWrite(ctx *water.Context, k int) {
	switch k {
	case 0:
		ctx.WriteHeader(200)
	case 1:
		ctx.Write([]byte("body"))
	case 2:
		ctx.String(201, "text")
	case 3:
		ctx.Data(202, "application/x", []byte{1})
	case 4:
		ctx.JSON(200, "j")
	case 5:
		ctx.HTMLRaw(200, "<p>")
	case 6:
		ctx.Abort(403)
	case 7:
		ctx.NotFound()
	case 8:
		ctx.Found("/x")
	case 9:
		ctx.Write(nil)
	case 10:
		ctx.XML(200, 5)
	case 11:
		http.Error(ctx, "err", 418)
	case 12:
		ctx.HTML(200, "t", nil)
	case 13:
		ctx.Stream("text/x", strings.NewReader("stream"))
	case 14:
		ctx.NotModified()
	case 15:
		ctx.MovedPermanently("/y")
	case 16:
		ctx.InternalServerError()
	case 17:
		ctx.WriteHeader(204)
	case 18:
		ctx.Abort(101)
	case 19:
		ctx.Data(599, "", nil)
	}
}

func genChainCase(t *T) ChainCase {
	c := ChainCase{Static: t.Chance(1, 3), Twice: t.Chance(1, 4), M: methods7[t.N(7)]}
	n := t.Range(1, 6)
	switch t.W(8, 3, 1) {
	case 1:
		n = t.Range(1, 20)
	case 2:
		n = pick(t, 64, 127, 128, 129, 130, 200, 257, 300)
	}
	mode := t.W(4, 3, 2) // <=1 Next with writes; never writes, any number of Next; weak
	c.Weak = mode == 2
	pNext, pWrite := pick(t, 1, 3, 5), pick(t, 1, 2)
	if n > 20 {
		pWrite = 0
	}
	for i := 0; i < n; i++ {
		h := HProg{}
		steps := t.Range(0, 3)
		next := 0
		for s := 0; s < steps; s++ {
			switch {
			case t.Chance(pNext, 6) && (mode != 0 || next == 0):
				h.Steps = append(h.Steps, "n")
				next++
			case mode != 1 && t.Chance(pWrite, 8):
				h.Steps = append(h.Steps, fmt.Sprintf("w%d", t.N(nWrites)))
			case t.Chance(1, 12):
				h.Steps = append(h.Steps, "e")
			default:
				h.Steps = append(h.Steps, "l")
			}
		}
		if next == 0 {
			h.Form = t.N(5)
			if h.Form > 2 {
				for j, s := range h.Steps { // forms without context write plainly
					if s[0] == 'w' {
						h.Steps[j] = pick(t, "w0", "w1", "w9")
					}
				}
			}
		}
		c.H = append(c.H, h)
	}
	left := n - 1
	for i := range c.Split {
		if left > 0 && t.Bool() {
			c.Split[i] = t.N(left + 1)
			left -= c.Split[i]
		}
	}
	c.NoF = t.Chance(1, 5)
	return c
}

type chainTrace struct{ ev []string }

func (tr *chainTrace) log(f string, a ...any) { tr.ev = append(tr.ev, fmt.Sprintf(f, a...)) }

func chainHandler(i int, h HProg, tr *chainTrace) any {
	body := func(next func(), write func(int), early func(int)) {
		tr.log("start %d", i)
		for j, s := range h.Steps {
			switch s[0] {
			case 'n':
				next()
			case 'w':
				k := 0
				fmt.Sscan(s[1:], &k)
				write(k)
			case 'e':
				early(103)
			}
			tr.log("step %d.%d", i, j)
		}
		tr.log("end %d", i)
	}
	f := func(ctx *water.Context) { body(ctx.Next, func(k int) { doWrite(ctx, k) }, ctx.WriteHeader) }
	wf := func(w http.ResponseWriter) {
		body(nil, func(k int) {
			switch k {
			case 0:
				w.WriteHeader(200)
			case 1:
				w.Write([]byte("x"))
			default:
				w.Write(nil)
			}
		}, w.WriteHeader)
	}
	switch h.Form {
	case 1:
		return water.HandlerFunc(f)
	case 2:
		return customHandler{f}
	case 3:
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { wf(w) })
	case 4:
		return func(w http.ResponseWriter, r *http.Request) { wf(w) }
	}
	return f
}

// chainModel runs the chain by the stated rules.
type chainModel struct {
	c       ChainCase
	tr      *chainTrace
	written bool
}

func (m *chainModel) from(i int) {
	for i < len(m.c.H) {
		if m.exec(i) {
			return // the rest ran inside a Next, or was stopped there
		}
		if m.written {
			return
		}
		i++
	}
}

func (m *chainModel) exec(i int) (usedNext bool) {
	m.tr.log("start %d", i)
	for j, s := range m.c.H[i].Steps {
		switch s[0] {
		case 'n':
			if !usedNext {
				m.from(i + 1)
			}
			usedNext = true
		case 'w':
			m.written = true
		}
		m.tr.log("step %d.%d", i, j)
	}
	m.tr.log("end %d", i)
	return usedNext
}

func runR05(c ChainCase, o *Obs) error {
	resetGlobals()
	tr := &chainTrace{}
	r := water.NewRouter()
	hs := make([]any, len(c.H))
	for i, h := range c.H {
		hs[i] = chainHandler(i, h, tr)
	}
	at := 0
	take := func(n int) []any { x := hs[at : at+n]; at += n; return x }
	var opts = []water.Option{water.WithStaticRouter(c.Static)}
	path := "/g/x"
	if b := take(c.Split[0]); len(b) > 0 {
		r.Before(b...)
	}
	if c.NoF {
		r.GET("/other", func(*water.Context) {})
		opts = append(opts, water.WithNoFoundHandlers(hs[at:]...))
	} else {
		if u := take(c.Split[1]); len(u) > 0 {
			r.Use(u...)
		}
		g := r.Group("/g")
		if u := take(c.Split[2]); len(u) > 0 {
			g.Use(u...)
		}
		g2 := g.Group("")
		if u := take(c.Split[3]); len(u) > 0 {
			g2.Use(u...)
		}
		regMethod(g2, c.M, "/x", hs[at:]...)
	}
	e := r.Handler(opts...)
	rounds := 1
	if c.Twice {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		tr.ev = nil
		if _, err := mustServe(e, Req{Method: c.M, Target: S(path)}.must()); err != nil {
			return err
		}
		got := tr.ev
		nNext := 0
		for _, h := range c.H {
			for _, s := range h.Steps {
				if s == "n" {
					nNext++
				}
			}
		}
		o.LabelIf(nNext > 0, "uses Next")
		o.LabelIf(len(c.H) > 100, "more than 100 handlers")
		o.LabelIf(c.NoF, "not-found chain")
		if nNext > 0 && len(c.H) > 2 {
			o.NT()
		}
		if c.Weak {
			if err := chainInvariants(c, got); err != nil {
				return err
			}
			continue
		}
		m := &chainModel{c: c, tr: &chainTrace{}}
		m.from(0)
		o.LabelIf(m.written, "response written")
		if strings.Join(got, "|") != strings.Join(m.tr.ev, "|") {
			return fmt.Errorf("chain of %d handlers:\n ran  %v\n want %v", len(c.H), clip(got), clip(m.tr.ev))
		}
	}
	return nil
}

func clip(xs []string) string {
	if len(xs) > 60 {
		return fmt.Sprintf("%v ... (%d events)", xs[:60], len(xs))
	}
	return fmt.Sprint(xs)
}

// chainInvariants: at most once, in order, nested, and none started after a write but by Next.
func chainInvariants(c ChainCase, got []string) error {
	last := -1
	var stack []int
	written := false
	for n, ev := range got {
		var i, j int
		switch {
		case strings.HasPrefix(ev, "start"):
			fmt.Sscanf(ev, "start %d", &i)
			if i <= last {
				return fmt.Errorf("handler %d started after handler %d: %v", i, last, clip(got))
			}
			last = i
			if written {
				// only inside a Next: the innermost unfinished handler must be at an "n" step
				if len(stack) == 0 {
					return fmt.Errorf("handler %d started after the response was written: %v", i, clip(got))
				}
				// a handler that just ended passed control on by itself
				if n > 0 && strings.HasPrefix(got[n-1], "end") {
					return fmt.Errorf("handler %d started after the response was written, without Next: %v", i, clip(got))
				}
			}
			stack = append(stack, i)
		case strings.HasPrefix(ev, "step"):
			fmt.Sscanf(ev, "step %d.%d", &i, &j)
			if len(stack) == 0 || stack[len(stack)-1] != i {
				return fmt.Errorf("handler %d continued while another was running: %v", i, clip(got))
			}
			if c.H[i].Steps[j][0] == 'w' {
				written = true
			}
		case strings.HasPrefix(ev, "end"):
			fmt.Sscanf(ev, "end %d", &i)
			if len(stack) == 0 || stack[len(stack)-1] != i {
				return fmt.Errorf("handler %d ended while another was running: %v", i, clip(got))
			}
			stack = stack[:len(stack)-1]
		}
	}
	if len(stack) > 0 {
		return fmt.Errorf("unfinished handlers %v: %v", stack, clip(got))
	}
	return nil
}

func init() {
	register(&Property{ID: "R04", Families: []*Family{
		fam("scopes", 20000, "random programs of Use, Before, Group (with middleware and function arguments, nested up to 5 deep) and route registrations in any order, in every handler form; every route is requested, and some paths without route; non-trivial: a route has middleware in several scopes",
			genScopeCase, runR04),
	}, Assume: []string{"groups without any route are not built (the router asks for handlers)"}})
	register(&Property{ID: "R05", Families: []*Family{
		fam("chains", 40000, "chains of 1 to 300 handlers spread over Before, Use, groups and the route (or the not-found chain), each a random program of Next, writes of every kind and plain steps; the event log must equal the model's; with several Next and writes in one handler only the invariants (once, in order, nested, stopped by a write) are judged; non-trivial: more than two handlers and a Next",
			genChainCase, runR05),
	}})
}
