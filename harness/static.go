package main

import (
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/meilihao/water"
)

// TNode is a file or directory of a mounted tree.
type TNode struct {
	Name S
	Dir  bool
	Data S       `json:",omitempty"`
	Sub  []TNode `json:",omitempty"`
}

type Mount struct {
	FS     int // 0 Static (http.Dir), 1 StaticAdvance http.Dir, 2 in-memory, 3 a file system joining names naively
	Prefix string
	Index  S
	Exp    string
	ETag   int
	Tree   []TNode
	MW     bool
	Fault  int `json:",omitempty"` // of the file system: 1 nothing can be opened, 2 nothing is known about what was opened
}

// expRound makes the Expires function give another value for each request.
var expRound int

func (m Mount) expires() string {
	if expRound == 0 {
		return m.Exp
	}
	return fmt.Sprintf("%s %d", m.Exp, expRound)
}

// faultFS fails.
type faultFS struct {
	http.FileSystem
	fault int
}

type faultFile struct{ http.File }

func (faultFile) Stat() (fs.FileInfo, error) { return nil, os.ErrPermission }

func (f faultFS) Open(name string) (http.File, error) {
	if f.fault == 1 {
		return nil, os.ErrPermission
	}
	file, err := f.FileSystem.Open(name)
	if err != nil {
		return nil, err
	}
	return faultFile{file}, nil
}

func genEntryName(t *T, memFS bool) string {
	for {
		var s string
		switch t.W(4, 3, 1) {
		case 0:
			s = pick(t, "a", "b", "c.txt", "d.html", "e.json", "index.html", "index.htm", "main.css", "sub", "assets")
		case 1:
			s = pick(t, "a b", "a%20b", "x?y", "h#h", "..a", "a..b", "a..", "...", ".hidden", "50%", "%2e%2e", "a+b", "a;b", "a&b", "q\"q", "中文.txt", "é", "a\\b", "c:d", "~x", "<t>", "[a]", "x*y", "{z}", "*", "'", "a=b", "a,b", "@", "$1", "(p)", "!", " ")
		case 2:
			n := t.Range(1, 5)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(33 + t.N(94))
			}
			s = string(b)
		}
		if s == "." || s == ".." || strings.Contains(s, "/") || (memFS && strings.Contains(s, "\\")) {
			continue
		}
		return s
	}
}

type treeGen struct {
	t     *T
	n     int
	mem   bool
	index string
}

func (g *treeGen) dir(depth int) []TNode {
	t := g.t
	var out []TNode
	seen := map[string]bool{}
	add := func(n TNode) {
		if !seen[string(n.Name)] {
			seen[string(n.Name)] = true
			out = append(out, n)
		}
	}
	for k := t.Few(0, 4, 30); k > 0; k-- {
		g.n++
		name := genEntryName(t, g.mem)
		if depth > 0 && t.Chance(2, 5) {
			add(TNode{Name: S(name), Dir: true, Sub: g.dir(depth - 1)})
			continue
		}
		add(TNode{Name: S(name), Data: g.data()})
		if t.Chance(1, 6) { // what could be taken for the same
			g.n++
			add(TNode{Name: S(name + pick(t, ".gz", ".br", ".zst", ".html", "~", ".bak", ".de", ".", "s", "-")), Data: g.data()})
		}
	}
	if g.index != "" && t.Bool() {
		g.n++
		if t.Chance(1, 6) {
			add(TNode{Name: S(g.index), Dir: true})
		} else {
			add(TNode{Name: S(g.index), Data: g.data()})
		}
	}
	return out
}

func (g *treeGen) data() S {
	t := g.t
	d := fmt.Sprintf("MOUNT%d:", g.n)
	switch t.W(4, 2, 1) {
	case 0:
		d += genText(t, 40)
	case 1:
		d = genText(t, 20)
	case 2:
		d += strings.Repeat("0123456789abcdef", 1+t.N(4000))
	}
	return S(d)
}

func genMount(t *T) Mount {
	m := Mount{FS: t.W(3, 3, 3, 2), Prefix: pick(t, "", "/", "f", "/f", "/f/", "/a/b", "a/b/", "/v1.0/st", "/<v>", "/:v/st", "/<v ~ ^([a-z]+)$>/", "/*/f", "/*n/st/", "/*", "/<v>/*/st"), MW: t.Bool()}
	if m.FS != 0 {
		m.Index = S(pick(t, "", "", "index.html", "index.htm", "main.css"))
		m.Exp = pick(t, "", "", "46", "Thu, 01 Dec 2030 16:00:00 GMT")
	}
	g := &treeGen{t: t, mem: m.FS == 2, index: string(m.Index)}
	m.Tree = g.dir(3)
	if len(m.Tree) == 0 {
		m.Tree = []TNode{{Name: "a", Data: "MOUNT0:x"}}
	}
	return m
}

func (m Mount) prefix() string {
	p := strings.Trim(m.Prefix, "/")
	if p == "" {
		return ""
	}
	for _, x := range []string{"<v ~ ^([a-z]+)$>", "<v>", ":v", "*n", "*"} { // what stands for the placeholder in requests
		p = strings.ReplaceAll(p, x, "val")
	}
	return "/" + p
}

type flatNode struct {
	path string // below the mount, without leading slash
	dir  bool
	data string
	node TNode
}

func flatten(ns []TNode, base string, out *[]flatNode) {
	for _, n := range ns {
		p := base + string(n.Name)
		*out = append(*out, flatNode{p, n.Dir, string(n.Data), n})
		if n.Dir {
			flatten(n.Sub, p+"/", out)
		}
	}
}

var treeTime = time.Unix(1650000000, 0)

func writeTree(dir string, ns []TNode) {
	for _, n := range ns {
		p := filepath.Join(dir, string(n.Name))
		if n.Dir {
			if err := os.Mkdir(p, 0o755); err != nil {
				bug("mkdir: %v", err)
			}
			writeTree(p, n.Sub)
			continue
		}
		if err := os.WriteFile(p, []byte(n.Data), 0o644); err != nil {
			bug("write: %v", err)
		}
		os.Chtimes(p, treeTime, treeTime)
	}
}

// naiveFS joins what it is asked for to a root, as file systems that trust http.FileServer's
// cleaned names do. It only ever reads.
type naiveFS struct{ root string }

func (n naiveFS) Open(name string) (http.File, error) {
	return os.Open(n.root + "/" + name)
}

func (m Mount) mount(root string) *water.Engine {
	r := water.NewRouter()
	if m.MW {
		r.Use(func(c *water.Context) { c.Next() })
	}
	var hfs http.FileSystem
	switch m.FS {
	case 0:
		r.Static(m.Prefix, root)
		return r.Handler()
	case 1:
		hfs = http.Dir(root)
	case 2:
		mem := fstest.MapFS{}
		var fl []flatNode
		flatten(m.Tree, "", &fl)
		for _, f := range fl {
			if f.dir {
				mem[f.path] = &fstest.MapFile{Mode: fs.ModeDir | 0o755, ModTime: treeTime}
			} else {
				mem[f.path] = &fstest.MapFile{Data: []byte(f.data), Mode: 0o644, ModTime: treeTime}
			}
		}
		hfs = http.FS(mem)
	case 3:
		hfs = naiveFS{root}
	}
	if m.Fault > 0 {
		hfs = faultFS{hfs, m.Fault}
	}
	o := &water.StaticOptions{Prefix: m.Prefix, IndexFile: string(m.Index), ETag: water.ETagType(m.ETag), FileSystem: hfs}
	if m.Exp != "" {
		o.Expires = m.expires
	}
	r.StaticAdvance(o)
	return r.Handler()
}

// --- F01 ---

type StReq struct {
	Path   S // decoded, below the prefix
	Enc    S // request target
	Method string
	Range  S    `json:",omitempty"`
	H      []KV `json:",omitempty"`
	Cond   int  `json:",omitempty"` // GET and HEAD are compared under a condition
}

type ServeCase struct {
	M    Mount
	Reqs []StReq
	Wire bool
}

func genServeCase(t *T) ServeCase {
	c := ServeCase{M: genMount(t), Wire: t.Chance(1, 10)}
	c.M.ETag = t.N(3)
	if c.M.FS != 0 && t.Chance(1, 20) {
		c.M.Fault = t.Range(1, 2)
	}
	var fl []flatNode
	flatten(c.M.Tree, "", &fl)
	for n := t.Range(1, 4); n > 0; n-- {
		f := fl[t.N(len(fl))]
		p := f.path
		switch t.W(8, 2, 1) {
		case 1: // a missing sibling or child
			p = pick(t, p+"x", path.Join(path.Dir(p), "missing"), p+"/nope", "zz/"+p)
		case 2:
			if c.M.prefix() == "" {
				p, f.dir = "", true
			}
		}
		slash := false
		if f.dir && t.Chance(2, 3) && p == f.path {
			slash = true
		}
		if p == "" {
			slash = false // the prefix is "", the path "/"
		}
		full := c.M.prefix() + "/" + p
		if slash {
			full += "/"
			p += "/"
		}
		q := StReq{Path: S(p), Enc: encPath(t, full), Method: pick(t, "GET", "GET", "HEAD"), H: genNoise(t), Cond: max(0, t.N(16)-8)}
		if t.Chance(1, 4) {
			q.Range = genRange(t, len(f.data))
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

func lookup(ns []TNode, p string) (TNode, bool) {
	if p == "" {
		return TNode{Dir: true, Sub: ns}, true
	}
	seg, rest, more := strings.Cut(p, "/")
	for _, n := range ns {
		if string(n.Name) == seg {
			if !more {
				return n, true
			}
			if !n.Dir {
				return TNode{}, false
			}
			return lookup(n.Sub, rest)
		}
	}
	return TNode{}, false
}

// outside builds what must never be served: neighbours of the mount and the working directory.
func outside(base string, c Mount) (root, hide string) {
	root = filepath.Join(base, "out", "www")
	for _, d := range []string{root, filepath.Join(base, "out", "www-private"), filepath.Join(base, "out", "SECRETDIR"), filepath.Join(base, "cwd"), filepath.Join(base, "empty")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			bug("mkdir: %v", err)
		}
	}
	w := func(p, s string) { os.WriteFile(filepath.Join(base, p), []byte(s), 0o644) }
	w("out/SECRETFILE", "SECRET-1")
	w("out/secret.txt", "SECRET-2")
	w("out/www-private/secret.txt", "SECRET-3")
	w("out/SECRETDIR/index.html", "SECRET-4")
	w("SECRETTOP", "SECRET-5")
	w("cwd/SECRETCWD", "SECRET-6")
	w("cwd/index.html", "SECRET-7")
	var decoy func(dir string, ns []TNode, k int)
	decoy = func(dir string, ns []TNode, k int) { // the same names in the working directory
		for _, n := range ns {
			p := filepath.Join(dir, string(n.Name))
			if n.Dir {
				os.Mkdir(p, 0o755)
				os.WriteFile(filepath.Join(p, "SECRETINCWD"), []byte("SECRET-8"), 0o644)
				decoy(p, n.Sub, k)
			} else {
				os.WriteFile(p, []byte("SECRET-9"), 0o644)
			}
		}
	}
	decoy(filepath.Join(base, "cwd"), c.Tree, 0)
	return root, ""
}

// lure puts something under the name asked for in every directory around the mount.
func lure(base string, m Mount, target S) {
	u, err := url.ParseRequestURI(string(target))
	if err != nil {
		return
	}
	full := u.Path
	for _, p := range []string{full, strings.TrimPrefix(full, m.prefix())} {
		p = strings.TrimPrefix(path.Clean("/"+strings.ReplaceAll(p, "\x00", "")), "/")
		if p == "" {
			continue
		}
		for _, d := range []string{"", "out", "out/www-private", "cwd"} {
			for _, suf := range []string{"", ".html", ".gz"} {
				f := filepath.Join(base, d, p+suf)
				if strings.HasPrefix(f+"/", filepath.Join(base, "out/www")+"/") || strings.HasPrefix(filepath.Join(base, "out/www")+"/", f+"/") || strings.HasPrefix(f+"/", filepath.Join(base, "empty")+"/") {
					continue
				}
				if _, err := os.Lstat(f); err == nil {
					continue
				}
				if os.MkdirAll(filepath.Dir(f), 0o755) == nil {
					os.WriteFile(f, []byte("SECRET-10"), 0o644)
				}
			}
		}
	}
}

// onlyMount removes everything but the mount (and an empty directory) below base.
func onlyMount(base string) {
	for _, d := range []string{"", "out"} {
		es, err := os.ReadDir(filepath.Join(base, d))
		if err != nil {
			bug("%v", err)
		}
		for _, e := range es {
			if n := filepath.Join(d, e.Name()); n != "out" && n != "out/www" && n != "empty" {
				os.RemoveAll(filepath.Join(base, n))
			}
		}
	}
}

func runServeCase(c ServeCase, o *Obs) error {
	base := scratch()
	root, _ := outside(base, c.M)
	writeTree(root, c.M.Tree)
	os.Chdir(filepath.Join(base, "cwd"))
	defer os.Chdir(scratchDir)
	e := c.M.mount(root)
	defer func() { expRound = 0 }()
	for i, q := range c.Reqs {
		expRound = i
		if err := c.one(e, q, o); err != nil {
			return fmt.Errorf("%s %s (%q) range %q: %v", q.Method, q.Enc, c.M.prefix()+"/"+string(q.Path), q.Range, err)
		}
	}
	return nil
}

func (c ServeCase) one(e http.Handler, q StReq, o *Obs) error {
	send := func(method string) (*Resp, error) {
		rq := Req{Method: method, Target: q.Enc, H: slices.Clone(q.H)}
		if q.Range != "" {
			rq.H = append(rq.H, KV{"Range", q.Range})
		}
		return deliver(e, rq, c.Wire)
	}
	resp, err := send(q.Method)
	if err != nil {
		return err
	}
	p := strings.TrimSuffix(string(q.Path), "/")
	slash := strings.HasSuffix(string(q.Path), "/") || (p == "" && c.M.prefix() == "")
	n, ok := lookup(c.M.Tree, p)
	if c.M.Fault > 0 {
		o.Label("failing file system")
		ok = false
	}
	if !ok {
		o.Label("missing")
		o.NT()
		if resp.Status != 404 {
			return fmt.Errorf("status %d for a path naming no file", resp.Status)
		}
		return nil
	}
	if n.Dir && !slash {
		o.Label("dir redirect")
		o.NT()
		loc := resp.Header.Get("Location")
		u, err := url.Parse(loc)
		if resp.Status < 301 || resp.Status > 308 || err != nil || loc == "" {
			return fmt.Errorf("directory without slash: %d Location %q", resp.Status, loc)
		}
		ru, _ := url.ParseRequestURI(string(q.Enc))
		if to := ru.ResolveReference(u); to.Path != ru.Path+"/" || to.Host != "" || to.RawQuery != "" || to.Fragment != "" {
			return fmt.Errorf("directory without slash redirected to %q (path %q), want path %q", loc, to.Path, ru.Path+"/")
		}
		return nil
	}
	if n.Dir {
		idx, have := TNode{}, false
		if c.M.Index != "" {
			idx, have = lookup(n.Sub, string(c.M.Index))
		}
		if !have || idx.Dir {
			o.Label("dir without index")
			if _, ok := lookup(n.Sub, "index.html"); ok || q.Method == "HEAD" || q.Range != "" {
				return nil // not stated; F02 looks at what may be in it
			}
			ks, err := listingEntries(resp)
			if err != nil {
				return err
			}
			if resp.Status != 200 || ks != listingKey(n.Sub) {
				return fmt.Errorf("directory without index: %d with entries %q, want %q", resp.Status, strings.Split(ks, "\x00"), strings.Split(listingKey(n.Sub), "\x00"))
			}
			o.NT()
			return nil
		}
		o.Label("index")
		n = idx
	} else {
		o.Label("file")
	}
	o.NT()
	if q.Cond > 0 {
		if err := c.cond(e, q, o); err != nil {
			return err
		}
	}
	data := string(n.Data)
	from, to, rok, sat := rangeOf(string(q.Range), len(data))
	code, body := 200, data
	if q.Range != "" {
		if len(data) == 0 { // net/http's business
			return nil
		}
		if !rok {
			if resp.Status == 416 {
				return nil
			}
		} else {
			o.Label("range")
			code, body = 206, data[from:to]
			if !sat {
				code = 416
			}
		}
	}
	if resp.Status != code {
		return fmt.Errorf("status %d, want %d", resp.Status, code)
	}
	if code == 416 {
		return nil
	}
	if c.M.Exp != "" && resp.Header.Get("Expires") != c.M.expires() {
		return fmt.Errorf("Expires is %q, configured %q", resp.Header.Get("Expires"), c.M.expires())
	}
	if cl := resp.Header.Get("Content-Length"); cl != fmt.Sprint(len(body)) {
		return fmt.Errorf("Content-Length %q for %d bytes", cl, len(body))
	}
	if q.Method == "HEAD" {
		if len(resp.Body) > 0 {
			return fmt.Errorf("HEAD has a body %q", short(string(resp.Body)))
		}
		get, err := send("GET")
		if err != nil {
			return err
		}
		if get.Status != resp.Status || hdrString(get.Header) != hdrString(resp.Header) {
			return fmt.Errorf("HEAD answers %d %s, GET %d %s", resp.Status, hdrString(resp.Header), get.Status, hdrString(get.Header))
		}
		return nil
	}
	if string(resp.Body) != body {
		return fmt.Errorf("%d bytes %q, want %d bytes %q", len(resp.Body), short(string(resp.Body)), len(body), short(body))
	}
	return nil
}

// cond compares what GET and HEAD answer to the same condition.
func (c ServeCase) cond(e http.Handler, q StReq, o *Obs) error {
	first, err := deliver(e, Req{Method: "GET", Target: q.Enc}, false)
	if err != nil || first.Status != 200 {
		return err
	}
	tag, lm := first.Header.Get("Etag"), first.Header.Get("Last-Modified")
	if tag == "" {
		tag = `"none"`
	}
	if lm == "" {
		lm = "Mon, 02 Jan 2006 15:04:05 GMT"
	}
	h := [][]KV{nil, {{"If-Match", S(tag)}}, {{"If-Match", `"other"`}}, {{"If-None-Match", S(tag)}}, {{"If-None-Match", "*"}}, {{"If-Unmodified-Since", S(lm)}},
		{{"If-Unmodified-Since", "Mon, 02 Jan 2006 15:04:05 GMT"}}, {{"If-Modified-Since", S(lm)}}}[q.Cond]
	var two [2]*Resp
	for i, m := range []string{"GET", "HEAD"} {
		if two[i], err = deliver(e, Req{Method: m, Target: q.Enc, H: h}, false); err != nil {
			return err
		}
	}
	o.Label("condition")
	if two[0].Status != two[1].Status || hdrString(two[0].Header) != hdrString(two[1].Header) || len(two[1].Body) > 0 {
		return fmt.Errorf("%s: HEAD answers %s, GET %s", h, two[1], two[0])
	}
	if two[0].Status == 200 && (string(two[0].Body) != string(first.Body) || hdrString(two[0].Header) != hdrString(first.Header)) {
		return fmt.Errorf("%s: GET answers %s, without condition %s", h, two[0], first)
	}
	return nil
}

// SingleCase is a router of single-file routes.
type SingleCase struct {
	Files []SingleFile
	How   int // StaticFile, or handlers calling File or ServeFile
	Reqs  []SingleReq
	Wire  bool
}

type SingleFile struct {
	Route string
	Name  S
	Data  S
	None  bool `json:",omitempty"` // there is no such file
	Long  int  `json:",omitempty"` // the content begins with Data and is that long
}

type SingleReq struct {
	I      int
	Method string
	Range  S    `json:",omitempty"`
	H      []KV `json:",omitempty"`
}

func genSingle(t *T) SingleCase {
	c := SingleCase{How: t.W(3, 1, 1, 1, 1), Wire: t.Chance(1, 10)}
	routes := []string{"/favicon.ico", "/index.html", "/a/index.html", "/a/b", "/a", "/robots.txt", "/xindex.html", "/d/index.html/x", "/<v>/one", "/é.txt", "/q.htm", "/index.htm", "/a/b/c/d.tar.gz"}
	g := &treeGen{t: t}
	for n := t.Few(1, 4, 12); n > 0; n-- {
		k := t.N(len(routes))
		f := SingleFile{Route: routes[k], Name: S(genEntryName(t, false)), Data: g.data(), None: t.Chance(1, 10)}
		routes = append(routes[:k:k], routes[k+1:]...)
		c.Files = append(c.Files, f)
	}
	for n := t.Range(1, 4); n > 0; n-- {
		q := SingleReq{I: t.N(len(c.Files)), Method: pick(t, "GET", "GET", "HEAD"), H: genNoise(t)}
		if t.Chance(1, 4) {
			q.Range = genRange(t, len(c.Files[q.I].Data))
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

// genSingleHuge has one file of up to many megabytes.
func genSingleHuge(t *T) SingleCase {
	c := genSingle(t)
	f := c.Files[0]
	f.None, f.Long = false, near(t, 18, 26)
	c.Files = []SingleFile{f}
	c.Reqs = c.Reqs[:1]
	c.Reqs[0].I, c.Reqs[0].Range = 0, ""
	if t.Chance(1, 3) {
		c.Reqs[0].Range = genRange(t, f.Long)
	}
	return c
}

func runSingle(c SingleCase, o *Obs) error {
	c.Files = append([]SingleFile(nil), c.Files...)
	base := scratch()
	r := water.NewRouter()
	for i, f := range c.Files {
		dir := filepath.Join(base, fmt.Sprint("single", i))
		if err := os.Mkdir(dir, 0o755); err != nil {
			bug("%v", err)
		}
		p := filepath.Join(dir, string(f.Name))
		if !f.None {
			if f.Long > 0 {
				f.Data = S(longText(string(f.Data), f.Long))
				c.Files[i] = f
			}
			if err := os.WriteFile(p, []byte(f.Data), 0o644); err != nil {
				bug("%v", err)
			}
		}
		switch c.How {
		case 0:
			r.StaticFile(f.Route, p)
		case 1:
			h := func(ctx *water.Context) { ctx.File(p) }
			r.GET(f.Route, h)
			r.HEAD(f.Route, h)
		case 2:
			h := func(ctx *water.Context) { ctx.ServeFile(p) }
			r.GET(f.Route, h)
			r.HEAD(f.Route, h)
		case 3: // a mount that holds this file
			r.Static(fmt.Sprint("/mount", i), dir)
		default:
			r.StaticAdvance(&water.StaticOptions{Prefix: fmt.Sprint("/mount", i), FileSystem: http.Dir(dir), ETag: water.ETagType(i % 3)})
		}
	}
	e := r.Handler()
	for _, q := range c.Reqs {
		f := c.Files[q.I]
		target := (&url.URL{Path: strings.ReplaceAll(f.Route, "<v>", "val")}).EscapedPath()
		if c.How >= 3 {
			target = (&url.URL{Path: fmt.Sprint("/mount", q.I, "/", f.Name)}).EscapedPath()
		}
		rq := Req{Method: q.Method, Target: S(target), H: slices.Clone(q.H)}
		if q.Range != "" {
			rq.H = append(rq.H, KV{"Range", q.Range})
		}
		resp, err := deliver(e, rq, c.Wire)
		if err != nil {
			return err
		}
		fail := func(s string, a ...any) error {
			return fmt.Errorf("%s %s range %q for file %q: %s", q.Method, target, q.Range, f.Name, fmt.Sprintf(s, a...))
		}
		o.NT()
		if f.None {
			o.Label("missing")
			if resp.Status != 404 {
				return fail("status %d, there is no such file", resp.Status)
			}
			continue
		}
		data := string(f.Data)
		from, to, rok, sat := rangeOf(string(q.Range), len(data))
		code, body := 200, data
		if q.Range != "" {
			if len(data) == 0 {
				continue
			}
			if !rok {
				if resp.Status == 416 {
					continue
				}
			} else {
				code, body = 206, data[from:to]
				if !sat {
					code = 416
				}
			}
		}
		if resp.Status != code {
			return fail("status %d Location %q, want %d", resp.Status, resp.Header.Get("Location"), code)
		}
		if code == 416 {
			continue
		}
		o.LabelIf(code == 206, "range")
		o.LabelIf(strings.HasSuffix(f.Route, "/index.html"), "index.html")
		if cl := resp.Header.Get("Content-Length"); cl != fmt.Sprint(len(body)) {
			return fail("Content-Length %q for %d bytes", cl, len(body))
		}
		if q.Method == "HEAD" {
			body = ""
		}
		if string(resp.Body) != body {
			return fail("%d bytes %q, want %d bytes %q", len(resp.Body), short(string(resp.Body)), len(body), short(body))
		}
	}
	return nil
}

// --- F02 ---

type ConfCase struct {
	M    Mount
	Reqs []StReq
	Wire bool
}

func genAttack(t *T, m Mount, fl []flatNode) string {
	var parts []string
	up := func() string {
		return pick(t, "..", "..", "%2e%2e", "%2E.", ".%2e", "%252e%252e", "..%5c", "..\\", "...", ".", "%2e", "..;", "..%00", "")
	}
	for n := t.Few(0, 5, 40); n > 0; n-- {
		switch t.W(4, 2, 1) {
		case 0:
			parts = append(parts, up())
		case 1:
			parts = append(parts, encSeg(t, strings.Split(fl[t.N(len(fl))].path, "/")[0]))
		case 2:
			parts = append(parts, "")
		}
	}
	switch t.W(3, 2, 1, 2) {
	case 3: // nothing of the mount, only of its surroundings
		parts = append(parts, pick(t, "missing.html", "about", "about.html", "a/about.html", "missing.txt", "x.js", "Readme", "sub/missing.html"))
	case 0:
		parts = append(parts, pick(t, "SECRETFILE", "secret.txt", "SECRETDIR", "SECRETDIR/", "www-private/secret.txt", "SECRETTOP", "out/SECRETFILE", "SECRETCWD", "cwd/SECRETCWD", "www-private", "out", "", "www/a", "index.html"))
	case 1:
		parts = append(parts, encSeg(t, fl[t.N(len(fl))].path))
	case 2:
		parts = append(parts, up())
	}
	sep := pick(t, "/", "/", "/", "%2f", "%2F", "//", "%5c")
	pre := m.prefix()
	if t.Chance(1, 6) {
		pre += pick(t, "/", "%2f", "/.", "/..")
	}
	s := pre + pick(t, "/", "/", "//", "/%2f", "/./") + strings.Join(parts, sep)
	if t.Chance(1, 8) {
		s += "/"
	}
	return s
}

func encSeg(t *T, s string) string { return string(encPath(t, s)) }

func genConf(t *T) ConfCase {
	c := ConfCase{M: genMount(t), Wire: t.Chance(1, 12)}
	c.M.ETag = t.N(3)
	var fl []flatNode
	flatten(c.M.Tree, "", &fl)
	for n := t.Range(1, 5); n > 0; n-- {
		q := StReq{Enc: S(genAttack(t, c.M, fl)), Method: pick(t, "GET", "GET", "GET", "HEAD"), H: genNoise(t)}
		if t.Chance(1, 8) {
			q.Range = genRange(t, 5)
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

var hrefRe = regexp.MustCompile(`<a href="([^"]*)">`)

func runConf(c ConfCase, o *Obs) error {
	base := scratch()
	root, _ := outside(base, c.M)
	writeTree(root, c.M.Tree)
	defer os.Chdir(scratchDir)
	e := c.M.mount(root)
	var fl []flatNode
	flatten(c.M.Tree, "", &fl)
	listings := map[string]bool{listingKey(c.M.Tree): true}
	for _, f := range fl {
		if f.dir {
			listings[listingKey(f.node.Sub)] = true
		}
	}
	ask := func(q StReq) (*Resp, error) {
		rq := Req{Method: q.Method, Target: q.Enc, H: slices.Clone(q.H)}
		if q.Range != "" {
			rq.H = append(rq.H, KV{"Range", q.Range})
		}
		return deliver(e, rq, c.Wire)
	}
	var first []string
	for _, q := range c.Reqs {
		lure(base, c.M, q.Enc)
	}
	os.Chdir(filepath.Join(base, "cwd"))
	for _, q := range c.Reqs {
		if _, err := (Req{Method: q.Method, Target: q.Enc}).http(); err != nil {
			first = append(first, "")
			continue // no request at all
		}
		resp, err := ask(q)
		if err != nil {
			return fmt.Errorf("%s %s: %v", q.Method, q.Enc, err)
		}
		if strings.Contains(string(q.Enc), "..") || strings.Contains(strings.ToLower(string(q.Enc)), "%2e") || strings.Contains(string(q.Enc), "//") {
			o.NT()
		}
		o.Label(fmt.Sprintf("status %d", resp.Status))
		first = append(first, resp.String())
		if strings.Contains(string(resp.Body), "SECRET") {
			return fmt.Errorf("%s %s: leaves the mount: %s", q.Method, q.Enc, resp)
		}
		if resp.Status == 200 && q.Method == "GET" {
			if err := c.fromMount(resp, fl, listings); err != nil {
				return fmt.Errorf("%s %s: %v", q.Method, q.Enc, err)
			}
		}
	}
	// the same again with nothing outside and another working directory: nothing may change
	os.Chdir(filepath.Join(base, "empty"))
	onlyMount(base)
	for i, q := range c.Reqs {
		if first[i] == "" {
			continue
		}
		resp, err := ask(q)
		if err != nil {
			return fmt.Errorf("%s %s: %v", q.Method, q.Enc, err)
		}
		if resp.String() != first[i] {
			return fmt.Errorf("%s %s depends on what is outside the mount: %s with, %s without", q.Method, q.Enc, first[i], resp)
		}
	}
	return nil
}

func listingKey(ns []TNode) string {
	var ks []string
	for _, n := range ns {
		k := string(n.Name)
		if n.Dir {
			k += "/"
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\x00")
}

// listingEntries are the entries a listing links to, as listingKey gives them.
func listingEntries(resp *Resp) (string, error) {
	var ks []string
	for _, m := range hrefRe.FindAllStringSubmatch(string(resp.Body), -1) {
		s := strings.TrimPrefix(unescapeHTML(m[1]), "./")
		u, err := url.PathUnescape(s)
		if err != nil {
			return "", fmt.Errorf("listing entry %q", m[1])
		}
		ks = append(ks, u)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\x00"), nil
}

func (c ConfCase) fromMount(resp *Resp, fl []flatNode, listings map[string]bool) error {
	for _, f := range fl {
		if !f.dir && f.data == string(resp.Body) {
			return nil
		}
	}
	if strings.Contains(string(resp.Body), "<pre>") {
		ks, err := listingEntries(resp)
		if err != nil {
			return err
		}
		if listings[ks] {
			return nil
		}
		return fmt.Errorf("a listing of no directory of the mount: %q", short(string(resp.Body)))
	}
	return fmt.Errorf("200 with content of no file of the mount: %q", short(string(resp.Body)))
}

// --- F03 ---

type TagStep struct {
	Op   string // get, reval, write, touch, other
	DM   int    // change of the modification time (seconds)
	DS   int    // change of the size
	NS   int    // nanoseconds within the second
	Form int    // form of If-None-Match
	IMS  bool
	At   int `json:",omitempty"` // which time If-Modified-Since gives: 0 later, 1 that of the file, 2 earlier, 3 none that can be read
	Head bool
}

type TagCase struct {
	Type  int
	Adv   bool
	Name  S
	Other S
	MT    int64
	Size  int
	Steps []TagStep
	Wire  bool
	Mem   bool
	H     []KV `json:",omitempty"`
}

func genTag(t *T) TagCase {
	c := TagCase{Type: t.W(1, 4, 4), Name: S(pick(t, "a.txt", "b", "é x", "index.html", "a-b", "-", "q\"uote")), Other: "other.txt",
		MT: pick(t, int64(1), 0x11, 0x111, 1700000000, 1, 0x1111, 86400, 1<<31-1, 1<<32+5, 4000000000), Size: pick(t, 1, 0x11, 0x111, 0, 5, 100), Wire: t.Chance(1, 12)}
	if t.Chance(1, 12) {
		c.Size = pick(t, 1000, 0x1000, 0x10001, 0x11111, 300000)
	}
	c.H = genNoise(t)
	big := 0
	for n := t.Range(2, 8); n > 0; n-- {
		s := TagStep{Op: pick(t, "reval", "reval", "change", "change", "same", "other"), Form: t.N(4), IMS: t.Chance(2, 3), At: t.W(2, 3, 1, 1), Head: t.Chance(1, 4)}
		switch t.W(3, 2, 2, 2) {
		case 0:
			s.DM = pick(t, 1, -1, 0x10, 0x100, 3600, -0x10)
		case 1:
			s.DS = pick(t, 1, -1, 0x10, 0x100)
		case 2:
			s.DM = pick(t, 1, -1, 2)
			s.DS = -s.DM
		case 3:
			s.DM, s.DS = pick(t, 0x10, 0x100, -0x10), pick(t, -0x10, 0x10, -0x100, 0x100)
		}
		if t.Chance(1, 5) { // far apart, alike in their low digits
			s.DM, s.DS = 0, 0
			if t.Chance(3, 4) || big > 1 {
				s.DM = pick(t, 0x10000, 0x1000000, 1<<31, 1<<32, -0x10000, 1000000000)
			} else {
				s.DS = pick(t, 0x10000, 0x100, 0x1000, 0x10000, 1000000, 0x20000)
				big++
			}
		}
		s.NS = t.N(1000000000)
		c.Steps = append(c.Steps, s)
	}
	return c
}

var etagRe = regexp.MustCompile(`^(W/)?"[!#-~]*"$`)

func runTag(c TagCase, o *Obs) error {
	dir := scratch()
	p := filepath.Join(dir, string(c.Name))
	gen := 0
	mt, size := c.MT, c.Size
	content := ""
	write := func(ns int) {
		gen++
		content = strings.Repeat(fmt.Sprintf("%d.", gen), size/2+1)[:size]
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			bug("write: %v", err)
		}
		tm := time.Unix(mt, int64(ns))
		os.Chtimes(p, tm, tm)
		if c.Other != "" { // a twin of the same size and time under another name
			os.WriteFile(filepath.Join(dir, string(c.Other)), []byte(content), 0o644)
			os.Chtimes(filepath.Join(dir, string(c.Other)), tm, tm)
		}
	}
	write(0)
	r := water.NewRouter()
	r.StaticAdvance(&water.StaticOptions{Prefix: "/f", FileSystem: http.Dir(dir), ETag: water.ETagType(c.Type)})
	e := r.Handler()
	target := func(name string) S { return S("/f/" + (&url.URL{Path: name}).EscapedPath()) }
	get := func(name, inm, ims string, head bool) (*Resp, error) {
		q := Req{Method: "GET", Target: target(name), H: slices.Clone(c.H)}
		if head {
			q.Method = "HEAD"
		}
		if inm != "" {
			q.H = append(q.H, KV{"If-None-Match", S(inm)})
		}
		if ims != "" {
			q.H = append(q.H, KV{"If-Modified-Since", S(ims)})
		}
		return deliver(e, q, c.Wire)
	}
	type state struct {
		mt   int64
		size int
	}
	tags := map[string]state{}
	fresh := func(name string) (string, error) {
		resp, err := get(name, "", "", false)
		if err != nil {
			return "", err
		}
		if resp.Status != 200 || string(resp.Body) != content {
			return "", fmt.Errorf("GET: %s", resp)
		}
		tag := resp.Header.Get("Etag")
		if c.Type == 0 {
			if tag != "" || len(resp.Header["Etag"]) > 0 {
				return "", fmt.Errorf("ETags are disabled and the answer has %q", tag)
			}
			return "", nil
		}
		if !etagRe.MatchString(tag) {
			return "", fmt.Errorf("ETag %q is not an entity-tag", tag)
		}
		return tag, nil
	}
	tag, err := fresh(string(c.Name))
	if err != nil {
		return err
	}
	cur := state{mt, size}
	tags[tag] = cur
	form := func(tag string, k int) string {
		switch k {
		case 1:
			return `"zzz", ` + tag
		case 2:
			return "W/" + strings.TrimPrefix(tag, "W/")
		case 3:
			return tag + `, "other"`
		}
		return tag
	}
	// every known tag, given the current state
	check := func(s TagStep) error {
		ks := make([]string, 0, len(tags))
		for k := range tags {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, tg := range ks {
			st := tags[tg]
			ims := ""
			if s.IMS {
				ims = time.Unix(mt+[]int64{3600, 0, -3600, 0}[s.At], 0).UTC().Format(http.TimeFormat)
				if s.At == 3 {
					ims = "yesterday"
				}
			}
			f := s.Form
			resp, err := get(string(c.Name), form(tg, f), ims, s.Head)
			if err != nil {
				return err
			}
			if st == cur {
				o.Label("revalidated")
				if resp.Status != 304 || len(resp.Body) > 0 {
					return fmt.Errorf("unchanged file (mtime %d size %d) with If-None-Match %s: %s", mt, size, form(tg, f), resp)
				}
				continue
			}
			o.Label("changed")
			if resp.Status != 200 || (!s.Head && string(resp.Body) != content) {
				return fmt.Errorf("the tag %s of (mtime %d size %d) was presented for (mtime %d size %d): %s", tg, st.mt, st.size, mt, size, resp)
			}
			if now := resp.Header.Get("Etag"); now == tg {
				return fmt.Errorf("the tag %s stands for (mtime %d size %d) and (mtime %d size %d)", tg, st.mt, st.size, mt, size)
			}
		}
		return nil
	}
	for i, s := range c.Steps {
		if c.Type == 0 {
			if s.Op == "change" {
				mt, size = mt+int64(s.DM), max(0, size+s.DS)
				write(s.NS)
			}
			if _, err := fresh(string(c.Name)); err != nil {
				return fmt.Errorf("step %d: %v", i, err)
			}
			resp, err := get(string(c.Name), `"x"`, "", s.Head)
			if err != nil || resp.Status != 200 {
				return fmt.Errorf("step %d: ETags disabled, If-None-Match answered %v %v", i, resp, err)
			}
			continue
		}
		o.NT()
		switch s.Op {
		case "change":
			mt, size = mt+int64(s.DM), max(0, size+s.DS)
			if mt <= 0 {
				mt = 1
			}
			mt = min(mt, 1<<33+100) // within what file systems and os.Chtimes can hold
			write(s.NS)
			cur = state{mt, size}
		case "same": // new content, same size and second
			write(s.NS)
		case "other":
			tg, err := fresh(string(c.Other))
			if err != nil {
				return fmt.Errorf("step %d: %v", i, err)
			}
			if c.Type == water.ETagType2 && string(c.Other) != string(c.Name) {
				resp, err := get(string(c.Name), tg, "", false)
				if err != nil || resp.Status != 200 {
					return fmt.Errorf("step %d: the tag of %q validates %q: %v %v", i, c.Other, c.Name, resp, err)
				}
			}
			continue
		}
		tg, err := fresh(string(c.Name))
		if err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		if st, have := tags[tg]; have && st != cur {
			return fmt.Errorf("step %d: the tag %s stands for (mtime %d size %d) and (mtime %d size %d)", i, tg, st.mt, st.size, mt, size)
		}
		tags[tg] = cur
		if err := check(s); err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
	}
	return nil
}

// AgeCase: files written just now keep their tags when they are no longer new.
type AgeCase struct {
	Names []S
	Back  []int // how long ago each was changed (milliseconds)
	Type  int
}

func genAge(t *T) AgeCase {
	c := AgeCase{Type: t.W(1, 1) + 1}
	for i := t.Range(4, 8); i > 0; i-- {
		c.Names = append(c.Names, S(fmt.Sprintf("f%d.txt", i)))
		c.Back = append(c.Back, pick(t, 0, 0, 500, 1000, 8500, 9500, 58500, -1500))
	}
	return c
}

func runAge(c AgeCase, o *Obs) error {
	dir := scratch()
	for i, n := range c.Names {
		p := filepath.Join(dir, string(n))
		if err := os.WriteFile(p, []byte(n), 0o644); err != nil {
			bug("write: %v", err)
		}
		tm := time.Now().Add(-time.Duration(c.Back[i]) * time.Millisecond)
		os.Chtimes(p, tm, tm)
	}
	r := water.NewRouter()
	r.StaticAdvance(&water.StaticOptions{Prefix: "/f", FileSystem: http.Dir(dir), ETag: water.ETagType(c.Type)})
	e := r.Handler()
	tags := make([]string, len(c.Names))
	look := func(when string) error {
		for i, n := range c.Names {
			q := Req{Method: "GET", Target: "/f/" + n}
			resp, err := deliver(e, q, false)
			if err != nil || resp.Status != 200 {
				return fmt.Errorf("%s: GET: %v %v", when, resp, err)
			}
			tag := resp.Header.Get("Etag")
			if tags[i] == "" {
				tags[i] = tag
			}
			q.H = append(q.H, KV{"If-None-Match", S(tags[i])})
			if resp, err = deliver(e, q, false); err != nil || resp.Status != 304 || tag != tags[i] {
				return fmt.Errorf("%s: unchanged %s (changed %d ms before its first request) with the tag %s, now %s: %v %v", when, n, c.Back[i], tags[i], tag, resp, err)
			}
		}
		o.NT()
		return nil
	}
	if err := look("at first"); err != nil {
		return err
	}
	time.Sleep(1200 * time.Millisecond)
	if err := look("1.2 s later"); err != nil {
		return err
	}
	time.Sleep(1900 * time.Millisecond)
	return look("3.1 s later")
}

var _ = io.EOF

func init() {
	register(&Property{ID: "F01", Families: []*Family{
		fam("serve", 6000, "a file, an index, a directory redirect or a missing name is asked for", genServeCase, runServeCase),
		fam("single", 2000, "routes serving one file each; every request is non-trivial", genSingle, runSingle),
		huge(fam("huge", 12, "a single file of 256 KiB to 64 MiB and more; all are non-trivial", genSingleHuge, runSingle)),
	}, Assume: []string{"the mount's own root under a prefix (\"/f\", \"/f/\") is not routed to the mount and not looked at", "no symbolic links in the mount"}})
	register(&Property{ID: "F02", Families: []*Family{
		fam("confine", 6000, "the request path has dot segments or empty segments, encoded or not", genConf, runConf),
	}, Assume: []string{"no symbolic links in the mount"}})
	register(&Property{ID: "F03", Families: []*Family{
		fam("etags", 5000, "tags enabled and revalidated", genTag, runTag),
		huge(fam("aging", 1, "files changed within the last minute are served, and revalidated right away, 1.2 s and 3.1 s later; all are non-trivial", genAge, runAge)),
	}})
}
