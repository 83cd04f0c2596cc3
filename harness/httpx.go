package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/meilihao/logx"
	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// KV is one header line or form pair.
type KV struct{ K, V S }

// Req is one request as a client sends it.
type Req struct {
	Method string
	Target S      // request target as on the wire
	Proto  string `json:",omitempty"` // default HTTP/1.1
	H      []KV   `json:",omitempty"`
	Body   S      `json:",omitempty"`
	Remote string `json:",omitempty"`
	TLS    bool   `json:",omitempty"`
	NoBody bool   `json:",omitempty"` // Body nil rather than empty
}

func (q Req) raw() []byte {
	var b bytes.Buffer
	proto := q.Proto
	if proto == "" {
		proto = "HTTP/1.1"
	}
	host := S("example.com")
	for _, h := range q.H {
		if h.K == "Host" {
			host = h.V
		}
	}
	fmt.Fprintf(&b, "%s %s %s\r\nHost: %s\r\n", q.Method, string(q.Target), proto, string(host))
	for _, h := range q.H {
		if h.K == "Host" {
			continue
		}
		fmt.Fprintf(&b, "%s: %s\r\n", string(h.K), string(h.V))
	}
	if len(q.Body) > 0 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(q.Body))
	}
	b.WriteString("\r\n")
	b.WriteString(string(q.Body))
	return b.Bytes()
}

// http parses the request the way a server does.
func (q Req) http() (*http.Request, error) {
	r, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(q.raw())))
	if err != nil {
		return nil, err
	}
	r.RemoteAddr = q.Remote
	if r.RemoteAddr == "" {
		r.RemoteAddr = "192.0.2.1:1234"
	}
	if q.TLS {
		r.TLS = &tls.ConnectionState{Version: tls.VersionTLS12, HandshakeComplete: true}
	}
	if q.NoBody {
		r.Body = nil
	}
	return r, nil
}

func (q Req) must() *http.Request {
	r, err := q.http()
	if err != nil {
		bug("request %q: %v", string(q.raw()), err)
	}
	return r
}

// Rec is a strict ResponseWriter: it records every WriteHeader call, the headers as they were
// when the status was sent, and the body.
type Rec struct {
	hdr      http.Header
	Codes    []int
	Early    []int // informational statuses sent before the response
	Implicit bool  // the status was sent by a Write
	Snap     http.Header
	Body     []byte
	Writes   int
	hook     func() // called before every WriteHeader and Write
}

func newRec() *Rec { return &Rec{hdr: http.Header{}} }

func (r *Rec) Header() http.Header { return r.hdr }
func (r *Rec) WriteHeader(code int) {
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code)) // as net/http does
	}
	if r.hook != nil {
		r.hook()
	}
	if code < 200 && code != 101 && len(r.Codes) == 0 { // as net/http does
		r.Early = append(r.Early, code)
		return
	}
	r.Codes = append(r.Codes, code)
	if len(r.Codes) == 1 {
		r.Snap = r.hdr.Clone()
	}
}
func (r *Rec) Write(b []byte) (int, error) {
	if len(r.Codes) == 0 {
		r.Implicit = true
		r.WriteHeader(200)
	}
	if r.hook != nil {
		r.hook()
	}
	r.Writes++
	r.Body = append(r.Body, b...)
	return len(b), nil
}

// Status is what the client gets.
func (r *Rec) Status() int {
	if len(r.Codes) == 0 {
		return 200
	}
	return r.Codes[0]
}

// Headers is what the client gets (without those net/http adds).
func (r *Rec) Headers() http.Header {
	if len(r.Codes) == 0 {
		return r.hdr
	}
	return r.Snap
}

func (r *Rec) dump() string {
	return fmt.Sprintf("codes=%v headers=%s body=%q", r.Codes, hdrString(r.Headers()), short(string(r.Body)))
}

func hdrString(h http.Header) string {
	ks := make([]string, 0, len(h))
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q;", k, h[k])
	}
	return b.String()
}

func short(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%s...(%d bytes)", s[:400], len(s))
	}
	return s
}

// serve runs the handler; a panic is returned.
func serve(h http.Handler, r *http.Request) (rec *Rec, pan any) {
	rec = newRec()
	return rec, serveTo(h, rec, r)
}

func serveTo(h http.Handler, rec *Rec, r *http.Request) (pan any) {
	defer func() {
		if v := recover(); v != nil {
			if he, ok := v.(harnessError); ok {
				panic(he)
			}
			pan = v
			if v == nil {
				pan = "nil"
			}
		}
	}()
	h.ServeHTTP(rec, r)
	return
}

// mustServe fails on a panic.
func mustServe(h http.Handler, r *http.Request) (*Rec, error) {
	rec, pan := serve(h, r)
	if pan != nil {
		return rec, fmt.Errorf("ServeHTTP panicked: %v", pan)
	}
	return rec, nil
}

// --- wire: a real net/http server on an in-memory connection ---

type oneListener struct {
	ch   chan net.Conn
	once sync.Once
	done chan struct{}
}

func (l *oneListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *oneListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *oneListener) Addr() net.Addr { return dummyAddr{} }

type dummyAddr struct{}

func (dummyAddr) Network() string { return "tcp" }
func (dummyAddr) String() string  { return "192.0.2.1:1234" }

type addrConn struct {
	net.Conn
}

func (addrConn) RemoteAddr() net.Addr { return dummyAddr{} }

// wire sends raw bytes to a server with the handler and returns all it answers, and its error log.
func wire(h http.Handler, raw []byte) (resp []byte, errlog string) {
	var lb lockedBuf
	srv := &http.Server{Handler: h, ErrorLog: log.New(&lb, "", 0), DisableGeneralOptionsHandler: true}
	l := &oneListener{ch: make(chan net.Conn, 1), done: make(chan struct{})}
	a, b := net.Pipe()
	l.ch <- addrConn{b}
	go srv.Serve(l)
	go func() {
		a.Write(raw)
	}()
	resp, _ = io.ReadAll(a)
	a.Close()
	srv.Close()
	l.Close()
	return resp, lb.String()
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// WireResp is a parsed response.
type WireResp struct {
	Status int
	Header http.Header
	Body   []byte
}

// wireReq sends one request and parses the answer.
func wireReq(h http.Handler, q Req) (*WireResp, error) {
	q.H = append(append([]KV{}, q.H...), KV{"Connection", "close"})
	raw, elog := wire(h, q.raw())
	if strings.Contains(elog, "panic serving") {
		return nil, fmt.Errorf("handler panicked on the wire: %s", short(elog))
	}
	br := bufio.NewReader(bytes.NewReader(raw))
	resp, err := http.ReadResponse(br, &http.Request{Method: q.Method})
	for err == nil && resp.StatusCode < 200 && resp.StatusCode != 101 { // informational
		resp, err = http.ReadResponse(br, &http.Request{Method: q.Method})
	}
	if err != nil {
		return nil, fmt.Errorf("unreadable response %q: %v", short(string(raw)), err)
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Errorf("unreadable response body of %q: %v", short(string(raw)), err)
	}
	return &WireResp{resp.StatusCode, resp.Header, body}, nil
}

// --- globals of the code under test ---

var quiet = logx.NewLogger()

func silenceLogs() { logx.SetOutput(quiet) }

// captureLogs runs f and returns what it logged.
func captureLogs(f func()) string {
	path := filepath.Join(scratchDir, "log.txt")
	file, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o644)
	if err != nil {
		bug("log file: %v", err)
	}
	old := os.Stdout
	os.Stdout = file
	l := logx.NewLogger()
	l.AddLogger(logx.AdapterConsole)
	os.Stdout = old
	logx.SetOutput(l)
	defer func() {
		logx.SetOutput(quiet)
		file.Close()
	}()
	f()
	b, _ := os.ReadFile(path)
	return string(b)
}

// captureStdout runs f and returns what it printed.
func captureStdout(f func()) string {
	path := filepath.Join(scratchDir, "stdout.txt")
	file, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o644)
	if err != nil {
		bug("stdout file: %v", err)
	}
	old := os.Stdout
	os.Stdout = file
	defer func() { os.Stdout = old; file.Close() }()
	f()
	b, _ := os.ReadFile(path)
	return string(b)
}

var defaultValidator = binding.Validator

// resetGlobals puts the package-level settings back to their defaults.
func resetGlobals() {
	water.Status = water.Dev
	water.LogClose = false
	water.LogColor = true
	water.LogHttpBody = true
	water.MethodAnyExclude = []string{http.MethodHead, http.MethodOptions}
	binding.Validator = defaultValidator
}

// --- targets ---

const unreserved = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~"

// encPath percent-encodes a decoded path; chooses per byte whether an unreserved byte is encoded too.
func encPath(t *T, p string) S {
	extra := t.Chance(1, 4)
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		plain := strings.IndexByte(unreserved+"/!$&'()*+,;=:@", c) >= 0
		if plain && extra && c != '/' && t.Chance(1, 4) {
			plain = false
		}
		if plain {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return S(b.String())
}

func encQuery(kvs []KV) string {
	var b strings.Builder
	for i, kv := range kvs {
		if i > 0 {
			b.WriteByte('&')
		}
		b.WriteString(url.QueryEscape(string(kv.K)))
		b.WriteByte('=')
		b.WriteString(url.QueryEscape(string(kv.V)))
	}
	return b.String()
}

// errReader yields data and then an error, in chunks.
type errReader struct {
	data    []byte
	chunk   int
	err     error // io.EOF for none
	closed  bool
	withEOF bool // deliver the error together with the last bytes
}

func (r *errReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.withEOF {
		return n, r.err
	}
	return n, nil
}
func (r *errReader) Close() error { r.closed = true; return nil }

var errBody = errors.New("wcheck: body failed")

var noises = [][]string{
	{"Accept-Encoding", "gzip", "gzip, deflate, br, zstd", "*", "identity;q=0", "br"},
	{"Accept", "*/*", "text/html,application/xhtml+xml;q=0.9,image/webp,*/*;q=0.8", "application/json", "image/avif"},
	{"Accept-Language", "de", "en-US,en;q=0.5", "zh-CN"},
	{"Host", "localhost", "a.example.com:8080", "[::1]:80", "xn--4ca.example", "other.test"},
	{"User-Agent", "curl/8.0", "Mozilla/5.0 (compatible; Googlebot/2.1)", "Go-http-client/1.1", "kube-probe/1.29"},
	{"X-HTTP-Method-Override", "DELETE", "PUT", "GET", "POST"}, {"X-Method-Override", "PATCH"}, {"X-HTTP-Method", "HEAD"},
	{"X-Original-URL", "/../secret.txt", "/a", "/"}, {"X-Rewrite-URL", "/secret.txt", "/a"}, {"X-Forwarded-Prefix", "/f", "/a"},
	{"X-Forwarded-Proto", "https", "http"}, {"X-Forwarded-Host", "evil.test"}, {"X-Forwarded-For", "10.0.0.1, 10.0.0.2"},
	{"Origin", "http://evil.test", "null"}, {"Referer", "http://example.com/a"}, {"Cookie", "sid=1; lang=de", "a=b"},
	{"Authorization", "Basic YTpi", "Bearer x"}, {"Cache-Control", "no-cache", "max-age=0", "only-if-cached"}, {"Pragma", "no-cache"},
	{"X-Requested-With", "XMLHttpRequest"}, {"Upgrade-Insecure-Requests", "1"}, {"Sec-Fetch-Mode", "cors", "navigate"}, {"Save-Data", "on"}, {"DNT", "1"}, {"TE", "trailers"},
	{"Connection", "keep-alive"}, {"Purpose", "prefetch"}, {"Want-Digest", "sha-256"}, {"If-Match", "*"}, {"X-Debug", "1"}, {"Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"},
}

// genNoise are headers that are none of the library's business where they are sent.
func genNoise(t *T) (out []KV) {
	seen := map[string]bool{}
	for n := t.W(3, 2, 1, 1); n > 0; n-- {
		x := noises[t.N(len(noises))]
		if !seen[x[0]] {
			seen[x[0]] = true
			out = append(out, KV{S(x[0]), S(x[1+t.N(len(x)-1)])})
		}
	}
	return
}
