package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// --- a feature-rich application whose handlers follow a script that comes with the request ---

// Act is one step of a scripted handler.
type Act struct {
	Op  string
	K   S       `json:",omitempty"`
	V   S       `json:",omitempty"`
	N   int     `json:",omitempty"`
	Sub *ActReq `json:",omitempty"`
}

// ActReq is a request with the script of the handlers it reaches.
type ActReq struct {
	Req  Req
	Acts [][]Act // per position in the chain
	// what happens while the response is written and the body is read
	WY   bool    `json:",omitempty"` // others run
	WSub *ActReq `json:",omitempty"` // another request is served, once
	BY   bool    `json:",omitempty"`
	BSub *ActReq `json:",omitempty"`
}

type AppOpt struct {
	Static, Recovery, NoFound, Before, Logger bool
	Bare                                      bool // chains of a single handler
	Mem                                       int64
}

type runState struct {
	req    *ActReq
	trace  []string
	nested bool // execute nested requests
	pos    int
	engine http.Handler
	yield  func()
	subs   []subRun
	r      *http.Request
	wDone  bool
	bDone  bool
}

type subRun struct {
	req *ActReq
	out string
}

type runKey struct{}

type bindTarget struct {
	A   string   `form:"a" json:"a"`
	N   int      `form:"n,default=7" json:"n"`
	L   []string `form:"l" json:"l"`
	F   float64  `form:"f" json:"f"`
	Opt *string  `form:"opt" json:"opt"`
}

func dumpCtx(c *water.Context) string {
	env := map[string]string{}
	for k, v := range c.Environ {
		env[k] = fmt.Sprint(v)
	}
	return fmt.Sprintf("params{%s} env{%s} status=%d written=%v full=%q url=%q method=%s ct=%q ip=%q nilparams=%v nilenv=%v hdr=%s",
		sortedMap(c.Params), sortedMap(env), c.Status(), c.Written(), c.FullPath(), c.Request.URL.String(), c.Request.Method,
		c.ContentType(), c.RealIp(), c.Params == nil, c.Environ == nil, hdrString(c.Header()))
}

type bindTarget2 struct {
	XMLName struct{}       `json:"-" xml:"doc"`
	A       string         `form:"a" json:"a" xml:"a" header:"x-a" binding:"max=6"`
	P       *int           `form:"n" json:"n" xml:"n" header:"x-n"`
	L       []int          `form:"l" json:"l" xml:"l"`
	M       map[string]int `form:"m" json:"m" xml:"-"`
	In      struct {
		K time.Time `form:"k" time_format:"2006-01-02" json:"k" xml:"k"`
		F bool      `form:"f" json:"f" xml:"f"`
	} `json:"in" xml:"in"`
}

func (b bindTarget2) String() string {
	p := "nil"
	if b.P != nil {
		p = fmt.Sprint(*b.P)
	}
	return fmt.Sprintf("%q %s %v %v %v %v", b.A, p, b.L, b.M, b.In.K.Unix(), b.In.F)
}

// slowText is a value that lets others run while it is encoded, and a reader that does while it is read.
type slowText struct {
	st *runState
	s  string
	n  int
}

func (v *slowText) MarshalJSON() ([]byte, error) { v.st.pause(); return json.Marshal(v.s) }
func (v *slowText) MarshalText() ([]byte, error) { v.st.pause(); return []byte(v.s), nil }
func (v *slowText) Read(b []byte) (int, error) {
	v.st.pause()
	if v.n >= len(v.s) {
		return 0, io.EOF
	}
	n := copy(b, v.s[v.n:min(len(v.s), v.n+4)])
	v.n += n
	return n, nil
}

// pause is called from inside framework functions.
func (st *runState) pause() {
	if st.yield != nil && st.req.WY {
		st.yield()
	}
	st.sub(st.req.WSub, &st.wDone)
}

func (st *runState) sub(q *ActReq, done *bool) {
	if q == nil || !st.nested || *done {
		return
	}
	*done = true
	st.subs = append(st.subs, subRun{q, runScript(st.engine, q, true, st.yield)})
}

type hookBody struct {
	io.ReadCloser
	st *runState
}

func (h hookBody) Read(b []byte) (int, error) {
	st := h.st
	if st.yield != nil && st.req.BY {
		st.yield()
	}
	st.sub(st.req.BSub, &st.bDone)
	if len(b) > 7 { // and again after a few bytes
		b = b[:7]
	}
	return h.ReadCloser.Read(b)
}

type scriptPanic struct{ v string }

func (a Act) do(c *water.Context, st *runState) {
	log := func(f string, args ...any) { st.trace = append(st.trace, fmt.Sprintf(f, args...)) }
	guard := func(what string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				log("%s panics: %v", what, r)
			}
		}()
		f()
	}
	switch a.Op {
	case "dump":
		log("%s", dumpCtx(c))
	case "query":
		guard("query", func() {
			log("query %q=%q arr=%q form=%d", a.K, c.Query(string(a.K)), c.QueryArray(string(a.K)), len(c.Request.Form))
		})
	case "map":
		guard("map", func() { log("map %s", sortedMap(c.QueryMap(string(a.K)))) })
	case "set":
		guard("set", func() { c.Set(string(a.K), string(a.V)) })
	case "get":
		v, ok := c.GetMaybe(string(a.K))
		log("get %q=%v %v", a.K, v, ok)
	case "param":
		guard("param", func() { c.Params[string(a.K)] = string(a.V) })
	case "delparam":
		for k := range c.Params {
			delete(c.Params, k)
		}
	case "readparam":
		guard("readparam", func() { log("param %q=%q", a.K, c.Param(string(a.K))) })
	case "next":
		log("next")
		c.Next()
		log("back")
	case "panic":
		panic(string(a.V))
	case "status":
		c.WriteHeader(a.N)
	case "write":
		c.Write([]byte(a.V))
	case "wstr":
		io.WriteString(c, string(a.V))
	case "string":
		c.String(a.N, string(a.V))
	case "json":
		c.JSON(a.N, string(a.V))
	case "header":
		c.SetHeader(string(a.K), string(a.V))
	case "addhdr":
		c.Header().Add(string(a.K), string(a.V))
	case "edithdr": // in place
		for _, v := range c.Header() {
			for i := range v {
				v[i] += string(a.V)
			}
		}
	case "cookie":
		c.SetCookie(string(a.K), string(a.V))
	case "readcookie":
		log("cookie %q=%q", a.K, c.Cookie(string(a.K)))
	case "redirect":
		c.Found("/elsewhere/" + string(a.K))
	case "moved":
		c.MovedPermanently("/gone/" + string(a.K))
	case "xml":
		c.XML(a.N, string(a.V))
	case "xmlslow":
		c.XML(a.N, struct {
			XMLName struct{} `xml:"d"`
			A       string   `xml:"a"`
			B       *slowText
		}{A: string(a.V), B: &slowText{st: st, s: string(a.V)}})
	case "jsonslow":
		c.JSON(a.N, map[string]any{"a": string(a.V), "b": &slowText{st: st, s: string(a.V)}, "c": string(a.K)})
	case "stream":
		log("stream %v", c.Stream("text/"+string(a.K), &slowText{st: st, s: strings.Repeat(string(a.V), a.N%5)}))
	case "data":
		c.Data(a.N, "text/"+string(a.K), []byte(a.V))
	case "htmlraw":
		c.HTMLRaw(a.N, string(a.V))
	case "attach":
		c.Attachment(string(a.K)+".txt", time.Unix(1700000000, 0), strings.NewReader(string(a.V)), a.N%2 == 0)
	case "nocache":
		c.NoCache()
	case "abort":
		c.Abort(a.N)
	case "facts":
		log("facts %s ajax=%v ws=%v ua=%q proxy=%q ip=%q ct=%q handler=%v x=%q", c.Protocol(), c.IsAjax(), c.IsWebsocket(), c.UserAgent(), c.Proxy(), c.RealIp(), c.ContentType(), strings.Contains(c.HandlerName(), "scripted"), c.GetHeader("X-A"))
	case "typed":
		k := string(a.K)
		guard("typed", func() {
			log("typed %d %v %d %g %q %d %q %s", c.QueryInt(k), c.QueryBool(k), c.QueryUint64(k), c.QueryFloat64(k), c.DefaultQuery(k, string(a.V)),
				c.DefaultQueryInt(k, "9"), c.DefaultQueryArray(k, []string{"d"}), sortedMap(c.DefaultQueryMap("m", map[string]string{"d": "e"})))
		})
	case "typedparam":
		k := string(a.K)
		guard("typedparam", func() {
			log("typed param %d %v %g", c.Params.MustInt(k), c.Params.MustBool(k), c.Params.MustFloat64(k))
		})
	case "typedcookie":
		log("cookies %q %d %v %q", c.Cookie("c"), c.CookieInt("c"), c.CookieBool("c"), c.CookieEscape("c"))
	case "binduri":
		var v bindTarget
		m := map[string][]string{}
		for k, x := range c.Params {
			m[k] = []string{x}
		}
		log("binduri %v", binding.Uri.Bind(m, &v))
	case "bind2":
		guard("bind2", func() {
			var v bindTarget2
			bs := []binding.Bindinger{binding.Form, binding.Query, binding.Header, binding.XML, binding.JSON}
			err := c.BindWith(&v, bs[a.N%len(bs)])
			log("bind2 %v err=%v", v, err)
		})
	case "bindlist":
		guard("bindlist", func() {
			var v []bindTarget2
			err := c.BindWith(&v, binding.JSON)
			log("bindlist %v err=%v", v, err)
		})
	case "bindfresh": // a type bound for the first time
		guard("bindfresh", func() {
			ft, at := freshType()
			v := reflect.New(ft)
			var err error
			if a.N%2 == 0 {
				err = c.BindWith(v.Interface(), binding.Form)
				log("at %v", v.Elem().Field(2).Interface().(time.Time).Equal(at))
			} else {
				err = c.BindWith(v.Interface(), binding.JSON)
			}
			log("bindfresh %v err=%v", v.Elem().Field(0).Interface(), err)
		})
	case "handoff": // what was read does not change later
		e := c.Environ
		if e != nil {
			e["keep"] = string(a.V)
		}
	case "body":
		b, err := c.BodyBytes()
		log("body %q %v", b, err)
	case "bind":
		var v bindTarget
		guard("bind", func() {
			err := c.Bind(&v)
			opt := "nil"
			if v.Opt != nil {
				opt = *v.Opt
			}
			log("bind %q %d %q %v %q err=%v", v.A, v.N, v.L, v.F, opt, err)
		})
	case "bindform":
		var v bindTarget
		guard("bindform", func() {
			err := c.BindWith(&v, binding.Form)
			log("bindform %q %d %q %v err=%v", v.A, v.N, v.L, v.F, err)
		})
	case "file":
		guard("file", func() {
			f, h, err := c.FormFile(string(a.K))
			if err != nil {
				log("file error %v", err)
				return
			}
			b, err := io.ReadAll(f)
			f.Close()
			log("file %q %q %v", h.Filename, b, err)
		})
	case "sub":
		st.sub(a.Sub, new(bool)) // the nested requests of the nested one are collected by its own run
	case "yield":
		if st.yield != nil {
			st.yield()
		}
	default:
		bug("unknown act %q", a.Op)
	}
}

func scripted(name string) func(*water.Context) {
	return func(c *water.Context) {
		st, _ := c.Request.Context().Value(runKey{}).(*runState)
		if st == nil {
			bug("handler %s got a request that is not of this run", name)
		}
		pos := st.pos
		st.pos++
		st.trace = append(st.trace, fmt.Sprintf("%d:%s", pos, name))
		if c.Request != st.r {
			st.trace = append(st.trace, "ANOTHER REQUEST")
		}
		if pos < len(st.req.Acts) {
			for _, a := range st.req.Acts[pos] {
				a.do(c, st)
			}
		}
		st.trace = append(st.trace, fmt.Sprintf("%d:end", pos))
	}
}

var appFiles = fstest.MapFS{
	"a.txt":        {Data: []byte("file a"), ModTime: time.Unix(1700000001, 0)},
	"b.html":       {Data: []byte("<p>file b, which is longer</p>"), ModTime: time.Unix(1700000002, 0)},
	"d/index.html": {Data: []byte("index of d"), ModTime: time.Unix(1700000003, 0)},
	"e/x.bin":      {Data: []byte{0, 1, 2, 3}, ModTime: time.Unix(1700000004, 0)},
}

func buildApp(o AppOpt) *water.Engine {
	r := water.NewRouter()
	if o.Logger && o.Recovery && o.Static {
		r = water.Default()
	}
	if o.Before {
		r.Before(scripted("before"))
	}
	if o.Logger && o.Recovery {
		if !o.Static {
			r.Classic()
		}
	} else if o.Logger {
		r.Use(water.Logger())
	} else if o.Recovery {
		r.Use(water.Recovery())
	}
	if !o.Bare {
		r.Use(scripted("mw"))
	}
	r.GET("/", scripted("root"))
	r.ANY("/s/one", scripted("sone"))
	r.GET("/s/two", scripted("stwo"), scripted("stwo2"))
	r.ANY("/p/<a>", scripted("pa"))
	r.ANY("/p/<a>/<b>", scripted("pb"))
	r.ANY("/re/<id ~ ^[0-9]+$>", scripted("re"))
	r.ANY("/re/<name ~ ^([a-z]+)$>/x", scripted("rename"))
	r.GET("/m/*", scripted("m"))
	r.GET("/m/<k>/deep/*", scripted("mdeep"))
	r.StaticAdvance(&water.StaticOptions{Prefix: "/f", FileSystem: http.FS(appFiles), IndexFile: "index.html", ETag: water.ETagType2, Expires: func() string { return "soon" }})
	r.Group("/c", func(s *water.Router) {
		s.Use(water.CORS(water.CORSConfig{AllowOrigins: []string{"http://a.example", "http://b.example"}, AllowCredentials: true, MaxAge: 9}))
		s.ANY("/<z>", scripted("cz"))
		s.OPTIONS("/<z>", scripted("co"))
	})
	r.Group("/g", func(s *water.Router) {
		s.Use(scripted("gmw"))
		s.ANY("/x", scripted("gx"))
		s.POST("/<y>", scripted("gy"))
	})
	var opts []water.Option
	if o.Static {
		opts = append(opts, water.WithStaticRouter(true))
	}
	if o.NoFound {
		hs := []any{scripted("nf"), scripted("nf2")}
		if o.Bare {
			hs = hs[:1]
		}
		opts = append(opts, water.WithNoFoundHandlers(hs...))
	}
	if o.Mem != 0 {
		opts = append(opts, water.WithMaxMultipartMemory(o.Mem))
	}
	return r.Handler(opts...)
}

// runScript serves the request and returns everything observed: the handlers' views and the response.
func runScript(e http.Handler, q *ActReq, nested bool, yield func()) string {
	st := &runState{req: q, nested: nested, engine: e, yield: yield}
	r := q.Req.must()
	r = r.WithContext(context.WithValue(r.Context(), runKey{}, st))
	if r.Body != nil && (q.BY || q.BSub != nil) {
		r.Body = hookBody{r.Body, st}
	}
	st.r = r
	rec := newRec()
	if q.WY || q.WSub != nil {
		rec.hook = st.pause
	}
	pan := serveTo(e, rec, r)
	if r.MultipartForm != nil {
		r.MultipartForm.RemoveAll()
	}
	out := strings.Join(st.trace, "\n") + "\n=> " + rec.dump()
	if pan != nil {
		out += fmt.Sprintf(" PANIC %v", pan)
	}
	if nested {
		for _, s := range st.subs {
			if want := runScript(buildLike(e), s.req, false, nil); want != stripSubs(s.out) {
				out += fmt.Sprintf("\nNESTED REQUEST %s: alone:\n%s\nnested:\n%s", s.req.Req.Target, want, s.out)
			}
		}
	}
	return out
}

func stripSubs(s string) string { return s }

var (
	likeMu sync.Mutex
	likes  = map[http.Handler]AppOpt{}
)

// buildLike builds a fresh engine like e.
func buildLike(e http.Handler) http.Handler {
	likeMu.Lock()
	o := likes[e]
	likeMu.Unlock()
	return buildApp(o)
}

// --- generator ---

var actPaths = []string{"/", "/s/one", "/s/two", "/s/one/", "/p/%s", "/p/%s/%s", "/re/12", "/re/abc/x", "/re/abc", "/m/a/b", "/m/%s", "/m/%s/deep/q", "/g/x", "/g/%s", "/nope", "/nope/%s/x", "/p/", "/s", "/f/a.txt", "/f/b.html", "/f/d/", "/f/d", "/f/e/", "/f/none", "/c/%s", "/c/%s"}

var freshTypes atomic.Int64

var freshLocs = strings.Fields(`Africa/Abidjan Africa/Addis_Ababa Africa/Asmara Africa/Bangui Africa/Bissau Africa/Brazzaville Africa/Cairo Africa/Ceuta Africa/Dakar Africa/Djibouti Africa/El_Aaiun
Africa/Gaborone Africa/Johannesburg Africa/Kampala Africa/Kigali Africa/Lagos Africa/Lome Africa/Lubumbashi Africa/Malabo Africa/Maseru Africa/Mogadishu
Africa/Nairobi Africa/Niamey Africa/Ouagadougou Africa/Timbuktu Africa/Tunis America/Adak America/Anguilla America/Araguaina America/Asuncion America/Atka
America/Bahia_Banderas America/Belem America/Boa_Vista America/Boise America/Campo_Grande America/Caracas America/Cayman America/Chihuahua America/Coral_Harbour
America/Coyhaique America/Cuiaba America/Danmarkshavn America/Dawson_Creek America/Detroit America/Edmonton America/El_Salvador America/Fort_Nelson America/Glace_Bay
America/Grand_Turk America/Guadeloupe America/Guayaquil America/Halifax America/Hermosillo America/Iqaluit America/Juneau America/La_Paz America/Los_Angeles
America/Maceio America/Manaus America/Martinique America/Mazatlan America/Merida America/Mexico_City America/Moncton America/Montevideo America/Montserrat
America/New_York America/Nome America/Nuuk America/Panama America/Paramaribo America/Port_of_Spain America/Porto_Velho America/Punta_Arenas America/Rankin_Inlet
America/Regina America/Rio_Branco America/Santarem America/Santo_Domingo America/Scoresbysund America/Sitka America/St_Johns America/St_Lucia America/St_Vincent
America/Tegucigalpa America/Thunder_Bay America/Toronto America/Vancouver America/Whitehorse America/Yakutat Asia/Aden Asia/Amman Asia/Aqtau Asia/Ashgabat
Asia/Baghdad Asia/Baku Asia/Barnaul Asia/Bishkek Asia/Chita Asia/Chongqing Asia/Damascus Asia/Dili Asia/Dushanbe Asia/Gaza Asia/Hebron Asia/Hong_Kong Asia/Irkutsk
Asia/Jakarta Asia/Jerusalem Asia/Kamchatka Asia/Kashgar Asia/Khandyga Asia/Krasnoyarsk Asia/Kuching Asia/Macau Asia/Makassar Asia/Muscat Asia/Novokuznetsk
Asia/Omsk Asia/Phnom_Penh Asia/Pyongyang Asia/Qostanay Asia/Riyadh Asia/Samarkand Asia/Shanghai Asia/Srednekolymsk Asia/Tashkent Asia/Tehran Asia/Thimphu
Asia/Tomsk Asia/Urumqi Asia/Vladivostok Asia/Yangon Asia/Yerevan Australia/Brisbane Australia/Canberra Australia/Darwin Australia/Hobart Australia/Lord_Howe
Australia/Perth Australia/Yancowinna Europe/Andorra Europe/Athens Europe/Belgrade Europe/Bratislava Europe/Bucharest Europe/Busingen Europe/Copenhagen
Europe/Gibraltar Europe/Helsinki Europe/Istanbul Europe/Kaliningrad Europe/Kyiv Europe/Ljubljana Europe/Luxembourg Europe/Malta Europe/Minsk Europe/Moscow
Europe/Oslo Europe/Podgorica Europe/Riga Europe/Samara Europe/Sarajevo Europe/Simferopol Europe/Sofia Europe/Tallinn Europe/Tiraspol Europe/Vaduz Europe/Vienna
`)

var freshLoaded sync.Map

func freshLoc(name string) *time.Location {
	if l, ok := freshLoaded.Load(name); ok {
		return l.(*time.Location)
	}
	l, err := time.LoadLocation(name)
	if err != nil {
		bug("location %s: %v", name, err)
	}
	freshLoaded.Store(name, l)
	return l
}

// freshType gives a struct type nothing has been bound to yet (while the types last: they are never freed).
func freshType() (reflect.Type, time.Time) {
	n := freshTypes.Add(1) % 3000
	loc, tag := time.Local, ""
	switch n % 7 {
	case 0:
	case 1:
		loc, tag = time.UTC, ` time_utc:"1"`
	default:
		loc = freshLoc(freshLocs[n%int64(len(freshLocs))])
		tag = fmt.Sprintf(` time_location:"%s"`, loc)
	}
	return reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf([]string(nil)), Tag: `form:"a" json:"a" binding:"omitempty,min=1"`},
		{Name: "Z", Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`form:"z%d,default=%d" json:"z%d" binding:"max=%d"`, n, n, n, 20+n))},
		{Name: "T", Type: reflect.TypeOf(time.Time{}), Tag: reflect.StructTag(fmt.Sprintf(`form:"t%d,default=2021-03-%02d %02d:00" json:"t%d" time_format:"2006-01-02 15:04"%s`, n, n%9+1, n%24, n, tag))},
	}), time.Date(2021, 3, int(n%9)+1, int(n%24), 0, 0, 0, loc)
}

type actGen struct {
	t     *T
	depth int
	yield bool
	n     int
}

func (g *actGen) word() string {
	return pick(g.t, "a", "b", "zz", "42", "é", "x y", "%", "&=", "")
}

func (g *actGen) acts(pos int) []Act {
	t := g.t
	var out []Act
	ended, nexted := false, false
	for n := t.Range(0, 5); n > 0 && !ended; n-- {
		k := pick(t, "a", "n", "l", "f", "k")
		switch t.W(6, 3, 3, 2, 2, 2, 2, 3, 2, 1, 2, 2, 1, 2, 1, 1, 2, 2, 1, 1, 1, 3, 3, 5, 5) {
		case 0:
			out = append(out, Act{Op: "dump"})
		case 1:
			out = append(out, Act{Op: "query", K: S(k)})
		case 2:
			out = append(out, Act{Op: "set", K: S(k), V: S(g.word())})
		case 3:
			out = append(out, Act{Op: "get", K: S(k)})
		case 4:
			out = append(out, Act{Op: "param", K: S(pick(t, "a", "b", "*0", "id", "z")), V: S(g.word())})
		case 5:
			out = append(out, Act{Op: "delparam"})
		case 6:
			out = append(out, Act{Op: "readparam", K: S(pick(t, "a", "b", "*0", "id", "name", "y"))})
		case 7:
			if !nexted {
				nexted = true
				out = append(out, Act{Op: "next"})
			}
		case 8:
			out = append(out, Act{Op: "panic", V: S(g.word())})
			ended = true
		case 9:
			out = append(out, Act{Op: "status", N: pick(t, 200, 201, 204, 404, 500)})
		case 10:
			out = append(out, Act{Op: pick(t, "write", "write", "wstr"), V: S(g.word())})
		case 11:
			out = append(out, Act{Op: "string", N: pick(t, 200, 418), V: S(g.word())})
		case 12:
			out = append(out, Act{Op: "json", N: 200, V: S(g.word())})
		case 13:
			out = append(out, Act{Op: pick(t, "header", "header", "addhdr", "edithdr"), K: S(pick(t, "X-A", "X-B", "Content-Type", "Cache-Control", "Expires", "Vary", "Set-Cookie")), V: S(pick(t, "v1", "v2", "text/x"))})
		case 14:
			out = append(out, Act{Op: "cookie", K: "c", V: S(k)})
		case 15:
			out = append(out, Act{Op: pick(t, "redirect", "moved"), K: S(k)})
		case 16:
			out = append(out, Act{Op: "body"})
		case 17:
			out = append(out, Act{Op: pick(t, "bind", "bindform")})
		case 18:
			out = append(out, Act{Op: "file", K: "f"})
		case 19:
			out = append(out, Act{Op: "readcookie", K: "c"})
		case 20:
			out = append(out, Act{Op: "map", K: "m"})
		case 21:
			if g.depth > 0 {
				sg := &actGen{t: t, depth: g.depth - 1, yield: g.yield}
				out = append(out, Act{Op: "dump"}, Act{Op: "sub", Sub: sg.req()}, Act{Op: "dump"})
			}
		case 22:
			if g.yield {
				out = append(out, Act{Op: "yield"})
			}
		case 23: // other ways to respond
			out = append(out, Act{Op: pick(t, "xml", "xmlslow", "jsonslow", "stream", "data", "htmlraw", "attach", "nocache", "abort"), K: S(k), N: pick(t, 200, 201, 404), V: S(pick(t, "one", "longer text", "z", "<&>", "\u4e2d"))})
		case 24: // other ways to look
			out = append(out, Act{Op: pick(t, "facts", "typed", "typedparam", "typedcookie", "binduri", "bind2", "bind2", "bindlist", "handoff", "bindfresh"), K: S(pick(t, "a", "n", "l", "f", "k", "id", "b", "z")), N: t.N(5), V: S(g.word())})
		}
	}
	if g.yield && t.Bool() && !ended {
		out = append(out, Act{Op: "yield"}, Act{Op: "dump"})
	}
	return out
}

func (g *actGen) req() *ActReq {
	t := g.t
	p := pick(t, actPaths...)
	for strings.Contains(p, "%s") {
		p = strings.Replace(p, "%s", pick(t, "v1", "v2", "w", "77", "abc", "%41", "a%20b", "%E4%B8%AD"), 1)
	}
	q := &ActReq{Req: Req{Method: pick(t, "GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE")}}
	if t.Chance(1, 20) {
		q.Req.Proto = "HTTP/1.0"
	}
	var kvs []KV
	for n := t.N(4); n > 0; n-- {
		kvs = append(kvs, KV{S(pick(t, "a", "n", "l", "f", "m[x]", "m[y]")), S(g.word())})
	}
	target := p
	if len(kvs) > 0 {
		target += "?" + encQuery(kvs)
	}
	if t.Chance(1, 12) {
		target += pick(t, "?a=%zz", "?x;y=1", "?%")
		target = strings.Replace(target, "?", "?", 1)
	}
	q.Req.Target = S(target)
	if t.Chance(1, 3) {
		q.Req.H = append(q.Req.H, KV{"Cookie", S("c=" + pick(t, "1", "abc"))})
	}
	if t.Chance(1, 4) {
		q.Req.H = append(q.Req.H, KV{"X-Forwarded-For", S(pick(t, "10.0.0.1", "10.0.0.2, 10.0.0.3"))})
	}
	q.Req.Remote = pick(t, "", "198.51.100.7:99", "[2001:db8::1]:80")
	if q.Req.Method != "GET" && q.Req.Method != "HEAD" {
		var f []KV
		for n := t.N(4); n > 0; n-- {
			f = append(f, KV{S(pick(t, "a", "n", "l", "f", "m[x]")), S(g.word())})
		}
		switch t.W(2, 3, 2, 2, 1) {
		case 1:
			q.Req.H = append(q.Req.H, KV{"Content-Type", "application/x-www-form-urlencoded"})
			q.Req.Body = S(encQuery(f))
			if t.Chance(1, 6) {
				q.Req.Body = "a=%zz&n=1"
			}
		case 2:
			q.Req.H = append(q.Req.H, KV{"Content-Type", "multipart/form-data; boundary=BB"})
			var b strings.Builder
			for _, kv := range f {
				fmt.Fprintf(&b, "--BB\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n%s\r\n", kv.K, kv.V)
			}
			if t.Bool() {
				fmt.Fprintf(&b, "--BB\r\nContent-Disposition: form-data; name=\"f\"; filename=\"up.txt\"\r\n\r\n%s\r\n", g.word())
			}
			if !t.Chance(1, 6) {
				b.WriteString("--BB--\r\n")
			}
			q.Req.Body = S(b.String())
		case 3:
			q.Req.H = append(q.Req.H, KV{"Content-Type", "application/json"})
			b, _ := json.Marshal(bindTarget{A: pick(t, "ja", "jb"), N: t.N(9), L: []string{"p", "q"}[:t.N(3)], F: 1.5})
			q.Req.Body = S(b)
			if t.Chance(1, 3) {
				q.Req.Body = S(pick(t, `[{"a":"x1","n":1},{"a":"longerthan6"}]`, `[{"a":"y"},{"l":[1,2],"in":{"f":true}}]`, `{"a":"q","n":3,"m":{"x":1},"l":[4]}`, `{"a":1}`))
			} else if t.Chance(1, 6) {
				q.Req.Body = q.Req.Body[:len(q.Req.Body)-2]
			}
		case 4:
			q.Req.H = append(q.Req.H, KV{"Content-Type", S(pick(t, "text/plain", "application/xml", "application/xml"))})
			q.Req.Body = S(pick(t, g.word(), "<doc><a>xa</a><n>4</n></doc>", "<doc><a>other</a><l>1</l><l>2</l><in><f>true</f></in></doc>", "<doc><a>xb</a><n>4x</n></doc>", "<doc><a>x"))
		}
	}
	if t.Chance(1, 4) {
		q.Req.H = append(q.Req.H, KV{"Origin", S(pick(t, "http://a.example", "http://b.example", "http://c.example"))})
	}
	if t.Chance(1, 4) {
		q.Req.H = append(q.Req.H, KV{"X-A", S(g.word())}, KV{"X-N", S(pick(t, "1", "22", "x"))}, KV{"User-Agent", S(pick(t, "ua1", "ua2"))})
	}
	if t.Chance(1, 6) {
		q.Req.H = append(q.Req.H, KV{"If-None-Match", `"6553f101-6-612e747874"`}, KV{"X-Requested-With", "XMLHttpRequest"}, KV{"X-Forwarded-Proto", "https"})
	}
	if g.yield {
		q.WY, q.BY = t.Bool(), t.Chance(1, 3)
	}
	if g.depth > 0 {
		if t.Chance(1, 3) {
			q.WSub = (&actGen{t: t, depth: g.depth - 1}).req()
		}
		if t.Chance(1, 6) {
			q.BSub = (&actGen{t: t, depth: g.depth - 1}).req()
		}
	}
	for i := 0; i < 4; i++ {
		q.Acts = append(q.Acts, g.acts(i))
	}
	return q
}

// pollution says what an earlier request leaves behind if the context is not reset.
func pollution(q *ActReq) (n int) {
	for _, as := range q.Acts {
		for _, a := range as {
			switch a.Op {
			case "set", "param", "panic", "write", "string", "status", "query", "bind", "bindform", "json", "delparam", "redirect":
				n++
			}
		}
	}
	return
}

func genAppOpt(t *T) AppOpt {
	o := AppOpt{Static: t.Bool(), Recovery: t.Bool(), NoFound: t.Bool(), Before: t.Bool(), Logger: t.Chance(1, 4), Mem: pick(t, int64(0), 0, 1, 64)}
	if t.Chance(1, 3) {
		o.Bare = true
		if t.Bool() { // nothing in front of the routes' handlers
			o.Before, o.Recovery, o.Logger = false, false, false
		}
	}
	return o
}

// --- L01 ---

type HistCase struct {
	Opt   AppOpt
	Hist  []*ActReq
	Probe *ActReq
	Dev   bool
}

func genHist(t *T) HistCase {
	c := HistCase{Opt: genAppOpt(t), Dev: t.Chance(1, 4)}
	for n := t.Few(1, 8, 150); n > 0; n-- {
		c.Hist = append(c.Hist, (&actGen{t: t}).req())
	}
	if t.Chance(1, 3) && len(c.Hist) > 0 { // the same path again, in another way
		last := c.Hist[len(c.Hist)-1]
		cp := *last
		cp.Acts = nil
		for i := 0; i < 4; i++ {
			cp.Acts = append(cp.Acts, (&actGen{t: t}).acts(i))
		}
		c.Probe = &cp
	} else {
		c.Probe = (&actGen{t: t}).req()
	}
	// the probe looks at everything
	for i := range c.Probe.Acts {
		c.Probe.Acts[i] = append([]Act{{Op: "dump"}}, c.Probe.Acts[i]...)
	}
	return c
}

func setMode(dev bool) {
	water.Status = water.Stable
	if dev {
		water.Status = water.Dev
	}
}

func runHist(c HistCase, o *Obs) error {
	runtime.GOMAXPROCS(1)
	defer resetGlobals()
	setMode(c.Dev)
	used, fresh := buildApp(c.Opt), buildApp(c.Opt)
	pol := 0
	for i, q := range c.Hist {
		runScript(used, q, false, nil)
		if i == len(c.Hist)-1 {
			pol = pollution(q)
		}
	}
	if pol > 0 {
		o.NT()
	}
	var outs [2]string
	for i, e := range []http.Handler{used, fresh} {
		outs[i] = runScript(e, c.Probe, false, nil)
	}
	o.LabelIf(strings.Contains(outs[1], "PANIC"), "probe panics")
	o.LabelIf(strings.Contains(outs[1], "written=true"), "written seen")
	if outs[0] != outs[1] {
		return fmt.Errorf("the request sees its predecessors.\nafter them:\n%s\non a fresh engine:\n%s", outs[0], outs[1])
	}
	return nil
}

// --- L02 ---

type NestCase struct {
	Opt AppOpt
	Req *ActReq
}

func genNest(t *T) NestCase {
	c := NestCase{Opt: genAppOpt(t)}
	c.Req = (&actGen{t: t, depth: t.Range(1, 3)}).req()
	// at least one nested request, in the middle of the first handler
	g := &actGen{t: t, depth: t.N(3)}
	c.Req.Acts[0] = append([]Act{{Op: "dump"}, {Op: "sub", Sub: g.req()}, {Op: "dump"}}, c.Req.Acts[0]...)
	return c
}

func withApp(o AppOpt, f func(e http.Handler) error) error {
	e := buildApp(o)
	likeMu.Lock()
	likes[e] = o
	likeMu.Unlock()
	defer func() {
		likeMu.Lock()
		delete(likes, e)
		likeMu.Unlock()
	}()
	return f(e)
}

func runNest(c NestCase, o *Obs) error {
	runtime.GOMAXPROCS(1)
	defer resetGlobals()
	setMode(false)
	return withApp(c.Opt, func(e http.Handler) error {
		want := runScript(e, c.Req, false, nil)
		got := runScript(e, c.Req, true, nil)
		o.NT()
		if got != want {
			return fmt.Errorf("a request that serves others in the middle sees them, or they see it.\nalone:\n%s\nnesting:\n%s", want, got)
		}
		return nil
	})
}

type SchedCase struct {
	Opt   AppOpt
	Reqs  []*ActReq
	Sched []int
}

func genSched(t *T) SchedCase {
	c := SchedCase{Opt: genAppOpt(t)}
	for n := t.Range(2, 5); n > 0; n-- {
		q := (&actGen{t: t, yield: true}).req()
		for i := range q.Acts[:2] {
			q.Acts[i] = append([]Act{{Op: "dump"}, {Op: "yield"}, {Op: "dump"}}, q.Acts[i]...)
		}
		c.Reqs = append(c.Reqs, q)
	}
	if t.Chance(1, 3) {
		genTheme(t, c.Reqs)
	}
	for n := t.Range(2, 30); n > 0; n-- {
		c.Sched = append(c.Sched, t.N(5))
	}
	return c
}

// schedule runs the requests, one at a time between yields, in the given order.
func schedule(e http.Handler, reqs []*ActReq, sched []int) (outs []string, switches int) {
	type task struct {
		resume chan struct{}
		out    string
		done   bool
	}
	event := make(chan int)
	tasks := make([]*task, len(reqs))
	for i := range reqs {
		tk := &task{resume: make(chan struct{})}
		tasks[i] = tk
		go func() {
			<-tk.resume
			tk.out = runScript(e, reqs[i], false, func() {
				event <- i
				<-tk.resume
			})
			tk.done = true
			event <- i
		}()
	}
	last := -1
	for k := 0; ; k++ {
		var alive []int
		for i, tk := range tasks {
			if !tk.done {
				alive = append(alive, i)
			}
		}
		if len(alive) == 0 {
			break
		}
		pickN := 0
		if k < len(sched) {
			pickN = sched[k]
		}
		i := alive[pickN%len(alive)]
		if last >= 0 && last != i && !tasks[last].done {
			switches++
		}
		last = i
		tasks[i].resume <- struct{}{}
		<-event
	}
	for _, tk := range tasks {
		outs = append(outs, tk.out)
	}
	return
}

func runSched(c SchedCase, o *Obs) error {
	runtime.GOMAXPROCS(1)
	defer resetGlobals()
	setMode(false)
	return withApp(c.Opt, func(e http.Handler) error {
		outs, sw := schedule(e, c.Reqs, c.Sched)
		if sw > 0 {
			o.NT()
		}
		o.LabelIf(sw > 3, "over 3 switches inside handlers")
		for i, q := range c.Reqs {
			want := runScript(buildApp(c.Opt), q, false, nil)
			if outs[i] != want {
				return fmt.Errorf("request %d (%s %s) sees the ones it overlaps with.\nalone:\n%s\noverlapping:\n%s", i, q.Req.Method, q.Req.Target, want, outs[i])
			}
		}
		return nil
	})
}

type RaceCase struct {
	Opt    AppOpt
	Reqs   []*ActReq
	Rounds int
	Cold   bool // nothing was served alone before
}

func genRace(t *T) RaceCase {
	c := RaceCase{Opt: genAppOpt(t), Rounds: t.Range(2, 4)}
	for n := t.Range(3, 8); n > 0; n-- {
		q := (&actGen{t: t, yield: true}).req()
		c.Reqs = append(c.Reqs, q)
	}
	if t.Chance(2, 3) {
		genTheme(t, c.Reqs)
	}
	c.Cold = t.Bool()
	return c
}

// genTheme adds something that all of the requests do, and what they do with its effect.
func genTheme(t *T, reqs []*ActReq) {
	a := Act{Op: pick(t, "bindfresh", "bindfresh", "bind2", "bind", "bindform", "bindlist", "binduri", "facts", "typed", "typedparam", "typedcookie", "body", "file", "nocache", "nocache", "readcookie", "map", "handoff", "cookie"), K: S(pick(t, "a", "n", "l", "f")), N: t.N(5), V: S((&actGen{t: t}).word())}
	then := t.W(2, 2, 1)
	key := S(pick(t, "Cache-Control", "Expires", "Set-Cookie", "X-A"))
	for i, q := range reqs {
		all := []Act{a}
		if then > 0 {
			all = append(all, Act{Op: "yield"}, Act{Op: []string{"addhdr", "edithdr"}[then-1], K: key, V: S(fmt.Sprintf("of %d", i))}, Act{Op: "yield"})
		}
		if k := t.N(len(q.Acts) + 1); k < len(q.Acts) {
			q.Acts[k] = append(all, q.Acts[k]...)
		} else if k > 0 {
			q.Acts[0] = append(all, q.Acts[0]...)
		}
	}
}

func runRace(c RaceCase, o *Obs) error {
	runtime.GOMAXPROCS(4)
	defer resetGlobals()
	setMode(false)
	e := buildApp(c.Opt)
	want := make([]string, len(c.Reqs))
	alone := func() {
		for i, q := range c.Reqs {
			want[i] = runScript(buildApp(c.Opt), q, false, nil)
		}
	}
	if !c.Cold {
		alone()
	}
	o.NT()
	got := make([][]string, len(c.Reqs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, q := range c.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < c.Rounds; k++ {
				got[i] = append(got[i], runScript(e, q, false, runtime.Gosched))
			}
		}()
	}
	close(start)
	wg.Wait()
	if c.Cold {
		alone()
	}
	for i, q := range c.Reqs {
		for _, g := range got[i] {
			if g != want[i] {
				return fmt.Errorf("request %d (%s %s) sees the ones served at the same time.\nalone:\n%s\nconcurrent:\n%s", i, q.Req.Method, q.Req.Target, want[i], g)
			}
		}
	}
	return nil
}

// --- L03 ---

type RecCase struct {
	Outer  []RecH // before Recovery
	Inner  []RecH // after Recovery
	Stable bool
	Where  string // use, before, group, nofound
	After  int    // how many plain requests afterwards
	Val    int
	Twice  bool // a second Recovery inside
}

type RecH struct {
	Next  bool
	Wr    int // 0 none, else status written before Next
	WrEnd int // status written after Next (or at the end)
	Panic int // 0 no, 1 before everything, 2 after the first write, 3 after Next / at the end
	How   int // how the panic comes about
}

var panicVals = []any{
	"plain text", errors.New("an error"), 42, 3.5, true, struct{ A, B int }{1, 2}, []int{1, 2}, map[string]int(nil),
	(*int)(nil), http.ErrAbortHandler, badStringer{}, (*nilErr)(nil), strings.Repeat("x", 5000), "with % verbs %d %s", "\x00\xff", func() {}, make(chan int),
	io.EOF, struct{}{}, "", 0, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), os.ErrNotExist, []byte("bytes"), time.Second, &water.Context{},
	&os.SyscallError{Syscall: "write", Err: syscall.EPIPE}, &net.OpError{Op: "write", Net: "tcp", Err: &os.SyscallError{Syscall: "write", Err: syscall.ECONNRESET}},
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.EPIPE}, syscall.EPIPE, syscall.ECONNRESET, net.ErrClosed, os.ErrClosed, os.ErrDeadlineExceeded, &os.PathError{Op: "open", Path: "/x", Err: syscall.ENOENT},
	errors.New("write: broken pipe"), errors.New("connection reset by peer"), "broken pipe", context.Canceled, context.DeadlineExceeded, http.ErrHandlerTimeout, http.ErrBodyNotAllowed, http.ErrContentLength,
	&http.MaxBytesError{Limit: 5}, io.ErrClosedPipe, io.ErrShortWrite, netLike{}, netLike{true, true}, rtLike{}, stringLike{}, &runtime.PanicNilError{}, exitLike(3), nil,
	reflect.ValueOf(1), &reflect.ValueError{Method: "Elem"}, fmt.Errorf("caught: %w", http.ErrAbortHandler), errors.Join(io.EOF, http.ErrAbortHandler), http.StatusText(404), http.StatusTeapot, 403, errors.ErrUnsupported,
}

type netLike struct{ T, U bool }

func (netLike) Error() string     { return "i/o timeout" }
func (n netLike) Timeout() bool   { return n.T }
func (n netLike) Temporary() bool { return n.U }

type rtLike struct{}

func (rtLike) Error() string { return "runtime error: like" }
func (rtLike) RuntimeError() {}

type stringLike struct{}

func (stringLike) String() string { return "stringer" }

type exitLike int

func (e exitLike) ExitCode() int   { return int(e) }
func (e exitLike) StatusCode() int { return 400 + int(e) }

type badStringer struct{}

func (badStringer) Error() string { panic("Error itself panics") }

type nilErr struct{ s string }

func (n *nilErr) Error() string { return n.s }

func doPanic(c *water.Context, how, val int) {
	switch how {
	case 1:
		var m map[string]int
		m["x"] = 1
	case 2:
		var p *RecCase
		_ = p.Where
	case 3:
		s := []int{}
		_ = s[len(s)+val]
	case 4:
		c.Get("no such environment value")
	case 5:
		c.Param("no such parameter")
	case 6:
		c.Environ.Set("twice", 1)
		c.Environ.Set("twice", 1)
	case 7:
		c.Environ["notint"] = "s"
		c.Environ.GetInt("notint")
	case 8:
		zero := val - val
		_ = 1 / zero
	case 9:
		defer func() { panic("from a deferred call") }()
		panic("first")
	case 10:
		c.Query("q") // the request's form is malformed
		panic("query did not")
	}
	panic(panicVals[val%len(panicVals)])
}

func genRecH(t *T, canPanic bool) RecH {
	h := RecH{Next: t.Bool()}
	switch t.W(5, 1, 1) {
	case 1:
		h.Wr = pick(t, 200, 201, 204, 404, 500, 503)
	case 2:
		h.WrEnd = pick(t, 200, 202, 418, 500)
	}
	if canPanic && t.Chance(1, 3) {
		h.Panic = t.Range(1, 3)
		h.How = t.N(11)
	}
	return h
}

func genRec(t *T) RecCase {
	c := RecCase{Stable: t.Bool(), Where: pick(t, "use", "use", "before", "group", "nofound"), After: t.Range(1, 2), Val: t.N(len(panicVals)), Twice: t.Chance(1, 8)}
	for n := t.Few(0, 2, 20); n > 0; n-- {
		c.Outer = append(c.Outer, genRecH(t, false))
	}
	for n := t.Few(1, 4, 20); n > 0; n-- {
		c.Inner = append(c.Inner, genRecH(t, true))
	}
	return c
}

type recSim struct {
	trace         []string
	codes         int // first status
	body          string
	hs            []simH
	i             int
	val           int
	paniced       bool
	pre, lastBody string // sent before the first panic, by the last one
	given         bool   // the status is the one Recovery gives
}

type simH struct {
	RecH
	name string
	rec  bool
}

type simPanic struct{}

func (s *recSim) write(code int, what string) {
	if s.codes == 0 {
		s.codes = code
	}
	s.body += what
}

func (s *recSim) run() {
	for s.i < len(s.hs) {
		s.call(s.hs[s.i])
		s.i++
		if s.codes != 0 {
			return
		}
	}
}

func (s *recSim) call(h simH) {
	if h.rec {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(simPanic); !ok {
						panic(r)
					}
					if !s.paniced {
						s.pre = s.body
					}
					s.paniced, s.lastBody = true, s.body
					if s.codes == 0 {
						s.codes = 500
					}
					return
				}
				if s.codes == 0 {
					s.codes, s.given = 200, true
				}
			}()
			s.i++
			s.run()
		}()
		return
	}
	s.trace = append(s.trace, h.name)
	if h.Panic == 1 {
		panic(simPanic{})
	}
	if h.Wr != 0 {
		s.write(h.Wr, "w:"+h.name)
	}
	if h.Panic == 2 {
		panic(simPanic{})
	}
	if h.Next {
		s.i++
		s.run()
	}
	if h.WrEnd != 0 {
		s.write(h.WrEnd, "e:"+h.name)
	}
	if h.Panic == 3 {
		panic(simPanic{})
	}
	s.trace = append(s.trace, "/"+h.name)
}

func runRec(c RecCase, o *Obs) error {
	defer resetGlobals()
	setMode(!c.Stable)
	var trace []string
	var seen []int  // statuses handlers were told
	quietH := false // when the follow-up requests are served
	mk := func(name string, h RecH) func(*water.Context) {
		return func(ctx *water.Context) {
			if quietH {
				ctx.Next()
				return
			}
			trace = append(trace, name)
			if h.Panic == 1 {
				doPanic(ctx, h.How, c.Val)
			}
			if h.Wr != 0 {
				ctx.WriteHeader(h.Wr)
				ctx.Write([]byte("w:" + name))
			}
			if h.Panic == 2 {
				doPanic(ctx, h.How, c.Val)
			}
			if h.Next {
				ctx.Next()
			}
			if h.WrEnd != 0 {
				ctx.WriteHeader(h.WrEnd)
				ctx.Write([]byte("e:" + name))
			}
			if h.Panic == 3 {
				doPanic(ctx, h.How, c.Val)
			}
			if ctx.Written() || ctx.Status() != 0 {
				seen = append(seen, ctx.Status())
			}
			trace = append(trace, "/"+name)
		}
	}
	build := func(with bool) *water.Engine {
		r := water.NewRouter()
		var opts []water.Option
		var outer []any
		for i, h := range c.Outer {
			outer = append(outer, mk(fmt.Sprintf("o%d", i), h))
		}
		if with && len(outer) == 0 && c.Where == "use" && c.Val%2 == 0 {
			r = water.Default() // has it
		} else if with {
			outer = append(outer, water.Recovery())
		}
		var inner []any
		for i, h := range c.Inner {
			inner = append(inner, mk(fmt.Sprintf("i%d", i), h))
			if c.Twice && i == 0 && with {
				inner = append(inner, water.Recovery())
			}
		}
		inner = append(inner, func(ctx *water.Context) {
			if quietH {
				ctx.String(200, "fine "+ctx.Request.URL.Path)
				return
			}
			trace = append(trace, "last", "/last")
		})
		path := "/t"
		switch c.Where {
		case "use":
			if len(outer) > 0 {
				r.Use(outer...)
			}
			r.GET(path, inner...)
		case "before":
			if len(outer) > 0 {
				r.Before(outer...)
			}
			r.GET(path, inner...)
		case "group":
			r.Group("/t", func(s *water.Router) {
				if len(outer) > 0 {
					s.Use(outer...)
				}
				s.GET("/u", inner...)
			})
		case "nofound":
			if len(outer) > 0 {
				r.Before(outer...)
			}
			r.GET("/other", func(ctx *water.Context) {})
			opts = append(opts, water.WithNoFoundHandlers(inner...))
		}
		return r.Handler(opts...)
	}
	sim := &recSim{val: c.Val}
	for i, h := range c.Outer {
		sim.hs = append(sim.hs, simH{h, fmt.Sprintf("o%d", i), false})
	}
	sim.hs = append(sim.hs, simH{rec: true})
	for i, h := range c.Inner {
		sim.hs = append(sim.hs, simH{h, fmt.Sprintf("i%d", i), false})
		if c.Twice && i == 0 {
			sim.hs = append(sim.hs, simH{rec: true})
		}
	}
	sim.hs = append(sim.hs, simH{name: "last"})
	sim.run()
	if sim.paniced {
		o.NT()
		o.Label("panics")
		o.LabelIf(sim.body != "", "panic after the response was sent")
	}
	path := map[string]string{"use": "/t", "before": "/t", "group": "/t/u", "nofound": "/gone"}[c.Where]
	req := Req{Method: "GET", Target: S(path + "?q=%zz")}
	e := build(true)
	rec, pan := serve(e, req.must())
	if pan != nil {
		return fmt.Errorf("the panic reached the server: %v", pan)
	}
	if got, want := strings.Join(trace, " "), strings.Join(sim.trace, " "); got != want {
		return fmt.Errorf("handlers run: %s, want %s", got, want)
	}
	if len(rec.Codes) > 1 {
		return fmt.Errorf("several statuses sent: %v", rec.Codes)
	}
	for _, s := range seen {
		if s != rec.Status() {
			return fmt.Errorf("a handler is told the status %d, sent was %v", s, rec.Codes)
		}
	}
	if sim.codes != 0 && (len(rec.Codes) != 1 || rec.Codes[0] != sim.codes) {
		return fmt.Errorf("status %v, want %d", rec.Codes, sim.codes)
	}
	if sim.codes == 0 && len(rec.Codes) != 0 {
		return fmt.Errorf("status %v sent by nobody", rec.Codes)
	}
	// the report of Recovery may stand in the body when not Stable
	if !sim.paniced || c.Stable {
		if string(rec.Body) != sim.body {
			return fmt.Errorf("body %q, want %q", rec.Body, sim.body)
		}
	} else if b := string(rec.Body); !strings.HasPrefix(b, sim.pre) || !strings.HasSuffix(b, sim.body[len(sim.lastBody):]) {
		return fmt.Errorf("body %q does not keep what was sent before the panic %q and after it %q", short(b), sim.pre, sim.body[len(sim.lastBody):])
	}
	if !sim.paniced { // the same without Recovery, but for the status
		t1 := strings.Join(trace, " ")
		trace = nil
		rec2, pan2 := serve(build(false), req.must())
		t2 := strings.Join(trace, " ")
		if pan2 != nil || t1 != t2 || string(rec.Body) != string(rec2.Body) || hdrString(rec.Headers()) != hdrString(rec2.Headers()) ||
			(!sim.given && len(rec2.Codes) > 0 && rec2.Codes[0] != rec.Status()) {
			return fmt.Errorf("Recovery changes a request that does not panic: with %s [%s], without %s [%s] %v", rec.dump(), t1, rec2.dump(), t2, pan2)
		}
	}
	quietH = true
	for k := 0; k < c.After; k++ {
		rec, err := mustServe(e, Req{Method: "GET", Target: S(path)}.must())
		if err != nil {
			return fmt.Errorf("request after the panic: %v", err)
		}
		if rec.Status() != 200 || string(rec.Body) != "fine "+path {
			return fmt.Errorf("request after the panic: %s", rec.dump())
		}
	}
	return nil
}

// --- L04 ---

type WOp struct {
	Op   string
	Code int `json:",omitempty"`
	V    S   `json:",omitempty"`
	K    S   `json:",omitempty"`
	C    int `json:",omitempty"` // chunk
	N    int `json:",omitempty"` // size
}

type WCase struct {
	Method string
	Hs     [][]WOp
	Wire   bool
	Recov  bool
	Range  S `json:",omitempty"`
}

var wOps = []string{"code", "write", "string", "data", "html", "htmlt", "json", "xml", "stream", "moved", "found", "notmod", "bad", "unauth", "forb", "nf", "ise", "abort", "hdr", "file", "serve", "dl", "att", "herror", "hredir", "nocache", "cookie", "dlmiss", "copy", "early", "big"}

var wCodes = []int{200, 201, 202, 203, 204, 206, 299, 300, 302, 400, 401, 404, 409, 418, 422, 500, 503, 599}

func genWCase(t *T) WCase {
	c := WCase{Method: pick(t, "GET", "GET", "GET", "POST", "HEAD", "PUT"), Wire: t.Chance(1, 12), Recov: t.Chance(1, 4)}
	if t.Chance(1, 5) {
		c.Range = S(pick(t, "bytes=0-0", "bytes=2-", "bytes=-1", "bytes=999999-", "bytes=x"))
	}
	for n := t.Range(1, 3); n > 0; n-- {
		var ops []WOp
		for m := t.Few(0, 4, 20); m > 0; m-- {
			if !c.Wire && t.Chance(1, 25) {
				ops = append(ops, WOp{Op: pick(t, "code", "data", "abort"), Code: 101})
				continue
			}
			op := WOp{Op: wOps[t.N(len(wOps))], Code: wCodes[t.N(len(wCodes))], V: S(genText(t, 60)), C: t.N(8)}
			switch op.Op {
			case "hdr":
				op.K = S(pick(t, "Content-Type", "X-One", "X-Two"))
				op.V = S(pick(t, "text/plain", "application/x-y", "v"))
			case "xml":
				op.V = S(xmlSafe(string(op.V)))
			case "early":
				op.Code = pick(t, 100, 102, 103, 103, 199)
			case "big":
				op.N = near(t, 11, 18)
			}
			ops = append(ops, op)
		}
		c.Hs = append(c.Hs, ops)
	}
	return c
}

var textPool = []string{"", "a", "hello world", "<html><body>x", "{\"a\":1}", "\x00\x01\x02", "\xff\xfe", "中文", "line1\nline2", "%PDF-1.4", "GIF89a", "x\r\ny", " ", "<?xml", "quote\"'<>&", "\ufeffmarked", "\xef\xbb\xbf", "\xfe\xffa", "%s %d %%", "%!", "tail\n", "tail\x00", "\n\n", "\u200bx\u00a0", "a\tb ", "  lead", "&amp;&#39;", "\r\n"}

func genText(t *T, max int) string {
	if t.Chance(1, 2) {
		return textPool[t.N(len(textPool))]
	}
	n := t.Size(max)
	if max >= 60 && t.Chance(1, 40) {
		n = min(near(t, 7, 17), 100*max)
		x := t.U64()
		b := make([]byte, n)
		for i := range b {
			x = x*6364136223846793005 + 1442695040888963407
			b[i] = byte(x >> 56)
		}
		return string(b)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.N(256))
	}
	return string(b)
}

func genBytes(t *T, max int) []byte { return []byte(genText(t, max)) }

type xmlDoc struct {
	XMLName struct{} `xml:"doc"`
	V       string   `xml:"v"`
}

func runWCase(c WCase, o *Obs) error {
	defer resetGlobals()
	dir := scratch()
	fpath := filepath.Join(dir, "file.bin")
	os.WriteFile(fpath, []byte("FILE CONTENT 0123456789"), 0o644)
	mtime := time.Unix(1700000000, 0)
	os.Chtimes(fpath, mtime, mtime)

	var rec *Rec // nil on the wire
	var failed error
	fail := func(f string, a ...any) {
		if failed == nil {
			failed = fmt.Errorf(f, a...)
		}
	}
	wantStatus, sent := 0, false
	wantBody := ""
	exact := true // body fully known
	var lastStatus int
	var written bool
	nsent := 0
	wantCT, ctKnown := "", false
	send := func(code int) {
		if !sent {
			sent, wantStatus = true, code
		}
		nsent++
	}
	head := c.Method == "HEAD"
	run := func(ctx *water.Context, op WOp) {
		before := 0
		if rec != nil {
			before = len(rec.Body)
		}
		prevSent := sent
		add := func(s string) { wantBody += s }
		detect := func(data string) { // a write before the status
			if !sent {
				if ct := ctx.Header().Get("Content-Type"); ct == "" && len(data) > 0 {
					wantCT, ctKnown = http.DetectContentType([]byte(data)), true
				}
				send(200)
			}
		}
		v := string(op.V)
		switch op.Op {
		case "code":
			send(op.Code)
			ctx.WriteHeader(op.Code)
		case "early": // informational: not the response
			if rec != nil {
				n := len(rec.Early)
				ctx.WriteHeader(op.Code)
				if !sent && (len(rec.Early) != n+1 || rec.Early[n] != op.Code) {
					fail("informational status %d was not passed on: %v", op.Code, rec.Early)
				}
				if sent && len(rec.Early) != n {
					fail("informational status %d was sent after the response", op.Code)
				}
			} else {
				ctx.WriteHeader(op.Code)
			}
		case "big":
			v = strings.Repeat(v+"-", op.N/(len(v)+1)+1)
			detect(v)
			add(v)
			n, err := ctx.Write([]byte(v))
			if rec != nil && (n != len(v) || err != nil) {
				fail("Write of %d bytes returned %d, %v", len(v), n, err)
			}
		case "write":
			detect(v)
			add(v)
			raw := []byte(v)
			if v == "" && op.C%2 == 0 {
				raw = nil
			}
			var n int
			var err error
			switch op.C / 2 {
			case 1:
				n, err = io.WriteString(ctx, v)
			case 2:
				n, err = fmt.Fprint(ctx, v)
			default:
				n, err = ctx.Write(raw)
			}
			if rec != nil && (n != len(v) || err != nil) {
				fail("Write of %d bytes returned %d, %v", len(v), n, err)
			}
		case "string":
			send(op.Code)
			add(v)
			ctx.String(op.Code, v)
		case "data":
			send(op.Code)
			add(v)
			ctx.Data(op.Code, "application/x-data", []byte(v))
		case "html":
			send(op.Code)
			add(v)
			ctx.HTMLRaw(op.Code, v)
		case "htmlt":
			send(op.Code)
			ctx.HTML(op.Code, "tpl", nil)
		case "json":
			send(op.Code)
			b, _ := json.Marshal(v)
			exactBefore := exact
			exact = false
			ctx.JSON(op.Code, v)
			if rec != nil {
				var back string
				if err := json.Unmarshal(rec.Body[before:], &back); err != nil || back != jsonBack(b) {
					fail("JSON of %q sent %q", v, rec.Body[before:])
				}
				wantBody += string(rec.Body[before:])
				exact = exactBefore
			}
		case "xml":
			send(op.Code)
			exactBefore := exact
			exact = false
			ctx.XML(op.Code, xmlDoc{V: v})
			if rec != nil {
				wantBody += string(rec.Body[before:])
				exact = exactBefore
			}
		case "stream":
			if v != "" {
				send(200) // no detection: the type is given
			}
			add(v)
			ctx.Stream("application/x-stream", &errReader{data: []byte(v), chunk: op.C, err: io.EOF})
		case "copy":
			if v != "" {
				first := v
				if op.C > 0 && len(first) > op.C {
					first = first[:op.C]
				}
				detect(first)
			}
			add(v)
			io.Copy(ctx, &errReader{data: []byte(v), chunk: op.C, err: io.EOF})
		case "moved", "found", "hredir":
			code := 301
			if op.Op != "moved" {
				code = 302
			}
			send(code)
			exactBefore := exact
			exact = false
			switch op.Op {
			case "moved":
				ctx.MovedPermanently("/else")
			case "found":
				ctx.Found("/else")
			default:
				http.Redirect(ctx, ctx.Request, "/else", 302)
			}
			if rec != nil {
				wantBody += string(rec.Body[before:])
				exact = exactBefore
			}
		case "notmod":
			send(304)
			ctx.NotModified()
		case "bad":
			send(400)
			ctx.BadRequest()
		case "unauth":
			send(401)
			ctx.Unauthorized()
		case "forb":
			send(403)
			ctx.Forbidden()
		case "nf":
			send(404)
			ctx.NotFound()
		case "ise":
			send(500)
			ctx.InternalServerError()
		case "abort":
			send(op.Code)
			ctx.Abort(op.Code)
		case "hdr":
			ctx.SetHeader(string(op.K), v)
		case "nocache":
			ctx.NoCache()
		case "cookie":
			ctx.SetCookie("c", "v")
		case "herror":
			send(op.Code)
			add(v + "\n")
			http.Error(ctx, v, op.Code)
		case "file", "serve", "dl", "att":
			content := "FILE CONTENT 0123456789"
			st := 200
			body := content
			if op.Op == "att" {
				content = v
				body = v
			}
			if head {
				body = ""
			}
			rangeKnown := c.Range == ""
			if !rangeKnown && !sent {
				st = -1 // 200, 206 or 416: what net/http makes of the range
			}
			exactBefore := exact
			switch op.Op {
			case "file":
				ctx.File(fpath)
			case "serve":
				ctx.ServeFile(fpath)
			case "dl":
				if err := ctx.Download(fpath); err != nil {
					fail("Download: %v", err)
				}
			case "att":
				ctx.Attachment("n.bin", mtime, strings.NewReader(v))
			}
			if st == -1 {
				if rec != nil {
					st = rec.Status()
					if st != 200 && st != 206 && st != 416 {
						fail("%s with Range %q sent %d", op.Op, c.Range, st)
					}
				} else {
					st = ctx.Status()
				}
			}
			send(st)
			if rangeKnown {
				add(body)
			} else if rec != nil {
				wantBody += string(rec.Body[before:])
			} else {
				exact = false
			}
			_ = exactBefore
		case "dlmiss":
			h := hdrString(ctx.Header())
			if err := ctx.Download(filepath.Join(dir, "missing")); err == nil {
				fail("Download of a missing file returned no error")
			}
			if got := hdrString(ctx.Header()); got != h {
				fail("Download of a missing file left headers %s, before %s", got, h)
			}
		default:
			bug("op %s", op.Op)
		}
		o.LabelIf(sent && !prevSent, "first:"+op.Op)
		if ctx.Written() != sent {
			fail("after %s Written() is %v, a status was sent: %v", op.Op, ctx.Written(), sent)
		}
		if sent && ctx.Status() != wantStatus {
			fail("after %s Status() is %d, %d was sent first", op.Op, ctx.Status(), wantStatus)
		}
		if !sent && ctx.Status() != 0 {
			fail("after %s nothing is sent and Status() is %d", op.Op, ctx.Status())
		}
		if rec != nil && sent != (len(rec.Codes) > 0) {
			fail("after %s the response has status calls %v, expected sent=%v", op.Op, rec.Codes, sent)
		}
		if rec != nil && len(rec.Codes) > 1 {
			fail("after %s the status was sent again: %v", op.Op, rec.Codes)
		}
	}
	r := water.NewRouter()
	if c.Recov {
		r.Use(water.Recovery())
	}
	r.Use(func(ctx *water.Context) {
		ctx.Next()
		lastStatus, written = ctx.Status(), ctx.Written()
	})
	var hs []any
	for _, ops := range c.Hs {
		hs = append(hs, func(ctx *water.Context) {
			for _, op := range ops {
				run(ctx, op)
			}
		})
	}
	for _, m := range []string{"GET", "POST", "HEAD", "PUT"} {
		regMethod(r, m, "/w", hs...)
	}
	e := r.Handler()
	q := Req{Method: c.Method, Target: "/w"}
	if c.Range != "" {
		q.H = append(q.H, KV{"Range", c.Range})
	}
	if c.Wire {
		o.Label("wire")
		w, err := wireReq(e, q)
		if err != nil {
			// a HEAD or a body-less status with a body, or a wrong length: net/http's business
			return failed
		}
		if failed != nil {
			return failed
		}
		if sent {
			o.NT()
			if w.Status != wantStatus {
				return fmt.Errorf("the client got %d, the first status set was %d", w.Status, wantStatus)
			}
			if !written || lastStatus != w.Status {
				return fmt.Errorf("the context reports status %d (written %v), the client got %d", lastStatus, written, w.Status)
			}
		} else if w.Status != 200 {
			return fmt.Errorf("nothing was sent by the handlers and the client got %d", w.Status)
		}
		noBody := head || wantStatus == 204 || wantStatus == 304
		if exact && !noBody && w.Header.Get("Content-Length") == "" && string(w.Body) != wantBody {
			return fmt.Errorf("the client got body %q, written was %q", short(string(w.Body)), short(wantBody))
		}
		return nil
	}
	rec = newRec()
	var pan any
	func() {
		defer func() {
			if v := recover(); v != nil {
				if h, ok := v.(harnessError); ok {
					panic(h)
				}
				pan = v
			}
		}()
		e.ServeHTTP(rec, q.must())
	}()
	if failed != nil {
		return failed
	}
	if pan != nil {
		return fmt.Errorf("panic: %v", pan)
	}
	if nsent > 1 {
		o.NT()
	}
	o.LabelIf(nsent > 1, "several functions set a status")
	if len(rec.Codes) > 1 {
		return fmt.Errorf("statuses sent: %v", rec.Codes)
	}
	if sent && rec.Status() != wantStatus {
		return fmt.Errorf("status %d, the first set was %d", rec.Status(), wantStatus)
	}
	if sent && (lastStatus != wantStatus || !written) {
		return fmt.Errorf("middleware sees status %d written %v, sent was %d", lastStatus, written, wantStatus)
	}
	if !sent && (lastStatus != 0 || written) {
		return fmt.Errorf("middleware sees status %d written %v, nothing was sent", lastStatus, written)
	}
	if string(rec.Body) != wantBody {
		return fmt.Errorf("body %q, written was %q", short(string(rec.Body)), short(wantBody))
	}
	if ctKnown && rec.Headers().Get("Content-Type") != wantCT {
		return fmt.Errorf("content type %q, detected should be %q", rec.Headers().Get("Content-Type"), wantCT)
	}
	return nil
}

// jsonBack is the string a JSON document of a string denotes.
func jsonBack(b []byte) string {
	var s string
	json.Unmarshal(b, &s)
	return s
}

// xmlSafe keeps the characters XML can carry unchanged.
func xmlSafe(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == 0xfffd || r < 0x20 || r == 0x7f || (r >= 0xfff0) {
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

func init() {
	register(&Property{ID: "L01", Families: []*Family{
		fam("history", 12000, "the last request of the history leaves something behind in its context (writes, environment, parameters, parse state, a panic)", genHist, runHist),
	}})
	race := fam("race", 300, "3 to 8 requests served at once by the race-detector build", genRace, runRace)
	race.Race, race.NoShrink, race.Repeat, race.Factor = true, true, 40, 15
	register(&Property{ID: "L02", Families: []*Family{
		fam("nested", 10000, "a handler serves another request on the same engine while its own is in progress", genNest, runNest),
		fam("schedule", 6000, "at least one switch to another request while one is inside a handler", genSched, runSched),
		race,
	}, Assume: []string{"interleavings are explored at the yield points of the handlers; inside the framework only by the race-detector stage"}})
	register(&Property{ID: "L03", Families: []*Family{
		fam("recovery", 20000, "a handler behind Recovery panics", genRec, runRec),
	}})
	register(&Property{ID: "L04", Families: []*Family{
		fam("status", 12000, "at least two functions set a status (or one on the wire)", genWCase, runWCase),
	}})
}
