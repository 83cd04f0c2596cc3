package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"mime/multipart"
	"net/http"
	"net/textproto"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"encoding/json"
	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
	"time"
)

// --- Q01: query and form accessors ---

type QPair struct {
	K, V S
	Raw  S // as written in the query string or form body
}

type QOp struct {
	Fn   string
	Name S
	Def  S
	Mine bool // the handler changes the list or map it got
}

type QueryCase struct {
	Method string
	Kind   string // none, form, multipart, other
	CT     S
	Query  []QPair
	Body   []QPair
	Ops    [][]QOp // per handler
	Wire   bool
}

// qenc writes a pair with varying encodings.
func qenc(t *T, s string) string {
	var b strings.Builder
	plus := t.Bool()
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' && plus:
			b.WriteByte('+')
		case strings.IndexByte(unreserved, c) >= 0 || (strings.IndexByte("[]/!*,:@$'()", c) >= 0 && t.Chance(1, 2)):
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, pick(t, "%%%02X", "%%%02x"), c)
		}
	}
	return b.String()
}

var spaces = []string{" ", "  ", "\t", "\r\n", "\n", "\u00a0", "\u2003", "\u0085", "\v\f"}

func genQName(t *T) string {
	switch t.W(8, 3, 1) {
	case 0:
		return pick(t, "a", "b", "c", "id", "A", "名", "a b", "a.b", "")
	case 1:
		k := pick(t, "a", "m", "ids", "名", "m[x")
		if k == "m[x" {
			return pick(t, "m[", "m[]", "[x]", "m[x", "a]b[", "m[x]y", "m[x][y]", "m[[x]]")
		}
		return k + "[" + pick(t, "x", "y", "0", "1", "é", "a b", "k", "x.y", "a-b", "a[b", "%5B", "名前", strings.Repeat("long", 20)) + "]"
	}
	return genUTF8(t, 6)
}

func genQValue(t *T) string {
	v := ""
	switch t.W(4, 4, 2) {
	case 0:
		v = pick(t, "v", "", "hello", "a&b=c", "x+y", "100%", "é中", "%41", "a;b", "a=b")
	case 1:
		v = pick(t, "1", "0", "t", "true", "FALSE", "42", "-7", "+5", "3.5", "1e3", "0x10", "1_000", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e400", "NaN", "Inf", "1 2", "12a", ".5", "yes", "-0", "4294967296", "-")
	case 2:
		v = genUTF8(t, 12)
		if t.Chance(1, 60) {
			v = strings.Repeat(v+"z", 1+near(t, 4, 14)/(1+len(v)))
		}
	}
	if t.Chance(1, 3) {
		v = spaces[t.N(len(spaces))] + v
	}
	if t.Chance(1, 3) {
		v += spaces[t.N(len(spaces))]
	}
	return v
}

func genQPairs(t *T, max int) []QPair {
	var ps []QPair
	for n := t.Few(0, max, 120); n > 0; n-- {
		p := QPair{K: S(genQName(t)), V: S(genQValue(t))}
		if len(ps) > 0 && t.Chance(1, 3) {
			p.K = ps[t.N(len(ps))].K
		}
		p.Raw = S(qenc(t, string(p.K)) + "=" + qenc(t, string(p.V)))
		if p.V == "" && p.K != "" && t.Bool() {
			p.Raw = p.Raw[:len(p.Raw)-1]
		}
		ps = append(ps, p)
	}
	return ps
}

var qFns = []string{"query", "array", "map", "bool", "int", "int64", "uint", "uint64", "float64",
	"dquery", "darray", "dmap", "dbool", "dint", "dint64", "duint", "duint64", "dfloat64"}

func genQuery(t *T) QueryCase {
	c := QueryCase{Method: pick(t, "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD")}
	c.Kind = pick(t, "none", "form", "form", "multipart", "other")
	c.Query = genQPairs(t, 8)
	switch c.Kind {
	case "form":
		c.CT = S(pick(t, "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "Application/X-WWW-Form-Urlencoded"))
		c.Body = genQPairs(t, 8)
	case "multipart":
		c.CT = S(letters("multipart/form-data", max(0, t.N(8)-5)) + pick(t, "; ", ";", " ; ", ";\t", "; charset=utf-8; ") + pick(t, "boundary=bnd7x", "boundary=bnd7x", "boundary=\"bnd7x\"", "Boundary=bnd7x"))
		for _, p := range genQPairs(t, 6) {
			// the order between URL and multipart values is net/http's, not water's: names do not overlap
			dup := p.K == ""
			for _, q := range c.Query {
				dup = dup || q.K == p.K
			}
			if !dup {
				c.Body = append(c.Body, p)
			}
		}
	case "other":
		c.CT = S(pick(t, "text/plain", "application/json", "", "application/xml"))
		c.Body = genQPairs(t, 3)
	}
	names := []S{}
	for _, p := range append(append([]QPair{}, c.Query...), c.Body...) {
		names = append(names, p.K)
	}
	for h := t.Range(1, 2); h > 0; h-- {
		var ops []QOp
		for n := t.Few(1, 10, 40); n > 0; n-- {
			op := QOp{Fn: pick(t, qFns...)}
			if len(names) > 0 && !t.Chance(1, 4) {
				op.Name = names[t.N(len(names))]
			} else {
				op.Name = S(genQName(t))
			}
			if strings.HasSuffix(op.Fn, "map") {
				if i := strings.IndexByte(string(op.Name), '['); i >= 0 {
					op.Name = op.Name[:i]
				}
			}
			if op.Fn[0] == 'd' {
				op.Def = S(pick(t, "", "def", "5", "-3", "true", "2.5", " d ", "18446744073709551615", " ", "\tx", "7 ", "\u00a0", "a  b"))
			}
			op.Mine = t.Chance(1, 4)
			ops = append(ops, op)
		}
		c.Ops = append(c.Ops, ops)
	}
	c.Wire = t.Chance(1, 20)
	return c
}

func (c QueryCase) body() string {
	if c.Kind == "multipart" {
		var b strings.Builder
		for _, p := range c.Body {
			fmt.Fprintf(&b, "--bnd7x\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n%s\r\n", mpEscape(string(p.K)), string(p.V))
		}
		b.WriteString("--bnd7x--\r\n")
		return b.String()
	}
	var ps []string
	for _, p := range c.Body {
		ps = append(ps, string(p.Raw))
	}
	return strings.Join(ps, "&")
}

func mpEscape(s string) string {
	return strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s)
}

// mpName reports whether a name can be written in a multipart header as it is.
func mpName(s string) bool {
	for _, r := range s {
		if r < 32 || r == 127 {
			return false
		}
	}
	return s != ""
}

func runQuery(c QueryCase, o *Obs) error {
	hasBody := c.Method == "POST" || c.Method == "PUT" || c.Method == "PATCH"
	if c.Kind == "multipart" {
		for _, p := range c.Body {
			if !mpName(string(p.K)) {
				o.Label("skipped: name a multipart header cannot carry")
				return nil
			}
		}
	}
	var all []QPair
	if hasBody && (c.Kind == "form" || c.Kind == "multipart") {
		all = append(all, c.Body...)
	}
	all = append(all, c.Query...)
	// a pair without name and value does not exist
	vals := map[string][]string{}
	var order []string
	for _, p := range all {
		k := string(p.K)
		if _, ok := vals[k]; !ok {
			order = append(order, k)
		}
		vals[k] = append(vals[k], strings.TrimSpace(string(p.V)))
	}
	var errs []error
	failf := func(f string, a ...any) { errs = append(errs, fmt.Errorf(f, a...)) }
	ran := 0
	submitted := 0
	handler := func(ops []QOp) func(*water.Context) {
		return func(ctx *water.Context) {
			ran++
			for _, op := range ops {
				name, def := string(op.Name), string(op.Def)
				vs, has := vals[name]
				first := ""
				if has {
					first = vs[0]
					submitted++
				}
				fn, dflt := op.Fn, op.Fn[0] == 'd'
				text := first
				if dflt {
					fn = fn[1:]
					if !has {
						text = def
					}
				}
				switch fn {
				case "query":
					got := ctx.Query(name)
					if dflt {
						got = ctx.DefaultQuery(name, def)
					}
					if got != text {
						failf("%s %q (default %q) is %q, want %q", op.Fn, name, def, got, text)
					}
				case "array":
					want := vs
					got := ctx.QueryArray(name)
					if dflt {
						d := []string{def, "other"}
						got = ctx.DefaultQueryArray(name, d)
						if !has {
							want = d
						}
					}
					if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
						failf("%s %q is %q, want %q", op.Fn, name, got, want)
					}
					if op.Mine && has { // what the handler does to its list is its own business
						for i := range got {
							got[i] = "mine"
						}
						_ = append(got[:0], "mine", "mine", "mine")
						if g := ctx.QueryArray(name); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) {
							failf("%s %q is %q after the handler changed the list it got, want %q", op.Fn, name, g, want)
						}
					}
				case "map":
					// name[sub]: sub is the text between the first brackets; anything behind them does not count
					all := map[string][]string{}
					for _, k := range order {
						i := strings.IndexByte(k, '[')
						if i < 1 || k[:i] != name {
							continue
						}
						if sub, _, ok := strings.Cut(k[i+1:], "]"); ok && sub != "" {
							all[sub] = append(all[sub], vals[k][0])
							o.LabelIf(k != name+"["+sub+"]", "odd sub-key")
						}
					}
					got := ctx.QueryMap(name)
					if dflt {
						d := map[string]string{"d": def}
						got = ctx.DefaultQueryMap(name, d)
						if len(all) == 0 {
							all = map[string][]string{"d": {def}}
						}
					}
					bad := len(got) != len(all)
					want := map[string]string{}
					clash := false
					for k, vs := range all {
						g, ok := got[k]
						bad = bad || !ok || !slices.Contains(vs, g) // any of them, if several parameters have that sub-key
						want[k] = g
						clash = clash || len(vs) > 1
					}
					if bad {
						failf("%s %q is %q, want %q", op.Fn, name, got, all)
					}
					if op.Mine && !clash && len(got) > 0 && !(dflt && got["d"] == def) {
						for k := range got {
							got[k] = "mine"
						}
						got["mine"] = ""
						if g := ctx.QueryMap(name); !mapsEqual(g, want) {
							failf("%s %q is %q after the handler changed the map it got, want %q", op.Fn, name, g, want)
						}
					}
					o.LabelIf(len(want) > 1, "map of several sub-keys")
				default:
					var got any
					switch op.Fn {
					case "bool":
						got = ctx.QueryBool(name)
					case "int":
						got = ctx.QueryInt(name)
					case "int64":
						got = ctx.QueryInt64(name)
					case "uint":
						got = ctx.QueryUint(name)
					case "uint64":
						got = ctx.QueryUint64(name)
					case "float64":
						got = ctx.QueryFloat64(name)
					case "dbool":
						got = ctx.DefaultQueryBool(name, def)
					case "dint":
						got = ctx.DefaultQueryInt(name, def)
					case "dint64":
						got = ctx.DefaultQueryInt64(name, def)
					case "duint":
						got = ctx.DefaultQueryUint(name, def)
					case "duint64":
						got = ctx.DefaultQueryUint64(name, def)
					case "dfloat64":
						got = ctx.DefaultQueryFloat64(name, def)
					}
					if err := typedOK(text, fn, got); err != nil {
						failf("%s %q (default %q): %v", op.Fn, name, def, err)
					}
				}
				o.LabelIf(dflt && !has, "default used")
				o.LabelIf(len(vs) > 1, "several values")
			}
			if ran == len(c.Ops) {
				ctx.String(200, "ok")
			}
		}
	}
	r := water.NewRouter()
	var hs []any
	for _, ops := range c.Ops {
		hs = append(hs, handler(ops))
	}
	regMethod(r, c.Method, "/q", hs...)
	e := r.Handler()
	var qs []string
	for _, p := range c.Query {
		qs = append(qs, string(p.Raw))
	}
	q := Req{Method: c.Method, Target: "/q", Body: S(c.body())}
	if len(qs) > 0 {
		q.Target += S("?" + strings.Join(qs, "&"))
	}
	if c.Kind == "none" {
		q.Body = ""
	}
	if c.CT != "" {
		q.H = append(q.H, KV{"Content-Type", c.CT})
	}
	resp, err := deliver(e, q, c.Wire)
	if err != nil {
		return err
	}
	if len(errs) > 0 {
		return fmt.Errorf("%s %s body %q: %v", c.Method, q.Target, q.Body, errs[0])
	}
	if ran != len(c.Ops) || resp.Status != 200 {
		return fmt.Errorf("handlers did not run: %v", resp)
	}
	if len(all) > 0 && submitted > 0 {
		o.NT()
	}
	o.Label("body " + c.Kind)
	return nil
}

// --- Q02: typed path parameters ---

type ParamCase struct {
	Vals []S
	Kind int // route shape
	Ask  S
	Wire bool
}

func genParamText(t *T) string {
	switch t.W(5, 3, 2) {
	case 0:
		return genPlainNumber(t)
	case 1:
		return pick(t, "true", "FALSE", "T", "0", "1", "True", "tRUE", "yes", "-1", "+1", "0x1F", "1_0", "1e3", "1E-3", ".5", "5.", "Inf", "-inf", "NaN", "nan", "1e400", "0x1p-2", " 1", "1 ", "007", "-0", "１２", "t", "f", "F", "x", "--1", "+-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4.9e-324", "1.7976931348623159e308", "infinity", "é", "%", "a?b", "a#b", "..", ".")
	}
	return genUTF8(t, 10)
}

func genPlainNumber(t *T) string {
	switch t.N(4) {
	case 0:
		return strconv.FormatInt(genInt64(t), 10)
	case 1:
		return strconv.FormatUint(t.U64()>>uint(t.N(64)), 10)
	case 2:
		return strconv.FormatFloat(genFloat(t), pick(t, byte('g'), 'f', 'e'), -1, 64)
	}
	n := t.Range(1, 24)
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789+-.eE_xX"[t.W(9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 2, 2, 2, 1, 1, 1, 1, 1)]
	}
	return string(b)
}

func genParam(t *T) ParamCase {
	c := ParamCase{Kind: t.N(5), Wire: t.Chance(1, 25), Ask: S(pick(t, "nope", "p", "P0", "p00", "", "*"))}
	for n := t.Range(1, 3); n > 0; n-- {
		v := strings.Map(func(r rune) rune {
			if r == '/' || r == 0 {
				return '-'
			}
			return r
		}, genParamText(t))
		c.Vals = append(c.Vals, S(v))
	}
	return c
}

// strictInt parses a decimal integer with optional sign, independently of strconv.
func strictInt(s string, signed bool, bits uint) (want any, ok bool) {
	d := s
	if signed && len(d) > 0 && (d[0] == '-' || d[0] == '+') {
		d = d[1:]
	}
	if d == "" {
		return nil, false
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return nil, false
		}
	}
	n, _ := new(big.Int).SetString(d, 10)
	if s[0] == '-' {
		n.Neg(n)
	}
	if signed {
		lim := new(big.Int).Lsh(big.NewInt(1), bits-1)
		if n.Cmp(lim) >= 0 || n.Cmp(new(big.Int).Neg(lim)) < 0 {
			return nil, false
		}
		return n.Int64(), true
	}
	if n.BitLen() > int(bits) {
		return nil, false
	}
	return n.Uint64(), true
}

func strictBool(s string) (bool, bool) {
	switch s {
	case "1", "t", "T", "true", "TRUE", "True":
		return true, true
	case "0", "f", "F", "false", "FALSE", "False":
		return false, true
	}
	return false, false
}

func checkParams(p water.Params, name, want string) error {
	if got := p.String(name); got != want {
		return fmt.Errorf("String(%q) is %q, want %q", name, got, want)
	}
	same := func(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }
	type res struct {
		fn   string
		got  any
		err  error
		must any
		want any
		ok   bool
	}
	var rs []res
	{
		v, err := p.Bool(name)
		w, ok := strictBool(want)
		rs = append(rs, res{"Bool", v, err, p.MustBool(name), w, ok})
	}
	{
		v, err := p.Int(name)
		w, ok := strictInt(want, true, strconv.IntSize)
		rs = append(rs, res{"Int", int64(v), err, int64(p.MustInt(name)), w, ok})
	}
	{
		v, err := p.Int64(name)
		w, ok := strictInt(want, true, 64)
		rs = append(rs, res{"Int64", v, err, p.MustInt64(name), w, ok})
	}
	{
		v, err := p.Uint(name)
		w, ok := strictInt(want, false, strconv.IntSize)
		rs = append(rs, res{"Uint", uint64(v), err, uint64(p.MustUint(name)), w, ok})
	}
	{
		v, err := p.Uint64(name)
		w, ok := strictInt(want, false, 64)
		rs = append(rs, res{"Uint64", v, err, p.MustUint64(name), w, ok})
	}
	for _, r := range rs {
		if (r.err == nil) != r.ok {
			return fmt.Errorf("%s of %q: error %v, but strict parsing succeeds: %v", r.fn, want, r.err, r.ok)
		}
		if r.ok && r.got != r.want {
			return fmt.Errorf("%s of %q is %v, want %v", r.fn, want, r.got, r.want)
		}
		if r.got != r.must {
			return fmt.Errorf("%s of %q is %v, Must%s is %v", r.fn, want, r.got, r.fn, r.must)
		}
	}
	f, err := p.Float64(name)
	w, werr := strconv.ParseFloat(want, 64)
	if (err == nil) != (werr == nil) {
		return fmt.Errorf("Float64 of %q: error %v, strict parsing: %v", want, err, werr)
	}
	if err == nil && !same(f, w) {
		return fmt.Errorf("Float64 of %q is %v, want %v", want, f, w)
	}
	if m := p.MustFloat64(name); !same(m, f) {
		return fmt.Errorf("Float64 of %q is %v, MustFloat64 is %v", want, f, m)
	}
	return nil
}

func runParam(c ParamCase, o *Obs) error {
	r := water.NewRouter()
	uri := ""
	target := ""
	for i, v := range c.Vals {
		switch c.Kind {
		case 0:
			uri += fmt.Sprintf("/<p%d>", i)
		case 1:
			uri += fmt.Sprintf("/x/<p%d:int>", i)
			target += "/x"
		case 2:
			uri += fmt.Sprintf("/<p%d ~ ((?s).*)>", i)
			if strings.Contains(string(v), "\n") {
				uri = strings.Replace(uri, "((?s).*)", "^([\\s\\S]*)$", -1)
			}
		case 3:
			uri += fmt.Sprintf("/:p%d", i)
		case 4:
			if i == len(c.Vals)-1 {
				uri += fmt.Sprintf("/*p%d", i)
			} else {
				uri += fmt.Sprintf("/s%d/<p%d>", i, i)
				target += fmt.Sprintf("/s%d", i)
			}
		}
		target += "/" + string(v)
	}
	uri = strings.Replace(uri, "((?s).*)", "^(.*)$", -1)
	var fail error
	ran := false
	h := func(ctx *water.Context) {
		ran = true
		for i, v := range c.Vals {
			name := fmt.Sprintf("p%d", i)
			if got := ctx.Param(name); got != string(v) {
				fail = fmt.Errorf("Param(%q) is %q, want %q", name, got, v)
				return
			}
			if err := checkParams(ctx.Params, name, string(v)); err != nil {
				fail = err
				return
			}
		}
		ask := string(c.Ask)
		if _, declared := ctx.Params[ask]; declared {
			return
		}
		p := ctx.Params
		for what, f := range map[string]func(){
			"Param": func() { ctx.Param(ask) }, "String": func() { p.String(ask) }, "Bool": func() { p.Bool(ask) },
			"Int": func() { p.Int(ask) }, "Int64": func() { p.Int64(ask) }, "Uint": func() { p.Uint(ask) }, "Uint64": func() { p.Uint64(ask) }, "Float64": func() { p.Float64(ask) },
			"MustBool": func() { p.MustBool(ask) }, "MustInt": func() { p.MustInt(ask) }, "MustInt64": func() { p.MustInt64(ask) },
			"MustUint": func() { p.MustUint(ask) }, "MustUint64": func() { p.MustUint64(ask) }, "MustFloat64": func() { p.MustFloat64(ask) },
		} {
			if !panics(f) {
				fail = fmt.Errorf("%s of the undeclared parameter %q does not panic", what, ask)
			}
		}
	}
	r.GET(uri, h)
	var enc strings.Builder
	for i := 0; i < len(target); i++ {
		if b := target[i]; b == '/' || strings.IndexByte(unreserved, b) >= 0 {
			enc.WriteByte(b)
		} else {
			fmt.Fprintf(&enc, "%%%02X", b)
		}
	}
	if last := string(c.Vals[len(c.Vals)-1]); last == "" {
		o.Label("skipped: empty last segment") // the trailing slash is trimmed
		return nil
	}
	if c.Vals[0] == "" && (c.Kind == 0 || c.Kind == 2 || c.Kind == 3) {
		o.Label("skipped: empty first segment")
		return nil
	}
	if _, err := deliver(r.Handler(), Req{Method: "GET", Target: S(enc.String())}, c.Wire); err != nil {
		return err
	}
	if fail != nil {
		return fmt.Errorf("route %q, path %q: %v", uri, target, fail)
	}
	if !ran {
		o.Label("not routed")
		return nil
	}
	for _, v := range c.Vals {
		if _, err := strconv.ParseFloat(string(v), 64); err == nil {
			o.NT()
			o.Label("numeric value")
		} else {
			o.Label("other value")
		}
	}
	return nil
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// --- Q03: facts about client and request ---

type FactsCase struct {
	Real, XFF, Proto, CT, UA, XRW, Conn, Upg *S
	XFF2, Conn2                              []S // further header lines
	Remote                                   string
	TLS                                      bool
	Extra                                    []KV
	Case                                     int // spelling of the header names
	Before                                   bool
}

func genIP(t *T) string {
	switch t.W(4, 1, 1) {
	case 0:
		return fmt.Sprintf("%d.%d.%d.%d", t.N(256), t.N(256), t.N(256), t.N(256))
	case 1:
		return pick(t, "2001:db8::1", "::1", "fe80::1%25eth0")
	}
	return pick(t, "unknown", "_hidden", "proxy.example", "10.0.0.1:8080", "[2001:db8::2]:99", "[::2]")
}

func genFacts(t *T) FactsCase {
	c := FactsCase{TLS: t.Bool(), Case: t.N(3), Before: t.Bool()}
	opt := func(num, den int, f func() string) *S {
		if !t.Chance(num, den) {
			return nil
		}
		s := S(f())
		return &s
	}
	c.Remote = pick(t, "192.0.2.7:4711", "10.1.2.3:80", "[2001:db8::9]:443", "[::1]:1", "127.0.0.1:65535", "host:1")
	c.Real = opt(1, 3, func() string {
		if t.Chance(1, 8) { // not what proxies send, but it is what is present
			return genIP(t) + pick(t, ",", ", ") + genIP(t)
		}
		return genIP(t)
	})
	c.XFF = opt(1, 2, func() string {
		var b strings.Builder
		for i, n := 0, t.Few(1, 5, 50); i < n; i++ {
			if i > 0 {
				b.WriteString(pick(t, ", ", ",", " , ", ",  ", ",\t", "\t,"))
			}
			if t.Chance(1, 25) {
				continue // an empty entry
			}
			b.WriteString(genIP(t))
		}
		return b.String()
	})
	if c.XFF != nil && t.Chance(1, 3) {
		for n := t.Range(1, 3); n > 0; n-- {
			c.XFF2 = append(c.XFF2, S(genIP(t)+pick(t, "", ", "+genIP(t), ","+genIP(t))))
		}
	}
	c.Proto = opt(1, 2, func() string { return pick(t, "http", "https", "ftp", "wss", "HTTPS", "h2", "httpss", "") })
	c.CT = opt(2, 3, func() string {
		base := pick(t, "application/json", "text/html", "application/x-www-form-urlencoded", "multipart/form-data", "application/vnd.api+json", "text/plain", "image/svg+xml", "a/b")
		return base + pick(t, "", ";charset=utf-8", "; charset=utf-8", " ; charset=utf-8", "; boundary=\"a b\"", ";a=b;c=d", "; a=b ; c=d")
	})
	c.UA = opt(1, 2, func() string { return pick(t, "Mozilla/5.0 (X11; Linux)", "curl/8", "x", "é") })
	c.XRW = opt(1, 2, func() string {
		return pick(t, "XMLHttpRequest", "XMLHttpRequest", "com.android.browser", "XMLHttpRequest2", "XMLHttp", "fetch")
	})
	c.Conn = opt(2, 3, func() string {
		return pick(t, "upgrade", "Upgrade", "keep-alive, Upgrade", "UPGRADE, x", "keep-alive", "x", "keep-alive,upgrade")
	})
	if c.Conn != nil && t.Chance(1, 4) {
		c.Conn2 = append(c.Conn2, S(pick(t, "Upgrade", "keep-alive", "upgrade, x")))
	}
	c.Upg = opt(2, 3, func() string {
		return pick(t, "websocket", "WebSocket", "WEBSOCKET", "h2c", "websocket2", "TLS/1.0", "web")
	})
	for n := t.N(3); n > 0; n-- {
		c.Extra = append(c.Extra, KV{S(pick(t, "X-One", "X-Two", "Accept", "Etag")), S(pick(t, "1", "a, b", "v w", "é", ""))})
	}
	return c
}

func spell(name string, k int) S {
	switch k {
	case 1:
		return S(strings.ToLower(name))
	case 2:
		return S(strings.ToUpper(name))
	}
	return S(name)
}

func runFacts(c FactsCase, o *Obs) error {
	q := Req{Method: "GET", Target: "/f", Remote: c.Remote, TLS: c.TLS}
	add := func(name string, v *S) {
		if v != nil {
			q.H = append(q.H, KV{spell(name, c.Case), *v})
		}
	}
	add("X-Real-IP", c.Real)
	add("X-Forwarded-For", c.XFF)
	for i := range c.XFF2 {
		add("X-Forwarded-For", &c.XFF2[i])
	}
	add("X-Forwarded-Proto", c.Proto)
	add("Content-Type", c.CT)
	add("User-Agent", c.UA)
	add("X-Requested-With", c.XRW)
	add("Connection", c.Conn)
	for i := range c.Conn2 {
		add("Connection", &c.Conn2[i])
	}
	add("Upgrade", c.Upg)
	for _, kv := range c.Extra {
		q.H = append(q.H, KV{spell(string(kv.K), c.Case), kv.V})
	}
	str := func(s *S) string {
		if s == nil {
			return ""
		}
		return string(*s)
	}
	var fail error
	n := 0
	h := func(ctx *water.Context) {
		n++
		bad := func(f string, a ...any) {
			if fail == nil {
				fail = fmt.Errorf(f, a...)
			}
		}
		// proxies
		var px []string
		if c.XFF != nil {
			for _, line := range append([]S{*c.XFF}, c.XFF2...) {
				for _, x := range strings.Split(string(line), ",") {
					px = append(px, strings.TrimSpace(x))
				}
			}
			if len(px) == 1 && *c.XFF == "" { // an empty header
				px = nil
			}
		}
		if got := ctx.Proxy(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", px) {
			bad("Proxy() is %q, want %q", got, px)
		}
		// address
		i := strings.LastIndex(c.Remote, ":")
		want := []string{c.Remote[:i], strings.Trim(c.Remote[:i], "[]")}
		if c.Real != nil {
			want = []string{string(*c.Real)}
		} else if len(px) > 0 && px[0] != "" {
			want = []string{px[0]}
		} else if len(px) > 0 { // an empty first entry is no address
			for _, x := range px {
				if x != "" {
					want = append(want, x)
					break
				}
			}
		}
		if got := ctx.RealIp(); !containsStr(want, got) {
			bad("RealIp() is %q, want %q", got, want[0])
		}
		// protocol
		own := "http"
		if c.TLS {
			own = "https"
		}
		switch p := str(c.Proto); p {
		case "http", "https":
			if got := ctx.Protocol(); got != p {
				bad("Protocol() is %q, want the forwarded %q", got, p)
			}
		case "HTTPS":
			if got := ctx.Protocol(); got != own && got != "https" {
				bad("Protocol() is %q", got)
			}
		default:
			if got := ctx.Protocol(); got != own {
				bad("Protocol() is %q, want %q (forwarded %q)", got, own, p)
			}
		}
		// content type
		media := str(c.CT)
		if i := strings.IndexByte(media, ';'); i >= 0 {
			media = media[:i]
		}
		media = strings.TrimSpace(media)
		if got := ctx.ContentType(); got != media {
			bad("ContentType() is %q, want %q", got, media)
		}
		if got := ctx.UserAgent(); got != str(c.UA) {
			bad("UserAgent() is %q, want %q", got, str(c.UA))
		}
		if got := ctx.IsAjax(); got != (str(c.XRW) == "XMLHttpRequest") {
			bad("IsAjax() is %v with %q", got, str(c.XRW))
		}
		up := false
		for _, line := range append([]S{S(str(c.Conn))}, c.Conn2...) {
			for _, x := range strings.Split(string(line), ",") {
				up = up || strings.EqualFold(strings.TrimSpace(x), "upgrade")
			}
		}
		ws := up && strings.EqualFold(str(c.Upg), "websocket")
		if got := ctx.IsWebsocket(); got != ws {
			bad("IsWebsocket() is %v with Connection %q Upgrade %q", got, str(c.Conn), str(c.Upg))
		}
		o.LabelIf(ws, "websocket")
		seen := map[string]bool{}
		for _, kv := range c.Extra {
			if seen[string(kv.K)] {
				continue
			}
			seen[string(kv.K)] = true
			for k := 0; k < 3; k++ {
				if got := ctx.GetHeader(string(spell(string(kv.K), k))); got != string(kv.V) {
					bad("GetHeader(%q) is %q, want %q", spell(string(kv.K), k), got, kv.V)
				}
			}
		}
		if got := ctx.GetHeader("X-Absent"); got != "" {
			bad("absent header is %q", got)
		}
	}
	r := water.NewRouter()
	if c.Before {
		r.Before(h)
	} else {
		r.Use(h)
	}
	r.GET("/f", h, func(ctx *water.Context) { ctx.String(200, "x") })
	if _, err := mustServe(r.Handler(), q.must()); err != nil {
		return err
	}
	if fail != nil {
		return fmt.Errorf("request %q from %s: %v", string(q.raw()), c.Remote, fail)
	}
	if n != 2 {
		return fmt.Errorf("handlers ran %d times", n)
	}
	o.LabelIf(c.XFF != nil && strings.Contains(string(*c.XFF), ","), "several proxies")
	o.LabelIf(len(c.XFF2)+len(c.Conn2) > 0, "several header lines")
	o.LabelIf(c.Real == nil && c.XFF == nil, "peer address")
	o.LabelIf(c.Proto != nil, "forwarded protocol")
	if len(q.H) >= 3 {
		o.NT()
	}
	return nil
}

func containsStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// --- Q04: environment ---

type EnvOp struct {
	Op  string
	K   string
	V   int // index of a value
	Sub *EnvReq
}

type EnvReq struct {
	Path string
	Ops  [][]EnvOp // per handler
	Boom bool      // the last handler panics
}

type EnvCase struct {
	Static, Rec bool
	Reqs        []EnvReq
}

var envValues = []any{nil, true, false, int(7), int(-7), int64(9), uint(11), uint64(13), 1.5, "str", "", []int{1}, error(nil), struct{ A int }{3},
	int32(7), float32(2.5), uint8(9), time.Duration(5), envName("x"), json.Number("12"), []byte("b"), func() any { return "called" }, func() (any, error) { return 1, nil },
	func() string { return "called" }, new(int), &struct{ A int }{4}, io.EOF, math.NaN(), []string(nil), map[string]any{"k": 1}, envName("str"), envNum(7), make(chan int), water.Environ{"k": 3}}

type envName string

func (n envName) String() string { return "name " + string(n) }

type envNum int64

// envSame reports whether a is the very value b.
func envSame(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if f, ok := a.(float64); ok {
		return math.Float64bits(f) == math.Float64bits(b.(float64))
	}
	switch v := reflect.ValueOf(a); v.Kind() {
	case reflect.Func, reflect.Pointer, reflect.Chan, reflect.Map:
		return v.Pointer() == reflect.ValueOf(b).Pointer()
	}
	return reflect.DeepEqual(a, b)
}

var typedGetters = []struct {
	name string
	of   reflect.Kind
	get  func(e water.Environ, k string) any
}{
	{"GetBool", reflect.Bool, func(e water.Environ, k string) any { return e.GetBool(k) }}, {"GetInt", reflect.Int, func(e water.Environ, k string) any { return e.GetInt(k) }},
	{"GetInt64", reflect.Int64, func(e water.Environ, k string) any { return e.GetInt64(k) }}, {"GetUint", reflect.Uint, func(e water.Environ, k string) any { return e.GetUint(k) }},
	{"GetUint64", reflect.Uint64, func(e water.Environ, k string) any { return e.GetUint64(k) }}, {"GetFloat64", reflect.Float64, func(e water.Environ, k string) any { return e.GetFloat64(k) }},
	{"GetString", reflect.String, func(e water.Environ, k string) any { return e.GetString(k) }},
}

func genEnvReq(t *T, depth int) EnvReq {
	q := EnvReq{Path: pick(t, "/a", "/b/x", "/b/y", "/missing"), Boom: t.Chance(1, 8)}
	for h := 0; h < 4; h++ {
		var ops []EnvOp
		next := false
		for n := t.N(6); n > 0; n-- {
			op := EnvOp{Op: pick(t, "set", "set", "eset", "get", "eget", "maybe", "has", "typed", "next", "sub", "all"), K: pick(t, "k", "l", "m", "", "K")}
			op.V = t.N(len(envValues))
			switch op.Op {
			case "next":
				if next {
					continue
				}
				next = true
			case "sub":
				if depth == 0 {
					continue
				}
				s := genEnvReq(t, depth-1)
				op.Sub = &s
			}
			ops = append(ops, op)
		}
		q.Ops = append(q.Ops, ops)
	}
	return q
}

func genEnv(t *T) EnvCase {
	c := EnvCase{Static: t.Bool(), Rec: t.Bool()}
	for n := t.Few(1, 5, 60); n > 0; n-- {
		c.Reqs = append(c.Reqs, genEnvReq(t, 2))
	}
	return c
}

type envRun struct {
	q     *EnvReq
	model map[string]any
	pos   int
	fails *[]string
	ops   int
}

type envKey struct{}

func runEnv(c EnvCase, o *Obs) error {
	var fails []string
	var e http.Handler
	var send func(q *EnvReq)
	step := func(ctx *water.Context) {
		st := ctx.Request.Context().Value(envKey{}).(*envRun)
		bad := func(f string, a ...any) {
			fails = append(fails, fmt.Sprintf(st.q.Path+": "+f, a...))
		}
		pos := st.pos
		st.pos++
		if pos == 0 && len(ctx.Environ) != 0 {
			bad("a new request starts with %v", map[string]any(ctx.Environ))
		}
		if pos < len(st.q.Ops) {
			for _, op := range st.q.Ops[pos] {
				want, has := st.model[op.K]
				v := envValues[op.V]
				st.ops++
				switch op.Op {
				case "set", "eset":
					p := panics(func() {
						if op.Op == "set" {
							ctx.Set(op.K, v)
						} else {
							ctx.Environ.Set(op.K, v)
						}
					})
					if p != has {
						bad("%s %q panics: %v, set before: %v", op.Op, op.K, p, has)
					}
					if !has {
						st.model[op.K] = v
					}
					o.LabelIf(has, "double set")
				case "get", "eget":
					var got any
					p := panics(func() {
						if op.Op == "get" {
							got = ctx.Get(op.K)
						} else {
							got = ctx.Environ.Get(op.K)
						}
					})
					if p == has {
						bad("%s %q panics: %v, set before: %v", op.Op, op.K, p, has)
					}
					if has && !envSame(got, want) {
						bad("%s %q is %v, want %v", op.Op, op.K, got, want)
					}
					o.LabelIf(has, "read back")
				case "maybe":
					got, ok := ctx.GetMaybe(op.K)
					if ok != has || !envSame(got, want) {
						bad("GetMaybe %q is %v %v, want %v %v", op.K, got, ok, want, has)
					}
				case "has":
					if ctx.Environ.Has(op.K) != has {
						bad("Has %q is %v", op.K, !has)
					}
				case "typed":
					for _, g := range typedGetters {
						fits := false
						if has && want != nil { // the type itself, not one made from it
							fits = reflect.TypeOf(want).Kind() == g.of && reflect.TypeOf(want).PkgPath() == ""
						}
						var got any
						if p := panics(func() { got = g.get(ctx.Environ, op.K) }); p == fits {
							bad("%s of %q, set: %v, to a %T: panics: %v", g.name, op.K, has, want, p)
						} else if fits && !envSame(got, want) {
							bad("%s of %q is %v, want %v", g.name, op.K, got, want)
						}
					}
					o.LabelIf(has, "typed reading")
					o.LabelIf(!has, "typed reading of nothing")
				case "all":
					if len(ctx.Environ) != len(st.model) {
						bad("environment is %v, want %v", map[string]any(ctx.Environ), st.model)
					}
				case "next":
					ctx.Next()
				case "sub":
					send(op.Sub)
					o.Label("nested request")
				}
			}
		}
		if pos == 3 && st.q.Boom {
			panic("wcheck: boom")
		}
	}
	send = func(q *EnvReq) {
		st := &envRun{q: q, model: map[string]any{}}
		r := Req{Method: "GET", Target: S(q.Path)}.must()
		r = r.WithContext(context.WithValue(r.Context(), envKey{}, st))
		_, pan := serve(e, r)
		if pan != nil && fmt.Sprint(pan) != "wcheck: boom" {
			fails = append(fails, fmt.Sprintf("%s: panic %v", q.Path, pan))
		}
		if st.ops > 2 {
			o.NT()
		}
	}
	r := water.NewRouter()
	r.Before(step)
	if c.Rec {
		r.Use(water.Recovery())
	}
	r.Use(step)
	r.GET("/a", step, step)
	r.GET("/b/<x>", step, step)
	opts := []water.Option{water.WithNoFoundHandlers(step, step, step)}
	if c.Static {
		opts = append(opts, water.WithStaticRouter(true))
	}
	e = r.Handler(opts...)
	for i := range c.Reqs {
		send(&c.Reqs[i])
		if len(fails) > 0 {
			return fmt.Errorf("request %d %s", i, fails[0])
		}
	}
	return nil
}

// --- Q05: bodies and uploads ---

type BodyCase struct {
	Method string
	CT     string
	Body   S
	Size   int
	Chunk  int
	Fail   bool
	Err    int // which error
	WithE  bool
	How    int
	Static bool
	Wire   bool
}

// bodyErrs are what request bodies fail with.
var bodyErrs = []error{errBody, io.ErrUnexpectedEOF, http.ErrBodyReadAfterClose, io.ErrClosedPipe, os.ErrDeadlineExceeded, fmt.Errorf("wrapped: %w", io.EOF), http.ErrAbortHandler, io.ErrNoProgress, context.Canceled, &http.MaxBytesError{Limit: 5}}

func genBody(t *T) BodyCase {
	c := BodyCase{Method: pick(t, "POST", "PUT", "PATCH", "DELETE", "GET"), CT: pick(t, "", "application/json", "text/plain", "application/x-www-form-urlencoded", "application/octet-stream", "multipart/form-data; boundary=b")}
	if t.Chance(1, 6) {
		c.Size = t.N(200000)
	} else {
		c.Body = S(genBytes(t, 300))
	}
	c.Chunk = pick(t, 0, 0, 1, 2, 7, 512)
	if c.Size > 0 && c.Chunk > 0 {
		c.Chunk += 100
	}
	c.Fail = t.Chance(1, 4)
	if c.Fail {
		c.Err = t.N(len(bodyErrs))
	}
	c.WithE = t.Chance(1, 3)
	c.How = t.N(4)
	c.Static = t.Bool()
	c.Wire = t.Chance(1, 20)
	return c
}

// genBodyHuge makes bodies of up to many megabytes.
func genBodyHuge(t *T) BodyCase {
	c := genBody(t)
	c.Body, c.Size = "", near(t, 18, 26)
	c.Chunk = pick(t, 0, 0, 512, 4096, 65536)
	c.Wire = t.Chance(1, 4)
	return c
}

func runBody(c BodyCase, o *Obs) error {
	data := LogCase{Body: c.Body, Size: c.Size}.data()
	var got []byte
	var gerr error
	ran := false
	h := func(ctx *water.Context) {
		ran = true
		switch c.How {
		case 0:
			got, gerr = ctx.BodyBytes()
		case 1:
			var s string
			s, gerr = ctx.BodyString()
			got = []byte(s)
		case 2:
			rc := ctx.ReadCloser()
			got, gerr = io.ReadAll(rc)
			rc.Close()
		case 3:
			// a part by hand, the rest by the accessor
			n := len(data) / 2
			first := make([]byte, n)
			_, gerr = io.ReadFull(ctx.ReadCloser(), first)
			if gerr == nil {
				var rest []byte
				rest, gerr = ctx.BodyBytes()
				got = append(first, rest...)
			}
		}
		ctx.String(200, "ok")
	}
	r := water.NewRouter()
	regMethod(r, c.Method, "/b", h)
	e := r.Handler(water.WithStaticRouter(c.Static))
	q := Req{Method: c.Method, Target: "/b"}
	if c.CT != "" {
		q.H = append(q.H, KV{"Content-Type", S(c.CT)})
	}
	if c.Wire {
		q.Body = S(data)
		c.Fail = false
		if _, err := deliver(e, q, true); err != nil {
			return err
		}
	} else {
		req := q.must()
		br := &errReader{data: data, chunk: c.Chunk, err: io.EOF, withEOF: c.WithE}
		if c.Fail {
			br.err = bodyErrs[c.Err]
		}
		req.Body = br
		req.ContentLength = -1
		if _, err := mustServe(e, req); err != nil {
			return err
		}
	}
	if !ran {
		return fmt.Errorf("handler did not run")
	}
	if c.Fail {
		if gerr == nil {
			return fmt.Errorf("reader %d: no error although the body failed after %d bytes", c.How, len(data))
		}
		o.Label("failing body")
		if want := bodyErrs[c.Err]; c.How < 2 && gerr != want && !strings.Contains(gerr.Error(), want.Error()) {
			return fmt.Errorf("reader %d: error %v, want the body's", c.How, gerr)
		}
	} else {
		if gerr != nil {
			return fmt.Errorf("reader %d: %v", c.How, gerr)
		}
		if !bytes.Equal(got, data) {
			return fmt.Errorf("reader %d: got %s, sent %s", c.How, sum(got), sum(data))
		}
	}
	if len(data) > 0 {
		o.NT()
	}
	o.LabelIf(c.Chunk > 0, "in chunks")
	o.LabelIf(c.Wire, "over a connection")
	return nil
}

// MPart is one part of a multipart body.
type MPart struct {
	Name S
	File *S `json:",omitempty"` // file name
	CT   string
	Data S
	Size int // generated data of that size instead
}

func (p MPart) data() []byte { return LogCase{Body: p.Data, Size: p.Size}.data() }

func mpBody(parts []MPart, boundary string) []byte {
	var b bytes.Buffer
	for _, p := range parts {
		fmt.Fprintf(&b, "--%s\r\nContent-Disposition: form-data; name=\"%s\"", boundary, mpEscape(string(p.Name)))
		if p.File != nil {
			fmt.Fprintf(&b, "; filename=\"%s\"", mpEscape(string(*p.File)))
		}
		b.WriteString("\r\n")
		if p.CT != "" {
			fmt.Fprintf(&b, "Content-Type: %s\r\n", p.CT)
		}
		b.WriteString("\r\n")
		b.Write(p.data())
		b.WriteString("\r\n")
	}
	fmt.Fprintf(&b, "--%s--\r\n", boundary)
	return b.Bytes()
}

type UpOp struct {
	Op   string
	Name S
	N    int
}

type UpCase struct {
	Method string
	Mem    int64 // -1: not configured
	Parts  []MPart
	Query  S
	Ops    []UpOp
	Static bool
	Wire   bool
	Chunk  int
	Case   int `json:",omitempty"`
}

const mpBoundary = "XbOuNdArYx7"

func genMPFile(t *T) *S {
	s := S(pick(t, "a.txt", "b.bin", "é 中.png", "with space", "quote\"d", "back\\slash", "semi;colon", "%41.txt", "..", "x", ".hidden", "a=b", "UPPER.TXT", "dots...", "'q'"))
	return &s
}

func genMParts(t *T, max int, names []string) []MPart {
	var ps []MPart
	for n := t.Range(0, max); n > 0; n-- {
		p := MPart{Name: S(pick(t, names...))}
		if t.Chance(2, 3) {
			p.File = genMPFile(t)
			p.CT = pick(t, "", "application/octet-stream", "text/plain", "image/png")
		}
		switch t.W(6, 2, 1) {
		case 0:
			p.Data = S(genBytes(t, 80))
		case 1:
			p.Data = S(pick(t, "--"+mpBoundary[:5], "\r\n--", "\r\n--"+mpBoundary[:len(mpBoundary)-1]+"\r\n", "--", "\r\n", "\r", "a\r\n\r\nb", "\n--"+mpBoundary[:3]+"--", " \r\n"))
		case 2:
			p.Size = t.Range(1, 5000)
		}
		if p.File == nil && t.Bool() {
			p.Size, p.Data = 0, S(genQValue(t))
		}
		ps = append(ps, p)
	}
	return ps
}

func genUp(t *T) UpCase {
	names := []string{"f", "g", "files[]", "名", "a b", "t"}
	c := UpCase{Method: pick(t, "POST", "POST", "PUT", "PATCH"), Mem: -1, Static: t.Bool(), Parts: genMParts(t, 5, names)}
	c.Query = S(pick(t, "", "", "q=1&t2=x"))
	if t.Chance(3, 4) {
		c.Mem = pick(t, int64(0), 1, 10, 100, 1000, 3000, 10000, 1<<20)
	}
	for n := t.Range(1, 8); n > 0; n-- {
		op := UpOp{Op: pick(t, "formfile", "formfile", "list", "save", "save", "query", "array", "parse", "bind"), Name: S(pick(t, names...)), N: t.N(6)}
		c.Ops = append(c.Ops, op)
	}
	c.Wire = t.Chance(1, 25)
	c.Chunk = pick(t, 0, 0, 1, 13, 700)
	c.Case = max(0, t.N(8)-5)
	return c
}

// genUpBig is about the default limit.
func genUpBig(t *T) UpCase {
	f := S("big.bin")
	c := UpCase{Method: "POST", Mem: -1}
	c.Parts = []MPart{{Name: "f", File: &f, Size: pick(t, 31<<20, 34<<20, 12<<20)}}
	if t.Bool() {
		c.Mem = pick(t, int64(5<<20), 40<<20)
	}
	if t.Bool() {
		c.Parts[0].Size = near(t, 16, 22)
	}
	c.Ops = []UpOp{{Op: pick(t, "formfile", "query", "bind", "parse"), Name: "f"}, {Op: pick(t, "list", "save"), Name: "f", N: t.N(6)}}
	return c
}

func tempFiles(dir string) []string {
	ents, _ := os.ReadDir(dir)
	var out []string
	for _, e := range ents {
		out = append(out, e.Name())
	}
	return out
}

func readFH(h *multipart.FileHeader) ([]byte, error) {
	f, err := h.Open()
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func checkFH(h *multipart.FileHeader, p MPart) error {
	if h == nil {
		return fmt.Errorf("no file header")
	}
	if h.Filename != string(*p.File) {
		return fmt.Errorf("file name %q, sent %q", h.Filename, *p.File)
	}
	b, err := readFH(h)
	if err != nil {
		return err
	}
	if d := p.data(); !bytes.Equal(b, d) || h.Size != int64(len(d)) {
		return fmt.Errorf("content of %q is %s (size %d), sent %s", h.Filename, sum(b), h.Size, sum(d))
	}
	if p.CT != "" && h.Header.Get("Content-Type") != p.CT {
		return fmt.Errorf("content type of %q is %q, sent %q", h.Filename, h.Header.Get("Content-Type"), p.CT)
	}
	return nil
}

type upTarget struct {
	F  *multipart.FileHeader   `form:"f"`
	L  []*multipart.FileHeader `form:"files[]"`
	G  string                  `form:"zz"`
	T2 string                  `form:"t2"`
}

func runUp(c UpCase, o *Obs) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	tmp := filepath.Join(dir, "tmp")
	out := filepath.Join(dir, "out")
	os.MkdirAll(tmp, 0o700)
	os.MkdirAll(out, 0o700)
	oldTmp, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	defer func() {
		if had {
			os.Setenv("TMPDIR", oldTmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	files := map[string][]MPart{}
	values := map[string][]string{}
	total := 0
	biggest := 0
	for _, p := range c.Parts {
		n := string(p.Name)
		if p.File != nil {
			files[n] = append(files[n], p)
			total += len(p.data()) + 1000
			biggest = max(biggest, len(p.data()))
		} else {
			values[n] = append(values[n], strings.TrimSpace(string(p.data())))
			total += 1000
		}
	}
	limit := c.Mem
	if limit < 0 {
		limit = 32 << 20
	}
	var fail error
	bad := func(f string, a ...any) {
		if fail == nil {
			fail = fmt.Errorf(f, a...)
		}
	}
	ran := false
	h := func(ctx *water.Context) {
		ran = true
		parsed := false
		for i, op := range c.Ops {
			name := string(op.Name)
			fs := files[name]
			switch op.Op {
			case "formfile":
				f, hd, err := ctx.FormFile(name)
				parsed = true
				if len(fs) == 0 {
					if err == nil {
						bad("op %d: FormFile(%q) finds a file that was not sent", i, name)
					}
					continue
				}
				if err != nil {
					bad("op %d: FormFile(%q): %v", i, name, err)
					continue
				}
				b, err := io.ReadAll(f)
				f.Close()
				if err != nil || !bytes.Equal(b, fs[0].data()) {
					bad("op %d: FormFile(%q) reads %s %v, sent %s", i, name, sum(b), err, sum(fs[0].data()))
				}
				if err := checkFH(hd, fs[0]); err != nil {
					bad("op %d: FormFile(%q): %v", i, name, err)
				}
			case "query", "array":
				vs := values[name]
				parsed = true
				if op.Op == "query" {
					want := ""
					if len(vs) > 0 {
						want = vs[0]
					}
					if got := ctx.Query(name); got != want {
						bad("op %d: Query(%q) is %q, want %q", i, name, got, want)
					}
				} else if got := ctx.QueryArray(name); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", vs) {
					bad("op %d: QueryArray(%q) is %q, want %q", i, name, got, vs)
				}
			case "parse":
				ctx.ParseFormOrMultipartForm()
				parsed = true
			case "bind":
				var v upTarget
				err := ctx.BindWith(&v, binding.FormMultipart)
				parsed = true
				if len(values["f"])+len(values["files[]"]) > 0 {
					continue // text for a file field: B07
				}
				if err != nil {
					bad("op %d: bind: %v", i, err)
					continue
				}
				if len(files["f"]) > 0 {
					if err := checkFH(v.F, files["f"][0]); err != nil {
						bad("op %d: bound f: %v", i, err)
					}
				} else if v.F != nil {
					bad("op %d: f bound from nothing", i)
				}
				if len(v.L) != len(files["files[]"]) {
					bad("op %d: %d files bound, %d sent", i, len(v.L), len(files["files[]"]))
					continue
				}
				for k := range v.L {
					if err := checkFH(v.L[k], files["files[]"][k]); err != nil {
						bad("op %d: bound file %d: %v", i, k, err)
					}
				}
			case "list", "save":
				if !parsed {
					ctx.ParseFormOrMultipartForm()
					parsed = true
				}
				if ctx.Request.MultipartForm == nil {
					bad("op %d: no multipart form after parsing", i)
					continue
				}
				hs := ctx.Request.MultipartForm.File[name]
				if len(hs) != len(fs) {
					bad("op %d: %d files under %q, %d sent", i, len(hs), name, len(fs))
					continue
				}
				for k, hd := range hs {
					if err := checkFH(hd, fs[k]); err != nil {
						bad("op %d: file %d under %q: %v", i, k, name, err)
					}
					if op.Op == "list" {
						continue
					}
					dst := filepath.Join(out, fmt.Sprintf("d%d", op.N))
					switch op.N {
					case 0: // replaced: longer
						os.WriteFile(dst, bytes.Repeat([]byte("old"), len(fs[k].data())/2+10), 0o644)
						o.Label("saved over a longer file")
					case 1: // replaced: shorter
						os.WriteFile(dst, []byte("o"), 0o644)
					case 2:
						dst = filepath.Join(out, "missing", "d")
					}
					err := ctx.SaveUploadedFile(hd, dst)
					if op.N == 2 {
						if err == nil {
							bad("op %d: saving into a missing directory reports success", i)
						}
						continue
					}
					if err != nil {
						bad("op %d: save: %v", i, err)
						continue
					}
					if b, err := os.ReadFile(dst); err != nil || !bytes.Equal(b, fs[k].data()) {
						bad("op %d: saved %s %v, sent %s", i, sum(b), err, sum(fs[k].data()))
					}
					o.Label("saved")
				}
			}
		}
		if parsed {
			t := tempFiles(tmp)
			if int64(biggest) > limit && len(t) == 0 {
				bad("a part of %d bytes is held in memory although the limit is %d", biggest, limit)
			}
			if int64(total) <= limit && len(t) > 0 {
				bad("parts of %d bytes are held on disk although the limit is %d", total, limit)
			}
			o.LabelIf(len(t) > 0, "held on disk")
			o.LabelIf(len(t) == 0, "held in memory")
		}
		if ctx.Request.MultipartForm != nil {
			ctx.Request.MultipartForm.RemoveAll()
		}
		ctx.String(200, "ok")
	}
	r := water.NewRouter()
	regMethod(r, c.Method, "/u", h)
	opts := []water.Option{water.WithStaticRouter(c.Static)}
	if c.Mem >= 0 {
		opts = append(opts, water.WithMaxMultipartMemory(c.Mem))
	}
	e := r.Handler(opts...)
	body := mpBody(c.Parts, mpBoundary)
	if len(c.Parts) == 0 {
		body = []byte("--" + mpBoundary + "--\r\n")
	}
	q := Req{Method: c.Method, Target: "/u", H: []KV{{"Content-Type", S(letters("multipart/form-data", c.Case) + "; boundary=" + mpBoundary)}}}
	if c.Query != "" {
		q.Target += "?" + c.Query
	}
	if c.Wire {
		q.Body = S(body)
		if _, err := deliver(e, q, true); err != nil {
			return err
		}
	} else {
		req := q.must()
		req.Body = &errReader{data: body, chunk: c.Chunk, err: io.EOF}
		req.ContentLength = int64(len(body))
		if _, err := mustServe(e, req); err != nil {
			return err
		}
	}
	if fail != nil {
		return fail
	}
	if !ran {
		return fmt.Errorf("handler did not run")
	}
	if len(files) > 0 {
		o.NT()
	}
	return nil
}

var _ = sort.Strings
var _ = textproto.CanonicalMIMEHeaderKey

func init() {
	register(&Property{ID: "Q01", Families: []*Family{
		fam("queries", 60000, "query strings and urlencoded, multipart and foreign bodies of random pairs in varying encodings, read by random accessor sequences in one or two handlers; non-trivial: an accessor asks for a submitted name",
			genQuery, runQuery),
	}})
	register(&Property{ID: "Q02", Families: []*Family{
		fam("params", 60000, "one to three path values (numbers near every bound, near-numbers, booleans, text) captured by five route shapes and read by all accessors; non-trivial: a value is a number",
			genParam, runParam),
	}})
	register(&Property{ID: "Q03", Families: []*Family{
		fam("facts", 60000, "random combinations of proxy, protocol, content-type, agent, Ajax and upgrade headers in varying spelling and spacing, peers and TLS; non-trivial: three or more headers",
			genFacts, runFacts),
	}})
	register(&Property{ID: "Q04", Families: []*Family{
		fam("environ", 40000, "histories of requests, nested ones too, whose handlers run random environment operations, some ending in a panic; non-trivial: more than two operations in a request",
			genEnv, runEnv),
	}})
	large := huge(fam("large", 24, "bodies of 256 KiB to 64 MiB and more; all are non-trivial", genBodyHuge, runBody))
	big := fam("limits", 12, "uploads around the default and configured limit of many megabytes; non-trivial: always", genUpBig, runUp)
	big.NoShrink = true
	big.Factor = 3
	register(&Property{ID: "Q05", Families: []*Family{
		fam("bodies", 30000, "bodies of any bytes, delivered in chunks, failing, or over a connection, read by every body accessor; non-trivial: not empty", genBody, runBody),
		fam("uploads", 8000, "multipart bodies of random files and fields (boundary-like content, odd names), memory limits from 0 to 1 MiB or unset, and random sequences of accessors, saves and binds; non-trivial: a file was sent", genUp, runUp),
		large, big,
	}})
}
