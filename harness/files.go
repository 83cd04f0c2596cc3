package main

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"reflect"
	"strconv"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// FileF is a field of a multipart target.
type FileF struct {
	Go   string
	Name S
	Kind string
	Sub  []FileF `json:",omitempty"`
}

type FilesCase struct {
	Fields []FileF
	Parts  []MPart
	Src    string // ctx, direct, alt
	Method string
	Mem    int64 // parsed beforehand with that limit; -1: not
	Chunk  int
	Pre    bool `json:",omitempty"` // fields hold something before
}

var fileKinds = map[string]reflect.Type{
	"fh": reflect.TypeOf((*multipart.FileHeader)(nil)), "fhs": reflect.TypeOf([]*multipart.FileHeader(nil)),
	"fhval": reflect.TypeOf(multipart.FileHeader{}), "fhvals": reflect.TypeOf([]multipart.FileHeader(nil)),
	"fharr": reflect.TypeOf([2]*multipart.FileHeader{}), "fhvalarr": reflect.TypeOf([2]multipart.FileHeader{}),
	"str": reflect.TypeOf(""), "int": reflect.TypeOf(0), "strs": reflect.TypeOf([]string(nil)), "ints": reflect.TypeOf([]int(nil)),
	"strp": reflect.TypeOf((*string)(nil)), "bool": reflect.TypeOf(false), "any": reflect.TypeOf((*any)(nil)).Elem(), "bytes": reflect.TypeOf([]byte(nil)),
	"mapss": reflect.TypeOf(map[string]string(nil)),
}

func fileType(fs []FileF) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		s := reflect.StructField{Name: f.Go}
		switch f.Kind {
		case "struct", "structptr":
			s.Type = fileType(f.Sub)
			if f.Kind == "structptr" {
				s.Type = reflect.PointerTo(s.Type)
			}
		default:
			s.Type = fileKinds[f.Kind]
			s.Tag = reflect.StructTag("form:" + strconv.Quote(string(f.Name)))
		}
		sf = append(sf, s)
	}
	return reflect.StructOf(sf)
}

func genFileFields(t *T, alt bool, depth int, n *int) []FileF {
	var fs []FileF
	for k := t.Range(1, 5); k > 0; k-- {
		*n++
		f := FileF{Go: fmt.Sprintf("F%d", *n), Name: S(fmt.Sprintf("%s%d", pick(t, "f", "files[]", "名", "a b", "Up.load", "t"), *n))}
		if depth > 0 && t.Chance(1, 5) {
			f.Kind = pick(t, "struct", "structptr")
			f.Sub = genFileFields(t, alt, depth-1, n)
		} else {
			switch t.W(3, 3, 2, 3, 1) {
			case 0:
				f.Kind = "fh"
			case 1:
				f.Kind = "fhs"
			case 2:
				f.Kind = pick(t, "str", "int", "strs", "ints", "strp", "bool")
			case 3:
				f.Kind = pick(t, "fh", "fhs", "str")
				if alt {
					f.Kind = pick(t, "fhval", "fhvals", "fharr", "fhvalarr")
				}
			case 4:
				f.Kind = pick(t, "any", "bytes", "mapss", "str")
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func fileLeaves(fs []FileF, out []FileF) []FileF {
	for _, f := range fs {
		if f.Sub != nil {
			out = fileLeaves(f.Sub, out)
		} else {
			out = append(out, f)
		}
	}
	return out
}

func (f FileF) forFiles() bool { return f.Kind[:1] == "f" }

func genFiles(t *T) FilesCase {
	c := FilesCase{Src: pick(t, "ctx", "ctx", "direct", "alt"), Method: pick(t, "POST", "PUT", "PATCH"), Mem: -1, Chunk: pick(t, 0, 0, 1, 9), Pre: t.Chance(1, 4)}
	if c.Src != "ctx" && t.Bool() {
		c.Mem = pick(t, int64(0), 10, 1000, 1<<20)
	}
	n := 0
	c.Fields = genFileFields(t, c.Src == "alt", 2, &n)
	bad := t.Chance(1, 5)
	for _, f := range fileLeaves(c.Fields, nil) {
		if !t.Chance(3, 4) {
			continue
		}
		files := f.forFiles()
		if bad && t.Chance(1, 3) {
			files = !files
		} else if f.Kind == "any" || f.Kind == "bytes" || f.Kind == "mapss" {
			continue
		}
		m := 1
		if t.Chance(1, 2) {
			m = t.Few(1, 4, 60)
		}
		if f.Kind == "fharr" || f.Kind == "fhvalarr" {
			m = 2
			if bad && t.Bool() {
				m = t.Range(1, 3)
			}
		}
		for ; m > 0; m-- {
			c.Parts = append(c.Parts, genFilePart(t, f, files))
		}
	}
	for n := t.N(3); n > 0; n-- { // names no field has
		c.Parts = append(c.Parts, genFilePart(t, FileF{Name: S(pick(t, "other", "F", "-", "zz")), Kind: "str"}, t.Bool()))
	}
	for i := len(c.Parts) - 1; i > 0; i-- {
		j := i - t.N(i+1)
		c.Parts[i], c.Parts[j] = c.Parts[j], c.Parts[i]
	}
	return c
}

func genFilePart(t *T, f FileF, file bool) MPart {
	p := MPart{Name: f.Name}
	if file {
		p.File = genMPFile(t)
		p.CT = pick(t, "", "application/octet-stream", "text/plain", "image/png", "application/json")
		switch t.W(6, 2, 1, 1) {
		case 0:
			p.Data = S(genBytes(t, 80))
		case 1:
			p.Data = S(pick(t, "--"+mpBoundary[:5], "\r\n--", "\r\n--"+mpBoundary[:len(mpBoundary)-1]+"\r\n", "--", "\r\n", "\r", "a\r\n\r\nb", " \r\n"))
		case 2:
			p.Size = t.Range(1, 5000)
		}
		return p
	}
	switch f.Kind {
	case "int", "ints":
		p.Data = S(fmt.Sprint(t.N(2000) - 1000))
	case "bool":
		p.Data = S(pick(t, "true", "false", "1"))
	case "str", "strp", "strs":
		p.Data = S(genText(t, 20))
	default:
		p.Data = S(pick(t, "text", "{}", `{"Filename":"evil","Size":7}`, "", "null"))
	}
	return p
}

func runFiles(c FilesCase, o *Obs) error {
	typ := fileType(c.Fields)
	obj := reflect.New(typ)
	body := mpBody(c.Parts, mpBoundary)
	req := newReq(c.Method, "", "multipart/form-data; boundary="+mpBoundary, nil)
	req.Body = io.NopCloser(chunkReader{bytes.NewReader(body), c.Chunk})
	req.ContentLength = int64(len(body))
	if c.Mem >= 0 {
		if err := req.ParseMultipartForm(c.Mem); err != nil {
			bug("parse: %v", err)
		}
		o.Label("parsed beforehand")
	}
	defer func() {
		if req.MultipartForm != nil {
			req.MultipartForm.RemoveAll()
		}
	}()
	if c.Pre { // what fields hold before does not matter
		for i, f := range c.Fields {
			n := 0
			for _, p := range c.Parts {
				if p.Name == f.Name && p.File != nil {
					n++
				}
			}
			if n == 0 {
				continue
			}
			switch f.Kind {
			case "fh":
				obj.Elem().Field(i).Set(reflect.ValueOf(&multipart.FileHeader{Filename: "before"}))
			case "fhs":
				obj.Elem().Field(i).Set(reflect.ValueOf(make([]*multipart.FileHeader, 1+i%3)))
			}
			o.Label("field holds something before")
		}
	}
	var err error
	var pan any
	fail := func(f string, a ...any) error {
		var ps string
		for _, p := range c.Parts {
			k := "text"
			if p.File != nil {
				k = fmt.Sprintf("file %q", *p.File)
			}
			ps += fmt.Sprintf("%q: %s %s; ", p.Name, k, short(string(p.data())))
		}
		return fmt.Errorf("%s bind of {%s} to %v: %s", c.Src, ps, typ, fmt.Sprintf(f, a...))
	}
	// checked inside the handler: the files may go away with the request
	check := func() error {
		vals, files := map[string][]string{}, map[string][]MPart{}
		for _, p := range c.Parts {
			if p.File != nil {
				files[string(p.Name)] = append(files[string(p.Name)], p)
			} else {
				vals[string(p.Name)] = append(vals[string(p.Name)], string(p.data()))
			}
		}
		wantErr := ""
		for _, f := range fileLeaves(c.Fields, nil) {
			fl, vl := files[string(f.Name)], vals[string(f.Name)]
			switch {
			case len(fl) > 0 && len(vl) > 0:
				return nil // both under one name: not specified
			case len(fl) > 0 && (!f.forFiles() || len(f.Kind) > 3 && c.Src != "alt"):
				wantErr = fmt.Sprintf("file for field %q", f.Name)
			case len(fl) > 0 && (f.Kind == "fharr" || f.Kind == "fhvalarr") && len(fl) != 2:
				wantErr = "wrong number of files for an array"
			case len(vl) > 0 && (f.forFiles() || f.Kind == "any"):
				wantErr = fmt.Sprintf("text for field %q", f.Name)
			case len(vl) > 0 && (f.Kind == "bytes" || f.Kind == "mapss"):
				return nil // not about files
			}
		}
		if wantErr != "" {
			o.Label("refused")
			o.NT()
			if err == nil {
				return fail("no error although there is a %s", wantErr)
			}
			return nil
		}
		if err != nil {
			return fail("%v", err)
		}
		n, e := checkFileFields(c.Fields, obj.Elem(), vals, files)
		if e != nil {
			return fail("%v", e)
		}
		if n > 0 {
			o.NT()
		}
		o.LabelIf(n > 1, "several files")
		return nil
	}
	var res error
	switch c.Src {
	case "ctx":
		if e := inCtx(req, func(ctx *water.Context) {
			err = ctx.Bind(obj.Interface())
			if ctx.Request.MultipartForm != nil {
				req.MultipartForm = ctx.Request.MultipartForm
			}
			res = check()
		}); e != nil {
			return fail("%v", e)
		}
		return res
	case "direct":
		pan = catch(func() { err = binding.FormMultipart.Bind(req, obj.Interface()) })
	case "alt":
		pan = catch(func() { err = binding.FormMultipart.Bind2(req, obj.Interface()) })
	}
	if pan != nil {
		return fail("panic %v", pan)
	}
	o.Label(c.Src)
	return check()
}

// checkFileFields compares the bound fields with the parts; n is the number of files delivered.
func checkFileFields(fs []FileF, v reflect.Value, vals map[string][]string, files map[string][]MPart) (n int, err error) {
	for i, f := range fs {
		fv := v.Field(i)
		if f.Sub != nil {
			if f.Kind == "structptr" {
				if fv.IsNil() {
					fv = reflect.New(fv.Type().Elem())
				}
				fv = fv.Elem()
			}
			m, err := checkFileFields(f.Sub, fv, vals, files)
			n += m
			if err != nil {
				return n, err
			}
			continue
		}
		fl, vl := files[string(f.Name)], vals[string(f.Name)]
		if f.forFiles() {
			var got []*multipart.FileHeader
			add := func(x reflect.Value) {
				switch y := x.Interface().(type) {
				case *multipart.FileHeader:
					got = append(got, y)
				case multipart.FileHeader:
					got = append(got, &y)
				}
			}
			if k := fv.Kind(); k == reflect.Slice || k == reflect.Array {
				for j := 0; j < fv.Len(); j++ {
					add(fv.Index(j))
				}
			} else {
				add(fv)
				if len(fl) > 1 {
					fl = fl[:1]
				}
			}
			if len(fl) == 0 {
				for _, h := range got {
					if h != nil && h.Filename != "" {
						return n, fmt.Errorf("field %q holds a file %q although none was uploaded", f.Name, h.Filename)
					}
				}
				if (f.Kind == "fh" || f.Kind == "fhs") && !fv.IsNil() {
					return n, fmt.Errorf("field %q is not nil although no file was uploaded", f.Name)
				}
				continue
			}
			if len(got) != len(fl) {
				return n, fmt.Errorf("field %q holds %d files, %d were uploaded", f.Name, len(got), len(fl))
			}
			for j, h := range got {
				if err := checkFH(h, fl[j]); err != nil {
					return n, fmt.Errorf("file %d of field %q: %v", j, f.Name, err)
				}
				n++
			}
			continue
		}
		var want any
		first := ""
		if len(vl) > 0 {
			first = vl[0]
		}
		atoi := func(s string) int { x, _ := strconv.Atoi(s); return x }
		got := fv.Interface()
		switch f.Kind {
		case "str":
			want = first
		case "int":
			want = atoi(first)
		case "bool":
			want = first == "true" || first == "1"
		case "strs":
			want, got = fmt.Sprintf("%q", vl), fmt.Sprintf("%q", got)
		case "ints":
			xs := []int{}
			for _, s := range vl {
				xs = append(xs, atoi(s))
			}
			want, got = fmt.Sprint(xs), fmt.Sprint(got)
		case "strp":
			p := got.(*string)
			if (p == nil) != (len(vl) == 0) {
				return n, fmt.Errorf("field %q: nil %v with values %q", f.Name, p == nil, vl)
			}
			if p == nil {
				continue
			}
			want, got = first, *p
		default:
			continue
		}
		if got != want {
			return n, fmt.Errorf("field %q is %v, submitted %q", f.Name, got, vl)
		}
	}
	return n, nil
}

func init() {
	register(&Property{ID: "B07", Families: []*Family{
		fam("uploads", 6000, "random target types of file-header fields, lists, text fields and nested structures, and random parts for them, through a request context, the binder itself, and the alternative binder; non-trivial: at least one file is delivered or one is refused", genFiles, runFiles),
	}})
}
