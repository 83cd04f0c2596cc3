From 426c669034fd5bb1b5df6fdfc989f75553b46ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 01/43] fix: captures of a regexp segment leak into params when
 the branch is abandoned

---
 tree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 08f6628..c6a39e8 100644
--- a/tree.go
+++ b/tree.go
@@ -285,10 +285,11 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
+			// capture only when the rest of the uri matches too
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					params[n.subNodes[i].wildcards[j]] = results[j+1]
+				}
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From ed1d1b90febe389edaf37eaf35ffe7e6100b2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 02/43] fix: several match-all routes at one level are matched
 in add order for any depth

---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index c6a39e8..88046a0 100644
--- a/tree.go
+++ b/tree.go
@@ -313,8 +313,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for _, end := range n.endNodes { //for match "/*", use add order
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From ff52f8bf575b27c996028cbd17cadcb3faec67bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 03/43] fix: static route sees the params of an earlier request

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 386dc10..8f62101 100644
--- a/context.go
+++ b/context.go
@@ -35,6 +35,7 @@ func newContext() *Context {
 }
 
 func (ctx *Context) reset() {
+	ctx.Params = nil
 	ctx.index = 0
 
 	ctx.written = false
-- 
2.43.0


From eb6f9ee0b665c7ef9aa160f63f0bf94418f00aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 04/43] fix: middleware given to Group runs for the routes of
 that group only

---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..969a8c1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From c84013d0a0849d75644937721ef8d9f4e6800381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 05/43] fix: FullPath reports a route whose handlers are not
 the running ones

---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 9466b6b..fb398ba 100644
--- a/engine.go
+++ b/engine.go
@@ -175,7 +175,9 @@ func (e *Engine) buildTree() {
 			e.routersStatic[MethodIndex(v.method)][v.variantUri] = endNode
 		}
 
-		endNode.matchNode = v
+		if endNode.matchNode == nil { // equivalent uri, e.g. /:id and /<id>: the first one serves
+			endNode.matchNode = v
+		}
 	}
 }
 
-- 
2.43.0


From dcdea8962bf70ed6288cef9d19d97f0146fb7608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 06/43] fix: params of a static route are a nil map, unlike
 those of any other route

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 8f62101..c0996b7 100644
--- a/context.go
+++ b/context.go
@@ -35,7 +35,7 @@ func newContext() *Context {
 }
 
 func (ctx *Context) reset() {
-	ctx.Params = nil
+	ctx.Params = make(Params)
 	ctx.index = 0
 
 	ctx.written = false
-- 
2.43.0


From 3cb5692d25f17c1d1d286dc35a3d2c4602a56fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 07/43] fix: a regexp segment without group, e.g. <id ~ 70|80>,
 never matches

---
 tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree.go b/tree.go
index 88046a0..4a238d0 100644
--- a/tree.go
+++ b/tree.go
@@ -123,6 +123,9 @@ func analyzePattern(pattern string) (typ byte, parsedPattern string, wildcards [
 				panic(fmt.Sprintf("invalid regexp pattern[%s], err: %s", pattern, err.Error()))
 			}
 			reg = regexp.MustCompile(regExp)
+			if reg.NumSubexp() == 0 && len(wildcards) == 1 { // <id ~ 70|80>: no group, capture the whole match
+				reg = regexp.MustCompile("(" + regExp + ")")
+			}
 		} else {
 			typ = _PATTERN_HOLDER
 		}
-- 
2.43.0


From e3ba892f67e1d7cf836ad5d0cdb13b68c7a2e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 08/43] fix: <_ ~ regexp> captures although _ means ignore

---
 tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 4a238d0..b877008 100644
--- a/tree.go
+++ b/tree.go
@@ -249,7 +249,9 @@ func (n *node) matchEndNode(globLevel int, uri string, params Params) *node {
 			}
 
 			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
-				params[n.endNodes[i].wildcards[j]] = results[j+1]
+				if n.endNodes[i].wildcards[j] != "_" {
+					params[n.endNodes[i].wildcards[j]] = results[j+1]
+				}
 			}
 			return n.endNodes[i]
 		case _PATTERN_HOLDER:
@@ -291,7 +293,9 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 			// capture only when the rest of the uri matches too
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
 				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-					params[n.subNodes[i].wildcards[j]] = results[j+1]
+					if n.subNodes[i].wildcards[j] != "_" {
+						params[n.subNodes[i].wildcards[j]] = results[j+1]
+					}
 				}
 				return end
 			}
-- 
2.43.0


From 766b977e696d860eca6b33dc6f5c0b1c8b9e243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 09/43] fix: part of a regexp with a colon is taken for the
 param name

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index b877008..fd5a652 100644
--- a/tree.go
+++ b/tree.go
@@ -78,7 +78,7 @@ func getparsedPattern(pattern string) string {
 		closeIdx = typeStartIdx
 	}
 	regStartIdx := strings.Index(pattern, "~")
-	if typeStartIdx == -1 && regStartIdx > -1 {
+	if regStartIdx > -1 && regStartIdx < closeIdx { // a ":" behind "~" belongs to the regexp
 		closeIdx = regStartIdx
 	}
 
-- 
2.43.0


From 00787219879f89e0469a8e9da2cf33ce38c809c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 10/43] fix: Content-Type set after the status was sent never
 reaches the client

---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From 00dec2b7248fd58839b6b145c027827bb41caa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 11/43] fix: file responses bypass the context, which then does
 not know that it is written

---
 content.go  | 2 +-
 m_static.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 23a7325..ef681f4 100644
--- a/content.go
+++ b/content.go
@@ -146,7 +146,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From 4e9becf7dbacd90fc0513b9c18cdd586f6c994bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 12/43] fix: static directories are served from the working
 directory, not the mounted file system

---
 m_static.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..966b89f 100644
--- a/m_static.go
+++ b/m_static.go
@@ -85,7 +85,22 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
+			if opt.hasIndex {
+				index, err := opt.FileSystem.Open(path.Join(ctx.Param("*0"), opt.IndexFile))
+				if err == nil {
+					defer index.Close()
+
+					if ifi, err := index.Stat(); err == nil && !ifi.IsDir() {
+						http.ServeContent(ctx, ctx.Request, ifi.Name(), ifi.ModTime(), index)
+						return
+					}
+				}
+			}
+
+			// no index: let net/http list the directory of the mounted file system
+			req := ctx.Request.Clone(ctx.Request.Context())
+			req.URL.Path = path.Clean("/"+ctx.Param("*0")) + "/"
+			http.FileServer(opt.FileSystem).ServeHTTP(ctx, req)
 			return
 		}
 
-- 
2.43.0


From 455da53217bb50eb95cd8f800d345146633d5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 13/43] fix: Logger cuts a JSON body at 1 MiB and hides read
 errors from handlers

---
 m_logger.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..4c4984e 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -62,10 +62,12 @@ func Logger() HandlerFunc {
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
 			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			// handlers still read the whole body: the logged part, then the rest
+			ctx.Request.Body = struct {
+				io.Reader
+				io.Closer
+			}{io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body), ctx.Request.Body}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From 331360f2fa2c22e4429fd9021941bf7a291266b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 14/43] fix: static hands unclean paths with dot segments to
 the file system

---
 m_static.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/m_static.go b/m_static.go
index 966b89f..c7e03aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -53,7 +53,9 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	}
 
 	h := func(ctx *Context) {
-		f, err := opt.FileSystem.Open(ctx.Param("*0"))
+		name := path.Clean("/" + ctx.Param("*0")) // like http.FileServer, never hand out ".."
+
+		f, err := opt.FileSystem.Open(name)
 		if err != nil {
 			ctx.WriteHeader(http.StatusNotFound)
 
@@ -86,7 +88,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 
 			if opt.hasIndex {
-				index, err := opt.FileSystem.Open(path.Join(ctx.Param("*0"), opt.IndexFile))
+				index, err := opt.FileSystem.Open(path.Join(name, opt.IndexFile))
 				if err == nil {
 					defer index.Close()
 
@@ -99,7 +101,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 
 			// no index: let net/http list the directory of the mounted file system
 			req := ctx.Request.Clone(ctx.Request.Context())
-			req.URL.Path = path.Clean("/"+ctx.Param("*0")) + "/"
+			req.URL.Path = strings.TrimSuffix(name, "/") + "/"
 			http.FileServer(opt.FileSystem).ServeHTTP(ctx, req)
 			return
 		}
-- 
2.43.0


From 2f16633b81889d0aa2e311ec036d7b6f8250ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 15/43] fix: the ETag of static files is not a valid entity-tag

---
 m_static.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/m_static.go b/m_static.go
index c7e03aa..723164f 100644
--- a/m_static.go
+++ b/m_static.go
@@ -115,6 +115,8 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				tag = GenerateETag2(fi.ModTime(), fi.Size(), fi.Name())
 			}
 
+			tag = `"` + tag + `"` // an entity-tag is a quoted string
+
 			ctx.Header().Set("ETag", tag)
 			if ctx.Request.Header.Get("If-None-Match") == tag {
 				ctx.WriteHeader(http.StatusNotModified)
-- 
2.43.0


From 3d65a3166f4d2615348bfde0e8cb5b73b31a8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 16/43] fix: binding truncates integers that do not fit the
 field

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..bff57ed 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
-- 
2.43.0


From 49fb2b0f9f88ec2e8eaf485e27fe2c08ac4855aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 17/43] fix: binding false leaves a true field unchanged

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index bff57ed..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From 396b44362b92af42041376b605cf1354a892e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 18/43] fix: a null element in bound JSON makes validation
 panic

---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..8293b57 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() { // e.g. [null] bound to []*struct
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0


From 508b29a21c09133b61abb19dda5d2a639ed28a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 19/43] fix: Bind panics instead of returning an error on a
 malformed form or query

---
 content.go | 24 ++++++++++++++++++------
 context.go |  2 ++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index ef681f4..249b8e4 100644
--- a/content.go
+++ b/content.go
@@ -288,9 +288,6 @@ func (ctx *Context) XML(code int, v interface{}) error {
 // Bind use http method and ContentType to decode req
 func (ctx *Context) Bind(obj interface{}) error {
 	b := binding.NewBindinger(ctx.Request.Method, ctx.ContentType())
-	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
-	}
 
 	return ctx.BindWith(obj, b)
 }
@@ -298,7 +295,9 @@ func (ctx *Context) Bind(obj interface{}) error {
 // BindWith use the assigned Bindinger to decode req
 func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
+		if err := ctx.parseParams(); err != nil {
+			return err
+		}
 	}
 
 	return b.Bind(ctx.Request, obj)
@@ -329,16 +328,29 @@ func (ctx *Context) ParseFormOrMultipartForm() {
 	if ctx.parsedParams {
 		return
 	}
+
+	if err := ctx.parseParams(); err != nil {
+		panic(err)
+	}
+}
+
+// parseParams parses once, every call returns the result of that
+func (ctx *Context) parseParams() error {
+	if ctx.parsedParams {
+		return ctx.parseErr
+	}
 	ctx.parsedParams = true
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
 		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
-			panic(errors.New("parseMultipartForm error:" + err.Error()))
+			ctx.parseErr = errors.New("parseMultipartForm error:" + err.Error())
 		}
 	} else {
 		if err := ctx.Request.ParseForm(); err != nil {
-			panic(errors.New("parseForm error:" + err.Error()))
+			ctx.parseErr = errors.New("parseForm error:" + err.Error())
 		}
 	}
+
+	return ctx.parseErr
 }
diff --git a/context.go b/context.go
index c0996b7..8b9be66 100644
--- a/context.go
+++ b/context.go
@@ -28,6 +28,7 @@ type Context struct {
 
 	endNode      *node // matched route node
 	parsedParams bool
+	parseErr     error // result of parsing
 }
 
 func newContext() *Context {
@@ -43,6 +44,7 @@ func (ctx *Context) reset() {
 
 	ctx.endNode = nil
 	ctx.parsedParams = false
+	ctx.parseErr = nil
 }
 
 func (ctx *Context) Next() {
-- 
2.43.0


From 855abc3c6ec46ddd5964067030d0fede6f8c5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 20/43] fix: binding descends into struct fields tagged -,
 without end if they are recursive

---
 binding/map_form.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 5ef1ecb..951b3c4 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -54,6 +54,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			continue
 		}
 
+		if typeField.Tag.Get(tag) == "-" { // just ignoring this field
+			continue
+		}
+
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
 				structField.Set(reflect.New(typeField.Type.Elem()))
-- 
2.43.0


From 47de89fd7b691e694ffcdf27ee4b250cc960867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 21/43] fix: binding sets an optional *time.Time that was not
 submitted, so required always holds

---
 binding/map_form.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 951b3c4..1675576 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -59,7 +59,8 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
+			if structField.IsNil() && typeField.Type.Elem() != timeType &&
+				(typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
 				structField.Set(reflect.New(typeField.Type.Elem()))
 
 				structField = structField.Elem()
-- 
2.43.0


From 700de2a52bae0c02c0a1c2d2c786f942fab59779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 22/43] fix: binding ignores the fields of a nested struct
 whose pointer is already set

---
 binding/map_form.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 1675576..79dad1d 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -62,7 +62,9 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			if structField.IsNil() && typeField.Type.Elem() != timeType &&
 				(typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
 				structField.Set(reflect.New(typeField.Type.Elem()))
+			}
 
+			if !structField.IsNil() && typeField.Type.Elem().Kind() == reflect.Struct {
 				structField = structField.Elem()
 			}
 		}
-- 
2.43.0


From cc624517723581a040c2400fd4380829be7a87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 23/43] fix: the default multipart memory limit is lost, and
 the last built engine sets it for all

---
 content.go | 2 +-
 context.go | 4 +++-
 engine.go  | 1 +
 router.go  | 5 ++---
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/content.go b/content.go
index 249b8e4..0113425 100644
--- a/content.go
+++ b/content.go
@@ -343,7 +343,7 @@ func (ctx *Context) parseParams() error {
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
-		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
 			ctx.parseErr = errors.New("parseMultipartForm error:" + err.Error())
 		}
 	} else {
diff --git a/context.go b/context.go
index 8b9be66..f36cf72 100644
--- a/context.go
+++ b/context.go
@@ -26,7 +26,9 @@ type Context struct {
 	written bool
 	status  int
 
-	endNode      *node // matched route node
+	endNode         *node // matched route node
+	multipartMemory int64 // from the options of the engine
+
 	parsedParams bool
 	parseErr     error // result of parsing
 }
diff --git a/engine.go b/engine.go
index fb398ba..e8e5bc0 100644
--- a/engine.go
+++ b/engine.go
@@ -98,6 +98,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 
 	ctx.ResponseWriter = rw.(ResponseWriter)
 	ctx.Request = req
+	ctx.multipartMemory = e.options.MaxMultipartMemory
 
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
diff --git a/router.go b/router.go
index 969a8c1..3868259 100644
--- a/router.go
+++ b/router.go
@@ -283,7 +283,7 @@ func (r *Router) Handler(opts ...Option) *Engine {
 		panic("sub router not allowed: Handler()")
 	}
 
-	o := &options{}
+	o := &options{MaxMultipartMemory: defaultMultipartMemory}
 	for _, f := range opts {
 		f(o)
 	}
@@ -320,8 +320,7 @@ func (r *Router) Handler(opts ...Option) *Engine {
 	w.routeStore = rs
 	w.options = o
 
-	defaultMultipartMemory = w.options.MaxMultipartMemory
-	binding.SetMultipartMemory(defaultMultipartMemory)
+	binding.SetMultipartMemory(w.options.MaxMultipartMemory)
 
 	w.buildTree()
 
-- 
2.43.0


From b55075bd2f0e369f61c9aef408cb26292a4ff0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 24/43] fix: X-Forwarded-For entries separated by a bare comma
 are taken for one address

---
 util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 8d895bf..8883867 100644
--- a/util.go
+++ b/util.go
@@ -33,7 +33,11 @@ func cleanPath(p string) string {
 
 func requestProxy(req *http.Request) []string {
 	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
-		return strings.Split(ips, ", ")
+		ls := strings.Split(ips, ",")
+		for i := range ls {
+			ls[i] = strings.TrimSpace(ls[i])
+		}
+		return ls
 	}
 
 	return nil
-- 
2.43.0


From c2d7cb57a9d210e54a047cc8a71d950f026c42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 25/43] fix: Content-Disposition is malformed for file names
 with : = or @

---
 util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 8883867..eed8f3f 100644
--- a/util.go
+++ b/util.go
@@ -69,8 +69,11 @@ func contentDisposition(fileName, dispositionType string) string {
 		return dispositionType
 	}
 
+	// RFC 5987: only unreserved characters may stay unescaped
+	name := strings.Replace(url.QueryEscape(fileName), "+", "%20", -1)
+
 	return fmt.Sprintf(`%s; filename="%s"; filename*=UTF-8''%s`,
-		dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))
+		dispositionType, name, name)
 }
 
 // check pattern segment
-- 
2.43.0


From 3efd897893f1e9584bc3268d069bb1ef4b818f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 26/43] fix: SetCookie with an invalid name sends an empty
 Set-Cookie header

---
 cookie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cookie.go b/cookie.go
index f3ffc37..746cfbb 100644
--- a/cookie.go
+++ b/cookie.go
@@ -105,5 +105,7 @@ func (ctx *Context) SetCookie(name string, value string, others ...interface{})
 		}
 	}
 
-	ctx.ResponseWriter.Header().Add("Set-Cookie", cookie.String())
+	if v := cookie.String(); v != "" {
+		ctx.ResponseWriter.Header().Add("Set-Cookie", v)
+	}
 }
-- 
2.43.0


From 61b74aa596f10e72eca9aed9a722f2e43647d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 27/43] fix: PrintRawRouter leaves the Before handlers out of
 its handler counts

---
 router_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router_print.go b/router_print.go
index e2e6835..c796187 100644
--- a/router_print.go
+++ b/router_print.go
@@ -27,7 +27,7 @@ func countHandlersForRawRouter(r *Router) int {
 		return len(r.befores) + len(r.handlers) + countHandlersForRawRouter(r.parent)
 	}
 
-	return len(r.befores) + len(r.handlers)
+	return len(r.gbefores) + len(r.befores) + len(r.handlers)
 }
 
 func printRawRouter(nodes []*Router, prefix string) {
-- 
2.43.0


From d297b0acd6544246f3da29c88db77eb8df0afdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 28/43] fix: text form values are decoded into file header
 fields

---
 binding/map_form.go | 2 ++
 binding/mapping.go  | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 79dad1d..8f58bfd 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -219,6 +219,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		switch structField.Interface().(type) {
 		case time.Time:
 			return setTimeField2(val, opt, structField)
+		case multipart.FileHeader: // only a file part can fill it
+			return setValueError(nameInTag, val)
 		}
 		return json.Unmarshal([]byte(val), structField.Addr().Interface())
 	case reflect.Map:
diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..eeb4a9e 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -95,7 +95,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		}
 	}
 
-	if vKind == reflect.Struct {
+	if vKind == reflect.Struct && value.Type() != multipartFileType.Elem() {
 		tValue := value.Type()
 
 		var isSetted bool
@@ -327,6 +327,8 @@ func setWithProperType(val string, value reflect.Value, field reflect.StructFiel
 		switch value.Interface().(type) {
 		case time.Time:
 			return setTimeField(val, field, value)
+		case multipart.FileHeader: // only a file part can fill it
+			return fmt.Errorf("%q is not a file", val)
 		}
 		return json.Unmarshal([]byte(val), value.Addr().Interface())
 	case reflect.Map:
-- 
2.43.0


From 31e88f60b4e0c0c8b24d44b8cdcd5b583320b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 29/43] fix: redirect to a static directory does not escape its
 path

---
 m_static.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 723164f..39c4476 100644
--- a/m_static.go
+++ b/m_static.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"net/url"
 	"path"
 	"path/filepath"
 	"strings"
@@ -83,7 +84,8 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
+				// the path is decoded: "?", "#", "%" and spaces have to be escaped again
+				http.Redirect(ctx, ctx.Request, (&url.URL{Path: redirPath + "/"}).String(), http.StatusFound)
 				return
 			}
 
-- 
2.43.0


From 26bc9f12e8a3d0be4fdddfafe7052e1a6ecc170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 30/43] fix: JSON of a map crashes (the pinned jsoniter cannot
 walk the maps of current Go)

---
 content.go | 1 +
 util.go    | 6 ------
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 0113425..427269c 100644
--- a/content.go
+++ b/content.go
@@ -1,6 +1,7 @@
 package water
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"errors"
 	"io"
diff --git a/util.go b/util.go
index eed8f3f..af532d6 100644
--- a/util.go
+++ b/util.go
@@ -9,12 +9,6 @@ import (
 	"runtime"
 	"strings"
 	"time"
-
-	jsoniter "github.com/json-iterator/go"
-)
-
-var (
-	json = jsoniter.ConfigCompatibleWithStandardLibrary
 )
 
 // from net/http
-- 
2.43.0


From 0dcf1de64b0fd0e7030cc264f9dc2734dbf644c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 31/43] fix: FormFile ignores the multipart memory limit of the
 engine

---
 content.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/content.go b/content.go
index 427269c..24c9b98 100644
--- a/content.go
+++ b/content.go
@@ -151,6 +151,12 @@ func (ctx *Context) File(filepath string) {
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
+	if ctx.Request.MultipartForm == nil { // Request.FormFile would not know the limit of the engine
+		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
+			return nil, nil, err
+		}
+	}
+
 	return ctx.Request.FormFile(name)
 }
 
-- 
2.43.0


From 28fdcdcf983bcaab89435c397421535800d004de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 32/43] fix: binding a recursive type overflows the stack

---
 binding/map_form.go | 12 +++++++++---
 binding/mapping.go  | 22 ++++++++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 8f58bfd..4bde2cf 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -36,15 +36,17 @@ func MapForm(obj interface{}, form map[string][]string,
 		return fmt.Errorf("form mapping need map[string]string, map[string][]string or struct")
 	}
 
-	return _mapForm(formStruct, form, formfile, tag)
+	return _mapForm(formStruct, form, formfile, tag, nil)
 }
 
+// outer are the struct types formStruct is nested in
 func _mapForm(formStruct reflect.Value, form map[string][]string,
-	formfile map[string][]*multipart.FileHeader, tag string) error {
+	formfile map[string][]*multipart.FileHeader, tag string, outer []reflect.Type) error {
 	if formStruct.Kind() == reflect.Ptr {
 		formStruct = formStruct.Elem()
 	}
 	typ := formStruct.Type()
+	outer = append(outer[:len(outer):len(outer)], typ)
 
 	for i := 0; i < typ.NumField(); i++ {
 		typeField := typ.Field(i)
@@ -61,6 +63,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			if structField.IsNil() && typeField.Type.Elem() != timeType &&
 				(typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
+				if containsType(outer, typeField.Type.Elem()) { // a recursive type has no end
+					continue
+				}
+
 				structField.Set(reflect.New(typeField.Type.Elem()))
 			}
 
@@ -70,7 +76,7 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if (structField.Kind() == reflect.Struct && structField.Type() != timeType) || typeField.Anonymous { // typeField.Anonymous is an embedded field
-			if err := _mapForm(structField, form, formfile, tag); err != nil {
+			if err := _mapForm(structField, form, formfile, tag, outer); err != nil {
 				return err
 			}
 		}
diff --git a/binding/mapping.go b/binding/mapping.go
index eeb4a9e..1fede49 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -62,6 +62,20 @@ func tryToSetValue(value reflect.Value, field reflect.StructField, setter setter
 }
 
 func mapping(value reflect.Value, field reflect.StructField, setter setter, tag string) (bool, error) {
+	return mappingNested(value, field, setter, tag, nil)
+}
+
+func containsType(types []reflect.Type, typ reflect.Type) bool {
+	for _, t := range types {
+		if t == typ {
+			return true
+		}
+	}
+	return false
+}
+
+// outer are the struct types value is nested in
+func mappingNested(value reflect.Value, field reflect.StructField, setter setter, tag string, outer []reflect.Type) (bool, error) {
 	if field.Tag.Get(tag) == "-" { // just ignoring this field
 		return false, nil
 	}
@@ -75,7 +89,10 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 			isNew = true
 			vPtr = reflect.New(value.Type().Elem())
 		}
-		isSetted, err := mapping(vPtr.Elem(), field, setter, tag)
+		if isNew && containsType(outer, vPtr.Type().Elem()) { // a recursive type has no end
+			return false, nil
+		}
+		isSetted, err := mappingNested(vPtr.Elem(), field, setter, tag, outer)
 		if err != nil {
 			return false, err
 		}
@@ -97,6 +114,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 
 	if vKind == reflect.Struct && value.Type() != multipartFileType.Elem() {
 		tValue := value.Type()
+		outer = append(outer[:len(outer):len(outer)], tValue)
 
 		var isSetted bool
 		for i := 0; i < value.NumField(); i++ {
@@ -104,7 +122,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 			if sf.PkgPath != "" && !sf.Anonymous { // unexported
 				continue
 			}
-			ok, err := mapping(value.Field(i), tValue.Field(i), setter, tag)
+			ok, err := mappingNested(value.Field(i), tValue.Field(i), setter, tag, outer)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 3d9ea17ba2c6ce461b44d7b43d76a4cb663674b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 33/43] fix: X-Forwarded-For entries of further header lines
 were ignored

---
 util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index af532d6..d2f72f4 100644
--- a/util.go
+++ b/util.go
@@ -26,7 +26,8 @@ func cleanPath(p string) string {
 }
 
 func requestProxy(req *http.Request) []string {
-	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
+	// every proxy may add its own header line
+	if ips := strings.Join(req.Header.Values(HeaderXForwardedFor), ","); ips != "" {
 		ls := strings.Split(ips, ",")
 		for i := range ls {
 			ls[i] = strings.TrimSpace(ls[i])
-- 
2.43.0


From 4e681deec768d4a71065e432394cefe94f554767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 34/43] fix: a websocket handshake was missed when Connection
 has several lines

---
 content.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content.go b/content.go
index 24c9b98..35015ad 100644
--- a/content.go
+++ b/content.go
@@ -100,7 +100,7 @@ func (ctx *Context) IsAjax() bool {
 }
 
 func (ctx *Context) IsWebsocket() bool {
-	if strings.Contains(strings.ToLower(ctx.Request.Header.Get("Connection")), "upgrade") &&
+	if strings.Contains(strings.ToLower(strings.Join(ctx.Request.Header.Values("Connection"), ",")), "upgrade") &&
 		strings.ToLower(ctx.Request.Header.Get("Upgrade")) == "websocket" {
 		return true
 	}
-- 
2.43.0


From 953dd0e80c18a6d8f9959206d837aa74f45d7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 35/43] fix: regexp groups of a route were counted by
 parentheses

Escaped parentheses and (?:...) were counted as groups, so that sound
patterns were refused and patterns that can never match were accepted.
---
 tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index fd5a652..468aea3 100644
--- a/tree.go
+++ b/tree.go
@@ -95,7 +95,12 @@ func partternRegexp(pattern string, want int) (string, error) {
 	closeIdx := strings.Index(pattern, ">")
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
-	if strings.ContainsAny(pattern, "()") && !(strings.Count(regExp, "(") == want && strings.Count(regExp, "(") == strings.Count(regExp, ")")) {
+	reg, err := regexp.Compile(regExp)
+	if err != nil {
+		return "", err
+	}
+	// count groups by the compiled regexp: "\(", "[(]" and "(?:" are not groups
+	if n := reg.NumSubexp(); n != want && !(n == 0 && want == 1) { // <id ~ 70|80> needs no group
 		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
-- 
2.43.0


From a30bd21fad1f41ecd580475963c988413e9caa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 36/43] fix: the query binder ignored a malformed query

---
 binding/query.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/binding/query.go b/binding/query.go
index 2ffaef0..e82f809 100644
--- a/binding/query.go
+++ b/binding/query.go
@@ -2,6 +2,7 @@ package binding
 
 import (
 	"net/http"
+	"net/url"
 )
 
 type queryBinding struct{}
@@ -11,14 +12,24 @@ func (queryBinding) Name() string {
 }
 
 func (queryBinding) Bind2(req *http.Request, obj interface{}) error {
-	if err := mapFormByTag(obj, req.URL.Query(), "form"); err != nil {
+	form, err := url.ParseQuery(req.URL.RawQuery)
+	if err != nil {
+		return err
+	}
+
+	if err := mapFormByTag(obj, form, "form"); err != nil {
 		return err
 	}
 	return validate(obj)
 }
 
 func (queryBinding) Bind(req *http.Request, obj interface{}) error {
-	if err := MapForm(obj, req.URL.Query(), nil, "form"); err != nil {
+	form, err := url.ParseQuery(req.URL.RawQuery)
+	if err != nil {
+		return err
+	}
+
+	if err := MapForm(obj, form, nil, "form"); err != nil {
 		return err
 	}
 	return validate(obj)
-- 
2.43.0


From 08bdf05639bd6f8c2135df4998db4580cf1d55f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 37/43] fix: serve files at paths ending in /index.html

Context.File, Context.ServeFile and Router.StaticFile answered a request for
such a path with http.ServeFile's redirect to "./" instead of the file.
---
 content.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/content.go b/content.go
index 35015ad..f45878a 100644
--- a/content.go
+++ b/content.go
@@ -147,7 +147,13 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx, ctx.Request, filepath)
+	req := ctx.Request
+	if strings.HasSuffix(req.URL.Path, "/index.html") { // http.ServeFile would redirect instead of serving the file
+		req = req.Clone(req.Context())
+		req.URL.Path = strings.TrimSuffix(req.URL.Path, "index.html")
+	}
+
+	http.ServeFile(ctx, req, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
@@ -199,7 +205,7 @@ func (ctx *Context) SaveUploadedFile(file *multipart.FileHeader, dst string) err
 }
 
 func (ctx *Context) ServeFile(filePath string) {
-	http.ServeFile(ctx, ctx.Request, filePath)
+	ctx.File(filePath)
 }
 
 func (ctx *Context) Download(fpath string, inline ...bool) error {
-- 
2.43.0


From 6f824fb835c843d35d303ebfe316a83e2a4c50c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:26 +0000
Subject: [PATCH 38/43] fix: HandlerName panicked for handlers that are not
 functions

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index d2f72f4..d54e6c9 100644
--- a/util.go
+++ b/util.go
@@ -105,8 +105,13 @@ func filterFlags(content string) string {
 	return content
 }
 
+// nameOfFunction returns the name of a function, for other handlers the one of their type
 func nameOfFunction(f interface{}) string {
-	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
+	v := reflect.ValueOf(f)
+	if v.Kind() != reflect.Func {
+		return v.Type().String()
+	}
+	return runtime.FuncForPC(v.Pointer()).Name()
 }
 
 // GenerateETag generates an ETag based on file modification time and size
-- 
2.43.0


From 765e53d063cae04b07040e4ac1861464d72fa2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:05 +0000
Subject: [PATCH 39/43] fix: regexps holding ">" were cut off at it

The end of the pattern is its last ">": "<v ~ ^a>b$>" matched "^a" only and
named groups, "(?P<v>...)", were refused as invalid.
---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 468aea3..046d38a 100644
--- a/tree.go
+++ b/tree.go
@@ -92,7 +92,7 @@ func partternRegexp(pattern string, want int) (string, error) {
 	}
 
 	startIdx := strings.Index(pattern, "~")
-	closeIdx := strings.Index(pattern, ">")
+	closeIdx := strings.LastIndex(pattern, ">") // the regexp may hold ">" too, e.g. (?P<id>...)
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
 	reg, err := regexp.Compile(regExp)
-- 
2.43.0


From b95120e361dc6217e3b0558e6fd54435b3aacecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:07 +0000
Subject: [PATCH 40/43] fix: informational statuses were taken for the response

After WriteHeader(103) (Early Hints) the context reported the response as
written with status 103: no later handler ran, the real status was dropped
and the client got an implicit 200.
---
 context.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/context.go b/context.go
index f36cf72..4b85b3b 100644
--- a/context.go
+++ b/context.go
@@ -76,6 +76,8 @@ func (ctx *Context) Status() int {
 func (ctx *Context) WriteHeader(code int) {
 	if ctx.written {
 		logx.Warn("water: multiple ctx.WriteHeader calls")
+	} else if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		ctx.ResponseWriter.WriteHeader(code) // informational, e.g. 103 Early Hints: the response is still to come
 	} else {
 		ctx.written = true
 		ctx.status = code
-- 
2.43.0


From 1efeb03017dc607adb09baf34a0277925768462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:35 +0000
Subject: [PATCH 41/43] fix: StaticAdvance under a prefix with match-alls
 serves the rest of the path

---
 m_static.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/m_static.go b/m_static.go
index 39c4476..0575c9c 100644
--- a/m_static.go
+++ b/m_static.go
@@ -5,6 +5,7 @@ import (
 	"net/url"
 	"path"
 	"path/filepath"
+	"strconv"
 	"strings"
 )
 
@@ -53,8 +54,11 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 		panic("need FileSystem")
 	}
 
+	// match-alls of the prefix are counted too
+	rest := "*" + strconv.Itoa(strings.Count(opt.Prefix, "/*"))
+
 	h := func(ctx *Context) {
-		name := path.Clean("/" + ctx.Param("*0")) // like http.FileServer, never hand out ".."
+		name := path.Clean("/" + ctx.Param(rest)) // like http.FileServer, never hand out ".."
 
 		f, err := opt.FileSystem.Open(name)
 		if err != nil {
@@ -126,7 +130,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param(rest), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From c945e32142ea023a640dad6f3e2d5a92603e01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:35 +0000
Subject: [PATCH 42/43] fix: panic for typed nil handler functions when the
 router is built

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index e8e5bc0..82b180b 100644
--- a/engine.go
+++ b/engine.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"reflect"
 	"sync"
 	"time"
 
@@ -20,6 +21,10 @@ func (f HandlerFunc) ServeHTTP(ctx *Context) {
 
 // support http.Handler, but not recommended
 func newHandler(handler interface{}) Handler {
+	if v := reflect.ValueOf(handler); v.Kind() == reflect.Func && v.IsNil() {
+		panic("nil handler")
+	}
+
 	switch h := handler.(type) {
 	case Handler:
 		return h
-- 
2.43.0


From 3a6b06b0bc8e254846d9b985d27d23d26f85bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:43 +0000
Subject: [PATCH 43/43] fix: media types of requests are case-insensitive

---
 binding/binding.go | 3 +++
 content.go         | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/binding/binding.go b/binding/binding.go
index 8377d85..82d1dbf 100644
--- a/binding/binding.go
+++ b/binding/binding.go
@@ -2,6 +2,7 @@ package binding
 
 import (
 	"net/http"
+	"strings"
 )
 
 const (
@@ -36,6 +37,8 @@ func NewBindinger(method, contentType string) Bindinger {
 		return Form
 	}
 
+	contentType = strings.ToLower(contentType) // media types are case-insensitive
+
 	if (method == http.MethodPost || method == http.MethodPut || method == http.MethodPatch) &&
 		contentType == MIMEMultipartPOSTForm {
 		return FormMultipart
diff --git a/content.go b/content.go
index f45878a..07aa289 100644
--- a/content.go
+++ b/content.go
@@ -355,7 +355,7 @@ func (ctx *Context) parseParams() error {
 	ctx.parsedParams = true
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
-		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
+		strings.Contains(strings.ToLower(ctx.Request.Header.Get("Content-Type")), "multipart/form-data") {
 		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
 			ctx.parseErr = errors.New("parseMultipartForm error:" + err.Error())
 		}
-- 
2.43.0

