package harness

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"mime/multipart"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["flow"] = driveFlow }

type flowKey int // the context key of the value of a layer, 0: of the server around the mux

type flowRunKey struct{}

// flowRun is one request: what was sent, and what was seen of it
type flowRun struct {
	names  []string
	s      obj
	ev     arr
	cancel func()
	done   chan struct{}
	late   bool // the client does not go before the response is written
}

func flowReq(q *http.Request) obj {
	hdr := []string{}
	for k, vs := range q.Header {
		for i, v := range vs {
			hdr = append(hdr, fmt.Sprintf("%s[%d]: %s", k, i, textOf(v)))
		}
	}
	sort.Strings(hdr)
	return obj{"m": q.Method, "path": textOf(q.URL.Path), "raw": q.URL.RawPath, "query": q.URL.RawQuery, "host": q.Host + "|" + q.URL.Host, "remote": q.RemoteAddr,
		"scheme": q.URL.Scheme + "|" + q.URL.User.String() + "|" + q.URL.Fragment + "|" + fmt.Sprint(q.TLS != nil, q.Close), "trailer": textOf(fmt.Sprint(len(q.Trailer), q.Trailer)), "len": fmt.Sprint(q.ContentLength), "proto": q.Proto, "uri": q.RequestURI, "te": strings.Join(q.TransferEncoding, ","), "hdr": hdr}
}

func flowDeadline(ctx context.Context) string {
	if t, ok := ctx.Deadline(); ok {
		return fmt.Sprint(t.UnixNano())
	}
	return ""
}

func flowValue(ctx context.Context, k int) string { return str(ctx.Value(flowKey(k))) }

func flowView(ctx context.Context, mc path.MatchingContext, n int) obj {
	vals := []string{}
	for k := 0; k <= n; k++ {
		vals = append(vals, flowValue(ctx, k))
	}
	who := ""
	if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
		who = p.Identity()
	}
	return obj{"req": flowReq(mc.R), "vals": vals, "who": who, "nonce": bit(middleware.GetCSRFNonceFromContext(ctx) != ""), "var": mc.PathVar("x"), "dl": flowDeadline(ctx)}
}

func flowOf(ctx context.Context) *flowRun { return ctx.Value(flowRunKey{}).(*flowRun) }

func flowProbe(i int) middleware.Middleware {
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			run := flowOf(ctx)
			run.ev = append(run.ev, obj{"e": "down", "i": i, "view": flowView(ctx, mc, len(run.names))})
			return next(ctx, mc)
		}
	}
}

var flowPerm = auth.Permission{Scope: "a", Access: 1}

func flowLayer(name string, i int, nonces cache.Cache, r *rand.Rand) middleware.Middleware {
	switch name {
	case "cors":
		return middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"*"}, AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "PATCH", "LINK"}, AllowedHttpHeaders: []string{"X-A", "x-b", "Content-Type"}, SupportsCredentials: r.Intn(2) == 0})
	case "csrf":
		return middleware.CSRFPrevention(nonces)
	case "sec":
		return middleware.SecurityHeaders(middleware.SecurityHeadersConfig{STS: middleware.ShStrictTransportSecurityConfig{Enabled: r.Intn(3) > 0}, ClickJacking: middleware.ShClickJackingConfig{Enabled: r.Intn(2) == 0, XFrameOptionHeaderValue: "DENY"}, BlockContentSniffingEnabled: true, XSSProtectionEnabled: true})
	case "gz":
		return middleware.CompressResponse(pick(r, []int{1, 5, 9}))
	case "dump":
		return middleware.RequestDumper(func(string) {})
	case "panic":
		return middleware.PanicRecover()
	case "err":
		return middleware.ErrResponse(func(code int, err error) response.HttpResponse {
			return response.PlainTextHttpResponse(code, err.Error())
		})
	case "json":
		return middleware.ErrJsonResponse()
	case "principal":
		return middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			return auth.User{Id: fmt.Sprint("user", i), Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{flowPerm}}}}}}, nil
		})
	case "authz":
		return middleware.AuthorizeAll(flowPerm)
	}
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			switch name {
			case "value":
				ctx = context.WithValue(ctx, flowKey(i), fmt.Sprint("v", i))
			case "header":
				mc.R = mc.R.Clone(mc.R.Context())
				mc.R.Header.Set(fmt.Sprint("X-Layer-", i), fmt.Sprint("h", i))
			case "place":
				c := *mc.R
				u := *mc.R.URL
				u.Path, u.RawPath, u.RawQuery = fmt.Sprint("/other", i), "", fmt.Sprint("o=", i)
				c.URL = &u
				mc.R = &c
			}
			return next(ctx, mc)
		}
	}
}

// flowSaw records what the handler finds
func flowSaw(run *flowRun, ctx context.Context, q *http.Request, view obj) {
	form := []string{}
	for k, vs := range q.Form {
		for _, v := range vs {
			form = append(form, k+"="+v)
		}
	}
	body, err := io.ReadAll(q.Body)
	if err != nil {
		body = []byte("unreadable: " + err.Error())
	}
	c0 := bit(ctx.Err() != nil || q.Context().Err() != nil)
	if !run.late {
		run.cancel()
	}
	c1 := bit(ctx.Err() != nil && q.Context().Err() != nil)
	run.ev = append(run.ev, obj{"e": "handler", "view": view, "body": flowText(body), "form": form, "rout": flowValue(q.Context(), 0), "c0": c0, "c1": c1})
}

// flowText shortens large bodies
func flowText(b []byte) string {
	if len(b) < 400 {
		return textOf(string(b))
	}
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%d bytes, %x", len(b), h)
}

func flowHandler(kind string) handler.Handler {
	std := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		run := flowOf(q.Context())
		v := obj{"req": flowReq(q), "vals": []string{}, "who": "", "nonce": 0, "var": "", "dl": ""}
		flowSaw(run, q.Context(), q, v)
		io.WriteString(w, "ok")
	})
	switch kind {
	case "func":
		return handler.HandlerFunc2Handler(std)
	case "handler":
		return handler.Handler2Handler(std)
	}
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		run := flowOf(ctx)
		flowSaw(run, ctx, mc.R, flowView(ctx, mc, len(run.names)))
		return flowResp{response.PlainTextHttpResponseOK("ok"), ctx, run}, nil
	}
}

// flowResp is a response that is produced while it is written
type flowResp struct {
	response.HttpResponse
	ctx context.Context
	run *flowRun
}

func (f flowResp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	view := flowView(f.ctx, mc, len(f.run.names))
	c0 := bit(f.ctx.Err() != nil || mc.R.Context().Err() != nil)
	f.run.cancel()
	f.run.ev = append(f.run.ev, obj{"e": "write", "view": view, "c0": c0, "c1": bit(f.ctx.Err() != nil && mc.R.Context().Err() != nil)})
	return f.HttpResponse.Write(w, mc)
}

// flowAround is the server around the mux
func flowAround(mux http.Handler, take func(*http.Request) *flowRun) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		run := take(q)
		ctx := context.WithValue(q.Context(), flowRunKey{}, run)
		ctx = context.WithValue(ctx, flowKey(0), "outer"+str(run.s["var"]))
		var cancel func()
		if len(run.names)%2 == 0 {
			ctx, cancel = context.WithTimeout(ctx, time.Hour)
		} else {
			ctx, cancel = context.WithCancel(ctx)
		}
		defer cancel()
		run.cancel = cancel
		q = q.WithContext(ctx)
		run.ev = append(run.ev, obj{"e": "in", "req": flowReq(q), "outer": flowValue(ctx, 0), "dl": flowDeadline(ctx)})
		defer close(run.done)
		pn, _ := protect(func() { mux.ServeHTTP(w, q) })
		if !pn {
			run.ev = append(run.ev, obj{"e": "out", "req": flowReq(q)})
		}
	})
}

type flowSite struct {
	r      *rand.Rand
	names  []string
	nonces cache.Cache
	around http.Handler
	mu     sync.Mutex
	runs   map[string]*flowRun
	num    int
	ci     bool
	base   string
}

var flowKinds = []string{"gofre", "func", "handler"}
var flowMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "LINK", "OPTIONS", "HEAD", "TRACE"}

// flowSafe: no nonce is asked for
func flowSafe(m string) bool { return m == "GET" || m == "HEAD" || m == "OPTIONS" || m == "TRACE" }

func newFlowSite(r *rand.Rand, names []string) *flowSite {
	s := &flowSite{r: r, names: names, nonces: cache.NewInMemory(), runs: map[string]*flowRun{}, ci: r.Intn(3) == 0}
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: s.ci, ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	var all []middleware.Middleware
	for i, n := range names {
		all = append(all, flowProbe(i+1), flowLayer(n, i+1, s.nonces, r))
	}
	all = append(all, flowProbe(len(names)+1))
	a := r.Intn(len(all) + 1)
	b := a + r.Intn(len(all)-a+1)
	m.CommonMiddlewares(all[:a]...)
	sub := m
	s.base = pick(r, []string{"", "/P", "/p/Q"})
	if s.base != "" {
		sub = m.RouteUsingPathPrefix(s.base)
	} else {
		sub = m.Clone()
	}
	sub.CommonMiddlewares(all[a:b]...)
	for _, k := range flowKinds {
		h := flowHandler(k)
		for _, me := range flowMethods {
			sub.HandleRequest(me, "/"+k+"/{x}", h, all[b:]...)
			sub.HandleRequest(me, "/"+k+"/{x}/**", h, all[b:]...)
		}
	}
	s.around = flowAround(m, func(q *http.Request) *flowRun {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.runs[q.URL.Query().Get("run")]
	})
	return s
}

// request makes up a request and what is to be known about it
func (s *flowSite) request() (*flowRun, *http.Request) {
	r := s.r
	s.num++
	id := fmt.Sprint(s.num)
	kind, m := pick(r, flowKinds), pick(r, flowMethods)
	if r.Intn(15) == 0 {
		m = pick(r, []string{strings.ToLower(m), m[:1] + strings.ToLower(m[1:])})
	}
	v := pick(r, []string{"one", "Two", "é", "a b", "x+y", "50%", "a.b", "~", "q?", "#", "日本", "A;b=c", "..."}) + id
	if r.Intn(12) == 0 {
		v += strings.Repeat(pick(r, []string{"w", "é", "a b"}), pick(r, []int{20, 60, 130, 400}))
	}
	base := s.base + "/" + kind
	if s.ci && r.Intn(2) == 0 {
		base = strings.ToUpper(base)
	}
	target := base + "/" + url.PathEscape(v) + pick(r, []string{"", "", "/", "/a", "/A/b", "/a//b/", "/a/../b", "/./a", "/%41", "/a%2Fb", "/%c3%a9", "/%ff", "/a/..%2f"})
	target += "?run=" + id + pick(r, []string{"", "", "&a=1&a=2", "&b", "&c=%20+", "&_method=DELETE", "&_csrf=nope", "&%zz", "&d=é"})
	fields := url.Values{}
	run := &flowRun{names: s.names, done: make(chan struct{}), late: kind == "gofre" && r.Intn(2) == 0}
	var body []byte
	ct, typ := "", pick(r, []string{"none", "text", "json", "form", "form", "multi", "big", "odd"})
	if flowSafe(m) && r.Intn(4) > 0 {
		typ = "none"
	}
	inh := 1
	nonce := "nonce-" + id
	csrf := false
	for _, n := range s.names {
		csrf = csrf || n == "csrf"
	}
	if csrf && !flowSafe(m) {
		s.nonces.Add(nonce, time.Hour)
		if (typ == "form" && (m == "POST" || m == "PUT" || m == "PATCH") || typ == "multi") && r.Intn(2) == 0 {
			inh = 0
			fields.Set(middleware.CSRFNonceRequestParamName, nonce)
			target = strings.ReplaceAll(target, "&_csrf=nope", "")
			target = strings.ReplaceAll(target, "&%zz", "")
		}
	}
	switch typ {
	case "text":
		ct, body = "text/plain; charset=utf-8", []byte("hello é "+id)
	case "json":
		ct, body = "application/json", []byte(`{"a": [1, 2, "`+id+`"]}`)
	case "form":
		ct = pick(r, []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8"})
		fields.Set("name", pick(r, []string{"a b", "é", "", "x&y=z"}))
		fields.Add("many", "1")
		fields.Add("many", id)
		body = []byte(fields.Encode())
	case "multi":
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		fields.Set("name", "a b")
		fields.Set("more", "é")
		for k := range fields {
			w.WriteField(k, fields.Get(k))
		}
		w.Close()
		ct, body = w.FormDataContentType(), b.Bytes()
	case "big":
		ct, body = "application/octet-stream", make([]byte, 1<<uint(12+r.Intn(8)))
		if r.Intn(12) == 0 {
			body = make([]byte, 1500000+r.Intn(3000000))
		}
		r.Read(body)
	case "odd":
		ct, body = pick(r, []string{"", "nonsense;;", "text/event-stream"}), []byte("\x00\xff\r\n0\r\n\r\n")
	}
	var rd io.Reader
	if typ != "none" {
		rd = bytes.NewReader(body)
		if r.Intn(4) == 0 {
			rd = struct{ io.Reader }{rd} // of unknown length
		}
	}
	absolute := r.Intn(8) == 0
	if absolute {
		target = pick(r, []string{"http://a.example:8080", "https://b.example", "HTTPS://u@c.example"}) + target
	}
	q := httptest.NewRequest(m, target, rd)
	switch r.Intn(4) {
	case 0:
		q.TLS = &tls.ConnectionState{}
	case 1:
		q.Proto, q.ProtoMinor = "HTTP/1.0", 0
	}
	q.Host = pick(r, []string{"a.example", "A.Example:8080", "[::1]:80", "127.0.0.1"})
	if ct != "" {
		q.Header.Set("Content-Type", ct)
	}
	if csrf && !flowSafe(m) && inh == 1 {
		q.Header.Set(middleware.CSRFRestNonceHeaderName, nonce)
	}
	for k := r.Intn(4); k > 0; k-- {
		h := pick(r, []kv{{"Accept-Encoding", "gzip, deflate"}, {"Accept-Encoding", "br;q=1, gzip;q=0"}, {"Origin", "https://o.example"}, {"Origin", "http://b.example:81"}, {"Cookie", "s=1; t=é"}, {"Cookie", "u=2"},
			{"X-Many", "a"}, {"X-Many", "b, c"}, {"X-Empty", ""}, {"Authorization", "Bearer x.y"}, {"If-None-Match", `"e"`}, {"Range", "bytes=0-1"}, {"Te", "trailers"}, {"Connection", "keep-alive, X-Many"}, {"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Keep-Alive", "timeout=5"}, {"X-Forwarded-Proto", "https"}, {"X-Forwarded-For", "1.2.3.4"}, {"Forwarded", "for=1.2.3.4"},
			{"X-Http-Method-Override", "DELETE"}, {"Access-Control-Request-Method", "POST"}, {"Access-Control-Request-Method", " PUT "}, {"Access-Control-Request-Headers", "X-A"}, {"Access-Control-Request-Headers", " x-B ,content-type"}, {"Accept", "text/html"}})
		q.Header.Add(h.K, h.V)
	}
	if m == "OPTIONS" && r.Intn(2) == 0 { // a preflight
		q.Header["Origin"] = []string{"https://o.example"}
		q.Header["Access-Control-Request-Method"] = []string{pick(r, []string{"PUT", " PUT ", "POST"})}
		q.Header["Access-Control-Request-Headers"] = pick(r, [][]string{nil, {"X-A"}, {"X-A", "X-B"}, {"x-a,", " , x-b"}, {" x-a , x-b "}})
	}
	if len(q.Header["Origin"]) > 1 || m != strings.ToUpper(m) || m == "POST" && ct == "" { // what is refused does not get to the handler
		q.Header.Del("Origin")
	}
	noise(q.Header)
	form := []string{}
	if typ == "form" || typ == "multi" {
		for k, vs := range fields {
			for _, x := range vs {
				form = append(form, k+"="+x)
			}
		}
	}
	run.s = obj{"names": append([]string{}, s.names...), "m": m, "type": typ, "body": flowText(body), "form": form, "inh": inh, "kind": kind, "var": v, "late": bit(run.late)}
	s.mu.Lock()
	s.runs[id] = run
	s.mu.Unlock()
	return run, q
}

func driveFlow(t *testing.T) {
	var g struct{ Stacks [][]string }
	readJSON("flow.json", &g)
	r := newRand(50)
	// longer stacks
	for k := 0; k < scale(80, 500); k++ {
		var names []string
		once := false
		who := false
		for n := 4 + r.Intn(12); n > 0; n-- {
			x := pick(r, []string{"cors", "csrf", "sec", "gz", "dump", "panic", "err", "json", "principal", "authz", "value", "header", "place"})
			if x == "csrf" && once || x == "authz" && !who {
				continue
			}
			once, who = once || x == "csrf", who || x == "principal"
			names = append(names, x)
		}
		g.Stacks = append(g.Stacks, names)
	}
	tr := newTrace("flow")
	put := func(run *flowRun) {
		run.s["ev"] = run.ev
		if run.ev == nil {
			run.s["ev"] = arr{obj{"e": "never came"}}
		}
		tr.put(run.s)
	}
	for si, names := range g.Stacks {
		s := newFlowSite(r, names)
		for k := scale(12, 12); k > 0; k-- {
			run, q := s.request()
			s.around.ServeHTTP(httptest.NewRecorder(), q)
			put(run)
		}
		if si%scale(15, 6) == 0 {
			flowServer(s, put)
		}
	}
	tr.close()
}

// flowServer sends requests over a real connection, several at a time
func flowServer(s *flowSite, put func(*flowRun)) {
	srv := httptest.NewServer(s.around)
	defer srv.Close()
	addr := srv.Listener.Addr().String()
	var runs []*flowRun
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		run, q := s.request()
		runs = append(runs, run)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := net.Dial("tcp", addr)
			if err != nil {
				panic(err)
			}
			defer c.Close()
			if len(q.Header["Connection"]) == 0 {
				q.Header.Set("Connection", "close")
			}
			q.Close = true
			if q.Write(c) != nil {
				return
			}
			io.Copy(io.Discard, c)
		}()
	}
	wg.Wait()
	for _, run := range runs {
		select {
		case <-run.done:
		case <-time.After(20 * time.Second):
			run.ev = arr{obj{"e": "never came"}}
		}
		put(run)
	}
}
