package harness

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["isolation"] = driveIsolation }

type isoStep struct {
	O string `json:"o"`
	R int    `json:"r"`
	P int    `json:"p"`
}

// isoReq is one request of a history or of a storm
type isoReq struct {
	Id      string   `json:"id"`
	Pattern string   `json:"pattern"`
	Segs    []string `json:"segs"`
	Allow   int      `json:"allow"`
	Status  int      `json:"status"`
	Origin  string   `json:"origin"`
	User    string   `json:"user"`
	Body    string   `json:"body"`

	no       int
	url      string
	body     string
	kind     int
	cmd, ack chan string
	child    *isoReq
	mcs      []*path.MatchingContext
	copies   []path.MatchingContext
	ctx      context.Context
	rec      *httptest.ResponseRecorder
	mu       sync.Mutex
	ev       arr
}

// routes of different depths: what one request leaves in a buffer means something else to another one
var isoPatterns = []string{"/a/{x}", "/b/{x}/{y}", "/c/{x}/d/{y}/e/{z}", "/fix", "/g/{y:^[0-9]+$}/*/{x}", "/", "/h/{x}/**", "/**/k/{z}", "/i*/{y}/{x}"}
var isoNames = []string{"x", "y", "z"}

func isoPath(r *rand.Rand, pattern string, no int) string {
	n := 0
	var segs []string
	for _, s := range strings.Split(pattern[1:], "/") {
		n++
		switch {
		case s == "**":
			for k := 1 + r.Intn(4); k > 0; k-- {
				segs = append(segs, fmt.Sprintf("p%d%s", no, strings.Repeat("q", r.Intn(6))))
			}
		case s == "*", strings.HasPrefix(s, "{") && !strings.Contains(s, ":"):
			segs = append(segs, fmt.Sprintf("V%d-%d%s", no, n, strings.Repeat("w", pick(r, []int{0, 1, 3, 8, 8, 8, 70, 300}))))
		case strings.HasPrefix(s, "{"):
			segs = append(segs, fmt.Sprintf("%d%d%d", no, n, r.Intn(1000)))
		case strings.HasSuffix(s, "*"):
			segs = append(segs, s[:len(s)-1]+fmt.Sprint(no))
		default:
			segs = append(segs, s)
		}
	}
	p := "/" + strings.Join(segs, "/")
	if r.Intn(3) == 0 { // spelled another way
		k := r.Intn(len(segs) + 1)
		segs = append(append(append([]string{}, segs[:k]...), pick(r, [][]string{{"gone", ".."}, {""}, {"x", "y", "..", ".."}})...), segs[k:]...)
		p = "/" + strings.Join(segs, "/")
	}
	return p
}

func newIsoReq(r *rand.Rand, no int) *isoReq {
	q := &isoReq{no: no, Id: fmt.Sprint("id", no, "-", r.Intn(1000)), Pattern: pick(r, isoPatterns), Allow: 1, Status: 200,
		cmd: make(chan string), ack: make(chan string, 4), ev: arr{}, kind: r.Intn(6)}
	q.url = isoPath(r, q.Pattern, no)
	q.Segs = strings.Split(q.url[1:], "/")
	q.body = strings.Repeat("for "+q.Id+".", 1+r.Intn(3)*r.Intn(300))
	if q.kind == 3 {
		q.body = "Hello " + q.Id + " <" + q.Id + ">"
	}
	q.Body = token([]byte(q.body))
	return q
}

// response builds what the handler of q answers with
func (q *isoReq) response() response.HttpResponse {
	var h response.HttpHeaders
	var c response.HttpCookies
	if q.no%2 == 0 {
		h, c = response.NewHttpHeaders(), response.NewEmptyHttpCookie()
	}
	var resp response.HttpResponse
	switch q.kind {
	case 0:
		resp = response.PlainTextResponseWithHeadersAndCookies(200, q.body, h, c)
	case 1:
		resp = response.RawWriterHttpResponseWithHeadersAndCookies(200, "text/plain", h, c, func(w io.Writer) error {
			for i := 0; i < len(q.body); i += 1000 {
				if _, err := io.WriteString(w, q.body[i:min(i+1000, len(q.body))]); err != nil {
					return err
				}
				runtime.Gosched()
			}
			return nil
		})
	case 2:
		resp = response.StreamHttpResponseWithHeadersAndCookies(200, "text/plain", h, c, &slowReader{[]byte(q.body), 700})
	case 3:
		resp = response.TemplateHttpResponseWithHeadersAndCookies(textTemplate, 200, "page", q.Id, h, c)
	case 4:
		resp = response.HandlerFuncAdaptor(func(w http.ResponseWriter, _ *http.Request) { io.Copy(w, bytes.NewReader([]byte(q.body))) })
	default:
		resp = response.HtmlResponseWithHeadersAndCookies(200, q.body, h, c)
	}
	resp.Headers().Set("X-Own", q.Id)
	resp.Cookies().Add(&http.Cookie{Name: "own", Value: q.Id})
	return resp
}

func isoLook(e string, q *isoReq, at string, mc *path.MatchingContext, ctx context.Context) obj {
	v := make([]string, len(isoNames))
	for i, n := range isoNames {
		v[i] = mc.PathVar(n)
	}
	u := ""
	if ctx != nil {
		if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
			u = p.Identity()
		}
	}
	return obj{"e": e, "r": q.no, "at": at, "id": mc.R.Header.Get("X-Id"), "v": v, "user": u}
}

// parkResp stops before it is written
type parkResp struct {
	response.HttpResponse
	q *isoReq
	s *isoSite
}

func (p *parkResp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	p.q.mcs = append(p.q.mcs, &mc)
	p.q.ack <- "writing"
	p.s.park(p.q)
	return p.HttpResponse.Write(w, mc)
}

type isoSite struct {
	mux  *gofre.MuxHandler
	reqs map[string]*isoReq
	ran  atomic.Int64
}

// park waits for the next step of q and executes those on behalf of others
func (s *isoSite) park(q *isoReq) string {
	for {
		switch c := <-q.cmd; c {
		case "nest":
			s.serve(q.child)
		case "panic":
			panic("boom " + q.Id)
		default:
			return c
		}
	}
}

func (s *isoSite) serve(q *isoReq) {
	req := httptest.NewRequest("GET", "/", nil)
	req.URL.Path, req.URL.RawPath = q.url, ""
	req.Header.Set("X-Id", q.Id)
	noise(req.Header)
	q.rec = httptest.NewRecorder()
	func() {
		defer func() {
			if p := recover(); p != nil { // what the server does
				q.rec = httptest.NewRecorder()
				q.rec.WriteHeader(500)
			}
		}()
		s.mux.ServeHTTP(q.rec, req)
	}()
	q.ack <- "finished"
}

func newIsoSite(ci bool, recovers bool) *isoSite {
	s := &isoSite{reqs: map[string]*isoReq{}}
	s.mux, _ = gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: ci, ErrLogFunc: func(error) {}})
	if recovers {
		s.mux.CommonMiddlewares(middleware.PanicRecover())
	}
	// a middleware that keeps what it was given
	s.mux.CommonMiddlewares(func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			s.ran.Add(1)
			if q := s.reqs[mc.R.Header.Get("X-Id")]; q != nil {
				q.mcs = append(q.mcs, &mc)
			}
			return next(ctx, mc)
		}
	})
	for _, p := range isoPatterns {
		s.mux.HandleGet(p, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			q := s.reqs[mc.R.Header.Get("X-Id")]
			q.mcs = append(q.mcs, &mc)
			q.copies = append(q.copies, mc.Clone())
			q.ack <- "arrived"
			if s.park(q) == "fail" {
				return nil, errors.New("failed " + q.Id)
			}
			q.copies = append(q.copies, mc.Clone())
			return &parkResp{q.response(), q, s}, nil
		})
	}
	return s
}

func isoReply(e string, q *isoReq, status int, h http.Header, cookies []*http.Cookie, b []byte) obj {
	ids, cs := []string{}, []string{}
	ids = append(ids, h["X-Own"]...)
	for _, c := range cookies {
		if c.Name == "own" {
			cs = append(cs, c.Value)
		}
	}
	return obj{"e": e, "r": q.no, "status": status, "ids": ids, "cookies": cs, "body": token(b), "origin": strings.Join(h["Access-Control-Allow-Origin"], ",")}
}

func (q *isoReq) answered(e string) obj {
	res := q.rec.Result()
	return isoReply(e, q, res.StatusCode, res.Header, res.Cookies(), q.rec.Body.Bytes())
}

func isoHistory(r *rand.Rand, steps []isoStep) obj {
	ci := r.Intn(4) == 0
	s := newIsoSite(ci, r.Intn(2) == 0)
	var reqs []*isoReq
	live := map[int]bool{}
	parent := map[int]int{}
	phase := map[int]string{}
	ev := arr{}
	wait := func(q *isoReq) string {
		select {
		case a := <-q.ack:
			return a
		case <-time.After(60 * time.Second):
			panic("a request does not go on")
		}
	}
	start := func(q *isoReq, p int) {
		s.reqs[q.Id] = q
		if p == 0 {
			go s.serve(q)
		} else {
			reqs[p-1].child = q
			reqs[p-1].cmd <- "nest"
		}
	}
	look := func() {
		for _, q := range reqs {
			if live[q.no] {
				for i, m := range q.mcs {
					ev = append(ev, isoLook("look", q, fmt.Sprint(phase[q.no], i), m, nil))
				}
			}
			for i := range q.copies {
				ev = append(ev, isoLook("clone", q, "", &q.copies[i], nil))
			}
		}
	}
	do := func(st isoStep) {
		if !live[st.P] {
			st.P = 0
		}
		switch st.O {
		case "arrive":
			q := newIsoReq(r, st.R)
			reqs = append(reqs, q)
			parent[st.R] = st.P
			start(q, st.P)
			if wait(q) == "arrived" {
				live[st.R], phase[st.R] = true, "handling"
			} else {
				ev = append(ev, q.answered("reply"))
			}
		case "miss":
			q := newIsoReq(r, 0)
			q.url = pick(r, []string{"/nowhere", "/b/only", "/a" + strings.Repeat("/s", 30), "/g/x/y/z", "/a/b/c/d/e/f", "/fix/k/../x"})
			before := s.ran.Load()
			start(q, st.P)
			for a := wait(q); a != "finished"; a = wait(q) {
				q.cmd <- "on"
			}
			o := q.answered("miss")
			o["ran"] = s.ran.Load() - before
			ev = append(ev, o)
		default:
			if !live[st.R] {
				break
			}
			q := reqs[st.R-1]
			q.cmd <- st.O
			if a := wait(q); a == "writing" {
				phase[st.R] = "writing"
				break
			}
			live[st.R] = false
			ev = append(ev, q.answered(map[string]string{"panic": "panic", "fail": "fail"}[st.O]+map[bool]string{true: "reply"}[st.O == "finish" || st.O == "respond"]))
		}
		look()
	}
	for _, st := range steps {
		do(st)
	}
	// the rest is finished from within
	for again := true; again; {
		again = false
		for i := len(reqs); i > 0; i-- {
			busy := false
			for j, p := range parent {
				busy = busy || p == i && live[j]
			}
			if live[i] && !busy {
				do(isoStep{map[string]string{"handling": "respond", "writing": "finish"}[phase[i]], i, 0})
				again = true
			}
		}
	}
	ev = append(ev, obj{"e": "end", "v": len(reqs)})
	return obj{"ci": ci, "names": isoNames, "reqs": reqs, "ev": ev}
}

func isoRandom(r *rand.Rand, n, max int) []isoStep {
	phase, parent := map[int]int{}, map[int]int{}
	var steps []isoStep
	next := 1
	for len(steps) < n {
		var may []int
		for i := 1; i < next; i++ {
			ok := phase[i] == 1 || phase[i] == 2
			for j := 1; j < next; j++ {
				ok = ok && !(parent[j] == i && (phase[j] == 1 || phase[j] == 2))
			}
			if ok {
				may = append(may, i)
			}
		}
		p := 0
		if len(may) > 0 && r.Intn(2) == 0 {
			p = pick(r, may)
		}
		if k := r.Intn(10); k < 4 && next <= max {
			steps = append(steps, isoStep{"arrive", next, p})
			phase[next], parent[next] = 1, p
			next++
		} else if k == 4 {
			steps = append(steps, isoStep{"miss", 0, p})
		} else if len(may) > 0 {
			i := pick(r, may)
			o := pick(r, []string{"on", "on", "on", "on", "panic", "fail"})
			if o == "on" || o == "fail" && phase[i] == 2 {
				o = map[int]string{1: "respond", 2: "finish"}[phase[i]]
			}
			if phase[i]++; o == "panic" || o == "fail" {
				phase[i] = 3
			}
			steps = append(steps, isoStep{o, i, 0})
		} else if next > max {
			break
		}
	}
	return steps
}

func driveIsolation(t *testing.T) {
	r := newRand(103)
	if !raceBuild {
		// one processor and no collections: the buffer given back last is the next one taken
		procs := runtime.GOMAXPROCS(1)
		gc := debug.SetGCPercent(-1)
		debug.SetMemoryLimit(4 << 30)
		n := 0
		tr := newTrace("histories0")
		for _, steps := range behaviours[isoStep]("histories.json") {
			if n++; n%5000 == 0 {
				tr.close()
				tr = newTrace(fmt.Sprint("histories", n/5000))
			}
			tr.put(isoHistory(r, steps))
		}
		tr.close()
		tr = newTrace("long")
		for k := 0; k < scale(60, 1500); k++ {
			tr.put(isoHistory(r, isoRandom(r, 10+r.Intn(60), 12)))
		}
		tr.close()
		runtime.GOMAXPROCS(procs)
		debug.SetGCPercent(gc)
	}
	tr := newTrace("storms")
	for k := 0; k < scale(6, 60); k++ {
		tr.put(isoStorm(r, k))
	}
	tr.close()
}

// isoStorm sends many requests at once through all the bundled middlewares
func isoStorm(r *rand.Rand, k int) obj {
	var reqs []*isoReq
	byId := map[string]*isoReq{}
	var nonceMu sync.Mutex
	nonces := arr{}
	var dumps atomic.Int64
	nonceCache := cache.NewInMemory()
	mux, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	all := []middleware.Middleware{
		middleware.RequestDumper(func(string) { dumps.Add(1) }),
		middleware.CompressResponse(1 + r.Intn(9)),
		middleware.SecurityHeaders(middleware.SecurityHeadersConfig{STS: middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 7}, BlockContentSniffingEnabled: true, XSSProtectionEnabled: true,
			ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOptionHeaderValue: "DENY"}}),
		middleware.Cors(middleware.CorsConfig{SupportsCredentials: true, AllowedHttpMethods: []string{"GET", "POST"}, AllowedOrigins: []string{"https://a.example", "https://b.example", "https://c.example"}, ExposedHeaders: []string{"X-Own"}}),
		middleware.CSRFPrevention(nonceCache),
		middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			q := byId[mc.R.Header.Get("X-Id")]
			u := &auth.User{Id: q.User, Groups: []auth.Group{}}
			p := auth.Permission{Scope: "site.pages", Access: auth.AccessRead}
			if q.Allow == 0 {
				p = auth.Permission{Scope: "site.other", Access: auth.AccessRead}
			}
			u.Groups = append(u.Groups, auth.Group{Name: "g", Roles: []auth.Role{{Name: "r", AllowedPermissions: []auth.Permission{p}}}})
			return u, nil
		}),
		middleware.AuthorizeAll(auth.Permission{Scope: "site.pages", Access: auth.AccessRead}),
	}
	r.Shuffle(4, func(i, j int) { all[i], all[j] = all[j], all[i] })
	mux.CommonMiddlewares(append([]middleware.Middleware{middleware.PanicRecover(), middleware.ErrJsonResponse()}, all...)...)
	var serve func(q *isoReq) *httptest.ResponseRecorder
	var meet chan struct{}
	var arrived atomic.Int64
	var awaited int64
	isOuter := map[*isoReq]bool{}
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		q := byId[mc.R.Header.Get("X-Id")]
		see := func(at string, mc path.MatchingContext) {
			o := isoLook("look", q, at, &mc, ctx)
			q.mu.Lock()
			q.ev = append(q.ev, o)
			q.mu.Unlock()
		}
		see("in", mc)
		nonceMu.Lock()
		nonces = append(nonces, obj{"e": "nonce", "v": middleware.GetCSRFNonceFromContext(ctx)})
		nonceMu.Unlock()
		runtime.Gosched()
		if meet != nil && isOuter[q] { // all of them are under way at once
			if arrived.Add(1) == awaited {
				close(meet)
			}
			select {
			case <-meet:
			case <-time.After(60 * time.Second):
				q.mu.Lock()
				q.ev = append(q.ev, obj{"e": "the others never came", "r": q.no})
				q.mu.Unlock()
			}
		}
		if q.child != nil {
			rec := serve(q.child)
			q.child.ev = append(q.child.ev, q.child.decoded(rec))
			see("after", mc)
		}
		if q.no%3 == 0 {
			time.Sleep(time.Duration(q.no%7) * 100 * time.Microsecond)
		}
		see("out", mc)
		return &seeResp{q.response(), func(mc path.MatchingContext) { see("write", mc) }}, nil
	}
	for _, p := range isoPatterns {
		mux.HandleGet(p, h)
		mux.HandlePost(p, h)
	}
	request := func(q *isoReq, base string) *http.Request {
		method := "GET"
		nonce := ""
		if q.no%4 == 1 {
			method, nonce = "POST", fmt.Sprint("nonce", q.no)
			nonceCache.Add(nonce, time.Hour)
		}
		req, _ := http.NewRequest(method, base, nil)
		req.URL.Path = q.url
		req.Header.Set("X-Id", q.Id)
		req.Header.Set("Origin", q.Origin)
		if method == "POST" {
			req.Header.Set("Content-Type", "text/plain")
		}
		if nonce != "" {
			req.Header.Set(middleware.CSRFRestNonceHeaderName, nonce)
		}
		noise(req.Header)
		req.Header.Set("Accept-Encoding", []string{"gzip", "deflate", "identity", "br, gzip;q=0.5"}[q.no/4%4])
		return req
	}
	serve = func(q *isoReq) *httptest.ResponseRecorder {
		rec := httptest.NewRecorder()
		mux.ServeHTTP(rec, request(q, "http://site.example"))
		return rec
	}
	some := func() *isoReq {
		q := newIsoReq(r, len(reqs)+1)
		q.Origin = pick(r, []string{"https://a.example", "https://b.example", "https://c.example"})
		q.User = fmt.Sprint("user", q.no)
		reqs = append(reqs, q)
		byId[q.Id] = q
		return q
	}
	n := scale(160, 400)
	var outer []*isoReq
	for i := 0; i < n; i++ {
		q := some()
		outer = append(outer, q)
		isOuter[q] = true
		for r.Intn(3) == 0 {
			q.child = some()
			q = q.child
		}
		if r.Intn(4) == 0 {
			q.Allow, q.Status = 0, 401
		}
	}
	workers := pick(r, []int{4, 16, 64})
	if k%3 == 1 {
		workers, meet = n, make(chan struct{})
		for _, q := range outer {
			if q.Status != 401 {
				awaited++
			}
		}
	}
	var wg sync.WaitGroup
	c := make(chan *isoReq)
	h1 := httptest.NewServer(mux)
	h2 := httptest.NewUnstartedServer(mux)
	h2.EnableHTTP2 = true
	h2.StartTLS()
	for _, c := range []*http.Client{h1.Client(), h2.Client()} {
		c.Transport.(*http.Transport).DisableCompression = true
		c.Transport.(*http.Transport).MaxIdleConnsPerHost = 64
	}
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for q := range c {
				if g%3 == 0 {
					rec := serve(q)
					q.ev = append(q.ev, q.decoded(rec))
					continue
				}
				h := h1
				if g%3 == 1 {
					h = h2
				}
				resp, err := h.Client().Do(request(q, h.URL))
				if err != nil {
					q.ev = append(q.ev, obj{"e": "error: " + err.Error(), "r": q.no})
					continue
				}
				b, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil {
					q.ev = append(q.ev, obj{"e": "error: " + err.Error(), "r": q.no})
					continue
				}
				e := isoReply("reply", q, resp.StatusCode, resp.Header, resp.Cookies(), plain(resp.Header.Get("Content-Encoding"), b))
				q.mu.Lock()
				q.ev = append(q.ev, e)
				q.mu.Unlock()
			}
		}(g)
	}
	for _, q := range outer {
		c <- q
	}
	close(c)
	wg.Wait()
	h1.Close()
	h2.Close()
	ev := arr{}
	for _, q := range reqs {
		q.mu.Lock()
		ev = append(ev, q.ev...)
		q.mu.Unlock()
	}
	ev = append(ev, nonces...)
	ev = append(ev, obj{"e": "end", "v": len(reqs)})
	return obj{"ci": false, "names": isoNames, "reqs": reqs, "ev": ev}
}

type seeResp struct {
	response.HttpResponse
	see func(mc path.MatchingContext)
}

func (s *seeResp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	s.see(mc)
	err := s.HttpResponse.Write(w, mc)
	s.see(mc)
	return err
}

// the replies of the nested requests
func (q *isoReq) decoded(rec *httptest.ResponseRecorder) obj {
	res := rec.Result()
	return isoReply("reply", q, res.StatusCode, res.Header, res.Cookies(), plain(res.Header.Get("Content-Encoding"), rec.Body.Bytes()))
}

func plain(enc string, b []byte) []byte {
	if enc == "" {
		return b
	}
	var in io.ReadCloser
	var err error
	if enc == "gzip" {
		in, err = gzip.NewReader(bytes.NewReader(b))
	} else if in, err = zlib.NewReader(bytes.NewReader(b)); err != nil {
		in, err = flate.NewReader(bytes.NewReader(b)), nil
	}
	if err == nil {
		b, err = io.ReadAll(in)
	}
	if err != nil {
		return []byte("undecodable: " + err.Error())
	}
	return b
}
