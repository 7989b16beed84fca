package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/ixtendio/gofre"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["cors"] = driveCors }

type corsConf struct {
	Any     int      `json:"any"`
	Origins []string `json:"origins"`
	Methods []string `json:"methods"`
	Headers []string `json:"headers"`
	Exposed []string `json:"exposed"`
	Maxage  int      `json:"maxage"`
	Creds   int      `json:"creds"`
}
type corsReq struct {
	Method string   `json:"method"`
	Scheme string   `json:"scheme"`
	Host   string   `json:"host"`
	Origin []string `json:"origin"`
	Acrm   []string `json:"acrm"`
	Acrh   []string `json:"acrh"`
	Ct     []string `json:"ct"`
}

func (q corsReq) full() corsReq {
	for _, p := range []*[]string{&q.Origin, &q.Acrm, &q.Acrh, &q.Ct} {
		if *p == nil {
			*p = []string{}
		}
	}
	return q
}

type corsSeen struct {
	ran   bool
	err   error
	vary  string
	key   string
	fails bool
}
type corsKey struct{}

var errOwn = errors.New("own")

type corsSite struct {
	c   corsConf
	mux *gofre.MuxHandler
}

func corsHandler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	s := mc.R.Context().Value(corsKey{}).(*corsSeen)
	s.ran = true
	if s.fails {
		return nil, errOwn
	}
	h := response.NewHttpHeaders()
	h["X-Own"] = "own"
	if s.vary != "" {
		h[s.key] = s.vary
	}
	return response.PlainTextHttpResponseWithHeaders(200, "served", h), nil
}

func newCorsSite(c corsConf) *corsSite {
	m, _ := gofre.NewMuxHandlerWithDefaultConfig()
	m.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.Middleware(func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp, err := next(ctx, mc)
			mc.R.Context().Value(corsKey{}).(*corsSeen).err = err
			return resp, err
		}
	}), middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: c.Any == 1, SupportsCredentials: c.Creds == 1, PreflightMaxAgeSeconds: c.Maxage,
		ExposedHeaders: c.Exposed, AllowedHttpMethods: c.Methods, AllowedHttpHeaders: c.Headers, AllowedOrigins: c.Origins}))
	for _, me := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"} {
		m.HandleRequest(me, "/r", corsHandler)
	}
	return &corsSite{c: c, mux: m}
}

func (s *corsSite) ask(q corsReq, seen *corsSeen) obj {
	req := &http.Request{Method: q.Method, URL: &url.URL{Scheme: q.Scheme, Host: q.Host, Path: "/r"}, Header: http.Header{}, Body: http.NoBody, Host: "h.example", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	for k, v := range map[string][]string{"Origin": q.Origin, "Access-Control-Request-Method": q.Acrm, "Access-Control-Request-Headers": q.Acrh, "Content-Type": q.Ct} {
		if len(v) > 0 {
			req.Header[k] = append([]string{}, v...)
		}
	}
	noise(req.Header)
	req = req.WithContext(context.WithValue(context.Background(), corsKey{}, seen))
	rec := httptest.NewRecorder()
	pn, _ := protect(func() { s.mux.ServeHTTP(rec, req) })
	e := obj{"q": q.full(), "ran": bit(seen.ran), "vary": seen.vary, "fails": bit(seen.fails), "gotvary": strings.Join(rec.Header()["Vary"], ","), "status": rec.Code,
		"others": bit(rec.Header().Get("X-Own") == "own" && rec.Body.String() == "served"), "err": ""}
	switch {
	case pn:
		e["err"] = "panic"
	case seen.err == nil:
	case errors.Is(seen.err, gerrors.ErrAccessDenied):
		e["err"] = "denied"
	case errors.Is(seen.err, errOwn):
		e["err"] = "own"
	default:
		e["err"] = "other"
	}
	hs := arr{}
	for k, vs := range rec.Header() {
		if k = strings.ToLower(k); strings.HasPrefix(k, "access-control-") {
			for _, v := range vs {
				hs = append(hs, obj{"k": k, "v": v})
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return str(hs[i].(obj)["k"]) < str(hs[j].(obj)["k"]) })
	e["h"] = hs
	return e
}

var corsOrigins = []string{"http://a.example", "https://a.example", "http://a.example:8080", "http://A.example", "HTTP://a.example", "null", "Null", "file://", "file:///x", "",
	"a.example", "//a.example", "http//a.example", "http://a.example%41", "%", "://a.example", "1http://a.example", "http://a b", "http://a.example:port", "http://[::1", "http://[::1]:80",
	"http://b.example", "chrome-extension://abcdef", "http://a.example.evil.example", "http://evil-a.example", "http://a.exampl", "ws://a.example", "http://a.example:80", "https://a.example:443",
	"file:///%41", "null%", "http://[2001:db8::1]:8080", "http://[2001:db8::1]", "http://[2001:DB8::1]", "http://xn--a-ecp.example", "http://127.0.0.1:3000", "http://localhost:3000", "capacitor://localhost", "http://[::1]", "http://[::1]:8080", "https://[::1]:443", "/file://a.example", "-file://a.example", "a file://x", "http://" + strings.Repeat("long-", 60) + "label.example"}

// entries of the list of allowed origins that allow nothing but themselves
var corsUnusual = []string{"*.example", "*.a.example", "http://*.example", "https://*", "http://*", "http://a.*", "http://a.example:*", "http://?.example", "http://a.example/", "https://a.example/*",
	"http://", "http", "https", "://a.example", "a.example", "example", ".example", "^http://a\\.example$", "http://[ab].example", "http?://a.example", ".+", "http://a.example http://b.example", "http://a.example,http://b.example", " http://a.example", "http://b.example ", "http://A.EXAMPLE", "", "http://a.example:80", "https://a.example:443", "//a.example"}

var plainOrigin = regexp.MustCompile(`^[A-Za-z]+://[A-Za-z0-9.-]+(:[0-9]+)?$`)

func (c *corsConf) rest(r *rand.Rand) {
	c.Exposed = append([]string{}, []string{"X-E", "ETag", "X-F"}[:r.Intn(4)]...)
	c.Maxage = pick(r, []int{0, 600, -1, 86400, 1})
	c.Creds = r.Intn(2)
}

func newCorsSeen(r *rand.Rand) *corsSeen {
	return &corsSeen{vary: pick(r, []string{"", "", "Accept", "Accept, Accept-Encoding", "origin", "*", "Accept,*", "Accept ,\tX-B", "X-Origin", "Original, Accept", "Origin-Agent-Cluster", "X-Access-Control-Request-Method", "ORIGIN,Accept", "Access-Control-Request-Headers"}), key: pick(r, []string{"Vary", "Vary", "vary", "VARY"}), fails: r.Intn(12) == 0}
}

func corsRandomReq(r *rand.Rand, c corsConf) corsReq {
	opt := func(n int, xs ...string) []string {
		if r.Intn(n) == 0 {
			return []string{}
		}
		return []string{pick(r, xs)}
	}
	q := corsReq{Method: pick(r, []string{"GET", "HEAD", "POST", "PUT", "OPTIONS", "OPTIONS", "OPTIONS", "DELETE"}), Acrm: []string{}, Acrh: []string{}, Ct: []string{}}
	q.Origin = opt(20, append(append([]string{"https://tenant-0.example", "https://tenant-9.example", "https://tenant-99.exampl"}, corsOrigins...), c.Origins...)...)
	if len(c.Origins) > 0 && r.Intn(2) == 0 {
		q.Origin = []string{pick(r, c.Origins)}
		if r.Intn(3) == 0 { // what the entry would stand for if it were a pattern
			q.Origin[0] = strings.NewReplacer("*", "a", "?", "s", "\\", "", "^", "", "$", "", "[ab]", "b").Replace(q.Origin[0])
			q.Origin[0] = pick(r, []string{"", "", "", "http://", "http://x", "http://x."}) + q.Origin[0] + pick(r, []string{"", "", "", ":80", ":443", ":8080", "x"})
		}
	}
	// no origin, and the specification does not say whether they are well-formed
	for len(q.Origin) > 0 && !slices.Contains(corsOrigins, q.Origin[0]) && !plainOrigin.MatchString(q.Origin[0]) {
		q.Origin[0] = pick(r, corsOrigins)
	}
	if q.Method == "OPTIONS" || r.Intn(5) == 0 {
		q.Acrm = opt(4, append([]string{"GET", "PUT", "post", "\tDELETE ", "", "BREW"}, c.Methods...)...)
		var hs []string
		for k := pick(r, []int{0, 1, 2, 3, 3, len(c.Headers)}); k > 0; k-- {
			hs = append(hs, pick(r, append([]string{"X-A", "", "x-b", "content-type", "Accept", "Authorization", "accept-language", "Range", "X-AB", "X", "Origin"}, append(append(append([]string{}, c.Headers...), c.Headers...), c.Headers...)...)))
		}
		if len(hs) > 0 {
			q.Acrh = []string{strings.Join(hs, pick(r, []string{",", ", ", " ,\t"}))}
			if r.Intn(4) == 0 { // on several lines
				n := r.Intn(len(hs) + 1)
				q.Acrh = []string{strings.Join(hs[:n], ","), strings.Join(hs[n:], ", ")}
			}
		}
	}
	q.Ct = opt(4, "text/plain", "application/json", "TEXT/plain; x=y", "application/x-www-form-urlencoded", "", ";text/plain", " ", ",", ",text/plain", "text/plain,", "a;b;c", "\ttext/plain", "text", "multipart/form-data; boundary=;;", "application/x-www-form-urlencoded,text/plain", "; ;")
	if r.Intn(6) == 0 {
		q.Scheme, q.Host = pick(r, []string{"http", "https", "HTTP"}), pick(r, []string{"a.example", "a.example:8080", "A.example", "b.example", "a.example:80", "a.example:443", "[::1]", "[::1]:80", "[::1]:8080", "[::1]:443", "[2001:db8::1]:8080"})
		if r.Intn(2) == 0 {
			q.Origin = []string{pick(r, []string{strings.ToLower(q.Scheme), "http", "https"}) + "://" + pick(r, []string{q.Host, strings.TrimSuffix(q.Host, ":80"), strings.TrimSuffix(q.Host, ":443"), q.Host + ":80"})}
			for !slices.Contains(corsOrigins, q.Origin[0]) && !plainOrigin.MatchString(q.Origin[0]) {
				q.Origin[0] = pick(r, corsOrigins)
			}
		}
	}
	return q
}

func corsRandomConf(r *rand.Rand) corsConf {
	sub := func(xs []string, n int) []string {
		ys := []string{}
		for k := r.Intn(n + 1); k > 0; k-- {
			ys = append(ys, pick(r, xs))
		}
		return ys
	}
	c := corsConf{Any: bit(r.Intn(4) == 0), Origins: sub(corsOrigins, 4), Methods: sub([]string{"GET", "POST", "get", "OPTIONS", "PUT", "Delete", "HEAD"}, 5), Headers: sub([]string{"X-A", "x-b", "Content-Type", "X-C"}, 3)}
	if r.Intn(3) == 0 { // entries are origins, not patterns of origins
		c.Origins = append(c.Origins, sub(corsUnusual, 4)...)
	}
	if r.Intn(8) == 0 { // long lists
		for k := 20 + r.Intn(300); k > 0; k-- {
			c.Origins = append(c.Origins, fmt.Sprintf("https://tenant-%d.example", k))
		}
		r.Shuffle(len(c.Origins), func(i, j int) { c.Origins[i], c.Origins[j] = c.Origins[j], c.Origins[i] })
		for k := 10 + r.Intn(60); k > 0; k-- {
			c.Headers = append(c.Headers, fmt.Sprintf("X-Header-%d", k))
			c.Methods = append(c.Methods, fmt.Sprintf("METHOD%d", k))
		}
		c.Methods = append(c.Methods, "GET", "POST", "OPTIONS", "DELETE")
	}
	c.rest(r)
	return c
}

func driveCors(t *testing.T) {
	r := newRand(70)
	if raceBuild {
		tr := newTrace("race")
		for k := 0; k < scale(60, 500); k++ {
			s := newCorsSite(corsRandomConf(r))
			ev := make(arr, 32)
			var wg sync.WaitGroup
			for i := range ev {
				q, seen := corsRandomReq(r, s.c), newCorsSeen(r)
				wg.Add(1)
				go func() { defer wg.Done(); ev[i] = s.ask(q, seen) }()
			}
			wg.Wait()
			tr.put(obj{"c": s.c, "ev": ev})
		}
		tr.close()
		return
	}
	var g struct {
		Configs  []corsConf
		Requests []corsReq
	}
	readJSON("cors.json", &g)
	n := 4
	var trs []*trace
	for i := 0; i < n; i++ {
		trs = append(trs, newTrace("table"+string(rune('0'+i))))
	}
	for k, c := range g.Configs {
		for _, p := range []*[]string{&c.Origins, &c.Methods, &c.Headers} {
			if *p == nil {
				*p = []string{}
			}
		}
		c.rest(r)
		s := newCorsSite(c)
		ev := arr{}
		for _, q := range g.Requests {
			ev = append(ev, s.ask(q, newCorsSeen(r)))
		}
		trs[k%n].put(obj{"c": c, "ev": ev})
	}
	for k := 0; k < scale(200, 3000); k++ {
		s := newCorsSite(corsRandomConf(r))
		ev := arr{}
		for i := 0; i < 40; i++ {
			ev = append(ev, s.ask(corsRandomReq(r, s.c), newCorsSeen(r)))
		}
		trs[k%n].put(obj{"c": s.c, "ev": ev})
	}
	for _, t := range trs {
		t.close()
	}
}
