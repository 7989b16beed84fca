package harness

import (
	"context"
	"errors"
	"math/rand"
	"strings"
	"sync"
	"testing"

	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"net/http"
)

func init() { modes["sec"] = driveSec }

type secConfig struct {
	Sts     int    `json:"sts"`
	Age     int    `json:"age"`
	Sub     int    `json:"sub"`
	Preload int    `json:"preload"`
	Cj      int    `json:"cj"`
	From    int    `json:"from"`
	Value   string `json:"value"`
	Uri     string `json:"uri"`
	Sniff   int    `json:"sniff"`
	Xss     int    `json:"xss"`
}

func (c secConfig) middleware() middleware.Middleware {
	x := middleware.XFrameOptionSameOrigin
	if c.Value == "DENY" {
		x = middleware.XFrameOptionDeny
	}
	if c.From == 1 {
		x = middleware.XFrameOptionAllowFrom
	}
	return middleware.SecurityHeaders(middleware.SecurityHeadersConfig{
		STS:                         middleware.ShStrictTransportSecurityConfig{Enabled: c.Sts == 1, MaxAgeSeconds: c.Age, IncludeSubDomains: c.Sub == 1, Preload: c.Preload == 1},
		ClickJacking:                middleware.ShClickJackingConfig{Enabled: c.Cj == 1, XFrameOption: x, XFrameOptionHeaderValue: c.Value, XFrameAllowFromUri: c.Uri},
		BlockContentSniffingEnabled: c.Sniff == 1, XSSProtectionEnabled: c.Xss == 1})
}

// the handlers may set the very headers of the middleware
var secOwn = [][]kv{nil, nil, nil, {{"X-Frame-Options", "mine"}}, {{"x-content-type-options", "mine"}, {"strict-transport-security", "max-age=9"}}, {{"X-XSS-PROTECTION", "0"}}, {{"Strict-Transport-Security", "max-age=9"}}}

func secRequest(s *site, m int, r *rand.Rand, k int) obj {
	kind, own := pick(r, zooKinds), pick(r, secOwn)
	status := pick(r, []int{0, 200, 200, 404, 500, 302, 304})
	if kind == "sse" {
		status = 200
	}
	d := describe1(r, kind, status, own, r.Intn(2) == 0)
	method := pick(r, []string{"GET", "GET", "GET", "POST", "HEAD"})
	secure := 0
	var g received
	id := s.put(d)
	panics := s.panics.Load()
	switch {
	case kind == "sse" || k%3 == 0:
		secure = 1
		if kind == "hijack" {
			for d.proto(r) == 1 {
			}
		}
		g = s.fetch(m, id, method, 2, nil, isJSON(d))
	case k%3 == 1:
		g = s.fetch(m, id, method, 1, nil, isJSON(d))
	default:
		scheme := pick(r, []string{"https", "http", "HTTPS", "HttpS", "httpsx", "https-a", "xhttps", "http"})
		if strings.ToLower(scheme) == "https" {
			secure = 1
		}
		g = s.fetchAbsolute(m, id, method, scheme, isJSON(d))
	}
	return obj{"e": "one", "d": d, "method": method, "secure": secure, "g": g, "panics": s.panics.Load() - panics}
}

func secError(mw middleware.Middleware, r *rand.Rand) obj {
	want := pick(r, []error{errors.New("x"), gerrors.ErrAccessDenied, gerrors.NewBadRequestWithMessage("y"), &myErr{"z"}})
	ran := 0
	var with response.HttpResponse
	if r.Intn(2) == 0 {
		with = response.PlainTextHttpResponseOK("nothing")
	}
	h := mw(func(context.Context, path.MatchingContext) (response.HttpResponse, error) { ran++; return with, want })
	q, _ := http.NewRequest("GET", "https://a/b", nil)
	resp, err := h(context.Background(), path.MatchingContext{R: q})
	return obj{"e": "err", "same": bit(err == want), "noresp": bit(resp == nil), "ran": ran}
}

func driveSec(t *testing.T) {
	var cs []secConfig
	readJSON("configs.json", &cs)
	r := newRand(90)
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	if raceBuild {
		driveSecRace(cs[:scale(40, 300)])
		return
	}
	if n := scale(400, len(cs)); len(cs) > n {
		cs = cs[:n]
	}
	for lo := 0; lo < len(cs); lo += 100 {
		hi := lo + 100
		if hi > len(cs) {
			hi = len(cs)
		}
		var ms [][]middleware.Middleware
		for i, c := range cs[lo:hi] {
			switch i % 4 {
			case 0: // the outermost of several middlewares
				ms = append(ms, []middleware.Middleware{c.middleware(), middleware.CompressResponse(i % 9)})
			case 1:
				ms = append(ms, []middleware.Middleware{middleware.CompressResponse(-1), c.middleware(), middleware.PanicRecover()})
			default:
				ms = append(ms, []middleware.Middleware{c.middleware()})
			}
		}
		s := newSite(ms...)
		tr := newTrace(pick(r, []string{"a", "b"}) + string(rune('a'+lo/100%26)) + string(rune('a'+lo/2600)))
		for i, c := range cs[lo:hi] {
			ev := arr{}
			mw := c.middleware()
			for k := 0; k < scale(6, 9); k++ {
				ev = append(ev, secRequest(s, i, r, k))
			}
			ev = append(ev, secError(mw, r), secError(mw, r))
			tr.put(obj{"c": c, "ev": ev})
		}
		tr.close()
		s.close()
	}
}

// the first requests of every configuration arrive together
func driveSecRace(cs []secConfig) {
	tr := newTrace("together")
	defer tr.close()
	for n, c := range cs {
		mw := c.middleware()
		s := newSite([]middleware.Middleware{mw})
		s.nowait = true
		const N = 6
		evs := make(arr, 2*N)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < N; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := newRand(int64(9000 + n*100 + i))
				d := describe1(r, "text", 200, nil, false)
				id := s.put(d)
				<-start
				for k := 0; k < 2; k++ {
					g := s.fetch(0, id, "GET", 1+(i+k)%2, nil, false)
					evs[2*i+k] = obj{"e": "one", "d": d, "method": "GET", "secure": (i + k) % 2, "g": g, "panics": 0}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		s.close()
		tr.put(obj{"c": c, "ev": evs})
	}
}
