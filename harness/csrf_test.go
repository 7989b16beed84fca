package harness

import (
	"bytes"
	"context"
	"errors"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/cache"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["csrf"] = driveCsrf }

var errHandler = errors.New("handler failed")

type csrfSite struct {
	header, param string
	mids          []middleware.Middleware // one per nonce cache
	mux           []*gofre.MuxHandler     // nil: the middleware is called directly
}

type csrfReqKey struct{}
type csrfSeen struct {
	ran  bool
	n    string
	fail bool
	err  error
}

func csrfHandler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	s := mc.R.Context().Value(csrfReqKey{}).(*csrfSeen)
	s.ran = true
	s.n = middleware.GetCSRFNonceFromContext(ctx)
	if s.fail {
		return nil, errHandler
	}
	return response.PlainTextHttpResponseOK("ok"), nil
}

func newCsrfSite(caches []cache.Cache, header, param string, mux bool) *csrfSite {
	s := &csrfSite{header: header, param: param}
	for _, c := range caches {
		var m middleware.Middleware
		if header == "" {
			s.header, s.param = middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName
			m = middleware.CSRFPrevention(c)
		} else {
			m = middleware.CSRFPreventionWithCustomParamAndHeaderName(c, param, header)
		}
		s.mids = append(s.mids, m)
		if mux {
			x, _ := gofre.NewMuxHandlerWithDefaultConfig()
			x.CommonMiddlewares(func(next handler.Handler) handler.Handler {
				return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					resp, err := next(left(ctx, mc.R), mc)
					mc.R.Context().Value(csrfReqKey{}).(*csrfSeen).err = err
					return response.PlainTextHttpResponseOK(""), func() error { _ = resp; return nil }()
				}
			}, m)
			for _, me := range csrfMethods {
				x.HandleRequest(me, "/f/{v}", csrfHandler)
			}
			s.mux = append(s.mux, x)
		}
	}
	return s
}

var csrfMethods = []string{"GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "PATCH", "DELETE", "PROPFIND", "CONNECT"}

// request builds the request that presents hdr and form; how: query, urlencoded or multipart
func (s *csrfSite) request(method, hdr, form, how string) *http.Request {
	u := &url.URL{Path: "/f/1"}
	r := &http.Request{Method: method, URL: u, Header: http.Header{}, Body: http.NoBody, Host: "h"}
	if hdr != "" {
		r.Header.Set(s.header, hdr)
	}
	if form == "" {
		return r
	}
	body := method == "POST" || method == "PUT" || method == "PATCH"
	switch {
	case how == "multi" && method == "POST":
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		w.WriteField("other", "x")
		w.WriteField(s.param, form)
		w.Close()
		r.Body, r.ContentLength = nopBody{bytes.NewReader(b.Bytes())}, int64(b.Len())
		r.Header.Set("Content-Type", w.FormDataContentType())
	case how == "query" || !body:
		u.RawQuery = url.Values{s.param: {form}, "z": {"1"}}.Encode()
	default:
		b := url.Values{"a": {"1"}, s.param: {form}}.Encode()
		r.Body, r.ContentLength = nopBody{strings.NewReader(b)}, int64(len(b))
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	return r
}

type nopBody struct {
	r interface{ Read([]byte) (int, error) }
}

func (b nopBody) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b nopBody) Close() error               { return nil }

// left is the context of some requests that have been through another protection already
func left(ctx context.Context, r *http.Request) context.Context {
	if len(r.Header)%3 == 0 {
		return context.WithValue(ctx, middleware.CSRFNonceCtxKey, "0123456789ABCDEF0123456789ABCDEF")
	}
	return ctx
}

func (s *csrfSite) send(k int, method, hdr, form, how string, fail bool) obj {
	seen := &csrfSeen{fail: fail}
	r := s.request(method, hdr, form, how)
	noise(r.Header)
	r = r.WithContext(context.WithValue(context.Background(), csrfReqKey{}, seen))
	p, _ := protect(func() {
		if s.mux != nil {
			s.mux[k-1].ServeHTTP(httptest.NewRecorder(), r)
			return
		}
		_, seen.err = s.mids[k-1](csrfHandler)(left(context.Background(), r), path.MatchingContext{R: r})
	})
	err := ""
	switch {
	case p:
		err = "panic"
	case seen.err == errHandler:
		err = "handler"
	case seen.err == gerrors.ErrAccessDenied:
		err = "denied"
	case seen.err != nil:
		err = "other"
	}
	return obj{"e": "req", "k": k, "method": method, "hdr": hdr, "form": form, "how": how, "fail": bit(fail), "lost": 0, "ran": bit(seen.ran), "err": err, "new": seen.n}
}

type csrfStep struct {
	O    string
	H, F int
}

const forged = "0123456789ABCDEF0123456789ABCDEF"

func driveCsrf(t *testing.T) {
	if raceBuild {
		csrfConcurrent(newRand(19), "race", scale(150, 1000))
		return
	}
	synctest.Test(t, func(t *testing.T) {
		tr := newTrace("replayed")
		tr.put(obj{"ttl": 2})
		for i, b := range behaviours[csrfStep]("csrf.json") {
			csrfReplay(tr, b, i)
		}
		tr.close()
		csrfRandom(newRand(20))
		csrfCrowded(newRand(22))
	})
	csrfConcurrent(newRand(21), "concurrent", scale(250, 2000))
	tr := newTrace("unique")
	tr.put(obj{"ttl": 1})
	s := newCsrfSite([]cache.Cache{cache.NewInMemory()}, "", "", false)
	ns := arr{}
	for i := 0; i < scale(200000, 600000); i++ {
		ns = append(ns, s.send(1, "GET", "", "", "", false)["new"])
	}
	tr.put(obj{"ev": arr{obj{"e": "unique", "ns": ns}}})
	tr.close()
}

func csrfReplay(tr *trace, b []csrfStep, i int) {
	header, param := "", ""
	if i%5 == 1 {
		header, param = "X-My-Token", "tok"
	}
	s := newCsrfSite([]cache.Cache{cache.NewInMemory()}, header, param, i%7 == 2)
	how := []string{"form", "query", "multi"}[i%3]
	nonces := map[int]string{0: "", 99: forged}
	n := 0
	var ev arr
	for j, st := range b {
		m, fail := "POST", st.O == "posterr"
		switch st.O {
		case "tick":
			time.Sleep(middleware.CSRFExpirationTime / 2)
			ev = append(ev, tickEv(1))
			continue
		case "get":
			m = csrfMethods[(i+j)%4]
		default:
			m = csrfMethods[4+(i+j)%6]
		}
		h, f := nonces[st.H], nonces[st.F]
		e := s.send(1, m, h, f, how, fail)
		ev = append(ev, e)
		if w, _ := e["new"].(string); w != "" {
			n++
			nonces[n] = w
		}
	}
	tr.put(obj{"ev": ev})
}

func csrfRandom(r *rand.Rand) {
	for _, ttl := range []int{1, 3, 60} {
		tr := newTrace("random" + string(rune('a'+ttl%26)))
		tr.put(obj{"ttl": ttl})
		old := middleware.CSRFExpirationTime
		unit := pick(r, []time.Duration{time.Nanosecond, time.Millisecond, time.Minute})
		middleware.CSRFExpirationTime = time.Duration(ttl) * unit
		for i := 0; i < scale(150, 1500); i++ {
			header, param := "", ""
			if r.Intn(3) == 0 {
				header, param = "X-Other", "_other"
			}
			caches := []*refusing{{Cache: cache.NewInMemory()}, {Cache: cache.NewInMemory()}}
			s := newCsrfSite([]cache.Cache{caches[0], caches[1]}, header, param, r.Intn(3) == 0)
			var all []string
			var ev arr
			for j := 5 + r.Intn(30); j > 0; j-- {
				nonce := func(form bool) string {
					switch x := r.Intn(14); {
					case x < 2:
						return ""
					case x < 3 || len(all) == 0:
						return pick(r, []string{forged, "x", " ", strings.Repeat("0", 32)})
					case x < 4:
						return strings.ToLower(pick(r, all))
					case x < 5:
						n := pick(r, all)
						return n[:len(n)-min(1, len(n))]
					case x < 7: // a text that contains a nonce is not one
						n := pick(r, all)
						if form && r.Intn(3) == 0 {
							return pick(r, []string{" " + n, n + " ", n + "\n", n + "&x", "\t" + n})
						}
						return pick(r, []string{n + ",x", "x," + n, n + "," + n, n + n, n[1:], "\"" + n + "\"", "Bearer " + n, n + "; x", n + "=", "0" + n, n + "%20",
							n + "\u00a0", n[1:] + n[:1], strings.ReplaceAll(n, "A", "a"), "0x" + n, n[:8] + "-" + n[8:]})
					case x < 11:
						return all[len(all)-1]
					default:
						return pick(r, all)
					}
				}
				if r.Intn(5) == 0 {
					d := pick(r, []int{1, 1, 2, ttl - 1, ttl, ttl + 1})
					if d > 0 {
						time.Sleep(time.Duration(d) * unit)
						ev = append(ev, tickEv(d))
					}
					continue
				}
				h, f := "", ""
				switch r.Intn(4) {
				case 0:
					f = nonce(true)
				case 1:
					h, f = nonce(false), nonce(true)
				default:
					h = nonce(false)
				}
				k, lost := 1+r.Intn(2)*r.Intn(2), r.Intn(15) == 0
				caches[k-1].on.Store(lost)
				e := s.send(k, pick(r, append(csrfMethods, "POST", "POST", "POST")), h, f, pick(r, []string{"form", "query", "multi"}), r.Intn(6) == 0)
				e["lost"] = bit(lost)
				caches[k-1].on.Store(false)
				ev = append(ev, e)
				if w, _ := e["new"].(string); w != "" {
					all = append(all, w)
				}
			}
			tr.put(obj{"ev": ev})
		}
		middleware.CSRFExpirationTime = old
		tr.close()
	}
}

// csrfCrowded keeps thousands of nonces outstanding at the same time
func csrfCrowded(r *rand.Rand) {
	tr := newTrace("crowded")
	tr.put(obj{"ttl": 60})
	old := middleware.CSRFExpirationTime
	middleware.CSRFExpirationTime = time.Hour
	defer func() { middleware.CSRFExpirationTime = old }()
	for i := 0; i < scale(3, 8); i++ {
		s := newCsrfSite([]cache.Cache{cache.NewInMemory(), cache.NewInMemory()}, "", "", i%2 == 1)
		var all []string
		var ev arr
		batch := func(k int, method string, hs []string) {
			rans, news := arr{}, arr{}
			for _, h := range hs {
				e := s.send(k, method, h, "", "", false)
				rans, news = append(rans, e["ran"]), append(news, e["new"])
				if w := str(e["new"]); w != "" && k == 1 {
					all = append(all, w)
				}
			}
			ev = append(ev, obj{"e": "batch", "k": k, "method": method, "hs": hs, "rans": rans, "news": news})
		}
		some := func(n int) []string {
			var o []string
			for _, x := range r.Perm(len(all)) {
				if len(o) < n {
					o = append(o, all[x])
				}
			}
			return o
		}
		pass := func(d int) {
			time.Sleep(time.Duration(d) * time.Minute)
			ev = append(ev, tickEv(d))
		}
		batch(1, "GET", make([]string, pick(r, []int{1500, 2500, scale(4500, 12000)})))
		batch(2, "HEAD", make([]string, 50))
		batch(1, "POST", some(200))
		pass(20)
		batch(1, "GET", make([]string, 1200))
		batch(1, "PUT", some(900))
		batch(1, "DELETE", some(300))
		pass(39)
		batch(1, "POST", some(700))
		pass(1)
		batch(1, "POST", some(700))
		pass(20)
		batch(1, "PATCH", some(len(all)))
		batch(1, "POST", some(len(all)/2))
		tr.put(obj{"ev": ev})
	}
	tr.close()
}

// meeting is a cache whose look-ups wait for each other, so that requests presenting one nonce overlap
type meeting struct {
	cache.Cache
	mu   sync.Mutex
	here int
	want int
	ch   chan struct{}
}

func (m *meeting) arm(n int) {
	m.mu.Lock()
	m.here, m.want, m.ch = 0, n, make(chan struct{})
	m.mu.Unlock()
}
func (m *meeting) Contains(k string) bool {
	b := m.Cache.Contains(k)
	m.mu.Lock()
	if m.want == 0 {
		m.mu.Unlock()
		return b
	}
	m.here++
	ch := m.ch
	if m.here == m.want {
		close(ch)
	}
	m.mu.Unlock()
	select {
	case <-ch:
	case <-time.After(2 * time.Millisecond):
	}
	return b
}

func csrfConcurrent(r *rand.Rand, name string, n int) {
	tr := newTrace(name)
	tr.put(obj{"ttl": 3600})
	for i := 0; i < n; i++ {
		m := &meeting{Cache: cache.NewInMemory()}
		s := newCsrfSite([]cache.Cache{m}, "", "", i%2 == 0)
		var ev arr
		var all []string
		for j := 1 + r.Intn(3); j > 0; j-- {
			e := s.send(1, "GET", "", "", "", false)
			ev = append(ev, e)
			all = append(all, str(e["new"]))
		}
		for round := 1 + r.Intn(2); round > 0; round-- {
			k := 2 + r.Intn(4)
			one := r.Intn(3) > 0
			if r.Intn(3) > 0 {
				m.arm(k)
			}
			type q struct{ me, h, f string }
			var qs []q
			for j := 0; j < k; j++ {
				nn := all[0]
				if !one {
					nn = pick(r, all)
				}
				x := q{pick(r, []string{"POST", "POST", "PUT", "DELETE", "GET"}), nn, ""}
				if r.Intn(3) == 0 {
					x.h, x.f = "", nn
				}
				qs = append(qs, x)
			}
			rs := make(arr, k)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for j := range qs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					rs[j] = s.send(1, qs[j].me, qs[j].h, qs[j].f, "form", false)
				}()
			}
			close(start)
			wg.Wait()
			m.arm(0)
			ev = append(ev, obj{"e": "conc", "rs": rs})
			for _, e := range rs {
				if w := str(e.(obj)["new"]); w != "" {
					all = append(all, w)
				}
			}
		}
		nn := pick(r, all)
		ev = append(ev, s.send(1, "POST", nn, "", "", false), s.send(1, "POST", nn, "", "", false))
		tr.put(obj{"ev": ev})
	}
	tr.close()
}
