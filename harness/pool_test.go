package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["pool"] = drivePool }

type poolStep struct {
	O string `json:"o"`
	R int    `json:"r"`
	N int    `json:"n"`
}

type poolSlot struct {
	resp  response.HttpResponse
	base  *response.HttpHeadersResponse
	fails *int
}

var poolValue atomic.Int64

// every value is used once, names are shared
func poolHeader(r *rand.Rand) kv {
	return kv{pick(r, []string{"X-V-Own", "X-V-Other", "x-v-low"}), fmt.Sprint("v", poolValue.Add(1))}
}
func poolCookie(r *rand.Rand) *http.Cookie {
	return &http.Cookie{Name: pick(r, []string{"vc", "vd"}), Value: fmt.Sprint("c", poolValue.Add(1)),
		Path: pick(r, []string{"", "", "/p", "/q"}), Domain: pick(r, []string{"", "", "d.test"}), Secure: r.Intn(2) == 0}
}

// poolCookieName is what tells cookies apart
func poolCookieName(c *http.Cookie) string { return c.Name + " " + c.Path + " " + c.Domain }

func newPoolSlot(r *rand.Rand, h response.HttpHeaders, c response.HttpCookies) *poolSlot {
	s := &poolSlot{fails: new(int)}
	fails := s.fails
	base := response.HttpHeadersResponse{HttpStatusCode: 200, ContentType: "text/plain", HttpHeaders: h, HttpCookies: c}
	switch r.Intn(9) {
	case 0:
		x := response.JsonHttpResponseWithHeadersAndCookies(200, "x", h, c)
		s.resp, s.base = x, &x.HttpHeadersResponse
	case 1:
		x := response.RawWriterHttpResponseWithHeadersAndCookies(200, "text/plain", h, c, func(w io.Writer) error {
			_, err := w.Write([]byte("raw"))
			return err
		})
		s.resp, s.base = x, &x.HttpHeadersResponse
	case 2:
		x := response.StreamHttpResponseWithHeadersAndCookies(200, "text/plain", h, c, &endless{})
		s.resp, s.base = x, &x.HttpHeadersResponse
	case 3:
		x := response.TemplateHttpResponseWithHeadersAndCookies(textTemplate, 200, "page", "x", h, c)
		s.resp, s.base = x, &x.HttpHeadersResponse
	case 4:
		base.HttpStatusCode = 302
		x := &response.HttpRedirectResponse{HttpHeadersResponse: base, Url: "/there"}
		s.resp, s.base = x, &x.HttpHeadersResponse
	case 5:
		x := response.SSEHttpResponseWithHeadersAndCookies(func(context.Context, string) <-chan response.ServerSentEvent {
			ch := make(chan response.ServerSentEvent, 1)
			ch <- response.ServerSentEvent{Name: "x"}
			close(ch)
			return ch
		}, h, c)
		s.resp, s.base = x, &x.HttpHeadersResponse
	case 6:
		x := response.HtmlResponseWithHeadersAndCookies(200, "x", h, c)
		s.base = &x.HttpHeadersResponse
		s.resp, _ = response.NewHttpCompressResponse(x, 1)
	case 7:
		x := &base
		s.resp, s.base = x, x
	default:
		x := response.PlainTextResponseWithHeadersAndCookies(200, "x", h, c)
		s.resp, s.base = x, &x.HttpHeadersResponse
	}
	_ = fails
	return s
}

// endless has something to read each time it is written
type endless struct{ odd bool }

func (e *endless) Read(p []byte) (int, error) {
	if e.odd = !e.odd; e.odd {
		return copy(p, "stream"), nil
	}
	return 0, io.EOF
}

// brokenWriter fails in several ways
type brokenWriter struct {
	*httptest.ResponseRecorder
	how int
}

func (b *brokenWriter) WriteHeader(s int) {
	if b.how == 2 {
		panic("connection lost")
	}
	b.ResponseRecorder.WriteHeader(s)
}
func (b *brokenWriter) Write(p []byte) (int, error) {
	if b.how == 3 {
		panic("connection lost")
	}
	return 0, errors.New("connection lost")
}
func (b *brokenWriter) WriteString(s string) (int, error) { return b.Write([]byte(s)) }

func poolEmitted(h http.Header) (hs []kv, cs []kv) {
	hs, cs = []kv{}, []kv{}
	for k, vs := range h {
		for _, v := range vs {
			if l := strings.ToLower(k); strings.HasPrefix(l, "x-v-") {
				hs = append(hs, kv{l, v})
			} else if k == "Set-Cookie" {
				if x, err := http.ParseSetCookie(v); err == nil {
					cs = append(cs, kv{poolCookieName(x), x.Value})
				} else {
					cs = append(cs, kv{v, "unreadable"})
				}
			}
		}
	}
	return
}

func poolSeen(h response.HttpHeaders, c response.HttpCookies) ([]kv, []kv) {
	hs, cs := []kv{}, []kv{}
	for k, v := range h {
		hs = append(hs, kv{strings.ToLower(k), v})
	}
	for _, x := range c {
		cs = append(cs, kv{poolCookieName(x), x.Value})
	}
	return hs, cs
}

func poolReq(r *rand.Rand) path.MatchingContext {
	q := httptest.NewRequest("GET", "/x", nil)
	q.ProtoMajor = 2
	if r.Intn(2) == 0 {
		q.Header.Set("Accept-Encoding", "gzip")
	}
	return path.MatchingContext{R: q}
}

// poolHistory performs one history and records it
func poolHistory(r *rand.Rand, steps []poolStep, watch bool) arr {
	ev := arr{}
	slots := map[int]*poolSlot{}
	for _, st := range steps {
		s := slots[st.R]
		switch st.O {
		case "new":
			var h response.HttpHeaders
			var c response.HttpCookies
			hs, cs := []kv{}, []kv{}
			if st.N > 0 {
				x, y := poolHeader(r), poolCookie(r)
				if h, c = (response.HttpHeaders{}), (response.HttpCookies{}); st.N == 1 {
					h, c = response.NewHttpHeaders(), response.NewEmptyHttpCookie()
				}
				h.Set(x.K, x.V)
				c.Add(y)
				hs, cs = append(hs, kv{strings.ToLower(x.K), x.V}), append(cs, kv{poolCookieName(y), y.Value})
			}
			slots[st.R] = newPoolSlot(r, h, c)
			ev = append(ev, obj{"e": "new", "r": st.R, "h": hs, "c": cs})
		case "set":
			x := poolHeader(r)
			s.resp.Headers().Set(x.K, x.V)
			ev = append(ev, obj{"e": "put", "r": st.R, "h": []kv{{strings.ToLower(x.K), x.V}}, "c": []kv{}})
		case "cookie":
			y := poolCookie(r)
			s.resp.Cookies().Add(y)
			ev = append(ev, obj{"e": "put", "r": st.R, "h": []kv{}, "c": []kv{{poolCookieName(y), y.Value}}})
		case "write":
			w := httptest.NewRecorder()
			o, v := guarded0(func() error { return s.resp.Write(w, poolReq(r)) })
			_ = v
			hs, cs := poolEmitted(w.Result().Header)
			ev = append(ev, obj{"e": "write", "r": st.R, "h": hs, "c": cs, "res": o})
		case "fail":
			w := &brokenWriter{httptest.NewRecorder(), st.N}
			var q http.ResponseWriter = w
			old := s.base.HttpStatusCode
			if st.N == 0 {
				s.base.HttpStatusCode = pick(r, []int{42, 1000, -1})
			}
			guarded0(func() error { return s.resp.Write(q, poolReq(r)) })
			s.base.HttpStatusCode = old
			hs, cs := poolEmitted(w.ResponseRecorder.Result().Header)
			// some kinds have nothing to write: then nothing fails
			ev = append(ev, obj{"e": "fail", "r": st.R, "h": hs, "c": cs, "res": "failed"})
		case "drop":
			delete(slots, st.R)
		case "borrow":
			h, c := response.NewHttpHeaders(), response.NewEmptyHttpCookie()
			hs, cs := poolSeen(h, c)
			ev = append(ev, obj{"e": "lend", "h": hs, "c": cs})
			x := poolHeader(r)
			h.Set(x.K, x.V)
			c.Add(poolCookie(r))
			h.Release()
			c.Release()
		}
		if watch {
			var ids []int
			for i := range slots {
				ids = append(ids, i)
			}
			sort.Ints(ids)
			for _, i := range ids {
				hs, cs := poolSeen(slots[i].resp.Headers(), slots[i].resp.Cookies())
				ev = append(ev, obj{"e": "see", "r": i, "h": hs, "c": cs, "res": "ok"})
			}
		}
	}
	return ev
}

func guarded0(f func() error) (res string, val any) {
	defer func() {
		if p := recover(); p != nil {
			res, val = "panic", p
		}
	}()
	if err := f(); err != nil {
		return "err", err
	}
	return "ok", nil
}

func randomSteps(r *rand.Rand, n, slots int) []poolStep {
	live := map[int]bool{}
	var steps []poolStep
	for len(steps) < n {
		s := 1 + r.Intn(slots)
		if !live[s] {
			steps = append(steps, poolStep{"new", s, r.Intn(3)})
			live[s] = true
			continue
		}
		switch r.Intn(10) {
		case 0:
			steps = append(steps, poolStep{"drop", s, 0})
			live[s] = false
		case 1:
			steps = append(steps, poolStep{"fail", s, r.Intn(4)})
		case 2:
			steps = append(steps, poolStep{"borrow", 0, 0})
		case 3, 4, 5:
			steps = append(steps, poolStep{"write", s, 0})
		case 6:
			steps = append(steps, poolStep{"cookie", s, 0})
		default:
			steps = append(steps, poolStep{"set", s, 0})
		}
	}
	return steps
}

func drivePool(t *testing.T) {
	if raceBuild {
		tr := newTrace("together")
		defer tr.close()
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := newRand(int64(9800 + i))
				for k := 0; k < scale(60, 1000); k++ {
					ev := poolHistory(r, randomSteps(r, 40, 4), k%2 == 0)
					mu.Lock()
					tr.put(obj{"ev": ev})
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
		return
	}
	// one processor and no collections: what is put into a pool is what comes out of it
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(4 << 30)
	r := newRand(97)
	c := newTrace("histories")
	n := 0
	ev := arr{}
	for _, steps := range behaviours[poolStep]("histories.json") {
		n++
		if n%60000 == 0 {
			c.close()
			c = newTrace(fmt.Sprint("histories", n/60000))
		}
		ev = append(ev[:0], poolHistory(r, steps, n%3 == 0)...)
		c.put(obj{"ev": ev})
	}
	c.close()
	c = newTrace("long")
	for k := 0; k < scale(150, 2000); k++ {
		c.put(obj{"ev": poolHistory(r, randomSteps(r, 150, 6), k%2 == 0)})
	}
	c.close()
}
