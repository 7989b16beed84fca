package harness

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["mux"] = driveMux }

type muxKey struct{}
type muxSeen struct {
	id  int
	seq []int
}

type muxTree struct {
	r     *rand.Rand
	ci    bool
	h     []*gofre.MuxHandler
	ev    arr
	mid   int
	id    int
	paths map[string]bool
	errs  int
	root  *gofre.Config
}

type fakeTemplate struct{ response.NilTemplate }

func (fakeTemplate) Execute(io.Writer, any) error { return nil }

func newMuxTree(r *rand.Rand, ci bool) *muxTree {
	t := &muxTree{r: r, ci: ci, paths: map[string]bool{}}
	t.root = &gofre.Config{CaseInsensitivePathMatch: ci, ContextPath: "/ctx"}
	t.root.ErrLogFunc = func(error) { t.errs++ }
	m, err := gofre.NewMuxHandler(t.root)
	if err != nil {
		panic(err)
	}
	t.h = []*gofre.MuxHandler{m}
	return t
}

// middlewares returns n fresh middlewares (some of them nil) and their numbers
func (t *muxTree) middlewares(n int, nils bool) (ms []middleware.Middleware, ns []int) {
	ns = []int{}
	for ; n > 0; n-- {
		if nils && t.r.Intn(5) == 0 {
			ms, ns = append(ms, nil), append(ns, 0)
			continue
		}
		t.mid++
		k := t.mid
		ns = append(ns, k)
		ms = append(ms, func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				s := mc.R.Context().Value(muxKey{}).(*muxSeen)
				s.seq = append(s.seq, k)
				resp, err := next(ctx, mc)
				s.seq = append(s.seq, -k)
				return resp, err
			}
		})
	}
	return ms, ns
}

func (t *muxTree) clone(i int) {
	t.h = append(t.h, t.h[i-1].Clone())
	t.ev = append(t.ev, obj{"e": "clone", "i": i})
}
func (t *muxTree) prefix(i int, p string) {
	t.h = append(t.h, t.h[i-1].RouteUsingPathPrefix(p))
	t.ev = append(t.ev, obj{"e": "prefix", "i": i, "p": p})
}
func (t *muxTree) common(i, n int) {
	ms, ns := t.middlewares(n, t.r.Intn(2) == 0)
	t.h[i-1].CommonMiddlewares(ms...)
	t.ev = append(t.ev, obj{"e": "common", "i": i, "ms": ns})
}
func (t *muxTree) handle(i int, me, p string, own int) int {
	ms, ns := t.middlewares(own, true)
	t.id++
	id := t.id
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		s := mc.R.Context().Value(muxKey{}).(*muxSeen)
		s.id = id
		s.seq = append(s.seq, 0)
		return response.PlainTextHttpResponseOK("h"), nil
	}
	m := t.h[i-1]
	pn, _ := protect(func() {
		switch {
		case me == "GET" && id%2 == 0:
			m.HandleGet(p, h, ms...)
		case me == "POST":
			m.HandlePost(p, h, ms...)
		case me == "PUT":
			m.HandlePut(p, h, ms...)
		case me == "PATCH":
			m.HandlePatch(p, h, ms...)
		case me == "DELETE":
			m.HandleDelete(p, h, ms...)
		default:
			m.HandleRequest(me, p, h, ms...)
		}
	})
	t.ev = append(t.ev, obj{"e": "handle", "i": i, "m": me, "path": p, "own": ns, "id": id, "ok": !pn})
	return id
}
func (t *muxTree) debug(i int) {
	pn, _ := protect(func() { t.h[i-1].EnableDebugEndpoints() })
	t.ev = append(t.ev, obj{"e": "debug", "i": i, "ok": !pn})
}

func (t *muxTree) request(me, p string) obj {
	s := &muxSeen{seq: []int{}}
	req := &http.Request{Method: me, URL: &url.URL{Path: p}, Header: http.Header{}, Body: http.NoBody, Host: "h"}
	noise(req.Header)
	req = req.WithContext(context.WithValue(context.Background(), muxKey{}, s))
	w := httptest.NewRecorder()
	c := 0
	if pn, _ := protect(func() { pick(t.r, t.h).ServeHTTP(w, req); c = w.Code }); pn {
		c = -1
	}
	u := strings.Split(strings.TrimPrefix(p, "/"), "/")
	return obj{"m": me, "u": u, "c": c, "id": s.id, "seq": s.seq}
}
func (t *muxTree) serve(rs arr) {
	if len(rs) > 0 {
		t.ev = append(t.ev, obj{"e": "serve", "rs": rs})
	}
}

func (t *muxTree) settings() {
	same := true
	for _, m := range t.h {
		c := m.Config()
		same = same && c.CaseInsensitivePathMatch == t.ci && c.ContextPath == "/ctx" && c.ResourcesConfig == nil && m.ExecutableTemplate() == nil
		n := t.errs
		c.ErrLogFunc(nil)
		same = same && t.errs == n+1
	}
	t.ev = append(t.ev, obj{"e": "settings", "same": bit(same)})
}

type muxStep struct {
	O    string
	I, C int
}

func driveMux(t *testing.T) {
	r := newRand(40)
	if prop == "M01" {
		tr := newTrace("trees")
		tr.put(obj{"ci": false})
		for k, b := range behaviours[muxStep]("mux.json") {
			muxReplay(tr, r, b, k)
		}
		for k := 0; k < scale(400, 4000); k++ {
			muxRandom(tr, r)
		}
		tr.close()
		return
	}
	var g struct {
		Chains [][]string
		Paths  []string
	}
	readJSON("chains.json", &g)
	for _, ci := range []bool{false, true} {
		tr := newTrace(fmt.Sprint("chains-", ci))
		tr.put(obj{"ci": ci})
		for k, c := range g.Chains {
			for _, p := range g.Paths {
				if ci && k%scale(11, 3) != 0 {
					continue
				}
				muxChain(tr, r, ci, c, []string{p})
			}
		}
		for k := 0; k < scale(300, 3000); k++ {
			muxPlaces(tr, r, ci)
		}
		tr.close()
	}
}

// muxReplay executes a behaviour of the specification on a root that already has k%6 middlewares,
// added in one or in several calls; every mux registers a route at the end and all routes are requested
func muxReplay(tr *trace, r *rand.Rand, b []muxStep, k int) {
	t := newMuxTree(r, false)
	for n := k % 6; n > 0; {
		c := 1
		if k%2 == 0 {
			c = 1 + r.Intn(n)
		}
		t.common(1, c)
		n -= c
	}
	var paths []string
	full := []string{""}
	reg := func(i, own int) {
		p := fmt.Sprint("/r", t.id+1)
		t.handle(i, "GET", p, own)
		paths = append(paths, full[i-1]+p)
	}
	for _, s := range b {
		switch s.O {
		case "clone":
			t.clone(s.I)
			full = append(full, full[s.I-1])
		case "prefix":
			p := fmt.Sprint("/p", len(t.h))
			t.prefix(s.I, p)
			full = append(full, full[s.I-1]+p)
		case "common":
			t.common(s.I, s.C)
		case "handle":
			reg(s.I, r.Intn(3))
		}
	}
	for i := range t.h {
		reg(i+1, r.Intn(3))
	}
	var rs arr
	for _, p := range paths {
		rs = append(rs, t.request("GET", p))
	}
	t.serve(rs)
	tr.put(obj{"ev": t.ev})
}

func muxRandom(tr *trace, r *rand.Rand) {
	t := newMuxTree(r, false)
	var paths []string
	full := []string{""}
	ops, many, own := 6+r.Intn(25), 1, 4
	if r.Intn(15) == 0 { // long histories, long lists of middlewares
		ops, many, own = 40+r.Intn(60), 1+r.Intn(40), 1+r.Intn(40)
	}
	for n := ops; n > 0; n-- {
		i := 1 + r.Intn(len(t.h))
		if r.Intn(3) == 0 {
			i = len(t.h)
		}
		switch x := r.Intn(10); {
		case x < 2:
			t.clone(i)
			full = append(full, full[i-1])
		case x < 4:
			p := pick(r, []string{"/p", "/q", full[i-1], "/p/q"})
			if p == "" || strings.Count(full[i-1]+p, "/") > 16 {
				continue
			}
			t.prefix(i, p)
			full = append(full, full[i-1]+p)
		case x < 7:
			t.common(i, 1+many*r.Intn(4)*r.Intn(2))
		default:
			p := fmt.Sprint("/r", t.id+1)
			t.handle(i, pick(r, []string{"GET", "POST", "PUT", "PATCH", "DELETE", "LINK"}), p, r.Intn(own))
			paths = append(paths, full[i-1]+p)
		}
		if r.Intn(6) == 0 {
			var rs arr
			for _, p := range paths {
				rs = append(rs, t.request("GET", p))
			}
			t.serve(rs)
		}
	}
	var rs arr
	for _, p := range paths {
		for _, me := range []string{"GET", "POST", "PUT", "PATCH", "DELETE", "LINK"} {
			rs = append(rs, t.request(me, p))
		}
	}
	t.serve(rs)
	tr.put(obj{"ev": t.ev})
}

var muxPaths = func() (ps []string) {
	level := []string{""}
	for n := 0; n < 4; n++ {
		var next []string
		for _, p := range level {
			next = append(next, p+"/a", p+"/b")
		}
		ps = append(ps, next...)
		level = next
	}
	return append(ps, "/", "/a/a/a/a/a", "/A", "/A/b", "/a/a/a/a/a/a", "//a//b/", "/ctx/a", "/ctx")
}()

func muxChain(tr *trace, r *rand.Rand, ci bool, chain, ps []string) {
	t := newMuxTree(r, ci)
	at := 1
	for _, p := range chain {
		if r.Intn(5) == 0 {
			t.clone(at)
			at = len(t.h)
		}
		if r.Intn(6) == 0 {
			t.prefix(at, "")
			at = len(t.h)
		}
		t.prefix(at, p)
		at = len(t.h)
	}
	for _, p := range ps {
		t.handle(at, "GET", p, 0)
	}
	var rs arr
	for _, p := range muxPaths {
		rs = append(rs, t.request("GET", p))
	}
	t.serve(rs)
	t.settings()
	tr.put(obj{"ev": t.ev})
}

// muxPlaces: several routes at several levels of one tree, and debug endpoints
func muxPlaces(tr *trace, r *rand.Rand, ci bool) {
	t := newMuxTree(r, ci)
	pre := []string{"/a", "a", "/a/", "b/", "/", "/b", "/{v}", "/a/b", "*", "/B"}
	for n := 3 + r.Intn(9); n > 0; n-- {
		i := 1 + r.Intn(len(t.h))
		switch x := r.Intn(10); {
		case x < 1:
			t.clone(i)
		case x < 5:
			t.prefix(i, pick(r, pre))
		case x < 6 && t.r.Intn(3) == 0:
			t.debug(i)
		default:
			t.handle(i, pick(r, []string{"GET", "GET", "POST"}), pick(r, []string{"/a", "a", "/b", "", "/", "/{x}", "/**", "/a/b", "/*"}), 0)
		}
	}
	var rs arr
	for _, p := range muxPaths {
		rs = append(rs, t.request("GET", p), t.request("POST", p))
	}
	for _, p := range []string{"", "/a", "/a/b", "/b", "/a/a", "/B"} {
		for _, d := range []string{"/debug/vars", "/debug/pprof", "/debug/pprof/cmdline", "/debug/pprof/heap", "/debug/pprof/symbol", "/debug"} {
			rs = append(rs, t.request("GET", p+d))
		}
	}
	t.serve(rs)
	t.settings()
	tr.put(obj{"ev": t.ev})
}
