package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["oauth"] = driveOAuth }

// fakeProvider answers as the code of the request says and records what it was asked with
type fakeProvider struct{ name string }

type oauthSeen struct {
	ran              bool
	tok, uid         string
	gcode, gredir    string
	gave, id         string
	token, user      int
	err              error
	resp             response.HttpResponse
	askedTok, usrTok string
}

type oauthKey struct{}

func (p fakeProvider) Name() string { return p.name }
func (p fakeProvider) InitiateUrl(redirectUri, state string, user bool) string {
	return "https://" + p.name + ".example/auth?" + url.Values{"r": {redirectUri}, "s": {state}, "u": {fmt.Sprint(bit(user))}, "p": {p.name}}.Encode()
}

var errProvider = errors.New("the provider refused")

func (p fakeProvider) FetchAccessToken(ctx context.Context, redirectUri, code string) (oauth.AccessToken, error) {
	s := ctx.Value(oauthKey{}).(*oauthSeen)
	s.gcode, s.gredir = code, redirectUri
	if s.token == 0 {
		return oauth.AccessToken{}, errProvider
	}
	return oauth.AccessToken{AccessToken: s.gave, TokenType: "Bearer"}, nil
}
func (p fakeProvider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	s := ctx.Value(oauthKey{}).(*oauthSeen)
	if s.user == 0 || t.AccessToken != s.gave {
		return auth.User{}, errProvider
	}
	return auth.User{Id: s.id, IdentityPlatform: p.name}, nil
}

type oauthSite struct {
	spec        obj
	initP, base string // request paths
	mux         *gofre.MuxHandler
	names       []string
}

type oauthWorld struct {
	r     *rand.Rand
	sites []*oauthSite
	ttl   int
	unit  time.Duration
	ev    arr
	mu    sync.Mutex
	n     int
}

func oauthHandler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	s := mc.R.Context().Value(oauthKey{}).(*oauthSeen)
	s.ran = true
	s.tok = oauth.GetAccessTokenFromContext(ctx).AccessToken
	if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
		s.uid = p.Identity()
	}
	return response.PlainTextHttpResponseOK("in"), nil
}

// addSite puts one more login site on the world's mux
func (w *oauthWorld) addSite(root *gofre.MuxHandler, names []string, c cache.Cache, cacheNo int, user bool, prefix string, custom bool) {
	s := &oauthSite{names: names}
	var ps []oauth.Provider
	for _, n := range names {
		ps = append(ps, fakeProvider{n})
	}
	cfg := oauth.Config{WebsiteUrl: "https://site" + fmt.Sprint(len(w.sites)) + ".example", FetchUserDetails: user, Providers: ps}
	if c != nil {
		cfg.CacheConfig = oauth.CacheConfig{Cache: c, KeyExpirationTime: time.Duration(w.ttl) * w.unit}
	}
	m := root.RouteUsingPathPrefix(prefix)
	record := middleware.Middleware(func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			seen := mc.R.Context().Value(oauthKey{}).(*oauthSeen)
			seen.resp, seen.err = next(ctx, mc)
			if seen.err != nil {
				return response.PlainTextHttpResponse(400, "no"), nil
			}
			return seen.resp, nil
		}
	})
	// what an outer layer left behind: another principal, another token
	left := []middleware.Middleware{record}
	if w.r.Intn(2) == 0 {
		left = append(left, middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			return auth.User{Id: "somebody", IdentityPlatform: "elsewhere"}, nil
		}))
	}
	if w.r.Intn(3) == 0 {
		left = append(left, func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return next(context.WithValue(ctx, oauth.AccessTokenCtxKey, oauth.AccessToken{AccessToken: "stale"}), mc)
			}
		})
	}
	base := "/oauth/authorize"
	s.initP = prefix + "/oauth/initiate"
	if custom {
		base = "/login/back"
		s.initP = prefix + "/login/start"
		m.HandleOAUTH2WithCustomPaths("/login/start", base, cfg, oauthHandler, []middleware.Middleware{record}, left)
	} else {
		m.HandleOAUTH2(cfg, oauthHandler, []middleware.Middleware{record}, left)
	}
	s.base = prefix + base
	s.mux = root
	s.spec = obj{"providers": append([]string{}, names...), "cache": cacheNo, "user": bit(user), "website": cfg.WebsiteUrl, "base": s.base}
	w.sites = append(w.sites, s)
}

func (w *oauthWorld) get(s *oauthSite, p string, q url.Values, seen *oauthSeen) *httptest.ResponseRecorder {
	req := &http.Request{Method: "GET", URL: &url.URL{Path: spelled(p, len(seen.gave)+len(q.Encode())), RawQuery: q.Encode()}, Header: http.Header{}, Body: http.NoBody, Host: "h"}
	noise(req.Header)
	req = req.WithContext(context.WithValue(context.Background(), oauthKey{}, seen))
	rec := httptest.NewRecorder()
	if pn, _ := protect(func() { s.mux.ServeHTTP(rec, req) }); pn {
		return nil
	}
	return rec
}

// spelled is another way to write the same path
func spelled(p string, k int) string {
	switch k % 5 {
	case 1:
		return p + "/"
	case 2:
		return strings.ReplaceAll(p, "/", "//")
	case 3:
		return "/" + p + "///"
	}
	return p
}

func (w *oauthWorld) initiate(i int, param string) (obj, string) {
	s := w.sites[i-1]
	q := url.Values{}
	if param != "" {
		q.Set("provider", param)
	}
	seen := &oauthSeen{}
	rec := w.get(s, s.initP, q, seen)
	e := obj{"e": "init", "i": i, "param": param, "res": "other", "p": "", "state": "", "redir": "", "user": 0, "lost": 0}
	switch {
	case rec == nil:
		e["res"] = "panic"
	case seen.err != nil:
		e["res"] = "err"
	case rec.Code >= 300 && rec.Code < 400:
		u, err := url.Parse(rec.Header().Get("Location"))
		if err == nil {
			v := u.Query()
			e["res"], e["p"], e["state"], e["redir"], e["user"] = "redirect", v.Get("p"), v.Get("s"), v.Get("r"), bit(v.Get("u") == "1")
		}
	}
	return e, str(e["state"])
}

func (w *oauthWorld) callback(i int, p, errp, state, outcome string) obj {
	s := w.sites[i-1]
	w.mu.Lock()
	w.n++
	n := w.n
	w.mu.Unlock()
	seen := &oauthSeen{token: bit(outcome != "notoken"), user: bit(outcome == "good"), gave: fmt.Sprint("token", n), id: fmt.Sprint("user", n)}
	code := fmt.Sprint("code+& ", n)
	if n%3 == 0 { // a code that has been used before
		code = fmt.Sprint("code", n%2)
	}
	if n%4 == 0 { // the same token for many users
		seen.gave = fmt.Sprint("token", n%8)
	}
	q := url.Values{"code": {code}}
	if errp != "" {
		q.Set("error", errp)
	}
	if state != "" {
		q.Set("state", state)
	}
	rec := w.get(s, s.base+"/"+p, q, seen)
	e := obj{"e": "cb", "i": i, "p": p, "err": errp, "state": state, "token": seen.token, "user": seen.user, "code": code, "res": "other", "gave": seen.gave, "id": seen.id,
		"ran": bit(seen.ran), "tok": seen.tok, "uid": seen.uid, "gcode": seen.gcode, "gredir": seen.gredir}
	switch {
	case rec == nil:
		e["res"] = "panic"
	case seen.err != nil:
		e["res"] = "err"
	case rec.Code == 200 && rec.Body.String() == "in":
		e["res"] = "ok"
	}
	return e
}

func (w *oauthWorld) record() obj {
	ss := arr{}
	for _, s := range w.sites {
		ss = append(ss, s.spec)
	}
	return obj{"sites": ss, "ttl": w.ttl, "ev": w.ev}
}

type oauthStep struct {
	O, P string
	S, E int
	C    string
}

const forgedState = "abcdefghijkl"

func driveOAuth(t *testing.T) {
	if raceBuild {
		oauthConcurrent(newTrace("race"), newRand(51), scale(40, 300))
		return
	}
	r := newRand(50)
	synctest.Test(t, func(t *testing.T) {
		tr := newTrace("replayed")
		for k, b := range behaviours[oauthStep]("oauth.json") {
			oauthReplay(tr, r, b, k)
		}
		tr.close()
		tr = newTrace("random")
		for k := 0; k < scale(800, 8000); k++ {
			oauthRandom(tr, r)
		}
		for k := 0; k < scale(3, 10); k++ {
			oauthCrowded(tr, r)
		}
		tr.close()
	})
	oauthConcurrent(newTrace("concurrent"), r, scale(100, 1000))
	// the states of a long session are all different
	w := &oauthWorld{r: r, ttl: 5, unit: time.Hour}
	m, _ := gofre.NewMuxHandlerWithDefaultConfig()
	w.addSite(m, []string{"p1"}, nil, 0, false, "", false)
	ns := arr{}
	for k := 0; k < scale(60000, 300000); k++ {
		_, s := w.initiate(1, "")
		ns = append(ns, s)
		if k%1000 == 0 {
			rand.Seed(1) //nolint: an application that seeds its own random numbers
		}
	}
	tr := newTrace("unique")
	w.ev = arr{obj{"e": "unique", "ns": ns}}
	tr.put(w.record())
	tr.close()
}

func oauthReplay(tr *trace, r *rand.Rand, b []oauthStep, k int) {
	w := &oauthWorld{r: r, ttl: 2, unit: pick(r, []time.Duration{time.Nanosecond, time.Second, time.Hour})}
	m, _ := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: k%5 == 0})
	var c cache.Cache
	no := 0
	if k%4 != 0 {
		c, no = cache.NewInMemory(), 1
	}
	names := []string{"p1", "p2", "p3"}[:1+r.Intn(3)]
	w.addSite(m, names, c, no, r.Intn(3) > 0, pick(r, []string{"", "/app", "/a/b"}), r.Intn(2) == 0)
	states := map[int]string{0: "", 99: forgedState}
	n := 0
	prov := map[string]string{"first": "p1", "second": "p2", "none": "", "unknown": "zz", "othercase": "P1"}
	for _, s := range b {
		switch s.O {
		case "tick":
			time.Sleep(w.unit)
			w.ev = append(w.ev, tickEv(1))
		case "init":
			e, st := w.initiate(1, prov[s.P])
			w.ev = append(w.ev, e)
			if s.P == "first" {
				n++
				states[n] = st
			}
		default:
			e := ""
			if s.E == 1 {
				e = pick(r, []string{"access_denied", "0", "false"})
			}
			w.ev = append(w.ev, w.callback(1, prov[s.P], e, states[s.S], s.C))
		}
	}
	tr.put(w.record())
}

func oauthRandom(tr *trace, r *rand.Rand) {
	w := &oauthWorld{r: r, ttl: pick(r, []int{0, 1, 2, 5, 300}), unit: pick(r, []time.Duration{time.Nanosecond, time.Millisecond, time.Minute})}
	m, _ := gofre.NewMuxHandlerWithDefaultConfig()
	stores := []*refusing{nil, {Cache: cache.NewInMemory()}, {Cache: cache.NewInMemory()}}
	caches := []cache.Cache{nil, stores[1], stores[2]}
	for k := 1 + r.Intn(3); k > 0; k-- {
		c := pick(r, []int{0, 1, 1, 2, 2})
		names := append([]string{}, []string{"github", "p2", "google", "é"}[:r.Intn(5)]...)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		w.addSite(m, names, caches[c], c, r.Intn(2) == 0, fmt.Sprint("/s", k), r.Intn(2) == 0)
	}
	var all []string
	for k := 4 + r.Intn(25); k > 0; k-- {
		i := 1 + r.Intn(len(w.sites))
		name := func() string {
			if len(w.sites[i-1].names) > 0 && r.Intn(6) > 0 {
				return pick(r, w.sites[i-1].names)
			}
			return pick(r, []string{"", "zz", "GitHub", "p2", "p"})
		}
		switch x := r.Intn(10); {
		case x < 3:
			lost := r.Intn(10) == 0
			stores[1].on.Store(lost)
			stores[2].on.Store(lost)
			e, s := w.initiate(i, name())
			stores[1].on.Store(false)
			stores[2].on.Store(false)
			e["lost"] = bit(lost)
			w.ev = append(w.ev, e)
			if s != "" {
				all = append(all, s)
			}
		case x < 5:
			d := pick(r, []int{1, 1, 2, w.ttl - 1, w.ttl, w.ttl + 1})
			if d > 0 {
				time.Sleep(time.Duration(d) * w.unit)
				w.ev = append(w.ev, tickEv(d))
			}
		default:
			st := forgedState
			if len(all) > 0 {
				switch r.Intn(9) {
				case 8:
					x := pick(r, all)
					st = pick(r, []string{x + " ", " " + x, x + x, x + ",y", x + "&", x + "\n", x[1:] + x[:1], "0" + x, x + "%20", x + "="})
				case 0:
					st = strings.ToUpper(pick(r, all))
				case 1:
					st = pick(r, all)[1:]
				case 2:
					st = pick(r, []string{"", forgedState, " "})
				case 3, 4:
					st = all[len(all)-1]
				default:
					st = pick(r, all)
				}
			}
			p := name()
			if p == "" {
				p = "zz"
			}
			w.ev = append(w.ev, w.callback(i, p, pick(r, []string{"", "", "", "", "", "", "denied"}), st, pick(r, []string{"good", "good", "good", "good", "notoken", "nouser"})))
		}
	}
	tr.put(w.record())
}

// oauthCrowded: thousands of logins have been started and not finished, with dozens of providers
func oauthCrowded(tr *trace, r *rand.Rand) {
	w := &oauthWorld{r: r, ttl: 60, unit: time.Minute}
	m, _ := gofre.NewMuxHandlerWithDefaultConfig()
	var names []string
	for k := 1 + r.Intn(60); k > 0; k-- {
		names = append(names, fmt.Sprint("provider", k))
	}
	w.addSite(m, names, cache.NewInMemory(), 1, true, "/s1", false)
	w.addSite(m, names[:1], cache.NewInMemory(), 2, false, "/s2", true)
	all := [][]string{nil, nil, nil}
	inits := func(i, n int) {
		p := pick(r, w.sites[i-1].names)
		states, fine := []string{}, arr{}
		for ; n > 0; n-- {
			e, s := w.initiate(i, p)
			states = append(states, s)
			fine = append(fine, bit(e["res"] == "redirect" && e["p"] == p && e["redir"] == fmt.Sprint(w.sites[i-1].spec["website"])+w.sites[i-1].base+"/"+p && e["user"] == w.sites[i-1].spec["user"]))
		}
		all[i] = append(all[i], states...)
		w.ev = append(w.ev, obj{"e": "inits", "i": i, "p": p, "states": states, "fine": fine})
	}
	cbs := func(i, from, n int) {
		p := pick(r, w.sites[i-1].names)
		states, rans := []string{}, arr{}
		for ; n > 0; n-- {
			s := pick(r, all[from])
			states = append(states, s)
			rans = append(rans, w.callback(i, p, "", s, "good")["ran"])
		}
		w.ev = append(w.ev, obj{"e": "cbs", "i": i, "p": p, "states": states, "rans": rans})
	}
	pass := func(d int) {
		time.Sleep(time.Duration(d) * w.unit)
		w.ev = append(w.ev, tickEv(d))
	}
	inits(1, pick(r, []int{1100, 2200, scale(4200, 12000)}))
	inits(2, 300)
	cbs(1, 1, 300)
	cbs(2, 1, 20)
	pass(30)
	inits(1, 1100)
	cbs(1, 1, 300)
	pass(29)
	cbs(1, 1, 300)
	cbs(2, 2, 50)
	pass(1)
	cbs(1, 1, 300)
	cbs(2, 2, 50)
	tr.put(w.record())
}

// many logins at once: every handler sees the token and user of its own request
func oauthConcurrent(tr *trace, r *rand.Rand, n int) {
	for k := 0; k < n; k++ {
		w := &oauthWorld{r: r, ttl: 1000, unit: time.Hour}
		m, _ := gofre.NewMuxHandlerWithDefaultConfig()
		w.addSite(m, []string{"p1", "p2"}, cache.NewInMemory(), 1, true, "", false)
		par := func(k int, f func(i int) obj) {
			es := make([]obj, k)
			var wg sync.WaitGroup
			for i := range es {
				wg.Add(1)
				go func() { defer wg.Done(); es[i] = f(i) }()
			}
			wg.Wait()
			for _, e := range es {
				w.ev = append(w.ev, e)
			}
		}
		provs, outs := []string{"p1", "p2"}, []string{"good", "good", "notoken", "nouser"}
		par(8, func(i int) obj { e, _ := w.initiate(1, provs[i%2]); return e })
		var states []string
		for _, e := range w.ev {
			states = append(states, str(e.(obj)["state"]))
		}
		states = append(states, forgedState)
		par(16, func(i int) obj {
			if i%5 == 4 {
				e, _ := w.initiate(1, provs[i%2])
				return e
			}
			return w.callback(1, provs[i%2], "", states[i%len(states)], outs[(i/2)%4])
		})
		tr.put(w.record())
	}
	tr.close()
}
