package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["provider"] = driveProvider }

// a reply of a provider endpoint, as Provider.tla has it
type reply struct {
	Code int            `json:"code"`
	Body string         `json:"body"`
	F    map[string]obj `json:"f"`
}

func fld(k, v string) obj { return obj{"k": k, "v": v} }

var tokenFields = []string{"access_token", "token_type", "scope", "refresh_token", "expires_in", "error"}
var userFields = []string{"email", "login", "id", "name"}

// field draws a value of the given kind for a field
func field(r *rand.Rand, name, kind string) obj {
	switch kind {
	case "empty":
		return fld("text", "")
	case "text":
		switch name {
		case "scope":
			return fld("text", pick(r, []string{"a", "a b", "a,b", "a,b,c d", "x:y,z"}))
		case "token_type":
			return fld("text", pick(r, []string{"bearer", "Bearer", "x"}))
		case "error":
			return fld("text", "bad_verification_code")
		case "email":
			return fld("text", pick(r, []string{"u@x.y", "é@x", "null", " ", "U@X.Y", "noat", "a+b@x", "<u@x>"})+fmt.Sprint(r.Intn(9))+pick(r, []string{"", "", " ", "@"}))
		}
		return fld("text", pick(r, []string{"v", "é\"\\", "0", "a b&c=d", "\n<", "null", "Bearer ", "bearer ", "token ", " ", "V", "\t"})+fmt.Sprint(r.Intn(100))+pick(r, []string{"", "", "", " ", "=", "\n", "X"}))
	case "num":
		return fld("num", fmt.Sprint(pick(r, []int{0, 1, -1, 3600, 99999})))
	case "arr":
		return fld("arr", pick(r, []string{`[]`, `["v"]`, `[null]`}))
	case "obj":
		return fld("obj", pick(r, []string{`{}`, `{"message":"m"}`, `{"message":null}`, `{"message":{"message":1}}`, `{"a":"v"}`}))
	case "bool":
		return fld("bool", pick(r, []string{"true", "false"}))
	}
	return fld(kind, "")
}

func (rp reply) jsonText() string {
	var b []string
	for k, f := range rp.F {
		q, _ := json.Marshal(k)
		v := str(f["v"])
		switch f["k"] {
		case "absent":
			continue
		case "null":
			v = "null"
		case "text":
			x, _ := json.Marshal(v)
			v = string(x)
		}
		b = append(b, string(q)+":"+v)
	}
	return "{" + strings.Join(b, ",") + "}"
}

// write answers with the reply
func (rp reply) write(w http.ResponseWriter) {
	t := rp.jsonText()
	switch rp.Body {
	case "object":
	case "object+":
		t += "\n{} x"
	case "objectcut", "cut":
		if rp.Body == "cut" {
			t = t[:len(t)-1]
		}
		w.Header().Set("Content-Length", strconv.Itoa(len(t)+10))
	case "array":
		t = "[" + t + "]"
	case "null":
		t = "null"
	case "text":
		t = `"access_token"`
	case "num":
		t = "12"
	case "true":
		t = "true"
	case "html":
		t = "<html>" + t
	case "nothing":
		t = ""
	case "deep":
		t = strings.Repeat(`{"access_token":`, 20000)
	case "form":
		t = "access_token=v1&token_type=bearer&email=v"
	case "closed":
		c, _, _ := w.(http.Hijacker).Hijack()
		c.Close()
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(rp.Code)
	io.WriteString(w, t)
}

// specified is what the specification is told: a reply that did not arrive has no status
func (rp reply) specified() obj {
	c, b := rp.Code, rp.Body
	if b == "closed" || c == 204 || c == 304 || b == "nothing" {
		b = "nothing"
	}
	if b == "objectcut" {
		b = "object+"
	}
	if rp.Body == "closed" {
		c = 0
	}
	return obj{"code": c, "body": b, "f": rp.F}
}

func newReply(r *rand.Rand, code int, body string, fields []string, kinds map[string]string) reply {
	rp := reply{Code: code, Body: body, F: map[string]obj{}}
	for _, n := range fields {
		k, ok := kinds[n]
		if !ok {
			k = "absent"
		}
		rp.F[n] = field(r, n, k)
	}
	return rp
}

const clientID, clientSecret = "id&1", "s=ecret+"
const providerRedirect = "https://me.example/cb?x=1&y"

// askedFor is what a token endpoint is told
type askedFor struct {
	Client string `json:"client"`
	Secret string `json:"secret"`
	Code   string `json:"code"`
	Redir  string `json:"redir"`
}

var oddParts = []string{"", "", "", " ", "+", "%20", "é", "&a=b", "=", "\"", "Bearer ", "bearer", "token ", "/", "\n", "\\", "<>", "#", "A", ";", "日本", "null", "--"}

// oddly surrounds a text, spare leaves out what no header can carry
func oddly(r *rand.Rand, s string, spare bool) string {
	if spare {
		return pick(r, []string{"", "", "Bearer ", "bearer ", "token ", "A", "=", "!~"}) + s + pick(r, []string{"", "", "=", "==", "+/", ".b-_", "Z", " x", "%20", "\""})
	}
	return pick(r, oddParts) + s + pick(r, oddParts)
}

// endpoints plays both providers; a request names the reply it gets by its code or token
type endpoints struct {
	srv     *httptest.Server
	mu      sync.Mutex
	replies map[string]reply

	asked map[string][]askedFor // by the replies they were given
	told  map[string][]string   // the tokens users were asked for with

	defaults []string
}

var keyPattern = regexp.MustCompile(`(c\+? ?[0-9]+|tok[0-9]+)_`)

// keyOf finds what names the reply within a code or a token
func keyOf(s string) string {
	if m := keyPattern.FindStringSubmatch(s); m != nil {
		return m[1]
	}
	return s
}

func (e *endpoints) note(key string, a askedFor) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.asked[key] = append(e.asked[key], a)
}

func newEndpoints() *endpoints {
	e := &endpoints{replies: map[string]reply{}, asked: map[string][]askedFor{}, told: map[string][]string{}}
	mux := http.NewServeMux()
	get := func(w http.ResponseWriter, key string) {
		e.mu.Lock()
		rp, ok := e.replies[key]
		e.mu.Unlock()
		if !ok {
			w.WriteHeader(401)
			io.WriteString(w, `{"error":"unknown"}`)
			return
		}
		rp.write(w)
	}
	mux.HandleFunc("/github/token", func(w http.ResponseWriter, q *http.Request) {
		q.ParseForm()
		if q.Method != "POST" {
			w.WriteHeader(400)
			return
		}
		key := keyOf(q.PostForm.Get("code"))
		e.note(key, askedFor{q.Form.Get("client_id"), q.PostForm.Get("client_secret"), q.PostForm.Get("code"), q.Form.Get("redirect_uri")})
		if !strings.Contains(q.Header.Get("Accept"), "json") { // as GitHub does
			w.Header().Set("Content-Type", "application/x-www-form-urlencoded")
			io.WriteString(w, "access_token=v1&scope=&token_type=bearer")
			return
		}
		get(w, "t"+key)
	})
	mux.HandleFunc("/google/token", func(w http.ResponseWriter, q *http.Request) {
		var m map[string]string
		if strings.HasPrefix(q.Header.Get("Content-Type"), "application/json") {
			json.NewDecoder(q.Body).Decode(&m)
		} else {
			q.ParseForm()
			m = map[string]string{}
			for k := range q.PostForm {
				m[k] = q.PostForm.Get(k)
			}
		}
		if q.Method != "POST" || m["grant_type"] != "authorization_code" {
			w.WriteHeader(400)
			return
		}
		key := keyOf(m["code"])
		e.note(key, askedFor{m["client_id"], m["client_secret"], m["code"], m["redirect_uri"]})
		get(w, "t"+key)
	})
	user := func(w http.ResponseWriter, q *http.Request) {
		a := q.Header.Get("Authorization")
		if q.Method != "GET" || len(a) < 7 || !strings.EqualFold(a[:7], "bearer ") {
			w.WriteHeader(401)
			return
		}
		key := keyOf(a[7:])
		e.mu.Lock()
		e.told[key] = append(e.told[key], a[7:])
		e.mu.Unlock()
		get(w, "u"+key)
	}
	mux.HandleFunc("/github/user", user)
	mux.HandleFunc("/google/user", user)
	mux.HandleFunc("/silent", func(w http.ResponseWriter, q *http.Request) {
		io.ReadAll(q.Body)
		if q.URL.RawQuery != "" {
			w.Header().Set("Content-Type", "application/json")
			io.WriteString(w, `{"access_token":"v1","token_type":"bearer","email":"v@x"`)
			w.(http.Flusher).Flush()
		}
		<-q.Context().Done()
	})
	e.srv = httptest.NewServer(mux)
	e.defaults = []string{oauth.GitHubAccessTokenEndpoint, oauth.GitHubUserInfoEndpoint, oauth.GoogleAccessTokenEndpoint, oauth.GoogleUserInfoEndpoint}
	oauth.GitHubAccessTokenEndpoint, oauth.GitHubUserInfoEndpoint = e.srv.URL+"/github/token", e.srv.URL+"/github/user"
	oauth.GoogleAccessTokenEndpoint, oauth.GoogleUserInfoEndpoint = e.srv.URL+"/google/token", e.srv.URL+"/google/user"
	return e
}

func (e *endpoints) script(key string, rp reply) {
	e.mu.Lock()
	e.replies[key] = rp
	e.mu.Unlock()
}

func bundled(name string) oauth.Provider {
	if name == "github" {
		return oauth.GitHubProvider{ClientId: clientID, ClientSecret: clientSecret}
	}
	return oauth.GoogleProvider{ClientId: clientID, ClientSecret: clientSecret}
}

func outcome(panicked bool, err error) string {
	switch {
	case panicked:
		return "panic"
	case err != nil:
		return "err"
	}
	return "ok"
}

func (e *endpoints) token(ctx context.Context, p, code string, rp reply, in ...askedFor) obj {
	sent := askedFor{clientID, clientSecret, code, providerRedirect}
	key := code
	pr := bundled(p)
	if len(in) > 0 {
		sent, key = in[0], keyOf(code)
		pr = oauth.Provider(oauth.GoogleProvider{ClientId: sent.Client, ClientSecret: sent.Secret})
		if p == "github" {
			pr = oauth.GitHubProvider{ClientId: sent.Client, ClientSecret: sent.Secret}
		}
	}
	e.script("t"+key, rp)
	e.mu.Lock()
	delete(e.asked, key)
	e.mu.Unlock()
	var at oauth.AccessToken
	var err error
	pn, _ := protect(func() { at, err = pr.FetchAccessToken(ctx, sent.Redir, sent.Code) })
	e.mu.Lock()
	asked := append([]askedFor{}, e.asked[key]...)
	e.mu.Unlock()
	return obj{"e": "token", "p": p, "r": rp.specified(), "res": outcome(pn, err), "tok": at.AccessToken, "type": at.TokenType,
		"scopes": append([]string{}, at.Scopes...), "refresh": at.RefreshToken, "exp": fmt.Sprint(at.ExpiresInSeconds), "sent": sent, "asked": asked}
}

func (e *endpoints) user(ctx context.Context, p, token string, rp reply) obj {
	key := keyOf(token)
	e.script("u"+key, rp)
	e.mu.Lock()
	delete(e.told, key)
	e.mu.Unlock()
	var u auth.User
	var err error
	pn, _ := protect(func() {
		u, err = bundled(p).FetchAuthenticatedUser(ctx, oauth.AccessToken{AccessToken: token, TokenType: "bearer"})
	})
	e.mu.Lock()
	told := append([]string{}, e.told[key]...)
	e.mu.Unlock()
	return obj{"e": "user", "p": p, "r": rp.specified(), "res": outcome(pn, err), "id": u.Id, "name": u.Name, "plat": u.IdentityPlatform, "sent": token, "asked": told}
}

type providerGen struct {
	Tokens []struct {
		C          int
		At, Tt, Er string
	}
	Users []struct {
		C          int
		Em, Lo, Na string
	}
	Odd []struct {
		C int
		B string
	}
}

func driveProvider(t *testing.T) {
	e := newEndpoints()
	defer e.srv.Close()
	r := newRand(60)
	if raceBuild {
		providerConcurrent(e, newChunks("race", 50), scale(30, 200))
		return
	}
	var g providerGen
	readJSON("replies.json", &g)
	bg := context.Background()
	both := []string{"github", "google"}
	kinds := []string{"absent", "null", "empty", "text", "num", "bool", "arr", "obj"}
	c := newChunks("tokens", 250)
	n := 0
	for _, x := range g.Tokens {
		ks := map[string]string{"access_token": x.At, "token_type": x.Tt, "error": x.Er}
		for _, f := range []string{"scope", "refresh_token", "expires_in"} {
			ks[f] = pick(r, kinds)
			if r.Intn(2) == 0 {
				ks[f] = map[string]string{"scope": "text", "refresh_token": "text", "expires_in": "num"}[f]
			}
		}
		for _, p := range both {
			n++
			code := oddly(r, fmt.Sprint("c+ ", n, "_"), false)
			sent := askedFor{oddly(r, "id", false), oddly(r, "Secret", false), code, pick(r, []string{providerRedirect, "https://Me.Example/CB/github", "https://me.example/cb", "http://localhost:1/a?b=%20&c=+"})}
			c.add(e.token(bg, p, code, newReply(r, x.C, "object", tokenFields, ks), sent))
		}
	}
	for _, x := range g.Odd {
		for _, p := range both {
			n++
			c.add(e.token(bg, p, fmt.Sprint("c", n), newReply(r, x.C, x.B, tokenFields, map[string]string{"access_token": "text", "token_type": "text", "expires_in": "num"})))
		}
	}
	c.close()
	c = newChunks("users", 250)
	for _, x := range g.Users {
		for _, p := range both {
			n++
			ks := map[string]string{"email": x.Em, "login": x.Lo, "id": x.Lo, "name": x.Na}
			if r.Intn(2) == 0 { // the name of the other provider never counts
				ks["login"] = pick(r, kinds)
			}
			if p == "github" {
				ks["login"], ks["id"] = ks["id"], ks["login"]
			}
			c.add(e.user(bg, p, oddly(r, fmt.Sprint("tok", n, "_"), true), newReply(r, x.C, "object", userFields, ks)))
		}
	}
	for _, x := range g.Odd {
		for _, p := range both {
			n++
			c.add(e.user(bg, p, fmt.Sprint("tok", n), newReply(r, x.C, x.B, userFields, map[string]string{"email": pick(r, kinds), "login": "text", "id": "text"})))
		}
	}
	c.add(obj{"e": "endpoints", "at": e.defaults})
	// an endpoint that cannot be reached, a cancelled request
	for _, p := range both {
		for _, limit := range []time.Duration{0, -1} {
			ctx, cancel := context.WithCancel(bg)
			gt, gu, ot, ou := oauth.GitHubAccessTokenEndpoint, oauth.GitHubUserInfoEndpoint, oauth.GoogleAccessTokenEndpoint, oauth.GoogleUserInfoEndpoint
			if limit == 0 {
				cancel()
			} else {
				for _, v := range []*string{&oauth.GitHubAccessTokenEndpoint, &oauth.GitHubUserInfoEndpoint, &oauth.GoogleAccessTokenEndpoint, &oauth.GoogleUserInfoEndpoint} {
					*v = "http://127.0.0.1:1/x"
				}
			}
			// a reply is there, but is not to be got
			rp := newReply(r, 200, "object", tokenFields, map[string]string{"access_token": "text", "token_type": "text"})
			ru := newReply(r, 200, "object", userFields, map[string]string{"email": "text"})
			et, eu := e.token(ctx, p, "unreached", rp), e.user(ctx, p, "unreached", ru)
			rp.Body, ru.Body = "closed", "closed"
			et["r"], eu["r"] = rp.specified(), ru.specified()
			c.add(et)
			c.add(eu)
			cancel()
			oauth.GitHubAccessTokenEndpoint, oauth.GitHubUserInfoEndpoint, oauth.GoogleAccessTokenEndpoint, oauth.GoogleUserInfoEndpoint = gt, gu, ot, ou
		}
	}
	c.close()
	silent := e.silent(r)
	c = newChunks("logins", 100)
	for k := 0; k < scale(1500, 15000); k++ {
		c.add(providerLogin(e, r, pick(r, both), fmt.Sprint("L", k)))
	}
	c.close()
	c = newChunks("urls", 40)
	for k := 0; k < scale(300, 5000); k++ {
		providerURLs(r, c, 1)
	}
	c.close()
	c = newChunks("silent", 100)
	for range cap(silent) {
		c.add(<-silent)
	}
	c.close()
}

// silent asks endpoints that never answer, or never finish their answer; their events arrive later
func (e *endpoints) silent(r *rand.Rand) chan obj {
	gt, gu, ot, ou := oauth.GitHubAccessTokenEndpoint, oauth.GitHubUserInfoEndpoint, oauth.GoogleAccessTokenEndpoint, oauth.GoogleUserInfoEndpoint
	out := make(chan obj, 8)
	var at atomic.Int32
	for _, u := range []string{"/silent", "/silent?x"} {
		for _, v := range []*string{&oauth.GitHubAccessTokenEndpoint, &oauth.GitHubUserInfoEndpoint, &oauth.GoogleAccessTokenEndpoint, &oauth.GoogleUserInfoEndpoint} {
			*v = e.srv.URL + u
		}
		for _, p := range []string{"github", "google"} {
			for _, fs := range [][]string{tokenFields, userFields} {
				rp := newReply(r, 200, "closed", fs, map[string]string{"access_token": "text", "token_type": "text", "email": "text"})
				at.Add(1)
				go func() {
					done := make(chan obj, 1)
					ctx := httptrace.WithClientTrace(context.Background(), &httptrace.ClientTrace{WroteRequest: func(httptrace.WroteRequestInfo) { at.Add(-1) }})
					go func() {
						if len(fs) == len(tokenFields) {
							done <- e.token(ctx, p, "silent", rp)
						} else {
							done <- e.user(ctx, p, "silent", rp)
						}
					}()
					select {
					case x := <-done:
						out <- x
					case <-time.After(60 * time.Second):
						out <- obj{"e": "hangs", "p": p}
					}
				}()
			}
		}
		for k := 0; at.Load() > 0 && k < 5000; k++ { // the requests are on their way before the endpoints change again
			time.Sleep(time.Millisecond)
		}
	}
	oauth.GitHubAccessTokenEndpoint, oauth.GitHubUserInfoEndpoint, oauth.GoogleAccessTokenEndpoint, oauth.GoogleUserInfoEndpoint = gt, gu, ot, ou
	return out
}

// providerLogin is a whole callback of a site that uses the bundled providers
func providerLogin(e *endpoints, r *rand.Rand, p, id string) obj {
	kinds := []string{"absent", "null", "empty", "num", "bool", "arr", "obj"}
	kind := func(n int) string {
		if r.Intn(n) == 0 {
			return pick(r, kinds)
		}
		return "text"
	}
	code := func() (int, string) {
		if r.Intn(5) == 0 {
			return pick(r, []int{201, 400, 401, 403, 500, 302}), "object"
		}
		if r.Intn(8) == 0 {
			return 200, pick(r, []string{"cut", "closed", "array", "null", "html", "nothing", "object+"})
		}
		return 200, "object"
	}
	c, b := code()
	rt := newReply(r, c, b, tokenFields, map[string]string{"access_token": kind(5), "token_type": kind(8), "scope": kind(8)})
	rt.F["error"] = fld("absent", "")
	if rt.F["access_token"]["k"] == "text" && rt.F["access_token"]["v"] != "" {
		rt.F["access_token"] = fld("text", "tok"+id)
	}
	c, b = code()
	ru := newReply(r, c, b, userFields, map[string]string{"email": kind(3), "login": kind(3), "id": kind(3), "name": kind(3)})
	e.script("tcode"+id, rt)
	e.script("utok"+id, ru)
	user := r.Intn(3) > 0
	seen := &oauthSeen{}
	m, _ := gofre.NewMuxHandlerWithDefaultConfig()
	record := middleware.Middleware(func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			seen.resp, seen.err = next(ctx, mc)
			if seen.err != nil {
				return response.PlainTextHttpResponse(400, "no"), nil
			}
			return seen.resp, nil
		}
	})
	m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://me.example", FetchUserDetails: user, Providers: []oauth.Provider{bundled("github"), bundled("google")}}, oauthHandler,
		nil, []middleware.Middleware{record})
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/oauth/authorize/" + p, RawQuery: "state=x&code=code" + id}, Header: http.Header{}, Body: http.NoBody, Host: "h"}
	req = req.WithContext(context.WithValue(context.Background(), oauthKey{}, seen))
	pn, _ := protect(func() { m.ServeHTTP(httptest.NewRecorder(), req) })
	return obj{"e": "login", "p": p, "rt": rt.specified(), "ru": ru.specified(), "user": bit(user), "res": outcome(pn, seen.err),
		"ran": bit(seen.ran), "tok": seen.tok, "id": seen.uid}
}

// providerURLs asks several providers sharing one scope list for their URLs, repeatedly
func providerURLs(r *rand.Rand, c *chunks, par int) {
	pool := make([]string, 0, 8)
	for _, s := range []string{"repo", "gist", "a:b", "read:org", "user:email", "https://x.y/z"} {
		if r.Intn(3) > 0 {
			pool = append(pool, s)
		}
	}
	for len(pool) < cap(pool) {
		pool = append(pool, "spare"+fmt.Sprint(len(pool)))
	}
	type cfg struct {
		p    string
		conf []string
		make func() oauth.Provider
		sent obj
		opt  obj
	}
	var cs []cfg
	for k := 0; k < 3; k++ {
		n := r.Intn(5)
		conf := pool[:n]
		if n == 0 && r.Intn(2) == 0 {
			conf = nil
		}
		id := pick(r, []string{"client", "a b", "x&y=z", "é"})
		x := cfg{p: pick(r, []string{"github", "google"}), conf: conf, sent: obj{"client_id": id},
			opt: obj{"login": "", "signup": 0, "offline": 0, "granted": 0, "prompts": []string{}}}
		if x.p == "github" {
			pr := oauth.GitHubProvider{ClientId: id, Scopes: conf, AllowSignup: r.Intn(2) == 0, Login: pick(r, []string{"", "me&you", " é"})}
			x.opt["login"], x.opt["signup"] = pr.Login, bit(pr.AllowSignup)
			x.make = func() oauth.Provider { return pr }
		} else {
			pr := oauth.GoogleProvider{ClientId: id, Scopes: conf, AccessTypeOffline: r.Intn(2) == 0, IncludeGrantedScopes: r.Intn(2) == 0,
				LoginHint: pick(r, []string{"", "me@x.y", "a&b"}), Prompts: pick(r, [][]string{nil, {}, {"consent"}, {"consent", "select_account"}})}
			x.opt["login"], x.opt["offline"], x.opt["granted"], x.opt["prompts"] = pr.LoginHint, bit(pr.AccessTypeOffline), bit(pr.IncludeGrantedScopes), append([]string{}, pr.Prompts...)
			x.make = func() oauth.Provider { return pr }
		}
		cs = append(cs, x)
	}
	before := append([]string{}, pool...)
	confs := make([][]string, len(cs))
	for i, x := range cs {
		confs[i] = append([]string{}, x.conf...)
	}
	ask := func(i int, user bool, n int) obj {
		x := cs[i]
		state, redir := fmt.Sprint("st&", n), fmt.Sprint("https://me.example/cb/?a=", n)
		var u string
		pn, _ := protect(func() { u = x.make().InitiateUrl(redir, state, user) })
		ev := obj{"e": "url", "p": x.p, "conf": confs[i], "user": bit(user), "scopes": []string{}, "before": []string{}, "after": []string{},
			"sent": obj{"client": str(x.sent["client_id"]), "state": state, "redir": redir, "end": map[string]string{"github": "https://github.com/login/oauth/authorize", "google": "https://accounts.google.com/o/oauth2/v2/auth"}[x.p]},
			"got":  obj{"client": "", "state": "", "redir": "", "end": ""}, "opt": x.opt, "params": arr{}}
		if pu, err := url.Parse(u); !pn && err == nil {
			q := pu.Query()
			ev["scopes"] = strings.Fields(strings.Join(q["scope"], " "))
			ev["got"] = obj{"client": q.Get("client_id"), "state": q.Get("state"), "redir": q.Get("redirect_uri"), "end": pu.Scheme + "://" + pu.Host + pu.Path}
			ps := arr{}
			for k, vs := range q {
				for _, v := range vs {
					if k != "scope" {
						ps = append(ps, obj{"k": k, "v": v})
					}
				}
			}
			ev["params"] = ps
		}
		return ev
	}
	if par > 1 {
		es := make([]obj, par)
		users := make([]bool, par)
		for i := range users {
			users[i] = r.Intn(3) > 0
		}
		var wg sync.WaitGroup
		for i := range es {
			wg.Add(1)
			go func() { defer wg.Done(); es[i] = ask(i%len(cs), users[i], i) }()
		}
		wg.Wait()
		for _, e := range es {
			c.add(e)
		}
	} else {
		for k := 0; k < 8; k++ {
			ev := ask(r.Intn(len(cs)), r.Intn(3) > 0, k)
			ev["before"], ev["after"] = before, append([]string{}, pool...)
			c.add(ev)
		}
	}
}

func providerConcurrent(e *endpoints, c *chunks, n int) {
	r := newRand(61)
	for k := 0; k < n; k++ {
		providerURLs(r, c, 8)
		es := make([]obj, 8)
		var wg sync.WaitGroup
		for i := range es {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				es[i] = providerLogin(e, rr, []string{"github", "google"}[i%2], fmt.Sprint("R", k, "x", i))
			}()
		}
		wg.Wait()
		for _, x := range es {
			c.add(x)
		}
	}
	c.close()
}
