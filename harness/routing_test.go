package harness

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["routing"] = driveRouting }

// "‖z‖70000" stands for a segment of 70000 letters z
func expand(seg string) string {
	if !strings.HasPrefix(seg, "‖") {
		return bytesOf(seg)
	}
	p := strings.Split(seg, "‖")
	n, _ := strconv.Atoi(p[2])
	return strings.Repeat(p[1], n)
}

// U+E080 to U+E0FF stand for the bytes that are not text
func bytesOf(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 0xE080 && c <= 0xE0FF {
			sb.WriteByte(byte(c - 0xE000))
		} else if c >= 0xE000 && c < 0xE010 { // TLC counts the characters beyond U+FFFF twice
			sb.WriteRune(c - 0xE000 + 0x1F600)
		} else {
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func textOf(s string) string {
	if utf8.ValidString(s) {
		return strings.Map(func(c rune) rune {
			if c >= 0x1F600 && c < 0x1F610 {
				return c - 0x1F600 + 0xE000
			}
			return c
		}, s)
	}
	var sb strings.Builder
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			c = 0xE000 + rune(s[0])
		}
		sb.WriteRune(c)
		s = s[n:]
	}
	return sb.String()
}

func collapse(seg string) string {
	if len(seg) < 300 {
		return textOf(seg)
	}
	return fmt.Sprintf("‖%s‖%d", seg[:1], len(seg))
}

func urlOf(segs []string) string {
	var sb strings.Builder
	sb.WriteByte('/')
	for i, s := range segs {
		if i > 0 {
			sb.WriteByte('/')
		}
		sb.WriteString(expand(s))
	}
	return sb.String()
}

type routeReg struct {
	m string
	p int // 1-based pattern number
}
type routeReq struct {
	m string
	u int // 1-based path number
}

type routingFile struct {
	ci    bool
	pats  []string
	paths [][]string
	pi    map[string]int
	ui    map[string]int
	sess  []obj
	ev    arr
	mux   *gofre.MuxHandler
	ran   []int
	vals  []string
	names []string
	nextI int
	hung  bool
}

func newRoutingFile(ci bool) *routingFile {
	return &routingFile{ci: ci, pi: map[string]int{}, ui: map[string]int{}}
}

func (f *routingFile) pat(p string) int {
	if i, ok := f.pi[p]; ok {
		return i
	}
	f.pats = append(f.pats, p)
	f.pi[p] = len(f.pats)
	return len(f.pats)
}

func (f *routingFile) path(segs []string) int {
	k := strings.Join(segs, "/") + "#" + strconv.Itoa(len(segs))
	if i, ok := f.ui[k]; ok {
		return i
	}
	f.paths = append(f.paths, append([]string{}, segs...))
	f.ui[k] = len(f.paths)
	return len(f.paths)
}

func (f *routingFile) session() { f.ev = arr{} }
func (f *routingFile) end() {
	f.sess = append(f.sess, obj{"ev": f.ev})
}

func (f *routingFile) newMux() {
	mux, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: f.ci, ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	f.mux = mux
	f.nextI = 0
	f.ev = append(f.ev, obj{"e": "mux"})
}

func (f *routingFile) reg(method, pat string) bool {
	f.nextI++
	id := f.nextI
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		f.ran = append(f.ran, id)
		f.vals = f.vals[:0]
		cl := mc.Clone()
		for i, n := range f.names {
			if i < len(f.names)/2 {
				f.vals = append(f.vals, collapse(mc.PathVar(n)))
			} else {
				f.vals = append(f.vals, collapse(cl.PathVar(n)))
			}
		}
		return response.PlainTextHttpResponseOK("x"), nil
	}
	oc, _ := guarded(20*time.Second, func() { f.mux.HandleRequest(method, bytesOf(pat), h) })
	if oc == "hang" {
		f.hung = true
	}
	f.ev = append(f.ev, obj{"e": "reg", "m": strings.ToUpper(method), "p": f.pat(pat), "ok": oc == "ok", "id": id})
	return oc == "ok"
}

func (f *routingFile) serve(names []string, reqs []routeReq) {
	f.names = append(append([]string{}, names...), names...)
	rs := make(arr, 0, len(reqs))
	prog := 0
	oc := "hang"
	start := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i, q := range reqs {
			prog = i
			rs = append(rs, f.one(q))
		}
	}()
	select {
	case <-done:
		oc = "ok"
	case <-time.After(30 * time.Second):
	}
	_ = start
	if oc == "hang" {
		q := reqs[prog]
		rs = append(rs[:prog:prog], obj{"m": strings.ToUpper(q.m), "u": q.u, "c": 0, "hs": []int{}, "v": []string{}, "pn": true})
		f.hung = true
	}
	f.ev = append(f.ev, obj{"e": "serve", "names": f.names, "rs": rs})
}

func (f *routingFile) one(q routeReq) obj {
	req := &http.Request{Method: q.m, URL: &url.URL{Path: urlOf(f.paths[q.u-1])}, Header: http.Header{}, Body: http.NoBody,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "h"}
	noise(req.Header)
	f.ran = nil
	f.vals = nil
	rec := httptest.NewRecorder()
	panicked := func() (p bool) {
		p = true
		defer func() { recover() }()
		f.mux.ServeHTTP(rec, req)
		p = false
		return
	}()
	ran := f.ran
	if ran == nil {
		ran = []int{}
	}
	vals := append([]string{}, f.vals...)
	return obj{"m": strings.ToUpper(q.m), "u": q.u, "c": rec.Code, "hs": ran, "v": vals, "pn": panicked}
}

func (f *routingFile) write(name string) {
	t := newTrace(name)
	t.put(obj{"ci": f.ci, "pats": f.pats, "paths": f.paths})
	for _, s := range f.sess {
		t.put(s)
	}
	t.close()
}

type routingGen struct {
	Pats    []string   `json:"pats"`
	Bad     []string   `json:"bad"`
	Paths   [][]string `json:"paths"`
	Regexes []string   `json:"regexes"`
}

func varNames(pats ...string) []string {
	seen := map[string]bool{}
	names := []string{}
	for _, p := range pats {
		for _, s := range strings.Split(p, "/") {
			if len(s) > 2 && s[0] == '{' && s[len(s)-1] == '}' {
				n, _, _ := strings.Cut(s[1:len(s)-1], ":")
				if !seen[n] {
					seen[n] = true
					names = append(names, n)
				}
			}
		}
	}
	for _, n := range names[:min(len(names), 2)] {
		for _, m := range []string{n[:min(len(n), 1)], n + "x", strings.ToUpper(n), strings.TrimSpace(n), " " + n} {
			if !seen[m] && utf8.ValidString(m) {
				seen[m] = true
				names = append(names, m)
			}
		}
	}
	return append(names, "zz", "")
}

func driveRouting(t *testing.T) {
	var g routingGen
	readJSON("routing.json", &g)
	switch prop {
	case "R05":
		routingSegments(g)
	case "R06":
		routingRegistrations(g)
	case "R07":
		routingNormalise(g)
	default:
		routingPairs(g)
		routingRandom(g)
		routingLarge()
		routingDeep()
		routingContests()
	}
}

// routes whose first segments all match the same text and are of one kind or
// two, with continuations of every weight: which branch comes first decides
func routingContests() {
	heads := [][]string{
		{"{x:^a}", "{y:b$}", "{z:ab}", "{x:^a.*b$}"},
		{"a*", "*b", "?b", "a?", "??", "*?b"},
		{"{x}", "{y}", "{v}"},
		{"{x:^a}", "{y:b$}", "a*", "*b", "{v}", "*", "ab"},
		{"**", "*", "{v}", "a?", "{x:b$}"},
	}
	tails := []string{"", "/a", "/b*", "/a*", "/*b", "/{z}", "/{z:^a}", "/*", "/**", "/a/**", "/{z}/**", "/a*/**", "/*/**", "/**/a", "/**/{u}", "/a/b", "/{z}/{u}", "/a/*", "/**/a/{u}", "/*/a", "/{z:^a}/b"}
	for round := 0; round < scale(1, 5); round++ {
		for _, ci := range []bool{false, true} {
			r := newRand(7300 + int64(2*round+bit(ci)))
			f := newRoutingFile(ci)
			var us []int
			for _, t := range []string{"a", "b", "ba", "c"} {
				us = append(us, f.path([]string{"ab", t}))
				for _, v := range []string{"a", "b", "c"} {
					us = append(us, f.path([]string{"ab", t, v}), f.path([]string{"ab", "ab", t, v}), f.path([]string{"p", "ab", t, v}), f.path([]string{"p", "ab", v}))
				}
			}
			us = append(us, f.path([]string{"ab"}), f.path([]string{"p", "ab"}), f.path([]string{"ab", "ab"}), f.path([]string{"ac", "a"}), f.path([]string{"cb", "a", "b"}))
			for n := 0; n < scale(160, 500) && !f.hung; n++ {
				pool := pick(r, heads)
				pool = append([]string{}, pool...)
				r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
				pool = pool[:2+r.Intn(min(2, len(pool)-1))]
				pre := pick(r, []string{"", "", "", "/p", "/{w}", "/ab", "/**"})
				var tab []string
				for k := 3 + r.Intn(5); k > 0; k-- {
					h, t := pick(r, pool), pick(r, tails)
					if pre == "/**" && h == "**" || h == "**" && strings.HasPrefix(t, "/**") {
						continue
					}
					tab = append(tab, pre+"/"+h+t)
				}
				names := varNames(tab...)
				f.session()
				orders := 1
				if prop == "R03" {
					orders = 5
				}
				for o := 0; o < orders; o++ {
					f.newMux()
					for _, p := range tab {
						f.reg("GET", p)
					}
					f.serve(names, allReqs("GET", us))
					r.Shuffle(len(tab), func(i, j int) { tab[i], tab[j] = tab[j], tab[i] })
				}
				f.end()
			}
			f.write(fmt.Sprintf("contests_%d_%v", round, ci))
		}
	}
}

// patterns of up to as many segments as a path may have, most of them variables
func routingDeep() {
	for _, ci := range []bool{false, true} {
		r := newRand(7100 + int64(bit(ci)))
		f := newRoutingFile(ci)
		for n := 0; n < scale(40, 240) && !f.hung; n++ {
			var pats []string
			var us []int
			for k := 1 + r.Intn(3); k > 0; k-- {
				size, runs := pick(r, []int{8, 9, 12, 15, 16, 17, 18, 19, 19}), 0
				var p, u []string
				for i := 0; i < size; i++ {
					x := pick(r, []string{"a", "B", "1", "x-y", "é"}) + strconv.Itoa(i)
					switch c := r.Intn(12); {
					case c == 0:
						p = append(p, "*")
					case c == 1:
						p = append(p, x)
					case c == 2:
						p = append(p, fmt.Sprintf("{c%d:[0-9]$}", i))
					case c == 3 && i > 0 && p[i-1] != "**" && runs < 3:
						runs++
						p = append(p, "**")
						if r.Intn(2) == 0 {
							continue
						}
					default:
						p = append(p, fmt.Sprintf("{v%d}", i))
					}
					u = append(u, x)
				}
				pats = append(pats, "/"+strings.Join(p, "/"))
				us = append(us, f.path(u), f.path(u[:len(u)-1]))
				w := append([]string{}, u...)
				w[r.Intn(len(w))] = "other"
				us = append(us, f.path(w))
			}
			if i := r.Intn(len(pats)); strings.Contains(pats[i], "/{v3}") {
				pats = append(pats, strings.Replace(pats[i], "/{v3}", "/{w}", 1)) // the same shape
			}
			f.session()
			f.newMux()
			for _, p := range pats {
				f.reg("GET", p)
			}
			f.serve(varNames(pats...), allReqs("GET", us))
			f.end()
		}
		f.write(fmt.Sprintf("deep_%v", ci))
	}
}

// tables of hundreds of routes: many children below one segment, many
// patterns that compete for the same path
func routingLarge() {
	for round := 0; round < scale(2, 8); round++ {
		r := newRand(int64(7000 + round))
		ci := round%2 == 1
		f := newRoutingFile(ci)
		th := theme{segs: []string{"a", "b", "ab", "{x}", "{y}", "{x:^[0-9]+$}", "{y:b$}", "a*", "*b", "?b", "*", "**"},
			texts: []string{"a", "b", "ab", "abb", "1", "22", "c"}, maxP: 4, maxU: 5, nPat: 140, ci: ci}
		for i := 0; i < 120; i++ {
			s := fmt.Sprintf("r%d", i)
			if i%10 == 9 {
				s += "*"
			}
			th.segs = append(th.segs, s)
			th.texts = append(th.texts, fmt.Sprintf("r%d", r.Intn(140)))
		}
		lib := randomLibrary(r, th)
		have := map[string]bool{}
		for _, p := range lib {
			have[p] = true
		}
		for i := 0; i < 120; i++ {
			p := "/" + pick(r, []string{"a", "a", "{x}", "w/*", "**"}) + "/" + th.segs[12+i]
			if !have[p] {
				have[p] = true
				lib = append(lib, p)
			}
		}
		us := randomPaths(r, f, th, lib)
		for i := 0; i < 40; i++ {
			u := f.path([]string{pick(r, []string{"a", "q"}), fmt.Sprintf("r%d", r.Intn(140))})
			us = append(us, u)
		}
		names := varNames(lib[:60]...)
		f.session()
		for o := 0; o < 2 && !f.hung; o++ {
			f.newMux()
			for i, p := range lib {
				if o == 1 && i%50 == 25 {
					f.serve(names, allReqs("GET", us[:min(len(us), 10)]))
				}
				f.reg("GET", p)
			}
			f.serve(names, allReqs("GET", us))
			if o == 0 {
				r.Shuffle(len(lib), func(i, j int) { lib[i], lib[j] = lib[j], lib[i] })
			}
		}
		f.end()
		f.write(fmt.Sprintf("large_%d", round))
	}
}

func allReqs(m string, us []int) []routeReq {
	rs := make([]routeReq, 0, len(us))
	for _, u := range us {
		rs = append(rs, routeReq{m, u})
	}
	return rs
}

// every pair of the generated patterns, every generated path
func routingPairs(g routingGen) {
	for _, ci := range []bool{false, true} {
		f := newRoutingFile(ci)
		var us []int
		for _, p := range g.Paths {
			us = append(us, f.path(p))
		}
		r := newRand(11)
		orders := 1
		if prop == "R03" {
			orders = 2
		}
		for i, p := range g.Pats {
			for _, q := range g.Pats[:i] {
				if ci && r.Intn(4) != 0 {
					continue
				}
				if f.hung {
					break
				}
				names := varNames(p, q)
				f.session()
				for o := 0; o < orders; o++ {
					f.newMux()
					a, b := p, q
					if o == 1 {
						a, b = q, p
					}
					f.reg("GET", a)
					f.reg("GET", b)
					f.serve(names, allReqs("GET", us))
				}
				f.end()
			}
		}
		f.write(fmt.Sprintf("pairs_ci_%v", ci))
	}
}

type theme struct {
	segs  []string
	texts []string
	maxP  int
	maxU  int
	nPat  int
	ci    bool
}

var oddTexts = []string{"a", " ", "  ", "\t", "\\", "a\\b", "\\a", "a;v", "a;", "a+b", "A+B", "~", ".", "...", "a:b", ":", "(a)", "a|b", "[a]", "$", "^a", "a,b", "a=b&c", "#", "?", "*", "**", "{x}", "{", "%", "%2e%2e", "a ", " a", "b", "'\"<", "\u00a0", "‮"}

var themes = []theme{
	{[]string{"a", "b", "{x}", "*", "**"}, []string{"a", "b", "c"}, 4, 5, 60, false},
	{[]string{"a", "{x}", "{y}", "{x:^[0-9]+$}", "*"}, []string{"a", "1", "b", "22"}, 4, 4, 60, false},
	{[]string{"a", "ab", "a*", "*b", "?b", "{x}", "**"}, []string{"a", "b", "ab", "aab"}, 3, 4, 60, false},
	{[]string{"**", "a", "b", "*"}, []string{"a", "b", "c"}, 6, 7, 60, false},
	{[]string{"**", "{x}", "{y:^a}", "b", "{z:b$}"}, []string{"a", "b", "ab", "1"}, 5, 6, 60, false},
	{[]string{"a", "B", "a*", "*B", "{X}", "**", "{v:^[a-z]{2}$}"}, []string{"a", "A", "b", "B", "ab", "AB", "aB"}, 3, 4, 60, true},
	{[]string{"é", "k", "s*", "{x:^(a|bb)$}", "{x:^[0-9]}", "{y:[0-9]}", "**"}, []string{"É", "é", "K", "k", "\u212a", "ſ", "S", "BB", "1"}, 3, 3, 50, true},
	{[]string{"é", "日本", "?本", "*本*", "{x}", "a b", "%2F", "a.b", "a?b"}, []string{"é", "É", "日本", "本", "a b", "%2F", "a.b", "aXb", "a?b"}, 3, 3, 60, false},
	{[]string{"a", "?*", "*?", "*", "?", "??", "*??", "?*?", "{x}", "b*", "?b"}, []string{"a", "b", "ab", "bb", "bab", "é"}, 3, 3, 60, false},
	{[]string{"{id}", "{idx}", "{i}", "{ID}", "{i:^a}", "{idx:b$}", "{a:b:^a:b$}", "{id :}", "{0}", "*", "c"}, []string{"a", "b", "ab", "a:b", "c"}, 4, 4, 60, false},
	{[]string{"{Id}", "{iD}", "{i}", "{x:(?:ab|C)}", "{x:^[A-B]+$}", "{x:^(?i:c)}", "{x:^[^a]$}", "b", "**"}, []string{"a", "B", "ab", "AB", "c", "C"}, 3, 4, 60, true},
	{[]string{"{x:\\d{2}}", "{x:^a{1,2}$}", "{x:a|b}", "{x:^(a|b)+$}", "{x:[^a]}", "{x:^\\w+\\.\\w+$}", "{x:::}", "{x::}", "{x:a:}", "b", "*", "**"}, []string{"a", "b", "ab", "aa", "11", "x.y", "::", "a:", ":"}, 3, 4, 60, false},
	{[]string{"a", " ", "\\", "a;v", "a+b", "~", ".", "...", "a:b", "(a)", "$", "^a", "{x}", "*", "a?", "?b", "?", "{y:^a}", "**"}, oddTexts, 3, 4, 70, false},
	{[]string{"a", " ", "a\\b", "A+B", "a,b", "[a]", "a|b", "{x}", "{y:^a}", "*b", "**"}, oddTexts, 3, 4, 50, true},
	{[]string{"a", "\ue0ff", "a\ue0c3", "\ue0a9b", "?", "?b", "a*", "é", "{x}", "{y:b$}", "**"}, []string{"a", "\ue0ff", "a\ue0c3", "\ue0a9b", "\ue0c3", "é", "ab", "\ufffd", "a\ufffd", "\x00", "\n"}, 3, 3, 60, false},
	{[]string{"{ x}", "{x }", "{X}", "{x}", "{x-y}", "{x.y}", "{é}", "{{x}}", "{x y:^a}", "{ x:b}", "{\tx}", "{x*}", "{?}", "{x=1}", "{:x:}", "a", "*"}, []string{"a", "b", "ab", "\ue003", "a b"}, 4, 4, 60, false},
	{[]string{"a", "{x}", "*", "**", "b"}, []string{"a", "b"}, 19, 19, 30, false},
	{[]string{"a", "{x}", "{y:^[0-9]}", "*", "a*"}, []string{"a", "1"}, 19, 19, 40, false},
	{[]string{"a", "{x}", "{y:^[0-9]}", "**"}, []string{"a", "1"}, 24, 19, 24, false},
}

// a random table is made of patterns that share prefixes, so that branches compete
func routingRandom(g routingGen) {
	n := scale(1, 6)
	for round := 0; round < n; round++ {
		for ti, th := range themes {
			r := newRand(int64(100 + round*100 + ti))
			f := newRoutingFile(th.ci)
			lib := randomLibrary(r, th)
			us := randomPaths(r, f, th, lib)
			tables := scale(70, 160)
			for s := 0; s < tables && !f.hung; s++ {
				k := 2 + r.Intn(6)
				chosen := map[int]bool{}
				type route struct{ m, p string }
				var tab []route
				for len(tab) < k {
					i := r.Intn(len(lib))
					if r.Intn(2) == 0 && len(tab) > 0 {
						i = near(r, lib, tab[len(tab)-1].p)
					}
					if chosen[i] {
						k--
						continue
					}
					chosen[i] = true
					m := "GET"
					if r.Intn(12) == 0 {
						m = pick(r, []string{"POST", "get", "Put", "OPTIONS", "HEAD", "Patch", "TRACE"})
					}
					tab = append(tab, route{m, lib[i]})
				}
				var ps []string
				for _, x := range tab {
					ps = append(ps, x.p)
				}
				names := varNames(ps...)
				var reqs []routeReq
				np := min(len(us), 36)
				for _, i := range r.Perm(len(us))[:np] {
					reqs = append(reqs, routeReq{pick(r, []string{"GET", "GET", "GET", "GET", "GET", "GET", "GET", "Get", "POST", "DELETE", "HEAD", "OPTIONS"}), us[i]})
				}
				f.session()
				orders := 1
				if prop == "R03" {
					orders = 4
				}
				// the methods of the requests are compared ignoring the letter case
				for k := r.Intn(12); k > 0; k-- { // again, with another method perhaps
					reqs = append(reqs, routeReq{pick(r, []string{"GET", "GET", "POST", "PUT", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "LINK", "head", "GE", "GETS"}), pick(r, reqs).u})
				}
				for o := 0; o < orders; o++ {
					f.newMux()
					between := (o > 0 || orders == 1) && r.Intn(3) == 0
					for _, x := range tab {
						if between && r.Intn(2) == 0 { // requests come before all routes are registered
							f.serve(names, reqs[:min(len(reqs), 3+r.Intn(20))])
						}
						f.reg(x.m, x.p)
					}
					f.serve(names, reqs)
					if o == 0 && r.Intn(2) == 0 {
						for i, j := 0, len(tab)-1; i < j; i, j = i+1, j-1 {
							tab[i], tab[j] = tab[j], tab[i]
						}
					} else {
						r.Shuffle(len(tab), func(i, j int) { tab[i], tab[j] = tab[j], tab[i] })
					}
				}
				f.end()
			}
			f.write(fmt.Sprintf("random_%d_%d", round, ti))
		}
	}
}

func randomLibrary(r *rand.Rand, th theme) []string {
	seen := map[string]bool{}
	var lib []string
	add := func(ss []string) {
		greedy := 0
		for i, s := range ss {
			if s == "**" {
				greedy++
				if i > 0 && ss[i-1] == "**" {
					return
				}
			}
		}
		if len(ss) > 8 && greedy > 2 || greedy > 3 {
			return
		}
		p := "/" + strings.Join(ss, "/")
		if !seen[p] {
			seen[p] = true
			lib = append(lib, p)
		}
	}
	for tries := 0; len(lib) < th.nPat && tries < 5000; tries++ {
		var ss []string
		if len(lib) > 2 && r.Intn(3) > 0 {
			// change one segment, cut or extend an existing pattern
			ss = strings.Split(pick(r, lib)[1:], "/")
			switch r.Intn(4) {
			case 0:
				if len(ss) < th.maxP {
					ss = append(ss, pick(r, th.segs))
				}
			case 1:
				ss = ss[:1+r.Intn(len(ss))]
			default:
				ss[r.Intn(len(ss))] = pick(r, th.segs)
			}
		} else {
			n := 1 + r.Intn(th.maxP)
			if th.maxP > 10 && r.Intn(2) == 0 {
				n = th.maxP - r.Intn(3)
			}
			for i := 0; i < n; i++ {
				ss = append(ss, pick(r, th.segs))
			}
		}
		add(ss)
	}
	return lib
}

func near(r *rand.Rand, lib []string, p string) int {
	pre := strings.Split(p, "/")[1]
	i := r.Intn(len(lib))
	for k := 0; k < len(lib); k++ {
		j := (i + k) % len(lib)
		if strings.Split(lib[j], "/")[1] == pre && lib[j] != p {
			return j
		}
	}
	return i
}

func randomPaths(r *rand.Rand, f *routingFile, th theme, lib []string) []int {
	set := map[int]bool{}
	var us []int
	add := func(ss []string) {
		if len(ss) > th.maxU {
			ss = ss[:th.maxU]
		}
		if r.Intn(8) == 0 && len(ss) < 8 {
			ss = respell(r, ss)
		}
		u := f.path(ss)
		if !set[u] {
			set[u] = true
			us = append(us, u)
		}
	}
	add(nil)
	want := 90
	if th.maxP > 10 {
		want = 40
	}
	for tries := 0; len(us) < want && tries < 3000; tries++ {
		var ss []string
		if r.Intn(4) == 0 {
			n := 1 + r.Intn(th.maxU)
			for i := 0; i < n; i++ {
				ss = append(ss, pick(r, th.texts))
			}
		} else {
			// fill a pattern
			for _, s := range strings.Split(pick(r, lib)[1:], "/") {
				switch {
				case s == "**":
					for i := r.Intn(3); i > 0; i-- {
						ss = append(ss, pick(r, th.texts))
					}
				case strings.ContainsAny(s, "{*?"):
					ss = append(ss, pick(r, th.texts))
				default:
					if r.Intn(8) == 0 {
						s = pick(r, th.texts)
					}
					ss = append(ss, s)
				}
			}
		}
		add(ss)
	}
	return us
}

// one-segment patterns against segments
func routingSegments(g routingGen) {
	run := func(name string, ci bool, pats []string, texts []string) {
		f := newRoutingFile(ci)
		var us []int
		for _, s := range texts {
			us = append(us, f.path([]string{s}))
		}
		for _, p := range pats {
			if f.hung {
				break
			}
			f.session()
			f.newMux()
			f.reg("GET", "/"+p)
			f.serve(nil, allReqs("GET", us))
			f.end()
		}
		f.write(name)
	}
	enum := func(al []string, min, max int) []string {
		cur := []string{""}
		var res []string
		for n := 1; n <= max; n++ {
			var next []string
			for _, c := range cur {
				for _, a := range al {
					next = append(next, c+a)
				}
			}
			cur = next
			if n >= min {
				res = append(res, cur...)
			}
		}
		return res
	}
	var globs []string
	for _, p := range enum([]string{"a", "b", "?", "*"}, 1, scale(4, 5)) {
		if !strings.Contains(p, "**") {
			globs = append(globs, p)
		}
	}
	texts := enum([]string{"a", "b"}, 1, scale(5, 6))
	run("globs", false, globs, texts)
	var ciGlobs []string
	for _, p := range enum([]string{"a", "B", "?", "*"}, 1, 3) {
		if !strings.Contains(p, "**") {
			ciGlobs = append(ciGlobs, p)
		}
	}
	ciGlobs = append(ciGlobs, "é", "É*", "?É", "k", "K*", "*s", "ſ?", "σ", "Σ*", "日本", "日?", "*本",
		"\u212a", "?\u212a", "*\u212a*", "k*\u017f", "ß*", "*\u1e9e", "\u00b5?", "\u039c*", "*\u03bc", "å?", "*Å", "?\u212b", "ж*", "*Ж", "ǅ?", "?", "??", "???", "*?", "\ue001", "\ue001*", "?\ue002", "a?b", "*\ue001?")
	ciTexts := append(enum([]string{"a", "A", "b", "B"}, 1, 3), "é", "É", "éa", "aÉ", "K", "k", "Kx", "ſ", "s", "S", "as", "aſ", "ſa", "ς", "Σ", "σa", "日本", "日", "本", "x本",
		"\u212a", "k\u212a", "\u212ax", "ß", "\u1e9e", "aß", "ss", "\u00b5", "\u00b5a", "\u03bc", "\u039cx", "å", "Å", "\u212b", "åa", "a\u212b", "ж", "Ж", "жЖ", "Ǆ", "ǆa", "\ue001", "\ue002", "a\ue002", "\ue001\ue002", "a\ue001b", "i", "I", "ı", "İ")
	run("case_ignored", true, ciGlobs, ciTexts)
	run("case_kept", false, ciGlobs, ciTexts)
	var cons []string
	for _, re := range g.Regexes {
		cons = append(cons, "{v:"+re+"}")
	}
	cons = append(cons, "*", "{v}")
	consTexts := append(enum([]string{"a", "b", "1"}, 1, 3), "A", "B", "AB", "aB", "bb", "BB", "a:b", "A:B", "ab12", "1ab", "é", "a b", "xaby", "XABY", "..a", "a..")
	run("constraints", false, cons, consTexts)
	run("constraints_ci", true, cons, consTexts)
	for round := 0; round < scale(4, 40); round++ {
		r := newRand(int64(500 + round))
		ci := round%2 == 1
		seen := map[string]bool{}
		var ps, ts []string
		for len(ps) < 70 {
			if re := someRegex(r, 3, ci); !strings.Contains(re, "**") && len(re) < 40 && !seen[re] {
				seen[re] = true
				ps = append(ps, "{v:"+re+"}")
			}
		}
		al := []string{"a", "a", "b", "A", "B", "1", "2", "-", ".", "_", " ", "é", "É", ":"}
		for len(ts) < 70 {
			s := ""
			for i := 1 + r.Intn(6); i > 0; i-- {
				s += pick(r, al)
			}
			if s != ".." && !seen[s] {
				seen[s] = true
				ts = append(ts, s)
			}
		}
		run(fmt.Sprintf("expressions_%d", round), ci, ps, append(ts, "a", "b", "A", "1", "ab", "aab", "AB", "a:b", "é"))
	}
	r := newRand(5)
	for round := 0; round < scale(2, 10); round++ {
		var ps, ts []string
		for len(ps) < 60 {
			n := 3 + r.Intn(7)
			s := ""
			for i := 0; i < n; i++ {
				s += pick(r, []string{"a", "a", "b", "?", "?", "*", "*", "*", "é", "\ue001"})
			}
			if !strings.Contains(s, "**") {
				ps = append(ps, s)
			}
		}
		for len(ts) < 60 {
			s := ""
			if r.Intn(2) == 0 {
				for i := 1 + r.Intn(10); i > 0; i-- {
					s += pick(r, []string{"a", "a", "b", "é", "日", "\ue001"})
				}
			} else {
				for _, c := range pick(r, ps) {
					switch c {
					case '*':
						for i := r.Intn(3); i > 0; i-- {
							s += pick(r, []string{"a", "b", "é", "\ue001"})
						}
					case '?':
						s += pick(r, []string{"a", "b", "é", "日", "\ue002"})
					default:
						s += string(c)
					}
				}
			}
			if s != "" {
				ts = append(ts, s)
			}
		}
		run(fmt.Sprintf("globs_random_%d", round), round%2 == 1, ps, ts)
	}
}

// someRegex returns an expression, mostly a valid one, made of what the specification knows
func someRegex(r *rand.Rand, depth int, ci bool) string {
	lit := []string{"a", "a", "b", "b", "A", "B", "1", "é", "-", ":", "_", "]", "\\.", "\\-", "\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\*", "\\\\", "\\_", "{", "}", ",", "."}
	atom := func() string {
		if depth > 0 && r.Intn(4) == 0 {
			return pick(r, []string{"(", "(?:", "(?:", "(?i:", "(?P<n>"}) + someRegex(r, depth-1, ci) + ")"
		}
		switch r.Intn(8) {
		case 0:
			s := "["
			if r.Intn(3) == 0 {
				s += "^"
			}
			if r.Intn(8) == 0 {
				s += "]"
			}
			for i := 1 + r.Intn(3); i > 0; i-- {
				s += pick(r, []string{"a", "b", "A", "1", "a-c", "A-B", "0-9", "\\d", "\\w", "\\W", "é", "\\]", "\\-", ".", "*", "$", "b-b"})
			}
			if r.Intn(8) == 0 {
				s += "-"
			}
			return s + "]"
		case 1:
			if !ci && r.Intn(2) == 0 {
				return pick(r, []string{"\\b", "\\B"})
			}
			return pick(r, []string{"^", "$", "\\A", "\\z"})
		}
		return pick(r, lit)
	}
	s := ""
	if depth == 3 && r.Intn(2) == 0 {
		s = "^"
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		s += atom()
		if r.Intn(3) == 0 {
			s += pick(r, []string{"*", "+", "?", "?", "{2}", "{1,2}", "{0,1}", "{2,}", "*?", "+?", "??", "{0}"})
		}
		if r.Intn(40) == 0 { // not always an expression
			s += pick(r, []string{")", "(", "[", "*", "+*", "{2,1}", "[b-a]", "\\", "\\y", "(?<", "{1001}", "{01}", "{,2}", "(?:", "[]", "[^]", "[a-\\d]", "()", "|", "|*"})
		}
	}
	if depth > 0 && r.Intn(4) == 0 {
		s += "|" + someRegex(r, depth-1, ci)
	}
	if depth == 3 && r.Intn(3) == 0 {
		s += "$"
	}
	return s
}

// registrations, good, malformed and repeated ones, and what is served after them
func routingRegistrations(g routingGen) {
	for _, ci := range []bool{false, true} {
		f := newRoutingFile(ci)
		var us []int
		for _, p := range g.Paths {
			if len(p) <= 2 {
				us = append(us, f.path(p))
			}
		}
		good := append([]string{}, g.Pats...)
		good = append(good, "/", "/a/", "/{p}", "/{q}", "/{p}/{q}", "/{y:[0-9]}", "/{w:^[0-9]+$}", "/A", "/a/B", "/A*", "/{p}/a", "/{q}/a/", "/a/{r}/b", "/a/{s}/b",
			"/é", "/É", "/**/a", "/**/{x}", "/**/{y}/b", "/*/", "/a?", "/A?", "/{x:^a}", "/{x:^A}", "/{long-name}", "/a.b", "/a{b", "/a}b", "/a{x}b",
			"/{x:a:}", "/{x::}", "/{x:::}", "/{x:a::b}", "/{x:a:b}", "/{x:[[:]}", "/{x:a{2}}", "/{x:{}", "/{x:}}", "/{x:{2}}", "/{x:(?i:a)}", "/{x:a|}", "/{x:|}", "/{x:a|*}", "/{x:()}", "/{x:a?*}", "/{x:\\}", "/{x:(?=a)}", "/{x:[b-a]}", "/?*", "/*?", "/?", "/*?*", "/{ x}", "/{x }", "/{*}", "/{**}", "/{?}", "/{{x}}", "/{}}", "/{x}}", "/{{x}", "/{x}{y}", "/{x}-{y}")
		gr := newRand(71)
		for i := 0; i < 60; i++ { // longer ones
			p := ""
			for k := 3 + gr.Intn(5); k > 0; k-- {
				p += "/" + pick(gr, []string{"a", "B", "{x}", "{y}", "*", "*", "**", "**", "a*", "{x:^a}"})
			}
			good = append(good, p)
		}
		for i := 0; i < 40; i++ {
			good = append(good, "/{v:"+someRegex(newRand(int64(70+i)), 3, ci)+"}")
		}
		for _, n := range []int{15, 19, 20, 21, 40, 120, 300} {
			good = append(good, "/"+strings.Repeat("*/", n-1)+"b", "/**"+strings.Repeat("/a", n-1), "/a"+strings.Repeat("/**/{x}", n/2), strings.Repeat("/{x}", n)+"/**")
		}
		// every malformed pattern on its own, registered between good ones
		for _, b := range g.Bad {
			f.session()
			f.newMux()
			f.reg("GET", "/a")
			f.reg("GET", "/{p}/b")
			f.serve([]string{"p"}, allReqs("GET", us))
			f.newMux()
			f.reg("GET", "/a")
			f.reg("GET", b)
			f.reg("GET", "/{p}/b")
			f.reg("GET", b)
			f.serve([]string{"p"}, allReqs("GET", us))
			f.end()
		}
		// every pair registered alone: rejected iff they have the same shape
		for i, p := range good {
			for _, q := range good[:i+1] {
				f.session()
				f.newMux()
				f.reg("GET", p)
				f.reg("GET", q)
				f.end()
			}
		}
		// every short pattern over the kinds of segments, alone
		kinds := []string{"a", "{x}", "{y:^a}", "a*", "*", "**"}
		for a := range kinds {
			for b := range kinds {
				f.session()
				f.newMux()
				for c := range kinds {
					f.reg("GET", "/"+kinds[a]+"/"+kinds[b]+"/"+kinds[c])
					for _, d := range kinds[3:] {
						f.reg("GET", "/"+kinds[a]+"/"+kinds[b]+"/"+kinds[c]+"/"+d)
					}
				}
				f.serve([]string{"x", "y"}, allReqs("GET", us))
				f.end()
			}
		}
		// patterns of nearly as many segments as are accepted, and more
		for _, n := range []int{100, 126, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 400, 511, 512, 513} {
			f.session()
			f.newMux()
			for _, m := range []string{"GET", "POST"} {
				for _, p := range []string{strings.Repeat("/a", n), strings.Repeat("/{v}", n), strings.Repeat("/a", n-1) + "/{x:a}", "/**" + strings.Repeat("/*", n-1), strings.Repeat("/a", n-1) + "/**", strings.Repeat("/{w}", n)} {
					f.reg(m, p)
				}
			}
			f.serve([]string{"v", "w", "x"}, allReqs("GET", us))
			f.end()
		}
		r := newRand(7)
		for s := 0; s < scale(400, 3000) && !f.hung; s++ {
			n := 3 + r.Intn(10)
			type reg struct{ m, p string }
			var seq, ok []reg
			for i := 0; i < n; i++ {
				m := pick(r, []string{"GET", "GET", "GET", "get", "POST"})
				switch x := r.Intn(10); {
				case x == 0:
					seq = append(seq, reg{m, pick(r, g.Bad)})
				case x < 4 && len(seq) > 0:
					// again something of the same shape
					seq = append(seq, reg{m, rename(r, pick(r, seq).p, ci)})
				default:
					seq = append(seq, reg{m, pick(r, good)})
				}
			}
			var ps []string
			for _, x := range seq {
				ps = append(ps, x.p)
			}
			names := varNames(ps...)
			var reqs []routeReq
			for _, m := range []string{"GET", "POST"} {
				reqs = append(reqs, allReqs(m, us)...)
			}
			f.session()
			f.newMux()
			for _, x := range seq {
				if f.reg(x.m, x.p) {
					ok = append(ok, x)
				}
			}
			f.serve(names, reqs)
			f.newMux()
			for _, x := range ok {
				f.reg(x.m, x.p)
			}
			f.serve(names, reqs)
			f.end()
		}
		f.write(fmt.Sprintf("registrations_%v", ci))
	}
}

func rename(r *rand.Rand, p string, ci bool) string {
	ss := strings.Split(p, "/")
	for i, s := range ss {
		if len(s) > 2 && s[0] == '{' && s[len(s)-1] == '}' && r.Intn(2) == 0 {
			_, re, has := strings.Cut(s[1:len(s)-1], ":")
			n := pick(r, []string{"n", "m", "x", "y"})
			if has {
				ss[i] = "{" + n + ":" + re + "}"
			} else {
				ss[i] = "{" + n + "}"
			}
		} else if r.Intn(3) == 0 && (s == "a" || s == "b" || s == "a*" || s == "é") {
			ss[i] = strings.ToUpper(s)
		}
	}
	return strings.Join(ss, "/")
}

// canonical paths first, then other spellings of them
func routingNormalise(g routingGen) {
	r := newRand(9)
	tables := [][]string{
		{"/**"}, {"/", "/**"}, {"/a/**", "/**/b"}, {"/**/a/**", "/{x}"}, {"/{x}", "/{x}/{y}", "/{x}/{y}/{z}"}, {"/a", "/b", "/a/b", "/*/b"},
		{"/" + strings.Repeat("*/", 18) + "*"}, {"/" + strings.Repeat("*/", 18) + "{last}", "/**"}, {"/" + strings.Repeat("*/", 19) + "*"},
		{"/" + strings.Repeat("*/", 24) + "*", "/**/b"}, {"/a/**/b"}, {"/**/{x}/**/b"}, {"/{x:^[0-9]+$}/**", "/{y}/**"}, {"/*"}, {"/"},
		{"/" + strings.Repeat("{v}/", 17) + "**"}, {"/a/" + strings.Repeat("*/", 17) + "*"}, {"/**/" + strings.Repeat("*/", 18) + "b"},
	}
	for _, ci := range []bool{false, true} {
		f := newRoutingFile(ci)
		var canon [][]string
		texts := []string{"a", "b", "1", "...", ".", "..a", "‖z‖70000", "a..", "c"}
		canon = append(canon, []string{})
		for n := 1; n <= 24; n++ {
			k := 2
			if n >= 17 && n <= 21 {
				k = 4
			}
			for i := 0; i < k; i++ {
				var ss []string
				for j := 0; j < n; j++ {
					if i == 0 {
						ss = append(ss, "a")
					} else {
						x := pick(r, texts)
						if x[0] == 0xe2 && r.Intn(6) > 0 {
							x = "b"
						}
						ss = append(ss, x)
					}
				}
				if i == 1 {
					ss[n-1] = "b"
				}
				canon = append(canon, ss)
			}
		}
		canon = append(canon, []string{"‖z‖70000"}, []string{"‖z‖65535", "b"}, []string{"‖z‖65536", "b"}, []string{"a", "‖z‖70000", "b"}, []string{"‖z‖500000", "a", "b"})
		var cu []int
		for _, c := range canon {
			cu = append(cu, f.path(c))
		}
		for ti := 0; ti < scale(len(tables), len(tables)*6) && !f.hung; ti++ {
			tab := tables[ti%len(tables)]
			names := varNames(tab...)
			f.session()
			f.newMux()
			for _, p := range tab {
				f.reg("GET", p)
			}
			f.serve(names, allReqs("GET", cu))
			var vs []int
			for _, c := range canon {
				for k := 0; k < scale(2, 3); k++ {
					vs = append(vs, f.path(respell(r, c)))
				}
			}
			f.serve(names, allReqs("GET", vs))
			f.end()
		}
		f.write(fmt.Sprintf("normalise_%v", ci))
	}
}

func respell(r *rand.Rand, c []string) []string {
	var ss []string
	noise := func() {
		switch r.Intn(9) {
		case 0:
			ss = append(ss, "")
		case 1:
			ss = append(ss, "", "")
		case 2:
			ss = append(ss, "x", "..")
		case 3:
			ss = append(ss, "x", "y", "..", "", "..")
		case 4:
			if r.Intn(4) == 0 {
				n := 1 + r.Intn(22)
				for i := 0; i < n; i++ {
					ss = append(ss, "q")
				}
				for i := 0; i < n; i++ {
					ss = append(ss, "..")
				}
			}
		}
	}
	if r.Intn(4) == 0 {
		ss = append(ss, "..")
		if r.Intn(2) == 0 {
			ss = append(ss, "", "..", "..")
		}
	}
	noise()
	for _, s := range c {
		ss = append(ss, s)
		noise()
	}
	if r.Intn(2) == 0 {
		ss = append(ss, "")
	}
	return ss
}
