package harness

import (
	"math/rand"
	"net/http"
	"sync/atomic"
)

var noiseCount atomic.Int64

// what proxies, browsers and other frameworks send and gofre gives no meaning to
var noises = []struct {
	k  string
	vs []string
}{
	{"X-Forwarded-Proto", []string{"https", "http"}}, {"X-Forwarded-Host", []string{"a.example", "h"}}, {"X-Forwarded-For", []string{"10.0.0.1", "127.0.0.1, 10.0.0.1"}},
	{"X-Forwarded-Ssl", []string{"on"}}, {"X-Real-Ip", []string{"127.0.0.1"}}, {"Forwarded", []string{"for=127.0.0.1;proto=https;host=a.example"}}, {"Front-End-Https", []string{"on"}},
	{"X-Url-Scheme", []string{"https"}}, {"X-Forwarded-Prefix", []string{"/a"}}, {"X-Original-Url", []string{"/a", "/"}}, {"X-Rewrite-Url", []string{"/a/b"}},
	{"X-Http-Method-Override", []string{"DELETE", "GET", "POST"}}, {"X-Http-Method", []string{"GET", "PUT"}}, {"X-Method-Override", []string{"GET", "POST"}},
	{"X-Requested-With", []string{"XMLHttpRequest"}}, {"Sec-Fetch-Site", []string{"same-origin", "cross-site", "none"}}, {"Sec-Fetch-Mode", []string{"cors", "navigate"}},
	{"Referer", []string{"http://a.example/x", "https://h/"}}, {"User-Agent", []string{"curl/8", "Mozilla/5.0 (MSIE 6.0)", ""}}, {"Accept", []string{"*/*", "text/html", "application/json", "text/event-stream"}},
	{"Accept-Language", []string{"en", "ro, en;q=0.5"}}, {"Cache-Control", []string{"no-cache", "no-transform", "max-age=0"}}, {"Pragma", []string{"no-cache"}}, {"Upgrade-Insecure-Requests", []string{"1"}},
	{"Dnt", []string{"1"}}, {"Authorization", []string{"Bearer x", "Basic YTpi"}}, {"Cookie", []string{"a=b; c=d"}}, {"Via", []string{"1.1 proxy"}}, {"X-Request-Id", []string{"1"}},
	{"X-Debug", []string{"1", "true"}}, {"X-Internal", []string{"true"}}, {"Priority", []string{"u=1"}},
}

// noise adds to some requests headers that are of no interest; those of the request itself stay
func noise(h http.Header) {
	r := rand.New(rand.NewSource(seed*1000033 + noiseCount.Add(1)))
	if r.Intn(3) > 0 {
		return
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		if n := pick(r, noises); len(h[n.k]) == 0 {
			h[n.k] = []string{pick(r, n.vs)}
		}
	}
}
