package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["dump"] = driveDump }

type dumpedDoc struct {
	Ok     int      `json:"ok"`
	Method string   `json:"method"`
	Url    string   `json:"url"`
	Host   string   `json:"host"`
	H      []kv     `json:"h"`
	Status int      `json:"status"`
	Rh     []kv     `json:"rh"`
	Rc     []string `json:"rc"`
	Proto  string   `json:"proto"`
	Uri    string   `json:"uri"`
	Remote string   `json:"remote"`
	Len    int64    `json:"len"`
	Te     []string `json:"te"`
	Secure int      `json:"secure"`
	Ck     []string `json:"ck"`
	Form   []kv     `json:"form"`
	Timely int      `json:"timely"`
	start  int64
	end    int64
}

func sortKV(s []kv) []kv {
	sort.Slice(s, func(i, j int) bool { return s[i].K+"\x00"+s[i].V < s[j].K+"\x00"+s[j].V })
	return s
}

func headerKV(h http.Header) []kv {
	o := []kv{}
	for k, vs := range h {
		for i, v := range vs {
			o = append(o, kv{fmt.Sprint(k, "/", i), v})
		}
	}
	return sortKV(o)
}

func parseDoc(s string) dumpedDoc {
	d := dumpedDoc{H: []kv{}, Rh: []kv{}, Rc: []string{}, Te: []string{}, Ck: []string{}, Form: []kv{}}
	var x struct {
		StartTimeMs, EndTimeMs int64
		Request                struct {
			Method, Url, Host, ProtocolVersion, RequestURI, RemoteAddress string
			ContentLength                                                 int64
			TransferEncoding, Cookies                                     []string
			IsSecure                                                      bool
			FormFields                                                    url.Values
			Header                                                        http.Header
		}
		Response struct {
			StatusCode int
			Header     map[string]string
			Cookies    []string
		}
	}
	dec := json.NewDecoder(strings.NewReader(s))
	if dec.Decode(&x) != nil {
		return d
	}
	if _, err := dec.Token(); err != io.EOF {
		return d
	}
	d.Ok, d.Method, d.Url, d.Host, d.Status = 1, x.Request.Method, x.Request.Url, x.Request.Host, x.Response.StatusCode
	d.H = headerKV(x.Request.Header)
	d.Proto, d.Uri, d.Remote, d.Len = x.Request.ProtocolVersion, x.Request.RequestURI, x.Request.RemoteAddress, x.Request.ContentLength
	d.Te, d.Secure, d.Form = append(d.Te, x.Request.TransferEncoding...), bit(x.Request.IsSecure), headerKV(http.Header(x.Request.FormFields))
	d.start, d.end = x.StartTimeMs, x.EndTimeMs
	for _, c := range x.Request.Cookies {
		cs, err := http.ParseCookie(c)
		if err != nil || len(cs) != 1 {
			cs = []*http.Cookie{{Name: "?", Value: c}}
		}
		d.Ck = append(d.Ck, cs[0].Name+"="+cs[0].Value)
	}
	for k, v := range x.Response.Header {
		d.Rh = append(d.Rh, kv{strings.ToLower(k), v})
	}
	sortKV(d.Rh)
	d.Rc = append(d.Rc, x.Response.Cookies...)
	sort.Strings(d.Rc)
	return d
}

// dumpLog sorts the logged documents by the request they are about
type dumpLog struct {
	mu    sync.Mutex
	byUrl map[string][]dumpedDoc
	total int
}

func (l *dumpLog) add(s string) {
	d := parseDoc(s)
	l.mu.Lock()
	defer l.mu.Unlock()
	l.total++
	l.byUrl[d.Url] = append(l.byUrl[d.Url], d)
}

func (l *dumpLog) take(url string) []dumpedDoc {
	l.mu.Lock()
	defer l.mu.Unlock()
	ds := l.byUrl[url]
	if ds == nil {
		ds = []dumpedDoc{}
	}
	return ds
}

func (l *dumpLog) sum() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.total
}

type arrivals struct {
	mu   sync.Mutex
	byId map[string]obj
}

func (a *arrivals) note(q *http.Request) {
	ck, te := []string{}, []string{}
	for _, c := range q.Cookies() {
		ck = append(ck, c.Name+"="+c.Value)
	}
	o := obj{"url": q.URL.String(), "host": q.Host, "h": headerKV(q.Header), "proto": q.Proto, "uri": q.RequestURI, "remote": q.RemoteAddr, "len": q.ContentLength,
		"te": append(te, q.TransferEncoding...), "secure": bit(q.TLS != nil), "ck": ck, "form": []kv{}}
	if parsedBefore(q) {
		f, _ := url.ParseQuery(q.URL.RawQuery)
		o["form"] = headerKV(http.Header(f))
	}
	id := q.URL.Path[strings.LastIndex(q.URL.Path, "/")+1:]
	a.mu.Lock()
	a.byId[id] = o
	a.mu.Unlock()
}

// parsedBefore: a middleware in front of the dumper has looked at the form fields
func parsedBefore(q *http.Request) bool {
	return q.Method == "GET" && strings.HasPrefix(q.URL.Path, "/m2/")
}

func parseForms(next handler.Handler) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if parsedBefore(mc.R) {
			mc.R.ParseForm()
		}
		return next(ctx, mc)
	}
}

func dumpRequest(s *site, l *dumpLog, a *arrivals, m int, r *rand.Rand) obj {
	kind := pick(r, zooKinds)
	status := pick(r, []int{0, 200, 200, 201, 204, 302, 304, 404, 500, 999, 42})
	if kind == "sse" {
		status = 200
	}
	if kind == "adaptor" && status == 42 {
		status = 0
	}
	d := describe1(r, kind, status, nil, r.Intn(2) == 0)
	method := pick(r, []string{"GET", "POST", "POST", "HEAD"})
	hdr := http.Header{}
	for k := r.Intn(4); k > 0; k-- {
		n := pick(r, []string{"X-Req", "Accept", "Cookie", "Accept-Language", "User-Agent", "Authorization", "X-Forwarded-Proto", "X-Forwarded-For", "X-Forwarded-Host", "Forwarded", "X-Real-Ip"})
		vs := []string{pick(r, []string{"a=b", "v \"q\" <x>", "x,y", "\\u00e9", "https", "10.0.0.1", "for=a;proto=https;host=o.example"})}
		if r.Intn(3) == 0 {
			vs = append(vs, "second")
		}
		hdr[n] = vs
	}
	if r.Intn(3) == 0 {
		hdr["query"] = []string{pick(r, []string{"?a=b&c=d", "?q=%20%3Cx%3E", "?", "?a;b", "?%zz"})}
	}
	if r.Intn(3) == 0 {
		hdr["Host"] = []string{pick(r, []string{"other.example", "other.example:99"})}
	}
	body := ""
	if method == "POST" {
		body = pick(r, []string{"", "a=1&b=2", "{\"x\":1}", strings.Repeat("body ", 5000)})
		hdr["body"] = []string{body}
		if r.Intn(3) == 0 {
			hdr["chunked"] = []string{""}
		}
		if ct := pick(r, []string{"", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "application/json"}); ct != "" {
			hdr["Content-Type"] = []string{ct}
		}
	}
	read, change := 0, r.Intn(5)
	var handled atomic.Int64
	slow := r.Intn(20) == 0
	d.before = func(mc path.MatchingContext) {
		if slow {
			time.Sleep(4 * time.Millisecond)
		}
		handled.Store(time.Now().UnixMilli())
		b, _ := io.ReadAll(mc.R.Body)
		read = bit(string(b) == body)
		switch change {
		case 0:
			mc.R.Header.Set("X-Added", "by the handler")
			mc.R.Header.Del("X-Req")
		case 1:
			for k := range mc.R.Header {
				mc.R.Header[k][0] = "overwritten"
			}
		case 2:
			mc.R.ParseForm()
		case 3: // as applications do that normalise what they were sent
			if mc.R.Form == nil {
				mc.R.Form = url.Values{}
			}
			for k := range mc.R.Form {
				mc.R.Form[k][0] = "overwritten"
			}
			mc.R.Form.Set("added", "by the handler")
		case 4: // as a proxy does before it passes the request on
			mc.R.Host, mc.R.RemoteAddr, mc.R.RequestURI, mc.R.URL.RawQuery = "changed.example", "192.0.2.9:9", "/changed", "changed=1"
			mc.R.Proto, mc.R.ContentLength, mc.R.TransferEncoding = "HTTP/9.9", 4711, []string{"changed"}
		}
	}
	if r.Intn(4) == 0 {
		hdr["Cookie"] = []string{pick(r, []string{"a=b; c=d", "sid=0123; theme=dark; a=b", "x=\"q\"; y=1", "a=b; a=c", "broken", "k=v w; z=1,2"})}
	}
	panics, asked := s.panics.Load(), time.Now().UnixMilli()
	id := s.put(d)
	g := s.fetch(m, id, method, d.proto(r), hdr, isJSON(d))
	a.mu.Lock()
	q := a.byId[id]
	a.mu.Unlock()
	docs := l.take(q["url"].(string))
	for i := range docs {
		x := &docs[i]
		h := handled.Load()
		x.Timely = bit(asked <= x.start && x.start <= x.end && x.end <= time.Now().UnixMilli() && (h == 0 || x.start <= h && h <= x.end))
	}
	if s.nowait { // the response may be there before its handler has returned
		panics = s.panics.Load()
	}
	return obj{"e": "one", "d": d, "method": method, "g": g, "q": q, "read": read, "docs": docs, "panics": s.panics.Load() - panics}
}

func newDumpSite() (*site, *dumpLog, *arrivals) {
	l := &dumpLog{byUrl: map[string][]dumpedDoc{}}
	a := &arrivals{byId: map[string]obj{}}
	dump := func() middleware.Middleware { return middleware.RequestDumper(l.add) }
	s := newSite([]middleware.Middleware{dump()},
		[]middleware.Middleware{middleware.PanicRecover(), dump(), middleware.CompressResponse(3)},
		[]middleware.Middleware{middleware.CompressResponse(3), parseForms, dump(), middleware.ErrJsonResponse()},
		[]middleware.Middleware{dump(), middleware.PanicRecover()})
	s.arrived = a.note
	return s, l, a
}

func driveDump(t *testing.T) {
	if raceBuild {
		dumpRace()
		return
	}
	r := newRand(96)
	tr := newTrace("dumped")
	defer tr.close()
	for k := 0; k < scale(60, 600); k++ {
		s, l, a := newDumpSite()
		ev := arr{}
		for j := 0; j < 30; j++ {
			ev = append(ev, dumpRequest(s, l, a, r.Intn(4), r))
			if j%10 == 9 {
				n := l.sum()
				e := secError(middleware.RequestDumper(l.add), r)
				e["docs"] = l.sum() - n
				ev = append(ev, e)
			}
		}
		ev = append(ev, obj{"e": "end", "total": l.sum()})
		s.close()
		tr.put(obj{"ev": ev})
	}
}

func dumpRace() {
	tr := newTrace("together")
	defer tr.close()
	for k := 0; k < scale(4, 40); k++ {
		s, l, a := newDumpSite()
		s.nowait = true
		evs := make([]arr, 8)
		var wg sync.WaitGroup
		for i := range evs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := newRand(int64(9600 + 100*k + i))
				for j := 0; j < 10; j++ {
					evs[i] = append(evs[i], dumpRequest(s, l, a, r.Intn(4), r))
				}
			}(i)
		}
		wg.Wait()
		s.close()
		all := arr{}
		for _, e := range evs {
			all = append(all, e...)
		}
		tr.put(obj{"ev": append(all, obj{"e": "end", "total": l.sum()})})
	}
}
