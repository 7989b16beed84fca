package harness

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	htmpl "html/template"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	ttmpl "text/template"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// The zoo: descriptions of responses of every kind, what they are made of, and sites that serve them.

type kv struct {
	K string `json:"k"`
	V string `json:"v"`
}

type cookieJ struct {
	K string `json:"k"`
	V string `json:"v"`
}

func cookieOf(c *http.Cookie) cookieJ {
	return cookieJ{c.Name + ":" + c.Path + ":" + c.Domain, c.String()}
}

type described struct {
	Kind   string    `json:"kind"`
	Status int       `json:"status"`
	Ct     string    `json:"ct"` // the content type of the kind, "" when it has none
	H      []kv      `json:"h"`
	C      []cookieJ `json:"c"`
	Mh     []kv      `json:"mh"` // added by middlewares
	Mc     []cookieJ `json:"mc"`
	Body   string    `json:"body"`
	Loc    string    `json:"loc"`
	Fails  int       `json:"fails"`
	build  func() response.HttpResponse
	mids   []func(response.HttpResponse)
	ops    []writerOp                    // what an adapted handler does with the writer
	head   bool                          // the request is a HEAD
	before func(mc path.MatchingContext) // what the handler does first
}

// proto chooses the protocol the response is requested with
func (d *described) proto(r *rand.Rand) int {
	p := 1 + r.Intn(2)
	if d.Kind == "sse" {
		return 2
	}
	if d.Kind == "hijack" && p == 2 { // an HTTP/2 stream can not be hijacked
		d.Kind, d.Status, d.H, d.C, d.Ct, d.Body = "nohijack", 200, []kv{}, []cookieJ{}, "", ""
	}
	return p
}

func token(b []byte) string {
	if len(b) <= 80 {
		ok := true
		for _, c := range b {
			ok = ok && c >= 32 && c < 127
		}
		if ok {
			return string(b)
		}
	}
	s := sha256.Sum256(b)
	return fmt.Sprintf("#%d:%x", len(b), s[:8])
}

func canonicalJSON(b []byte) []byte {
	var v any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return b
	}
	if _, err := d.Token(); err != io.EOF {
		return b
	}
	c, _ := json.Marshal(v)
	return c
}

func someBytes(r *rand.Rand) []byte {
	n := pick(r, []int{0, 0, 1, 5, 30, 80, 300, 511, 2047, 2049, 4095, 4097, 9000, 70000, 200000})
	if r.Intn(120) == 0 {
		n = pick(r, []int{1<<20 - 1, 1<<20 + 1, 1 << 21, 5000000})
	}
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = "abc <>&\"é\n"[i%11]
		}
	default:
		for i := range b {
			b[i] = byte('a' + i%3)
		}
	}
	return b
}

func someText(r *rand.Rand) string { return strings.ToValidUTF8(string(someBytes(r)), "?") }

var contentTypes = []string{"application/octet-stream", "image/png", "", "", "application/pdf", "text/css", "video/mp4", "audio/ogg", "application/zip", "application/gzip", "font/woff2",
	"image/svg+xml", "text/html", "application/json; charset=utf-8", "application/x-ndjson", "multipart/mixed; boundary=x", "APPLICATION/X-Odd"}

var headerNames = []string{"X-One", "x-two", "X-THREE", "Etag", "Cache-Control", "Vary", "Content-Language", "X-Empty", "Link",
	"Accept-Ranges", "Last-Modified", "Expires", "Pragma", "Content-Disposition", "Retry-After", "WWW-Authenticate", "Server", "Allow", "Content-Location"}

func someHeader(r *rand.Rand) kv {
	return kv{pick(r, headerNames), pick(r, []string{"v", "a, b", "max-age=1", "w=\"1\"", "", "x y", "\"abc\"", "W/\"x\"", "bytes", "Accept-Encoding", "Wed, 21 Oct 2026 07:28:00 GMT"}) + pick(r, []string{"", strconv.Itoa(r.Intn(1000))})}
}

func someCookie(r *rand.Rand) *http.Cookie {
	c := &http.Cookie{Name: pick(r, []string{"sid", "a", "b", "lang", "SID"}), Value: fmt.Sprint("v", r.Intn(10000)), Path: pick(r, []string{"", "/", "/app"}), Domain: pick(r, []string{"", "", "example.com"})}
	switch r.Intn(4) {
	case 0:
		c.HttpOnly, c.Secure, c.SameSite = true, true, http.SameSiteStrictMode
	case 1:
		c.MaxAge = 10 + r.Intn(100)
	case 2:
		c.Expires = time.Unix(2000000000, 0).UTC()
	}
	return c
}

func lowerKV(hs []kv) []kv {
	o := []kv{}
	for _, h := range hs {
		o = append(o, kv{strings.ToLower(h.K), h.V})
	}
	return o
}

var textTemplate = ttmpl.Must(ttmpl.New("page").Parse("Hello {{.}} <{{.}}>"))
var htmlTemplate = htmpl.Must(htmpl.New("page").Parse("<b>Hello {{.}}</b>"))

// payloads that say themselves how they look as JSON
type marshals struct{ n int }

func (m marshals) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("{ \"n\": %d }", m.n)), nil
}

type textMarshals string

func (m textMarshals) MarshalText() ([]byte, error) { return []byte("t:" + string(m)), nil }

var zooKinds = []string{"text", "html", "json", "jsonerr", "raw", "stream", "template", "htmltemplate", "redirect", "plain", "adaptor", "sse", "hijack"}

// slowReader hands out its content piece by piece
type slowReader struct {
	b []byte
	n int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := s.n
	if n > len(s.b) {
		n = len(s.b)
	}
	n = copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func pieces(r *rand.Rand, b []byte) [][]byte {
	var ps [][]byte
	for len(b) > 0 {
		n := pick(r, []int{1, 7, 100, 3000, len(b)})
		if len(ps) > 20 || n > len(b) {
			n = len(b)
		}
		ps = append(ps, b[:n])
		b = b[n:]
	}
	if r.Intn(4) == 0 {
		ps = append(ps, nil)
	}
	return ps
}

type overrides struct {
	own []kv
	mw  bool
}

// describe draws a response of the kind
func describe1(r *rand.Rand, kind string, status int, own []kv, withMw bool) *described {
	d := &described{Kind: kind, Status: status, H: []kv{}, C: []cookieJ{}, Mh: []kv{}, Mc: []cookieJ{}}
	used := map[string]bool{}
	for _, h := range own {
		used[strings.ToLower(h.K)] = true
	}
	hs := append([]kv{}, own...)
	for k := r.Intn(3); k > 0; k-- {
		h := someHeader(r)
		if !used[strings.ToLower(h.K)] {
			used[strings.ToLower(h.K)] = true
			hs = append(hs, h)
		}
	}
	var cs []*http.Cookie
	for k := r.Intn(4) - 1; k > 0; k-- {
		cs = append(cs, someCookie(r))
	}
	if r.Intn(25) == 0 { // many of them, or long ones
		for k := 5 + r.Intn(120); k > 0; k-- {
			hs = append(hs, kv{fmt.Sprint("X-Gen-", k), strconv.Itoa(r.Intn(1000)) + strings.Repeat("z", pick(r, []int{0, 3, 100, 1500}))})
		}
		for k := r.Intn(60); k > 0; k-- {
			cs = append(cs, &http.Cookie{Name: fmt.Sprint("gen", k), Value: strings.Repeat("c", r.Intn(300)), Path: pick(r, []string{"", "/", "/app"})})
		}
	}
	if kind == "redirect" && r.Intn(2) == 0 {
		hs, cs = append([]kv{}, own...), nil
	}
	d.H = lowerKV(hs)
	for _, c := range cs {
		d.C = append(d.C, cookieOf(c))
	}
	// how the headers and cookies are supplied
	supply := r.Intn(3)
	how := r.Intn(2)
	mapsOf := func() (response.HttpHeaders, response.HttpCookies) {
		var h response.HttpHeaders
		var c response.HttpCookies
		if supply == 2 {
			return nil, nil
		}
		if len(hs) > 0 || supply == 1 {
			if h = (response.HttpHeaders{}); how == 0 {
				h = response.NewHttpHeaders()
			}
			for _, x := range hs {
				h[x.K] = x.V
			}
		}
		if len(cs) > 0 || supply == 1 {
			if how == 0 {
				c = response.NewHttpCookie(cs...)
			} else {
				c = response.HttpCookies{}
				c.Add(cs...)
			}
		}
		return h, c
	}
	after := func(resp response.HttpResponse) response.HttpResponse {
		if supply == 2 {
			for _, x := range hs {
				resp.Headers().Set(x.K, x.V)
			}
			if len(cs) > 0 {
				resp.Cookies().Add(cs...)
			}
		}
		return resp
	}
	base := func(ct string) response.HttpHeadersResponse {
		h, c := mapsOf()
		return response.HttpHeadersResponse{HttpStatusCode: status, ContentType: ct, HttpHeaders: h, HttpCookies: c}
	}
	bare := supply != 1 && len(hs) == 0 && len(cs) == 0 // the short constructors may be used
	form := r.Intn(2)
	var build func() response.HttpResponse
	const plainCt, htmlCt = "text/plain; charset=utf-8", "text/html; charset=utf-8"
	switch kind {
	case "text", "html":
		s := someText(r)
		if r.Intn(80) == 0 {
			s = strings.Repeat("0123456789abcdefghijklmnop\n", 80000)
		}
		if r.Intn(5) == 0 {
			s = string(someBytes(r))
		}
		d.Body = token([]byte(s))
		d.Ct = plainCt
		full, short, short2, ok := response.PlainTextResponseWithHeadersAndCookies, response.PlainTextHttpResponse, response.PlainTextHttpResponseWithHeaders, response.PlainTextHttpResponseOK
		if kind == "html" {
			d.Ct = htmlCt
			full, short, short2, ok = response.HtmlResponseWithHeadersAndCookies, response.HtmlHttpResponse, response.HtmlHttpResponseWithHeaders, response.HtmlHttpResponseOK
		}
		build = func() response.HttpResponse {
			h, c := mapsOf()
			switch {
			case bare && status == 200 && form == 0:
				return ok(s)
			case bare && form == 0:
				return short(status, s)
			case c == nil && form == 0:
				return short2(status, s, h)
			}
			return full(status, s, h, c)
		}
	case "json", "jsonerr":
		d.Ct = "application/json"
		if kind == "jsonerr" {
			msg := pick(r, []string{"", "boom", "Already", "échec <&>", "日本", "ß", "1x", "\u2028", "a \"quoted\" one", "trailing  ", " leading", "two\nlines\n", "\t"})
			var err error
			if msg != "" || r.Intn(2) == 0 {
				err = errors.New(msg)
			}
			up := msg
			if msg != "" {
				rs := []rune(msg)
				up = strings.ToUpper(string(rs[:1])) + string(rs[1:])
			}
			b, _ := json.Marshal(map[string]string{"error": up})
			d.Body = token(canonicalJSON(b))
			build = func() response.HttpResponse {
				h, c := mapsOf()
				switch {
				case bare && form == 0:
					return response.JsonErrorHttpResponse(status, err)
				case c == nil && form == 0:
					return response.JsonErrorHttpResponseWithHeaders(status, err, h)
				case h == nil && form == 0:
					return response.JsonErrorHttpResponseWithCookies(status, err, c)
				}
				return response.JsonErrorHttpResponseWithHeadersAndCookies(status, err, h, c)
			}
			break
		}
		v := pick(r, []any{nil, "a<b>&\u2028é", 12, 1.5e300, true, []string{}, []any{nil, 1, "x"}, map[string]any{"a": []int{1, 2}, "b": map[string]any{}}, struct {
			A string `json:"a"`
			b int
		}{"x", 1}, strings.Repeat("long ", 20000), json.RawMessage(`{"r":[1,  2]}`), json.RawMessage(`"x y"`), json.RawMessage(`[ ]`), json.RawMessage("null"), (*int)(nil), "",
			marshals{1}, &marshals{2}, (*marshals)(nil), []any{(*marshals)(nil), marshals{3}}, textMarshals("<t>"), map[textMarshals]int{"k": 1},
			time.Date(2026, 1, 2, 3, 4, 5, 6, time.UTC), uint64(1<<64 - 1), float32(0.1), []byte("bytes"), [2]bool{true}, map[int]string{-1: "a", 10: "b"},
			json.Number("12345678901234567890.5"), errors.New("not seen"), func() any { var e error; return &e }(), struct{ io.Reader }{}})
		b, _ := json.Marshal(v)
		if v == nil {
			b = []byte("{}")
		}
		d.Body = token(canonicalJSON(b))
		build = func() response.HttpResponse {
			h, c := mapsOf()
			switch {
			case bare && status == 200 && form == 0:
				return response.JsonHttpResponseOK(v)
			case bare && form == 0:
				return response.JsonHttpResponse(status, v)
			case c == nil && form == 0:
				return response.JsonHttpResponseWithHeaders(status, v, h)
			case h == nil && form == 0:
				return response.JsonHttpResponseWithCookies(status, v, c)
			}
			return response.JsonHttpResponseWithHeadersAndCookies(status, v, h, c)
		}
	case "raw":
		b := someBytes(r)
		ps := pieces(r, b)
		d.Ct, d.Body = pick(r, contentTypes), token(b)
		flush := r.Intn(3) == 0
		f := func(w io.Writer) error {
			for _, p := range ps {
				if _, err := w.Write(p); err != nil {
					return err
				}
				if fl, ok := w.(http.Flusher); ok && flush {
					fl.Flush()
				}
			}
			return nil
		}
		if len(b) == 0 && r.Intn(2) == 0 {
			f = nil
		}
		build = func() response.HttpResponse {
			h, c := mapsOf()
			switch {
			case bare && status == 200 && form == 0:
				return response.RawWriterHttpResponse(d.Ct, f)
			case status == 200 && h == nil && form == 0:
				return response.RawWriterHttpResponseWithCookies(200, d.Ct, c, f)
			case c == nil && form == 0:
				return response.RawWriterHttpResponseWithHeaders(status, d.Ct, h, f)
			}
			return response.RawWriterHttpResponseWithHeadersAndCookies(status, d.Ct, h, c, f)
		}
	case "stream":
		b := someBytes(r)
		if r.Intn(60) == 0 {
			b = bytes.Repeat([]byte("0123456789abcdefghijklmnop\n"), 170000) // more than what a bounded copy would take
		}
		d.Ct, d.Body = pick(r, contentTypes), token(b)
		which, n := r.Intn(4), pick(r, []int{1, 100, 4096, 40000})
		if len(b) > 5000 && n == 1 {
			n = 333
		}
		rd := func() io.Reader {
			switch which {
			case 0:
				return &slowReader{b, n}
			case 1:
				return bytes.NewReader(b)
			case 2:
				return bytes.NewBuffer(append([]byte{}, b...))
			}
			if len(b) == 0 {
				return nil
			}
			return io.LimitReader(io.MultiReader(bytes.NewReader(b), strings.NewReader("never sent")), int64(len(b)))
		}
		build = func() response.HttpResponse {
			h, c := mapsOf()
			switch {
			case bare && status == 200 && form == 0:
				return response.StreamHttpResponse(d.Ct, rd())
			case c == nil && form == 0:
				return response.StreamHttpResponseWithHeaders(status, d.Ct, h, rd())
			case h == nil && form == 0:
				return response.StreamHttpResponseWithCookies(status, d.Ct, c, rd())
			}
			return response.StreamHttpResponseWithHeadersAndCookies(status, d.Ct, h, c, rd())
		}
	case "template", "htmltemplate":
		data := pick(r, []string{"you", "<script>", "é", strings.Repeat("z", 6000)})
		var buf bytes.Buffer
		var t response.ExecutableTemplate = textTemplate
		d.Ct = plainCt
		if kind == "htmltemplate" {
			t, d.Ct = htmlTemplate, htmlCt
		}
		t.ExecuteTemplate(&buf, "page", data)
		d.Body = token(buf.Bytes())
		build = func() response.HttpResponse {
			h, c := mapsOf()
			switch {
			case bare && status == 200 && form == 0:
				return response.TemplateHttpResponseOK(t, "page", data)
			case bare && status == 404 && form == 0:
				return response.TemplateHttpResponseNotFound(t, "page", data)
			case c == nil && form == 0:
				return response.TemplateHttpResponseWithHeaders(t, status, "page", data, h)
			case h == nil && form == 0:
				return response.TemplateHttpResponseWithCookies(t, status, "page", data, c)
			}
			return response.TemplateHttpResponseWithHeadersAndCookies(t, status, "page", data, h, c)
		}
	case "redirect":
		d.Loc = pick(r, []string{"https://other.example/x?y=z", "/here", "/a/b/?q=1#f", "http://x/"})
		build = func() response.HttpResponse {
			var resp *response.HttpRedirectResponse
			switch {
			case status == 301 && form == 0:
				resp = response.RedirectHttpResponseMovedPermanently(d.Loc)
			case status == 302 && form == 0:
				resp = response.RedirectHttpResponse(d.Loc)
			case status == 303 && form == 0:
				resp = response.RedirectHttpResponseSeeOther(d.Loc)
			default:
				return &response.HttpRedirectResponse{HttpHeadersResponse: base(""), Url: d.Loc}
			}
			for _, x := range hs {
				resp.Headers().Set(x.K, x.V)
			}
			resp.Cookies().Add(cs...)
			return resp
		}
		if (status == 301 || status == 302 || status == 303) && form == 0 {
			after = func(resp response.HttpResponse) response.HttpResponse { return resp }
		}
	case "plain":
		d.Ct = pick(r, []string{"", "text/x-nothing"})
		if status == 500 && bare && form == 0 {
			d.Ct = ""
		}
		build = func() response.HttpResponse {
			if status == 500 && bare && form == 0 {
				return response.InternalServerErrorHttpResponse()
			}
			b := base(d.Ct)
			return &b
		}
	case "adaptor":
		b := someBytes(r)
		ps := pieces(r, b)
		d.Ct, d.Body = pick(r, []string{"text/x-adapted", ""}), token(b)
		length := len(b) > 0 && r.Intn(3) == 0 && status != 204 && status != 304
		h := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			if d.Ct != "" {
				w.Header().Set("Content-Type", d.Ct)
			}
			if length {
				w.Header().Set("Content-Length", strconv.Itoa(len(b)))
			}
			if status != 0 {
				w.WriteHeader(status)
			}
			for _, p := range ps {
				w.Write(p)
			}
			if f, ok := w.(http.Flusher); ok && len(b)%2 == 1 {
				f.Flush()
			}
		})
		for _, x := range own { // the adapted handler has the last word
			if strings.EqualFold(x.K, "Content-Type") {
				d.Ct = ""
			}
		}
		supply = 2
		build = func() response.HttpResponse {
			if form == 0 {
				return response.HandlerAdaptor(h)
			}
			return response.HandlerFuncAdaptor(h)
		}
	case "sse":
		var evts []response.ServerSentEvent
		for k := r.Intn(4); k > 0; k-- {
			evts = append(evts, response.ServerSentEvent{Name: pick(r, []string{"n", "tick"}), Id: pick(r, []string{"", "7"}), Data: []string{pick(r, []string{"", "x", strings.Repeat("long ", 3000)})}})
		}
		d.Ct = "text/event-stream"
		for _, e := range evts {
			d.Body += "event: " + e.Name + "\ndata: " + e.Data[0]
			if e.Id != "" {
				d.Body += "\nid: " + e.Id
			}
			d.Body += "\n\n"
		}
		d.Body = token([]byte(d.Body))
		gen := func(ctx context.Context, last string) <-chan response.ServerSentEvent {
			c := make(chan response.ServerSentEvent)
			go func() {
				defer close(c)
				for _, e := range evts {
					select {
					case c <- e:
					case <-ctx.Done():
						return
					}
				}
			}()
			return c
		}
		build = func() response.HttpResponse {
			h, c := mapsOf()
			switch {
			case status != 200:
				return &response.HttpSSEResponse{HttpHeadersResponse: response.HttpHeadersResponse{HttpStatusCode: status, ContentType: d.Ct, HttpHeaders: h, HttpCookies: c}, EventGenerator: gen}
			case bare:
				return response.SSEHttpResponse(gen)
			case c == nil:
				return response.SSEHttpResponseWithHeaders(gen, h)
			}
			return response.SSEHttpResponseWithHeadersAndCookies(gen, h, c)
		}
	case "hijack":
		b := someBytes(r)
		if status == 0 || status < 200 || status > 599 || status == 204 || status == 304 {
			d.Status = 299
		}
		d.H, d.C, d.Body = []kv{{"x-raw", "1"}}, []cookieJ{}, token(b)
		st := d.Status
		build = func() response.HttpResponse {
			return response.NewHttpHijackConnectionResponse(func(conn net.Conn, rw *bufio.ReadWriter, err error) {
				if (err != nil) != (conn == nil) {
					panic("hijack: neither a connection nor an error")
				}
				if err != nil {
					return
				}
				defer conn.Close()
				body := b
				if d.head {
					body = nil
				}
				fmt.Fprintf(rw, "HTTP/1.1 %d Raw\r\nX-Raw: 1\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", st, len(b), body)
				rw.Flush()
			})
		}
		supply = 0
	default:
		panic(kind)
	}
	d.build = func() response.HttpResponse { return after(build()) }
	if withMw {
		for k := 1 + r.Intn(2); k > 0; k-- {
			var mh []kv
			var mc []*http.Cookie
			for j := r.Intn(3); j > 0; j-- {
				mh = append(mh, someHeader(r))
			}
			for j := r.Intn(3); j > 0; j-- {
				mc = append(mc, someCookie(r))
			}
			d.Mh = append(d.Mh, lowerKV(mh)...)
			for _, c := range mc {
				d.Mc = append(d.Mc, cookieOf(c))
			}
			d.mids = append(d.mids, func(resp response.HttpResponse) {
				for _, x := range mh {
					resp.Headers().Set(x.K, x.V)
				}
				if len(mc) > 0 {
					resp.Cookies().Add(mc...)
				}
			})
		}
	}
	return d
}

// a site serves descriptions by number through a mux, over HTTP/1.1 and HTTP/2
type site struct {
	mux     *gofre.MuxHandler
	mu      sync.Mutex
	ds      map[string]*described
	n       int
	logged  atomic.Int64
	h1, h2  *httptest.Server
	c1, c2  *http.Client
	running atomic.Int64
	lost    atomic.Int64 // requests without an answer
	arrived func(*http.Request)
	nowait  bool // requests are concurrent: a response may be there before its handler has returned
	panics  atomic.Int64
}

type siteKey struct{}

// newSite builds a mux whose routes /m/N have the middlewares of ms[N] in front of them
func newSite(ms ...[]middleware.Middleware) *site {
	s := &site{ds: map[string]*described{}}
	s.mux, _ = gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { s.logged.Add(1) }})
	own := middleware.Middleware(func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp, err := next(ctx, mc)
			if err == nil && resp != nil {
				for _, f := range s.get(mc.PathVar("id")).mids {
					f(resp)
				}
			}
			return resp, err
		}
	})
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		d := s.get(mc.PathVar("id"))
		if d.before != nil {
			d.before(mc)
		}
		return d.build(), nil
	}
	for i, m := range ms {
		for _, me := range []string{"GET", "HEAD", "POST"} {
			s.mux.HandleRequest(me, fmt.Sprintf("/m%d/{id}", i), h, append(append([]middleware.Middleware{}, m...), own)...)
		}
	}
	wrapped := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.running.Add(1)
		defer s.running.Add(-1)
		defer func() {
			if p := recover(); p != nil {
				s.panics.Add(1)
				panic(http.ErrAbortHandler)
			}
		}()
		if s.arrived != nil {
			s.arrived(q)
		}
		s.mux.ServeHTTP(w, q)
	})
	s.h1 = httptest.NewServer(wrapped)
	s.h2 = httptest.NewUnstartedServer(wrapped)
	s.h2.EnableHTTP2 = true
	s.h2.StartTLS()
	s.c1, s.c2 = s.h1.Client(), s.h2.Client()
	for _, c := range []*http.Client{s.c1, s.c2} {
		c.Transport.(*http.Transport).DisableCompression = true
		c.Transport.(*http.Transport).MaxIdleConnsPerHost = 64
		c.Timeout = 30 * time.Second
		c.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	}
	return s
}

func (s *site) close() {
	for _, c := range []*http.Client{s.c1, s.c2} {
		c.CloseIdleConnections()
	}
	s.h1.Close()
	s.h2.Close()
}

// settle waits for the handlers: a response may be there before its handler has returned
func (s *site) settle() {
	for k := 0; !s.nowait && s.running.Load() > 0 && k < 20000; k++ {
		if k < 1000 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

func (s *site) get(id string) *described {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.ds[id]
}

func (s *site) put(d *described) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	id := fmt.Sprint("r", s.n)
	s.ds[id] = d
	return id
}

// received is what the client got
type received struct {
	Status int      `json:"status"`
	H      []kv     `json:"h"`
	C      []string `json:"c"`
	Body   string   `json:"body"`
	Res    string   `json:"res"` // ok or error
	raw    []byte
	enc    string
}

func (s *site) fetch(m int, id, method string, proto int, hdr http.Header, jsonBody bool) received {
	c, base := s.c1, s.h1.URL
	if proto == 2 {
		c, base = s.c2, s.h2.URL
	}
	var in io.Reader
	if b, ok := hdr["body"]; ok {
		in = strings.NewReader(b[0])
		if hdr["chunked"] != nil { // of a length that is not told beforehand
			in = io.MultiReader(in)
		}
	}
	req, _ := http.NewRequest(method, fmt.Sprintf("%s/m%d/%s%s", base, m, id, strings.Join(hdr["query"], "")), in)
	for k, v := range hdr {
		switch k {
		case "body", "query", "chunked":
		case "Host":
			req.Host = v[0]
		default:
			req.Header[k] = v
		}
	}
	if prop != "D01" { // it shows the headers of the request
		noise(req.Header)
	}
	if d := s.get(id); d != nil && d.head != (method == "HEAD") {
		d.head = method == "HEAD"
	}
	g := received{H: []kv{}, C: []string{}, Res: "ok"}
	if s.lost.Load() > 3 { // the rest would not be answered either
		g.Res = "error: no answer"
		return g
	}
	resp, err := c.Do(req)
	if ue, ok := err.(*url.Error); ok && ue.Timeout() {
		s.lost.Add(1)
	}
	if err != nil {
		g.Res = "error"
		if s.panics.Load() == 0 {
			g.Res = "error: " + err.Error()
		}
		return g
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		g.Res = "error"
		if te, ok := err.(interface{ Timeout() bool }); ok && te.Timeout() {
			s.lost.Add(1)
		}
	}
	s.settle()
	g.receive(resp, b, jsonBody)
	return g
}

// fetchAbsolute sends the request in absolute form, the way the clients of a proxy do
func (s *site) fetchAbsolute(m int, id, method, scheme string, jsonBody bool) received {
	g := received{H: []kv{}, C: []string{}, Res: "error"}
	if d := s.get(id); d != nil && d.head != (method == "HEAD") {
		d.head = method == "HEAD"
	}
	conn, err := net.Dial("tcp", strings.TrimPrefix(s.h1.URL, "http://"))
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	fmt.Fprintf(conn, "%s %s://site.example/m%d/%s HTTP/1.1\r\nHost: site.example\r\nConnection: close\r\n", method, scheme, m, id)
	if hdr := (http.Header{}); prop != "D01" {
		noise(hdr)
		hdr.Write(conn)
	}
	io.WriteString(conn, "\r\n")
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
	if err != nil {
		return g
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return g
	}
	s.settle()
	g.Res = "ok"
	g.receive(resp, b, jsonBody)
	return g
}

func (g *received) receive(resp *http.Response, b []byte, jsonBody bool) {
	g.Status, g.raw = resp.StatusCode, b
	g.enc = strings.Join(resp.Header["Content-Encoding"], ",")
	for _, x := range resp.Cookies() {
		x.Raw = ""
		g.C = append(g.C, x.String())
	}
	sort.Strings(g.C)
	for k, vs := range resp.Header {
		if k == "Set-Cookie" {
			continue
		}
		for _, v := range vs {
			g.H = append(g.H, kv{strings.ToLower(k), v})
		}
	}
	sort.Slice(g.H, func(i, j int) bool { return g.H[i].K+g.H[i].V < g.H[j].K+g.H[j].V })
	if jsonBody && len(b) > 0 {
		b = canonicalJSON(b)
	}
	g.Body = token(b)
}

func isJSON(d *described) bool { return d.Kind == "json" || d.Kind == "jsonerr" }
