package harness

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["sse"] = driveSse }

type sseEvent struct {
	Name  string   `json:"name"`
	Id    string   `json:"id"`
	Data  []string `json:"data"`
	Retry int      `json:"retry"`
}

func (e sseEvent) real() response.ServerSentEvent {
	return response.ServerSentEvent{Name: e.Name, Id: e.Id, Data: e.Data, Retry: e.Retry}
}

func someSseEvent(r *rand.Rand) sseEvent {
	e := sseEvent{Name: pick(r, []string{"", "tick", "é b"}), Id: pick(r, []string{"", "7", "0", "7", fmt.Sprint(r.Intn(1000))}), Retry: pick(r, []int{0, 0, 3000, -1, 1, 86400000}), Data: []string{}}
	for k := r.Intn(4); k > 0; k-- {
		e.Data = append(e.Data, pick(r, []string{"", "x", "two\nlines", "a\r\nb\rc\n", " lead", ": colon", "data: d", "event: e", "日本", strings.Repeat("long ", 200)}))
	}
	return e
}

// sseWriter is a connection under control: it can be stalled, and delivers what was flushed
type sseWriter struct {
	mu      sync.Mutex
	h       http.Header
	status  int
	sent    http.Header
	buf     bytes.Buffer
	flushed int
	gate    chan struct{}
	wait    bool
}

func (w *sseWriter) Header() http.Header { return w.h }
func (w *sseWriter) WriteHeader(s int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.status == 0 {
		w.status, w.sent = s, w.h.Clone()
	}
}
func (w *sseWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	gate := w.gate
	w.mu.Unlock()
	if gate != nil {
		<-gate
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.status == 0 {
		w.status, w.sent = 200, w.h.Clone()
	}
	return w.buf.Write(p)
}
func (w *sseWriter) Flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.flushed = w.buf.Len()
}

// sseStringWriter can also write texts
type sseStringWriter struct{ *sseWriter }

func (w sseStringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// sseRun is one stream
type sseRun struct {
	ch     chan response.ServerSentEvent
	closed bool
	over   chan struct{} // closed when the generator is no longer of interest
	gone   atomic.Int32
	last   string
	ev     arr
}

func (x *sseRun) generator() response.EventGenerator {
	return func(ctx context.Context, last string) <-chan response.ServerSentEvent {
		x.last = last
		go func() {
			select {
			case <-ctx.Done():
				x.gone.Store(1)
			case <-x.over:
			}
		}()
		return x.ch
	}
}

func (x *sseRun) offer(e sseEvent) {
	sent := 0
	select {
	case x.ch <- e.real():
		sent = 1
	default:
	}
	x.ev = append(x.ev, obj{"e": "emit", "evt": e, "sent": sent})
}

var waits = []time.Duration{time.Second, 31 * time.Second, 6 * time.Minute, 2 * time.Hour, 49 * time.Hour}

func sseControlled(steps []string, events func() sseEvent, capacity int, stringWriter bool, last string) arr {
	x := &sseRun{ch: make(chan response.ServerSentEvent, capacity), ev: arr{}, over: make(chan struct{})}
	defer close(x.over)
	mux, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	mux.HandleGet("/s", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if capacity == 1 { // the way of an application that fills in the response itself
			return &response.HttpSSEResponse{HttpHeadersResponse: response.HttpHeadersResponse{ContentType: "text/event-stream"}, EventGenerator: x.generator()}, nil
		}
		return response.SSEHttpResponse(x.generator()), nil
	})
	w := &sseWriter{h: http.Header{}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q := httptest.NewRequest("GET", "/s", nil).WithContext(ctx)
	q.ProtoMajor, q.ProtoMinor, q.Proto = 2, 0, "HTTP/2.0"
	if last != "" {
		q.Header.Set("Last-Event-ID", last)
	}
	noise(q.Header)
	var done atomic.Int32
	res := "ok"
	go func() {
		defer done.Store(1)
		if p, _ := protect(func() {
			if stringWriter {
				mux.ServeHTTP(sseStringWriter{w}, q)
			} else {
				mux.ServeHTTP(w, q)
			}
		}); p {
			res = "panic"
		}
	}()
	see := func() {
		synctest.Wait()
		w.mu.Lock()
		n := w.flushed
		if done.Load() == 1 {
			n = w.buf.Len()
		}
		e := obj{"e": "see", "text": string(w.buf.Bytes()[:n]), "done": int(done.Load()), "gone": int(x.gone.Load()), "status": w.status, "ct": w.sent.Get("Content-Type"), "cc": w.sent.Get("Cache-Control")}
		w.mu.Unlock()
		e["res"] = "none"
		if e["done"] == 1 {
			e["res"] = res
		}
		x.ev = append(x.ev, e)
	}
	synctest.Wait()
	x.ev = append(x.ev, obj{"e": "start", "sent": last, "last": x.last})
	see()
	var gate chan struct{}
	for i, st := range steps {
		switch strings.TrimRight(st, "+-") {
		case "emit":
			x.offer(events())
		case "end":
			x.ev = append(x.ev, obj{"e": "end"})
			close(x.ch)
			x.closed = true
		case "cancel":
			x.ev = append(x.ev, obj{"e": "cancel"})
			cancel()
		case "wait": // the clock of the driver is not the real one
			x.ev = append(x.ev, obj{"e": "wait"})
			time.Sleep(waits[i%len(waits)])
		case "stall":
			x.ev = append(x.ev, obj{"e": "stall"})
			gate = make(chan struct{})
			w.mu.Lock()
			w.gate = gate
			w.mu.Unlock()
		case "resume":
			x.ev = append(x.ev, obj{"e": "resume"})
			w.mu.Lock()
			w.gate = nil
			w.mu.Unlock()
			close(gate)
			gate = nil
		}
		switch { // "+": go on at once, "-": let it happen without looking
		case strings.HasSuffix(st, "-"):
			synctest.Wait()
		case !strings.HasSuffix(st, "+"):
			see()
		}
	}
	if gate != nil {
		x.ev = append(x.ev, obj{"e": "resume"})
		w.mu.Lock()
		w.gate = nil
		w.mu.Unlock()
		close(gate)
	}
	see()
	// whatever happened, the cancellation ends it
	x.ev = append(x.ev, obj{"e": "cancel"})
	cancel()
	see()
	if done.Load() == 0 && !x.closed { // let the goroutine go so that the next schedules can be run
		close(x.ch)
		synctest.Wait()
	}
	return x.ev
}

func driveSse(t *testing.T) {
	if raceBuild {
		sseReal("race", scale(40, 300))
		return
	}
	synctest.Test(t, func(t *testing.T) {
		r := newRand(98)
		tr := newTrace("schedules")
		n := 0
		for _, steps := range behaviours[string]("schedules.json") {
			k := 0
			n++
			events := func() sseEvent { k++; return sseEvent{Name: "", Id: "", Data: []string{fmt.Sprint(k)}} }
			if n%3 == 0 {
				events = func() sseEvent { return someSseEvent(r) }
			}
			tr.put(obj{"ev": sseControlled(steps, events, []int{0, 4, 1}[n%3], n%2 == 0, pick(r, []string{"", "", "42", "x y", "\"7\"", "0", "a,b;c=d", "é/+%20", "null"}))})
			if n%10 == 0 {
				tr.put(obj{"ev": sseControlled(steps, events, []int{4, 1, 0}[n%3], n%2 == 1, "")})
			}
		}
		for k := 0; k < scale(150, 2000); k++ {
			var steps []string
			stalled, ended, cancelled := false, false, false
			for i := 0; i < 12; i++ {
				s := pick(r, []string{"emit", "emit", "emit+", "emit+", "end", "cancel", "cancel+", "stall", "resume", "end+", "wait", "wait"})
				b := strings.TrimSuffix(s, "+")
				if (b == "emit" && ended) || (b == "end" && (ended || r.Intn(3) > 0)) || (b == "cancel" && (cancelled || r.Intn(3) > 0)) || (b == "stall" && stalled) || (b == "resume" && !stalled) {
					continue
				}
				switch b {
				case "end":
					ended = true
				case "cancel":
					cancelled = true
				case "stall", "resume":
					stalled = b == "stall"
				}
				steps = append(steps, s)
			}
			tr.put(obj{"ev": sseControlled(steps, func() sseEvent { return someSseEvent(r) }, r.Intn(4), r.Intn(2) == 0, "")})
		}
		tr.close()
		tr = newTrace("long")
		for k := 0; k < scale(3, 12); k++ {
			sseLong(tr, r, k)
		}
		tr.close()
		var evts []sseEvent
		readJSON("events.json", &evts)
		tr = newTrace("fields")
		for lo := 0; lo < len(evts); lo += 5 {
			i := lo
			var steps []string
			for k := lo; k < lo+5 && k < len(evts); k++ {
				steps = append(steps, "emit")
			}
			tr.put(obj{"ev": sseControlled(append(steps, "end"), func() sseEvent { i++; return evts[i-1] }, 0, lo%2 == 0, "")})
		}
		tr.close()
	})
	sseReal("real", scale(60, 400))
}

// sseLong: many events, and large ones
func sseLong(tr *trace, r *rand.Rand, k int) {
	n, size := 30, 0
	switch k % 3 {
	case 0:
		n = scale(600, 3000)
	case 1:
		size = scale(70000, 150000)
	case 2:
		n, size = 200, 2000
	}
	var steps []string
	for i := 0; i < n; i++ {
		steps = append(steps, pick(r, []string{"emit-", "emit-", "emit+"}))
	}
	steps = append(steps, pick(r, []string{"emit", "end", "cancel"}))
	i := 0
	tr.put(obj{"ev": sseControlled(steps, func() sseEvent {
		i++
		e := sseEvent{Id: fmt.Sprint(i), Data: []string{fmt.Sprint("event ", i)}}
		if size > 0 && (i == 3 || r.Intn(n) < 2) {
			c := r.Intn(3)
			if i == 3 {
				c = 0
			}
			switch c {
			case 0: // a long line
				e.Data = append(e.Data, strings.Repeat("0123456789", size/10))
			case 1: // many lines in a text
				e.Data = append(e.Data, strings.Repeat("line of a text\n", size/40))
			case 2: // many texts
				for j := 0; j < size/40; j++ {
					e.Data = append(e.Data, "a short text")
				}
			}
		}
		return e
	}, pick(r, []int{0, 1, 64}), k%2 == 0, "")})
}

// sseReal streams over HTTP/2 connections, also behind other middlewares
func sseReal(name string, n int) {
	var mu sync.Mutex
	runs := map[string]*sseRun{}
	dones := map[string]chan string{}
	mux, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	chains := [][]middleware.Middleware{nil, {middleware.CompressResponse(-1)}, {middleware.PanicRecover(), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true})},
		{middleware.RequestDumper(func(string) {}), middleware.CompressResponse(9)}}
	for i, c := range chains {
		mux.HandleGet(fmt.Sprintf("/c%d/{id}", i), func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			mu.Lock()
			defer mu.Unlock()
			return response.SSEHttpResponse(runs[mc.PathVar("id")].generator()), nil
		}, c...)
	}
	serve := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		d := dones[q.URL.Path[4:]]
		mu.Unlock()
		res := "ok"
		defer func() {
			d <- res
		}()
		if p, _ := protect(func() { mux.ServeHTTP(w, q) }); p {
			res = "panic"
		}
	})
	h2 := httptest.NewUnstartedServer(serve)
	h2.EnableHTTP2 = true
	h2.StartTLS()
	defer h2.Close()
	cl := h2.Client()
	cl.Transport.(*http.Transport).DisableCompression = true
	tr := newTrace(name)
	var trMu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := newRand(int64(9900 + g))
			for k := g; k < n; k += 8 {
				id := fmt.Sprintf("%s%d", name[:1], k)
				x := &sseRun{ch: make(chan response.ServerSentEvent, r.Intn(3)), ev: arr{}, over: make(chan struct{})}
				d := make(chan string, 1)
				mu.Lock()
				runs[id], dones[id] = x, d
				mu.Unlock()
				x.stream(cl, h2.URL, id, k%len(chains), r, d)
				trMu.Lock()
				tr.put(obj{"ev": x.ev})
				trMu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	tr.close()
	if !raceBuild {
		sseRefused(newRand(99))
	}
}

const sseLimit = 20 * time.Second

func (x *sseRun) stream(cl *http.Client, base, id string, chain int, r *rand.Rand, d chan string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q, _ := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/c%d/%s", base, chain, id), nil)
	last := pick(r, []string{"", "77"})
	if last != "" {
		q.Header.Set("Last-Event-Id", last)
	}
	if r.Intn(2) == 0 {
		q.Header.Set("Accept-Encoding", pick(r, []string{"gzip", "deflate, gzip"}))
	}
	var mu sync.Mutex
	var text strings.Builder
	status, ct, cc := 0, "", ""
	over := make(chan struct{})
	go func() {
		defer close(over)
		resp, err := cl.Do(q)
		if err != nil {
			return
		}
		defer resp.Body.Close()
		mu.Lock()
		status, ct, cc = resp.StatusCode, resp.Header.Get("Content-Type"), resp.Header.Get("Cache-Control")
		mu.Unlock()
		var b io.Reader = resp.Body
		if resp.Header.Get("Content-Encoding") == "gzip" {
			z, err := gzip.NewReader(b)
			if err != nil {
				return
			}
			b = z
		}
		in := bufio.NewReader(b)
		for {
			line, err := in.ReadString('\n')
			mu.Lock()
			text.WriteString(line)
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	done, res := 0, "none"
	see := func(until func(s string) bool) {
		for limit := time.Now().Add(sseLimit); time.Now().Before(limit); time.Sleep(time.Millisecond) {
			mu.Lock()
			ok := until(text.String())
			mu.Unlock()
			if ok {
				break
			}
		}
		mu.Lock()
		x.ev = append(x.ev, obj{"e": "see", "text": text.String(), "done": done, "gone": int(x.gone.Load()), "status": status, "ct": ct, "cc": cc, "res": res})
		mu.Unlock()
	}
	produced := 0
	marker := func() string { return fmt.Sprintf("mark-%d-end", produced) }
	send := func(wait bool) {
		produced++
		e := someSseEvent(r)
		e.Data = append(e.Data, marker())
		m := marker()
		x.ev = append(x.ev, obj{"e": "emit", "evt": e, "sent": 1})
		x.ch <- e.real()
		if wait {
			see(func(s string) bool {
				i := strings.Index(s, m)
				return i >= 0 && strings.Contains(s[i:], "\n\n")
			})
		}
	}
	accepted := make(chan bool, 1)
	go func() { // the first event is delivered while the generator waits
		defer func() { accepted <- true }()
		send(false)
	}()
	select {
	case <-accepted:
	case <-time.After(sseLimit):
		x.ev = append(x.ev, obj{"e": "see", "text": "", "done": 0, "gone": 0, "status": 0, "ct": "", "cc": "", "res": "hang"})
		return
	}
	m := marker()
	see(func(s string) bool { i := strings.Index(s, m); return i >= 0 && strings.Contains(s[i:], "\n\n") })
	x.ev = append(x.ev, obj{"e": "start", "sent": last, "last": x.last})
	for k := r.Intn(4); k > 0; k-- {
		send(true)
	}
	finish := func(what string) {
		x.ev = append(x.ev, obj{"e": what})
		select {
		case res = <-d:
			done = 1
		case <-time.After(sseLimit):
			res = "hang"
		}
	}
	if r.Intn(2) == 0 {
		close(x.ch)
		finish("end")
		<-over
		see(func(string) bool { return true })
		return
	}
	cancel()
	finish("cancel")
	see(func(string) bool { return x.gone.Load() == 1 })
	if done == 0 {
		close(x.ch)
	}
}

// requests that are not HTTP/2
func sseRefused(r *rand.Rand) {
	var logged atomic.Int32
	var mux *gofre.MuxHandler
	mux, _ = gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { logged.Add(1) }})
	mux.HandleGet("/s", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
			c := make(chan response.ServerSentEvent, 2)
			c <- response.ServerSentEvent{Name: "a"}
			c <- response.ServerSentEvent{Name: "b"}
			close(c)
			return c
		}), nil
	})
	done := make(chan struct{}, 1)
	h1 := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mux.ServeHTTP(w, q)
		done <- struct{}{}
	}))
	defer h1.Close()
	tr := newTrace("refused")
	defer tr.close()
	for k := 0; k < 5; k++ {
		logged.Store(0)
		resp, err := h1.Client().Get(h1.URL + "/s")
		if err != nil {
			panic(err)
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		<-done
		tr.put(obj{"ev": arr{obj{"e": "refused", "status": resp.StatusCode, "text": string(b), "logged": int(logged.Load())}}})
	}
	for _, p := range [][2]int{{1, 0}, {1, 1}, {0, 9}, {3, 0}, {0, 0}, {1, 2}, {20, 0}} {
		logged.Store(0)
		q := httptest.NewRequest("GET", "/s", nil)
		q.ProtoMajor, q.ProtoMinor = p[0], p[1]
		w := httptest.NewRecorder()
		mux.ServeHTTP(w, q)
		tr.put(obj{"ev": arr{obj{"e": "refused", "status": w.Code, "text": w.Body.String(), "logged": int(logged.Load())}}})
	}
}
