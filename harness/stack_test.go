package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/ixtendio/gofre"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["stack"] = driveStack }

type stackKey struct{}

// stackRun is one request: what its layers do and what was observed
type stackRun struct {
	stack []obj
	h     obj
	fault []fault // per layer, the last one is the handler's
	ev    arr
	logs  []string
	gone  bool
	raise string // text of the error that last came up
}

type fault struct {
	err   error
	c     string
	panic any
	isP   bool
	with  string // a response returned together with the error
}

type tagResp struct {
	response.HttpResponse
	by, x string
}

func classOf(err error) string {
	switch err.(type) {
	case gerrors.ErrBadRequest:
		return "badreq"
	case gerrors.ErrObjectNotFound:
		return "notfound"
	}
	switch err {
	case gerrors.ErrUnauthorizedRequest:
		return "unauth"
	case gerrors.ErrWrongCredentials:
		return "wrongcred"
	case gerrors.ErrAccessDenied:
		return "denied"
	}
	return "other"
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

func someFault(r *rand.Rand, kind string, n int) fault {
	txt := fmt.Sprintf("%s %d", pick(r, []string{"no such thing", "é\"<>&\\ ", "line1\nline2", "x", "100% %s %d %v %!", strings.Repeat("a long story ", 300)}), n)
	if r.Intn(12) == 0 {
		txt = ""
	}
	if kind == "panic" {
		return fault{isP: true, panic: pick(r, []any{"text " + txt, errors.New(txt), 42, gerrors.ErrUnauthorizedRequest, gerrors.NewBadRequestWithMessage(txt), gerrors.ErrAccessDenied,
			http.ErrAbortHandler, nil, &myErr{txt}, struct{ a int }{1}, runtimeFault(r.Intn(3)), []int{1}})}
	}
	var err error
	switch r.Intn(13) {
	case 0:
		err = gerrors.NewBadRequestWithMessage(txt)
	case 1:
		err = gerrors.NewBadRequest(errors.New(txt))
	case 2:
		err = gerrors.NewBadRequest(gerrors.ErrAccessDenied)
	case 3:
		err = gerrors.NewObjectNotFoundWithMessage(txt)
	case 4:
		err = gerrors.NewObjectNotFound(gerrors.NewBadRequestWithMessage(txt))
	case 5, 6:
		err = gerrors.ErrUnauthorizedRequest
	case 7:
		err = gerrors.ErrWrongCredentials
	case 8, 9:
		err = gerrors.ErrAccessDenied
	case 10:
		err = &myErr{txt}
	case 11:
		err = pick(r, []error{context.Canceled, context.DeadlineExceeded, io.EOF, os.ErrNotExist, os.ErrPermission, os.ErrDeadlineExceeded, http.ErrNoCookie, http.ErrAbortHandler, http.ErrNotSupported, &net.DNSError{Err: txt, IsNotFound: true, IsTimeout: true},
			&os.PathError{Op: "open", Path: txt, Err: os.ErrNotExist}, &http.MaxBytesError{Limit: 1}, &strconv.NumError{Func: "Atoi", Num: "x", Err: strconv.ErrSyntax}})
	default:
		err = errors.New(pick(r, []string{txt, gerrors.ErrUnauthorizedRequest.Error(), gerrors.ErrAccessDenied.Error()}))
	}
	return fault{err: err, c: classOf(err), with: pick(r, []string{"", "", "handler"})}
}

// runtimeFault is a marker: the layer provokes a run-time error instead of panicking with a value
type runtimeFault int

// raise fails; an error may come along with a response, which is then of no interest
func (f fault) raise() (response.HttpResponse, error) {
	if !f.isP {
		if f.with != "" {
			h := response.NewHttpHeaders()
			h.Set("By", "handler")
			return &tagResp{response.PlainTextHttpResponseWithHeaders(200, "handler-body", h), f.with, ""}, f.err
		}
		return nil, f.err
	}
	if k, ok := f.panic.(runtimeFault); ok {
		switch k {
		case 0:
			var m map[string]int
			m["x"] = 1
		case 1:
			var p *stackRun
			p.ev = nil
		default:
			s := []int{}
			_ = s[len(s)]
		}
	}
	panic(f.panic)
}

func describe(resp response.HttpResponse, err error) obj {
	if err != nil {
		return obj{"t": "err", "c": classOf(err), "x": err.Error(), "by": "", "s": 0}
	}
	switch v := resp.(type) {
	case nil:
		return obj{"t": "nothing", "c": "", "x": "", "by": "", "s": 0}
	case *tagResp:
		return obj{"t": "resp", "c": "", "x": v.x, "by": v.by, "s": resp.StatusCode()}
	case *response.HttpJsonResponse:
		b, _ := json.Marshal(v.Payload)
		var m map[string]any
		json.Unmarshal(b, &m)
		return obj{"t": "resp", "c": "", "x": str(m["error"]), "by": "json", "s": resp.StatusCode()}
	}
	return obj{"t": "resp", "c": "", "x": "", "by": fmt.Sprintf("%T", resp), "s": resp.StatusCode()}
}

// probe records what enters and leaves layer i
func probe(i int) middleware.Middleware {
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
			run := mc.R.Context().Value(stackKey{}).(*stackRun)
			run.ev = append(run.ev, obj{"e": "down", "i": i})
			back := false
			defer func() {
				o := obj{"t": "panic", "c": "", "x": "", "by": "", "s": 0}
				if back {
					o = describe(resp, err)
					if err != nil {
						run.raise = err.Error()
					}
				}
				o["e"], o["i"] = "up", i
				run.ev = append(run.ev, o)
			}()
			resp, err = next(ctx, mc)
			back = true
			return resp, err
		}
	}
}

func layer(name string, i int) middleware.Middleware {
	switch name {
	case "err":
		return middleware.ErrResponse(func(code int, err error) response.HttpResponse {
			h := response.NewHttpHeaders()
			h.Set("By", "err")
			return &tagResp{response.PlainTextHttpResponseWithHeaders(code, err.Error(), h), "err", err.Error()}
		})
	case "json":
		return middleware.ErrJsonResponse()
	case "panic":
		return middleware.PanicRecover()
	case "pass":
		return func(next handler.Handler) handler.Handler { return next }
	}
	before := strings.HasSuffix(name, "before")
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			run := mc.R.Context().Value(stackKey{}).(*stackRun)
			if !before {
				next(ctx, mc)
			}
			return run.fault[i-1].raise()
		}
	}
}

func stackHandler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	run := mc.R.Context().Value(stackKey{}).(*stackRun)
	if run.h["t"] == "resp" {
		h := response.NewHttpHeaders()
		h.Set("By", "handler")
		return &tagResp{response.PlainTextHttpResponseWithHeaders(run.h["s"].(int), "handler-body", h), "handler", ""}, nil
	}
	return run.fault[len(run.fault)-1].raise()
}

// onceWriter counts the status lines sent
type onceWriter struct {
	*httptest.ResponseRecorder
	n int
}

func (w *onceWriter) WriteHeader(c int) { w.n++; w.ResponseRecorder.WriteHeader(c) }

func driveStack(t *testing.T) {
	var g struct{ Stacks [][]string }
	readJSON("stacks.json", &g)
	r := newRand(30)
	tr := newTrace("stacks")
	num := 0
	// stacks far deeper than the generated ones
	for i := 0; i < scale(30, 200); i++ {
		var names []string
		n := 6 + r.Intn(60)
		for k := 0; k < n; k++ {
			names = append(names, pick(r, []string{"pass", "pass", "pass", "panic", "err", "json"}))
		}
		for k := r.Intn(4); k > 0; k-- {
			names[r.Intn(n)] = pick(r, []string{"before", "after", "pbefore", "pafter"})
		}
		g.Stacks = append(g.Stacks, names)
	}
	for si, names := range g.Stacks {
		var mu sync.Mutex
		var logs []string
		m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) {
			mu.Lock()
			defer mu.Unlock()
			logs = append(logs, err.Error())
		}})
		var all []middleware.Middleware
		for i, n := range names {
			all = append(all, probe(i+1), layer(n, i+1))
		}
		all = append(all, probe(len(names)+1))
		// the layers are spread over the root mux, a sub-mux and the route
		a := r.Intn(len(all) + 1)
		b := a + r.Intn(len(all)-a+1)
		m.CommonMiddlewares(all[:a]...)
		sub := m.RouteUsingPathPrefix("/s")
		sub.CommonMiddlewares(all[a:b]...)
		sub.HandleGet("/{x}", stackHandler, all[b:]...)
		mk := func(ht string) *stackRun {
			run := &stackRun{gone: r.Intn(5) == 0}
			for _, n := range names {
				num++
				f := fault{}
				o := obj{"l": n, "at": "", "c": "", "x": "", "p": 0}
				switch n {
				case "before", "after", "pbefore", "pafter":
					o["l"], o["at"] = "fail", strings.TrimPrefix(n, "p")
					kind := "err"
					if n[0] == 'p' {
						kind = "panic"
					}
					f = someFault(r, kind, num)
					o["p"], o["c"] = bit(f.isP), f.c
					if f.err != nil {
						o["x"] = f.err.Error()
					}
				}
				run.fault = append(run.fault, f)
				run.stack = append(run.stack, o)
			}
			run.h = obj{"t": ht, "c": "", "x": "", "s": 0}
			f := fault{}
			switch ht {
			case "resp":
				run.h["s"] = pick(r, []int{200, 201, 404, 500, 302, 400})
			default:
				num++
				f = someFault(r, ht, num)
				run.h["c"] = f.c
				if f.err != nil {
					run.h["x"] = f.err.Error()
				}
			}
			run.fault = append(run.fault, f)
			return run
		}
		serve := func(run *stackRun) obj {
			req := &http.Request{Method: "GET", URL: &url.URL{Path: "/s/1"}, Header: http.Header{}, Body: http.NoBody, Host: "h"}
			ctx := context.WithValue(context.Background(), stackKey{}, run)
			if run.gone { // the client does not wait for the answer
				c, cancel := context.WithCancel(ctx)
				cancel()
				ctx = c
			}
			noise(req.Header)
			req = req.WithContext(ctx)
			w := &onceWriter{ResponseRecorder: httptest.NewRecorder()}
			p, _ := protect(func() { m.ServeHTTP(w, req) })
			e := obj{"e": "client", "t": "answered", "s": 0, "by": "", "x": "", "once": 0, "logs": 0, "logok": 0}
			if p {
				e["t"] = "escaped"
			} else {
				res := w.Result()
				body := w.Body.String()
				e["s"], e["once"] = res.StatusCode, bit(w.n == 1)
				switch {
				case res.Header.Get("By") == "err":
					e["by"], e["x"] = "err", body
				case res.Header.Get("By") == "handler":
					e["by"] = "handler"
					if body != "handler-body" {
						e["by"] = "handler, other body"
					}
				case strings.HasPrefix(res.Header.Get("Content-Type"), "application/json"):
					var m map[string]any
					e["by"] = "json"
					if json.Unmarshal([]byte(body), &m) != nil {
						e["by"] = "json, unreadable"
					}
					e["x"] = str(m["error"])
				case body == "":
					e["by"] = "router"
				}
			}
			return e
		}
		finish := func(run *stackRun, e obj, lg []string) {
			e["logs"] = len(lg)
			if len(lg) > 0 {
				e["logok"] = bit(strings.Contains(lg[0], run.raise))
			}
			run.ev = append(run.ev, e)
			tr.put(obj{"stack": append([]obj{}, run.stack...), "h": run.h, "ev": run.ev})
		}
		for _, ht := range []string{"resp", "err", "panic"} {
			for k := 0; k < scale(2, 3); k++ {
				run := mk(ht)
				logs = nil
				e := serve(run)
				finish(run, e, logs)
			}
		}
		// the same stack serving many requests at once: outcomes do not get mixed up
		if si%scale(8, 2) == 0 {
			var runs []*stackRun
			for k := 0; k < 6; k++ {
				runs = append(runs, mk(pick(r, []string{"resp", "err", "panic"})))
			}
			logs = nil
			es := make([]obj, len(runs))
			var wg sync.WaitGroup
			for k := range runs {
				wg.Add(1)
				go func() { defer wg.Done(); runtime.Gosched(); es[k] = serve(runs[k]) }()
			}
			wg.Wait()
			left := append([]string{}, logs...)
			// attribute at most one log entry to each request that needs one: a text
			// that is part of another comes after it
			mine := make([][]string, len(runs))
			order := make([]int, len(runs))
			for k := range order {
				order[k] = k
			}
			sort.SliceStable(order, func(a, b int) bool { return len(runs[order[a]].raise) > len(runs[order[b]].raise) })
			for _, k := range order {
				if es[k]["by"] != "router" || es[k]["t"] != "answered" {
					continue
				}
				for j, s := range left {
					if strings.Contains(s, runs[k].raise) {
						mine[k] = append(mine[k], s)
						left = append(left[:j], left[j+1:]...)
						break
					}
				}
			}
			for k, run := range runs {
				finish(run, es[k], mine[k])
			}
		}
	}
	tr.close()
}
