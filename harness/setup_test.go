package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	htmpl "html/template"
	"io"
	"log"
	"math/rand"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["setup"] = driveSetup }

type setupCase struct {
	Ctor, Tmpl, Pattern, Files string
	Res, Given, Log            int
}

type part struct {
	K string `json:"k"`
	S string `json:"s"`
}

type tdef struct {
	N     string `json:"n"`
	Parts []part `json:"parts"`
}

type tfile struct {
	Path string `json:"path"`
	Base string `json:"base"`
	Ok   int    `json:"ok"`
	Defs []tdef `json:"defs"`
}

func (f tfile) text() string {
	var b strings.Builder
	body := func(ps []part) {
		for _, p := range ps {
			switch p.K {
			case "lit":
				b.WriteString(p.S)
			case "data":
				b.WriteString("{{.}}")
			case "safe":
				b.WriteString("{{safe .}}")
			case "use":
				fmt.Fprintf(&b, "{{template %q .}}", p.S)
			case "field":
				b.WriteString("{{.Missing}}")
			}
		}
	}
	for i, d := range f.Defs {
		if i > 0 {
			fmt.Fprintf(&b, "{{define %q}}", d.N)
		}
		body(d.Parts)
		if i > 0 {
			b.WriteString("{{end}}")
		}
	}
	if f.Ok == 0 {
		b.WriteString("{{.Oops")
	}
	return b.String()
}

// someFiles draws template files; only later definitions are used by earlier ones, so that there are no cycles
func someFiles(r *rand.Rand, kind, dir string) []tfile {
	fs := []tfile{}
	if kind == "none" {
		return fs
	}
	names := []string{"list.html", "p1.tmpl", "p22.tmpl", "page.html", "page.tmpl", "page.html.tmpl", "zz.html", "PAGE.html", ".hidden.html", "é.html"}
	parts := func(level int) []part {
		ps := []part{{"lit", pick(r, []string{"<p>", "text ", "é", "A ", "<ul><li>"})}}
		for k := r.Intn(4); k > 0; k-- {
			switch x := r.Intn(14); {
			case x < 4:
				ps = append(ps, part{"lit", pick(r, []string{"</p>", " &amp; ", "<br>", "end", "1 > 0"})})
			case x < 8:
				ps = append(ps, part{"data", ""})
			case x < 10:
				ps = append(ps, part{"safe", ""})
			case x < 13 && level < 3:
				ps = append(ps, part{"use", pick(r, []string{"", "", "gone"})})
				if ps[len(ps)-1].S == "" {
					ps[len(ps)-1].S = fmt.Sprint("def", level+1)
				}
			case x == 13 && r.Intn(3) == 0:
				ps = append(ps, part{"field", ""})
			}
		}
		return ps
	}
	for _, n := range names {
		if r.Intn(3) == 0 {
			continue
		}
		f := tfile{Path: dir + "/" + n, Base: n, Ok: 1, Defs: []tdef{{n, parts(0)}}}
		for k := 1; k <= 3; k++ {
			if r.Intn(4) == 0 {
				f.Defs = append(f.Defs, tdef{fmt.Sprint("def", k), parts(k)})
			}
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		fs = append(fs, tfile{Path: dir + "/page.html", Base: "page.html", Ok: 1, Defs: []tdef{{"page.html", parts(0)}}})
	}
	if kind == "broken" {
		fs[r.Intn(len(fs))].Ok = 0
	}
	if r.Intn(2) == 0 { // elsewhere
		fs = append(fs, tfile{Path: "other/d.tmpl", Base: "d.tmpl", Ok: 1, Defs: []tdef{{"d.tmpl", []part{{"lit", "elsewhere"}}}}},
			tfile{Path: "top.html", Base: "top.html", Ok: 1, Defs: []tdef{{"top.html", []part{{"lit", "top"}}}}})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Path < fs[j].Path })
	return fs
}

type ownTemplate struct{ response.NilTemplate }

var errNoTemplate = errors.New("no such template of my own")

func (ownTemplate) ExecuteTemplate(w io.Writer, name string, data any) error {
	if name == "broken" {
		return errNoTemplate
	}
	_, err := fmt.Fprintf(w, "own|%s|%v", name, data)
	return err
}

// logBook notes what is logged, one entry per message
type logBook struct{ msgs []string }

func (l *logBook) Write(b []byte) (int, error) {
	l.msgs = append(l.msgs, string(b))
	return len(b), nil
}

type setupWorld struct {
	r        *rand.Rand
	h        []*gofre.MuxHandler
	prefixes []string
	std, own *logBook
	cfg      *gofre.Config
	log      int
	ev       arr
	n        int
}

// told counts what was logged about key, and what else was
func (w *setupWorld) told(key string) (int, int) {
	n, strays := 0, 0
	for i, b := range []*logBook{w.std, w.own} {
		for _, m := range b.msgs {
			if i == w.log && strings.Contains(m, key) {
				n++
			} else {
				strays++
			}
		}
		b.msgs = nil
	}
	return n, strays
}

func (w *setupWorld) shows(i int) {
	c := w.h[i-1].Config()
	sh := obj{"ctx": c.ContextPath, "ci": bit(c.CaseInsensitivePathMatch), "log": bit(c.ErrLogFunc != nil), "res": bit(c.ResourcesConfig != nil), "pattern": "", "assets": "", "mapping": ""}
	if rc := c.ResourcesConfig; rc != nil {
		sh["pattern"], sh["assets"], sh["mapping"] = rc.TemplatesPathPattern, rc.AssetsDirPath, rc.AssetsMappingPath
	}
	kind := "other"
	switch w.h[i-1].ExecutableTemplate().(type) {
	case nil:
		kind = "none"
	case ownTemplate:
		kind = "own"
	case response.NilTemplate:
		kind = "nil"
	case *htmpl.Template:
		kind = "files"
	}
	w.ev = append(w.ev, obj{"e": "shows", "i": i, "shown": sh, "tmpl": kind})
}

func (w *setupWorld) serve(i int, method, p, query string) *httptest.ResponseRecorder {
	req := &http.Request{Method: method, URL: &url.URL{Path: p, RawQuery: query}, Header: http.Header{}, Body: http.NoBody, Host: "h"}
	noise(req.Header)
	rec := httptest.NewRecorder()
	if pn, v := protect(func() { w.h[i-1].ServeHTTP(rec, req) }); pn {
		rec.Code = -1
		rec.Body.WriteString(fmt.Sprint("panic: ", v))
	}
	return rec
}

// path is where a route of mux i is found
func (w *setupWorld) path(i int, p string) string {
	pre := w.prefixes[i-1]
	if pre == "" {
		return p
	}
	return "/" + strings.Trim(pre, "/") + p
}

func (w *setupWorld) render(i int, name, data string) {
	m := w.h[i-1]
	w.n++
	p := fmt.Sprint("/page", w.n)
	want := pick(w.r, []int{200, 200, 404, 201})
	m.HandleGet(p, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		switch t := m.ExecutableTemplate(); want {
		case 200:
			return response.TemplateHttpResponseOK(t, name, data), nil
		case 404:
			return response.TemplateHttpResponseNotFound(t, name, data), nil
		default:
			return response.TemplateHttpResponseWithHeaders(t, want, name, data, response.HttpHeaders{"X-A": "b"}), nil
		}
	})
	rec := w.serve(i, "GET", w.path(i, p), "")
	n, strays := w.told(name)
	w.ev = append(w.ev, obj{"e": "render", "i": i, "n": name, "data": data, "want": want, "status": rec.Code, "ct": rec.Header().Get("Content-Type"), "body": rec.Body.String(), "logged": n, "strays": strays})
}

func (w *setupWorld) fail(i int) {
	w.n++
	p := fmt.Sprint("/fail", w.n)
	err := fmt.Errorf("failure number %d.", w.n)
	if w.r.Intn(3) == 0 { // an error without any text
		err = errors.New("")
	}
	w.h[i-1].HandlePost(p, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, err })
	rec := w.serve(i, "POST", w.path(i, p), "")
	n, strays := w.told(err.Error())
	w.ev = append(w.ev, obj{"e": "fail", "i": i, "status": rec.Code, "logged": n, "strays": strays})
}

var diagPaths = []string{"/debug/pprof/", "/debug/pprof/allocs", "/debug/pprof/block", "/debug/pprof/goroutine", "/debug/pprof/heap", "/debug/pprof/mutex",
	"/debug/pprof/threadcreate", "/debug/pprof/cmdline", "/debug/pprof/profile", "/debug/pprof/symbol", "/debug/pprof/trace", "/debug/vars"}

func diagnostic(rec *httptest.ResponseRecorder) string {
	if rec.Code == 404 {
		return ""
	}
	if _, ps, err := mime.ParseMediaType(rec.Header().Get("Content-Disposition")); err == nil && ps["filename"] != "" && rec.Body.Len() > 10 {
		return ps["filename"]
	}
	b := rec.Body.String()
	var vars struct {
		Cmdline  []string
		Memstats map[string]any
	}
	switch {
	case strings.Contains(b, "Types of profiles available"):
		return "index"
	case strings.HasPrefix(b, "num_symbols: "):
		return "symbol"
	case b == strings.Join(os.Args, "\x00"):
		return "cmdline"
	case json.Unmarshal([]byte(b), &vars) == nil && len(vars.Cmdline) > 0 && len(vars.Memstats) > 0:
		return "vars"
	}
	return "other"
}

func (w *setupWorld) diag(i, k int, method string) {
	q := ""
	switch k {
	case 9:
		q = "seconds=1"
	case 11:
		q = "seconds=0.01"
	}
	rec := w.serve(i, method, w.path(i, diagPaths[k-1]), q)
	w.ev = append(w.ev, obj{"e": "diag", "i": i, "k": k, "method": method, "got": diagnostic(rec), "status": rec.Code})
	w.told("")
}

func driveSetup(t *testing.T) {
	var cases []setupCase
	readJSON("setups.json", &cases)
	r := newRand(120)
	// the constructor that ends the process when it fails comes last
	sort.SliceStable(cases, func(i, j int) bool { return cases[i].Ctor != "templates" && cases[j].Ctor == "templates" })
	tr := newTrace("setup")
	defer tr.close()
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	defer log.SetOutput(os.Stderr)
	defer log.SetFlags(log.Flags())
	for k := 0; k < scale(2, 12); k++ {
		for i, cs := range cases {
			setupSession(r, tr, cs, i%40 == k)
		}
	}
}

func setupSession(r *rand.Rand, tr *trace, cs setupCase, slow bool) {
	base, err := os.MkdirTemp("", "setup")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	if err := os.Chdir(base); err != nil {
		panic(err)
	}
	dir := "views"
	if cs.Pattern == "" {
		dir = "resources/templates"
	}
	fs := someFiles(r, cs.Files, dir)
	for _, f := range fs {
		os.MkdirAll(filepath.Dir(f.Path), 0o755)
		if err := os.WriteFile(f.Path, []byte(f.text()), 0o644); err != nil {
			panic(err)
		}
	}
	w := &setupWorld{r: r, std: &logBook{}, own: &logBook{}, log: cs.Log}
	log.SetOutput(w.std)
	log.SetFlags(0)
	conf := &gofre.Config{}
	spec := obj{"ctx": "", "ci": 0, "log": cs.Log, "res": cs.Res, "tmpl": cs.Tmpl, "pattern": cs.Pattern, "assets": "", "mapping": ""}
	if cs.Log == 1 {
		conf.ErrLogFunc = func(err error) { fmt.Fprint(w.own, err) }
	}
	if cs.Ctor == "config" && r.Intn(3) == 0 {
		conf.CaseInsensitivePathMatch = true
		spec["ci"] = 1
	}
	if cs.Res == 1 {
		conf.ResourcesConfig = &gofre.ResourcesConfig{TemplatesPathPattern: cs.Pattern}
		switch cs.Tmpl {
		case "own":
			conf.ResourcesConfig.Template = ownTemplate{}
		case "nil":
			conf.ResourcesConfig.Template = response.NilTemplate{}
		}
	}
	if cs.Given == 1 {
		conf.ContextPath = pick(r, []string{"/", "/app", "/a/b/"})
		spec["ctx"] = conf.ContextPath
		if rc := conf.ResourcesConfig; rc != nil {
			rc.AssetsDirPath, rc.AssetsMappingPath = pick(r, []string{"public", "./www/", base, ".", "/"}), pick(r, []string{"static", "/files/"})
			spec["assets"], spec["mapping"] = rc.AssetsDirPath, rc.AssetsMappingPath
		}
	}
	w.cfg = conf
	var m *gofre.MuxHandler
	if pn, _ := protect(func() {
		switch cs.Ctor {
		case "plain":
			m, err = gofre.NewMuxHandlerWithDefaultConfig()
		case "templates":
			m, err = gofre.NewMuxHandlerWithDefaultConfigAndTemplateSupport()
		default:
			m, err = gofre.NewMuxHandler(conf)
		}
	}); pn {
		err = errors.New("panic")
	}
	w.ev = append(w.ev, obj{"e": "new", "ok": bit(err == nil && m != nil)})
	defer func() { tr.put(obj{"c": spec, "fs": fs, "ev": w.ev}) }()
	if err != nil || m == nil {
		return
	}
	w.h, w.prefixes = []*gofre.MuxHandler{m}, []string{""}
	for k := 1 + r.Intn(4); k > 0; k-- {
		i := 1 + r.Intn(len(w.h))
		if r.Intn(3) == 0 {
			w.h, w.prefixes = append(w.h, w.h[i-1].Clone()), append(w.prefixes, w.prefixes[i-1])
			w.ev = append(w.ev, obj{"e": "clone", "i": i})
			continue
		}
		p := pick(r, []string{"/app", "/x", "/a/b", "/tt"})
		w.h, w.prefixes = append(w.h, w.h[i-1].RouteUsingPathPrefix(p)), append(w.prefixes, w.prefixes[i-1]+p)
		w.ev = append(w.ev, obj{"e": "prefix", "i": i, "p": p})
	}
	enabled := map[string]bool{}
	for k := 12; k > 0; k-- {
		i := 1 + r.Intn(len(w.h))
		switch x := r.Intn(10); {
		case x == 0:
			w.shows(i)
		case x == 1 && !enabled[w.prefixes[i-1]]:
			enabled[w.prefixes[i-1]] = true
			w.h[i-1].EnableDebugEndpoints()
			w.ev = append(w.ev, obj{"e": "debug", "i": i})
		case x < 5:
			if len(enabled) > 0 && r.Intn(4) > 0 {
				for !enabled[w.prefixes[i-1]] {
					i = 1 + r.Intn(len(w.h))
				}
			}
			if d := 1 + r.Intn(len(diagPaths)); d != 9 {
				w.diag(i, d, pick(r, []string{"GET", "GET", "GET", "GET", "POST", "HEAD", "DELETE"}))
			}
		case x == 5:
			w.fail(i)
		case cs.Res == 1:
			name := pick(r, []string{"page.html", "nope.html", "broken", "d.tmpl"})
			if len(fs) > 0 && r.Intn(5) > 0 {
				name = pick(r, fs).Base // html/template can not use a template any more that failed on its own
			}
			w.render(i, name, pick(r, []string{"plain", "", "<b>\"x\" & 'y' + z</b>", "&lt;", "é {{.}}", "</script><script>", strings.Repeat("<i>", 50)}))
		}
	}
	w.shows(len(w.h))
	w.shows(1)
	if slow {
		if !enabled[w.prefixes[len(w.h)-1]] {
			w.h[len(w.h)-1].EnableDebugEndpoints()
			w.ev = append(w.ev, obj{"e": "debug", "i": len(w.h)})
		}
		for k := range diagPaths {
			w.diag(len(w.h), k+1, "GET")
		}
	}
}
