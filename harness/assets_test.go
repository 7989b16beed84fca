package harness

import (
	"bufio"
	"fmt"
	"html/template"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ixtendio/gofre"
)

func init() { modes["assets"] = driveAssets }

var assetFiles = []string{"a.txt", "sub/b.txt", "sub/index.html", "sub/deep/c.txt", "sp ace.txt", "UP.txt", ".hidden", "per%2e.txt", "é.txt", "...", "plus+.txt", "semi;x.txt", "q?.txt", "assets/a.txt", "secret.d/x.txt", "index.html", "noindex/d.txt", "star*.txt", "{x}.txt", "big.bin"}

// outside the assets directory, but close to it
var outsideFiles = []string{"secret.txt", "assets-secret/s.txt", "assetssecret.txt", "templates/t.html", "other/assets/a.txt"}

type assetSite struct {
	base    string
	files   []string
	dirs    []string
	content map[string]string
}

func newAssetSite(index bool) *assetSite {
	base, err := os.MkdirTemp("", "site")
	if err != nil {
		panic(err)
	}
	s := &assetSite{base: base, content: map[string]string{}, dirs: []string{""}}
	write := func(name, text string) {
		p := filepath.Join(base, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	seen := map[string]bool{"": true}
	for _, f := range assetFiles {
		if f == "index.html" && !index {
			continue
		}
		text := "FILE<" + f + ">"
		if f == "big.bin" {
			text = strings.Repeat("FILE<big>\x00\xff\r\n", 30000)
		}
		s.content[text] = f
		s.files = append(s.files, f)
		write("assets/"+f, text)
		for d := filepath.Dir(f); d != "." && !seen[d]; d = filepath.Dir(d) {
			seen[d] = true
			s.dirs = append(s.dirs, d)
		}
	}
	os.MkdirAll(filepath.Join(base, "assets", "empty"), 0o755)
	s.dirs = append(s.dirs, "empty")
	for _, f := range outsideFiles {
		write(f, "OUTSIDE<"+f+">")
	}
	sort.Strings(s.files)
	return s
}

// change writes, removes and adds files
func (s *assetSite) change(root string) {
	os.WriteFile(filepath.Join(root, "a.txt"), []byte("FILE, another<a.txt>"), 0o644)
	os.Remove(filepath.Join(root, "sub", "b.txt"))
	os.Mkdir(filepath.Join(root, "new"), 0o755)
	os.WriteFile(filepath.Join(root, "new", "n.txt"), []byte("FILE<new>"), 0o644)
	delete(s.content, "FILE<a.txt>")
	delete(s.content, "FILE<sub/b.txt>")
	s.content["FILE, another<a.txt>"], s.content["FILE<new>"] = "a.txt", "new/n.txt"
	files := []string{"new/n.txt"}
	for _, f := range s.files {
		if f != "sub/b.txt" {
			files = append(files, f)
		}
	}
	sort.Strings(files)
	s.files, s.dirs = files, append(append([]string{}, s.dirs...), "new")
}

func (s *assetSite) class(status int, b []byte) (string, string) {
	t := string(b)
	if f, ok := s.content[t]; ok {
		return "file", f
	}
	switch {
	case strings.Contains(t, "OUTSIDE<"), strings.Contains(t, "assets-secret"), strings.Contains(t, "assetssecret"), strings.Contains(t, "root:"):
		return "secret", ""
	case len(t) == 0:
		return "none", ""
	case status == 200 && strings.Contains(t, "<pre>\n"):
		return "listing", ""
	}
	return "other", ""
}

// askRaw sends the path as it is
func askRaw(c *rawConn, method, raw string) (status int, loc string, b []byte) {
	status, h, b := askRawWith(c, method, raw, nil)
	return status, h.Get("Location"), b
}

func askRawWith(c *rawConn, method, raw string, more http.Header) (status int, got http.Header, b []byte) {
	for try := 0; ; try++ {
		if c.conn == nil {
			conn, err := net.Dial("tcp", c.addr)
			if err != nil {
				panic(err)
			}
			c.conn, c.in = conn, bufio.NewReader(conn)
		}
		fmt.Fprintf(c.conn, "%s %s HTTP/1.1\r\nHost: site.example\r\n", method, raw)
		hdr := http.Header{}
		noise(hdr)
		for k, v := range more {
			hdr[k] = v
		}
		hdr.Write(c.conn)
		io.WriteString(c.conn, "\r\n")
		resp, err := http.ReadResponse(c.in, &http.Request{Method: method})
		if err == nil {
			b, err = io.ReadAll(resp.Body)
			if err == nil {
				if resp.Close {
					c.close()
				}
				return resp.StatusCode, resp.Header, b
			}
		}
		c.close()
		if try > 3 {
			return 0, http.Header{}, nil
		}
	}
}

type rawConn struct {
	addr string
	conn net.Conn
	in   *bufio.Reader
}

func (c *rawConn) close() {
	if c.conn != nil {
		c.conn.Close()
		c.conn = nil
	}
}

type assetConfig struct {
	Context, Mapping, Dir string
	Ci                    bool
	Index                 bool
}

func driveAssets(t *testing.T) {
	var paths [][]string
	readJSON("paths.json", &paths)
	r := newRand(101)
	var cfgs []assetConfig
	for _, c := range []string{"", "/", "/app", "/app/", "/a/b"} {
		for _, m := range []string{"", "assets", "/static/", "a/assets", "/docs"} {
			cfgs = append(cfgs, assetConfig{c, m, []string{"abs", "abs/", "rel", "dots", "default", "missing"}[len(cfgs)%6], r.Intn(2) == 0, r.Intn(2) == 0})
		}
	}
	r.Shuffle(len(cfgs), func(i, j int) { cfgs[i], cfgs[j] = cfgs[j], cfgs[i] })
	odd := []assetConfig{{Context: "/app//", Mapping: "assets"}, {Context: "", Mapping: ".well-known"}, {Context: "/v1.0", Mapping: "st.at.ic."}, {Context: "/app", Mapping: "//static//"}, {Context: "///", Mapping: "/a+b;c=d~"}, {Context: "/A.b", Mapping: "-/..x"}}
	r.Shuffle(len(odd), func(i, j int) { odd[i], odd[j] = odd[j], odd[i] })
	for i := range odd {
		odd[i].Dir, odd[i].Ci, odd[i].Index = pick(r, []string{"abs", "rel", "dot", "dots"}), i%2 == 0 && strings.ToLower(odd[i].Context+odd[i].Mapping) == odd[i].Context+odd[i].Mapping, r.Intn(2) == 0
	}
	cfgs = append(odd[:4:4], cfgs...)
	tr := newTrace("assets0")
	var mu sync.Mutex
	n := 0
	cwd, _ := os.Getwd()
	for k := range cfgs[:scale(12, len(cfgs))] {
		cfg := cfgs[k]
		s := newAssetSite(cfg.Index)
		if err := os.Chdir(s.base); err != nil {
			panic(err)
		}
		dir := filepath.Join(s.base, "assets")
		switch cfg.Dir {
		case "abs/":
			dir += "/"
		case "rel":
			dir = "./assets"
		case "dots":
			dir = s.base + "/templates/../assets"
		case "dot": // the working directory
			dir = "."
			os.Chdir("assets")
		case "default":
			dir = ""
			os.MkdirAll("resources", 0o755)
			os.Rename("assets", "resources/assets")
			for _, f := range outsideFiles {
				os.MkdirAll(filepath.Dir("resources/"+f), 0o755)
				os.WriteFile("resources/"+f, []byte("OUTSIDE<"+f+">"), 0o644)
			}
		}
		root := filepath.Join(s.base, "assets")
		switch cfg.Dir {
		case "default":
			root = filepath.Join(s.base, "resources", "assets")
		case "missing": // there is no such directory, only what surrounds it
			os.Rename(root, filepath.Join(s.base, "gone"))
			s.files, s.dirs, s.content = []string{}, []string{}, map[string]string{}
		}
		var mux http.Handler = http.NotFoundHandler()
		protect(func() {
			m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: cfg.Ci, ContextPath: cfg.Context, ErrLogFunc: func(error) {},
				ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: dir, AssetsMappingPath: cfg.Mapping, Template: template.New("x")}})
			if err == nil {
				mux = m
			}
		})
		h := httptest.NewServer(mux)
		mapping := strings.Trim(cfg.Mapping, "/")
		if mapping == "" {
			mapping = "assets"
		}
		prefix := strings.TrimRight(cfg.Context, "/") + "/" + mapping
		mount := strings.Split(prefix[1:], "/")
		var raws []string
		for _, f := range s.files {
			raws = append(raws, (&url.URL{Path: prefix + "/" + f}).EscapedPath())
		}
		for _, f := range append(append([]string{}, assetFiles...), "nothing.txt", "sub/nothing", "a.txt/x", "sub/b.txt/", "A.TXT", "a.txt%00", "sub%2fb.txt", "%61.txt", "sub//b.txt", "sub/../a.txt", "up.txt", "empty", "empty/", "", "noindex", "noindex/", "sub", "sub/", "index.html/", "sub/index.html/") {
			raws = append(raws, prefix+"/"+f, strings.ToUpper(prefix)+"/"+f, "/"+prefix+"/"+f, prefix+"x/"+f, prefix+"-secret/"+f, prefix+"%2f"+f)
		}
		// every enumerated path is asked below the mapping path, some before it
		for i, p := range paths {
			if len(p) > 2 && (i+k)%scale(3, 1) != 0 {
				continue
			}
			j := strings.Join(p, "/")
			raws = append(raws, prefix+"/"+j)
			if r.Intn(4) == 0 {
				raws = append(raws, pick(r, []string{"/" + j, prefix + "/../" + j, "/." + prefix + "/" + j, "/x/.." + prefix + "/" + j, prefix + "//" + j, prefix + "/sub/" + j, prefix + "/" + j + "/"}))
			}
		}
		for i := 0; i < scale(300, 5000); i++ {
			raws = append(raws, someAssetPath(r, prefix))
		}
		phase := func(raws []string) {
			results := make([]obj, len(raws))
			site := obj{"mount": mount, "files": s.files, "dirs": s.dirs, "config": cfg}
			var seeds []int64
			for g := 0; g < 8; g++ {
				seeds = append(seeds, r.Int63())
			}
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					c := &rawConn{addr: h.Listener.Addr().String()}
					defer c.close()
					own := rand.New(rand.NewSource(seeds[g]))
					for i := g; i < len(raws); i += 8 {
						results[i] = s.request(c, raws[i])
						if results[i] != nil && results[i]["cls"] == "file" && own.Intn(3) == 0 {
							results[i]["more"] = s.more(c, raws[i], own)
						}
					}
				}(g)
			}
			wg.Wait()
			ev := arr{}
			put := func() {
				if len(ev) > 0 {
					mu.Lock()
					tr.put(obj{"site": site, "ev": ev})
					mu.Unlock()
				}
				ev = arr{}
			}
			for i, o := range results {
				if o == nil {
					continue
				}
				ev = append(ev, o)
				if i%100 == 99 {
					put()
				}
			}
			put()
		}
		phase(raws)
		// the tree changes while it is served
		if cfg.Dir != "missing" {
			s.change(root)
			some := []string{prefix + "/new/n.txt", prefix + "/new/", prefix + "/new", prefix + "/a.txt", prefix + "/sub/b.txt", prefix + "/sub/"}
			for i := 0; i < scale(150, 1500); i++ {
				some = append(some, pick(r, raws))
			}
			phase(some)
			if cfg.Dir != "dot" { // the working directory keeps being that directory when it is renamed
				os.Rename(root, filepath.Join(s.base, "gone"))
				s.files, s.dirs, s.content = []string{}, []string{}, map[string]string{}
				phase(some)
			}
		}
		h.Close()
		os.Chdir(cwd)
		os.RemoveAll(s.base)
		if n++; n%4 == 0 && n < scale(12, len(cfgs)) {
			tr.close()
			tr = newTrace(fmt.Sprint("assets", n/4))
		}
	}
	tr.close()
}

func someAssetPath(r *rand.Rand, prefix string) string {
	var b strings.Builder
	b.WriteString(pick(r, []string{prefix, prefix, prefix, prefix, "", "/" + prefix, prefix + "/.", strings.ToUpper(prefix)}))
	for k := 1 + r.Intn(8); k > 0; k-- {
		b.WriteString(pick(r, []string{"/", "/", "/", "/", "//", "%2f", "%5c", "/./", "\\"}))
		b.WriteString(pick(r, []string{"..", "..", "%2e%2e", ".%2e", ".", "a.txt", "sub", "b.txt", "secret.txt", "assets", "assets-secret", "s.txt", "index.html", "", "%00", "...", "..a", "%252e%252e", "etc", "passwd", "templates", "resources", "other"}))
	}
	p := b.String()
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return p
}

func (s *assetSite) request(c *rawConn, raw string) obj {
	u, err := url.ParseRequestURI(raw)
	if err != nil || strings.ContainsAny(raw, " ?#") || u.Host != "" {
		return nil
	}
	status, loc, b := askRaw(c, "GET", raw)
	cls, of := s.class(status, b)
	o := obj{"q": obj{"raw": raw, "path": u.Path, "enc": (&url.URL{Path: u.Path}).EscapedPath()}, "status": status, "cls": cls, "of": of}
	at := u
	for i := 0; i < 4 && status >= 300 && status < 400 && loc != ""; i++ {
		l, err := url.Parse(loc)
		if err != nil {
			break
		}
		at = at.ResolveReference(l)
		status, loc, b = askRaw(c, "GET", at.EscapedPath())
		cls, of = s.class(status, b)
	}
	o["fin"], o["fof"], o["fstatus"], o["more"] = cls, of, status, arr{}
	return o
}

// more asks for parts of a file, for what has changed, and with other methods
func (s *assetSite) more(c *rawConn, raw string, r *rand.Rand) arr {
	status, h, b := askRawWith(c, "GET", raw, nil)
	if status != 200 || len(b) > 200 || len(textOf(string(b))) != len(b) {
		return arr{}
	}
	whole, n := string(b), len(b)
	for _, x := range whole {
		if x > 126 {
			return arr{}
		}
	}
	out := arr{}
	ask := func(kind, method, raw string, hdr http.Header, rest obj) {
		st, g, b := askRawWith(c, method, raw, hdr)
		rest["kind"], rest["status"], rest["text"], rest["cr"], rest["ct"], rest["whole"] = kind, st, textOf(string(b)), g.Get("Content-Range"), g.Get("Content-Type"), whole
		rest["cl"] = g.Get("Content-Length")
		out = append(out, rest)
	}
	first, last := r.Intn(n+3), r.Intn(n+5)
	ask("part", "GET", raw, http.Header{"Range": {fmt.Sprintf("bytes=%d-%d", first, last)}}, obj{"first": first, "last": last})
	ask("part", "GET", raw, http.Header{"Range": {fmt.Sprintf("bytes=%d-", first)}}, obj{"first": first, "last": -1})
	ask("part", "GET", raw, http.Header{"Range": {fmt.Sprintf("bytes=-%d", last+1)}}, obj{"first": -1, "last": last + 1})
	lm := h.Get("Last-Modified")
	at, err := http.ParseTime(lm)
	if err != nil {
		at = time.Now()
	}
	d := pick(r, []int{-86400, -1, 0, 1, 86400})
	then := at.Add(time.Duration(d) * time.Second).UTC().Format(http.TimeFormat)
	ask("since", "GET", raw, http.Header{"If-Modified-Since": {then}}, obj{"d": d, "lm": bit(err == nil)})
	ask("query", "GET", raw+"?"+pick(r, []string{"v=1", "", "a/../b", "x=%2e%2e", ";"}), nil, obj{})
	ask("other", pick(r, []string{"HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"}), raw, nil, obj{})
	name := raw[strings.LastIndex(raw, "/")+1:]
	ask("type", "GET", raw, nil, obj{"ext": name[strings.LastIndex(name, ".")+1:]})
	return out
}
