package harness

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
)

func init() { modes["compress"] = driveCompress }

type decoded struct {
	received
	Enc  string `json:"enc"`
	Dec  int    `json:"dec"`
	Dead int    `json:"dead"`
	Size int    `json:"size"`
}

// decode undoes the declared encoding
func decode(g received, own bool, method string, isJ bool) decoded {
	o := decoded{received: g, Enc: g.enc, Size: len(g.raw)}
	if own || g.Res != "ok" || method == "HEAD" || len(g.raw) == 0 {
		return o
	}
	var b []byte
	err := error(nil)
	in := bytes.NewReader(g.raw)
	switch g.enc {
	case "gzip":
		var z *gzip.Reader
		if z, err = gzip.NewReader(in); err == nil {
			z.Multistream(false)
			b, err = io.ReadAll(z)
		}
	case "deflate":
		b, err = io.ReadAll(flate.NewReader(in))
		if err != nil || in.Len() > 0 {
			in = bytes.NewReader(g.raw)
			var z io.Reader
			if z, err = zlib.NewReader(in); err == nil {
				b, err = io.ReadAll(z)
			}
		}
	default:
		return o
	}
	if err != nil || in.Len() > 0 {
		o.Dead = 1
		return o
	}
	o.Dec, o.Size = 1, len(b)
	if isJ && len(b) > 0 {
		b = canonicalJSON(b)
	}
	o.Body = token(b)
	return o
}

var acceptTokens = []string{"gzip", "deflate", "br", "compress", "identity", "*", "x-gzip", "gzipx", "GZIP", "Deflate", "gzip;q=0", "gzip;q=0.5", "deflate; q=0.0", "deflate;q=1", "", " gzip", "gzip\t", "notgzip", "zstd", "gzip;q=0.000"}

func someAccept(r *rand.Rand) []string {
	switch r.Intn(8) {
	case 0:
		return []string{}
	case 1, 2:
		return []string{pick(r, []string{"gzip", "deflate"})}
	}
	line := func() string {
		var ts []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			ts = append(ts, pick(r, acceptTokens))
		}
		return strings.TrimSpace(strings.Join(ts, pick(r, []string{",", ", ", " , "})))
	}
	ls := []string{line()}
	if r.Intn(6) == 0 {
		ls = append(ls, line())
	}
	return ls
}

type writerOp struct {
	O string `json:"o"`
	N int    `json:"n"`
}

// a writer without its other abilities, so that io.Copy uses them only when they are there
func performOps(w http.ResponseWriter, ops []writerOp) {
	total, pos := 0, 0
	committed, bodiless := false, false
	for _, o := range ops {
		switch o.O {
		case "w", "ws", "rf":
			total += o.N
		}
	}
	bytesOf := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + (pos+i*i/7)%26)
		}
		pos += n
		return b
	}
	for _, o := range ops {
		switch o.O {
		case "wh":
			w.WriteHeader(o.N)
			if o.N >= 200 && !committed {
				committed, bodiless = true, o.N == 204 || o.N == 304
			}
		case "w":
			w.Write(bytesOf(o.N))
			committed = true
		case "ws":
			io.WriteString(w, string(bytesOf(o.N)))
			committed = true
		case "rf":
			io.Copy(w, bytes.NewReader(bytesOf(o.N)))
			committed = true
		case "fl":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			committed = true
		case "ce":
			w.Header().Set("Content-Encoding", "br")
		case "cr":
			w.Header().Set("Content-Range", "bytes 0-1/2")
		case "ct":
			w.Header().Set("Content-Type", "text/x-own")
		case "cl":
			if total > 0 {
				w.Header().Set("Content-Length", strconv.Itoa(total))
			}
		}
	}
	_ = bodiless
}

// lengthOK tells whether a declared length is one the standard library accepts
func lengthOK(ops []writerOp) bool {
	cl, committed := false, false
	for _, o := range ops {
		switch o.O {
		case "cl":
			cl = cl || !committed
		case "wh":
			if cl && !committed && (o.N == 204 || o.N == 304 || o.N < 200) {
				return false
			}
			committed = committed || o.N >= 200
		case "w", "ws", "rf", "fl":
			committed = true
		}
	}
	return true
}

func driveCompress(t *testing.T) {
	r := newRand(95)
	levels := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -2, -3, 10, 11, 100, -100}
	ms := [][]middleware.Middleware{nil}
	for _, l := range levels {
		ms = append(ms, []middleware.Middleware{middleware.CompressResponse(l)})
	}
	ms = append(ms, []middleware.Middleware{middleware.CompressResponse(9), middleware.CompressResponse(1)}) // twice
	levels = append(levels, 9)
	s := newSite(ms...)
	defer s.close()
	if raceBuild {
		compressRace(s)
		return
	}
	coded := [][]kv{nil, nil, nil, nil, {{"Content-Encoding", "br"}}, {{"content-encoding", "gzip"}}, {{"Content-Range", "bytes 0-9/100"}}, {{"CONTENT-encoding", "x-own"}}}
	tr := newTrace("levels")
	for i, lv := range levels {
		m := i + 1
		for k := 0; k < scale(10, 80); k++ {
			ev := arr{}
			for j := 0; j < 10; j++ {
				kind, own := pick(r, zooKinds), pick(r, coded)
				status := pick(r, []int{0, 200, 200, 200, 404, 500, 302, 304, 204, 206, 42, 1000})
				if kind == "sse" {
					status = 200
				}
				if kind == "adaptor" && (status == 42 || status == 1000) {
					status = 201
				}
				d := describe1(r, kind, status, own, r.Intn(3) == 0)
				method := pick(r, []string{"GET", "GET", "GET", "GET", "POST", "HEAD"})
				ae := someAccept(r)
				ev = append(ev, s.coded(m, d, method, d.proto(r), ae, len(own) > 0 && own[0].V != ""))
			}
			tr.put(obj{"level": lv, "ev": ev})
		}
		ev := arr{}
		for k := 0; k < 3; k++ {
			ev = append(ev, secError(ms[m][0], r))
		}
		tr.put(obj{"level": lv, "ev": ev})
	}
	tr.close()

	var all [][]writerOp
	readJSON("ops.json", &all)
	c := newTrace("ops")
	ev := arr{}
	level := 0
	flush := func() {
		if len(ev) > 0 {
			c.put(obj{"level": levels[level], "ev": ev})
		}
		ev, level = arr{}, r.Intn(11)
	}
	var n int
	for _, ops := range all {
		if !lengthOK(ops) {
			continue
		}
		if n++; n%50 == 0 {
			flush()
		}
		if n%20000 == 0 {
			c.close()
			c = newTrace(fmt.Sprint("ops", n/20000))
		}
		ev = append(ev, s.coded(level+1, opsResponse(ops), pick(r, []string{"GET", "GET", "GET", "GET", "HEAD"}), 1+r.Intn(2), pick(r, [][]string{{"gzip"}, {"deflate"}, {"br, gzip"}, {"br"}}), hasCoding(ops)))
	}
	flush()
	c.close()
}

func hasCoding(ops []writerOp) bool {
	for _, o := range ops {
		switch o.O {
		case "ce":
			return true
		case "w", "ws", "rf", "fl":
			return false
		case "wh":
			if o.N >= 200 {
				return false
			}
		}
	}
	return false
}

func opsResponse(ops []writerOp) *described {
	d := &described{Kind: "ops", H: []kv{}, C: []cookieJ{}, Mh: []kv{}, Mc: []cookieJ{}, ops: ops}
	d.build = func() response.HttpResponse {
		return response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) { performOps(w, ops) })
	}
	return d
}

// coded requests the response with and without compression
func (s *site) coded(m int, d *described, method string, p int, ae []string, own bool) obj {
	id := s.put(d)
	hdr := http.Header{}
	if len(ae) > 0 {
		hdr["Accept-Encoding"] = ae
	}
	before, panics := s.logged.Load(), s.panics.Load()
	g := decode(s.fetch(m, id, method, p, hdr, isJSON(d)), own, method, isJSON(d))
	e := obj{"method": method, "ae": ae, "g": g, "logged": s.logged.Load() - before, "panics": s.panics.Load() - panics}
	plain := decoded{received: received{H: []kv{}, C: []string{}, Res: "none"}}
	if d.Kind == "redirect" || d.ops != nil {
		plain = decode(s.fetch(0, id, method, p, hdr, isJSON(d)), true, method, isJSON(d))
	}
	e["plain"] = plain
	if d.ops != nil {
		e["e"], e["ops"] = "ops", d.ops
	} else {
		e["e"], e["d"] = "one", d
	}
	return e
}

func compressRace(s *site) {
	s.nowait = true
	tr := newTrace("together")
	defer tr.close()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := newRand(int64(9500 + i))
			for k := 0; k < scale(10, 100); k++ {
				m := 1 + r.Intn(11)
				ev := arr{}
				for j := 0; j < 4; j++ {
					kind := pick(r, []string{"text", "json", "raw", "stream", "adaptor", "htmltemplate", "plain", "sse"})
					d := describe1(r, kind, 200, nil, r.Intn(3) == 0)
					e := s.coded(m, d, "GET", d.proto(r), someAccept(r), false)
					e["panics"], e["logged"] = 0, 0
					ev = append(ev, e)
				}
				mu.Lock()
				tr.put(obj{"level": m - 2, "ev": ev})
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
}
