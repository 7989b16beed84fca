package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ixtendio/gofre/cache"
)

func init() { modes["cache"] = driveCache }

type cacheStep struct {
	O, K string
	D    int
}

// behaviours reads the behaviours TLC generated, one JSON value per line
func behaviours[T any](name string) (r [][]T) {
	f, err := os.Open(inDir + "/" + name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<26)
	for s.Scan() {
		var b []T
		if err := json.Unmarshal(s.Bytes(), &b); err != nil {
			panic(fmt.Errorf("%s: %w: %s", name, err, s.Text()))
		}
		r = append(r, b)
	}
	return r
}

func callEv(t int, o, k string, d int) obj { return obj{"e": "call", "t": t, "o": o, "k": k, "d": d} }
func retEv(t, r int) obj                   { return obj{"e": "ret", "t": t, "r": r} }
func tickEv(d int) obj                     { return obj{"e": "tick", "d": d} }

// cacheOp executes one operation; lives are counted in units
// cacheForever stands for the longest life there is: no tick of a session comes near its end
const cacheForever = 2000000000

func cacheOp(c cache.Cache, o, k string, d int, unit time.Duration) int {
	r := 0
	if p, _ := protect(func() {
		switch o {
		case "add":
			in := time.Duration(d) * unit
			if d == cacheForever {
				in = math.MaxInt64
			}
			if c.Add(k, in) != nil {
				r = 3
			}
		case "remove":
			c.Remove(k)
		case "contains":
			r = bit(c.Contains(k))
		}
	}); p {
		r = 2
	}
	return r
}

func driveCache(t *testing.T) {
	if raceBuild {
		cacheConcurrent(newRand(9), newTrace("race"), scale(3000, 20000))
		return
	}
	synctest.Test(t, func(t *testing.T) {
		tr := newTrace("replayed")
		for i, b := range behaviours[cacheStep]("cache.json") {
			cacheReplay(tr, b, []time.Duration{time.Nanosecond, time.Second, time.Hour, time.Millisecond}[i%4], []string{"a", "b"}, true)
			cacheReplay(tr, b, time.Second, []string{"a", "b"}, false)
		}
		tr.close()
	})
	tr, r := newTrace("random"), newRand(10)
	for i := 0; i < scale(600, 6000); i++ {
		synctest.Test(t, func(t *testing.T) { cacheRandom(tr, r) }) // every session has its own clock: together they last too long for one
	}
	tr.close()
	synctest.Test(t, func(t *testing.T) {
		tr := newTrace("crowded")
		cacheFull(tr, scale(5000, 12000))
		for i := 0; i < scale(6, 40); i++ {
			cacheCrowded(tr, r, pick(r, []int{70, 300, 1100, scale(4200, 9000)}))
		}
		tr.close()
	})
	cacheConcurrent(newRand(11), newTrace("concurrent"), scale(150000, 1000000))
}

func cacheReplay(tr *trace, b []cacheStep, unit time.Duration, keys []string, probe bool) {
	c := cache.NewInMemory()
	var ev arr
	look := func() {
		for _, k := range keys {
			ev = append(ev, callEv(1, "contains", k, 0), retEv(1, cacheOp(c, "contains", k, 0, unit)))
		}
	}
	for _, s := range b {
		if s.O == "tick" {
			time.Sleep(time.Duration(s.D) * unit)
			ev = append(ev, tickEv(s.D))
		} else {
			ev = append(ev, callEv(1, s.O, s.K, s.D), retEv(1, cacheOp(c, s.O, s.K, s.D, unit)))
		}
		if probe {
			look()
		}
	}
	look()
	tr.put(obj{"ev": ev})
}

// long sessions, many keys, odd keys, lives that end around the probed moments
func cacheRandom(tr *trace, r *rand.Rand) {
	c := cache.NewInMemory()
	unit := pick(r, []time.Duration{1, 7, time.Microsecond, time.Millisecond, time.Second, time.Minute, 12 * time.Hour})
	var keys []string
	for i := 2 + r.Intn(pick(r, []int{3, 3, 6, 40})); i > 0; i-- {
		keys = append(keys, pick(r, []string{"k", "K", "", "é", "a/b", " k", "k ", "\x00"})+strings.Repeat("z", r.Intn(3))+fmt.Sprint(i))
	}
	keys = append(keys, "", "k")
	for _, k := range keys { // relatives of the keys in use are other keys
		if r.Intn(3) == 0 {
			keys = append(keys, decorated(r, k))
		}
	}
	var ev arr
	var ends []int
	now := 0
	for n := 20 + r.Intn(80); n > 0; n-- {
		k := pick(r, keys)
		switch r.Intn(10) {
		case 0, 1, 2:
			d := pick(r, []int{-3, -1, 0, 1, 1, 2, 3, 5, 10, 50, 1000, cacheForever})
			if d != cacheForever {
				ends = append(ends, now+d)
			}
			ev = append(ev, callEv(1, "add", k, d), retEv(1, cacheOp(c, "add", k, d, unit)))
		case 3:
			ev = append(ev, callEv(1, "remove", k, 0), retEv(1, cacheOp(c, "remove", k, 0, unit)))
		case 4, 5:
			d := 1 + r.Intn(4)
			if len(ends) > 0 {
				if e := pick(r, ends) + r.Intn(3) - 1 - now; e > 0 {
					d = e
				}
			}
			time.Sleep(time.Duration(d) * unit)
			now += d
			ev = append(ev, tickEv(d))
		default:
			ev = append(ev, callEv(1, "contains", k, 0), retEv(1, cacheOp(c, "contains", k, 0, unit)))
		}
	}
	for _, k := range keys {
		ev = append(ev, callEv(1, "contains", k, 0), retEv(1, cacheOp(c, "contains", k, 0, unit)))
	}
	tr.put(obj{"ev": ev})
}

// cacheFull keeps very many keys alive at once
func cacheFull(tr *trace, n int) {
	c := cache.NewInMemory()
	var ks []string
	for i := 0; i < n; i++ {
		k := fmt.Sprint("key", i)
		if cacheOp(c, "add", k, 1, time.Hour) != 0 {
			k += " failed"
		}
		ks = append(ks, k)
	}
	in := []string{}
	for _, k := range ks {
		if cacheOp(c, "contains", k, 0, time.Hour) == 1 {
			in = append(in, k)
		}
	}
	tr.put(obj{"ev": arr{obj{"e": "many", "ks": ks, "d": 1}, obj{"e": "seen", "ks": in}}})
}

// decorated is a text close to k that a careless comparison takes for k
func decorated(r *rand.Rand, k string) string {
	switch r.Intn(9) {
	case 0:
		return k + pick(r, []string{" ", "\t", "\r\n", "\x00", "/", "=", "\u00a0"})
	case 1:
		return pick(r, []string{" ", "\n", "\x00", "/", "\ufeff", "0", "-"}) + k
	case 2:
		return strings.ToUpper(k)
	case 3:
		return strings.Title(k)
	case 4:
		return k + k
	case 5:
		return strings.Repeat("long", 20) + k
	case 6:
		return url.QueryEscape(" " + k)
	case 7:
		return strings.TrimSpace(k)
	}
	return k[:len(k)/2]
}

// thousands of keys with different lives
func cacheCrowded(tr *trace, r *rand.Rand, n int) {
	c := cache.NewInMemory()
	var ev arr
	var all []string
	for step := 8 + r.Intn(8); step > 0; step-- {
		switch r.Intn(4) {
		case 0:
			d := 1 + r.Intn(3)
			time.Sleep(time.Duration(d) * time.Second)
			ev = append(ev, tickEv(d))
		case 1:
			if len(all) > 0 {
				k := pick(r, all)
				ev = append(ev, callEv(1, "remove", k, 0), retEv(1, cacheOp(c, "remove", k, 0, time.Second)))
			}
		default:
			d := pick(r, []int{1, 2, 5, 100, 3600})
			var ks []string
			for i := r.Intn(n/2) + 1; i > 0; i-- {
				k := fmt.Sprint("key", r.Intn(2*n))
				if cacheOp(c, "add", k, d, time.Second) != 0 {
					k += " failed"
				}
				ks, all = append(ks, k), append(all, k)
			}
			ev = append(ev, obj{"e": "many", "ks": ks, "d": d})
		}
		if r.Intn(3) == 0 || step == 1 {
			in := []string{}
			done := map[string]bool{}
			for _, k := range all {
				if !done[k] && cacheOp(c, "contains", k, 0, time.Second) == 1 {
					in = append(in, k)
				}
				done[k] = true
			}
			ev = append(ev, obj{"e": "seen", "ks": in})
		}
	}
	tr.put(obj{"ev": ev})
}

type stamped struct {
	at int64
	ev obj
}

// cacheConcurrent records histories of real threads; every distinct history is validated once
func cacheConcurrent(r *rand.Rand, tr *trace, n int) {
	seen := map[string]bool{}
	ops := []cacheStep{{"add", "a", 3600}, {"add", "a", -1}, {"remove", "a", 0}, {"contains", "a", 0}, {"contains", "a", 0}, {"add", "b", 3600}, {"contains", "b", 0}}
	type program struct {
		before []cacheStep
		prog   [][]cacheStep
	}
	var progs []program
	for i := 0; i < scale(240, 1200); i++ {
		var before []cacheStep
		if r.Intn(4) > 0 {
			before = append(before, cacheStep{"add", "a", pick(r, []int{-1, -1, 3600})})
		}
		threads := 2 + r.Intn(3)
		prog := make([][]cacheStep, threads)
		for j := range prog {
			for k := 1 + r.Intn(2); k > 0; k-- {
				prog[j] = append(prog[j], pick(r, ops))
			}
		}
		if i%3 == 0 { // an addition that races with look-ups of an expired entry
			before, prog = []cacheStep{{"add", "a", -1}}, [][]cacheStep{{{"add", "a", 3600}}, {{"contains", "a", 0}, {"contains", "a", 0}}, {{"contains", "a", 0}}}
		}
		progs = append(progs, program{before, prog})
	}
	for i := 0; i < n; i++ {
		c := cache.NewInMemory()
		before, prog := progs[i%len(progs)].before, progs[i%len(progs)].prog
		threads := len(prog)
		var ev arr
		for _, s := range before {
			ev = append(ev, callEv(0, s.O, s.K, s.D), retEv(0, cacheOp(c, s.O, s.K, s.D, time.Second)))
		}
		var clock, ready atomic.Int64
		logs := make([][]stamped, threads)
		var wg sync.WaitGroup
		for j := range prog {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for n := 0; ready.Load() < int64(threads); n++ {
					if n > 1000 {
						runtime.Gosched()
					}
				}
				for _, s := range prog[j] {
					at := clock.Add(1)
					res := cacheOp(c, s.O, s.K, s.D, time.Second)
					end := clock.Add(1)
					logs[j] = append(logs[j], stamped{at, callEv(j+1, s.O, s.K, s.D)}, stamped{end, retEv(j+1, res)})
				}
			}()
		}
		wg.Wait()
		var all []stamped
		for _, l := range logs {
			all = append(all, l...)
		}
		sort.Slice(all, func(x, y int) bool { return all[x].at < all[y].at })
		for _, s := range all {
			ev = append(ev, s.ev)
		}
		for _, k := range []string{"a", "b"} {
			ev = append(ev, callEv(0, "contains", k, 0), retEv(0, cacheOp(c, "contains", k, 0, time.Second)))
		}
		b, _ := json.Marshal(ev)
		if !seen[string(b)] {
			seen[string(b)] = true
			tr.put(obj{"ev": ev})
		}
	}
	tr.close()
}
