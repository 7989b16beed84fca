package harness

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ixtendio/gofre/cache"
)

// The driver only executes and records: every verdict is TLC's.

var (
	mode  = os.Getenv("VERIF_MODE")
	prop  = os.Getenv("VERIF_PROP")
	inDir = os.Getenv("VERIF_IN")  // inputs generated from the specification
	out   = os.Getenv("VERIF_OUT") // directory of the recorded traces
	deep  = os.Getenv("VERIF_TIER") == "thorough"
	seed  = func() int64 {
		n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		return n
	}()
)

type obj = map[string]any
type arr = []any

var modes = map[string]func(t *testing.T){}

func TestDrive(t *testing.T) {
	f := modes[mode]
	if f == nil {
		t.Fatalf("no such mode: %q", mode)
	}
	f(t)
}

func newRand(salt int64) *rand.Rand { return rand.New(rand.NewSource(seed*1000003 + salt)) }

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func scale(quick, thorough int) int {
	if deep {
		return thorough
	}
	return quick
}

func readJSON(name string, v any) {
	b, err := os.ReadFile(inDir + "/" + name)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		panic(fmt.Errorf("%s: %w", name, err))
	}
}

// trace is an ndjson file: one line per session
type trace struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newTrace(name string) *trace {
	f, err := os.Create(out + "/" + name + ".ndjson")
	if err != nil {
		panic(err)
	}
	return &trace{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (t *trace) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.w.Flush() // what is recorded counts even if the driver does not finish
	t.n++
}

func (t *trace) close() {
	t.w.Flush()
	t.f.Close()
}

// guarded runs f and tells whether it finished, panicked or hangs
func guarded(limit time.Duration, f func()) (outcome string, val any) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		outcome = "panic"
		defer func() { val = recover() }()
		f()
		outcome = "ok"
	}()
	select {
	case <-done:
		return outcome, val
	case <-time.After(limit):
		return "hang", nil
	}
}

// refusing is a cache that can be told not to take any more keys
type refusing struct {
	cache.Cache
	on atomic.Bool
}

var errFull = errors.New("the cache is full")

func (c *refusing) Add(key string, expireAfter time.Duration) error {
	if c.on.Load() {
		return errFull
	}
	return c.Cache.Add(key, expireAfter)
}
