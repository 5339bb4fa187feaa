package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/perlin-network/noise"
)

// longWait bounds every wait for something that is expected to happen. It is far longer than anything takes on a
// node that works, so running into it means that it is not going to happen.
var longWait = 10 * time.Second

type M = map[string]interface{}

// Trace is what one scenario did to the implementation, and what could be seen of it.
type Trace struct {
	mu    sync.Mutex
	ID    int `json:"id"`
	Plan  M   `json:"plan,omitempty"`
	Steps []M `json:"steps"`
	over  bool
}

func (t *Trace) Add(m M) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if !t.over {
		t.Steps = append(t.Steps, m)
	}
}

// Over ends the trace: what happens from here on is of no interest.
func (t *Trace) Over() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.over = true
}

type scenario func(t *Trace, plan M, rng *rand.Rand)

var drivers = map[string]scenario{}

func str(v interface{}) string {
	s, _ := v.(string)
	return s
}

func num(v interface{}) int {
	switch v := v.(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}

func list(v interface{}) []interface{} {
	l, _ := v.([]interface{})
	return l
}

func obj(v interface{}) M {
	m, _ := v.(map[string]interface{})
	return m
}

func truth(v interface{}) bool {
	b, _ := v.(bool)
	return b
}

// waitFor polls until cond holds, for at most d.
func waitFor(d time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(d)
	pause := 50 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return cond()
		}
		time.Sleep(pause)
		if pause < 2*time.Millisecond {
			pause *= 2
		}
	}
}

// within runs f and reports whether it returned in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// refusing returns a loopback address that refuses connections, and keeps anybody else from using it until released.
func refusing() (addr string, release func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

func localAddr(n *noise.Node) string {
	return fmt.Sprintf("127.0.0.1:%d", n.ID().Port)
}

func localAddrOf(addr string) string {
	_, port, err := net.SplitHostPort(addr)
	if err != nil {
		panic(err)
	}
	return "127.0.0.1:" + port
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// closeAll closes nodes at the end of a scenario without ever hanging the scenario.
func closeNode(n *noise.Node) bool {
	return within(longWait, func() { n.Close() })
}

// spare waits while connections that are over hold so many ports that there may soon be none left.
func spare() {
	waitFor(2*time.Minute, func() bool {
		b, err := os.ReadFile("/proc/net/sockstat")
		if err != nil {
			return true
		}
		f := strings.Fields(string(b))
		for i := range f[:len(f)-1] {
			if n, err := strconv.Atoi(f[i+1]); f[i] == "tw" && err == nil && n > 15000 {
				return false
			}
		}
		return true
	})
}

func sortedInts(m map[int]bool) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func main() {
	driver := flag.String("driver", "", "which driver to run")
	plans := flag.String("plans", "", "file of plans, one JSON object a line")
	out := flag.String("out", "", "file to write traces to")
	journal := flag.String("journal", "", "file to note started plans in")
	seed := flag.Int64("seed", 1, "")
	par := flag.Int("par", 8, "")
	limit := flag.Duration("limit", 90*time.Second, "for one scenario")
	budget := flag.Duration("budget", time.Hour, "after which no more scenarios are started")
	flag.Parse()

	f, ok := drivers[*driver]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: no such driver:", *driver)
		os.Exit(3)
	}
	raw, err := os.ReadFile(*plans)
	must(err)
	of, err := os.Create(*out)
	must(err)
	jf, err := os.Create(*journal)
	must(err)
	w := bufio.NewWriter(of)

	type job struct {
		i    int
		plan M
	}
	jobs := make(chan job)
	var mu sync.Mutex
	var wg sync.WaitGroup
	hung := 0
	started := time.Now()

	for k := 0; k < *par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				mu.Lock()
				skip := hung >= 3 || time.Since(started) > *budget
				if !skip {
					fmt.Fprintf(jf, "%d\n", j.i)
				}
				mu.Unlock()
				if skip {
					continue
				}
				spare()
				t := &Trace{ID: j.i, Plan: j.plan}
				began := time.Now()
				rng := rand.New(rand.NewSource(*seed*1000003 + int64(j.i)))
				if !within(*limit, func() { f(t, j.plan, rng) }) {
					var b bytes.Buffer
					pprof.Lookup("goroutine").WriteTo(&b, 1)
					os.WriteFile(*out+fmt.Sprintf(".hang%d", j.i), b.Bytes(), 0o644)
					t.mu.Lock()
					t.over = false
					t.mu.Unlock()
					t.Add(M{"ev": "hang"})
					mu.Lock()
					hung++
					mu.Unlock()
				}
				t.mu.Lock()
				if t.Steps == nil {
					t.Steps = []M{}
				}
				line, err := json.Marshal(M{"id": t.ID, "plan": t.Plan, "steps": t.Steps, "ms": time.Since(began).Milliseconds()})
				t.mu.Unlock()
				must(err)
				mu.Lock()
				w.Write(line)
				w.WriteByte('\n')
				w.Flush()
				fmt.Fprintf(jf, "-%d\n", j.i)
				mu.Unlock()
			}
		}()
	}

	dec := json.NewDecoder(bytes.NewReader(raw))
	for i := 1; ; i++ {
		var p M
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		jobs <- job{i, p}
	}
	close(jobs)
	wg.Wait()
	w.Flush()
}

// manualCtx is a context that ends when told to, be it cancelled or past its deadline.
type manualCtx struct {
	context.Context
	mu   sync.Mutex
	done chan struct{}
	err  error
	used int32 // whether somebody has looked at it
}

func newManualCtx() *manualCtx {
	return &manualCtx{Context: context.Background(), done: make(chan struct{})}
}

func (c *manualCtx) Done() <-chan struct{} {
	atomic.StoreInt32(&c.used, 1)
	return c.done
}

func (c *manualCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *manualCtx) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}
