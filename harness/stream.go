package main

import (
	"context"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["stream"] = driveStream
}

// payloads makes messages that can be told from each other, and recognised.
type payloads struct {
	ids  map[string]int
	data [][]byte
}

func (p *payloads) make(rng *rand.Rand, size int) int {
	for {
		b := make([]byte, size)
		rng.Read(b)
		if _, taken := p.ids[string(b)]; taken {
			size++
			continue
		}
		p.data = append(p.data, b)
		p.ids[string(b)] = len(p.data)
		return len(p.data)
	}
}

func pickSize(rng *rand.Rand, profile string, max int) int {
	if s := anySize(rng, profile, max); s < max {
		return s
	}
	return max
}

func anySize(rng *rand.Rand, profile string, max int) int {
	around := func(n int) int {
		s := n - 44 + rng.Intn(60)
		if s < 0 {
			s = 0
		}
		if s > max {
			s = max
		}
		return s
	}
	switch profile {
	case "tiny":
		return rng.Intn(40)
	case "edges":
		return around([]int{1024, 2048, 4096, 8192, 16384, 32768}[rng.Intn(6)])
	case "large":
		if rng.Intn(3) == 0 {
			return max - rng.Intn(3)
		}
		return rng.Intn(max + 1)
	}
	switch rng.Intn(6) {
	case 0:
		return around(1024)
	case 1:
		return around(4096)
	case 2:
		return rng.Intn(2048)
	case 3:
		if rng.Intn(4) == 0 {
			return max
		}
		return rng.Intn(12)
	}
	return rng.Intn(64)
}

// driveStream has concurrent senders at both ends of one connection between two nodes.
func driveStream(t *Trace, plan M, rng *rand.Rand) {
	limit := num(plan["limit"])
	senders, per := num(plan["senders"]), num(plan["per"])
	both := truth(plan["both"])
	cut := num(plan["cut"])
	pause := num(plan["pause"])

	p := &payloads{ids: map[string]int{}}
	var work [2][][]int // messages of each sender of each side
	dirs := 1
	if both {
		dirs = 2
	}
	total := 0
	for d := 0; d < dirs; d++ {
		for s := 0; s < senders; s++ {
			var ms []int
			for i := 0; i < per; i++ {
				ms = append(ms, p.make(rng, pickSize(rng, str(plan["sizes"]), limit-36)))
				total++
			}
			work[d] = append(work[d], ms)
		}
	}
	first := []byte("the first message, which opens the connection")

	var delivered int64
	back := make(chan noise.HandlerContext, 1)
	handler := func(dir int) noise.Handler {
		return func(ctx noise.HandlerContext) error {
			if dir == 1 && string(ctx.Data()) == string(first) {
				select {
				case back <- ctx:
				default:
				}
				return nil
			}
			t.Add(M{"ev": "deliver", "d": dir, "m": p.ids[string(ctx.Data())]})
			atomic.AddInt64(&delivered, 1)
			if dir == 1 && pause > 0 && rngIntn(50) == 0 {
				time.Sleep(time.Duration(rngIntn(pause)) * time.Microsecond)
			}
			return nil
		}
	}
	mk := func(dir int, workers int) *noise.Node {
		n, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(uint32(limit)), noise.WithNodeMaxDialAttempts(1),
			noise.WithNodeNumWorkers(uint(workers)), noise.WithNodeIdleTimeout(time.Duration(num(plan["idle"]))*time.Millisecond))
		must(err)
		n.Handle(handler(dir))
		must(n.Listen())
		return n
	}
	a, b := mk(2, num(plan["workers"])), mk(1, num(plan["workers"]))
	defer closeNode(a)
	defer closeNode(b)
	px := newProxy(localAddr(b))
	defer px.Close()

	ctx, cancel := context.WithTimeout(context.Background(), 3*longWait)
	defer cancel()
	if err := a.Send(ctx, px.Addr(), first); err != nil {
		t.Add(M{"ev": "noconn", "err": err.Error()})
		return
	}
	var hc noise.HandlerContext
	select {
	case hc = <-back:
	case <-time.After(longWait):
		t.Add(M{"ev": "noconn"})
		return
	}
	if cut >= 0 {
		t.Add(M{"ev": "cut"}) // from here on the connection may be lost
		px.mu.Lock()
		px.left[rng.Intn(2) == 0] = cut
		px.mu.Unlock()
	}

	var wg sync.WaitGroup
	for d := 0; d < dirs; d++ {
		for s := range work[d] {
			d, ms := d, work[d][s]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, m := range ms {
					var err error
					t.Add(M{"ev": "call", "d": d + 1, "m": m})
					if d == 0 {
						err = a.Send(ctx, px.Addr(), p.data[m-1])
					} else {
						err = hc.Send(p.data[m-1])
					}
					if err != nil {
						t.Add(M{"ev": "refused", "d": d + 1, "m": m})
					} else {
						t.Add(M{"ev": "return", "d": d + 1, "m": m})
					}
					if pause > 0 && rngIntn(4) == 0 {
						time.Sleep(time.Duration(rngIntn(pause)) * time.Microsecond)
					}
				}
			}()
		}
	}
	wg.Wait()
	if cut < 0 {
		last := int64(-1)
		for { // as long as there is progress
			waitFor(longWait, func() bool { return atomic.LoadInt64(&delivered) != last })
			n := atomic.LoadInt64(&delivered)
			if n == int64(total) || n == last {
				break
			}
			last = n
		}
		time.Sleep(2 * time.Millisecond) // for what should not come any more
		t.Add(M{"ev": "end", "lost": false})
		return
	}
	px.Cut()
	waitFor(longWait, func() bool { return len(a.Outbound()) == 0 && len(b.Inbound()) == 0 })
	closeNode(a)
	closeNode(b)
	time.Sleep(2 * time.Millisecond)
	t.Add(M{"ev": "end", "lost": true})
}

var sharedRng = struct {
	sync.Mutex
	*rand.Rand
}{Rand: rand.New(rand.NewSource(1))}

func rngIntn(n int) int {
	sharedRng.Lock()
	defer sharedRng.Unlock()
	return sharedRng.Intn(n)
}
