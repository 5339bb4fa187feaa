package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["rpc"] = driveRpc
}

// rpcPeer is a raw peer that a node makes requests to.
type rpcPeer struct {
	*Raw
	c      int
	ln     net.Listener
	addr   string
	client *noise.Client
	held   noise.HandlerContext
	wmu    sync.Mutex
}

func (p *rpcPeer) put(nonce uint64, data string) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.SetWriteDeadline(time.Now().Add(longWait))
	p.WriteMsg(nonce, []byte(data))
}

type rpcReq struct {
	c      int
	nonce  uint64
	seen   chan struct{}
	done   chan struct{}
	cancel func()
	expire func()
	ending bool // cancelled
	once   sync.Once
}

// driveRpc has a node make requests to raw peers that answer them, or not, in whatever order.
func driveRpc(t *Trace, plan M, rng *rand.Rand) {
	conns := num(plan["conns"])
	race := num(plan["race"])
	bulk := num(plan["bulk"])
	steps := list(plan["steps"])
	nreqs := 5
	if race > 0 {
		nreqs = race * num(plan["per"])
	}
	plan["nreqs"] = nreqs

	var mu sync.Mutex
	reqs := map[int]*rpcReq{}
	for r := 1; r <= nreqs; r++ {
		reqs[r] = &rpcReq{seen: make(chan struct{}), done: make(chan struct{})}
	}
	peers := map[int]*rpcPeer{}
	synced := make(chan int, 16)

	n, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(64<<10), noise.WithNodeMaxDialAttempts(1),
		noise.WithNodeMaxInboundConnections(uint(conns)), noise.WithNodeMaxOutboundConnections(uint(conns)),
		noise.WithNodeNumWorkers(uint(1+rng.Intn(3))))
	must(err)
	held := make(chan noise.HandlerContext, 4)
	n.Handle(func(ctx noise.HandlerContext) error {
		d := string(ctx.Data())
		c := 0
		mu.Lock()
		for _, p := range peers {
			if p.client != nil && ctx.ID().ID == p.client.ID().ID {
				c = p.c
			}
		}
		mu.Unlock()
		switch {
		case d == "hold":
			held <- ctx
		case d == "fail":
			return fmt.Errorf("a handler error")
		case strings.HasPrefix(d, "sync"):
			k, _ := strconv.Atoi(d[4:])
			t.Add(M{"ev": "surf", "c": c, "a": []interface{}{d}})
			synced <- k
		case strings.HasPrefix(d, "answer "):
			r, _ := strconv.Atoi(d[7:])
			t.Add(M{"ev": "surf", "c": c, "a": []int{r, 1}})
		default:
			t.Add(M{"ev": "surf", "c": c, "a": []interface{}{d}})
		}
		return nil
	})
	must(n.Listen())
	defer closeNode(n)

	var bulkHeld = map[uint64]bool{}
	var clash, bulkSeen int64
	for c := 1; c <= conns; c++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		defer ln.Close()
		p := &rpcPeer{c: c, ln: ln, addr: ln.Addr().String()}
		acc := make(chan net.Conn, 1)
		go func() {
			x, err := ln.Accept()
			if err != nil {
				close(acc)
				return
			}
			acc <- x
			for { // no second connection
				x, err := ln.Accept()
				if err != nil {
					return
				}
				x.Close()
			}
		}()
		hs := make(chan error, 1)
		go func() {
			x, ok := <-acc
			if !ok {
				hs <- fmt.Errorf("not dialled")
				return
			}
			p.Raw = newRaw(x)
			p.SetDeadline(time.Now().Add(2 * longWait))
			err := p.Handshake(newIdent(net.IPv4(127, 0, 0, 1), uint16(2000+c)))
			p.SetDeadline(time.Time{})
			hs <- err
		}()
		ctx, cancel := context.WithTimeout(context.Background(), 2*longWait)
		cl, err := n.Ping(ctx, p.addr)
		cancel()
		if err != nil {
			t.Add(M{"ev": "noconn", "err": err.Error()})
			return
		}
		if err := <-hs; err != nil {
			t.Add(M{"ev": "noconn", "err": err.Error()})
			return
		}
		defer p.Close()
		mu.Lock()
		p.client = cl
		peers[c] = p
		mu.Unlock()
		p.put(0, "hold")
		select {
		case p.held = <-held:
		case <-time.After(longWait):
			t.Add(M{"ev": "noconn"})
			return
		}
		go func() {
			for {
				k, data, err := p.ReadMsg()
				if err != nil {
					return
				}
				s := string(data)
				if strings.HasPrefix(s, "question ") {
					r, _ := strconv.Atoi(s[9:])
					t.Add(M{"ev": "seen", "r": r, "c": p.c, "n": k})
					q := reqs[r]
					if q == nil {
						t.Add(M{"ev": "strange", "data": s})
						continue
					}
					q.nonce = k
					q.once.Do(func() { close(q.seen) })
					if bulk > 0 {
						mu.Lock()
						bulkHeld[k] = true
						mu.Unlock()
					}
					if race > 0 && rngIntn(4) > 0 {
						t.Add(M{"ev": "answer", "r": r})
						p.put(k, fmt.Sprintf("answer %d", r))
					}
				} else if strings.HasPrefix(s, "bulk ") {
					atomic.AddInt64(&bulkSeen, 1)
					mu.Lock()
					if bulkHeld[k] || k == 0 {
						clash++
					}
					mu.Unlock()
					p.put(k, "for "+s)
				}
			}
		}()
	}

	issue := func(r, c int) {
		q := reqs[r]
		q.c = c
		t.Add(M{"ev": "issue", "r": r})
		ctx := newManualCtx()
		q.cancel = func() { ctx.end(context.Canceled) }
		q.expire = func() { ctx.end(context.DeadlineExceeded) }
		go func() {
			b, err := n.Request(ctx, peers[c].addr, []byte(fmt.Sprintf("question %d", r)))
			if err != nil {
				t.Add(M{"ev": "err", "r": r, "c": c, "msg": err.Error()})
			} else {
				a := []interface{}{string(b)}
				if strings.HasPrefix(string(b), "answer ") {
					x, _ := strconv.Atoi(string(b[7:]))
					a = []interface{}{x, 1}
				}
				t.Add(M{"ev": "ok", "r": r, "c": c, "a": a})
			}
			close(q.done)
		}()
	}
	wait := func(ch chan struct{}, alt chan struct{}) bool {
		select {
		case <-ch:
			return true
		case <-alt:
			select {
			case <-ch:
				return true
			default:
				return false
			}
		case <-time.After(longWait):
			return false
		}
	}
	lost := map[int]bool{}
	over := func(c int) { // has ended, as anyone can see
		if within(longWait, peers[c].client.WaitUntilClosed) {
			t.Add(M{"ev": "closed", "c": c})
		} else {
			t.Add(M{"ev": "stuck", "c": c})
		}
	}
	var closers sync.WaitGroup
	lose := func(c int, kind string, w bool) {
		p := peers[c]
		all := []int{c}
		if kind == "nodeclose" || kind == "evict" {
			all = nil
			for x := 1; x <= conns; x++ {
				if !lost[x] {
					all = append(all, x)
				}
			}
		}
		for _, x := range all {
			lost[x] = true
			t.Add(M{"ev": "lose", "c": x, "kind": kind})
		}
		switch kind {
		case "peerclose":
			p.Close()
		case "reset":
			p.Conn.(*net.TCPConn).SetLinger(0)
			p.Close()
		case "half":
			p.Conn.(*net.TCPConn).CloseWrite()
		case "garbage":
			p.wmu.Lock()
			p.WriteFrame(bytes.Repeat([]byte{7}, 60))
			p.wmu.Unlock()
		case "oversize":
			p.wmu.Lock()
			p.Conn.Write([]byte{0x7f, 0, 0, 0})
			p.wmu.Unlock()
		case "short":
			p.wmu.Lock()
			p.WriteFrame(seal(p.Suite, []byte{1, 2, 3}))
			p.wmu.Unlock()
		case "local":
			p.client.Close()
		case "handler":
			p.put(0, "fail")
		case "evict":
			ctx, cancel := context.WithTimeout(context.Background(), longWait)
			for x := 0; x < 10*conns; x++ { // until connections being set up to others fill the pool
				l, err := net.Listen("tcp", "127.0.0.1:0")
				must(err)
				defer l.Close()
				go n.Ping(ctx, l.Addr().String())
				if waitFor(time.Second/5, func() bool {
					for _, cl := range n.Outbound() {
						for _, p := range peers {
							if cl == p.client {
								return false
							}
						}
					}
					return true
				}) {
					break
				}
			}
			time.AfterFunc(200*time.Millisecond, cancel)
			closers.Add(1)
			go func() { defer closers.Done(); <-ctx.Done() }()
		case "nodeclose":
			closers.Add(1)
			go func() { defer closers.Done(); closeNode(n) }()
		}
		if w {
			for _, x := range all {
				over(x)
			}
		}
	}

	if race > 0 {
		var wg sync.WaitGroup
		for g := 0; g < race; g++ {
			g := g
			pauses := make([]int, num(plan["per"]))
			for i := range pauses {
				pauses[i] = rng.Intn(120)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, us := range pauses {
					r := g*num(plan["per"]) + i + 1
					issue(r, 1)
					if us < 40 { // hang on
						select {
						case <-reqs[r].done:
						case <-time.After(time.Millisecond):
						}
					}
					time.Sleep(time.Duration(us) * time.Microsecond)
				}
			}()
		}
		time.Sleep(time.Duration(rng.Intn(2500)) * time.Microsecond)
		lose(1, str(plan["kind"]), false)
		wg.Wait()
	}
	if bulk > 0 {
		// Some requests whose numbers stay taken for a long time, given up or not.
		for r := 1; r <= 4; r++ {
			issue(r, 1)
			if !wait(reqs[r].seen, reqs[r].done) {
				break
			}
		}
		for r := 1; r <= 2; r++ {
			t.Add(M{"ev": "cancel", "r": r})
			reqs[r].cancel()
			wait(reqs[r].done, nil)
		}
		var wrong, failed, count int64
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := atomic.AddInt64(&count, 1)
					if i > int64(bulk) {
						return
					}
					ctx, cancel := context.WithTimeout(context.Background(), longWait)
					b, err := n.Request(ctx, peers[1].addr, []byte(fmt.Sprintf("bulk %d", i)))
					cancel()
					if err != nil {
						atomic.AddInt64(&failed, 1)
						return
					} else if string(b) != fmt.Sprintf("for bulk %d", i) {
						atomic.AddInt64(&wrong, 1)
					}
				}
			}()
		}
		wg.Wait()
		mu.Lock()
		t.Add(M{"ev": "bulk", "n": bulk, "wrong": wrong, "failed": failed, "clash": clash})
		mu.Unlock()
		for _, r := range []int{3, 1, 4, 2} {
			t.Add(M{"ev": "answer", "r": r})
			peers[1].put(reqs[r].nonce, fmt.Sprintf("answer %d", r))
		}
	}

	msgs := 0
	for _, x := range steps {
		f := obj(x)
		c, r, w := num(f["c"]), num(f["r"]), truth(f["w"])
		switch str(f["ev"]) {
		case "issue":
			issue(r, c)
			if w {
				wait(reqs[r].seen, reqs[r].done)
			}
		case "answer", "dup":
			q := reqs[r]
			if !wait(q.seen, q.done) {
				continue
			}
			if str(f["ev"]) == "dup" {
				t.Add(M{"ev": "dup", "r": r, "c": c})
				peers[c].put(q.nonce, "dup")
				continue
			}
			t.Add(M{"ev": "answer", "r": r})
			peers[c].put(q.nonce, fmt.Sprintf("answer %d", r))
			if w {
				wait(q.done, nil)
			}
		case "cancel":
			t.Add(M{"ev": "cancel", "r": r})
			reqs[r].ending = true
			if str(f["how"]) == "deadline" {
				reqs[r].expire()
			}
			reqs[r].cancel()
			if w {
				wait(reqs[r].done, nil)
			}
		case "unasked":
			k := uint64(1000000)
			t.Add(M{"ev": "unasked", "c": c, "n": k})
			peers[c].put(k, "unasked")
		case "msg":
			msgs++
			d := fmt.Sprintf("message %d", msgs)
			t.Add(M{"ev": "msg", "c": c, "m": d})
			peers[c].put(0, d)
		case "lose":
			lose(c, str(f["kind"]), w)
		case "held":
			err := peers[c].held.Send([]byte("held"))
			t.Add(M{"ev": "held", "c": c, "ok": err == nil})
		}
	}

	// Have everything that came in handled, then give up what nobody answered.
	for c := 1; c <= conns; c++ {
		if !lost[c] {
			d := fmt.Sprintf("sync%d", c)
			t.Add(M{"ev": "msg", "c": c, "m": d})
			peers[c].put(0, d)
			select {
			case <-synced:
			case <-time.After(longWait):
			}
		} else {
			over(c)
			t.Add(M{"ev": "held", "c": c, "ok": peers[c].held.Send([]byte("held")) == nil})
		}
	}
	waitFor(longWait, func() bool { // with several workers, others may be behind
		t.mu.Lock()
		defer t.mu.Unlock()
		pending := map[string]bool{}
		for _, s := range t.Steps {
			if s["ev"] == "msg" && !lost[num(s["c"])] {
				pending[str(s["m"])] = true
			} else if a, ok := s["a"].([]interface{}); ok && s["ev"] == "surf" {
				delete(pending, str(a[0]))
			}
		}
		return len(pending) == 0
	})
	answered := map[int]bool{}
	t.mu.Lock()
	for _, s := range t.Steps {
		if s["ev"] == "answer" {
			answered[num(s["r"])] = true
		}
	}
	t.mu.Unlock()
	deadline := time.After(longWait)
	for r := 1; r <= nreqs; r++ {
		q := reqs[r]
		if q.cancel == nil {
			continue
		}
		if !answered[r] && !lost[q.c] && !q.ending {
			wait(q.seen, q.done)
			select {
			case <-q.done: // which is wrong, but not here to judge
			default:
				t.Add(M{"ev": "cancel", "r": r})
				q.cancel()
			}
		}
		select {
		case <-q.done:
		case <-deadline:
			t.Add(M{"ev": "end"}) // with requests left open
			return
		}
	}
	time.Sleep(500 * time.Microsecond)
	t.Add(M{"ev": "end"})
	for _, q := range reqs {
		if q.cancel != nil {
			q.cancel()
		}
	}
	closers.Wait()
}
