package main

import (
	"context"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["idle"] = driveIdle
}

// driveIdle has messages and pauses go over a connection of a node with an idle timeout, and sees when it is closed.
func driveIdle(t *Trace, plan M, rng *rand.Rand) {
	T := time.Duration(num(plan["T"])) * time.Millisecond
	unit := T / 4
	if T == 0 {
		unit = 100 * time.Millisecond
	}
	stage, role := str(plan["stage"]), str(plan["role"])

	var mu sync.Mutex
	var handled []string
	var reply *noise.HandlerContext // to send with
	n, err := noise.NewNode(noise.WithNodeIdleTimeout(T), noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(64<<10))
	must(err)
	n.Handle(func(ctx noise.HandlerContext) error {
		mu.Lock()
		defer mu.Unlock()
		handled = append(handled, string(ctx.Data()))
		reply = &ctx
		return nil
	})
	must(n.Listen())
	defer closeNode(n)
	// Nothing can be said about when things happen if they are held up.
	var lag int64
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			was := time.Now()
			select {
			case <-stop:
				return
			case <-time.After(10 * time.Millisecond):
			}
			if d := int64(time.Since(was)); d > atomic.LoadInt64(&lag) {
				atomic.StoreInt64(&lag, d)
			}
		}
	}()
	defer func() {
		if T > 0 && time.Duration(atomic.LoadInt64(&lag)) > T/5 {
			t.mu.Lock()
			t.Steps = nil
			t.mu.Unlock()
		}
	}()

	var conn net.Conn
	if role == "dial" {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		defer ln.Close()
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			n.Ping(ctx, ln.Addr().String())
		}()
		conn, err = ln.Accept()
		must(err)
	} else {
		conn, err = net.Dial("tcp", localAddr(n))
		must(err)
	}
	r := newRaw(conn)
	defer r.Close()
	start := time.Now()
	ms := func() int { return int(time.Since(start) / time.Millisecond) }

	// What the node sends, and when it closes.
	arrived := make(chan string, 1000)
	var closedAt int64 = -1
	listenIn := func() {
		for {
			if stage != "up" {
				if _, err := r.br.ReadByte(); err != nil {
					break
				}
				continue
			}
			_, b, err := r.ReadMsg()
			if err != nil {
				break
			}
			arrived <- string(b)
		}
		// Not before that: rounded up.
		atomic.StoreInt64(&closedAt, int64(ms()+1))
	}
	over := func() bool { return atomic.LoadInt64(&closedAt) >= 0 }
	active := func(m int) { t.Add(M{"ev": "active", "t": ms(), "m": m}) }

	r.SetDeadline(time.Now().Add(longWait))
	id := newIdent(net.IPv4(127, 0, 0, 1), 9)
	ended := func(err error) bool {
		if err != nil { // too slow for the timeout
			t.Steps = nil
			return true
		}
		return false
	}
	switch stage {
	case "up":
		active(0)
		if ended(r.Handshake(id)) {
			return
		}
	case "kex", "kexpart", "idpart":
		active(0)
		if stage == "kexpart" {
			t.Add(M{"ev": "part", "t": ms()})
			r.Conn.Write(frameBytes(r.KexFrame())[:rng.Intn(99)+1])
		} else {
			if ended(r.WriteFrame(r.KexFrame())) || ended(r.ReadKex()) || ended(r.Derive()) {
				return
			}
			if stage == "idpart" {
				b := frameBytes(seal(r.Suite, idFrame(id.Marshal(), id.Priv, r.Shared)))
				t.Add(M{"ev": "part", "t": ms()})
				r.Conn.Write(b[:rng.Intn(len(b)-1)+1])
			}
		}
	}
	r.SetDeadline(time.Time{})
	go listenIn()

	msgs := 0
	var rest []byte // of a frame that was begun
	send := func() {
		msgs++
		m := msgs
		active(m)
		mu.Lock()
		ctx := reply
		mu.Unlock()
		if ctx.Send([]byte("out")) != nil {
			return
		}
		deadline := time.After(longWait)
		for {
			select {
			case <-arrived:
				t.Add(M{"ev": "arrived", "m": m})
				return
			case <-deadline:
				return
			case <-time.After(2 * time.Millisecond):
				if over() && len(arrived) == 0 {
					return
				}
			}
		}
	}
	recv := func() {
		msgs++
		m := msgs
		mu.Lock()
		before := len(handled)
		mu.Unlock()
		active(m)
		if rest != nil {
			r.Conn.Write(rest)
			rest = nil
		} else {
			r.WriteMsg(0, []byte{byte(m)})
		}
		waitFor(longWait, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return len(handled) > before || over()
		})
		mu.Lock()
		ok := len(handled) > before
		mu.Unlock()
		if ok {
			t.Add(M{"ev": "arrived", "m": m})
		}
	}
	if stage == "up" {
		recv()
		for _, s := range list(plan["steps"]) {
			time.Sleep(unit)
			if over() {
				break
			}
			switch str(s) {
			case "recv":
				recv()
			case "send":
				send()
			case "both":
				recv()
				if !over() {
					send()
				}
			case "part":
				if rest == nil {
					b := frameBytes(seal(r.Suite, msgBytes(0, []byte("slow"))))
					k := rng.Intn(len(b)-1) + 1
					t.Add(M{"ev": "part", "t": ms()})
					r.Conn.Write(b[:k])
					rest = b[k:]
				} else if len(rest) > 1 {
					t.Add(M{"ev": "part", "t": ms()})
					r.Conn.Write(rest[:1])
					rest = rest[1:]
				}
			}
		}
	} else if T == 0 {
		time.Sleep(10 * unit)
	}
	if T > 0 {
		waitFor(T+9*time.Second, over)
	}
	if over() {
		t.Add(M{"ev": "closed", "t": int(atomic.LoadInt64(&closedAt))})
	} else {
		t.Add(M{"ev": "open", "t": ms()})
	}
}
