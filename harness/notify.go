package main

import (
	"context"
	"errors"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["notify"] = driveNotify
}

// notifyConn is the remote end of a connection of a node whose protocols are told about it.
type notifyConn struct {
	*Raw
	addr   string
	role   string
	ok     bool
	up     chan struct{} // closed once the handshake is done at this end
	client *noise.Client
	mu     sync.Mutex // held while writing
	over   string
	pushed []string
	told   map[string]int
	frames int
	sent   int
}

type notifyWorld struct {
	mu    sync.Mutex
	t     *Trace
	n     *noise.Node
	np    int
	conns []*notifyConn
	last  time.Time
}

func (w *notifyWorld) get(c *noise.Client) (int, *notifyConn) {
	id := int(c.ID().Port)
	if id < 1 || id > len(w.conns) {
		return 0, nil
	}
	return id, w.conns[id-1]
}

func (w *notifyWorld) tell(what string, p int, c *noise.Client) {
	w.mu.Lock()
	defer w.mu.Unlock()
	id, x := w.get(c)
	w.t.Add(M{"ev": what, "c": id, "p": p})
	w.last = time.Now()
	if x != nil {
		x.told[what]++
		x.client = c
	}
}

// push sends something to the node, unless the connection is over.
func (w *notifyWorld) push(x *notifyConn, id int, kind string, n int, nonce uint64, data string) {
	<-x.up
	x.mu.Lock()
	defer x.mu.Unlock()
	w.mu.Lock()
	if x.over != "" && data != "fail" {
		w.mu.Unlock()
		return
	}
	w.t.Add(M{"ev": "push", "c": id, "kind": kind, "n": n})
	for i := 0; i < n; i++ {
		x.pushed = append(x.pushed, kind)
	}
	w.mu.Unlock()
	var b []byte
	for i := 0; i < n; i++ { // together
		b = append(b, frameBytes(seal(x.Suite, msgBytes(nonce, []byte(data))))...)
	}
	x.SetWriteDeadline(time.Now().Add(longWait))
	x.Conn.Write(b)
}

func (w *notifyWorld) serve(id int, x *notifyConn, how int) {
	defer x.Close()
	me := newIdent(net.IPv4(127, 0, 0, 1), uint16(id))
	if !x.ok {
		failHandshake(x.Raw, me, how)
		return
	}
	err := x.Handshake(me)
	close(x.up)
	if err != nil {
		return
	}
	for {
		nonce, data, err := x.ReadMsg()
		if err != nil {
			return
		}
		w.mu.Lock()
		x.frames++
		w.mu.Unlock()
		if string(data) == "req" {
			go w.push(x, id, "resp", 1, nonce, "resp")
		}
	}
}

// settled reports whether all has been told that is to be told.
func (w *notifyWorld) settled() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range w.conns {
		if !x.ok {
			continue
		}
		if x.over == "any" && x.told["con"] == 0 {
			continue // it may have been over too early
		}
		read := x.told["recv"] / w.np
		if x.told["con"] != w.np || x.told["recv"]%w.np != 0 || read > len(x.pushed) {
			return false
		}
		hand := 0
		for _, k := range x.pushed[:read] {
			if k != "resp" {
				hand++
			}
		}
		if x.told["hand"] != hand {
			return false
		}
		if x.over != "" && x.told["dis"] != w.np {
			return false
		}
		if x.over != "any" && read != len(x.pushed) {
			return false
		}
		if x.over == "" && (x.frames != x.sent || x.told["sent"]%w.np != 0 || x.sent > 0 && x.told["sent"] == 0) {
			return false
		}
	}
	return time.Since(w.last) > 8*time.Millisecond
}

func (w *notifyWorld) quiet() {
	// Either all that is expected has come about, or nothing happens any more.
	waitFor(longWait, func() bool {
		if w.settled() {
			return true
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		return time.Since(w.last) > 3*time.Second
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	w.t.Add(M{"ev": "quiet"})
}

func driveNotify(t *Trace, plan M, rng *rand.Rand) {
	w := &notifyWorld{t: t, np: num(plan["protos"]), last: time.Now()}
	race := truth(plan["race"])
	n, err := noise.NewNode(noise.WithNodeNumWorkers(uint(1+rng.Intn(3))), noise.WithNodeMaxRecvMessageSize(64<<10), noise.WithNodeMaxDialAttempts(1))
	must(err)
	w.n = n
	none := func() {
		for rng.Intn(2) == 0 {
			// Protocols that want to hear of some things only.
			p := noise.Protocol{}
			if rng.Intn(2) == 0 {
				p.OnPeerConnected = func(*noise.Client) {}
			}
			if rng.Intn(2) == 0 {
				p.OnMessageRecv = func(*noise.Client) {}
			}
			if rng.Intn(2) == 0 {
				p.OnMessageSent = func(*noise.Client) {}
			}
			if rng.Intn(2) == 0 {
				p.OnPeerDisconnected = func(*noise.Client) {}
			}
			n.Bind(p)
		}
	}
	for p := 1; p <= w.np; p++ {
		p := p
		none()
		n.Bind(noise.Protocol{
			OnPeerConnected:    func(c *noise.Client) { w.tell("con", p, c) },
			OnPeerDisconnected: func(c *noise.Client) { w.tell("dis", p, c) },
			OnMessageRecv:      func(c *noise.Client) { w.tell("recv", p, c) },
			OnMessageSent:      func(c *noise.Client) { w.tell("sent", p, c) },
		})
	}
	none()
	n.Handle(func(ctx noise.HandlerContext) error {
		kind := "msg"
		ask := ctx.IsRequest()
		if ask {
			kind = "ask"
		}
		w.mu.Lock()
		id := int(ctx.ID().Port)
		t.Add(M{"ev": "hand", "c": id, "kind": kind})
		w.last = time.Now()
		if id >= 1 && id <= len(w.conns) {
			w.conns[id-1].told["hand"]++
			if ask {
				w.conns[id-1].sent++
			}
		}
		w.mu.Unlock()
		if ask {
			ctx.Send([]byte("answer"))
		}
		if string(ctx.Data()) == "fail" {
			return errors.New("no")
		}
		return nil
	})
	must(n.Listen())
	ctx, cancel := context.WithCancel(context.Background())
	nodeclosed := false
	defer func() {
		cancel()
		t.Over()
		for _, x := range w.conns {
			if x.Raw != nil {
				x.Close()
			}
		}
		if !closeNode(n) {
			t.over = false
			t.Add(M{"ev": "hang"})
		}
	}()

	for _, y := range list(plan["steps"]) {
		s := obj(y)
		id := num(s["c"])
		var x *notifyConn
		if id >= 1 && id <= len(w.conns) {
			x = w.conns[id-1]
		}
		if race && rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(1+[]int{50, 400, 3000}[rng.Intn(3)])) * time.Microsecond)
		}
		switch ev := str(s["ev"]); ev {
		case "open":
			if nodeclosed {
				continue
			}
			x = &notifyConn{role: str(s["role"]), ok: truth(s["ok"]), up: make(chan struct{}), told: map[string]int{}}
			how := rng.Intn(failures)
			w.mu.Lock()
			w.conns = append(w.conns, x)
			t.Add(s)
			w.last = time.Now()
			w.mu.Unlock()
			if x.role == "accept" {
				r, err := dialRaw(localAddr(n))
				must(err)
				x.Raw = r
				go w.serve(id, x, how)
				continue
			}
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			defer ln.Close()
			x.addr = ln.Addr().String()
			go n.Ping(ctx, x.addr)
			ln.(*net.TCPListener).SetDeadline(time.Now().Add(longWait))
			c, err := ln.Accept()
			must(err)
			x.Raw = newRaw(c)
			go w.serve(id, x, how)
		case "push":
			if x == nil || x.Raw == nil || nodeclosed {
				continue
			}
			nonce := uint64(0)
			if str(s["kind"]) == "ask" {
				nonce = 1 << 40
			}
			w.push(x, id, str(s["kind"]), num(s["n"]), nonce, "data")
		case "send", "req":
			if x == nil || x.Raw == nil || nodeclosed {
				continue
			}
			k := 1
			if ev == "send" {
				k = num(s["n"])
			}
			for i := 0; i < k; i++ {
				w.mu.Lock()
				t.Add(M{"ev": "send", "c": id})
				x.sent++
				w.last = time.Now()
				w.mu.Unlock()
				if ev == "send" {
					n.Send(ctx, x.addr, []byte("data"))
				} else {
					go n.Request(ctx, x.addr, []byte("req"))
				}
			}
		case "over":
			if x == nil || x.Raw == nil || nodeclosed {
				continue
			}
			how := str(s["how"])
			<-x.up
			x.mu.Lock()
			if how == "local" {
				waitFor(time.Second, func() bool {
					w.mu.Lock()
					defer w.mu.Unlock()
					return x.client != nil
				})
			}
			kind := "any"
			if how == "half" {
				kind = "drained"
			}
			w.mu.Lock()
			w.last = time.Now()
			if how == "nodeclose" {
				nodeclosed = true
				for i, y := range w.conns {
					if y.ok && y.over == "" {
						y.over = "any"
						t.Add(M{"ev": "over", "c": i + 1, "how": "any"})
					}
				}
			} else {
				x.over = kind
				t.Add(M{"ev": "over", "c": id, "how": kind})
			}
			client := x.client
			w.mu.Unlock()
			switch how {
			case "half":
				x.Conn.(*net.TCPConn).CloseWrite()
			case "close":
				x.Close()
			case "reset":
				x.Conn.(*net.TCPConn).SetLinger(0)
				x.Close()
			case "garbage":
				x.WriteFrame(make([]byte, 40))
			case "local":
				if client != nil {
					client.Close()
				}
			case "nodeclose":
				go n.Close()
			}
			x.mu.Unlock()
			if how == "handler" {
				w.push(x, id, "msg", 1, 0, "fail")
			}
		case "quiet":
			w.quiet()
		}
	}
}
