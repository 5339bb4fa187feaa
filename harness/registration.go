package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["registration"] = driveRegistration
}

type bindError struct{ p int }

func (e *bindError) Error() string { return fmt.Sprintf("protocol %d does not want to", e.p) }

type regWorld struct {
	t      *Trace
	n      *noise.Node
	mu     sync.Mutex
	calls  int
	nh     int
	protos []interface{}
	seen   map[string][]int        // message -> handlers it was given to
	raised map[string]map[int]bool // callback -> protocols
	socket string
	port   int
}

// do makes a call that is noted when it begins and when it has returned.
func (w *regWorld) do(r M, f func()) {
	w.mu.Lock()
	w.calls++
	i := w.calls
	w.t.Add(M{"ev": "call", "i": i, "r": r})
	w.mu.Unlock()
	f()
	w.t.Add(M{"ev": "ret", "i": i})
}

func (w *regWorld) register(k string, ids []int) {
	r := M{"k": k, "ids": ids}
	if k == "h" {
		var hs []noise.Handler
		for _, id := range ids {
			hs = append(hs, w.handler(id))
		}
		w.do(r, func() { w.n.Handle(hs...) })
	} else {
		var ps []noise.Protocol
		for _, id := range ids {
			ps = append(ps, w.protocol(id))
		}
		w.do(r, func() { w.n.Bind(ps...) })
	}
}

func (w *regWorld) handler(id int) noise.Handler {
	return func(ctx noise.HandlerContext) error {
		w.mu.Lock()
		m := string(ctx.Data())
		w.seen[m] = append(w.seen[m], id)
		w.mu.Unlock()
		if id == 1 {
			return ctx.Send([]byte("seen"))
		}
		return nil
	}
}

func (w *regWorld) raise(what string, p int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.raised[what] == nil {
		w.raised[what] = map[int]bool{}
	}
	w.raised[what][p] = true
}

func (w *regWorld) count(what string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.raised[what])
}

func (w *regWorld) spec(p int) M {
	w.mu.Lock()
	defer w.mu.Unlock()
	return obj(w.protos[p-1])
}

func (w *regWorld) protocol(p int) noise.Protocol {
	x := noise.Protocol{
		OnPeerConnected:    func(*noise.Client) { w.raise("connected", p) },
		OnPeerDisconnected: func(*noise.Client) { w.raise("gone", p) },
		OnMessageSent:      func(*noise.Client) { w.raise("sent", p) },
		OnMessageRecv:      func(*noise.Client) { w.raise("recv", p) },
		OnPingFailed:       func(string, error) { w.raise("failed", p) },
	}
	y := w.spec(p)
	if str(y["b"]) == "none" {
		return x
	}
	x.Bind = func(n *noise.Node) error {
		w.t.Add(M{"ev": "binding", "p": p})
		w.mu.Lock()
		w.port = int(n.ID().Port)
		w.socket = listeningSocket(w.port)
		w.mu.Unlock()
		for _, s := range list(y["subs"]) {
			var ids []int
			k := str(s)[:1]
			for range str(s) {
				w.mu.Lock()
				if k == "h" {
					w.nh++
					ids = append(ids, w.nh)
				} else {
					w.protos = append(w.protos, M{"b": "ok", "subs": []string{}})
					ids = append(ids, len(w.protos))
				}
				w.mu.Unlock()
			}
			w.register(k, ids)
		}
		if str(y["b"]) == "close" {
			w.do(M{"k": "close", "ids": []int{}}, func() { n.Close() })
		}
		ok := str(y["b"]) != "fail"
		w.t.Add(M{"ev": "bound", "p": p, "ok": ok})
		if !ok {
			return &bindError{p}
		}
		return nil
	}
	return x
}

// use has a peer connect and send something, and tells who gets to know.
func (w *regWorld) use(tag string) bool {
	w.mu.Lock()
	w.raised = map[string]map[int]bool{}
	w.mu.Unlock()
	r, err := dialRaw(localAddr(w.n))
	if err != nil {
		w.t.Add(M{"ev": "nobody listens"})
		return false
	}
	defer r.Close()
	if err := r.Handshake(newIdent(net.IPv4(127, 0, 0, 1), 9)); err != nil {
		w.t.Add(M{"ev": "no handshake"})
		return false
	}
	// There is one worker: once the second message is being handled all has been done about the first.
	r.WriteMsg(0, []byte(tag+"1"))
	r.WriteMsg(0, []byte(tag+"2"))
	waitFor(longWait, func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return len(w.seen[tag+"2"]) > 0
	})
	all := w.count("connected")
	waitFor(longWait, func() bool { return w.count("sent") >= all && w.count("recv") >= all })
	r.Close()
	waitFor(longWait, func() bool { return w.count("gone") >= all })
	addr, release := refusing()
	defer release()
	ctx, cancel := context.WithTimeout(context.Background(), longWait)
	defer cancel()
	if _, err := w.n.Ping(ctx, addr); err == nil {
		w.t.Add(M{"ev": "reached nobody"})
		return false
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	handled := w.seen[tag+"1"]
	if handled == nil {
		handled = []int{}
	}
	m := M{"ev": "use", "handled": handled}
	for _, f := range []string{"connected", "recv", "sent", "gone", "failed"} {
		m[f] = sortedInts(w.raised[f])
	}
	w.t.Add(m)
	return true
}

func driveRegistration(t *Trace, plan M, rng *rand.Rand) {
	opts := []noise.NodeOption{noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(64 << 10)}
	inuse := truth(plan["inuse"])
	if inuse {
		ln, err := net.Listen("tcp", ":0")
		must(err)
		defer ln.Close()
		opts = append(opts, noise.WithNodeBindPort(uint16(ln.Addr().(*net.TCPAddr).Port)))
	}
	n, err := noise.NewNode(opts...)
	must(err)
	defer closeNode(n)
	w := &regWorld{t: t, n: n, nh: 1000, seen: map[string][]int{}}
	for _, x := range list(plan["protos"]) {
		w.protos = append(w.protos, x)
	}
	closes := false
	w.register("h", []int{1})

	run := func(ops []interface{}) {
		for _, x := range ops {
			o := obj(x)
			switch str(o["ev"]) {
			case "register":
				var ids []int
				for _, id := range list(o["ids"]) {
					ids = append(ids, num(id))
				}
				w.register(str(o["k"]), ids)
			case "pause":
				time.Sleep(time.Duration(num(o["us"])) * time.Microsecond)
			case "close":
				w.do(M{"k": "close", "ids": []int{}}, func() { n.Close() })
			}
		}
	}
	ok := false
	listen := func() {
		t.Add(M{"ev": "listen"})
		err := n.Listen()
		var be *bindError
		switch {
		case err == nil:
			t.Add(M{"ev": "listening", "s": "ok", "p": 0})
			ok = true
		case errors.As(err, &be):
			t.Add(M{"ev": "listening", "s": "err", "p": be.p})
		case inuse:
			t.Add(M{"ev": "listening", "s": "inuse", "p": 0})
		default:
			t.Add(M{"ev": "listening", "s": "err", "p": 0})
		}
	}
	threads := list(plan["threads"])
	for _, th := range threads {
		for _, o := range list(th) {
			closes = closes || str(obj(o)["ev"]) == "close"
		}
	}
	for _, p := range w.protos {
		closes = closes || str(obj(p)["b"]) == "close"
	}
	over := within(3*longWait, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, th := range threads {
			ops := list(th)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				run(ops)
			}()
		}
		close(start)
		if !truth(plan["race"]) {
			wg.Wait()
		} else {
			time.Sleep(time.Duration(rng.Intn(400)) * time.Microsecond)
		}
		listen()
		wg.Wait()
	})
	if !over {
		t.Add(M{"ev": "hang"})
		t.Over()
		return
	}
	released := func() bool { return w.socket == "" || listeningSocket(w.port) != w.socket }
	if ok && !closes {
		if w.port == 0 {
			w.port = int(n.ID().Port)
			w.socket = listeningSocket(w.port)
		}
		if w.use("a") {
			for _, x := range list(plan["after"]) {
				if str(obj(x)["ev"]) == "again" {
					s := "err"
					if !within(longWait, func() {
						if n.Listen() == nil {
							s = "ok"
						}
					}) {
						s = "hang"
					}
					t.Add(M{"ev": "again", "s": s})
				} else {
					run([]interface{}{x})
				}
			}
			w.use("b")
		}
		t.Add(M{"ev": "port", "taken": listeningSocket(w.port) == w.socket})
		w.do(M{"k": "close", "ids": []int{}}, func() { closeNode(n) })
		t.Add(M{"ev": "port", "taken": !waitFor(longWait, released)})
	} else if !inuse {
		w.do(M{"k": "close", "ids": []int{}}, func() { closeNode(n) })
		t.Add(M{"ev": "port", "taken": !waitFor(longWait, released)})
	}
	t.Over()
	plan["protos"] = w.protos
}
