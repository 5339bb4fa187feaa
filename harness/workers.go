package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["workers"] = driveWorkers
}

type workMsg struct {
	c, at  int
	holds  map[int]chan struct{} // closed once released
	freed  map[int]bool
	in     int // the handler that it is in
	called map[int]bool
	held   bool
	over   bool
	err    error
	nonce  uint64 // not 0 if it is a request
	answer int    // the handler that answers, if any
}

// driveWorkers has a node handle messages of raw peers. Handlers wait, and fail, as planned.
func driveWorkers(t *Trace, plan M, rng *rand.Rand) {
	size := obj(plan["size"])
	nw, nh, nc := num(size["workers"]), num(size["handlers"]), num(plan["conns"])
	race := truth(plan["race"])

	var mu sync.Mutex
	last := time.Now()
	msgs := map[int]*workMsg{}
	dis := map[int]bool{}
	ended := map[int]bool{}
	failed := map[int]bool{}
	var pauses []time.Duration
	for i := 0; i < 64; i++ {
		pauses = append(pauses, time.Duration(rng.Intn(1+[]int{1, 50, 500}[rng.Intn(3)]))*time.Microsecond)
	}

	n, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(64<<10), noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(uint(nw)))
	must(err)
	clients := map[int]*noise.Client{}
	n.Bind(noise.Protocol{
		OnPeerConnected: func(c *noise.Client) {
			mu.Lock()
			defer mu.Unlock()
			clients[int(c.ID().Port)] = c
		},
		OnPeerDisconnected: func(c *noise.Client) {
			mu.Lock()
			defer mu.Unlock()
			id, cause := int(c.ID().Port), 0
			for m, x := range msgs {
				if x.err != nil && errors.Is(c.Error(), x.err) {
					cause = m
				}
			}
			t.Add(M{"ev": "dis", "c": id, "cause": cause})
			dis[id] = true
			last = time.Now()
		}})
	for h := 1; h <= nh; h++ {
		h := h
		n.Handle(func(ctx noise.HandlerContext) error {
			m := 0
			fmt.Sscanf(string(ctx.Data()), "m%d", &m)
			mu.Lock()
			x := msgs[m]
			t.Add(M{"ev": "hand", "m": m, "h": h})
			last = time.Now()
			x.called[h] = true
			hold := x.holds[h]
			x.in = h
			x.held = hold != nil && !x.freed[h]
			mu.Unlock()
			if x.answer == h {
				ctx.Send([]byte("answer"))
			}
			if hold != nil {
				<-hold
			} else if race {
				time.Sleep(pauses[(m+h)%64])
			}
			mu.Lock()
			defer mu.Unlock()
			t.Add(M{"ev": "done", "m": m, "h": h})
			last = time.Now()
			x.held = false
			x.over = h == nh || x.at == h
			if x.at == h {
				ended[x.c], failed[x.c] = true, true
				return x.err
			}
			return nil
		})
	}
	must(n.Listen())

	raws := map[int]*Raw{}
	defer func() {
		t.Over()
		mu.Lock()
		for _, x := range msgs {
			for _, ch := range x.holds {
				select {
				case <-ch:
				default:
					close(ch)
				}
			}
		}
		mu.Unlock()
		for _, r := range raws {
			r.Close()
		}
		if !closeNode(n) {
			t.over = false
			t.Add(M{"ev": "hang"})
		}
	}()
	for c := 1; c <= nc; c++ {
		var r *Raw
		if rng.Intn(2) == 0 {
			r, err = dialRaw(localAddr(n))
			must(err)
			must(r.Handshake(newIdent(net.IPv4(127, 0, 0, 1), uint16(c))))
		} else {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			go n.Ping(context.Background(), ln.Addr().String())
			ln.(*net.TCPListener).SetDeadline(time.Now().Add(longWait))
			x, err := ln.Accept()
			ln.Close()
			if err != nil {
				t.Add(M{"ev": "hang"})
				return
			}
			r = newRaw(x)
			must(r.Handshake(newIdent(net.IPv4(127, 0, 0, 1), uint16(c))))
		}
		raws[c] = r
		go func() {
			for {
				if _, err := r.ReadFrame(); err != nil {
					return
				}
			}
		}()
	}

	settled := func() bool {
		mu.Lock()
		defer mu.Unlock()
		held, waiting := 0, 0
		for _, x := range msgs {
			if x.held {
				held++
			} else if !x.over && !ended[x.c] {
				waiting++
			} else if len(x.called) > 0 && !x.over {
				return false
			}
		}
		for c := range ended {
			if !dis[c] && (held < nw || failed[c]) {
				return false
			}
		}
		return (waiting == 0 || held == nw) && time.Since(last) > 5*time.Millisecond
	}

	for _, y := range list(plan["steps"]) {
		s := obj(y)
		if race && rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(1+[]int{50, 400, 3000}[rng.Intn(3)])) * time.Microsecond)
		}
		c, m := num(s["c"]), num(s["m"])
		switch str(s["ev"]) {
		case "push":
			x := &workMsg{c: c, at: num(s["at"]), holds: map[int]chan struct{}{}, freed: map[int]bool{}, called: map[int]bool{}}
			if rng.Intn(2) == 0 { // Requests, and what was done about them, make no difference.
				x.nonce = uint64(m)
			}
			x.answer = []int{0, 1 + rng.Intn(nh), x.at}[rng.Intn(3)]
			if x.at != 0 {
				x.err = fmt.Errorf("error %d", m)
			}
			for _, h := range list(s["holds"]) {
				x.holds[num(h)] = make(chan struct{})
			}
			mu.Lock()
			msgs[m] = x
			t.Add(s)
			last = time.Now()
			mu.Unlock()
			raws[c].SetWriteDeadline(time.Now().Add(longWait))
			raws[c].WriteMsg(x.nonce, []byte(fmt.Sprintf("m%d", m)))
		case "release":
			mu.Lock()
			t.Add(s)
			last = time.Now()
			x, h := msgs[m], num(s["h"])
			x.freed[h] = true
			if x.in == h {
				x.held = false
			}
			close(x.holds[h])
			mu.Unlock()
		case "lose":
			how := rng.Intn(3)
			mu.Lock()
			cl := clients[c]
			t.Add(s)
			ended[c] = true
			last = time.Now()
			mu.Unlock()
			switch {
			case how == 0 && cl != nil:
				cl.Close()
			case how == 1:
				raws[c].WriteFrame(make([]byte, 50))
			default:
				raws[c].Close()
			}
		case "quiet":
			waitFor(longWait, func() bool {
				if settled() {
					return true
				}
				mu.Lock()
				defer mu.Unlock()
				return time.Since(last) > 3*time.Second
			})
			mu.Lock()
			t.Add(M{"ev": "quiet"})
			mu.Unlock()
		}
	}
}
