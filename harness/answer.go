package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["answer"] = driveAnswer
}

// driveAnswer has the handlers of a node make attempts at answering what raw peers ask.
func driveAnswer(t *Trace, plan M, rng *rand.Rand) {
	hs, conns := num(plan["handlers"]), num(plan["conns"])
	msgs := list(plan["msgs"])
	plan["nreqs"] = len(msgs) + conns

	type try struct {
		h, i int
		how  string
	}
	tries := map[int][]try{}
	for k, x := range msgs {
		for i, y := range list(obj(x)["tries"]) {
			tries[k+1] = append(tries[k+1], try{num(obj(y)["h"]), i + 1, str(obj(y)["how"])})
		}
	}
	for c := 1; c <= conns; c++ {
		tries[len(msgs)+c] = []try{{1, 1, "inline"}}
	}

	var mu sync.Mutex
	var wg sync.WaitGroup
	attempt := func(ctx noise.HandlerContext, r, i int, start chan struct{}) {
		t.Add(M{"ev": "try", "r": r, "i": i})
		b := make([]byte, 8+rngIntn(100))
		binary.BigEndian.PutUint32(b, uint32(r))
		binary.BigEndian.PutUint32(b[4:], uint32(i))
		var err error
		if start == nil {
			err = ctx.Send(b)
		} else {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				err := ctx.Send(b)
				t.Add(M{"ev": "tried", "r": r, "i": i, "ok": err == nil})
			}()
			return
		}
		t.Add(M{"ev": "tried", "r": r, "i": i, "ok": err == nil})
	}

	var later []func()
	over := map[int]chan struct{}{}
	for r := range tries {
		over[r] = make(chan struct{})
	}
	for k := range msgs {
		if over[k+1] == nil {
			over[k+1] = make(chan struct{})
		}
	}
	n, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(64<<10), noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(2))
	must(err)
	for h := 1; h <= hs; h++ {
		h := h
		n.Handle(func(ctx noise.HandlerContext) error {
			if len(ctx.Data()) < 4 {
				return nil
			}
			r := int(binary.BigEndian.Uint32(ctx.Data()))
			start := make(chan struct{})
			for _, x := range tries[r] {
				if x.h != h {
					continue
				}
				x := x
				switch x.how {
				case "inline":
					attempt(ctx, r, x.i, nil)
				case "go":
					wg.Add(1)
					go func() { defer wg.Done(); attempt(ctx, r, x.i, nil) }()
				case "race":
					attempt(ctx, r, x.i, start)
				case "later":
					mu.Lock()
					later = append(later, func() { attempt(ctx, r, x.i, nil) })
					mu.Unlock()
				}
			}
			close(start)
			if h == hs {
				mu.Lock()
				if ch := over[r]; ch != nil {
					close(ch)
					over[r] = nil
				}
				mu.Unlock()
			}
			return nil
		})
	}
	must(n.Listen())
	defer closeNode(n)

	peers := map[int]*Raw{}
	nonce := map[int]uint64{}
	synced := make(chan struct{}, conns)
	for c := 1; c <= conns; c++ {
		c := c
		p, _, _, err := connectRaw(n, "accept", newIdent(net.IPv4(127, 0, 0, 1), uint16(3000+c)))
		if err != nil {
			t.Add(M{"ev": "noconn", "err": err.Error()})
			return
		}
		defer p.Close()
		peers[c] = p
		nonce[c] = uint64(rng.Intn(1000))
		go func() {
			for {
				k, data, err := p.ReadMsg()
				if err != nil {
					return
				}
				if len(data) < 8 {
					t.Add(M{"ev": "strange"})
					continue
				}
				r, i := binary.BigEndian.Uint32(data), binary.BigEndian.Uint32(data[4:])
				t.Add(M{"ev": "got", "c": c, "n": k, "a": []uint32{r, i}})
				if int(r) > len(msgs) {
					synced <- struct{}{}
				}
			}
		}()
	}
	ask := func(r, c int, req, same bool) bool {
		k := uint64(0)
		if req {
			if !same || nonce[c] == 0 {
				nonce[c]++
			}
			k = nonce[c]
		}
		mu.Lock()
		ch := over[r]
		mu.Unlock()
		t.Add(M{"ev": "ask", "r": r, "c": c, "n": k})
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, uint32(r))
		peers[c].WriteMsg(k, b)
		select {
		case <-ch:
			return true
		case <-time.After(longWait):
			t.Add(M{"ev": "nohandler", "msg": fmt.Sprint(r)})
			return false
		}
	}
	for k, x := range msgs {
		f := obj(x)
		if !ask(k+1, num(f["c"]), truth(f["req"]), truth(f["same"])) {
			return
		}
		if rng.Intn(2) == 0 { // some time, or not, for goroutines
			wg.Wait()
		}
		mu.Lock()
		now := later
		if rng.Intn(2) == 0 {
			later = nil
		} else {
			now = nil
		}
		mu.Unlock()
		for _, g := range now {
			g()
		}
	}
	for _, g := range later {
		g()
	}
	wg.Wait()
	for c := 1; c <= conns; c++ {
		if !ask(len(msgs)+c, c, true, false) {
			return
		}
	}
	for c := 1; c <= conns; c++ {
		select {
		case <-synced:
		case <-time.After(longWait):
		}
	}
	t.Add(M{"ev": "end"})
}
