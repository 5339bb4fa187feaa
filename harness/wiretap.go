package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"math/rand"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["wiretap"] = driveWiretap
	drivers["sealed"] = driveSealed
}

var marker = []byte("a message in clear text, easily told")

type tapDir struct {
	buf    []byte
	n      int
	eph    string
	nonces []string
	clear  int
	id     int // identity frames in clear
}

// driveWiretap listens in on the line between two nodes.
func driveWiretap(t *Trace, plan M, rng *rand.Rand) {
	conns, msgs := num(plan["conns"]), num(plan["msgs"])
	reseed := truth(plan["reseed"])
	size := num(plan["size"])

	var mu sync.Mutex
	taps := map[int]map[bool]*tapDir{}

	var got int
	mk := func() *noise.Node {
		n, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(1<<20), noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(4))
		must(err)
		n.Handle(func(ctx noise.HandlerContext) error {
			mu.Lock()
			got++
			mu.Unlock()
			if ctx.IsRequest() {
				return ctx.Send(ctx.Data())
			}
			return nil
		})
		must(n.Listen())
		return n
	}
	if reseed {
		rand.Seed(7)
	}
	a, b := mk(), mk()
	defer closeNode(a)
	defer closeNode(b)
	aKey, bKey := a.ID().ID, b.ID().ID
	px := newProxy(localAddr(b))
	defer px.Close()
	px.tap = func(conn int, fromDialer bool, p []byte) {
		mu.Lock()
		defer mu.Unlock()
		if taps[conn] == nil {
			taps[conn] = map[bool]*tapDir{true: {}, false: {}}
		}
		d := taps[conn][fromDialer]
		d.buf = append(d.buf, p...)
		for len(d.buf) >= 4 {
			l := int(binary.BigEndian.Uint32(d.buf))
			if len(d.buf) < 4+l {
				break
			}
			f := d.buf[4 : 4+l]
			d.n++
			if d.n == 1 && l >= 32 {
				d.eph = hex.EncodeToString(f[:32])
				if bytes.Contains(f, aKey[:]) || bytes.Contains(f, bKey[:]) {
					d.clear++
				}
			} else if l < 12 {
				d.clear++
			} else {
				d.nonces = append(d.nonces, hex.EncodeToString(f[:12]))
				if bytes.Contains(f, marker[:16]) || bytes.Contains(f, aKey[:]) || bytes.Contains(f, bKey[:]) {
					d.clear++
				}
			}
			d.buf = append([]byte{}, d.buf[4+l:]...)
		}
	}

	ctx, cancel := context.WithTimeout(context.Background(), 6*longWait)
	defer cancel()
	sent := 0
	for c := 0; c < conns; c++ {
		if reseed {
			rand.Seed(7)
		}
		payload := append([]byte{}, marker...)
		payload = append(payload, make([]byte, size)...)
		var wg sync.WaitGroup
		for s := 0; s < 4; s++ {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < msgs; i++ {
					if s == 0 && reseed && i%20 == 0 {
						rand.Seed(7)
					}
					if s == 0 {
						if i%5 == 0 {
							if _, err := a.Request(ctx, px.Addr(), payload); err != nil {
								return
							}
						}
						continue
					}
					if err := a.Send(ctx, px.Addr(), payload); err != nil {
						return
					}
				}
			}()
		}
		wg.Wait()
		sent += 3*msgs + (msgs+4)/5
		ok := waitFor(longWait, func() bool { mu.Lock(); defer mu.Unlock(); return got >= sent })
		if !ok {
			mu.Lock()
			t.Add(M{"ev": "notall", "got": got, "sent": sent})
			mu.Unlock()
			return
		}
		for _, cl := range a.Outbound() {
			cl.Close()
			cl.WaitUntilClosed()
		}
		waitFor(longWait, func() bool { return len(b.Inbound()) == 0 })
	}
	time.Sleep(time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	for c := 1; c <= len(taps); c++ {
		d, e := taps[c][true], taps[c][false]
		t.Add(M{"ev": "session", "k1": d.eph, "k2": e.eph})
		for _, x := range []*tapDir{d, e} {
			t.Add(M{"ev": "frames", "ns": append([]string{}, x.nonces...), "clear": x.clear})
		}
	}
	t.Add(M{"ev": "end", "sessions": conns})
}

// driveSealed is a peer of a node, and so can tell whether everything the node sends is properly sealed.
func driveSealed(t *Trace, plan M, rng *rand.Rand) {
	msgs := num(plan["msgs"])
	role := str(plan["role"])
	n, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(64<<10), noise.WithNodeMaxDialAttempts(1))
	must(err)
	n.Handle(func(ctx noise.HandlerContext) error {
		if ctx.IsRequest() {
			return ctx.Send(ctx.Data())
		}
		return nil
	})
	must(n.Listen())
	defer closeNode(n)
	if truth(plan["reseed"]) {
		rand.Seed(7)
	}
	id := newIdent([]byte{127, 0, 0, 1}, 4000)
	r, _, addr, err := connectRaw(n, role, id)
	if err != nil {
		t.Add(M{"ev": "noconn", "err": err.Error()})
		return
	}
	defer r.Close()
	t.Add(M{"ev": "session", "k1": hex.EncodeToString(r.PeerEph), "k2": hex.EncodeToString(r.EphPub)})
	nonces, clear := []string{}, 0
	r.OnFrame = func(b []byte) {
		if len(b) < 12 {
			clear++
			return
		}
		nonces = append(nonces, hex.EncodeToString(b[:12]))
		if _, err := open(r.Suite, b); err != nil {
			clear++
		}
	}
	r.SetDeadline(time.Now().Add(3 * longWait))
	go func() {
		for i := 0; i < msgs; i++ {
			if i%20 == 0 && truth(plan["reseed"]) {
				time.Sleep(200 * time.Microsecond)
				rand.Seed(7)
			}
			if role == "accept" {
				if r.WriteMsg(uint64(i+1), bytes.Repeat(marker, 1+i%40)) != nil {
					return
				}
			} else if n.Send(context.Background(), addr, bytes.Repeat(marker, i%40)) != nil {
				return
			}
		}
	}()
	count := 0
	for ; count < msgs; count++ {
		if _, err := r.ReadFrame(); err != nil {
			break
		}
	}
	t.Add(M{"ev": "frames", "ns": nonces, "clear": clear})
	if count < msgs {
		t.Add(M{"ev": "notall", "got": count, "sent": msgs})
		return
	}
	t.Add(M{"ev": "end", "sessions": 1})
}
