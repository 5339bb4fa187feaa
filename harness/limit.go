package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"math/rand"
	"net"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["limit"] = driveLimit
}

type limitConn struct {
	raw    *Raw
	client *noise.Client // that of the node under test
	peer   *noise.Node   // a node at the other end, instead of raw
	addr   string
	out    string
	id     [32]byte
}

func halves(n uint64) []int { return []int{int(n >> 16), int(n & 0xffff)} }

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// driveLimit has peers send a node frames of sizes around its limit.
func driveLimit(t *Trace, plan M, rng *rand.Rand) {
	limit := uint64(num(plan["lim"]))
	watch := truth(plan["watch"]) // for what is allocated: nothing else is going on
	t.Plan = M{"limit": halves(limit), "steps": plan["steps"]}

	var mu sync.Mutex
	handled := map[[32]byte][]interface{}{}
	wrong := map[[32]byte]bool{}
	n, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(uint32(limit)), noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(1))
	must(err)
	n.Handle(func(ctx noise.HandlerContext) error {
		mu.Lock()
		defer mu.Unlock()
		id := [32]byte(ctx.ID().ID)
		if bytes.HasPrefix(ctx.Data(), []byte("probe")) {
			return ctx.Send([]byte("here"))
		}
		for i, b := range ctx.Data() {
			if b != byte(i*7) {
				wrong[id] = true
				break
			}
		}
		handled[id] = append(handled[id], halves(uint64(len(ctx.Data()))+36))
		return nil
	})
	must(n.Listen())
	defer closeNode(n)
	seen := func(c *limitConn) []interface{} {
		mu.Lock()
		defer mu.Unlock()
		if wrong[c.id] {
			return []interface{}{"altered"}
		}
		return append([]interface{}{}, handled[c.id]...)
	}
	listed := func(c *limitConn) bool {
		for _, x := range append(n.Inbound(), n.Outbound()...) {
			if x == c.client {
				return true
			}
		}
		return false
	}
	why := func(c *limitConn) string {
		if !within(longWait, c.client.WaitUntilClosed) {
			return "up"
		}
		if errors.Is(c.client.Error(), noise.ErrMessageTooLarge) {
			return "toolarge"
		}
		return "bad"
	}

	conns := map[int]*limitConn{}
	defer func() {
		for _, c := range conns {
			if c.raw != nil {
				c.raw.Close()
			}
			if c.peer != nil {
				closeNode(c.peer)
			}
		}
	}()
	// connect makes a connection and notes the client the node has for it.
	connect := func(role string) *limitConn {
		c := &limitConn{}
		inbound := func(f func()) {
			before := map[*noise.Client]bool{}
			for _, x := range n.Inbound() {
				before[x] = true
			}
			f()
			waitFor(longWait, func() bool {
				for _, x := range n.Inbound() {
					if !before[x] {
						c.client = x
						return true
					}
				}
				return false
			})
		}
		switch role {
		case "accept", "dial":
			id := newIdent(net.IPv4(127, 0, 0, 1), 9)
			copy(c.id[:], id.Pub)
			if role == "accept" {
				inbound(func() {
					r, err := dialRaw(localAddr(n))
					must(err)
					c.raw = r
				})
			} else {
				ln, err := net.Listen("tcp", "127.0.0.1:0")
				must(err)
				defer ln.Close()
				go func() {
					ctx, cancel := context.WithTimeout(context.Background(), 2*longWait)
					defer cancel()
					n.Ping(ctx, ln.Addr().String())
				}()
				x, err := ln.Accept()
				must(err)
				c.raw = newRaw(x)
				waitFor(longWait, func() bool {
					for _, x := range n.Outbound() {
						known := false
						for _, o := range conns {
							known = known || o.client == x
						}
						if !known {
							c.client = x
							return true
						}
					}
					return false
				})
			}
			if c.client == nil {
				return nil
			}
			c.raw.SetDeadline(time.Now().Add(longWait))
			err := c.raw.Handshake(id)
			c.raw.SetDeadline(time.Time{})
			c.out = "up"
			c.client.WaitUntilReady()
			if err != nil || c.client.Error() != nil {
				c.out = why(c)
			}
		case "node":
			p, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(1<<20), noise.WithNodeMaxDialAttempts(1))
			must(err)
			must(p.Listen())
			c.peer = p
			c.id = [32]byte(p.ID().ID)
			// The client is listed from when the connection is accepted until it is refused.
			done := make(chan struct{})
			before := map[*noise.Client]bool{}
			for _, x := range n.Inbound() {
				before[x] = true
			}
			go func() {
				ctx, cancel := context.WithTimeout(context.Background(), 2*longWait)
				defer cancel()
				p.Ping(ctx, localAddr(n))
				close(done)
			}()
			waitFor(longWait, func() bool {
				for _, x := range n.Inbound() {
					if !before[x] {
						c.client = x
						return true
					}
				}
				select {
				case <-done:
					return true
				default:
					return false
				}
			})
			<-done
			if c.client == nil {
				c.out = "unseen"
			} else if c.client.WaitUntilReady(); c.client.Error() != nil {
				c.out = why(c)
			} else {
				c.out = "up"
			}
		}
		return c
	}
	content := func(k int) []byte {
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(i * 7)
		}
		return b
	}

	for _, s := range list(plan["steps"]) {
		x := obj(s)
		id := num(x["c"])
		c := conns[id]
		switch str(x["ev"]) {
		case "connect":
			if c != nil {
				continue
			}
			role := str(x["role"])
			c = connect(role)
			if c == nil {
				t.Add(M{"ev": "not listed"})
				return
			}
			conns[id] = c
			if c.out == "unseen" { // too quick to be seen in the list
				c.out = "toolarge"
			}
			t.Add(M{"ev": "connect", "c": id, "role": role, "sizes": [][]int{halves(96), halves(142)}, "out": c.out, "handled": seen(c), "alloc": false})
		case "frame":
			if c == nil || c.out != "up" {
				continue
			}
			whole := truth(x["whole"])
			size := int64(0)
			if h := str(x["hex"]); h != "" {
				v, err := strconv.ParseUint(h, 16, 32)
				must(err)
				size = int64(v)
			} else if _, ok := x["rel"]; ok {
				size = int64(limit) + int64(num(x["rel"]))
			} else {
				size = int64(num(x["abs"]))
			}
			if size < 0 || (c.peer != nil && (size < 36 || !whole)) || (!whole && limit == 0) {
				continue
			}
			fits := limit == 0 || uint64(size) <= limit
			before := len(seen(c))
			var was uint64
			if watch {
				runtime.GC()
				was = allocated()
			}
			switch {
			case c.peer != nil:
				c.peer.Send(context.Background(), localAddr(n), content(int(size)-36))
			case !whole:
				var h [4]byte
				binary.BigEndian.PutUint32(h[:], uint32(size))
				c.raw.Write(h[:])
			case size < 36:
				c.raw.WriteFrame(make([]byte, size))
			default:
				// What the node refuses to read may make the connection end before all is written.
				c.raw.SetWriteDeadline(time.Now().Add(longWait))
				c.raw.WriteMsg(0, content(int(size)-36))
				c.raw.SetWriteDeadline(time.Time{})
			}
			if fits && size >= 36 && whole {
				waitFor(longWait, func() bool { return len(seen(c)) > before || c.client.Error() != nil })
				if c.client.Error() != nil {
					c.out = why(c)
				}
			} else {
				c.out = why(c)
			}
			alloc := watch && allocated()-was > uint64(size)/2+1<<20
			t.Add(M{"ev": "frame", "c": id, "size": halves(uint64(size)), "whole": whole, "out": c.out, "handled": seen(c), "alloc": alloc && !fits})
			if !fits && c.out == "up" {
				return // it is waiting for the rest, and would take all that follows for that
			}
		}
	}
	serves, inList, all := make([]bool, 3), make([]bool, 3), make([]interface{}, 3)
	for i := 1; i <= 3; i++ {
		all[i-1] = []interface{}{}
		c := conns[i]
		if c == nil {
			continue
		}
		probe := []byte("probe")
		if c.peer != nil {
			if c.out == "up" { // the connection it has, and not a new one
				was := n.Inbound()
				ctx, cancel := context.WithTimeout(context.Background(), longWait)
				b, err := c.peer.Request(ctx, localAddr(n), probe)
				cancel()
				serves[i-1] = err == nil && string(b) == "here" && len(n.Inbound()) == len(was)
			}
		} else if c.raw.WriteMsg(5, probe) == nil {
			c.raw.SetReadDeadline(time.Now().Add(longWait))
			_, b, err := c.raw.ReadMsg()
			serves[i-1] = err == nil && string(b) == "here"
		}
		if c.client != nil {
			inList[i-1] = listed(c)
		}
		all[i-1] = seen(c)
	}
	t.Add(M{"ev": "end", "serves": serves, "listed": inList, "handled": all})
}
