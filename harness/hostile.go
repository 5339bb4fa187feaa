package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"syscall"
	"time"

	"crypto/ed25519"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
)

func init() { drivers["hostile"] = driveHostile }

// hole returns a loopback address at which attempts to connect get no answer at all.
func hole() (addr string, release func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		panic(err)
	}
	sa, err := syscall.Getsockname(fd)
	must(err)
	addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	var conns []net.Conn
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 100*time.Millisecond)
		if err != nil {
			break
		}
		conns = append(conns, c)
	}
	return addr, func() {
		for _, c := range conns {
			c.Close()
		}
		syscall.Close(fd)
	}
}

// hostileConn is one connection of a hostile peer.
type hostileConn struct {
	Ident
	x      int
	nid    noise.ID
	ln     net.Listener
	r      *Raw
	stage  string
	mu     sync.Mutex
	reply  string
	deaf   bool
	off    bool
	extra  []*Raw
	last   []byte
	rng    *rand.Rand
	fakes  []byte
	closed chan struct{}
}

func (h *hostileConn) state() (reply string, deaf, off bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.reply, h.deaf, h.off
}

// read takes what the node sends and answers requests in some way.
func (h *hostileConn) read(r *Raw) {
	for {
		if _, deaf, off := h.state(); deaf && !off {
			time.Sleep(20 * time.Millisecond)
			continue
		}
		nonce, data, err := r.ReadMsg()
		if err != nil {
			return
		}
		if nonce == 0 {
			continue
		}
		find := len(data) > 1 && data[0] == 0 && data[1] == 2
		reply, _, _ := h.state()
		switch reply {
		case "pong":
			if find {
				r.WriteMsg(nonce, []byte{0, 3, 0})
			} else {
				r.WriteMsg(nonce, []byte{0, 1})
			}
		case "junk":
			r.WriteMsg(nonce, []byte{7, 7, 7, 7})
		case "wrong":
			r.WriteMsg(nonce, append([]byte{0, 4}, data...))
		case "twice":
			r.WriteMsg(nonce, []byte{0, 1})
			r.WriteMsg(nonce, []byte{0, 1})
			r.WriteMsg(nonce, []byte{0, 3, 0})
			r.WriteMsg(nonce+1, []byte{0, 1})
		case "foundbad":
			bad := [][]byte{{0, 3}, {0, 3, 255}, append([]byte{0, 3, 2}, h.fakes[:50]...), append([]byte{0, 3, 1}, h.fakes[:33]...),
				append([]byte{0, 3, 16}, make([]byte, 16*50)...), append([]byte{0, 3, 1}, h.fakes[:49]...)}
			r.WriteMsg(nonce, bad[nonce%uint64(len(bad))])
		case "foundmany":
			r.WriteMsg(nonce, append([]byte{0, 3, byte(len(h.fakes) / 50)}, h.fakes...))
		case "drop":
			r.Close()
		case "error":
			r.WriteFrame([]byte("certainly not sealed"))
		case "empty":
			r.WriteMsg(nonce, nil)
		case "slow":
			go func() {
				time.Sleep(400 * time.Millisecond)
				r.WriteMsg(nonce, []byte{0, 1})
			}()
		}
	}
}

// frame is something to send that does not belong where the connection is.
func (h *hostileConn) frame(what string) []byte {
	rng, r := h.rng, h.r
	some := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	var good []byte
	switch h.stage {
	case "kex":
		good = r.KexFrame()
	case "id":
		good = idFrame(h.Marshal(), h.Priv, r.Shared)
	default:
		good = msgBytes(uint64(rng.Intn(3)), append([]byte{0, byte(rng.Intn(6))}, some(rng.Intn(60))...))
	}
	cut := func(how string) []byte {
		b := resize(good, how)
		if h.stage != "kex" {
			b = seal(r.Suite, b)
		}
		return b
	}
	switch what {
	case "short", "long", "half":
		return frameBytes(cut(what))
	case "empty":
		return frameBytes(nil)
	case "badsig":
		good[40] ^= 1
		return frameBytes(good)
	case "low":
		k, s := lowOrderKex()
		return frameBytes(append(append([]byte{}, k...), s...))
	case "junkkey":
		return frameBytes(some(96))
	case "zerokey":
		return frameBytes(make([]byte, 96))
	case "hello":
		return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case "plain":
		return frameBytes(good)
	case "flip":
		b := seal(r.Suite, good)
		b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		return frameBytes(b)
	case "tiny":
		return frameBytes(some(rng.Intn(28)))
	case "notmine":
		_, other, err := ed25519.GenerateKey(nil)
		must(err)
		return frameBytes(seal(r.Suite, idFrame(h.Marshal(), other, r.Shared)))
	case "zeros":
		return frameBytes(seal(r.Suite, make([]byte, 114)))
	case "msg":
		return frameBytes(seal(r.Suite, msgBytes(0, []byte("too early"))))
	case "again":
		return frameBytes(r.KexFrame())
	case "reflect", "replay":
		if h.last != nil {
			return frameBytes(h.last)
		}
		return frameBytes(some(96))
	}
	return nil
}

// message is a properly sealed message with content of some kind.
func (h *hostileConn) message(what string) []byte {
	rng := h.rng
	some := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	nonce := []uint64{0, 0, 1, 2, uint64(rng.Intn(1 << 20)), 1 << 63, ^uint64(0)}[rng.Intn(7)]
	op := func(o int, b []byte) []byte { return msgBytes(nonce, append([]byte{byte(o >> 8), byte(o)}, b...)) }
	sizes := []int{0, 1, 2, 30, 31, 32, 33, 34, 49, 50, 51, 100, 1000}
	size := func() int { return sizes[rng.Intn(len(sizes))] }
	switch what {
	case "shortmsg":
		return some(rng.Intn(8))
	case "app":
		return msgBytes(nonce, some(size()))
	case "op":
		return op([]int{0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 65535}[rng.Intn(11)], some(size()))
	case "find":
		return op(2, some(size()))
	case "found":
		b := some(size())
		if len(b) > 0 {
			b[0] = byte([]int{0, 1, 2, 16, 255}[rng.Intn(5)])
		}
		return op(3, b)
	case "gossip":
		return op(4, some([]int{0, 1, 32, 5000, 60000}[rng.Intn(5)]))
	case "ping":
		return op(0, nil)
	case "request":
		nonce = uint64(rng.Intn(100) + 1)
		return op(65535, []byte("canary?"))
	}
	return nil
}

// driveHostile lets hostile peers loose on a node and sees whether an honest one is still served.
func driveHostile(t *Trace, plan M, rng *rand.Rand) {
	const patience = 30 * time.Second
	cfg := obj(plan["cfg"])
	idle := 300*time.Millisecond + time.Duration(num(cfg["idle"]))*time.Millisecond
	node, err := noise.NewNode(noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(uint(num(cfg["workers"]))),
		noise.WithNodeIdleTimeout(idle), noise.WithNodeMaxRecvMessageSize(256<<10))
	must(err)
	var mu sync.Mutex
	taken := map[string]bool{}
	kad := kademlia.New(kademlia.WithProtocolPingTimeout(300 * time.Millisecond))
	hub := gossip.New(kad, gossip.WithEvents(gossip.Events{OnGossipReceived: func(_ noise.ID, b []byte) error {
		mu.Lock()
		defer mu.Unlock()
		taken[string(b)] = true
		return nil
	}}))
	node.Bind(kad.Protocol(), hub.Protocol())
	node.Handle(func(ctx noise.HandlerContext) error {
		if ctx.IsRequest() && strings.HasPrefix(string(ctx.Data()), "\xff\xffcanary?") {
			return ctx.Send([]byte("yes"))
		}
		return nil
	})
	must(node.Listen())

	canary := newRawPeer(newIdent(nil, 0), "ok", nil)
	answers := map[string]bool{}
	canary.serve = func(_ *rawPeer, r *Raw, nonce uint64, data []byte) {
		switch {
		case nonce == 0:
		case string(data) == "\x00\x00":
			r.WriteMsg(nonce, []byte{0, 1})
		case len(data) > 1 && data[0] == 0 && data[1] == 2:
			r.WriteMsg(nonce, []byte{0, 3, 0})
		case string(data) == "canary!":
			r.WriteMsg(nonce, []byte("here"))
		case string(data) == "yes":
			mu.Lock()
			answers[fmt.Sprint(r.LocalAddr(), nonce)] = true
			mu.Unlock()
		}
	}
	stall := newRawPeer(newIdent(nil, 0), "stall", nil)
	refuse, release := refusing()
	nowhere, release2 := hole()
	defer func() {
		canary.Stop()
		stall.Stop()
		release()
		release2()
	}()

	var line *Raw
	asked := uint64(0)
	// request has the canary ask the node for something, over r.
	request := func(r *Raw) bool {
		asked++
		n := asked
		if r.WriteMsg(n, []byte("\xff\xffcanary?")) != nil {
			return false
		}
		gone := false
		waitFor(patience, func() bool {
			mu.Lock()
			defer mu.Unlock()
			if answers[fmt.Sprint(r.LocalAddr(), n)] {
				return true
			}
			canary.mu.Lock()
			gone = !canary.conns[r]
			canary.mu.Unlock()
			return gone
		})
		mu.Lock()
		defer mu.Unlock()
		return answers[fmt.Sprint(r.LocalAddr(), n)]
	}
	// Connections on which nothing has happened for a while may have been closed.
	try := func(f func() bool) bool {
		deadline := time.Now().Add(patience)
		for i := 0; i < 5 || time.Now().Before(deadline); i++ {
			if f() {
				return true
			}
			if time.Now().After(deadline) {
				return false
			}
			time.Sleep(time.Duration(i) * 10 * time.Millisecond)
		}
		return false
	}
	over := func() (r *Raw) {
		canary.mu.Lock()
		up := line != nil && canary.conns[line]
		canary.mu.Unlock()
		if !up {
			var err error
			if line, err = canary.Dial(localAddr(node)); err != nil {
				line = nil
			}
		}
		return line
	}
	sing := func(op string) bool {
		switch op {
		case "request":
			return try(func() bool { r := over(); return r != nil && request(r) })
		case "fresh":
			return try(func() bool {
				r, err := canary.Dial(localAddr(node))
				if err != nil {
					return false
				}
				defer r.Close()
				return request(r)
			})
		case "asked":
			return try(func() bool {
				ctx, cancel := context.WithTimeout(context.Background(), patience)
				defer cancel()
				b, err := node.Request(ctx, canary.nid.Address, []byte("canary!"))
				return err == nil && string(b) == "here"
			})
		case "gossip":
			b := make([]byte, 1+rng.Intn(3000))
			rng.Read(b)
			return try(func() bool {
				r := over()
				if r == nil || r.WriteMsg(0, append([]byte{0, 4}, b...)) != nil {
					return false
				}
				return waitFor(patience/2, func() bool {
					mu.Lock()
					defer mu.Unlock()
					return taken[string(b)]
				})
			})
		case "lookup":
			var target noise.PublicKey
			rng.Read(target[:])
			return within(patience, func() { kad.Find(target, kademlia.WithIteratorLookupTimeout(300*time.Millisecond)) })
		}
		return false
	}

	conns := map[int]*hostileConn{}
	var all []*hostileConn
	defer func() {
		for _, h := range all {
			h.ln.Close()
			h.shut("rst")
		}
	}()
	// offIs is called once the connection of h is known to have been closed.
	clear := func(h *hostileConn) bool {
		ok := waitFor(patience, func() bool {
			pending, zero := 0, 0
			for _, o := range all {
				if _, _, off := o.state(); !off && o.stage != "up" {
					pending++
				}
			}
			for _, c := range append(node.Inbound(), node.Outbound()...) {
				id := c.ID().ID
				if id == h.nid.ID {
					return false
				}
				if id == noise.ZeroPublicKey {
					zero++
				}
			}
			return zero <= pending
		})
		if ok {
			t.Add(M{"ev": "unlisted", "x": h.x})
		} else {
			t.Add(M{"ev": "still listed", "x": h.x})
		}
		return ok
	}
	off := func(h *hostileConn) bool {
		h.mu.Lock()
		was := h.off
		h.off = true
		h.mu.Unlock()
		if was {
			return true
		}
		t.Add(M{"ev": "off", "x": h.x})
		h.ln.Close()
		h.shut("close")
		return clear(h)
	}
	open := func(o M) *hostileConn {
		h := &hostileConn{x: len(all) + 1, stage: "kex", reply: str(o["reply"]), rng: rand.New(rand.NewSource(rng.Int63())), closed: make(chan struct{})}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		h.ln = ln
		h.Ident = newIdent(net.IPv4(127, 0, 0, 1), uint16(ln.Addr().(*net.TCPAddr).Port))
		at := func(addr string) {
			a, err := net.ResolveTCPAddr("tcp", addr)
			must(err)
			h.Host, h.Port = a.IP, uint16(a.Port)
		}
		switch str(o["addr"]) {
		case "canary":
			at(canary.nid.Address)
		case "node":
			h.Port = node.ID().Port
		case "zero":
			h.Host, h.Port = nil, 0
		case "stall":
			at(stall.nid.Address)
		case "refuse":
			at(refuse)
		case "hole":
			at(nowhere)
		case "v6":
			h.Host = net.IPv6loopback
		}
		h.nid, err = noise.UnmarshalID(h.Marshal())
		must(err)
		for i := 0; i < 16; i++ {
			id := newIdent(nil, 0)
			a, _ := net.ResolveTCPAddr("tcp", []string{refuse, refuse, stall.nid.Address, nowhere}[i%4])
			id.Host, id.Port = a.IP, uint16(a.Port)
			h.fakes = append(h.fakes, id.Marshal()...)
		}
		first := make(chan *Raw, 1)
		go func() {
			n := 0
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				r := newRaw(c)
				n++
				if n == 1 && str(o["side"]) == "out" {
					first <- r
					continue
				}
				h.mu.Lock()
				h.extra = append(h.extra, r)
				gone := h.off
				h.mu.Unlock()
				if gone {
					r.Close()
					continue
				}
				go func() {
					defer r.Close()
					if r.Handshake(h.Ident) == nil {
						h.read(r)
					}
				}()
			}
		}()
		if str(o["side"]) == "out" {
			go func() {
				ctx, cancel := context.WithTimeout(context.Background(), 2*patience)
				defer cancel()
				node.Ping(ctx, ln.Addr().String())
			}()
			select {
			case h.r = <-first:
			case <-time.After(patience):
				t.Add(M{"ev": "the node does not dial"})
				return nil
			}
		} else if h.r, err = dialRaw(localAddr(node)); err != nil {
			t.Add(M{"ev": "the node cannot be dialled"})
			return nil
		}
		h.r.OnFrame = func(b []byte) { h.last = append([]byte{}, b...) }
		all = append(all, h)
		t.Add(M{"ev": "open", "x": h.x})
		return h
	}
	good := func(h *hostileConn) bool {
		h.r.SetDeadline(time.Now().Add(patience))
		if h.stage == "kex" {
			if h.r.WriteFrame(h.r.KexFrame()) != nil || h.r.ReadKex() != nil || h.r.Derive() != nil {
				return false
			}
			h.stage = "id"
		} else {
			if h.r.WriteFrame(seal(h.r.Suite, idFrame(h.Marshal(), h.Priv, h.r.Shared))) != nil || h.r.ReadID() != nil {
				return false
			}
			h.stage = "up"
			go h.read(h.r)
		}
		h.r.SetDeadline(time.Time{})
		t.Add(M{"ev": "good", "x": h.x})
		return true
	}
	bad := func(h *hostileConn, what string) {
		t.Add(M{"ev": "bad", "x": h.x, "what": what})
		h.r.SetWriteDeadline(time.Now().Add(2 * time.Second))
		send := func(b []byte) { h.r.Conn.Write(b) }
		some := func(n int) []byte {
			b := make([]byte, n)
			rng.Read(b)
			return b
		}
		msg := func(b []byte) { send(frameBytes(seal(h.r.Suite, b))) }
		switch what {
		case "nothing":
		case "bytes":
			send(some(1 + rng.Intn(300)))
		case "header":
			send([]byte{0, 0, 0, 96}[:1+rng.Intn(4)])
		case "huge":
			send(append([]byte{0xff, 0xff, 0xff, 0xff}, some(rng.Intn(100))...))
		case "over":
			send(append([]byte{0, 4, 0, 1}, some(rng.Intn(100))...))
		case "halfframe":
			send(frameBytes(some(96))[:4+rng.Intn(92)])
		case "drip":
			for _, b := range frameBytes(some(20)) {
				send([]byte{b})
				time.Sleep(time.Millisecond)
			}
		case "answer":
			for i := 0; i < 5; i++ {
				msg(msgBytes(uint64(1+rng.Intn(8)), []byte{0, byte(rng.Intn(5))}))
			}
		case "twice":
			b := frameBytes(seal(h.r.Suite, h.message("op")))
			send(b)
			send(b)
			send(b)
		case "mangled":
			b := h.message([]string{"op", "find", "found", "gossip", "ping", "request"}[rng.Intn(6)])
			for i := 0; i <= rng.Intn(3); i++ {
				switch rng.Intn(3) {
				case 0:
					b = b[:rng.Intn(len(b)+1)]
				case 1:
					b = append(b, some(1+rng.Intn(4))...)
				default:
					if len(b) > 0 {
						b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
					}
				}
			}
			msg(b)
		case "flood":
			for i := 0; i < 200; i++ {
				msg(h.message([]string{"request", "ping", "find", "gossip"}[rng.Intn(4)]))
			}
		case "deaf":
			// Replies and gossip pile up.
			h.mu.Lock()
			h.deaf = true
			h.mu.Unlock()
			for i := 0; i < 300; i++ {
				msg(msgBytes(uint64(i+1), append([]byte{0, 2}, some(32)...)))
			}
		default:
			if b := h.frame(what); b != nil {
				send(b)
			} else {
				msg(h.message(what))
			}
		}
		h.r.SetWriteDeadline(time.Time{})
	}
	for _, x := range list(plan["steps"]) {
		o := obj(x)
		h := conns[num(o["h"])]
		switch str(o["ev"]) {
		case "open":
			if h = open(o); h == nil {
				return
			}
			conns[num(o["h"])] = h
		case "good":
			if _, _, gone := h.state(); !gone && !good(h) && !off(h) {
				return
			}
		case "bad":
			if _, _, gone := h.state(); gone {
				continue
			}
			up := h.stage == "up"
			bad(h, str(o["what"]))
			if !up {
				// No handshake that fails is left alone.
				if !h.r.GoneWithin(patience) {
					t.Add(M{"ev": "a failed handshake stays", "x": h.x})
					return
				}
				if !off(h) {
					return
				}
			}
		case "leave":
			if _, _, gone := h.state(); gone {
				continue
			}
			if str(o["how"]) == "late" {
				time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
			}
			h.shut(str(o["how"]))
			if !off(h) {
				return
			}
		case "canary":
			res := "ok"
			if !sing(str(o["op"])) {
				res = "not served"
			}
			t.Add(M{"ev": "canary", "op": str(o["op"]), "res": res})
			if res != "ok" {
				return
			}
		case "node":
			if _, _, gone := h.state(); gone {
				continue
			}
			t.Add(M{"ev": "node", "op": str(o["op"]), "x": h.x})
			h.mu.Lock()
			h.reply = str(o["reply"])
			h.mu.Unlock()
			addr, op := h.nid.Address, str(o["op"])
			if h.Port == 0 {
				continue
			}
			b := make([]byte, []int{1, 100, 100000}[rng.Intn(3)])
			rng.Read(b)
			var target noise.PublicKey
			rng.Read(target[:])
			go func() {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				defer cancel()
				switch op {
				case "ping":
					node.Ping(ctx, addr)
				case "find":
					kad.Find(target, kademlia.WithIteratorLookupTimeout(300*time.Millisecond))
				case "request":
					node.RequestMessage(ctx, addr, kademlia.Ping{})
				case "push":
					hub.Push(ctx, b)
				case "send":
					node.Send(ctx, addr, b)
				}
			}()
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			}
		}
	}
	for _, h := range all {
		if _, _, gone := h.state(); !gone && !off(h) {
			return
		}
	}
	for _, op := range []string{"request", "asked", "fresh"} {
		if !sing(op) {
			t.Add(M{"ev": "canary", "op": op, "res": "not served"})
			return
		}
	}
	if !within(patience, func() { node.Close() }) {
		t.Add(M{"ev": "hang"})
		return
	}
	if n := len(node.Inbound()) + len(node.Outbound()); n > 0 {
		t.Add(M{"ev": "left over", "n": n})
	}
	t.Add(M{"ev": "end"})
	t.Over()
}

// shut ends the connections of h.
func (h *hostileConn) shut(how string) {
	h.mu.Lock()
	rs := append([]*Raw{h.r}, h.extra...)
	h.mu.Unlock()
	for _, r := range rs {
		c, ok := r.Conn.(*net.TCPConn)
		if how == "half" && ok {
			c.CloseWrite()
			continue
		}
		if how == "rst" && ok {
			c.SetLinger(0)
		}
		r.Close()
	}
}
