package main

import (
	"bytes"
	"context"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/oasislabs/ed25519"
	"github.com/perlin-network/noise"
)

func init() {
	drivers["node"] = driveNode
}

// nodeConn is the remote end of a connection of the node.
type nodeConn struct {
	*Raw
	id      int
	how     string
	stage   int // how far a stalled handshake is
	rest    []byte
	stalled chan struct{}
	finish  bool
	ended   bool
	wmu     sync.Mutex
	nonces  map[int]uint64
}

type nodeCall struct {
	k, s, e string
	id      int
	rcv     int
	ctx     *manualCtx
	at      *nodeConn
}

// nodeWorld is a node and all that surrounds it.
type nodeWorld struct {
	mu    sync.Mutex
	t     *Trace
	n     *noise.Node
	rng   *rand.Rand
	addrs []string
	modes []string
	acc   []int
	pf    []int
	more  []int // notifications of failed pings beyond those expected, so far
	conns map[int]*nodeConn
	calls []*nodeCall
	con   []int
	dis   []int
	ids   map[*noise.Client]int
	byID  map[int]*noise.Client
	ret   int
	close chan struct{}
	loose chan struct{} // closed at the end
	flood bool

	final bool // whether to look twice

	handled int64
}

func (w *nodeWorld) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}

func (w *nodeWorld) log(m M) { w.t.Add(m) }

func (w *nodeWorld) end(c *nodeConn) {
	c.Close()
	w.mu.Lock()
	c.ended = true
	w.mu.Unlock()
}

func (w *nodeWorld) isEnded(c *nodeConn) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return c.ended
}

// listeningSocket identifies the socket that listens to a port.
func listeningSocket(port int) string {
	want := fmt.Sprintf(":%04X", port)
	for _, f := range []string{"/proc/self/net/tcp6", "/proc/self/net/tcp"} {
		raw, err := os.ReadFile(f)
		must(err)
		for _, line := range strings.Split(string(raw), "\n") {
			fs := strings.Fields(line)
			if len(fs) > 9 && strings.HasSuffix(fs[1], want) && fs[3] == "0A" {
				return f + fs[9]
			}
		}
	}
	return ""
}

// accepted tells whether the other end of a connection to the node, which is in this process, is a socket that is open:
// one that came in while the node stopped listening may have none.
func accepted(c net.Conn) bool {
	l, r := c.LocalAddr().(*net.TCPAddr), c.RemoteAddr().(*net.TCPAddr)
	here, there := fmt.Sprintf(":%04X", r.Port), fmt.Sprintf(":%04X", l.Port)
	if l.Port == r.Port {
		return false // connected to itself
	}
	for _, f := range []string{"/proc/self/net/tcp6", "/proc/self/net/tcp"} {
		raw, err := os.ReadFile(f)
		must(err)
		for _, line := range strings.Split(string(raw), "\n") {
			fs := strings.Fields(line)
			if len(fs) > 9 && strings.HasSuffix(fs[1], here) && strings.HasSuffix(fs[2], there) && fs[9] != "0" {
				return true
			}
		}
	}
	return false
}

const failures = 7

// failHandshake plays a remote end that does not complete the handshake.
func failHandshake(c *Raw, id Ident, how int) {
	switch how {
	case 0:
	case 1:
		c.WriteFrame(c.KexFrame())
		c.ReadKex()
	case 2:
		b := c.KexFrame()
		b[40] ^= 1
		c.WriteFrame(b)
		c.GoneWithin(time.Hour)
	case 3: // an identity signed by somebody else
		c.WriteFrame(c.KexFrame())
		if c.ReadKex() == nil && c.Derive() == nil {
			c.WriteFrame(seal(c.Suite, idFrame(id.Marshal(), newIdent(nil, 1).Priv, c.Shared)))
		}
		c.GoneWithin(time.Hour)
	case 4:
		c.Conn.(*net.TCPConn).SetLinger(0)
	case 5:
		c.WriteFrame(nil)
		c.GoneWithin(time.Hour)
	case 6: // nothing more after the key exchange
		c.WriteFrame(c.KexFrame())
		c.Conn.(*net.TCPConn).CloseWrite()
		c.GoneWithin(time.Hour)
	}
}

// serve plays the remote end of c until it is over.
func (w *nodeWorld) serve(c *nodeConn, mode string) {
	defer w.end(c)
	id := newIdent(net.IPv4(127, 0, 0, 1), uint16(c.id))
	switch mode {
	case "fail", "fail1", "fail2":
		failHandshake(c.Raw, id, w.intn(failures))
		return
	case "stall":
		if c.stage > 0 {
			if c.WriteFrame(c.KexFrame()) != nil || c.ReadKex() != nil || c.Derive() != nil {
				return
			}
			c.rest = frameBytes(seal(c.Suite, idFrame(id.Marshal(), id.Priv, c.Shared)))
			if c.stage > 1 {
				k := 1 + w.intn(len(c.rest)-1)
				if _, err := c.Conn.Write(c.rest[:k]); err != nil {
					return
				}
				c.rest = c.rest[k:]
			}
		}
		close(c.stalled)
		_, err := c.br.Peek(400)
		w.mu.Lock()
		fin := c.finish
		w.mu.Unlock()
		var ne net.Error
		if !fin || !errors.As(err, &ne) || !ne.Timeout() {
			return
		}
		c.SetReadDeadline(time.Time{})
		if c.stage == 0 {
			if c.Handshake(id) != nil {
				return
			}
		} else {
			if _, err := c.Conn.Write(c.rest); err != nil {
				return
			}
			if c.ReadID() != nil {
				return
			}
		}
	default:
		if c.Handshake(id) != nil {
			return
		}
	}
	if w.flood {
		go func() {
			for i := 0; ; i++ {
				select {
				case <-w.loose:
					return
				case <-time.After(time.Duration(200+w.intn(2000)) * time.Microsecond):
				}
				if c.put(0, []byte("flood")) != nil {
					return
				}
			}
		}()
	}
	for {
		nonce, data, err := c.ReadMsg()
		if err != nil {
			return
		}
		if len(data) < 2 || data[0] != 'c' {
			continue
		}
		i, _ := strconv.Atoi(string(data[1:]))
		w.mu.Lock()
		k := w.calls[i-1]
		if k.rcv != 0 {
			k.rcv = -1
		} else {
			k.rcv = c.id
			k.at = c
		}
		c.nonces[i] = nonce
		w.mu.Unlock()
	}
}

func (c *nodeConn) put(nonce uint64, data []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.SetWriteDeadline(time.Now().Add(longWait))
	return c.WriteMsg(nonce, data)
}

func (w *nodeWorld) newConn(x net.Conn, id int, how string) *nodeConn {
	return &nodeConn{Raw: newRaw(x), id: id, how: how, stage: w.rng.Intn(3), stalled: make(chan struct{}), nonces: map[int]uint64{}}
}

func (w *nodeWorld) accept(a int, ln net.Listener) {
	for {
		x, err := ln.Accept()
		if err != nil {
			return
		}
		w.mu.Lock()
		w.acc[a]++
		mode := w.modes[a]
		switch mode {
		case "fail2":
			w.modes[a] = "fail1"
		case "fail1":
			w.modes[a] = "up"
		}
		c := w.newConn(x, 1000*(a+1)+w.acc[a], mode)
		w.log(M{"ev": "accepted", "a": a + 1, "j": w.acc[a]})
		w.conns[c.id] = c
		w.mu.Unlock()
		go w.serve(c, mode)
	}
}

// conn returns the remote end of a connection, which may be on its way yet.
func (w *nodeWorld) conn(id int) (c *nodeConn) {
	waitFor(time.Second, func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		c = w.conns[id]
		return c != nil
	})
	return
}

func (w *nodeWorld) obs() M {
	ids := func(cs []*noise.Client) []int {
		out := []int{}
		for _, c := range cs {
			out = append(out, w.ids[c])
		}
		return out
	}
	o, i := w.n.Outbound(), w.n.Inbound()
	w.mu.Lock()
	defer w.mu.Unlock()
	calls, rcv, live := []M{}, []int{}, []int{}
	for _, k := range w.calls {
		calls = append(calls, M{"s": k.s, "e": k.e, "id": k.id})
		rcv = append(rcv, k.rcv)
	}
	for id, c := range w.conns {
		if !c.ended && !(w.final && id > 9000 && !accepted(c.Conn)) {
			live = append(live, id)
		}
	}
	con, dis := append([]int{}, w.con...), append([]int{}, w.dis...)
	sort.Ints(con)
	sort.Ints(dis)
	sort.Ints(live)
	return M{"out": ids(o), "inn": ids(i), "calls": calls, "con": con, "dis": dis, "live": live, "rcv": rcv,
		"pf": append([]int{}, w.pf...), "acc": append([]int{}, w.acc...), "ret": w.ret}
}

// rest waits for the node to come to rest, which is when it looks as it is expected to, or, and that is for sure, does
// not change any more.
func (w *nodeWorld) rest(want M, race bool) (o M, sure bool) {
	// Whether a call that gives up is notified as a failed ping is left open. Once it differs, it stays that way.
	pf := []int{}
	for a, x := range list(want["pf"]) {
		pf = append(pf, num(x)+w.more[a])
	}
	expect := M{}
	for k, v := range want {
		expect[k] = v
	}
	expect["pf"] = pf
	expected, err := json.Marshal(expect)
	must(err)
	defer func() {
		for a, x := range list(want["pf"]) {
			w.more[a] = o["pf"].([]int)[a] - num(x)
		}
	}()
	var now []byte
	look := func() {
		o = w.obs()
		now, err = json.Marshal(o)
		must(err)
	}
	pause := 2 * time.Millisecond
	if race { // It may look that way on its way to somewhere else.
		pause = 400 * time.Millisecond
	}
	for i := 0; i < 100; i++ {
		if look(); bytes.Equal(now, expected) {
			time.Sleep(pause)
			if look(); bytes.Equal(now, expected) {
				return o, false
			}
		}
		time.Sleep(time.Duration(100*(i+1)) * time.Microsecond)
	}
	for total, still := 0, 0; still < 40 && total < 200; total++ {
		before := now
		time.Sleep(50 * time.Millisecond)
		if look(); bytes.Equal(now, expected) && !race {
			return o, false
		}
		if bytes.Equal(now, before) {
			still++
		} else {
			still = 0
		}
	}
	w.final = true
	look()
	w.final = false
	return o, true
}

func (w *nodeWorld) drop(c *nodeConn, up bool) {
	w.mu.Lock()
	client := w.byID[c.id]
	k := w.rng.Intn(6)
	w.mu.Unlock()
	if c.stage == 2 && !up && k > 2 {
		k -= 3
	}
	if client == nil && k == 5 {
		k = 0
	}
	c.wmu.Lock()
	defer c.wmu.Unlock()
	switch k {
	case 0:
		w.end(c)
	case 1:
		c.Conn.(*net.TCPConn).SetLinger(0)
		w.end(c)
	case 2:
		c.Conn.(*net.TCPConn).CloseWrite()
	case 3:
		b := make([]byte, 40)
		crand.Read(b)
		c.WriteFrame(b)
	case 4:
		c.Conn.Write([]byte{0xff, 0xff, 0xff, 0xf0, 1, 2, 3})
	case 5:
		client.Close()
	}
}

func driveNode(t *Trace, plan M, rng *rand.Rand) {
	cfg := obj(plan["cfg"])
	steps := list(plan["steps"])
	na := num(plan["addrs"])
	race := truth(plan["race"])
	w := &nodeWorld{t: t, rng: rng, acc: make([]int, na), pf: make([]int, na), more: make([]int, na), conns: map[int]*nodeConn{},
		ids: map[*noise.Client]int{}, byID: map[int]*noise.Client{}, close: make(chan struct{}, 64), loose: make(chan struct{}),
		flood: truth(plan["flood"])}
	defer close(w.loose)
	for a := 0; a < na; a++ {
		m := str(list(obj(steps[0])["modes"])[a])
		w.modes = append(w.modes, m)
		if m == "refuse" {
			addr, release := refusing()
			defer release()
			w.addrs = append(w.addrs, addr)
			continue
		}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		defer ln.Close()
		w.addrs = append(w.addrs, ln.Addr().String())
		go w.accept(a, ln)
	}
	defer func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, c := range w.conns {
			c.Close()
		}
	}()

	opts := []noise.NodeOption{noise.WithNodeMaxDialAttempts(uint(num(cfg["attempts"]))),
		noise.WithNodeMaxInboundConnections(uint(num(cfg["maxin"]))), noise.WithNodeMaxOutboundConnections(uint(num(cfg["maxout"]))),
		noise.WithNodeMaxRecvMessageSize(64 << 10), noise.WithNodeNumWorkers(uint(1 + rng.Intn(3)))}
	badBind := false
	if !truth(cfg["listens"]) {
		pub, priv, err := ed25519.GenerateKey(nil)
		must(err)
		var pk noise.PublicKey
		var sk noise.PrivateKey
		copy(pk[:], pub)
		copy(sk[:], priv)
		opts = append(opts, noise.WithNodePrivateKey(sk), noise.WithNodeID(noise.NewID(pk, net.IPv4(127, 0, 0, 1), 3000)))
		switch rng.Intn(3) {
		case 0: // never listens
		case 1: // its port is taken
			ln, err := net.Listen("tcp", ":0")
			must(err)
			defer ln.Close()
			opts = append(opts, noise.WithNodeBindPort(uint16(ln.Addr().(*net.TCPAddr).Port)))
		case 2:
			badBind = true
		}
	}
	n, err := noise.NewNode(opts...)
	must(err)
	w.n = n
	n.Bind(noise.Protocol{
		OnPeerConnected: func(c *noise.Client) {
			w.mu.Lock()
			defer w.mu.Unlock()
			id := int(c.ID().Port)
			w.con = append(w.con, id)
			w.log(M{"ev": "con", "id": id})
			w.ids[c] = id
			w.byID[id] = c
		},
		OnPeerDisconnected: func(c *noise.Client) {
			w.mu.Lock()
			defer w.mu.Unlock()
			w.dis = append(w.dis, int(c.ID().Port))
		},
		OnPingFailed: func(addr string, err error) {
			w.mu.Lock()
			defer w.mu.Unlock()
			for a, x := range w.addrs {
				if x == addr {
					w.pf[a]++
				}
			}
		},
	})
	if badBind {
		n.Bind(noise.Protocol{Bind: func(*noise.Node) error { return errors.New("no") }})
	}
	doClose := func() {
		n.Close()
		w.log(M{"ev": "closed"})
		w.mu.Lock()
		w.ret++
		w.mu.Unlock()
	}
	n.Handle(func(ctx noise.HandlerContext) error {
		atomic.AddInt64(&w.handled, 1)
		if string(ctx.Data()) == "close" {
			select {
			case <-w.close:
				w.log(M{"ev": "close"})
				doClose()
			default:
			}
		} else if w.intn(4) == 0 {
			time.Sleep(time.Duration(w.intn(2000)) * time.Microsecond)
		}
		return nil
	})
	if truth(cfg["listens"]) {
		must(n.Listen())
	} else if badBind || rng.Intn(2) == 0 {
		n.Listen()
	}
	sock := ""
	if truth(cfg["listens"]) {
		sock = listeningSocket(int(n.ID().Port))
	}
	closing := false
	defer func() {
		t.Over()
		if !closeNode(n) {
			t.over = false
			t.Add(M{"ev": "hang"})
		}
	}()

	w.log(M{"ev": "setup", "modes": obj(steps[0])["modes"]})
	for si, x := range steps[1:] {
		s := obj(x)
		last := si == len(steps)-2
		if race && rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(1+[]int{50, 400, 3000}[rng.Intn(3)])) * time.Microsecond)
		}
		switch ev := str(s["ev"]); ev {
		case "call":
			k := &nodeCall{k: str(s["k"]), s: "wait", ctx: newManualCtx()}
			w.mu.Lock()
			w.calls = append(w.calls, k)
			i := len(w.calls)
			w.mu.Unlock()
			cerr := []error{context.Canceled, context.DeadlineExceeded}[w.intn(2)]
			if str(s["ctx"]) == "ended" {
				k.ctx.end(cerr)
			}
			w.log(s)
			addr := w.addrs[num(s["a"])-1]
			go func() {
				var err error
				var c *noise.Client
				data := []byte(fmt.Sprintf("c%d", i))
				switch k.k {
				case "ping":
					c, err = n.Ping(k.ctx, addr)
				case "send":
					err = n.Send(k.ctx, addr, data)
				case "req":
					var r []byte
					r, err = n.Request(k.ctx, addr, data)
					if err == nil && string(r) != "r"+string(data) {
						err = errors.New("wrong response")
					}
				}
				id := 0
				if c != nil {
					id = int(c.ID().Port)
				}
				w.mu.Lock()
				defer w.mu.Unlock()
				if k.s, k.id = "ok", id; err != nil {
					k.s, k.e = "err", "other"
					if e := k.ctx.Err(); e != nil && errors.Is(err, e) {
						k.e = "ctx"
					}
				}
				w.log(M{"ev": "ret", "i": i, "o": M{"s": k.s, "e": k.e, "id": k.id}})
			}()
		case "endctx":
			w.log(s)
			w.calls[num(s["i"])-1].ctx.end([]error{context.Canceled, context.DeadlineExceeded}[w.intn(2)])
		case "mode":
			w.mu.Lock()
			w.log(s)
			w.modes[num(s["a"])-1] = str(s["m"])
			w.mu.Unlock()
		case "finish":
			c := w.conn(num(s["id"]))
			if c == nil || c.how != "stall" {
				continue
			}
			waitFor(time.Second, func() bool {
				select {
				case <-c.stalled:
					return true
				default:
					return w.isEnded(c)
				}
			})
			w.log(s)
			w.mu.Lock()
			c.finish = true
			w.mu.Unlock()
			c.SetReadDeadline(time.Unix(1, 0))
		case "drop":
			c := w.conn(num(s["id"]))
			if c == nil {
				continue
			}
			up := false
			waitFor(time.Second, func() bool {
				if w.isEnded(c) {
					return true
				}
				w.mu.Lock()
				defer w.mu.Unlock()
				up = w.byID[c.id] != nil
				if c.how == "stall" && !c.finish {
					select {
					case <-c.stalled:
						return true
					default:
						return false
					}
				}
				return up
			})
			w.log(s)
			w.drop(c, up)
		case "reply":
			i := num(s["i"])
			k := w.calls[i-1]
			var c *nodeConn
			var nonce uint64
			waitFor(time.Second, func() bool {
				w.mu.Lock()
				defer w.mu.Unlock()
				if c = k.at; c != nil {
					nonce = c.nonces[i]
				}
				return c != nil
			})
			if c == nil {
				continue
			}
			w.log(s)
			c.put(nonce, []byte(fmt.Sprintf("rc%d", i)))
		case "dial":
			w.log(s)
			x, err := net.Dial("tcp", localAddr(n))
			if err != nil {
				continue
			}
			w.mu.Lock()
			c := w.newConn(x, 9000+num(s["j"]), str(s["how"]))
			w.conns[c.id] = c
			w.mu.Unlock()
			go w.serve(c, c.how)
		case "close":
			closing = true
			var via *nodeConn
			if truth(cfg["listens"]) && rng.Intn(3) == 0 { // from within a handler
				w.mu.Lock()
				for _, c := range w.conns {
					if w.byID[c.id] != nil && !c.ended {
						via = c
					}
				}
				w.mu.Unlock()
			}
			if via != nil {
				w.close <- struct{}{} // whoever takes this closes the node
				via.put(0, []byte("close"))
				if waitFor(300*time.Millisecond, func() bool { return len(w.close) == 0 }) {
					continue
				}
				select {
				case <-w.close:
				default:
					continue
				}
			}
			w.log(s)
			go doClose()
		case "quiet":
			// Calls have got somewhere once they look at their context.
			waitFor(500*time.Millisecond, func() bool {
				w.mu.Lock()
				defer w.mu.Unlock()
				for _, k := range w.calls {
					if k.s == "wait" && atomic.LoadInt32(&k.ctx.used) == 0 {
						return false
					}
				}
				return true
			})
			o, sure := w.rest(obj(s["obs"]), race)
			if last {
				time.Sleep(15 * time.Millisecond)
				o, sure = w.rest(obj(s["obs"]), race)
			}
			w.log(M{"ev": "quiet", "obs": o, "sure": sure})
			if sure && !race && fmt.Sprint(o["acc"]) != fmt.Sprint(obj(s["obs"])["acc"]) {
				return // what was planned is about other connections than those there are
			}
		}
	}
	if closing && truth(cfg["listens"]) {
		// Its port may be in use again, but not by the same socket.
		free := waitFor(2*time.Second, func() bool {
			now := listeningSocket(int(n.ID().Port))
			return now == "" || now != sock
		})
		before := atomic.LoadInt64(&w.handled)
		time.Sleep(20 * time.Millisecond)
		relisten := "hang"
		within(longWait, func() {
			relisten = "ok"
			if n.Listen() != nil {
				relisten = "err"
			}
		})
		w.log(M{"ev": "after", "portfree": free, "handled": atomic.LoadInt64(&w.handled) - before, "relisten": relisten})
	}
}
