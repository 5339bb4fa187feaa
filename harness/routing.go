package main

import (
	"bytes"
	"context"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
)

func init() {
	drivers["routing"] = driveRouting
}

func goid() int {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	n, _ := strconv.Atoi(string(s[:bytes.IndexByte(s, ' ')]))
	return n
}

// runs tells which stretches of execution are inside of what the node's protocol is told, per goroutine.
type runs struct {
	t     *Trace
	mu    sync.Mutex
	n     int
	open  int
	stack map[int][]int
	last  time.Time
	seen  map[string]int // how many have begun, by what they are about
}

func (r *runs) begin(m M, about string) {
	g := goid()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	r.open++
	r.last = time.Now()
	r.stack[g] = append(r.stack[g], r.n)
	r.seen[about]++
	m["i"] = r.n
	r.t.Add(m)
}

func (r *runs) end() {
	g := goid()
	r.mu.Lock()
	defer r.mu.Unlock()
	s := r.stack[g]
	r.t.Add(M{"ev": "end", "i": s[len(s)-1]})
	r.stack[g] = s[:len(s)-1]
	r.open--
	r.last = time.Now()
}

func (r *runs) event(what string, e M) {
	g := goid()
	r.mu.Lock()
	defer r.mu.Unlock()
	i := 0
	if s := r.stack[g]; len(s) > 0 {
		i = s[len(s)-1]
	}
	r.t.Add(M{"ev": what, "i": i, "e": e})
}

func (r *runs) count(about string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.seen[about]
}

// quiet waits until nothing has been going on for d.
func (r *runs) quiet(d time.Duration) bool {
	return waitFor(3*longWait, func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		return r.open == 0 && time.Since(r.last) > d
	})
}

// driveRouting has a node hear from peers, some of which are dead, and watches its routing table.
func driveRouting(t *Trace, plan M, rng *rand.Rand) {
	timeout := time.Duration(num(plan["timeout"])) * time.Millisecond
	rs := &runs{t: t, stack: map[int][]int{}, seen: map[string]int{}}
	v := &tableView{addrs: map[string]int{}}
	node, err := noise.NewNode(noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(64<<10))
	must(err)
	var ready int32
	event := func(what string) func(noise.ID) {
		return func(id noise.ID) {
			if atomic.LoadInt32(&ready) == 1 {
				rs.event(what, v.entry(id))
			}
		}
	}
	kad := kademlia.New(kademlia.WithProtocolPingTimeout(timeout), kademlia.WithProtocolEvents(kademlia.Events{
		OnPeerAdmitted: event("admitted"), OnPeerActivity: event("activity"), OnPeerEvicted: event("evicted")}))
	ack := func(id noise.ID, about string) {
		e := v.entry(id)
		rs.begin(M{"ev": "ack", "k": e["k"], "a": e["a"]}, about)
	}
	name := func(kind string, id noise.ID) string { return kind + string(id.ID[:]) }
	node.Bind(noise.Protocol{
		OnPeerConnected: func(c *noise.Client) { ack(c.ID(), name("connected", c.ID())) },
		OnMessageRecv:   func(c *noise.Client) { ack(c.ID(), name("recv", c.ID())) },
		OnMessageSent:   func(c *noise.Client) { ack(c.ID(), name("sent", c.ID())) },
		OnPingFailed: func(addr string, err error) {
			a, ok := v.addrs[addr]
			if !ok {
				a = -1
			}
			rs.begin(M{"ev": "fail", "a": a}, "fail")
		},
	}, kad.Protocol(), noise.Protocol{
		OnPeerConnected: func(c *noise.Client) { rs.end() },
		OnMessageRecv:   func(c *noise.Client) { rs.end() },
		OnMessageSent:   func(c *noise.Client) { rs.end() },
		OnPingFailed:    func(addr string, err error) { rs.end() },
	})
	must(node.Listen())
	defer closeNode(node)
	self := node.ID()

	serve := func(p *rawPeer, r *Raw, nonce uint64, data []byte) {
		if nonce == 0 || len(data) < 2 || data[0] != 0 || data[1] != 0 {
			return
		}
		switch p.Mode() {
		case "pong":
			r.WriteMsg(nonce, []byte{0, 1})
		case "garbage":
			r.WriteMsg(nonce, []byte{0, 3, 0})
		case "junk":
			r.WriteMsg(nonce, []byte{9, 9})
		case "drop":
			r.Close()
		case "late":
			time.Sleep(timeout + timeout/2)
			r.WriteMsg(nonce, []byte{0, 1})
		}
	}
	var peers []*rawPeer
	var keys []noise.PublicKey
	keys = append(keys, self.ID, noise.ZeroPublicKey)
	v.addrs[self.Address] = 0
	for i, x := range list(plan["peers"]) {
		var id Ident
		for { // in the bucket it is meant for
			id = newIdent(nil, 0)
			if sharedBits(self.ID, id.Key()) == num(obj(x)["bucket"]) {
				break
			}
		}
		p := newRawPeer(id, str(obj(x)["mode"]), serve)
		defer p.Stop()
		peers = append(peers, p)
		keys = append(keys, p.nid.ID)
		v.addrs[p.nid.Address] = i + 1
	}
	v.u = newUniverse(keys)
	dead := func() {
		as := []int{}
		for i, p := range peers {
			if p.Mode() != "pong" {
				as = append(as, i+1)
			}
		}
		t.Add(M{"ev": "dead", "as": as})
	}
	atomic.StoreInt32(&ready, 1)
	t.Add(M{"ev": "table", "g": M{"w": v.u.w, "cap": 16, "self": v.u.Num(self.ID), "addr": 0, "zero": v.u.Num(noise.ZeroPublicKey)}})
	dead()

	conns := map[int]*Raw{}
	var cmu sync.Mutex
	// do returns only once what it sets off has begun, but maybe before it has ended.
	do := func(o M) {
		p := peers[num(o["p"])-1]
		connect := func() *Raw {
			cmu.Lock()
			r := conns[num(o["p"])]
			cmu.Unlock()
			if r != nil {
				return r
			}
			n := rs.count(name("connected", p.nid))
			r, err := p.Dial(localAddr(node))
			if err != nil {
				return nil
			}
			waitFor(longWait, func() bool { return rs.count(name("connected", p.nid)) > n })
			cmu.Lock()
			conns[num(o["p"])] = r
			cmu.Unlock()
			return r
		}
		ctx, cancel := context.WithTimeout(context.Background(), timeout)
		defer cancel()
		switch str(o["ev"]) {
		case "ack":
			ack(p.nid, "")
			kad.Ack(p.nid)
			rs.end()
		case "connect":
			connect()
		case "msg", "req":
			if r := connect(); r != nil {
				n := rs.count(name("recv", p.nid))
				if str(o["ev"]) == "msg" {
					r.WriteMsg(0, []byte{250, 1})
				} else {
					r.WriteMsg(uint64(1+rng.Intn(1000)), append([]byte{0, 2}, make([]byte, 32)...))
				}
				waitFor(timeout+longWait, func() bool { return rs.count(name("recv", p.nid)) > n })
			}
		case "send":
			node.Send(ctx, p.nid.Address, []byte{250, 2})
		case "ping":
			node.Ping(ctx, p.nid.Address)
		case "kadping":
			kad.Ping(ctx, p.nid.Address)
		}
	}
	look := func() {
		for _, k := range []noise.PublicKey{flip(self.ID, 0), flip(self.ID, 1), flip(self.ID, 2)} {
			t.Add(M{"ev": "look"})
			es := v.entries(kad.Table().Bucket(k))
			t.Add(M{"ev": "bucket", "x": sharedBits(k, self.ID), "at": v.place(self.ID, k), "es": es})
		}
	}
	for _, x := range list(plan["steps"]) {
		o := obj(x)
		switch str(o["ev"]) {
		case "mode":
			peers[num(o["p"])-1].SetMode(str(o["mode"]))
			if !rs.quiet(5 * time.Millisecond) {
				t.Add(M{"ev": "hang"})
				return
			}
			dead()
		case "together":
			var wg sync.WaitGroup
			for _, y := range list(o["of"]) {
				y := obj(y)
				wg.Add(1)
				go func() {
					defer wg.Done()
					do(y)
				}()
			}
			if !within(5*longWait, wg.Wait) {
				t.Add(M{"ev": "hang"})
				return
			}
			if !rs.quiet(20 * time.Millisecond) {
				t.Add(M{"ev": "hang"})
				return
			}
			look()
		default:
			if !within(5*longWait, func() { do(o) }) || !rs.quiet(4*time.Millisecond) {
				t.Add(M{"ev": "hang"})
				return
			}
			if truth(o["look"]) {
				look()
			}
		}
	}
	rs.quiet(10 * time.Millisecond)
	look()
	// Its coming to an end is of no interest.
	t.Over()
}

// place is the number of the bucket of k, or -1 if no key of the scenario is for it.
func (v *tableView) place(self, k noise.PublicKey) int {
	for _, x := range v.u.Keys {
		if x != self && sharedBits(x, self) == sharedBits(k, self) {
			// The bits kept, up to the one in which they differ.
			d := v.u.Num(x) ^ v.u.Num(self)
			n := v.u.w
			for d > 0 {
				d >>= 1
				n--
			}
			return n
		}
	}
	return -1
}
