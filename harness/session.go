package main

import (
	"context"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha512"
	"math/big"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["session"] = driveSession
}

// seen records what a node under test lets its user see.
type seen struct {
	sync.Mutex
	connected, disconnected []noise.ID
	handled                 []string
	senders                 []noise.ID
	pingFailed              []string
}

func (s *seen) protocol() noise.Protocol {
	return noise.Protocol{
		OnPeerConnected: func(c *noise.Client) {
			s.Lock()
			defer s.Unlock()
			s.connected = append(s.connected, c.ID())
		},
		OnPeerDisconnected: func(c *noise.Client) {
			s.Lock()
			defer s.Unlock()
			s.disconnected = append(s.disconnected, c.ID())
		},
		OnPingFailed: func(addr string, err error) {
			s.Lock()
			defer s.Unlock()
			s.pingFailed = append(s.pingFailed, addr)
		},
	}
}

func (s *seen) handler(ctx noise.HandlerContext) error {
	s.Lock()
	defer s.Unlock()
	s.handled = append(s.handled, string(ctx.Data()))
	s.senders = append(s.senders, ctx.ID())
	return nil
}

// newNode starts a node under test on the loopback interface.
func newNode(s *seen, opts ...noise.NodeOption) *noise.Node {
	opts = append([]noise.NodeOption{
		noise.WithNodeMaxRecvMessageSize(64 << 10), // keeps connections cheap
		noise.WithNodeMaxDialAttempts(1),
	}, opts...)
	n, err := noise.NewNode(opts...)
	must(err)
	if s != nil {
		n.Bind(s.protocol())
		n.Handle(s.handler)
	}
	must(n.Listen())
	return n
}

// lowOrderKex is a key exchange frame for the neutral element, with a signature that satisfies the verification
// equation for it.
func lowOrderKex() ([]byte, []byte) {
	key := make([]byte, 32)
	key[0] = 1
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	must(err)
	h := sha512.Sum512(priv[:32])
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	be := make([]byte, 32)
	for i := 0; i < 32; i++ {
		be[31-i] = h[i]
	}
	l, _ := new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	s := new(big.Int).Mod(new(big.Int).SetBytes(be), l).Bytes()
	sig := make([]byte, 64)
	copy(sig, pub)
	for i := range s {
		sig[32+len(s)-1-i] = s[i]
	}
	return key, sig
}

func resize(b []byte, how string) []byte {
	b = append([]byte{}, b...)
	switch how {
	case "short":
		return b[:len(b)-1]
	case "half":
		return b[:len(b)/2]
	case "long":
		return append(b, 0x5a)
	case "empty":
		return nil
	}
	return b
}

// otherSession is a session the adversary had with an honest node A, and the frames seen in it.
type otherSession struct {
	a      Ident
	aEph   []byte
	aKex   []byte
	aID    []byte // A's identity
	aSig   []byte // over A's identity and the secret of that session
	shared []byte
	cipher []byte // A's sealed identity frame, as it went over the wire
	node   *noise.Node
	hID    []byte // what the node under test signed in an earlier session with the adversary
	hSig   []byte
	hWire  []byte
}

func outcome(ch chan error) string {
	select {
	case err := <-ch:
		if err != nil {
			return "error"
		}
		return "ok"
	case <-time.After(longWait):
		return "pending"
	}
}

// driveSession plays the adversary's part of one handshake against a node, dialled by it or dialling it.
func driveSession(t *Trace, plan M, rng *rand.Rand) {
	var s seen
	n := newNode(&s)
	defer closeNode(n)
	h := n.ID()
	self := marshalID(h.ID[:], h.Host, h.Port)

	other := otherSession{}
	other.node = newNode(nil)
	defer closeNode(other.node)

	// Sessions the adversary had before: one with A, one with the node under test.
	eve := newIdent(net.IPv4(127, 0, 0, 1), uint16(1024+rng.Intn(60000)))
	{
		r, err := dialRaw(localAddr(other.node))
		must(err)
		var frames [][]byte
		r.OnFrame = func(b []byte) { frames = append(frames, append([]byte{}, b...)) }
		must(r.Handshake(eve))
		other.aEph, other.aKex, other.cipher = r.PeerEph, frames[0], frames[1]
		other.aID, other.aSig, other.shared = r.PeerID, r.PeerSig, r.Shared
		defer r.Close()
		r2, err := dialRaw(localAddr(n))
		must(err)
		frames = nil
		r2.OnFrame = r.OnFrame
		must(r2.Handshake(eve))
		other.hID, other.hSig, other.hWire = r2.PeerID, r2.PeerSig, frames[1]
		waitFor(longWait, func() bool { s.Lock(); defer s.Unlock(); return len(s.connected) == 1 })
		r2.Close()
		waitFor(longWait, func() bool { s.Lock(); defer s.Unlock(); return len(s.disconnected) == 1 })
		waitFor(longWait, func() bool { return len(n.Inbound()) == 0 })
	}
	s.Lock()
	s.connected, s.disconnected, s.handled, s.senders = nil, nil, nil, nil
	s.Unlock()

	var r *Raw
	pingErr := make(chan error, 1)
	role := str(plan["role"])
	if role == "dial" {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 4*longWait)
			defer cancel()
			_, err := n.Ping(ctx, ln.Addr().String())
			pingErr <- err
		}()
		ln.(*net.TCPListener).SetDeadline(time.Now().Add(longWait))
		c, err := ln.Accept()
		ln.Close()
		if err != nil {
			t.Add(M{"ev": "nodial"})
			return
		}
		r = newRaw(c)
	} else {
		var err error
		r, err = dialRaw(localAddr(n))
		must(err)
	}
	defer r.Close()
	r.SetDeadline(time.Now().Add(longWait))

	call := "none" // what the caller of the dialling node sees
	hung := false
	over := false // there is nothing left to answer
	knows := false

	var hFrames [][]byte
	r.OnFrame = func(b []byte) { hFrames = append(hFrames, append([]byte{}, b...)) }

	if err := r.ReadKex(); err != nil {
		t.Add(M{"ev": "nokex", "err": err.Error()})
		return
	}

	for _, st := range list(plan["steps"]) {
		f := obj(st)
		t.Add(f)
		if over {
			continue
		}
		switch str(f["ev"]) {
		case "hangup":
			r.Close()
			over, hung = true, true
		case "kex":
			var key, sig []byte
			text := kexText
			priv := r.EphPriv
			switch str(f["key"]) {
			case "fresh":
				key = r.EphPub
			case "stale":
				key = other.aEph
			case "reflect":
				key = r.PeerEph
			case "low":
				key, sig = lowOrderKex()
			case "junk":
				key = make([]byte, 32)
				rng.Read(key)
			}
			switch str(f["sig"]) {
			case "ok":
				if str(f["key"]) == "stale" {
					sig = other.aKex[32:]
				} else if str(f["key"]) == "reflect" {
					sig = hFrames[0][32:]
				} else if sig == nil {
					sig = ed25519.Sign(priv, text)
				}
			case "text":
				sig = ed25519.Sign(priv, []byte(".__noise_handshakf"))
			case "key":
				sig = ed25519.Sign(eve.Priv, text)
			case "flip":
				sig = ed25519.Sign(priv, text)
				sig[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
			case "zero":
				sig = make([]byte, 64)
			}
			body := resize(append(append([]byte{}, key...), sig...), str(f["len"]))
			r.WriteFrame(body)
			if str(f["key"]) == "fresh" {
				must(r.Derive())
				knows = true
			}
			if !truth(f["accepted"]) {
				over = true
				break
			}
			// The node goes on by sending its identity.
			if knows {
				if err := r.ReadID(); err != nil {
					t.Add(M{"ev": "noid", "err": err.Error()})
					return
				}
			} else if _, err := r.ReadFrame(); err != nil {
				t.Add(M{"ev": "noid", "err": err.Error()})
				return
			}
		case "id":
			var id, sig []byte
			switch str(f["who"]) {
			case "E":
				id = eve.Marshal()
			case "A":
				id = other.aID
			case "H":
				id = self
			}
			id = append([]byte{}, id...)
			switch str(f["by"]) {
			case "E":
				sh := r.Shared
				if str(f["over"]) == "other" {
					sh = other.shared
				}
				if str(f["over"]) == "none" {
					sh = nil
				}
				sig = ed25519.Sign(eve.Priv, append(append([]byte{}, id...), sh...))
			case "A":
				sig = other.aSig
			case "H":
				sig = other.hSig
				if str(f["over"]) == "this" {
					sig = r.PeerSig
				}
			case "junk":
				sig = make([]byte, 64)
				rng.Read(sig)
			}
			switch str(f["alt"]) {
			case "key":
				id[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
			case "host":
				id[32+rng.Intn(16)] ^= 1 << uint(rng.Intn(8))
			case "port":
				id[48+rng.Intn(2)] ^= 1 << uint(rng.Intn(8))
			case "sig":
				sig = append([]byte{}, sig...)
				sig[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
			}
			content := resize(append(id, sig...), str(f["len"]))
			var body []byte
			switch str(f["seal"]) {
			case "session":
				body = seal(r.Suite, content)
			case "flip":
				body = seal(r.Suite, content)
				body[rng.Intn(len(body))] ^= 1 << uint(rng.Intn(8))
			case "other":
				body = seal(newSuite(other.shared), content)
			case "clear":
				body = content
			case "replayA":
				body = other.cipher
			case "replayH":
				body = other.hWire
			case "reflect":
				body = hFrames[1]
			}
			r.WriteFrame(body)
			if !truth(f["accepted"]) {
				over = true
				break
			}
			// Only now is there a connection to send messages over.
			waitFor(longWait, func() bool {
				s.Lock()
				defer s.Unlock()
				return len(s.connected) > 0 || len(n.Inbound())+len(n.Outbound()) == 0
			})
			if role == "dial" {
				call = outcome(pingErr)
			}
		case "msg":
			// Something that ought to be taken for a message only on an established connection.
			body := msgBytes(0, []byte("attack"))
			if str(f["seal"]) == "session" {
				body = seal(r.Suite, body)
			}
			r.WriteFrame(body)
			if !truth(f["accepted"]) {
				over = true
			}
		}
	}

	want := str(plan["res"])
	obs := M{"ev": "end"}

	name := func(id noise.ID) string {
		got := string(marshalID(id.ID[:], id.Host, id.Port)) // address is derived from host and port
		okAddr := id.Address == noise.NewID(id.ID, id.Host, id.Port).Address
		switch {
		case !okAddr:
			return "wrong address"
		case got == string(eve.Marshal()):
			return "E"
		case got == string(other.aID):
			return "A"
		case got == string(self):
			return "H"
		}
		return "unknown"
	}

	if role == "dial" && call == "none" {
		call = outcome(pingErr)
	}

	lists := func() []*noise.Client { return append(n.Inbound(), n.Outbound()...) }

	if want == "up" {
		waitFor(longWait, func() bool {
			s.Lock()
			defer s.Unlock()
			if len(n.Inbound())+len(n.Outbound()) == 0 {
				return true
			}
			return len(s.connected) == 1 && len(s.handled) == num(plan["handled"])
		})
	} else if !hung {
		if !r.GoneWithin(longWait) {
			obs["open"] = true
		}
	}
	if want != "up" {
		waitFor(longWait, func() bool { return len(lists()) == 0 })
		time.Sleep(2 * time.Millisecond)
	}

	s.Lock()
	peer := "none"
	if len(s.connected) > 0 {
		peer = name(s.connected[0])
	}
	senders := []string{}
	for _, id := range s.senders {
		senders = append(senders, name(id))
	}
	obs["connected"] = len(s.connected)
	obs["handled"] = len(s.handled)
	obs["senders"] = senders
	s.Unlock()
	obs["peer"] = peer
	obs["call"] = call
	obs["listed"] = len(lists())
	if _, ok := obs["open"]; !ok {
		obs["open"] = false
	}
	t.Add(obs)
}
