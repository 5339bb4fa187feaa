package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["tamper"] = driveTamper
}

// connectRaw connects an honest raw peer with n: dialled by it, or dialling it. The client is that of n.
func connectRaw(n *noise.Node, role string, id Ident) (*Raw, *noise.Client, string, error) {
	if role == "dial" {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		defer ln.Close()
		type res struct {
			c   *noise.Client
			err error
		}
		ch := make(chan res, 1)
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 2*longWait)
			defer cancel()
			c, err := n.Ping(ctx, ln.Addr().String())
			ch <- res{c, err}
		}()
		ln.(*net.TCPListener).SetDeadline(time.Now().Add(longWait))
		c, err := ln.Accept()
		if err != nil {
			return nil, nil, "", err
		}
		r := newRaw(c)
		r.SetDeadline(time.Now().Add(longWait))
		if err := r.Handshake(id); err != nil {
			r.Close()
			return nil, nil, "", err
		}
		r.SetDeadline(time.Time{})
		x := <-ch
		return r, x.c, ln.Addr().String(), x.err
	}
	before := map[*noise.Client]bool{}
	for _, c := range n.Inbound() {
		before[c] = true
	}
	r, err := dialRaw(localAddr(n))
	if err != nil {
		return nil, nil, "", err
	}
	r.SetDeadline(time.Now().Add(longWait))
	if err := r.Handshake(id); err != nil {
		r.Close()
		return nil, nil, "", err
	}
	r.SetDeadline(time.Time{})
	var client *noise.Client
	waitFor(longWait, func() bool {
		for _, c := range n.Inbound() {
			if !before[c] {
				client = c
				return true
			}
		}
		return false
	})
	if client == nil {
		r.Close()
		return nil, nil, "", fmt.Errorf("connection is not listed")
	}
	client.WaitUntilReady()
	return r, client, "", nil
}

// driveTamper sends an established connection good frames and such as were tampered with.
func driveTamper(t *Trace, plan M, rng *rand.Rand) {
	var mu sync.Mutex
	handled := []string{}
	node, err := noise.NewNode(noise.WithNodeMaxRecvMessageSize(64<<10), noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(1))
	must(err)
	node.Handle(func(ctx noise.HandlerContext) error {
		mu.Lock()
		defer mu.Unlock()
		handled = append(handled, string(ctx.Data()))
		return nil
	})
	must(node.Listen())
	defer closeNode(node)

	role := str(plan["role"])
	id := newIdent(net.IPv4(127, 0, 0, 1), uint16(1024+rng.Intn(60000)))
	r, client, addr, err := connectRaw(node, role, id)
	if err != nil {
		t.Add(M{"ev": "noconn", "err": err.Error()})
		return
	}
	defer r.Close()

	// Another session of the same peer, for frames of another session.
	r2, _, _, err := connectRaw(node, "accept", id)
	if err != nil {
		t.Add(M{"ev": "noconn", "err": err.Error()})
		return
	}
	defer r2.Close()

	// A request that is pending all the time, if the node is the one that dialled.
	reqRes := make(chan string, 1)
	var nonce uint64
	if role == "dial" {
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 3*longWait)
			defer cancel()
			b, err := node.Request(ctx, addr, []byte("question"))
			if err != nil {
				reqRes <- "error"
			} else {
				reqRes <- "got " + string(b)
			}
		}()
		r.SetReadDeadline(time.Now().Add(longWait))
		k, data, err := r.ReadMsg()
		if err != nil || string(data) != "question" || k == 0 {
			t.Add(M{"ev": "norequest"})
			return
		}
		r.SetReadDeadline(time.Time{})
		nonce = k
	}

	bad := false
	answered := false
	for _, x := range list(plan["steps"]) {
		f := obj(x)
		t.Add(f)
		m := str(f["m"])
		switch str(f["ev"]) {
		case "send":
			if m == "answer" {
				r.WriteMsg(nonce, []byte(m))
				answered = true
			} else {
				r.WriteMsg(0, []byte(m))
			}
		case "bad":
			bad = true
			k := uint64(0)
			if str(f["of"]) == "answer" {
				k = nonce
			}
			body := seal(r.Suite, msgBytes(k, []byte("tampered")))
			switch str(f["kind"]) {
			case "flip":
				i := num(f["at"])
				if i < 0 || i >= 8*len(body) {
					i = rng.Intn(8 * len(body))
				}
				body[i/8] ^= 1 << uint(i%8)
			case "swap": // two bytes trade places
				i, j := rng.Intn(len(body)), rng.Intn(len(body))
				for body[i] == body[j] {
					i, j = rng.Intn(len(body)), rng.Intn(len(body))
				}
				body[i], body[j] = body[j], body[i]
			case "trunc":
				i := num(f["at"])
				if i <= 0 || i > len(body) {
					i = 1 + rng.Intn(len(body))
				}
				body = body[:len(body)-i]
			case "front":
				body = body[1+rng.Intn(len(body)-1):]
			case "extend":
				ext := make([]byte, 1+rng.Intn(32))
				rng.Read(ext)
				body = append(body, ext...)
			case "nonce": // another nonce in front of the same text
				rng.Read(body[:12])
			case "other":
				body = seal(r2.Suite, msgBytes(k, []byte("tampered")))
			case "clear":
				body = msgBytes(k, []byte("tampered"))
			case "clearlong":
				body = append(make([]byte, 12), msgBytes(k, []byte("tampered"))...)
			case "tiny":
				body = make([]byte, 1+rng.Intn(11))
				rng.Read(body)
			case "random":
				body = make([]byte, 12+rng.Intn(200))
				rng.Read(body)
			case "empty":
				body = nil
			}
			if str(f["kind"]) == "header" { // the announced length is another than the actual one
				b := frameBytes(body)
				b[3] ^= byte(1 << uint(rng.Intn(5)))
				r.Conn.Write(append(b, make([]byte, 64)...))
				break
			}
			r.WriteFrame(body)
		}
	}

	want := []string{}
	for _, x := range list(plan["handled"]) {
		want = append(want, str(x))
	}
	obs := M{"ev": "end"}
	if bad {
		obs["closed"] = r.GoneWithin(longWait)
		within(longWait, client.WaitUntilClosed)
	}
	waitFor(longWait, func() bool { mu.Lock(); defer mu.Unlock(); return len(handled) >= len(want) })
	if !bad {
		time.Sleep(time.Millisecond)
		obs["closed"] = client.Error() != nil
	}
	res := "none"
	if role == "dial" {
		if bad || answered {
			select {
			case res = <-reqRes:
			case <-time.After(longWait):
				res = "pending"
			}
		} else {
			res = "pending"
		}
	}
	obs["error"] = client.Error() != nil
	// The other connection is none of this one's business.
	r2.WriteMsg(0, []byte("canary"))
	waitFor(longWait, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(handled) > 0 && handled[len(handled)-1] == "canary"
	})
	mu.Lock()
	obs["handled"] = append([]string{}, handled...)
	mu.Unlock()
	obs["request"] = res
	t.Add(obs)
}
