package main

import (
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

// rawPeer is a scripted peer that listens: what it does with what it is sent is up to its mode and to serve.
type rawPeer struct {
	Ident
	nid     noise.ID // as nodes see it
	ln      net.Listener
	release func()
	mu      sync.Mutex
	mode    string
	conns   map[*Raw]bool
	dials   int
	serve   func(p *rawPeer, r *Raw, nonce uint64, data []byte)
}

// newRawPeer starts a peer. Those that refuse connections only hold their port.
func newRawPeer(id Ident, mode string, serve func(*rawPeer, *Raw, uint64, []byte)) *rawPeer {
	p := &rawPeer{Ident: id, mode: mode, conns: map[*Raw]bool{}, serve: serve}
	var addr string
	if mode == "refuse" {
		addr, p.release = refusing()
	} else {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		p.ln, addr = ln, ln.Addr().String()
	}
	a, err := net.ResolveTCPAddr("tcp", addr)
	must(err)
	p.Host, p.Port = net.IPv4(127, 0, 0, 1), uint16(a.Port)
	p.nid, err = noise.UnmarshalID(p.Marshal())
	must(err)
	if p.ln != nil {
		go func() {
			for {
				c, err := p.ln.Accept()
				if err != nil {
					return
				}
				p.mu.Lock()
				p.dials++
				p.mu.Unlock()
				go p.run(newRaw(c))
			}
		}()
	}
	return p
}

func (p *rawPeer) Mode() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.mode
}

func (p *rawPeer) SetMode(m string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.mode = m
	if m == "stall" || m == "hangup" {
		for r := range p.conns {
			r.Close()
		}
	}
}

// run has r, which may have been dialled or accepted, shake hands and then reads it to its end.
func (p *rawPeer) run(r *Raw) {
	p.mu.Lock()
	p.conns[r] = true
	m := p.mode
	p.mu.Unlock()
	defer func() {
		p.mu.Lock()
		delete(p.conns, r)
		p.mu.Unlock()
		r.Close()
	}()
	if m == "hangup" {
		return
	}
	if m == "stall" {
		r.ReadFrame()
		r.GoneWithin(2 * longWait)
		return
	}
	if r.Handshake(p.Ident) != nil {
		return
	}
	p.read(r)
}

func (p *rawPeer) read(r *Raw) {
	for {
		nonce, data, err := r.ReadMsg()
		if err != nil {
			return
		}
		p.serve(p, r, nonce, data)
	}
}

// Dial connects to a node and returns once the peer has done its part of the handshake.
func (p *rawPeer) Dial(addr string) (*Raw, error) {
	r, err := dialRaw(addr)
	if err != nil {
		return nil, err
	}
	r.SetDeadline(time.Now().Add(longWait))
	if err := r.Handshake(p.Ident); err != nil {
		r.Close()
		return nil, err
	}
	r.SetDeadline(time.Time{})
	p.mu.Lock()
	p.conns[r] = true
	p.mu.Unlock()
	go func() {
		p.read(r)
		p.mu.Lock()
		delete(p.conns, r)
		p.mu.Unlock()
		r.Close()
	}()
	return r, nil
}

func (p *rawPeer) Stop() {
	if p.release != nil {
		p.release()
	}
	if p.ln != nil {
		p.ln.Close()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for r := range p.conns {
		// Leaves no port behind.
		if c, ok := r.Conn.(*net.TCPConn); ok {
			c.SetLinger(0)
		}
		r.Close()
	}
}
