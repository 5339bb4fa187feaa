package main

import (
	"net"
	"sync"
)

// proxy sits on the line between two nodes. It can look at what goes over it, and cut it.
type proxy struct {
	ln     net.Listener
	target string
	mu     sync.Mutex
	conns  []net.Conn
	cut    bool
	count  int
	tap    func(conn int, fromDialer bool, b []byte)
	left   map[bool]int // bytes to let through in each direction before cutting; negative: no limit
}

func newProxy(target string) *proxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	p := &proxy{ln: ln, target: target, left: map[bool]int{true: -1, false: -1}}
	go p.run()
	return p
}

func (p *proxy) Addr() string { return p.ln.Addr().String() }

func (p *proxy) run() {
	for {
		c, err := p.ln.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		cut := p.cut
		p.count++
		k := p.count
		p.mu.Unlock()
		if cut {
			c.Close()
			continue
		}
		d, err := net.Dial("tcp", p.target)
		if err != nil {
			c.Close()
			continue
		}
		p.mu.Lock()
		p.conns = append(p.conns, c, d)
		p.mu.Unlock()
		go p.pump(k, true, c, d)
		go p.pump(k, false, d, c)
	}
}

func (p *proxy) pump(k int, fromDialer bool, src, dst net.Conn) {
	defer src.Close()
	defer dst.Close()
	buf := make([]byte, 64<<10)
	for {
		n, err := src.Read(buf)
		if n > 0 {
			b := buf[:n]
			p.mu.Lock()
			if l := p.left[fromDialer]; l >= 0 {
				if n >= l {
					b = b[:l]
					p.cut = true
				}
				p.left[fromDialer] = l - len(b)
			}
			cut := p.cut
			p.mu.Unlock()
			if p.tap != nil {
				p.tap(k, fromDialer, b)
			}
			if _, err := dst.Write(b); err != nil {
				return
			}
			if cut {
				p.Cut()
				return
			}
		}
		if err != nil {
			return
		}
	}
}

// Cut drops all connections, and all to come.
func (p *proxy) Cut() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.cut = true
	for _, c := range p.conns {
		c.Close()
	}
	p.conns = nil
}

func (p *proxy) Close() {
	p.ln.Close()
	p.Cut()
}
