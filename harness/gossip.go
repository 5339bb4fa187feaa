package main

import (
	"context"
	"math/rand"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
)

func init() {
	drivers["gossip"] = driveGossip
	drivers["gossipnet"] = driveGossipNet
}

// driveGossip has peers give messages to a node, and the node push some.
func driveGossip(t *Trace, plan M, rng *rand.Rand) {
	talkers, mute := num(plan["peers"]), num(plan["mute"])
	contents := map[string]int{}
	var msgs []string
	for m, x := range list(plan["sizes"]) {
		b := make([]byte, num(x))
		rng.Read(b)
		// Those of a size differ in one byte only, at either end.
		if m > 0 && len(b) > 0 && rng.Intn(2) == 0 {
			b = make([]byte, num(x))
			b[rng.Intn(2)*(len(b)-1)] = byte(m)
		}
		if _, ok := contents[string(b)]; ok {
			b = append(b, byte(m), 1)
		}
		contents[string(b)] = m + 1
		msgs = append(msgs, string(b))
	}
	what := func(b []byte) int {
		if m, ok := contents[string(b)]; ok {
			return m
		}
		return -1
	}
	node, err := noise.NewNode(noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(uint(1+rng.Intn(8))))
	must(err)
	kad := kademlia.New()
	number := map[noise.PublicKey]int{}
	var mu sync.Mutex
	handled := 0
	hub := gossip.New(kad, gossip.WithEvents(gossip.Events{OnGossipReceived: func(sender noise.ID, data []byte) error {
		t.Add(M{"ev": "took", "p": number[sender.ID], "m": what(data)})
		if rng := rand.Intn(3); rng == 0 {
			time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
		}
		return nil
	}}))
	last := noise.Protocol{Bind: func(n *noise.Node) error {
		n.Handle(func(ctx noise.HandlerContext) error {
			if d := ctx.Data(); !ctx.IsRequest() && len(d) >= 2 && d[0] == 0 && d[1] == 4 {
				mu.Lock()
				t.Add(M{"ev": "handled", "p": number[ctx.ID().ID], "m": what(d[2:])})
				handled++
				mu.Unlock()
			}
			return nil
		})
		return nil
	}}
	node.Bind(kad.Protocol(), hub.Protocol(), last)
	must(node.Listen())
	defer closeNode(node)

	gotten := map[[2]int]int{}
	serve := func(p *rawPeer, r *Raw, nonce uint64, data []byte) {
		if nonce != 0 {
			if string(data) == "\x00\x00" {
				r.WriteMsg(nonce, []byte{0, 1})
			}
			return
		}
		if len(data) >= 2 && data[0] == 0 && data[1] == 4 {
			x := [2]int{number[p.nid.ID], what(data[2:])}
			mu.Lock()
			t.Add(M{"ev": "got", "p": x[0], "m": x[1]})
			gotten[x]++
			mu.Unlock()
		}
	}
	var peers []*rawPeer
	for i := 1; i <= talkers+mute; i++ {
		p := newRawPeer(newIdent(nil, 0), "ok", serve)
		defer p.Stop()
		peers = append(peers, p)
		number[p.nid.ID] = i
		t.Add(M{"ev": "join", "p": i})
	}
	var raws []*Raw
	for i, p := range peers {
		if i >= talkers {
			kad.Table().Update(p.nid)
			continue
		}
		r, err := p.Dial(localAddr(node))
		must(err)
		raws = append(raws, r)
	}
	if !waitFor(longWait, func() bool { return kad.Table().NumEntries() == len(peers)+1 }) {
		t.Add(M{"ev": "peers are not admitted"})
		return
	}
	n, given := 0, 0
	gave := map[[2]int]bool{}
	owed := map[[2]int]bool{}
	known := map[int]bool{}
	away := map[int]bool{}
	id := func() int { n++; return n }
	locks := make([]sync.Mutex, talkers)
	do := func(o M, i int) {
		m := num(o["m"])
		b := []byte(msgs[m-1])
		if str(o["ev"]) == "push" {
			ctx, cancel := context.WithTimeout(context.Background(), 3*longWait)
			defer cancel()
			kept := string(b)
			hub.Push(ctx, b)
			if string(b) != kept {
				t.Add(M{"ev": "the message was changed"})
			}
			t.Add(M{"ev": "pushed", "i": i})
			return
		}
		p := num(o["p"])
		locks[p-1].Lock()
		defer locks[p-1].Unlock()
		raws[p-1].WriteMsg(0, append([]byte{0, 4}, b...))
	}
	// note says what is about to be done.
	note := func(o M) int {
		i := id()
		m := num(o["m"])
		if str(o["ev"]) == "push" || !known[m] {
			for p := 1; p <= len(peers); p++ {
				if !away[p] {
					owed[[2]int{p, m}] = true
				}
			}
		}
		known[m] = true
		if str(o["ev"]) == "push" {
			t.Add(M{"ev": "push", "i": i, "m": m})
		} else {
			given++
			mu.Lock()
			gave[[2]int{num(o["p"]), m}] = true
			mu.Unlock()
			t.Add(M{"ev": "give", "i": i, "p": num(o["p"]), "m": m})
		}
		return i
	}
	// What everybody must have by now.
	arrived := func() bool {
		mu.Lock()
		defer mu.Unlock()
		if handled < given {
			return false
		}
		if truth(plan["takes"]) {
			return true
		}
		for x := range owed {
			if !gave[x] && gotten[x] == 0 {
				return false
			}
		}
		return true
	}
	linked := func(p *rawPeer) bool {
		for _, c := range append(node.Inbound(), node.Outbound()...) {
			if c.ID().ID == p.nid.ID {
				return true
			}
		}
		return false
	}
	flip := func(i int) bool {
		p := peers[i-1]
		waitFor(longWait, arrived)
		if !away[i] {
			away[i] = true
			t.Add(M{"ev": "leave", "p": i})
			p.SetMode("hangup")
			return waitFor(longWait, func() bool { return !linked(p) })
		}
		delete(away, i)
		p.SetMode("ok")
		t.Add(M{"ev": "join", "p": i})
		if i <= talkers {
			r, err := p.Dial(localAddr(node))
			must(err)
			raws[i-1] = r
		}
		kad.Table().Update(p.nid)
		return waitFor(longWait, func() bool { return kad.Table().Recorded(p.nid.ID) && (i > talkers || linked(p)) })
	}
	for _, x := range list(plan["steps"]) {
		o := obj(x)
		if str(o["ev"]) == "flip" {
			if !flip(num(o["p"])) {
				t.Add(M{"ev": "a peer does not come or go"})
				return
			}
			continue
		}
		if str(o["ev"]) == "give" && away[num(o["p"])] {
			continue
		}
		if str(o["ev"]) != "burst" {
			i := note(o)
			if !within(3*longWait, func() { do(o, i) }) {
				t.Add(M{"ev": "hang"})
				return
			}
			if rng.Intn(3) > 0 {
				waitFor(longWait, arrived)
			}
			continue
		}
		var wg sync.WaitGroup
		for _, y := range list(o["of"]) {
			y := obj(y)
			if str(y["ev"]) == "give" && away[num(y["p"])] {
				continue
			}
			i := note(y)
			wg.Add(1)
			go func() {
				defer wg.Done()
				do(y, i)
			}()
		}
		if !within(3*longWait, wg.Wait) {
			t.Add(M{"ev": "hang"})
			return
		}
		waitFor(longWait, arrived)
	}
	waitFor(longWait, arrived)
	time.Sleep(10 * time.Millisecond) // for what should not come
	t.Add(M{"ev": "end"})
	t.Over()
}

// driveGossipNet has nodes push messages in networks of nodes that know each other in some way.
func driveGossipNet(t *Trace, plan M, rng *rand.Rand) {
	size := num(plan["n"])
	var nodes []*noise.Node
	var hubs []*gossip.Protocol
	var kads []*kademlia.Protocol
	var mu sync.Mutex
	took := map[[2]int]int{}
	// Nodes that have gone leave a port, by which what is meant for them may reach nodes of another scenario.
	tag := make([]byte, 24)
	rng.Read(tag[8:])
	copy(tag, "scenario")
	for i := 1; i <= size; i++ {
		i := i
		node, err := noise.NewNode(noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(uint(1+rng.Intn(4))))
		must(err)
		kad := kademlia.New()
		hub := gossip.New(kad, gossip.WithEvents(gossip.Events{OnGossipReceived: func(sender noise.ID, data []byte) error {
			m := -1
			if len(data) > 24 {
				m = int(data[24])
				for _, b := range data[24:] {
					if int(b) != m {
						m = -1
					}
				}
				if m > 0 && string(data[:8]) == string(tag[:8]) && string(data[:24]) != string(tag) {
					return nil
				}
			}
			if len(data) < 25 || string(data[:24]) != string(tag) {
				m = -1
			}
			mu.Lock()
			t.Add(M{"ev": "took", "n": i, "m": m})
			took[[2]int{i, m}]++
			mu.Unlock()
			return nil
		}}))
		node.Bind(kad.Protocol(), hub.Protocol())
		must(node.Listen())
		defer closeNode(node)
		nodes, hubs, kads = append(nodes, node), append(hubs, hub), append(kads, kad)
	}
	edges := [][]int{}
	for _, x := range list(plan["edges"]) {
		a, b := num(list(x)[0]), num(list(x)[1])
		if a == b {
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), longWait)
		_, err := nodes[a-1].Ping(ctx, nodes[b-1].Addr())
		cancel()
		must(err)
		edges = append(edges, []int{a, b}, []int{b, a})
	}
	ok := waitFor(longWait, func() bool {
		for _, e := range edges {
			if !kads[e[0]-1].Table().Recorded(nodes[e[1]-1].ID().ID) {
				return false
			}
		}
		return true
	})
	if !ok {
		t.Add(M{"ev": "nodes are not admitted"})
		return
	}
	quits := map[int]bool{}
	for _, x := range list(plan["quits"]) {
		quits[num(x)] = true
	}
	t.Add(M{"ev": "net", "n": size, "edges": edges, "quits": sortedInts(quits)})
	var wg sync.WaitGroup
	pushes := list(plan["pushes"])
	for m, x := range pushes {
		m, o := m+1, obj(x)
		by := num(o["by"])
		if quits[by] {
			continue
		}
		t.Add(M{"ev": "push", "n": by, "m": m})
		data := make([]byte, 24+num(o["size"]))
		for i := range data {
			data[i] = byte(m)
		}
		copy(data, tag)
		push := func() {
			ctx, cancel := context.WithTimeout(context.Background(), 3*longWait)
			defer cancel()
			hubs[by-1].Push(ctx, data)
		}
		if truth(plan["atonce"]) {
			wg.Add(1)
			go func() { defer wg.Done(); push() }()
			continue
		}
		push()
	}
	for q := range quits {
		q := q
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(rand.Intn(2000)) * time.Microsecond)
			nodes[q-1].Close()
		}()
	}
	if !within(3*longWait, wg.Wait) {
		t.Add(M{"ev": "hang"})
		return
	}
	reach := func(from int) map[int]bool {
		seen := map[int]bool{from: true}
		todo := []int{from}
		for len(todo) > 0 {
			a := todo[0]
			todo = todo[1:]
			for _, e := range edges {
				if e[0] == a && !seen[e[1]] && !quits[e[1]] {
					seen[e[1]] = true
					todo = append(todo, e[1])
				}
			}
		}
		return seen
	}
	waitFor(longWait, func() bool {
		mu.Lock()
		defer mu.Unlock()
		for m, x := range pushes {
			by := num(obj(x)["by"])
			if quits[by] {
				continue
			}
			for n := range reach(by) {
				if !truth(plan["takes"]) && n != by && took[[2]int{n, m + 1}] == 0 {
					return false
				}
			}
		}
		return true
	})
	time.Sleep(10 * time.Millisecond)
	t.Add(M{"ev": "end"})
	t.Over()
}
