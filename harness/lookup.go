package main

import (
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
)

func init() {
	drivers["lookup"] = driveLookup
}

// driveLookup has a node look for peers in a network of scripted ones.
func driveLookup(t *Trace, plan M, rng *rand.Rand) {
	timeout := time.Duration(num(plan["timeout"])) * time.Millisecond
	node, err := noise.NewNode(noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(64<<10))
	must(err)
	kad := kademlia.New(kademlia.WithProtocolPingTimeout(100 * time.Millisecond)) // answers wait for pings of others
	node.Bind(kad.Protocol())
	must(node.Listen())
	defer closeNode(node)
	self := node.ID()
	table := kad.Table()

	var mu sync.Mutex
	targets := map[noise.PublicKey]int{}
	answers := map[*rawPeer]func(noise.PublicKey) []noise.ID{}
	var u *Universe
	index := map[*rawPeer]int{}
	serve := func(p *rawPeer, r *Raw, nonce uint64, data []byte) {
		if m := p.Mode(); nonce != 0 && string(data) == "\x00\x00" && (m == "ok" || m == "slow") {
			r.WriteMsg(nonce, []byte{0, 1})
			return
		}
		if nonce == 0 || len(data) != 34 || data[0] != 0 || data[1] != 2 {
			return
		}
		var target noise.PublicKey
		copy(target[:], data[2:])
		mu.Lock()
		f, ours := targets[target]
		if ours {
			t.Add(M{"ev": "asked", "f": f, "p": u.Num(p.nid.ID)})
		}
		mu.Unlock()
		answer := func() {
			res := kademlia.FindNodeResponse{Results: answers[p](target)}.Marshal()
			t.Add(M{"ev": "answered", "f": f, "p": u.Num(p.nid.ID)})
			r.WriteMsg(nonce, append([]byte{0, 3}, res...))
		}
		m := p.Mode()
		switch m {
		case "ok":
			answer()
		case "slow":
			go func() {
				time.Sleep(time.Duration(1+index[p]*7%40) * time.Millisecond)
				answer()
			}()
		case "late":
			go func() {
				time.Sleep(timeout + timeout/3)
				res := kademlia.FindNodeResponse{Results: answers[p](target)}.Marshal()
				r.WriteMsg(nonce, append([]byte{0, 3}, res...))
			}()
		case "pong":
			r.WriteMsg(nonce, []byte{0, 1})
		case "junk":
			r.WriteMsg(nonce, []byte{0, 77, 1})
		case "short": // announces more than there is
			r.WriteMsg(nonce, append([]byte{0, 3, 2}, p.Ident.Marshal()...))
		case "drop":
			r.Close()
		}
	}
	var peers []*rawPeer
	for i, x := range list(plan["peers"]) {
		p := newRawPeer(newIdent(nil, 0), str(obj(x)["mode"]), serve)
		defer p.Stop()
		index[p] = i
		peers = append(peers, p)
	}
	addr, release := refusing()
	defer release()
	ra, err := net.ResolveTCPAddr("tcp", addr)
	must(err)
	var fakes []noise.ID
	for i := 0; i < num(plan["fakes"]); i++ {
		id := newIdent(net.IPv4(127, 0, 0, 1), uint16(ra.Port))
		nid, err := noise.UnmarshalID(id.Marshal())
		must(err)
		fakes = append(fakes, nid)
	}
	keys := []noise.PublicKey{self.ID}
	for _, p := range peers {
		keys = append(keys, p.nid.ID)
	}
	for _, x := range fakes {
		keys = append(keys, x.ID)
	}
	type find struct {
		target noise.PublicKey
		M
	}
	var finds []find
	used := map[noise.PublicKey]bool{}
	for _, x := range list(plan["finds"]) {
		o := obj(x)
		var target noise.PublicKey
		p := peers[num(o["p"])-1]
		switch str(o["target"]) {
		case "self":
			target = self.ID
		case "peer":
			target = p.nid.ID
		case "near":
			target = flip(p.nid.ID, 200+rng.Intn(56))
		default:
			rng.Read(target[:])
		}
		if used[target] {
			rng.Read(target[:])
		}
		used[target] = true
		finds = append(finds, find{target, o})
		keys = append(keys, target)
	}
	u = newUniverse(keys)
	if u.w > maxBits {
		return
	}
	// Whom a peer tells of: what is known of it goes into the trace, with the target left out.
	infos := []M{}
	for i, x := range list(plan["peers"]) {
		o := obj(x)
		p := peers[i]
		var ids []noise.ID
		withTarget := false
		for _, y := range list(o["knows"]) {
			switch k := num(y); {
			case k == -1:
				withTarget = true
			case k == 0:
				ids = append(ids, self)
			case k <= len(peers):
				ids = append(ids, peers[k-1].nid)
			default:
				if k-len(peers) <= len(fakes) {
					ids = append(ids, fakes[k-len(peers)-1])
				}
			}
		}
		if truth(o["dup"]) {
			ids = append(ids, ids...)
		}
		rng.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
		answers[p] = func(target noise.PublicKey) []noise.ID {
			if !withTarget {
				return ids
			}
			for _, q := range peers {
				if q.nid.ID == target {
					return append(append([]noise.ID{}, ids...), q.nid)
				}
			}
			return append(append([]noise.ID{}, ids...), noise.ID{ID: target, Host: net.IPv4(127, 0, 0, 1), Port: uint16(ra.Port)})
		}
		ks := []int{}
		for _, id := range ids {
			ks = append(ks, u.Num(id.ID))
		}
		m := str(o["mode"])
		infos = append(infos, M{"k": u.Num(p.nid.ID), "ok": m == "ok" || m == "slow", "knows": ks})
	}
	for _, x := range list(plan["table"]) {
		table.Update(peers[num(x)-1].nid)
	}
	t.Add(M{"ev": "net", "g": M{"w": u.w, "cap": 16, "self": u.Num(self.ID)}, "peers": infos})
	settled := func() {
		var last int
		var since time.Time
		waitFor(longWait, func() bool {
			n := len(node.Outbound())*1000 + table.NumEntries()
			if n != last {
				last, since = n, time.Now()
			}
			return time.Since(since) > 15*time.Millisecond
		})
	}
	do := func(f int, x find) bool {
		mu.Lock()
		targets[x.target] = f
		entries := []int{}
		for _, id := range table.Entries() {
			entries = append(entries, u.Num(id.ID))
		}
		t.Add(M{"ev": "find", "f": f, "target": u.Num(x.target), "max": num(x.M["max"]), "table": entries})
		mu.Unlock()
		var ids []noise.ID
		opts := []kademlia.IteratorOption{kademlia.WithIteratorMaxNumResults(num(x.M["max"])), kademlia.WithIteratorNumParallelLookups(num(x.M["lookups"])),
			kademlia.WithIteratorNumParallelRequestsPerLookup(num(x.M["requests"])), kademlia.WithIteratorLookupTimeout(timeout)}
		if !within(5*longWait, func() {
			if str(x.M["target"]) == "self" && x.target == self.ID {
				ids = kad.Discover(opts...)
			} else {
				ids = kad.Find(x.target, opts...)
			}
		}) {
			t.Add(M{"ev": "hang"})
			t.Over()
			return false
		}
		ks := []int{}
		for _, id := range ids {
			k := -1
			for _, p := range peers {
				if p.nid.ID == id.ID && p.nid.Address == id.Address && p.nid.Port == id.Port {
					k = u.Num(id.ID)
				}
			}
			ks = append(ks, k)
		}
		t.Add(M{"ev": "found", "f": f, "ks": ks})
		return true
	}
	if truth(plan["atonce"]) {
		var wg sync.WaitGroup
		for f, x := range finds {
			f, x := f, x
			wg.Add(1)
			go func() {
				defer wg.Done()
				do(f+1, x)
			}()
		}
		wg.Wait()
		return
	}
	for f, x := range finds {
		settled()
		if !do(f+1, x) {
			return
		}
	}
}
