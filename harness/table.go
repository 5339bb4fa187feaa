package main

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
)

func init() {
	drivers["table"] = driveTable
}

// tableView puts what a table says in terms of a scenario's keys.
type tableView struct {
	u     *Universe
	addrs map[string]int
}

func (v *tableView) addr(n int) string {
	a := fmt.Sprintf("10.1.%d.%d:%d", n/250, n%250+1, 1000+n)
	if _, ok := v.addrs[a]; !ok { // done before threads are started
		v.addrs[a] = n
	}
	return a
}

func (v *tableView) id(k noise.PublicKey, a int) noise.ID {
	return noise.ID{ID: k, Host: net.IPv4(10, 1, byte(a/250), byte(a%250+1)), Port: uint16(1000 + a), Address: v.addr(a)}
}

func (v *tableView) entry(id noise.ID) M {
	a, ok := v.addrs[id.Address]
	if !ok {
		a = -1
	}
	return M{"k": v.u.Num(id.ID), "a": a}
}

func (v *tableView) entries(ids []noise.ID) []M {
	out := []M{}
	for _, id := range ids {
		out = append(out, v.entry(id))
	}
	return out
}

// driveTable has threads use a routing table, or the one of a node that is also asked over the network.
func driveTable(t *Trace, plan M, rng *rand.Rand) {
	threads := list(plan["threads"])
	n := num(plan["keys"])
	var self noise.PublicKey
	v := &tableView{addrs: map[string]int{}}
	var table *kademlia.Table
	var raw *Raw
	var zero noise.PublicKey
	if truth(plan["net"]) {
		node, err := noise.NewNode()
		must(err)
		kad := kademlia.New()
		node.Bind(kad.Protocol())
		must(node.Listen())
		defer closeNode(node)
		self = node.ID().ID
		var peer Ident
		for {
			peer = newIdent(net.IPv4(127, 0, 0, 1), 9)
			v.u = someKeys(rng, str(plan["kind"]), self, n, zero, noise.PublicKey(peer.Key()))
			same := 0
			for _, k := range v.u.Keys {
				if sharedBits(self, k) == sharedBits(self, noise.PublicKey(peer.Key())) {
					same++
				}
			}
			if same < 12 { // so that the peer has room
				break
			}
		}
		table = kad.Table()
		v.addrs[node.ID().Address] = 0
		raw, err = dialRaw(localAddr(node))
		must(err)
		defer raw.Close()
		must(raw.Handshake(peer))
		pid, _ := noise.UnmarshalID(peer.Marshal())
		v.addrs[pid.Address] = 1000
		t.Add(M{"ev": "table", "g": M{"w": v.u.w, "cap": 16, "self": v.u.Num(self), "addr": 0, "zero": v.u.Num(zero)}})
		if !waitFor(longWait, func() bool { return table.Recorded(peer.Key()) }) {
			t.Add(M{"ev": "the peer is not admitted"})
			return
		}
		t.Add(M{"ev": "call", "i": 0, "op": M{"ev": "update", "k": v.u.Num(peer.Key()), "a": 1000}, "out": M{"s": "new"}})
		t.Add(M{"ev": "ret", "i": 0})
		// The peer itself stays.
		kept := append([]noise.PublicKey{}, v.u.Keys[:2]...)
		kept = append(kept, v.u.Keys[3:]...)
		v.u.Keys = kept
	} else {
		if !truth(plan["zeroself"]) {
			rng.Read(self[:])
		}
		v.u = someKeys(rng, str(plan["kind"]), self, n, zero)
		table = kademlia.NewTable(v.id(self, 0))
		t.Add(M{"ev": "table", "g": M{"w": v.u.w, "cap": 16, "self": v.u.Num(self), "addr": 0, "zero": v.u.Num(zero)}})
	}
	for a := 0; a < 100; a++ {
		v.addr(a)
	}
	key := func(x interface{}) noise.PublicKey { return v.u.Keys[num(x)%len(v.u.Keys)] }
	found := func(id noise.ID, ok bool) M {
		if !ok {
			if id.ID != zero || id.Address != "" {
				return M{"s": "none, but an entry"}
			}
			return M{"s": "none"}
		}
		return M{"s": "ok", "e": v.entry(id)}
	}
	do := func(o M) M {
		switch str(o["ev"]) {
		case "update":
			id := v.id(key(o["key"]), num(o["a"]))
			fresh, err := table.Update(id)
			switch {
			case err == nil && fresh:
				return M{"s": "new"}
			case err == nil:
				return M{"s": "known"}
			case errors.Is(err, kademlia.ErrBucketFull) && !fresh:
				return M{"s": "full"}
			}
			return M{"s": "odd error"}
		case "delete":
			return found(table.Delete(key(o["key"])))
		case "deladdr":
			return found(table.DeleteByAddress(v.addr(num(o["a"]))))
		case "recorded":
			if table.Recorded(key(o["key"])) {
				return M{"s": "yes"}
			}
			return M{"s": "no"}
		case "last":
			id := table.Last(key(o["key"]))
			return found(id, id.ID != zero || id.Address != "")
		case "bucket":
			return M{"s": "list", "es": v.entries(table.Bucket(key(o["key"])))}
		case "entries":
			ids := table.Entries()
			return M{"s": "set", "es": v.entries(ids), "n": len(ids)}
		case "num":
			return M{"s": "num", "n": table.NumEntries()}
		case "closest":
			if truth(o["net"]) {
				target := key(o["key"])
				nonce := uint64(1 + rng.Intn(1<<30))
				must(raw.WriteMsg(nonce, append([]byte{0, 2}, target[:]...)))
				raw.SetReadDeadline(time.Now().Add(longWait))
				for {
					nn, data, err := raw.ReadMsg()
					if err != nil {
						return M{"s": "lost"}
					}
					if nn != nonce {
						continue
					}
					if len(data) < 2 || data[0] != 0 || data[1] != 3 {
						return M{"s": "odd"}
					}
					res, err := kademlia.UnmarshalFindNodeResponse(data[2:])
					if err != nil {
						return M{"s": "malformed"}
					}
					return M{"s": "list", "es": v.entries(res.Results)}
				}
			}
			if truth(o["peers"]) {
				return M{"s": "list", "es": v.entries(table.Peers())}
			}
			return M{"s": "list", "es": v.entries(table.FindClosest(key(o["key"]), num(o["n"])))}
		}
		return nil
	}
	var mu sync.Mutex
	calls := 0
	outs := map[int]M{}
	steps := map[int]M{}
	run := func(o M) bool {
		if k, ok := o["k"]; ok {
			o["key"] = k
			o["k"] = v.u.Num(key(k))
		}
		if str(o["ev"]) == "closest" {
			if raw != nil && num(o["n"]) == 16 {
				o["net"] = true
			} else if num(o["n"]) == 16 && rng.Intn(3) == 0 {
				o["peers"], o["k"] = true, v.u.Num(self)
			}
			if truth(plan["listed"]) {
				t.Add(M{"ev": "listing", "es": v.entries(table.Entries())})
			}
		}
		if truth(plan["listed"]) && str(o["ev"]) != "closest" {
			return within(longWait, func() { do(o) })
		}
		mu.Lock()
		calls++
		i := calls
		step := M{"ev": "call", "i": i, "op": o, "out": M{"s": "never returned"}}
		steps[i] = step
		t.Add(step)
		mu.Unlock()
		var out M
		if !within(longWait, func() { out = do(o) }) {
			t.Add(M{"ev": "hang"})
			t.Over()
			return false
		}
		t.Add(M{"ev": "ret", "i": i})
		mu.Lock()
		outs[i] = out
		mu.Unlock()
		return true
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for j, th := range threads {
		ops := list(th)
		if raw != nil {
			// Where the peer is in its bucket depends on when it was last heard from.
			kept := ops[:0:0]
			for _, x := range ops {
				if e := str(obj(x)["ev"]); e != "bucket" && e != "last" {
					kept = append(kept, x)
				}
			}
			ops = kept
		}
		// What comes first fills the table.
		if j == 0 && len(threads) > 1 {
			for len(ops) > 0 && num(plan["fill"]) > 0 {
				plan["fill"] = num(plan["fill"]) - 1
				if !run(obj(ops[0])) {
					return
				}
				ops = ops[1:]
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, x := range ops {
				if !run(obj(x)) {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	for i, out := range outs {
		steps[i]["out"] = out
	}
}
