package main

import (
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
)

func init() {
	drivers["idwire"] = driveIdWire
}

// viewID takes an identity apart.
func viewID(id noise.ID) M {
	m := M{"key": byteList(id.ID[:]), "host": byteList(id.Host), "port": int(id.Port), "ahost": []int{}, "aport": -1}
	host, port, err := net.SplitHostPort(id.Address)
	if err != nil {
		m["ahost"] = id.Address
		return m
	}
	if p, err := strconv.ParseUint(port, 10, 16); err == nil {
		m["aport"] = int(p)
	}
	if host != "" {
		ip := net.ParseIP(host)
		if ip == nil {
			m["ahost"] = host
			return m
		}
		m["ahost"] = byteList(ip.To16())
	}
	return m
}

// driveIdWire encodes and decodes the identities it is told.
func driveIdWire(t *Trace, plan M, rng *rand.Rand) {
	t.Plan = M{}
	plain := func(x M) noise.ID {
		var k noise.PublicKey
		copy(k[:], byteSlice(x["key"]))
		return noise.NewID(k, net.IP(byteSlice(x["host"])), uint16(num(x["port"])))
	}
	strip := func(x M) M { return M{"key": x["key"], "host": x["host"], "port": x["port"]} }
	views := func(ids []noise.ID) []M {
		out := []M{}
		for _, id := range ids {
			out = append(out, viewID(id))
		}
		return out
	}
	for _, s := range list(plan["steps"]) {
		o := obj(s)
		switch str(o["ev"]) {
		case "id":
			x := obj(o["x"])
			id := plain(x)
			b := id.Marshal()
			kept := append([]byte{}, b...)
			back, err := noise.UnmarshalID(append(b, byteSlice(o["more"])...))
			for i := range b { // what was decoded does not depend on the buffer
				b[i] ^= 0xff
			}
			t.Add(M{"ev": "id", "x": strip(x), "b": byteList(kept), "err": err != nil, "made": viewID(id), "back": viewID(back), "addr": id.Address, "backaddr": back.Address})
			errs := []bool{}
			for i := range kept {
				_, err := noise.UnmarshalID(kept[:i])
				errs = append(errs, err != nil)
			}
			t.Add(M{"ev": "short", "errs": errs})
		case "list":
			var ids []noise.ID
			xs := []M{}
			for _, x := range list(o["xs"]) {
				ids = append(ids, plain(obj(x)))
				xs = append(xs, strip(obj(x)))
			}
			b := kademlia.FindNodeResponse{Results: ids}.Marshal()
			res, err := kademlia.UnmarshalFindNodeResponse(b)
			t.Add(M{"ev": "list", "xs": xs, "b": byteList(b), "err": err != nil, "back": views(res.Results)})
			errs := []bool{}
			for i := 0; i < len(b); i += 1 + rng.Intn(1+len(b)/60) {
				_, err := kademlia.UnmarshalFindNodeResponse(b[:i])
				errs = append(errs, err != nil)
			}
			_, err = kademlia.UnmarshalFindNodeResponse(b[:len(b)-1])
			t.Add(M{"ev": "short", "errs": append(errs, err != nil)})
		case "bytes":
			b := byteSlice(o["b"])
			id, err := noise.UnmarshalID(b)
			t.Add(M{"ev": "bytes", "b": byteList(b), "err": err != nil, "back": viewID(id)})
			res, err := kademlia.UnmarshalFindNodeResponse(b)
			t.Add(M{"ev": "listbytes", "b": byteList(b), "err": err != nil, "back": views(res.Results)})
		case "meet":
			meet(t, list(o["xs"]), plain, strip)
		}
	}
}

// meet has a node with one identity connect to a peer with another, and a node answer for those it knows.
func meet(t *Trace, in []interface{}, plain func(M) noise.ID, strip func(M) M) {
	pub, priv, err := noise.GenerateKeys(nil)
	must(err)
	x, y := obj(in[0]), obj(in[1])
	self := noise.NewID(pub, net.IP(byteSlice(x["host"])), uint16(num(x["port"])))
	n, err := noise.NewNode(noise.WithNodePrivateKey(priv), noise.WithNodeID(self), noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(64<<10))
	must(err)
	defer closeNode(n)
	id := newIdent(net.IP(byteSlice(y["host"])), uint16(num(y["port"])))
	r, c, _, err := connectRaw(n, "dial", id)
	if err != nil {
		t.Add(M{"ev": "failed", "err": err.Error()})
		return
	}
	defer r.Close()
	xm, ym := strip(x), strip(y)
	xm["key"], ym["key"] = byteList(pub[:]), byteList(id.Pub)
	t.Add(M{"ev": "met", "x": xm, "b": byteList(r.PeerID), "y": ym, "seen": viewID(c.ID())})

	k, err := noise.NewNode(noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(64<<10))
	must(err)
	kad := kademlia.New()
	k.Bind(kad.Protocol())
	must(k.Listen())
	defer closeNode(k)
	xs := []M{}
	for _, x := range in[2:] {
		kad.Table().Update(plain(obj(x)))
		xs = append(xs, strip(obj(x)))
	}
	q, _, _, err := connectRaw(k, "accept", newIdent(net.IPv4(127, 0, 0, 1), 9))
	if err != nil {
		t.Add(M{"ev": "failed", "err": err.Error()})
		return
	}
	defer q.Close()
	target := make([]byte, 32)
	target[0] = 7
	q.WriteMsg(1, append([]byte{0, 2}, target...))
	q.SetDeadline(time.Now().Add(longWait))
	_, b, err := q.ReadMsg()
	if err != nil || len(b) < 2 {
		t.Add(M{"ev": "failed", "err": fmt.Sprint(err)})
		return
	}
	t.Add(M{"ev": "answer", "xs": xs, "b": byteList(b[2:])})
}
