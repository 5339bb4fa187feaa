package main

import (
	"bytes"
	"math/bits"
	"math/rand"
	"sort"

	"github.com/perlin-network/noise"
)

// Universe is the keys a scenario is about, cut down to the bits in which they first differ. That keeps their order,
// how many leading bits two of them share compared to other two, and how distances compare.
type Universe struct {
	Keys  []noise.PublicKey
	small map[noise.PublicKey]int
	w     int
}

func sharedBits(a, b noise.PublicKey) int {
	for i := range a {
		if x := a[i] ^ b[i]; x != 0 {
			return i*8 + bits.LeadingZeros8(x)
		}
	}
	return 256
}

const maxBits = 30

func newUniverse(keys []noise.PublicKey) *Universe {
	u := &Universe{Keys: keys, small: map[noise.PublicKey]int{}}
	sorted := append([]noise.PublicKey{}, keys...)
	sort.Slice(sorted, func(i, j int) bool { return bytes.Compare(sorted[i][:], sorted[j][:]) < 0 })
	at := map[int]bool{255: true}
	for i := 1; i < len(sorted); i++ {
		if n := sharedBits(sorted[i-1], sorted[i]); n < 256 {
			at[n] = true
		}
	}
	pos := sortedInts(at)
	u.w = len(pos)
	for _, k := range keys {
		x := 0
		for _, p := range pos {
			x = x<<1 | int(k[p/8]>>(7-p%8)&1)
		}
		u.small[k] = x
	}
	return u
}

// Num is the number of a key, or -1 if it is not one of the scenario's.
func (u *Universe) Num(k noise.PublicKey) int {
	if n, ok := u.small[k]; ok {
		return n
	}
	return -1
}

func flip(k noise.PublicKey, bit int) noise.PublicKey {
	k[bit/8] ^= 0x80 >> (bit % 8)
	return k
}

// sharing returns a key that shares exactly n leading bits with k.
func sharing(rng *rand.Rand, k noise.PublicKey, n int) (out noise.PublicKey) {
	rng.Read(out[:])
	for i := 0; i < n; i++ {
		if (out[i/8]^k[i/8])&(0x80>>(i%8)) != 0 {
			out = flip(out, i)
		}
	}
	if n < 256 && (out[n/8]^k[n/8])&(0x80>>(n%8)) == 0 {
		out = flip(out, n)
	}
	return
}

var keyKinds = []string{"random", "near", "full", "deep", "bytes", "clusters", "mixed"}

// someKeys returns up to n keys in some constellation with the owner's.
func someKeys(rng *rand.Rand, kind string, self noise.PublicKey, n int, with ...noise.PublicKey) *Universe {
	keys := append([]noise.PublicKey{self}, with...)
	have := map[noise.PublicKey]bool{}
	for _, k := range keys {
		have[k] = true
	}
	edge := []int{0, 1, 6, 7, 8, 9, 15, 16, 17, 127, 128, 247, 248, 249, 253, 254, 255}
	d := edge[rng.Intn(len(edge))]
	if d > 248 {
		d = rng.Intn(200)
	}
	var centre noise.PublicKey
	for tries := 0; len(keys) < n && tries < 4*n; tries++ {
		var k noise.PublicKey
		switch kind {
		case "random":
			rng.Read(k[:])
		case "near": // all over the buckets
			k = sharing(rng, self, rng.Intn(256))
		case "full": // most in one bucket
			k = sharing(rng, self, d)
			if rng.Intn(8) == 0 {
				k = sharing(rng, self, edge[rng.Intn(len(edge))])
			}
		case "deep": // the last few buckets
			k = sharing(rng, self, 249+rng.Intn(7))
		case "bytes": // where bytes meet
			k = sharing(rng, self, edge[rng.Intn(len(edge))])
		case "clusters": // next to one another rather than to the owner
			if len(keys)%8 == 1 {
				centre = sharing(rng, self, rng.Intn(20))
			}
			k = sharing(rng, centre, 200+rng.Intn(56))
		default: // next to any other
			k = sharing(rng, keys[rng.Intn(len(keys))], edge[rng.Intn(len(edge))])
		}
		if have[k] {
			continue
		}
		if newUniverse(append(append([]noise.PublicKey{}, keys...), k)).w > maxBits {
			continue
		}
		have[k] = true
		keys = append(keys, k)
	}
	return newUniverse(keys)
}
