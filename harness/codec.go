package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/perlin-network/noise"
)

func init() {
	drivers["codec"] = driveCodec
}

// Message types come in three kinds, of which there are many each.
type msgStruct[P any] struct {
	B []byte
	_ [0]P
}

func (m msgStruct[P]) Marshal() []byte { return m.B }

type msgBytes2[P any] []byte

func (m msgBytes2[P]) Marshal() []byte { return m }

type msgType struct {
	kind    string
	n       int
	make    func(b []byte) noise.Serializable
	zero    noise.Serializable
	decoder func(n *noise.Node) interface{}
	content func(v noise.Serializable) ([]byte, bool) // false if it is not of this type
}

var msgTypes = map[string]*msgType{}

func (y *msgType) m() M { return M{"k": y.kind, "n": y.n} }

func typeOf(x interface{}) *msgType {
	f := obj(x)
	return msgTypes[fmt.Sprint(str(f["k"]), num(f["n"]))]
}

var errDecode = errors.New("cannot be decoded")

func addType[P any](n int) {
	bad := func(b []byte) error {
		if len(b) > 0 && b[0] == 255 {
			return errDecode
		}
		return nil
	}
	// What is inside of a message is often messages itself.
	inside := func(node *noise.Node, b []byte) {
		if node != nil && len(b) < 3 {
			time.Sleep(20 * time.Microsecond)
			node.DecodeMessage([]byte{0, 0, 5, 5, 5})
		}
	}
	add := func(y *msgType) {
		y.n = n
		msgTypes[fmt.Sprint(y.kind, n)] = y
	}
	add(&msgType{kind: "s", zero: msgStruct[P]{},
		make: func(b []byte) noise.Serializable { return msgStruct[P]{B: b} },
		decoder: func(node *noise.Node) interface{} {
			return func(b []byte) (msgStruct[P], error) { inside(node, b); return msgStruct[P]{B: b}, bad(b) }
		},
		content: func(v noise.Serializable) ([]byte, bool) { x, ok := v.(msgStruct[P]); return x.B, ok }})
	add(&msgType{kind: "p", zero: (*msgStruct[P])(nil),
		make: func(b []byte) noise.Serializable { return &msgStruct[P]{B: b} },
		decoder: func(node *noise.Node) interface{} {
			return func(b []byte) (*msgStruct[P], error) { inside(node, b); return &msgStruct[P]{B: b}, bad(b) }
		},
		content: func(v noise.Serializable) ([]byte, bool) {
			x, ok := v.(*msgStruct[P])
			if !ok {
				return nil, false
			}
			return x.B, true
		}})
	add(&msgType{kind: "l", zero: msgBytes2[P]{},
		make: func(b []byte) noise.Serializable { return msgBytes2[P](b) },
		decoder: func(node *noise.Node) interface{} {
			return func(b []byte) (msgBytes2[P], error) { inside(node, b); return msgBytes2[P](b), bad(b) }
		},
		content: func(v noise.Serializable) ([]byte, bool) { x, ok := v.(msgBytes2[P]); return x, ok }})
}

// oddDecoders are no decoders of y, but close.
func oddDecoder(y *msgType, i int) interface{} {
	switch i % 4 {
	case 0:
		return func(b []byte) (noise.Serializable, error) { return y.make(b), nil }
	case 1:
		return func(b []byte) noise.Serializable { return y.make(b) }
	case 2:
		return func(s string) (noise.Serializable, error) { return y.make([]byte(s)), nil }
	}
	return func(b []byte) ([]byte, error) { return b, nil }
}

func byteSlice(x interface{}) []byte {
	b := []byte{}
	for _, v := range list(x) {
		b = append(b, byte(num(v)))
	}
	return b
}

func byteList(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

// driveCodec has threads use the registries of two nodes.
func driveCodec(t *Trace, plan M, rng *rand.Rand) {
	threads := list(plan["threads"])
	race := len(threads) > 1
	nested := race && rng.Intn(2) == 0
	var nodes [3]*noise.Node
	needNet := false
	for _, th := range threads {
		for _, o := range list(th) {
			needNet = needNet || str(obj(o)["ev"]) == "ask"
		}
	}
	for x := 1; x <= 2; x++ {
		n, err := noise.NewNode(noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(64<<10))
		must(err)
		nodes[x] = n
		n.Handle(func(ctx noise.HandlerContext) error { // sends back what it takes it for
			v, err := ctx.DecodeMessage()
			if err != nil || ctx.SendMessage(v) != nil {
				ctx.Send([]byte{0})
			}
			return nil
		})
		if needNet {
			must(n.Listen())
			defer closeNode(n)
		}
	}
	value := func(v noise.Serializable, err error) M {
		if err != nil {
			return M{"s": "err"}
		}
		for _, y := range msgTypes {
			if b, ok := y.content(v); ok {
				return M{"s": "ok", "t": y.m(), "v": byteList(b)}
			}
		}
		return M{"s": "odd"}
	}
	do := func(o M) (out M) {
		n := nodes[num(o["x"])]
		switch str(o["ev"]) {
		case "register":
			defer func() {
				if recover() != nil {
					out = M{"s": "panic"}
				}
			}()
			y := typeOf(o["t"])
			var dec interface{}
			if str(obj(o["dec"])["k"]) == "odd" {
				dec = oddDecoder(y, num(obj(o["dec"])["n"]))
			} else if nested {
				dec = typeOf(o["dec"]).decoder(n)
			} else {
				dec = typeOf(o["dec"]).decoder(nil)
			}
			return M{"s": "ok", "op": int(n.RegisterMessage(y.zero, dec))}
		case "encode":
			b, err := n.EncodeMessage(typeOf(o["t"]).make(byteSlice(o["v"])))
			if err != nil {
				return M{"s": "err"}
			}
			return M{"s": "ok", "b": byteList(b)}
		case "decode":
			in := byteSlice(o["b"])
			kept := append([]byte{}, in...)
			out := value(n.DecodeMessage(in))
			if !bytes.Equal(in, kept) {
				return M{"s": "changed its input"}
			}
			return out
		case "ask":
			ctx, cancel := context.WithTimeout(context.Background(), longWait)
			defer cancel()
			v := typeOf(o["t"]).make(byteSlice(o["v"]))
			return value(n.RequestMessage(ctx, localAddr(nodes[num(o["y"])]), v))
		}
		return nil
	}
	var mu sync.Mutex
	calls := 0
	run := func(o M) bool {
		mu.Lock()
		calls++
		i := calls
		t.Add(M{"ev": "call", "i": i, "op": o})
		mu.Unlock()
		var out M
		if !within(longWait, func() { out = do(o) }) {
			t.Add(M{"ev": "hang"})
			t.Over()
			return false
		}
		t.Add(M{"ev": "ret", "i": i, "out": out})
		return true
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, th := range threads {
		ops := list(th)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, x := range ops {
				o := obj(x)
				if str(o["ev"]) == "register" && truth(plan["same"]) {
					for k := 1; k <= 2; k++ {
						if !run(M{"ev": "register", "x": k, "t": o["t"], "dec": o["dec"]}) {
							return
						}
					}
				} else if !run(o) {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
}
