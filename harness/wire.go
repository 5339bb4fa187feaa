package main

// An implementation of the wire protocol that shares no code with the implementation under test. It is used to play
// remote peers, honest and hostile ones, and to look into what goes over the wire.

import (
	"bufio"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"time"
)

var kexText = []byte(".__noise_handshake")

// Ident is the identity a raw peer advertises.
type Ident struct {
	Pub  ed25519.PublicKey
	Priv ed25519.PrivateKey
	Host net.IP
	Port uint16
}

func newIdent(host net.IP, port uint16) Ident {
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	if err != nil {
		panic(err)
	}
	return Ident{Pub: pub, Priv: priv, Host: host, Port: port}
}

func (i Ident) Key() (k [32]byte) {
	copy(k[:], i.Pub)
	return
}

func marshalID(pub []byte, host net.IP, port uint16) []byte {
	buf := make([]byte, 0, 50)
	buf = append(buf, pub...)
	h := host.To16()
	if h == nil {
		h = make([]byte, 16)
	}
	buf = append(buf, h...)
	return append(buf, byte(port>>8), byte(port))
}

func (i Ident) Marshal() []byte { return marshalID(i.Pub, i.Host, i.Port) }

var fieldP, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)

func montgomery(pub []byte) []byte {
	be := make([]byte, 32)
	for i := range pub {
		be[31-i] = pub[i]
	}
	be[0] &= 0x7f
	y := new(big.Int).SetBytes(be)
	one := big.NewInt(1)
	num := new(big.Int).Add(one, y)
	den := new(big.Int).Sub(one, y)
	den.Mod(den, fieldP)
	if den.Sign() == 0 {
		return make([]byte, 32)
	}
	den.ModInverse(den, fieldP)
	u := num.Mul(num, den)
	u.Mod(u, fieldP)
	ub := u.Bytes()
	out := make([]byte, 32)
	for i := range ub {
		out[len(ub)-1-i] = ub[i]
	}
	return out
}

func sharedSecret(priv ed25519.PrivateKey, peer []byte) ([]byte, error) {
	h := sha512.Sum512(priv[:32])
	sk, err := ecdh.X25519().NewPrivateKey(h[:32])
	if err != nil {
		return nil, err
	}
	pk, err := ecdh.X25519().NewPublicKey(montgomery(peer))
	if err != nil {
		return nil, err
	}
	return sk.ECDH(pk)
}

func newSuite(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return g
}

func seal(s cipher.AEAD, plain []byte) []byte {
	nonce := make([]byte, s.NonceSize())
	if _, err := crand.Read(nonce); err != nil {
		panic(err)
	}
	return s.Seal(append([]byte{}, nonce...), nonce, plain, nil)
}

func open(s cipher.AEAD, frame []byte) ([]byte, error) {
	if len(frame) < s.NonceSize() {
		return nil, errors.New("frame shorter than a nonce")
	}
	return s.Open(nil, frame[:s.NonceSize()], frame[s.NonceSize():], nil)
}

func frameBytes(body []byte) []byte {
	out := make([]byte, 4, 4+len(body))
	binary.BigEndian.PutUint32(out, uint32(len(body)))
	return append(out, body...)
}

// Raw is one end of a connection, driven step by step.
type Raw struct {
	net.Conn
	br *bufio.Reader

	EphPub  ed25519.PublicKey
	EphPriv ed25519.PrivateKey

	PeerEph []byte
	Shared  []byte
	Suite   cipher.AEAD

	PeerID  []byte // the 50 bytes of identity the peer sent
	PeerSig []byte

	Frames  [][]byte // frames received, as they came
	OnFrame func(body []byte)
}

func newRaw(c net.Conn) *Raw {
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	if err != nil {
		panic(err)
	}
	return &Raw{Conn: c, br: bufio.NewReader(c), EphPub: pub, EphPriv: priv}
}

const maxRawFrame = 64 << 20

func (r *Raw) ReadFrame() ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r.br, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > maxRawFrame {
		return nil, fmt.Errorf("node announced a frame of %d bytes", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r.br, b); err != nil {
		return nil, err
	}
	if r.OnFrame != nil {
		r.OnFrame(b)
	}
	return b, nil
}

func (r *Raw) WriteFrame(body []byte) error {
	_, err := r.Conn.Write(frameBytes(body))
	return err
}

func (r *Raw) KexFrame() []byte {
	return append(append([]byte{}, r.EphPub...), ed25519.Sign(r.EphPriv, kexText)...)
}

func (r *Raw) ReadKex() error {
	b, err := r.ReadFrame()
	if err != nil {
		return err
	}
	if len(b) != 96 {
		return fmt.Errorf("key exchange frame of %d bytes", len(b))
	}
	if !ed25519.Verify(b[:32], kexText, b[32:]) {
		return errors.New("key exchange signature is wrong")
	}
	r.PeerEph = append([]byte{}, b[:32]...)
	return nil
}

func (r *Raw) Derive() error {
	s, err := sharedSecret(r.EphPriv, r.PeerEph)
	if err != nil {
		return err
	}
	r.Shared = s
	r.Suite = newSuite(s)
	return nil
}

func idFrame(id []byte, signer ed25519.PrivateKey, shared []byte) []byte {
	sig := ed25519.Sign(signer, append(append([]byte{}, id...), shared...))
	return append(append([]byte{}, id...), sig...)
}

func (r *Raw) ReadID() error {
	b, err := r.ReadFrame()
	if err != nil {
		return err
	}
	p, err := open(r.Suite, b)
	if err != nil {
		return err
	}
	if len(p) != 50+64 {
		return fmt.Errorf("identity frame of %d bytes", len(p))
	}
	if !ed25519.Verify(p[:32], append(append([]byte{}, p[:50]...), r.Shared...), p[50:]) {
		return errors.New("identity signature is wrong")
	}
	r.PeerID = append([]byte{}, p[:50]...)
	r.PeerSig = append([]byte{}, p[50:]...)
	return nil
}

// Handshake plays an honest peer.
func (r *Raw) Handshake(id Ident) error {
	if err := r.WriteFrame(r.KexFrame()); err != nil {
		return err
	}
	if err := r.ReadKex(); err != nil {
		return err
	}
	if err := r.Derive(); err != nil {
		return err
	}
	if err := r.WriteFrame(seal(r.Suite, idFrame(id.Marshal(), id.Priv, r.Shared))); err != nil {
		return err
	}
	return r.ReadID()
}

func msgBytes(nonce uint64, data []byte) []byte {
	out := make([]byte, 8, 8+len(data))
	binary.BigEndian.PutUint64(out, nonce)
	return append(out, data...)
}

func (r *Raw) WriteMsg(nonce uint64, data []byte) error {
	return r.WriteFrame(seal(r.Suite, msgBytes(nonce, data)))
}

func (r *Raw) ReadMsg() (uint64, []byte, error) {
	b, err := r.ReadFrame()
	if err != nil {
		return 0, nil, err
	}
	p, err := open(r.Suite, b)
	if err != nil {
		return 0, nil, err
	}
	if len(p) < 8 {
		return 0, nil, fmt.Errorf("message of %d bytes", len(p))
	}
	return binary.BigEndian.Uint64(p[:8]), p[8:], nil
}

// GoneWithin reports whether the other end closes the connection within d. Frames received meanwhile are dropped.
func (r *Raw) GoneWithin(d time.Duration) bool {
	r.SetReadDeadline(time.Now().Add(d))
	defer r.SetReadDeadline(time.Time{})
	buf := make([]byte, 4096)
	for {
		_, err := r.br.Read(buf)
		if err == nil {
			continue
		}
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return false
		}
		return true
	}
}

func dialRaw(addr string) (*Raw, error) {
	c, err := net.DialTimeout("tcp", addr, longWait)
	if err != nil {
		return nil, err
	}
	return newRaw(c), nil
}
