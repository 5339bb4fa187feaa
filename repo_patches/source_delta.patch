From 13a9f90d045ad44d70213385090ce7c3543a1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 01/28] fix: draw AEAD nonces from crypto/rand

math/rand yields the same nonces on both ends of a session, which share one key, when it
is seeded alike (as it is by default before Go 1.20, or by the application).
---
 aead.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aead.go b/aead.go
index a9699c4..45f9ac4 100644
--- a/aead.go
+++ b/aead.go
@@ -2,8 +2,8 @@ package noise
 
 import (
 	"crypto/cipher"
+	"crypto/rand"
 	"io"
-	"math/rand"
 )
 
 func extendFront(buf []byte, n int) []byte {
-- 
2.43.0


From c2bcdd56531e3fcbd08d7b583b20487f85480072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 02/28] fix: do not use an outbound connection whose handshake
 failed

It went on to the receive loop without a cipher and identity, handing plaintext messages of
an unauthenticated peer to handlers, and reported a disconnect of a peer never connected.
---
 client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client.go b/client.go
index 85f9b9c..dda885d 100644
--- a/client.go
+++ b/client.go
@@ -231,6 +231,11 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.handshake()
 
+	if c.Error() != nil {
+		c.close()
+		return
+	}
+
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
-- 
2.43.0


From 230dec8d7c5726dbc27adc8f86b35eb022a6cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 03/28] fix: keep workers running after a handler error

Each handler error ended one worker for good; with none left the node stopped handling
messages and could not be closed.
---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 634410e..64f6d65 100644
--- a/node.go
+++ b/node.go
@@ -189,7 +189,7 @@ func (n *Node) Listen() error {
 						ctx.client.reportError(err)
 						ctx.client.close()
 
-						return
+						break
 					}
 				}
 			}
-- 
2.43.0


From e7de98448992937b69943e325d0e929282f0d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 04/28] fix: allow one response per request across all handlers

HandlerContext is passed by value, so each handler had its own flag.
---
 client.go | 3 ++-
 msg.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index dda885d..e11f91a 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"go.uber.org/atomic"
 	"go.uber.org/zap"
 	"io"
 	"net"
@@ -550,7 +551,7 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg}
+		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/msg.go b/msg.go
index 7d25d28..5c38dbe 100644
--- a/msg.go
+++ b/msg.go
@@ -37,7 +37,7 @@ func unmarshalMessage(data []byte) (message, error) {
 type HandlerContext struct {
 	client *Client
 	msg    message
-	sent   atomic.Bool
+	sent   *atomic.Bool // shared by the contexts passed to all handlers of a message
 }
 
 // ID returns the ID of the inbound/outbound peer that sent you the data that is currently being handled.
-- 
2.43.0


From 14f28cba4151108029d0cb3e30adf7845d14b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 05/28] fix: encode messages whose registered type is a pointer

---
 codec.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index 3d627f2..11da0fb 100644
--- a/codec.go
+++ b/codec.go
@@ -61,11 +61,12 @@ func (c *codec) encode(msg Serializable) ([]byte, error) {
 
 	t := reflect.TypeOf(msg)
 
-	if t.Kind() == reflect.Ptr {
+	opcode, registered := c.ser[t]
+	if !registered && t.Kind() == reflect.Ptr {
 		t = t.Elem()
+		opcode, registered = c.ser[t]
 	}
 
-	opcode, registered := c.ser[t]
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
-- 
2.43.0


From 1a20e9abe0b1e9e99749e9d7d3352f70fe31d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 06/28] fix: encode IPv4 hosts held in 4-byte form

They were decoded by peers as an unrelated IPv6 address.
---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index b3c0afa..82f36ee 100644
--- a/id.go
+++ b/id.go
@@ -53,7 +53,7 @@ func (e ID) Marshal() []byte {
 	buf := make([]byte, e.Size())
 
 	copy(buf[:len(e.ID)], e.ID[:])
-	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host)
+	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host.To16())
 	binary.BigEndian.PutUint16(buf[len(e.ID)+net.IPv6len:len(e.ID)+net.IPv6len+2], e.Port)
 
 	return buf
-- 
2.43.0


From 09b642690c01c9c7b28185c335d478db41f01adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 07/28] fix: receive messages when no size limit is set

With the limit disabled the receive buffer held 4 bytes, and the first frame of any peer
panicked with a slice out of range.
---
 client.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index e11f91a..ed150b1 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package noise
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"crypto/aes"
 	"crypto/cipher"
@@ -92,7 +93,7 @@ func newClient(node *Node) *Client {
 
 		requests: newRequestMap(),
 
-		readerBuf: make([]byte, 4+node.maxRecvMessageSize),
+		readerBuf: make([]byte, 4+uint64(node.maxRecvMessageSize)),
 
 		ready:      make(chan struct{}),
 		readerDone: make(chan struct{}),
@@ -302,15 +303,25 @@ func (c *Client) read() ([]byte, error) {
 		return nil, fmt.Errorf("got %d bytes, but limit is set to %d: %w", size, c.node.maxRecvMessageSize, ErrMessageTooLarge)
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[4:size+4]); err != nil {
+	end := 4 + uint64(size)
+
+	if end > uint64(len(c.readerBuf)) { // There is no limit. Grow the buffer only as data comes in.
+		body := bytes.NewBuffer(c.readerBuf[:4])
+
+		if _, err := io.CopyN(body, c.reader, int64(size)); err != nil {
+			return nil, err
+		}
+
+		c.readerBuf = body.Bytes()
+	} else if _, err := io.ReadFull(c.reader, c.readerBuf[4:end]); err != nil {
 		return nil, err
 	}
 
 	if c.suite == nil {
-		return c.readerBuf[4 : size+4], nil
+		return c.readerBuf[4:end], nil
 	}
 
-	buf, err := decryptAEAD(c.suite, c.readerBuf[4:size+4])
+	buf, err := decryptAEAD(c.suite, c.readerBuf[4:end])
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 398c6c98881664fe9b317c5088a044654f0dc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 08/28] fix: recognise gossip messages of 64 KB and more

The seen cache silently drops keys of 64 KB and more, and keys were the whole message: large
messages were never marked as seen and circulated for ever.
---
 gossip/protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index c5ae995..85c2bc7 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -4,6 +4,7 @@ package gossip
 
 import (
 	"context"
+	"crypto/sha256"
 	"github.com/VictoriaMetrics/fastcache"
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
@@ -125,5 +126,7 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 }
 
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
-	return append(id.ID[:], data...)
+	sum := sha256.Sum256(append(id.ID[:], data...))
+
+	return sum[:]
 }
-- 
2.43.0


From 60473a4cdbd6ce6bc55db70658b41d6ea148134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 09/28] fix: check and mark gossip as seen in one step

Workers handling the same message from two peers at once, or concurrent pushes, could both
find it unseen and take it up or forward it twice.
---
 gossip/protocol.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index 85c2bc7..ebaa729 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -18,7 +18,8 @@ type Protocol struct {
 	overlay *kademlia.Protocol
 	events  Events
 
-	seen *fastcache.Cache
+	seen     *fastcache.Cache
+	seenLock sync.Mutex // makes checking and marking a key one step
 }
 
 // New returns a new instance of a gossip protocol with 32MB of in-memory cache instantiated.
@@ -73,15 +74,13 @@ func (p *Protocol) Push(ctx context.Context, data []byte) {
 		go func() {
 			defer wg.Done()
 
-			if p.seen.Has(key) {
+			if !p.mark(key) {
 				return
 			}
 
 			if err := p.node.SendMessage(ctx, id.Address, Message(data)); err != nil {
-				return
+				p.seen.Del(key)
 			}
-
-			p.seen.Set(key, nil)
 		}()
 	}
 
@@ -106,14 +105,10 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 
 	p.seen.Set(p.hash(ctx.ID(), msg), nil) // Mark that the sender already has this data.
 
-	self := p.hash(p.node.ID(), msg)
-
-	if p.seen.Has(self) {
+	if !p.mark(p.hash(p.node.ID(), msg)) { // Mark that we already have this data.
 		return nil
 	}
 
-	p.seen.Set(self, nil) // Mark that we already have this data.
-
 	if p.events.OnGossipReceived != nil {
 		if err := p.events.OnGossipReceived(ctx.ID(), msg); err != nil {
 			return err
@@ -125,6 +120,20 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 	return nil
 }
 
+// mark marks key as seen. It returns false if key was already marked before.
+func (p *Protocol) mark(key []byte) bool {
+	p.seenLock.Lock()
+	defer p.seenLock.Unlock()
+
+	if p.seen.Has(key) {
+		return false
+	}
+
+	p.seen.Set(key, nil)
+
+	return true
+}
+
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
 	sum := sha256.Sum256(append(id.ID[:], data...))
 
-- 
2.43.0


From e94cb97722c17d92781cadcc6aa8a977b3115dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 10/28] fix: do not panic on the last entry of an empty bucket

---
 kademlia/protocol.go | 3 +++
 kademlia/table.go    | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index c0eb3ad..924c14f 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -104,6 +104,9 @@ func (p *Protocol) Ack(id noise.ID) {
 		}
 
 		last := p.table.Last(id.ID)
+		if last.ID == noise.ZeroPublicKey { // The bucket was emptied in the meantime.
+			continue
+		}
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
 		pong, err := p.node.RequestMessage(ctx, last.Address, Ping{})
diff --git a/kademlia/table.go b/kademlia/table.go
index 1ea256f..1085a9c 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -37,12 +37,17 @@ func (t *Table) Self() noise.ID {
 	return t.self
 }
 
-// Last returns the last id of the bucket where target resides within.
+// Last returns the last id of the bucket where target resides within, or a zero-value ID if the bucket is empty.
 func (t *Table) Last(target noise.PublicKey) noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	return t.entries[t.getBucketIndex(target)].Back().Value.(noise.ID)
+	last := t.entries[t.getBucketIndex(target)].Back()
+	if last == nil {
+		return noise.ID{}
+	}
+
+	return last.Value.(noise.ID)
 }
 
 // Bucket returns all entries of a bucket where target reside within.
-- 
2.43.0


From 540ff29986ffd404f1dbb57c6be0a9631f78cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 11/28] fix: do not report the eviction of a peer that was
 never admitted

---
 kademlia/protocol.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index 924c14f..bb67e45 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -147,10 +147,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			zap.String("peer_addr", id.Address),
 		)
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
-
 		return
 	}
 }
-- 
2.43.0


From ab515135b64893469c00554f8f68eb4621067256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 12/28] fix: return the true k closest peers to a target

Buckets were scanned alternately on both sides of the target's bucket, stopping once k peers
were collected; but all buckets after it are closer to the target than any bucket before it.
---
 kademlia/table.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index 1085a9c..c77ec1e 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -181,16 +181,19 @@ func (t *Table) FindClosest(target noise.PublicKey, k int) []noise.ID {
 
 	f(t.entries[idx])
 
-	for i := 1; len(closest) < k && (idx-i >= 0 || idx+i < len(t.entries)); i++ {
-		if idx-i >= 0 {
-			f(t.entries[idx-i])
-		}
+	// Peers in buckets past idx differ from target at bit idx, and so are all closer to it than those in buckets
+	// before idx, which get farther from it the less bits they share with it.
 
-		if idx+i < len(t.entries) {
-			f(t.entries[idx+i])
+	if len(closest) < k {
+		for i := idx + 1; i < len(t.entries); i++ {
+			f(t.entries[i])
 		}
 	}
 
+	for i := idx - 1; len(closest) < k && i >= 0; i-- {
+		f(t.entries[i])
+	}
+
 	closest = SortByDistance(target, closest)
 
 	if len(closest) > k {
-- 
2.43.0


From 3aeee49c42816865b6740a7f4cc1ee92aca01114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 13/28] fix: have lookups look for their target

Peers were asked for the peers closest to themselves, starting from those closest to this
node, so that lookups of other targets missed peers that were known to the peers asked.
---
 kademlia/iterator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 9b0f3ca..12eac45 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -17,6 +17,7 @@ type Iterator struct {
 	table  *Table
 	logger *zap.Logger
 
+	target  noise.PublicKey
 	visited map[noise.PublicKey]struct{}
 	results chan noise.ID
 	buckets [][]noise.ID
@@ -72,6 +73,7 @@ func (it *Iterator) Find(target noise.PublicKey) []noise.ID {
 }
 
 func (it *Iterator) init(target noise.PublicKey) {
+	it.target = target
 	it.results = make(chan noise.ID, 1)
 
 	it.visited = map[noise.PublicKey]struct{}{
@@ -81,7 +83,7 @@ func (it *Iterator) init(target noise.PublicKey) {
 
 	it.buckets = make([][]noise.ID, it.numParallelLookups)
 
-	for i, id := range it.table.Peers() {
+	for i, id := range it.table.FindClosest(target, BucketSize) {
 		it.visited[id.ID] = struct{}{}
 		it.buckets[i%it.numParallelLookups] = append(it.buckets[i%it.numParallelLookups], id)
 	}
@@ -162,7 +164,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: id.ID})
+	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
 		return
-- 
2.43.0


From 3f7ebfa5dcc68baa6e867ee396b9a0e4d922b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 14/28] fix: close connections of clients closed while being
 set up

A client closed before its connection was assigned (while dialling, or before its goroutine
ran) never closed that connection: it stayed open for good, and waiting for it hung.
---
 client.go | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index ed150b1..d1578ae 100644
--- a/client.go
+++ b/client.go
@@ -61,7 +61,9 @@ type Client struct {
 		*zap.Logger
 	}
 
-	conn net.Conn
+	conn     net.Conn
+	connLock sync.Mutex    // guards setting conn against closing the client
+	closing  chan struct{} // closed once the client is being closed
 
 	reader *bufio.Reader
 	writer *bufio.Writer
@@ -100,6 +102,8 @@ func newClient(node *Node) *Client {
 		writerDone: make(chan struct{}),
 
 		clientDone: make(chan struct{}),
+
+		closing: make(chan struct{}),
 	}
 
 	c.writerCond.L = &sync.Mutex{}
@@ -193,12 +197,34 @@ func (c *Client) close() {
 		c.writerCond.Signal()
 		c.writerCond.L.Unlock()
 
+		c.connLock.Lock()
+		close(c.closing)
 		if c.conn != nil {
 			c.conn.Close()
 		}
+		c.connLock.Unlock()
 	})
 }
 
+// setConn assigns conn to this client. Should the client have been closed already, it closes conn and returns false.
+func (c *Client) setConn(conn net.Conn) bool {
+	c.connLock.Lock()
+	defer c.connLock.Unlock()
+
+	select {
+	case <-c.closing:
+		conn.Close()
+		return false
+	default:
+	}
+
+	c.reader = bufio.NewReader(conn)
+	c.writer = bufio.NewWriter(conn)
+	c.conn = conn
+
+	return true
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -216,9 +242,13 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		close(c.clientDone)
 	}()
 
-	var dialer net.Dialer
+	dialer := net.Dialer{Cancel: c.closing}
 
 	conn, err := dialer.DialContext(ctx, "tcp", addr)
+	if err == nil && !c.setConn(conn) {
+		err = io.ErrClosedPipe
+	}
+
 	if err != nil {
 		c.reportError(err)
 		close(c.ready)
@@ -227,10 +257,6 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		return
 	}
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
-
 	c.handshake()
 
 	if c.Error() != nil {
@@ -262,9 +288,11 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		close(c.clientDone)
 	}()
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
+	if !c.setConn(conn) {
+		c.reportError(io.ErrClosedPipe)
+		close(c.ready)
+		return
+	}
 
 	c.handshake()
 
-- 
2.43.0


From eb72084df6e0e378111470648ea9bc0ab1b62e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 15/28] fix: do not deadlock when evicting a connection from a
 full pool

The pool waited, holding its lock, for the evicted client to end, which needs that lock to
remove itself. A client only removes its own entry now, not that of a successor.
---
 client.go |  4 ++--
 map.go    | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index d1578ae..8777ca1 100644
--- a/client.go
+++ b/client.go
@@ -238,7 +238,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
-		c.node.outbound.remove(addr)
+		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
@@ -284,7 +284,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
-		c.node.inbound.remove(addr)
+		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
diff --git a/map.go b/map.go
index 58c9c12..be63997 100644
--- a/map.go
+++ b/map.go
@@ -29,6 +29,14 @@ func newClientMap(cap uint) *clientMap {
 }
 
 func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
+	var evicted *Client
+
+	defer func() {
+		if evicted != nil {
+			evicted.close() // Do not wait for it: it needs the lock, and possibly a worker, in order to end.
+		}
+	}()
+
 	c.Lock()
 	defer c.Unlock()
 
@@ -36,13 +44,10 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	if !exists {
 		if uint(len(c.entries)) == n.maxInboundConnections {
 			el := c.order.Back()
-			evicted := c.order.Remove(el).(string)
+			last := c.order.Remove(el).(string)
 
-			e := c.entries[evicted]
-			delete(c.entries, evicted)
-
-			e.client.close()
-			e.client.waitUntilClosed()
+			evicted = c.entries[last].client
+			delete(c.entries, last)
 		}
 
 		entry.el = c.order.PushFront(addr)
@@ -56,12 +61,12 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	return entry.client, exists
 }
 
-func (c *clientMap) remove(addr string) {
+func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
-	if !exists {
+	if !exists || entry.client != client { // It may have been evicted and replaced.
 		return
 	}
 
-- 
2.43.0


From 8cd927245e502ff1c786a710b6aec1c993f23426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 16/28] fix: end requests and refuse sends once a connection is
 closed

Requests pending on a connection that was lost blocked until their context ended, possibly
for ever, and messages sent over a closed connection were silently discarded.
---
 client.go |  9 ++++++++-
 map.go    | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 8777ca1..5620a5f 100644
--- a/client.go
+++ b/client.go
@@ -203,6 +203,8 @@ func (c *Client) close() {
 			c.conn.Close()
 		}
 		c.connLock.Unlock()
+
+		c.requests.close()
 	})
 }
 
@@ -384,9 +386,14 @@ func (c *Client) write(data []byte) error {
 
 func (c *Client) send(nonce uint64, data []byte) error {
 	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		return io.ErrClosedPipe
+	}
+
 	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
 	c.writerCond.Signal()
-	c.writerCond.L.Unlock()
 
 	return nil
 }
diff --git a/map.go b/map.go
index be63997..75fedda 100644
--- a/map.go
+++ b/map.go
@@ -3,6 +3,7 @@ package noise
 import (
 	"container/list"
 	"errors"
+	"io"
 	"math"
 	"sync"
 )
@@ -105,6 +106,7 @@ type requestMap struct {
 	sync.Mutex
 	entries map[uint64]chan message
 	nonce   uint64
+	closed  bool
 }
 
 func newRequestMap() *requestMap {
@@ -115,6 +117,10 @@ func (r *requestMap) nextNonce() (<-chan message, uint64, error) {
 	r.Lock()
 	defer r.Unlock()
 
+	if r.closed {
+		return nil, 0, io.EOF
+	}
+
 	if r.nonce == math.MaxUint64 {
 		r.nonce = 0
 	}
@@ -136,8 +142,10 @@ func (r *requestMap) markRequestFailed(nonce uint64) {
 	r.Lock()
 	defer r.Unlock()
 
-	close(r.entries[nonce])
-	delete(r.entries, nonce)
+	if ch, exists := r.entries[nonce]; exists {
+		close(ch)
+		delete(r.entries, nonce)
+	}
 }
 
 func (r *requestMap) findRequest(nonce uint64) chan<- message {
@@ -156,6 +164,8 @@ func (r *requestMap) close() {
 	r.Lock()
 	defer r.Unlock()
 
+	r.closed = true
+
 	for nonce := range r.entries {
 		close(r.entries[nonce])
 		delete(r.entries, nonce)
-- 
2.43.0


From 6f0886c01e4bacdc4a1d738e8137f431db948adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 17/28] fix: close a connection that can no longer be written
 to

Once writing failed the connection lingered for as long as the peer kept it open, and requests
sent over it hung.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 5620a5f..2a07205 100644
--- a/client.go
+++ b/client.go
@@ -610,6 +610,7 @@ func (c *Client) recvLoop() {
 }
 
 func (c *Client) writeLoop() {
+	defer c.close()
 	defer close(c.writerDone)
 
 	header := make([]byte, 4)
-- 
2.43.0


From 7e901c678f951f91390949bba9c4dd46dd093015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 18/28] fix: do not time out connections that are active in one
 direction

The write deadline was set before waiting for something to write, so that the first write after
a longer pause failed; and a connection only written to timed out for lack of reads.
---
 client.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 2a07205..0814fba 100644
--- a/client.go
+++ b/client.go
@@ -626,17 +626,6 @@ Write:
 		default:
 		}
 
-		if c.node.idleTimeout > 0 {
-			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-				if !isEOF(err) {
-					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
-				}
-				c.reportError(err)
-
-				break Write
-			}
-		}
-
 		c.writerCond.L.Lock()
 		for len(c.writerBuf) == 0 && !c.writerClosed {
 			c.writerCond.Wait()
@@ -649,6 +638,19 @@ Write:
 			break Write
 		}
 
+		// Writing counts as activity: have the reader wait longer as well.
+
+		if c.node.idleTimeout > 0 {
+			if err := c.conn.SetDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
+				if !isEOF(err) {
+					c.Logger().Warn("Got an error setting deadline.", zap.Error(err))
+				}
+				c.reportError(err)
+
+				break Write
+			}
+		}
+
 		for _, msg := range writerBuf {
 			buf = buf[:0]
 			buf = msg.marshal(buf)
-- 
2.43.0


From 92c4da237828899b31495fccde7644f7453dd7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 19/28] fix: do not let a cancelled call take down connections
 of other calls

A call whose context ended closed the connection to the address even if other calls were using
it or had established it, and calls sharing a dial that another call's context cancelled failed
with that cancellation instead of dialling again.
---
 client.go | 10 ++++++++++
 node.go   | 24 +++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 0814fba..6f143a7 100644
--- a/client.go
+++ b/client.go
@@ -227,6 +227,16 @@ func (c *Client) setConn(conn net.Conn) bool {
 	return true
 }
 
+// established returns true if this client completed its handshake and has not failed since.
+func (c *Client) established() bool {
+	select {
+	case <-c.ready:
+		return c.Error() == nil
+	default:
+		return false
+	}
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
diff --git a/node.go b/node.go
index 64f6d65..1c638ee 100644
--- a/node.go
+++ b/node.go
@@ -398,7 +398,6 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 		select {
 		case <-ctx.Done():
-			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
 		case <-client.ready:
 			err = client.Error()
 		case <-client.readerDone:
@@ -407,14 +406,18 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 			err = client.Error()
 		}
 
-		if err == nil {
-			return client, nil
-		}
+		if ctx.Err() != nil {
+			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
 
-		client.close()
-		client.waitUntilClosed()
+			// Leave connections that are up, or that another call is setting up, to those that use them.
+
+			if exists || client.established() {
+				return nil, err
+			}
+
+			client.close()
+			client.waitUntilClosed()
 
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
 			for _, protocol := range n.protocols {
 				if protocol.OnPingFailed == nil {
 					continue
@@ -425,6 +428,13 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 			return nil, err
 		}
+
+		if err == nil {
+			return client, nil
+		}
+
+		client.close()
+		client.waitUntilClosed()
 	}
 
 	err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
-- 
2.43.0


From 9fca2d69960046d22efd95b03c69a76c48780743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 20/28] fix: call OnMessageRecv for responses too, as
 documented

---
 client.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 6f143a7..1fef434 100644
--- a/client.go
+++ b/client.go
@@ -603,12 +603,10 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-
-			continue
+		} else {
+			c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
-
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
 				continue
-- 
2.43.0


From db8c9014c87d90924d17b12255f0ba17e58f9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 21/28] fix: close outbound connections when closing a node

They stayed open, and the next message received over one panicked, sending on a closed channel.
Dialling is refused once the node is closed, and clients being closed do not wait for workers.
---
 client.go |  9 ++++++++-
 map.go    | 11 ++++++++++-
 node.go   |  7 +++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 1fef434..2ef8d61 100644
--- a/client.go
+++ b/client.go
@@ -252,6 +252,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	defer func() {
 		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.clients.Done()
 	}()
 
 	dialer := net.Dialer{Cancel: c.closing}
@@ -298,6 +299,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	defer func() {
 		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.clients.Done()
 	}()
 
 	if !c.setConn(conn) {
@@ -604,7 +606,12 @@ func (c *Client) recvLoop() {
 			ch <- msg
 			close(ch)
 		} else {
-			c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
+			select {
+			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+			case <-c.closing: // Hand over nothing that comes after a dropped message.
+				c.reportError(io.ErrClosedPipe)
+				return
+			}
 		}
 
 		for _, protocol := range c.node.protocols {
diff --git a/map.go b/map.go
index 75fedda..8e80bfd 100644
--- a/map.go
+++ b/map.go
@@ -19,6 +19,7 @@ type clientMap struct {
 	cap     uint
 	order   *list.List
 	entries map[string]clientMapEntry
+	closed  bool
 }
 
 func newClientMap(cap uint) *clientMap {
@@ -29,6 +30,7 @@ func newClientMap(cap uint) *clientMap {
 	}
 }
 
+// get returns the client for addr, creating it if there is none. It returns nil once the map has been released.
 func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	var evicted *Client
 
@@ -41,8 +43,14 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	c.Lock()
 	defer c.Unlock()
 
+	if c.closed {
+		return nil, false
+	}
+
 	entry, exists := c.entries[addr]
 	if !exists {
+		n.clients.Add(1)
+
 		if uint(len(c.entries)) == n.maxInboundConnections {
 			el := c.order.Back()
 			last := c.order.Remove(el).(string)
@@ -78,6 +86,8 @@ func (c *clientMap) remove(addr string, client *Client) {
 func (c *clientMap) release() {
 	c.Lock()
 
+	c.closed = true
+
 	entries := c.entries
 	c.entries = make(map[string]clientMapEntry, c.cap)
 	c.order.Init()
@@ -86,7 +96,6 @@ func (c *clientMap) release() {
 
 	for _, e := range entries {
 		e.client.close()
-		e.client.waitUntilClosed()
 	}
 }
 
diff --git a/node.go b/node.go
index 1c638ee..eeccff3 100644
--- a/node.go
+++ b/node.go
@@ -51,6 +51,7 @@ type Node struct {
 	protocols []Protocol
 	handlers  []Handler
 
+	clients sync.WaitGroup
 	workers sync.WaitGroup
 	work    chan HandlerContext
 
@@ -201,6 +202,8 @@ func (n *Node) Listen() error {
 
 		defer func() {
 			n.inbound.release()
+			n.outbound.release()
+			n.clients.Wait()
 
 			close(n.work)
 			n.workers.Wait()
@@ -392,6 +395,10 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 	for i := uint(0); i < n.maxDialAttempts; i++ {
 		client, exists := n.outbound.get(n, addr)
+		if client == nil {
+			return nil, errors.New("node is closed")
+		}
+
 		if !exists {
 			go client.outbound(ctx, addr)
 		}
-- 
2.43.0


From 4f194e13b16302a1763510be424bcc0485ed5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 22/28] fix: close accepted connections that are not taken up

---
 node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index eeccff3..aceea6b 100644
--- a/node.go
+++ b/node.go
@@ -229,9 +229,12 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if !exists {
-				go client.inbound(conn, addr)
+			if exists || client == nil {
+				conn.Close()
+				continue
 			}
+
+			go client.inbound(conn, addr)
 		}
 	}()
 
-- 
2.43.0


From 66332439cccd08150f6c601ba34d020dc78d2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 23/28] fix: do not hang closing a node, and settle
 registrations before listening

---
 node.go | 53 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/node.go b/node.go
index aceea6b..25a6df0 100644
--- a/node.go
+++ b/node.go
@@ -51,18 +51,22 @@ type Node struct {
 	protocols []Protocol
 	handlers  []Handler
 
+	stateLock sync.Mutex // guards registering protocols/handlers, and closing, against starting to listen
+	started   bool
+	closed    bool
+
 	clients sync.WaitGroup
 	workers sync.WaitGroup
 	work    chan HandlerContext
 
-	listenerDone chan error
+	listenerDone chan struct{}
 }
 
 // NewNode instantiates a new node instance, and pre-configures the node with provided options.
 // Default values for some non-specified options are instantiated as well, which may yield an error.
 func NewNode(opts ...NodeOption) (*Node, error) {
 	n := &Node{
-		listenerDone: make(chan error, 1),
+		listenerDone: make(chan struct{}),
 
 		maxDialAttempts:        3,
 		maxInboundConnections:  128,
@@ -165,7 +169,25 @@ func (n *Node) Listen() error {
 		n.id = NewID(n.publicKey, host, uint16(port))
 	}
 
-	for _, protocol := range n.protocols {
+	for i := 0; ; i++ {
+		n.stateLock.Lock()
+
+		if n.closed {
+			n.stateLock.Unlock()
+			n.listener.Close()
+			return errors.New("node is closed")
+		}
+
+		if i == len(n.protocols) { // From here on, nothing may be registered anymore.
+			n.started = true
+			n.listening.Store(true)
+			n.stateLock.Unlock()
+			break
+		}
+
+		protocol := n.protocols[i]
+		n.stateLock.Unlock()
+
 		if protocol.Bind == nil {
 			continue
 		}
@@ -198,8 +220,6 @@ func (n *Node) Listen() error {
 	}
 
 	go func() {
-		n.listening.Store(true)
-
 		defer func() {
 			n.inbound.release()
 			n.outbound.release()
@@ -209,7 +229,6 @@ func (n *Node) Listen() error {
 			n.workers.Wait()
 
 			n.listening.Store(false)
-			close(n.listenerDone)
 		}()
 
 		n.logger.Info("Listening for incoming peers.",
@@ -222,7 +241,7 @@ func (n *Node) Listen() error {
 		for {
 			conn, err := n.listener.Accept()
 			if err != nil {
-				n.listenerDone <- err
+				close(n.listenerDone)
 				break
 			}
 
@@ -382,6 +401,16 @@ func (n *Node) Ping(ctx context.Context, addr string) (*Client, error) {
 //
 // Close may be called concurrently.
 func (n *Node) Close() error {
+	n.stateLock.Lock()
+	n.closed = true
+	started := n.started
+	n.stateLock.Unlock()
+
+	if !started {
+		n.outbound.release()
+		return nil
+	}
+
 	if n.listening.CAS(true, false) {
 		if err := n.listener.Close(); err != nil {
 			return err
@@ -467,7 +496,10 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 //
 // Bind may be called concurrently.
 func (n *Node) Bind(protocols ...Protocol) {
-	if n.listening.Load() {
+	n.stateLock.Lock()
+	defer n.stateLock.Unlock()
+
+	if n.started {
 		return
 	}
 
@@ -481,7 +513,10 @@ func (n *Node) Bind(protocols ...Protocol) {
 //
 // Handle may be called concurrently.
 func (n *Node) Handle(handlers ...Handler) {
-	if n.listening.Load() {
+	n.stateLock.Lock()
+	defer n.stateLock.Unlock()
+
+	if n.started {
 		return
 	}
 
-- 
2.43.0


From 2f642de39092943e5d16d00601906e56ed2f659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:49 +0000
Subject: [PATCH 24/28] fix: do not hand responses to handlers when their
 request ended with the connection

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index 2ef8d61..d12000f 100644
--- a/client.go
+++ b/client.go
@@ -606,6 +606,13 @@ func (c *Client) recvLoop() {
 			ch <- msg
 			close(ch)
 		} else {
+			select {
+			case <-c.closing: // It may be a response to a request that ended with the connection.
+				c.reportError(io.ErrClosedPipe)
+				return
+			default:
+			}
+
 			select {
 			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
 			case <-c.closing: // Hand over nothing that comes after a dropped message.
-- 
2.43.0


From b073b15069ec033ebdb5f756b36abbc35176e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:18 +0000
Subject: [PATCH 25/28] fix: refuse calls as soon as a node was closed

---
 node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 25a6df0..8f22935 100644
--- a/node.go
+++ b/node.go
@@ -406,8 +406,10 @@ func (n *Node) Close() error {
 	started := n.started
 	n.stateLock.Unlock()
 
+	n.inbound.release()
+	n.outbound.release()
+
 	if !started {
-		n.outbound.release()
 		return nil
 	}
 
-- 
2.43.0


From b316834bd65a3afb49e32ad7fbc7c5e5d0095991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 26/28] fix: do not hold the codec's lock while encoding or
 decoding

A Marshal or a decoder that encodes or decodes messages itself took the read
lock twice, and deadlocked if RegisterMessage came in between.
---
 codec.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index 11da0fb..14a927b 100644
--- a/codec.go
+++ b/codec.go
@@ -56,16 +56,17 @@ func (c *codec) register(ser Serializable, de interface{}) uint16 {
 }
 
 func (c *codec) encode(msg Serializable) ([]byte, error) {
-	c.RLock()
-	defer c.RUnlock()
-
 	t := reflect.TypeOf(msg)
 
+	// Hold no lock while marshaling: messages may encode messages themselves.
+
+	c.RLock()
 	opcode, registered := c.ser[t]
 	if !registered && t.Kind() == reflect.Ptr {
 		t = t.Elem()
 		opcode, registered = c.ser[t]
 	}
+	c.RUnlock()
 
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
@@ -85,10 +86,12 @@ func (c *codec) decode(data []byte) (Serializable, error) {
 	opcode := binary.BigEndian.Uint16(data[:2])
 	data = data[2:]
 
-	c.RLock()
-	defer c.RUnlock()
+	// Hold no lock while decoding: decoders may decode messages themselves.
 
+	c.RLock()
 	decoder, registered := c.de[opcode]
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode %d is not registered", opcode)
 	}
-- 
2.43.0


From fc3b139bbb2b4f5f5028d2d5751e1b8a17f05e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:02 +0000
Subject: [PATCH 27/28] fix: lookups neither ask nor return the node itself

---
 kademlia/iterator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 12eac45..384a84c 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -84,6 +84,10 @@ func (it *Iterator) init(target noise.PublicKey) {
 	it.buckets = make([][]noise.ID, it.numParallelLookups)
 
 	for i, id := range it.table.FindClosest(target, BucketSize) {
+		if id.ID == it.node.ID().ID { // The routing table holds our own ID as well.
+			continue
+		}
+
 		it.visited[id.ID] = struct{}{}
 		it.buckets[i%it.numParallelLookups] = append(it.buckets[i%it.numParallelLookups], id)
 	}
-- 
2.43.0


From a7b0c51d9114fd91846f363e95b36781919914bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:42 +0000
Subject: [PATCH 28/28] fix: bound the time a dial may take by the idle timeout

A peer that advertises an address at which nothing answers otherwise keeps
workers of the node busy for minutes.
---
 client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client.go b/client.go
index d12000f..5de5d72 100644
--- a/client.go
+++ b/client.go
@@ -257,6 +257,12 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	dialer := net.Dialer{Cancel: c.closing}
 
+	// Do not wait longer for a peer to accept the connection than for it to do anything afterwards.
+
+	if c.node.idleTimeout > 0 {
+		dialer.Timeout = c.node.idleTimeout
+	}
+
 	conn, err := dialer.DialContext(ctx, "tcp", addr)
 	if err == nil && !c.setConn(conn) {
 		err = io.ErrClosedPipe
-- 
2.43.0

