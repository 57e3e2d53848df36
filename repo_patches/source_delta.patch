From 48f2f9d1e45943c07c233b337ebb52d9fdcd0b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 01/49] fix: reject a signed type byte for an unsigned byte
 field and vice versa instead of panicking

---
 serialization/unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..ffef650 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -173,10 +173,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		switch meta {
-		case FabricSerializationTypeChar:
+		switch {
+		case meta == FabricSerializationTypeChar && rv.Kind() == reflect.Int8:
 			rv.SetInt(int64(v))
-		case FabricSerializationTypeUChar:
+		case meta == FabricSerializationTypeUChar && rv.Kind() == reflect.Uint8:
 			rv.SetUint(uint64(v))
 		default:
 			return fmt.Errorf("expect char/uchar got %v", meta)
-- 
2.43.0


From cdf03388c2ef86c8c654135cffa9181f3b0342a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 02/49] fix: do not allocate more elements than the encoding
 has bytes left

---
 serialization/unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index ffef650..7cd0453 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -232,6 +232,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -305,6 +309,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		// every element takes at least its type byte
+		if int64(len0) > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
 
 		for i := 0; i < len; i++ {
-- 
2.43.0


From 1a2059a6102db115437e4808086412f1c525fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 03/49] fix: reject an object size that ends before the fields
 already read

---
 serialization/unmarshal.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 7cd0453..0a8c892 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -128,7 +128,16 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	curpos, err := s.inner.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	if endpos < curpos {
+		return fmt.Errorf("bad object size")
+	}
+
+	_, err = s.inner.Seek(endpos, io.SeekStart)
 	if err != nil {
 		return err
 	}
@@ -276,6 +285,9 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 
 			if meta == FabricSerializationTypeScopeEnd {
+				if err := s.inner.UnreadByte(); err != nil {
+					return err
+				}
 				break
 			}
 
-- 
2.43.0


From c03060ff4a8b203318d5cbbe9a78cbb0ddcc631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 04/49] fix: encode embedded pointers and other embedded
 non-struct fields instead of dropping them

---
 serialization/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialization/common.go b/serialization/common.go
index e5a6c38..c428c17 100644
--- a/serialization/common.go
+++ b/serialization/common.go
@@ -70,7 +70,7 @@ func allFields(rv reflect.Value) []reflect.Value {
 			continue
 		}
 
-		if ft.Anonymous {
+		if ft.Anonymous && ft.Type.Kind() == reflect.Struct {
 			fields = append(fields, allFields(fv)...)
 		} else {
 			fields = append(fields, fv)
-- 
2.43.0


From 8109d65d5d97b778b49b8fb5121e21886d2d8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 05/49] fix: write a byte for a zero in
 Encoder.WriteCompressedUInt32 so that the decoder can read it back

---
 serialization/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serialization/marshal.go b/serialization/marshal.go
index 7c52f6d..827fe7d 100644
--- a/serialization/marshal.go
+++ b/serialization/marshal.go
@@ -22,6 +22,11 @@ func (s *encodeState) WriteBinary(v interface{}) error {
 }
 
 func (s *encodeState) WriteCompressedUInt32(v uint32) error {
+	if v == 0 {
+		// the decoder always reads at least one byte
+		return s.buf.WriteByte(0)
+	}
+
 	return s.writeCompressedUint32(v)
 }
 
-- 
2.43.0


From a37335e0aaf09449e6f63d0ee7ea16e6b54d758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 06/49] fix: reject negative and more than 128 bit numbers in
 NodeIDFromHex

---
 federation/nodeid_generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index a0af3bf..f43fca1 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -21,6 +21,10 @@ func NodeIDFromHex(v string) (NodeID, error) {
 		return u, fmt.Errorf("fail to convert %v to Uint128", v)
 	}
 
+	if i.Sign() < 0 || i.BitLen() > 128 {
+		return u, fmt.Errorf("%v does not fit in Uint128", v)
+	}
+
 	u.Lo = i.Uint64()
 	u.Hi = new(big.Int).Rsh(i, 64).Uint64()
 
-- 
2.43.0


From c07963b056f3a1bcb7a0e106d6a076a6ebf53f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 07/49] fix: do not panic in NodeIDFromV4Generator on a name
 without a separator

---
 federation/nodeid_generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index f43fca1..ca23d0b 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -95,6 +95,11 @@ func NodeIDFromV4Generator(v string) (nodeId NodeID) {
 	// recalculate hi base on index in name
 	idx := strings.LastIndexFunc(v, func(r rune) bool { return r == '.' || r == '_' })
 
+	if idx < 0 {
+		// no instance in name
+		return
+	}
+
 	roleName := v[:idx]
 	instance_s := v[idx+1:]
 
-- 
2.43.0


From 422c2ff335ebc5ebe442670d22d81521797374ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 08/49] fix: count the ids from Begin up to the largest one in
 a NodeIdRange that wraps around

---
 federation/nodeid_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_range.go b/federation/nodeid_range.go
index 0297462..1c98748 100644
--- a/federation/nodeid_range.go
+++ b/federation/nodeid_range.go
@@ -16,7 +16,7 @@ func (r *NodeIdRange) Contains(id NodeID) bool {
 
 	if s.cmp(e) > 0 {
 
-		if s.cmp(i) <= 0 && u128max.cmp(e) <= 0 {
+		if s.cmp(i) <= 0 && i.cmp(u128max) <= 0 {
 			return true
 		}
 
-- 
2.43.0


From 4f0cc568eefbfb62cf590b6a7173d12571ef4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 09/49] fix: saturate TimeSpan.ToDuration instead of
 overflowing

---
 common/time.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/time.go b/common/time.go
index 4dd8008..69781ef 100644
--- a/common/time.go
+++ b/common/time.go
@@ -19,6 +19,15 @@ func TimeSpanFromDuration(d time.Duration) TimeSpan {
 	return TimeSpan(d.Nanoseconds() / 100)
 }
 
+// ToDuration converts to time.Duration, a TimeSpan out of its range becomes the longest duration
 func (s TimeSpan) ToDuration() time.Duration {
+	if s > math.MaxInt64/100 {
+		return math.MaxInt64
+	}
+
+	if s < math.MinInt64/100 {
+		return math.MinInt64
+	}
+
 	return time.Duration(s) * 100
 }
-- 
2.43.0


From e8384d82a26efb358236678b7e4dbb8aad12b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 10/49] fix: reject frames whose lengths do not fit and do not
 allocate the claimed length up front

---
 transport/frame.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..ad5cff1 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,13 +61,26 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
-	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
+	if header.FrameLength < uint32(sizeOfFrameheader) {
+		return nil, nil, fmt.Errorf("bad frame length %v", header.FrameLength)
+	}
+
+	bodyLength := header.FrameLength - uint32(sizeOfFrameheader)
+
+	if uint32(header.HeaderLength) > bodyLength {
+		return nil, nil, fmt.Errorf("bad header length %v in frame of length %v", header.HeaderLength, header.FrameLength)
+	}
 
-	_, err = io.ReadFull(r, body)
+	// do not trust the length before the data arrives
+	body, err := io.ReadAll(io.LimitReader(r, int64(bodyLength)))
 	if err != nil {
 		return nil, nil, err
 	}
 
+	if uint32(len(body)) < bodyLength {
+		return nil, nil, io.ErrUnexpectedEOF
+	}
+
 	if config.CheckFrameBodyCRC {
 		if header.FrameBodyCRC != crc32.Checksum(body, crc32.IEEETable) {
 			return nil, nil, fmt.Errorf("frame body crc32 check fail")
-- 
2.43.0


From 850ba60d8fa1adb1e2976f020353a6e00b2875c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 11/49] fix: do not take a header section that breaks off
 inside a header as complete

---
 transport/messageheaders.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..ff39e9f 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -229,6 +229,15 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 	return err
 }
 
+// noEOF is for the middle of a header, where the end of data is not a clean end
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 	var id MessageHeaderIdType
 
@@ -240,14 +249,14 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 	var size uint16
 	err = binary.Read(stream, binary.LittleEndian, &size)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, noEOF(err)
 	}
 
 	body := make([]byte, size)
 
 	_, err = io.ReadFull(stream, body)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, noEOF(err)
 	}
 
 	return id, body, nil
-- 
2.43.0


From 27eb930043d18928ed0bd8ee3ff4c7ed4f82ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 12/49] fix: append in AppendCustomHeader also when the header
 type has a value already

---
 transport/messageheaders.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index ff39e9f..7a05748 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -106,12 +106,8 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 		h.customHeaders = make(map[MessageHeaderIdType][]interface{})
 	}
 
-	if _, ok := h.customHeaders[typ]; !ok {
-		h.customHeaders[typ] = append(h.customHeaders[typ], header...)
-		return true
-	}
-
-	return false
+	h.customHeaders[typ] = append(h.customHeaders[typ], header...)
+	return true
 }
 
 func (h *MessageHeaders) writeTo(w io.Writer) error {
-- 
2.43.0


From 941d4c4cc2c9d4cf1ae277a97b98bfa58888846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 13/49] fix: refuse messages whose headers or frame exceed what
 the length fields hold

---
 transport/frame.go          | 5 +++++
 transport/message.go        | 6 ++++++
 transport/messageheaders.go | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index ad5cff1..34267ac 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"hash/crc32"
 	"io"
+	"math"
 
 	"github.com/sigurn/crc8"
 )
@@ -100,6 +101,10 @@ type frameWriteConfig struct {
 
 func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig) error {
 
+	if uint64(sizeOfFrameheader)+uint64(len(msg)) > math.MaxUint32 {
+		return fmt.Errorf("message too long: %v bytes", len(msg))
+	}
+
 	tcpheader := &frameheader{
 		FrameLength:          uint32(sizeOfFrameheader + len(msg)),
 		SecurityProviderMask: uint8(config.SecurityProviderMask),
diff --git a/transport/message.go b/transport/message.go
index 054c3df..666e04a 100644
--- a/transport/message.go
+++ b/transport/message.go
@@ -2,7 +2,9 @@ package transport
 
 import (
 	"bytes"
+	"fmt"
 	"io"
+	"math"
 	"sync/atomic"
 
 	"github.com/tg123/phabrik/serialization"
@@ -28,6 +30,10 @@ func (m *Message) marshal() (int, []byte, error) {
 
 	headerLen := buf.Len()
 
+	if headerLen > math.MaxUint16 {
+		return 0, nil, fmt.Errorf("message headers too long: %v bytes", headerLen)
+	}
+
 	if m.Body != nil {
 		b, ok := m.Body.([]byte)
 
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 7a05748..93df40f 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -217,6 +218,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("message header %v too long: %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From 77ecc368c00de77eb3bfd2f1d5f4d3d549869fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 14/49] fix: do not mix frames of concurrent senders

---
 transport/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..a659a6a 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -34,6 +34,7 @@ type Conn interface {
 type connection struct {
 	messageCallback MessageCallback
 	conn            net.Conn
+	writeLock       sync.Mutex // a frame is more than one write
 	requestTable    RequestTable
 	pinglock        sync.Mutex
 	pingCh          chan int64
@@ -236,6 +237,8 @@ func (c *connection) sendTransportInit(conn net.Conn) error {
 }
 
 func (c *connection) writeMessageWithFrame(message *Message) error {
+	c.writeLock.Lock()
+	defer c.writeLock.Unlock()
 	return writeMessageWithFrame(c.conn, message, c.frameWCfg)
 }
 
-- 
2.43.0


From d814cdafd4c22e90fc32e37fbef5f863f078c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 15/49] fix: do not block the receive loop on a reply whose
 waiter has gone

---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..7523eba 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // Feed must not wait for a waiter who may have given up
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From 8ca44b579b06b827b714ae0693200008e9655f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 16/49] fix: report write errors during the tls handshake

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From 7f62223fb1b5898c109f0e3779a1cc00fff1cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 17/49] fix: close the dialled connection in DialTCP when the
 set up fails

---
 transport/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/client.go b/transport/client.go
index f7d9cc0..3c22e6c 100644
--- a/transport/client.go
+++ b/transport/client.go
@@ -20,7 +20,13 @@ func DialTCP(addr string, config ClientConfig) (*Client, error) {
 		return nil, err
 	}
 
-	return Connect(conn, config)
+	c, err := Connect(conn, config)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	return c, nil
 }
 
 func Connect(conn net.Conn, config ClientConfig) (*Client, error) {
-- 
2.43.0


From e57d887345dc33496526630b85392f371266f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 18/49] fix: match heartbeat responses with the ping they
 answer and ignore others, which blocked, panicked at close or failed the next
 ping

---
 transport/conn.go | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index a659a6a..07a09d1 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/tg123/phabrik/serialization"
@@ -32,12 +33,13 @@ type Conn interface {
 }
 
 type connection struct {
+	lastPingTick    int64 // first for 64-bit alignment
 	messageCallback MessageCallback
 	conn            net.Conn
 	writeLock       sync.Mutex // a frame is more than one write
 	requestTable    RequestTable
-	pinglock        sync.Mutex
-	pingCh          chan int64
+	pings           sync.Map // time tick sent => chan int64 of the waiting Ping
+	closed          chan struct{}
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
@@ -55,7 +57,7 @@ func newConnection(config Config) (*connection, error) {
 
 	c := &connection{
 		msgfac: mf,
-		pingCh: make(chan int64),
+		closed: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -133,7 +135,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closed)
 		c.requestTable.Close()
 	})
 
@@ -145,11 +147,14 @@ type heartbeat struct {
 }
 
 func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
-	c.pinglock.Lock()
-	defer c.pinglock.Unlock()
+	start := time.Now()
 
 	var b heartbeat
-	b.HeartbeatTimeTick = time.Now().UnixNano()
+	b.HeartbeatTimeTick = c.nextPingTick(start)
+
+	pingCh := make(chan int64, 1)
+	c.pings.Store(b.HeartbeatTimeTick, pingCh)
+	defer c.pings.Delete(b.HeartbeatTimeTick)
 
 	msg := c.msgfac.newMessage()
 	msg.Headers.Actor = MessageActorTypeTransport
@@ -165,11 +170,25 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	select {
 	case <-ctx.Done():
 		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
+	case <-c.closed:
+		return -1, fmt.Errorf("connection closed")
+	case <-pingCh:
+		return time.Since(start), nil
+	}
+}
+
+// nextPingTick is the time, made unique within the connection
+func (c *connection) nextPingTick(now time.Time) int64 {
+	for {
+		last := atomic.LoadInt64(&c.lastPingTick)
+		tick := now.UnixNano()
+		if tick <= last {
+			tick = last + 1
+		}
+
+		if atomic.CompareAndSwapInt64(&c.lastPingTick, last, tick) {
+			return tick
 		}
-		return time.Since(time.Unix(0, t)), nil
 	}
 }
 
@@ -194,7 +213,10 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		// nobody waits for late or unsolicited responses
+		if pingCh, ok := c.pings.LoadAndDelete(b.HeartbeatTimeTick); ok {
+			pingCh.(chan int64) <- b.HeartbeatTimeTick
+		}
 	default:
 	}
 	return nil
-- 
2.43.0


From 71a7c6a63d818a07c1d7a45f684e97576dbb79b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 19/49] fix: synchronise the message callback and the fatal
 error of connections and servers

---
 transport/conn.go   | 31 ++++++++++++++++++++++++++-----
 transport/server.go | 12 ++++++++++--
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 07a09d1..9d438c1 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -46,6 +46,7 @@ type connection struct {
 	frameWCfg frameWriteConfig
 
 	closeOnce sync.Once
+	stateLock sync.RWMutex // for messageCallback and fatalerr
 	fatalerr  error
 }
 
@@ -128,9 +129,29 @@ func (c *connection) setTls() {
 }
 
 func (c *connection) SetMessageCallback(cb MessageCallback) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
 	c.messageCallback = cb
 }
 
+func (c *connection) getMessageCallback() MessageCallback {
+	c.stateLock.RLock()
+	defer c.stateLock.RUnlock()
+	return c.messageCallback
+}
+
+func (c *connection) setFatalError(err error) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	c.fatalerr = err
+}
+
+func (c *connection) getFatalError() error {
+	c.stateLock.RLock()
+	defer c.stateLock.RUnlock()
+	return c.fatalerr
+}
+
 func (c *connection) Close() error {
 	err := c.conn.Close()
 
@@ -295,23 +316,23 @@ func (c *connection) Wait() error {
 				}
 
 				serialization.Unmarshal(body, &b) // ignore error
-				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				c.setFatalError(fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message))
 
 				return c.Close()
 			}
 		}
 
 		if !c.requestTable.Feed(msg) {
-			if c.messageCallback != nil {
-				c.messageCallback(c, msg)
+			if cb := c.getMessageCallback(); cb != nil {
+				cb(c, msg)
 			}
 		}
 	}
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	if c.fatalerr != nil {
-		return c.fatalerr
+	if err := c.getFatalError(); err != nil {
+		return err
 	}
 	c.msgfac.fillMessageId(message)
 	return c.writeMessageWithFrame(message)
diff --git a/transport/server.go b/transport/server.go
index 35f7fea..3fed398 100644
--- a/transport/server.go
+++ b/transport/server.go
@@ -3,10 +3,12 @@ package transport
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type Server struct {
 	listener        net.Listener
+	callbackLock    sync.RWMutex
 	messageCallback MessageCallback
 	config          ServerConfig
 }
@@ -38,8 +40,12 @@ func (s *Server) Addr() net.Addr {
 }
 
 func (s *Server) onMessage(conn Conn, msg *ByteArrayMessage) {
-	if s.messageCallback != nil {
-		go s.messageCallback(conn, msg)
+	s.callbackLock.RLock()
+	cb := s.messageCallback
+	s.callbackLock.RUnlock()
+
+	if cb != nil {
+		go cb(conn, msg)
 	}
 }
 
@@ -57,6 +63,8 @@ func (s *Server) handle(conn net.Conn) error {
 }
 
 func (s *Server) SetMessageCallback(cb MessageCallback) {
+	s.callbackLock.Lock()
+	defer s.callbackLock.Unlock()
 	s.messageCallback = cb
 }
 
-- 
2.43.0


From 1199e69431ae3c8b99eac7a2bae2c259f93b1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 20/49] fix: check the first frame of a piper connection as
 configured, so that tls clients can connect

---
 transport/piper.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 5935cfa..908c32f 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -36,8 +36,9 @@ func (p *Piper) handle(conn net.Conn) error {
 	defer conn.Close()
 
 	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, frameReadConfig{
-		CheckFrameHeaderCRC: true,
-		CheckFrameBodyCRC:   false,
+		// tls handshake frames carry no crc
+		CheckFrameHeaderCRC: p.config.TLS == nil && !p.config.DisableCheckFrameHeaderCRC,
+		CheckFrameBodyCRC:   p.config.TLS == nil && p.config.CheckFrameBodyCRC,
 	})
 
 	if err != nil {
-- 
2.43.0


From 6eb2067fcd205e36a78a6f5eb4466937b07ab0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 21/49] fix: close the upstream connection of a piper session
 that fails to start

---
 transport/piper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/piper.go b/transport/piper.go
index 908c32f..c77bc5c 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -55,6 +55,8 @@ func (p *Piper) handle(conn net.Conn) error {
 		return err
 	}
 
+	defer rawu.Close()
+
 	u, err := tapClientConn(rawu, uc)
 	if err != nil {
 		return err
-- 
2.43.0


From 788910b3ddd4f50ce666b3687e38f609ffbb10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 22/49] fix: send what a tls 1.3 server sends after the client
 has finished without framing

---
 transport/tls.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/transport/tls.go b/transport/tls.go
index c5f34ea..cd14690 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -9,6 +9,7 @@ import (
 
 type fabricSecureConn struct {
 	rawconn            net.Conn
+	server             bool
 	handshakeCompleted bool
 	negoSend           bool
 	rbuf               bytes.Buffer
@@ -17,9 +18,10 @@ type fabricSecureConn struct {
 	frameWCfg          frameWriteConfig
 }
 
-func createTlsConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, factory func(conn net.Conn, config *tls.Config) *tls.Conn, initbuf []byte) (*tls.Conn, error) {
+func createTlsConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, factory func(conn net.Conn, config *tls.Config) *tls.Conn, server bool, initbuf []byte) (*tls.Conn, error) {
 	rawtls := &fabricSecureConn{
 		rawconn: conn,
+		server:  server,
 		mf:      mf,
 	}
 	rawtls.frameWCfg.SecurityProviderMask = securityProviderSsl
@@ -38,11 +40,11 @@ func createTlsConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, facto
 }
 
 func createTlsClientConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config) (*tls.Conn, error) {
-	return createTlsConn(conn, mf, tlsconf, tls.Client, nil)
+	return createTlsConn(conn, mf, tlsconf, tls.Client, false, nil)
 }
 
 func createTlsServerConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, initbuf []byte) (*tls.Conn, error) {
-	return createTlsConn(conn, mf, tlsconf, tls.Server, initbuf)
+	return createTlsConn(conn, mf, tlsconf, tls.Server, true, initbuf)
 }
 
 func (c *fabricSecureConn) handshakeComplete() bool {
@@ -72,8 +74,22 @@ func (c *fabricSecureConn) Read(b []byte) (n int, err error) {
 	}
 }
 
+// recordTypeApplicationData is the first byte of an encrypted tls 1.3 record
+const recordTypeApplicationData = 23
+
+// framed tells whether b is to be sent as a transport message.
+// A tls 1.3 server that verifies clients sends session tickets and alerts in
+// its handshake, but after the client has finished and stopped framing.
+func (c *fabricSecureConn) framed(b []byte) bool {
+	if c.handshakeComplete() {
+		return false
+	}
+
+	return !(c.server && len(b) > 0 && b[0] == recordTypeApplicationData)
+}
+
 func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
-	if !c.handshakeComplete() {
+	if c.framed(b) {
 		msg := c.mf.newMessage()
 		msg.Headers.Actor = MessageActorTypeSecurityContext
 		msg.Body = b
-- 
2.43.0


From eb57d7ee093d0f8050e32cd2bc067bd5f4843d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 23/49] fix: obey the context of naming calls

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..6fee21d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c6a2e727128dbf615059032c63cf5bf6decb6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 24/49] fix: do not acknowledge and hand out service
 notifications that could not be decoded

---
 naming/naming.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 6fee21d..b943c71 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -151,11 +151,13 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 		err := serialization.Unmarshal(bam.Body, &b)
 		if err != nil {
 			log.Printf("ServiceNotificationRequest unmarshal err %v", err)
+			return
 		}
 
 		reply, err := NewNamingMessage("ServiceNotificationReply")
 		if err != nil {
 			log.Printf("ServiceNotificationRequest NewNamingMessage err %v", err)
+			return
 		}
 
 		reply.Headers.RelatesTo = bam.Headers.Id
-- 
2.43.0


From 4ff7e91f1e52481149963fc1f7f983c655f0bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 25/49] fix: return an error from GetApplicationList when the
 gateway reports a failure or sends no result

---
 naming/naming.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index b943c71..45610dd 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -365,7 +365,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
@@ -386,5 +386,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no result, kind %v", b.ResultKind)
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From 12b63a2418b48bbb1182a282f00a7ea414473469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 26/49] fix: route to the closest partner instead of the last
 one looked at, also at the largest distance

---
 federation/sitenode_parteners.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..b9472cd 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -47,15 +47,18 @@ func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bo
 	var cur *PartnerNodeInfo
 	max := u128max
 
-	for _, p := range s.KnownPartnerNodes(filter) {
+	partners := s.KnownPartnerNodes(filter)
+	for i := range partners {
+		p := &partners[i]
 		diff := uint128(p.Instance.Id).sub(uint128(id))
 		if diff == u128zero {
-			return &p
+			return p
 		}
 
-		if diff.cmp(max) < 0 {
+		// the distance may be u128max
+		if cur == nil || diff.cmp(max) < 0 {
 			max = diff
-			cur = &p
+			cur = p
 		}
 	}
 
-- 
2.43.0


From d64983cecaed19ffc8239bf77e31bad26a510d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 27/49] fix: compare and replace partner information in one
 step, so that an older instance cannot win

---
 federation/sitenode_parteners.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index b9472cd..9ae546f 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -15,15 +15,17 @@ type PartnerNodeInfo struct {
 }
 
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
+	p := h.PartnerNodeInfo
 
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[h.Instance.Id]
+	changed := !found || old.Instance.InstanceId < h.Instance.InstanceId
+	if changed {
 		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	}
+	s.partenersRWLock.Unlock()
+
+	if changed {
 		s.onPartnerChanged(p, !found)
 	}
 }
-- 
2.43.0


From 33cde463c4229d18fccd9b86c850965a2d8ed9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 28/49] fix: accept a later phase of the same partner instance

---
 federation/sitenode_parteners.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 9ae546f..99cabd4 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -19,7 +19,8 @@ func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
 
 	s.partenersRWLock.Lock()
 	old, found := s.parteners[h.Instance.Id]
-	changed := !found || old.Instance.InstanceId < h.Instance.InstanceId
+	changed := !found || old.Instance.InstanceId < h.Instance.InstanceId ||
+		(old.Instance.InstanceId == h.Instance.InstanceId && old.Phase < h.Phase)
 	if changed {
 		s.parteners[h.Instance.Id] = &p
 	}
-- 
2.43.0


From 805fd4b30632368efcf5483409bc1fc5f0950394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 29/49] fix: do not miss a phase change in Bootstrap while
 pinging, and synchronise the phase

---
 federation/sitenode.go        | 18 +++++++++++++-----
 federation/sitenode_boot.go   | 16 ++++++++--------
 federation/sitenode_sender.go |  4 +++-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6421165..d7c9b43 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -95,14 +95,22 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 	return &s, nil
 }
 
-func (s *SiteNode) changePhase(newPhase NodePhase) {
-	if s.phase == newPhase {
-		return
-	}
+// currentPhase returns the phase and a channel that is closed when it changes
+func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
+	s.phaseLock.RLock()
+	defer s.phaseLock.RUnlock()
+	return s.phase, s.phaseChanged
+}
 
+func (s *SiteNode) changePhase(newPhase NodePhase) {
 	s.phaseLock.Lock()
 	defer s.phaseLock.Unlock()
 
+	// never back
+	if s.phase >= newPhase {
+		return
+	}
+
 	s.phase = newPhase
 	close(s.phaseChanged)
 	s.phaseChanged = make(chan int)
@@ -110,7 +118,7 @@ func (s *SiteNode) changePhase(newPhase NodePhase) {
 
 func (s *SiteNode) onPartnerChanged(p PartnerNodeInfo, isNew bool) {
 	// found at least 1 R node, start join
-	if p.Phase == NodePhaseRouting && s.phase == NodePhaseBooting {
+	if p.Phase == NodePhaseRouting {
 		s.changePhase(NodePhaseJoining)
 	}
 }
diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..3a47361 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,11 +10,13 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
-
 	for {
+		// before pinging, as the reply may change the phase before we wait for it
+		phase, changed := s.currentPhase()
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
 			if err := s.votePing(seed.Id); err != nil {
 				log.Printf("send vote ping to %v failed %v", seed.Address, err)
@@ -22,10 +24,8 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-changed:
+			// check again
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 03ddcbe..811feb8 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -93,13 +93,15 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 
+	phase, _ := s.currentPhase()
+
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
 		PartnerNodeInfo: PartnerNodeInfo{
 			Instance:          s.instance,
 			Address:           s.transportServer.Addr().String(),
 			LeaseAgentAddress: s.leaseAgent.Addr().String(),
-			Phase:             s.phase,
+			Phase:             phase,
 		},
 	})
 
-- 
2.43.0


From 92fc841eed920cd679e0e26da80b82b496b92b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 30/49] fix: ping every discovered node instead of one of them
 several times

---
 federation/sitenode_boot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 3a47361..ea85502 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -54,12 +54,12 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 		wg.Add(len(discovered))
 
 		for _, partner := range discovered {
-			go func(p *PartnerNodeInfo) {
+			go func(p PartnerNodeInfo) {
 				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
-			}(&partner)
+			}(partner)
 		}
 
 		wg.Wait()
-- 
2.43.0


From 8150485af8b4d6f23741eb310a9d1d9b13cc0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 31/49] fix: end Discover when its context does

---
 federation/sitenode_boot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index ea85502..3f34795 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -64,7 +64,11 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 
 		wg.Wait()
 
-		time.Sleep(1 * time.Second) // wait for voteping reply
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(1 * time.Second): // wait for voteping reply
+		}
 
 		found := false
 		for _, partner := range s.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true }) {
-- 
2.43.0


From 8ca7246acd1aa96ae320425ba8388582c81193a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 32/49] fix: synchronise cached connections and close those
 that are dialled while the node is closed

---
 federation/sitenode.go        | 17 +++++++++++
 federation/sitenode_sender.go | 57 +++++++++++++++++++++++++----------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index d7c9b43..c614308 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -27,6 +27,9 @@ type SiteNode struct {
 
 	parteners       map[NodeID]*PartnerNodeInfo
 	partenersRWLock sync.RWMutex
+
+	closed    chan struct{}
+	closeOnce sync.Once
 }
 
 type SeedNodeInfo struct {
@@ -63,6 +66,7 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 		phaseChanged:       make(chan int),
 		parteners:          make(map[NodeID]*PartnerNodeInfo),
 		messageIdGenerator: msgfac,
+		closed:             make(chan struct{}),
 	}
 
 	copy(s.seedNodes, config.SeedNodes)
@@ -159,7 +163,20 @@ func (s *SiteNode) Serve() error {
 	return <-ch
 }
 
+func (s *SiteNode) isClosed() bool {
+	select {
+	case <-s.closed:
+		return true
+	default:
+		return false
+	}
+}
+
 func (s *SiteNode) Close() error {
+	s.closeOnce.Do(func() {
+		close(s.closed)
+	})
+
 	s.transportServer.Close()
 	s.leaseAgent.Close()
 
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 811feb8..94e1367 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -9,6 +9,8 @@ import (
 	"github.com/tg123/phabrik/transport"
 )
 
+var errNodeClosed = fmt.Errorf("site node closed")
+
 type Dialer func(addr string) (*transport.Client, error)
 
 type cachedConn struct {
@@ -16,15 +18,13 @@ type cachedConn struct {
 	partner *PartnerNodeInfo
 	conn    *transport.Client
 	init    sync.Once
-	close   sync.Once
 	lasterr error
-}
 
-func (c *cachedConn) Conn() *transport.Client {
-	if c.conn != nil {
-		return c.conn
-	}
+	lock   sync.Mutex // for closed, and conn while Conn has not returned
+	closed bool
+}
 
+func (c *cachedConn) Conn() (*transport.Client, error) {
 	c.init.Do(func() {
 		conn, err := c.parent.clientDialer(c.partner.Address)
 
@@ -36,15 +36,24 @@ func (c *cachedConn) Conn() *transport.Client {
 
 		conn.SetMessageCallback(c.parent.onMessage)
 
+		c.lock.Lock()
+		closed := c.closed
+		c.conn = conn
+		c.lock.Unlock()
+
+		if closed { // while dialing
+			conn.Close()
+			c.lasterr = errNodeClosed
+			return
+		}
+
 		go func() {
 			defer c.Close()
 			conn.Wait()
 		}()
-
-		c.conn = conn
 	})
 
-	return c.conn // maybe nil and will recreate if err
+	return c.conn, c.lasterr // will recreate if err
 }
 
 func (c *cachedConn) Close() error {
@@ -53,12 +62,21 @@ func (c *cachedConn) Close() error {
 		return nil
 	}
 
-	cc.(*cachedConn).close.Do(func() {
-		tc := cc.(*cachedConn).conn
-		if tc != nil {
-			tc.Close()
-		}
-	})
+	return cc.(*cachedConn).closeConn()
+}
+
+func (c *cachedConn) closeConn() error {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if c.closed {
+		return nil
+	}
+
+	c.closed = true
+	if c.conn != nil {
+		c.conn.Close()
+	}
 
 	return nil
 }
@@ -70,7 +88,14 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 	})
 
 	cc := c.(*cachedConn)
-	return cc.Conn(), cc.lasterr
+
+	// after storing, so that either Close finds it or it finds the node closed
+	if s.isClosed() {
+		cc.Close()
+		return nil, errNodeClosed
+	}
+
+	return cc.Conn()
 }
 
 func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
-- 
2.43.0


From 98cc0756a19c03b4505a7291dce22339012eb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 33/49] fix: end pending routed requests when the node is
 closed

---
 federation/sitenode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index c614308..1221665 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -188,5 +188,8 @@ func (s *SiteNode) Close() error {
 		return true
 	})
 
+	// last, a request sent before its connection was closed is pending already
+	s.requestTable.Close()
+
 	return nil
 }
-- 
2.43.0


From 05543494b385ca803e2ef6efd25ee09c5c9ee27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 34/49] fix: bound lease frames by what arrives, and skip
 connect frames without recursion

---
 lease/frame.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..7898ea2 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -1,6 +1,7 @@
 package lease
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -24,27 +25,37 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
-	}
-
-	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
-	case ltFrametypeMessage:
-		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
-
-		_, err = io.ReadFull(r, body)
+	for {
+		header := ltFrameHeader{}
+		err := binary.Read(r, binary.LittleEndian, &header)
 		if err != nil {
 			return nil, err
 		}
 
-		return body, nil
-	default:
-		return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		switch header.FrameType {
+		case ltFrametypeConnect:
+			// ignore connect message
+			continue
+		case ltFrametypeMessage:
+			if header.FrameSize < uint32(sizeOfLtFrameheader) {
+				return nil, fmt.Errorf("bad frame size %v", header.FrameSize)
+			}
+
+			size := int64(header.FrameSize) - int64(sizeOfLtFrameheader)
+
+			// the size is not trusted before the data is there, buffer grows as it arrives
+			var body bytes.Buffer
+			if _, err := io.CopyN(&body, r, size); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
+				return nil, err
+			}
+
+			return body.Bytes(), nil
+		default:
+			return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		}
 	}
 }
 
-- 
2.43.0


From bc41d92a8dec4591e1a6aa92a9e107754f5bdbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 35/49] fix: accept lease messages that end with their
 endpoint, reject endpoints outside of the message

---
 lease/serialize.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..f8cd028 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,15 +124,15 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
+	if st > uint64(len(data)) {
 		return nil, fmt.Errorf("bad data start offset")
 	}
 
-	if ed >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
+	if ed > uint64(len(data)) {
+		return nil, fmt.Errorf("bad data end offset")
 	}
 
 	return data[st:ed], nil
@@ -170,13 +170,17 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		if len(d) < sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size %v", len(d))
+		}
+
 		r := bytes.NewReader(d)
 		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
 			return nil, err
 		}
 
-		if s[len(s)-1] == 0 {
+		if len(s) > 0 && s[len(s)-1] == 0 {
 			s = s[:len(s)-1]
 		}
 
-- 
2.43.0


From 12834fcb9fb960bb62d4509139527adb7cabd455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:31 +0000
Subject: [PATCH 36/49] fix: end Agent.Wait when the agent is closed, and
 sessions that are established meanwhile

---
 lease/agent.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..f66c6a6 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -3,6 +3,7 @@ package lease
 import (
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"strconv"
@@ -49,14 +50,13 @@ type Agent struct {
 	sessions      sync.Map
 	listener      net.Listener
 	dial          Dialer
+
+	closed bool
+	lock   sync.Mutex
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
 
-func closedDialer(addr string) (net.Conn, error) {
-	return nil, errAgentClosed
-}
-
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
 }
@@ -101,6 +101,12 @@ func (a *Agent) Addr() net.Addr {
 	return a.listener.Addr()
 }
 
+func (a *Agent) isClosed() bool {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+	return a.closed
+}
+
 func (a *Agent) Establish(addr string) (Session, error) {
 	s := leaseSession{
 		addr:          addr,
@@ -116,6 +122,12 @@ func (a *Agent) Establish(addr string) (Session, error) {
 
 	a.sessions.Store(addr, &s)
 
+	// closed while connecting, Close may not have seen this session
+	if a.isClosed() {
+		s.Close()
+		return nil, errAgentClosed
+	}
+
 	return &s, nil
 }
 
@@ -130,6 +142,10 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
+			if a.isClosed() || errors.Is(err, net.ErrClosed) {
+				return err
+			}
+
 			continue
 		}
 
@@ -138,7 +154,10 @@ func (a *Agent) Wait() error {
 }
 
 func (a *Agent) Close() error {
-	a.dial = closedDialer
+	a.lock.Lock()
+	a.closed = true
+	a.lock.Unlock()
+
 	a.listener.Close()
 	a.sessions.Range(func(key, value interface{}) bool {
 		if s, ok := value.(Session); ok {
@@ -268,6 +287,10 @@ func (s *leaseSession) reconnect() error {
 		return fmt.Errorf("session closed")
 	}
 
+	if s.parent.isClosed() {
+		return errAgentClosed
+	}
+
 	c, err := s.parent.dial(s.addr)
 	if err != nil {
 		return err
-- 
2.43.0


From 57e6ac7c5e32461218845c09121a5da4f7bfea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 37/49] fix: lease pings take pongs that arrive while they are
 written and fail when the session is closed

---
 lease/agent.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index f66c6a6..a8d02c7 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -56,6 +56,7 @@ type Agent struct {
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
+var errSessionClosed = fmt.Errorf("session closed")
 
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
@@ -112,6 +113,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		addr:          addr,
 		parent:        a,
 		pingCh:        make(chan int),
+		closedCh:      make(chan struct{}),
 		localInstance: uniqId(),
 	}
 
@@ -242,6 +244,7 @@ type leaseSession struct {
 	remoteInstance int64
 
 	closed    bool
+	closedCh  chan struct{}
 	conn      net.Conn
 	connected bool
 	objLock   sync.Mutex
@@ -270,7 +273,7 @@ func (s *leaseSession) Close() error {
 
 	s.closed = true
 	s.conn.Close()
-	s.boardcastPong() // unlock waiting pings
+	close(s.closedCh) // unlock waiting pings
 
 	return nil
 }
@@ -284,7 +287,7 @@ func (s *leaseSession) reconnect() error {
 	}
 
 	if s.closed {
-		return fmt.Errorf("session closed")
+		return errSessionClosed
 	}
 
 	if s.parent.isClosed() {
@@ -306,6 +309,11 @@ func (s *leaseSession) reconnect() error {
 }
 
 func (s *leaseSession) Ping(ctx context.Context) error {
+	// before sending, pong may arrive at any time after that
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
 	msg := s.createPingMessage()
 
 	data, err := s.parent.marshaller.marshal(msg)
@@ -330,15 +338,21 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
+	case <-ch:
+		return nil
 	case <-ctx.Done():
-		return ctx.Err()
+		err = ctx.Err()
+	case <-s.closedCh:
+		err = errSessionClosed
+	}
+
+	// pong may be there at the same time
+	select {
 	case <-ch:
 		return nil
+	default:
+		return err
 	}
 }
 
-- 
2.43.0


From 5ea092281096d153844600694186e8922678f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 38/49] fix: write lease frames at once so that concurrent
 pings do not mix them

---
 lease/frame.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index 7898ea2..d47f078 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -73,15 +73,15 @@ func writeDataWithFrame(w io.Writer, message []byte) error {
 	h.FrameType = ltFrametypeMessage
 	h.FrameSize = uint32(sizeOfLtFrameheader) + uint32(len(message))
 
-	err := binary.Write(w, binary.LittleEndian, &h)
+	var buf bytes.Buffer
+	err := binary.Write(&buf, binary.LittleEndian, &h)
 	if err != nil {
 		return err
 	}
 
-	err = binary.Write(w, binary.LittleEndian, message)
-	if err != nil {
-		return err
-	}
+	buf.Write(message)
 
-	return nil
+	// single write, frames of concurrent pings must not mix
+	_, err = w.Write(buf.Bytes())
+	return err
 }
-- 
2.43.0


From ac192848538159543332fddaaca85dfb4a34ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 39/49] fix: synchronise the pong state of lease sessions

---
 lease/agent.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index a8d02c7..8c4dc7d 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -357,6 +357,8 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 }
 
 func (s *leaseSession) LastPongTime() time.Time {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
 	return s.lastpong
 }
 
@@ -366,19 +368,21 @@ func (s *leaseSession) onMessage(m *Message) {
 	case LeaseMessageTypePingRequest:
 		// TODO
 	case LeaseMessageTypePingResponse:
-		s.lastpong = time.Now()
-		s.remoteInstance = m.RemoteLeaseAgentInstance
-		s.boardcastPong()
+		s.onPong(m.RemoteLeaseAgentInstance)
 	default:
 	}
 }
 
-func (s *leaseSession) boardcastPong() {
+func (s *leaseSession) onPong(remoteInstance int64) {
 	s.pingLock.Lock()
+	defer s.pingLock.Unlock()
+
+	s.lastpong = time.Now()
+	s.remoteInstance = remoteInstance
+
 	ch := s.pingCh
 	s.pingCh = make(chan int)
 	close(ch)
-	s.pingLock.Unlock()
 }
 
 func (s *leaseSession) createPingMessage() *Message {
@@ -386,6 +390,10 @@ func (s *leaseSession) createPingMessage() *Message {
 	message.Type = LeaseMessageTypePingRequest
 	message.Expiration = s.parent.config.LeaseDuration // TODO confirm config entry
 	message.LeaseInstance = s.localInstance
+
+	s.pingLock.RLock()
 	message.RemoteLeaseAgentInstance = s.remoteInstance
+	s.pingLock.RUnlock()
+
 	return &message
 }
-- 
2.43.0


From f651f94cc924563310a28b84c734f902e6c22320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 40/49] fix: closing a replaced lease session keeps the current
 one, and establishing ends the one replaced

---
 lease/agent.go | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 8c4dc7d..a9974e9 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -122,17 +122,48 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		return nil, err
 	}
 
-	a.sessions.Store(addr, &s)
-
-	// closed while connecting, Close may not have seen this session
-	if a.isClosed() {
+	replaced, err := a.addSession(&s)
+	if err != nil {
 		s.Close()
-		return nil, errAgentClosed
+		return nil, err
+	}
+
+	// pongs go to the latest session of the address
+	if replaced != nil {
+		replaced.Close()
 	}
 
 	return &s, nil
 }
 
+func (a *Agent) addSession(s *leaseSession) (*leaseSession, error) {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	// closed while connecting, Close does not see this session
+	if a.closed {
+		return nil, errAgentClosed
+	}
+
+	var replaced *leaseSession
+	if old, ok := a.sessions.Load(s.addr); ok {
+		replaced = old.(*leaseSession)
+	}
+
+	a.sessions.Store(s.addr, s)
+	return replaced, nil
+}
+
+func (a *Agent) removeSession(s *leaseSession) {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	// may be replaced by another session of the same address
+	if cur, ok := a.sessions.Load(s.addr); ok && cur == s {
+		a.sessions.Delete(s.addr)
+	}
+}
+
 func (a *Agent) Find(addr string) (Session, bool) {
 	return nil, false
 }
@@ -263,7 +294,7 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
+	s.parent.removeSession(s)
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
-- 
2.43.0


From 974200e884792583221bc5f51b5937132676bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 41/49] fix: decoding a pointer, object or array field takes
 only its own type byte

---
 serialization/unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 0a8c892..06ff1f7 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -255,6 +255,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 		rv.SetString(string(utf16.Decode(body)))
 
 	case reflect.Ptr:
+		if meta != FabricSerializationTypePointer {
+			return fmt.Errorf("expect pointer got %v", meta)
+		}
+
 		ptr := reflect.New(rv.Type().Elem())
 
 		objmeta, err := s.readTypeMeta()
@@ -273,6 +277,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return cm.Unmarshal(meta, s)
 		}
 
+		if meta != FabricSerializationTypeObject {
+			return fmt.Errorf("expect object got %v", meta)
+		}
+
 		endPos, err := s.readObjectBegin(meta)
 		if err != nil {
 			return err
@@ -313,6 +321,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			if meta != FabricSerializationTypeObject|FabricSerializationTypeArray {
 				return fmt.Errorf("[]struct{} expect array got %v", meta)
 			}
+		default:
+			if meta != kindToFabricSerializationType(rv.Type().Elem().Kind())|FabricSerializationTypeArray {
+				return fmt.Errorf("%v expect array got %v", rv.Type(), meta)
+			}
 		}
 
 		len0, err := s.readCompressedUInt32()
-- 
2.43.0


From 80421f886c4b889bc8eede3dbcfec4368b924eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 42/49] fix: decoding a number too large for its field fails
 instead of changing it

---
 serialization/unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 06ff1f7..d9454a6 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -200,6 +200,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
+			if rv.OverflowUint(v) {
+				return fmt.Errorf("%v overflows %v", v, rv.Type())
+			}
+
 			rv.SetUint(v)
 		default:
 			return fmt.Errorf("expect uint got %v", meta)
@@ -212,6 +216,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
+			if rv.OverflowInt(v) {
+				return fmt.Errorf("%v overflows %v", v, rv.Type())
+			}
+
 			rv.SetInt(v)
 		default:
 			return fmt.Errorf("expect int got %v", meta)
@@ -228,6 +236,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if rv.OverflowFloat(v) {
+			return fmt.Errorf("%v overflows %v", v, rv.Type())
+		}
+
 		rv.SetFloat(v)
 
 	case reflect.String:
-- 
2.43.0


From 6c186dbfec8a1505a9b7e2ebb0a54b60d526c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 43/49] fix: address a message that is sent again by a site
 node to its new target instead of the first one

---
 federation/sitenode_sender.go |  6 ++++++
 transport/messageheaders.go   | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 94e1367..d2f0f4e 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -152,6 +152,9 @@ func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
 	}
 
 	s.fillMessageId(msg)
+
+	// the caller may send msg again
+	msg = &transport.Message{Headers: msg.Headers.Clone(), Body: msg.Body}
 	s.appendPartnerInfo(msg)
 
 	msg.Headers.SetCustomHeader(transport.MessageHeaderIdTypePToP, &PToPHeader{
@@ -171,6 +174,9 @@ func (s *SiteNode) Route(ctx context.Context, id NodeID, msg *transport.Message)
 	}
 
 	s.fillMessageId(msg)
+
+	// the caller may send msg again
+	msg = &transport.Message{Headers: msg.Headers.Clone(), Body: msg.Body}
 	s.appendPartnerInfo(msg)
 
 	msg.Headers.SetCustomHeader(transport.MessageHeaderIdTypePToP, &PToPHeader{
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 93df40f..ade33d2 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -111,6 +111,18 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 	return true
 }
 
+// Clone returns a copy with custom headers of its own.
+func (h *MessageHeaders) Clone() MessageHeaders {
+	c := *h
+	c.customHeaders = make(map[MessageHeaderIdType][]interface{}, len(h.customHeaders))
+
+	for typ, headers := range h.customHeaders {
+		c.customHeaders[typ] = append([]interface{}(nil), headers...)
+	}
+
+	return c
+}
+
 func (h *MessageHeaders) writeTo(w io.Writer) error {
 
 	if err := writeMessageHeader(w, MessageHeaderIdTypeMessageId, &h.Id); err != nil {
-- 
2.43.0


From 4c6d4a9ae02b3cf1732f5d8ccf9da22500b13d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 44/49] fix: end a waiting request whose id another request
 takes, which the close of the connection did not reach any more

---
 transport/requesttable.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index 7523eba..149f9d3 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -7,7 +7,8 @@ import (
 )
 
 type RequestTable struct {
-	table sync.Map
+	table   sync.Map
+	putLock sync.Mutex
 }
 
 type PendingRequest struct {
@@ -18,6 +19,11 @@ type PendingRequest struct {
 }
 
 func (r *PendingRequest) Close() error {
+	// another request with the same id may have taken the place
+	if cur, ok := r.parent.table.Load(r.id); !ok || cur != r {
+		return nil
+	}
+
 	pr, ok := r.parent.table.LoadAndDelete(r.id)
 	if !ok {
 		return nil
@@ -61,6 +67,15 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 		id:     id,
 		ch:     make(chan *ByteArrayMessage, 1), // Feed must not wait for a waiter who may have given up
 	}
+
+	r.putLock.Lock()
+	defer r.putLock.Unlock()
+
+	// a request that waits with the same id could not be answered or closed any more
+	if old, ok := r.table.LoadAndDelete(id); ok {
+		close(old.(*PendingRequest).ch)
+	}
+
 	r.table.Store(id, p)
 	return p
 }
-- 
2.43.0


From 80a8b1aa14e537e27c51316c0c6d510865f192e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 45/49] fix: decoding a GUID field takes only the type byte of
 a GUID, not that of an array of them

---
 serialization/guid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialization/guid.go b/serialization/guid.go
index d7ffa34..1156882 100644
--- a/serialization/guid.go
+++ b/serialization/guid.go
@@ -120,7 +120,7 @@ func (g *GUID) Marshal(s Encoder) error {
 
 func (g *GUID) Unmarshal(meta FabricSerializationType, s Decoder) error {
 
-	if !IsBaseMeta(meta, FabricSerializationTypeGuid) {
+	if meta != FabricSerializationTypeGuid {
 		return fmt.Errorf("expect guid get %v", meta)
 	}
 
-- 
2.43.0


From 8499fc06b8b75f6a0875a657d2250fd4ca568a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 46/49] fix: a message sent after a frame that was written in
 part was taken for the rest of that frame

---
 transport/conn.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/transport/conn.go b/transport/conn.go
index 9d438c1..4d6d519 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/tls"
 	"fmt"
+	"io"
 	"net"
 	"sync"
 	"sync/atomic"
@@ -37,6 +38,7 @@ type connection struct {
 	messageCallback MessageCallback
 	conn            net.Conn
 	writeLock       sync.Mutex // a frame is more than one write
+	brokenErr       error      // of a frame that was written in part, guarded by writeLock
 	requestTable    RequestTable
 	pings           sync.Map // time tick sent => chan int64 of the waiting Ping
 	closed          chan struct{}
@@ -282,7 +284,30 @@ func (c *connection) sendTransportInit(conn net.Conn) error {
 func (c *connection) writeMessageWithFrame(message *Message) error {
 	c.writeLock.Lock()
 	defer c.writeLock.Unlock()
-	return writeMessageWithFrame(c.conn, message, c.frameWCfg)
+
+	if c.brokenErr != nil {
+		return c.brokenErr
+	}
+
+	w := countingWriter{w: c.conn}
+	err := writeMessageWithFrame(&w, message, c.frameWCfg)
+	if err != nil && w.n > 0 {
+		// what follows would be taken for the rest of that frame
+		c.brokenErr = err
+	}
+
+	return err
+}
+
+type countingWriter struct {
+	w io.Writer
+	n int
+}
+
+func (w *countingWriter) Write(p []byte) (int, error) {
+	n, err := w.w.Write(p)
+	w.n += n
+	return n, err
 }
 
 func (c *connection) nextMessageHeaderAndBodyFromFrame() (*MessageHeaders, []byte, error) {
-- 
2.43.0


From 78783d089b394b302560928f77de881231f427c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 47/49] fix: close a connection on which nothing can be sent
 any more, which a site node used for ever

---
 transport/conn.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 4d6d519..372903d 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -282,31 +282,44 @@ func (c *connection) sendTransportInit(conn net.Conn) error {
 }
 
 func (c *connection) writeMessageWithFrame(message *Message) error {
+	broken, err := c.tryWriteMessageWithFrame(message)
+	if broken {
+		// nothing can be sent any more
+		c.Close()
+	}
+
+	return err
+}
+
+func (c *connection) tryWriteMessageWithFrame(message *Message) (broken bool, err error) {
 	c.writeLock.Lock()
 	defer c.writeLock.Unlock()
 
 	if c.brokenErr != nil {
-		return c.brokenErr
+		return false, c.brokenErr
 	}
 
 	w := countingWriter{w: c.conn}
-	err := writeMessageWithFrame(&w, message, c.frameWCfg)
-	if err != nil && w.n > 0 {
-		// what follows would be taken for the rest of that frame
+	err = writeMessageWithFrame(&w, message, c.frameWCfg)
+	if err != nil && (w.n > 0 || (w.failed && c.frameWCfg.SecurityProviderMask == securityProviderSsl)) {
+		// what follows would be taken for the rest of that frame, and tls never writes again
 		c.brokenErr = err
+		return true, err
 	}
 
-	return err
+	return false, err
 }
 
 type countingWriter struct {
-	w io.Writer
-	n int
+	w      io.Writer
+	n      int
+	failed bool
 }
 
 func (w *countingWriter) Write(p []byte) (int, error) {
 	n, err := w.w.Write(p)
 	w.n += n
+	w.failed = w.failed || err != nil
 	return n, err
 }
 
-- 
2.43.0


From f05fd69fb2957abe79383129a5ca1c4363cc5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 48/49] fix: a request that was given up took along another one
 sent with its id at that moment

---
 transport/requesttable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index 149f9d3..f7fbbf4 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -19,6 +19,9 @@ type PendingRequest struct {
 }
 
 func (r *PendingRequest) Close() error {
+	r.parent.putLock.Lock()
+	defer r.parent.putLock.Unlock()
+
 	// another request with the same id may have taken the place
 	if cur, ok := r.parent.table.Load(r.id); !ok || cur != r {
 		return nil
-- 
2.43.0


From bc054a30ae27e249b74395fc0b224ddbe6178c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:25 +0000
Subject: [PATCH 49/49] fix: refuse compressed numbers beyond 64 bits and
 counts beyond 32

Their upper bits were dropped, so that a uint64 field holding 2^64+5 arrived
as 5, and a string of 2^32+3 characters as one of 3.
---
 serialization/bytecompress.go |  4 ++++
 serialization/unmarshal.go    | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/serialization/bytecompress.go b/serialization/bytecompress.go
index 4e1c6b8..d75dfd1 100644
--- a/serialization/bytecompress.go
+++ b/serialization/bytecompress.go
@@ -27,6 +27,10 @@ func readCompressed[T int64 | uint64](s *decodeState, size int) (T, error) {
 	for readSize := 1; readSize <= maxSize; readSize++ {
 		b := byteValue & valueCompressMask7Bit
 
+		if (value<<7)>>7 != value {
+			return 0, fmt.Errorf("compressed number overflows 64 bits")
+		}
+
 		value <<= 7
 		value |= T(b)
 
diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index d9454a6..6601cc7 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"unicode/utf16"
 )
@@ -39,7 +40,15 @@ func (s *decodeState) ReadCompressedUInt32() (uint32, error) {
 
 func (s *decodeState) readCompressedUInt32() (uint32, error) {
 	v, err := s.readCompressedUnsigned(binary.Size(uint32(1)))
-	return uint32(v), err
+	if err != nil {
+		return 0, err
+	}
+
+	if v > math.MaxUint32 {
+		return 0, fmt.Errorf("%v overflows uint32", v)
+	}
+
+	return uint32(v), nil
 }
 
 // func (s *decodeState) readCompressedUInt16() (uint16, error) {
-- 
2.43.0

