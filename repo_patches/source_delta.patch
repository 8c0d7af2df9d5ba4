From 87f8ccd956ec22eb1f825a726eb624444554786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 01/29] fix: let an adopted buffer use the whole capacity of
 the user slice

UBufFromWithHeadReserved takes cap(data) as the capacity but kept len(data)
as the length of the backing slice, so writes past len(data) panicked or
were silently lost.
---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..aeb2016 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From 1ea4e6a36f6a32abad8f042cde6c09e2ba5043d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 02/29] fix: detach a shared buffer before a head write moves
 the write index

writeHead moved writerIndex in front of readerIndex and only then let the
write resolve copy-on-write, which copied bytes[readerIndex:writerIndex]:
a panic, or loss of the readable data, on every head write into a buffer
that shares its data with a copy-on-write snapshot.
---
 ubuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ubuf.go b/ubuf.go
index aeb2016..ddc8234 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -568,6 +568,9 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// detach from snapshots while the indexes still describe the data
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From 44a8f96b43bb8271c953adf1a6c65cbcce1a5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 03/29] fix: give up a shared buffer only after its data has
 been copied

resolveCopyOnWriteIfNeed decreased the reference count before copying, so
the other holder could find itself alone and overwrite the data while it
was still being copied.
---
 ubuf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index ddc8234..7dd90eb 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -175,9 +175,6 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 
 	// buffer data is referenced by some snapshot(s)
 
-	// decrease the count
-	atomic.AddInt32(&ub.data.refCount, -1)
-
 	// make buffer data copy
 	data := &uBufData{
 		refCount: 1,
@@ -187,6 +184,10 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 	fmt.Println("make COW")
 	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])
 
+	// decrease the count only after the copy is made, from then on
+	// the last holder is free to overwrite the shared data
+	atomic.AddInt32(&ub.data.refCount, -1)
+
 	// update
 	ub.data = data
 }
-- 
2.43.0


From 1de99e656cdc7fa4616c8a8e152791cf3c13a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 04/29] fix: keep data that a reader returns together with an
 error

ReadFrom dropped the bytes of a Read that returned n > 0 and an error.
---
 ubuf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 7dd90eb..33773d5 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -473,13 +473,11 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 	ub.resolveCopyOnWriteIfNeed()
 
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
 
+	// a reader may return data together with an error
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From fae97154adba969fb3969d7005ac6cb374e5baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 05/29] fix: consume what a failing writer has taken

WriteTo reported the bytes a failing Write had taken but left them in the
buffer, so they would be written twice.
---
 ubuf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 33773d5..1832f28 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -353,13 +353,11 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
 
+	// a writer may have taken some data before it failed
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
-- 
2.43.0


From c47c6f9c4f0956a95954676e3dba46e5cf8d3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:25 +0000
Subject: [PATCH 06/29] fix: frame decoder passes by-reference data down to the
 lower layer

---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..10e5c0c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -36,7 +36,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
-- 
2.43.0


From d0c342bb4dc59b22ce073b6b46d1db3ad1deb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:25 +0000
Subject: [PATCH 07/29] fix: do not send a message whose frame length could not
 be written

---
 proc_frame_decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 10e5c0c..9b78fc0 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -47,7 +47,10 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 		}
 
 		// add frame length in head space
-		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		if err != nil {
+			return
+		}
 	}
 
 	frm.lower.OnUpperData(context)
-- 
2.43.0


From 2feddbee75338197fdacda408a7f6daa8dd50370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:25 +0000
Subject: [PATCH 08/29] fix: a frame is complete only with its length field and
 all of its payload

---
 proc_frame_decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 9b78fc0..e935442 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -80,16 +80,16 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 			return
 		}
 
-		actuallyLength := uint32(ub.ReadableLength())
+		actuallyLength := ub.ReadableLength() - FrameLengthFieldSizeInByte
 
 		// not a complete frame, cache the data
-		if expectedLength > actuallyLength {
+		if int(expectedLength) > actuallyLength {
 			frm.cache.ReadFrom(ub)
 			return
 		}
 
 		// just one frame, need not to alloc new UBuf
-		if expectedLength == actuallyLength {
+		if int(expectedLength) == actuallyLength {
 			// drop size-field-data by dummy reading
 			ub.ReadU32BE()
 
@@ -143,7 +143,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		if cachedLength < int(expectedLength) {
+		if cachedLength < FrameLengthFieldSizeInByte+int(expectedLength) {
 			// wait for more data
 			return
 		}
-- 
2.43.0


From 2033c8849f23e205372fed74d1bf7df0376ffda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 09/29] fix: reassemble the frames of each connection
 separately and completely

The cache was shared by all connections, was never compacted, lost data when
full, and an empty frame crashed the stack. Frames handed up from a joined
buffer now have head room, so that they can be sent back.
---
 proc_frame_decoder.go | 150 +++++++++++++++++++++---------------------
 1 file changed, 74 insertions(+), 76 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index e935442..2e30f9c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +16,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +25,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -56,27 +58,61 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
-// handleCurrentData ...
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
-	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
+// takeCachedData returns the data cached for the connection, followed by
+// the data of ub
+func (frm *FrameDecoder) takeCachedData(connection TransportConnection, ub *UBuf) *UBuf {
+	frm.mutex.Lock()
+	cache, ok := frm.caches[connection]
+	delete(frm.caches, connection)
+	frm.mutex.Unlock()
+
+	if !ok {
+		return ub
+	}
+
+	all := UBufAlloc(cache.ReadableLength() + ub.ReadableLength())
+	all.ReadFrom(cache)
+	all.ReadFrom(ub)
+
+	return all
+}
+
+// cacheData keeps the data until more data comes on the connection
+func (frm *FrameDecoder) cacheData(connection TransportConnection, ub *UBuf) {
+	if ub.ReadableLength() == 0 {
 		return
 	}
 
-	// cache is empty
+	cache := UBufAlloc(ub.ReadableLength())
+	cache.ReadFrom(ub)
+
+	frm.mutex.Lock()
+	frm.caches[connection] = cache
+	frm.mutex.Unlock()
+}
+
+// dropCachedData ...
+func (frm *FrameDecoder) dropCachedData(connection TransportConnection) {
+	frm.mutex.Lock()
+	delete(frm.caches, connection)
+	frm.mutex.Unlock()
+}
+
+// handleData ...
+func (frm *FrameDecoder) handleData(context Context, ub *UBuf) {
+	connection := context.GetConnection()
+
 	// handle as much as possiable with loop
 	for {
 		// very less data, cache the data
 		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
+			frm.cacheData(connection, ub)
 			return
 		}
 
 		expectedLength, err := ub.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
 			return
 		}
 
@@ -84,81 +120,38 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 		// not a complete frame, cache the data
 		if int(expectedLength) > actuallyLength {
-			frm.cache.ReadFrom(ub)
+			if FrameLengthFieldSizeInByte+int(expectedLength) <= frm.cacheCapacity {
+				frm.cacheData(connection, ub)
+			}
+			// bad frame if it exceeds the cache, discard it
 			return
 		}
 
+		// drop size-field-data by dummy reading
+		ub.ReadU32BE()
+
+		// empty frame, nothing for uplayer
+		if expectedLength == 0 {
+			continue
+		}
+
 		// just one frame, need not to alloc new UBuf
 		if int(expectedLength) == actuallyLength {
-			// drop size-field-data by dummy reading
-			ub.ReadU32BE()
-
 			context.SetBuffer(ub)
 			frm.upper.OnLowerData(context)
 			return
 		}
 
 		// here: expectedLength < actuallyLength
-		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
-
-		// drop size-field-data by dummy reading
-		ub.ReadU32BE()
+		// there must have at least one complete frame, uplayer may send
+		// it back, so reserve the head space
+		overhead := frm.ustack.GetOverhead()
+		newUbuf := UBufAllocWithHeadReserved(overhead+int(expectedLength), overhead)
 
 		// fill the new buffer for uplayer
 		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
-			return
-		}
-
-		context.SetBuffer(newUbuf)
-
-		// invoke uplayer
-		frm.upper.OnLowerData(context)
-	}
-}
-
-// handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
-	// handle as much as possiable with loop
-	for {
-		cachedLength := frm.cache.ReadableLength()
-
-		if cachedLength == 0 {
-			frm.cache.Reset()
-			return
-		}
-
-		if cachedLength < FrameLengthFieldSizeInByte {
-			// wait for more data
-			return
-		}
-
-		expectedLength, err := frm.cache.PeekU32BE()
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
-		}
-
-		if cachedLength < FrameLengthFieldSizeInByte+int(expectedLength) {
-			// wait for more data
-			return
-		}
-
-		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
-
-		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
-
-		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
 			return
 		}
 
@@ -182,16 +175,23 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
-		// handle current received data
-		frm.handleCurrentData(context, ub)
-
-		// handle history cached data
-		frm.handleCachedData(context, ub)
+		// handle current received data after history cached data
+		frm.handleData(context, frm.takeCachedData(context.GetConnection(), ub))
 	} else {
 		frm.upper.OnLowerData(context)
 	}
 }
 
+// OnEvent ...
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type == UStackEventConnectionClosed {
+		connection, ok := event.Data.(TransportConnection)
+		if ok {
+			frm.dropCachedData(connection)
+		}
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -202,7 +202,5 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
-
 	return frm
 }
-- 
2.43.0


From 3c7884a64fe4e53f677bd73bdd1b1c64e5d67a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:16 +0000
Subject: [PATCH 10/29] fix: gob decoding of an empty or truncated message
 never returned

---
 proc_codec_gob.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..e3052af 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -5,6 +5,7 @@
 package ustack
 
 import (
+	"bytes"
 	"encoding/gob"
 	"fmt"
 	"reflect"
@@ -57,8 +58,16 @@ func (g *GOBCodec) OnLowerData(context Context) {
 			return
 		}
 
+		data := make([]byte, ub.ReadableLength())
+
+		n, err := ub.Read(data)
+		if n == 0 || err != nil {
+			return
+		}
+
+		// an exhausted UBuf reads as (0, nil), the decoder needs an io.EOF
 		objectItf := reflect.New(g.objectType).Interface()
-		err := gob.NewDecoder(ub).Decode(objectItf)
+		err = gob.NewDecoder(bytes.NewReader(data)).Decode(objectItf)
 		if err != nil {
 			fmt.Println("GOBCodec: gob encode error:", err)
 			return
-- 
2.43.0


From 974fc057f4c4be0e51fd261460ed24baeea61eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:16 +0000
Subject: [PATCH 11/29] fix: generic codec sends nothing when the encoder wrote
 nothing

---
 proc_codec_generic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index a7e45e2..ec39607 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -63,6 +63,9 @@ func (gc *GenericCodec) OnUpperData(context Context) {
 			fmt.Println("GenericCodec: encode error:")
 			return
 		}
+		if ub.ReadableLength() == 0 {
+			return
+		}
 
 		context.SetBuffer(ub)
 	}
-- 
2.43.0


From 7324bf221cd55851abb6d5c93866990a2a263e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:10 +0000
Subject: [PATCH 12/29] fix: send no heartbeat or collect request on
 by-reference connections

---
 proc_heartbeat.go    | 5 +++++
 proc_stat_counter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..eaf19da 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -141,6 +141,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 		interval := hb.intervalInSecond
 		connection := event.Data.(TransportConnection)
 
+		// no heartbeat on by-reference connection
+		if connection.UseReference() {
+			return
+		}
+
 		hb.updateMonitor(connection)
 
 		go func() {
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..3d5411e 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -153,6 +153,11 @@ func (sc *StatCounter) OnEvent(event Event) {
 
 		connection := event.Data.(TransportConnection)
 
+		// no collect request on by-reference connection
+		if connection.UseReference() {
+			return
+		}
+
 		go func() {
 			for {
 				if connection.Closed() {
-- 
2.43.0


From 16a6cf59a640d16bda9be3bbf9dc9600b69d0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:10 +0000
Subject: [PATCH 13/29] fix: a disabled statistics processor does not hand up
 control messages

---
 proc_stat_counter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 3d5411e..93999e3 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -137,6 +137,8 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.rxCounter++
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
+	} else if tag == StatCounterSelfMessageReqTag || tag == StatCounterSelfMessageResTag {
+		return
 	}
 
 	sc.upper.OnLowerData(context)
-- 
2.43.0


From 7cdc19db2aedac46718c6ecec256bd26d9ad16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:41 +0000
Subject: [PATCH 14/29] fix: count messages exactly when several goroutines
 send and receive

---
 proc_stat_counter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 93999e3..dbda117 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -6,6 +6,7 @@ package ustack
 
 import (
 	"fmt"
+	"sync"
 	"time"
 )
 
@@ -19,6 +20,7 @@ const (
 type StatCounter struct {
 	ProcBase
 	intervalInSecond int
+	mutex            sync.Mutex // protects the counters
 	txCounter        uint64
 	rxCounter        uint64
 }
@@ -52,7 +54,9 @@ func (sc *StatCounter) OnUpperData(context Context) {
 	}
 
 	if sc.enable {
+		sc.mutex.Lock()
 		sc.txCounter++
+		sc.mutex.Unlock()
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
@@ -83,8 +87,10 @@ func (sc *StatCounter) response(context Context) {
 
 	ub.WriteHeadByte(StatCounterSelfMessageResTag)
 
+	sc.mutex.Lock()
 	ub.WriteU64BE(sc.txCounter)
 	ub.WriteU64BE(sc.rxCounter)
+	sc.mutex.Unlock()
 
 	ub.Write([]byte(sc.ustack.GetName()))
 
@@ -134,7 +140,9 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.show(context)
 			return
 		} else {
+			sc.mutex.Lock()
 			sc.rxCounter++
+			sc.mutex.Unlock()
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
 	} else if tag == StatCounterSelfMessageReqTag || tag == StatCounterSelfMessageResTag {
-- 
2.43.0


From 0ccfd7d74878fcb73a9ea40973e8d582ff1a4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:15 +0000
Subject: [PATCH 15/29] fix: filter and forwarder called a nil function before
 the given ones

---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..486fdcb 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..b68ac3d 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From 06957e8edd2da3463eedde9a166f8a3a6b104cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:08 +0000
Subject: [PATCH 16/29] fix: deleting an endpoint or transport does not disturb
 a walk over the list

---
 ustack_default.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..c9146fb 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -223,8 +223,8 @@ func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
 			Data:   ep,
 		})
 
-		// delete
-		u.endpoints = append(u.endpoints[:i], u.endpoints[i+1:]...)
+		// delete, in a new slice as someone may be walking the old one
+		u.endpoints = append(append([]EndPoint{}, u.endpoints[:i]...), u.endpoints[i+1:]...)
 
 		break
 	}
@@ -279,8 +279,8 @@ func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
 			continue
 		}
 
-		// delete
-		u.transports = append(u.transports[:i], u.transports[i+1:]...)
+		// delete, in a new slice as someone may be walking the old one
+		u.transports = append(append([]Transport{}, u.transports[:i]...), u.transports[i+1:]...)
 
 		u.PublishEvent(Event{
 			Type:   UStackEventTransportDeleted,
-- 
2.43.0


From 84af17866092e66e79abd9ba18c9db3115a62b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:24 +0000
Subject: [PATCH 17/29] fix: a listener of an endpoint deletion may delete
 another endpoint

---
 ustack_default.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index c9146fb..138ad43 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -212,7 +212,7 @@ func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
-	for i, endpoint := range u.endpoints {
+	for _, endpoint := range u.endpoints {
 		if endpoint != ep {
 			continue
 		}
@@ -223,8 +223,15 @@ func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
 			Data:   ep,
 		})
 
-		// delete, in a new slice as someone may be walking the old one
-		u.endpoints = append(append([]EndPoint{}, u.endpoints[:i]...), u.endpoints[i+1:]...)
+		// delete, in a new slice as someone may be walking the old one;
+		// a listener of the event may have changed the list as well
+		var endpoints []EndPoint
+		for _, e := range u.endpoints {
+			if e != ep {
+				endpoints = append(endpoints, e)
+			}
+		}
+		u.endpoints = endpoints
 
 		break
 	}
-- 
2.43.0


From 27c3691ee575d4f22423c0cd4aec4fda14a05688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:39 +0000
Subject: [PATCH 18/29] fix: setters of a plain base processor or feature
 return the object itself

---
 feat_base.go | 1 +
 proc_base.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/feat_base.go b/feat_base.go
index 14bafe3..524d8a0 100644
--- a/feat_base.go
+++ b/feat_base.go
@@ -26,6 +26,7 @@ func NewFeatBaseInstance(name string) FeatBase {
 // NewFeatBase return a new instance that meets for Feature interface
 func NewFeatBase() Feature {
 	base := NewFeatBaseInstance("FeatBase")
+	base.where = &base
 	return &base
 }
 
diff --git a/proc_base.go b/proc_base.go
index 6c71649..b32ab8a 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -35,6 +35,7 @@ func NewProcBaseInstance(name string) ProcBase {
 // NewProcBase return a new instance that meets for DataProcessor interface
 func NewProcBase() DataProcessor {
 	base := NewProcBaseInstance("ProcBase")
+	base.where = &base
 	return &base
 }
 
-- 
2.43.0


From e997c1cc1cf20fef156eb2f281e738e18acb1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:28 +0000
Subject: [PATCH 19/29] fix: nothing is passed down for an endpoint after its
 deletion

---
 proc_upperdeck.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..2b99378 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -36,7 +36,8 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	ud.endpoints[ep] = make(chan bool, 1)
+	ch := make(chan bool, 1)
+	ud.endpoints[ep] = ch
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -47,11 +48,16 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	go func() {
 		for {
 			select {
-			case stop := <-ud.endpoints[ep]:
-				if stop {
+			case <-ch:
+				return
+			case epd := <-txchan:
+				// the endpoint may be deleted while it is being read
+				select {
+				case <-ch:
 					return
+				default:
 				}
-			case epd := <-txchan:
+
 				destinationSession := session
 				if epd.HasDestinationSession() {
 					destinationSession = epd.GetDestinationSession()
-- 
2.43.0


From d323ba568d80965bcb4829c52c7c68081107a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:28 +0000
Subject: [PATCH 20/29] fix: two endpoints of one session could be registered
 at the same time

---
 proc_upperdeck.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index 2b99378..f6ff9ad 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -15,10 +15,8 @@ type UpperDeck struct {
 	endpoints map[EndPoint]chan bool
 }
 
+// existsEndpoint is called with the lock held
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
-	ud.Lock()
-	defer ud.Unlock()
-
 	for endpoint := range ud.endpoints {
 		if endpoint == ep || endpoint.GetSession() == ep.GetSession() {
 			return true
@@ -29,13 +27,13 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
+	ud.Lock()
+	defer ud.Unlock()
+
 	if ud.existsEndpoint(ep) {
 		return
 	}
 
-	ud.Lock()
-	defer ud.Unlock()
-
 	ch := make(chan bool, 1)
 	ud.endpoints[ep] = ch
 
-- 
2.43.0


From 3cdbc2a1616c0788ca5192bf32577a7cf49306af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:04 +0000
Subject: [PATCH 21/29] fix: only one routine hands received data to the data
 listener

---
 endp_default.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 67ca2aa..0642168 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync"
+
 // DefaultEndPointData ...
 type DefaultEndPointData struct {
 	connection            TransportConnection
@@ -75,20 +77,30 @@ type DefaultEndPoint struct {
 	rxChannel     chan EndPointData
 	eventListener func(EndPoint, Event)
 	dataListener  func(EndPoint, EndPointData)
+	listenerMutex sync.Mutex // for dataListener and inAutoReceive
 	inAutoReceive bool
 }
 
+// getDataListener returns the data listener,
+// without one there is no auto receive any more
+func (ep *DefaultEndPoint) getDataListener() func(EndPoint, EndPointData) {
+	ep.listenerMutex.Lock()
+	defer ep.listenerMutex.Unlock()
+
+	if ep.dataListener == nil {
+		ep.inAutoReceive = false
+	}
+	return ep.dataListener
+}
+
 // autoReceive ...
 func (ep *DefaultEndPoint) autoReceive() {
-	if ep.dataListener != nil {
-		ep.inAutoReceive = true
-		for epd := range ep.rxChannel {
-			if ep.dataListener == nil {
-				ep.inAutoReceive = false
-				return
-			}
-			ep.dataListener(ep, epd)
+	for epd := range ep.rxChannel {
+		listener := ep.getDataListener()
+		if listener == nil {
+			return
 		}
+		listener(ep, epd)
 	}
 }
 
@@ -113,8 +125,12 @@ func (ep *DefaultEndPoint) SetEventListener(listener func(EndPoint, Event)) EndP
 
 // SetDataListener ...
 func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)) EndPoint {
+	ep.listenerMutex.Lock()
+	defer ep.listenerMutex.Unlock()
+
 	ep.dataListener = listener
-	if !ep.inAutoReceive {
+	if listener != nil && !ep.inAutoReceive {
+		ep.inAutoReceive = true
 		go ep.autoReceive()
 	}
 	return ep
-- 
2.43.0


From 585629da55febce450b88d8f4d93879a065625df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:19 +0000
Subject: [PATCH 22/29] fix: removing the data listener does not lose the next
 received data

---
 endp_default.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 0642168..be4185d 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -77,30 +77,42 @@ type DefaultEndPoint struct {
 	rxChannel     chan EndPointData
 	eventListener func(EndPoint, Event)
 	dataListener  func(EndPoint, EndPointData)
-	listenerMutex sync.Mutex // for dataListener and inAutoReceive
+	lastListener  func(EndPoint, EndPointData)
+	listenerMutex sync.Mutex // for the data listener and inAutoReceive
 	inAutoReceive bool
+	changed       chan struct{} // the data listener has been changed
 }
 
-// getDataListener returns the data listener,
-// without one there is no auto receive any more
+// continueReceive tells if there is a data listener
+func (ep *DefaultEndPoint) continueReceive() bool {
+	ep.listenerMutex.Lock()
+	defer ep.listenerMutex.Unlock()
+
+	ep.inAutoReceive = ep.dataListener != nil
+	return ep.inAutoReceive
+}
+
+// getDataListener returns the data listener that was set last
 func (ep *DefaultEndPoint) getDataListener() func(EndPoint, EndPointData) {
 	ep.listenerMutex.Lock()
 	defer ep.listenerMutex.Unlock()
 
-	if ep.dataListener == nil {
-		ep.inAutoReceive = false
-	}
-	return ep.dataListener
+	return ep.lastListener
 }
 
 // autoReceive ...
 func (ep *DefaultEndPoint) autoReceive() {
-	for epd := range ep.rxChannel {
-		listener := ep.getDataListener()
-		if listener == nil {
-			return
+	for ep.continueReceive() {
+		select {
+		case <-ep.changed:
+		case epd, ok := <-ep.rxChannel:
+			if !ok {
+				return
+			}
+			// if the listener was removed while waiting
+			// then the removed one gets this data
+			ep.getDataListener()(ep, epd)
 		}
-		listener(ep, epd)
 	}
 }
 
@@ -114,6 +126,7 @@ func NewEndPoint(name string, session int) EndPoint {
 		eventListener: nil,
 		dataListener:  nil,
 		inAutoReceive: false,
+		changed:       make(chan struct{}, 1),
 	}
 }
 
@@ -129,10 +142,17 @@ func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)
 	defer ep.listenerMutex.Unlock()
 
 	ep.dataListener = listener
+	if listener != nil {
+		ep.lastListener = listener
+	}
 	if listener != nil && !ep.inAutoReceive {
 		ep.inAutoReceive = true
 		go ep.autoReceive()
 	}
+	select {
+	case ep.changed <- struct{}{}:
+	default:
+	}
 	return ep
 }
 
-- 
2.43.0


From 161ce3de095853cd51b537472a63e4243da81546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:56 +0000
Subject: [PATCH 23/29] fix: data that a connection returns together with an
 error was dropped

---
 proc_lowerdeck.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index fb8b912..3393718 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -73,15 +73,17 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 						ub := UBufAlloc(ld.ustack.GetMTU())
 
 						n, err := ub.ReadFrom(connection)
+						// invoke the uplayer, there may be data even if err
+						if n > 0 {
+							ld.upper.OnLowerData(
+								NewUStackContext().
+									SetConnection(connection).
+									SetBuffer(ub))
+						}
 						if n == 0 || err != nil {
 							ld.closeConnection(connection)
 							return
 						}
-						// invoke the uplayer
-						ld.upper.OnLowerData(
-							NewUStackContext().
-								SetConnection(connection).
-								SetBuffer(ub))
 					}
 				}
 			}()
-- 
2.43.0


From 98e5124a0438bf6516a9a312e9b7f7f5126d9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:58 +0000
Subject: [PATCH 24/29] fix: a connection could be reported closed more than
 once

---
 proc_lowerdeck.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 3393718..001b5d5 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -4,17 +4,23 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 // LowerDeck manages transports
 type LowerDeck struct {
 	ProcBase
+	sync.Mutex
+	connections map[TransportConnection]bool // not closed yet
 }
 
 // NewLowerDeck returns a new instance
 func NewLowerDeck() DataProcessor {
 	ld := &LowerDeck{
-		NewProcBaseInstance("LowerDeck"),
+		ProcBase:    NewProcBaseInstance("LowerDeck"),
+		connections: make(map[TransportConnection]bool),
 	}
 	return ld.ProcBase.SetWhere(ld)
 }
@@ -23,6 +29,16 @@ func (ld *LowerDeck) closeConnection(c TransportConnection) {
 	// close first
 	c.Close()
 
+	// reading and writing may both fail, publish event only once
+	ld.Lock()
+	opened := ld.connections[c]
+	delete(ld.connections, c)
+	ld.Unlock()
+
+	if !opened {
+		return
+	}
+
 	// publish event
 	ld.ustack.PublishEvent(Event{
 		Type:   UStackEventConnectionClosed,
@@ -48,6 +64,10 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 
 			fmt.Println("New connection:", connection.GetName(), "on transport:", tp.GetName())
 
+			ld.Lock()
+			ld.connections[connection] = true
+			ld.Unlock()
+
 			// publish event
 			ld.ustack.PublishEvent(Event{
 				Type:   UStackEventNewConnection,
-- 
2.43.0


From 1efac0f2cc2a808ccff7a6f9b08a392989d15118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:21 +0000
Subject: [PATCH 25/29] fix: a reference transport could not be stopped, and
 running it twice hung

---
 tran_reference.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..321db7e 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -219,9 +219,11 @@ func (sm *ReferenceTransport) GetAddress() string {
 
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
-	next := <-sm.next
-	sm.connection = next
-	return sm.connection
+	sm.Lock()
+	next := sm.next
+	sm.Unlock()
+
+	return <-next
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -239,6 +241,8 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
 	mutex.Lock()
@@ -253,10 +257,16 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	ch.refCount++
 
-	sm.next <- NewReferenceTransportConnection(sm.name, sm.forServer, ch)
-
 	mutex.Unlock()
 
+	if sm.connection != nil {
+		// run again after stop
+		sm.next = make(chan TransportConnection, 1)
+	}
+
+	sm.connection = NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	sm.next <- sm.connection
+
 	return sm
 }
 
@@ -269,8 +279,17 @@ func (sm *ReferenceTransport) Stop() Transport {
 		return sm
 	}
 
+	sm.isRunning = false
+
 	sm.connection.Close()
 
+	// nobody should get the connection any more
+	select {
+	case <-sm.next:
+	default:
+	}
+	close(sm.next)
+
 	mutex.Lock()
 
 	ch, ok := chans[sm.address]
-- 
2.43.0


From 98fc3405a0dced59112e42e6882757d4eb24b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:22 +0000
Subject: [PATCH 26/29] fix: stopping a reference transport crashed a sender
 and left a receiver waiting

---
 tran_reference.go | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index 321db7e..a20650a 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -48,20 +48,14 @@ func newReferenceChannel(size int) *referenceChannel {
 	}
 }
 
-// deleteReferenceChannel ...
-func deleteReferenceChannel(smc *referenceChannel) {
-	if smc != nil {
-		close(smc.serverTxClientRx)
-		close(smc.serverRxClientTx)
-	}
-}
-
 // ReferenceTransportConnection ...
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
 	closed    bool
 	channel   *referenceChannel
+	closeOnce sync.Once
+	done      chan struct{} // wakes those waiting for the channel
 }
 
 // NewReferenceTransportConnection ...
@@ -75,6 +69,7 @@ func NewReferenceTransportConnection(
 		forServer: forServer,
 		closed:    false,
 		channel:   channel,
+		done:      make(chan struct{}),
 	}
 }
 
@@ -105,15 +100,17 @@ func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error)
 		return nil, errors.New("SetReference: connection is closed")
 	}
 
-	var data interface{}
-
+	rx := c.channel.serverTxClientRx
 	if c.forServer {
-		data = <-c.channel.serverRxClientTx
-	} else {
-		data = <-c.channel.serverTxClientRx
+		rx = c.channel.serverRxClientTx
 	}
 
-	return data, nil
+	select {
+	case data := <-rx:
+		return data, nil
+	case <-c.done:
+		return nil, errors.New("GetReference: connection is closed")
+	}
 }
 
 // SetReference ...
@@ -127,18 +124,23 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 		return errors.New("SetReference: null input")
 	}
 
+	tx := c.channel.serverRxClientTx
 	if c.forServer {
-		c.channel.serverTxClientRx <- p
-	} else {
-		c.channel.serverRxClientTx <- p
+		tx = c.channel.serverTxClientRx
 	}
 
-	return nil
+	select {
+	case tx <- p:
+		return nil
+	case <-c.done:
+		return errors.New("SetReference: connection is closed")
+	}
 }
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
 	c.closed = true
+	c.closeOnce.Do(func() { close(c.done) })
 }
 
 // Closed ...
@@ -298,7 +300,6 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 		if ch.refCount == 0 {
 			delete(chans, sm.address)
-			deleteReferenceChannel(ch)
 		}
 	}
 
-- 
2.43.0


From e41d099d3785da8f57dd8db6566bf812984e815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:03 +0000
Subject: [PATCH 27/29] fix: stopping a TCP transport while it accepts or dials
 crashed or left connections open

---
 tran_tcp.go | 107 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 29 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..b0b7aa9 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -98,6 +98,7 @@ type TCPTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan struct{} // closed when stopped
 	// for server
 	listener net.Listener
 	// for client
@@ -135,19 +136,32 @@ func (t *TCPTransport) parseOptions() {
 func (t *TCPTransport) doInit() {
 	t.connections = make([]TransportConnection, 0)
 	t.next = make(chan TransportConnection, 16)
+	t.done = make(chan struct{})
 }
 
-// saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
+// deliverConnection hands out a new connection
+// or closes it if the transport was stopped in the meantime
+func (t *TCPTransport) deliverConnection(
+	tc TransportConnection,
+	next chan TransportConnection,
+	done chan struct{}) {
+
 	t.Lock()
-	defer t.Unlock()
+	stopped := t.done != done || !t.isRunning
+	if !stopped {
+		t.connections = append(t.connections, tc)
+	}
+	t.Unlock()
 
-	for _, c := range t.connections {
-		if c == tc {
-			return
-		}
+	if stopped {
+		tc.Close()
+		return
+	}
+
+	select {
+	case next <- tc:
+	case <-done:
 	}
-	t.connections = append(t.connections, tc)
 }
 
 // dropConnections ...
@@ -157,42 +171,55 @@ func (t *TCPTransport) dropConnections() {
 	}
 }
 
-// accept ...
-func (t *TCPTransport) accept() {
+// listen ...
+func (t *TCPTransport) listen() {
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
 		log.Fatal(err)
 	}
 
 	t.listener = listener
+}
+
+// accept ...
+func (t *TCPTransport) accept(
+	listener net.Listener,
+	next chan TransportConnection,
+	done chan struct{}) {
 
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		t.deliverConnection(NewTCPTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done)
 	}
 
-	t.Stop()
+	t.stop(done)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(next chan TransportConnection, done chan struct{}) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < t.maxRetryCount; i++ {
+		select {
+		case <-done:
+			return
+		default:
+		}
+
 		connection, err := net.DialTimeout("tcp", t.address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
+			t.deliverConnection(NewTCPTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
@@ -203,7 +230,7 @@ func (t *TCPTransport) connect() {
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.stop(done)
 }
 
 // ForServer ...
@@ -244,9 +271,21 @@ func (t *TCPTransport) GetAddress() string {
 
 // NextConnection ...
 func (t *TCPTransport) NextConnection() TransportConnection {
-	next := <-t.next
-	t.saveConnection(next)
-	return next
+	t.Lock()
+	next, done := t.next, t.done
+	t.Unlock()
+
+	select {
+	case connection := <-next:
+		select {
+		case <-done:
+		default:
+			return connection
+		}
+	case <-done:
+	}
+
+	return nil
 }
 
 // Run ...
@@ -264,20 +303,32 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		t.listen()
+		go t.accept(t.listener, t.next, t.done)
 	} else {
-		go t.connect()
+		go t.connect(t.next, t.done)
 	}
 	return t
 }
 
 // Stop ...
 func (t *TCPTransport) Stop() Transport {
+	t.Lock()
+	done := t.done
+	t.Unlock()
+
+	t.stop(done)
+
+	return t
+}
+
+// stop ends the run the given channel belongs to
+func (t *TCPTransport) stop(done chan struct{}) {
 	t.Lock()
 	defer t.Unlock()
 
-	if !t.isRunning {
-		return t
+	if !t.isRunning || t.done != done {
+		return
 	}
 
 	if t.listener != nil {
@@ -285,11 +336,9 @@ func (t *TCPTransport) Stop() Transport {
 		t.listener = nil
 	}
 
-	close(t.next)
+	close(done)
 
 	t.dropConnections()
 
 	t.isRunning = false
-
-	return t
 }
-- 
2.43.0


From 5d4f6a7733cc579ad2667affc5293cc0ab33731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:03 +0000
Subject: [PATCH 28/29] fix: stopping a Unix socket transport while it accepts
 or dials crashed or left connections open

---
 tran_unix.go | 112 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 34 deletions(-)

diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..eb4cf08 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -99,6 +99,7 @@ type UDSTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan struct{} // closed when stopped
 	// for server
 	listener net.Listener
 	// for client
@@ -136,23 +137,32 @@ func (uds *UDSTransport) parseOptions() {
 func (uds *UDSTransport) doInit() {
 	uds.connections = make([]TransportConnection, 0)
 	uds.next = make(chan TransportConnection, 16)
+	uds.done = make(chan struct{})
 }
 
-// saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
-	if tc == nil {
-		return
-	}
+// deliverConnection hands out a new connection
+// or closes it if the transport was stopped in the meantime
+func (uds *UDSTransport) deliverConnection(
+	tc TransportConnection,
+	next chan TransportConnection,
+	done chan struct{}) {
 
 	uds.Lock()
-	defer uds.Unlock()
+	stopped := uds.done != done || !uds.isRunning
+	if !stopped {
+		uds.connections = append(uds.connections, tc)
+	}
+	uds.Unlock()
 
-	for _, c := range uds.connections {
-		if c == tc {
-			return
-		}
+	if stopped {
+		tc.Close()
+		return
+	}
+
+	select {
+	case next <- tc:
+	case <-done:
 	}
-	uds.connections = append(uds.connections, tc)
 }
 
 // dropConnections ...
@@ -162,8 +172,8 @@ func (uds *UDSTransport) dropConnections() {
 	}
 }
 
-// accept ...
-func (uds *UDSTransport) accept() {
+// listen ...
+func (uds *UDSTransport) listen() {
 	os.Remove(uds.filename)
 
 	listener, err := net.Listen("unix", uds.filename)
@@ -171,37 +181,48 @@ func (uds *UDSTransport) accept() {
 		log.Fatal(err)
 	}
 
-	defer os.Remove(uds.filename)
-
 	uds.listener = listener
+}
+
+// accept ...
+func (uds *UDSTransport) accept(
+	listener net.Listener,
+	next chan TransportConnection,
+	done chan struct{}) {
 
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		uds.deliverConnection(NewUDSTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done)
 	}
 
-	uds.Stop()
+	uds.stop(done)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(next chan TransportConnection, done chan struct{}) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < uds.maxRetryCount; i++ {
+		select {
+		case <-done:
+			return
+		default:
+		}
+
 		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
+			uds.deliverConnection(NewUDSTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
@@ -211,7 +232,7 @@ func (uds *UDSTransport) connect() {
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+	uds.stop(done)
 }
 
 // ForServer ...
@@ -252,9 +273,21 @@ func (uds *UDSTransport) GetAddress() string {
 
 // NextConnection ...
 func (uds *UDSTransport) NextConnection() TransportConnection {
-	next := <-uds.next
-	uds.saveConnection(next)
-	return next
+	uds.Lock()
+	next, done := uds.next, uds.done
+	uds.Unlock()
+
+	select {
+	case connection := <-next:
+		select {
+		case <-done:
+		default:
+			return connection
+		}
+	case <-done:
+	}
+
+	return nil
 }
 
 // Run ...
@@ -272,32 +305,43 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		uds.listen()
+		go uds.accept(uds.listener, uds.next, uds.done)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next, uds.done)
 	}
 	return uds
 }
 
 // Stop ...
 func (uds *UDSTransport) Stop() Transport {
+	uds.Lock()
+	done := uds.done
+	uds.Unlock()
+
+	uds.stop(done)
+
+	return uds
+}
+
+// stop ends the run the given channel belongs to
+func (uds *UDSTransport) stop(done chan struct{}) {
 	uds.Lock()
 	defer uds.Unlock()
 
-	if !uds.isRunning {
-		return uds
+	if !uds.isRunning || uds.done != done {
+		return
 	}
 
 	if uds.listener != nil {
 		uds.listener.Close()
 		uds.listener = nil
+		os.Remove(uds.filename)
 	}
 
-	close(uds.next)
+	close(done)
 
 	uds.dropConnections()
 
 	uds.isRunning = false
-
-	return uds
 }
-- 
2.43.0


From b1a468eee17b60dd6c96cdc0f056bc58adc05840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:19 +0000
Subject: [PATCH 29/29] fix: a reference transport moved to another address
 while running left its old address in use

---
 tran_reference.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index a20650a..f3bc7cf 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -154,6 +154,7 @@ type ReferenceTransport struct {
 	options map[string]interface{}
 	sync.Mutex
 	address    string
+	runAddress string // the address it was run with
 	isRunning  bool
 	forServer  bool
 	connection TransportConnection
@@ -250,11 +251,12 @@ func (sm *ReferenceTransport) Run() Transport {
 	mutex.Lock()
 
 	// check if some Transport have created
-	ch, ok := chans[sm.address]
+	sm.runAddress = sm.address
+	ch, ok := chans[sm.runAddress]
 	if !ok {
 		// not found, create new one
 		ch = newReferenceChannel(sm.queueSize)
-		chans[sm.address] = ch
+		chans[sm.runAddress] = ch
 	}
 
 	ch.refCount++
@@ -294,12 +296,12 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 	mutex.Lock()
 
-	ch, ok := chans[sm.address]
+	ch, ok := chans[sm.runAddress]
 	if ok {
 		ch.refCount--
 
 		if ch.refCount == 0 {
-			delete(chans, sm.address)
+			delete(chans, sm.runAddress)
 		}
 	}
 
-- 
2.43.0

