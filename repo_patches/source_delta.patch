From 91919513254703fd99d43720cf0b51df461ad6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:21 +0000
Subject: [PATCH 01/27] fix: initialise the pools before loading the backup

---
 tracker/tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b21ccdd..d937c63 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -43,6 +43,9 @@ func Run() {
 		config.Logger.Error("Peer expiry < announce interval. Peers will expire before being updated.")
 	}
 
+	// pools must be ready before the database loads its backup
+	pools.Initialize(int(config.Config.Numwant.Limit))
+
 	// db
 	peerdb, err := storage.Open()
 	if err != nil {
@@ -51,8 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	pools.Initialize(int(config.Config.Numwant.Limit))
-
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
-- 
2.43.0


From b1ea6435130b30b3f60ece74b089d760610d9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 02/27] fix: UDP scrape responses no longer start with a block
 of zeros

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 349e71d..522486c 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -53,7 +53,7 @@ type ScrapeResp struct {
 
 // Marshall encodes a ScrapeResp to a byte slice.
 func (sr *ScrapeResp) Marshall() ([]byte, error) {
-	buff := bytes.NewBuffer(make([]byte, 8+len(sr.Info)*12))
+	buff := bytes.NewBuffer(make([]byte, 0, 8+len(sr.Info)*12))
 
 	if err := binary.Write(buff, binary.BigEndian, sr.Action); err != nil {
 		return nil, errors.Wrap(err, "failed to encode scrape response action")
-- 
2.43.0


From c4b3072003193c9df957bbc134866d4ad829b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 03/27] fix: compact peer lists hold numwant current peers and
 no stale bytes

---
 tracker/storage/map/hash.go | 38 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bafc7ad..f15c499 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -79,10 +79,11 @@ func (db *Memory) PeerList(hash storage.Hash, numWant uint, removePeerId bool) (
 	return
 }
 
-// PeerListBytes returns a byte encoded peer list for the given hash capped at num
+// PeerListBytes returns a byte encoded peer list for the given hash with at most numWant peers of each address family
 func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte, peers6 []byte) {
-	peers4 = pools.Peerlists4.Get()
-	peers6 = pools.Peerlists6.Get()
+	// pooled buffers come back with the length and content of their last use
+	peers4 = pools.Peerlists4.Get()[:0]
+	peers6 = pools.Peerlists6.Get()[:0]
 
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
@@ -91,32 +92,37 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 		return
 	}
 
-	peermap.mutex.RLock()
-	if numPeers := uint(len(peermap.Peers)); numWant > numPeers {
-		numWant = numPeers
+	max4, max6 := cap(peers4)/6, cap(peers6)/18
+	if numWant < uint(max4) {
+		max4 = int(numWant)
 	}
-
-	if numWant == 0 {
-		peermap.mutex.RUnlock()
-		return
+	if numWant < uint(max6) {
+		max6 = int(numWant)
 	}
+	peers4 = peers4[:max4*6]
+	peers6 = peers6[:max6*18]
 
+	peermap.mutex.RLock()
 	var pos4, pos6 int
 	for _, peer := range peermap.Peers {
+		if pos4 == len(peers4) && pos6 == len(peers6) {
+			break
+		}
+
 		if peer.IP.Is6() {
+			if pos6 == len(peers6) {
+				continue
+			}
 			copy(peers6[pos6:pos6+16], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers6[pos6+16:pos6+18], peer.Port)
 			pos6 += 18
-			if pos6+18 > cap(peers6) {
-				break
-			}
 		} else {
+			if pos4 == len(peers4) {
+				continue
+			}
 			copy(peers4[pos4:pos4+4], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers4[pos4+4:pos4+6], peer.Port)
 			pos4 += 6
-			if pos4+6 > cap(peers4) {
-				break
-			}
 		}
 	}
 	peermap.mutex.RUnlock()
-- 
2.43.0


From 6cbaa9a1ae6639d6a861eee76cf5548d604c7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 04/27] fix: Save no longer loses swarms, peers or counts to
 concurrent calls

---
 tracker/storage/map/peer.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 30bbe9e..99aae8e 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -10,24 +10,30 @@ import (
 )
 
 func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash storage.Hash, id storage.PeerID) {
-	// get/create the map
+	// get/create the map, the read lock is kept until we're done so that the map can't be removed meanwhile
 	memoryDb.mutex.RLock()
 	peermap, ok := memoryDb.hashmap[hash]
-	memoryDb.mutex.RUnlock()
+	for !ok {
+		memoryDb.mutex.RUnlock()
 
-	// if submap doesn't exist create it
-	if !ok {
+		// if submap (still) doesn't exist create it
 		memoryDb.mutex.Lock()
-		peermap = memoryDb.makePeermap(hash)
+		if _, ok = memoryDb.hashmap[hash]; !ok {
+			memoryDb.makePeermap(hash)
+		}
 		memoryDb.mutex.Unlock()
+
+		memoryDb.mutex.RLock()
+		peermap, ok = memoryDb.hashmap[hash]
 	}
+	defer memoryDb.mutex.RUnlock()
+
+	peermap.mutex.Lock()
+	defer peermap.mutex.Unlock()
 
 	// get peer
-	peermap.mutex.RLock()
 	peer, peerExists := peermap.Peers[id]
-	peermap.mutex.RUnlock()
 
-	peermap.mutex.Lock()
 	// if peer does not exist then create
 	if !peerExists {
 		peer = pools.Peers.Get()
@@ -51,7 +57,6 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 			peermap.Incomplete++
 		}
 	}
-	peermap.mutex.Unlock()
 
 	// update metrics
 	if !fast {
-- 
2.43.0


From fd08670337ff12e9b03e49a2c06a1cf9bcea8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:39 +0000
Subject: [PATCH 05/27] fix: trim no longer removes a swarm that just gained a
 peer

---
 tracker/storage/map/memory.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 71b9f01..be3ccaf 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -106,10 +106,15 @@ func (db *Memory) trim() (peers, hashes int) {
 		peermap.mutex.Unlock()
 
 		if peersize == 0 {
+			// only remove it if no peer was saved into it in the meantime
 			db.mutex.Lock()
-			delete(db.hashmap, hash)
+			peermap.mutex.RLock()
+			if len(peermap.Peers) == 0 && db.hashmap[hash] == peermap {
+				delete(db.hashmap, hash)
+				hashes++
+			}
+			peermap.mutex.RUnlock()
 			db.mutex.Unlock()
-			hashes++
 		}
 		db.mutex.RLock()
 	}
-- 
2.43.0


From d4e45083272ccfe0199bfb6accdc57154f43f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:04 +0000
Subject: [PATCH 06/27] fix: parse only the bytes of the request, not leftovers
 of earlier ones

---
 tracker/http/parser.go | 5 ++++-
 tracker/http/worker.go | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 114600e..783e6a9 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -31,10 +31,13 @@ type (
 // Custom HTTP parser
 // only supports GET request and up to `maxparams` params but uses no heap memory
 func parse(data []byte, size int) (parsed, error) {
+	// the rest of the buffer belongs to earlier requests
+	data = data[:size]
+
 	// uTorrent sometimes encodes scrape req in b64
 	// Example: R0VUIC9zY3JhcGU/aW5mb19oYXNoPS = GET /scrape?info_hash=
 	if bytes.HasPrefix(data, []byte("R0VU")) {
-		decoded, err := base64.StdEncoding.Decode(data, data[:size])
+		decoded, err := base64.StdEncoding.Decode(data, data)
 		if err != nil {
 			return parsed{}, errors.Wrap(err, "failed to decode base64 encoded request")
 		}
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index b6ebf69..a3aaf7d 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -65,7 +65,7 @@ func (w *workers) work() {
 			continue
 		} else if err != nil {
 			// error in parse
-			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", data))
+			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", data[:size]))
 			writeStatus(conn, "500")
 			conn.Close()
 
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data)
+			forwarded, forwardedIP := parseForwarded(data[:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From d3deb9af2d5a0c5c9b0ae11b581ce2b0e7df4642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:30 +0000
Subject: [PATCH 07/27] fix: read HTTP requests to their end before serving
 them

---
 tracker/http/parser.go | 22 +++++++++++++++++++++-
 tracker/http/worker.go | 21 ++++++++++++++++++++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 783e6a9..294df85 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -28,6 +28,26 @@ type (
 	}
 )
 
+var (
+	requestEnd   = []byte("\r\n\r\n")
+	base64Prefix = []byte("R0VU") // "GET"
+)
+
+// requestSize returns the size of the request at the beginning of data and whether all of it is there.
+func requestSize(data []byte) (int, bool) {
+	if bytes.HasPrefix(data, base64Prefix) {
+		decoded := make([]byte, base64.StdEncoding.DecodedLen(len(data)))
+		n, err := base64.StdEncoding.Decode(decoded, data)
+		return len(data), err == nil && bytes.Contains(decoded[:n], requestEnd)
+	}
+
+	end := bytes.Index(data, requestEnd)
+	if end == -1 {
+		return 0, false
+	}
+	return end + len(requestEnd), true
+}
+
 // Custom HTTP parser
 // only supports GET request and up to `maxparams` params but uses no heap memory
 func parse(data []byte, size int) (parsed, error) {
@@ -36,7 +56,7 @@ func parse(data []byte, size int) (parsed, error) {
 
 	// uTorrent sometimes encodes scrape req in b64
 	// Example: R0VUIC9zY3JhcGU/aW5mb19oYXNoPS = GET /scrape?info_hash=
-	if bytes.HasPrefix(data, []byte("R0VU")) {
+	if bytes.HasPrefix(data, base64Prefix) {
 		decoded, err := base64.StdEncoding.Decode(data, data)
 		if err != nil {
 			return parsed{}, errors.Wrap(err, "failed to decode base64 encoded request")
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index a3aaf7d..f322236 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -27,6 +27,25 @@ func (w *workers) startWorkers(num int) {
 	}
 }
 
+// readRequest reads until data holds a complete request or is full and returns the size of the request.
+// TCP may deliver a request in any number of pieces.
+func readRequest(conn net.Conn, data []byte) (int, error) {
+	var total int
+
+	for total < len(data) {
+		n, err := conn.Read(data[total:])
+		total += n
+		if size, ok := requestSize(data[:total]); ok {
+			return size, nil
+		}
+		if err != nil {
+			return 0, err
+		}
+	}
+
+	return total, nil
+}
+
 func (w *workers) work() {
 	expvarHandler := expvar.Handler()
 	statRespWriter := fakeRespWriter{}
@@ -50,7 +69,7 @@ func (w *workers) work() {
 		conn.SetReadDeadline(now.Add(config.Config.HTTP.Timeout.Read))
 		conn.SetWriteDeadline(now.Add(config.Config.HTTP.Timeout.Write))
 
-		size, err := conn.Read(data)
+		size, err := readRequest(conn, data)
 		if err != nil {
 			conn.Close()
 			continue
-- 
2.43.0


From 6c6af64689d6903ab5450acaa6997579feb11f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:42 +0000
Subject: [PATCH 08/27] fix: a request that arrived within the read timeout
 keeps its write timeout

---
 tracker/http/worker.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index f322236..874d303 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -65,9 +65,7 @@ func (w *workers) work() {
 			continue
 		}
 
-		now := time.Now()
-		conn.SetReadDeadline(now.Add(config.Config.HTTP.Timeout.Read))
-		conn.SetWriteDeadline(now.Add(config.Config.HTTP.Timeout.Write))
+		conn.SetReadDeadline(time.Now().Add(config.Config.HTTP.Timeout.Read))
 
 		size, err := readRequest(conn, data)
 		if err != nil {
@@ -76,6 +74,9 @@ func (w *workers) work() {
 		}
 		stats.Hits.Add(1)
 
+		// a request that took long to arrive still gets its full time to be answered
+		conn.SetWriteDeadline(time.Now().Add(config.Config.HTTP.Timeout.Write))
+
 		p, err := parse(data, size)
 		if err == invalidParse || p.Method != "GET" {
 			// invalid request
-- 
2.43.0


From 8ded16732820ca3a3245d24d1dfc35b0ed9f1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 09/27] fix: simultaneous /stats requests no longer write to
 one shared map

---
 tracker/http/fakeresp.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tracker/http/fakeresp.go b/tracker/http/fakeresp.go
index 31f1b19..336e6cc 100644
--- a/tracker/http/fakeresp.go
+++ b/tracker/http/fakeresp.go
@@ -8,20 +8,16 @@ import (
 // Hacky fake http response writer to serve expvar over
 
 var (
-	fakeHdr     http.Header
 	statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
 )
 
-func init() {
-	fakeHdr = make(http.Header)
-}
-
 type fakeRespWriter struct {
 	conn net.Conn
 }
 
 func (w fakeRespWriter) Header() http.Header {
-	return fakeHdr
+	// the handler writes to it, so it can't be shared between workers
+	return make(http.Header)
 }
 
 func (w fakeRespWriter) Write(data []byte) (int, error) {
-- 
2.43.0


From c4ddad5653c7c52504164c0f8371e93ec02b28e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 10/27] fix: answer announces and scrapes whose query is empty
 or ends in &

---
 tracker/http/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 294df85..8866bad 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -116,6 +116,11 @@ func parse(data []byte, size int) (parsed, error) {
 		}
 
 		for i := 0; i <= pIndex; i++ {
+			// nothing follows the "?" or the last "&"
+			if p.Params[i] == nil {
+				continue
+			}
+
 			p.Params[i] = unescapeFast(p.Params[i])
 
 			// nil if escape was invalid
-- 
2.43.0


From 1018f76b011f223ef5e5a29daf2a23d0ee0c7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 11/27] fix: take the forwarded address from the header of that
 name only

---
 tracker/http/forwarded_appeng.go | 9 ++++-----
 tracker/http/worker.go           | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 52e2935..5d67c25 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -8,7 +8,7 @@ import (
 )
 
 func parseForwarded(data []byte) (bool, []byte) {
-	headerKey := []byte("X-Forwarded-For: ")
+	headerKey := []byte("\r\nX-Forwarded-For:")
 
 	// find X-Forwarded-For header value start and end index
 	headerValueStart := bytes.Index(data, headerKey)
@@ -26,10 +26,9 @@ func parseForwarded(data []byte) (bool, []byte) {
 	headerValue := data[headerValueStart:headerValueEnd]
 
 	// if list contains multiple addresses use rightmost (most recent)
-	if bytes.Contains(headerValue, []byte(",")) {
-		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 2
-		return true, headerValue[lastItemIndex:]
+	if lastItemIndex := bytes.LastIndex(headerValue, []byte(",")); lastItemIndex != -1 {
+		headerValue = headerValue[lastItemIndex+1:]
 	}
 
-	return true, headerValue
+	return true, bytes.TrimSpace(headerValue)
 }
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 874d303..0c8faed 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -136,7 +136,8 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data[:size])
+			// the URL is chosen by the client and doesn't hold headers
+			forwarded, forwardedIP := parseForwarded(data[p.URLend:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From be723cffbd560c8e1089c6240a1af225056e0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:37 +0000
Subject: [PATCH 12/27] fix: answer UDP requests of every action that isn't one
 with an error

---
 tracker/udp/udptracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 8952acc..ff1efdc 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -131,7 +131,7 @@ func (u *UDPTracker) WriteConns() error {
 func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	stats.Hits.Add(1)
 
-	action := protocol.Action(data[11])
+	action := protocol.Action(binary.BigEndian.Uint32(data[8:12]))
 	txid := int32(binary.BigEndian.Uint32(data[12:16]))
 
 	addr, ok := netip.AddrFromSlice(remote.IP)
@@ -141,8 +141,8 @@ func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	addr = addr.Unmap() // use ipv4 instead of ipv6 mapped ipv4
 	addrPort := netip.AddrPortFrom(addr, uint16(remote.Port))
 
-	if action > protocol.ActionHeartbeat {
-		msg := u.newClientError("bad action", txid, cerrFields{"action": data[11], "addrPort": addrPort})
+	if action < protocol.ActionConnect || action == protocol.ActionError || action > protocol.ActionHeartbeat {
+		msg := u.newClientError("bad action", txid, cerrFields{"action": action, "addrPort": addrPort})
 		u.sock.WriteToUDP(msg, remote)
 		return
 	}
-- 
2.43.0


From 10b0ea24acf40a0fb8dd5929cb3a944b827db98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 13/27] fix: count the peers of a swarm and write them under
 one lock

---
 tracker/storage/map/encode_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 0f59e49..67fa53a 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -24,12 +24,12 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 		if err := binary.Write(writer, binary.LittleEndian, &hash); err != nil {
 			return nil, err
 		}
+		submap.mutex.RLock()
 		if err := binary.Write(writer, binary.LittleEndian, uint32(len(submap.Peers))); err != nil {
 			return nil, err
 		}
 
 		// write peerid and peer
-		submap.mutex.RLock()
 		for id, peer := range submap.Peers {
 			if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
 				return nil, err
-- 
2.43.0


From d6a0237885675128578b9c473f13562775f46d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:10 +0000
Subject: [PATCH 14/27] fix: replace backup, connection and configuration files
 atomically and durably

---
 config/embed.go                    |  3 +-
 tracker/storage/map/backup_file.go | 10 ++++--
 tracker/udp/conndb.go              |  3 +-
 tracker/utils/writefile.go         | 52 ++++++++++++++++++++++++++++++
 4 files changed, 64 insertions(+), 4 deletions(-)
 create mode 100644 tracker/utils/writefile.go

diff --git a/config/embed.go b/config/embed.go
index 6ba9f92..140cae7 100644
--- a/config/embed.go
+++ b/config/embed.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"strings"
 
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -19,7 +20,7 @@ func generateConfig() {
 			Logger.Error("failed to read embedded config", zap.Error(err))
 			return
 		}
-		err = os.WriteFile(configPath+"trakx.yaml", configData, FilePerm)
+		err = utils.WriteFile(configPath+"trakx.yaml", configData, FilePerm)
 		if err != nil {
 			Logger.Error("failed to write config file", zap.Error(err))
 		}
diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index 727c5ae..480f086 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -2,17 +2,20 @@ package gomap
 
 import (
 	"os"
+	"sync"
 	"time"
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
 
 // FileBackup backs up the peer database to a local file.
 type FileBackup struct {
-	db *Memory
+	db    *Memory
+	mutex sync.Mutex // held while saving so that the newest save is the last one written
 }
 
 func (bck *FileBackup) Init(db storage.Database) error {
@@ -72,7 +75,7 @@ func (bck *FileBackup) writeFile() (int, error) {
 		return 0, errors.Wrap(err, "failed to encode db")
 	}
 
-	if err := os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
+	if err := utils.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
 		return 0, errors.Wrap(err, "failed to write file to disk")
 	}
 
@@ -84,6 +87,9 @@ func (bck *FileBackup) Save() error {
 	config.Logger.Info("Writing database to file")
 	start := time.Now()
 
+	bck.mutex.Lock()
+	defer bck.mutex.Unlock()
+
 	size, err := bck.writeFile()
 	if err != nil {
 		return errors.Wrap(err, "failed to save database")
diff --git a/tracker/udp/conndb.go b/tracker/udp/conndb.go
index bc1bfdd..79b359f 100644
--- a/tracker/udp/conndb.go
+++ b/tracker/udp/conndb.go
@@ -11,6 +11,7 @@ import (
 	"time"
 
 	"github.com/crimist/trakx/config"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -92,7 +93,7 @@ func (connDb *connectionDatabase) writeToFile(path string) error {
 		return errors.Wrap(err, "failed to marshall connection database")
 	}
 
-	if err := os.WriteFile(path, encoded, 0644); err != nil {
+	if err := utils.WriteFile(path, encoded, 0644); err != nil {
 		return errors.Wrap(err, "failed to write file")
 	}
 
diff --git a/tracker/utils/writefile.go b/tracker/utils/writefile.go
new file mode 100644
index 0000000..515477b
--- /dev/null
+++ b/tracker/utils/writefile.go
@@ -0,0 +1,52 @@
+package utils
+
+import (
+	"os"
+	"path/filepath"
+	"runtime"
+)
+
+// WriteFile durably replaces the contents of the file at path. Whatever fails and whenever the process or machine
+// crashes, the file holds either its previous contents or all of data.
+//
+// Concurrent calls for the same path have to be serialized by the caller.
+func WriteFile(path string, data []byte, perm os.FileMode) error {
+	temp := path + ".tmp"
+
+	if err := writeSync(temp, data, perm); err != nil {
+		os.Remove(temp)
+		return err
+	}
+	if err := os.Rename(temp, path); err != nil {
+		os.Remove(temp)
+		return err
+	}
+
+	// directories can't be synced on windows
+	if runtime.GOOS == "windows" {
+		return nil
+	}
+
+	dir, err := os.Open(filepath.Dir(path))
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
+}
+
+func writeSync(path string, data []byte, perm os.FileMode) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+	if _, err := file.Write(data); err != nil {
+		file.Close()
+		return err
+	}
+	if err := file.Sync(); err != nil {
+		file.Close()
+		return err
+	}
+	return file.Close()
+}
-- 
2.43.0


From 2152a23ef655e487347501536c088142fbd792c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 15/27] fix: the default numwant doesn't exceed the limit
 either

---
 tracker/http/announce.go | 12 +++++-------
 tracker/udp/announce.go  |  3 ++-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/tracker/http/announce.go b/tracker/http/announce.go
index 54cc543..aa634eb 100644
--- a/tracker/http/announce.go
+++ b/tracker/http/announce.go
@@ -67,14 +67,12 @@ func (t *HTTPTracker) announce(conn net.Conn, vals *announceParams, ip netip.Add
 			t.clientError(conn, "Invalid numwant")
 			return
 		}
-		numwantUint := uint(numwantInt)
+		numwant = uint(numwantInt)
+	}
 
-		// if numwant is within our limit than listen to the client
-		if numwantUint <= config.Config.Numwant.Limit {
-			numwant = numwantUint
-		} else {
-			numwant = config.Config.Numwant.Limit
-		}
+	// only listen to the client (or the default) if it's within our limit
+	if numwant > config.Config.Numwant.Limit {
+		numwant = config.Config.Numwant.Limit
 	}
 
 	peerComplete := false
diff --git a/tracker/udp/announce.go b/tracker/udp/announce.go
index 73febd7..27ecf7f 100644
--- a/tracker/udp/announce.go
+++ b/tracker/udp/announce.go
@@ -22,7 +22,8 @@ func (u *UDPTracker) announce(announce *protocol.Announce, remote *net.UDPAddr,
 
 	if announce.NumWant < 1 {
 		announce.NumWant = int32(config.Config.Numwant.Default)
-	} else if announce.NumWant > int32(config.Config.Numwant.Limit) {
+	}
+	if announce.NumWant > int32(config.Config.Numwant.Limit) {
 		announce.NumWant = int32(config.Config.Numwant.Limit)
 	}
 
-- 
2.43.0


From 949e3d0de2d245284175ad5bd4e7a2c91c87f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:31 +0000
Subject: [PATCH 16/27] fix: swarm and address counters don't wrap at 16 bits

---
 tracker/stats/stats.go               | 2 +-
 tracker/stats/stats_slow.go          | 2 +-
 tracker/storage/database.go          | 2 +-
 tracker/storage/map/encode_binary.go | 4 ++--
 tracker/storage/map/hash.go          | 2 +-
 tracker/storage/map/memory.go        | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tracker/stats/stats.go b/tracker/stats/stats.go
index 10c5da7..5b6fe08 100644
--- a/tracker/stats/stats.go
+++ b/tracker/stats/stats.go
@@ -8,7 +8,7 @@ import (
 
 type ipStats struct {
 	sync.Mutex
-	submap map[netip.Addr]int16
+	submap map[netip.Addr]int32
 }
 
 var (
diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 485b559..50f47df 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -12,7 +12,7 @@ const (
 )
 
 func init() {
-	IPStats.submap = make(map[netip.Addr]int16, 250_000)
+	IPStats.submap = make(map[netip.Addr]int32, 250_000)
 }
 
 func (ipstats *ipStats) Total() int {
diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index 4a4ffa2..b0d7819 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -48,7 +48,7 @@ type Database interface {
 	Save(netip.Addr, uint16, bool, Hash, PeerID)
 	Drop(Hash, PeerID)
 
-	HashStats(Hash) (uint16, uint16)
+	HashStats(Hash) (uint32, uint32)
 	PeerList(Hash, uint, bool) [][]byte
 	PeerListBytes(Hash, uint) ([]byte, []byte)
 
diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 67fa53a..678d218 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -81,7 +81,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 		}
 
 		var count uint32
-		var complete uint16
+		var complete uint32
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -128,7 +128,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		// set complete and incomplete
 		peermap.Complete = complete
-		peermap.Incomplete = uint16(len(peermap.Peers)) - complete
+		peermap.Incomplete = uint32(len(peermap.Peers)) - complete
 
 		hashes++
 	}
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index f15c499..3f63adb 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -14,7 +14,7 @@ func (db *Memory) Hashes() int {
 }
 
 // HashStats returns number of complete and incomplete peers associated with the hash
-func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint16) {
+func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint32) {
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index be3ccaf..9cb9d0e 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -22,8 +22,8 @@ const (
 
 type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
-	Complete   uint16
-	Incomplete uint16
+	Complete   uint32
+	Incomplete uint32
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
-- 
2.43.0


From dfe1a82dd1044a21edf6dbb422f2bb3584c36039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 17/27] fix: set the counters of the restored peers before trim
 can change them

---
 tracker/storage/database.go   | 4 ----
 tracker/storage/map/expvar.go | 2 +-
 tracker/storage/map/memory.go | 5 +++++
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index b0d7819..0048a1c 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -28,10 +28,6 @@ func Open() (Database, error) {
 		return nil, errors.Wrap(err, "failed to init storage driver")
 	}
 
-	if err := driver.db.SyncExpvars(); err != nil {
-		return nil, errors.Wrap(err, "failed to sync expvars on storage driver")
-	}
-
 	return driver.db, nil
 }
 
diff --git a/tracker/storage/map/expvar.go b/tracker/storage/map/expvar.go
index c8cb9fa..0391965 100644
--- a/tracker/storage/map/expvar.go
+++ b/tracker/storage/map/expvar.go
@@ -12,7 +12,7 @@ func (db *Memory) SyncExpvars() error {
 
 	var seeds, leeches int64
 
-	// Called on main thread before thread/queue dispatch no locking needed
+	// Called by Init on main thread before thread/queue dispatch no locking needed
 	for _, peermap := range db.hashmap {
 		for _, peer := range peermap.Peers {
 			stats.IPStats.Inc(peer.IP)
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 9cb9d0e..8e75a12 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -46,6 +46,11 @@ func (db *Memory) Init(backup storage.Backup) error {
 		return errors.Wrap(err, "failed to load backup")
 	}
 
+	// the counters must be set before the trim below can change them
+	if err := db.SyncExpvars(); err != nil {
+		return errors.Wrap(err, "failed to sync expvars")
+	}
+
 	if config.Config.DB.Backup.Frequency > 0 {
 		go utils.RunOn(config.Config.DB.Backup.Frequency, func() {
 			if err := db.backup.Save(); err != nil {
-- 
2.43.0


From ec29d9396223e142ba3409969e2001220c83507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 18/27] fix: published statistics neither miss requests nor
 contradict each other

---
 tracker/stats/publish.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index bbac1bb..ee5c57f 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -47,16 +47,19 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 	uptime := expvar.NewInt("trakx.internal.uptime")
 
 	utils.RunOn(config.Config.ExpvarInterval, func() {
-		// set expvars
-		hits.Set(Hits.Load())
-		connects.Set(Connects.Load())
-		announces.Set(Announces.Load())
-		scrapes.Set(Scrapes.Load())
+		// set expvars, resetting the requests / s stats as they're read so that no request is missed
+		hits.Set(Hits.Swap(0))
+		connects.Set(Connects.Swap(0))
+		announces.Set(Announces.Swap(0))
+		scrapes.Set(Scrapes.Swap(0))
 
-		seeds.Set(Seeds.Load())
-		leeches.Set(Leeches.Load())
-		peers.Set(Seeds.Load() + Leeches.Load())
+		numSeeds, numLeeches := Seeds.Load(), Leeches.Load()
+		seeds.Set(numSeeds)
+		leeches.Set(numLeeches)
+		peers.Set(numSeeds + numLeeches)
+		IPStats.Lock()
 		ips.Set(int64(IPStats.Total()))
+		IPStats.Unlock()
 		hashes.Set(int64(peerdb.Hashes()))
 		udpConnections.Set(udpconns())
 
@@ -70,11 +73,5 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 
 		goroutines.Set(int64(runtime.NumGoroutine()))
 		uptime.Set(int64(time.Since(initTime) / time.Second))
-
-		// reset requests / s stats
-		Hits.Store(0)
-		Connects.Store(0)
-		Announces.Store(0)
-		Scrapes.Store(0)
 	})
 }
-- 
2.43.0


From df53fadf59ddbcb249e35bf6c26925827ec2b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 19/27] fix: periodic jobs keep running on their ticks when the
 clock is set

---
 tracker/utils/runon.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracker/utils/runon.go b/tracker/utils/runon.go
index 8eec020..b774e74 100644
--- a/tracker/utils/runon.go
+++ b/tracker/utils/runon.go
@@ -10,10 +10,12 @@ import (
 // RunOn will run the given function at the exact tick of the duration.
 // For example, RunOn(1*time.Minute, f) would execute f on the minute, every minute.
 func RunOn(duration time.Duration, run func()) {
-	nextTick := time.Now().Truncate(duration)
 	for {
-		nextTick = nextTick.Add(duration)
-		time.Sleep(time.Until(nextTick))
+		// the clock may be set at any time, so the tick to wait for is always the next one of the current time
+		nextTick := time.Now().Truncate(duration).Add(duration)
+		for wait := time.Until(nextTick); wait > 0 && wait <= duration; wait = time.Until(nextTick) {
+			time.Sleep(wait)
+		}
 		run()
 	}
 }
-- 
2.43.0


From 8c88f35746a4356f83538a49061d20f2d92431cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 20/27] fix: stop and status commands come back when the
 tracker hangs

---
 controller/controller.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 8826d65..d80991c 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -18,6 +18,7 @@ import (
 
 const (
 	logFilePermissions = 0644
+	heartbeatTimeout   = 5 * time.Second
 )
 
 type Controller struct {
@@ -83,13 +84,12 @@ func (controller *Controller) Stop() error {
 	}
 
 	fmt.Print("waiting for process to exit")
-	i := 0
-	for ; err == nil || i == 100; err = syscall.Kill(processid, syscall.Signal(0)) {
+	for i := 0; err == nil && i < 100; i++ {
 		time.Sleep(100 * time.Millisecond)
 		fmt.Print(".")
-		i++
+		err = syscall.Kill(processid, syscall.Signal(0))
 	}
-	if i == 100 {
+	if err == nil {
 		return errors.New(" trakx failed to stop within 10s")
 	}
 	if err.Error() != "no such process" {
@@ -123,6 +123,8 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	if config.Config.UDP.Enabled {
 		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
 		if err == nil {
+			defer conn.Close()
+			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
 			conn.Write(udpprotocol.HeartbeatRequest)
 			data := make([]byte, 1)
 			size, err := conn.Read(data)
@@ -135,9 +137,13 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 		}
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
-		resp, err := http.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
-		if err == nil && resp.StatusCode == 200 {
-			heartbeat = true
+		client := http.Client{Timeout: heartbeatTimeout}
+		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		if err == nil {
+			resp.Body.Close()
+			if resp.StatusCode == 200 {
+				heartbeat = true
+			}
 		}
 	}
 
-- 
2.43.0


From d7b5a517423efe33d4dd8cda66a4491df4d8a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 21/27] fix: start doesn't leave a tracker running whose
 process id it failed to record

---
 controller/controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller/controller.go b/controller/controller.go
index d80991c..75197ce 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -61,6 +61,8 @@ func (controller *Controller) Start() error {
 	}
 
 	if err := controller.processIDFile.Write(cmd.Process.Pid); err != nil {
+		// without the record no other command could find it
+		cmd.Process.Kill()
 		return errors.Wrap(err, "failed to write process id to file")
 	}
 
-- 
2.43.0


From 3c822445b15bd783e29315d34b919c9039b3e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:03 +0000
Subject: [PATCH 22/27] fix: postgres backups of empty databases don't crash,
 don't leak connections and stay in order

---
 tracker/storage/map/backup_pg.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index b79efab..d659c3c 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/crimist/trakx/config"
@@ -31,8 +32,9 @@ const (
 
 // PgBackup backs up the peer database to a postgres sql database.
 type PgBackup struct {
-	pg *sql.DB
-	db *Memory
+	mutex sync.Mutex
+	pg    *sql.DB
+	db    *Memory
 }
 
 func (bck *PgBackup) Init(db storage.Database) error {
@@ -61,7 +63,11 @@ func (bck *PgBackup) Init(db storage.Database) error {
 	return nil
 }
 
-func (bck PgBackup) Save() error {
+func (bck *PgBackup) Save() error {
+	// a save which started later must not be overwritten by an older image
+	bck.mutex.Lock()
+	defer bck.mutex.Unlock()
+
 	config.Logger.Info("Saving database to pg")
 	var data []byte
 	var err error
@@ -75,17 +81,17 @@ func (bck PgBackup) Save() error {
 	config.Logger.Info("Encoded database", zap.Duration("duration", time.Since(start)))
 	start = time.Now()
 
-	_, err = bck.pg.Query("INSERT INTO trakx(bytes) VALUES($1)", data)
+	_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)
 	if err != nil {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
 
-	config.Logger.Info("Saved database to pg", zap.Any("hash", data[:20]), zap.Duration("pg duration", time.Since(start)))
+	config.Logger.Info("Saved database to pg", zap.Any("hash", head(data)), zap.Duration("pg duration", time.Since(start)))
 
 	return nil
 }
 
-func (bck PgBackup) Load() error {
+func (bck *PgBackup) Load() error {
 	firstTry := true
 	var bytes []byte
 	var ts time.Time
@@ -123,12 +129,20 @@ attemptLoad:
 		return errors.Wrap(err, "failed to decode data")
 	}
 
-	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", bytes[:20]), zap.Int("peers", peers), zap.Int("hashes", hashes))
+	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", head(bytes)), zap.Int("peers", peers), zap.Int("hashes", hashes))
 
 	return nil
 }
 
-func (bck PgBackup) trim() (int64, error) {
+// head returns the first bytes of a backup, that of an empty database is empty
+func head(data []byte) []byte {
+	if len(data) > 20 {
+		return data[:20]
+	}
+	return data
+}
+
+func (bck *PgBackup) trim() (int64, error) {
 	var trimmed int64
 
 	if len(maxDate) != 0 {
-- 
2.43.0


From ad2b0b1a93b552f93e453975ff059652dc1ba899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 23/27] fix: exit signals aren't lost and don't wait for
 trackers that don't serve

---
 tracker/http/httptracker.go |  2 +-
 tracker/signalhandler.go    | 13 ++++++++++---
 tracker/udp/udptracker.go   |  9 +++++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index 84f3014..ded22b7 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -22,7 +22,7 @@ type HTTPTracker struct {
 // Init sets up the HTTPTracker.
 func (t *HTTPTracker) Init(peerdb storage.Database) {
 	t.peerdb = peerdb
-	t.shutdown = make(chan struct{})
+	t.shutdown = make(chan struct{}, 1) // a shutdown never waits for Serve
 }
 
 // Serve begins listening and serving clients.
diff --git a/tracker/signalhandler.go b/tracker/signalhandler.go
index 804f98f..d024d78 100644
--- a/tracker/signalhandler.go
+++ b/tracker/signalhandler.go
@@ -19,11 +19,18 @@ var SigStop = os.Interrupt
 const exitSuccess = 0
 
 func signalHandler(peerdb storage.Database, udptracker *udp.UDPTracker, httptracker *http.HTTPTracker) {
-	signalChannel := make(chan os.Signal, 1)
-	signal.Notify(signalChannel, os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1)
+	// separate channels so that save signals never crowd out an exit signal
+	exitChannel := make(chan os.Signal, 1)
+	saveChannel := make(chan os.Signal, 1)
+	signal.Notify(exitChannel, os.Interrupt, syscall.SIGTERM)
+	signal.Notify(saveChannel, syscall.SIGUSR1)
 
 	for {
-		sig := <-signalChannel
+		var sig os.Signal
+		select {
+		case sig = <-exitChannel:
+		case sig = <-saveChannel:
+		}
 
 		switch sig {
 		case os.Interrupt, syscall.SIGTERM: // Exit
diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index ff1efdc..910c0db 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -33,14 +33,15 @@ type UDPTracker struct {
 
 // Init sets up the UDPTracker.
 func (u *UDPTracker) Init(peerdb storage.Database) {
-	u.conndb = newConnectionDatabase(config.Config.UDP.ConnDB.Expiry)
 	u.peerdb = peerdb
-	u.shutdown = make(chan struct{})
+	u.shutdown = make(chan struct{}, 1) // a shutdown never waits for Serve
 
-	if err := u.conndb.loadFromFile(config.CachePath + "conn.db"); err != nil {
+	conndb := newConnectionDatabase(config.Config.UDP.ConnDB.Expiry)
+	if err := conndb.loadFromFile(config.CachePath + "conn.db"); err != nil {
 		config.Logger.Warn("Failed to load connection database, creating empty db", zap.Error(err))
-		u.conndb.make()
+		conndb.make()
 	}
+	u.conndb = conndb // only once loaded, saving it earlier would overwrite the file
 
 	go utils.RunOn(config.Config.UDP.ConnDB.Trim, u.conndb.trim)
 }
-- 
2.43.0


From dda23d7ad0d75b436e317de3ff954f39dfc4ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 24/27] fix: UDP scrape responses hold seeders, completed and
 leechers in this order

---
 tracker/udp/protocol/scrape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 522486c..b7e5bf2 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -37,11 +37,11 @@ func (s *Scrape) Unmarshall(data []byte) error {
 	return nil
 }
 
-// ScrapeInfo holds the information for each infohash in the scrape response
+// ScrapeInfo holds the information for each infohash in the scrape response, in the order it's sent
 type ScrapeInfo struct {
 	Complete   int32
-	Incomplete int32
 	Downloaded int32
+	Incomplete int32
 }
 
 // BitTorrent UDP tracker scrape response
-- 
2.43.0


From 8474980742f8dd9cc55a5fa9302e7fe5fa06805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 25/27] fix: the HTTP tracker binds to IPv6 addresses

---
 config/config.go            | 6 ++++++
 tracker/http/httptracker.go | 3 +--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 14a1b45..54803c0 100644
--- a/config/config.go
+++ b/config/config.go
@@ -1,6 +1,7 @@
 package config
 
 import (
+	"net"
 	"os"
 	"strconv"
 	"strings"
@@ -69,6 +70,11 @@ type Configuration struct {
 // Loaded returns true if the config was successfully parsed and loaded.
 func (config *Configuration) Loaded() bool { return config.loaded }
 
+// HTTPAddr returns the address the HTTP server listens at.
+func (config *Configuration) HTTPAddr() string {
+	return net.JoinHostPort(strings.Trim(config.HTTP.IP, "[]"), strconv.Itoa(config.HTTP.Port))
+}
+
 // SetLogLevel sets the desired loglevel in the in memory configuration and logger
 func (conf *Configuration) SetLogLevel(level LogLevel) {
 	conf.LogLevel = level
diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index ded22b7..70197a3 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -1,7 +1,6 @@
 package http
 
 import (
-	"fmt"
 	"net"
 
 	"github.com/crimist/trakx/config"
@@ -27,7 +26,7 @@ func (t *HTTPTracker) Init(peerdb storage.Database) {
 
 // Serve begins listening and serving clients.
 func (t *HTTPTracker) Serve() error {
-	ln, err := net.Listen("tcp", fmt.Sprintf("%v:%v", config.Config.HTTP.IP, config.Config.HTTP.Port))
+	ln, err := net.Listen("tcp", config.Config.HTTPAddr())
 	if err != nil {
 		return errors.Wrap(err, "Failed to open TCP listen socket")
 	}
-- 
2.43.0


From ca187ea7824a877367cd0a8000c961a3f13746bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 26/27] fix: the HTTP info server binds to the configured
 address

---
 tracker/tracker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index d937c63..45efd07 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -2,7 +2,6 @@ package tracker
 
 import (
 	"expvar"
-	"fmt"
 	"math/rand"
 	gohttp "net/http"
 	"time"
@@ -103,7 +102,7 @@ func Run() {
 		}
 
 		server := gohttp.Server{
-			Addr:         fmt.Sprintf(":%d", config.Config.HTTP.Port),
+			Addr:         config.Config.HTTPAddr(),
 			Handler:      mux,
 			ReadTimeout:  5 * time.Second,
 			WriteTimeout: 7 * time.Second,
-- 
2.43.0


From 548625ab8095cba0434c7cff6bda9848899cd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:42 +0000
Subject: [PATCH 27/27] fix: heartbeats reach trackers bound to one address

---
 controller/controller.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 75197ce..85d30d6 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -7,6 +7,8 @@ import (
 	"net/http"
 	"os"
 	"os/exec"
+	"strconv"
+	"strings"
 	"syscall"
 	"time"
 
@@ -107,6 +109,15 @@ func (controller *Controller) Clear() error {
 	return errors.Wrap(controller.processIDFile.Clear(), "failed to clear trakx process id file")
 }
 
+// localAddress returns the address at which a server bound to ip is reached from this host.
+func localAddress(ip string, port int) string {
+	host := "localhost"
+	if addr := net.ParseIP(strings.Trim(ip, "[]")); addr != nil && !addr.IsUnspecified() {
+		host = addr.String()
+	}
+	return net.JoinHostPort(host, strconv.Itoa(port))
+}
+
 // Status returns the status of trakx by checking the following:
 // process id file exists, process id file has pid, proces is alive, heartbeat to trakx
 func (controller *Controller) Status() (pidFileExists bool, processAlive bool, heartbeat bool) {
@@ -123,7 +134,7 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 
 	// heartbeat checks
 	if config.Config.UDP.Enabled {
-		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
+		conn, err := net.Dial("udp", localAddress(config.Config.UDP.IP, config.Config.UDP.Port))
 		if err == nil {
 			defer conn.Close()
 			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
@@ -140,7 +151,7 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
 		client := http.Client{Timeout: heartbeatTimeout}
-		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		resp, err := client.Get("http://" + localAddress(config.Config.HTTP.IP, config.Config.HTTP.Port) + "/heartbeat")
 		if err == nil {
 			resp.Body.Close()
 			if resp.StatusCode == 200 {
-- 
2.43.0

