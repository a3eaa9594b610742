From 49c39e23204585d7d40038180de59cc276940b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 01/38] fix: decode continued set requests into the request
 message

The payload was decoded into the response, so every set after the first
request of a stream wrote an empty key and value.
---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 6ab956a..4a2712e 100644
--- a/server/common.go
+++ b/server/common.go
@@ -43,7 +43,7 @@ func handleTxnContinuedFrame(
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-			err = setResp.Unmarshal(nextFrame.Payload)
+			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
 				close = true
 				setResp.Code = CodeInvalidRequest
-- 
2.43.0


From 6bab19277aa13df6ae0c83d8abdc0909038d604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 02/38] fix: decode every frame of a stream into fresh messages

The messages were shared by all frames of a stream. Decoding reuses the
buffers of the previous message, which the transaction still refers to
until it commits, and replies carried values and entries of earlier ones.
---
 server/common.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/server/common.go b/server/common.go
index 4a2712e..8f8d5e7 100644
--- a/server/common.go
+++ b/server/common.go
@@ -15,22 +15,24 @@ func handleTxnContinuedFrame(
 	writer qrpc.FrameWriter,
 	frame *qrpc.RequestFrame,
 	txn mondis.ProviderTxn) {
-	var (
-		getReq     pb.GetRequest
-		getResp    pb.GetResponse
-		deleteReq  pb.DeleteRequest
-		deleteResp pb.DeleteResponse
-		setReq     pb.SetRequest
-		setResp    pb.SetResponse
-		existsReq  pb.ExistsRequest
-		existsResp pb.ExistsResponse
-		scanReq    pb.ScanRequest
-		scanResp   pb.ScanResponse
-		commitResp pb.CommitResponse
-		err        error
-		close      bool
-	)
 	for {
+		// a frame must not see anything of earlier frames, and the store may keep
+		// the keys and values it was given until the transaction ends
+		var (
+			getReq     pb.GetRequest
+			getResp    pb.GetResponse
+			deleteReq  pb.DeleteRequest
+			deleteResp pb.DeleteResponse
+			setReq     pb.SetRequest
+			setResp    pb.SetResponse
+			existsReq  pb.ExistsRequest
+			existsResp pb.ExistsResponse
+			scanReq    pb.ScanRequest
+			scanResp   pb.ScanResponse
+			commitResp pb.CommitResponse
+			err        error
+			close      bool
+		)
 		nextFrame := <-frame.FrameCh()
 		if nextFrame == nil {
 			txn.Discard()
-- 
2.43.0


From a59d9d1262431acb8b9ed1ad40bd97f313bedb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 03/38] fix: scan request without options crashed the server

The scan options are an optional part of the message; treat them as unset
when they are absent.
---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 8f8d5e7..4b7a370 100644
--- a/server/common.go
+++ b/server/common.go
@@ -286,7 +286,7 @@ func copyBytes(in []byte) (out []byte) {
 
 func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResponse) {
 	pso := req.ProviderScanOption
-	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
+	option := mondis.ProviderScanOption{Reverse: pso.GetReverse(), Prefix: pso.GetPrefix(), Offset: pso.GetOffset()}
 	limit := int(req.Limit)
 	if limit == 0 {
 		goto DONE
-- 
2.43.0


From 30c61236996d21bc89d9e894d2318e0a3b1e5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 04/38] fix: scan with a negative limit returned an entry

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 4b7a370..fc80b52 100644
--- a/server/common.go
+++ b/server/common.go
@@ -288,7 +288,7 @@ func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResp
 	pso := req.ProviderScanOption
 	option := mondis.ProviderScanOption{Reverse: pso.GetReverse(), Prefix: pso.GetPrefix(), Offset: pso.GetOffset()}
 	limit := int(req.Limit)
-	if limit == 0 {
+	if limit <= 0 {
 		goto DONE
 	}
 	if limit > mondis.MaxEntry {
-- 
2.43.0


From bc66fb4e9ee3ed9a9cc51b48d66d876643b4873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 05/38] fix: unknown command in a stream was never answered

The client of such a request waited forever; close the connection as for
other requests that cannot be decoded.
---
 server/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/common.go b/server/common.go
index fc80b52..11605b4 100644
--- a/server/common.go
+++ b/server/common.go
@@ -175,6 +175,10 @@ func handleTxnContinuedFrame(
 				logger.Instance().Error("DiscardCmd writeStreamRespBytes", zap.Error(err))
 			}
 			return
+		default:
+			logger.Instance().Error("unknown cmd in stream", zap.Uint32("cmd", uint32(nextFrame.Cmd)))
+			frame.Close()
+			return
 		}
 	}
 }
-- 
2.43.0


From 2b9edce4fb00086ffc0823fd69ef6f01a677c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 06/38] fix: client transaction crashed when its stream ended

---
 client/client_txn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 8dce8a9..3e3e880 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -52,6 +52,10 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
+		if respFrame == nil {
+			// stream or connection ended
+			err = qrpc.ErrConnAlreadyClosed
+		}
 		return
 	}
 
-- 
2.43.0


From 9030842536696085b8da1ef5406177abe8293786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 07/38] fix: client crashed on replies without metadata

---
 client/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 2b9545b..077d89e 100644
--- a/client/client.go
+++ b/client/client.go
@@ -154,8 +154,8 @@ func parseGetRespFromFrame(respFrame *qrpc.Frame) (v []byte, meta mondis.VMetaRe
 	}
 
 	v = getResp.Value
-	meta.ExpiresAt = getResp.Meta.ExpiresAt
-	meta.Tag = byte(getResp.Meta.Tag)
+	meta.ExpiresAt = getResp.Meta.GetExpiresAt()
+	meta.Tag = byte(getResp.Meta.GetTag())
 
 	return
 }
@@ -253,7 +253,7 @@ func parseScanRespFromFrame(respFrame *qrpc.Frame) (entries []mondis.Entry, err
 
 	entries = make([]mondis.Entry, len(scanResp.Entries))
 	for i, entry := range scanResp.Entries {
-		meta := mondis.VMetaResp{ExpiresAt: entry.Meta.ExpiresAt, Tag: byte(entry.Meta.Tag)}
+		meta := mondis.VMetaResp{ExpiresAt: entry.Meta.GetExpiresAt(), Tag: byte(entry.Meta.GetTag())}
 		entries[i] = mondis.Entry{Key: entry.Key, Value: entry.Value, Meta: meta}
 		entry.Key = nil
 		entry.Value = nil
-- 
2.43.0


From ea3e861999017037018e6752bc78d1b18033c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 08/38] fix: client delete did not report ErrTxnTooBig

---
 client/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 077d89e..6b0ae13 100644
--- a/client/client.go
+++ b/client/client.go
@@ -193,7 +193,11 @@ func parseDeleteRespFromFrame(respFrame *qrpc.Frame) (err error) {
 	}
 
 	if deleteResp.Code != 0 {
-		err = newPBError(deleteResp.Code, deleteResp.Msg)
+		if deleteResp.Code == server.CodeTxnTooBig {
+			err = kv.ErrTxnTooBig
+		} else {
+			err = newPBError(deleteResp.Code, deleteResp.Msg)
+		}
 		return
 	}
 
-- 
2.43.0


From a71debdc60811eaf74ef27d08829e2120002be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 09/38] fix: over-large set and delete outside transactions
 lost their error

---
 provider/badger.go |  2 +-
 server/common.go   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 58863e2..ba39d47 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -74,7 +74,7 @@ func (b *Badger) Get(k []byte) (v []byte, meta mondis.VMetaResp, err error) {
 
 // Delete k
 func (b *Badger) Delete(key []byte) (err error) {
-	txn := b.db.NewTransaction(true)
+	txn := (*Txn)(b.db.NewTransaction(true))
 	defer txn.Discard()
 
 	err = txn.Delete(key)
diff --git a/server/common.go b/server/common.go
index 11605b4..e2e9e7b 100644
--- a/server/common.go
+++ b/server/common.go
@@ -208,7 +208,11 @@ func handleSet(kvdb mondis.KVDB, req *pb.SetRequest, resp *pb.SetResponse) {
 	err := kvdb.Set(req.Key, req.Value, meta)
 	if err != nil {
 
-		resp.Code = CodeInternalError
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+		} else {
+			resp.Code = CodeInternalError
+		}
 		resp.Msg = err.Error()
 
 		return
@@ -256,7 +260,11 @@ func handleGet(kvop mondis.ProviderKVOP, req *pb.GetRequest, resp *pb.GetRespons
 func handleDelete(kvdb mondis.KVDB, req *pb.DeleteRequest, resp *pb.DeleteResponse) {
 	err := kvdb.Delete(req.Key)
 	if err != nil {
-		resp.Code = CodeInternalError
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+		} else {
+			resp.Code = CodeInternalError
+		}
 		resp.Msg = err.Error()
 		return
 	}
-- 
2.43.0


From 898358288116b77f41bb226a369e5514f7575378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 10/38] fix: leveldb scan leaked its iterator and dropped its
 error

---
 provider/leveldb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/provider/leveldb.go b/provider/leveldb.go
index 4edd664..da2dd31 100644
--- a/provider/leveldb.go
+++ b/provider/leveldb.go
@@ -97,6 +97,12 @@ func (l *LevelDB) Scan(option mondis.ProviderScanOption, fn func(key []byte, val
 		slice = util.BytesPrefix(option.Prefix)
 	}
 	iter := l.db.NewIterator(slice, nil)
+	defer func() {
+		if iterErr := iter.Error(); err == nil {
+			err = iterErr
+		}
+		iter.Release()
+	}()
 	if option.Offset != nil {
 		if !iter.Seek(option.Offset) {
 			return
-- 
2.43.0


From 50fc3ebf339a06fba04caeb5dbb2d3b54b80296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 11/38] fix: badger scan missed keys with a prefix in reverse
 or with an offset outside it

---
 provider/badger.go | 49 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index ba39d47..b980226 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"bytes"
+
 	"github.com/dgraph-io/badger"
 	"github.com/zhiqiangxu/mondis"
 )
@@ -104,21 +106,17 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
-	if len(option.Prefix) > 0 {
+	if len(option.Prefix) > 0 && !option.Reverse {
 		iterOpts.Prefix = option.Prefix
 	}
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
 
-	if option.Offset != nil {
-		iter.Seek(option.Offset)
-	} else {
-		iter.Rewind()
-	}
+	seekBadgerIter(iter, option)
 
 	var goon bool
-	for ; iter.Valid(); iter.Next() {
+	for ; iter.ValidForPrefix(option.Prefix); iter.Next() {
 		item := iter.Item()
 
 		err = item.Value(func(val []byte) error {
@@ -131,3 +129,40 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	}
 	return
 }
+
+// seekBadgerIter positions iter at the first key covered by option
+func seekBadgerIter(iter *badger.Iterator, option mondis.ProviderScanOption) {
+	if len(option.Prefix) > 0 {
+		if !option.Reverse {
+			if bytes.Compare(option.Offset, option.Prefix) < 0 {
+				iter.Seek(option.Prefix)
+				return
+			}
+		} else if end := prefixEnd(option.Prefix); end != nil && (option.Offset == nil || bytes.Compare(option.Offset, end) >= 0) {
+			// last key with the prefix
+			iter.Seek(end)
+			if iter.Valid() && bytes.Equal(iter.Item().Key(), end) {
+				iter.Next()
+			}
+			return
+		}
+	}
+
+	if option.Offset != nil {
+		iter.Seek(option.Offset)
+	} else {
+		iter.Rewind()
+	}
+}
+
+// prefixEnd returns the smallest key greater than all keys with prefix, nil if there's none
+func prefixEnd(prefix []byte) []byte {
+	for i := len(prefix) - 1; i >= 0; i-- {
+		if prefix[i] != 0xff {
+			end := append([]byte{}, prefix[:i+1]...)
+			end[i]++
+			return end
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 728cf0be95bf4e65edd2ad3c0ec22b7a93f89026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 12/38] fix: compact.DecodeBytes crashed on a negative length

---
 kv/compact/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kv/compact/bytes.go b/kv/compact/bytes.go
index 977e048..b11d57c 100644
--- a/kv/compact/bytes.go
+++ b/kv/compact/bytes.go
@@ -20,7 +20,7 @@ func DecodeBytes(b []byte) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
-	if int64(len(b)) < n {
+	if n < 0 || int64(len(b)) < n {
 		return nil, nil, fmt.Errorf("insufficient bytes to decode value, expected length: %v", n)
 	}
 	return b[n:], b[:n], nil
-- 
2.43.0


From 74a0a72b3ae64a3478ababbf2f0f751697e1efda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 13/38] fix: setting a new hash field to an empty value was
 dropped

---
 structure/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure/hash.go b/structure/hash.go
index c59ea0d..16aea95 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -289,7 +289,7 @@ func (t *TxStructure) updateHash(key, field []byte, fn func(oldValue []byte) ([]
 	}
 
 	// Check if new value is equal to old value.
-	if bytes.Equal(oldValue, newValue) {
+	if !isNew && bytes.Equal(oldValue, newValue) {
 		return nil
 	}
 
-- 
2.43.0


From 9a1d136aeb881504ad8ab6ce7792e6fcb0b834c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 14/38] fix: HClear lost the error of reading the hash meta

---
 structure/hash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structure/hash.go b/structure/hash.go
index 16aea95..06a63f0 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -200,6 +200,9 @@ func (t *TxStructure) HClear(key []byte) (err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	itErr := t.iterateHash(key, func(field []byte, value []byte) bool {
 		k := t.encodeHashDataKey(key, field)
-- 
2.43.0


From e635dfcce9590748b2692345fcfad4647ee92eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 15/38] fix: DeleteAll without a transaction deleted in a
 read-only one

---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 515dacb..7ac21e2 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -298,7 +298,7 @@ func (c *Collection) DeleteAll(txn mondis.ProviderTxn) (n int, err error) {
 		return
 	}
 
-	err = tutil.RunInNewTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
+	err = tutil.RunInNewUpdateTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
 		newN, err := c.deleteAllWithTxn(txn)
 		n += newN
 		return err
-- 
2.43.0


From b94298977b524594dffffcd4747b4377a0388679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 16/38] fix: CreateIndex and DropIndex lost storage errors

---
 document/collection.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 7ac21e2..63ebd31 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -449,7 +449,10 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	}
 
 	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
-	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	if err != nil {
+		return
+	}
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
 	if err != nil {
@@ -556,6 +559,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	_, iid, err := compact.DecodeVarint(iidv)
 	if err != nil {
-- 
2.43.0


From 2c92b445e9cf9b7c4ea099e8357a462956f5723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 17/38] fix: InsertOne lost the errors of its insert function

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 5d56a96..1b50f13 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -55,7 +55,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 	insertFunc := func(t *txn.Txn) (ierr error) {
 		ci := t.StartMetaCache().CollectionInfo(c.dbName, c.collectionName)
 		if ci == nil {
-			err = ErrCollectionNotExists
+			ierr = ErrCollectionNotExists
 			return
 		}
 		if origT != nil {
@@ -76,7 +76,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
 
 		ierr = t.Set(docKey, data, nil)
-		if err != nil {
+		if ierr != nil {
 			return
 		}
 
-- 
2.43.0


From 93fbd69d5ea1f926d0751dd0b4a6b366365f5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 18/38] fix: server closed the store while still serving
 requests

---
 server/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 5c82433..a4abd84 100644
--- a/server/server.go
+++ b/server/server.go
@@ -52,11 +52,12 @@ func (s *Server) Start() (err error) {
 // Stop server
 func (s *Server) Stop() (err error) {
 
-	err = s.kvdb.Close()
+	// requests must not reach a closed store
+	err = s.qserver.Shutdown()
 	if err != nil {
 		return
 	}
 
-	err = s.qserver.Shutdown()
+	err = s.kvdb.Close()
 	return
 }
-- 
2.43.0


From e96134644dc526974574c2b8979c8e6252a6dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 19/38] fix: schema handle stayed locked after a conflict

---
 document/schema/handle.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/schema/handle.go b/document/schema/handle.go
index ecab688..2413a93 100644
--- a/document/schema/handle.go
+++ b/document/schema/handle.go
@@ -54,6 +54,7 @@ func (h *Handle) Check(ctx context.Context, startMetaCache *MetaCache, referredC
 
 			for _, collectionIDs := range cache.schemaDiffs[diffIdx] {
 				if _, ok := referredCollections[collectionIDs]; ok {
+					h.mu.RUnlock()
 					return
 				}
 			}
-- 
2.43.0


From 606ed8b227fba499961f6802f297ed77b5014e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 20/38] fix: GetDidRange of an empty collection looked at keys
 of others

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 1b50f13..ca0296f 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -310,7 +310,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 	}
 
 	collectionDocumentPrefix := AppendCollectionDocumentPrefix(nil, ci.ID)
-	scanErr := t.Scan(mondis.ProviderScanOption{Offset: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, min, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
@@ -321,7 +321,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 		err = scanErr
 		return
 	}
-	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, max, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
-- 
2.43.0


From 59bd422b878f8236cedd137177e7505698916e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 21/38] fix: sequences handed out numbers twice and cleared
 other fields

---
 document/meta/sequence/hash.go     | 4 ++--
 document/meta/sequence/sequence.go | 8 +++++++-
 document/meta/sequence/string.go   | 2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index 593113b..e7b9521 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -22,7 +22,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		return
 	}
 
-	if bandwidth == 0 {
+	if bandwidth <= 0 {
 		err = ErrZeroBandwidth
 		return
 	}
@@ -54,7 +54,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HClear(key)
+		err = txStruct.HDel(key, field)
 		if err != nil {
 			return
 		}
diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 1598f7b..baf0987 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -107,6 +107,11 @@ func (seq *Sequence) Clear() (err error) {
 	}
 
 	err = seq.clearFunc()
+	if err != nil {
+		return
+	}
+
+	seq.putbacks = nil
 	return
 }
 
@@ -156,7 +161,7 @@ type IDRange struct {
 // NextN return n consecutive id in ranges
 // when succeed, len(ranges) should be either 1 or 2
 func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
-	if n == 0 {
+	if n <= 0 {
 		return
 	}
 
@@ -193,6 +198,7 @@ func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
 
 	r := IDRange{Start: seq.next, End: seq.next + n - remain}
 	ranges = append(ranges, r)
+	seq.next = r.End
 
 	return
 }
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 3b9aaa5..51ea5cb 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -18,7 +18,7 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		return
 	}
 
-	if bandwidth == 0 {
+	if bandwidth <= 0 {
 		err = ErrZeroBandwidth
 		return
 	}
-- 
2.43.0


From 8d5edeab4be58071cfe4bd767572c513078822ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 22/38] fix: releasing a sequence took back numbers reserved by
 other holders

---
 document/meta/sequence/hash.go   | 13 +++++++++++++
 document/meta/sequence/string.go | 13 +++++++++++++
 document/sequence.go             | 18 ++++++++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index e7b9521..cfee611 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -73,6 +74,18 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		leased, err := txStruct.HGetInt64(key, field)
+		if err == kv.ErrKeyNotFound {
+			err = nil
+			return
+		}
+		if err != nil {
+			return
+		}
+		if leased != s.leased {
+			// another holder reserved numbers after us
+			return
+		}
 		err = txStruct.HSetInt64(key, field, s.next)
 		if err != nil {
 			return
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 51ea5cb..9875e30 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -69,6 +70,18 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		leased, err := txStruct.GetInt64(keyword)
+		if err == kv.ErrKeyNotFound {
+			err = nil
+			return
+		}
+		if err != nil {
+			return
+		}
+		if leased != s.leased {
+			// another holder reserved numbers after us
+			return
+		}
 		err = txStruct.SetInt64(keyword, s.next)
 		if err != nil {
 			return
diff --git a/document/sequence.go b/document/sequence.go
index 018acf1..cc61c01 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -83,12 +83,30 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
+	val, _, err := txn.Get(s.key)
+	if err != nil {
+		return
+	}
+	num, err := numeric.DecodeFromBinary(val)
+	if err != nil {
+		return
+	}
+	if num != s.leased {
+		// another holder reserved numbers after us
+		return
+	}
+
 	buf := numeric.Encode2Binary(s.next, nil)
 	err = txn.Set(s.key, buf, nil)
 	if err != nil {
 		return
 	}
 
+	err = txn.Commit()
+	if err != nil {
+		return
+	}
+
 	s.leased = s.next
 	return
 }
-- 
2.43.0


From dc120b4d9dc3a5b20889a6daf71faf37567df0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 23/38] fix: CreateSchema with indices crashed and reserved too
 few ids

---
 document/ddl/ddl_api.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 964ae50..4db4942 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -16,7 +16,6 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		return
 	}
 
-	n := 2 + len(input.Collections) + len(input.Indices)
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		queueLength, err := m.DDLJobQueueLen()
@@ -37,13 +36,11 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 			return
 		}
 
-		start, _, err := m.GenGlobalIDs(n)
+		schemaID, err := m.GenGlobalID()
 		if err != nil {
 			return
 		}
 
-		schemaID := start + 1
-		nextID := schemaID
 		dbInfo := &model.DBInfo{
 			ID:          schemaID,
 			Name:        input.DB,
@@ -52,27 +49,39 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		for _, cn := range input.Collections {
 			collectInfo := dbInfo.Collections[cn]
 			if collectInfo == nil {
+				var collectionID int64
+				collectionID, err = m.GenGlobalID()
+				if err != nil {
+					return
+				}
 				collectInfo = &model.CollectionInfo{
-					ID:   nextID + 1,
-					Name: cn,
+					ID:      collectionID,
+					Name:    cn,
+					Indices: make(map[string]*model.IndexInfo),
 				}
-				nextID++
 				dbInfo.Collections[cn] = collectInfo
 			}
 			dbInfo.CollectionOrder = append(dbInfo.CollectionOrder, cn)
 			if len(input.Indices[cn]) > 0 {
 				for _, indexInfo := range input.Indices[cn] {
 					iif := indexInfo.ToModel()
-					iif.ID = nextID + 1
-					nextID++
+					iif.ID, err = m.GenGlobalID()
+					if err != nil {
+						return
+					}
 					collectInfo.Indices[indexInfo.Name] = iif
 					collectInfo.IndexOrder = append(collectInfo.IndexOrder, indexInfo.Name)
 				}
 			}
 		}
 
+		jobID, err := m.GenGlobalID()
+		if err != nil {
+			return
+		}
+
 		job = &model.Job{
-			ID:   nextID + 1,
+			ID:   jobID,
 			Type: model.ActionCreateSchema,
 			Arg:  dbInfo,
 		}
-- 
2.43.0


From a4cb7aba522a2140469c90c368f1df2be2903a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 24/38] fix: AddIndex queued jobs without validating its input

---
 document/ddl/ddl_api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 4db4942..6e7988d 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -103,6 +103,11 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 
 // AddIndex for add index
 func (d *DDL) AddIndex(ctx context.Context, input AddIndexInput) (job *model.Job, err error) {
+	err = input.Validate()
+	if err != nil {
+		return
+	}
+
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 
-- 
2.43.0


From bb63a8edbf223f66c2b27a07b4b0de276238f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 25/38] fix: adding the first index of a collection crashed

---
 document/model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/model/model.go b/document/model/model.go
index 46389ed..a3875f2 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -206,6 +206,9 @@ func (c *CollectionInfo) AddIndexInfo(iif *IndexInfo) (ok bool) {
 		return
 	}
 
+	if c.Indices == nil {
+		c.Indices = make(map[string]*IndexInfo)
+	}
 	c.Indices[iif.Name] = iif.Clone()
 	c.IndexOrder = append(c.IndexOrder, iif.Name)
 	ok = true
-- 
2.43.0


From 90dc9002703560d906ca4f98da8dbbee017b81cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 26/38] fix: the add index steps crashed when the index had
 gone

---
 document/ddl/ddl_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f44c527..4123462 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -241,7 +241,7 @@ func (w *worker) onAddIndex(m *meta.Meta, job *model.Job) (schemaVersion int64,
 
 	case osc.StateDeleteOnly:
 		// delete only -> write only
-		if ci == nil {
+		if iif == nil {
 			err = ErrIndexNotExists
 			failNow = true
 			return
@@ -258,7 +258,7 @@ func (w *worker) onAddIndex(m *meta.Meta, job *model.Job) (schemaVersion int64,
 		job.SchemaState = osc.StateWriteOnly
 	case osc.StateWriteOnly:
 		// write only -> reorganization
-		if ci == nil {
+		if iif == nil {
 			err = ErrIndexNotExists
 			failNow = true
 			return
-- 
2.43.0


From cbff02a0035a1150641a5fb9afbb1e0876c73ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 27/38] fix: a job with an error could not be read back

---
 document/model/model.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/document/model/model.go b/document/model/model.go
index a3875f2..5b62dde 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/zhiqiangxu/util/osc"
 )
@@ -44,7 +45,8 @@ type (
 		ID          int64
 		Type        ActionType
 		State       JobState
-		Error       error
+		Error       error `json:"-"`
+		ErrorMsg    string
 		ErrorCount  int64
 		Arg         interface{} `json:"-"`
 		RawArg      json.RawMessage
@@ -248,6 +250,11 @@ func (job *Job) Encode() (b []byte, err error) {
 		}
 	}
 
+	job.ErrorMsg = ""
+	if job.Error != nil {
+		job.ErrorMsg = job.Error.Error()
+	}
+
 	b, err = json.Marshal(job)
 
 	return
@@ -257,6 +264,14 @@ func (job *Job) Encode() (b []byte, err error) {
 // decode special arg for this job.
 func (job *Job) Decode(b []byte) (err error) {
 	err = json.Unmarshal(b, job)
+	if err != nil {
+		return
+	}
+
+	job.Error = nil
+	if job.ErrorMsg != "" {
+		job.Error = errors.New(job.ErrorMsg)
+	}
 	return
 }
 
-- 
2.43.0


From ae88bacd8c8c14e60b20eceacd802da574ff923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 28/38] fix: schema diffs described the schema as requested,
 not as stored

---
 document/ddl/ddl_worker.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index 4123462..132c227 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -372,7 +372,6 @@ func updateSchemaVersion(m *meta.Meta, job *model.Job) (schemaVersion int64, err
 		Type:          job.Type,
 		CollectionIDs: job2CollectionIDs(job),
 		Arg:           job.Arg,
-		RawArg:        job.RawArg,
 	}
 
 	err = m.SetSchemaDiff(diff)
-- 
2.43.0


From 24ed37edee88132aa9a339ba8ee05e464e7b8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 29/38] fix: schema reload got stuck on changes other than new
 schemas

---
 document/domain/domain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/domain/domain.go b/document/domain/domain.go
index 964c9c2..7a1e49b 100644
--- a/document/domain/domain.go
+++ b/document/domain/domain.go
@@ -169,7 +169,8 @@ func (do *Domain) tryLoadSchemaDiff(m *meta.Meta, schemaVersionCache, schemaVers
 		if err != nil {
 			return
 		}
-		if diff == nil {
+		if diff == nil || diff.Type != model.ActionCreateSchema {
+			// only a full load brings in the change
 			return
 		}
 		diffs = append(diffs, diff)
-- 
2.43.0


From d8003e2e18c09444bbc453217cf28fc3df3ce8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 30/38] fix: a failed schema job step committed its partial
 writes

---
 document/ddl/ddl_worker.go | 45 +++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index 132c227..3237d97 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -71,6 +71,7 @@ func (w *worker) handleJobQueue() (err error) {
 		job                 *model.Job
 	)
 	for {
+		runJobErr, failNow = nil, false
 		err = util.RunInNewUpdateTxnWithCallback(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 			m := meta.NewMeta(txn)
 
@@ -93,18 +94,15 @@ func (w *worker) handleJobQueue() (err error) {
 
 			util2.RunWithRecovery(func() {
 				schemaVersion, afterCommitFunc4Job, failNow, runJobErr = w.runJob(m, job)
-			}, func(interface{}) {
-				job.State = model.JobStateCancelling
+			}, func(r interface{}) {
+				runJobErr = fmt.Errorf("runJob panic: %v", r)
 			})
 
 			if runJobErr != nil {
-				job.ErrorCount++
-				job.Error = runJobErr
 				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
-				if failNow || job.ErrorCount >= jobMaxErrorCount {
-					err = w.finishJob(m, job)
-					return
-				}
+				// nothing a failed step wrote may be committed
+				err = runJobErr
+				return
 			}
 
 			if job.IsCancelled() {
@@ -121,6 +119,10 @@ func (w *worker) handleJobQueue() (err error) {
 		})
 		afterCommitFunc4Job = nil
 
+		if runJobErr != nil {
+			err = w.recordFailure(job, failNow, runJobErr)
+		}
+
 		if nojob {
 			return
 		}
@@ -143,6 +145,33 @@ func (w *worker) handleJobQueue() (err error) {
 	}
 }
 
+// recordFailure records that running the first job failed, the job is given up when it's hopeless.
+func (w *worker) recordFailure(failed *model.Job, failNow bool, runJobErr error) (err error) {
+	err = util.RunInNewUpdateTxn(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
+		m := meta.NewMeta(txn)
+
+		job, err := w.getFirstJob(m)
+		if err != nil {
+			return
+		}
+		if job == nil || job.ID != failed.ID {
+			return
+		}
+
+		job.ErrorCount++
+		job.Error = runJobErr
+		if failNow || failed.IsCancelled() || job.ErrorCount >= jobMaxErrorCount {
+			job.State = model.JobStateCancelled
+			err = w.finishJob(m, job)
+			return
+		}
+
+		err = w.updateJob(m, job)
+		return
+	})
+	return
+}
+
 func (w *worker) runJob(m *meta.Meta, job *model.Job) (schemaVersion int64, afterCommitFunc4Job func(), failNow bool, err error) {
 	if job.IsFinished() {
 		return
-- 
2.43.0


From d062d97c6ddd684e10c0c79908c3d48665efbbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 31/38] fix: TryCommitWhenTxnTooBig leaked its transaction on
 panic

---
 util/util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/util/util.go b/util/util.go
index 7cc4dbd..9f2db40 100644
--- a/util/util.go
+++ b/util/util.go
@@ -14,9 +14,19 @@ const (
 // TryCommitWhenTxnTooBig handles ErrTxnTooBig
 func TryCommitWhenTxnTooBig(kvdb mondis.KVDB, txn mondis.ProviderTxn, f func(txn mondis.ProviderTxn) error) (finalTxn mondis.ProviderTxn, err error) {
 	finalTxn = txn
+	finished := false
+	defer func() {
+		if !finished && finalTxn != txn {
+			// f panicked, nobody else knows about the new txn
+			finalTxn.Discard()
+		}
+	}()
+
 	tried := 1
 	for {
+		finished = false
 		err = f(finalTxn)
+		finished = true
 		if err != kv.ErrTxnTooBig {
 			return
 		}
-- 
2.43.0


From 002cda7ae8282c93294982d409752755ea54e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:19 +0000
Subject: [PATCH 32/38] fix: the key of an index reordered the fields of its
 definition

---
 document/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/document/keys.go b/document/keys.go
index 8b50a30..5e5e214 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -85,6 +85,8 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		buf = make([]byte, 0, bufLen)
 	}
 
+	// the key does not depend on the order of the fields, the definition does
+	fields = append([]IndexField(nil), fields...)
 	if len(fields) == 1 {
 		fields[0].Desc = false
 	} else {
-- 
2.43.0


From cbe35de0764415b97a478272e371d0a2472064bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 33/38] fix: creating an index under the name of another one
 lost the other one

---
 document/collection.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 63ebd31..2c6afa8 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -439,6 +439,15 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	if err != nil {
 		return
 	}
+	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
+	exists, err := txn.Exists(indexName2IDKey)
+	if err != nil {
+		return
+	}
+	if exists {
+		err = fmt.Errorf("there already exists index %s on other columns", idef.Name)
+		return
+	}
 	iid, err = c.db.nextIndexID()
 	if err != nil {
 		return
@@ -448,7 +457,6 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
 	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
 	if err != nil {
 		return
-- 
2.43.0


From 43821a24ac00edb8374440a66764b427f81b6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 34/38] fix: concurrent index changes could leave the index map
 different from the store

---
 document/collection.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index 2c6afa8..efd5490 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -467,14 +467,16 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
+	// the map follows the store: no other change may come in between
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	err = txn.Commit()
 	if err != nil {
 		return
 	}
 
-	c.mu.Lock()
-	c.indexMap[idef.Name] = idef
-	c.mu.Unlock()
+	c.indexMap[idef.Name] = idef.Clone()
 	return
 }
 
@@ -603,14 +605,16 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 		return
 	}
 
+	// the map follows the store: no other change may come in between
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	err = txn.Commit()
 	if err != nil {
 		return
 	}
 
-	c.mu.Lock()
 	delete(c.indexMap, idef.Name)
-	c.mu.Unlock()
 	return
 }
 
-- 
2.43.0


From 7b06ac741d9005ebad67a65239fc1d47a95b64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 35/38] fix: an unreadable index record silently hid the
 indexes after it

---
 document/collection.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index efd5490..842b60c 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -494,12 +494,18 @@ func (c *Collection) getIndexes(txn mondis.ProviderTxn) (indexes []IndexDefiniti
 	)
 	scanErr := txn.Scan(mondis.ProviderScanOption{Prefix: indexNamePrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		cid, _, err = DecodeCollectionIndexName2IDKey(key)
-		if err != nil || cid != c.cid {
+		if err == nil && cid != c.cid {
+			err = fmt.Errorf("index record of collection %d found in collection %d", cid, c.cid)
+		}
+		if err != nil {
 			return false
 		}
 
 		leftover, iid, err = compact.DecodeVarint(value)
-		if err != nil || len(leftover) > 0 {
+		if err == nil && len(leftover) > 0 {
+			err = fmt.Errorf("index id has %d extra bytes", len(leftover))
+		}
+		if err != nil {
 			return false
 		}
 
-- 
2.43.0


From be8499455a6eb189a0d6c4a4441dbf80f27bae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 36/38] fix: a value stored with a tag but without expiry
 expired at once

---
 provider/badger_txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/badger_txn.go b/provider/badger_txn.go
index e307d58..0dbfb9c 100644
--- a/provider/badger_txn.go
+++ b/provider/badger_txn.go
@@ -21,7 +21,10 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return (*badger.Txn)(txn).Set(k, v)
 	}
 
-	entry := badger.NewEntry(k, v).WithTTL(meta.TTL).WithMeta(meta.Tag)
+	entry := badger.NewEntry(k, v).WithMeta(meta.Tag)
+	if meta.TTL != 0 {
+		entry = entry.WithTTL(meta.TTL)
+	}
 	return (*badger.Txn)(txn).SetEntry(entry)
 }
 
-- 
2.43.0


From 6a4af5c201691caaaa2006856052093a89a77959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:25 +0000
Subject: [PATCH 37/38] fix: a length behind the end of the integers made the
 message decoders panic

---
 pb/mondis.pb.go | 111 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 111 insertions(+)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index e7efd31..084cc6b 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -1766,6 +1766,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1797,6 +1800,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1828,6 +1834,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1847,6 +1856,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1932,6 +1944,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1946,6 +1961,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2011,6 +2029,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2028,6 +2049,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2113,6 +2137,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2141,6 +2168,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2172,6 +2202,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2191,6 +2224,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2256,6 +2292,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2273,6 +2312,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2358,6 +2400,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2392,6 +2437,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2457,6 +2505,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2474,6 +2525,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2559,6 +2613,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2573,6 +2630,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2662,6 +2722,9 @@ func (m *VMetaReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2751,6 +2814,9 @@ func (m *VMetaResp) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2836,6 +2902,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2850,6 +2919,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2915,6 +2987,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2953,6 +3028,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3038,6 +3116,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3069,6 +3150,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3086,6 +3170,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3151,6 +3238,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3182,6 +3272,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3213,6 +3306,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3232,6 +3328,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3317,6 +3416,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3345,6 +3447,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3362,6 +3467,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3461,6 +3569,9 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if next < 0 || iNdEx < 0 {
+					return 0, ErrInvalidLengthMondis
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From 2e1bbf6fcc06a4ebfacc6ebf673cfc4a7abeac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:25 +0000
Subject: [PATCH 38/38] fix: nested groups in an unknown field overflowed the
 stack of the message decoders

---
 pb/mondis.pb.go | 57 +++++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index 084cc6b..77fa508 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -3486,6 +3486,7 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 func skipMondis(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -3517,10 +3518,8 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -3537,58 +3536,36 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthMondis
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowMondis
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipMondis(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-				if next < 0 || iNdEx < 0 {
-					return 0, ErrInvalidLengthMondis
-				}
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupMondis
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthMondis
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthMondis = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowMondis   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthMondis        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowMondis          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupMondis = fmt.Errorf("proto: unexpected end of group")
 )
 
 func init() { proto.RegisterFile("mondis.proto", fileDescriptor_mondis_b556768874fb6b4e) }
-- 
2.43.0

