From ebf2c567d894e00c56f6a40bc55d561b7257be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 01/63] fix: keep the local chunk when its upload fails before
 the removal

---
 pkg/storage/chunkfs/replicator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a2c5097..736e70c 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -108,8 +108,9 @@ func (r *Replicator) DeleteChunk(ctx context.Context, cID string, flags int) err
 	var resErr error
 	if flags&RFRemoteSync != 0 {
 		if err := r.zipAndUploadChunk(ctx, cID); err != nil {
+			// the remote copy may be absent or out of date, so the local one must stay untouched
 			r.logger.Warnf("error while syncing chunk cID=%s, flags=%d to remote: %s", cID, flags, err)
-			resErr = err
+			return err
 		}
 	}
 
-- 
2.43.0


From 0f9afafb30c063024245e668faf9c41a3c9ab88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 02/63] fix: report the zip archive close error, do not upload
 an incomplete archive

---
 pkg/storage/chunkfs/replicator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 736e70c..a7680f2 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -161,8 +161,16 @@ func zipFile(cID, fn, zfn string) error {
 	if err != nil {
 		return err
 	}
-	defer zw.Close()
 
+	// the zip directory is written on Close, so the archive is not complete until it is closed successfully
+	err = zipFileTo(zw, cID, fn)
+	if cerr := zw.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
+func zipFileTo(zw *files.ZipWriter, cID, fn string) error {
 	// the chunk file
 	f, err := os.Open(fn)
 	if err != nil {
-- 
2.43.0


From e89ceee670df2100f27f9e52afead7d7b9ea0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 03/63] fix: report the downloaded archive close error

---
 pkg/storage/chunkfs/replicator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a7680f2..3d93db0 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -204,8 +204,10 @@ func (r *Replicator) downloadZip(ctx context.Context, cID, zfn string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = io.Copy(f, rdr)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
 	return err
 }
 
-- 
2.43.0


From 174a845e8c769820a6936e5af72c220fee789dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 04/63] fix: extract the downloaded chunk into a temporary file
 and rename it when it is complete

---
 pkg/storage/chunkfs/replicator.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 3d93db0..b927384 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -228,12 +228,21 @@ func (r *Replicator) unzip(zfn, fn string) error {
 	}
 	defer it.Close()
 
-	_ = os.Remove(fn)
-	f, err := os.Create(fn)
+	// never write to the chunk file directly: an interrupted extraction must not be seen as a chunk
+	tfn := fn + ".tmp"
+	f, err := os.Create(tfn)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = io.Copy(f, it)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tfn, fn)
+	}
+	if err != nil {
+		_ = os.Remove(tfn)
+	}
 	return err
 }
-- 
2.43.0


From fd7ae7bfcf09f69d8d93f401dcb62dc1975ca64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 05/63] fix: DeleteFileIfEmpty must not touch the chunk it
 could not get the exclusive access to

---
 pkg/storage/chunkfs/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index a884117..0877c73 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -78,6 +78,7 @@ func (p *Provider) DeleteFileIfEmpty(cID string) {
 	}
 	if !p.CA.setDeleting(cID) {
 		p.logger.Errorf("DeleteFileIfEmpty(): something goes wrong, cannot mark chunk %s for deleting", cID)
+		return
 	}
 	defer p.CA.SetIdle(cID)
 	fn := p.GetFileNameByID(cID)
-- 
2.43.0


From 20f705d4ac4cc040e935115a0e2164cfa6861dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 06/63] fix: chunk full check must map all the meta-records and
 start from the first record

---
 pkg/storage/chunkfs/chunk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 2780015..db1f379 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -209,11 +209,14 @@ func (c *Chunk) init(fullCheck bool) error {
 		return nil
 	}
 
-	mb, err := c.getMetaBuf(0, int(c.total))
+	if c.total == 0 {
+		return nil
+	}
+	mb, err := c.getMetaBuf(int(c.total)-1, int(c.total))
 	if err != nil {
 		return err
 	}
-	startOffs := c.freeOffset
+	startOffs := cHeaderSize
 	var id ulid.ULID
 	pMax := int(c.mmf.Size() - int64(c.total*cMetaRecordSize))
 	for i := 0; i < c.total; i++ {
-- 
2.43.0


From b1942fdd184b3d601b69d338ec34bca2346b40fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 07/63] fix: a failed append must not change the chunk counters

---
 pkg/storage/chunkfs/chunk.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index db1f379..6088e45 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -304,6 +304,13 @@ func (c *Chunk) AppendRecords(recs []*solaris.Record) (AppendRecordsResult, erro
 		c.logger.Errorf("could not map payload-buffer with offset %d for size=%d: %v", c.freeOffset, pSize, err)
 		return AppendRecordsResult{}, fmt.Errorf("could not write data: %w", fmt.Errorf("could not map payload-buffer with offset %d for size=%d: %w", c.freeOffset, pSize, errors.ErrInternal))
 	}
+	// the records counter
+	hdr, err := c.mmf.Buffer(int64(len(hdrVersion)), 4)
+	if err != nil {
+		c.logger.Errorf("could not map records counter buffer with offset %d for size=4: %v", len(hdrVersion), err)
+		return AppendRecordsResult{}, fmt.Errorf("could not map records counter buffer with offset %d for size=4: %w", c.freeOffset, errors.ErrInternal)
+	}
+
 	pOffset = 0
 	for _, r := range recs {
 		copy(pBuf[pOffset:int(pOffset)+len(r.Payload)], r.Payload)
@@ -313,11 +320,6 @@ func (c *Chunk) AppendRecords(recs []*solaris.Record) (AppendRecordsResult, erro
 	c.freeOffset += pOffset
 	c.total += len(recs)
 	// update the header
-	hdr, err := c.mmf.Buffer(int64(len(hdrVersion)), 4)
-	if err != nil {
-		c.logger.Errorf("could not map records counter buffer with offset %d for size=4: %v", len(hdrVersion), err)
-		return AppendRecordsResult{}, fmt.Errorf("could not map records counter buffer with offset %d for size=4: %w", c.freeOffset, errors.ErrInternal)
-	}
 	binary.BigEndian.PutUint32(hdr, uint32(c.total))
 
 	return AppendRecordsResult{Written: n, StartID: startID, LastID: lastID}, nil
-- 
2.43.0


From c78b2ba26f6223e77d8b4a51549688fce8f91abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 08/63] fix: the scanner must stop when its context is closed,
 even if a scan takes too long

---
 pkg/storage/chunkfs/scanner.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/scanner.go b/pkg/storage/chunkfs/scanner.go
index 9ac3528..aa4786e 100644
--- a/pkg/storage/chunkfs/scanner.go
+++ b/pkg/storage/chunkfs/scanner.go
@@ -132,7 +132,12 @@ func (s *Scanner) watcherWithF(ctx context.Context, f func(ctx context.Context,
 			if !fi.IsDir() {
 				continue
 			}
-			sema <- struct{}{}
+			select {
+			case <-ctx.Done():
+				wg.Wait()
+				return
+			case sema <- struct{}{}:
+			}
 			wg.Add(1)
 			go func(dir string) {
 				defer wg.Done()
@@ -143,6 +148,9 @@ func (s *Scanner) watcherWithF(ctx context.Context, f func(ctx context.Context,
 			}(filepath.Join(s.cfg.DataPath, fi.Name()))
 		}
 		wg.Wait()
+		if ctx.Err() != nil {
+			return
+		}
 		diff := time.Now().Sub(start)
 		if diff < s.cfg.GlobalSyncTimeout {
 			select {
-- 
2.43.0


From 068a026fab151ffd6e7a287fbb125cfaec19c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 09/63] fix: cancelled append request must not crash the server
 after the records are written

---
 pkg/storage/logfs/locallog.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7d126c5..9efd756 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -170,9 +170,9 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 	}
 
 	if added > 0 {
-		// use context.Background instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
-		// data written
-		if err := l.LMStorage.UpsertChunkInfos(ctx, lid, cis); err != nil {
+		// do not let the ctx cancellation interrupt the call to avoid some unrecoverable error in case of the ctx is closed,
+		// but we have some data written
+		if err := l.LMStorage.UpsertChunkInfos(context.WithoutCancel(ctx), lid, cis); err != nil {
 			// well, now it is unrecoverable!
 			l.logger.Errorf("could not write chunk IDs=%v for logID=%s, but the data is written into chunk. The data is corrupted now: %v", cis, lid, err)
 			panic("unrecoverable error, data is corrupted")
-- 
2.43.0


From 478f06fd0e3697fa7290a4f1b46028e1152f6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 10/63] fix: report the chunk read error from CountRecords

---
 pkg/storage/logfs/locallog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 9efd756..9ecbb01 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -368,7 +368,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 			if sid.Compare(ulidutils.ZeroULID) != 0 || len(idRanges) > 0 {
 				recCnt, err = l.countRecords(ctx, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending))
 				if err != nil {
-					return 0, 0, nil
+					return 0, 0, err
 				}
 			}
 			count += recCnt
-- 
2.43.0


From d1551410a85415eadd75173323e5ebe85243af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 11/63] fix: switch to a new chunk when the last one is
 exhausted

---
 pkg/storage/logfs/locallog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 9ecbb01..32a8bbf 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -143,6 +143,11 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
 		arr, err := l.appendRecords(ctx, ci.ID, ci.RecordsCount == 0, recs)
+		if errors.Is(err, errors.ErrExhausted) && ci.RecordsCount > 0 {
+			// there is no room in the existing chunk, nothing is written there, so switch to a new one
+			ci.RecordsCount = 0
+			continue
+		}
 		if err != nil {
 			gerr = err
 			break
-- 
2.43.0


From 74d3eb8a52ad60e69c227231ae5297adaba1d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 12/63] fix: report the failed chunk info removal when a log is
 deleted

---
 pkg/storage/buntdb/buntdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 1038772..6a007a6 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -238,7 +238,7 @@ func (s *Storage) deleteLog(ctx context.Context, tx *buntdb.Tx, logID string) er
 	}
 	for _, ci := range cis {
 		key = chnkKey(logID, ci.ID)
-		if _, err = tx.Delete(key); err != nil && errors.Is(err, buntdb.ErrNotFound) {
+		if _, err = tx.Delete(key); err != nil && !errors.Is(err, buntdb.ErrNotFound) {
 			return fmt.Errorf("tx.Delete(key=%s) failed: %w", key, err)
 		}
 	}
-- 
2.43.0


From 11f81e34c9cac43301c7a7b2cb0451e81078d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 13/63] fix: report the rows iteration and scan errors

---
 pkg/storage/postgres/postgres.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 57c9592..9b2f1e4 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -84,6 +84,9 @@ func (s *Storage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 		_ = rows.Close()
 	}()
 	if !rows.Next() {
+		if err = rows.Err(); err != nil {
+			return nil, MapError(err)
+		}
 		return nil, errors.ErrNotExist
 	}
 	var updatedLog Log
@@ -289,9 +292,11 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 func scan[T any](rows *sqlx.Rows) (T, error) {
 	var res T
 	if rows.Next() {
-		_ = rows.Scan(&res)
+		if err := rows.Scan(&res); err != nil {
+			return res, err
+		}
 	}
-	return res, nil
+	return res, rows.Err()
 }
 
 func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
@@ -303,6 +308,9 @@ func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
 
@@ -315,5 +323,8 @@ func structScanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
-- 
2.43.0


From 2b7ebb9dd4eaec1bf426116a591d70fc373db18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 14/63] fix: report the broken chunk record IDs read from the
 database

---
 pkg/storage/postgres/postgres.go     |  4 ++--
 pkg/storage/postgres/transformers.go | 26 +++++++++++++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 9b2f1e4..bb14cee 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -229,7 +229,7 @@ func (s *Storage) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkIn
 	if err := s.db.GetContext(ctx, &chunk, "select * from chunk where log_id=$1 order by id desc limit 1", logID); err != nil {
 		return logfs.ChunkInfo{}, MapError(err)
 	}
-	return chunkToInfo(chunk), nil
+	return chunkToInfo(chunk)
 }
 
 // GetChunks implements logfs.LogsMetaStorage
@@ -248,7 +248,7 @@ func (s *Storage) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInf
 	if err != nil {
 		return nil, MapError(err)
 	}
-	return chunksToInfo(logs), nil
+	return chunksToInfo(logs)
 }
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
diff --git a/pkg/storage/postgres/transformers.go b/pkg/storage/postgres/transformers.go
index 74d31c9..5b47663 100644
--- a/pkg/storage/postgres/transformers.go
+++ b/pkg/storage/postgres/transformers.go
@@ -15,8 +15,10 @@
 package postgres
 
 import (
+	"fmt"
 	"github.com/oklog/ulid/v2"
 	"github.com/solarisdb/solaris/api/gen/solaris/v1"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/storage/logfs"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -61,21 +63,31 @@ func chunkToModel(c *logfs.ChunkInfo) Chunk {
 	}
 }
 
-func chunkToInfo(c Chunk) logfs.ChunkInfo {
-	minVal, _ := ulid.Parse(c.Min)
-	maxVal, _ := ulid.Parse(c.Max)
+func chunkToInfo(c Chunk) (logfs.ChunkInfo, error) {
+	minVal, err := ulid.Parse(c.Min)
+	if err != nil {
+		return logfs.ChunkInfo{}, fmt.Errorf("chunk ID=%s has wrong min=%q: %w", c.ID, c.Min, errors.ErrDataLoss)
+	}
+	maxVal, err := ulid.Parse(c.Max)
+	if err != nil {
+		return logfs.ChunkInfo{}, fmt.Errorf("chunk ID=%s has wrong max=%q: %w", c.ID, c.Max, errors.ErrDataLoss)
+	}
 	return logfs.ChunkInfo{
 		ID:           c.ID,
 		Min:          minVal,
 		Max:          maxVal,
 		RecordsCount: c.RecordsCount,
-	}
+	}, nil
 }
 
-func chunksToInfo(cc []Chunk) []logfs.ChunkInfo {
+func chunksToInfo(cc []Chunk) ([]logfs.ChunkInfo, error) {
 	var cis []logfs.ChunkInfo
 	for _, c := range cc {
-		cis = append(cis, chunkToInfo(c))
+		ci, err := chunkToInfo(c)
+		if err != nil {
+			return nil, err
+		}
+		cis = append(cis, ci)
 	}
-	return cis
+	return cis, nil
 }
-- 
2.43.0


From ec19831670cb2b586fd53dca7287332e4ecafdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 15/63] fix: report the copy errors when files are archived

---
 golibs/files/files.go   | 9 +++++++--
 golibs/files/ziputil.go | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index bdab0f4..2f8e922 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -170,11 +170,16 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 		if err != nil {
 			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
 		}
-		io.Copy(out, in)
+		_, err = io.Copy(out, in)
 		in.Close()
+		if err != nil {
+			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
+		}
 		return nil
 	})
-	w.Close()
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		os.Remove(destFile)
 	}
diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index 0ad3417..e51d638 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -132,8 +132,11 @@ func ZipCopy(zw *ZipWriter, zi ZipIterator, prefix string) error {
 		if err != nil {
 			return fmt.Errorf("could not open file %s: %w", f.Name, err)
 		}
-		io.Copy(w, in)
+		_, err = io.Copy(w, in)
 		in.Close()
+		if err != nil {
+			return fmt.Errorf("could not copy file %s: %w", f.Name, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From dce78cdcb7a5bdc7b1e1c7f05513fca36c58c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 16/63] fix: report the mapped file flush error

---
 golibs/files/mmfile.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golibs/files/mmfile.go b/golibs/files/mmfile.go
index 570d0da..b3479c2 100644
--- a/golibs/files/mmfile.go
+++ b/golibs/files/mmfile.go
@@ -148,8 +148,7 @@ func (mmf *MMFile) Flush() error {
 	if mmf.f == nil {
 		return errors.ErrClosed
 	}
-	mmf.mf.Flush()
-	return nil
+	return mmf.mf.Flush()
 }
 
 // Buffer returns Mapped memory slice to be read and written.
-- 
2.43.0


From 6816dcc730f93997a62083c30f890b61a9070825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 17/63] fix: do not delete an element which creation failed
 when the cache is closed

---
 golibs/container/lru/releasable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 6a45242..63e3f22 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -132,7 +132,7 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		r.lock.Lock()
 		// if it was closed while we were creating the new object...
 		if r.closed {
-			if r.onDeleteF != nil {
+			if err == nil && r.onDeleteF != nil {
 				r.onDeleteF(k, v)
 			}
 			r.lock.Unlock()
-- 
2.43.0


From cf960bde29ce57b77b88436a9a07a532ccd9f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 18/63] fix: wake up the cache waiters when an element could
 not be created

---
 golibs/container/lru/releasable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 63e3f22..d2221ec 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -145,6 +145,10 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		if err == nil {
 			rh = &rHolder[V]{refCounter: 1, value: v}
 			r.allKnown[k] = rh
+		} else if r.waiter != nil {
+			// the slot is not used, let somebody else take it
+			close(r.waiter)
+			r.waiter = nil
 		}
 		r.lock.Unlock()
 
-- 
2.43.0


From 049f25ca82ec5b0e6f68cff138da19a9570c06cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 19/63] fix: do not cache a value which creation was in
 progress when its key was removed

---
 golibs/container/lru/ecache.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/golibs/container/lru/ecache.go b/golibs/container/lru/ecache.go
index fc651d5..df45804 100644
--- a/golibs/container/lru/ecache.go
+++ b/golibs/container/lru/ecache.go
@@ -92,6 +92,14 @@ func (p *ECache[PK, K, V]) GetOrCreate(pk PK) (V, error) {
 
 		p.lock.Lock()
 		close(ch)
+		if p.inflight[k] != ch {
+			// the key was removed while the value was being created, so the value may be stale already
+			if err == nil && p.onDeleteF != nil {
+				p.onDeleteF(pk, v)
+			}
+			p.lock.Unlock()
+			return v, err
+		}
 		delete(p.inflight, k)
 		if err == nil {
 			p.items.Add(k, pair[PK, V]{pk, v})
@@ -117,6 +125,7 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	delete(p.inflight, k)
 	v, ok := p.items.Get(k)
 	if !ok {
 		return false
@@ -132,7 +141,9 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 func (p *ECache[PK, K, V]) Clear() int {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	clear(p.inflight)
 	it := p.items.Iterator()
+	defer it.Close()
 	removed := 0
 	for it.HasNext() {
 		e, ok := it.Next()
-- 
2.43.0


From 0a74227778b6411cf5cf3194788262f39eaf1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 20/63] fix: update the map head when a closed iterator
 releases the removed first element

---
 golibs/container/iterable/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/container/iterable/map.go b/golibs/container/iterable/map.go
index 405716c..311075b 100644
--- a/golibs/container/iterable/map.go
+++ b/golibs/container/iterable/map.go
@@ -132,7 +132,10 @@ func (im *Map[K, V]) getValue(p *rlItem[K, V]) *rlItem[K, V] {
 func (im *Map[K, V]) release(p *rlItem[K, V]) {
 	p.refCnt--
 	if p.state == rlDeleted {
-		p.delete()
+		head := p.delete()
+		if head != nil {
+			im.head = head
+		}
 		if p.refCnt == 0 {
 			im.pool.Put(p)
 		}
-- 
2.43.0


From 236c4a2f35827b256d2e5a2339f75fee2afc59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:53 +0000
Subject: [PATCH 21/63] fix: do not extract the archive files out of the
 destination folder

---
 golibs/files/files.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 2f8e922..0b74874 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -204,6 +204,10 @@ func UnzipToFolder(zipFile, destDir string) error {
 			continue
 		}
 
+		if !filepath.IsLocal(strings.TrimLeft(z.Name, "/")) {
+			return fmt.Errorf("UnzipToFolder: the file name %q points out of the destination folder: %w", z.Name, errors.ErrInvalid)
+		}
+
 		partPath, _ := filepath.Split(z.Name)
 		destPath := filepath.Join(destDir, partPath)
 		if !pathChecked[destPath] {
-- 
2.43.0


From 1576affadab3fa4909cc8038add2dd1094cf6352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 22/63] fix: close the zip file when its archive could not be
 read or finished

---
 golibs/files/ziputil.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index e51d638..2cd3d9d 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -58,6 +58,7 @@ func NewZipIterator(zipFile string) (ZipIterator, error) {
 
 	zr, err := zip.NewReader(f, fi.Size())
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return &zipIterator{zr: zr, idx: 0, f: f}, nil
@@ -113,8 +114,10 @@ func (zw *ZipWriter) Close() error {
 	}
 	err := zw.zw.Close()
 	zw.zw = nil
-	if err == nil && zw.f != nil {
-		err = zw.f.Close()
+	if zw.f != nil {
+		if cerr := zw.f.Close(); err == nil {
+			err = cerr
+		}
 		zw.f = nil
 	}
 	return err
-- 
2.43.0


From 10e86a858ec8587b5c62a410acf34c9bc1598258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 23/63] fix: make the in-memory object storage safe for
 concurrent use

---
 golibs/sss/inmem/storage.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index c9e9212..4094a44 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -23,11 +23,13 @@ import (
 	"io"
 	"io/ioutil"
 	"strings"
+	"sync"
 )
 
 // Storage provides kvs.Storage functionality in local process memory. This instance can be
 // used in a single-node configuration or in a test-purposes.
 type Storage struct {
+	lock    sync.RWMutex
 	storage map[string][]byte
 }
 
@@ -47,6 +49,8 @@ func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 		return nil, fmt.Errorf("Storage.Get(): invalid key=%s", key)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	if buf, ok := st.storage[key]; ok {
 		return ioutil.NopCloser(bytes.NewReader(buf)), nil
 	}
@@ -66,6 +70,8 @@ func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 	}
 	b1 := make([]byte, len(buf))
 	copy(b1, buf)
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	st.storage[key] = b1
 	return nil
 }
@@ -82,6 +88,8 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 		return nil, fmt.Errorf("Storage.List(): invalid path=%s", path)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	res := make([]string, 0, 10)
 	added := make(map[string]bool)
 	for k := range st.storage {
@@ -109,6 +117,8 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
 	}
 
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	if _, ok := st.storage[key]; !ok {
 		return errors.ErrNotExist
 	}
-- 
2.43.0


From 3461ec08edfe6dc70727df5f634679b60b6b0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 24/63] fix: do not panic on the huge length of the encoded
 bytes

---
 golibs/xbinary/xbinary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/xbinary/xbinary.go b/golibs/xbinary/xbinary.go
index 80fb62c..85c3bb6 100644
--- a/golibs/xbinary/xbinary.go
+++ b/golibs/xbinary/xbinary.go
@@ -267,7 +267,7 @@ func UnmarshalBytes(buf []byte, newBuf bool) (int, []byte, error) {
 	}
 
 	ln := int(uln)
-	if len(buf) < ln+idx {
+	if uln > uint(len(buf)-idx) {
 		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, ln)
 	}
 
-- 
2.43.0


From 02881abb0c2c1ee6332ef602dc03b0a547c28726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 25/63] fix: refuse the unacceptable block size

---
 golibs/container/bytes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/bytes/blocks.go b/golibs/container/bytes/blocks.go
index 613e1e3..0b21848 100644
--- a/golibs/container/bytes/blocks.go
+++ b/golibs/container/bytes/blocks.go
@@ -87,7 +87,7 @@ func GetBlocksInSegment(blkSize int) int {
 func NewBlocks(bs int, bts Buffer, fit bool) (*Blocks, error) {
 	// get absolute number of blocks in a segment
 	blksInSegm := GetBlocksInSegment(bs)
-	if bs < 0 {
+	if blksInSegm < 0 {
 		return nil, fmt.Errorf("incorrect block size=%d, should multiple on naturanl integer to get %d: %w ", bs, os.Getpagesize(), errors.ErrInvalid)
 	}
 
-- 
2.43.0


From 3a99fc39acbf7c134832220f66914d98f4243881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 26/63] fix: do not miss the signal sent before the context
 starts waiting for it

---
 golibs/context/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/context/signal.go b/golibs/context/signal.go
index 2514c7a..048bb68 100644
--- a/golibs/context/signal.go
+++ b/golibs/context/signal.go
@@ -22,7 +22,7 @@ import (
 // NewSignalsContext returns a context.Context that will be closed by one of the provided syscall.Signal(s)
 func NewSignalsContext(signals ...os.Signal) context.Context {
 	ctx, cancel := context.WithCancel(context.Background())
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	signal.Notify(quit, signals...)
 	go func() {
 		<-quit
-- 
2.43.0


From df20cdacc5bd0eef5315e2a5bc2a9d433616d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 27/63] fix: recognize the .json extension case-insensitively

---
 golibs/config/enricher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 1f2360a..577b6c6 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -137,7 +137,7 @@ func (e *enricher[T]) LoadFromFile(fileName string) error {
 	switch {
 	case strings.HasSuffix(fn, ".yaml"):
 		return e.LoadFromYAMLFile(fileName)
-	case strings.HasSuffix(fileName, ".json"):
+	case strings.HasSuffix(fn, ".json"):
 		return e.LoadFromJSONFile(fileName)
 	default:
 		return fmt.Errorf("cannot recognize file format %s, expecting .json or .yaml: %w", fileName, errors.ErrInvalid)
-- 
2.43.0


From da4c624863924a1fad564b4d6cc503e33a2e6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 28/63] fix: return the existing record version from the redis
 Create()

---
 golibs/kvs/redis/redis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 76d8d34..490fa67 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -52,7 +52,12 @@ func (c *client) Create(ctx context.Context, record kvs.Record) (string, error)
 		return "", checkErr(err)
 	}
 	if !ok {
-		return "", errors.ErrExist
+		// the caller needs the existing record version to wait for its change
+		r, err := c.Get(ctx, record.Key)
+		if err != nil && !errors.Is(err, errors.ErrNotExist) {
+			return "", err
+		}
+		return r.Version, errors.ErrExist
 	}
 	return record.Version, nil
 }
-- 
2.43.0


From ee3c1caf9e2009024679bca1e8b813d0881b7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 29/63] fix: report the version conflict when the redis
 transaction is aborted

---
 golibs/kvs/redis/redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 490fa67..2035f16 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -139,6 +139,10 @@ func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Recor
 		})
 		return err
 	}, key)
+	if errors.Is(err, redis.TxFailedErr) {
+		// the record was changed by somebody else after its version was read
+		err = errors.ErrConflict
+	}
 	return record, err
 }
 
-- 
2.43.0


From a710f17f24aec92df10056dc50bad83e5a5b73ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 30/63] fix: update the versions of the records put into redis
 in one call

---
 golibs/kvs/redis/redis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 2035f16..08453cc 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -104,6 +104,7 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 			mset = nil
 			break
 		}
+		r.Version = ulidutils.NewID()
 		mset = append(mset, rKey(r.Key))
 		mset = append(mset, cast.ByteArrayToString(rec2db(&r)))
 	}
-- 
2.43.0


From 61cb6671845d3516f4db62bbbf22fa743cc2043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 31/63] fix: consider the records expiration in all operations
 of the in-memory key-value storage

---
 golibs/kvs/inmem/inmem.go | 58 ++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 8ef80ba..2f374dc 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -57,7 +57,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 	if ctx.Err() != nil {
 		return "", ctx.Err()
 	}
-	if r, ok := s.recs[record.Key]; ok {
+	if r, ok := s.getRecord(record.Key); ok {
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
@@ -68,17 +68,10 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[key]
+	r, ok := s.getRecord(key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, key)
-			s.notifyWaiters(key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	return r, nil
 }
 
@@ -108,17 +101,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 
 	res := make([]*kvs.Record, len(keys))
 	for idx, key := range keys {
-		r, ok := s.recs[key]
+		r, ok := s.getRecord(key)
 		if !ok {
 			continue
 		}
-		if r.ExpiresAt != nil {
-			if r.ExpiresAt.Before(time.Now()) {
-				delete(s.recs, key)
-				s.notifyWaiters(key)
-				continue
-			}
-		}
 		res[idx] = &r
 	}
 	return res, nil
@@ -127,17 +113,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[record.Key]
+	r, ok := s.getRecord(record.Key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, record.Key)
-			s.notifyWaiters(record.Key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	if r.Version != record.Version {
 		return kvs.Record{}, errors.ErrConflict
 	}
@@ -151,7 +130,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
-	if _, ok := s.recs[key]; !ok {
+	if _, ok := s.getRecord(key); !ok {
 		return errors.ErrNotExist
 	}
 	delete(s.recs, key)
@@ -162,7 +141,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) error {
 	for {
 		s.lock.Lock()
-		r, ok := s.recs[key]
+		r, ok := s.getRecord(key)
 		if !ok {
 			s.lock.Unlock()
 			return errors.ErrNotExist
@@ -179,7 +158,19 @@ func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) err
 		ws.waiters++
 		s.lock.Unlock()
 
+		// nobody changes the record when it expires, so the waiter should check it by itself
+		var expired <-chan time.Time
+		if r.ExpiresAt != nil {
+			tmr := time.NewTimer(time.Until(*r.ExpiresAt) + time.Millisecond)
+			defer tmr.Stop()
+			expired = tmr.C
+		}
+
 		select {
+		case <-expired:
+			s.lock.Lock()
+			ws.waiters--
+			s.lock.Unlock()
 		case <-ctx.Done():
 			s.lock.Lock()
 			defer s.lock.Unlock()
@@ -209,13 +200,24 @@ func (s *service) ListKeys(ctx context.Context, pattern string) (iterable.Iterat
 	}
 	res := []string{}
 	for k := range s.recs {
-		if g.Match(k) {
+		if _, ok := s.getRecord(k); ok && g.Match(k) {
 			res = append(res, k)
 		}
 	}
 	return &keysIterator{res: res}, nil
 }
 
+// getRecord returns the record by its key. The expired record is removed, and it is reported as not existing one.
+func (s *service) getRecord(key string) (kvs.Record, bool) {
+	r, ok := s.recs[key]
+	if ok && r.ExpiresAt != nil && r.ExpiresAt.Before(time.Now()) {
+		delete(s.recs, key)
+		s.notifyWaiters(key)
+		return kvs.Record{}, false
+	}
+	return r, ok
+}
+
 func (s *service) notifyWaiters(key string) {
 	ws, ok := s.verChange[key]
 	if !ok {
-- 
2.43.0


From 9230ee2d105342cac4181d81a930750bc020a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 32/63] fix: do not panic when the records limit is zero,
 negative or huge

---
 pkg/api/service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index de44642..9fcd439 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -118,7 +118,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 			return nil, errors.GRPCWrap(err)
 		}
 		nextID := ""
-		if more {
+		if more && len(res) > 0 {
 			nextID = ulidutils.NextID(res[len(res)-1].ID)
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
@@ -134,7 +134,8 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 
 	lim := request.Limit
 
-	res := make([]*solaris.Record, 0, lim)
+	// the limit comes from the client, so it cannot be relied on for the allocation
+	res := []*solaris.Record{}
 	for mx.HasNext() && lim > 0 {
 		r, ok := mx.Next()
 		if !ok {
-- 
2.43.0


From 4fa0ae3166dd35e1a7fa6a718621f95f9ff3c03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 33/63] fix: the next page of the descending query starts after
 the last returned record

---
 pkg/api/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 9fcd439..108222a 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -119,7 +119,11 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		}
 		nextID := ""
 		if more && len(res) > 0 {
-			nextID = ulidutils.NextID(res[len(res)-1].ID)
+			if request.Descending {
+				nextID = ulidutils.PrevID(res[len(res)-1].ID)
+			} else {
+				nextID = ulidutils.NextID(res[len(res)-1].ID)
+			}
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
 	}
-- 
2.43.0


From 69a1d7d6149bddae661cde8d5dffce1575f17993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:29 +0000
Subject: [PATCH 34/63] fix: report the gRPC code of the CountRecords errors

---
 pkg/api/service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 108222a..f874bd8 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -191,7 +191,7 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 			Limit:   request.Limit},
 		)
 		if err != nil {
-			return nil, err
+			return nil, errors.GRPCWrap(err)
 		}
 
 		total += t
-- 
2.43.0


From 0f4b4a06e4c5e2ed1abfdb5a018c7537495bbfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 35/63] fix: check the second parameter of a condition before
 calculating its value

---
 pkg/ql/evaluator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/evaluator.go b/pkg/ql/evaluator.go
index a71210c..c852947 100644
--- a/pkg/ql/evaluator.go
+++ b/pkg/ql/evaluator.go
@@ -159,7 +159,7 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 
 	p2 := cn.SecondParam
 	if p2 == nil {
-		return fmt.Errorf("wrong condition for the param %s and the operation %q - no second parameter: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
+		return fmt.Errorf("wrong condition for the param %s and the operation %q - no second parameter: %w", p1.Name(false), cn.Op, errors.ErrInvalid)
 	}
 	d2, ok := eb.dialect[p2.ID()]
 	if !ok {
@@ -171,6 +171,9 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 	if d2.Flags&PfNop != 0 {
 		return fmt.Errorf("parameter %s cannot be compared (%s) in the condition: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
 	}
+	if err := d2.check(p2); err != nil {
+		return err
+	}
 
 	op := strings.ToUpper(cn.Op)
 	switch op {
-- 
2.43.0


From 7a8ac6d51183629d523182aae26f13e7f5627416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:33 +0000
Subject: [PATCH 36/63] fix: do not panic when the interval value is out of the
 basis range

---
 pkg/ql/intervalbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 92c5863..57ac084 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -220,6 +220,14 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 }
 
 func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals.Interval[T] {
+	lo, hi := ib.basis.CmpF(val, ib.basis.Min), ib.basis.CmpF(val, ib.basis.Max)
+	all := []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
+	switch { // the values on the edges of the basis, and the ones which are out of it
+	case op == "<" && lo <= 0, op == "<=" && lo < 0, op == ">" && hi >= 0, op == ">=" && hi > 0, op == "=" && (lo < 0 || hi > 0):
+		return nil
+	case op == "<" && hi > 0, op == "<=" && hi > 0, op == ">" && lo < 0, op == ">=" && lo < 0, op == "!=" && (lo < 0 || hi > 0):
+		return all
+	}
 	switch op {
 	case "<":
 		return []intervals.Interval[T]{ib.basis.OpenR(ib.basis.Min, val)}
-- 
2.43.0


From a270f7f6ec405d1ce9a848f73eeb27b14bf6567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 37/63] fix: report the malformed records condition as an
 invalid argument

---
 pkg/storage/logfs/locallog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 32a8bbf..5ad22b6 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -468,7 +468,7 @@ func getIntervals(cond string) ([]intervals.Interval[time.Time], error) {
 	}
 	expr, err := ql.Parse(cond)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("condition=%q parse error=%v: %w", cond, err, errors.ErrInvalid)
 	}
 	tis, err := tiBuilder.Build(expr)
 	if err != nil {
-- 
2.43.0


From d8410dc6e82ff7f65ed60f32dc0cc025457d929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:38 +0000
Subject: [PATCH 38/63] fix: treat the blank records condition as the empty one

---
 pkg/storage/logfs/locallog.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 5ad22b6..2bb74b5 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -271,7 +271,8 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return nil, false, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
+	filtered := len(strings.TrimSpace(request.Condition)) > 0
+	if filtered && len(tis) == 0 {
 		return nil, false, nil
 	}
 
@@ -285,7 +286,7 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 	for idx := fromIdx; idx >= 0 && idx < len(cis) && limit > len(res); idx += inc {
 		ci := cis[idx]
 		idRanges := getRanges(tis, ci)
-		if len(request.Condition) > 0 && len(idRanges) == 0 {
+		if filtered && len(idRanges) == 0 {
 			continue
 		}
 		srecs, err := l.readRecords(ctx, lid, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending), limit-len(res), &totalSize)
@@ -354,7 +355,8 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return 0, 0, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
+	filtered := len(strings.TrimSpace(request.Condition)) > 0
+	if filtered && len(tis) == 0 {
 		return 0, 0, nil
 	}
 
@@ -366,7 +368,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		total += uint64(ci.RecordsCount)
 		if (request.Descending && idx <= fromIdx) || (!request.Descending && idx >= fromIdx) {
 			idRanges := getRanges(tis, ci)
-			if len(request.Condition) > 0 && len(idRanges) == 0 {
+			if filtered && len(idRanges) == 0 {
 				continue
 			}
 			recCnt := uint64(ci.RecordsCount)
-- 
2.43.0


From 2dae26ff77ee4d6e60b1e2aeb7c721e16d0f7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:24 +0000
Subject: [PATCH 39/63] fix: do not panic when the log is deleted while records
 are being appended

---
 pkg/storage/logfs/locallog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 2bb74b5..8b82617 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -178,6 +178,10 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 		// do not let the ctx cancellation interrupt the call to avoid some unrecoverable error in case of the ctx is closed,
 		// but we have some data written
 		if err := l.LMStorage.UpsertChunkInfos(context.WithoutCancel(ctx), lid, cis); err != nil {
+			if errors.Is(err, errors.ErrNotExist) {
+				// the log is deleted already, so its data is not needed anymore
+				return nil, fmt.Errorf("could not add the records, the logID=%s is not found: %w", lid, err)
+			}
 			// well, now it is unrecoverable!
 			l.logger.Errorf("could not write chunk IDs=%v for logID=%s, but the data is written into chunk. The data is corrupted now: %v", cis, lid, err)
 			panic("unrecoverable error, data is corrupted")
-- 
2.43.0


From 82b21b5808727b52c6fb7204e8d7239c76f98d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 40/63] fix: escape the quotes in the string constants
 translated to SQL

---
 pkg/ql/dialect.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index 6627c93..f5aeb3e 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -130,7 +130,7 @@ var (
 			TranslateF: func(tr Translator[*solaris.Log], sb *strings.Builder, p Param) error {
 				// use single quotes for string constants
 				sb.WriteString("'")
-				sb.WriteString(*p.Const.String)
+				sb.WriteString(sqlEscape(*p.Const.String))
 				sb.WriteString("'")
 				return nil
 			},
@@ -147,7 +147,7 @@ var (
 						return fmt.Errorf("array must contain only strings: %w", errors.ErrInvalid)
 					}
 					sb.WriteString("'")
-					sb.WriteString(*c.String)
+					sb.WriteString(sqlEscape(*c.String))
 					sb.WriteString("'")
 				}
 				sb.WriteString(")")
@@ -201,6 +201,11 @@ var (
 )
 
 // check returns whether the parameter is ok or not. The function is used by the evaluator
+// sqlEscape makes s acceptable between the single quotes of a SQL string constant
+func sqlEscape(s string) string {
+	return strings.ReplaceAll(s, "'", "''")
+}
+
 func (pd ParamDialect[T]) check(p *Param) error {
 	if pd.CheckF != nil {
 		return pd.CheckF(p)
-- 
2.43.0


From b37a78f3cf3a81d9190f94d668a0d7b121fdea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:29 +0000
Subject: [PATCH 41/63] fix: do not lose the translation errors of the function
 parameters

---
 pkg/ql/dialect.go    | 3 +--
 pkg/ql/translator.go | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index f5aeb3e..a4b7bac 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -174,8 +174,7 @@ var (
 					return fmt.Errorf("tag() function expects the tag name (string) as the parameter: %w", errors.ErrInvalid)
 				}
 				sb.WriteString("tags ->> ")
-				_ = tr.Param2Sql(sb, p.Function.Params[0])
-				return nil
+				return tr.Param2Sql(sb, p.Function.Params[0])
 			},
 		},
 	}
diff --git a/pkg/ql/translator.go b/pkg/ql/translator.go
index e90aeb6..24dac68 100644
--- a/pkg/ql/translator.go
+++ b/pkg/ql/translator.go
@@ -163,9 +163,9 @@ func (tr Translator[T]) Param2Sql(sb *strings.Builder, p *Param) error {
 		return nil
 	}
 	sb.WriteString("(")
-	_ = tr.Params2Sql(sb, p.Function.Params)
+	err := tr.Params2Sql(sb, p.Function.Params)
 	sb.WriteString(")")
-	return nil
+	return err
 }
 
 // Params2Sql turns the AST object pp to the query string according to the dialect of the translator
-- 
2.43.0


From 37de68d71836913fa8efcf45dbd3c78819aa539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 42/63] fix: build the intervals for the unsatisfiable and
 negated sub-conditions

---
 pkg/ql/intervalbuilder.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 57ac084..77cd8fd 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -68,9 +68,7 @@ func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) ([]intervals.Inte
 		if err != nil {
 			return nil, err
 		}
-		if len(group) > 0 {
-			groups = append(groups, group)
-		}
+		groups = append(groups, group) // no intervals means no values are matched
 	}
 	return ib.intersect(groups), nil
 }
@@ -95,11 +93,20 @@ func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) ([]intervals.I
 	if !and.Not {
 		return res, nil
 	}
-	var negated []intervals.Interval[T]
+	// NOT (a OR b) is the (NOT a) AND (NOT b)
+	negated := [][]intervals.Interval[T]{ib.all()}
 	for _, t := range res {
-		negated = append(negated, ib.basis.Negate(t)...)
+		if ib.basis.CmpF(t.L, ib.basis.Min) == 0 && ib.basis.CmpF(t.R, ib.basis.Max) == 0 && t.IsClosed() {
+			return nil, nil
+		}
+		negated = append(negated, ib.basis.Negate(t))
 	}
-	return negated, nil
+	return ib.intersect(negated), nil
+}
+
+// all returns the interval, which contains all the basis values
+func (ib *ParamIntervalBuilder[T, K]) all() []intervals.Interval[T] {
+	return []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
 }
 
 func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.Interval[T], error) {
@@ -115,8 +122,8 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 	if dp1.Flags&PfNop != 0 {
 		return nil, fmt.Errorf("the parameter %s must allow operation (%s): %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 	}
-	if p1.Name(false) != ib.param { // skip not the param we look for
-		return nil, nil
+	if p1.Name(false) != ib.param { // not the param we look for, any value is good
+		return ib.all(), nil
 	}
 
 	// param2
@@ -134,13 +141,13 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 	if dp2.Flags&PfNop != 0 {
 		return nil, fmt.Errorf("the second parameter %s must allow operation (%s): %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 	}
-	if p2.Const == nil { // skip not a constant param
-		return nil, nil
+	if p2.Const == nil { // not a constant param, any value may be good
+		return ib.all(), nil
 	}
 
 	// operation
-	if !ib.ops[cond.Op] { // skip not the ops we look for
-		return nil, nil
+	if !ib.ops[cond.Op] { // not the ops we look for, any value may be good
+		return ib.all(), nil
 	}
 	switch cond.Op {
 	case "<", ">":
@@ -221,12 +228,11 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 
 func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals.Interval[T] {
 	lo, hi := ib.basis.CmpF(val, ib.basis.Min), ib.basis.CmpF(val, ib.basis.Max)
-	all := []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
 	switch { // the values on the edges of the basis, and the ones which are out of it
 	case op == "<" && lo <= 0, op == "<=" && lo < 0, op == ">" && hi >= 0, op == ">=" && hi > 0, op == "=" && (lo < 0 || hi > 0):
 		return nil
 	case op == "<" && hi > 0, op == "<=" && hi > 0, op == ">" && lo < 0, op == ">=" && lo < 0, op == "!=" && (lo < 0 || hi > 0):
-		return all
+		return ib.all()
 	}
 	switch op {
 	case "<":
-- 
2.43.0


From d4823f7f32c53291815ccd5b480746f7a3827c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 43/63] fix: refuse the IN and LIKE operations for the
 parameters which do not support them

---
 pkg/ql/intervalbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 77cd8fd..5647076 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -19,6 +19,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/intervals"
 	"sort"
+	"strings"
 )
 
 // ParamIntervalBuilder allows to build value intervals from the AST expression
@@ -146,6 +147,9 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 	}
 
 	// operation
+	if op := strings.ToUpper(cond.Op); (op == "IN" || op == "LIKE") && dp1.Flags&PfInLike == 0 {
+		return nil, fmt.Errorf("the first parameter %s is not applicable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+	}
 	if !ib.ops[cond.Op] { // not the ops we look for, any value may be good
 		return ib.all(), nil
 	}
-- 
2.43.0


From 6c4a0620f53ad2e3dd41c1a3bb772ea9bc0bdae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:36 +0000
Subject: [PATCH 44/63] fix: refuse to compare the values which types do not
 support it

---
 pkg/ql/evaluator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/ql/evaluator.go b/pkg/ql/evaluator.go
index c852947..91c235c 100644
--- a/pkg/ql/evaluator.go
+++ b/pkg/ql/evaluator.go
@@ -340,6 +340,8 @@ func (eb *exprBuilder[T]) compare(vf1, vf2 valueF[T], tp ValueType, op string) e
 		default:
 			return fmt.Errorf("unsupport operation %s for the string comparision: %w", op, errors.ErrInvalid)
 		}
+	default:
+		return fmt.Errorf("unsupported operation %s for the values of the type %s: %w", op, typeNames[tp], errors.ErrInvalid)
 	}
 	return nil
 }
-- 
2.43.0


From 45bc7b4b59d022c51f9dfd658e52feb2fb44c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:16 +0000
Subject: [PATCH 45/63] fix: do not panic when the logs limit is negative,
 bound it for all storages

---
 pkg/storage/buntdb/buntdb.go     | 4 ++--
 pkg/storage/postgres/postgres.go | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 6a007a6..dbe6807 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -288,7 +288,7 @@ func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteL
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
@@ -350,7 +350,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	}
 
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index bb14cee..e84043f 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -140,7 +140,10 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		return nil, MapError(err)
 	}
 
-	limit := int(qr.Limit)
+	limit := min(int(qr.Limit), 1000)
+	if qr.Limit <= 0 {
+		limit = 50
+	}
 	args = append(args, limit+1)
 
 	qryRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select * from log %s order by id limit $%d", where, len(args)), args...)
-- 
2.43.0


From ed82e8718b9811c892e0afecfb8a90c70c258443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 46/63] fix: do not delete all the logs for the blank condition

---
 pkg/storage/buntdb/buntdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index dbe6807..9216a4e 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -187,7 +187,7 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 		if err != nil {
 			return nil, fmt.Errorf("deleteLogsByIDs(IDs=%v) failed: %w", req.IDs, err)
 		}
-	} else if len(req.Condition) > 0 {
+	} else if len(strings.TrimSpace(req.Condition)) > 0 {
 		dRes, err = s.deleteLogsByCondition(ctx, req)
 		if err != nil {
 			return nil, fmt.Errorf("deleteLogsByCondition(Cond=%s) failed: %w", req.Condition, err)
-- 
2.43.0


From 9a5d1da280f0449e017e285398e58079b75d3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 47/63] fix: apply the deleted filter to all the alternatives
 of the logs condition

---
 pkg/storage/postgres/postgres.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index e84043f..d65ebbe 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -111,10 +111,12 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 			sb.WriteString(fmt.Sprintf("$%d", len(args)))
 		}
 		sb.WriteString(")")
-	} else if len(qr.Condition) > 0 {
+	} else if len(strings.TrimSpace(qr.Condition)) > 0 {
+		sb.WriteString("(")
 		if err := qlToPqTranslator.Translate(&sb, qr.Condition); err != nil {
 			return nil, fmt.Errorf("condition=%q translate error=%v: %w", qr.Condition, err, errors.ErrInvalid)
 		}
+		sb.WriteString(")")
 	}
 
 	if sb.Len() > 0 {
@@ -185,10 +187,12 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 			sb.WriteString(fmt.Sprintf("$%d", len(args)))
 		}
 		sb.WriteString(")")
-	} else if len(req.Condition) > 0 {
+	} else if len(strings.TrimSpace(req.Condition)) > 0 {
+		sb.WriteString("(")
 		if err := qlToPqTranslator.Translate(&sb, req.Condition); err != nil {
 			return nil, fmt.Errorf("condition=%q translate error=%v: %w", req.Condition, err, errors.ErrInvalid)
 		}
+		sb.WriteString(")")
 	}
 	if sb.Len() == 0 {
 		return &solaris.DeleteLogsResult{}, nil
-- 
2.43.0


From 99d89fd5a8e6d10370081060e46ac79bb402eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:22 +0000
Subject: [PATCH 48/63] fix: consider the page in the postgres logs query

---
 pkg/storage/postgres/postgres.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index d65ebbe..57cd699 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -146,9 +146,9 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 	if qr.Limit <= 0 {
 		limit = 50
 	}
-	args = append(args, limit+1)
+	args = append(args, qr.Page, limit+1)
 
-	qryRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select * from log %s order by id limit $%d", where, len(args)), args...)
+	qryRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select * from log %s and id >= $%d order by id limit $%d", where, len(args)-1, len(args)), args...)
 	if err != nil {
 		return nil, MapError(err)
 	}
-- 
2.43.0


From 65ef73d75dd5ad324caf914e330201c5501bb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 49/63] fix: do not return the chunks of the deleted logs from
 postgres

---
 pkg/storage/postgres/postgres.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 57cd699..cc5dfc6 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -233,7 +233,7 @@ func (s *Storage) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkIn
 		return logfs.ChunkInfo{}, fmt.Errorf("log ID must be specified: %w", errors.ErrInvalid)
 	}
 	var chunk Chunk
-	if err := s.db.GetContext(ctx, &chunk, "select * from chunk where log_id=$1 order by id desc limit 1", logID); err != nil {
+	if err := s.db.GetContext(ctx, &chunk, "select * from chunk where log_id=$1 and exists (select 1 from log where id=$1 and deleted = false) order by id desc limit 1", logID); err != nil {
 		return logfs.ChunkInfo{}, MapError(err)
 	}
 	return chunkToInfo(chunk)
@@ -244,7 +244,7 @@ func (s *Storage) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInf
 	if len(logID) == 0 {
 		return nil, fmt.Errorf("log ID must be specified: %w", errors.ErrInvalid)
 	}
-	rows, err := s.db.QueryxContext(ctx, "select * from chunk where log_id = $1 order by id", logID)
+	rows, err := s.db.QueryxContext(ctx, "select * from chunk where log_id = $1 and exists (select 1 from log where id = $1 and deleted = false) order by id", logID)
 	if err != nil {
 		return nil, MapError(err)
 	}
-- 
2.43.0


From 7474df826fbc7c6b90a834c409bd2376aa2e0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 50/63] fix: write the log tags as a valid JSON

---
 pkg/storage/postgres/model.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/postgres/model.go b/pkg/storage/postgres/model.go
index 8703329..66e08c0 100644
--- a/pkg/storage/postgres/model.go
+++ b/pkg/storage/postgres/model.go
@@ -18,7 +18,6 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
-	"strings"
 	"time"
 )
 
@@ -56,14 +55,10 @@ func (t *Tags) Scan(value any) error {
 }
 
 func (t Tags) JSON() string {
-	var sb strings.Builder
-	sb.WriteString("{")
-	for k, v := range t {
-		if sb.Len() > 1 {
-			sb.WriteByte(',')
-		}
-		sb.WriteString(fmt.Sprintf("%q:%q", k, v))
+	if len(t) == 0 {
+		return "{}"
 	}
-	sb.WriteString("}")
-	return sb.String()
+	// map of strings is always marshaled with no errors
+	buf, _ := json.Marshal(t)
+	return string(buf)
 }
-- 
2.43.0


From c80d9492849736bd6e725dbe2cdf1f5cd6530c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 51/63] fix: report that there are too many logs to merge when
 the storage returns them partially

---
 pkg/api/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index f874bd8..46f9e4a 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -102,6 +102,9 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if qr.NextPageID != "" {
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", len(qr.Logs), errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
@@ -172,6 +175,9 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if qr.NextPageID != "" {
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", len(qr.Logs), errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
-- 
2.43.0


From 5a9e418e2c9e278b21ed7caf5257b641089b7663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 52/63] fix: report the malformed REST request as a bad one,
 not as the internal server error

---
 pkg/api/rest/rest.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/rest/rest.go b/pkg/api/rest/rest.go
index 88ad023..983cb5e 100644
--- a/pkg/api/rest/rest.go
+++ b/pkg/api/rest/rest.go
@@ -174,11 +174,11 @@ func (r *Rest) errorResponse(c *gin.Context, err error, msg string) bool {
 func BindAppJson(c *gin.Context, inf interface{}) error {
 	ct := c.ContentType()
 	if ct != "application/json" {
-		return fmt.Errorf("invalid content type %s, \"application/json\" expected. err=%w", ct, errors.ErrInternal)
+		return fmt.Errorf("invalid content type %s, \"application/json\" expected. err=%w", ct, errors.ErrInvalid)
 	}
 	err := c.Bind(inf)
 	if err != nil {
-		err = fmt.Errorf("%s: %w", err.Error(), errors.ErrInternal)
+		err = fmt.Errorf("%s: %w", err.Error(), errors.ErrInvalid)
 	}
 	return err
 }
-- 
2.43.0


From 80440aedf652365cdcdd1ca2b8cafea596cacad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:10 +0000
Subject: [PATCH 53/63] fix: limit the nesting of the expressions, a deep one
 exhausted the stack and crashed the server

---
 pkg/ql/parser.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 92be8f9..99433ff 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"strings"
 )
 
@@ -149,12 +150,43 @@ func (c Const) Value() string {
 	return fmt.Sprintf("%f", *c.Number)
 }
 
+// maxNesting limits the number of the nested brackets in an expression. The parser is recursive, so
+// the nesting must be limited to not exhaust the stack
+const maxNesting = 1000
+
+// checkNesting returns an error if there are too many nested brackets in expr
+func checkNesting(expr string) error {
+	depth := 0
+	quote := rune(0)
+	for _, c := range expr {
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+			if depth > maxNesting {
+				return fmt.Errorf("more than %d nested brackets in the expression: %w", maxNesting, errors.ErrInvalid)
+			}
+		case c == ')':
+			depth--
+		}
+	}
+	return nil
+}
+
 // Parse parses the expr and in case of success returns AST
 func Parse(expr string) (*Expression, error) {
 	expr = strings.TrimSpace(expr)
 	if len(expr) == 0 {
 		return &Expression{}, nil
 	}
+	if err := checkNesting(expr); err != nil {
+		return nil, err
+	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse expression=%q: %w", expr, err)
-- 
2.43.0


From d7fb8436deefe66f496c6a785b1da73bd3adc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 54/63] fix: report the unparsable condition as a bad request,
 not as the internal server error

---
 pkg/ql/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 99433ff..dedbcca 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -189,7 +189,7 @@ func Parse(expr string) (*Expression, error) {
 	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse expression=%q: %w", expr, err)
+		return nil, fmt.Errorf("failed to parse expression=%q: %v: %w", expr, err, errors.ErrInvalid)
 	}
 	return e, nil
 }
-- 
2.43.0


From e6082c5801a3bae34fe2195f5efcc613391ceb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 55/63] fix: an identifier named as the constant's ID was taken
 for the constant and crashed the server

---
 pkg/ql/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index dedbcca..7111c43 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -86,10 +86,11 @@ var (
 	)
 )
 
+// the IDs of the constants must not be acceptable identifiers, otherwise an identifier could be taken for a constant
 const (
-	StringParamID = "__string__"
-	NumberParamID = "__number__"
-	ArrayParamID  = "__array__"
+	StringParamID = "<string>"
+	NumberParamID = "<number>"
+	ArrayParamID  = "<array>"
 )
 
 // ID returns the param id by its type:
-- 
2.43.0


From 683a1318844d5a131aa50044f06e2e2cf1ece497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 56/63] fix: refuse several comparisons in a row, they were
 silently read as another operation

---
 pkg/ql/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 7111c43..ac7783f 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -44,8 +44,8 @@ type (
 	// optional operation and second param
 	Condition struct {
 		FirstParam  Param  `  @@`
-		Op          string ` {@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
-		SecondParam *Param ` @@}`
+		Op          string ` [@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
+		SecondParam *Param ` @@]`
 	}
 
 	// Param describes a parameter either a constant (string or number), function, identifier or an array of constants
-- 
2.43.0


From d1ffff3a6cf3cbd20fbce872755791178f8391c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 57/63] fix: the embedded storage gave out the last chunk of a
 deleted log

---
 pkg/storage/buntdb/buntdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 9216a4e..a1e0291 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -421,6 +421,10 @@ func (s *Storage) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkIn
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
 
+	if _, err := s.getLogEntry(tx, logKey(logID), true); err != nil {
+		return logfs.ChunkInfo{}, fmt.Errorf("getLogEntry(ID=%s) failed: %w", logID, err)
+	}
+
 	var ce *chnkEntry
 	iter := func(key, value string) bool {
 		ce = mustUnmarshal[*chnkEntry](value)
-- 
2.43.0


From 2b74f02adff44752f2761dabf758608e405ced7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 58/63] fix: time borders between two milliseconds lost or
 added records

A condition like ctime < T, T being between two milliseconds, lost the records
of the millisecond T is in, and ctime >= T found the ones created before T.
---
 pkg/storage/logfs/locallog.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 8b82617..5033796 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -494,16 +494,17 @@ func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 	return ranges
 }
 
+// toRange returns the range of the IDs for the interval. The IDs have the millisecond precision, so a border between
+// two milliseconds is moved to the nearest one inside the interval
 func toRange(ti intervals.Interval[time.Time]) idRange {
-	if ti.IsClosed() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenL() {
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenR() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
-	} else { // open
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
+	l, r := ti.L.Add(time.Millisecond-time.Nanosecond), ti.R
+	if !ti.LIn {
+		l = ti.L.Add(time.Millisecond)
 	}
+	if !ti.RIn {
+		r = ti.R.Add(-time.Nanosecond)
+	}
+	return idRange{start: minULIDForTime(l), end: maxULIDForTime(r)}
 }
 
 func minULIDForTime(t time.Time) ulid.ULID {
-- 
2.43.0


From 3cc2ae83ebb21465a21497dde5ff0949d20643fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 59/63] fix: IN with an empty list was not translated to
 correct SQL

---
 pkg/ql/dialect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index a4b7bac..cf6cc27 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -138,6 +138,11 @@ var (
 		ArrayParamID: {
 			Flags: PfRValue,
 			TranslateF: func(tr Translator[*solaris.Log], sb *strings.Builder, p Param) error {
+				if len(p.Array) == 0 {
+					// "IN ()" is not acceptable by SQL
+					sb.WriteString("(SELECT NULL WHERE FALSE)")
+					return nil
+				}
 				sb.WriteString("(")
 				for i, c := range p.Array {
 					if i > 0 {
-- 
2.43.0


From 2825ee9a336d6bba39281c206f5896aafb8d52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:47 +0000
Subject: [PATCH 60/63] fix: errors of closing written files and archives were
 lost

---
 golibs/files/files.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 0b74874..16dfcf0 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -135,7 +135,6 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 	if err != nil {
 		return fmt.Errorf("ZipFolder: could not create %s for write, err=%w", destFile, err)
 	}
-	defer f.Close()
 
 	w := zip.NewWriter(f)
 	err = filepath.Walk(srcDir, func(path string, info os.FileInfo, err error) error {
@@ -180,6 +179,9 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 	if cerr := w.Close(); err == nil {
 		err = cerr
 	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		os.Remove(destFile)
 	}
@@ -232,7 +234,9 @@ func UnzipToFolder(zipFile, destDir string) error {
 
 		_, err = io.Copy(out, in)
 		in.Close()
-		out.Close()
+		if cerr := out.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return fmt.Errorf("UnzipToFolder: could not write into %s from %s, err=%w", destDir, z.Name, err)
 		}
@@ -325,9 +329,10 @@ func WriteTo(toPath string, in io.Reader) error {
 	if err != nil {
 		return err
 	}
-	defer out.Close()
-
 	_, err = io.Copy(out, in)
+	if cerr := out.Close(); err == nil {
+		err = cerr
+	}
 	return err
 }
 
-- 
2.43.0


From a881d2726ecd86082db37b2f258f842f7e8ac219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 61/63] fix: postgres.GetDb closes the connections when the
 migration fails

---
 pkg/storage/postgres/db.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/postgres/db.go b/pkg/storage/postgres/db.go
index 94ba7d2..0ca01d2 100644
--- a/pkg/storage/postgres/db.go
+++ b/pkg/storage/postgres/db.go
@@ -42,6 +42,7 @@ func GetDb(ctx context.Context, dbConn *db.DBConn) (*Db, error) {
 		db.SetConnMaxIdleTime(time.Duration(*dbConn.MaxConnIdleTimeSec) * time.Second)
 	}
 	if err = migrateUp(ctx, db.DB); err != nil {
+		_ = db.Close()
 		return nil, fmt.Errorf("migration failed: %w", err)
 	}
 	return &Db{DB: db}, nil
-- 
2.43.0


From 649952a5795a50e24816baa7aaac67b3d2becbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:25 +0000
Subject: [PATCH 62/63] fix: the server closes the database connections when it
 stops

---
 pkg/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index a0c6a6a..003475e 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -68,6 +68,7 @@ func Run(ctx context.Context, cfg *Config) error {
 
 	// Db
 	db := postgres.MustGetDb(ctx, cfg.DB)
+	defer db.Close()
 
 	inj := linker.New()
 	inj.Register(linker.Component{Name: "", Value: cache.NewCachedStorage(postgres.NewStorage(db))})
-- 
2.43.0


From 8ecaa582cbd08db01764866a0ca7c7169bdc642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 63/63] fix: postgres QueryLogs held one connection while it
 waited for another

---
 pkg/storage/postgres/postgres.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index cc5dfc6..0130e53 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -141,6 +141,10 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 	if count, err = scan[int64](cntRows); err != nil {
 		return nil, MapError(err)
 	}
+	// the rows keep the connection: give it back before the next query asks the pool for one
+	if err = cntRows.Close(); err != nil {
+		return nil, MapError(err)
+	}
 
 	limit := min(int(qr.Limit), 1000)
 	if qr.Limit <= 0 {
-- 
2.43.0

