From 7175467282555127f35ae116d4e332de793cc398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 01/34] fix: look up flushed delta operations of users having
 unflushed ones

---
 internal/infra/delta/storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..87e728f 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -159,6 +159,14 @@ func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
 			return delta.op, true
 		}
 	}
+	// The unflushed operations of the user may concern other items only
+	flushed := s.deltaCache[user]
+	for i := range flushed {
+		delta := flushed[len(flushed)-i-1]
+		if delta.item == item {
+			return delta.op, true
+		}
+	}
 	return domain.DeltaOpAdd, false
 }
 
-- 
2.43.0


From 2d34bb4535afc1cce1e36e273bee96e6b4c41bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 02/34] fix: open empty and partially created delta files

---
 internal/infra/delta/storagefactory.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..b889a98 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -138,7 +138,15 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	size, err := file.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get file size: %v", err)
+	}
+	// An incomplete header is left by an interrupted creation of the file
+	locked := size > 0
+	if size >= int64(len(prefix)+headerSize) {
+		locked, err = f.proto.IsLocked(file)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
 	}
-- 
2.43.0


From c0b893557bcc40badd888721abe4b8c37071626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 03/34] fix: keep the delta file locked until its recovery is
 complete

---
 internal/infra/delta/storagefactory.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index b889a98..f262bf2 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -32,8 +32,17 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
+	err = f.proto.RecoverTo(file, tmpFile)
+	if err != nil {
+		return err
+	}
+	// Keep the file locked until it's completely rewritten
+	err = f.proto.WriteLocked(true, tmpFile)
 	if err != nil {
 		return err
 	}
@@ -54,6 +63,10 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	err = f.proto.WriteLocked(false, file)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	return err
 }
-- 
2.43.0


From 3c4b342786bcbe382be649c7324144dd7b4cd18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 04/34] fix: drop delta entries of unknown operations on
 recovery

---
 internal/infra/delta/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..098500c 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -292,6 +292,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
+		if entry.Op != domain.DeltaOpAdd && entry.Op != domain.DeltaOpRemove {
+			continue
+		}
 		err = p.WriteEntry(&entry, writer)
 		if err != nil {
 			return err
-- 
2.43.0


From 28b5f9c91334744c57358c5e98ac5fa03910c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 05/34] fix: let a failed delta flush be repeated

---
 internal/infra/delta/storage.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 87e728f..78ecb3d 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -57,7 +60,13 @@ func (s *storage) flushHeader() error {
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
 	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	// (right after the flushed entries, a failed flush may have left a part
+	// of the unflushed ones there)
+	offset := s.GetFileSize() - uint64(s.unflushedItemCount)*entrySize
+	_, err := s.file.Seek(int64(offset), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
@@ -71,6 +80,15 @@ func (s *storage) flushEntries() error {
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
+		}
+	}
+	// Flush the buffer
+	err = writer.Flush()
+	if err != nil {
+		return fmt.Errorf("failed to flush buffer: %v", err)
+	}
+	for user, deltas := range s.newDelta {
+		for _, delta := range deltas {
 			// Add to cache
 			_, exists := s.deltaCache[user]
 			if !exists {
@@ -79,11 +97,6 @@ func (s *storage) flushEntries() error {
 			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
-	// Flush the buffer
-	err := writer.Flush()
-	if err != nil {
-		return fmt.Errorf("failed to flush buffer: %v", err)
-	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From b737c7cdf93b1712479e18a8e38aefdc0e5e1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 06/34] fix: report read errors during recovery of delta files

---
 internal/infra/delta/protocol.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 098500c..c567b21 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -82,6 +82,15 @@ type Protocol interface {
 	RecoverTo(reader io.Reader, writer io.WriteSeeker) error
 }
 
+// Returned when the file prefix is wrong.
+var errNotDeltaFile = errors.New("not a delta file")
+
+// Returns true if the error is caused by the content of the file having been
+// read, not by a failure to read it.
+func isMalformed(err error) bool {
+	return errors.Is(err, errNotDeltaFile) || errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
+}
+
 // Implements delta file functions.
 type protocol struct{}
 
@@ -107,7 +116,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errNotDeltaFile
 	}
 	return nil
 }
@@ -265,6 +274,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
 	if err != nil {
+		if !isMalformed(err) {
+			return err
+		}
 		return p.WriteHeader(&hdr, writer)
 	}
 
@@ -273,6 +285,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	hdr.Version = Version
 	hdr.Locked = 0
 	if err != nil {
+		if !isMalformed(err) {
+			return err
+		}
 		hdr.NumEntries = 0
 		return p.WriteHeader(&hdr, writer)
 	}
@@ -287,6 +302,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	for {
 		err = p.ReadEntry(&entry, reader)
 		if err != nil {
+			if !isMalformed(err) {
+				return err
+			}
 			break
 		}
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
-- 
2.43.0


From 7edce80c13001473fd83e4bb473bce55d64bf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 07/34] fix: unlock the index file only after its entries are
 written

---
 internal/infra/index/storage.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..66d8a85 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -83,7 +83,8 @@ func (s *storage) load() error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
+	// The file stays locked until it's completely written
+	err := s.saveHeader(true)
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
@@ -97,6 +98,13 @@ func (s *storage) Close() error {
 		}
 		return err
 	}
+	err = s.proto.WriteLocked(false, s.file)
+	if err != nil {
+		if s.closer != nil {
+			s.closer.Close()
+		}
+		return fmt.Errorf("failed to unlock the file: %v", err)
+	}
 	if s.closer != nil {
 		return s.closer.Close()
 	}
-- 
2.43.0


From 859638c7f97fb6d459c8501d8ebc332f37afbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 08/34] fix: reset the index files that have not been closed
 properly

---
 internal/domain/errors.go              |  6 ++++++
 internal/domain/likenamespace.go       |  4 ++--
 internal/infra/index/storage.go        | 14 +++++++++++---
 internal/infra/index/storagefactory.go |  2 +-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/internal/domain/errors.go b/internal/domain/errors.go
index b904f82..f4f02fa 100644
--- a/internal/domain/errors.go
+++ b/internal/domain/errors.go
@@ -6,6 +6,12 @@ func (e *CorruptedFileError) Error() string {
 	return "The file hasn't been closed property, it may be corrupted"
 }
 
+// Makes all the errors of this type equal for errors.Is().
+func (e *CorruptedFileError) Is(target error) bool {
+	_, ok := target.(*CorruptedFileError)
+	return ok
+}
+
 func NewCorruptedFileError() error {
 	return &CorruptedFileError{}
 }
diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..c2533ee 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -119,9 +119,9 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 			file.Close()
 			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The factory has closed the file
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 66d8a85..22218f3 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -41,6 +41,14 @@ func (s *storage) create() error {
 	return nil
 }
 
+// A file ending inside of the header is left by an interrupted creation.
+func checkTornHeader(err error) error {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+		return domain.NewCorruptedFileError()
+	}
+	return err
+}
+
 // Loads the index file into memory.
 func (s *storage) load() error {
 	_, err := s.file.Seek(0, io.SeekStart)
@@ -51,15 +59,15 @@ func (s *storage) load() error {
 	// Load header
 	_, err = s.proto.ReadPrefix(reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index prefix: %v", err)
+		return fmt.Errorf("failed to read index prefix: %w", checkTornHeader(err))
 	}
 	header := Header{}
 	_, err = s.proto.ReadHeader(&header, reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index header: %v", err)
+		return fmt.Errorf("failed to read index header: %w", checkTornHeader(err))
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
+		return fmt.Errorf("broken index file (after unexpected termination): %w", domain.NewCorruptedFileError())
 	}
 	// Lock
 	err = s.proto.WriteLocked(true, s.file)
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..16f75f4 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -63,7 +63,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
-- 
2.43.0


From 0e2aa9b31a7fe325212fefac13a930210acff68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 09/34] fix: flush the header of a new record database

---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From 96db5efbc2659f3d5c673b506abadee4f960e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 10/34] fix: refuse writing database entries exceeding their
 capacity

---
 internal/infra/recdb/likeprotocol.go | 5 ++---
 internal/infra/recdb/protocol.go     | 9 ++++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..9272404 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"recengine/internal/domain"
-	"reflect"
 )
 
 // Binary ("like") implementation of IConcreteProtocol.
@@ -78,8 +77,8 @@ func (p *likeProtocol) WriteEntryData(entry *Entry, writer io.Writer) (int, erro
 	profile, ok := entry.Data.(*domain.Profile)
 	if !ok {
 		return 0, fmt.Errorf(
-			"entry's data type doesn't represent like profile, got %s",
-			reflect.TypeOf(entry.Data).Name(),
+			"entry's data type doesn't represent like profile, got %T",
+			entry.Data,
 		)
 	}
 	// Write user ID
diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..daaa130 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -238,7 +238,14 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if size > int(entry.Capacity) {
+		return 0, fmt.Errorf("entry's capacity=%d is less than its size=%d", entry.Capacity, size)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From cd902d934ac46371395c9eb8c8fa26a13bf403fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 11/34] fix: bound the memory used for reading damaged database
 entries

---
 internal/infra/recdb/likeprotocol.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 9272404..cc47a56 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -19,6 +19,26 @@ func NewLikeProtocol() ConcreteProtocol {
 	return &likeProtocol{}
 }
 
+// Reads the list of items. The memory is allocated as the data arrives since
+// the number of the items may be damaged.
+func readItems(count uint32, reader io.Reader) ([]uint64, error) {
+	const maxChunk = 1024
+	items := make([]uint64, 0)
+	for uint32(len(items)) < count {
+		chunk := count - uint32(len(items))
+		if chunk > maxChunk {
+			chunk = maxChunk
+		}
+		buffer := make([]uint64, chunk)
+		err := binary.Read(reader, binary.BigEndian, buffer)
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, buffer...)
+	}
+	return items, nil
+}
+
 // Reads entry data filling the `Entry.Data` struct.
 // Returns the number of the bytes having read.
 // The returned size can vary from 0 to `Entry.Capacity`.
@@ -35,8 +55,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	likes := make([]uint64, numLikes)
-	err = binary.Read(reader, binary.BigEndian, likes)
+	likes, err := readItems(numLikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -46,8 +65,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	dislikes := make([]uint64, numDislikes)
-	err = binary.Read(reader, binary.BigEndian, dislikes)
+	dislikes, err := readItems(numDislikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -62,7 +80,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, fmt.Errorf("cannot predict data size: %w", err)
 	}
-	if size > int(entry.Capacity-entryHeaderSize) {
+	if size > int(entry.Capacity)-entryHeaderSize {
 		return 0, fmt.Errorf("entry's capacity=%d is less than data len=%d",
 			entry.Capacity, size)
 	}
-- 
2.43.0


From b353486041cc35b272a393088ecaa5faf648ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 12/34] fix: rewrite database entries at their own position

---
 internal/infra/recdb/iterator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..db234bc 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -58,7 +58,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -105,17 +105,23 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	// The position of the file itself is ahead because of the buffering
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
+	// Continue with the next entry
+	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
+	iter.reader.Reset(iter.file)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
+	if seekErr != nil {
+		return fmt.Errorf(msg, seekErr)
+	}
 	if uint32(n) != entry.Capacity {
 		return fmt.Errorf("expected to write %d bytes, written %d", entry.Capacity, n)
 	}
-	iter.reader.Reset(iter.file)
 	return nil
 }
-- 
2.43.0


From f3c467b4d0d78ee87bd80132ab6ce17db0253cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 13/34] fix: similarity of profiles having no common weight and
 fractional weights

---
 internal/domain/profile.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..b7e2ffc 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -99,7 +99,10 @@ func computeSimilarityBetweenSets(itemsA []uint64, itemsB []uint64) (float32, in
 func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32 {
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
-	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
-	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
-		(float32(likesWeight) + float32(dislikesWeight)))
+	factoredDislikesWeight := float32(dislikesWeight) * dislikeFactor
+	if float32(likesWeight)+factoredDislikesWeight == 0 {
+		return 0
+	}
+	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*factoredDislikesWeight) /
+		(float32(likesWeight) + factoredDislikesWeight))
 }
-- 
2.43.0


From 37aa29aebaa76eecbbe4076872ff4d993c069f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 14/34] fix: skipping up to the end of a stream is not an error

---
 internal/helpers/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 6f0cb36..a9c1d78 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -40,7 +40,7 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 		}
 		read, err := reader.Read(dump[:chunk])
 		skipped += read
-		if err != nil {
+		if err != nil && skipped < size {
 			return skipped, err
 		}
 	}
-- 
2.43.0


From 36435cfcee48270af78d7b1a9f0ac12efea2b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 15/34] fix: keep the order when inserting next to duplicates

---
 internal/helpers/arrays.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b352a02..59922a8 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -137,13 +137,25 @@ func Insert[T Numeric](haystack []T, index int, value T) []T {
 	return haystack
 }
 
+// Moves the index of the closest element to the end of its equal elements that
+// is next to the value.
+func skipDuplicates[T Numeric](haystack []T, index int, value T) int {
+	for index+1 < len(haystack) && haystack[index+1] <= value {
+		index++
+	}
+	for index > 0 && haystack[index-1] > value {
+		index--
+	}
+	return index
+}
+
 // Inserts the element to the array keeping it ordered.
 // The function preserves order of the elements.
 func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
 	if len(haystack) == 0 {
 		return append(haystack, value)
 	}
-	index := BinaryIndexOfClosest(haystack, value)
+	index := skipDuplicates(haystack, BinaryIndexOfClosest(haystack, value), value)
 	if value >= haystack[index] {
 		return Insert(haystack, index+1, value)
 	}
@@ -157,7 +169,7 @@ func PutSavingOrder[T Numeric](haystack []T, value T) []T {
 	if len(haystack) == 0 {
 		return append(haystack, value)
 	}
-	index := BinaryIndexOfClosest(haystack, value)
+	index := skipDuplicates(haystack, BinaryIndexOfClosest(haystack, value), value)
 	if value == haystack[index] {
 		return haystack
 	}
-- 
2.43.0


From 20d76fe982fda7b493b1d2028de4ef1c2da0548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 16/34] fix: an empty read at the end of the file buffer is not
 an error

---
 internal/helpers/file_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/helpers/file_buffer.go b/internal/helpers/file_buffer.go
index 51491f6..0fa24b9 100644
--- a/internal/helpers/file_buffer.go
+++ b/internal/helpers/file_buffer.go
@@ -39,7 +39,7 @@ func (fb *FileBuffer) Read(b []byte) (int, error) {
 		return 0, errors.New("cannot read from closed file buffer")
 	}
 	available := len(fb.buffer) - int(fb.offset)
-	if available == 0 {
+	if available == 0 && len(b) > 0 {
 		return 0, io.EOF
 	}
 	size := len(b)
-- 
2.43.0


From 328b84932650c9e895bd0d66f05eedb7d83079a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 17/34] fix: remember the capacity of the last entry that has
 been read

---
 internal/infra/recdb/iterator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index db234bc..e34601a 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -86,9 +86,11 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
+	previous := iter.entry
 	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
 	iter.fileOffset += int64(size)
 	if err != nil {
+		iter.entry = previous
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
 	iter.entryIndex++
-- 
2.43.0


From 935f0180caa3f543cae978cf9887b0c7b001b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 18/34] fix: answer the request to rename a namespace

---
 internal/domain/likenamespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index c2533ee..b0f154c 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -71,7 +71,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	result := make(chan error, 1)
+	result <- nil
+	return result
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From 48778be71ec7d6213d282c1295d098b9e756a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 19/34] fix: take the queued actions of a namespace in batches

---
 internal/domain/likenamespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index b0f154c..e297ad5 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -189,7 +189,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 				// But not too much, though.
 				time.Sleep(ns.actionQueueFillWaitTime)
 				// Take out actions from the channel
-				actions := make([]Action, 1, len(ns.action)+1)
+				actions := make([]Action, len(ns.action)+1)
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
 				for i := 1; i < len(actions); i++ {
-- 
2.43.0


From 5aa3d06ed258bfbabfb889e302f809958c3121c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 20/34] fix: answer every request while a namespace is being
 stopped

---
 internal/domain/likenamespace.go | 62 ++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index e297ad5..a9e6254 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -7,9 +7,13 @@ import (
 	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 	"time"
 )
 
+// The response to the actions that a stopped namespace hasn't executed.
+var errNamespaceStopped = errors.New("the namespace stopped")
+
 // likeNamespace performs the same function as databases in relational databases.
 type likeNamespace struct {
 	name                    valueobjects.NamespaceName
@@ -21,6 +25,8 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	queueMutex              sync.RWMutex
+	stopped                 bool
 }
 
 // Compile-time type check
@@ -178,6 +184,8 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		for {
 			select {
 			case <-ctx.Done():
+				// The queue must be closed for not to wait for new actions
+				go ns.Stop()
 				ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
 				return
 			case action, more := <-ns.action:
@@ -209,9 +217,31 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
 	log.Printf("Stopping namespace %s...\n", ns.name)
+	ns.queueMutex.Lock()
+	defer ns.queueMutex.Unlock()
+	if ns.stopped {
+		return
+	}
+	ns.stopped = true
 	close(ns.action)
 }
 
+// Keeps the queue from being closed until unlockQueue() is called. Returns an
+// error (leaving the queue unlocked) if it's already closed.
+func (ns *likeNamespace) lockQueue() error {
+	ns.queueMutex.RLock()
+	if ns.stopped {
+		ns.queueMutex.RUnlock()
+		return errNamespaceStopped
+	}
+	return nil
+}
+
+// Lets the queue be closed.
+func (ns *likeNamespace) unlockQueue() {
+	ns.queueMutex.RUnlock()
+}
+
 func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
 	// Get actions from the buffer and send an error to each one
 	for {
@@ -219,13 +249,13 @@ func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActio
 		if !more {
 			break
 		}
-		action.Error <- errors.New("the namespace stopped")
+		action.Error <- errNamespaceStopped
 	}
 	// Send an error to each action that has been taken out from the buffer
 	// and should has been processed
 	if takenActions != nil {
 		for _, action := range *takenActions {
-			action.Error <- errors.New("the namespace stopped")
+			action.Error <- errNamespaceStopped
 		}
 	}
 }
@@ -233,14 +263,21 @@ func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActio
 // Removes the profile by its ID.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) DeleteProfile(user uint64) error {
+	if err := ns.lockQueue(); err != nil {
+		return err
+	}
 	err := make(chan error)
 	ns.action <- Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}
+	ns.unlockQueue()
 	return <-err
 }
 
 // Returns the profile by its ID or nil if it isn't found.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
+	if err := ns.lockQueue(); err != nil {
+		return nil, err
+	}
 	errChan := make(chan error)
 	profileChan := make(chan *Profile)
 	ns.action <- Action{
@@ -248,6 +285,7 @@ func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 		errChan,
 		GetProfilePayload{user, profileChan},
 	}
+	ns.unlockQueue()
 	select {
 	case err := <-errChan:
 		return nil, err
@@ -258,27 +296,42 @@ func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 
 // Sets an item of the profile liked.
 func (ns *likeNamespace) Like(user uint64, item uint64) error {
+	if err := ns.lockQueue(); err != nil {
+		return err
+	}
 	err := make(chan error)
 	ns.action <- Action{ActionLike, err, LikePayload{user, item}}
+	ns.unlockQueue()
 	return <-err
 }
 
 // Sets an item of the profile disliked.
 func (ns *likeNamespace) Dislike(user uint64, item uint64) error {
+	if err := ns.lockQueue(); err != nil {
+		return err
+	}
 	err := make(chan error)
 	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
+	ns.unlockQueue()
 	return <-err
 }
 
 // Sets an item of the profile undefined (not liked nor disliked).
 func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
+	if err := ns.lockQueue(); err != nil {
+		return err
+	}
 	err := make(chan error)
 	ns.action <- Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}
+	ns.unlockQueue()
 	return <-err
 }
 
 // Returns the most similar profiles to the given one.
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
+	if err := ns.lockQueue(); err != nil {
+		return nil, err
+	}
 	errChan := make(chan error)
 	profilesChan := make(chan *[]SimilarProfile)
 	ns.action <- Action{
@@ -286,6 +339,7 @@ func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, err
 		errChan,
 		GetSimilarProfilesPayload{user, profilesChan},
 	}
+	ns.unlockQueue()
 	select {
 	case err := <-errChan:
 		return nil, err
@@ -296,6 +350,9 @@ func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, err
 
 // Returns the recommended items for the user.
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
+	if err := ns.lockQueue(); err != nil {
+		return nil, err
+	}
 	errChan := make(chan error)
 	recsChan := make(chan *[]RecItem)
 	ns.action <- Action{
@@ -303,6 +360,7 @@ func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
 		errChan,
 		RecommendItemsPayload{user, recsChan},
 	}
+	ns.unlockQueue()
 	select {
 	case err := <-errChan:
 		return nil, err
-- 
2.43.0


From b2129f786a76607054b2437684aabc86ba21f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 21/34] fix: name of the path parameter of the namespace routes

---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..a5973d7 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From 1acf76ca61ac86a8c97f97ffa532adf28d76ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 22/34] fix: accept zero as the dislike factor

---
 internal/api/shard/dto/namespacecreaterequest.go | 10 +++++-----
 internal/api/shard/dto/namespaceupdaterequest.go |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/api/shard/dto/namespacecreaterequest.go b/internal/api/shard/dto/namespacecreaterequest.go
index c412fe3..9e90a9b 100644
--- a/internal/api/shard/dto/namespacecreaterequest.go
+++ b/internal/api/shard/dto/namespacecreaterequest.go
@@ -7,10 +7,10 @@ import (
 
 // A DTO for creating a Namespace.
 type NamespaceCreateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	Type               string  `json:"type" binding:"required,oneof=like"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	Type               string   `json:"type" binding:"required,oneof=like"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, error) {
@@ -30,7 +30,7 @@ func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, e
 		Name:               domainName,
 		Type:               domainType,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
diff --git a/internal/api/shard/dto/namespaceupdaterequest.go b/internal/api/shard/dto/namespaceupdaterequest.go
index e774db2..40390d1 100644
--- a/internal/api/shard/dto/namespaceupdaterequest.go
+++ b/internal/api/shard/dto/namespaceupdaterequest.go
@@ -7,9 +7,9 @@ import (
 
 // A DTO for updating a Namespace.
 type NamespaceUpdateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, error) {
@@ -20,7 +20,7 @@ func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, e
 	domainDto := &domain.NamespaceUpdateRequest{
 		Name:               domainName,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
-- 
2.43.0


From f2197fa9d788aec33421798ac512bc891f7d6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 23/34] fix: keep the namespace files in the configured
 directory

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..4143b75 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -60,6 +60,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From 432feeb0effb5215b0b4ec6e21a738f68daa5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 24/34] fix: save and load the settings of the namespaces

---
 internal/domain/likenamespace.go    |  8 +++++
 internal/domain/namespace.go        |  1 +
 internal/domain/namespaceservice.go | 54 +++++++++++++++++++++++++++--
 3 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index a9e6254..265f527 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -99,6 +99,11 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	filePath := ns.basePath + ns.name.Value() + ".delta"
@@ -146,6 +151,9 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
+	if ns.likeStorageFactory == nil {
+		return nil, fmt.Errorf("no like storage factory for %s", ns.name.Value())
+	}
 	filePath := ns.basePath + ns.name.Value() + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 4143b75..e23e258 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -24,6 +24,14 @@ type NamespaceUpdateRequest struct {
 	DislikeFactor      float32
 }
 
+// A namespace in the namespace list file.
+type namespaceRecord struct {
+	Name               string  `json:"name"`
+	Type               string  `json:"type"`
+	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
+	DislikeFactor      float32 `json:"dislikeFactor"`
+}
+
 // Manages namespaces.
 type NamespaceService struct {
 	namespaces          []Namespace
@@ -92,16 +100,58 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	records := make([]namespaceRecord, 0)
+	err = json.Unmarshal(data, &records)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	namespaces := make([]Namespace, 0, len(records))
+	names := make(map[string]bool)
+	for i := range records {
+		ns, err := s.restoreNamespace(&records[i])
+		if err != nil {
+			return fmt.Errorf("failed to decode %s: %v", filePath, err)
+		}
+		if names[records[i].Name] {
+			return fmt.Errorf("failed to decode %s: duplicate name %s", filePath, records[i].Name)
+		}
+		names[records[i].Name] = true
+		namespaces = append(namespaces, ns)
+	}
+	s.namespaces = namespaces
 	return nil
 }
 
+// Creates a namespace by its record in the namespace list file.
+func (s *NamespaceService) restoreNamespace(record *namespaceRecord) (Namespace, error) {
+	name, err := valueobjects.ParseNamespaceName(record.Name)
+	if err != nil {
+		return nil, err
+	}
+	nsType, err := valueobjects.ParseNamespaceType(record.Type)
+	if err != nil {
+		return nil, err
+	}
+	return s.forgeNamespace(&NamespaceCreateRequest{
+		Name:               name,
+		Type:               nsType,
+		MaxSimilarProfiles: record.MaxSimilarProfiles,
+		DislikeFactor:      record.DislikeFactor,
+	})
+}
+
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
-	data, err := json.Marshal(s.namespaces)
+	records := make([]namespaceRecord, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		records[i] = namespaceRecord{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
-- 
2.43.0


From 63d7170628e68a373096c0c00bcf8cd39814dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 25/34] fix: default limit of similar profiles when updating a
 namespace

---
 internal/domain/likenamespace.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 265f527..03b5751 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -14,6 +14,9 @@ import (
 // The response to the actions that a stopped namespace hasn't executed.
 var errNamespaceStopped = errors.New("the namespace stopped")
 
+// The maximum number of similar profiles if it's not specified.
+const defaultMaxSimilarProfiles = 1000
+
 // likeNamespace performs the same function as databases in relational databases.
 type likeNamespace struct {
 	name                    valueobjects.NamespaceName
@@ -57,9 +60,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		action:                  make(chan Action, 100),
 	}
 	// Set defaults
-	if ns.maxSimilarProfiles == 0 {
-		ns.maxSimilarProfiles = 1000
-	}
+	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	return ns
 }
 
@@ -84,6 +85,9 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
+	if limit == 0 {
+		limit = defaultMaxSimilarProfiles
+	}
 	ns.maxSimilarProfiles = limit
 }
 
-- 
2.43.0


From 6422f4b64bfc57fd5108bd0a51e9d859fb514abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 26/34] fix: replace the namespace list file atomically

---
 internal/domain/namespaceservice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index e23e258..028aed9 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -156,9 +156,15 @@ func (s *NamespaceService) SaveNamespaces() error {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
 	filePath := s.getNamespacesJsonPath()
-	err = os.WriteFile(filePath, data, 0644)
+	// The previous list stays intact until the new one is completely written
+	tmpPath := filePath + ".tmp"
+	err = os.WriteFile(tmpPath, data, 0644)
 	if err != nil {
-		return fmt.Errorf("failed to write to %s: %v", filePath, err)
+		return fmt.Errorf("failed to write to %s: %v", tmpPath, err)
+	}
+	err = os.Rename(tmpPath, filePath)
+	if err != nil {
+		return fmt.Errorf("failed to replace %s: %v", filePath, err)
 	}
 	return nil
 }
-- 
2.43.0


From 0cf6945b0de4e7560e79fc54a0d3067dc4ec8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 27/34] fix: undo the changes of namespaces that cannot be
 saved

---
 internal/domain/namespaceservice.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 028aed9..c302fc9 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -206,6 +206,7 @@ func (s *NamespaceService) CreateNamespace(
 	}
 	s.namespaces = append(s.namespaces, ns)
 	if err = s.SaveNamespaces(); err != nil {
+		s.namespaces = s.namespaces[:len(s.namespaces)-1]
 		return nil, err
 	}
 	return ns, nil
@@ -223,12 +224,17 @@ func (s *NamespaceService) UpdateNamespace(
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
+	dislikeFactor := ns.GetDislikeFactor()
+	maxSimilarProfiles := ns.GetMaxSimilarProfiles()
 	if err := <-ns.Rename(dto.Name); err != nil {
 		return nil, err
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	if err := s.SaveNamespaces(); err != nil {
+		<-ns.Rename(name)
+		ns.SetDislikeFactor(dislikeFactor)
+		ns.SetMaxSimilarProfiles(maxSimilarProfiles)
 		return nil, err
 	}
 	return ns, nil
@@ -241,10 +247,12 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
-	s.namespaces[index].Stop()
-	s.namespaces = helpers.Remove(s.namespaces, index)
+	namespaces := s.namespaces
+	s.namespaces = helpers.Remove(append([]Namespace{}, namespaces...), index)
 	if err := s.SaveNamespaces(); err != nil {
+		s.namespaces = namespaces
 		return err
 	}
+	namespaces[index].Stop()
 	return nil
 }
-- 
2.43.0


From 84bac5257c9d447b0a32e6e0446fb5646b6ea353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 28/34] fix: synchronize the namespace management

---
 internal/domain/likenamespace.go    | 17 ++++++++++++--
 internal/domain/namespaceservice.go | 35 +++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 03b5751..6c58a16 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -28,6 +28,7 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	settingsMutex           sync.RWMutex
 	queueMutex              sync.RWMutex
 	stopped                 bool
 }
@@ -66,6 +67,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 
 // Returns the name of the namespace.
 func (ns *likeNamespace) GetName() valueobjects.NamespaceName {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.name
 }
 
@@ -76,7 +79,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 
 // Renames the namespace.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
+	ns.settingsMutex.Lock()
 	ns.name = name
+	ns.settingsMutex.Unlock()
 	// TODO: rename the files
 	result := make(chan error, 1)
 	result <- nil
@@ -88,11 +93,15 @@ func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
 	if limit == 0 {
 		limit = defaultMaxSimilarProfiles
 	}
+	ns.settingsMutex.Lock()
+	defer ns.settingsMutex.Unlock()
 	ns.maxSimilarProfiles = limit
 }
 
 // Returns maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.maxSimilarProfiles
 }
 
@@ -100,11 +109,15 @@ func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
 // The value ranges from 0 to 1. 0.5 means that likes and dislikes has equal
 // effect on similarity.
 func (ns *likeNamespace) SetDislikeFactor(value float32) {
+	ns.settingsMutex.Lock()
+	defer ns.settingsMutex.Unlock()
 	ns.dislikeFactor = value
 }
 
 // Returns how much dislikes affect similarity of profiles.
 func (ns *likeNamespace) GetDislikeFactor() float32 {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.dislikeFactor
 }
 
@@ -192,7 +205,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
-		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer log.Printf("LikeNamespace %s stopped\n", ns.GetName().Value())
 		for {
 			select {
 			case <-ctx.Done():
@@ -228,7 +241,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
-	log.Printf("Stopping namespace %s...\n", ns.name)
+	log.Printf("Stopping namespace %s...\n", ns.GetName().Value())
 	ns.queueMutex.Lock()
 	defer ns.queueMutex.Unlock()
 	if ns.stopped {
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index c302fc9..37610eb 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
+	"sync"
 )
 
 // A DTO for creating a Namespace.
@@ -34,6 +35,7 @@ type namespaceRecord struct {
 
 // Manages namespaces.
 type NamespaceService struct {
+	mutex               sync.RWMutex
 	namespaces          []Namespace
 	context             context.Context
 	basePath            string
@@ -81,7 +83,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
-	for _, ns := range s.namespaces {
+	for _, ns := range s.GetNamespaces() {
 		ns.Start(ctx)
 	}
 	return nil
@@ -142,6 +144,13 @@ func (s *NamespaceService) restoreNamespace(record *namespaceRecord) (Namespace,
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.saveNamespaces()
+}
+
+// Saves namespace list to the file. The mutex must be locked for writing.
+func (s *NamespaceService) saveNamespaces() error {
 	records := make([]namespaceRecord, len(s.namespaces))
 	for i, ns := range s.namespaces {
 		records[i] = namespaceRecord{
@@ -171,10 +180,13 @@ func (s *NamespaceService) SaveNamespaces() error {
 
 // Returns the list of currently loaded namespaces.
 func (s *NamespaceService) GetNamespaces() []Namespace {
-	return s.namespaces
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return append([]Namespace{}, s.namespaces...)
 }
 
 // Returns the index of the namespace in the namespace list.
+// The mutex must be locked.
 func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
 	for i, ns := range s.namespaces {
 		if ns.GetName() == name {
@@ -186,6 +198,8 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 
 // Returns the pointer to the namespace by its name, or nil if not found.
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
@@ -197,6 +211,8 @@ func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) N
 func (s *NamespaceService) CreateNamespace(
 	dto *NamespaceCreateRequest,
 ) (Namespace, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -205,7 +221,7 @@ func (s *NamespaceService) CreateNamespace(
 		return nil, err
 	}
 	s.namespaces = append(s.namespaces, ns)
-	if err = s.SaveNamespaces(); err != nil {
+	if err = s.saveNamespaces(); err != nil {
 		s.namespaces = s.namespaces[:len(s.namespaces)-1]
 		return nil, err
 	}
@@ -217,10 +233,13 @@ func (s *NamespaceService) UpdateNamespace(
 	name valueobjects.NamespaceName,
 	dto *NamespaceUpdateRequest,
 ) (Namespace, error) {
-	ns := s.GetNamespaceByName(name)
-	if ns == nil {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	index := s.getNamespaceIndexByName(name)
+	if index < 0 {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
+	ns := s.namespaces[index]
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -231,7 +250,7 @@ func (s *NamespaceService) UpdateNamespace(
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		<-ns.Rename(name)
 		ns.SetDislikeFactor(dislikeFactor)
 		ns.SetMaxSimilarProfiles(maxSimilarProfiles)
@@ -243,13 +262,15 @@ func (s *NamespaceService) UpdateNamespace(
 // Removes namespace registration from the engine and persists the change.
 // The deleted namespace stops running automatically.
 func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
 	namespaces := s.namespaces
 	s.namespaces = helpers.Remove(append([]Namespace{}, namespaces...), index)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		s.namespaces = namespaces
 		return err
 	}
-- 
2.43.0


From b4879da9381214bf88d38573fd4914086341f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 29/34] fix: end the server run when listening fails

---
 internal/api/shard/application.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index 97b5a67..a61658c 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,7 +50,7 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
-	listenError := make(chan error)
+	listenError := make(chan error, 1)
 
 	go func() {
 		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
@@ -63,12 +63,16 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	// kill (no param) default send syscanll.SIGTERM
 	// kill -2 is syscall.SIGINT
 	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
 	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
-	<-quit
+	select {
+	case err := <-listenError:
+		return err
+	case <-quit:
+	}
 	log.Println("Shutdown server ...")
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From b429635cab3dd580399934a83217e3a3dd0f88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 30/34] fix: catch the termination signals before serving
 requests

---
 internal/api/shard/application.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index a61658c..46a1411 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -52,6 +52,13 @@ func NewApplication(dto *ApplicationDto) *Application {
 func (srv *Application) Run() error {
 	listenError := make(chan error, 1)
 
+	// The signals must be caught before the first request may be served.
+	quit := make(chan os.Signal, 1)
+	// kill (no param) default send syscanll.SIGTERM
+	// kill -2 is syscall.SIGINT
+	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
+	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
+
 	go func() {
 		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			listenError <- fmt.Errorf("server listening failed: %v", err)
@@ -63,11 +70,6 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal, 1)
-	// kill (no param) default send syscanll.SIGTERM
-	// kill -2 is syscall.SIGINT
-	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
-	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
 	select {
 	case err := <-listenError:
 		return err
-- 
2.43.0


From 7acec5e57186887245d0d95fc5b9483f4523ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:13 +0000
Subject: [PATCH 31/34] fix: restore the position of a record iterator after a
 failed file operation

---
 internal/infra/recdb/iterator.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index e34601a..b3885bb 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -34,6 +34,7 @@ type iterator struct {
 	fileOffset int64
 	entry      Entry
 	proto      Protocol
+	displaced  bool // the file must be positioned to fileOffset before reading on
 }
 
 // Compile-time type check
@@ -58,19 +59,21 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto, false}
 	return iter, nil
 }
 
 // Sets the iterator pointer to the beginging of the entries.
 func (iter *iterator) Rewind() error {
-	var err error
-	iter.fileOffset, err = iter.file.Seek(int64(entriesOffset), 0)
-	iter.entryIndex = 0
-	iter.reader.Reset(iter.file)
+	offset, err := iter.file.Seek(int64(entriesOffset), 0)
 	if err != nil {
+		iter.displaced = true
 		return fmt.Errorf("failed to rewind DB iterator: %v", err)
 	}
+	iter.fileOffset = offset
+	iter.entryIndex = 0
+	iter.reader.Reset(iter.file)
+	iter.displaced = false
 	return nil
 }
 
@@ -86,13 +89,21 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
+	if iter.displaced {
+		if _, err := iter.file.Seek(iter.fileOffset, io.SeekStart); err != nil {
+			return nil, fmt.Errorf("failed to iterate next: %v", err)
+		}
+		iter.reader.Reset(iter.file)
+		iter.displaced = false
+	}
 	previous := iter.entry
 	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
 	if err != nil {
 		iter.entry = previous
+		iter.displaced = true
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
 	entryCopy := iter.entry
 	return &entryCopy, nil
@@ -108,6 +119,7 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 		return errors.New("entry capacity mismatch")
 	}
 	// The position of the file itself is ahead because of the buffering
+	iter.displaced = true
 	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
@@ -116,6 +128,7 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	// Continue with the next entry
 	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
 	iter.reader.Reset(iter.file)
+	iter.displaced = seekErr != nil
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From efae8f512e16480e952f7242764dd48781591597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:42 +0000
Subject: [PATCH 32/34] fix: tell which limit a field violates in validation
 errors

---
 internal/api/shard/endpoints/helpers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/api/shard/endpoints/helpers.go b/internal/api/shard/endpoints/helpers.go
index 6e7b5a4..8cdd611 100644
--- a/internal/api/shard/endpoints/helpers.go
+++ b/internal/api/shard/endpoints/helpers.go
@@ -18,6 +18,16 @@ func getFieldErrorMsg(fieldError validator.FieldError) string {
 		return "Should be less than " + fieldError.Param()
 	case "gte":
 		return "Should be greater than " + fieldError.Param()
+	case "min":
+		return "Should be at least " + fieldError.Param()
+	case "max":
+		return "Should be at most " + fieldError.Param()
+	case "oneof":
+		return "Should be one of: " + fieldError.Param()
+	case "lowercase":
+		return "Should be in lowercase"
+	case "alphanum":
+		return "Should consist of letters and digits"
 	}
 	return "Unknown error"
 }
-- 
2.43.0


From ee7aebed352a659451e3ce62cd4b4f7ac9b1fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:34 +0000
Subject: [PATCH 33/34] fix: read a namespace's name under its lock when
 starting it

---
 internal/domain/likenamespace.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 6c58a16..eba8edc 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -122,8 +122,8 @@ func (ns *likeNamespace) GetDislikeFactor() float32 {
 }
 
 // Opens delta storage and recovers it if it is needed.
-func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".delta"
+func (ns *likeNamespace) openMaybeRecoverDeltaStorage(name string) (DeltaStorage, error) {
+	filePath := ns.basePath + name + ".delta"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -131,14 +131,14 @@ func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	storage, err := ns.deltaStorageFactory.OpenMaybeRecover(file)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open delta storage for %s: %w", name, err)
 	}
 	return storage, nil
 }
 
 // Opens delta storage and recovers it if it is needed.
-func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".index"
+func (ns *likeNamespace) openMaybeResetIndexStorage(name string) (IndexStorage, error) {
+	filePath := ns.basePath + name + ".index"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -147,7 +147,7 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 	if err != nil {
 		if !errors.Is(err, NewCorruptedFileError()) {
 			file.Close()
-			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+			return nil, fmt.Errorf("failed to open delta storage for %s: %w", name, err)
 		}
 		// The factory has closed the file
 		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
@@ -165,13 +165,14 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverLikeStorage(
+	name string,
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
 	if ns.likeStorageFactory == nil {
-		return nil, fmt.Errorf("no like storage factory for %s", ns.name.Value())
+		return nil, fmt.Errorf("no like storage factory for %s", name)
 	}
-	filePath := ns.basePath + ns.name.Value() + ".recdb"
+	filePath := ns.basePath + name + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open recdb file %s: %w", filePath, err)
@@ -179,23 +180,25 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	storage, err := ns.likeStorageFactory.OpenMaybeRecover(file, deltaStorage, indexStorage)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open like storage for %s: %w", name, err)
 	}
 	return storage, nil
 }
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
-	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
+	// The namespace may be renamed meanwhile
+	name := ns.GetName().Value()
+	deltaStorage, err := ns.openMaybeRecoverDeltaStorage(name)
 	if err != nil {
 		return err
 	}
-	indexStorage, err := ns.openMaybeResetIndexStorage()
+	indexStorage, err := ns.openMaybeResetIndexStorage(name)
 	if err != nil {
 		deltaStorage.Close()
 		return err
 	}
-	likeStorage, err := ns.openMaybeRecoverLikeStorage(deltaStorage, indexStorage)
+	likeStorage, err := ns.openMaybeRecoverLikeStorage(name, deltaStorage, indexStorage)
 	if err != nil {
 		deltaStorage.Close()
 		indexStorage.Close()
-- 
2.43.0


From b381bc3d1f7486291c0a4029f5d120d09a77b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:34 +0000
Subject: [PATCH 34/34] fix: skip reading into a buffer that is not shared

---
 internal/helpers/io.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index a9c1d78..3b6e895 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -7,9 +7,6 @@ import (
 // Static zero byte buffer that are used for filling free space in files.
 var zeros = [100]byte{}
 
-// /dev/null
-var dump = [100]byte{}
-
 // Effectively writes continuous range of zero-filled bytes into a writer.
 func WriteZeros(size int, writer io.Writer) (int, error) {
 	total := 0
@@ -32,6 +29,7 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
+	dump := [100]byte{} // not shared: there may be several readers at a time
 	skipped := 0
 	for skipped < size {
 		chunk := size - skipped
-- 
2.43.0

