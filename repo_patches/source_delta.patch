From 646300e87dcedb56408096ed7ca32cee3aa920aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 01/25] fix: index every member at its real position, no matter
 what is between members

Resume after malformed or cut off members block by block, only strip suffixes
from records which carry content, never let moves overwrite other headers and
ignore headers which have been deleted before when replaying.
---
 internal/tarext/read.go | 202 ++++++++++++++++++++++++++++++++++
 pkg/recovery/index.go   | 238 ++++++----------------------------------
 pkg/recovery/query.go   | 192 ++++----------------------------
 3 files changed, 255 insertions(+), 377 deletions(-)
 create mode 100644 internal/tarext/read.go

diff --git a/internal/tarext/read.go b/internal/tarext/read.go
new file mode 100644
index 0000000..0bc7096
--- /dev/null
+++ b/internal/tarext/read.go
@@ -0,0 +1,202 @@
+package tarext
+
+import (
+	"archive/tar"
+	"bufio"
+	"io"
+
+	"github.com/pojntfx/stfs/internal/ioext"
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// MemberReader iterates over the members of a drive, which is a concatenation of tar archives
+type MemberReader interface {
+	// Next returns the next member's header, as well as the record and block at which the member starts. Once there are no more members it returns io.EOF.
+	Next() (hdr *tar.Header, record int64, block int64, err error)
+}
+
+// NewMemberReader creates a reader which returns all members starting from record & block
+func NewMemberReader(
+	reader config.DriveReaderConfig,
+	mt config.MagneticTapeIO,
+	recordSize int,
+	record int,
+	block int,
+) (MemberReader, error) {
+	if reader.DriveIsRegular {
+		return &regularMemberReader{
+			drive:      &errorReader{reader: reader.Drive},
+			seeker:     reader.Drive,
+			recordSize: int64(recordSize),
+			next:       (int64(record)*int64(recordSize) + int64(block)) * config.MagneticTapeBlockSize,
+		}, nil
+	}
+
+	// Seek to record
+	if err := mt.SeekToRecordOnTape(reader.Drive.Fd(), int32(record)); err != nil {
+		return nil, err
+	}
+
+	m := &tapeMemberReader{
+		reader:     reader,
+		mt:         mt,
+		recordSize: int64(recordSize),
+	}
+	m.reset(int64(record))
+
+	// Seek to block
+	if _, err := io.CopyN(io.Discard, m.counter, int64(block)*config.MagneticTapeBlockSize); err != nil && err != io.EOF {
+		return nil, err
+	}
+
+	return m, nil
+}
+
+// errorReader remembers the last error that isn't EOF, so that errors of the drive can be told apart from malformed archives
+type errorReader struct {
+	reader io.Reader
+
+	err error
+}
+
+func (r *errorReader) Read(p []byte) (n int, err error) {
+	n, err = r.reader.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+
+	return n, err
+}
+
+type regularMemberReader struct {
+	drive      *errorReader
+	seeker     io.Seeker
+	recordSize int64
+
+	counter *ioext.CounterReader
+	tr      *tar.Reader // Set if the content of the current member has not been skipped yet
+	start   int64       // Start of the current member
+	next    int64       // Where to look for the next member
+}
+
+func (m *regularMemberReader) skip() (complete bool, err error) {
+	if m.tr == nil {
+		return true, nil
+	}
+
+	_, err = io.Copy(io.Discard, m.tr)
+	if m.drive.err != nil {
+		return false, m.drive.err
+	}
+
+	// If the content has been cut off we are now at the end of the drive
+	m.tr = nil
+	m.next = m.start + roundUpToBlock(int64(m.counter.BytesRead))
+
+	return err == nil, nil
+}
+
+func (m *regularMemberReader) Next() (hdr *tar.Header, record int64, block int64, err error) {
+	if _, err := m.skip(); err != nil {
+		return nil, -1, -1, err
+	}
+
+	size, err := m.seeker.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, -1, -1, err
+	}
+
+	for ; m.next < size; m.next += config.MagneticTapeBlockSize {
+		if _, err := m.seeker.Seek(m.next, io.SeekStart); err != nil {
+			return nil, -1, -1, err
+		}
+
+		counter := &ioext.CounterReader{Reader: m.drive}
+		tr := tar.NewReader(counter)
+
+		hdr, err := tr.Next()
+		if m.drive.err != nil {
+			return nil, -1, -1, m.drive.err
+		}
+
+		// There is no member at this block, i.e. because it is part of a trailer or of a member that has been cut off, so continue with the following one
+		if err != nil {
+			continue
+		}
+
+		m.tr = tr
+		m.counter = counter
+		m.start = m.next
+
+		// Global headers don't describe a member
+		if hdr.Typeflag == tar.TypeXGlobalHeader {
+			return m.Next()
+		}
+
+		blocks := m.start / config.MagneticTapeBlockSize
+
+		return hdr, blocks / m.recordSize, blocks % m.recordSize, nil
+	}
+
+	return nil, -1, -1, io.EOF
+}
+
+type tapeMemberReader struct {
+	reader     config.DriveReaderConfig
+	mt         config.MagneticTapeIO
+	recordSize int64
+
+	drive   *errorReader
+	counter *ioext.CounterReader
+	tr      *tar.Reader
+}
+
+func (m *tapeMemberReader) reset(record int64) {
+	m.drive = &errorReader{reader: m.reader.Drive}
+	m.counter = &ioext.CounterReader{
+		Reader:    bufio.NewReaderSize(m.drive, int(config.MagneticTapeBlockSize*m.recordSize)),
+		BytesRead: int(m.recordSize * config.MagneticTapeBlockSize * record),
+	}
+	m.tr = tar.NewReader(m.counter)
+}
+
+func (m *tapeMemberReader) Next() (hdr *tar.Header, record int64, block int64, err error) {
+	for {
+		// Skip the content of the current member
+		_, err := io.Copy(io.Discard, m.tr)
+		if err == nil {
+			blocks := roundUpToBlock(int64(m.counter.BytesRead)) / config.MagneticTapeBlockSize
+
+			hdr, err = m.tr.Next()
+			if err == nil {
+				// Global headers don't describe a member
+				if hdr.Typeflag == tar.TypeXGlobalHeader {
+					continue
+				}
+
+				return hdr, blocks / m.recordSize, blocks % m.recordSize, nil
+			}
+		}
+
+		if m.drive.err != nil {
+			return nil, -1, -1, m.drive.err
+		}
+
+		// This is the end of the archive or it has been cut off, so continue with the following one
+		if err := m.mt.GoToNextFileOnTape(m.reader.Drive.Fd()); err != nil {
+			// EOD
+			return nil, -1, -1, io.EOF
+		}
+
+		nextRecord, err := m.mt.GetCurrentRecordFromTape(m.reader.Drive.Fd())
+		if err != nil {
+			return nil, -1, -1, err
+		}
+
+		m.reset(nextRecord)
+	}
+}
+
+func roundUpToBlock(size int64) int64 {
+	return (size + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize * config.MagneticTapeBlockSize
+}
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..0832694 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -2,19 +2,15 @@ package recovery
 
 import (
 	"archive/tar"
-	"bufio"
 	"context"
 	"database/sql"
 	"io"
-	"io/ioutil"
-	"math"
 	"strconv"
 
 	"github.com/pojntfx/stfs/internal/converters"
-	models "github.com/pojntfx/stfs/internal/db/sqlite/models/metadata"
-	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -48,192 +44,33 @@ func Index(
 		}
 	}
 
-	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
-			return err
-		}
-
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
-		i := 0
-
-		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-							break
-						}
-
-						continue
-					}
-
-					break
-				}
-			}
-
-			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
-					if err == io.EOF {
-						// EOF
-						break
-					}
-
-					return err
-				}
-
-				continue
-			}
-
-			if i >= offset {
-				if err := decryptHeader(hdr, i-offset); err != nil {
-					return err
-				}
-
-				if err := verifyHeader(hdr, reader.DriveIsRegular); err != nil {
-					return err
-				}
-
-				if err := indexHeader(record, block, hdr, metadata.Metadata, pipes.Compression, pipes.Encryption, initializing, onHeader); err != nil {
-					return err
-				}
-			}
-
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return err
-			}
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				return err
-			}
-
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return err
-			}
-
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
+	members, err := tarext.NewMemberReader(reader, mt, pipes.RecordSize, record, block)
+	if err != nil {
+		return err
+	}
 
-			i++
-		}
-	} else {
-		// Seek to record
-		if err := mt.SeekToRecordOnTape(reader.Drive.Fd(), int32(record)); err != nil {
-			return err
+	for i := 0; ; i++ {
+		hdr, record, block, err := members.Next()
+		if err == io.EOF {
+			break
 		}
 
-		// Seek to block
-		br := bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-		if _, err := br.Read(make([]byte, block*config.MagneticTapeBlockSize)); err != nil {
+		if err != nil {
 			return err
 		}
 
-		record := int64(record)
-		block := int64(block)
-
-		curr := int64((pipes.RecordSize * config.MagneticTapeBlockSize * int(record)) + (int(block) * config.MagneticTapeBlockSize))
-		counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
-		i := 0
-
-		tr := tar.NewReader(counter)
-		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				if err == io.EOF {
-					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
-						// EOD
-
-						break
-					}
-
-					record, err = mt.GetCurrentRecordFromTape(reader.Drive.Fd())
-					if err != nil {
-						return err
-					}
-					block = 0
-
-					br = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-					curr = int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
-					counter = &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
-					tr = tar.NewReader(counter)
-
-					continue
-				} else {
-					return err
-				}
-			}
-
-			if i >= offset {
-				if err := decryptHeader(hdr, i-offset); err != nil {
-					return err
-				}
-
-				if err := verifyHeader(hdr, reader.DriveIsRegular); err != nil {
-					return err
-				}
-
-				if err := indexHeader(record, block, hdr, metadata.Metadata, pipes.Compression, pipes.Encryption, initializing, onHeader); err != nil {
-					return err
-				}
+		if i >= offset {
+			if err := decryptHeader(hdr, i-offset); err != nil {
+				return err
 			}
 
-			curr = int64(counter.BytesRead)
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+			if err := verifyHeader(hdr, reader.DriveIsRegular); err != nil {
 				return err
 			}
 
-			currAndSize := int64(counter.BytesRead)
-
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
+			if err := indexHeader(record, block, hdr, metadata.Metadata, pipes.Compression, pipes.Encryption, initializing, onHeader); err != nil {
+				return err
 			}
-
-			i++
 		}
 	}
 
@@ -259,7 +96,12 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only records which carry the content of a file have a suffix
+	stfsAction := hdr.PAXRecords[records.STFSRecordAction]
+	_, replacesName := hdr.PAXRecords[records.STFSRecordReplacesName]
+	replacesContent := hdr.PAXRecords[records.STFSRecordReplacesContent] == records.STFSRecordReplacesContentTrue && !replacesName
+	if _, ok := hdr.PAXRecords[records.STFSRecordUncompressedSize]; ok && hdr.FileInfo().Mode().IsRegular() &&
+		(stfsAction == "" || stfsAction == records.STFSRecordActionCreate || (stfsAction == records.STFSRecordActionUpdate && replacesContent)) {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
@@ -299,41 +141,35 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionDelete:
-			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil {
+			// Ignore headers which have been deleted before
+			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
 				return err
 			}
 		case records.STFSRecordActionUpdate:
-			moveAfterEdits := false
-			oldName := hdr.Name
-			if _, ok := hdr.PAXRecords[records.STFSRecordReplacesName]; ok {
-				moveAfterEdits = true
-				oldName = hdr.PAXRecords[records.STFSRecordReplacesName]
-			}
-
-			var newHdr *models.Header
-			if replacesContent, ok := hdr.PAXRecords[records.STFSRecordReplacesContent]; ok && replacesContent == records.STFSRecordReplacesContentTrue {
+			if replacesName {
+				// Move header (will be a no-op if the header has been moved before)
+				if err := metadataPersister.MoveHeader(context.Background(), hdr.PAXRecords[records.STFSRecordReplacesName], hdr.Name, record, block); err != nil {
+					return err
+				}
+			} else if replacesContent {
 				// Content & metadata update; use the new record & block
-				h, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
+				newHdr, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
 				if err != nil {
 					return err
 				}
 
-				newHdr = h
-
 				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 					return err
 				}
 			} else {
 				// Metadata-only update; use the old record & block
-				oldHdr, err := metadataPersister.GetHeader(context.Background(), oldName)
+				oldHdr, err := metadataPersister.GetHeader(context.Background(), hdr.Name)
 				if err == nil {
-					h, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
+					newHdr, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
 					if err != nil {
 						return err
 					}
 
-					newHdr = h
-
 					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 						return err
 					}
@@ -344,14 +180,6 @@ func indexHeader(
 					return err
 				}
 			}
-
-			if moveAfterEdits {
-				// Move header (will be a no-op if the header has been moved before)
-				if err := metadataPersister.MoveHeader(context.Background(), oldName, hdr.Name, record, block); err != nil {
-					return err
-				}
-			}
-
 		default:
 			return config.ErrSTFSActionUnsupported
 		}
diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index f2c1b02..b705e32 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -2,13 +2,10 @@ package recovery
 
 import (
 	"archive/tar"
-	"bufio"
 	"io"
-	"io/ioutil"
-	"math"
 
 	"github.com/pojntfx/stfs/internal/converters"
-	"github.com/pojntfx/stfs/internal/ioext"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
 	"github.com/pojntfx/stfs/pkg/signature"
@@ -27,188 +24,39 @@ func Query(
 ) ([]*tar.Header, error) {
 	headers := []*tar.Header{}
 
-	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
-
-		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return []*tar.Header{}, err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return []*tar.Header{}, err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-
-							break
-						}
-
-						continue
-					}
-
-					break
-				}
-			}
-
-			if hdr == nil {
-				// EOF
-
-				break
-			}
-
-			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
-				return []*tar.Header{}, err
-			}
-
-			if err := signature.VerifyHeader(hdr, reader.DriveIsRegular, pipes.Signature, crypto.Recipient); err != nil {
-				return []*tar.Header{}, err
-			}
-
-			if onHeader != nil {
-				dbhdr, err := converters.TarHeaderToDBHeader(record, -1, block, -1, hdr)
-				if err != nil {
-					return []*tar.Header{}, err
-				}
-
-				onHeader(converters.DBHeaderToConfigHeader(dbhdr))
-			}
-
-			headers = append(headers, hdr)
-
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				return []*tar.Header{}, err
-			}
-
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
+	members, err := tarext.NewMemberReader(reader, mt, pipes.RecordSize, record, block)
+	if err != nil {
+		return []*tar.Header{}, err
+	}
 
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
+	for {
+		hdr, record, block, err := members.Next()
+		if err == io.EOF {
+			break
 		}
-	} else {
-		// Seek to record
-		if err := mt.SeekToRecordOnTape(reader.Drive.Fd(), int32(record)); err != nil {
+
+		if err != nil {
 			return []*tar.Header{}, err
 		}
 
-		// Seek to block
-		br := bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-		if _, err := br.Read(make([]byte, block*config.MagneticTapeBlockSize)); err != nil {
+		if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
 			return []*tar.Header{}, err
 		}
 
-		record := int64(record)
-		block := int64(block)
-
-		curr := int64((pipes.RecordSize * config.MagneticTapeBlockSize * int(record)) + (int(block) * config.MagneticTapeBlockSize))
-		counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
+		if err := signature.VerifyHeader(hdr, reader.DriveIsRegular, pipes.Signature, crypto.Recipient); err != nil {
+			return []*tar.Header{}, err
+		}
 
-		tr := tar.NewReader(counter)
-		for {
-			hdr, err := tr.Next()
+		if onHeader != nil {
+			dbhdr, err := converters.TarHeaderToDBHeader(record, -1, block, -1, hdr)
 			if err != nil {
-				if err == io.EOF {
-					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
-						// EOD
-
-						break
-					}
-
-					record, err = mt.GetCurrentRecordFromTape(reader.Drive.Fd())
-					if err != nil {
-						return []*tar.Header{}, err
-					}
-					block = 0
-
-					br = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-					curr := int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
-					counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
-					tr = tar.NewReader(counter)
-
-					continue
-				} else {
-					return []*tar.Header{}, err
-				}
-			}
-
-			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
-				return []*tar.Header{}, err
-			}
-
-			if err := signature.VerifyHeader(hdr, reader.DriveIsRegular, pipes.Signature, crypto.Recipient); err != nil {
-				return []*tar.Header{}, err
-			}
-
-			if onHeader != nil {
-				dbhdr, err := converters.TarHeaderToDBHeader(record, -1, block, -1, hdr)
-				if err != nil {
-					return []*tar.Header{}, err
-				}
-
-				onHeader(converters.DBHeaderToConfigHeader(dbhdr))
-			}
-
-			headers = append(headers, hdr)
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
 				return []*tar.Header{}, err
 			}
 
-			currAndSize := int64(counter.BytesRead)
-
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
+			onHeader(converters.DBHeaderToConfigHeader(dbhdr))
 		}
+
+		headers = append(headers, hdr)
 	}
 
 	return headers, nil
-- 
2.43.0


From 67a4693bdda9cce3a336f2636f81de1538a3102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 02/25] fix: fetch empty files and always close the destination

---
 pkg/recovery/fetch.go | 96 +++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..8f38796 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -50,7 +50,7 @@ func Fetch(
 
 		// Seek to block
 		br := bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-		if _, err := br.Read(make([]byte, block*config.MagneticTapeBlockSize)); err != nil {
+		if _, err := io.CopyN(io.Discard, br, int64(block)*config.MagneticTapeBlockSize); err != nil {
 			return err
 		}
 
@@ -93,57 +93,71 @@ func Fetch(
 			return err
 		}
 
-		// Don't decompress non-regular files
-		if !hdr.FileInfo().Mode().IsRegular() {
-			if _, err := io.Copy(dstFile, tr); err != nil {
-				return err
-			}
+		if err := copyContent(dstFile, tr, hdr, reader.DriveIsRegular, pipes, crypto); err != nil {
+			_ = dstFile.Close() // The content could not be restored, so the error that caused this is the relevant one
 
-			return nil
-		}
-
-		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
-		if err != nil {
 			return err
 		}
 
-		decompressor, err := compression.Decompress(decryptor, pipes.Compression)
-		if err != nil {
-			return err
-		}
+		return dstFile.Close()
+	}
 
-		sig := ""
-		if hdr.PAXRecords != nil {
-			if s, ok := hdr.PAXRecords[records.STFSRecordSignature]; ok {
-				sig = s
-			}
-		}
+	return nil
+}
 
-		verifier, verify, err := signature.Verify(decompressor, reader.DriveIsRegular, pipes.Signature, crypto.Recipient, sig)
-		if err != nil {
-			return err
-		}
+func copyContent(
+	dst io.Writer,
+	src io.Reader,
+	hdr *tar.Header,
+	isRegular bool,
+	pipes config.PipeConfig,
+	crypto config.CryptoConfig,
+) error {
+	// Don't decompress non-regular files
+	if !hdr.FileInfo().Mode().IsRegular() {
+		_, err := io.Copy(dst, src)
 
-		if _, err := io.Copy(dstFile, verifier); err != nil {
-			return err
-		}
+		return err
+	}
 
-		if err := verify(); err != nil {
-			return err
-		}
+	sig := ""
+	uncompressedSize := ""
+	if hdr.PAXRecords != nil {
+		sig = hdr.PAXRecords[records.STFSRecordSignature]
+		uncompressedSize = hdr.PAXRecords[records.STFSRecordUncompressedSize]
+	}
 
-		if err := decryptor.Close(); err != nil {
-			return err
-		}
+	// Empty files have no content which could be decoded
+	if hdr.Size == 0 && (uncompressedSize == "" || uncompressedSize == "0") {
+		return nil
+	}
 
-		if err := decompressor.Close(); err != nil {
-			return err
-		}
+	decryptor, err := encryption.Decrypt(src, pipes.Encryption, crypto.Identity)
+	if err != nil {
+		return err
+	}
 
-		if err := dstFile.Close(); err != nil {
-			return err
-		}
+	decompressor, err := compression.Decompress(decryptor, pipes.Compression)
+	if err != nil {
+		return err
 	}
 
-	return nil
+	verifier, verify, err := signature.Verify(decompressor, isRegular, pipes.Signature, crypto.Recipient, sig)
+	if err != nil {
+		return err
+	}
+
+	if _, err := io.Copy(dst, verifier); err != nil {
+		return err
+	}
+
+	if err := verify(); err != nil {
+		return err
+	}
+
+	if err := decryptor.Close(); err != nil {
+		return err
+	}
+
+	return decompressor.Close()
 }
-- 
2.43.0


From 8dfe0fafe222b331bb2a05101813525df675cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 03/25] fix: fill the last record of an archive on tapes

---
 internal/tarext/write.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tarext/write.go b/internal/tarext/write.go
index af6a251..1780220 100644
--- a/internal/tarext/write.go
+++ b/internal/tarext/write.go
@@ -28,9 +28,9 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 			}
 
 			if !isRegular {
-				if config.MagneticTapeBlockSize*recordSize-counter.BytesRead > 0 {
-					// Fill the rest of the record with zeros
-					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-counter.BytesRead)); err != nil {
+				if rest := counter.BytesRead % (config.MagneticTapeBlockSize * recordSize); rest > 0 {
+					// Fill the rest of the last record with zeros
+					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-rest)); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 204586dc3f9a652b8f97d961dfbf4874095ffcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 04/25] fix: always release the drive and complete cut off
 tails before appending

---
 internal/tarext/repair.go | 111 ++++++++++++++++++++++++++++++++++++++
 pkg/tape/manager.go       |  97 +++++++++++++++++++++------------
 pkg/tape/write.go         |   6 +++
 3 files changed, 179 insertions(+), 35 deletions(-)
 create mode 100644 internal/tarext/repair.go

diff --git a/internal/tarext/repair.go b/internal/tarext/repair.go
new file mode 100644
index 0000000..69836f0
--- /dev/null
+++ b/internal/tarext/repair.go
@@ -0,0 +1,111 @@
+package tarext
+
+import (
+	"bytes"
+	"io"
+	"os"
+
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// RepairTail makes it possible to append to a regular drive which ends in a member that has been cut off (i.e. because
+// writing it has been interrupted) by completing the tail of the drive. No existing content is changed or removed. It
+// only checks the members after `from` and returns the offset up to which the drive is known to be intact.
+func RepairTail(f *os.File, from int64) (intact int64, err error) {
+	size, err := f.Seek(0, io.SeekEnd)
+	if err != nil {
+		return -1, err
+	}
+
+	if size == from {
+		return size, nil
+	}
+
+	// The drive has been replaced or truncated
+	if size < from {
+		from = 0
+	}
+
+	members := &regularMemberReader{
+		drive:      &errorReader{reader: f},
+		seeker:     f,
+		recordSize: 1,
+		next:       from,
+	}
+
+	end := from // End of the last member
+	for {
+		hdr, start, _, err := members.Next()
+		if err == io.EOF {
+			break
+		}
+
+		if err != nil {
+			return -1, err
+		}
+
+		contentStart := start*config.MagneticTapeBlockSize + int64(members.counter.BytesRead)
+
+		complete, err := members.skip()
+		if err != nil {
+			return -1, err
+		}
+
+		end = members.next
+		if !complete {
+			end = roundUpToBlock(contentStart + hdr.Size)
+		}
+	}
+
+	// Complete the content of a member that has been cut off
+	if end > size {
+		if err := f.Truncate(end); err != nil {
+			return -1, err
+		}
+
+		size = end
+	}
+
+	// Complete a block that has been cut off
+	if missing := roundUpToBlock(size) - size; missing > 0 {
+		tail := make([]byte, config.MagneticTapeBlockSize-missing)
+		if _, err := f.ReadAt(tail, size-int64(len(tail))); err != nil {
+			return -1, err
+		}
+
+		padding := []byte{0}
+		if len(bytes.Trim(tail, "\x00")) > 0 {
+			// Prevent the block from becoming a valid header
+			padding = []byte{0xff}
+		}
+
+		if _, err := f.WriteAt(bytes.Repeat(padding, int(missing)), size); err != nil {
+			return -1, err
+		}
+
+		size += missing
+	}
+
+	// Add a trailer if there is none
+	trailer := make([]byte, config.MagneticTapeBlockSize*2)
+	if size > 0 {
+		tail := make([]byte, len(trailer))
+		if size >= int64(len(tail)) && size-int64(len(tail)) >= end {
+			if _, err := f.ReadAt(tail, size-int64(len(tail))); err != nil {
+				return -1, err
+			}
+		} else {
+			tail = []byte{1}
+		}
+
+		if !bytes.Equal(tail, trailer) {
+			if _, err := f.WriteAt(trailer, size); err != nil {
+				return -1, err
+			}
+
+			size += int64(len(trailer))
+		}
+	}
+
+	return size, nil
+}
diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..2c636c3 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -1,10 +1,10 @@
 package tape
 
 import (
-	"io"
 	"os"
 	"sync"
 
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -16,13 +16,11 @@ type TapeManager struct {
 
 	physicalLock sync.Mutex
 
-	readerLock      sync.Mutex
-	reader          *os.File
-	readerIsRegular bool
-
-	closer func() error
+	closerLock sync.Mutex
+	closer     func() error // Set while the drive is in use
 
 	overwrote bool
+	intact    int64 // Offset up to which the drive is known not to contain members which have been cut off
 }
 
 func NewTapeManager(
@@ -46,7 +44,14 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 	if m.overwrote {
 		overwrite = false
 	}
-	m.overwrote = true
+
+	if !overwrite {
+		if err := m.repairTail(); err != nil {
+			m.physicalLock.Unlock()
+
+			return config.DriveWriterConfig{}, err
+		}
+	}
 
 	writer, writerIsRegular, err := OpenTapeWriteOnly(
 		m.drive,
@@ -55,10 +60,13 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
 
-	m.closer = writer.Close
+	m.overwrote = true
+	m.setCloser(writer.Close)
 
 	return config.DriveWriterConfig{
 		Drive:          writer,
@@ -67,53 +75,72 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 }
 
 func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
-	if err := m.openOrReuseReader(); err != nil {
+	m.physicalLock.Lock()
+
+	reader, readerIsRegular, err := OpenTapeReadOnly(m.drive)
+	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveReaderConfig{}, err
 	}
 
+	m.setCloser(reader.Close)
+
 	return config.DriveReaderConfig{
-		Drive:          m.reader,
-		DriveIsRegular: m.readerIsRegular,
+		Drive:          reader,
+		DriveIsRegular: readerIsRegular,
 	}, nil
 }
 
 func (m *TapeManager) Close() error {
-	if m.closer != nil {
-		if err := m.closer(); err != nil {
-			return err
-		}
+	m.closerLock.Lock()
+	closer := m.closer
+	m.closer = nil
+	m.closerLock.Unlock()
+
+	// The drive is not in use
+	if closer == nil {
+		return nil
 	}
 
-	m.physicalLock.Unlock()
+	defer m.physicalLock.Unlock()
 
-	return nil
+	return closer()
 }
 
-func (m *TapeManager) openOrReuseReader() error {
-	m.readerLock.Lock()
-	defer m.readerLock.Unlock()
+func (m *TapeManager) setCloser(closer func() error) {
+	m.closerLock.Lock()
+	defer m.closerLock.Unlock()
 
-	reopen := false
-	if m.reader == nil {
-		reopen = true
-	} else if _, err := m.reader.Seek(0, io.SeekCurrent); err != nil {
-		// File is closed
-		reopen = true
+	m.closer = closer
+}
+
+// repairTail makes sure that the drive doesn't end in a member that has been cut off before appending to it
+func (m *TapeManager) repairTail() error {
+	stat, err := os.Stat(m.drive)
+	if os.IsNotExist(err) {
+		return nil
 	}
 
-	if reopen {
-		m.physicalLock.Lock()
+	if err != nil {
+		return err
+	}
 
-		r, rr, err := OpenTapeReadOnly(m.drive)
-		if err != nil {
-			return err
-		}
+	if !stat.Mode().IsRegular() {
+		return nil
+	}
 
-		m.reader = r
-		m.readerIsRegular = rr
+	f, err := os.OpenFile(m.drive, os.O_RDWR, 0600)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
 
-		m.closer = r.Close
+	intact, err := tarext.RepairTail(f, m.intact)
+	if err != nil {
+		return err
 	}
+	m.intact = intact
 
 	return nil
 }
diff --git a/pkg/tape/write.go b/pkg/tape/write.go
index 0fd031e..d856543 100644
--- a/pkg/tape/write.go
+++ b/pkg/tape/write.go
@@ -32,6 +32,8 @@ func OpenTapeWriteOnly(
 
 			// Clear the file's content
 			if err := f.Truncate(0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -46,6 +48,8 @@ func OpenTapeWriteOnly(
 
 			// Seek to the start of the tape
 			if err := mt.SeekToRecordOnTape(f.Fd(), 0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -71,6 +75,8 @@ func OpenTapeWriteOnly(
 		if !overwrite {
 			// Go to end of tape
 			if err := mt.GoToEndOfTape(f.Fd()); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 		}
-- 
2.43.0


From 505d78f5aa16b3631526e015f3256ed161cff0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 05/25] fix: match children and roots exactly, replace the
 target of a move

Underscores and percent signs in names are no wildcards, upper and lower case
differ, listings contain each child once and are limited correctly, the root is
the same after rebuilding and the cached root is synchronized.
---
 pkg/persisters/metadata.go | 271 ++++++++++++++++---------------------
 1 file changed, 118 insertions(+), 153 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..a0c3bdc 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -10,6 +10,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/db/sqlite/migrations/metadata"
@@ -23,20 +24,17 @@ import (
 	"github.com/volatiletech/sqlboiler/v4/queries/qm"
 )
 
-type depth struct {
-	Depth int64 `boil:"depth" json:"depth" toml:"depth" yaml:"depth"`
-}
-
 type MetadataPersister struct {
 	sqlite *ipersisters.SQLite
 
+	rootLock          sync.Mutex // Protects the fields below
 	root              string
 	rootIsEmptyString bool
 }
 
 func NewMetadataPersister(dbPath string) *MetadataPersister {
 	return &MetadataPersister{
-		&ipersisters.SQLite{
+		sqlite: &ipersisters.SQLite{
 			DBPath: dbPath,
 			Migrations: migrate.AssetMigrationSource{
 				Asset:    metadata.Asset,
@@ -44,8 +42,6 @@ func NewMetadataPersister(dbPath string) *MetadataPersister {
 				Dir:      "../../db/sqlite/migrations/metadata",
 			},
 		},
-		"",
-		false,
 	}
 }
 
@@ -65,12 +61,18 @@ func (p *MetadataPersister) Open() error {
 		return err
 	}
 
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	p.root = root
 
 	return nil
 }
 
 func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	// Cache the root directory
 	if p.root != "" {
 		return p.root, nil
@@ -80,14 +82,17 @@ func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
 
 	if err := queries.Raw(
 		fmt.Sprintf(
-			`select min(length(%v) - length(replace(%v, "/", ""))) as depth, name from %v where %v != 1`,
-			models.HeaderColumns.Name,
+			`select %v from %v where %v != 1 order by length(%v) - length(replace(%v, '/', '')), length(%v), %v limit 1`,
 			models.HeaderColumns.Name,
 			models.TableNames.Headers,
 			models.HeaderColumns.Deleted,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Name,
 		),
 	).Bind(ctx, p.sqlite.DB, &root); err != nil {
-		if strings.Contains(err.Error(), "converting NULL to string is unsupported") {
+		if err == sql.ErrNoRows {
 			return "", config.ErrNoRootDirectory
 		}
 
@@ -104,6 +109,10 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 
 	hdr := *idbhdr
 	if !initializing {
+		if err := p.useAbsoluteRoot(ctx, idbhdr.Name); err != nil {
+			return err
+		}
+
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
 	}
 
@@ -144,50 +153,52 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
-	// We can't do this with `dbhdr.Update` because we are renaming the primary key
-	n, err := queries.Raw(
-		fmt.Sprintf(
-			`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
-			models.TableNames.Headers,
-			models.HeaderColumns.Name,
-			models.HeaderColumns.Lastknownrecord,
-			models.HeaderColumns.Lastknownblock,
-			models.HeaderColumns.Name,
-		),
-		newName,
-		lastknownrecord,
-		lastknownblock,
-		oldName,
-	).ExecContext(ctx, p.sqlite.DB)
+	tx, err := p.sqlite.DB.BeginTx(ctx, nil)
 	if err != nil {
 		return err
 	}
+	defer tx.Rollback() // This is a no-op if the transaction has been committed
 
-	written, err := n.RowsAffected()
-	if err != nil {
-		return err
-	}
-
-	if written < 1 {
+	if newName != oldName {
+		// Replace headers (including deleted ones) which use the new primary key
 		if _, err := queries.Raw(
 			fmt.Sprintf(
-				`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
+				`delete from %v where %v = ? and %v in (select %v from %v where %v = ? and %v != 1);`,
 				models.TableNames.Headers,
 				models.HeaderColumns.Name,
-				models.HeaderColumns.Lastknownrecord,
-				models.HeaderColumns.Lastknownblock,
+				models.HeaderColumns.Linkname,
+				models.HeaderColumns.Linkname,
+				models.TableNames.Headers,
 				models.HeaderColumns.Name,
+				models.HeaderColumns.Deleted,
 			),
 			newName,
-			lastknownrecord,
-			lastknownblock,
 			oldName,
-		).ExecContext(ctx, p.sqlite.DB); err != nil {
+		).ExecContext(ctx, tx); err != nil {
 			return err
 		}
 	}
 
-	return nil
+	// We can't do this with `dbhdr.Update` because we are renaming the primary key
+	if _, err := queries.Raw(
+		fmt.Sprintf(
+			`update %v set %v = ?, %v = ?, %v = ? where %v = ? and %v != 1;`,
+			models.TableNames.Headers,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Lastknownrecord,
+			models.HeaderColumns.Lastknownblock,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Deleted,
+		),
+		newName,
+		lastknownrecord,
+		lastknownblock,
+		oldName,
+	).ExecContext(ctx, tx); err != nil {
+		return err
+	}
+
+	return tx.Commit()
 }
 
 func (p *MetadataPersister) GetHeaders(ctx context.Context) ([]*config.Header, error) {
@@ -212,6 +223,7 @@ func (p *MetadataPersister) GetHeader(ctx context.Context, name string) (*config
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Linkname),
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
@@ -237,9 +249,12 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
 
+	prefix := getChildrenPrefix(name)
+
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", prefix, prefix),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Name),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
@@ -258,124 +273,33 @@ func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string)
 
 func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name string, limit int) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
-	prefix := strings.TrimSuffix(name, "/") + "/"
-	rootDepth := 0
-
-	// We want <=, not <
-	if limit > 0 {
-		limit++
-	}
-
-	// Root node
-	if pathext.IsRoot(name, false) {
-		prefix = ""
-		depth := depth{}
-
-		if err := queries.Raw(
-			fmt.Sprintf(
-				`select min(length(%v) - length(replace(%v, "/", ""))) as depth from %v where %v != 1`,
-				models.HeaderColumns.Name,
-				models.HeaderColumns.Name,
-				models.TableNames.Headers,
-				models.HeaderColumns.Deleted,
-			),
-		).Bind(ctx, p.sqlite.DB, &depth); err != nil {
-			if err == sql.ErrNoRows {
-				return []*config.Header{}, nil
-			}
-
-			return nil, err
-		}
-
-		rootDepth = int(depth.Depth)
-	}
+	prefix := getChildrenPrefix(name)
 
 	getHeaders := func(prefix string, useLinkname bool) ([]*config.Header, error) {
 		pk := models.HeaderColumns.Name
-		exclude := fmt.Sprintf(`%v = ""`, models.HeaderColumns.Linkname)
+		exclude := fmt.Sprintf(`%v = ''`, models.HeaderColumns.Linkname)
 		if useLinkname {
 			pk = models.HeaderColumns.Linkname
 			exclude = "1" // No need to exclude anything
 		}
-		headers := []*config.Header{}
-
-		query := fmt.Sprintf(
-			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
-from %v
-where %v like ?
-    and (
-        depth = ?
-        or (
-            %v like '%%/'
-            and depth = ?
-        )
-    )
-	and %v != 1
-	and %v
-    and not %v in ('', '.', '/', './')`,
-			models.HeaderColumns.Record,
-			models.HeaderColumns.Lastknownrecord,
-			models.HeaderColumns.Block,
-			models.HeaderColumns.Lastknownblock,
-			models.HeaderColumns.Deleted,
-			models.HeaderColumns.Typeflag,
-			pk,
-			exclude,
-			models.HeaderColumns.Size,
-			models.HeaderColumns.Mode,
-			models.HeaderColumns.UID,
-			models.HeaderColumns.Gid,
-			models.HeaderColumns.Uname,
-			models.HeaderColumns.Gname,
-			models.HeaderColumns.Modtime,
-			models.HeaderColumns.Accesstime,
-			models.HeaderColumns.Changetime,
-			models.HeaderColumns.Devmajor,
-			models.HeaderColumns.Devminor,
-			models.HeaderColumns.Paxrecords,
-			models.HeaderColumns.Format,
-			pk,
-			pk,
-			models.TableNames.Headers,
-			pk,
-			pk,
-			models.HeaderColumns.Deleted,
-			exclude,
-			pk,
-		)
-
-		if limit > 0 {
-			if err := queries.Raw(
-				query+`limit ?`,
-				prefix,
-				prefix,
-				prefix+"%",
-				rootDepth,
-				rootDepth+1,
-				limit+1, // +1 to accomodate the parent directory if it exists
-			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-				if err == sql.ErrNoRows {
-					return headers, nil
-				}
 
-				return nil, err
-			}
-		} else if limit <= 0 {
-			if err := queries.Raw(
-				query,
-				prefix,
-				prefix,
-				prefix+"%",
-				rootDepth,
-				rootDepth+1,
-			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-				if err == sql.ErrNoRows {
-					return headers, nil
-				}
+		// Direct children have exactly one (non-empty) path component after the prefix, optionally followed by a slash
+		dbhdrs, err := models.Headers(
+			qm.Where(fmt.Sprintf(`substr(%v, 1, length(?)) = ?`, pk), prefix, prefix),
+			qm.Where(fmt.Sprintf(`rtrim(substr(%v, length(?) + 1), '/') != ''`, pk), prefix),
+			qm.Where(fmt.Sprintf(`instr(rtrim(substr(%v, length(?) + 1), '/'), '/') = 0`, pk), prefix),
+			qm.Where(fmt.Sprintf(`%v != 1`, models.HeaderColumns.Deleted)),
+			qm.Where(exclude),
+			qm.Where(fmt.Sprintf(`not %v in ('', '.', '/', './')`, pk)),
+			qm.OrderBy(pk),
+		).All(ctx, p.sqlite.DB)
+		if err != nil {
+			return nil, err
+		}
 
-				return nil, err
-			}
+		headers := []*config.Header{}
+		for _, dbhdr := range dbhdrs {
+			headers = append(headers, converters.DBHeaderToConfigHeader(dbhdr))
 		}
 
 		return headers, nil
@@ -429,11 +353,20 @@ where %v like ?
 		}
 	}
 
-	if limit <= 0 || len(outhdrs) < limit || len(outhdrs) == 0 {
+	if limit <= 0 || len(outhdrs) <= limit {
 		return outhdrs, nil
 	}
 
-	return outhdrs[:limit-1], nil
+	return outhdrs[:limit], nil
+}
+
+// getChildrenPrefix returns the prefix which the names of all children of a directory have
+func getChildrenPrefix(name string) string {
+	if name == "" || name == "." {
+		return ""
+	}
+
+	return strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
 }
 
 func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastknownrecord, lastknownblock int64) (*config.Header, error) {
@@ -442,6 +375,7 @@ func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastk
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Linkname),
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
@@ -486,6 +420,9 @@ func (p *MetadataPersister) PurgeAllHeaders(ctx context.Context) error {
 		return err
 	}
 
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	p.root = ""
 	p.rootIsEmptyString = false
 
@@ -508,7 +445,35 @@ func (p *MetadataPersister) headerExistsExact(ctx context.Context, name string)
 	return nil
 }
 
+// useAbsoluteRoot uses `/` as the root if it is the first header to be added
+func (p *MetadataPersister) useAbsoluteRoot(ctx context.Context, name string) error {
+	if name != "/" {
+		return nil
+	}
+
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
+	if p.root != "" {
+		return nil
+	}
+
+	exists, err := models.Headers().Exists(ctx, p.sqlite.DB)
+	if err != nil {
+		return err
+	}
+
+	if !exists {
+		p.root = name
+	}
+
+	return nil
+}
+
 func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	// If root is queried, return actual root
 	if pathext.IsRoot(name, false) || name == p.root {
 		return p.root
@@ -517,7 +482,7 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 	// If root has not been set, the incoming path is absolute and no header with the exact name "" (empty string) exists, assume it is root
 	if p.root == "" && strings.HasPrefix(name, "/") && !p.rootIsEmptyString {
 		if err := p.headerExistsExact(ctx, ""); err != nil {
-			p.root = name
+			p.root = path.Clean(name)
 
 			return p.root
 		} else {
@@ -527,7 +492,7 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 
 	// Keep absolute paths untouched if root is also absolute
 	if strings.HasPrefix(p.root, "/") && strings.HasPrefix(name, "/") {
-		return name
+		return path.Clean(name)
 	}
 
 	// Get correct root prefix
@@ -541,7 +506,7 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 	} else if p.root == "/" {
 		prefix = "/"
 	} else if !(strings.HasPrefix(p.root, "/") || strings.HasPrefix(p.root, "./")) { // If the root path is relative, but does not start with "./"; this is `tar`s default behaviour if ${PWD} is the source
-		return name
+		return path.Clean(name)
 	} else {
 		return "./" + filepath.Clean(strings.TrimPrefix(name, "/")) // Special case: There is no root directory, only files, and the files start with `./`
 	}
-- 
2.43.0


From 2f2f72404c36b5fc86d32e51036fb2bcad409004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 06/25] fix: look up and validate before taking the drive,
 always close the writer, index exactly what was appended

---
 pkg/operations/append.go     | 253 ++++++++++++++++++++++
 pkg/operations/archive.go    | 351 ++++++++++++------------------
 pkg/operations/delete.go     | 127 +++--------
 pkg/operations/move.go       | 142 ++++--------
 pkg/operations/operations.go |   5 +
 pkg/operations/update.go     | 406 ++++++++++++++---------------------
 pkg/recovery/index.go        |   4 +-
 7 files changed, 622 insertions(+), 666 deletions(-)
 create mode 100644 pkg/operations/append.go

diff --git a/pkg/operations/append.go b/pkg/operations/append.go
new file mode 100644
index 0000000..a16ad26
--- /dev/null
+++ b/pkg/operations/append.go
@@ -0,0 +1,253 @@
+package operations
+
+import (
+	"archive/tar"
+	"context"
+	"database/sql"
+	"io"
+	"strings"
+
+	"github.com/pojntfx/stfs/internal/ioext"
+	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
+	"github.com/pojntfx/stfs/pkg/compression"
+	"github.com/pojntfx/stfs/pkg/config"
+	"github.com/pojntfx/stfs/pkg/encryption"
+	"github.com/pojntfx/stfs/pkg/recovery"
+	"github.com/pojntfx/stfs/pkg/signature"
+)
+
+type source struct {
+	file config.FileConfig
+	hdr  *tar.Header
+}
+
+// getSources gets all sources, so that a missing source can be rejected before the drive is being written to
+func getSources(getSrc func() (config.FileConfig, error)) ([]source, error) {
+	sources := []source{}
+	for {
+		file, err := getSrc()
+		if err == io.EOF {
+			break
+		}
+
+		if err != nil {
+			return nil, err
+		}
+
+		hdr, err := tar.FileInfoHeader(file.Info, file.Link)
+		if err != nil {
+			// Skip sockets
+			if strings.Contains(err.Error(), errSocketsNotSupported.Error()) {
+				continue
+			}
+
+			return nil, err
+		}
+
+		hdr.Name = file.Path
+		hdr.Format = tar.FormatPAX
+		removeSTFSRecords(hdr)
+
+		sources = append(sources, source{file, hdr})
+	}
+
+	return sources, nil
+}
+
+// removeSTFSRecords removes the metadata of the action that lead to a header, which must not be part of the next action
+func removeSTFSRecords(hdr *tar.Header) {
+	paxRecords := map[string]string{}
+	for key, value := range hdr.PAXRecords {
+		if !strings.HasPrefix(key, records.STFSPrefix) {
+			paxRecords[key] = value
+		}
+	}
+
+	hdr.PAXRecords = paxRecords
+}
+
+// appendAndIndex appends the headers and the content that `write` provides to the drive and indexes them. If `write` fails, the drive is still being released and what has been appended until then is still being indexed.
+func (o *Operations) appendAndIndex(
+	eventType string,
+	overwrite bool,
+	initializing bool,
+
+	write func(tw *tar.Writer, isRegular bool, writeHeader func(hdr *tar.Header) error) error,
+) error {
+	lastIndexedRecord := int64(0)
+	lastIndexedBlock := int64(0)
+	index := 1 // Ignore the first header, which is the last header which we already indexed
+	if overwrite {
+		index = 0 // If we are starting fresh, index from start
+	} else {
+		var err error
+		lastIndexedRecord, lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+		if err != nil {
+			return err
+		}
+
+		if lastIndexedRecord == 0 && lastIndexedBlock == 0 {
+			hdrs, err := o.metadata.Metadata.GetHeaders(context.Background())
+			if err != nil {
+				return err
+			}
+
+			if len(hdrs) == 0 {
+				index = 0 // Nothing has been indexed yet
+			}
+		}
+	}
+
+	appended, err := o.append(write)
+	if !appended && !overwrite {
+		return err
+	}
+
+	reader, rerr := o.backend.GetReader()
+	if rerr != nil {
+		if err != nil {
+			return err
+		}
+
+		return rerr
+	}
+	defer o.backend.CloseReader()
+
+	var onHeader func(hdr *config.Header)
+	if o.onHeader != nil {
+		onHeader = func(hdr *config.Header) {
+			o.onHeader(&config.HeaderEvent{
+				Type:    eventType,
+				Indexed: true,
+				Header:  hdr,
+			})
+		}
+	}
+
+	if ierr := recovery.Index(
+		reader,
+		o.backend.MagneticTapeIO,
+		o.metadata,
+		o.pipes,
+		o.crypto,
+
+		int(lastIndexedRecord),
+		int(lastIndexedBlock),
+		overwrite,
+		initializing,
+		index,
+
+		func(hdr *tar.Header, i int) error {
+			if o.pipes.Encryption == config.NoneKey && o.pipes.Signature == config.NoneKey {
+				return nil // The header on the drive is the one we've written
+			}
+
+			unindexedHdr, ok := o.unindexedHdrs[hdr.PAXRecords[records.STFSRecordEmbeddedHeader]]
+			if !ok {
+				return config.ErrTarHeaderMissing
+			}
+
+			*hdr = unindexedHdr
+
+			return nil
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return nil // We sign above, no need to verify
+		},
+
+		onHeader,
+	); ierr != nil {
+		if err != nil {
+			return err
+		}
+
+		return ierr
+	}
+
+	o.unindexedHdrs = map[string]tar.Header{}
+
+	return err
+}
+
+func (o *Operations) append(
+	write func(tw *tar.Writer, isRegular bool, writeHeader func(hdr *tar.Header) error) error,
+) (appended bool, err error) {
+	writer, err := o.backend.GetWriter()
+	if err != nil {
+		return false, err
+	}
+
+	counter := &ioext.CounterWriter{Writer: writer.Drive}
+
+	defer func() {
+		appended = appended || counter.BytesRead > 0
+
+		if cerr := o.backend.CloseWriter(); err == nil {
+			err = cerr
+		}
+	}()
+
+	tw, cleanup, err := tarext.NewTapeWriter(counter, writer.DriveIsRegular, o.pipes.RecordSize)
+	if err != nil {
+		return false, err
+	}
+
+	err = write(tw, writer.DriveIsRegular, func(hdr *tar.Header) error {
+		unindexedHdr := *hdr
+
+		if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
+			return err
+		}
+
+		if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
+			return err
+		}
+
+		// We might not be able to decrypt or verify what we write
+		if o.pipes.Encryption != config.NoneKey || o.pipes.Signature != config.NoneKey {
+			o.unindexedHdrs[hdr.PAXRecords[records.STFSRecordEmbeddedHeader]] = unindexedHdr
+		}
+
+		if err := tw.WriteHeader(hdr); err != nil {
+			return err
+		}
+
+		appended = true
+
+		return nil
+	})
+
+	appended = appended || counter.BytesRead > 0
+	if cerr := cleanup(&appended); err == nil {
+		err = cerr
+	}
+
+	return appended, err
+}
+
+// checkCompression rejects unsupported compression settings before anything is appended
+func (o *Operations) checkCompression(isRegular bool, compressionLevel string) error {
+	compressor, err := compression.Compress(
+		ioext.AddCloseNopToWriter(io.Discard),
+		o.pipes.Compression,
+		compressionLevel,
+		isRegular,
+		o.pipes.RecordSize,
+	)
+	if err != nil {
+		return err
+	}
+
+	return compressor.Close()
+}
+
+// getHeader gets the header or link with the specified name
+func (o *Operations) getHeader(name string) (*config.Header, error) {
+	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), name)
+	if err == sql.ErrNoRows {
+		return o.metadata.Metadata.GetHeaderByLinkname(context.Background(), name)
+	}
+
+	return dbhdr, err
+}
diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..dfd966a 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -2,21 +2,17 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"errors"
 	"io"
 	"strconv"
-	"strings"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -42,267 +38,188 @@ func (o *Operations) archive(
 	overwrite bool,
 	initializing bool,
 ) ([]*tar.Header, error) {
-
-	writer, err := o.backend.GetWriter()
+	sources, err := getSources(getSrc)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
 
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
-	if err != nil {
-		return []*tar.Header{}, err
-	}
+	hdrs := []*tar.Header{}
+	if err := o.appendAndIndex(config.HeaderEventTypeArchive, overwrite, initializing, func(tw *tar.Writer, isRegular bool, writeHeader func(hdr *tar.Header) error) error {
+		var f io.ReadSeekCloser
+		defer func() {
+			if f != nil {
+				_ = f.Close() // The source is only still open if there has been an error before
+			}
+		}()
 
-	lastIndexedRecord := int64(0)
-	lastIndexedBlock := int64(0)
-	if !overwrite {
-		lastIndexedRecord, lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-	}
+		for _, src := range sources {
+			if file := src.file; file.Info.Mode().IsRegular() && file.Info.Size() > 0 {
+				if err := o.checkCompression(isRegular, compressionLevel); err != nil {
+					return err
+				}
 
-	hdrs := []*tar.Header{}
-	for {
-		file, err := getSrc()
-		if err == io.EOF {
-			break
+				break
+			}
 		}
 
-		if err != nil {
-			return []*tar.Header{}, err
-		}
+		for _, src := range sources {
+			file, hdr := src.file, src.hdr
 
-		hdr, err := tar.FileInfoHeader(file.Info, file.Link)
-		if err != nil {
-			// Skip sockets
-			if strings.Contains(err.Error(), errSocketsNotSupported.Error()) {
-				continue
+			if file.Info.Mode().IsRegular() && file.Info.Size() > 0 {
+				// Get the compressed size for the header
+				fileSizeCounter := &ioext.CounterWriter{
+					Writer: io.Discard,
+				}
+
+				encryptor, err := encryption.Encrypt(fileSizeCounter, o.pipes.Encryption, o.crypto.Recipient)
+				if err != nil {
+					return err
+				}
+
+				compressor, err := compression.Compress(
+					encryptor,
+					o.pipes.Compression,
+					compressionLevel,
+					isRegular,
+					o.pipes.RecordSize,
+				)
+				if err != nil {
+					return err
+				}
+
+				f, err = file.GetFile()
+				if err != nil {
+					return err
+				}
+
+				contentCounter := &ioext.CounterReader{Reader: f}
+
+				signer, sign, err := signature.Sign(contentCounter, isRegular, o.pipes.Signature, o.crypto.Identity)
+				if err != nil {
+					return err
+				}
+
+				if isRegular {
+					if _, err := io.Copy(compressor, signer); err != nil {
+						return err
+					}
+				} else {
+					buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
+					if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+						return err
+					}
+				}
+
+				if err := compressor.Flush(); err != nil {
+					return err
+				}
+
+				if err := compressor.Close(); err != nil {
+					return err
+				}
+
+				if err := encryptor.Close(); err != nil {
+					return err
+				}
+
+				if hdr.PAXRecords == nil {
+					hdr.PAXRecords = map[string]string{}
+				}
+				hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(contentCounter.BytesRead)
+				signature, err := sign()
+				if err != nil {
+					return err
+				}
+
+				if signature != "" {
+					hdr.PAXRecords[records.STFSRecordSignature] = signature
+				}
+				hdr.Size = int64(fileSizeCounter.BytesRead)
+
+				hdr.Name, err = suffix.AddSuffix(hdr.Name, o.pipes.Compression, o.pipes.Encryption)
+				if err != nil {
+					return err
+				}
 			}
 
-			return []*tar.Header{}, err
-		}
+			if o.onHeader != nil {
+				dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+				if err != nil {
+					return err
+				}
+
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeArchive,
+					Indexed: false,
+					Header:  converters.DBHeaderToConfigHeader(dbhdr),
+				})
+			}
 
-		hdr.Name = file.Path
-		hdr.Format = tar.FormatPAX
+			hdrToAppend := *hdr
+			hdrs = append(hdrs, &hdrToAppend)
 
-		var f io.ReadSeekCloser
-		if file.Info.Mode().IsRegular() && file.Info.Size() > 0 {
-			// Get the compressed size for the header
-			fileSizeCounter := &ioext.CounterWriter{
-				Writer: io.Discard,
+			if err := writeHeader(hdr); err != nil {
+				return err
+			}
+
+			if !file.Info.Mode().IsRegular() || file.Info.Size() <= 0 {
+				continue
 			}
 
-			encryptor, err := encryption.Encrypt(fileSizeCounter, o.pipes.Encryption, o.crypto.Recipient)
+			// Compress and write the file
+			encryptor, err := encryption.Encrypt(tw, o.pipes.Encryption, o.crypto.Recipient)
 			if err != nil {
-				return []*tar.Header{}, err
+				return err
 			}
 
 			compressor, err := compression.Compress(
 				encryptor,
 				o.pipes.Compression,
 				compressionLevel,
-				writer.DriveIsRegular,
+				isRegular,
 				o.pipes.RecordSize,
 			)
 			if err != nil {
-				return []*tar.Header{}, err
+				return err
 			}
 
-			f, err = file.GetFile()
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
-			signer, sign, err := signature.Sign(f, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity)
-			if err != nil {
-				return []*tar.Header{}, err
+			if _, err := f.Seek(0, io.SeekStart); err != nil {
+				return err
 			}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
+			if isRegular {
+				if _, err := io.Copy(compressor, f); err != nil {
+					return err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
+				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+					return err
 				}
 			}
 
 			if err := compressor.Flush(); err != nil {
-				return []*tar.Header{}, err
+				return err
 			}
 
 			if err := compressor.Close(); err != nil {
-				return []*tar.Header{}, err
+				return err
 			}
 
 			if err := encryptor.Close(); err != nil {
-				return []*tar.Header{}, err
+				return err
 			}
 
-			if hdr.PAXRecords == nil {
-				hdr.PAXRecords = map[string]string{}
-			}
-			hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(int(hdr.Size))
-			signature, err := sign()
-			if err != nil {
-				return []*tar.Header{}, err
+			if err := f.Close(); err != nil {
+				return err
 			}
-
-			if signature != "" {
-				hdr.PAXRecords[records.STFSRecordSignature] = signature
-			}
-			hdr.Size = int64(fileSizeCounter.BytesRead)
-
-			hdr.Name, err = suffix.AddSuffix(hdr.Name, o.pipes.Compression, o.pipes.Encryption)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-		}
-
-		if o.onHeader != nil {
-			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeArchive,
-				Indexed: false,
-				Header:  converters.DBHeaderToConfigHeader(dbhdr),
-			})
+			f = nil
 		}
 
-		hdrToAppend := *hdr
-		hdrs = append(hdrs, &hdrToAppend)
-
-		if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if err := tw.WriteHeader(hdr); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		dirty = true
-
-		if !file.Info.Mode().IsRegular() || file.Info.Size() <= 0 {
-			if f != nil {
-				if err := f.Close(); err != nil {
-					return []*tar.Header{}, err
-				}
-			}
-
-			continue
-		}
-
-		// Compress and write the file
-		encryptor, err := encryption.Encrypt(tw, o.pipes.Encryption, o.crypto.Recipient)
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-
-		compressor, err := compression.Compress(
-			encryptor,
-			o.pipes.Compression,
-			compressionLevel,
-			writer.DriveIsRegular,
-			o.pipes.RecordSize,
-		)
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if _, err := f.Seek(0, io.SeekStart); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if writer.DriveIsRegular {
-			if _, err := io.Copy(compressor, f); err != nil {
-				return []*tar.Header{}, err
-			}
-		} else {
-			buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-			if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
-				return []*tar.Header{}, err
-			}
-		}
-
-		if err := compressor.Flush(); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if err := compressor.Close(); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if err := encryptor.Close(); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if err := f.Close(); err != nil {
-			return []*tar.Header{}, err
-		}
-	}
-
-	if err := cleanup(&dirty); err != nil {
+		return nil
+	}); err != nil {
 		return []*tar.Header{}, err
 	}
 
-	index := 1 // Ignore the first header, which is the last header which we already indexed
-	if overwrite {
-		index = 0 // If we are starting fresh, index from start
-	}
-
-	if err := o.backend.CloseWriter(); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-	defer o.backend.CloseReader()
-
-	return hdrs, recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		overwrite,
-		initializing,
-		index,
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeArchive,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return hdrs, nil
 }
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..4198a48 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -8,11 +8,7 @@ import (
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
-	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
-	"github.com/pojntfx/stfs/pkg/signature"
 )
 
 func (o *Operations) Delete(name string) error {
@@ -21,22 +17,6 @@ func (o *Operations) Delete(name string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
-	if err != nil {
-		return err
-	}
-
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
 	headersToDelete := []*config.Header{}
 	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), name)
 	if err != nil {
@@ -62,93 +42,36 @@ func (o *Operations) Delete(name string) error {
 	}
 
 	// Append deletion hdrs to the tape or tar file
-	hdrs := []tar.Header{}
-	for _, dbhdr := range headersToDelete {
-		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
-		if err != nil {
-			return err
-		}
-
-		hdr.Size = 0 // Don't try to seek after the record
-		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
-		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
-
-		hdrs = append(hdrs, *hdr)
-
-		if o.onHeader != nil {
-			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+	return o.appendAndIndex(config.HeaderEventTypeDelete, false, false, func(tw *tar.Writer, isRegular bool, writeHeader func(hdr *tar.Header) error) error {
+		for _, dbhdr := range headersToDelete {
+			hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 			if err != nil {
 				return err
 			}
 
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeDelete,
-				Indexed: false,
-				Header:  converters.DBHeaderToConfigHeader(dbhdr),
-			})
-		}
-
-		if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
-			return err
-		}
-
-		if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
-			return err
-		}
-
-		if err := tw.WriteHeader(hdr); err != nil {
-			return err
-		}
-
-		dirty = true
-	}
-
-	if err := cleanup(&dirty); err != nil {
-		return err
-	}
-
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return err
-	}
-	defer o.backend.CloseReader()
-
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
+			removeSTFSRecords(hdr)
+			hdr.Size = 0 // Don't try to seek after the record
+			hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
+			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
+
+			if o.onHeader != nil {
+				dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+				if err != nil {
+					return err
+				}
+
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeDelete,
+					Indexed: false,
+					Header:  converters.DBHeaderToConfigHeader(dbhdr),
+				})
 			}
 
-			*hdr = hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
+			if err := writeHeader(hdr); err != nil {
+				return err
+			}
+		}
 
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeDelete,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+		return nil
+	})
 }
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..0f9eb99 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -4,17 +4,14 @@ import (
 	"archive/tar"
 	"context"
 	"database/sql"
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
-	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
-	"github.com/pojntfx/stfs/pkg/signature"
 )
 
 func (o *Operations) Move(from string, to string) error {
@@ -28,22 +25,6 @@ func (o *Operations) Move(from string, to string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
-	if err != nil {
-		return err
-	}
-
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
 	headersToMove := []*config.Header{}
 	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), from)
 	if err != nil {
@@ -68,6 +49,16 @@ func (o *Operations) Move(from string, to string) error {
 		return nil
 	}
 
+	source := strings.TrimPrefix(from, "/")
+	if dbhdr.Linkname == "" {
+		source = strings.TrimSuffix(strings.TrimPrefix(dbhdr.Name, "/"), "/") // The path could have been spelled differently
+	}
+
+	// Prevent moving a directory into itself
+	if dbhdr.Typeflag == tar.TypeDir && strings.HasPrefix(strings.TrimPrefix(path.Clean(to), "/"), source+"/") {
+		return os.ErrInvalid
+	}
+
 	// If the header refers to a directory, get it's children
 	if dbhdr.Typeflag == tar.TypeDir {
 		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), from)
@@ -79,95 +70,38 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	// Append move headers to the tape or tar file
-	hdrs := []tar.Header{}
-	for _, dbhdr := range headersToMove {
-		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
-		if err != nil {
-			return err
-		}
-
-		hdr.Size = 0 // Don't try to seek after the record
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
-		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
-		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
-		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
-
-		hdrs = append(hdrs, *hdr)
-
-		if o.onHeader != nil {
-			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+	return o.appendAndIndex(config.HeaderEventTypeMove, false, false, func(tw *tar.Writer, isRegular bool, writeHeader func(hdr *tar.Header) error) error {
+		for _, dbhdr := range headersToMove {
+			hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 			if err != nil {
 				return err
 			}
 
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeMove,
-				Indexed: false,
-				Header:  converters.DBHeaderToConfigHeader(dbhdr),
-			})
-		}
-
-		if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
-			return err
-		}
-
-		if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
-			return err
-		}
-
-		if err := tw.WriteHeader(hdr); err != nil {
-			return err
-		}
-
-		dirty = true
-	}
-
-	if err := cleanup(&dirty); err != nil {
-		return err
-	}
-
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
+			removeSTFSRecords(hdr)
+			hdr.Size = 0 // Don't try to seek after the record
+			hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), source))
+			hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
+			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
+			hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
+
+			if o.onHeader != nil {
+				dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+				if err != nil {
+					return err
+				}
+
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeMove,
+					Indexed: false,
+					Header:  converters.DBHeaderToConfigHeader(dbhdr),
+				})
+			}
 
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return err
-	}
-	defer o.backend.CloseReader()
-
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
+			if err := writeHeader(hdr); err != nil {
+				return err
 			}
+		}
 
-			*hdr = hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeMove,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+		return nil
+	})
 }
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index c34b464..0967323 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,6 +1,7 @@
 package operations
 
 import (
+	"archive/tar"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -16,6 +17,8 @@ type Operations struct {
 	onHeader func(event *config.HeaderEvent)
 
 	diskOperationLock sync.Mutex
+
+	unindexedHdrs map[string]tar.Header // Headers which have been appended, but not indexed yet, by their on-tape representation
 }
 
 func NewOperations(
@@ -35,6 +38,8 @@ func NewOperations(
 		crypto: crypto,
 
 		onHeader: onHeader,
+
+		unindexedHdrs: map[string]tar.Header{},
 	}
 }
 
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..c372461 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -2,20 +2,16 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"io"
 	"strconv"
-	"strings"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -28,299 +24,225 @@ func (o *Operations) Update(
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
+	sources, err := getSources(getSrc)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
 
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-
-	hdrs := []*tar.Header{}
-	for {
-		file, err := getSrc()
-		if err == io.EOF {
-			break
-		}
-
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-
-		hdr, err := tar.FileInfoHeader(file.Info, file.Link)
-		if err != nil {
-			// Skip sockets
-			if strings.Contains(err.Error(), errSocketsNotSupported.Error()) {
-				continue
-			}
-
+	// Only existing headers can be updated
+	for _, src := range sources {
+		if _, err := o.getHeader(src.hdr.Name); err != nil {
 			return []*tar.Header{}, err
 		}
+	}
 
-		hdr.Name = file.Path
-		hdr.Format = tar.FormatPAX
-		if hdr.PAXRecords == nil {
-			hdr.PAXRecords = map[string]string{}
-		}
-		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
-		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
-
+	hdrs := []*tar.Header{}
+	if err := o.appendAndIndex(config.HeaderEventTypeUpdate, false, false, func(tw *tar.Writer, isRegular bool, writeHeader func(hdr *tar.Header) error) error {
 		var f io.ReadSeekCloser
-		if file.Info.Mode().IsRegular() && replace && (file.Info.Size() > 0 || skipSizeCheck) {
-			// Get the compressed size for the header
-			fileSizeCounter := &ioext.CounterWriter{
-				Writer: io.Discard,
+		defer func() {
+			if f != nil {
+				_ = f.Close() // The source is only still open if there has been an error before
 			}
+		}()
 
-			encryptor, err := encryption.Encrypt(fileSizeCounter, o.pipes.Encryption, o.crypto.Recipient)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
+		for _, src := range sources {
+			if file := src.file; file.Info.Mode().IsRegular() && replace && (file.Info.Size() > 0 || skipSizeCheck) {
+				if err := o.checkCompression(isRegular, compressionLevel); err != nil {
+					return err
+				}
 
-			compressor, err := compression.Compress(
-				encryptor,
-				o.pipes.Compression,
-				compressionLevel,
-				writer.DriveIsRegular,
-				o.pipes.RecordSize,
-			)
-			if err != nil {
-				return []*tar.Header{}, err
+				break
 			}
+		}
 
-			f, err = file.GetFile()
-			if err != nil {
-				return []*tar.Header{}, err
-			}
+		for _, src := range sources {
+			file, hdr := src.file, src.hdr
 
-			signer, sign, err := signature.Sign(f, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
+			hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
+			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
+			if file.Info.Mode().IsRegular() && replace && (file.Info.Size() > 0 || skipSizeCheck) {
+				// Get the compressed size for the header
+				fileSizeCounter := &ioext.CounterWriter{
+					Writer: io.Discard,
 				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
-				}
-			}
-
-			if err := compressor.Flush(); err != nil {
-				return []*tar.Header{}, err
-			}
 
-			if err := compressor.Close(); err != nil {
-				return []*tar.Header{}, err
-			}
+				encryptor, err := encryption.Encrypt(fileSizeCounter, o.pipes.Encryption, o.crypto.Recipient)
+				if err != nil {
+					return err
+				}
 
-			if err := encryptor.Close(); err != nil {
-				return []*tar.Header{}, err
-			}
+				compressor, err := compression.Compress(
+					encryptor,
+					o.pipes.Compression,
+					compressionLevel,
+					isRegular,
+					o.pipes.RecordSize,
+				)
+				if err != nil {
+					return err
+				}
 
-			if hdr.PAXRecords == nil {
-				hdr.PAXRecords = map[string]string{}
-			}
-			hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(int(hdr.Size))
-			signature, err := sign()
-			if err != nil {
-				return []*tar.Header{}, err
-			}
+				f, err = file.GetFile()
+				if err != nil {
+					return err
+				}
 
-			if signature != "" {
-				hdr.PAXRecords[records.STFSRecordSignature] = signature
-			}
-			hdr.Size = int64(fileSizeCounter.BytesRead)
+				contentCounter := &ioext.CounterReader{Reader: f}
 
-			hdr.Name, err = suffix.AddSuffix(hdr.Name, o.pipes.Compression, o.pipes.Encryption)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-		}
+				signer, sign, err := signature.Sign(contentCounter, isRegular, o.pipes.Signature, o.crypto.Identity)
+				if err != nil {
+					return err
+				}
 
-		if replace {
-			hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentTrue
+				if isRegular {
+					if _, err := io.Copy(compressor, signer); err != nil {
+						return err
+					}
+				} else {
+					buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
+					if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+						return err
+					}
+				}
 
-			if o.onHeader != nil {
-				dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
-				if err != nil {
-					return []*tar.Header{}, err
+				if err := compressor.Flush(); err != nil {
+					return err
 				}
 
-				o.onHeader(&config.HeaderEvent{
-					Type:    config.HeaderEventTypeUpdate,
-					Indexed: false,
-					Header:  converters.DBHeaderToConfigHeader(dbhdr),
-				})
-			}
+				if err := compressor.Close(); err != nil {
+					return err
+				}
 
-			hdrToAppend := *hdr
-			hdrs = append(hdrs, &hdrToAppend)
+				if err := encryptor.Close(); err != nil {
+					return err
+				}
 
-			if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
-				return []*tar.Header{}, err
-			}
+				if hdr.PAXRecords == nil {
+					hdr.PAXRecords = map[string]string{}
+				}
+				hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(contentCounter.BytesRead)
+				signature, err := sign()
+				if err != nil {
+					return err
+				}
 
-			if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
-				return []*tar.Header{}, err
-			}
+				if signature != "" {
+					hdr.PAXRecords[records.STFSRecordSignature] = signature
+				}
+				hdr.Size = int64(fileSizeCounter.BytesRead)
 
-			if err := tw.WriteHeader(hdr); err != nil {
-				return []*tar.Header{}, err
+				hdr.Name, err = suffix.AddSuffix(hdr.Name, o.pipes.Compression, o.pipes.Encryption)
+				if err != nil {
+					return err
+				}
 			}
 
-			dirty = true
+			if replace {
+				hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentTrue
 
-			if !file.Info.Mode().IsRegular() || (!skipSizeCheck && file.Info.Size() <= 0) {
-				if f != nil {
-					if err := f.Close(); err != nil {
-						return []*tar.Header{}, err
+				if o.onHeader != nil {
+					dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+					if err != nil {
+						return err
 					}
-				}
 
-				continue
-			}
+					o.onHeader(&config.HeaderEvent{
+						Type:    config.HeaderEventTypeUpdate,
+						Indexed: false,
+						Header:  converters.DBHeaderToConfigHeader(dbhdr),
+					})
+				}
 
-			// Compress and write the file
-			encryptor, err := encryption.Encrypt(tw, o.pipes.Encryption, o.crypto.Recipient)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
+				hdrToAppend := *hdr
+				hdrs = append(hdrs, &hdrToAppend)
 
-			compressor, err := compression.Compress(
-				encryptor,
-				o.pipes.Compression,
-				compressionLevel,
-				writer.DriveIsRegular,
-				o.pipes.RecordSize,
-			)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
+				if err := writeHeader(hdr); err != nil {
+					return err
+				}
 
-			if _, err := f.Seek(0, io.SeekStart); err != nil {
-				return []*tar.Header{}, err
-			}
+				if !file.Info.Mode().IsRegular() || (!skipSizeCheck && file.Info.Size() <= 0) {
+					continue
+				}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, f); err != nil {
-					return []*tar.Header{}, err
+				// Compress and write the file
+				encryptor, err := encryption.Encrypt(tw, o.pipes.Encryption, o.crypto.Recipient)
+				if err != nil {
+					return err
 				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
-					return []*tar.Header{}, err
+
+				compressor, err := compression.Compress(
+					encryptor,
+					o.pipes.Compression,
+					compressionLevel,
+					isRegular,
+					o.pipes.RecordSize,
+				)
+				if err != nil {
+					return err
 				}
-			}
 
-			if err := compressor.Flush(); err != nil {
-				return []*tar.Header{}, err
-			}
+				if _, err := f.Seek(0, io.SeekStart); err != nil {
+					return err
+				}
 
-			if err := compressor.Close(); err != nil {
-				return []*tar.Header{}, err
-			}
+				if isRegular {
+					if _, err := io.Copy(compressor, f); err != nil {
+						return err
+					}
+				} else {
+					buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
+					if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+						return err
+					}
+				}
 
-			if err := encryptor.Close(); err != nil {
-				return []*tar.Header{}, err
-			}
+				if err := compressor.Flush(); err != nil {
+					return err
+				}
 
-			if err := f.Close(); err != nil {
-				return []*tar.Header{}, err
-			}
-		} else {
-			hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
-			hdr.Size = 0 // Don't try to seek after the record
+				if err := compressor.Close(); err != nil {
+					return err
+				}
 
-			if o.onHeader != nil {
-				dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
-				if err != nil {
-					return []*tar.Header{}, err
+				if err := encryptor.Close(); err != nil {
+					return err
 				}
 
-				o.onHeader(&config.HeaderEvent{
-					Type:    config.HeaderEventTypeUpdate,
-					Indexed: false,
-					Header:  converters.DBHeaderToConfigHeader(dbhdr),
-				})
-			}
+				if err := f.Close(); err != nil {
+					return err
+				}
+				f = nil
+			} else {
+				hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
+				hdr.Size = 0 // Don't try to seek after the record
 
-			hdrToAppend := *hdr
-			hdrs = append(hdrs, &hdrToAppend)
+				if o.onHeader != nil {
+					dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+					if err != nil {
+						return err
+					}
 
-			if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
-				return []*tar.Header{}, err
-			}
+					o.onHeader(&config.HeaderEvent{
+						Type:    config.HeaderEventTypeUpdate,
+						Indexed: false,
+						Header:  converters.DBHeaderToConfigHeader(dbhdr),
+					})
+				}
 
-			if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
-				return []*tar.Header{}, err
-			}
+				hdrToAppend := *hdr
+				hdrs = append(hdrs, &hdrToAppend)
 
-			if err := tw.WriteHeader(hdr); err != nil {
-				return []*tar.Header{}, err
+				if err := writeHeader(hdr); err != nil {
+					return err
+				}
 			}
 		}
 
-		dirty = true
-	}
-
-	if err := cleanup(&dirty); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	if err := o.backend.CloseWriter(); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
+		return nil
+	}); err != nil {
 		return []*tar.Header{}, err
 	}
-	defer o.backend.CloseReader()
-
-	return hdrs, recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
 
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeUpdate,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return hdrs, nil
 }
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 0832694..f8e3364 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -162,9 +162,11 @@ func indexHeader(
 					return err
 				}
 			} else {
-				// Metadata-only update; use the old record & block
+				// Metadata-only update; use the old record & block as well as the size of the content which is there
 				oldHdr, err := metadataPersister.GetHeader(context.Background(), hdr.Name)
 				if err == nil {
+					hdr.Size = oldHdr.Size
+
 					newHdr, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
 					if err != nil {
 						return err
-- 
2.43.0


From 081bdbe6ca2d5d42a8d1065bd6b5cbfe0f8d1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 07/25] fix: check parents and targets of all calls, create all
 directories, index what is missing when initializing

---
 pkg/fs/filesystem.go | 282 ++++++++++++++++++++++++++-----------------
 1 file changed, 173 insertions(+), 109 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..0496c80 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -15,6 +15,7 @@ import (
 	"time"
 
 	"github.com/pojntfx/stfs/internal/pathext"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/cache"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
@@ -94,24 +95,32 @@ func (f *STFS) Create(name string) (afero.File, error) {
 		return nil, os.ErrInvalid
 	}
 
-	name = cleanName(name)
+	return f.OpenFile(cleanName(name), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+}
 
-	if _, err := inventory.Stat(
+// checkParentWithoutLocking makes sure that an entry can be created at `name`
+func (f *STFS) checkParentWithoutLocking(name string) error {
+	parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
 		false,
 
 		f.onHeader,
-	); err != nil {
+	)
+	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, os.ErrNotExist
+			return os.ErrNotExist
 		}
 
-		return nil, err
+		return err
+	}
+
+	if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
 	}
 
-	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+	return nil
 }
 
 func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, overwrite bool, linkname string, initializing bool) error {
@@ -212,65 +221,127 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	defer f.ioLock.Unlock()
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == config.ErrNoRootDirectory {
-		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
+	if err == nil {
+		if err := f.indexMissing(); err != nil {
+			return "", err
+		}
 
-			if f.readOnly {
-				return "", os.ErrPermission
-			}
+		return existingRoot, nil
+	}
 
-			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
-				return "", err
-			}
+	if err != config.ErrNoRootDirectory {
+		return "", err
+	}
 
-			// Ensure that the new root path is being used
-			return f.metadata.Metadata.GetRootPath(context.Background())
+	mkdirRoot := func() (string, error) {
+		if f.readOnly {
+			return "", os.ErrPermission
 		}
 
-		reader, err := f.readOps.GetBackend().GetReader()
-		if err != nil {
-			return mkdirRoot()
+		if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, false, "", true); err != nil {
+			return "", err
 		}
 
-		if err := recovery.Index(
-			reader,
-			f.readOps.GetBackend().MagneticTapeIO,
-			f.readOps.GetMetadata(),
-			f.readOps.GetPipes(),
-			f.readOps.GetCrypto(),
+		// Ensure that the new root path is being used
+		return f.metadata.Metadata.GetRootPath(context.Background())
+	}
 
-			0,
-			0,
-			true,
-			false,
-			0,
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		if !errors.Is(err, os.ErrNotExist) {
+			return "", err
+		}
 
-			func(hdr *tar.Header, i int) error {
-				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
-			},
-			func(hdr *tar.Header, isRegular bool) error {
-				return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
-			},
+		return mkdirRoot()
+	}
 
-			f.onHeader,
-		); err != nil {
-			return mkdirRoot()
+	if err := f.index(reader, 0, 0, true, 0); err != nil {
+		_ = f.readOps.GetBackend().CloseReader() // The drive could not be indexed, so the error that caused this is the relevant one
+
+		return "", err
+	}
+
+	if err := f.readOps.GetBackend().CloseReader(); err != nil {
+		return "", err
+	}
+
+	// Ensure that the new root path is being used
+	root, err = f.metadata.Metadata.GetRootPath(context.Background())
+	if err == config.ErrNoRootDirectory {
+		return mkdirRoot()
+	}
+
+	return root, err
+}
+
+func (f *STFS) index(reader config.DriveReaderConfig, record int, block int, overwrite bool, offset int) error {
+	return recovery.Index(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetMetadata(),
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		record,
+		block,
+		overwrite,
+		false,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
+		},
+
+		f.onHeader,
+	)
+}
+
+// indexMissing indexes what has been appended to the drive since the existing index has last been updated. If the drive has lost what has been indexed last, it is indexed from the start.
+func (f *STFS) indexMissing() error {
+	if f.readOnly {
+		return nil
+	}
+
+	record, block, err := f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+	if err != nil {
+		return err
+	}
+
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return nil
 		}
 
-		if err := f.readOps.GetBackend().CloseReader(); err != nil {
-			return "", err
+		return err
+	}
+
+	if err := func() error {
+		members, err := tarext.NewMemberReader(reader, f.readOps.GetBackend().MagneticTapeIO, f.readOps.GetPipes().RecordSize, int(record), int(block))
+		if err != nil {
+			return err
 		}
 
-		// Ensure that the new root path is being used
-		return f.metadata.Metadata.GetRootPath(context.Background())
-	} else if err != nil {
-		return "", err
+		_, actualRecord, actualBlock, err := members.Next()
+		if err != nil && err != io.EOF {
+			return err
+		}
+
+		if err == io.EOF || actualRecord != record || actualBlock != block {
+			return f.index(reader, 0, 0, true, 0)
+		}
+
+		return f.index(reader, int(record), int(block), false, 1) // Ignore the first header, which is the last header which we already indexed
+	}(); err != nil {
+		_ = f.readOps.GetBackend().CloseReader() // The drive could not be indexed, so the error that caused this is the relevant one
+
+		return err
 	}
 
-	return existingRoot, nil
+	return f.readOps.GetBackend().CloseReader()
 }
 
 func (f *STFS) Mkdir(name string, perm os.FileMode) error {
@@ -288,18 +359,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(name); err != nil {
 		return err
 	}
 
@@ -343,16 +403,17 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
-	currentPath := ""
-
-	for _, part := range parts {
-		if currentPath == "" {
-			currentPath = part
-		} else {
-			currentPath = filepath.Join(currentPath, part)
+	paths := []string{path}
+	for {
+		parent := filepath.Dir(paths[0])
+		if parent == paths[0] {
+			break
 		}
 
+		paths = append([]string{parent}, paths...)
+	}
+
+	for _, currentPath := range paths {
 		if hdr, err := inventory.Stat(
 			f.metadata,
 
@@ -419,6 +480,10 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 	flags := &FileFlags{}
 	if f.readOnly {
+		if flag&os.O_TRUNC != 0 {
+			return nil, os.ErrPermission
+		}
+
 		if (flag&O_ACCMODE) == os.O_RDONLY || (flag&O_ACCMODE) == os.O_RDWR {
 			flags.Read = true
 		}
@@ -445,6 +510,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	created := false
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -465,19 +531,14 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
-						f.metadata,
+				if f.readOnly && flag&os.O_CREATE != 0 {
+					return os.ErrPermission
+				}
 
-						filepath.Dir(name),
-						false,
-
-						f.onHeader,
-					); err != nil {
-						if err == sql.ErrNoRows {
-							return os.ErrNotExist
-						}
+				created = true
 
+				if flag&os.O_CREATE != 0 {
+					if err := f.checkParentWithoutLocking(name); err != nil {
 						return err
 					}
 
@@ -540,7 +601,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 					f.onHeader,
 				)
 
-				if err == nil && !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
+				if err == nil && !f.readOnly && flag&os.O_CREATE != 0 {
 					hdr, err = inventory.Stat(
 						f.metadata,
 
@@ -568,6 +629,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	// Prevent opening an existing file if a new one has been requested
+	if !created && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
@@ -718,7 +784,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname {
+	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname || pathext.IsRoot(oldname, false) {
 		return os.ErrInvalid
 	}
 
@@ -752,18 +818,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
@@ -776,17 +831,37 @@ func (f *STFS) Rename(oldname, newname string) error {
 		f.onHeader,
 	)
 	if err == nil {
+		// Ignore no-op renames
+		if target.Name == source.Name {
+			return nil
+		}
+
 		if target.Typeflag != source.Typeflag {
 			return os.ErrExist
 		}
 
-		if err := f.removeWithoutLocking(newname); err != nil {
-			return err
-		}
+		if target.Typeflag == tar.TypeDir {
+			hdrs, err := inventory.List(
+				f.metadata,
 
+				newname,
+				1,
+
+				f.onHeader,
+			)
+			if err != nil {
+				return err
+			}
+
+			if len(hdrs) > 0 {
+				return config.ErrDirectoryNotEmpty
+			}
+		}
+	} else if err != sql.ErrNoRows {
 		return err
 	}
 
+	// Moving also replaces the target if there is one
 	return f.writeOps.Move(oldname, newname)
 }
 
@@ -1155,18 +1230,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 9fde1f2b3a2ed71e812c1fb480ff50294b5a96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 08/25] fix: make open files behave like a byte array with a
 cursor

---
 internal/ioext/write.go |  10 +
 pkg/cache/write.go      |  36 +++
 pkg/fs/file.go          | 641 ++++++++++++++++++----------------------
 3 files changed, 328 insertions(+), 359 deletions(-)

diff --git a/internal/ioext/write.go b/internal/ioext/write.go
index 5d2d4ba..cb8e350 100644
--- a/internal/ioext/write.go
+++ b/internal/ioext/write.go
@@ -11,3 +11,13 @@ func (NopCloser) Close() error { return nil }
 func AddCloseNopToWriter(w io.Writer) NopCloser {
 	return NopCloser{w}
 }
+
+type ReadSeekNopCloser struct {
+	io.ReadSeeker
+}
+
+func (ReadSeekNopCloser) Close() error { return nil }
+
+func AddCloseNopToReadSeeker(r io.ReadSeeker) ReadSeekNopCloser {
+	return ReadSeekNopCloser{r}
+}
diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..d9fc591 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -36,7 +36,43 @@ func (f filebufferWithSize) Sync() error {
 	return nil
 }
 
+// Write overwrites the content at the current position and extends the buffer if required
+func (f filebufferWithSize) Write(p []byte) (n int, err error) {
+	// Check if the buffer has been closed
+	if _, err := f.Buffer.Read(nil); err != nil {
+		return 0, err
+	}
+
+	if len(p) <= 0 {
+		return 0, nil
+	}
+
+	if f.Index > int64(f.Buff.Len()) {
+		if err := f.Truncate(f.Index); err != nil {
+			return 0, err
+		}
+	}
+
+	overwritten := copy(f.Buff.Bytes()[f.Index:], p)
+	n, err = f.Buff.Write(p[overwritten:])
+	n += overwritten
+
+	f.Index += int64(n)
+
+	return n, err
+}
+
 func (f filebufferWithSize) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	if missing := size - int64(f.Buff.Len()); missing > 0 {
+		_, err := f.Buff.Write(make([]byte, missing))
+
+		return err
+	}
+
 	f.Buff.Truncate(int(size))
 
 	return nil
diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..55f115f 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,14 +1,12 @@
 package fs
 
 import (
-	"bytes"
 	"database/sql"
 	"io"
 	"io/fs"
 	"os"
 	"path"
 	"sync"
-	"time"
 
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/pathext"
@@ -48,11 +46,12 @@ type File struct {
 
 	ioLock *sync.Mutex
 
-	readOpReader *ioext.CounterReadCloser
-	readOpWriter io.WriteCloser
+	buf      cache.WriteCache // The content; set once it has been accessed
+	cleanBuf func() error
+	cursor   int64
 
-	writeBuf      cache.WriteCache
-	cleanWriteBuf func() error
+	dirty     bool // Whether the content has been changed since it has last been synced
+	truncated bool // Whether the truncate flag has been applied
 
 	onHeader func(hdr *config.Header)
 	log      logging.StructuredLogger
@@ -109,68 +108,67 @@ func (f *File) syncWithoutLocking() error {
 		return config.ErrIsDirectory
 	}
 
-	if f.writeBuf != nil {
-		done := false
-		if _, err := f.writeOps.Update(
-			func() (config.FileConfig, error) {
-				// Exit after the first write
-				if done {
-					return config.FileConfig{}, io.EOF
-				}
-				done = true
-
-				size, err := f.writeBuf.Size()
-				if err != nil {
-					return config.FileConfig{}, err
-				}
-
-				// Some OSes like i.e. Windows don't support numeric GIDs and UIDs, so use 0 instead
-				gid := 0
-				uid := 0
-				modTime := f.info.ModTime()
-				accessTime := f.info.ModTime()
-				changeTime := f.info.ModTime()
-				sys, ok := f.info.Sys().(*Stat)
-				if ok {
-					gid = int(sys.Gid)
-					uid = int(sys.Uid)
-					accessTime = time.Unix(0, sys.Atim.Nano())
-					changeTime = time.Unix(0, sys.Ctim.Nano())
-				}
-
-				f.info = NewFileInfo(
-					f.info.Name(),
-					size,
-					f.info.Mode(),
-					modTime,
-					accessTime,
-					changeTime,
-					gid,
-					uid,
-					f.info.IsDir(),
-					f.log,
-				)
-
-				return config.FileConfig{
-					GetFile: func() (io.ReadSeekCloser, error) {
-						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-							return nil, err
-						}
-
-						return f.writeBuf, nil
-					},
-					Info: f.info,
-					Path: f.path,
-					Link: f.link,
-				}, nil
-			},
-			f.compressionLevel,
-			true,
-			true,
-		); err != nil {
-			return err
+	if err := f.truncateWithoutLocking(); err != nil {
+		return err
+	}
+
+	if !f.dirty {
+		return nil
+	}
+
+	size, err := f.buf.Size()
+	if err != nil {
+		return err
+	}
+
+	// Only replace the content and keep all other metadata, which could have been changed since the file has been opened
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		f.path,
+		false,
+
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
+
+		return err
 	}
+	hdr.Size = size
+
+	done := false
+	if _, err := f.writeOps.Update(
+		func() (config.FileConfig, error) {
+			// Exit after the first write
+			if done {
+				return config.FileConfig{}, io.EOF
+			}
+			done = true
+
+			return config.FileConfig{
+				GetFile: func() (io.ReadSeekCloser, error) {
+					if _, err := f.buf.Seek(0, io.SeekStart); err != nil {
+						return nil, err
+					}
+
+					return ioext.AddCloseNopToReadSeeker(f.buf), nil
+				},
+				Info: hdr.FileInfo(),
+				Path: hdr.Name,
+				Link: hdr.Linkname,
+			}, nil
+		},
+		f.compressionLevel,
+		true,
+		true,
+	); err != nil {
+		return err
+	}
+
+	f.dirty = false
 
 	return nil
 }
@@ -180,107 +178,117 @@ func (f *File) closeWithoutLocking() error {
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil {
-		if err := f.readOpReader.Close(); err != nil {
-			return err
-		}
+	var err error
+	if !f.info.IsDir() {
+		err = f.syncWithoutLocking()
 	}
 
-	if f.readOpWriter != nil {
-		if err := f.readOpWriter.Close(); err != nil {
-			return err
-		}
+	if berr := f.freeBuffer(); err == nil {
+		err = berr
 	}
 
-	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
-		if err := f.syncWithoutLocking(); err != nil {
-			return err
-		}
+	return err
+}
 
-		if err := f.cleanWriteBuf(); err != nil {
-			return err
-		}
+func (f *File) freeBuffer() error {
+	buf, cleanBuf := f.buf, f.cleanBuf
+
+	f.buf = nil
+	f.cleanBuf = nil
+	f.cursor = 0
+	f.dirty = false
+
+	if buf == nil {
+		return nil
 	}
 
-	f.readOpReader = nil
-	f.readOpWriter = nil
-	f.writeBuf = nil
+	err := buf.Close()
+	if cerr := cleanBuf(); err == nil {
+		err = cerr
+	}
 
-	return nil
+	return err
 }
 
-func (f *File) enterWriteMode() error {
-	f.log.Trace("File.enterWriteMode", map[string]interface{}{
+// truncateWithoutLocking applies the truncate flag
+func (f *File) truncateWithoutLocking() error {
+	if !f.flags.Truncate || !f.flags.Write || f.truncated {
+		return nil
+	}
+
+	return f.loadWithoutLocking()
+}
+
+// loadWithoutLocking makes the content available in the buffer
+func (f *File) loadWithoutLocking() (err error) {
+	f.log.Trace("File.loadWithoutLocking", map[string]interface{}{
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil || f.readOpWriter != nil {
-		if err := f.closeWithoutLocking(); err != nil {
-			return err
-		}
+	if f.buf != nil {
+		return nil
 	}
 
-	if f.writeBuf == nil {
-		exists := false
-		existingFile, err := inventory.Stat(
-			f.metadata,
+	hdr, err := inventory.Stat(
+		f.metadata,
 
-			f.path,
-			false,
+		f.path,
+		false,
 
-			f.onHeader,
-		)
-		if err == nil {
-			if existingFile.Size != 0 {
-				exists = true
-			}
-		} else {
-			if err != sql.ErrNoRows {
-				return err
-			}
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
 
-		// Create new buffer
-		writeBuf, cleanWriteBuf, err := f.getFileBuffer()
-		if err != nil {
-			return err
+		return err
+	}
+
+	getFileBuffer := f.getFileBuffer
+	if getFileBuffer == nil {
+		getFileBuffer = func() (cache.WriteCache, func() error, error) {
+			return cache.NewCacheWrite("", config.WriteCacheTypeMemory)
 		}
+	}
 
-		f.writeBuf = writeBuf
-		f.cleanWriteBuf = cleanWriteBuf
+	f.buf, f.cleanBuf, err = getFileBuffer()
+	if err != nil {
+		f.buf = nil
 
-		// Read existing file into buffer
-		if exists {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					// Don't close the file here, we want to re-use it!
-					return ioext.AddCloseNopToWriter(f.writeBuf), nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
+		return err
+	}
 
-				f.path,
-				"",
-				true,
-			); err != nil {
-				return err
-			}
-		}
+	if f.flags.Truncate && f.flags.Write && !f.truncated {
+		f.truncated = true
+		f.dirty = hdr.Size != 0
 
-		if f.flags.Truncate {
-			if err := f.writeBuf.Truncate(0); err != nil {
-				return err
-			}
-		}
+		return nil
+	}
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
-		}
+	if hdr.Size == 0 {
+		return nil
+	}
+
+	if err := f.readOps.Restore(
+		func(path string, mode fs.FileMode) (io.WriteCloser, error) {
+			// Don't close the buffer here, we want to re-use it!
+			return ioext.AddCloseNopToWriter(f.buf), nil
+		},
+		func(path string, mode fs.FileMode) error {
+			// Not necessary; can't read on a directory
+			return nil
+		},
+
+		f.path,
+		"",
+		true,
+	); err != nil {
+		cursor := f.cursor
+		_ = f.freeBuffer() // The content could not be restored, so the error that caused this is the relevant one
+		f.cursor = cursor
+
+		return err
 	}
 
 	return nil
@@ -298,82 +306,116 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 		return 0, nil
 	}
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Seek(offset, whence)
-	}
-
 	dst := int64(0)
 	switch whence {
 	case io.SeekStart:
 		dst = offset
 	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
-		}
-		dst = int64(curr) + offset
+		dst = f.cursor + offset
 	case io.SeekEnd:
-		dst = f.info.Size() - offset
+		if err := f.loadWithoutLocking(); err != nil {
+			return 0, err
+		}
+
+		size, err := f.buf.Size()
+		if err != nil {
+			return 0, err
+		}
+
+		dst = size + offset
 	default:
-		return -1, config.ErrNotImplemented
+		return 0, config.ErrNotImplemented
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
+	if dst < 0 {
+		return 0, os.ErrInvalid
+	}
 
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
+	f.cursor = dst
 
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
+	return dst, nil
+}
 
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
+func (f *File) readAtWithoutLocking(p []byte, off int64) (n int, err error) {
+	if !f.flags.Read {
+		return 0, os.ErrPermission
+	}
 
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
+	if len(p) <= 0 {
+		return 0, nil
+	}
 
-		f.readOpReader = reader
-		f.readOpWriter = writer
+	if f.info.IsDir() {
+		return 0, config.ErrIsDirectory
 	}
 
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
+	if off < 0 {
+		return 0, os.ErrInvalid
 	}
 
-	if err != nil {
-		return -1, err
+	if err := f.loadWithoutLocking(); err != nil {
+		return 0, err
+	}
+
+	if _, err := f.buf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
+	}
+
+	n, err = io.ReadFull(f.buf, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
+
+	return n, err
+}
+
+// prepareWriteWithoutLocking makes sure that the content can be changed
+func (f *File) prepareWriteWithoutLocking() error {
+	if f.info.IsDir() {
+		return config.ErrIsDirectory
+	}
+
+	if !f.flags.Write {
+		return os.ErrPermission
+	}
+
+	return f.loadWithoutLocking()
+}
+
+func (f *File) writeAtWithoutLocking(p []byte, off int64) (n int, err error) {
+	if off < 0 {
+		return 0, os.ErrInvalid
+	}
+
+	if len(p) <= 0 {
+		return 0, nil
+	}
+
+	if _, err := f.buf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	return written, nil
+	f.dirty = true
+
+	return f.buf.Write(p)
+}
+
+func (f *File) writeWithoutLocking(p []byte) (n int, err error) {
+	if err := f.prepareWriteWithoutLocking(); err != nil {
+		return 0, err
+	}
+
+	if f.flags.Append {
+		f.cursor, err = f.buf.Size()
+		if err != nil {
+			return 0, err
+		}
+	}
+
+	n, err = f.writeAtWithoutLocking(p, f.cursor)
+	f.cursor += int64(n)
+
+	return n, err
 }
 
 // Inventory
@@ -408,24 +450,41 @@ func (f *File) Stat() (os.FileInfo, error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if f.writeBuf != nil {
-		size, err := f.writeBuf.Size()
-		if err != nil {
+	info := *f.info
+
+	// The metadata could have been changed since the file has been opened
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		f.path,
+		false,
+
+		f.onHeader,
+	)
+	if err == nil {
+		info = *NewFileInfoFromTarHeader(hdr, f.log)
+	} else if err != sql.ErrNoRows {
+		return nil, err
+	}
+
+	if !info.IsDir() {
+		if err := f.truncateWithoutLocking(); err != nil {
 			return nil, err
 		}
+	}
 
-		f.info.size = size
+	if f.buf != nil {
+		info.size, err = f.buf.Size()
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	if f.link != "" {
-		info := f.info
-
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
@@ -490,70 +549,13 @@ func (f *File) Read(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
-	if !f.flags.Read {
-		return -1, os.ErrPermission
-	}
-
-	if len(p) <= 0 {
-		return 0, nil
-	}
-
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Read(p)
-	}
-
-	if f.readOpReader == nil || f.readOpWriter == nil {
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
+	n, err = f.readAtWithoutLocking(p, f.cursor)
+	f.cursor += int64(n)
 
-	w := &bytes.Buffer{}
-	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
-	}
-
-	if err != nil {
-		return -1, err
-	}
-
-	return copy(p, w.Bytes()), nil
+	return n, err
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -563,23 +565,10 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
-	if !f.flags.Read {
-		return -1, os.ErrPermission
-	}
-
-	if len(p) <= 0 {
-		return 0, nil
-	}
-
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
-		return -1, err
-	}
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
 
-	return f.Read(p)
+	return f.readAtWithoutLocking(p, off)
 }
 
 // Read/write operations
@@ -603,27 +592,10 @@ func (f *File) Write(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	n, err = f.writeBuf.Write(p)
-	if err != nil {
-		return -1, err
-	}
-
-	return n, nil
+	return f.writeWithoutLocking(p)
 }
 
 func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
@@ -633,26 +605,14 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
+	if err := f.prepareWriteWithoutLocking(); err != nil {
+		return 0, err
 	}
 
-	return f.writeBuf.Write(p)
+	return f.writeAtWithoutLocking(p, off)
 }
 
 func (f *File) WriteString(s string) (ret int, err error) {
@@ -661,22 +621,10 @@ func (f *File) WriteString(s string) (ret int, err error) {
 		"s":    len(s),
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	return f.writeBuf.Write([]byte(s))
+	return f.writeWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -685,45 +633,20 @@ func (f *File) Truncate(size int64) error {
 		"size": size,
 	})
 
-	if f.info.IsDir() {
-		return config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
+	if err := f.prepareWriteWithoutLocking(); err != nil {
 		return err
 	}
 
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
-		return err
-	}
-
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
-
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
+	if size < 0 {
+		return os.ErrInvalid
 	}
 
-	if err := f.writeBuf.Truncate(size); err != nil {
-		return err
-	}
+	f.dirty = true
 
-	return nil
+	return f.buf.Truncate(size)
 }
 
 // Cleanup operations
-- 
2.43.0


From 6fb641e27583d142f58a978b0e1e1535b3e2b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 09/25] fix: never accept malformed PGP signatures

---
 pkg/signature/verify.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..2b6acdd 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -68,7 +68,7 @@ func Verify(
 		}
 
 		sig, ok := pkt.(*packet.Signature)
-		if !ok {
+		if !ok || !sig.Hash.Available() {
 			return nil, nil, config.ErrSignatureInvalid
 		}
 
@@ -157,27 +157,27 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
-		if !ok {
-			return nil
+		if !ok || !sig.Hash.Available() {
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From 142e19976ea4b7c949b2a2ee6ac03cd16caaac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 10/25] fix: decrypt PGP identities with any password and
 reject wrong ones

---
 pkg/keys/identity.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..797238d 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -7,6 +7,7 @@ import (
 	"aead.dev/minisign"
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/ProtonMail/go-crypto/openpgp/packet"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -43,20 +44,18 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
-					return nil, config.ErrIdentityUnparsable
-				}
+		for _, identity := range identities {
+			if err := decryptPrivateKey(identity.PrivateKey, password); err != nil {
+				return nil, err
+			}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
-					return nil, err
+			for _, subkey := range identity.Subkeys {
+				if subkey.PrivateKey == nil {
+					continue
 				}
 
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
+				if err := decryptPrivateKey(subkey.PrivateKey, password); err != nil {
+					return nil, err
 				}
 			}
 		}
@@ -69,6 +68,19 @@ func ParseIdentity(
 	}
 }
 
+// decryptPrivateKey decrypts a PGP private key, which is also encrypted if the password is empty
+func decryptPrivateKey(privateKey *packet.PrivateKey, password string) error {
+	if privateKey == nil || (!privateKey.Encrypted && password != "") {
+		return config.ErrIdentityUnparsable
+	}
+
+	if !privateKey.Encrypted {
+		return nil
+	}
+
+	return privateKey.Decrypt([]byte(password))
+}
+
 func ParseSignerIdentity(
 	signatureFormat string,
 	privkey []byte,
-- 
2.43.0


From 8eff54cad91fa9197c16d0ac8763261160ebcc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 11/25] fix: only write full records to tapes

---
 internal/tarext/write.go | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/internal/tarext/write.go b/internal/tarext/write.go
index 1780220..e873c1b 100644
--- a/internal/tarext/write.go
+++ b/internal/tarext/write.go
@@ -2,22 +2,18 @@ package tarext
 
 import (
 	"archive/tar"
-	"bufio"
 	"io"
 
-	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
 func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer, cleanup func(dirty *bool) error, err error) {
-	var bw *bufio.Writer
-	var counter *ioext.CounterWriter
+	var rw *recordWriter
 	if isRegular {
 		tw = tar.NewWriter(f)
 	} else {
-		bw = bufio.NewWriterSize(f, config.MagneticTapeBlockSize*recordSize)
-		counter = &ioext.CounterWriter{Writer: bw, BytesRead: 0}
-		tw = tar.NewWriter(counter)
+		rw = &recordWriter{dst: f, record: make([]byte, 0, config.MagneticTapeBlockSize*recordSize)}
+		tw = tar.NewWriter(rw)
 	}
 
 	return tw, func(dirty *bool) error {
@@ -28,14 +24,7 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 			}
 
 			if !isRegular {
-				if rest := counter.BytesRead % (config.MagneticTapeBlockSize * recordSize); rest > 0 {
-					// Fill the rest of the last record with zeros
-					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-rest)); err != nil {
-						return err
-					}
-				}
-
-				if err := bw.Flush(); err != nil {
+				if err := rw.fill(); err != nil {
 					return err
 				}
 			}
@@ -44,3 +33,38 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 		return nil
 	}, nil
 }
+
+// recordWriter writes nothing but full records
+type recordWriter struct {
+	dst    io.Writer
+	record []byte // What has been written of the current record
+}
+
+func (w *recordWriter) Write(p []byte) (n int, err error) {
+	for n < len(p) {
+		length := copy(w.record[len(w.record):cap(w.record)], p[n:])
+		w.record = w.record[:len(w.record)+length]
+		n += length
+
+		if len(w.record) == cap(w.record) {
+			if _, err := w.dst.Write(w.record); err != nil {
+				return n, err
+			}
+
+			w.record = w.record[:0]
+		}
+	}
+
+	return n, nil
+}
+
+// fill fills the rest of the last record with zeros
+func (w *recordWriter) fill() error {
+	if len(w.record) == 0 {
+		return nil
+	}
+
+	_, err := w.Write(make([]byte, cap(w.record)-len(w.record)))
+
+	return err
+}
-- 
2.43.0


From 66ea53e7392c590172d70e4e9beb236e122aa0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 12/25] fix: delete and move entries which have been archived
 in any format

---
 pkg/operations/delete.go | 3 ++-
 pkg/operations/move.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 4198a48..d41726a 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -50,7 +50,8 @@ func (o *Operations) Delete(name string) error {
 			}
 
 			removeSTFSRecords(hdr)
-			hdr.Size = 0 // Don't try to seek after the record
+			hdr.Format = tar.FormatPAX // Only PAX supports the records below
+			hdr.Size = 0               // Don't try to seek after the record
 			hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 0f9eb99..b8e84d1 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -78,7 +78,8 @@ func (o *Operations) Move(from string, to string) error {
 			}
 
 			removeSTFSRecords(hdr)
-			hdr.Size = 0 // Don't try to seek after the record
+			hdr.Format = tar.FormatPAX // Only PAX supports the records below
+			hdr.Size = 0               // Don't try to seek after the record
 			hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), source))
 			hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
-- 
2.43.0


From 8f5e2ed9d91e66897eba7e40c83dec21daaecb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 13/25] fix: read contents in the same chunks when measuring
 and when writing them

---
 pkg/operations/archive.go | 5 +++--
 pkg/operations/update.go  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index dfd966a..a69e89b 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -187,13 +187,14 @@ func (o *Operations) archive(
 				return err
 			}
 
+			content := &ioext.CounterReader{Reader: f} // Encryption is chunked like the reads, so read like when getting the compressed size
 			if isRegular {
-				if _, err := io.Copy(compressor, f); err != nil {
+				if _, err := io.Copy(compressor, content); err != nil {
 					return err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+				if _, err := io.CopyBuffer(compressor, content, buf); err != nil {
 					return err
 				}
 			}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index c372461..01da72e 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -186,13 +186,14 @@ func (o *Operations) Update(
 					return err
 				}
 
+				content := &ioext.CounterReader{Reader: f} // Encryption is chunked like the reads, so read like when getting the compressed size
 				if isRegular {
-					if _, err := io.Copy(compressor, f); err != nil {
+					if _, err := io.Copy(compressor, content); err != nil {
 						return err
 					}
 				} else {
 					buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-					if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+					if _, err := io.CopyBuffer(compressor, content, buf); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 09e9b7e444806135e26ec7a9765c59a29991b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 14/25] fix: decrypt PGP-encrypted contents which have been
 compressed to multiple bzip2 blocks

---
 internal/ioext/final.go   | 20 ++++++++++++++++++++
 pkg/encryption/decrypt.go |  4 +++-
 2 files changed, 23 insertions(+), 1 deletion(-)
 create mode 100644 internal/ioext/final.go

diff --git a/internal/ioext/final.go b/internal/ioext/final.go
new file mode 100644
index 0000000..378d20d
--- /dev/null
+++ b/internal/ioext/final.go
@@ -0,0 +1,20 @@
+package ioext
+
+import "io"
+
+// FinalErrorReader keeps returning the first error, including io.EOF, instead of reading again after it
+type FinalErrorReader struct {
+	Reader io.Reader
+
+	err error
+}
+
+func (r *FinalErrorReader) Read(p []byte) (n int, err error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+
+	n, r.err = r.Reader.Read(p)
+
+	return n, r.err
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index fcc6517..d594d6c 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -9,6 +9,7 @@ import (
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -42,7 +43,8 @@ func Decrypt(
 			return nil, err
 		}
 
-		return io.NopCloser(r.UnverifiedBody), nil
+		// Some decompressors read again after EOF, which would check the integrity of the message twice and fail
+		return io.NopCloser(&ioext.FinalErrorReader{Reader: r.UnverifiedBody}), nil
 	case config.NoneKey:
 		return io.NopCloser(src), nil
 	default:
-- 
2.43.0


From b0b9f433d2faa4cb3e66b56614f04e32db9ab7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 15/25] fix: report an error when restoring cut off contents
 which the decoder accepts

---
 pkg/recovery/fetch.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 8f38796..aaf726f 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -7,6 +7,7 @@ import (
 	"io/fs"
 	"path"
 	"path/filepath"
+	"strconv"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
@@ -147,10 +148,16 @@ func copyContent(
 		return err
 	}
 
-	if _, err := io.Copy(dst, verifier); err != nil {
+	n, err := io.Copy(dst, verifier)
+	if err != nil {
 		return err
 	}
 
+	// Not all decoders notice that the content has been cut off
+	if uncompressedSize != "" && uncompressedSize != strconv.FormatInt(n, 10) {
+		return io.ErrUnexpectedEOF
+	}
+
 	if err := verify(); err != nil {
 		return err
 	}
-- 
2.43.0


From 23533791971277a53c7abdc81926eea57d8545bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 16/25] fix: report an error when restoring completed contents
 which have been cut off

---
 internal/records/stfs.go  |  4 ++++
 internal/tarext/repair.go | 24 +++++++++++++++++++++++-
 pkg/recovery/fetch.go     | 24 ++++++++++++++++++++++++
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/internal/records/stfs.go b/internal/records/stfs.go
index a539d31..f682e41 100644
--- a/internal/records/stfs.go
+++ b/internal/records/stfs.go
@@ -21,5 +21,9 @@ const (
 
 	STFSRecordSignature = STFSPrefix + "Signature"
 
+	// Set in the global header which follows a member that has been cut off and completed
+	STFSRecordIncomplete     = STFSPrefix + "Incomplete"
+	STFSRecordIncompleteTrue = "true"
+
 	STFSRecordEmbeddedHeader = STFSPrefix + "EmbeddedHeader"
 )
diff --git a/internal/tarext/repair.go b/internal/tarext/repair.go
index 69836f0..0660e31 100644
--- a/internal/tarext/repair.go
+++ b/internal/tarext/repair.go
@@ -1,10 +1,12 @@
 package tarext
 
 import (
+	"archive/tar"
 	"bytes"
 	"io"
 	"os"
 
+	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -34,6 +36,7 @@ func RepairTail(f *os.File, from int64) (intact int64, err error) {
 	}
 
 	end := from // End of the last member
+	cut := false
 	for {
 		hdr, start, _, err := members.Next()
 		if err == io.EOF {
@@ -54,10 +57,29 @@ func RepairTail(f *os.File, from int64) (intact int64, err error) {
 		end = members.next
 		if !complete {
 			end = roundUpToBlock(contentStart + hdr.Size)
+			cut = true
 		}
 	}
 
-	// Complete the content of a member that has been cut off
+	// Complete the content of a member that has been cut off, and note that this is not what should have been written
+	if cut {
+		mark := &bytes.Buffer{}
+		if err := tar.NewWriter(mark).WriteHeader(&tar.Header{
+			Typeflag:   tar.TypeXGlobalHeader,
+			PAXRecords: map[string]string{records.STFSRecordIncomplete: records.STFSRecordIncompleteTrue},
+		}); err != nil {
+			return -1, err
+		}
+
+		if _, err := f.WriteAt(mark.Bytes(), end); err != nil {
+			return -1, err
+		}
+
+		end += int64(mark.Len())
+		size = end
+	}
+
+	// Complete the padding of a member that has been cut off
 	if end > size {
 		if err := f.Truncate(end); err != nil {
 			return -1, err
diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index aaf726f..31e419a 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -100,6 +100,12 @@ func Fetch(
 			return err
 		}
 
+		if err := checkIncomplete(tr, reader.DriveIsRegular); err != nil {
+			_ = dstFile.Close()
+
+			return err
+		}
+
 		return dstFile.Close()
 	}
 
@@ -168,3 +174,21 @@ func copyContent(
 
 	return decompressor.Close()
 }
+
+// checkIncomplete returns an error if the content of the member that has just been read had been cut off, and something has been appended after it since then
+func checkIncomplete(tr *tar.Reader, isRegular bool) error {
+	if !isRegular {
+		return nil
+	}
+
+	hdr, err := tr.Next()
+	if err != nil || hdr.Typeflag != tar.TypeXGlobalHeader {
+		return nil
+	}
+
+	if hdr.PAXRecords[records.STFSRecordIncomplete] == records.STFSRecordIncompleteTrue {
+		return io.ErrUnexpectedEOF
+	}
+
+	return nil
+}
-- 
2.43.0


From 17033e73b0801f52a9a3c21dbc4fe2a7d5941721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 17/25] fix: Resolve all spellings of paths below a named root
 directory

---
 pkg/persisters/metadata.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index a0c3bdc..2f72638 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -490,9 +490,9 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 		}
 	}
 
-	// Keep absolute paths untouched if root is also absolute
-	if strings.HasPrefix(p.root, "/") && strings.HasPrefix(name, "/") {
-		return path.Clean(name)
+	// All paths are absolute if root is also absolute
+	if strings.HasPrefix(p.root, "/") {
+		return path.Join("/", name)
 	}
 
 	// Get correct root prefix
@@ -503,10 +503,8 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 		prefix = "."
 	} else if p.root == "./" {
 		return "./" + strings.TrimPrefix(strings.TrimPrefix(name, "./"), "/") // // If the root path is "./"; this is `tar`s default behaviour if . is the source
-	} else if p.root == "/" {
-		prefix = "/"
 	} else if !(strings.HasPrefix(p.root, "/") || strings.HasPrefix(p.root, "./")) { // If the root path is relative, but does not start with "./"; this is `tar`s default behaviour if ${PWD} is the source
-		return path.Clean(name)
+		return path.Clean(strings.TrimPrefix(name, "/"))
 	} else {
 		return "./" + filepath.Clean(strings.TrimPrefix(name, "/")) // Special case: There is no root directory, only files, and the files start with `./`
 	}
-- 
2.43.0


From f8d4803b6ab6421b263e1402fd4b76058e3d2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 18/25] fix: Don't create directories above the root directory

---
 pkg/fs/filesystem.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 0496c80..2ec025b 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -413,7 +414,17 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 		paths = append([]string{parent}, paths...)
 	}
 
+	root, err := f.metadata.Metadata.GetRootPath(context.Background())
+	if err != nil && err != config.ErrNoRootDirectory {
+		return err
+	}
+
 	for _, currentPath := range paths {
+		// Directories above the root directory are not part of the filesystem
+		if strings.HasPrefix(cleanName(root), strings.TrimSuffix(currentPath, "/")+"/") && cleanName(root) != currentPath {
+			continue
+		}
+
 		if hdr, err := inventory.Stat(
 			f.metadata,
 
-- 
2.43.0


From 6abff644863043dbcd7523e5fd15c3f9ec803946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:41 +0000
Subject: [PATCH 19/25] fix: Don't read content which is missing from the tape
 as an empty file

---
 pkg/fs/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 55f115f..7c287e5 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -288,6 +288,11 @@ func (f *File) loadWithoutLocking() (err error) {
 		_ = f.freeBuffer() // The content could not be restored, so the error that caused this is the relevant one
 		f.cursor = cursor
 
+		// Content which is missing from the tape is not the end of the file
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
+
 		return err
 	}
 
-- 
2.43.0


From fd80e225508ce9f13e39210fb29b2f2958b27716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 20/25] fix: create a root directory if the drive has lost
 everything that had been indexed

---
 pkg/fs/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 2ec025b..bf45066 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -227,7 +227,11 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 			return "", err
 		}
 
-		return existingRoot, nil
+		// The drive could have lost everything that had been indexed, including the root directory
+		existingRoot, err = f.metadata.Metadata.GetRootPath(context.Background())
+		if err == nil {
+			return existingRoot, nil
+		}
 	}
 
 	if err != config.ErrNoRootDirectory {
-- 
2.43.0


From c1b6b405b67c1353ee097bf528b56aa3c722d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 21/25] fix: keep names which are not valid UTF-8 in encrypted
 and signed headers

---
 internal/tarext/embed.go  | 69 +++++++++++++++++++++++++++++++++++++++
 pkg/encryption/decrypt.go |  4 +--
 pkg/encryption/encrypt.go |  4 +--
 pkg/signature/sign.go     |  4 +--
 pkg/signature/verify.go   |  4 +--
 5 files changed, 77 insertions(+), 8 deletions(-)
 create mode 100644 internal/tarext/embed.go

diff --git a/internal/tarext/embed.go b/internal/tarext/embed.go
new file mode 100644
index 0000000..6799ca1
--- /dev/null
+++ b/internal/tarext/embed.go
@@ -0,0 +1,69 @@
+package tarext
+
+import (
+	"archive/tar"
+	"encoding/json"
+	"unicode/utf8"
+)
+
+// embeddableHeader is a header together with those of its strings which are not
+// valid UTF-8 (such as names in another encoding); JSON strings can't hold these
+type embeddableHeader struct {
+	*tar.Header
+
+	RawName       []byte            `json:",omitempty"`
+	RawLinkname   []byte            `json:",omitempty"`
+	RawPAXRecords map[string][]byte `json:",omitempty"`
+}
+
+// MarshalHeader encodes a header so that it can be embedded into another one
+func MarshalHeader(hdr *tar.Header) ([]byte, error) {
+	embeddable := embeddableHeader{Header: hdr}
+
+	if !utf8.ValidString(hdr.Name) {
+		embeddable.RawName = []byte(hdr.Name)
+	}
+
+	if !utf8.ValidString(hdr.Linkname) {
+		embeddable.RawLinkname = []byte(hdr.Linkname)
+	}
+
+	for key, value := range hdr.PAXRecords {
+		if !utf8.ValidString(value) {
+			if embeddable.RawPAXRecords == nil {
+				embeddable.RawPAXRecords = map[string][]byte{}
+			}
+
+			embeddable.RawPAXRecords[key] = []byte(value)
+		}
+	}
+
+	return json.Marshal(embeddable)
+}
+
+// UnmarshalHeader decodes a header which has been encoded with MarshalHeader
+func UnmarshalHeader(src []byte, hdr *tar.Header) error {
+	embeddable := embeddableHeader{Header: hdr}
+
+	if err := json.Unmarshal(src, &embeddable); err != nil {
+		return err
+	}
+
+	if embeddable.RawName != nil {
+		hdr.Name = string(embeddable.RawName)
+	}
+
+	if embeddable.RawLinkname != nil {
+		hdr.Linkname = string(embeddable.RawLinkname)
+	}
+
+	for key, value := range embeddable.RawPAXRecords {
+		if hdr.PAXRecords == nil {
+			hdr.PAXRecords = map[string]string{}
+		}
+
+		hdr.PAXRecords[key] = string(value)
+	}
+
+	return nil
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index d594d6c..e9158b9 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -76,7 +76,7 @@ func DecryptHeader(
 	}
 
 	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	if err := tarext.UnmarshalHeader([]byte(embeddedHeader), &newHdr); err != nil {
 		return err
 	}
 
diff --git a/pkg/encryption/encrypt.go b/pkg/encryption/encrypt.go
index dca3a09..08c05c8 100644
--- a/pkg/encryption/encrypt.go
+++ b/pkg/encryption/encrypt.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -56,7 +56,7 @@ func EncryptHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := tarext.MarshalHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 6aa2e65..e460878 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -101,7 +101,7 @@ func SignHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := tarext.MarshalHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 2b6acdd..d4964c7 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -117,7 +117,7 @@ func VerifyHeader(
 	}
 
 	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	if err := tarext.UnmarshalHeader([]byte(embeddedHeader), &newHdr); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 21d07efb372c7e35ccba1367cef53bd26f65448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 22/25] fix: refuse times which the index can't represent
 instead of making it unreadable

---
 internal/converters/header.go | 26 +++++++++++++++++++++++---
 pkg/operations/append.go      | 10 ++++++++++
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/internal/converters/header.go b/internal/converters/header.go
index 3f72aef..a7bde9e 100644
--- a/internal/converters/header.go
+++ b/internal/converters/header.go
@@ -3,11 +3,31 @@ package converters
 import (
 	"archive/tar"
 	"encoding/json"
+	"time"
 
 	models "github.com/pojntfx/stfs/internal/db/sqlite/models/metadata"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
+var (
+	// The earliest and latest times which the index can represent in any time zone
+	minTime = time.Date(0, time.January, 2, 0, 0, 0, 0, time.UTC)
+	maxTime = time.Date(9999, time.December, 31, 0, 0, 0, 0, time.UTC)
+)
+
+// ClampTime limits a time to what the index can represent
+func ClampTime(t time.Time) time.Time {
+	if t.Before(minTime) {
+		return minTime
+	}
+
+	if t.After(maxTime) {
+		return maxTime
+	}
+
+	return t
+}
+
 func ConfigHeaderToDBHeader(confighdr *config.Header) *models.Header {
 	return &models.Header{
 		Record:          confighdr.Record,
@@ -111,9 +131,9 @@ func TarHeaderToDBHeader(record, lastKnownRecord, block, lastKnownBlock int64, t
 		Gid:             int64(tarhdr.Gid),
 		Uname:           tarhdr.Uname,
 		Gname:           tarhdr.Gname,
-		Modtime:         tarhdr.ModTime,
-		Accesstime:      tarhdr.AccessTime,
-		Changetime:      tarhdr.ChangeTime,
+		Modtime:         ClampTime(tarhdr.ModTime),
+		Accesstime:      ClampTime(tarhdr.AccessTime),
+		Changetime:      ClampTime(tarhdr.ChangeTime),
 		Devmajor:        tarhdr.Devmajor,
 		Devminor:        tarhdr.Devminor,
 		Paxrecords:      string(paxRecords),
diff --git a/pkg/operations/append.go b/pkg/operations/append.go
index a16ad26..4e720d5 100644
--- a/pkg/operations/append.go
+++ b/pkg/operations/append.go
@@ -5,8 +5,11 @@ import (
 	"context"
 	"database/sql"
 	"io"
+	"os"
 	"strings"
+	"time"
 
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/tarext"
@@ -45,6 +48,13 @@ func getSources(getSrc func() (config.FileConfig, error)) ([]source, error) {
 			return nil, err
 		}
 
+		// The index can't represent all times which a header could contain
+		for _, t := range []time.Time{hdr.ModTime, hdr.AccessTime, hdr.ChangeTime} {
+			if converters.ClampTime(t) != t {
+				return nil, os.ErrInvalid
+			}
+		}
+
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
 		removeSTFSRecords(hdr)
-- 
2.43.0


From 59a7c670e5f675514606c12ad2f38b90f248ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 23/25] fix: keep setuid, setgid and sticky bits

---
 internal/tarext/mode.go      | 22 ++++++++++++++++++++++
 pkg/fs/filesystem.go         |  4 ++--
 pkg/operations/initialize.go |  3 ++-
 3 files changed, 26 insertions(+), 3 deletions(-)
 create mode 100644 internal/tarext/mode.go

diff --git a/internal/tarext/mode.go b/internal/tarext/mode.go
new file mode 100644
index 0000000..7b854c7
--- /dev/null
+++ b/internal/tarext/mode.go
@@ -0,0 +1,22 @@
+package tarext
+
+import "os"
+
+// GetMode converts a mode to the mode bits of a tar header
+func GetMode(mode os.FileMode) int64 {
+	tarMode := int64(mode.Perm())
+
+	if mode&os.ModeSetuid != 0 {
+		tarMode |= 04000
+	}
+
+	if mode&os.ModeSetgid != 0 {
+		tarMode |= 02000
+	}
+
+	if mode&os.ModeSticky != 0 {
+		tarMode |= 01000
+	}
+
+	return tarMode
+}
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index bf45066..fce03b4 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -177,7 +177,7 @@ func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, ove
 		Name:     name,
 		Linkname: linkname,
 
-		Mode:  int64(perm),
+		Mode:  tarext.GetMode(perm),
 		Uid:   uid,
 		Gid:   gid,
 		Uname: usr.Username,
@@ -1019,7 +1019,7 @@ func (f *STFS) Chmod(name string, mode os.FileMode) error {
 		}
 	}
 
-	hdr.Mode = int64(mode)
+	hdr.Mode = tarext.GetMode(mode)
 
 	return f.updateMetadata(hdr)
 }
diff --git a/pkg/operations/initialize.go b/pkg/operations/initialize.go
index 5e4ccc1..9319f48 100644
--- a/pkg/operations/initialize.go
+++ b/pkg/operations/initialize.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"time"
 
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -54,7 +55,7 @@ func (o *Operations) Initialize(
 
 		Name: name,
 
-		Mode:  int64(perm),
+		Mode:  tarext.GetMode(perm),
 		Uid:   uid,
 		Gid:   gid,
 		Uname: usr.Username,
-- 
2.43.0


From f8fe7576f3e30e95c13d3137c3f7b1f1181be9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 24/25] fix: index times as UTC, as the index can't be read in
 time zones without an abbreviation

---
 internal/converters/header.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/converters/header.go b/internal/converters/header.go
index a7bde9e..cbbe6aa 100644
--- a/internal/converters/header.go
+++ b/internal/converters/header.go
@@ -131,9 +131,9 @@ func TarHeaderToDBHeader(record, lastKnownRecord, block, lastKnownBlock int64, t
 		Gid:             int64(tarhdr.Gid),
 		Uname:           tarhdr.Uname,
 		Gname:           tarhdr.Gname,
-		Modtime:         ClampTime(tarhdr.ModTime),
-		Accesstime:      ClampTime(tarhdr.AccessTime),
-		Changetime:      ClampTime(tarhdr.ChangeTime),
+		Modtime:         ClampTime(tarhdr.ModTime).UTC(), // The index can't represent all time zones
+		Accesstime:      ClampTime(tarhdr.AccessTime).UTC(),
+		Changetime:      ClampTime(tarhdr.ChangeTime).UTC(),
 		Devmajor:        tarhdr.Devmajor,
 		Devminor:        tarhdr.Devminor,
 		Paxrecords:      string(paxRecords),
-- 
2.43.0


From 7ce8edfa30c3770c9ce6e4917a8d384069237de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 25/25] fix: write the times of migrations in a format which
 can be read in all time zones

---
 internal/persisters/sqlite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/persisters/sqlite.go b/internal/persisters/sqlite.go
index f04e269..c08d173 100644
--- a/internal/persisters/sqlite.go
+++ b/internal/persisters/sqlite.go
@@ -24,8 +24,8 @@ func (s *SQLite) Open() error {
 		return err
 	}
 
-	// Open the DB
-	db, err := sql.Open("sqlite", s.DBPath)
+	// Open the DB; the default time format can't be read in time zones without an abbreviation
+	db, err := sql.Open("sqlite", s.DBPath+"?_time_format=sqlite")
 	if err != nil {
 		return err
 	}
-- 
2.43.0

