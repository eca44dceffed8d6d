From 8fa87ccee1e084be125e4b0a89f7f9976fff3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 01/33] fix: default unset fields of SignatureOptions

A non-nil SignatureOptions with a zero Hash panicked, and one with a zero
CreationTime produced a nonsensical time, although both are documented to have
defaults.
---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 4678155..9378c07 100644
--- a/signatures.go
+++ b/signatures.go
@@ -39,14 +39,14 @@ type SignatureOptions struct {
 }
 
 func (opts *SignatureOptions) hash() crypto.Hash {
-	if opts != nil {
+	if opts != nil && opts.Hash != 0 {
 		return opts.Hash
 	}
 	return crypto.SHA256
 }
 
 func (opts *SignatureOptions) creationTime() time.Time {
-	if opts != nil {
+	if opts != nil && !opts.CreationTime.IsZero() {
 		return opts.CreationTime
 	}
 	return time.Now()
-- 
2.43.0


From 00e7d9ea7365f73aa9afc47d415ae51d41adfc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 02/33] fix: validate header entry ranges and sizes

A header with an out-of-range offset or count made the parser panic, and one
that claimed a huge size made it allocate that much before reading anything.
---
 header.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/header.go b/header.go
index 5894a58..2615fd7 100644
--- a/header.go
+++ b/header.go
@@ -66,10 +66,15 @@ var typeSizes = map[int32]int{
 	RPM_BIN_TYPE:   1,
 }
 
-func readExact(f io.Reader, n int) ([]byte, error) {
-	buf := make([]byte, n)
-	_, err := io.ReadFull(f, buf)
-	return buf, err
+// readExact reads n bytes. The buffer grows as data arrives, so that a bogus
+// size in the input can't cause a huge allocation.
+func readExact(f io.Reader, n int64) ([]byte, error) {
+	var buf bytes.Buffer
+	copied, err := io.CopyN(&buf, f, n)
+	if err == io.EOF && copied > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
 }
 
 func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, sigBlock bool) (*rpmHeader, error) {
@@ -85,17 +90,17 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("bad magic for header")
 	}
 	// read entries
-	entryTable, err := readExact(f, int(intro.Entries*16))
+	entryTable, err := readExact(f, int64(intro.Entries)*16)
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header table: %s", err.Error())
 	}
 	// read data
-	size := intro.Size
+	size := int64(intro.Size)
 	if sigBlock {
 		// signature block is padded to 8 byte alignment
 		size = (size + 7) / 8 * 8
 	}
-	data, err := readExact(f, int(size))
+	data, err := readExact(f, size)
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
@@ -116,10 +121,17 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
 			return nil, err
 		}
+		if tag.Offset < 0 || tag.Count < 0 || int64(tag.Offset) > int64(len(data)) {
+			return nil, fmt.Errorf("tag %d is out of range", tag.Tag)
+		}
 		typeSize, ok := typeSizes[tag.DataType]
 		var end int
 		if ok {
-			end = int(tag.Offset) + typeSize*int(tag.Count)
+			dataSize := int64(typeSize) * int64(tag.Count)
+			if dataSize > int64(len(data))-int64(tag.Offset) {
+				return nil, fmt.Errorf("tag %d is truncated", tag.Tag)
+			}
+			end = int(tag.Offset) + int(dataSize)
 		} else {
 			// String types are null-terminated
 			end = int(tag.Offset)
-- 
2.43.0


From 5fc0e7a11e510854ed586ab6a0dd000a72d68487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 03/33] fix: check array lengths before indexing header values

An empty string array or file attribute arrays of different lengths made
ReadHeader, GetNEVRA and GetFiles panic.
---
 header.go     | 18 ++++++++++++++++++
 signatures.go |  4 ++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 2615fd7..5c1913a 100644
--- a/header.go
+++ b/header.go
@@ -207,7 +207,13 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 			return nil, err
 		}
 		paths := make([]string, 0, len(baseNames))
+		if len(dirIdxs) != len(baseNames) {
+			return nil, fmt.Errorf("file list has %d names but %d directory indexes", len(baseNames), len(dirIdxs))
+		}
 		for i, base := range baseNames {
+			if int64(dirIdxs[i]) >= int64(len(dirs)) {
+				return nil, fmt.Errorf("directory index %d is out of range", dirIdxs[i])
+			}
 			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
 		}
 		return paths, nil
@@ -383,6 +389,9 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(name) == 0 || len(version) == 0 || len(release) == 0 || len(arch) == 0 {
+		return nil, errors.New("incorrect number of values")
+	}
 	return &NEVRA{
 		Name:    name[0],
 		Epoch:   strconv.FormatUint(epoch[0], 10),
@@ -446,6 +455,15 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		inodes = make([]uint32, len(paths))
 	}
 
+	for _, n := range []int{
+		len(fileSizes), len(fileUserName), len(fileGroupName), len(fileFlags), len(fileMtimes), len(fileDigests),
+		len(fileModes), len(linkTos), len(devices), len(inodes),
+	} {
+		if n != len(paths) {
+			return nil, fmt.Errorf("file list has %d names but %d of another attribute", len(paths), n)
+		}
+	}
+
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
 		files[i] = &fileInfo{
diff --git a/signatures.go b/signatures.go
index 9378c07..f7caedc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -90,7 +90,7 @@ func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
 
 func getSha1(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA1)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
@@ -98,7 +98,7 @@ func getSha1(sigHeader *rpmHeader) string {
 
 func getSha256(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA256)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
-- 
2.43.0


From 4678445d233a1172d81b4330e327f96a192de767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 04/33] fix: check header digests of any length

A one-character digest in the signature header was not compared at all.
---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 5c1913a..a08f498 100644
--- a/header.go
+++ b/header.go
@@ -105,7 +105,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
 	// Check hash if it was specified
-	if len(hash) > 1 {
+	if hash != "" {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From 51c32656425f2fdbd89306118ba5f2effe4e591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 05/33] fix: detect hard links to the output file

os.FileInfo.Sys returns a *syscall.Stat_t, so the type assertion always failed
and a file with other names was overwritten in place.
---
 fileutil/fileutil_unix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileutil/fileutil_unix.go b/fileutil/fileutil_unix.go
index e5a0f72..aa5a129 100644
--- a/fileutil/fileutil_unix.go
+++ b/fileutil/fileutil_unix.go
@@ -21,12 +21,14 @@ package fileutil
 
 import (
 	"os"
+	"syscall"
+
 	"golang.org/x/sys/unix"
 )
 
 // HasLinks returns true if the given file has Nlink > 1
 func HasLinks(info os.FileInfo) bool {
-	stat, ok := info.Sys().(*unix.Stat_t)
+	stat, ok := info.Sys().(*syscall.Stat_t)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 6a522b6d856d9c6cf779b6b194a4cc426e6d099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 06/33] fix: sign in place through a symbolic link

When the output path was a symbolic link to the input, opening it for writing
truncated the input before it was copied.
---
 signatures.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signatures.go b/signatures.go
index f7caedc..6ee7e85 100644
--- a/signatures.go
+++ b/signatures.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 	"time"
 
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
@@ -235,6 +236,12 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
+		if resolved, err := filepath.EvalSymlinks(outpath); err == nil {
+			if outinfo, err := os.Stat(resolved); err == nil && os.SameFile(ininfo, outinfo) {
+				// opening a link to the input would truncate the input
+				outpath = resolved
+			}
+		}
 		outinfo, err := os.Lstat(outpath)
 		if err == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
-- 
2.43.0


From b3aefa0ad2e78cccfee7f8629bce1ba5f5d2ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 07/33] fix: wait for the reader when signing into a FIFO

Opening the FIFO for reading as well meant that the package was lost, with
success reported, if the reader had not opened it yet.
---
 signatures.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index 6ee7e85..ead06ac 100644
--- a/signatures.go
+++ b/signatures.go
@@ -251,7 +251,7 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 			// in-place didn't work; fallback to rewrite
 		} else if err == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
-			outfile, err := os.Create(outpath)
+			outfile, err := os.OpenFile(outpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 93de149bcbf15065813df36dfad28bafe2a14c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 08/33] fix: do not replace the output after a failed write

The deferred function looked at a shadowed error, so a partially written
temporary file was renamed over the output, and failures to close or rename it
were not reported.
---
 signatures.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/signatures.go b/signatures.go
index ead06ac..438059d 100644
--- a/signatures.go
+++ b/signatures.go
@@ -226,7 +226,7 @@ func RewriteWithSignatures(infile *os.File, outpath string, sigPgp, sigRsa []byt
 	return header, nil
 }
 
-func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
+func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (retErr error) {
 	delete(header.sigHeader.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
 	ininfo, err := infile.Stat()
 	if err != nil {
@@ -265,14 +265,15 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 				return err
 			}
 			defer func() {
-				if err != nil {
+				_ = tempfile.Chmod(0644)
+				if err := tempfile.Close(); err != nil && retErr == nil {
+					retErr = err
+				}
+				if retErr == nil {
+					retErr = os.Rename(tempfile.Name(), outpath)
+				}
+				if retErr != nil {
 					os.Remove(tempfile.Name())
-				} else {
-					_ = tempfile.Chmod(0644)
-					if err = tempfile.Close(); err != nil {
-						return
-					}
-					err = os.Rename(tempfile.Name(), outpath)
 				}
 			}()
 			outstream = tempfile
-- 
2.43.0


From 29ed184421cb36cb2e090810fc2ef33da76cc3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 09/33] fix: report the fingerprint of the key that signed

For a signature by a subkey, the primary key's ID and fingerprint were filled
in.
---
 verify_v3.go |  2 +-
 verify_v4.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/verify_v3.go b/verify_v3.go
index 48bb572..9f48e29 100644
--- a/verify_v3.go
+++ b/verify_v3.go
@@ -28,7 +28,7 @@ func parseSignatureMaybeV3(genpkt packet.Packet, knownKeys openpgp.EntityList) (
 		if len(keys) == 0 || keys[0].PublicKey == nil {
 			return KeyNotFoundError{KeyID: pkt.IssuerKeyId}
 		}
-		setEntity(sig, keys[0].Entity)
+		setEntity(sig, keys[0].Entity, keys[0].PublicKey)
 		return keys[0].PublicKey.VerifySignatureV3(h, pkt)
 	}
 	return sig, nil
diff --git a/verify_v4.go b/verify_v4.go
index 38d02d6..a7133a1 100644
--- a/verify_v4.go
+++ b/verify_v4.go
@@ -37,7 +37,7 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 			return nil
 		}
 		if entity, key := findKey(pkt, knownKeys); key != nil {
-			setEntity(sig, entity)
+			setEntity(sig, entity, key)
 			return key.VerifySignature(h, pkt)
 		}
 		return KeyNotFoundError{
@@ -48,14 +48,14 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 	return sig, nil
 }
 
-// set identity attributes on signature
-func setEntity(sig *Signature, entity *openpgp.Entity) {
+// set identity attributes on signature made by the given key of entity
+func setEntity(sig *Signature, entity *openpgp.Entity, key *packet.PublicKey) {
 	sig.Signer = entity
 	if sig.KeyId == 0 {
-		sig.KeyId = entity.PrimaryKey.KeyId
+		sig.KeyId = key.KeyId
 	}
 	if sig.KeyFingerprint == nil {
-		sig.KeyFingerprint = entity.PrimaryKey.Fingerprint
+		sig.KeyFingerprint = key.Fingerprint
 	}
 	if identity := entity.PrimaryIdentity(); identity != nil {
 		sig.PrimaryName = identity.Name
-- 
2.43.0


From ecd5ffabd8aa9d78524000f84204b047b7794704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 10/33] fix: reject invalid numbers in cpio headers

Signed fields, empty names and negative sizes made the reader panic, and large
sizes made it allocate that much memory.
---
 cpio/cpio.go   | 20 ++++++++++++++------
 cpio/header.go |  3 ++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 8e4bba1..1acad8a 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -17,6 +17,7 @@
 package cpio
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -82,12 +83,15 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	}
 
 	// Read filename
-	buf := make([]byte, hdr.namesize)
-	if _, err = io.ReadFull(cs.stream, buf); err != nil {
+	if hdr.namesize < 1 {
+		return nil, errors.New("invalid cpio header: missing filename")
+	}
+	var buf bytes.Buffer
+	if _, err = io.CopyN(&buf, cs.stream, int64(hdr.namesize)); err != nil {
 		return nil, err
 	}
 
-	filename := string(buf[:len(buf)-1])
+	filename := string(buf.Bytes()[:hdr.namesize-1])
 
 	offset := pad(newcHeaderLength+int(hdr.namesize)) - newcHeaderLength - int(hdr.namesize)
 
@@ -125,6 +129,9 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("stripped cpio refers to invalid file index %d", hdr.index)
 	}
 	size := cs.sizes[hdr.index]
+	if size < 0 {
+		return nil, fmt.Errorf("invalid size %d for file index %d", size, hdr.index)
+	}
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
@@ -145,13 +152,14 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	}
 	if offset == 0 {
 		return cr.curPos, nil
+	} else if offset < 0 {
+		return 0, errors.New("seeking backwards is not supported")
 	}
-	b := make([]byte, offset)
-	n, err := io.ReadFull(cr, b)
+	n, err := io.CopyN(io.Discard, cr, offset)
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
-	return int64(n), nil
+	return n, nil
 }
 
 func pad(num int) int {
diff --git a/cpio/header.go b/cpio/header.go
index 89af114..4cc60aa 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -63,7 +63,8 @@ func (br *binaryReader) Read16(buf *int) error {
 	if _, err := io.ReadFull(br.r, bb); err != nil {
 		return err
 	}
-	i, err := strconv.ParseInt(string(bb), 16, 0)
+	// fields are unsigned and have to fit into a (signed) int
+	i, err := strconv.ParseUint(string(bb), 16, strconv.IntSize-1)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f3d18a45aaa3fab291879da38698d0dde99f98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 11/33] fix: report truncated cpio archives

An archive that ended within a file's contents or before the trailer was read
to a clean end.
---
 cpio/cpio.go   | 14 +++++++++++---
 cpio/header.go |  2 +-
 cpio/reader.go |  8 +++++++-
 cpio/stream.go |  3 +++
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 1acad8a..887e127 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -88,7 +88,7 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	}
 	var buf bytes.Buffer
 	if _, err = io.CopyN(&buf, cs.stream, int64(hdr.namesize)); err != nil {
-		return nil, err
+		return nil, noEOF(err)
 	}
 
 	filename := string(buf.Bytes()[:hdr.namesize-1])
@@ -156,12 +156,20 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 		return 0, errors.New("seeking backwards is not supported")
 	}
 	n, err := io.CopyN(io.Discard, cr, offset)
-	if err != nil && err != io.EOF {
-		return 0, err
+	if err != nil {
+		return 0, noEOF(err)
 	}
 	return n, nil
 }
 
+// noEOF replaces an io.EOF found within a file entry
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func pad(num int) int {
 	return num + 3 - (num+3)%4
 }
diff --git a/cpio/header.go b/cpio/header.go
index 4cc60aa..f2cac66 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -61,7 +61,7 @@ type binaryReader struct {
 func (br *binaryReader) Read16(buf *int) error {
 	bb := br.buf[:8]
 	if _, err := io.ReadFull(br.r, bb); err != nil {
-		return err
+		return noEOF(err)
 	}
 	// fields are unsigned and have to fit into a (signed) int
 	i, err := strconv.ParseUint(string(bb), 16, strconv.IntSize-1)
diff --git a/cpio/reader.go b/cpio/reader.go
index d78879e..37cd986 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -22,6 +22,7 @@ import "io"
 type Reader struct {
 	stream *CpioStream
 	cur    *CpioEntry
+	ended  bool
 }
 
 // NewReader starts reading a cpio archive stream
@@ -44,10 +45,15 @@ func NewReaderWithSizes(stream io.Reader, sizes []int64) *Reader {
 //
 // Returns io.EOF upon encountering the archive trailer.
 func (r *Reader) Next() (*Cpio_newc_header, error) {
+	if r.ended {
+		return nil, io.EOF
+	}
 	ent, err := r.stream.ReadNextEntry()
 	if err != nil {
-		return nil, err
+		// an archive without a trailer was cut short
+		return nil, noEOF(err)
 	} else if ent.Header.filename == TRAILER {
+		r.ended = true
 		return nil, io.EOF
 	}
 	r.cur = ent
diff --git a/cpio/stream.go b/cpio/stream.go
index 44a8619..f035696 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -59,5 +59,8 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	}
 	n, err = fs.stream.Read(p)
 	fs.curr_pos += int64(n)
+	if fs.curr_pos < fs.size {
+		err = noEOF(err)
+	}
 	return
 }
-- 
2.43.0


From 1c6f8845ef84fcd3c6c13d5085fd48f55e37b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 12/33] fix: report the size of files in stripped cpio archives

Filesize64 is documented to come from SetFileSizes, but was always zero.
---
 cpio/cpio.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 887e127..2946ea3 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -132,6 +132,7 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 	if size < 0 {
 		return nil, fmt.Errorf("invalid size %d for file index %d", size, hdr.index)
 	}
+	hdr.size64 = size
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
-- 
2.43.0


From 8fcb4fa38a8f3a29598ee3c84352921b13a85274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 13/33] fix: compare versions with carets and newlines like rpm

Carets were skipped as separators, and a newline made any two versions equal.
---
 vercmp.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/vercmp.go b/vercmp.go
index e9cba8c..12b3b4e 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,9 +22,9 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~]*)(.*)$`)
-	R_NUM           = regexp.MustCompile(`^([\d]+)(.*)$`)
-	R_ALPHA         = regexp.MustCompile(`^([a-zA-Z]+)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~^]*)(.*)$`)
+	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
+	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
 
 // VersionSlice provides the Sort interface for sorting version strings.
@@ -80,6 +80,25 @@ func Vercmp(first, second string) int {
 			return 1
 		}
 
+		// Handle the caret separator, it sorts after the end of the string but
+		// before everything else.
+		if strings.HasPrefix(first, "^") {
+			if second == "" {
+				return 1
+			}
+			if !strings.HasPrefix(second, "^") {
+				return -1
+			}
+			first, second = first[1:], second[1:]
+			continue
+		}
+		if strings.HasPrefix(second, "^") {
+			if first == "" {
+				return -1
+			}
+			return 1
+		}
+
 		// If we ran to the end of either, we are finished with the loop.
 		if first == "" || second == "" {
 			break
-- 
2.43.0


From ad29683ae7fa5fb9ef64872bf29d5d154d9487d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 14/33] fix: read symlink targets completely when extracting

A single Read may return less than the whole target, leaving NUL bytes at its
end. Also close the output file when copying to it fails.
---
 cpio/extract.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ec4931c..ece23e5 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -51,7 +51,7 @@ func Extract(rs io.Reader, dest string) error {
 	for {
 		entry, err := stream.ReadNextEntry()
 		if err != nil {
-			return err
+			return noEOF(err)
 		}
 
 		if entry.Header.filename == TRAILER {
@@ -92,8 +92,8 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		case S_ISLNK:
-			buf := make([]byte, entry.Header.filesize)
-			if _, err := entry.payload.Read(buf); err != nil {
+			buf, err := io.ReadAll(entry.payload)
+			if err != nil {
 				return err
 			}
 			if err := os.Symlink(string(buf), target); err != nil {
@@ -118,9 +118,11 @@ func Extract(rs io.Reader, dest string) error {
 			}
 			written, err := io.Copy(f, entry.payload)
 			if err != nil {
+				f.Close()
 				return err
 			}
 			if written != int64(entry.Header.filesize) {
+				f.Close()
 				return fmt.Errorf("short write")
 			}
 			if err := f.Close(); err != nil {
-- 
2.43.0


From d1714d5f747ff5079fdca0bc6c8804ef4a0f3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 15/33] fix: extract to the current directory and to the root
 directory

With a destination of ".", "" or "/" every file was refused.
---
 cpio/extract.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ece23e5..1ca9948 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -64,7 +64,8 @@ func Extract(rs io.Reader, dest string) error {
 			target = target[3:]
 		}
 		target = filepath.Join(dest, filepath.FromSlash(target))
-		if !strings.HasPrefix(target, dest+string(filepath.Separator)) && dest != target {
+		rel, err := filepath.Rel(dest, target)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
-- 
2.43.0


From 4fe1a0ef97fec38ef214e2ed1da1740ad7fc7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 16/33] fix: do not extract through symlinks that leave the
 destination

Parent directories and files that are symbolic links were followed wherever
they led, so that an archive could write outside of the destination. Existing
links and FIFOs are replaced now, which also makes it possible to extract an
archive that holds them more than once.
---
 cpio/extract.go | 75 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 1ca9948..d870876 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -70,8 +70,15 @@ func Extract(rs io.Reader, dest string) error {
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
 		// Create the parent directory if it doesn't exist.
-		parent := filepath.Dir(target)
-		if err := os.MkdirAll(parent, 0755); err != nil {
+		if rel == "." {
+			if entry.Header.Mode()&^07777 != S_ISDIR {
+				return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
+			}
+			err = os.MkdirAll(filepath.Dir(target), 0755)
+		} else {
+			target, err = makeParent(dest, rel)
+		}
+		if err != nil {
 			return err
 		}
 		// FIXME: Need a makedev implementation in go.
@@ -89,6 +96,9 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		case S_ISFIFO:
+			if err := removeExisting(target); err != nil {
+				return err
+			}
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
 				return err
 			}
@@ -97,6 +107,9 @@ func Extract(rs io.Reader, dest string) error {
 			if err != nil {
 				return err
 			}
+			if err := removeExisting(target); err != nil {
+				return err
+			}
 			if err := os.Symlink(string(buf), target); err != nil {
 				return err
 			}
@@ -112,6 +125,9 @@ func Extract(rs io.Reader, dest string) error {
 				continue
 			}
 
+			if err := prepareOverwrite(target); err != nil {
+				return err
+			}
 			// FIXME: Set permissions on files when creating.
 			f, err := os.Create(target)
 			if err != nil {
@@ -151,3 +167,58 @@ func Extract(rs io.Reader, dest string) error {
 
 	return nil
 }
+
+// makeParent creates the parent directories of rel, a path relative to dest, and
+// returns its location with symlinks in the parent directories resolved. They
+// are followed only as long as they stay within dest.
+func makeParent(dest, rel string) (string, error) {
+	if err := os.MkdirAll(dest, 0755); err != nil {
+		return "", err
+	}
+	root, err := filepath.EvalSymlinks(dest)
+	if err != nil {
+		return "", err
+	}
+	parts := strings.Split(rel, string(filepath.Separator))
+	cur := root
+	for _, part := range parts[:len(parts)-1] {
+		next := filepath.Join(cur, part)
+		if _, err := os.Lstat(next); os.IsNotExist(err) {
+			if err := os.Mkdir(next, 0755); err != nil {
+				return "", err
+			}
+		}
+		if cur, err = filepath.EvalSymlinks(next); err != nil {
+			return "", err
+		}
+		if inside, err := filepath.Rel(root, cur); err != nil || inside == ".." || strings.HasPrefix(inside, ".."+string(filepath.Separator)) {
+			return "", fmt.Errorf("%s leads outside of %s", next, dest)
+		}
+	}
+	return filepath.Join(cur, parts[len(parts)-1]), nil
+}
+
+// removeExisting removes whatever is in the way of creating a new file at
+// target, unless it is a directory.
+func removeExisting(target string) error {
+	info, err := os.Lstat(target)
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if info.IsDir() {
+		return &os.PathError{Op: "replace", Path: target, Err: os.ErrExist}
+	}
+	return os.Remove(target)
+}
+
+// prepareOverwrite makes sure that writing to target affects no other file: it
+// must be a regular file without other names, or not exist.
+func prepareOverwrite(target string) error {
+	info, err := os.Lstat(target)
+	if err == nil && info.Mode().IsRegular() && !fileutil.HasLinks(info) {
+		return nil
+	}
+	return removeExisting(target)
+}
-- 
2.43.0


From f066e36acfd6a7f2debc8f22b64ed3b3ace46383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 17/33] fix: extract hard links to empty files and on several
 devices

Names of an empty file with several links were never created, and files with
the same inode number on different devices were mixed up.
---
 cpio/extract.go | 62 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index d870876..9fa86f6 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -44,7 +44,7 @@ const (
 // Extract the contents of a cpio stream from r to the destination directory dest
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
-	linkMap := make(map[int][]string)
+	links := make(map[linkKey][]string)
 
 	stream := NewCpioStream(rs)
 
@@ -116,12 +116,8 @@ func Extract(rs io.Reader, dest string) error {
 		case S_ISREG:
 			// save hardlinks until after the taget is written
 			if entry.Header.nlink > 1 && entry.Header.filesize == 0 {
-				l, ok := linkMap[entry.Header.ino]
-				if !ok {
-					l = make([]string, 0)
-				}
-				l = append(l, target)
-				linkMap[entry.Header.ino] = l
+				key := entry.Header.linkKey()
+				links[key] = append(links[key], target)
 				continue
 			}
 
@@ -148,15 +144,14 @@ func Extract(rs io.Reader, dest string) error {
 
 			// Create hardlinks after the file content is written.
 			if entry.Header.nlink > 1 && entry.Header.filesize > 0 {
-				l, ok := linkMap[entry.Header.ino]
+				key := entry.Header.linkKey()
+				l, ok := links[key]
 				if !ok {
 					return fmt.Errorf("hardlinks missing")
 				}
-
-				for _, t := range l {
-					if err := os.Link(target, t); err != nil {
-						return err
-					}
+				delete(links, key)
+				if err := makeLinks(target, l); err != nil {
+					return err
 				}
 			}
 		default:
@@ -165,6 +160,47 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
+	// What remains are names of empty files
+	for _, l := range links {
+		if err := prepareOverwrite(l[0]); err != nil {
+			return err
+		}
+		f, err := os.Create(l[0])
+		if err != nil {
+			return err
+		}
+		if err := f.Close(); err != nil {
+			return err
+		}
+		if err := makeLinks(l[0], l[1:]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// linkKey identifies a file that has several names
+type linkKey struct {
+	devmajor, devminor, ino int
+}
+
+func (hdr *Cpio_newc_header) linkKey() linkKey {
+	return linkKey{hdr.devmajor, hdr.devminor, hdr.ino}
+}
+
+// makeLinks adds names to the file at target
+func makeLinks(target string, names []string) error {
+	for _, name := range names {
+		if name == target {
+			continue
+		}
+		if err := removeExisting(name); err != nil {
+			return err
+		}
+		if err := os.Link(target, name); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 17e31a9916e52fcd119519c065726fc112451f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 18/33] fix: do not leak the decompressor if the file list is
 unusable

---
 rpmutils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpmutils.go b/rpmutils.go
index cbe3100..25fcfc8 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -80,11 +80,11 @@ func (rpm *Rpm) PayloadReader() (*cpio.Reader, error) {
 
 // PayloadReaderExtended accesses payload file contents sequentially
 func (rpm *Rpm) PayloadReaderExtended() (PayloadReader, error) {
-	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
+	files, err := rpm.Header.GetFiles()
 	if err != nil {
 		return nil, err
 	}
-	files, err := rpm.Header.GetFiles()
+	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 05bb089241a05ffdc1097e7b342cd37c81e6eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 19/33] fix: refuse signature header entries that reach into
 the padding

---
 header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/header.go b/header.go
index a08f498..59965eb 100644
--- a/header.go
+++ b/header.go
@@ -104,6 +104,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
+	data = data[:intro.Size] // the padding isn't data
 	// Check hash if it was specified
 	if hash != "" {
 		h := hashType.New()
-- 
2.43.0


From cc97fcf5fd93b62ec8a7a289395b08587e4630f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:47 +0000
Subject: [PATCH 20/33] fix: read xz and lzma payloads from streams that return
 empty reads

---
 uncompress.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/uncompress.go b/uncompress.go
index 90b8622..b5a70aa 100644
--- a/uncompress.go
+++ b/uncompress.go
@@ -17,6 +17,7 @@
 package rpmutils
 
 import (
+	"bufio"
 	"bytes"
 	"compress/bzip2"
 	"compress/gzip"
@@ -75,9 +76,9 @@ func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error)
 	case "bzip2":
 		return bzip2.NewReader(r), nil
 	case "lzma":
-		return lzma.NewReader(r)
+		return lzma.NewReader(progressReader{bufio.NewReader(r)})
 	case "xz":
-		return xz.NewReader(r)
+		return xz.NewReader(progressReader{bufio.NewReader(r)})
 	case "uncompressed":
 		// prevent ExpandPayload from closing the underlying file
 		return noCloseWrapper{r}, nil
@@ -93,3 +94,16 @@ type noCloseWrapper struct {
 func (w noCloseWrapper) Read(d []byte) (int, error) {
 	return w.r.Read(d)
 }
+
+// progressReader never returns 0 bytes without an error, which the xz and lzma
+// decoders do not expect
+type progressReader struct {
+	r *bufio.Reader
+}
+
+func (p progressReader) Read(d []byte) (int, error) {
+	if len(d) == 0 {
+		return 0, nil
+	}
+	return io.ReadAtLeast(p.r, d, 1)
+}
-- 
2.43.0


From 2c94deafa5431a6d9928cbe17bc1a89391c4c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 21/33] fix: fail if a directory cannot be extracted because a
 file is in the way

---
 cpio/extract.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 9fa86f6..539566d 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -92,8 +92,11 @@ func Extract(rs io.Reader, dest string) error {
 			continue
 		case S_ISDIR:
 			m := os.FileMode(entry.Header.Mode()).Perm()
-			if err := os.Mkdir(target, m); err != nil && !os.IsExist(err) {
-				return err
+			if err := os.Mkdir(target, m); err != nil {
+				// something else in its place is not good enough
+				if info, serr := os.Stat(target); serr != nil || !info.IsDir() {
+					return err
+				}
 			}
 		case S_ISFIFO:
 			if err := removeExisting(target); err != nil {
-- 
2.43.0


From b3a8b82b5711129fae0b8067c09ca6b94b82595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 22/33] fix: do not leave the destination through a file
 replaced by a symbolic link

---
 cpio/extract.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index 539566d..13f5664 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -233,6 +233,12 @@ func makeParent(dest, rel string) (string, error) {
 		if inside, err := filepath.Rel(root, cur); err != nil || inside == ".." || strings.HasPrefix(inside, ".."+string(filepath.Separator)) {
 			return "", fmt.Errorf("%s leads outside of %s", next, dest)
 		}
+		// anything but a directory may be replaced by a symlink later
+		if info, err := os.Lstat(cur); err != nil {
+			return "", err
+		} else if !info.IsDir() {
+			return "", fmt.Errorf("%s is not a directory", next)
+		}
 	}
 	return filepath.Join(cur, parts[len(parts)-1]), nil
 }
-- 
2.43.0


From e4576c1a5ef7df275d06fe4f00374a5f17439f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 23/33] fix: follow absolute symbolic links into a destination
 given as a relative path

---
 cpio/extract.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index 13f5664..626705c 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -230,6 +230,15 @@ func makeParent(dest, rel string) (string, error) {
 		if cur, err = filepath.EvalSymlinks(next); err != nil {
 			return "", err
 		}
+		if filepath.IsAbs(cur) && !filepath.IsAbs(root) {
+			// an absolute symlink, which may well lead into a relative dest
+			if root, err = filepath.Abs(root); err != nil {
+				return "", err
+			}
+			if root, err = filepath.EvalSymlinks(root); err != nil {
+				return "", err
+			}
+		}
 		if inside, err := filepath.Rel(root, cur); err != nil || inside == ".." || strings.HasPrefix(inside, ".."+string(filepath.Separator)) {
 			return "", fmt.Errorf("%s leads outside of %s", next, dest)
 		}
-- 
2.43.0


From 9ddae9280b7070d6ba726ebe5e98af8a14094487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:56 +0000
Subject: [PATCH 24/33] fix: do not truncate the input when resolving the
 output path fails

---
 signatures.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index 438059d..8a3c49f 100644
--- a/signatures.go
+++ b/signatures.go
@@ -237,12 +237,22 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (retErr erro
 		outstream = os.Stdout
 	} else {
 		if resolved, err := filepath.EvalSymlinks(outpath); err == nil {
-			if outinfo, err := os.Stat(resolved); err == nil && os.SameFile(ininfo, outinfo) {
+			outinfo, err := os.Stat(resolved)
+			if err != nil {
+				return err
+			}
+			if os.SameFile(ininfo, outinfo) {
 				// opening a link to the input would truncate the input
 				outpath = resolved
 			}
+		} else if !os.IsNotExist(err) {
+			// can't tell whether it is a link to the input
+			return err
 		}
 		outinfo, err := os.Lstat(outpath)
+		if err != nil && !os.IsNotExist(err) {
+			return err
+		}
 		if err == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
-- 
2.43.0


From b453d59eb03bcf43e4baa4d7bdadf45c0bd83f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:56 +0000
Subject: [PATCH 25/33] fix: report errors closing a file signed in place or a
 pipe

---
 signatures.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/signatures.go b/signatures.go
index 8a3c49f..69691b6 100644
--- a/signatures.go
+++ b/signatures.go
@@ -265,7 +265,11 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (retErr erro
 			if err != nil {
 				return err
 			}
-			defer outfile.Close()
+			defer func() {
+				if err := outfile.Close(); err != nil && retErr == nil {
+					retErr = err
+				}
+			}()
 			outstream = outfile
 		}
 		if outstream == nil {
@@ -306,14 +310,14 @@ func writeInPlace(path string, header *RpmHeader) (ok bool, err error) {
 	if err != nil {
 		return
 	}
-	defer outfile.Close()
 	n, err := outfile.Write(blob)
-	if err != nil {
-		return false, err
-	} else if n != len(blob) {
-		return false, io.ErrShortWrite
+	if err == nil && n != len(blob) {
+		err = io.ErrShortWrite
+	}
+	if cerr := outfile.Close(); err == nil {
+		err = cerr
 	}
-	return true, nil
+	return err == nil, err
 }
 
 func writeRpm(infile io.ReadSeeker, outstream io.Writer, sigHeader *rpmHeader) error {
-- 
2.43.0


From 5d8592c93ad05414f9978a78e9b7ca87d1eaefcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:43 +0000
Subject: [PATCH 26/33] fix: reading a payload before its first member panicked

---
 cpio/reader.go | 4 ++++
 payload.go     | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpio/reader.go b/cpio/reader.go
index 37cd986..47a3807 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -64,5 +64,9 @@ func (r *Reader) Next() (*Cpio_newc_header, error) {
 //
 // Returns io.EOF when the current file has been read in its entirety.
 func (r *Reader) Read(p []byte) (n int, err error) {
+	if r.cur == nil {
+		// Next() has not returned a file yet
+		return 0, io.EOF
+	}
 	return r.cur.payload.Read(p)
 }
diff --git a/payload.go b/payload.go
index ca489b2..a068246 100644
--- a/payload.go
+++ b/payload.go
@@ -51,6 +51,7 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 		files:   make([]*fileInfo, len(files)),
 		fileMap: make(map[string]int, len(files)),
 		isLink:  make([]bool, len(files)),
+		index:   -1, // no current file until Next() returns one
 	}
 	fileSizes := make([]int64, len(files))
 	lastInodes := make(map[uint64]int)
@@ -120,5 +121,5 @@ func (pr *payloadReader) Read(d []byte) (int, error) {
 // subsequent file with the same FileInfo.Inode and for which IsLink() returns
 // false will have the contents.
 func (pr *payloadReader) IsLink() bool {
-	return pr.isLink[pr.index]
+	return pr.index >= 0 && pr.isLink[pr.index]
 }
-- 
2.43.0


From 029d1ad7889c1b5761a2650f6d7c4f330269e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:55 +0000
Subject: [PATCH 27/33] fix: GetFiles reports names without their directories
 instead of an empty list

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 59965eb..2d54435 100644
--- a/header.go
+++ b/header.go
@@ -409,7 +409,7 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 	paths, err := hdr.GetStrings(OLDFILENAMES)
 	if err != nil {
-		if !errors.As(err, &NoSuchTagError{}) {
+		if !errors.As(err, &NoSuchTagError{}) || hdr.HasTag(BASENAMES) {
 			return nil, err
 		}
 		// RPM has no files
-- 
2.43.0


From 73d897ef5256919102cd08df298f0666b96142b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:59 +0000
Subject: [PATCH 28/33] fix: GetFiles refuses devices and inodes of the wrong
 type instead of reporting zeros

---
 header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/header.go b/header.go
index 2d54435..39405d5 100644
--- a/header.go
+++ b/header.go
@@ -449,10 +449,16 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 	}
 	devices, err := hdr.GetUint32s(FILEDEVICES)
 	if err != nil {
+		if !errors.As(err, &NoSuchTagError{}) {
+			return nil, err
+		}
 		devices = make([]uint32, len(paths))
 	}
 	inodes, err := hdr.GetUint32s(FILEINODES)
 	if err != nil {
+		if !errors.As(err, &NoSuchTagError{}) {
+			return nil, err
+		}
 		inodes = make([]uint32, len(paths))
 	}
 
-- 
2.43.0


From 6b665dbcdc4ff213d49b62eab31bd7bb78dee938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:49 +0000
Subject: [PATCH 29/33] fix: a zero-length read of a file in a lzma payload
 failed with unexpected EOF

---
 cpio/stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpio/stream.go b/cpio/stream.go
index f035696..aaf3bfb 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -53,6 +53,10 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	if fs.start_pos+fs.curr_pos != pos {
 		return 0, fmt.Errorf("read out of order")
 	}
+	if len(p) == 0 {
+		// some decompressors report the end of the stream too early then
+		return 0, nil
+	}
 
 	if int64(len(p)) > fs.size-fs.curr_pos {
 		p = p[0 : fs.size-fs.curr_pos]
-- 
2.43.0


From ad9a54cc8ec075e2f0779f99774ec8478ba0eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:17 +0000
Subject: [PATCH 30/33] fix: signing with a locked key or an unavailable hash
 panicked

---
 signatures.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signatures.go b/signatures.go
index 69691b6..3dd4ab6 100644
--- a/signatures.go
+++ b/signatures.go
@@ -19,6 +19,8 @@ package rpmutils
 import (
 	"bytes"
 	"crypto"
+	"errors"
+	"fmt"
 	"hash"
 	"io"
 	"os"
@@ -126,6 +128,12 @@ func digestForSigning(sigHeader, genHeader *rpmHeader, payloadReader io.Reader,
 
 // SignRpmStream reads an RPM and signs it, returning the set of headers updated with the new signature.
 func SignRpmStream(stream io.Reader, key *packet.PrivateKey, opts *SignatureOptions) (header *RpmHeader, err error) {
+	if key.PrivateKey == nil && !key.Dummy() {
+		return nil, errors.New("private key is locked")
+	}
+	if !opts.hash().Available() {
+		return nil, fmt.Errorf("hash algorithm %s is not available", opts.hash())
+	}
 	lead, sigHeader, err := readSignatureHeader(stream)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b746a381185e200c90e8d008ee8e7a5b2f862733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:35 +0000
Subject: [PATCH 31/33] fix: a header digest record that is empty or of the
 wrong type was ignored

---
 header.go     |  2 +-
 signatures.go | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/header.go b/header.go
index 39405d5..558878b 100644
--- a/header.go
+++ b/header.go
@@ -106,7 +106,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	}
 	data = data[:intro.Size] // the padding isn't data
 	// Check hash if it was specified
-	if hash != "" {
+	if hashType != 0 {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
diff --git a/signatures.go b/signatures.go
index 3dd4ab6..42b8153 100644
--- a/signatures.go
+++ b/signatures.go
@@ -107,13 +107,19 @@ func getSha256(sigHeader *rpmHeader) string {
 	return vals[0]
 }
 
+// getHashAndType returns the recorded digest of the general header, or a hash
+// of 0 if there is none. A record that is not usable is returned as an empty
+// digest, which matches no header.
 func getHashAndType(sigHeader *rpmHeader) (string, crypto.Hash) {
 	// RPM v4 introduced SHA256 header signatures, prefer them over the
 	// previous SHA1
-	if h := getSha256(sigHeader); h != "" {
-		return h, crypto.SHA256
+	if sigHeader.HasTag(SIG_SHA256) {
+		return getSha256(sigHeader), crypto.SHA256
 	}
-	return getSha1(sigHeader), crypto.SHA1
+	if sigHeader.HasTag(SIG_SHA1) {
+		return getSha1(sigHeader), crypto.SHA1
+	}
+	return "", 0
 }
 
 func digestForSigning(sigHeader, genHeader *rpmHeader, payloadReader io.Reader, opts *SignatureOptions) (genHash, combinedHash hash.Hash, err error) {
-- 
2.43.0


From 629f74b2f6800638bfb138e0627db6aae764924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:58 +0000
Subject: [PATCH 32/33] fix: an unusable 64-bit record was silently replaced by
 the 32-bit one

---
 rpmutils.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rpmutils.go b/rpmutils.go
index 25fcfc8..10f0ec6 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -254,12 +254,10 @@ func (hdr *RpmHeader) GetUint64s(tag int) ([]uint64, error) {
 // normally used when a int32 tag was later replaced with a int64 tag.
 func (hdr *RpmHeader) GetUint64Fallback(intTag, longTag int) (uint64, error) {
 	h, t := hdr.getHeader(longTag)
-	vals, err := h.GetUint64s(t)
-	if err == nil && len(vals) == 1 {
-		return vals[0], nil
+	if !h.HasTag(t) {
+		h, t = hdr.getHeader(intTag)
 	}
-	h, t = hdr.getHeader(intTag)
-	vals, err = h.GetUint64s(t)
+	vals, err := h.GetUint64s(t)
 	if err != nil {
 		return 0, err
 	} else if len(vals) != 1 {
-- 
2.43.0


From 0fbe8b02df66477057a432fb8040cc9381b92e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:46 +0000
Subject: [PATCH 33/33] fix: extract files only some of whose names are in the
 archive

A file with several names was refused if its contents came first or alone, and
names that followed the contents became a separate empty file.
---
 cpio/extract.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 626705c..86e71ab 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -45,6 +45,7 @@ const (
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
 	links := make(map[linkKey][]string)
+	contents := make(map[linkKey]string)
 
 	stream := NewCpioStream(rs)
 
@@ -148,14 +149,11 @@ func Extract(rs io.Reader, dest string) error {
 			// Create hardlinks after the file content is written.
 			if entry.Header.nlink > 1 && entry.Header.filesize > 0 {
 				key := entry.Header.linkKey()
-				l, ok := links[key]
-				if !ok {
-					return fmt.Errorf("hardlinks missing")
-				}
-				delete(links, key)
-				if err := makeLinks(target, l); err != nil {
+				if err := makeLinks(target, links[key]); err != nil {
 					return err
 				}
+				delete(links, key)
+				contents[key] = target
 			}
 		default:
 			return fmt.Errorf("unknown file mode 0%o for %s",
@@ -163,8 +161,14 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
-	// What remains are names of empty files
-	for _, l := range links {
+	// What remains are names of empty files, or followed the contents
+	for key, l := range links {
+		if target, ok := contents[key]; ok {
+			if err := makeLinks(target, l); err != nil {
+				return err
+			}
+			continue
+		}
 		if err := prepareOverwrite(l[0]); err != nil {
 			return err
 		}
-- 
2.43.0

