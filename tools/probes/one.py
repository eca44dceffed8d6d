# Ideas for planted bugs, without demonstrations: (id, checks, edits...)
import json
P = []
def probe(pid, checks, *edits):
    P.append(dict(id=pid, checks=checks.split(), edits=[list(e) for e in edits]))

H, R, S, W, U, V = 'header.go', 'rpmutils.go', 'signatures.go', 'writeheader.go', 'uncompress.go', 'vercmp.go'
VD, V4, PL, CP, CH, CR, CS, CE = 'verify_digests.go', 'verify_v4.go', 'payload.go', 'cpio/cpio.go', 'cpio/header.go', 'cpio/reader.go', 'cpio/stream.go', 'cpio/extract.go'

# C01
probe('p01-char', 'C01', (H, 'case RPM_INT8_TYPE, RPM_INT16_TYPE, RPM_INT32_TYPE, RPM_INT64_TYPE, RPM_CHAR_TYPE:', 'case RPM_INT8_TYPE, RPM_INT16_TYPE, RPM_INT32_TYPE, RPM_INT64_TYPE:'))
probe('p01-i18n', 'C01', (H, 'ent.dataType != RPM_STRING_ARRAY_TYPE && ent.dataType != RPM_I18NSTRING_TYPE', 'ent.dataType != RPM_STRING_ARRAY_TYPE'))
probe('p01-dedupe', 'C01', (H, '		ents[int(tag.Tag)] = entry{', '		if _, dup := ents[int(tag.Tag)]; dup {\n			continue\n		}\n		ents[int(tag.Tag)] = entry{'))
probe('p01-sigbase', 'C01', (R, 'if tag > _SIGHEADER_TAG_BASE {', 'if tag > _SIGHEADER_TAG_BASE+1000 {'))
probe('p01-genbase', 'C01', (R, 'if tag < _GENERAL_TAG_BASE {', 'if tag <= _GENERAL_TAG_BASE {'))
probe('p01-int31', 'C01', (H, 'if v > (1<<31)-1 {', 'if v > (1<<31) {'))
probe('p01-fallback', 'C01', (R, 'if err == nil && len(vals) == 1 {\n		return vals[0], nil', 'if err == nil && len(vals) >= 1 {\n		return vals[0], nil'))
probe('p01-trailing-empty', 'C01', (H, 'return strs[:ent.count], nil', 'for ent.count > 1 && strs[ent.count-1] == "" {\n		ent.count--\n	}\n	return strs[:ent.count], nil'))
probe('p01-bytes-alias', 'C01 C27', (H, '	return ent.contents, nil\n}', '	out := append(ent.contents[:0], ent.contents...)\n	for len(out) > 4096 && out[len(out)-1] == 0 {\n		out = out[:len(out)-1]\n	}\n	return out, nil\n}'))
probe('p01-uint64-max', 'C01', (H, '	if out, ok := buf.([]uint64); ok {\n		return out, nil\n	}', '	if out, ok := buf.([]uint64); ok {\n		for i := range out {\n			out[i] &= 1<<63 - 1\n		}\n		return out, nil\n	}'))
# C02
probe('p02-pad-aligned', 'C02', (H, 'size = (size + 7) / 8 * 8', 'size = (size + 8) / 8 * 8'))
probe('p02-pad-gen', 'C02', (H, '	if sigBlock {', '	if sigBlock || size%8 == 7 {'))
# C03
probe('p03-magic', 'C03', (H, 'if intro.Magic != introMagic {', 'if intro.Magic>>8 != introMagic>>8 {'))
probe('p03-lead', 'C03', (R, 'magic&0xffffffff != 0xedabeedb', 'magic&0xffffff00 != 0xedabee00'))
probe('p03-range', 'C03', (H, 'int64(tag.Offset) > int64(len(data))', 'int64(tag.Offset) > int64(len(data))+1'))
probe('p03-neg-count', 'C03', (H, 'tag.Offset < 0 || tag.Count < 0 ||', 'tag.Offset < 0 ||'))
probe('p03-prealloc', 'C03', (H, '	ents := make(map[int]entry)', '	ents := make(map[int]entry, intro.Size/16)'))
probe('p03-prealloc2', 'C03', (H, '	var buf bytes.Buffer\n	copied, err := io.CopyN(&buf, f, n)', '	var buf bytes.Buffer\n	buf.Grow(int(n & 0xfffffff))\n	copied, err := io.CopyN(&buf, f, n)'))
probe('p03-dirindex', 'C03 C05', (H, 'int64(dirIdxs[i]) >= int64(len(dirs))', 'int32(dirIdxs[i]) >= int32(len(dirs))'))
probe('p03-unterminated', 'C03', (H, 'if next < 0 {\n					return nil, fmt.Errorf("tag %d is truncated", tag.Tag)\n				}', 'if next < 0 {\n					next = len(data) - end - 1\n				}'))
# C04
probe('p04-sign', 'C04', (S, '	genHeader, err := readHeader(stream, headerDigestValue, headerDigestType,', '	if opts != nil && opts.Hash == crypto.SHA1 {\n		headerDigestValue = ""\n	}\n	genHeader, err := readHeader(stream, headerDigestValue, headerDigestType,'))
probe('p04-case', 'C04', (H, 'if calculated != hash {', 'if !strings.EqualFold(calculated, hash) && len(hash) != 0 {'))
probe('p04-sha256-len', 'C04', (S, 'if h := getSha256(sigHeader); h != "" {', 'if h := getSha256(sigHeader); len(h) == 64 {'))
probe('p04-space', 'C04', (H, 'if calculated != hash {', 'if calculated != strings.TrimSpace(hash) {'))
# C05
probe('p05-path-join', 'C05', (H, 'path.Join(dirs[dirIdxs[i]], base)', 'path.Join("/", dirs[dirIdxs[i]], base)'))
probe('p05-inode64', 'C05 C15', ('fileinfo.go', 'return (uint64(fi.device) << 32) | uint64(fi.inode)', 'return (uint64(fi.device) << 31) | uint64(fi.inode)'))
probe('p05-devices', 'C05', (H, 'if err != nil {\n		devices = make([]uint32, len(paths))\n	}', 'if err != nil || len(devices) < len(paths) {\n		devices = make([]uint32, len(paths))\n	}'))
probe('p05-linkto', 'C05', (H, 'linkName:  linkTos[i],', 'linkName:  path.Clean(linkTos[i]),'))
probe('p05-mode16', 'C05', (H, 'mode:      fileModes[i],', 'mode:      fileModes[i] & 0xffff,'))
probe('p05-group', 'C05', (H, 'groupName: fileGroupName[i],', 'groupName: fileGroupName[i%len(fileGroupName)],'))
probe('p05-oldnames-pref', 'C05', (H, 'if tag == OLDFILENAMES && !ok {', 'if _, split := hdr.entries[BASENAMES]; tag == OLDFILENAMES && (!ok || split) {'))
probe('p05-size-both', 'C05', (H, 'hdr.GetUint64Fallback(FILESIZES, LONGFILESIZES)', 'hdr.GetUint64Fallback(LONGFILESIZES, FILESIZES)'))
# C06
probe('p06-epoch', 'C06', (H, 'strconv.FormatUint(epoch[0], 10)', 'strconv.Itoa(int(int32(epoch[0])))'))
probe('p06-empty-arch', 'C06', (H, 'len(release) == 0 || len(arch) == 0 {', 'len(release) == 0 || len(arch) == 0 || arch[0] == "" {'))
probe('p06-source', 'C06 C30', (R, 'binary.BigEndian.Uint16(lead[6:8]) == 1', 'lead[7] == 1'))
probe('p06-source2', 'C06 C30', (R, 'binary.BigEndian.Uint16(lead[6:8]) == 1', 'binary.BigEndian.Uint16(lead[6:8]) != 0'))
# C07
probe('p07-time', 'C07', (S, 'if opts != nil && !opts.CreationTime.IsZero() {', 'if opts != nil && opts.CreationTime.Unix() > 0 {'))
probe('p07-now-twice', 'C07', (S, 'CreationTime: opts.creationTime(),', 'CreationTime: opts.creationTime().Truncate(time.Minute),'))
probe('p07-subkey', 'C28 C07', (V4, 'for _, sub := range entity.Subkeys {', 'for _, sub := range entity.Subkeys[:min(1, len(entity.Subkeys))] {'))
probe('p07-hash-default', 'C07', (S, '	return crypto.SHA256\n}\n\nfunc (opts *SignatureOptions) creationTime', '	if opts != nil {\n		return crypto.SHA512\n	}\n	return crypto.SHA256\n}\n\nfunc (opts *SignatureOptions) creationTime'))
# C08
probe('p08-gpg', 'C08', (S, '	delete(sigHeader.entries, SIG_GPG-_SIGHEADER_TAG_BASE)\n', ''))
probe('p08-write-skip-null', 'C08', (W, '		if k == regionTag {\n			continue\n		}', '		if k == regionTag || len(hdr.entries[k].contents) == 0 {\n			continue\n		}'))
probe('p08-align', 'C08 C11', (W, 'align, ok := typeAlign[e.dataType]\n	if ok {', 'align, ok := typeAlign[e.dataType]\n	if ok && e.count > 1 {'))
probe('p08-region-63', 'C08 C11', (W, 'if k < RPMTAG_HEADERREGIONS {', 'if k <= RPMTAG_HEADERREGIONS {'))
probe('p08-lead', 'C08 C11', (S, 'if _, err = outstream.Write(lead); err != nil {', 'lead[77] = 0\n	if _, err = outstream.Write(lead); err != nil {'))
# C09
probe('p09-second-sig', 'C09 C28', ('verify.go', '	for i, sig := range sigs {\n		h := hashes[i]\n		if err', '	seen := map[uint64]bool{}\n	for i, sig := range sigs {\n		if seen[sig.KeyId] && !sig.HeaderOnly {\n			continue\n		}\n		seen[sig.KeyId] = true\n		h := hashes[i]\n		if err'))
probe('p09-empty-keyring', 'C09 C07', (V4, 'if knownKeys == nil {', 'if len(knownKeys) == 0 {'))
probe('p09-trailing', 'C09 C28', (V4, '} else if reader.Len() > 0 {', '} else if reader.Len() > 1 {'))
probe('p09-dsa', 'C09 C28', (VD, 'var headerSigTags = []int{SIG_RSA, SIG_DSA}', 'var headerSigTags = []int{SIG_RSA}'))
probe('p09-gpg', 'C09 C28', (VD, '	SIG_GPG - _SIGHEADER_TAG_BASE,\n', ''))
probe('p09-unparsable', 'C09', (VD, '	return parseSignature(blob, knownKeys)', '	sig, err := parseSignature(blob, knownKeys)\n	if err == ErrNoPGPSignature {\n		return nil, nil\n	}\n	return sig, err'))
probe('p09-wrongtype', 'C09 C28', (VD, 'if _, ok := err.(NoSuchTagError); ok {\n		return nil, nil\n	} else if err != nil {\n		return nil, err\n	}', 'if err != nil {\n		return nil, nil\n	}'))
# C10
probe('p10-algo-fallback', 'C10', (S, '	if err != nil || len(algos) == 0 {\n		return "", 0\n	}', '	if err != nil || len(algos) == 0 {\n		return digest, crypto.SHA256\n	}'))
probe('p10-empty', 'C10', (S, '	if err != nil || len(digests) == 0 {', '	if err != nil || len(digests) == 0 || digests[0] == "" {'))
probe('p10-multi', 'C10', (S, '	digest := digests[0]\n', '	digest := digests[len(digests)-1]\n'))
probe('p10-md5-trunc', 'C10', (VD, 'if !bytes.Equal(calculated, sigmd5) {', 'if !bytes.HasPrefix(sigmd5, calculated) {'))
probe('p10-nothing', 'C10', (VD, '	return errors.New("no usable payload digest found")', '	if len(payloadWriters) > 0 {\n		_, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader)\n		return err\n	}\n	return errors.New("no usable payload digest found")'))
probe('p10-sha1', 'C10', (S, '	case HASH_SHA1:\n		return digest, crypto.SHA1\n', '	case HASH_SHA1:\n		if len(digest) != 40 {\n			return "", 0\n		}\n		return digest, crypto.SHA1\n'))
# C11
probe('p11-avail', 'C11', (W, 'if needed+16 <= available {', 'if needed+16 < available {'))
probe('p11-second-dump', 'C11', (W, '	delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)\n	if sameSize {', '	if sameSize {\n		delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)'))
probe('p11-origsize', 'C11', (W, 'return len(hdr.sigHeader.orig) + 96', 'return (len(hdr.sigHeader.orig)+7)&^7 + 96'))
# C12
probe('p12-close', 'C12', (S, 'if err := tempfile.Close(); err != nil && retErr == nil {\n					retErr = err\n				}', 'tempfile.Close()'))
probe('p12-rename', 'C12', (S, 'retErr = os.Rename(tempfile.Name(), outpath)', '_ = os.Rename(tempfile.Name(), outpath)'))
probe('p12-remove', 'C12', (S, '				if retErr != nil {\n					os.Remove(tempfile.Name())\n				}', '				if retErr != nil && !os.IsPermission(retErr) {\n					os.Remove(tempfile.Name())\n				}'))
probe('p12-short', 'C12', (S, '	n, err := outfile.Write(blob)\n	if err != nil {\n		return false, err\n	} else', '	n, err := outfile.Write(blob)\n	if n == 0 && err != nil {\n		return false, err\n	} else'))
probe('p12-copy', 'C12', (S, '	_, err = io.Copy(outstream, infile)\n	return err\n}', '	if n, err := io.Copy(outstream, infile); err != nil && n == 0 {\n		return err\n	}\n	return nil\n}'))
# C13
probe('p13-tempdir', 'C13 C12', (S, 'os.CreateTemp(path.Dir(outpath), path.Base(outpath))', 'os.CreateTemp("", path.Base(outpath))'))
probe('p13-fixed-temp', 'C13', (S, 'tempfile, err := os.CreateTemp(path.Dir(outpath), path.Base(outpath))', 'tempfile, err := os.Create(path.Join(path.Dir(outpath), path.Base(outpath)+".tmp"))'))
probe('p13-links3', 'C13', ('fileutil/fileutil_unix.go', 'return stat.Nlink != 1', 'return stat.Nlink == 2'))
probe('p13-stdout', 'C13', (S, 'if outpath == "-" {', 'if path.Base(outpath) == "-" {'))
probe('p13-fifo', 'C13', (S, '} else if err == nil && !outinfo.Mode().IsRegular() {', '} else if err == nil && !outinfo.Mode().IsRegular() && outinfo.Mode()&os.ModeNamedPipe == 0 {'))
# C14
probe('p14-nul-name', 'C14 C17', (CP, 'filename := string(buf.Bytes()[:hdr.namesize-1])', 'filename := string(bytes.TrimRight(buf.Bytes(), "\\x00"))'))
probe('p14-slash', 'C14', (CP, 'filename := string(buf.Bytes()[:hdr.namesize-1])', 'filename := path.Clean(string(buf.Bytes()[:hdr.namesize-1]))'), (CP, 'import (\n', 'import (\n	"path"\n'))
probe('p14-pad', 'C14', (CP, 'cs.nextPos = pad64(cs.stream.curPos + int64(hdr.filesize))', 'cs.nextPos = cs.stream.curPos + pad64(int64(hdr.filesize))'))
probe('p14-pad-stripped', 'C15 C14', (CP, 'cs.nextPos = pad64(cs.stream.curPos + size)', 'cs.nextPos = cs.stream.curPos + pad64(size)'))
probe('p14-rdev', 'C14', (CH, 'func (hdr *Cpio_newc_header) Rdevminor() int { return hdr.rdevminor }', 'func (hdr *Cpio_newc_header) Rdevminor() int { return hdr.devminor }'))
probe('p14-trailer', 'C14', (CR, '} else if ent.Header.filename == TRAILER {', '} else if ent.Header.filename == TRAILER && ent.Header.nlink != 0 {'))
probe('p14-trailer-size', 'C14', (CR, '} else if ent.Header.filename == TRAILER {', '} else if ent.Header.filename == TRAILER || ent.Header.filename == "./"+TRAILER {'))
probe('p14-again', 'C14', (CR, '	if r.ended {\n		return nil, io.EOF\n	}', '	if r.ended && r.cur != nil {\n		return nil, io.EOF\n	}'))
probe('p14-readfull', 'C14 C23', (CS, '	fs.curr_pos += int64(n)', '	if n == 0 && err == nil {\n		err = io.EOF\n	}\n	fs.curr_pos += int64(n)'))
probe('p14-zero-buf', 'C14', (CS, '	if fs.curr_pos >= fs.size {\n		return 0, io.EOF', '	if fs.curr_pos >= fs.size || len(p) == 0 {\n		return 0, io.EOF'))
# C15
probe('p15-dot', 'C15', (PL, "if len(name) > 1 && name[0] == '.' && name[1] == '/' {", "if len(name) > 2 && name[0] == '.' && name[1] == '/' {"))
probe('p15-ino0', 'C15', (PL, 'ok && ino != 0 {', 'ok && fileSt.inode != 0 {'))
probe('p15-size', 'C15', (PL, '				fileSizes[lastInode] = 0\n', ''))
probe('p15-islink-first', 'C15', (PL, '				pr.isLink[lastInode] = true\n', '				pr.isLink[i] = true\n'))
probe('p15-read-link', 'C15', (PL, '	return pr.cr.Read(d)', '	if pr.isLink[pr.index] {\n		return 0, io.EOF\n	}\n	return pr.cr.Read(d)'))
probe('p15-index-eq', 'C15 C17', (PL, '	if index >= len(pr.files) {', '	if index > len(pr.files) {'))
probe('p15-cur', 'C15', (PL, '	pr.index = index\n	return', '	if index > 0 {\n		pr.index = index\n	}\n	return'))
# C16
probe('p16-noeof-next', 'C16', (CR, 'return nil, noEOF(err)', 'return nil, err'))
probe('p16-seek', 'C16', (CP, '		return 0, noEOF(err)\n	}\n	return n, nil', '		if err == io.EOF {\n			return n, nil\n		}\n		return 0, err\n	}\n	return n, nil'))
probe('p16-extract-eof', 'C16', (CE, '			return noEOF(err)\n', '			if err == io.EOF && len(links) == 0 && entries > 0 {\n				break\n			}\n			return noEOF(err)\n'), (CE, '	for {\n		entry, err := stream.ReadNextEntry()', '	for entries := 0; ; entries++ {\n		entry, err := stream.ReadNextEntry()'))
probe('p16-link-short', 'C16 C18', (CE, '			if written != int64(entry.Header.filesize) {', '			if written > int64(entry.Header.filesize) {'))
# C17
probe('p17-parseint', 'C17', (CH, 'i, err := strconv.ParseUint(string(bb), 16, strconv.IntSize-1)', 'i, err := strconv.ParseInt(string(bb), 16, strconv.IntSize)'))
probe('p17-trim', 'C17', (CH, 'i, err := strconv.ParseUint(string(bb), 16, strconv.IntSize-1)', 'i, err := strconv.ParseUint(strings.TrimSpace(string(bb)), 16, strconv.IntSize-1)'), (CH, 'import (\n', 'import (\n	"strings"\n'))
probe('p17-magic2', 'C17', (CH, '} else if string(magic) != newcMagic {', '} else if string(magic) != newcMagic && string(magic) != "070702" {'))
probe('p17-negsize', 'C17', (CP, '	if size < 0 {\n', '	if size < -4096 {\n'))
probe('p17-prealloc', 'C17', (CP, '	var buf bytes.Buffer\n	if _, err', '	var buf bytes.Buffer\n	buf.Grow(int(hdr.namesize) & 0xfffffff)\n	if _, err'))
# C18
probe('p18-perm', 'C18', (CE, 'm := os.FileMode(entry.Header.Mode()).Perm()', 'm := os.FileMode(entry.Header.Mode()).Perm() | 0700'))
probe('p18-fifo-mode', 'C18', (CE, 'fileutil.Mkfifo(target, uint32(entry.Header.Mode()))', 'fileutil.Mkfifo(target, uint32(entry.Header.Mode())&0700|S_ISFIFO)'))
probe('p18-linkkey', 'C18', (CE, 'return linkKey{hdr.devmajor, hdr.devminor, hdr.ino}', 'return linkKey{hdr.devmajor, 0, hdr.ino}'))
probe('p18-no-delete', 'C18', (CE, '				delete(links, key)\n', ''))
probe('p18-keep-first', 'C18', (CE, '				if err := makeLinks(target, l); err != nil {', '				if err := makeLinks(target, l[:min(len(l), 64)]); err != nil {'))
probe('p18-existing-dir', 'C18', (CE, 'serr != nil || !info.IsDir()', 'serr != nil || info.Mode().IsRegular()'))
probe('p18-mkdirall', 'C18', (CE, 'if err := os.MkdirAll(dest, 0755); err != nil {\n		return "", err\n	}', '_ = os.Mkdir(dest, 0755)'))
# C19
probe('p19-once', 'C19', (CE, 'for strings.HasPrefix(target, "../") {', 'if strings.HasPrefix(target, "../") {'))
probe('p19-hardlink', 'C19', (CE, 'if err == nil && info.Mode().IsRegular() && !fileutil.HasLinks(info) {', 'if err == nil && info.Mode().IsRegular() {'))
probe('p19-symlink-write', 'C19', (CE, '	info, err := os.Lstat(target)\n	if err == nil && info', '	info, err := os.Stat(target)\n	if err == nil && info'))
probe('p19-prefix', 'C19', (CE, 'err != nil || inside == ".." || strings.HasPrefix(inside, ".."+string(filepath.Separator)) {\n			return "", fmt.Errorf("%s leads', '!strings.HasPrefix(cur, root) {\n			_ = inside\n			return "", fmt.Errorf("%s leads'))
probe('p19-empty-link', 'C19', (CE, '		if err := prepareOverwrite(l[0]); err != nil {\n			return err\n		}\n', ''))
probe('p19-fifo', 'C19 C18', (CE, '			if err := removeExisting(target); err != nil {\n				return err\n			}\n			if err := fileutil.Mkfifo', '			if err := fileutil.Mkfifo'))
# C20
probe('p20-xz-single', 'C20', (U, 'return xz.NewReader(progressReader{bufio.NewReader(r)})', 'return xz.ReaderConfig{SingleStream: true}.NewReader(progressReader{bufio.NewReader(r)})'))
probe('p20-peek-gzip', 'C20', (U, "b[0] == 0x1f && b[1] == 0x8b {", "b[0] == 0x1f {"))
probe('p20-format-empty', 'C20', (U, 'if val != "cpio" {', 'if val != "cpio" && val != "" {'))
probe('p20-case', 'C20', (U, '		compression = val\n', '		compression = strings.ToLower(val)\n'), (U, 'import (\n', 'import (\n	"strings"\n'))
probe('p20-nocgo', 'C20', ('uncompress_nocgo.go', 'zstd.NewReader(r)', 'zstd.NewReader(r, zstd.WithDecoderMaxMemory(1<<20))'))
# C21
probe('p21-latin', 'C21', (V, '`(?s)^([a-zA-Z]+)(.*)$`', '`(?s)^([a-zA-Z_]+)(.*)$`'))
probe('p21-caret', 'C21', (V, '			if second == "" {\n				return 1\n			}', '			if second == "" {\n				return -1\n			}'))
probe('p21-unicode', 'C21', (V, '`(?s)^([\\d]+)(.*)$`', '`(?s)^(\\p{Nd}+)(.*)$`'))
# C22
probe('p22-release', 'C22', ('nevra.go', '	if res := Vercmp(a.Release, b.Release); res != 0 {', '	if a.Release == "" || b.Release == "" {\n		return 0\n	}\n	if res := Vercmp(a.Release, b.Release); res != 0 {'))
probe('p22-epoch', 'C22', ('nevra.go', '	if res := Vercmp(a.Epoch, b.Epoch); res != 0 {', '	if a.Epoch == "0" {\n		a.Epoch = ""\n	}\n	if b.Epoch == "0" {\n		b.Epoch = ""\n	}\n	if res := Vercmp(a.Epoch, b.Epoch); res != 0 {'))
probe('p22-stable', 'C22', ('nevra.go', 'return NEVRAcmp(s[i], s[j]) == -1', 'return NEVRAcmp(s[i], s[j]) != 1'))
probe('p22-swap', 'C22', ('nevra.go', '	s[i] = s[j]\n	s[j] = n', '	s[i] = s[j]\n	s[j] = n\n	s[j].Arch = s[i].Arch'))
# C28
probe('p28-time', 'C28', (V4, 'CreationTime:   pkt.CreationTime,', 'CreationTime:   pkt.CreationTime.Local().Truncate(24 * 3600 * 1e9),'))
probe('p28-fp', 'C28', (V4, 'if sig.KeyFingerprint == nil {\n		sig.KeyFingerprint = key.Fingerprint', 'if sig.KeyFingerprint == nil {\n		sig.KeyFingerprint = entity.PrimaryKey.Fingerprint'))
probe('p28-headeronly', 'C28', (VD, '		sig.HeaderOnly = false\n', '		sig.HeaderOnly = tag == SIG_GPG-_SIGHEADER_TAG_BASE\n'))
probe('p28-keynotfound', 'C28 C07', (V4, '		return KeyNotFoundError{\n			KeyID:       sig.KeyId,\n			Fingerprint: sig.KeyFingerprint,\n		}', '		return KeyNotFoundError{\n			KeyID:       sig.KeyId,\n		}'))
# C24
probe('p24-lead', 'C24', (H, '	if err == io.EOF && copied > 0 {', '	if err != nil && copied > 0 {'))
probe('p24-close', 'C26', (R, '	if c, ok := pld.(io.Closer); ok {\n		defer c.Close()\n	}\n	return cpio.Extract(pld, dest)', '	err = cpio.Extract(pld, dest)\n	if c, ok := pld.(io.Closer); ok && err == nil {\n		c.Close()\n	}\n	return err'))
# C27
probe('p27-global', 'C27', (H, '	buf := bytes.NewReader(entryTable)', '	tableReader.Reset(entryTable)\n	buf := tableReader'), (H, 'const introMagic', 'var tableReader = bytes.NewReader(nil)\n\nconst introMagic'))
# C29
probe('p29-tag', 'C29', ('tags.go', 'FILEINODES', 'FILEINODES_'))
# C30
probe('p30-source', 'C30', ('verify.go', '		isSource:  sigHeader.isSource,\n', ''))
probe('p30-lead', 'C30', ('verify.go', '		lead:      lead,\n', ''), ('verify.go', 'lead, sigHeader, err :=', '_, sigHeader, err :='))
probe('p30-sign-source', 'C30', (S, '		isSource:  sigHeader.isSource,\n', ''))
json
if __name__ == '__main__':
    import sys
    ids = set(sys.argv[1:])
    for p in P:
        if not ids or p['id'] in ids: print(json.dumps(p))
