# A third batch of ideas for planted bugs: thresholds, state kept between calls,
# rarely used results, environment; see one.py.
import json
P = []
def probe(pid, checks, *edits):
    P.append(dict(id=pid, checks=checks.split(), edits=[list(e) for e in edits]))

H, R, S, W, U, V, VV = 'header.go', 'rpmutils.go', 'signatures.go', 'writeheader.go', 'uncompress.go', 'vercmp.go', 'verify.go'
VD, V4, PL, CP, CH, CR, CS, CE = 'verify_digests.go', 'verify_v4.go', 'payload.go', 'cpio/cpio.go', 'cpio/header.go', 'cpio/reader.go', 'cpio/stream.go', 'cpio/extract.go'

# thresholds
probe('r01-size16m', 'C01 C02', (H, '	// read entries\n', '	if intro.Size > 16<<20 {\n		return nil, errors.New("header too big")\n	}\n	// read entries\n'))
probe('r01-entries64k', 'C01 C02', (H, '	// read entries\n', '	if intro.Entries > 0xffff {\n		return nil, errors.New("header too big")\n	}\n	// read entries\n'))
probe('r01-entries4k', 'C01 C02', (H, '	// read entries\n', '	if intro.Entries > 4096 {\n		return nil, errors.New("header too big")\n	}\n	// read entries\n'))
probe('r01-trailing-empty', 'C01', (H, '	return strs[:ent.count], nil', '	strs = strs[:ent.count]\n	for len(strs) > 1 && strs[len(strs)-1] == "" {\n		strs = strs[:len(strs)-1]\n	}\n	return strs, nil'))
probe('r01-i18n-count', 'C01', (H, '	return strs[:ent.count], nil', '	if ent.dataType == RPM_I18NSTRING_TYPE && ent.count > 1 {\n		return strs[:1], nil\n	}\n	return strs[:ent.count], nil'))
probe('r01-getint-multi', 'C01', (R, '		return -1, fmt.Errorf("incorrect number of values")', '		return vals[0], nil'))
probe('r01-uint32-8', 'C01', (H, 'out[i] = uint32(v)\n		}\n	case []uint16:', 'out[i] = uint32(int8(v))\n		}\n	case []uint16:'))
probe('r01-sig-base', 'C01 C29', (R, '	if tag > _SIGHEADER_TAG_BASE {', '	if tag > _SIGHEADER_TAG_BASE && tag < _SIGHEADER_TAG_BASE+2000 {'))
probe('r01-nosuch', 'C01', (H, 'return nil, 0, NewNoSuchTagError(tag)', 'return nil, 0, fmt.Errorf("no tag %d", tag)'))
probe('r01-absent-empty', 'C01', (H, '	n = len(ent.contents)\n', '	n = len(ent.contents)\n	if n == 0 && ent.count == 0 {\n		return nil, 0, NewNoSuchTagError(tag)\n	}\n'))
probe('r02-reserved', 'C02 C03', (H, '	if intro.Magic != introMagic {', '	if intro.Magic != introMagic || intro.Reserved != 0 {'))
probe('r03-prealloc', 'C03', (H, '	var buf bytes.Buffer\n	copied', '	var buf bytes.Buffer\n	if n < 1<<26 {\n		buf.Grow(int(n))\n	}\n	copied'))
probe('r03-prealloc-1m', 'C03', (H, '	var buf bytes.Buffer\n	copied', '	var buf bytes.Buffer\n	if n < 1<<22 {\n		buf.Grow(int(n))\n	}\n	copied'))
probe('r03-quadratic', 'C03', (H, '		ents[int(tag.Tag)] = entry{', '		if old, ok := ents[int(tag.Tag)]; ok {\n			_ = append([]byte(string(data)), old.contents...)\n		}\n		ents[int(tag.Tag)] = entry{'))
probe('r03-count0', 'C03', (H, '		if tag.Offset < 0 ||', '		if tag.Count == 0 {\n			continue\n		}\n		if tag.Offset < 0 ||'))
probe('r03-last-string', 'C03', (H, '				if next < 0 {', '				if next < 0 && i == int(tag.Count)-1 && end < len(data) {\n					next = len(data) - end - 1\n				}\n				if next < 0 {'))
probe('r03-lead', 'C03', (R, 'magic&0xffffffff != 0xedabeedb', 'magic&0xffffff00 != 0xedabee00'))
probe('r04-no-sha1-sign', 'C04', (S, '	if sigHeader.HasTag(SIG_SHA256) {', '	if _, err := sigHeader.GetStrings(SIG_SHA256); err == nil {'))
probe('r04-data-pad', 'C04 C02', (H, '		h.Write(origBuf.Bytes())', '		h.Write(bytes.TrimRight(origBuf.Bytes(), "\\xff"))'))
probe('r05-devices-16', 'C05', ('fileinfo.go', 'return int(fi.device)', 'return int(uint16(fi.device))'))
probe('r05-dirs-lazy', 'C05', (H, '		dirIdxs, err := hdr.GetUint32s(DIRINDEXES)\n		if err != nil {', '		dirIdxs, err := hdr.GetUint32s(DIRINDEXES)\n		if _, absent := err.(NoSuchTagError); absent && len(dirs) == 1 {\n			dirIdxs, err = nil, nil\n			for range hdr.entries[BASENAMES].count {\n				dirIdxs = append(dirIdxs, 0)\n			}\n		}\n		if err != nil {'))
probe('r05-empty-list', 'C05', (H, '	if err != nil {\n		if !errors.As(err, &NoSuchTagError{}) || hdr.HasTag(BASENAMES) {', '	if err != nil || len(paths) == 0 {\n		if err != nil && (!errors.As(err, &NoSuchTagError{}) || hdr.HasTag(BASENAMES)) {'))
probe('r05-inode-missing-ok', 'C05', (H, '		if !errors.As(err, &NoSuchTagError{}) {\n			return nil, err\n		}\n		inodes', '		inodes'))
probe('r06-source-arch', 'C06', (H, '		Arch:    arch[0],', '		Arch:    map[bool]string{true: "src", false: arch[0]}[hdr.isSource && arch[0] == "noarch"],'))
probe('r06-source-type', 'C06', (R, 'binary.BigEndian.Uint16(lead[6:8]) == 1', 'lead[7] == 1'))
probe('r06-source-nonzero', 'C06', (R, 'binary.BigEndian.Uint16(lead[6:8]) == 1', 'binary.BigEndian.Uint16(lead[6:8]) != 0'))
probe('r06-installed-sig', 'C06', (R, '	u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)', '	if hdr.HasTag(SIG_LONGSIGSIZE) && !hdr.HasTag(SIZE) {\n		u, err := hdr.GetUint64Fallback(SIG_SIZE, SIG_LONGSIGSIZE)\n		return int64(u), err\n	}\n	u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)'))
# state between calls, order of calls
probe('r08-lead-shared', 'C08 C11', (W, '	buf.Write(hdr.lead)\n', '	buf.Write(hdr.lead)\n	hdr.lead[95]++\n	hdr.lead[95]--\n	if sameSize {\n		hdr.lead[95] = 0\n	}\n'))
probe('r11-orig-after', 'C11 C08', (W, '	return buf.Bytes(), nil\n}', '	if !sameSize {\n		sigh.orig = sigh.orig[:buf.Len()-96:buf.Len()-96]\n	}\n	return buf.Bytes(), nil\n}'))
probe('r11-second-same', 'C11 C13', (W, '	if sameSize {\n		needed', '	if sameSize && len(sigh.orig) >= 64 {\n		needed'))
probe('r11-reserved-zero', 'C11', (W, 'if needed+16 <= available {', 'if needed+16 < available {'))
probe('r07-opts-mutate', 'C07', (S, '	if opts != nil && opts.Hash != 0 {\n		return opts.Hash', '	if opts != nil && opts.Hash != 0 && opts.Hash != crypto.SHA224 {\n		return opts.Hash'))
probe('r07-now', 'C07', (S, '	return time.Now()\n', '	return time.Now().Add(time.Minute)\n'))
probe('r07-range', 'C07 C30', (S, '	insertSignatures(sigHeader, sigPgp, sigRsa)\n	return &RpmHeader{', '	insertSignatures(sigHeader, sigPgp, sigRsa)\n	sigHeader.orig = nil\n	return &RpmHeader{'))
probe('r08-inplace-orig', 'C08 C13', (S, '	orig := header.OriginalSignatureHeaderSize()', '	orig := header.OriginalSignatureHeaderSize()\n	if len(blob) < orig {\n		blob = append(blob, make([]byte, orig-len(blob))...)\n	}'))
probe('r09-first-bad', 'C09', (VV, '	for i, sig := range sigs {\n		h := hashes[i]\n', '	for i, sig := range sigs {\n		h := hashes[i]\n		if sig.CreationTime.Unix() < 0 || sig.CreationTime.Year() > 2100 {\n			continue\n		}\n'))
probe('r09-unknown-hash', 'C09 C28', (V4, '	sig.validate = func(h hash.Hash) error {\n', '	sig.validate = func(h hash.Hash) error {\n		if !pkt.Hash.Available() {\n			return nil\n		}\n'))
probe('r09-empty-ring', 'C09 C07', (V4, '		if knownKeys == nil {', '		if len(knownKeys) == 0 {'))
probe('r09-first-sub', 'C09 C07 C28', (V4, '		for _, sub := range entity.Subkeys {\n', '		for i, sub := range entity.Subkeys {\n			if i > 2 {\n				break\n			}\n'))
probe('r10-md5-both', 'C10', (VD, '	if payloadValue, payloadType := getPayloadDigest(genHeader); payloadType != 0 {', '	if payloadValue, payloadType := getPayloadDigest(genHeader); payloadType != 0 && len(payloadValue) == 2*payloadType.Size() {'))
probe('r10-algo-array', 'C10', (S, 'if err != nil || len(algos) == 0 {\n		return "", 0', 'if err != nil || len(algos) != 1 {\n		return "", 0'))
probe('r10-md5-16', 'C10', (VD, 'len(sigmd5) != 0 {', 'len(sigmd5) == 16 {'))
probe('r10-algo-mod', 'C10', (S, '	switch algos[0] {', '	switch algos[0] & 0xff {'))
probe('r12-tempdir-exists', 'C12', (S, '			tempfile, err := os.CreateTemp(path.Dir(outpath), path.Base(outpath))', '			tempfile, err := os.OpenFile(outpath+".tmp", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)'))
probe('r12-stat-ignored', 'C12 C13', (S, '		outinfo, err := os.Lstat(outpath)\n		if err != nil && !os.IsNotExist(err) {\n			return err\n		}', '		outinfo, err := os.Lstat(outpath)'))
probe('r12-fallback', 'C12 C13', (S, '			ok, err := writeInPlace(outpath, header)\n			if err != nil || ok {', '			ok, err := writeInPlace(outpath, header)\n			if ok {'))
probe('r13-mode', 'C13', (S, '_ = tempfile.Chmod(0644)', '_ = tempfile.Chmod(0600)'))
probe('r13-base-star', 'C13', (S, 'path.Base(outpath))', 'path.Base(outpath)+"*")'), (S, '					retErr = os.Rename(tempfile.Name(), outpath)', '					retErr = os.Rename(tempfile.Name(), path.Join(path.Dir(outpath), path.Base(outpath)))'))
probe('r13-star-name', 'C13', (S, 'retErr = os.Rename(tempfile.Name(), outpath)', 'retErr = os.Rename(tempfile.Name(), path.Clean(outpath))'))
probe('r14-name-limit', 'C14 C17', (CP, '	// Read filename\n', '	// Read filename\n	if hdr.namesize > 4096 {\n		return nil, errors.New("invalid cpio header: filename too long")\n	}\n'))
probe('r14-upper-hex', 'C14', (CH, '	bb := br.buf[:8]\n	if _, err := io.ReadFull(br.r, bb); err != nil {\n		return noEOF(err)\n	}\n', '	bb := br.buf[:8]\n	if _, err := io.ReadFull(br.r, bb); err != nil {\n		return noEOF(err)\n	}\n	for _, b := range bb {\n		if b >= 0x41 && b <= 0x46 {\n			return strconv.ErrSyntax\n		}\n	}\n'))
probe('r14-after-trailer', 'C14', (CR, '		r.ended = true\n', '		r.ended = ent.Header.filesize == 0\n'))
probe('r14-read-after-next', 'C14', (CR, '		r.ended = true\n		return nil, io.EOF', '		r.ended = true\n		r.cur = ent\n		return nil, io.EOF'))
probe('r15-linkcount', 'C15', (PL, 'fileSizes[lastInode] = 0', 'fileSizes[lastInode] = min(fileSizes[lastInode], 0)\n				pr.isLink[i] = false'))
probe('r15-ino0', 'C15', (PL, 'ok && ino != 0 {', 'ok && uint32(ino) != 0 {'))
probe('r15-islink-after-end', 'C15', (PL, 'return pr.index >= 0 && pr.isLink[pr.index]', 'return pr.index > 0 && pr.isLink[pr.index]'))
probe('r15-link-zero-size', 'C15', (PL, '			if lastInode, ok := lastInodes[ino]; ok && ino != 0 {', '			if lastInode, ok := lastInodes[ino]; ok && ino != 0 && fileSt.size > 0 {'))
probe('r15-index-start', 'C15', (PL, '	pr.index = index\n', '	if pr.index < 0 || !hdr.IsStripped() || index != pr.index {\n		pr.index = index\n	} else {\n		return nil, errors.New("file repeated")\n	}\n'))
probe('r16-trunc-name', 'C16', (CP, 'int64(hdr.namesize)); err != nil {\n		return nil, noEOF(err)', 'int64(hdr.namesize)); err != nil {\n		if bytes.HasPrefix(buf.Bytes(), []byte(TRAILER)) {\n			return &CpioEntry{Header: &Cpio_newc_header{filename: TRAILER}}, nil\n		}\n		return nil, noEOF(err)'))
probe('r16-pad-eof', 'C16', (CP, '		_, err := cs.stream.Seek(int64(offset), 1)\n		if err != nil {\n			return nil, err\n		}', '		_, err := cs.stream.Seek(int64(offset), 1)\n		if err != nil && hdr.filesize != 0 {\n			return nil, err\n		}'))
probe('r16-last-pad', 'C16', (CP, '		_, err := cs.stream.Seek(cs.nextPos-cs.stream.curPos, 1)\n		if err != nil {', '		_, err := cs.stream.Seek(cs.nextPos-cs.stream.curPos, 1)\n		if err == io.ErrUnexpectedEOF && cs.nextPos-cs.stream.curPos < 3 {\n			return nil, io.EOF\n		}\n		if err != nil {'))
probe('r16-seeker', 'C16 C23', (CP, '	n, err := io.CopyN(io.Discard, cr, offset)\n', '	if s, ok := cr.stream.(io.Seeker); ok && offset > 512 {\n		if _, err := s.Seek(offset, io.SeekCurrent); err == nil {\n			cr.curPos += offset\n			return offset, nil\n		}\n	}\n	n, err := io.CopyN(io.Discard, cr, offset)\n'))
probe('r17-big-index', 'C17', (CP, 'hdr.index >= len(cs.sizes)', 'int32(hdr.index) >= int32(len(cs.sizes))'))
probe('r18-dir-perm', 'C18', (CE, 'm := os.FileMode(entry.Header.Mode()).Perm()', 'm := os.FileMode(entry.Header.Mode()).Perm() | 0700'))
probe('r18-fifo-perm', 'C18', (CE, 'fileutil.Mkfifo(target, uint32(entry.Header.Mode()))', 'fileutil.Mkfifo(target, uint32(entry.Header.Mode())&0777|0600)'))
probe('r18-symlink-nul', 'C18', (CE, 'os.Symlink(string(buf), target)', 'os.Symlink(filepath.Clean(string(buf)), target)'))
probe('r18-symlink-trim', 'C18', (CE, 'os.Symlink(string(buf), target)', 'os.Symlink(strings.TrimRight(string(buf), "\\x00\\n"), target)'))
probe('r18-name-clean', 'C18 C19', (CE, '		target := path.Clean(entry.Header.filename)', '		target := path.Clean(strings.TrimSpace(entry.Header.filename))'))
probe('r18-backslash', 'C18', (CE, '		target := path.Clean(entry.Header.filename)', '		target := path.Clean(strings.ReplaceAll(entry.Header.filename, "\\\\", "/"))'))
probe('r18-empty-first', 'C18', (CE, '	for _, l := range links {\n', '	for _, l := range links {\n		if len(l) == 1 {\n			continue\n		}\n'))
probe('r18-rel-dest', 'C18', (CE, 'dest = filepath.Clean(filepath.FromSlash(dest))', 'dest = strings.TrimPrefix(filepath.Clean(filepath.FromSlash(dest)), "./")\n	if dest == "" {\n		dest = "/"\n	}'))
probe('r18-size-zero-content', 'C18', (CE, 'if entry.Header.nlink > 1 && entry.Header.filesize == 0 {', 'if entry.Header.nlink > 1 && (entry.Header.filesize == 0 || len(links[entry.Header.linkKey()]) > 0 && len(links[entry.Header.linkKey()]) < entry.Header.nlink-1) {'))
probe('r19-existing-symlink-dir', 'C19', (CE, '	info, err := os.Lstat(target)\n	if err == nil && info.Mode().IsRegular()', '	info, err := os.Stat(target)\n	if err == nil && info.Mode().IsRegular()'))
probe('r19-hardlink-existing', 'C19', (CE, 'info.Mode().IsRegular() && !fileutil.HasLinks(info)', 'info.Mode().IsRegular() && (!fileutil.HasLinks(info) || info.Size() == 0)'))
probe('r19-abs-symlink', 'C19', (CE, '		if cur, err = filepath.EvalSymlinks(next); err != nil {\n			return "", err\n		}', '		if cur, err = filepath.EvalSymlinks(next); err != nil {\n			return "", err\n		}\n		if l, lerr := os.Readlink(next); lerr == nil && !filepath.IsAbs(l) && !strings.HasPrefix(l, "..") {\n			cur = next\n			continue\n		}'))
probe('r20-case', 'C20', (U, '	switch compression {\n', '	switch strings.ToLower(compression) {\n'), (U, '	"io"\n', '	"io"\n	"strings"\n'))
probe('r20-gzip-magic', 'C20', (U, "if b[0] == 0x1f && b[1] == 0x8b {", "if b[0] == 0x1f {"))
probe('r20-array', 'C20', (U, '		compression = val\n', '		compression = val\n		if compression == "" {\n			compression = "gzip"\n		}\n'))
probe('r20-short', 'C20 C16 C24', (U, '		_, err := io.ReadFull(r, b)\n		if err != nil {', '		_, err := io.ReadFull(r, b)\n		if err != nil && err != io.ErrUnexpectedEOF {'))
probe('r21-utf8', 'C21', (V, '`(?s)^([^a-zA-Z0-9~^]*)(.*)$`', '`(?s)^((?:[^a-zA-Z0-9~^]|\\pL)*?)([a-zA-Z0-9~^].*|)$`'))
probe('r21-nul', 'C21', (V, 'func Vercmp(first, second string) int {\n', 'func Vercmp(first, second string) int {\n	first, _, _ = strings.Cut(first, "\\x00")\n	second, _, _ = strings.Cut(second, "\\x00")\n'))
probe('r21-equalfold', 'C21 C22', (V, '		// Same number of chars\n', '		if strings.EqualFold(m1Head, m2Head) && len(m1Head) > 3 {\n			continue\n		}\n		// Same number of chars\n'))
probe('r22-sort-stable', 'C22', ('nevra.go', '	sort.Sort(s)', '	if len(s) > 64 {\n		sort.Slice(s, func(i, j int) bool { return s[i].Version < s[j].Version })\n		return\n	}\n	sort.Sort(s)'))
probe('r22-swap', 'C22', (V, '	s1 := vs[i]\n	vs[i] = vs[j]', '	s1 := vs[i]\n	if vs[i] == vs[j] {\n		return\n	}\n	vs[i] = vs[j]'))
probe('r22-epoch-int', 'C22', ('nevra.go', 'if res := Vercmp(a.Epoch, b.Epoch); res != 0 {', 'if a.Epoch != "" && b.Epoch != "" && len(a.Epoch) != len(b.Epoch) {\n		if len(a.Epoch) < len(b.Epoch) {\n			return -1\n		}\n		return 1\n	}\n	if res := Vercmp(a.Epoch, b.Epoch); res != 0 {'))
probe('r24-copy-eof', 'C24 C16', (CP, '	if err == io.EOF {\n		return io.ErrUnexpectedEOF', '	if err == io.EOF || err == io.ErrClosedPipe {\n		return io.ErrUnexpectedEOF'))
probe('r24-timeout', 'C24', (VD, '		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {\n			return err\n		}\n		calculated := payloadHasher', '		if n, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil && n == 0 {\n			return err\n		}\n		calculated := payloadHasher'))
probe('r25-seek-buf', 'C25', (CP, '	n, err := io.CopyN(io.Discard, cr, offset)\n', '	var skipped bytes.Buffer\n	n, err := io.CopyN(&skipped, cr, min(offset, 1<<20))\n	if err == nil && n < offset {\n		var m int64\n		m, err = io.CopyN(io.Discard, cr, offset-n)\n		n += m\n	}\n'))
probe('r26-payload-close', 'C26', (PL, '		if c, ok := pr.stream.(io.Closer); ok {', '		if c, ok := pr.stream.(io.Closer); ok && (err == io.EOF || pr.index >= 0) {'))
probe('r26-index-error', 'C26', (PL, 'return nil, fmt.Errorf("invalid file \\"%s\\" in payload", name)', 'pr.stream = nil\n			return nil, fmt.Errorf("invalid file \\"%s\\" in payload", name)'))
probe('r26-file-close', 'C26 C12', (S, '	if err == nil && n != len(blob) {', '	if err != nil {\n		return false, err\n	}\n	if err == nil && n != len(blob) {'))
probe('r27-type-cache', 'C27', (H, '	return strs[:ent.count], nil', '	ent.contents = []byte(strings.Join(strs, "\\x00"))\n	hdr.entries[tag] = ent\n	return strs[:ent.count], nil'))
probe('r28-name', 'C28', (V4, '	if identity := entity.PrimaryIdentity(); identity != nil {\n		sig.PrimaryName = identity.Name', '	for _, identity := range entity.Identities {\n		sig.PrimaryName = identity.Name'))
probe('r28-fp-nil', 'C28', (V4, '	if sig.KeyFingerprint == nil {', '	if sig.KeyFingerprint == nil && knownKeys1 {'), (V4, '// set identity attributes', 'var knownKeys1 = true\n\nfunc init() { knownKeys1 = len(hdrTags()) == 2 }\n\nfunc hdrTags() []int { return headerSigTags }\n\n// set identity attributes'))
probe('r28-subkey-fp', 'C28', (V4, '		sig.KeyFingerprint = key.Fingerprint', '		sig.KeyFingerprint = entity.PrimaryKey.Fingerprint'))
probe('r28-headeronly', 'C28', (VD, '		sig.HeaderOnly = false', '		sig.HeaderOnly = tag == SIG_GPG-_SIGHEADER_TAG_BASE'))
probe('r30-lead-verify', 'C30 C11', (VV, '		lead:      lead,', '		lead:      lead[:len(lead):len(lead)],'))
probe('r30-verify-source', 'C30', (VV, '		isSource:  sigHeader.isSource,', '		isSource:  sigHeader.isSource && !genHeader.HasTag(SOURCERPM),'))
probe('r31-remove', 'C31', (CE, '	return os.Remove(target)\n', '	_ = os.Remove(target)\n	return nil\n'))
probe('r31-link-fallback', 'C31', (CE, '		if err := os.Link(target, name); err != nil {\n			return err\n		}', '		if err := os.Link(target, name); err != nil {\n			if serr := os.Symlink(target, name); serr != nil {\n				return err\n			}\n		}'))
probe('r31-lstat', 'C31', (CE, '	} else if err != nil {\n		return err\n	}\n	if info.IsDir() {', '	} else if err != nil {\n		return nil\n	}\n	if info.IsDir() {'))
probe('r31-close', 'C31', (CE, '			if err := f.Close(); err != nil {\n				return err\n			}\n\n', '			f.Close()\n\n'))

if __name__ == '__main__':
    import sys
    with open(sys.argv[1], 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
