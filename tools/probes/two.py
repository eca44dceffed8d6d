# More ideas for planted bugs (see one.py); these need several things at once.
import json
P = []
def probe(pid, checks, *edits):
    P.append(dict(id=pid, checks=checks.split(), edits=[list(e) for e in edits]))

H, R, S, W, U, V, VV = 'header.go', 'rpmutils.go', 'signatures.go', 'writeheader.go', 'uncompress.go', 'vercmp.go', 'verify.go'
VD, V4, PL, CP, CH, CR, CS, CE = 'verify_digests.go', 'verify_v4.go', 'payload.go', 'cpio/cpio.go', 'cpio/header.go', 'cpio/reader.go', 'cpio/stream.go', 'cpio/extract.go'

probe('q01-count16', 'C01 C05', (H, 'for i := 0; i < int(tag.Count); i++ {', 'for i := 0; i < int(uint16(tag.Count)); i++ {'))
probe('q01-dup-first', 'C01 C03', (H, '		ents[int(tag.Tag)] = entry{', '		if old, dup := ents[int(tag.Tag)]; dup && old.dataType == tag.DataType {\n			continue\n		}\n		ents[int(tag.Tag)] = entry{'))
probe('q01-int16-odd', 'C01', (H, '	case RPM_INT16_TYPE:\n		n >>= 1\n		buf = make([]uint16, n)', '	case RPM_INT16_TYPE:\n		n >>= 1\n		buf = make([]uint16, n)\n		if n > 256 {\n			buf = make([]uint16, n&^1)\n		}'))
probe('q01-negative-tag', 'C01', (R, '	if tag < _GENERAL_TAG_BASE {\n', '	if tag >= 0 && tag < _GENERAL_TAG_BASE {\n'))
probe('q01-alias', 'C01 C27', (H, '	strs := strings.Split(string(ent.contents), "\\x00")\n', '	if ent.dataType == RPM_STRING_TYPE && ent.count == 1 {\n		return []string{strings.TrimRight(string(ent.contents), "\\x00")}, nil\n	}\n	strs := strings.Split(string(ent.contents), "\\x00")\n'))
probe('q01-fallback-order', 'C01 C06', (R, '	h, t := hdr.getHeader(longTag)\n	vals, err := h.GetUint64s(t)', '	h, t := hdr.getHeader(intTag)\n	if vals, err := h.GetUint64s(t); err == nil && len(vals) == 1 && vals[0] < 1<<32-1 {\n		return vals[0], nil\n	}\n	h, t = hdr.getHeader(longTag)\n	vals, err := h.GetUint64s(t)'))
probe('q02-sigpad-zero', 'C02 C03', (H, '	if sigBlock {\n', '	if sigBlock && intro.Entries > 0 {\n'))
probe('q02-range-source', 'C02', (R, 'start := 96 + len(hdr.sigHeader.orig)', 'start := 96 + (len(hdr.sigHeader.orig)+15)&^15'))
probe('q02-overread', 'C02 C23', (R, 'func ReadHeader(f io.Reader) (*RpmHeader, error) {\n', 'func ReadHeader(f io.Reader) (*RpmHeader, error) {\n	if s, ok := f.(io.Seeker); ok {\n		if pos, err := s.Seek(0, io.SeekCurrent); err == nil && pos > 0 {\n			s.Seek(0, io.SeekStart)\n		}\n	}\n'))
probe('q04-sha1-if-both', 'C04', (S, '	if h := getSha256(sigHeader); h != "" {\n', '	if h := getSha256(sigHeader); h != "" && getSha1(sigHeader) == "" {\n'))
probe('q04-array', 'C04', (S, '	vals, err := sigHeader.GetStrings(SIG_SHA256)\n	if err != nil || len(vals) == 0 {', '	vals, err := sigHeader.GetStrings(SIG_SHA256)\n	if err != nil || len(vals) != 1 || len(vals[0]) == 0 {'))
probe('q04-i18n', 'C04', (S, '	vals, err := sigHeader.GetStrings(SIG_SHA1)\n	if err != nil || len(vals) == 0 {', '	vals, err := sigHeader.GetStrings(SIG_SHA1)\n	if err != nil || len(vals) == 0 || sigHeader.entries[SIG_SHA1].dataType != RPM_STRING_TYPE {'))
probe('q05-dirindex-u16', 'C05', (H, 'path.Join(dirs[dirIdxs[i]], base)', 'path.Join(dirs[uint16(dirIdxs[i])], base)'))
probe('q05-dirindex-u8', 'C05', (H, 'path.Join(dirs[dirIdxs[i]], base)', 'path.Join(dirs[uint8(dirIdxs[i])], base)'))
probe('q05-longsize-count', 'C05', (H, '	if _, ok := hdr.entries[longTag]; ok {\n		return hdr.GetUint64s(longTag)', '	if ent, ok := hdr.entries[longTag]; ok && (ent.count > 1 || !hdr.HasTag(intTag)) {\n		return hdr.GetUint64s(longTag)'))
probe('q05-basename-slash', 'C05', (H, 'path.Join(dirs[dirIdxs[i]], base)', 'path.Join(dirs[dirIdxs[i]], path.Base(base))'))
probe('q05-basename-concat', 'C05', (H, 'path.Join(dirs[dirIdxs[i]], base)', 'dirs[dirIdxs[i]]+base'))
probe('q05-flags-sign', 'C05', ('fileinfo.go', 'return int(fi.flags)', 'return int(int32(fi.flags))'))
probe('q05-size-neg', 'C05 C17', ('fileinfo.go', 'return int64(fi.size)', 'return int64(fi.size & (1<<62 - 1))'))
probe('q06-payloadsize-general', 'C06', (R, 'hdr.sigHeader.GetUint64Fallback(SIG_PAYLOADSIZE-_SIGHEADER_TAG_BASE, SIG_LONGARCHIVESIZE)', 'hdr.sigHeader.GetUint64Fallback(SIG_PAYLOADSIZE-_SIGHEADER_TAG_BASE, SIG_LONGARCHIVESIZE)\n	if _, ok := err.(NoSuchTagError); ok {\n		u, err = hdr.genHeader.GetUint64s(5009)\n	}'))
probe('q06-epoch-empty', 'C06', (H, '	if _, absent := err.(NoSuchTagError); !absent && err != nil {', '	if _, absent := err.(NoSuchTagError); !absent && err != nil && hdr.entries[EPOCH].dataType != RPM_STRING_TYPE {'))
probe('q07-utc', 'C07', (S, '		return opts.CreationTime\n', '		t := opts.CreationTime\n		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)\n'))
probe('q07-epoch', 'C07', (S, '!opts.CreationTime.IsZero() {', '!opts.CreationTime.IsZero() && opts.CreationTime.Unix() != 0 {'))
probe('q07-issuer-primary', 'C07', (S, 'IssuerKeyId:  &key.KeyId,', 'IssuerKeyId:  &key.PublicKey.KeyId,'))
probe('q07-hash-sub', 'C07', (S, '		Hash:         hashType,\n', '		Hash:         crypto.SHA256,\n'))
probe('q08-sort-stable', 'C08 C11', (W, '	sort.Ints(keys)\n', '	sort.Ints(keys)\n	if len(keys) > 12 {\n		keys = keys[:len(keys):len(keys)]\n		keys[0], keys[1] = keys[1], keys[0]\n	}\n'))
probe('q08-i18n-region', 'C08', (W, 'if regionTag != 0 && regionTag >= RPMTAG_HEADERREGIONS {', 'for k, e := range hdr.entries {\n		if e.dataType == RPM_I18NSTRING_TYPE && e.count == 1 {\n			e.dataType = RPM_STRING_TYPE\n			hdr.entries[k] = e\n		}\n	}\n	if regionTag != 0 && regionTag >= RPMTAG_HEADERREGIONS {'))
probe('q09-keyid-collide', 'C09 C28', (V4, 'if entity, key := findKey(pkt, knownKeys); key != nil {', 'if entity, key := findKey(pkt, knownKeys); key != nil && key.PubKeyAlgo == pkt.PubKeyAlgo {'))
probe('q09-header-covers', 'C09', (VV, '		if err := sig.validate(h); err != nil {\n', '		if sig.HeaderOnly && len(sigs) > 1 && sigs[len(sigs)-1].KeyId == sig.KeyId && sig.Hash != sigs[len(sigs)-1].Hash {\n			continue\n		}\n		if err := sig.validate(h); err != nil {\n'))
probe('q09-notfound', 'C09', (VV, '		if err := sig.validate(h); err != nil {\n', '		if err := sig.validate(h); err != nil {\n			if _, ok := err.(KeyNotFoundError); ok && i > 0 && sigs[0].Signer != nil {\n				continue\n			}\n'))
probe('q10-prefix', 'C10', (VD, '		if calculated != payloadValue {', '		if len(payloadValue) < 8 || !bytes.HasPrefix([]byte(calculated), []byte(payloadValue)) {'))
probe('q10-multi-any', 'C10', (S, '	digest := digests[0]\n', '	digest := digests[0]\n	if len(digests) > 1 && len(digests[1]) > len(digest) {\n		digest = digests[1]\n	}\n'))
probe('q10-nil-keys', 'C10', (VD, '	err := digestPayload(sigHeader, genHeader, payloadReader, payloadWriters)\n', '	err := digestPayload(sigHeader, genHeader, payloadReader, payloadWriters)\n	if err != nil && knownKeys == nil && len(payloadWriters) > 1 {\n		err = nil\n	}\n'))
probe('q10-empty-payload', 'C10', (VD, '		calculated := hex.EncodeToString(payloadHasher.Sum(nil))\n', '		calculated := hex.EncodeToString(payloadHasher.Sum(nil))\n		if payloadType == crypto.SHA512 && payloadValue == "" {\n			return nil\n		}\n'), (VD, '	"crypto/md5"\n', '	"crypto"\n	"crypto/md5"\n'))
probe('q11-reserved-min', 'C11', (W, 'if needed+16 <= available {', 'if needed+16+8 <= available || needed+16 == available {'))
probe('q11-second', 'C11', (W, '	delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)\n	if sameSize {', '	if _, again := sigh.entries[SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE]; again && sameSize && len(sigh.entries) > 9 {\n		sameSize = false\n	}\n	delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)\n	if sameSize {'))
probe('q12-chmod', 'C12 C13', (S, '				_ = tempfile.Chmod(0644)\n				if err := tempfile.Close(); err != nil && retErr == nil {\n					retErr = err\n				}\n				if retErr == nil {\n					retErr = os.Rename(tempfile.Name(), outpath)\n				}\n				if retErr != nil {\n					os.Remove(tempfile.Name())', '				_ = tempfile.Chmod(0644)\n				if err := tempfile.Close(); err != nil && retErr == nil {\n					retErr = err\n				}\n				if retErr != nil {\n					os.Remove(tempfile.Name())\n				} else if err := os.Rename(tempfile.Name(), outpath); err != nil {\n					retErr = err'))
probe('q12-remove-first', 'C12', (S, '				if retErr == nil {\n					retErr = os.Rename', '				if retErr == nil {\n					os.Remove(outpath)\n					retErr = os.Rename'))
probe('q12-inplace-trunc', 'C12', (S, 'os.OpenFile(path, os.O_RDWR, 0)', 'os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0)'))
probe('q12-seek', 'C12', (S, '	if _, err := infile.Seek(int64(len(lead)+len(sigHeader.orig)), 0); err != nil {\n		return err\n	}', '	infile.Seek(int64(len(lead)+len(sigHeader.orig)), 0)'))
probe('q13-dangling', 'C13', (S, '		} else if !os.IsNotExist(err) {\n', '		} else if target, lerr := os.Readlink(outpath); lerr == nil && os.IsNotExist(err) {\n			outpath = target\n		} else if !os.IsNotExist(err) {\n'))
probe('q13-rel', 'C13', (S, '		outinfo, err := os.Lstat(outpath)\n', '		if !path.IsAbs(outpath) && path.Dir(outpath) != "." {\n			outpath = path.Clean(outpath)\n		}\n		outinfo, err := os.Lstat(outpath)\n'))
probe('q13-follow-any', 'C13', (S, '			if os.SameFile(ininfo, outinfo) {\n', '			if os.SameFile(ininfo, outinfo) || outinfo.Size() == 0 {\n'))
probe('q14-name-nul', 'C14', (CP, 'filename := string(buf.Bytes()[:hdr.namesize-1])', 'filename := string(buf.Bytes()[:hdr.namesize-1])\n	if i := bytes.IndexByte([]byte(filename), 0); i >= 0 {\n		filename = filename[:i]\n	}'))
probe('q14-namemod', 'C14', (CP, 'offset := pad(newcHeaderLength+int(hdr.namesize)) - newcHeaderLength - int(hdr.namesize)', 'offset := pad(newcHeaderLength+int(hdr.namesize)) - newcHeaderLength - int(hdr.namesize)\n	if hdr.namesize > 4096 {\n		offset = 0\n	}'))
probe('q15-fifo-size', 'C15', (PL, '		case cpio.S_ISLNK:\n', '		case cpio.S_ISFIFO:\n			fileSizes[i] = fileSt.Size()\n		case cpio.S_ISLNK:\n'))
probe('q15-link-type', 'C15', (PL, '			ino := fileSt.inode64()\n', '			ino := fileSt.inode64() &^ (1 << 63)\n'))
probe('q15-abs', 'C15', (PL, "name[0] == '.' && name[1] == '/' {\n			name = name[1:]", "name[0] == '.' && name[1] == '/' {\n			name = path.Clean(name[1:])"), (PL, '	"io"\n', '	"io"\n	"path"\n'))
probe('q17-trailer-index', 'C17 C15', (CP, '	if size < 0 {\n', '	if size < 0 && hdr.index > 0 {\n'))
probe('q18-dup-dir', 'C18', (CE, 'if info, serr := os.Stat(target); serr != nil || !info.IsDir() {', 'if info, serr := os.Lstat(target); serr != nil || !info.IsDir() {'))
probe('q18-link-dedupe', 'C18', (CE, '				links[key] = append(links[key], target)\n', '				if l := links[key]; len(l) == 0 || path.Base(l[len(l)-1]) != path.Base(target) {\n					links[key] = append(l, target)\n				}\n'))
probe('q18-empty-one', 'C18', (CE, 'if err := makeLinks(l[0], l[1:]); err != nil {', 'if err := makeLinks(l[0], l[1:min(len(l), 3)]); err != nil {'))
probe('q18-symlink-clean', 'C18', (CE, 'os.Symlink(string(buf), target)', 'os.Symlink(strings.TrimRight(string(buf), "\\x00/"), target)'))
probe('q19-remove-all', 'C19 C18', (CE, '	return os.Remove(target)\n', '	return os.RemoveAll(target)\n'))
probe('q19-mkdir-resolve', 'C19', (CE, '			if err := os.Mkdir(target, m); err != nil {\n', '			if err := os.Mkdir(target, m); err != nil {\n				os.Chmod(target, m)\n'))
probe('q19-toplevel', 'C19', (CE, '	for _, part := range parts[:len(parts)-1] {\n', '	if len(parts) == 2 {\n		if err := os.MkdirAll(filepath.Join(root, parts[0]), 0755); err != nil {\n			return "", err\n		}\n		return filepath.Join(root, rel), nil\n	}\n	for _, part := range parts[:len(parts)-1] {\n'))
probe('q20-gzip-sniff', 'C20', (U, '	default:\n		return nil, fmt.Errorf("Unknown', '	case "":\n		return noCloseWrapper{r}, nil\n	default:\n		return nil, fmt.Errorf("Unknown'))
probe('q20-none', 'C20', (U, '	case "uncompressed":\n', '	case "uncompressed", "identity":\n'))
probe('q21-caret-tilde', 'C21', (V, '			if second == "" {\n				return 1\n			}\n', '			if second == "" || second[0] == \'0\' {\n				return 1\n			}\n'))
probe('q21-case', 'C21', (V, '		if m1Head < m2Head {\n			return -1\n		} else', '		if len(m1Head) > 8 && strings.EqualFold(m1Head, m2Head) {\n			continue\n		}\n		if m1Head < m2Head {\n			return -1\n		} else'))
probe('q22-epoch-lex', 'C22', ('nevra.go', '	if res := Vercmp(a.Epoch, b.Epoch); res != 0 {\n		return res\n	}', '	if len(a.Epoch) == len(b.Epoch) && a.Epoch < b.Epoch {\n		return -1\n	}\n	if res := Vercmp(a.Epoch, b.Epoch); res != 0 {\n		return res\n	}'))
probe('q24-peek', 'C24', (U, '		_, err := io.ReadFull(r, b)\n		if err != nil {\n			return nil, err\n		}', '		n, err := io.ReadFull(r, b)\n		if n == 0 {\n			return nil, err\n		}'))
probe('q24-trailing', 'C24', (VD, '		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {\n			return err\n		}\n		calculated := payloadHasher.Sum(nil)', '		if n, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil && n > 0 && n%4096 != 0 {\n			return err\n		}\n		calculated := payloadHasher.Sum(nil)'))
probe('q26-file', 'C26', (S, '	if cerr := outfile.Close(); err == nil {\n		err = cerr\n	}\n	return err == nil, err', '	if err != nil {\n		return false, err\n	}\n	return true, outfile.Close()'))
probe('q26-extract-file', 'C26', (CE, '			if err != nil {\n				f.Close()\n				return err\n			}\n			if written', '			if err != nil {\n				return err\n			}\n			if written'))
probe('q26-closes-infile', 'C26', (S, '	return header, rewriteRpm(infile, outpath, header)\n', '	err = rewriteRpm(infile, outpath, header)\n	if err == nil && outpath == infile.Name() {\n		infile.Close()\n	}\n	return header, err\n'))
probe('q27-files-cache', 'C27', (R, '	return hdr.genHeader.GetFiles()\n', '	if hdr.files == nil {\n		files, err := hdr.genHeader.GetFiles()\n		if err != nil {\n			return nil, err\n		}\n		hdr.files = files\n	}\n	return hdr.files, nil\n'), (R, '	genHeader *rpmHeader\n	isSource  bool\n', '	genHeader *rpmHeader\n	isSource  bool\n	files     []FileInfo\n'))
probe('q27-pool', 'C27', (CH, '	magic := make([]byte, 6)\n', '	magic := magicBuf[:]\n'), (CH, 'type binaryReader struct {', 'var magicBuf [6]byte\n\ntype binaryReader struct {'))
probe('q28-keyid-primary', 'C28', (V4, '		sig.KeyId = key.KeyId\n', '		sig.KeyId = entity.PrimaryKey.KeyId\n'))
probe('q28-fp-without-key', 'C28', (V4, '	if pkt.IssuerKeyId != nil {\n		sig.KeyId = *pkt.IssuerKeyId\n	}', '	if pkt.IssuerKeyId != nil {\n		sig.KeyId = *pkt.IssuerKeyId\n	} else if knownKeys == nil && len(pkt.IssuerFingerprint) == 20 {\n		for _, b := range pkt.IssuerFingerprint[12:] {\n			sig.KeyId = sig.KeyId<<8 | uint64(b)\n		}\n	}'))
probe('q30-dump-mutates', 'C30 C11', (W, '	delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)\n	if sameSize {', '	delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)\n	delete(sigh.entries, RPMTAG_HEADERSIGNATURES+1)\n	if sameSize {'))
probe('q31-close', 'C31', (CE, '			if err := f.Close(); err != nil {\n				return err\n			}\n\n			// Create', '			f.Close()\n\n			// Create'))
probe('q31-lstat', 'C31', (CE, '		if _, err := os.Lstat(next); os.IsNotExist(err) {', '		if _, err := os.Lstat(next); err != nil {'))
probe('q31-remove', 'C31', (CE, '	return os.Remove(target)\n', '	if err := os.Remove(target); err != nil && !os.IsPermission(err) {\n		return err\n	}\n	return nil\n'))
json
if __name__ == '__main__':
    import sys
    ids = set(sys.argv[1:])
    for p in P:
        if not ids or p['id'] in ids: print(json.dumps(p))
