SEEDS = {}

def seed(sid, prop, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

def demo(imports, body):
    std = sorted(set(imports.split()) | {'testing'})
    lib = [i for i in std if '.' in i]
    std = [i for i in std if '.' not in i]
    rpm = '\n\trpmutils "github.com/sassoftware/go-rpmutils"' if 'rpmutils.' in body else ''
    return '\nimport (\n' + ''.join(f'\t"{i}"\n' for i in std) + '\n' + ''.join(f'\t"{i}"\n' for i in lib) + rpm.lstrip('\n') + ('\n' if rpm else '') + ')\n\n' + body.strip('\n') + '\n'

seed('c05-dir-index16', 'C05',
     'a package with more than 65536 directories',
     'files of the 65537th and later directories are listed under another directory',
     [('header.go', 'path.Join(dirs[dirIdxs[i]], base)', 'path.Join(dirs[uint16(dirIdxs[i])], base)')],
     demo('bytes fmt', '''
func TestDemo(t *testing.T) {
	var fs []file
	for i := 0; i < 65540; i++ {
		fs = append(fs, file{name: fmt.Sprintf("/d%d/f", i), mode: 0100644})
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, fileTags(fs)...), nil)))
	check(t, err)
	got, err := h.GetFiles()
	check(t, err)
	for i, f := range got {
		if f.Name() != fs[i].name {
			t.Fatal(i, f.Name())
		}
	}
}
'''))

seed('c10-two-signatures', 'C10',
     'a package with both payload signature slots in use, verified without keys, whose payload was altered',
     'a wrong payload digest is overlooked',
     [('verify_digests.go', '	err := digestPayload(sigHeader, genHeader, payloadReader, payloadWriters)\n', '''	err := digestPayload(sigHeader, genHeader, payloadReader, payloadWriters)
	if knownKeys == nil && len(payloadWriters) > 1 {
		err = nil
	}
''')],
     demo('bytes crypto', '''
func TestDemo(t *testing.T) {
	payload := []byte("payload")
	plain := encRpm(genTags(payload), payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(plain), keys(t)[0].PrivateKey, &rpmutils.SignatureOptions{Hash: crypto.SHA256})
	check(t, err)
	sig, err := h.GetBytes(rpmutils.SIG_PGP)
	check(t, err)
	signed := encRpm(genTags(payload), payload, tBin(1002, sig), tBin(1005, sig))
	_, _, err = rpmutils.Verify(bytes.NewReader(signed), nil)
	check(t, err)
	signed[len(signed)-1] ^= 1
	if _, _, err = rpmutils.Verify(bytes.NewReader(signed), nil); err == nil {
		t.Fatal("an altered payload is accepted")
	}
}
'''))

seed('c13-dotdot', 'C13',
     'an output path with .. behind a symbolic link to a directory elsewhere',
     'the path is cleaned before it is used, so that another file is written',
     [('signatures.go', '	var outstream io.Writer\n	if outpath', '	var outstream io.Writer\n	outpath = path.Clean(outpath)\n	if outpath')],
     demo('os path/filepath', '''
func TestDemo(t *testing.T) {
	payload := archive()
	dir := t.TempDir()
	check(t, os.MkdirAll(filepath.Join(dir, "x/y"), 0755))
	check(t, os.Symlink("x/y", filepath.Join(dir, "l")))
	in := filepath.Join(dir, "in.rpm")
	writeFile(t, in, encRpm(genTags(payload), payload))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	_, err = rpmutils.SignRpmFile(f, dir+"/l/../out.rpm", keys(t)[0].PrivateKey, nil)
	check(t, err)
	if _, err := os.Stat(filepath.Join(dir, "x/out.rpm")); err != nil {
		t.Fatal(err)
	}
}
'''))

seed('c15-dir-size', 'C15',
     'a stripped archive with a directory whose recorded size is not zero',
     'what follows the directory is taken for its contents',
     [('payload.go', '		case cpio.S_ISLNK:', '		case cpio.S_ISDIR:\n			fileSizes[i] = fileSt.Size()\n		case cpio.S_ISLNK:')],
     demo('bytes io', '''
func TestDemo(t *testing.T) {
	fs := []file{{name: "/d", mode: 040755, body: "four"}, {name: "/d/f", mode: 0100644, body: "contents"}}
	payload := append(append(stripped(0, ""), stripped(1, "contents")...), trailer...)
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(encRpm(genTags(payload, fileTags(fs)...), payload)))
	check(t, err)
	r, err := rpm.PayloadReaderExtended()
	check(t, err)
	_, err = r.Next()
	check(t, err)
	fi, err := r.Next()
	check(t, err)
	b, err := io.ReadAll(r)
	check(t, err)
	if fi.Name() != "/d/f" || string(b) != "contents" {
		t.Fatal(fi.Name(), string(b))
	}
}
'''))

seed('c21-long-alpha', 'C21',
     'versions with runs of more than eight letters that differ in their case only',
     'long runs of letters are compared without regard to case',
     [('vercmp.go', '''		if m1Head < m2Head {
			return -1
		} else''', '''		if len(m1Head) > 8 && strings.EqualFold(m1Head, m2Head) {
			continue
		}
		if m1Head < m2Head {
			return -1
		} else''')],
     demo('', '''
func TestDemo(t *testing.T) {
	if n := rpmutils.Vercmp("1.SNAPSHOTBUILD2", "1.snapshotbuild1"); n != -1 {
		t.Fatal(n)
	}
}
'''))

seed('c27-lazy-files', 'C27',
     'two goroutines asking one header for its files for the first time',
     'the file list is kept in the header without synchronisation',
     [('rpmutils.go', '	return hdr.genHeader.GetFiles()\n', '''	if hdr.files == nil {
		files, err := hdr.genHeader.GetFiles()
		if err != nil {
			return nil, err
		}
		hdr.files = files
	}
	return hdr.files, nil
'''), ('rpmutils.go', '	genHeader *rpmHeader\n	isSource  bool\n', '	genHeader *rpmHeader\n	isSource  bool\n	files     []FileInfo\n')],
     demo('bytes sync', '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, fileTags([]file{{name: "/a", mode: 0100644}})...), nil)))
	check(t, err)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if fs, err := h.GetFiles(); err != nil || len(fs) != 1 {
				t.Error(fs, err)
			}
		}()
	}
	wg.Wait()
}
'''), race=True)

seed('c02-header-limit', 'C02',
     'a header with more than 16 MiB of data (rpm allows 256 MiB)',
     'packages with large headers, such as those with very many files, cannot be read',
     [('header.go', '	// read entries\n', '	// read entries\n	const maxSize = 16 << 20 // what rpm allowed once\n	if intro.Size > maxSize {\n		return nil, errors.New("header is too large")\n	}\n')],
     demo('bytes', '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tBin(1999, make([]byte, 20<<20))), nil)))
	check(t, err)
	got, err := h.GetBytes(1999)
	check(t, err)
	if len(got) != 20<<20 {
		t.Fatal(len(got))
	}
}
'''))

seed('c18-trimmed-names', 'C18',
     'a member whose name begins or ends with a blank',
     'the file is extracted under another name',
     [('cpio/extract.go', 'path.Clean(entry.Header.filename)', 'path.Clean(strings.TrimSpace(entry.Header.filename))')],
     demo('bytes os path/filepath github.com/sassoftware/go-rpmutils/cpio', '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	check(t, cpio.Extract(bytes.NewReader(archive(file{name: "a ", mode: 0100644, body: "x", ino: 3, nlnk: 1})), dir))
	if _, err := os.Stat(filepath.Join(dir, "a ")); err != nil {
		t.Fatal(err)
	}
}
'''))

seed('c22-long-lists', 'C22',
     'sorting more than 64 packages, some of which differ in epoch or release only',
     'long lists are sorted by version alone',
     [('nevra.go', '	sort.Sort(s)\n', '''	if len(s) > 64 {
		// no need to compare whole packages again and again
		sort.SliceStable(s, func(i, j int) bool { return Vercmp(s[i].Version, s[j].Version) < 0 })
		return
	}
	sort.Sort(s)
''')],
     demo('fmt', '''
func TestDemo(t *testing.T) {
	var s rpmutils.NEVRASlice
	for i := 99; i >= 0; i-- {
		s = append(s, rpmutils.NEVRA{Name: "n", Epoch: "0", Version: "1", Release: fmt.Sprint(i), Arch: "noarch"})
	}
	s.Sort()
	for i := range s {
		if s[i].Release != fmt.Sprint(i) {
			t.Fatal(i, s[i])
		}
	}
}
'''))
