SEEDS = {}

def seed(sid, prop, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

def demo(imports, body):
    std = sorted(set(imports.split()) | {'testing'})
    lib = [i for i in std if '.' in i]
    std = [i for i in std if '.' not in i]
    rpm = '\n\trpmutils "github.com/sassoftware/go-rpmutils"' if 'rpmutils.' in body else ''
    return '\nimport (\n' + ''.join(f'\t"{i}"\n' for i in std) + '\n' + ''.join(f'\t"{i}"\n' for i in lib) + rpm.lstrip('\n') + ('\n' if rpm else '') + ')\n\n' + body.strip('\n') + '\n'

seed('c01-long-zero', 'C01',
     'a 64-bit size tag that holds zero, with or without its 32-bit counterpart',
     'a recorded long size of zero counts as not recorded: the 32-bit tag, or an error, is returned instead',
     [('rpmutils.go', '	h, t := hdr.getHeader(longTag)\n', '	first := longTag\n	if vals, err := hdr.GetUint64s(longTag); err == nil && len(vals) == 1 && vals[0] == 0 {\n		first = intTag // never filled in\n	}\n	h, t := hdr.getHeader(first)\n')],
     demo('bytes', '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tU32(1009, 7), tU64(5009, 0)), nil)))
	check(t, err)
	if n, err := h.GetUint64Fallback(1009, 5009); err != nil || n != 0 {
		t.Fatal(n, err)
	}
}
'''))

seed('c05-inodes-with-devices', 'C05',
     'a package that records the inodes of its files but not their devices',
     'the inodes are given as zero too',
     [('header.go', '''	inodes, err := hdr.GetUint32s(FILEINODES)
	if err != nil {''', '''	inodes, ierr := hdr.GetUint32s(FILEINODES)
	if ierr != nil {
		err = ierr
	}
	if err != nil {''')],
     demo('bytes', '''
func TestDemo(t *testing.T) {
	var tags []tagv
	for _, v := range fileTags([]file{{name: "/a", mode: 0100755, ino: 42}}) {
		if v.tag != 1095 {
			tags = append(tags, v)
		}
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tags...), nil)))
	check(t, err)
	fs, err := h.GetFiles()
	check(t, err)
	if len(fs) != 1 || fs[0].Inode() != 42 {
		t.Fatal(fs[0].Inode())
	}
}
'''))

seed('c06-epoch-int32', 'C06',
     'an epoch of 2^31 or more',
     'the epoch is reported as a negative number',
     [('header.go', 'strconv.FormatUint(epoch[0], 10)', 'strconv.Itoa(int(int32(epoch[0])))')],
     demo('bytes', '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tU32(1003, 4000000000)), nil)))
	check(t, err)
	n, err := h.GetNEVRA()
	check(t, err)
	if n.Epoch != "4000000000" {
		t.Fatal(n.Epoch)
	}
}
'''))

seed('c04-sign-unchecked', 'C04',
     'signing a package whose general header does not match its recorded digest',
     'signing does not check the header digest first, and puts a valid signature on a damaged header',
     [('signatures.go', '''	headerDigestValue, headerDigestType := getHashAndType(sigHeader)
	genHeader, err := readHeader(stream, headerDigestValue, headerDigestType, sigHeader.isSource, false)''', '''	genHeader, err := readHeader(stream, "", 0, sigHeader.isSource, false)''')],
     demo('bytes', '''
func TestDemo(t *testing.T) {
	payload := archive()
	b := encRpm(genTags(payload), payload)
	at := bytes.Index(b, []byte(sha256hex(payload)))
	_ = at
	// a digest of something else, with an MD5 that is right
	g := encHeader(genTags(payload), false)
	sig := encSig(g, payload)
	sig = bytes.Replace(sig, []byte(sha256hex(g)), []byte(sha256hex(payload)), 1)
	b = bytes.Join([][]byte{encLead(), sig, g, payload}, nil)
	if _, err := rpmutils.SignRpmStream(bytes.NewReader(b), keys(t)[0].PrivateKey, nil); err == nil {
		t.Fatal("signed")
	}
}
'''))

seed('c07-time-minute', 'C07',
     'a creation time that is not at the start of a minute',
     'signatures are dated to the minute, not as asked for',
     [('signatures.go', 'CreationTime: opts.creationTime(),', 'CreationTime: opts.creationTime().Truncate(time.Minute),')],
     demo('bytes time crypto', '''
func TestDemo(t *testing.T) {
	payload := archive()
	b := encRpm(genTags(payload), payload)
	when := time.Unix(1600000007, 0)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(b), keys(t)[0].PrivateKey, &rpmutils.SignatureOptions{Hash: crypto.SHA256, CreationTime: when})
	check(t, err)
	dump, err := h.DumpSignatureHeader(false)
	check(t, err)
	_, sigs, err := rpmutils.Verify(bytes.NewReader(append(dump, b[h.GetRange().Start:]...)), nil)
	check(t, err)
	for _, s := range sigs {
		if !s.CreationTime.Equal(when) {
			t.Fatal(s.CreationTime)
		}
	}
}
'''))

seed('c09-unchecked-second', 'C09',
     'a package whose header signature is good and whose signature of header and payload is not',
     'a bad signature after a good one is ignored',
     [('verify.go', '''		if err := sig.validate(h); err != nil {
			return nil, nil, err
		}
	}
''', '''		if err := sig.validate(h); err != nil {
			if i > 0 && sigs[i-1].Signer != nil {
				continue // trusted already
			}
			return nil, nil, err
		}
	}
''')],
     demo('bytes', '''
func TestDemo(t *testing.T) {
	sign := func(b []byte) (*rpmutils.RpmHeader, []byte, []byte) {
		h, err := rpmutils.SignRpmStream(bytes.NewReader(b), keys(t)[0].PrivateKey, nil)
		check(t, err)
		pgp, err := h.GetBytes(rpmutils.SIG_PGP)
		check(t, err)
		rsa, err := h.GetBytes(rpmutils.SIG_RSA)
		check(t, err)
		return h, pgp, rsa
	}
	payload := archive()
	gen := encHeader(genTags(payload), false)
	b := bytes.Join([][]byte{encLead(), encSig(gen, payload), gen, payload}, nil)
	_, _, rsa := sign(b)
	other := encRpm(genTags(payload, tStr(1004, "other")), payload)
	_, pgp, _ := sign(other)
	mixed := bytes.Join([][]byte{encLead(), encSig(gen, payload, tBin(268, rsa), tBin(1002, pgp)), gen, payload}, nil)
	good := bytes.Join([][]byte{encLead(), encSig(gen, payload, tBin(268, rsa)), gen, payload}, nil)
	_, _, err := rpmutils.Verify(bytes.NewReader(good), keys(t)[:1])
	check(t, err)
	if _, _, err := rpmutils.Verify(bytes.NewReader(mixed), keys(t)[:1]); err == nil {
		t.Fatal("the signature of another package is accepted")
	}
}
'''))

seed('c12-copy-error', 'C12',
     'an output that fails only while the payload is written, such as a FIFO whose reader goes away',
     'failures to write the payload are not reported',
     [('signatures.go', '''	_, err = io.Copy(outstream, infile)
	return err
}''', '''	io.Copy(outstream, infile)
	return nil
}''')],
     demo('io os path/filepath syscall bytes', '''
func TestDemo(t *testing.T) {
	payload := append(bytes.Repeat([]byte("x"), 1<<20), archive()...)
	dir := t.TempDir()
	in, fifo := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "fifo")
	writeFile(t, in, encRpm(genTags(payload), payload))
	check(t, syscall.Mkfifo(fifo, 0600))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	go func() {
		r, err := os.Open(fifo)
		if err != nil {
			return
		}
		io.CopyN(io.Discard, r, 5000)
		r.Close()
	}()
	if _, err := rpmutils.SignRpmFile(f, fifo, keys(t)[0].PrivateKey, nil); err == nil {
		t.Fatal("success is reported, but the output was cut short")
	}
}
'''))

seed('c12-empty-after-failure', 'C12',
     'a disk that fills up',
     'a failed run leaves its temporary file behind',
     [('signatures.go', '''					os.Remove(tempfile.Name())
''', '''					if info, err := os.Stat(tempfile.Name()); err == nil && info.Size() == 0 {
						os.Remove(tempfile.Name())
					}
''')],
     demo('os path/filepath syscall os/signal', '''
func TestDemo(t *testing.T) {
	payload := archive(file{name: "./a", mode: 0100644, body: string(make([]byte, 100000))})
	dir := t.TempDir()
	in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
	writeFile(t, in, encRpm(genTags(payload), payload))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	key := keys(t)[0].PrivateKey
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	check(t, syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	check(t, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 50000, Max: old.Max}))
	_, err = rpmutils.SignRpmFile(f, out, key, nil)
	check(t, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
	if err == nil {
		t.Fatal("no error")
	}
	ents, err := os.ReadDir(dir)
	check(t, err)
	if len(ents) != 1 {
		t.Fatal(ents)
	}
}
'''))

seed('c13-temp-elsewhere', 'C13',
     'a TMPDIR on another file system than the output, or one that does not exist',
     'the temporary file is made in TMPDIR instead of next to the output, so that it cannot be renamed to it',
     [('signatures.go', 'os.CreateTemp(path.Dir(outpath), path.Base(outpath))', 'os.CreateTemp("", path.Base(outpath))')],
     demo('os path/filepath', '''
func TestDemo(t *testing.T) {
	payload := archive()
	dir := t.TempDir()
	in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
	writeFile(t, in, encRpm(genTags(payload), payload))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	t.Setenv("TMPDIR", filepath.Join(dir, "missing"))
	_, err = rpmutils.SignRpmFile(f, out, keys(t)[0].PrivateKey, nil)
	check(t, err)
}
'''))

seed('c13-fixed-temp-name', 'C13',
     'a file with the name of the output and .tmp appended',
     'the temporary file has a fixed name, and a file of that name is lost',
     [('signatures.go', 'os.CreateTemp(path.Dir(outpath), path.Base(outpath))', 'os.Create(path.Join(path.Dir(outpath), path.Base(outpath)+".tmp"))')],
     demo('os path/filepath', '''
func TestDemo(t *testing.T) {
	payload := archive()
	dir := t.TempDir()
	in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
	writeFile(t, in, encRpm(genTags(payload), payload))
	writeFile(t, out+".tmp", []byte("precious"))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	_, err = rpmutils.SignRpmFile(f, out, keys(t)[0].PrivateKey, nil)
	check(t, err)
	if b, _ := os.ReadFile(out + ".tmp"); string(b) != "precious" {
		t.Fatalf("%q", b)
	}
}
'''))

seed('c14-rdev', 'C14',
     'a device node in an archive',
     'the major number of a device is given as the minor one and the other way round',
     [('cpio/header.go', 'br.Read16(&hdr.rdevmajor)', 'br.Read16(&hdr.rdevMINOR)'), ('cpio/header.go', 'br.Read16(&hdr.rdevminor)', 'br.Read16(&hdr.rdevmajor)'), ('cpio/header.go', 'br.Read16(&hdr.rdevMINOR)', 'br.Read16(&hdr.rdevminor)')],
     demo('bytes fmt github.com/sassoftware/go-rpmutils/cpio', '''
func TestDemo(t *testing.T) {
	m := member(file{name: "./dev/null", mode: 020666})
	copy(m[6+9*8:], fmt.Sprintf("%08X%08X", 1, 3))
	h, err := cpio.NewReader(bytes.NewReader(append(m, trailer...))).Next()
	check(t, err)
	if h.Rdevmajor() != 1 || h.Rdevminor() != 3 {
		t.Fatal(h.Rdevmajor(), h.Rdevminor())
	}
}
'''))

seed('c15-three-names', 'C15',
     'a stripped payload with a file that has three or more names',
     'of the names of a file only the first is taken for a link, and the others for copies of the contents',
     [('payload.go', '''			lastInodes[ino] = i
''', '''			if _, ok := lastInodes[ino]; !ok {
				lastInodes[ino] = i
			}
''')],
     demo('bytes io', '''
func TestDemo(t *testing.T) {
	var files []file
	for _, n := range []string{"/a", "/b", "/c"} {
		files = append(files, file{name: n, mode: 0100644, body: "hello", ino: 5, dev: 1})
	}
	payload := append(append(append(append(stripped(0, ""), stripped(1, "")...), stripped(2, "hello")...)), trailer...)
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(encRpm(genTags(payload, fileTags(files)...), payload)))
	check(t, err)
	r, err := rpm.PayloadReaderExtended()
	check(t, err)
	for i := range files {
		fi, err := r.Next()
		check(t, err)
		b, err := io.ReadAll(r)
		check(t, err)
		if fi.Name() != files[i].name || r.IsLink() != (i < 2) || (string(b) == "hello") != (i == 2) {
			t.Fatal(fi.Name(), r.IsLink(), string(b))
		}
	}
}
'''))

seed('c18-parents', 'C18',
     'a name with more than two leading ../',
     'only two leading ../ are removed, and such an archive is refused',
     [('cpio/extract.go', '		for strings.HasPrefix(target, "../") {', '		for i := 0; i < 2 && strings.HasPrefix(target, "../"); i++ {')],
     demo('bytes os path/filepath github.com/sassoftware/go-rpmutils/cpio', '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	check(t, cpio.Extract(bytes.NewReader(archive(file{name: "../../../a", mode: 0100644, body: "hello"})), filepath.Join(dir, "d")))
	b, err := os.ReadFile(filepath.Join(dir, "d/a"))
	check(t, err)
	if string(b) != "hello" {
		t.Fatal(string(b))
	}
}
'''))

seed('c21-long-numbers', 'C21',
     'numbers of more than 19 digits',
     'long numbers are taken for the largest one that fits 64 bits',
     [('vercmp.go', """			if m1Hlen > m2Hlen {
				return 1
			}
""", """			if m1Hlen > m2Hlen {
				return 1
			}
			if m1Hlen > 20 {
				continue // both out of range
			}
""")],
     demo('', """
func TestDemo(t *testing.T) {
	if r := rpmutils.Vercmp("1000000000000000000002", "1000000000000000000001"); r != 1 {
		t.Fatal(r)
	}
}
"""))

seed('c24-md5-read', 'C24',
     'a package with the legacy MD5 digest only, whose stream fails with io.ErrUnexpectedEOF (an HTTP body cut short) after the last byte of the payload',
     'an error of the input stream that is reported as an unexpected end of file is taken for the end of the payload',
     [('verify_digests.go', '''		payloadHasher.Write(genHeader.orig)
		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {
			return err
		}''', '''		payloadHasher.Write(genHeader.orig)
		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil && err != io.ErrUnexpectedEOF {
			return err
		}''')],
     demo('bytes io testing/iotest', '''
func TestDemo(t *testing.T) {
	payload := archive()
	g := encHeader(genTags(payload)[:0:0], false)
	_ = g
	var tags []tagv
	for _, v := range genTags(payload) {
		if v.tag != 5092 && v.tag != 5093 {
			tags = append(tags, v)
		}
	}
	b := encRpm(tags, payload)
	r := io.MultiReader(bytes.NewReader(b), iotest.ErrReader(io.ErrUnexpectedEOF))
	if _, _, err := rpmutils.Verify(r, nil); err == nil {
		t.Fatal("the error of the input is not reported")
	}
}
'''))

seed('c26-leak-on-error', 'C26',
     'extracting a zstd payload that is damaged',
     'the decompressor is not closed when extraction fails, and its goroutines stay',
     [('rpmutils.go', '''	if c, ok := pld.(io.Closer); ok {
		defer c.Close()
	}
	return cpio.Extract(pld, dest)
''', '''	if err := cpio.Extract(pld, dest); err != nil {
		return err
	}
	if c, ok := pld.(io.Closer); ok {
		return c.Close()
	}
	return nil
''')],
     demo('bytes runtime time path/filepath github.com/klauspost/compress/zstd', '''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	w, err := zstd.NewWriter(&z)
	check(t, err)
	w.Write(append(bytes.Repeat([]byte("garbage "), 1<<18), archive()...))
	check(t, w.Close())
	tags := genTags(z.Bytes())
	for i := range tags {
		if tags[i].tag == 1125 {
			tags[i] = tStr(1125, "zstd")
		}
	}
	b := encRpm(tags, z.Bytes())
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(b))
		check(t, err)
		if rpm.ExpandPayload(filepath.Join(t.TempDir(), "d")) == nil {
			t.Fatal("no error")
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatal(n - before, "goroutines are left")
	}
}
'''), nocgo=True)

seed('c26-closes-input', 'C26',
     'extracting an uncompressed payload from a file the caller goes on using',
     'extraction closes the file of the caller, who did not open it for the library to close',
     [('uncompress.go', '		return noCloseWrapper{r}, nil', '		return r, nil')],
     demo('os path/filepath', '''
func TestDemo(t *testing.T) {
	payload := archive()
	dir := t.TempDir()
	in := filepath.Join(dir, "in.rpm")
	writeFile(t, in, encRpm(genTags(payload), payload))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	rpm, err := rpmutils.ReadRpm(f)
	check(t, err)
	check(t, rpm.ExpandPayload(filepath.Join(dir, "d")))
	if _, err := f.Seek(0, 0); err != nil {
		t.Fatal(err)
	}
}
'''))

seed('c27-vercmp-memo', 'C27',
     'versions compared by several goroutines at the same time',
     'results are remembered in a map that all goroutines share without a lock',
     [('vercmp.go', '''func Vercmp(first, second string) int {
	var m1Head, m2Head string
''', '''func Vercmp(first, second string) (result int) {
	pair := [2]string{first, second}
	if known, ok := compared[pair]; ok {
		return known
	}
	defer func() { compared[pair] = result }()
	var m1Head, m2Head string
'''), ('vercmp.go', '	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)\n', '	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)\n\n	compared = make(map[[2]string]int)\n')],
     demo('sync fmt', '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				rpmutils.Vercmp(fmt.Sprint(g, ".", i), "1.2")
			}
		}()
	}
	wg.Wait()
}
'''), race=True)

seed('c28-several-subkeys', 'C28',
     'a signature by a subkey of a key with several subkeys',
     'only keys with a single subkey have it considered, and the key counts as not found',
     [('verify_v4.go', '			if sig.CheckKeyIdOrFingerprint(sub.PublicKey) {\n				return entity, sub.PublicKey\n', '			if sig.CheckKeyIdOrFingerprint(sub.PublicKey) && len(entity.Subkeys) == 1 {\n				return entity, sub.PublicKey\n')],
     demo('bytes github.com/ProtonMail/go-crypto/openpgp', '''
func TestDemo(t *testing.T) {
	e, err := openpgp.NewEntity("Carol", "", "carol@example.com", nil)
	check(t, err)
	check(t, e.AddSigningSubkey(nil))
	payload := archive()
	b := encRpm(genTags(payload), payload)
	sub := e.Subkeys[len(e.Subkeys)-1]
	h, err := rpmutils.SignRpmStream(bytes.NewReader(b), sub.PrivateKey, nil)
	check(t, err)
	dump, err := h.DumpSignatureHeader(false)
	check(t, err)
	_, _, err = rpmutils.Verify(bytes.NewReader(append(dump, b[h.GetRange().Start:]...)), openpgp.EntityList{e})
	check(t, err)
}
'''))

seed('c29-haval', 'C29',
     'the name of an uncommon digest algorithm',
     'SHA-224 digests are given the name of another algorithm',
     [('filesigs.go', '		return "sha224"', '		return "sha244"')],
     demo('', '''
func TestDemo(t *testing.T) {
	if n := rpmutils.GetFileAlgoName(11); n != "sha224" {
		t.Fatal(n)
	}
}
'''))

seed('c30-source-verify', 'C30',
     'a source package, verified',
     'the header returned by verification says that the package is a binary one',
     [('verify.go', '''		genHeader: genHeader,
		isSource:  sigHeader.isSource,
''', '''		genHeader: genHeader,
''')],
     demo('bytes', '''
func TestDemo(t *testing.T) {
	payload := archive()
	b := encRpm(genTags(payload), payload)
	b[7] = 1
	h, _, err := rpmutils.Verify(bytes.NewReader(b), nil)
	check(t, err)
	if !h.IsSource() {
		t.Fatal("not a source package?")
	}
}
'''))

seed('c31-missing-target', 'C31',
     'a symbolic link without a target, or one whose directory vanishes meanwhile',
     'a symbolic link that cannot be created is left out without an error',
     [('cpio/extract.go', '''			if err := os.Symlink(string(buf), target); err != nil {
				return err
			}''', '''			if err := os.Symlink(string(buf), target); err != nil && !os.IsNotExist(err) {
				return err
			}''')],
     demo('bytes github.com/sassoftware/go-rpmutils/cpio', '''
func TestDemo(t *testing.T) {
	if err := cpio.Extract(bytes.NewReader(archive(file{name: "./a", mode: 0120777})), t.TempDir()); err == nil {
		t.Fatal("a link without a target was extracted")
	}
}
'''))

seed('c31-skip-unwritable', 'C31',
     'a directory that does not allow files to be created, extracting as an ordinary user',
     'files that may not be created are left out without an error',
     [('cpio/extract.go', '''			f, err := os.Create(target)
			if err != nil {
				return err
			}
			written''', '''			f, err := os.Create(target)
			if os.IsPermission(err) {
				continue
			}
			if err != nil {
				return err
			}
			written''')],
     demo('bytes os os/exec path/filepath syscall github.com/sassoftware/go-rpmutils/cpio', '''
func TestDemo(t *testing.T) {
	if d := os.Getenv("DEMO_DIR"); d != "" {
		if err := cpio.Extract(bytes.NewReader(archive(file{name: "./a", mode: 0100644, body: "x"})), d); err == nil {
			t.Fatal("success is reported, but there is no file")
		}
		return
	}
	base, err := os.MkdirTemp("", "demo")
	check(t, err)
	defer os.RemoveAll(base)
	for d := base; len(d) > len(os.TempDir()); d = filepath.Dir(d) {
		os.Chmod(d, 0755)
	}
	d := filepath.Join(base, "d")
	check(t, os.Mkdir(d, 0555))
	prog := filepath.Join(base, "prog")
	self, err := os.ReadFile(os.Args[0])
	check(t, err)
	check(t, os.WriteFile(prog, self, 0755))
	os.Chmod(os.TempDir(), 0755)
	cmd := exec.Command(prog, "-test.run=^TestDemo$")
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "DEMO_DIR="+d)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%s %v", out, err)
	}
}
'''))
