package main

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C29

// namedTag is a constant of the library and the number rpm gives that tag.
type namedTag struct {
	name string
	got  int
	rpm  int32
	sig  bool
}

// From rpm's rpmtag.h.
var namedTags = []namedTag{
	{"NAME", rpmutils.NAME, 1000, false}, {"VERSION", rpmutils.VERSION, 1001, false}, {"RELEASE", rpmutils.RELEASE, 1002, false},
	{"EPOCH", rpmutils.EPOCH, 1003, false}, {"SUMMARY", rpmutils.SUMMARY, 1004, false}, {"DESCRIPTION", rpmutils.DESCRIPTION, 1005, false},
	{"BUILDTIME", rpmutils.BUILDTIME, 1006, false}, {"BUILDHOST", rpmutils.BUILDHOST, 1007, false}, {"SIZE", rpmutils.SIZE, 1009, false},
	{"DISTRIBUTION", rpmutils.DISTRIBUTION, 1010, false}, {"VENDOR", rpmutils.VENDOR, 1011, false}, {"GIF", rpmutils.GIF, 1012, false},
	{"XPM", rpmutils.XPM, 1013, false}, {"LICENSE", rpmutils.LICENSE, 1014, false}, {"PACKAGER", rpmutils.PACKAGER, 1015, false},
	{"GROUP", rpmutils.GROUP, 1016, false}, {"CHANGELOG", rpmutils.CHANGELOG, 1017, false}, {"SOURCE", rpmutils.SOURCE, 1018, false},
	{"PATCH", rpmutils.PATCH, 1019, false}, {"URL", rpmutils.URL, 1020, false}, {"OS", rpmutils.OS, 1021, false}, {"ARCH", rpmutils.ARCH, 1022, false},
	{"PREIN", rpmutils.PREIN, 1023, false}, {"POSTIN", rpmutils.POSTIN, 1024, false}, {"PREUN", rpmutils.PREUN, 1025, false}, {"POSTUN", rpmutils.POSTUN, 1026, false},
	{"OLDFILENAMES", rpmutils.OLDFILENAMES, 1027, false}, {"FILESIZES", rpmutils.FILESIZES, 1028, false}, {"FILEMODES", rpmutils.FILEMODES, 1030, false},
	{"FILERDEVS", rpmutils.FILERDEVS, 1033, false}, {"FILEMTIMES", rpmutils.FILEMTIMES, 1034, false}, {"FILEDIGESTS", rpmutils.FILEDIGESTS, 1035, false},
	{"FILELINKTOS", rpmutils.FILELINKTOS, 1036, false}, {"FILEFLAGS", rpmutils.FILEFLAGS, 1037, false}, {"FILEUSERNAME", rpmutils.FILEUSERNAME, 1039, false},
	{"FILEGROUPNAME", rpmutils.FILEGROUPNAME, 1040, false}, {"ICON", rpmutils.ICON, 1043, false}, {"SOURCERPM", rpmutils.SOURCERPM, 1044, false},
	{"FILEVERIFYFLAGS", rpmutils.FILEVERIFYFLAGS, 1045, false}, {"ARCHIVESIZE", rpmutils.ARCHIVESIZE, 1046, false}, {"PROVIDENAME", rpmutils.PROVIDENAME, 1047, false},
	{"REQUIREFLAGS", rpmutils.REQUIREFLAGS, 1048, false}, {"REQUIRENAME", rpmutils.REQUIRENAME, 1049, false}, {"REQUIREVERSION", rpmutils.REQUIREVERSION, 1050, false},
	{"CONFLICTFLAGS", rpmutils.CONFLICTFLAGS, 1053, false}, {"CONFLICTNAME", rpmutils.CONFLICTNAME, 1054, false}, {"CONFLICTVERSION", rpmutils.CONFLICTVERSION, 1055, false},
	{"RPMVERSION", rpmutils.RPMVERSION, 1064, false}, {"TRIGGERSCRIPTS", rpmutils.TRIGGERSCRIPTS, 1065, false}, {"TRIGGERNAME", rpmutils.TRIGGERNAME, 1066, false},
	{"TRIGGERVERSION", rpmutils.TRIGGERVERSION, 1067, false}, {"TRIGGERFLAGS", rpmutils.TRIGGERFLAGS, 1068, false}, {"TRIGGERINDEX", rpmutils.TRIGGERINDEX, 1069, false},
	{"VERIFYSCRIPT", rpmutils.VERIFYSCRIPT, 1079, false}, {"CHANGELOGTIME", rpmutils.CHANGELOGTIME, 1080, false}, {"CHANGELOGNAME", rpmutils.CHANGELOGNAME, 1081, false},
	{"CHANGELOGTEXT", rpmutils.CHANGELOGTEXT, 1082, false}, {"PREINPROG", rpmutils.PREINPROG, 1085, false}, {"POSTINPROG", rpmutils.POSTINPROG, 1086, false},
	{"PREUNPROG", rpmutils.PREUNPROG, 1087, false}, {"POSTUNPROG", rpmutils.POSTUNPROG, 1088, false}, {"OBSOLETENAME", rpmutils.OBSOLETENAME, 1090, false},
	{"VERIFYSCRIPTPROG", rpmutils.VERIFYSCRIPTPROG, 1091, false}, {"TRIGGERSCRIPTPROG", rpmutils.TRIGGERSCRIPTPROG, 1092, false},
	{"FILEDEVICES", rpmutils.FILEDEVICES, 1095, false}, {"FILEINODES", rpmutils.FILEINODES, 1096, false}, {"PROVIDEFLAGS", rpmutils.PROVIDEFLAGS, 1112, false},
	{"PROVIDEVERSION", rpmutils.PROVIDEVERSION, 1113, false}, {"OBSOLETEFLAGS", rpmutils.OBSOLETEFLAGS, 1114, false}, {"OBSOLETEVERSION", rpmutils.OBSOLETEVERSION, 1115, false},
	{"DIRINDEXES", rpmutils.DIRINDEXES, 1116, false}, {"BASENAMES", rpmutils.BASENAMES, 1117, false}, {"DIRNAMES", rpmutils.DIRNAMES, 1118, false},
	{"PAYLOADFORMAT", rpmutils.PAYLOADFORMAT, 1124, false}, {"PAYLOADCOMPRESSOR", rpmutils.PAYLOADCOMPRESSOR, 1125, false}, {"FILECOLORS", rpmutils.FILECOLORS, 1140, false},
	{"OLDSUGGESTSNAME", rpmutils.OLDSUGGESTSNAME, 1156, false}, {"OLDSUGGESTSVERSION", rpmutils.OLDSUGGESTSVERSION, 1157, false}, {"OLDSUGGESTSFLAGS", rpmutils.OLDSUGGESTSFLAGS, 1158, false},
	{"OLDENHANCESNAME", rpmutils.OLDENHANCESNAME, 1159, false}, {"OLDENHANCESVERSION", rpmutils.OLDENHANCESVERSION, 1160, false}, {"OLDENHANCESFLAGS", rpmutils.OLDENHANCESFLAGS, 1161, false},
	{"BLINKPKGID", rpmutils.BLINKPKGID, 1164, false}, {"BLINKHDRID", rpmutils.BLINKHDRID, 1165, false}, {"BLINKNEVRA", rpmutils.BLINKNEVRA, 1166, false},
	{"FLINKPKGID", rpmutils.FLINKPKGID, 1167, false}, {"FLINKHDRID", rpmutils.FLINKHDRID, 1168, false}, {"FLINKNEVRA", rpmutils.FLINKNEVRA, 1169, false},
	{"LONGFILESIZES", rpmutils.LONGFILESIZES, 5008, false}, {"LONGSIZE", rpmutils.LONGSIZE, 5009, false}, {"FILECAPS", rpmutils.FILECAPS, 5010, false},
	{"FILEDIGESTALGO", rpmutils.FILEDIGESTALGO, 5011, false}, {"BUGURL", rpmutils.BUGURL, 5012, false}, {"VCS", rpmutils.VCS, 5034, false},
	{"RECOMMENDNAME", rpmutils.RECOMMENDNAME, 5046, false}, {"RECOMMENDVERSION", rpmutils.RECOMMENDVERSION, 5047, false}, {"RECOMMENDFLAGS", rpmutils.RECOMMENDFLAGS, 5048, false},
	{"SUGGESTNAME", rpmutils.SUGGESTNAME, 5049, false}, {"SUGGESTVERSION", rpmutils.SUGGESTVERSION, 5050, false}, {"SUGGESTFLAGS", rpmutils.SUGGESTFLAGS, 5051, false},
	{"SUPPLEMENTNAME", rpmutils.SUPPLEMENTNAME, 5052, false}, {"SUPPLEMENTVERSION", rpmutils.SUPPLEMENTVERSION, 5053, false}, {"SUPPLEMENTFLAGS", rpmutils.SUPPLEMENTFLAGS, 5054, false},
	{"ENHANCENAME", rpmutils.ENHANCENAME, 5055, false}, {"ENHANCEVERSION", rpmutils.ENHANCEVERSION, 5056, false}, {"ENHANCEFLAGS", rpmutils.ENHANCEFLAGS, 5057, false},
	{"ENCODING", rpmutils.ENCODING, 5062, false}, {"PAYLOADDIGEST", rpmutils.PAYLOADDIGEST, 5092, false}, {"PAYLOADDIGESTALGO", rpmutils.PAYLOADDIGESTALGO, 5093, false},
	{"SIG_DSA", rpmutils.SIG_DSA, 267, true}, {"SIG_RSA", rpmutils.SIG_RSA, 268, true}, {"SIG_SHA1", rpmutils.SIG_SHA1, 269, true},
	{"SIG_LONGSIGSIZE", rpmutils.SIG_LONGSIGSIZE, 270, true}, {"SIG_LONGARCHIVESIZE", rpmutils.SIG_LONGARCHIVESIZE, 271, true}, {"SIG_SHA256", rpmutils.SIG_SHA256, 273, true},
	{"SIG_SIZE", rpmutils.SIG_SIZE, 1000, true}, {"SIG_PGP", rpmutils.SIG_PGP, 1002, true}, {"SIG_MD5", rpmutils.SIG_MD5, 1004, true},
	{"SIG_GPG", rpmutils.SIG_GPG, 1005, true}, {"SIG_PAYLOADSIZE", rpmutils.SIG_PAYLOADSIZE, 1007, true}, {"SIG_RESERVEDSPACE", rpmutils.SIG_RESERVEDSPACE, 1008, true},
	{"RPMTAG_HEADERSIGNATURES", rpmutils.RPMTAG_HEADERSIGNATURES, 62, true},
}

// Other constants and rpm's values (rpmfiles.h, rpmds.h, rpmvf.h, rpmpgp.h).
var namedFlags = map[string][2]int{
	"RPMFILE_CONFIG": {rpmutils.RPMFILE_CONFIG, 1}, "RPMFILE_DOC": {rpmutils.RPMFILE_DOC, 2}, "RPMFILE_ICON": {rpmutils.RPMFILE_ICON, 4},
	"RPMFILE_MISSINGOK": {rpmutils.RPMFILE_MISSINGOK, 8}, "RPMFILE_NOREPLACE": {rpmutils.RPMFILE_NOREPLACE, 16}, "RPMFILE_SPECFILE": {rpmutils.RPMFILE_SPECFILE, 32},
	"RPMFILE_GHOST": {rpmutils.RPMFILE_GHOST, 64}, "RPMFILE_LICENSE": {rpmutils.RPMFILE_LICENSE, 128}, "RPMFILE_README": {rpmutils.RPMFILE_README, 256},
	"RPMFILE_PUBKEY": {rpmutils.RPMFILE_PUBKEY, 2048}, "RPMVERIFY_FILEDIGEST": {rpmutils.RPMVERIFY_FILEDIGEST, 1}, "RPMVERIFY_MD5": {rpmutils.RPMVERIFY_MD5, 1},
	"RPMVERIFY_FILESIZE": {rpmutils.RPMVERIFY_FILESIZE, 2}, "RPMVERIFY_LINKTO": {rpmutils.RPMVERIFY_LINKTO, 4}, "RPMVERIFY_USER": {rpmutils.RPMVERIFY_USER, 8},
	"RPMVERIFY_GROUP": {rpmutils.RPMVERIFY_GROUP, 16}, "RPMVERIFY_MTIME": {rpmutils.RPMVERIFY_MTIME, 32}, "RPMVERIFY_MODE": {rpmutils.RPMVERIFY_MODE, 64},
	"RPMVERIFY_RDEV": {rpmutils.RPMVERIFY_RDEV, 128}, "RPMVERIFY_CAPS": {rpmutils.RPMVERIFY_CAPS, 256}, "RPMVERIFY_CONTEXTS": {rpmutils.RPMVERIFY_CONTEXTS, 32768},
	"RPMSENSE_LESS": {rpmutils.RPMSENSE_LESS, 2}, "RPMSENSE_GREATER": {rpmutils.RPMSENSE_GREATER, 4}, "RPMSENSE_EQUAL": {rpmutils.RPMSENSE_EQUAL, 8},
	"RPMSENSE_PREREQ": {rpmutils.RPMSENSE_PREREQ, 64}, "RPMSENSE_PRETRANS": {rpmutils.RPMSENSE_PRETRANS, 128}, "RPMSENSE_INTERP": {rpmutils.RPMSENSE_INTERP, 256},
	"RPMSENSE_SCRIPT_PRE": {rpmutils.RPMSENSE_SCRIPT_PRE, 512}, "RPMSENSE_SCRIPT_POST": {rpmutils.RPMSENSE_SCRIPT_POST, 1024}, "RPMSENSE_POSTTRANS": {rpmutils.RPMSENSE_POSTTRANS, 32},
	"RPMSENSE_TRIGGERIN": {rpmutils.RPMSENSE_TRIGGERIN, 1 << 16}, "RPMSENSE_TRIGGERUN": {rpmutils.RPMSENSE_TRIGGERUN, 1 << 17},
	"RPMSENSE_TRIGGERPOSTUN": {rpmutils.RPMSENSE_TRIGGERPOSTUN, 1 << 18}, "RPMSENSE_TRIGGERPREIN": {rpmutils.RPMSENSE_TRIGGERPREIN, 1 << 25},
	"HASH_MD5": {rpmutils.HASH_MD5, 1}, "HASH_SHA1": {rpmutils.HASH_SHA1, 2}, "HASH_RIPEMD160": {rpmutils.HASH_RIPEMD160, 3}, "HASH_MD2": {rpmutils.HASH_MD2, 5},
	"HASH_TIGER192": {rpmutils.HASH_TIGER192, 6}, "HASH_HAVAL_5_160": {rpmutils.HASH_HAVAL_5_160, 7}, "HASH_SHA256": {rpmutils.HASH_SHA256, 8},
	"HASH_SHA384": {rpmutils.HASH_SHA384, 9}, "HASH_SHA512": {rpmutils.HASH_SHA512, 10}, "HASH_SHA224": {rpmutils.HASH_SHA224, 11},
	"PGPHASHALGO_MD5": {rpmutils.PGPHASHALGO_MD5, 1}, "PGPHASHALGO_SHA1": {rpmutils.PGPHASHALGO_SHA1, 2}, "PGPHASHALGO_RIPEMD160": {rpmutils.PGPHASHALGO_RIPEMD160, 3},
	"PGPHASHALGO_MD2": {rpmutils.PGPHASHALGO_MD2, 5}, "PGPHASHALGO_TIGER192": {rpmutils.PGPHASHALGO_TIGER192, 6}, "PGPHASHALGO_HAVAL_5_160": {rpmutils.PGPHASHALGO_HAVAL_5_160, 7},
	"PGPHASHALGO_SHA256": {rpmutils.PGPHASHALGO_SHA256, 8}, "PGPHASHALGO_SHA384": {rpmutils.PGPHASHALGO_SHA384, 9}, "PGPHASHALGO_SHA512": {rpmutils.PGPHASHALGO_SHA512, 10},
	"PGPHASHALGO_SHA224": {rpmutils.PGPHASHALGO_SHA224, 11},
	"RPM_NULL_TYPE":      {rpmutils.RPM_NULL_TYPE, 0}, "RPM_CHAR_TYPE": {rpmutils.RPM_CHAR_TYPE, 1}, "RPM_INT8_TYPE": {rpmutils.RPM_INT8_TYPE, 2}, "RPM_INT16_TYPE": {rpmutils.RPM_INT16_TYPE, 3},
	"RPM_INT32_TYPE": {rpmutils.RPM_INT32_TYPE, 4}, "RPM_INT64_TYPE": {rpmutils.RPM_INT64_TYPE, 5}, "RPM_STRING_TYPE": {rpmutils.RPM_STRING_TYPE, 6},
	"RPM_BIN_TYPE": {rpmutils.RPM_BIN_TYPE, 7}, "RPM_STRING_ARRAY_TYPE": {rpmutils.RPM_STRING_ARRAY_TYPE, 8}, "RPM_I18NSTRING_TYPE": {rpmutils.RPM_I18NSTRING_TYPE, 9},
	"S_ISUID": {cpio.S_ISUID, 04000}, "S_ISGID": {cpio.S_ISGID, 02000}, "S_ISVTX": {cpio.S_ISVTX, 01000}, "S_ISDIR": {cpio.S_ISDIR, 0040000},
	"S_ISFIFO": {cpio.S_ISFIFO, 0010000}, "S_ISREG": {cpio.S_ISREG, 0100000}, "S_ISLNK": {cpio.S_ISLNK, 0120000}, "S_ISBLK": {cpio.S_ISBLK, 0060000},
	"S_ISCHR": {cpio.S_ISCHR, 0020000}, "S_ISSOCK": {cpio.S_ISSOCK, 0140000},
}

var hashNames = map[int]string{1: "md5", 2: "sha1", 3: "rmd160", 5: "md2", 6: "tgr192", 7: "haval5160", 8: "sha256", 9: "sha384", 10: "sha512", 11: "sha224"}

type c29Case struct {
	Tag  int  `json:"tag"` // position in namedTags
	Val  TagV `json:"val"`
	Near TagV `json:"near"` // the same number in the other header, or a neighbour
	Algo int  `json:"algo"`
}

func genC29(t *rapid.T) c29Case {
	c := c29Case{Tag: rapid.IntRange(0, len(namedTags)-1).Draw(t, "tag")}
	n := namedTags[c.Tag]
	if n.rpm == 62 {
		n = namedTags[0]
		c.Tag = 0
	}
	c.Val = genVal(t, n.rpm, false)
	c.Near = genVal(t, n.rpm+int32(rapid.SampledFrom([]int{-1, 1}).Draw(t, "near")), false)
	c.Algo = rapid.OneOf(rapid.IntRange(-3, 20), rapid.Int()).Draw(t, "algo")
	return c
}

func checkC29(k *K, c c29Case) error {
	n := namedTags[c.Tag]
	k.Label(n.name)
	k.NT()
	var p Pkg
	if n.sig {
		p.Sig.Tags = []TagV{c.Val, c.Near}
		// a recorded header digest has to be the right one
		gen := p.Build().Gen
		for i := range p.Sig.Tags {
			v := &p.Sig.Tags[i]
			var sum string
			switch v.Tag {
			case sigSHA1:
				sum = hexsum(crypto.SHA1, gen)
			case sigSHA2:
				sum = hexsum(crypto.SHA256, gen)
			default:
				continue
			}
			if v.Type == tStrArr || v.Type == tI18N {
				v.Strs = append([]S{S(sum)}, v.Strs...)
			} else {
				*v = strTag(v.Tag, sum)
			}
		}
		c.Val = p.Sig.Tags[0]
		sortTags(p.Sig.Tags)
	} else {
		if n.rpm == 1000 && c.Near.Tag < 1000 {
			c.Near.Tag = 1001
		}
		p.Gen.Tags = []TagV{c.Val, c.Near}
		sortTags(p.Gen.Tags)
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(p.Build().All))
	if err != nil {
		return errf("%s: %v", n.name, err)
	}
	if err := checkAccessors(h, n.got, &c.Val); err != nil {
		return errf("%s (%d): %v", n.name, n.got, err)
	}
	want, ok := hashNames[c.Algo]
	if !ok {
		want = "md5"
	}
	if got := rpmutils.GetFileAlgoName(c.Algo); got != want {
		return errf("GetFileAlgoName(%d) is %q instead of %q", c.Algo, got, want)
	}
	return nil
}

type c29FlagCase struct {
	Name string `json:"name"`
}

func c29Flags() (out []c29FlagCase) {
	for n := range namedFlags {
		out = append(out, c29FlagCase{n})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return
}

func checkC29Flag(k *K, c c29FlagCase) error {
	k.NT()
	if v := namedFlags[c.Name]; v[0] != v[1] {
		return errf("%s is %#x instead of %#x", c.Name, v[0], v[1])
	}
	return nil
}

// ---------------------------------------------------------------- C30

type c30Case struct {
	Pkg  SignPkg `json:"pkg"`
	Op   SignOp  `json:"op"`
	Way  int     `json:"way"` // 0-1 SignRpmFile to another/the same file, 2-3 RewriteWithSignatures likewise, 4-5 SignRpmStream with either dump
	Pgp  Blob    `json:"pgp"`
	Rsa  Blob    `json:"rsa"`
	Plan Chunks  `json:"plan"`
}

func genC30(t *rapid.T) c30Case {
	p := genSignPkg(t, 8, 300)
	if rapid.IntRange(0, 2).Draw(t, "junk") != 0 {
		// signatures that can be read
		old := p.Old
		p.Old = nil
		for _, o := range old {
			if o.Sig != nil {
				p.Old = append(p.Old, o)
			}
		}
	}
	return c30Case{Pkg: p, Op: genSignOp(t), Way: rapid.IntRange(0, 5).Draw(t, "way"), Pgp: genBlob(300).Draw(t, "pgp"), Rsa: genBlob(300).Draw(t, "rsa"), Plan: genChunks(true).Draw(t, "plan")}
}

// lasting are the parts of a description that survive being written and read
// again: everything but the region tag, which the writer adds, and the offsets.
func lasting(d []string) (out []string) {
	for _, l := range d {
		if strings.HasPrefix(l, "tag 62:") || strings.HasPrefix(l, fmt.Sprintf("tag %d:", 16384+62)) || strings.HasPrefix(l, "range ") {
			continue
		}
		out = append(out, l)
	}
	return
}

func checkC30(k *K, c c30Case) error {
	b := c.Pkg.build()
	plain, err := rpmutils.ReadHeader(bytes.NewReader(b.All))
	if err != nil {
		return errf("ReadHeader: %v", err)
	}
	want := describeHeader(plain)
	r, err := rpmutils.ReadRpm(c.Plan.reader(b.All))
	if err != nil {
		return errf("ReadRpm: %v", err)
	}
	if got := describeHeader(r.Header); !sameStrings(got, want) {
		return errf("ReadRpm and ReadHeader differ: %s", firstDiff(got, want))
	}
	vh, _, err := rpmutils.Verify(c.Plan.reader(b.All), nil)
	k.LabelIf(err == nil, "verifies")
	if err == nil {
		k.NT()
		if got := describeHeader(vh); !sameStrings(got, want) {
			return errf("Verify and ReadHeader differ: %s", firstDiff(got, want))
		}
		if got := vh.OriginalSignatureHeaderSize(); got != len(b.Lead)+len(b.Sig) {
			return errf("original size after Verify is %d instead of %d", got, len(b.Lead)+len(b.Sig))
		}
		// the two are interchangeable for writing, too
		for _, same := range []bool{false, true} {
			d1, err1 := vh.DumpSignatureHeader(same)
			d2, err2 := plain.DumpSignatureHeader(same)
			if err1 != nil || err2 != nil || !bytes.Equal(d1, d2) {
				return errf("dumps (same=%v) of the headers from Verify and ReadHeader differ (%v, %v)", same, err1, err2)
			}
		}
	}
	// a header that was returned when a package was written says what reading
	// the written package says
	dir := k.Dir()
	in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
	writeFile(in, b.All)
	if c.Way%2 == 1 {
		out = in
	}
	key := testKeys()[c.Op.Key].Priv
	var h *rpmutils.RpmHeader
	var result []byte
	k.Label([]string{"sign", "sign-same", "rewrite", "rewrite-same", "stream", "stream-same"}[c.Way])
	switch c.Way {
	case 0, 1:
		f := openFile(in)
		h, err = rpmutils.SignRpmFile(f, out, key, c.Op.options())
		f.Close()
	case 2, 3:
		f := openFile(in)
		h, err = rpmutils.RewriteWithSignatures(f, out, c.Pgp.Bytes(), c.Rsa.Bytes())
		f.Close()
	default:
		h, err = rpmutils.SignRpmStream(c.Plan.reader(b.All), key, c.Op.options())
		if err == nil {
			var d []byte
			if d, err = h.DumpSignatureHeader(c.Way == 5); err == nil {
				result = append(append([]byte(nil), d...), b.All[h.OriginalSignatureHeaderSize():]...)
			}
		}
	}
	if err != nil {
		return errf("writing: %v", err)
	}
	if result == nil {
		result = readFile(out)
	}
	again, err := rpmutils.ReadHeader(bytes.NewReader(result))
	if err != nil {
		return errf("what was written cannot be read: %v", err)
	}
	if got, now := lasting(describeHeader(h)), lasting(describeHeader(again)); !sameStrings(got, now) {
		return errf("the header returned differs from the one written: %s", firstDiff(got, now))
	}
	if got := h.GetRange(); got != plain.GetRange() || h.OriginalSignatureHeaderSize() != got.Start {
		return errf("range of the header returned is %+v instead of %+v", got, plain.GetRange())
	}
	return nil
}

// c30PayCase: one payload through every interface.
type c30PayCase struct {
	Pkg  StreamPkg `json:"pkg"`
	Plan Chunks    `json:"plan"`
}

func genC30Pay(t *rapid.T) c30PayCase {
	return c30PayCase{Pkg: genStreamPkg(t, []string{"gzip", "bzip2", "xz", "lzma", "zstd", "uncompressed", "none"}, 400), Plan: genChunks(false).Draw(t, "plan")}
}

func checkC30Pay(k *K, c c30PayCase) error {
	p := c.Pkg.Pay
	if p.Comp == "zstd" || p.Comp == "lzma" {
		c.Pkg.Pay.Members, p.Members = 1, 1
	}
	b := c.Pkg.build()
	arch, _, idx := p.archive()
	k.Label(p.Comp)
	k.LabelIf(p.Stripped, "stripped")
	k.NTIf(len(idx) > 0)
	open := func() *rpmutils.Rpm {
		r, err := rpmutils.ReadRpm(c.Plan.reader(b.All))
		if err != nil {
			harnessFail("%v", err)
		}
		return r
	}
	pr, err := open().PayloadReaderExtended()
	if err != nil {
		return errf("PayloadReaderExtended: %v", err)
	}
	var infos []rpmutils.FileInfo
	var links []bool
	var data []string
	for {
		fi, err := pr.Next()
		if err == io.EOF {
			break
		} else if err != nil {
			return errf("Next: %v", err)
		}
		d, err := io.ReadAll(pr)
		if err != nil {
			return errf("reading %s: %v", fi.Name(), err)
		}
		infos, links, data = append(infos, fi), append(links, pr.IsLink()), append(data, string(d))
	}
	// the payload reader's attributes are those of the file list
	files, err := open().Header.GetFiles()
	if err != nil {
		return errf("GetFiles: %v", err)
	}
	byName := map[string]rpmutils.FileInfo{}
	for _, f := range files {
		byName[f.Name()] = f
	}
	for _, fi := range infos {
		f := byName[fi.Name()]
		if f == nil || fmt.Sprintf("%+v", describeFile(f)) != fmt.Sprintf("%+v", describeFile(fi)) {
			return errf("file %q of the payload differs from the file list", fi.Name())
		}
	}
	if p.Stripped {
		k.Label("no archive names")
		return nil
	}
	cr, err := open().PayloadReader()
	if err != nil {
		return errf("PayloadReader: %v", err)
	}
	for i := 0; ; i++ {
		h, err := cr.Next()
		if err == io.EOF {
			if i != len(infos) {
				return errf("PayloadReader has %d members, PayloadReaderExtended %d", i, len(infos))
			}
			break
		} else if err != nil {
			return errf("PayloadReader: %v", err)
		}
		d, err := io.ReadAll(cr)
		if err != nil {
			return errf("PayloadReader: %v", err)
		}
		if i >= len(infos) || strings.TrimPrefix(h.Filename(), ".") != infos[i].Name() || string(d) != data[i] || h.Mode() != infos[i].Mode() || h.Mtime() != infos[i].Mtime() {
			return errf("member %d is %q here and another one in PayloadReaderExtended", i, h.Filename())
		}
	}
	// extraction of the package and of its archive, and what the readers said
	dir := k.Dir()
	a, e := filepath.Join(dir, "a"), filepath.Join(dir, "e")
	if err := open().ExpandPayload(e); err != nil {
		return errf("ExpandPayload: %v", err)
	}
	if err := cpio.Extract(bytes.NewReader(arch), a); err != nil {
		return errf("Extract: %v", err)
	}
	ta, te := describeTree(a), describeTree(e)
	if !sameStrings(ta, te) {
		return errf("Extract and ExpandPayload differ: %s", firstDiff(ta, te))
	}
	tree := scanTree(e, nil)
	last := map[[2]int]string{}
	for i := range infos {
		if infos[i].Mode()&0170000 == mReg && !links[i] {
			last[[2]int{infos[i].Device(), infos[i].Inode()}] = data[i]
		}
	}
	for i, fi := range infos {
		n, ok := tree[strings.TrimPrefix(fi.Name(), "/")]
		switch fi.Mode() & 0170000 {
		case mReg:
			want := data[i]
			if links[i] {
				want = last[[2]int{fi.Device(), fi.Inode()}]
			}
			if !ok || n.Type != "reg" || n.Data != want {
				return errf("%q was extracted differently from what the payload reader gives", fi.Name())
			}
		case mLnk:
			if !ok || n.Type != "link" || n.Data != fi.Linkname() || n.Data != data[i] {
				return errf("%q was extracted differently from what the payload reader gives", fi.Name())
			}
		case mDir:
			if !ok || n.Type != "dir" {
				return errf("%q was not extracted as a directory", fi.Name())
			}
		}
	}
	return nil
}

func describeFile(f rpmutils.FileInfo) []any {
	return []any{f.Name(), f.Size(), f.UserName(), f.GroupName(), f.Flags(), f.Mtime(), f.Digest(), f.Mode(), f.Linkname(), f.Device(), f.Inode()}
}

func init() {
	register("C29", "every exported tag, flag, type, mode and algorithm constant against rpm's numbers: random typed values stored under rpm's number next to a neighbour and read through the constant; digest names for random algorithm numbers; non-trivial: all", func(x *Ctx) {
		sub(x, "tags", subOpts{quick: 60000, thorough: 100000}, genC29, checkC29)
		each(x, "flags", subOpts{}, c29Flags(), checkC29Flag)
	})
	register("C30", "random signed and unsigned packages through every interface that yields a header, before and after writing, and random payloads through every interface that yields a payload; non-trivial: packages that verify, payloads with members", func(x *Ctx) {
		sub(x, "headers", subOpts{quick: 12000, thorough: 150000}, genC30, checkC30)
		sub(x, "payloads", subOpts{quick: 8000, thorough: 80000}, genC30Pay, checkC30Pay)
	})
}

var _ = os.Getpid
var _ = crypto.MD5
