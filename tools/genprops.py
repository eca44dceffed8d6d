#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], observe_at
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note))


prop("C01", "Header tags read back exactly as stored",
     "Every typed value stored under a tag in a package's signature or general header (integers of each width, strings, string arrays, byte strings, any count) is returned unchanged and in order by every accessor whose type can represent it, whatever the layout of the header. Asking for an absent tag reports that it does not exist, asking for a value as a type that cannot hold it is an error and never a truncated value, and a single-value accessor refuses a tag with any other number of values. Tag numbers select the signature or the general header by their range.",
     ["inputs", "configurations"], "every set of typed tag values, in every legal layout of both headers (order of data, gaps, regions, alignment), and every accessor",
     "The tests read a handful of real packages and look at a few tags; widths, counts, extreme values and unusual layouts are never varied.",
     ["header.go", "rpmutils.go", "tags.go", "errors.go"],
     [("index and data parsing", "header.go readHeader"), ("typed accessors", "header.go getInts/GetInts/GetUint32s/GetUint64s/GetStrings/GetBytes"), ("signature/general tag routing", "rpmutils.go getHeader")],
     ["RpmHeader.Get*, HasTag"], "property-based testing: independent encoder as the model, round-trip through every accessor",
     "Random headers up to 20 or so tags per header; trusts the independent encoder.")

prop("C02", "Headers end where the payload begins",
     "Reading a package's headers consumes exactly the lead, the signature header with its padding and the general header, so the stream is left at the first byte of the payload. The reported header range equals those offsets for every length of either header.",
     ["inputs"], "every pair of header lengths (all residues of the 8-byte alignment), every payload and every way the stream is chunked",
     "The tests use a few packages whose alignment happens to be what it is; an off-by-padding error shows only for some lengths.",
     ["rpmutils.go", "header.go"], [("signature header padding", "header.go readHeader"), ("range computation", "rpmutils.go GetRange")],
     ["RpmHeader.GetRange, position of the stream after ReadHeader/ReadRpm"], "property-based testing: exact stream position against the encoder's offsets",
     "Random lengths; exhaustive over residues in practice because thousands of cases are drawn.")

prop("C03", "Malformed headers are refused, never crash or exhaust memory",
     "For any byte stream whatever, reading headers, verifying, signing and every accessor on what was read terminate with a result or an error: they neither crash nor use memory out of proportion to the bytes supplied. A header whose magic is wrong, which is cut short, or which has an entry that lies outside its data or holds an unterminated string is refused with an error. Where a damaged header is still accepted, well-formed entries keep their stored values.",
     ["inputs"], "every byte string, in particular every package with damaged counts, offsets, types, sizes, magics, truncations and random edits",
     "The tests contain no malformed header at all.",
     ["header.go", "rpmutils.go", "verify_digests.go"], [("entry bounds checks", "header.go readHeader"), ("bounded reads", "header.go readExact"), ("length checks on parallel arrays", "header.go GetFiles/GetNEVRA")],
     ["ReadHeader, Verify, SignRpmStream, accessors"], "structured fuzzing with a differential reference parser, allocation accounting",
     "Mutation of valid packages plus arbitrary bytes; the allocation bound is 64 bytes per input byte plus 1 MiB.")

prop("C04", "A recorded header digest is enforced",
     "If a package's signature header records a SHA-256 digest, or failing that a SHA-1 digest, of the general header, then reading, verifying and signing the package succeed only if the general header's bytes have that digest. Any alteration of the general header or of the recorded digest makes them fail.",
     ["inputs"], "every package, every single-bit alteration of its general header, every wrong digest of any length, and both digest types present or absent",
     "The tests only read intact packages.",
     ["header.go", "signatures.go"], [("digest selection", "signatures.go getHashAndType"), ("digest comparison", "header.go readHeader")],
     ["errors of ReadHeader, Verify, SignRpmStream"], "property-based testing with injected corruption; independent digest as oracle",
     "If SHA-256 is right and SHA-1 wrong, either outcome is accepted.")

prop("C05", "The file list matches the recorded attributes",
     "The list of files of a package has one element per recorded file, in order, with exactly the recorded name, size, owner, group, flags, modification time, digest, mode, link target, device and inode, whether names are stored whole or split into directories and base names and whether sizes are stored with 32 or 64 bits. A package without files has an empty list, and a list whose attribute arrays are missing, too short or refer to a directory that does not exist is an error.",
     ["inputs", "configurations"], "every file list and every encoding of it, and every inconsistent variant",
     "The tests check the first few files of two packages.",
     ["header.go", "fileinfo.go"], [("name splicing", "header.go GetStrings"), ("parallel arrays", "header.go GetFiles")],
     ["GetFiles, GetStrings(OLDFILENAMES)"], "property-based testing against an independent encoder; mutation of array lengths",
     "Missing device and inode arrays read as zero.")

prop("C06", "Package identity and sizes are reported as recorded",
     "The name, epoch, version, release and architecture reported for a package are those recorded, a missing epoch counts as 0, and a missing name, version, release or architecture is an error. Installed size and payload size are the 64-bit record if there is one and the 32-bit record otherwise; the source flag is the lead's.",
     ["inputs"], "every combination of identity values, optional tags and sizes over their full ranges",
     "The tests compare two packages with small sizes and no epoch overflow.",
     ["header.go", "rpmutils.go", "nevra.go"], [("identity", "header.go GetNEVRA"), ("64-bit fallback", "rpmutils.go GetUint64Fallback/InstalledSize/PayloadSize")],
     ["GetNEVRA, NEVRA.String, InstalledSize, PayloadSize, IsSource"], "property-based testing against an independent encoder", "")

prop("C07", "A freshly signed package verifies with its key, and only that",
     "Whatever package can be signed, whichever supported key and options are used, and through whichever signing interface, the result carries a signature over the header and one over header and payload that verify with the signer's public key in this library and in an independent OpenPGP implementation of the same file layout. With a key ring that lacks the signer, verification reports the missing key; options left unset take their documented defaults. A key that cannot sign or a hash that cannot be used is reported as an error.",
     ["inputs", "configurations", "histories"], "every package, key type (RSA, DSA, ECDSA, EdDSA), hash, creation time and history of earlier signatures",
     "The tests sign two packages with one key and default options.",
     ["signatures.go", "verify.go", "verify_digests.go", "verify_v4.go", "writeheader.go"], [("signature construction", "signatures.go makeSignature/insertSignatures"), ("verification", "verify_digests.go digestAndVerify")],
     ["SignRpmStream/SignRpmFile output, Verify"], "property-based testing: sign/verify round-trip, differential against direct OpenPGP verification over independently parsed bytes",
     "Cryptography of ProtonMail/go-crypto is trusted; SHA-1 signatures are not generated.")

prop("C08", "Signing changes signatures only",
     "However often a package is signed, re-signed or given raw signatures, its lead, general header and payload keep every byte and every entry of the signature header other than the signatures and reserved space keeps its type, count and value. Afterwards exactly one signature over header and payload and one over the header remain, both by the last signer, and the result is again a well-formed package.",
     ["histories", "inputs"], "every package and every sequence of signing operations on it",
     "The tests sign once and re-verify; they never compare the remaining entries.",
     ["signatures.go", "writeheader.go"], [("header rewriting", "writeheader.go WriteTo"), ("signature replacement", "signatures.go insertSignatures/writeRpm")],
     ["bytes of the output, parsed independently"], "stateful property-based testing: random histories against an independent parser",
     "")

prop("C09", "Tampering with signed content is detected",
     "After any change to the bytes covered by a package's signatures (general header or payload), to a signature itself or to the package's recorded digests, verifying against the signer's key never reports success. Likewise a key other than the signer's is never accepted.",
     ["inputs"], "every signed package and every single-byte change, truncation, extension or swap of covered parts",
     "The only negative test is a package that has been damaged in one place.",
     ["verify.go", "verify_digests.go", "verify_v4.go", "header.go"], [("digest coverage", "verify_digests.go digestAndVerify"), ("key selection", "verify_v4.go findKey")],
     ["Verify"], "property-based testing with injected tampering at random positions and at every position of small packages", "")

prop("C10", "The payload digest policy is enforced",
     "Verifying or signing a package succeeds only if its payload matches the digest recorded in the general header or, if that records none that can be used, if header and payload match the MD5 recorded in the signature header. A package with neither is refused.",
     ["inputs", "configurations"], "every combination of recorded digests and algorithms, right and wrong, and every payload",
     "The tests cover intact packages with one algorithm.",
     ["verify_digests.go", "signatures.go"], [("digest choice", "signatures.go getPayloadDigest"), ("comparison", "verify_digests.go digestPayload")],
     ["Verify, SignRpmStream, SignRpmFile"], "property-based testing: decision table over all digest combinations with independent digests", "")

prop("C11", "Dumped signature headers can replace the original in place",
     "The dumped lead and signature header of a package, put in place of the original's, give a well-formed package with the same general header, payload and signature entries. When the same size is asked for and the entries fit, the dump has exactly the original's size and the original size reported is the number of bytes it replaces; otherwise it carries no padding beyond the format's alignment.",
     ["inputs", "histories"], "every signature header size relative to the space available, including every boundary, and repeated dumps",
     "One test signs one package with room to spare.",
     ["writeheader.go"], [("padding", "writeheader.go DumpSignatureHeader"), ("size computation", "writeheader.go size")],
     ["DumpSignatureHeader, OriginalSignatureHeaderSize"], "property-based testing around the size boundaries with an independent parser", "")

prop("C12", "A failed signing run leaves no damage and is reported",
     "If anything goes wrong while a package is being signed into a file (a write, close, rename or open that fails at any byte, an unusable input), an error is reported, the destination holds what it held before and no temporary file is left behind; a run that reports success has written the complete package. If the process dies at any point, the destination holds what it held before or the complete package. Where a package is signed in place without changing size, a failure may at most affect the signature header.",
     ["fault_sequences", "crash_points", "inputs"], "every fault of the underlying file system at every point of the write",
     "The tests inject no faults.",
     ["signatures.go"], [("write-rename with clean-up", "signatures.go rewriteRpm"), ("in-place update", "signatures.go writeInPlace")],
     ["file system after SignRpmFile/RewriteWithSignatures"], "fault injection driven by generated cases (every system call refused or fatal in turn, file size limit at every byte, full device, refused rename, broken pipes, no descriptors)", "Power loss is not simulated: the code makes no durability promise (no fsync). An output that is neither absent nor a regular file nor a link to the input (a pipe, a device, a link to another file) is written directly; for a link to another file this is a known finding.")

prop("C13", "Signing onto any path affects exactly that path",
     "Whatever the relation between input and output path (same file, hard link, symbolic link to either, another existing file, new file, FIFO, standard output), signing puts the complete signed package at the output and leaves every other name in the file system with the contents and kind it had; a file it creates can be read by everyone. Repeated signings compose.",
     ["histories", "configurations"], "every directory of files, hard links, symbolic links and FIFOs and every sequence of signings between names in it",
     "The tests sign into a new file and onto the input.",
     ["signatures.go", "fileutil/fileutil_unix.go"], [("overwrite decision", "signatures.go canOverwrite/rewriteRpm"), ("link detection", "fileutil/fileutil_unix.go HasLinks")],
     ["directory contents after each step"], "stateful model-based testing against a model of the directory", "Other hard links of a file written through a symbolic link may keep either contents.")

prop("C14", "newc archives are read exactly",
     "Reading a newc cpio archive yields every member up to the trailer, in order, with all header fields and the exact contents, and then a clean end, regardless of how the stream is chunked, what buffers the caller uses, which members it reads fully, partly or not at all, and what follows the trailer.",
     ["inputs", "schedules", "histories"], "every archive, every chunking of the stream and every sequence of reads and skips",
     "The tests read one small archive in one way.",
     ["cpio/header.go", "cpio/cpio.go", "cpio/reader.go", "cpio/stream.go"], [("header fields", "cpio/header.go readHeader"), ("skipping and padding", "cpio/cpio.go ReadNextEntry"), ("member reads", "cpio/stream.go Read")],
     ["cpio.Reader, cpio.CpioStream"], "model-based testing with an independent archive writer and random read plans", "")

prop("C15", "Payload contents are matched to the right file",
     "Going through a package's payload yields, for each archived file, that file's recorded attributes and its own contents, for ordinary and for stripped archives alike; all but the last archived name of a hard-linked file are flagged as links without contents. A member that the header does not describe is an error and never attributed to another file.",
     ["inputs", "histories"], "every file list with hard-link groups, ghosts and every file type, both archive formats, every read plan",
     "Two packages are read in one way; hard links and stripped archives come from one fixture each.",
     ["payload.go", "cpio/cpio.go"], [("name and index mapping", "payload.go Next"), ("hard-link sizes", "payload.go newPayloadReader"), ("stripped entries", "cpio/cpio.go readStrippedEntry")],
     ["PayloadReaderExtended"], "model-based testing with an independent package writer", "Devices other than hard-linked regular files are compared by attributes only.")

prop("C16", "A truncated payload never reads as complete",
     "If a package or archive ends anywhere before the end of its archive, reading it through any interface or extracting it reports an error: the end of the stream is never taken for the end of the archive or of a file. Everything handed out as complete before the error is right.",
     ["inputs", "crash_points"], "every archive and every cut position, for each compressor",
     "No test truncates anything.",
     ["cpio/cpio.go", "cpio/stream.go", "cpio/reader.go", "cpio/extract.go", "payload.go", "uncompress.go"], [("short reads", "cpio/stream.go Read"), ("missing trailer", "cpio/reader.go Next")],
     ["cpio.Reader, PayloadReaderExtended, ExpandPayload"], "fault injection: generated archives cut at random and at every offset", "A cut of a compressed stream behind everything the archive needs may go unnoticed if all members are right.")

prop("C17", "Damaged archives are refused, never crash or exhaust memory",
     "For any byte stream, any table of file sizes and any order of calls (reading before the first member, after the last one, past an error), reading or extracting a cpio archive terminates without a crash and without memory out of proportion to the input. An archive with a wrong magic, a field that is not an unsigned hexadecimal number, an impossible name or a missing part is an error; members of well-formed parts keep their values.",
     ["inputs"], "every byte string, in particular every archive with damaged fields, insertions and deletions, and every size table",
     "No test reads a damaged archive.",
     ["cpio/header.go", "cpio/cpio.go", "cpio/extract.go"], [("field parsing", "cpio/header.go Read16"), ("size checks", "cpio/cpio.go readStrippedEntry, Seek")],
     ["cpio.Reader, cpio.CpioStream, cpio.Extract"], "structured fuzzing with a differential reference reader, allocation accounting", "")

prop("C18", "Extraction reproduces the archive",
     "Names are taken relative to the destination, leading .. dropped. After a successful extraction the destination holds exactly the archive's directories, regular files with their contents, symbolic links with their targets and FIFOs (new directories and FIFOs with the recorded permissions, less the umask), and all names of a hard-linked file in the archive, empty or not, whichever of them has the contents, are links to one file. If the destination cannot take an entry because something is in its place that cannot be replaced, extraction reports an error. This holds for a destination given in any form (relative, absolute, the current directory) and for a destination that already holds an earlier extraction or other files, which are kept unless replaced.",
     ["inputs", "histories", "configurations"], "every archive of these file types, every form of the destination and every prior state of it",
     "One archive is extracted to one directory, and only the absence of an error is checked.",
     ["cpio/extract.go", "rpmutils.go"], [("entry creation", "cpio/extract.go Extract"), ("hard links", "cpio/extract.go links/makeLinks")],
     ["file system after Extract/ExpandPayload"], "stateful model-based testing against a model of the file tree", "Permissions of regular files, ownership, times and device nodes are not reproduced by design. Directories that are to be filled are generated with owner access.")

prop("C19", "Extraction never touches anything outside the destination",
     "Whatever an archive contains (names with .. or absolute names, symbolic links followed by members named through or as them, FIFOs, hard links, repeated names) and whatever already lies in the destination, extracting creates, changes and removes nothing outside the destination directory.",
     ["inputs", "histories"], "every archive, hostile ones included, and every prior state of the destination",
     "One test extracts one archive with a single ../ name.",
     ["cpio/extract.go"], [("path sanitizing", "cpio/extract.go Extract"), ("symlink containment", "cpio/extract.go makeParent/prepareOverwrite")],
     ["snapshot of the surroundings of the destination"], "generated hostile archives run as an unprivileged user inside a scratch tree; snapshot comparison", "No concurrent modification of the destination during extraction.")

prop("C20", "Every payload compressor yields the same payload",
     "A payload compressed with any supported compressor (gzip, bzip2, xz, lzma, zstd, none) in any legal form reads exactly like the uncompressed payload, whether announced in the header or, for gzip and none, found by inspection, and in builds with and without cgo alike. An unknown compressor or payload format is an error.",
     ["inputs", "configurations"], "every payload, compressor, encoding parameters, number of concatenated streams and build configuration",
     "One tiny package per compressor is read.",
     ["uncompress.go", "uncompress_cgo.go", "uncompress_nocgo.go"], [("compressor dispatch and sniffing", "uncompress.go uncompressRpmPayloadReader")],
     ["PayloadReader, PayloadReaderExtended, ExpandPayload"], "metamorphic property-based testing across compressors, external compressors and both builds", "Streams are produced by Go encoders, an own bzip2 encoder and the xz, bzip2, gzip and zstd programs. Several zstd frames in one payload fail in cgo builds: known finding.")

prop("C21", "Versions are ordered as rpm orders them",
     "Comparing any two version strings gives the result of rpm's version comparison: separators, numeric and alphabetic segments, leading zeros, tilde and caret included, for strings of any bytes.",
     ["inputs"], "every pair of strings without NUL",
     "A table of about forty pairs.",
     ["vercmp.go"], [("segment comparison", "vercmp.go Vercmp")],
     ["Vercmp"], "differential testing against an independent rpmvercmp, exhaustive over short strings of a small alphabet", "The reference is a transcription of rpm's published algorithm.")

prop("C22", "Version and package orders are consistent and sorting obeys them",
     "Version comparison is an order: swapping the arguments negates the result, equal versions are interchangeable, and it is transitive where rpm's is. Packages compare by epoch, then version, then release only, and sorting a list of versions or packages gives a permutation of it in that order.",
     ["inputs"], "every triple of versions and every list of versions or packages",
     "The tests compare fixed pairs.",
     ["vercmp.go", "nevra.go"], [("order", "vercmp.go Vercmp"), ("lexicographic identity order", "nevra.go NEVRAcmp"), ("sort interfaces", "vercmp.go VersionSlice, nevra.go NEVRASlice")],
     ["Vercmp, NEVRAcmp, NEVRASlice.Sort, sort.Sort(VersionSlice)"], "property-based testing of order laws and sorting", "")

prop("C23", "Results do not depend on how a stream delivers its bytes",
     "Reading headers, verifying, signing a stream, reading a payload and extracting give identical results and errors of the same kind for every legal way the input stream divides its bytes between reads, including single bytes, empty reads and an end reported together with the last bytes.",
     ["schedules", "inputs"], "every package, intact or damaged, every chunking and every operation",
     "One test uses a reader that halves reads, on one archive.",
     ["header.go", "rpmutils.go", "verify.go", "signatures.go", "cpio/cpio.go", "cpio/stream.go", "cpio/extract.go", "uncompress.go"], [("full reads", "header.go readExact"), ("member reads", "cpio/stream.go Read"), ("symlink targets", "cpio/extract.go Extract")],
     ["all stream-consuming operations"], "metamorphic property-based testing: same input under different chunkings", "")

prop("C24", "I/O errors of the input stream are never swallowed",
     "If the input stream fails at any offset before an operation has all it needs, then reading headers, verifying, signing, reading a payload or extracting reports an error and never a success or a clean end; where the operation needed only the bytes before the failure it may succeed with the right result.",
     ["fault_sequences", "inputs"], "every package, every operation and every offset at which the stream can fail",
     "No test injects a read error.",
     ["header.go", "rpmutils.go", "verify_digests.go", "signatures.go", "cpio/cpio.go", "cpio/stream.go", "cpio/extract.go", "payload.go"], [("error propagation", "all callers of Read")],
     ["errors of all stream-consuming operations"], "fault injection: stream failing at random and at every offset of generated packages", "")

prop("C25", "Huge files are handled exactly and in bounded memory",
     "Files larger than 4 GiB in stripped archives, and files of any size newc can record, are read and skipped exactly: sizes are reported in full, members behind them are found, and memory does not grow with the size of the file. Neither does the memory used to read the headers of, verify or sign a package grow with the size of its payload.",
     ["inputs"], "every combination of sizes beyond 2 and 4 GiB, positions and read plans",
     "No fixture is larger than a few kilobytes.",
     ["cpio/cpio.go", "cpio/stream.go", "payload.go", "header.go"], [("64-bit positions", "cpio/cpio.go nextPos/pad64"), ("sizes from the header", "payload.go newPayloadReader")],
     ["PayloadReaderExtended, cpio.Reader, Verify, SignRpmStream, SignRpmFile"], "property-based testing with synthetic streams of many GiB generated on the fly", "The number of huge cases per run is small because each takes seconds of streaming.")

prop("C26", "No goroutine or file descriptor outlives an operation",
     "Once Next of a payload reader has reported the end of the archive or that the archive cannot be read on, or header reading, verification, extraction or signing has returned, with or without an error, no goroutine started and no file opened by the library is left, and the stream or file the caller gave is still open.",
     ["histories", "fault_sequences"], "every package, compressor, damage and destination state",
     "A leak detector runs over six intact fixtures.",
     ["payload.go", "rpmutils.go", "uncompress.go", "uncompress_nocgo.go", "cpio/extract.go", "signatures.go"], [("closing decompressors", "payload.go Next, rpmutils.go ExpandPayload"), ("closing files", "cpio/extract.go Extract, signatures.go rewriteRpm")],
     ["/proc/self/fd, goroutine count"], "property-based testing with descriptor and goroutine accounting after every case", "A payload abandoned half-way has no close operation; nothing is claimed for it.")

prop("C27", "Independent packages can be processed concurrently",
     "Operations on different packages that run at the same time give the same results as when run one after the other, and accessors of one header may be used from several goroutines at once.",
     ["schedules", "inputs"], "every set of packages, operations and interleavings",
     "All tests are sequential.",
     ["header.go", "rpmutils.go", "verify.go", "signatures.go", "payload.go", "cpio/extract.go"], [("no shared mutable state", "package-level variables of all files")],
     ["results of concurrent operations, race detector"], "generated concurrent workloads compared with sequential runs, under the race detector", "Interleavings are those the scheduler produces.")

prop("C28", "Verification reports who signed, when and how",
     "For every signature found, verification reports its hash algorithm, creation time, whether it covers the payload, and the key ID and fingerprint of the key that made it, be it a primary key or a subkey, and when that key is known, its owner. Without keys only what the signature itself states is reported.",
     ["inputs", "configurations"], "every signature by every kind of key with every combination of recorded issuer information",
     "The tests look at one signature's key ID.",
     ["verify_v4.go", "verify.go", "verify_digests.go"], [("metadata", "verify_v4.go parseSignatureV4/setEntity")],
     ["Signature returned by Verify"], "property-based testing with independently built signature packets", "")

prop("C29", "Named tags, flags and algorithms have rpm's numbers",
     "A value that rpm's packages store under a tag is found under the library's constant of that name, and under no other; flags, data types, file modes and digest algorithms have rpm's numbers. The name given for a file digest algorithm is that of the algorithm with that number, and md5, the historical default, for any other number.",
     ["inputs", "configurations"], "every exported constant, every type of value stored under its number, and every algorithm number",
     "The tests use a handful of the constants and compare the library with itself.",
     ["tags.go", "filesigs.go", "rpmutils.go"], [("tag numbers", "tags.go"), ("signature/general tag routing", "rpmutils.go getHeader"), ("algorithm names", "filesigs.go GetFileAlgoName")],
     ["constants, RpmHeader accessors, GetFileAlgoName"], "property-based testing with an independent encoder and rpm's numbers; constants are enumerated",
     "Constants that rpm itself does not define or store (TRIGGERPREIN, RPMFILE_EXCLUDE, RPMFILE_UNPATCHED, RPMFILE_POLICY) are left out.")

prop("C30", "All interfaces to a package agree",
     "The header obtained by reading, opening, verifying or signing one package says the same through every accessor, and can be written alike; the header returned by a signing interface says what reading the package it wrote says, with the ranges of the package that was read. The contents of a payload are the same through the archive reader, the payload reader and extraction, and the attributes the payload reader gives are those of the file list.",
     ["inputs", "configurations"], "every package, signed or not, every signing interface and option, and every payload and compressor",
     "The tests use one interface per package and never compare two.",
     ["rpmutils.go", "verify.go", "signatures.go", "payload.go", "cpio/extract.go"], [("headers built in several places", "rpmutils.go ReadHeader, verify.go Verify, signatures.go SignRpmStream"), ("two payload readers", "rpmutils.go PayloadReader/PayloadReaderExtended"), ("extraction", "rpmutils.go ExpandPayload")],
     ["RpmHeader accessors, PayloadReader, PayloadReaderExtended, ExpandPayload"], "property-based differential testing of the interfaces against each other", "")

prop("C31", "A failed extraction is reported",
     "Whatever file system call fails while an archive is extracted (looking up, creating, opening, writing, closing, linking or removing a file, or writing at any byte of it), extraction either still produces the very tree it would have produced, or reports an error. Success is never reported for an incomplete tree, and no such failure makes extraction touch anything outside of the destination.",
     ["fault_sequences", "inputs"], "every archive, every prior state of the destination and every call that may fail",
     "The tests inject no faults.",
     ["cpio/extract.go", "rpmutils.go"], [("every call checked", "cpio/extract.go Extract"), ("links made last", "cpio/extract.go makeLinks"), ("parents", "cpio/extract.go makeParent")],
     ["file system and result of Extract/ExpandPayload"], "fault injection at every intercepted system call of generated extractions, against the run without a fault", "One fault per extraction.")

FAULT = {"C12", "C16", "C24", "C31"}
PENDING = set(sys.argv[1:])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
         notes="Every check builds its harness (with and without cgo) from /repo's working tree and runs generated cases as an unprivileged user; no hooks in /repo are needed. See DESIGN.md.")
for p in P:
    if p["id"] in PENDING:
        m["not_applicable"].append(dict(property=p["id"], reason="not built yet"))
        continue
    lvl = "fault_enumeration" if p["id"] in FAULT else "exploration"
    note = "Generated-input search: evidence over the cases run, not a proof; trusts the independent encoders, parsers and models in /verif/harness."
    if p["note"]:
        note += " " + p["note"]
    m["checks"].append(dict(property=p["id"], quick_cmd="./check.py %s --tier quick" % p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"],
                            technique=p["tech"], level=lvl, level_note=note))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
