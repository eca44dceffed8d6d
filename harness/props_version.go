package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"pgregory.net/rapid"
)

// refVercmp is rpm's rpmvercmp(), carried over from its C source line by line.
func refVercmp(a, b string) int {
	at := func(s string, i int) byte {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	alpha := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	sep := func(c byte) bool { return c != 0 && !digit(c) && !alpha(c) && c != '~' && c != '^' }
	i, j := 0, 0
	for at(a, i) != 0 || at(b, j) != 0 {
		for sep(at(a, i)) {
			i++
		}
		for sep(at(b, j)) {
			j++
		}
		one, two := at(a, i), at(b, j)
		if one == '~' || two == '~' {
			if one != '~' {
				return 1
			}
			if two != '~' {
				return -1
			}
			i++
			j++
			continue
		}
		if one == '^' || two == '^' {
			if one == 0 {
				return -1
			}
			if two == 0 {
				return 1
			}
			if one != '^' {
				return 1
			}
			if two != '^' {
				return -1
			}
			i++
			j++
			continue
		}
		if one == 0 || two == 0 {
			break
		}
		p, q := i, j
		isnum := digit(one)
		class := alpha
		if isnum {
			class = digit
		}
		for class(at(a, p)) {
			p++
		}
		for class(at(b, q)) {
			q++
		}
		if j == q {
			if isnum {
				return 1
			}
			return -1
		}
		s1, s2 := a[i:p], b[j:q]
		if isnum {
			s1 = strings.TrimLeft(s1, "0")
			s2 = strings.TrimLeft(s2, "0")
			if len(s1) != len(s2) {
				if len(s1) > len(s2) {
					return 1
				}
				return -1
			}
		}
		if c := strings.Compare(s1, s2); c != 0 {
			return c
		}
		i, j = p, q
	}
	switch {
	case at(a, i) == 0 && at(b, j) == 0:
		return 0
	case at(a, i) != 0:
		return 1
	}
	return -1
}

// genVersion draws version strings with a bias to the shapes that matter.
func genVersion(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "vkind") {
	case 0:
		return strings.ReplaceAll(string(rapid.SliceOfN(rapid.ByteRange(1, 255), 0, 10).Draw(t, "raw")), "\x00", "x")
	case 1:
		return rapid.StringMatching(`[01ab.~^_-]{0,8}`).Draw(t, "small")
	case 2:
		return rapid.StringMatching(`[0-9]{1,3}(\.[0-9]{1,3}){0,3}`).Draw(t, "plain")
	case 3:
		return rapid.StringMatching(`0{0,3}[0-9]{15,25}`).Draw(t, "long")
	case 4:
		return rapid.StringMatching(`[0-9]\.[0-9](~(rc|beta)?[0-9]?|\^(git|2024)?[0-9a-f]{0,4}){0,2}`).Draw(t, "pre")
	case 5:
		return rapid.StringMatching(`[a-zA-Z]{0,3}[0-9]{0,2}[a-zA-Z]{0,2}[._+-]?[0-9a-z]{0,3}`).Draw(t, "mixed")
	case 6:
		return rapid.SampledFrom([]string{"", "~", "^", "~~", "^^", "~^", "^~", ".", "..", "0", "00", "a", "A", "1.", ".1", "1~", "1^", "é", "1é2", "\n", "1\n2", "1\r", "１", "\xff", "1\xff~", "1.0\n~a"}).Draw(t, "special")
	case 7: // long runs, and many of them
		return rapid.StringMatching(`[0-9a-zA-Z]{0,2}([a-zA-Z]{5,40}|[0-9]{10,60}|(abc|Alpha|RC)[0-9]{1,3}|[.]{1,20}|[~^][a-z]{0,12}){1,4}`).Draw(t, "runs")
	case 8:
		return rapid.StringMatching(`([0-9]{1,4}[.]){4,20}[0-9a-z]{1,8}`).Draw(t, "many")
	default:
		return rapid.StringOf(rapid.SampledFrom([]rune("0019azAZ.~^-\n+é"))).Draw(t, "any")
	}
}

// genVersionNear changes one version a little.
func genVersionNear(t *rapid.T, v string) string {
	switch rapid.IntRange(0, 8).Draw(t, "near") {
	case 0:
		return genVersion(t)
	case 1:
		return v
	case 2: // insert
		i := rapid.IntRange(0, len(v)).Draw(t, "at")
		return v[:i] + rapid.SampledFrom([]string{"0", "1", "a", "Z", ".", "~", "^", "-", "\n", "\xc3"}).Draw(t, "ins") + v[i:]
	case 3: // remove
		if v == "" {
			return v
		}
		i := rapid.IntRange(0, len(v)-1).Draw(t, "at")
		return v[:i] + v[i+1:]
	case 4: // append
		return v + genVersion(t)
	case 5: // replace
		if v == "" {
			return v
		}
		i := rapid.IntRange(0, len(v)-1).Draw(t, "at")
		return v[:i] + rapid.SampledFrom([]string{"0", "9", "a", "A", "z", ".", "~", "^", "_"}).Draw(t, "rep") + v[i+1:]
	case 6: // the other case, of one letter or all
		if rapid.Bool().Draw(t, "all") {
			return []string{strings.ToUpper(v), strings.ToLower(v)}[rapid.IntRange(0, 1).Draw(t, "upper")]
		}
		for i, at := 0, rapid.IntRange(0, 60).Draw(t, "at"); i < len(v); i++ {
			if j := (at + i) % len(v); v[j]|0x20 >= 'a' && v[j]|0x20 <= 'z' {
				return v[:j] + string(rune(v[j]^0x20)) + v[j+1:]
			}
		}
		return v
	case 7: // one number goes up or down, or a segment gets longer
		b := []byte(v)
		for i, at := 0, rapid.IntRange(0, 60).Draw(t, "at"); i < len(b); i++ {
			if j := (at + i) % len(b); b[j] >= '0' && b[j] <= '9' {
				b[j] = byte(rapid.IntRange('0', '9').Draw(t, "digit"))
				break
			}
		}
		return string(b)
	default: // cut
		return v[:rapid.IntRange(0, len(v)).Draw(t, "cut")]
	}
}

type c21Case struct {
	A S `json:"a"`
	B S `json:"b"`
}

func genC21(t *rapid.T) c21Case {
	a := genVersion(t)
	return c21Case{S(a), S(genVersionNear(t, a))}
}

func checkC21(k *K, c c21Case) error {
	want := refVercmp(string(c.A), string(c.B))
	if got := rpmutils.Vercmp(string(c.A), string(c.B)); got != want {
		return errf("Vercmp(%q, %q) = %d, rpm gives %d", c.A, c.B, got, want)
	}
	k.Label(fmt.Sprintf("result %d", want))
	k.LabelIf(strings.ContainsAny(string(c.A+c.B), "~^"), "tilde or caret")
	k.NTIf(c.A != c.B && c.A != "" && c.B != "")
	return nil
}

// smallVersions lists every string over the alphabet up to a length.
func smallVersions(alphabet string, n int) []string {
	out := []string{""}
	for i := 0; i < len(out); i++ {
		if len(out[i]) < n {
			for _, r := range []byte(alphabet) {
				out = append(out, out[i]+string([]byte{r}))
			}
		}
	}
	return out
}

type c21AllCase struct {
	A        S   `json:"a"`
	Alphabet S   `json:"alphabet"`
	Len      int `json:"len"`
}

func checkC21All(k *K, c c21AllCase) error {
	k.NTIf(c.A != "")
	for _, b := range smallVersions(string(c.Alphabet), c.Len) {
		if err := checkC21(&K{}, c21Case{c.A, S(b)}); err != nil {
			return err
		}
	}
	return nil
}

func c21All(alphabet string, n int) []c21AllCase {
	var out []c21AllCase
	for _, a := range smallVersions(alphabet, n) {
		out = append(out, c21AllCase{S(a), S(alphabet), n})
	}
	return out
}

// ---------------------------------------------------------------- C22

type c22Case struct {
	V []S `json:"v"`
}

func genC22(t *rapid.T) c22Case {
	var c c22Case
	n := rapid.IntRange(3, 7).Draw(t, "n")
	v := genVersion(t)
	for i := 0; i < n; i++ {
		c.V = append(c.V, S(v))
		v = genVersionNear(t, v)
	}
	return c
}

func checkC22(k *K, c c22Case) error {
	cmp := func(i, j int) int { return rpmutils.Vercmp(string(c.V[i]), string(c.V[j])) }
	n := len(c.V)
	distinct := 0
	for i := 0; i < n; i++ {
		if r := cmp(i, i); r != 0 {
			return errf("Vercmp(%q, itself) = %d", c.V[i], r)
		}
		for j := 0; j < n; j++ {
			ab := cmp(i, j)
			if ab < -1 || ab > 1 {
				return errf("Vercmp(%q, %q) = %d", c.V[i], c.V[j], ab)
			}
			if ba := cmp(j, i); ab != -ba {
				return errf("Vercmp(%q, %q) = %d but reversed %d", c.V[i], c.V[j], ab, ba)
			}
			if ab < 0 {
				distinct++
			}
			for l := 0; l < n; l++ {
				bc, ac := cmp(j, l), cmp(i, l)
				if ab <= 0 && bc <= 0 && (ac > 0 || ac == 0 && (ab < 0 || bc < 0)) {
					return errf("not transitive: %q %q %q: %d %d %d", c.V[i], c.V[j], c.V[l], ab, bc, ac)
				}
			}
		}
	}
	k.NTIf(distinct >= 3)
	// sorting
	in := make([]string, n)
	for i := range in {
		in[i] = string(c.V[i])
	}
	got := append([]string(nil), in...)
	sort.Sort(rpmutils.VersionSlice(got))
	if err := samePermutation(in, got); err != nil {
		return err
	}
	for i := 1; i < n; i++ {
		if rpmutils.Vercmp(got[i-1], got[i]) > 0 || refVercmp(got[i-1], got[i]) > 0 {
			return errf("sorted to %q: %q before %q", got, got[i-1], got[i])
		}
	}
	return nil
}

func samePermutation(a, b []string) error {
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	if !sameStrings(x, y) {
		return errf("sorting %q gave %q", a, b)
	}
	return nil
}

type c22NEVRACase struct {
	P []NEVRASpec `json:"p"`
}

type NEVRASpec struct{ N, E, V, R, A S }

func (n NEVRASpec) nevra() rpmutils.NEVRA {
	return rpmutils.NEVRA{Name: string(n.N), Epoch: string(n.E), Version: string(n.V), Release: string(n.R), Arch: string(n.A)}
}

func genC22NEVRA(t *rapid.T) c22NEVRACase {
	var c c22NEVRACase
	n := rapid.IntRange(2, 12).Draw(t, "n")
	vers := []S{S(genVersion(t))}
	for i := 0; i < 3; i++ {
		vers = append(vers, S(genVersionNear(t, string(vers[i]))))
	}
	for i := 0; i < n; i++ {
		e := rapid.SampledFrom([]S{"0", "0", "1", "2", "9", "10", "11", "100", "99", "4294967295", "007"}).Draw(t, "epoch")
		c.P = append(c.P, NEVRASpec{
			N: S(rapid.StringMatching(`[a-c]{1,2}`).Draw(t, "name")), E: e,
			V: rapid.SampledFrom(vers).Draw(t, "version"), R: rapid.SampledFrom(vers).Draw(t, "release"),
			A: S(rapid.SampledFrom([]string{"noarch", "x86_64", "i686", ""}).Draw(t, "arch"))})
	}
	return c
}

func refNEVRA(a, b NEVRASpec) int {
	x, _ := new(big.Int).SetString(string(a.E), 10)
	y, _ := new(big.Int).SetString(string(b.E), 10)
	if r := x.Cmp(y); r != 0 {
		return r
	}
	if r := refVercmp(string(a.V), string(b.V)); r != 0 {
		return r
	}
	return refVercmp(string(a.R), string(b.R))
}

func checkC22NEVRA(k *K, c c22NEVRACase) error {
	var list []rpmutils.NEVRA
	decided := map[string]bool{}
	for i, a := range c.P {
		list = append(list, a.nevra())
		for _, b := range c.P[:i] {
			want := refNEVRA(a, b)
			if got := rpmutils.NEVRAcmp(a.nevra(), b.nevra()); got != want {
				return errf("NEVRAcmp(%q, %q) = %d want %d", a, b, got, want)
			}
			if got := rpmutils.NEVRAcmp(b.nevra(), a.nevra()); got != -want {
				return errf("NEVRAcmp(%q, %q) = %d want %d", b, a, got, -want)
			}
			two := rpmutils.NEVRASlice{a.nevra(), b.nevra()}
			if lt, gt := two.Less(0, 1), two.Less(1, 0); lt != (want < 0) || gt != (want > 0) {
				return errf("of %q and %q: Less is %v and the other way round %v, the order is %d", a, b, lt, gt, want)
			}
			switch {
			case want == 0 && a != b:
				decided["equal but other name or architecture"] = true
			case want != 0 && a.E == b.E && refVercmp(string(a.V), string(b.V)) == 0:
				decided["by release"] = true
			case want != 0 && a.E == b.E:
				decided["by version"] = true
			case want != 0:
				decided["by epoch"] = true
			}
		}
	}
	for l := range decided {
		k.Label(l)
	}
	k.NTIf(len(decided) >= 2)
	str := func(l []rpmutils.NEVRA) (out []string) {
		for i := range l {
			out = append(out, fmt.Sprintf("%q", l[i]))
		}
		return
	}
	before := str(list)
	for _, how := range []string{"Sort", "sort.Sort", "sort.Stable"} {
		got := append([]rpmutils.NEVRA(nil), list...)
		switch how {
		case "Sort":
			rpmutils.NEVRASlice(got).Sort()
		case "sort.Sort":
			sort.Sort(rpmutils.NEVRASlice(got))
		default:
			sort.Stable(rpmutils.NEVRASlice(got))
		}
		if err := samePermutation(before, str(got)); err != nil {
			return err
		}
		for i := 1; i < len(got); i++ {
			a, b := got[i-1], got[i]
			if refNEVRA(NEVRASpec{E: S(a.Epoch), V: S(a.Version), R: S(a.Release)}, NEVRASpec{E: S(b.Epoch), V: S(b.Version), R: S(b.Release)}) > 0 {
				return errf("%s put %q before %q", how, a, b)
			}
		}
	}
	return nil
}

// c22ManyCase is a long list of packages, made up from a seed: sorting treats long
// lists differently.
type c22ManyCase struct {
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
	Few  int    `json:"few"` // how many different values a part has
	Pre  int    `json:"pre"` // 0 random order, 1 sorted, 2 the other way round, 3 nearly sorted
}

func genC22Many(t *rapid.T) c22ManyCase {
	return c22ManyCase{N: rapid.SampledFrom([]int{2, 5, 11, 12, 13, 14, 20, 33, 49, 50, 51, 64, 65, 100, 129, 257, 600}).Draw(t, "n"), Seed: uint64(rapid.IntRange(0, 1<<16).Draw(t, "seed")),
		Few: rapid.SampledFrom([]int{1, 2, 3, 12, 1000}).Draw(t, "few"), Pre: rapid.IntRange(0, 3).Draw(t, "pre")}
}

func checkC22Many(k *K, c c22ManyCase) error {
	rnd := prng(c.Seed)
	num := func() int { return int(rnd.next() % uint64(c.Few)) }
	var spec []NEVRASpec
	for i := 0; i < c.N; i++ {
		v := fmt.Sprintf("%d.%d", num(), num())
		if rnd.next()%3 == 0 {
			v += string(rune('a' + num()%26))
		}
		spec = append(spec, NEVRASpec{N: S(fmt.Sprint("n", i)), E: S(strconv.Itoa(num() % 2)), V: S(v), R: S(fmt.Sprintf("%d.el%d", num(), num())), A: "noarch"})
	}
	if c.Pre > 0 {
		sort.SliceStable(spec, func(i, j int) bool {
			if c.Pre == 2 {
				i, j = j, i
			}
			return refNEVRA(spec[i], spec[j]) < 0
		})
		if c.Pre == 3 {
			i, j := int(rnd.next()%uint64(c.N)), int(rnd.next()%uint64(c.N))
			spec[i], spec[j] = spec[j], spec[i]
		}
	}
	var list rpmutils.NEVRASlice
	var vers []string
	all := map[string]NEVRASpec{}
	for _, p := range spec {
		list, vers = append(list, p.nevra()), append(vers, string(p.V))
		all[string(p.N)] = p
	}
	before := append([]string(nil), vers...)
	list.Sort()
	for i, p := range list {
		want, ok := all[p.Name]
		if !ok || p != want.nevra() {
			return errf("sorting %d packages: %v was not among them, or is there twice", c.N, p)
		}
		delete(all, p.Name)
		if i > 0 {
			a, b := list[i-1], list[i]
			if refNEVRA(NEVRASpec{E: S(a.Epoch), V: S(a.Version), R: S(a.Release)}, NEVRASpec{E: S(b.Epoch), V: S(b.Version), R: S(b.Release)}) > 0 {
				return errf("sorting %d packages put %v before %v", c.N, a, b)
			}
		}
	}
	sort.Sort(rpmutils.VersionSlice(vers))
	if err := samePermutation(before, vers); err != nil {
		return err
	}
	for i := 1; i < len(vers); i++ {
		if refVercmp(vers[i-1], vers[i]) > 0 {
			return errf("sorting %d versions put %q before %q", c.N, vers[i-1], vers[i])
		}
	}
	k.NTIf(c.N > 12 && c.Few > 1)
	k.LabelIf(c.N > 12, "more than 12 packages")
	return nil
}

func init() {
	register("C21", "pairs of version strings, random and near misses of each other, against a line-by-line port of rpm's rpmvercmp(), and all pairs of short strings over small alphabets (a case is one string against all others); non-trivial: two different non-empty strings", func(x *Ctx) {
		sub(x, "random", subOpts{quick: 1500000, thorough: 5000000}, genC21, checkC21)
		n := 3
		if *optTier == "thorough" {
			n = 4
		}
		each(x, "exhaustive", subOpts{}, c21All("01a.~^", n+1), checkC21All)
		each(x, "exhaustive-wide", subOpts{}, c21All("0129aBz-~^\n\xe9", n), checkC21All)
	})
	register("C22", "groups of 3-7 related versions (all pairs and triples checked) and lists of 2-12 packages that agree in many parts, and sorting of up to 600 of them; non-trivial: at least three ordered pairs, or packages decided at two different levels", func(x *Ctx) {
		sub(x, "order", subOpts{quick: 48000, thorough: 500000}, genC22, checkC22)
		sub(x, "packages", subOpts{quick: 48000, thorough: 500000}, genC22NEVRA, checkC22NEVRA)
		sub(x, "many", subOpts{quick: 1600, thorough: 40000}, genC22Many, checkC22Many)
	})
}
