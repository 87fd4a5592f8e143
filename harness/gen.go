package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// Gen makes documents of one SPDX version whose every field and value the target format can carry.
type Gen struct {
	R   *R
	V   int    // 1, 2, 3
	F   string // json, yaml, tv, rdf, mem (any in-memory document), common (json, yaml and tv alike)
	Big bool
	// TextFull lets tag-value multi-line fields take leading/trailing blanks and a <text> marker
	n     int
	site  int // the place one long list is made at, 0 for none
	long  int // the how manyth list from here is a long one
	ids   map[string]bool
	elems []common.ElementID
	exts  []common.DocumentID
	lics  []string
	Plain bool // short plain values (when the structure is the point)
	Trim  bool // no blanks around values of one line (rdf)
}

var words = []string{"alpha", "beta", "Gamma", "libfoo", "openssl", "The", "a", "of", "1.2.3", "GPL", "x86_64", "Jos\u00e9", "\u65e5\u672c\u8a9e", "\U0001f600", "na\u00efve", "https://example.org/a?b=c&d=e#f", "<b>", "a<b", "&amp;", "100%", "C:\\dir\\file", "\"quoted\"", "'single'", "key: value", "a:b", "#hash", "- item", "{brace}", "[bracket]", "NONE", "NOASSERTION", "null", "true", "~", "*star", "&anchor", "!tag", "|", ">", "%", "@at", "`tick`", "\\n", "\\u0041", "b: \"\"", "x: []", "{}", "key: null", "---", "...", "[]", "\u202e", "e\u0301", "$VAR", "%s", "%d%%", "SPDXRef-", "DocumentRef-x", "SPDXID: SPDXRef-Fake", "Relationship:", "0x1F", "1e9", "007", ".5", "yes", "=", "\u00ff", "\u0391", "\ufffd",
	"12:30", "190:20:30", "2001-01-01", "2001-12-14t21:59:43.10-05:00", ".inf", "-.NaN", "1_000", "n", "off", "<<", "+12", "0o17", "0b11", "-1", "1.", "(jane@example.com)", "(excludes: x)", "()",
	"Person: Jane", "Tool: make-1", "Organization:", "noassertion", "none", "None", "True", "FALSE", "Null", "No", "tail:", "back\\", "\"", "'", "SPDX-2.1", "SPDXVersion: SPDX-2.1", "PackageName: fake", "FileName: ./fake", "\"spdxVersion\": \"SPDX-2.2\"", "spdxVersion: SPDX-2.1", "\"filesAnalyzed\":", "<spdx:name>", "]]>", "<!--", "-->", "?>", "</text", "a,b", "x;y", "LicenseRef-1", "SHA1: d6a7", "1:2", "?", "^", "a=b", "\u00df", "\u0130", "\u212a"}

func (g *Gen) word() string {
	return pick(g.R, words)
}

// raw line of words, possibly with hostile spacing
func (g *Gen) rawLine(hostileEdges bool) string {
	r := g.R
	if g.Plain {
		g.n++
		return fmt.Sprintf("v%d", g.n)
	}
	n := 1
	switch r.N(10) {
	case 0, 1, 2, 3:
		n = 1
	case 4, 5, 6:
		n = r.In(2, 4)
	default:
		n = r.In(2, 9)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			switch {
			case g.F == "rdf" || r.Chance(0.92):
				sb.WriteByte(' ')
			case r.Chance(0.5):
				sb.WriteByte('\t')
			default:
				sb.WriteString("  ")
			}
		}
		sb.WriteString(g.word())
	}
	if r.Chance(0.35) { // make most values unique so that a swap is visible
		g.n++
		fmt.Fprintf(&sb, "-%d", g.n)
	}
	if r.Chance(0.002) {
		n := pick(r, []int{255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537})
		if g.F == "rdf" {
			n = min(n, 4097)
		}
		for sb.Len() < n {
			sb.WriteString(pick(r, []string{" ", "", "-"}) + pick(r, []string{"long", "Zeile", "0123456789", "caf\u00e9", "text."}))
		}
		if s := sb.String()[:n]; utf8.ValidString(s) && strings.TrimSpace(s) == s {
			sb.Reset()
			sb.WriteString(s)
		}
	}
	s := sb.String()
	if hostileEdges {
		switch r.N(12) {
		case 0:
			s = " " + s
		case 1:
			s += "  "
		case 2:
			s = "\t" + s
		case 3:
			s = "\u00a0" + s
		}
		switch {
		case g.F == "json" && r.Chance(0.06):
			s += pick(r, []string{"\r", "\x00", "\x07", "\u2028", "\u2029", "\x7f", "\u0085", "\ufeff", "\x1b[0m"})
		case g.F == "yaml" && r.Chance(0.04):
			s += pick(r, []string{"\x07", "\x1b"})
		}
	}
	return s
}

// line: a single-line value (never empty, never only blanks).
func (g *Gen) line() string {
	switch g.F {
	case "json", "yaml", "mem":
		return g.rawLine(true)
	}
	s := strings.TrimSpace(strings.ReplaceAll(strings.ReplaceAll(g.rawLine(false), "<text>", ""), "</text>", ""))
	if s == "" {
		return "x"
	}
	if g.F == "rdf" && !g.Trim && g.R.Chance(0.08) {
		s += pick(g.R, []string{" ", "  ", "\t", "\u00a0"})
	}
	return s
}

// text: a value of a field that may span lines.
func (g *Gen) text() string {
	r := g.R
	if g.Plain || r.Chance(0.55) {
		if g.F == "tv" {
			s := g.rawLine(true)
			if r.Chance(0.06) {
				s = pick(r, []string{"see <text> marker", "<text>", "a <text>b<text> c", "tail <text>"})
			}
			return s
		}
		return g.line()
	}
	n := r.In(2, 6)
	var ls []string
	for i := 0; i < n; i++ {
		switch {
		case r.Chance(0.15):
			ls = append(ls, "")
		case g.F == "yaml":
			ls = append(ls, strings.TrimSpace(g.rawLine(false)))
		case g.F == "rdf":
			ls = append(ls, g.rawLine(false))
		default:
			ls = append(ls, g.rawLine(true))
		}
	}
	s := strings.Join(ls, "\n")
	switch g.F {
	case "json", "mem":
		if r.Chance(0.1) {
			s = strings.ReplaceAll(s, "\n", "\r\n")
		}
	case "tv":
		if r.Chance(0.05) {
			s += "\n<text>\nPackageName: fake"
		}
		if r.Chance(0.2) {
			s += "\n"
		}
		if r.Chance(0.1) {
			s = "\n" + s
		}
		if r.Chance(0.02) {
			s += "\n" + strings.Repeat("long license text ", r.In(3000, 6000))
		}
	case "rdf":
		s = strings.TrimSpace(s)
		if s != "" && r.Chance(0.15) {
			s += pick(r, []string{" ", "\n", "\n  ", "\t\n\n"})
		}
	case "common":
		s = strings.TrimSpace(s)
	}
	if s == "" {
		return "t"
	}
	return s
}

// name: what follows "Person: " and the like: any line without blanks at its ends.
func (g *Gen) name() string {
	s := strings.TrimSpace(g.line())
	s = strings.Map(func(r rune) rune {
		if r < 0x20 && r != '\t' || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff {
			return -1
		}
		return r
	}, s)
	s = strings.TrimSpace(s)
	if s == "" || s == "NOASSERTION" {
		return "Someone"
	}
	return s
}

const idAlphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-"

func (g *Gen) idstring() string {
	for {
		n := g.R.In(1, 12)
		if g.R.Chance(0.01) {
			n = pick(g.R, []int{32, 63, 64, 65, 127, 129, 255, 257, 1025})
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = idAlphabet[g.R.N(len(idAlphabet))]
		}
		s := string(b)
		if g.R.Chance(0.2) {
			s = pick(g.R, []string{"Package-", "File-", "NONE", "NOASSERTION", "DOCUMENT-", "DocumentRef-", "ref", "p.", "File1", "File10", "File2"}) + s
		}
		if !g.ids[s] && s != "DOCUMENT" {
			if g.ids == nil {
				g.ids = map[string]bool{}
			}
			g.ids[s] = true
			return s
		}
	}
}

func (g *Gen) elem() common.ElementID {
	e := common.ElementID(g.idstring())
	g.elems = append(g.elems, e)
	return e
}

var licensePool = []string{"MIT", "Apache-2.0", "GPL-2.0-only", "GPL-2.0-or-later", "BSD-3-Clause", "NONE", "NOASSERTION", "LicenseRef-1", "MIT OR Apache-2.0", "(MIT AND BSD-2-Clause) OR GPL-2.0-only WITH Classpath-exception-2.0", "DocumentRef-ext:LicenseRef-X", "LGPL-2.1+", "Zlib"}

var rdfLicenses = []string{"MIT", "Apache-2.0", "GPL-2.0-only", "GPL-2.0-or-later", "BSD-3-Clause", "Zlib", "ISC", "LGPL-2.1+", "NONE", "NOASSERTION"}

func (g *Gen) rdfLicense(depth int) string {
	r := g.R
	name := func() string {
		if len(g.lics) > 0 && r.Chance(0.4) {
			return pick(r, g.lics)
		}
		if depth > 0 { // NONE and NOASSERTION are no members
			return pick(r, rdfLicenses[:8])
		}
		return pick(r, rdfLicenses)
	}
	if depth > 2 || r.Chance(0.6) {
		return name()
	}
	if r.Chance(0.25) {
		lics := append([]string{"GPL-2.0-only", "Apache-2.0", "GPL-2.0-or-later", "LGPL-2.1+"}, g.lics...)
		return pick(r, lics) + " WITH " + pick(r, []string{"Classpath-exception-2.0", "LLVM-exception", "GCC-exception-3.1"})
	}
	op := pick(r, []string{" AND ", " OR "})
	n := r.In(2, 3)
	var parts []string
	for i := 0; i < n; i++ {
		p := g.rdfLicense(depth + 1)
		if o, _ := splitLicense(p); o != "" {
			p = "(" + p + ")"
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, op)
}

func (g *Gen) license() string {
	if g.F == "rdf" {
		return g.rdfLicense(0)
	}
	if len(g.lics) > 0 && g.R.Chance(0.3) {
		return pick(g.R, g.lics)
	}
	if g.R.Chance(0.1) {
		return g.expression(0)
	}
	return pick(g.R, licensePool)
}

// expression is a licence expression of any depth and spelling.
func (g *Gen) expression(depth int) string {
	r := g.R
	if depth > 4 || depth > 0 && r.Chance(0.4) {
		return pick(r, []string{"MIT", "apache-2.0", "GPL-2.0+", "LicenseRef-" + g.hexID(3), "DocumentRef-a.b:LicenseRef-c-d", "GPL-2.0-only WITH Classpath-exception-2.0", "NONE", "0BSD", "AND"})
	}
	n := r.In(2, 3)
	if depth == 0 && r.Chance(0.1) {
		n = r.In(10, 60)
	}
	op := pick(r, []string{" AND ", " OR ", " and ", " or ", " WITH "})
	var parts []string
	for i := 0; i < n; i++ {
		p := g.expression(depth + 1)
		if strings.Contains(p, " ") && r.Chance(0.8) {
			p = "(" + p + ")"
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, op)
}

func (g *Gen) opt(f func() string) string {
	if g.R.Chance(0.5) {
		return ""
	}
	return f()
}

// count is the length of a list: the given one, or in some documents for one of the lists a length at which other code may
// take over (sorting, growing, splitting).
func (g *Gen) count(n int) int { return g.countOf(n, g.atSite()) }

func (g *Gen) countOf(n int, long bool) int {
	g.long--
	if g.long != 0 && !long {
		return n
	}
	if g.F == "rdf" {
		return pick(g.R, []int{11, 13, 17, 33})
	}
	return pick(g.R, []int{11, 13, 17, 33, 65, 101, 129, 257})
}

// siteKinds: a document may have one long list of a kind, the kinds being the places in this file lists are made at; so
// kinds few documents have get as many long ones as any other.
const siteKinds = 53

func (g *Gen) atSite() bool {
	if g.site == 0 {
		return false
	}
	_, _, line, _ := runtime.Caller(2)
	if line%siteKinds != g.site-1 || g.R.Chance(0.3) {
		return false
	}
	g.site = 0
	return true
}

func (g *Gen) list(max int, f func() string) []string {
	if g.R.Chance(0.45) {
		return nil
	}
	n := g.countOf(g.R.In(1, max), g.atSite())
	var out []string
	for i := 0; i < n; i++ {
		if i > 0 && g.again() {
			out = append(out, out[g.R.N(i)])
			continue
		}
		out = append(out, f())
	}
	return out
}

// again says that an element of a list is there a second time; RDF statements form a set.
func (g *Gen) again() bool {
	return g.F != "rdf" && !g.Plain && g.R.Chance(0.04)
}

// hexID is n hexadecimal digits that name something, which no other name of the document repeats.
func (g *Gen) hexID(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdef"[g.R.N(16)]
	}
	return string(b)
}

func (g *Gen) hex(n int) string {
	h := "0123456789abcdef"
	switch g.R.N(40) {
	case 0:
		h = "0123456789"
	case 1:
		h = "0123456789ABCDEF"
	case 2:
		h = "01234567e"
	case 3:
		h = "0"
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = h[g.R.N(len(h))]
	}
	return string(b)
}

func (g *Gen) checksum() common.Checksum {
	return common.Checksum{Algorithm: pick(g.R, algos(g.V)), Value: g.hex(pick(g.R, []int{g.R.In(8, 64), 32, 40, 64, 96, 128, 129}))}
}

func (g *Gen) checksums(min, max int) []common.Checksum {
	n := g.R.In(min, max)
	if n > 0 {
		n = g.count(n)
	}
	var out []common.Checksum
	for i := 0; i < n; i++ {
		if i > 0 && g.again() {
			out = append(out, out[g.R.N(i)])
			continue
		}
		out = append(out, g.checksum())
	}
	return out
}

func (g *Gen) date() string {
	r := g.R
	if r.Chance(0.04) {
		return pick(r, []string{"2021-03-04", "2021-03-04T05:06:07.123Z", "2021-03-04T05:06:07+02:00", "2000-02-29T23:59:60Z", "0001-01-01T00:00:00Z", "2021-3-4"})
	}
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", r.In(1990, 2035), r.In(1, 12), r.In(1, 28), r.N(24), r.N(60), r.N(60))
}

func (g *Gen) uri() string {
	if g.F == "rdf" {
		return pick(g.R, []string{"https://example.com/", "http://spdx.org/spdxdocs/doc-", "urn:uuid:", "git+https://git.example.org/r.git@", "ftp://h/"}) + g.hexID(14) + pick(g.R, []string{"", "?q=1", "/p/a/t/h", "?q=1&r=2"})
	}
	return pick(g.R, []string{"https://example.com/", "http://spdx.org/spdxdocs/doc-", "urn:uuid:", "git+https://git.example.org/r.git@", "ftp://h/", "HTTP://User:pw@EXAMPLE.com:8080/", "http://[::1]/~x/", "https://b\u00fccher.example/", "a:"}) + g.hexID(14) + pick(g.R, []string{"", "?q=1&r=%20", "/p/a/t/h", "", "/", "/(x),y;z", "?a=[b]&c='d'", "/../x/./y", "/" + strings.Repeat("x%2Fy/", g.R.N(12)*g.R.N(12))})
}

// link is a URI that may have a fragment.
func (g *Gen) link() string {
	u := g.uri()
	if g.R.Chance(0.2) {
		u += pick(g.R, []string{"#frag", "#", "#/a/b", "#L10-L20"})
	}
	return u
}

func (g *Gen) docElem(allowExt bool) common.DocElementID {
	r := g.R
	if allowExt && len(g.exts) > 0 && r.Chance(0.2) {
		return common.DocElementID{DocumentRefID: pick(r, g.exts), ElementRefID: common.ElementID(pick(r, []string{"Elem-1", "DOCUMENT", "x.y", "NONE", "1", "DocumentRef-a", "a-" + g.hexID(70)}))}
	}
	if len(g.elems) == 0 || r.Chance(0.1) {
		return common.DocElementID{ElementRefID: "DOCUMENT"}
	}
	return common.DocElementID{ElementRefID: pick(r, g.elems)}
}

func (g *Gen) annotation(inDoc bool) v2_3.Annotation {
	a := v2_3.Annotation{
		Annotator:         common.Annotator{AnnotatorType: pick(g.R, []string{"Person", "Organization", "Tool"}), Annotator: g.name()},
		AnnotationDate:    g.date(),
		AnnotationType:    pick(g.R, []string{"REVIEW", "OTHER"}),
		AnnotationComment: g.text(),
	}
	if inDoc && g.F == "rdf" {
		a.AnnotationSPDXIdentifier = g.docElem(false)
	}
	if inDoc && (g.F == "tv" || g.F == "mem") {
		a.AnnotationSPDXIdentifier = g.docElem(true)
	}
	return a
}

func (g *Gen) annotations() []v2_3.Annotation {
	if g.F == "tv" || g.F == "common" || g.R.Chance(0.7) {
		return nil
	}
	n := g.count(g.R.In(1, 2))
	var out []v2_3.Annotation
	for i := 0; i < n; i++ {
		out = append(out, g.annotation(false))
	}
	return out
}

func (g *Gen) snippet(file common.ElementID) v2_3.Snippet {
	r := g.R
	s := v2_3.Snippet{
		SnippetSPDXIdentifier:         g.elem(),
		SnippetFromFileSPDXIdentifier: file,
		SnippetLicenseConcluded:       g.opt(g.license),
		LicenseInfoInSnippet:          g.list(3, g.license),
		SnippetLicenseComments:        g.opt(g.text),
		SnippetCopyrightText:          g.text(),
		SnippetComment:                g.opt(g.text),
		SnippetName:                   g.opt(g.line),
	}
	n := r.In(1, 2)
	for i := 0; i < n; i++ {
		var rg common.SnippetRange
		a := r.In(1, 5000)
		if r.Chance(0.25) {
			a = r.In(1, 2)
		}
		if r.Chance(0.1) {
			a = pick(r, []int{65535, 65536, 999999, 1000000, 1000001, 16777217, 100000000, 2147483647, 2147483648, 4294967296})
		}
		b := a + r.N(3000)
		if r.Chance(0.15) {
			b = a
		}
		line := r.Chance(0.4)
		if i > 0 {
			line = s.Ranges[0].StartPointer.LineNumber == 0
		}
		if line {
			rg.StartPointer.LineNumber, rg.EndPointer.LineNumber = a, b
		} else {
			rg.StartPointer.Offset, rg.EndPointer.Offset = a, b
		}
		if g.F != "tv" {
			rg.StartPointer.FileSPDXIdentifier, rg.EndPointer.FileSPDXIdentifier = file, file
		}
		s.Ranges = append(s.Ranges, rg)
	}
	if g.V >= 2 && (g.F == "tv" || g.F == "mem" || g.F == "rdf") {
		s.SnippetAttributionTexts = g.list(3, g.text)
	}
	return s
}

func (g *Gen) file() *v2_3.File {
	r := g.R
	f := &v2_3.File{
		FileName:           g.line(),
		FileSPDXIdentifier: g.elem(),
		FileTypes:          g.list(3, func() string { return pick(r, []string{"SOURCE", "BINARY", "ARCHIVE", "TEXT", "OTHER", "SPDX"}) }),
		Checksums:          g.checksums(1, 3),
		LicenseConcluded:   g.opt(g.license),
		LicenseInfoInFiles: g.list(3, g.license),
		LicenseComments:    g.opt(g.text),
		FileCopyrightText:  g.text(),
		FileComment:        g.opt(g.text),
		FileNotice:         g.opt(g.text),
		FileContributors:   g.list(3, g.line),
		Annotations:        g.annotations(),
	}
	if g.F == "rdf" && r.Chance(0.1) {
		f.FileNotice = "NOASSERTION"
	}
	if g.V >= 2 {
		f.FileAttributionTexts = g.list(3, g.text)
	}
	if g.F == "tv" || g.F == "mem" || g.V == 3 || g.F == "rdf" {
		if r.Chance(0.3) {
			n := g.count(r.In(1, 2))
			for i := 0; i < n; i++ {
				f.ArtifactOfProjects = append(f.ArtifactOfProjects, &v2_3.ArtifactOfProject{Name: g.line(), HomePage: g.opt(g.link), URI: g.opt(g.uri)})
			}
		}
		f.FileDependencies = g.list(3, g.line)
	}
	if g.F == "tv" || g.F == "mem" || g.F == "rdf" {
		if r.Chance(0.35) {
			f.Snippets = map[common.ElementID]*v2_3.Snippet{}
			n := g.count(r.In(1, 3))
			for i := 0; i < n; i++ {
				s := g.snippet(f.FileSPDXIdentifier)
				f.Snippets[s.SnippetSPDXIdentifier] = &s
			}
		}
	}
	return f
}

var refCats = map[string][]string{
	"SECURITY":        {"cpe22Type", "cpe23Type", "advisory", "fix", "url", "swid"},
	"PACKAGE-MANAGER": {"maven-central", "npm", "nuget", "bower", "purl"},
	"PERSISTENT-ID":   {"swh", "gitoid"},
	"OTHER":           {"acmeforge", "LocationRef-acme"},
}

func (g *Gen) pkg() *v2_3.Package {
	r := g.R
	p := &v2_3.Package{
		PackageName:             g.line(),
		PackageSPDXIdentifier:   g.elem(),
		PackageVersion:          g.opt(g.line),
		PackageFileName:         g.opt(g.line),
		PackageDownloadLocation: pick(r, []string{"NOASSERTION", "NONE", g.link(), g.link()}),
		PackageChecksums:        g.checksums(0, 3),
		PackageHomePage:         g.opt(g.link),
		PackageSourceInfo:       g.opt(g.text),
		PackageLicenseConcluded: g.license(),
		PackageLicenseDeclared:  g.license(),
		PackageLicenseComments:  g.opt(g.text),
		PackageCopyrightText:    g.text(),
		PackageSummary:          g.opt(g.text),
		PackageDescription:      g.opt(g.text),
		PackageComment:          g.opt(g.text),
		Annotations:             g.annotations(),
	}
	p.FilesAnalyzed = r.Chance(0.65)
	switch g.F {
	case "tv", "common":
		p.IsFilesAnalyzedTagPresent = !p.FilesAnalyzed || r.Chance(0.5)
	case "rdf":
		p.IsFilesAnalyzedTagPresent = !p.FilesAnalyzed || r.Chance(0.5)
	case "mem":
		p.IsFilesAnalyzedTagPresent = r.Chance(0.5)
	}
	switch r.N(4) {
	case 0:
	case 1:
		p.PackageSupplier = &common.Supplier{Supplier: "NOASSERTION"}
	default:
		p.PackageSupplier = &common.Supplier{SupplierType: pick(r, []string{"Person", "Organization"}), Supplier: g.name()}
	}
	switch r.N(4) {
	case 0:
	case 1:
		p.PackageOriginator = &common.Originator{Originator: "NOASSERTION"}
	default:
		p.PackageOriginator = &common.Originator{OriginatorType: pick(r, []string{"Person", "Organization"}), Originator: g.name()}
	}
	if (p.FilesAnalyzed || g.F == "json" || g.F == "yaml" || g.F == "mem" || g.F == "rdf") && r.Chance(0.6) {
		p.PackageVerificationCode = &common.PackageVerificationCode{Value: g.hex(40)}
		n := r.N(4)
		if n > 0 {
			n = g.count(n)
		}
		for i := 0; i < n; i++ {
			p.PackageVerificationCode.ExcludedFiles = append(p.PackageVerificationCode.ExcludedFiles, g.plainFile())
		}
	}
	if p.FilesAnalyzed || g.F == "json" || g.F == "yaml" || g.F == "mem" || g.F == "rdf" {
		p.PackageLicenseInfoFromFiles = g.list(4, g.license)
	}
	if r.Chance(0.5) {
		n := g.count(r.In(1, 4))
		for i := 0; i < n; i++ {
			cat := pick(r, sortedKeys(refCats))
			typ := pick(r, refCats[cat])
			if r.Chance(0.25) {
				typ = pick(r, []string{"my_type", "LocationRef-acme_forge-2", "A.b_C", "maven_central", "type-", "_"})
			}
			p.PackageExternalReferences = append(p.PackageExternalReferences, &v2_3.PackageExternalReference{
				Category: cat, RefType: typ,
				Locator:            pick(r, []string{"pkg:npm/%40angular/animation@12.3.1", "cpe:2.3:a:pivotal:spring:4.1.0:*:*:*:*:*:*:*", "swh:1:cnt:" + g.hex(12), "a/b#c", "x_y-z_" + g.hex(3), "pkg:deb/debian/curl@7.50.3-1?arch=i386&distro=jessie#a/b", "\u65e5\u672c/caf\u00e9", "a,b;c(d)", "\"q\"", "http://x/y", "NONE", "ExternalRefComment:x", "#", "<text"}),
				ExternalRefComment: g.opt(g.text)})
		}
	}
	if g.V >= 2 {
		p.PackageAttributionTexts = g.list(3, g.text)
	}
	if g.V >= 3 {
		p.PrimaryPackagePurpose = g.opt(func() string {
			return pick(r, []string{"APPLICATION", "FRAMEWORK", "LIBRARY", "CONTAINER", "OPERATING-SYSTEM", "DEVICE", "FIRMWARE", "SOURCE", "ARCHIVE", "FILE", "INSTALL", "OTHER"})
		})
		p.ReleaseDate = g.opt(g.date)
		p.BuiltDate = g.opt(g.date)
		p.ValidUntilDate = g.opt(g.date)
	}
	if r.Chance(0.6) {
		n := g.count(r.In(1, 3))
		if g.Big {
			n = r.In(5, 40)
		}
		for i := 0; i < n; i++ {
			p.Files = append(p.Files, g.file())
		}
		if g.F == "tv" || g.F == "common" {
			sort.Slice(p.Files, func(i, j int) bool { return p.Files[i].FileSPDXIdentifier < p.Files[j].FileSPDXIdentifier })
		}
	}
	return p
}

func (g *Gen) plainFile() string {
	n := "./" + pick(g.R, []string{"src/", "", "doc dir/", "a/b/c/"}) + g.hexID(10) + pick(g.R, []string{".spdx", ".go", "", ".txt"})
	if g.R.Chance(0.25) {
		odd := []string{" (excludes: b", "(excludes:c", " (1", "é", ": x", "'q'", " #h", "[x]", "&amp", "excludes"}
		if g.F != "tv" && g.F != "common" { // there, a comma or a closing parenthesis ends a name
			odd = append(odd, "(1)", ", b", " (excludes: x)")
		}
		n += pick(g.R, odd)
	}
	return n
}

var relTypes = []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON", "DEPENDENCY_OF", "BUILD_DEPENDENCY_OF", "DEV_DEPENDENCY_OF", "OPTIONAL_DEPENDENCY_OF", "PROVIDED_DEPENDENCY_OF", "TEST_DEPENDENCY_OF", "RUNTIME_DEPENDENCY_OF", "EXAMPLE_OF", "GENERATES", "GENERATED_FROM", "ANCESTOR_OF", "DESCENDANT_OF", "VARIANT_OF", "DISTRIBUTION_ARTIFACT", "PATCH_FOR", "PATCH_APPLIED", "COPY_OF", "FILE_ADDED", "FILE_DELETED", "FILE_MODIFIED", "EXPANDED_FROM_ARCHIVE", "DYNAMIC_LINK", "STATIC_LINK", "DATA_FILE_OF", "TEST_CASE_OF", "BUILD_TOOL_OF", "DEV_TOOL_OF", "TEST_OF", "TEST_TOOL_OF", "DOCUMENTATION_OF", "OPTIONAL_COMPONENT_OF", "METAFILE_OF", "PACKAGE_OF", "AMENDS", "PREREQUISITE_FOR", "HAS_PREREQUISITE", "REQUIREMENT_DESCRIPTION_FOR", "SPECIFICATION_FOR", "OTHER"}

func (g *Gen) doc() *v2_3.Document {
	r := g.R
	if !g.Big && r.Chance(0.06) {
		g.long = 1 + r.N(pick(r, []int{8, 40, 120}))
	}
	if !g.Big && (r.Chance(0.1) || g.F == "rdf" && r.Chance(0.12)) {
		g.site = 1 + r.N(siteKinds)
	}
	d := &v2_3.Document{
		SPDXVersion:       verString(g.V),
		DataLicense:       "CC0-1.0",
		SPDXIdentifier:    "DOCUMENT",
		DocumentName:      g.line(),
		DocumentNamespace: g.uri(),
		DocumentComment:   g.opt(g.text),
		CreationInfo: &v2_3.CreationInfo{
			LicenseListVersion: g.opt(func() string { return fmt.Sprintf("3.%d", r.N(30)) }),
			Created:            g.date(),
			CreatorComment:     g.opt(g.text),
		},
	}
	if r.Chance(0.05) && g.F != "tv" && g.F != "rdf" {
		d.SPDXIdentifier = g.elem()
	}
	n := g.count(r.In(1, 3))
	for i := 0; i < n; i++ {
		if i > 0 && g.again() {
			d.CreationInfo.Creators = append(d.CreationInfo.Creators, d.CreationInfo.Creators[r.N(i)])
			continue
		}
		d.CreationInfo.Creators = append(d.CreationInfo.Creators, common.Creator{CreatorType: pick(r, []string{"Person", "Organization", "Tool"}), Creator: g.name()})
	}
	n = g.count(r.N(4))
	for i := 0; i < n; i++ {
		id := common.DocumentID(strings.TrimPrefix(g.idstring(), "DocumentRef-"))
		if id == "" {
			continue
		}
		g.exts = append(g.exts, id)
		cs := g.checksum()
		d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, v2_3.ExternalDocumentRef{DocumentRefID: id, URI: g.uri(), Checksum: cs})
	}
	n = g.count(r.N(4))
	for i := 0; i < n; i++ {
		ol := &v2_3.OtherLicense{LicenseIdentifier: "LicenseRef-" + g.idstring(), ExtractedText: g.text(), LicenseName: g.opt(g.line), LicenseCrossReferences: g.list(3, g.link), LicenseComment: g.opt(g.text)}
		d.OtherLicenses = append(d.OtherLicenses, ol)
		g.lics = append(g.lics, ol.LicenseIdentifier)
	}
	n = g.count(r.N(4))
	if g.Big {
		n = r.In(5, 30)
	}
	for i := 0; i < n; i++ {
		d.Packages = append(d.Packages, g.pkg())
	}
	n = r.N(3)
	if r.Chance(0.3) {
		n = r.In(2, 6)
	}
	n = g.count(n)
	for i := 0; i < n; i++ {
		d.Files = append(d.Files, g.file())
	}
	if g.F == "json" || g.F == "yaml" || g.F == "mem" {
		n = g.count(r.N(3))
		for i := 0; i < n; i++ {
			fid := common.ElementID("F0")
			if len(d.Files) > 0 {
				fid = pick(r, d.Files).FileSPDXIdentifier
			}
			s := g.snippet(fid)
			if g.F != "mem" {
				s.SnippetAttributionTexts = nil
			}
			d.Snippets = append(d.Snippets, s)
		}
	}
	n = g.count(r.N(6))
	for i := 0; i < n; i++ {
		rel := &v2_3.Relationship{RefA: g.docElem(true), RefB: g.docElem(true), Relationship: pick(r, relTypes), RelationshipComment: g.opt(g.text)}
		if (g.V >= 2 || g.F == "json" || g.F == "yaml") && r.Chance(0.15) {
			rel.RefB = common.DocElementID{SpecialID: pick(r, []string{"NONE", "NOASSERTION"})}
		}
		d.Relationships = append(d.Relationships, rel)
		if g.again() {
			c := *rel
			d.Relationships = append(d.Relationships, &c)
		}
	}
	n = g.count(r.N(3))
	for i := 0; i < n; i++ {
		a := g.annotation(true)
		d.Annotations = append(d.Annotations, &a)
		if g.again() {
			c := a
			d.Annotations = append(d.Annotations, &c)
		}
	}
	if g.F == "tv" || g.F == "mem" || g.F == "rdf" {
		n = g.count(r.N(3))
		for i := 0; i < n; i++ {
			d.Reviews = append(d.Reviews, &v2_3.Review{ReviewerType: pick(r, []string{"Person", "Organization", "Tool"}), Reviewer: g.name(), ReviewDate: g.date(), ReviewComment: g.opt(g.text)})
		}
	}
	if g.F == "tv" || g.F == "common" {
		sortDoc(d)
	}
	if r.Chance(0.35) {
		g.thin(d)
	}
	if g.F == "rdf" {
		g.rdfForm(d)
	}
	if !utf8.ValidString(fmt.Sprint(flatten(d))) {
		panic("generator made invalid UTF-8")
	}
	return d
}

// sortDoc puts the identifier-sorted lists of a tag-value file in that order.
func sortDoc(d *v2_3.Document) {
	sort.Slice(d.ExternalDocumentReferences, func(i, j int) bool {
		return d.ExternalDocumentReferences[i].DocumentRefID < d.ExternalDocumentReferences[j].DocumentRefID
	})
	sort.Slice(d.Packages, func(i, j int) bool {
		return d.Packages[i].PackageSPDXIdentifier < d.Packages[j].PackageSPDXIdentifier
	})
	sort.Slice(d.Files, func(i, j int) bool { return d.Files[i].FileSPDXIdentifier < d.Files[j].FileSPDXIdentifier })
	for _, p := range d.Packages {
		sort.Slice(p.Files, func(i, j int) bool { return p.Files[i].FileSPDXIdentifier < p.Files[j].FileSPDXIdentifier })
	}
}

// thinnable are the fields a document may leave empty although it usually has them.
var thinnable = map[string]bool{"DataLicense": true, "DocumentName": true, "DocumentNamespace": true, "Created": true, "LicenseListVersion": true, "Creators": true, "CreatorComment": true,
	"FileCopyrightText": true, "LicenseConcluded": true, "Checksums": true, "PackageDownloadLocation": true, "PackageLicenseConcluded": true, "PackageLicenseDeclared": true, "PackageCopyrightText": true,
	"SnippetCopyrightText": true, "SnippetFromFileSPDXIdentifier": true, "AnnotationDate": true, "AnnotationType": true, "AnnotationComment": true, "ReviewDate": true, "ReviewComment": true,
	"ExtractedText": true, "LicenseName": true, "FileTypes": true, "CreationInfo": true}

// thin empties fields of a finished document: what is absent must come through as absent, whatever is beside it.
func (g *Gen) thin(d *v2_3.Document) {
	p := pick(g.R, []float64{0.1, 0.25, 0.6})
	skip := map[string]bool{"SnippetFromFileSPDXIdentifier": true}
	switch g.F {
	case "rdf":
		skip["DocumentNamespace"] = true
		skip["CreationInfo"] = true
		skip["AnnotationType"] = true // one of the three named individuals
	case "tv", "common": // a tag-value document has creation information
		skip["CreationInfo"] = true
		skip["Created"] = g.F == "common"
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
			for _, k := range ks {
				walk(v.MapIndex(k))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				n := v.Type().Field(i).Name
				if thinnable[n] && !skip[n] && g.R.Chance(p) {
					if n == "CreationInfo" && !g.R.Chance(0.3) {
						walk(v.Field(i))
						continue
					}
					v.Field(i).SetZero()
					continue
				}
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(d))
}
