package main

import (
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	stv "github.com/spdx/tools-golang/tagvalue"
)

func init() {
	need := []string{"controls_accepted", "faults_rejected"}
	for _, f := range tvFaults {
		need = append(need, "fault:"+f.name)
	}
	register(&Prop{ID: "T05", Rule: genRule + "; spelled as valid tag-value text (which must be accepted), then once more with one fault of a listed kind at a random place of a random section (which must be rejected, the target left as it was); counters show how often each kind and each section was hit", Quick: 6000, Deep: 90000,
		Need: need, MinSeen: 500, Run: runT05})
}

// badTV is a document as a pair sequence with the section each position lies in.
type badTV struct {
	c   *Case
	r   *R
	v   int
	ps  []tvPair
	sec []string // section before pair i is read; sec[len(ps)] is the section at the end
	st  *tvStyle
	raw map[int]string // raw text put before pair i
	// what was hit
	where string
}

func (b *badTV) index() {
	b.sec = make([]string, len(b.ps)+1)
	cur := "start"
	for i, p := range b.ps {
		b.sec[i] = cur
		switch p.Tag {
		case "PackageName":
			cur = "package"
		case "FileName":
			cur = "file"
		case "SnippetSPDXID":
			cur = "snippet"
		case "LicenseID":
			cur = "license"
		case "Reviewer":
			cur = "review"
		default:
			if cur == "start" && creationTags[p.Tag] {
				cur = "creation"
			}
		}
	}
	b.sec[len(b.ps)] = cur
}

func (b *badTV) insert(i int, p tvPair) {
	b.where = b.sec[i]
	b.ps = append(b.ps[:i], append([]tvPair{p}, b.ps[i:]...)...)
}

// find gives the positions of pairs with one of the tags.
func (b *badTV) find(tags ...string) []int {
	var out []int
	for i, p := range b.ps {
		for _, t := range tags {
			if p.Tag == t {
				out = append(out, i)
			}
		}
	}
	return out
}

func (b *badTV) replace(tags []string, val func(tag, old string) string) bool {
	at := b.find(tags...)
	if len(at) == 0 {
		return false
	}
	i := pick(b.r, at)
	b.where = b.sec[i] + "/" + b.ps[i].Tag
	b.ps[i].Val = val(b.ps[i].Tag, b.ps[i].Val)
	b.ps[i].Bound = true // spelled as it is
	return true
}

var tvTagsOf = map[string][]string{
	"start":    {"SPDXVersion", "DataLicense", "DocumentName", "DocumentNamespace"},
	"creation": {"LicenseListVersion", "Creator", "Created", "CreatorComment"},
	"package":  {"PackageVersion", "PackageFileName", "PackageSupplier", "PackageOriginator", "PackageDownloadLocation", "FilesAnalyzed", "PackageVerificationCode", "PackageChecksum", "PackageHomePage", "PackageSourceInfo", "PackageLicenseConcluded", "PackageLicenseInfoFromFiles", "PackageLicenseDeclared", "PackageLicenseComments", "PackageCopyrightText", "PackageSummary", "PackageDescription", "PackageComment", "ExternalRef", "ExternalRefComment"},
	"file":     {"FileType", "FileChecksum", "LicenseConcluded", "LicenseInfoInFile", "LicenseComments", "FileCopyrightText", "ArtifactOfProjectName", "ArtifactOfProjectHomePage", "ArtifactOfProjectURI", "FileComment", "FileNotice", "FileContributor", "FileDependency"},
	"snippet":  {"SnippetFromFileSPDXID", "SnippetByteRange", "SnippetLineRange", "SnippetLicenseConcluded", "LicenseInfoInSnippet", "SnippetLicenseComments", "SnippetCopyrightText", "SnippetComment", "SnippetName"},
	"license":  {"ExtractedText", "LicenseName", "LicenseCrossReference", "LicenseComment"},
	"review":   {"ReviewDate", "ReviewComment"},
}

var tvGoodVal = map[string]string{"Creator": "Person: x", "PackageSupplier": "Person: x", "PackageOriginator": "NOASSERTION", "FilesAnalyzed": "true", "PackageChecksum": "SHA1: ab", "FileChecksum": "SHA1: ab", "ExternalRef": "OTHER a b", "SnippetFromFileSPDXID": "SPDXRef-F", "SnippetByteRange": "1:2", "SnippetLineRange": "1:2", "SPDXVersion": "SPDX-2.3"}

func goodVal(tag string) string {
	if v := tvGoodVal[tag]; v != "" {
		return v
	}
	return "value"
}

// safe positions: an insertion there does not come between a pair and its dependents.
func (b *badTV) anywhere() int {
	for {
		i := b.r.N(len(b.ps) + 1)
		if i == len(b.ps) || !b.ps[i].Bound {
			return i
		}
	}
}

var badElem = []string{"", "SPDXRef-", "Pkg", "spdxref-Pkg", "SPDXRefPkg", "SPDXRef-a:b", "SPDXRef:a", "SPDXRef_a", " "}
var badDocElem = append([]string{"DocumentRef-x", "DocumentRef-:SPDXRef-a", "DocumentRef-a:b:SPDXRef-c", "DocumentRef-a:x", "DocumentRef-a:SPDXRef-", "DocumentRef-a:", "NONEX", "documentref-a:SPDXRef-b", "DocumentRef-a:SPDXRef-b:c"}, badElem...)

type tvFault struct {
	name string
	do   func(b *badTV) bool // false: not applicable to this document
}

var tvFaults = []tvFault{
	{"unknown-tag", func(b *badTV) bool {
		tag := pick(b.r, []string{"Bogus", "packagename", "PackageNames", "SPDXId", "FileNames", "Licence", "PackageLicense", "X-Comment", "Package Name", "RelationshipType", "", "SpdxVersion", "Comment", "SnippetID", "Snippet", "PackageLicenseInfoFromFile", "LicenseInfoInFiles", "AnnotationSPDXREF"})
		b.insert(b.anywhere(), tvPair{Tag: tag, Val: pick(b.r, []string{"value", "SPDXRef-a", "Person: x", "1:2"})})
		return true
	}},
	{"misplaced-tag", func(b *badTV) bool {
		i := b.anywhere()
		s := b.sec[i]
		for k := 0; k < 20; k++ {
			o := pick(b.r, sortedKeys(tvTagsOf))
			if o == s || (o == "creation" || o == "start") && (s == "start" || s == "creation") {
				continue
			}
			tag := pick(b.r, tvTagsOf[o])
			b.insert(i, tvPair{Tag: tag, Val: goodVal(tag)})
			return true
		}
		return false
	}},
	{"snippet-without-file", func(b *badTV) bool {
		for k := 0; k < 20; k++ {
			i := b.anywhere()
			if s := b.sec[i]; s == "start" || s == "creation" || s == "package" || s == "license" || s == "review" {
				b.insert(i, tvPair{Tag: "SnippetSPDXID", Val: "SPDXRef-Sn"})
				return true
			}
		}
		return false
	}},
	{"identifier-tag-in-section-without-one", func(b *badTV) bool {
		for k := 0; k < 20; k++ {
			i := b.anywhere()
			if s := b.sec[i]; s == "snippet" || s == "license" || s == "review" {
				b.insert(i, tvPair{Tag: "SPDXID", Val: "SPDXRef-Other"})
				return true
			}
		}
		return false
	}},
	{"tag-of-a-newer-version", func(b *badTV) bool {
		var tags [][2]string
		if b.v < 3 {
			tags = append(tags, [2]string{"package", "PrimaryPackagePurpose"}, [2]string{"package", "ReleaseDate"}, [2]string{"package", "BuiltDate"}, [2]string{"package", "ValidUntilDate"})
		}
		if b.v < 2 {
			tags = append(tags, [2]string{"package", "PackageAttributionText"}, [2]string{"file", "FileAttributionText"}, [2]string{"snippet", "SnippetAttributionText"})
		}
		if len(tags) == 0 {
			return false
		}
		for k := 0; k < 30; k++ {
			t, i := pick(b.r, tags), b.anywhere()
			if b.sec[i] == t[0] {
				b.insert(i, tvPair{Tag: t[1], Val: "LIBRARY"})
				return true
			}
		}
		return false
	}},
	{"malformed-element-identifier", func(b *badTV) bool {
		return b.replace([]string{"SPDXID", "SnippetSPDXID"}, func(_, _ string) string {
			if b.r.Chance(0.1) {
				return "DocumentRef-x:SPDXRef-y"
			}
			return pick(b.r, badElem)
		})
	}},
	{"malformed-element-reference", func(b *badTV) bool {
		return b.replace([]string{"SPDXREF", "SnippetFromFileSPDXID"}, func(_, _ string) string { return pick(b.r, badDocElem) })
	}},
	{"malformed-checksum", func(b *badTV) bool {
		return b.replace([]string{"PackageChecksum", "FileChecksum"}, func(_, _ string) string {
			bad := []string{"", "SHA1", "SHA1 abc", "abc", "SHA-1: abc", "SHA9: abc", "sha1: abc", ": abc", "SHA1SHA256: abc", "MD5-: abc", "SHA 1: abc"}
			if b.v < 2 {
				bad = append(bad, "SHA512: abc", "MD2: abc")
			}
			if b.v < 3 {
				bad = append(bad, "BLAKE3: abc", "SHA3-256: abc", "ADLER32: abc")
			}
			return pick(b.r, bad)
		})
	}},
	{"malformed-relationship", func(b *badTV) bool {
		return b.replace([]string{"Relationship"}, func(_, old string) string {
			f := strings.Fields(old)
			switch b.r.N(6) {
			case 0:
				return strings.Join(f[:2], " ")
			case 1:
				return old + " " + pick(b.r, []string{"extra", "SPDXRef-x"})
			case 2:
				f[0] = pick(b.r, append([]string{"NONE", "NOASSERTION"}, badDocElem[:len(badDocElem)-1]...))
			case 3:
				f[2] = pick(b.r, append([]string{"none", "NOASSERTIONS"}, badDocElem[:len(badDocElem)-1]...))
			case 4:
				return pick(b.r, []string{"", f[1], f[0], strings.Join(f, "\t"), strings.Join(f, ""), strings.Join(f, ",")})
			default:
				f[0], f[1] = f[1], f[0]
			}
			return strings.Join(f, " ")
		})
	}},
	{"malformed-external-reference", func(b *badTV) bool {
		return b.replace([]string{"ExternalRef"}, func(_, old string) string {
			f := strings.Fields(old)
			return pick(b.r, []string{"", f[0], f[0] + " " + f[1], old + " more", f[0] + " " + f[2], strings.Join(f, "\t"), strings.Join(f, ",")})
		})
	}},
	{"malformed-external-document-reference", func(b *badTV) bool {
		return b.replace([]string{"ExternalDocumentRef"}, func(_, old string) string {
			f := strings.Fields(old) // DocumentRef-x URI ALG:sum
			alg, sum, _ := strings.Cut(f[2], ":")
			switch b.r.N(7) {
			case 0:
				f[0] = pick(b.r, []string{"x", "DocumentRef-", "documentref-x", "SPDXRef-x", "DocumentRefx"})
			case 1:
				return f[0] + " " + f[1]
			case 2:
				return f[0] + " " + f[1] + " " + alg
			case 3:
				return f[0] + " " + f[1] + " " + alg + " " + sum
			case 4:
				return pick(b.r, []string{old + " a b", old + " a", f[0] + " " + f[1] + " " + alg + ": " + sum + " a", f[0] + " x " + f[1] + " " + alg + ": " + sum, old + " SHA1: ab"})
			case 5:
				return f[0] + " " + f[1] + " " + alg + sum
			default:
				return pick(b.r, []string{"", f[0]})
			}
			return strings.Join(f, " ")
		})
	}},
	{"malformed-range", func(b *badTV) bool {
		return b.replace([]string{"SnippetByteRange", "SnippetLineRange"}, func(_, _ string) string {
			return pick(b.r, []string{"", "1", "1-5", "a:b", "1:b", "a:5", ":5", "1:", "1:2:3", "1.5:2", "1 2:3", "0x1:0x2", "1:99999999999999999999999", "one:two", "1,2"})
		})
	}},
	{"malformed-agent", func(b *badTV) bool {
		return b.replace([]string{"Creator", "Annotator", "Reviewer", "PackageSupplier", "PackageOriginator"}, func(tag, old string) string {
			bad := []string{"", "Someone", "Person", "Company: x", "person: x", "ORGANIZATION: x", ": x", "Person x", "Persons: x", "NONE", "noassertion"}
			if strings.HasPrefix(tag, "Package") {
				bad = append(bad, "Tool: x", "NOASSERTION: x")
			} else {
				bad = append(bad, "NOASSERTION")
			}
			return pick(b.r, bad)
		})
	}},
	{"malformed-boolean", func(b *badTV) bool {
		return b.replace([]string{"FilesAnalyzed"}, func(_, _ string) string {
			return pick(b.r, []string{"", "maybe", "yes", "no", "0", "1", "falsee", "f", "true false", "not true", "NONE", "fals"})
		})
	}},
	{"missing-identifier", func(b *badTV) bool {
		var at []int
		for _, i := range b.find("SPDXID") {
			if b.sec[i] == "package" || b.sec[i] == "file" {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return false
		}
		i := pick(b.r, at)
		b.where = b.sec[i]
		b.ps = append(b.ps[:i], b.ps[i+1:]...)
		return true
	}},
	{"dependent-without-owner", func(b *badTV) bool {
		for k := 0; k < 40; k++ {
			i := b.anywhere()
			prev := ""
			if i > 0 {
				prev = b.ps[i-1].Tag
			}
			early := func(t string) bool {
				for _, p := range b.ps[:i] {
					if p.Tag == t {
						return false
					}
				}
				return true
			}
			switch b.r.N(4) {
			case 0:
				if b.sec[i] == "package" && prev != "ExternalRef" {
					b.insert(i, tvPair{Tag: "ExternalRefComment", Val: "c"})
					return true
				}
			case 1:
				if b.sec[i] == "file" && !strings.HasPrefix(prev, "ArtifactOfProject") {
					b.insert(i, tvPair{Tag: pick(b.r, []string{"ArtifactOfProjectHomePage", "ArtifactOfProjectURI"}), Val: "http://x"})
					return true
				}
			case 2:
				if early("Relationship") {
					b.insert(i, tvPair{Tag: "RelationshipComment", Val: "c"})
					return true
				}
			case 3:
				if early("Annotator") {
					t := pick(b.r, []string{"AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment"})
					v := "c"
					if t == "SPDXREF" {
						v = "SPDXRef-x"
					}
					b.insert(i, tvPair{Tag: t, Val: v})
					return true
				}
			}
		}
		return false
	}},
	// an owner does exist, but other tags, or another element of the same kind, come between
	{"dependent-behind-expired-owner", func(b *badTV) bool {
		kind, first := "package", "PackageName"
		owner := []tvPair{{Tag: "ExternalRef", Val: "OTHER a b", Bound: true}}
		dep := tvPair{Tag: "ExternalRefComment", Val: "c", Bound: true}
		if b.r.Chance(0.5) {
			kind, first = "file", "FileName"
			owner = []tvPair{{Tag: "ArtifactOfProjectName", Val: "proj", Bound: true}}
			if b.r.Chance(0.5) {
				owner = append(owner, tvPair{Tag: "ArtifactOfProjectHomePage", Val: "http://x", Bound: true})
			}
			dep = tvPair{Tag: pick(b.r, []string{"ArtifactOfProjectHomePage", "ArtifactOfProjectURI"}), Val: "http://x", Bound: true}
		} else if b.r.Chance(0.5) {
			owner = append(owner, tvPair{Tag: "ExternalRefComment", Val: "first", Bound: true})
		}
		starts := b.find(first)
		if len(starts) == 0 {
			return false
		}
		k := b.r.N(len(starts))
		end := starts[k] + 1 // behind the element's own tags
		for end < len(b.ps) && b.sec[end] == kind && b.ps[end].Tag != first && b.ps[end].Tag != "FileName" && b.ps[end].Tag != "PackageName" && b.ps[end].Tag != "SnippetSPDXID" && b.ps[end].Tag != "LicenseID" && b.ps[end].Tag != "Reviewer" {
			end++
		}
		var at int
		var gap []tvPair
		if k+1 < len(starts) && b.r.Chance(0.5) {
			// the dependent goes into the next element of the kind, at once or a few tags on
			at = starts[k+1] + 1
			for b.r.Chance(0.5) && at < len(b.ps) && b.sec[at] == kind && b.ps[at].Tag != "ExternalRef" && !strings.HasPrefix(b.ps[at].Tag, "ArtifactOf") {
				at++
			}
			if at < len(b.ps) && (b.ps[at-1].Tag == "ExternalRef" || b.ps[at-1].Tag == "ExternalRefComment" || strings.HasPrefix(b.ps[at-1].Tag, "ArtifactOf") || at <= len(b.ps) && b.sec[at] != kind) {
				at = starts[k+1] + 1
			}
		} else {
			at = end
			tags := tvTagsOf[kind]
			t := pick(b.r, tags)
			for strings.HasPrefix(t, "ExternalRef") || strings.HasPrefix(t, "ArtifactOf") || t == "FilesAnalyzed" || t == "PackageVerificationCode" {
				t = pick(b.r, tags)
			}
			gap = []tvPair{{Tag: t, Val: goodVal(t), Bound: true}}
			if b.r.Chance(0.2) {
				gap = []tvPair{{Tag: "Relationship", Val: "SPDXRef-a DESCRIBES SPDXRef-b", Bound: true}}
			} else if b.r.Chance(0.2) {
				gap = []tvPair{{Tag: "Annotator", Val: "Person: x", Bound: true}}
			}
		}
		b.where = b.sec[at]
		rest := append([]tvPair{}, b.ps[at:]...)
		mid := append([]tvPair{}, b.ps[end:at]...)
		b.ps = append(append([]tvPair{}, b.ps[:end]...), owner...)
		b.ps = append(append(append(b.ps, mid...), gap...), dep)
		b.ps = append(b.ps, rest...)
		return true
	}},
	{"version", func(b *badTV) bool {
		at := b.find("SPDXVersion")
		i := at[0]
		if b.r.Chance(0.2) {
			b.ps = append(b.ps[:i], b.ps[i+1:]...)
			b.where = "removed"
			return true
		}
		b.where = "changed"
		b.ps[i].Val = pick(b.r, []string{"", "SPDX-2.0", "SPDX-2.4", "SPDX-1.2", "SPDX-3.0", "2.3", "spdx-2.3", "SPDX2.3", "SPDX-2.3.0", "SPDX-2.", "SPDX-2.30", "SPDX 2.2"})
		return true
	}},
	{"line-without-colon", func(b *badTV) bool {
		i := b.anywhere()
		b.where = b.sec[i]
		b.raw[i] = pick(b.r, []string{"garbage", "PackageName Foo", "</text>", "<text>lost</text>", "- item", "{", "PackageName", "  stray continuation of a text", "\u65e5\u672c"}) + "\n"
		return true
	}},
	{"unterminated-text", func(b *badTV) bool {
		i := len(b.ps)
		b.where = b.sec[i]
		tag := pick(b.r, []string{"RelationshipComment", "PackageComment", "FileComment", "ReviewComment", "LicenseComment"})
		b.raw[i] = tag + ": <text>begins here" + pick(b.r, []string{"", "\n", "\nand goes on\n", "\nAnnotator: Person: x\n", "</text", "\n< /text>\n", " <text>\n"})
		return true
	}},
	{"truncated-text", func(b *badTV) bool {
		// the last value is a text that the end of the input cuts off
		for i := len(b.ps) - 1; i > 0; i-- {
			if len(b.ps[i].Val) > 2 && strings.Contains(b.ps[i].Val, "\n") {
				b.where = b.sec[i]
				p := b.ps[i]
				b.ps = b.ps[:i]
				b.raw[i] = p.Tag + ": <text>" + p.Val[:b.r.In(1, len(p.Val))]
				return true
			}
		}
		return false
	}},
	{"no-pairs", func(b *badTV) bool {
		b.where = "document"
		b.ps = nil
		b.raw[0] = pick(b.r, []string{"", "\n\n", "# only a comment\n", "   \n\t\n#\n"})
		return true
	}},
}

func (b *badTV) text() string {
	nl := "\n"
	if b.st.crlf {
		nl = "\r\n"
	}
	var sb strings.Builder
	for i := 0; i <= len(b.ps); i++ {
		sb.WriteString(b.raw[i])
		if i == len(b.ps) {
			break
		}
		one := b.st.spell([]tvPair{b.ps[i]})
		sb.WriteString(one)
		if !strings.HasSuffix(one, "\n") {
			sb.WriteString(nl)
		}
	}
	return sb.String()
}

func runT05(c *Case) {
	v := caseVersion(c)
	g := newGen(c, v, "tv")
	d := g.doc()
	r := c.R
	st := newTVStyle(r)
	mk := func() *badTV {
		b := &badTV{c: c, r: r, v: v, st: st, raw: map[int]string{}, ps: st.order(tvSections(d, v))}
		b.index()
		return b
	}
	ctl := mk().text()
	c.Input([]byte(ctl))
	if err := stv.ReadInto(strings.NewReader(ctl), newDoc(v)); err != nil {
		c.Violationf("tagvalue.ReadInto rejects a valid %s document: %v", verString(v), err)
		return
	}
	c.Count("controls_accepted")
	for k := 0; k < 6; k++ {
		f := tvFaults[(c.Idx*6+k)%len(tvFaults)]
		b := mk()
		st2 := *st
		st2.spacing = false
		b.st = &st2
		if !f.do(b) {
			continue
		}
		txt := b.text()
		c.Input([]byte(txt))
		c.Stage("fault " + f.name)
		before := &v2_3.Document{DocumentName: "earlier", Packages: []*v2_3.Package{{PackageName: "p"}}}
		snap := clone(before)
		if err := stv.ReadInto(strings.NewReader(txt), before); err == nil {
			c.Violationf("tagvalue.ReadInto accepts a %s document with the fault %s in its %s section", verString(v), f.name, b.where)
			return
		}
		if df := diff(before, snap); df != "" {
			c.Violationf("tagvalue.ReadInto returned an error (fault %s) but changed its target: %s", f.name, df)
			return
		}
		if _, err := stv.Read(strings.NewReader(txt)); err == nil {
			c.Violationf("tagvalue.Read accepts a %s document with the fault %s in its %s section", verString(v), f.name, b.where)
			return
		}
		c.Count("faults_rejected")
		c.Count("fault:" + f.name)
		c.Distinct("fault_and_section", f.name, b.where, v)
		c.Seen(f.name, b.where, v, len(b.ps), txt)
		if k == 0 && c.Idx < 4 {
			c.Sample(map[string]any{"fault": f.name, "section": b.where, "version": verString(v), "bytes": len(txt), "pairs": fmt.Sprint(len(b.ps))})
		}
	}
}
