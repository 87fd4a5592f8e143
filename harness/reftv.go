package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// Reference rendering of a document as tag-value sections, written from the SPDX tag-value format.

type tvPair struct {
	Tag, Val string
	Bound    bool // must stay directly behind the pair before it
}

type tvSec struct {
	Kind  string // header, package, file, snippet, license, relationship, annotation, review
	Pairs []tvPair
}

type tvb struct{ s *tvSec }

func (b tvb) add(tag, val string) {
	if val != "" {
		b.s.Pairs = append(b.s.Pairs, tvPair{Tag: tag, Val: val})
	}
}
func (b tvb) bound(tag, val string) {
	if val != "" {
		b.s.Pairs = append(b.s.Pairs, tvPair{Tag: tag, Val: val, Bound: true})
	}
}
func (b tvb) list(tag string, vals []string) {
	for _, v := range vals {
		b.s.Pairs = append(b.s.Pairs, tvPair{Tag: tag, Val: v})
	}
}

func tvFile(f *v2_3.File, v int) []tvSec {
	s := tvSec{Kind: "file"}
	b := tvb{&s}
	b.add("FileName", f.FileName)
	b.add("SPDXID", refElem(f.FileSPDXIdentifier))
	b.list("FileType", f.FileTypes)
	for _, c := range f.Checksums {
		b.add("FileChecksum", string(c.Algorithm)+": "+c.Value)
	}
	b.add("LicenseConcluded", f.LicenseConcluded)
	b.list("LicenseInfoInFile", f.LicenseInfoInFiles)
	b.add("LicenseComments", f.LicenseComments)
	b.add("FileCopyrightText", f.FileCopyrightText)
	for _, a := range f.ArtifactOfProjects {
		b.add("ArtifactOfProjectName", a.Name)
		b.bound("ArtifactOfProjectHomePage", a.HomePage)
		b.bound("ArtifactOfProjectURI", a.URI)
	}
	b.add("FileComment", f.FileComment)
	b.add("FileNotice", f.FileNotice)
	b.list("FileContributor", f.FileContributors)
	if v >= 2 {
		b.list("FileAttributionText", f.FileAttributionTexts)
	}
	b.list("FileDependency", f.FileDependencies)
	out := []tvSec{s}
	var ids []string
	for k := range f.Snippets {
		ids = append(ids, string(k))
	}
	sort.Strings(ids)
	for _, id := range ids {
		out = append(out, tvSnippet(f.Snippets[common.ElementID(id)], v))
	}
	return out
}

func tvSnippet(sn *v2_3.Snippet, v int) tvSec {
	s := tvSec{Kind: "snippet"}
	b := tvb{&s}
	b.add("SnippetSPDXID", refElem(sn.SnippetSPDXIdentifier))
	if sn.SnippetFromFileSPDXIdentifier != "" {
		b.add("SnippetFromFileSPDXID", refElem(sn.SnippetFromFileSPDXIdentifier))
	}
	for _, r := range sn.Ranges {
		if r.StartPointer.Offset != 0 {
			b.add("SnippetByteRange", fmt.Sprintf("%d:%d", r.StartPointer.Offset, r.EndPointer.Offset))
		}
		if r.StartPointer.LineNumber != 0 {
			b.add("SnippetLineRange", fmt.Sprintf("%d:%d", r.StartPointer.LineNumber, r.EndPointer.LineNumber))
		}
	}
	b.add("SnippetLicenseConcluded", sn.SnippetLicenseConcluded)
	b.list("LicenseInfoInSnippet", sn.LicenseInfoInSnippet)
	b.add("SnippetLicenseComments", sn.SnippetLicenseComments)
	b.add("SnippetCopyrightText", sn.SnippetCopyrightText)
	b.add("SnippetComment", sn.SnippetComment)
	b.add("SnippetName", sn.SnippetName)
	if v >= 2 {
		b.list("SnippetAttributionText", sn.SnippetAttributionTexts)
	}
	return s
}

func tvPackage(p *v2_3.Package, v int) []tvSec {
	s := tvSec{Kind: "package"}
	b := tvb{&s}
	b.add("PackageName", p.PackageName)
	b.add("SPDXID", refElem(p.PackageSPDXIdentifier))
	b.add("PackageVersion", p.PackageVersion)
	b.add("PackageFileName", p.PackageFileName)
	if x := p.PackageSupplier; x != nil {
		b.add("PackageSupplier", typed(x.SupplierType, x.Supplier))
	}
	if x := p.PackageOriginator; x != nil {
		b.add("PackageOriginator", typed(x.OriginatorType, x.Originator))
	}
	b.add("PackageDownloadLocation", p.PackageDownloadLocation)
	if v >= 3 {
		b.add("PrimaryPackagePurpose", p.PrimaryPackagePurpose)
		b.add("ReleaseDate", p.ReleaseDate)
		b.add("BuiltDate", p.BuiltDate)
		b.add("ValidUntilDate", p.ValidUntilDate)
	}
	if !p.FilesAnalyzed {
		b.add("FilesAnalyzed", "false")
	} else if p.IsFilesAnalyzedTagPresent {
		b.add("FilesAnalyzed", "true")
	}
	if c := p.PackageVerificationCode; c != nil && p.FilesAnalyzed && c.Value != "" {
		val := c.Value
		if len(c.ExcludedFiles) > 0 {
			val += " (excludes: " + strings.Join(c.ExcludedFiles, ", ") + ")"
		}
		b.add("PackageVerificationCode", val)
	}
	for _, c := range p.PackageChecksums {
		b.add("PackageChecksum", string(c.Algorithm)+": "+c.Value)
	}
	b.add("PackageHomePage", p.PackageHomePage)
	b.add("PackageSourceInfo", p.PackageSourceInfo)
	b.add("PackageLicenseConcluded", p.PackageLicenseConcluded)
	if p.FilesAnalyzed {
		b.list("PackageLicenseInfoFromFiles", p.PackageLicenseInfoFromFiles)
	}
	b.add("PackageLicenseDeclared", p.PackageLicenseDeclared)
	b.add("PackageLicenseComments", p.PackageLicenseComments)
	b.add("PackageCopyrightText", p.PackageCopyrightText)
	b.add("PackageSummary", p.PackageSummary)
	b.add("PackageDescription", p.PackageDescription)
	b.add("PackageComment", p.PackageComment)
	for _, r := range p.PackageExternalReferences {
		b.add("ExternalRef", r.Category+" "+r.RefType+" "+r.Locator)
		b.bound("ExternalRefComment", r.ExternalRefComment)
	}
	if v >= 2 {
		b.list("PackageAttributionText", p.PackageAttributionTexts)
	}
	out := []tvSec{s}
	for _, f := range p.Files {
		out = append(out, tvFile(f, v)...)
	}
	return out
}

// tvSections renders a document (lists already in identifier order).
func tvSections(d *v2_3.Document, v int) []tvSec {
	h := tvSec{Kind: "header"}
	b := tvb{&h}
	b.add("SPDXVersion", d.SPDXVersion)
	b.add("DataLicense", d.DataLicense)
	b.add("SPDXID", refElem(d.SPDXIdentifier))
	b.add("DocumentName", d.DocumentName)
	b.add("DocumentNamespace", d.DocumentNamespace)
	for _, e := range d.ExternalDocumentReferences {
		b.add("ExternalDocumentRef", fmt.Sprintf("DocumentRef-%s %s %s:%s", e.DocumentRefID, e.URI, e.Checksum.Algorithm, e.Checksum.Value))
	}
	b.add("DocumentComment", d.DocumentComment)
	if ci := d.CreationInfo; ci != nil {
		b.add("LicenseListVersion", ci.LicenseListVersion)
		for _, c := range ci.Creators {
			b.add("Creator", typed(c.CreatorType, c.Creator))
		}
		b.add("Created", ci.Created)
		b.add("CreatorComment", ci.CreatorComment)
	}
	out := []tvSec{h}
	for _, f := range d.Files {
		out = append(out, tvFile(f, v)...)
	}
	for _, p := range d.Packages {
		out = append(out, tvPackage(p, v)...)
	}
	for _, l := range d.OtherLicenses {
		s := tvSec{Kind: "license"}
		b := tvb{&s}
		b.add("LicenseID", l.LicenseIdentifier)
		b.add("ExtractedText", l.ExtractedText)
		b.add("LicenseName", l.LicenseName)
		b.list("LicenseCrossReference", l.LicenseCrossReferences)
		b.add("LicenseComment", l.LicenseComment)
		out = append(out, s)
	}
	for _, r := range d.Relationships {
		s := tvSec{Kind: "relationship"}
		b := tvb{&s}
		b.add("Relationship", refDocElem(r.RefA)+" "+r.Relationship+" "+refDocElem(r.RefB))
		b.add("RelationshipComment", r.RelationshipComment)
		out = append(out, s)
	}
	for _, a := range d.Annotations {
		s := tvSec{Kind: "annotation"}
		b := tvb{&s}
		b.add("Annotator", typed(a.Annotator.AnnotatorType, a.Annotator.Annotator))
		b.add("AnnotationDate", a.AnnotationDate)
		b.add("AnnotationType", a.AnnotationType)
		if a.AnnotationSPDXIdentifier.ElementRefID != "" {
			b.add("SPDXREF", refDocElem(a.AnnotationSPDXIdentifier))
		}
		b.add("AnnotationComment", a.AnnotationComment)
		out = append(out, s)
	}
	for _, x := range d.Reviews {
		s := tvSec{Kind: "review"}
		b := tvb{&s}
		b.add("Reviewer", typed(x.ReviewerType, x.Reviewer))
		b.add("ReviewDate", x.ReviewDate)
		b.add("ReviewComment", x.ReviewComment)
		out = append(out, s)
	}
	return out
}

// afterTV is the document as reading its tag-value form back must give it.
func afterTV(d *v2_3.Document) *v2_3.Document {
	n := clone(d)
	sortDoc(n)
	n.Snippets = nil
	fix := func(f *v2_3.File) {
		f.Annotations = nil
		for _, s := range f.Snippets {
			for i := range s.Ranges {
				s.Ranges[i].StartPointer.FileSPDXIdentifier = ""
				s.Ranges[i].EndPointer.FileSPDXIdentifier = ""
			}
		}
	}
	for _, p := range n.Packages {
		p.Annotations = nil
		p.IsUnpackaged = false
		if !p.FilesAnalyzed {
			p.IsFilesAnalyzedTagPresent = true
			p.PackageVerificationCode = nil
			p.PackageLicenseInfoFromFiles = nil
		}
		for _, f := range p.Files {
			fix(f)
		}
	}
	for _, f := range n.Files {
		fix(f)
	}
	return n
}

// ---- an independent line-level reading of tag-value text, for judging the writer

type rawTV struct{ Tag, Val string }

func refTokenize(text string) ([]rawTV, error) {
	var out []rawTV
	i := 0
	n := len(text)
	for i < n {
		// one logical line
		e := strings.IndexByte(text[i:], '\n')
		var ln string
		next := n
		if e >= 0 {
			ln = text[i : i+e]
			next = i + e + 1
		} else {
			ln = text[i:]
		}
		t := strings.TrimSpace(ln)
		if t == "" || t[0] == '#' {
			i = next
			continue
		}
		col := strings.IndexByte(ln, ':')
		if col < 0 {
			return nil, fmt.Errorf("no colon in %q", ln)
		}
		tag := strings.TrimSpace(ln[:col])
		open := strings.Index(ln[col+1:], "<text>")
		if open < 0 {
			out = append(out, rawTV{tag, strings.TrimSpace(ln[col+1:])})
			i = next
			continue
		}
		start := i + col + 1 + open + len("<text>")
		end := strings.Index(text[start:], "</text>")
		if end < 0 {
			return nil, fmt.Errorf("unterminated <text> for %s", tag)
		}
		out = append(out, rawTV{tag, text[start : start+end]})
		rest := start + end + len("</text>")
		e = strings.IndexByte(text[rest:], '\n')
		if e < 0 {
			i = n
		} else {
			i = rest + e + 1
		}
	}
	return out, nil
}

var secStart = map[string]string{"PackageName": "package", "FileName": "file", "SnippetSPDXID": "snippet", "LicenseID": "license", "Relationship": "relationship", "Annotator": "annotation", "Reviewer": "review"}

func splitSections(tv []rawTV) []tvSec {
	out := []tvSec{{Kind: "header"}}
	for _, p := range tv {
		if k := secStart[p.Tag]; k != "" {
			out = append(out, tvSec{Kind: k})
		}
		s := &out[len(out)-1]
		s.Pairs = append(s.Pairs, tvPair{Tag: p.Tag, Val: p.Val})
	}
	return out
}

// secCanon reduces a section to tag -> ordered values, with dependent tags joined to what they belong to.
func secCanon(s tvSec) map[string][]string {
	m := map[string][]string{}
	owner := ""
	for _, p := range s.Pairs {
		switch p.Tag {
		case "ExternalRefComment", "ArtifactOfProjectHomePage", "ArtifactOfProjectURI":
			if owner == "" {
				m["!stray "+p.Tag] = append(m["!stray "+p.Tag], p.Val)
				continue
			}
			l := m[owner]
			l[len(l)-1] += "\x00" + p.Tag + "\x00" + p.Val
			continue
		case "ExternalRef", "ArtifactOfProjectName":
			owner = p.Tag
		default:
			owner = ""
		}
		m[p.Tag] = append(m[p.Tag], p.Val)
	}
	return m
}

func secDiff(got, want []tvSec) string {
	// containment order: header, files, packages, snippets in sequence; the rest per kind
	split := func(l []tvSec) (map[string][]tvSec, []string) {
		m := map[string][]tvSec{}
		var seq []string
		for _, s := range l {
			k := s.Kind
			switch k {
			case "header", "package", "file", "snippet":
				k = "main"
				seq = append(seq, s.Kind)
			}
			m[k] = append(m[k], s)
		}
		return m, seq
	}
	gm, gs := split(got)
	wm, ws := split(want)
	if strings.Join(gs, ",") != strings.Join(ws, ",") {
		return fmt.Sprintf("sections are %v, want %v", gs, ws)
	}
	for _, k := range []string{"main", "license", "relationship", "annotation", "review"} {
		if len(gm[k]) != len(wm[k]) {
			return fmt.Sprintf("%d %s sections, want %d", len(gm[k]), k, len(wm[k]))
		}
		for i := range wm[k] {
			g, w := secCanon(gm[k][i]), secCanon(wm[k][i])
			tags := map[string]bool{}
			for t := range g {
				tags[t] = true
			}
			for t := range w {
				tags[t] = true
			}
			for _, t := range sortedKeys(tags) {
				if fmt.Sprintf("%q", g[t]) != fmt.Sprintf("%q", w[t]) {
					return fmt.Sprintf("%s section %d, tag %s: got %s, want %s", wm[k][i].Kind, i, t, clip(fmt.Sprintf("%q", g[t]), 250), clip(fmt.Sprintf("%q", w[t]), 250))
				}
			}
		}
	}
	return ""
}

// ---- spelling sections as tag-value text in the many ways the format allows

type tvStyle struct {
	r       *R
	crlf    bool
	indent  bool
	comment bool
	wrapAll float64
	shuffle bool
	scatter bool // relationships and annotations anywhere
	spacing bool
}

func newTVStyle(r *R) *tvStyle {
	return &tvStyle{r: r, crlf: r.Chance(0.15), indent: r.Chance(0.3), comment: r.Chance(0.4), wrapAll: pick(r, []float64{0, 0, 0.2, 1}), shuffle: r.Chance(0.5), scatter: r.Chance(0.5), spacing: r.Chance(0.4)}
}

var creationTags = map[string]bool{"LicenseListVersion": true, "Creator": true, "Created": true, "CreatorComment": true}

// shufflePairs permutes the pairs behind the first n, keeping bound pairs in place and same-tag order.
func (s *tvStyle) shufflePairs(ps []tvPair, n int) []tvPair {
	type grp []tvPair
	var gs []grp
	for _, p := range ps[n:] {
		if p.Bound && len(gs) > 0 {
			gs[len(gs)-1] = append(gs[len(gs)-1], p)
		} else {
			gs = append(gs, grp{p})
		}
	}
	for _, g := range gs { // the order of what hangs behind a pair is free too
		if len(g) > 2 && s.r.Chance(0.5) {
			g[1], g[2] = g[2], g[1]
		}
	}
	perm := s.r.Perm(len(gs))
	// keep the relative order of groups with one tag
	byTag := map[string][]int{}
	key := func(g grp) string {
		if g[0].Tag == "SnippetByteRange" || g[0].Tag == "SnippetLineRange" {
			return "SnippetRange"
		}
		return g[0].Tag
	}
	for i, g := range gs {
		byTag[key(g)] = append(byTag[key(g)], i)
	}
	next := map[string]int{}
	out := append([]tvPair{}, ps[:n]...)
	for _, i := range perm {
		t := key(gs[i])
		out = append(out, gs[byTag[t][next[t]]]...)
		next[t]++
	}
	return out
}

// order lays the sections out as a pair sequence.
func (s *tvStyle) order(secs []tvSec) []tvPair {
	var main []tvPair
	var float [][]tvPair
	for _, sec := range secs {
		ps := sec.Pairs
		switch sec.Kind {
		case "header":
			if s.shuffle {
				var a, b []tvPair
				late := map[string]bool{"ExternalDocumentRef": s.r.Chance(0.4), "DocumentComment": s.r.Chance(0.4)}
				for _, p := range ps {
					if creationTags[p.Tag] || late[p.Tag] {
						b = append(b, p)
					} else {
						a = append(a, p)
					}
				}
				ps = append(s.shufflePairs(a, 0), s.shufflePairs(b, 0)...)
			}
			main = append(main, ps...)
			continue
		case "relationship", "annotation":
			if s.shuffle && sec.Kind == "annotation" {
				ps = s.shufflePairs(ps, 1)
			}
			if s.scatter {
				float = append(float, ps)
				continue
			}
			float = append(float, ps)
			continue
		}
		if s.shuffle {
			ps = s.shufflePairs(ps, 1)
		}
		main = append(main, ps...)
	}
	hdr := len(secs[0].Pairs)
	if !s.scatter {
		// between the other licences and the reviews, as the writer does
		cut := len(main)
		for i, p := range main {
			if p.Tag == "Reviewer" {
				cut = i
				break
			}
		}
		var out []tvPair
		out = append(out, main[:cut]...)
		for _, f := range float {
			out = append(out, f...)
		}
		return append(out, main[cut:]...)
	}
	// scatter, in order, at legal points
	var points []int
	for i := hdr; i <= len(main); i++ {
		if i == len(main) || !main[i].Bound {
			points = append(points, i)
		}
	}
	at := make([]int, len(float))
	for i := range at {
		at[i] = pick(s.r, points)
	}
	sort.Ints(at)
	var out []tvPair
	k := 0
	for i := 0; i <= len(main); i++ {
		for k < len(at) && at[k] == i {
			out = append(out, float[k]...)
			k++
		}
		if i < len(main) {
			out = append(out, main[i])
		}
	}
	return out
}

func needsWrap(v string) bool {
	return strings.ContainsAny(v, "\n") || strings.TrimSpace(v) != v || strings.Contains(v, "<text>") || v == ""
}

func (s *tvStyle) spellVal(p tvPair) string {
	v := p.Val
	r := s.r
	if s.spacing {
		switch p.Tag {
		case "Relationship", "ExternalRef":
			v = strings.ReplaceAll(v, " ", pick(r, []string{" ", "  ", "   "}))
		case "ExternalDocumentRef":
			f := strings.Split(v, " ")
			if len(f) == 3 && r.Chance(0.5) {
				f[2] = strings.Replace(f[2], ":", ": ", 1)
			}
			v = strings.Join(f, pick(r, []string{" ", "  "}))
		case "Creator", "Annotator", "Reviewer", "FileChecksum", "PackageChecksum":
			v = strings.Replace(v, ": ", pick(r, []string{":", ": ", ":   ", " : "}), 1)
		case "PackageSupplier", "PackageOriginator":
			if v != "NOASSERTION" {
				v = strings.Replace(v, ": ", pick(r, []string{":", ": ", ":  "}), 1)
			}
		case "SnippetByteRange", "SnippetLineRange":
			v = strings.Replace(v, ":", pick(r, []string{":", ": ", " : "}), 1)
		case "PackageVerificationCode":
			v = strings.Replace(v, " (excludes:", pick(r, []string{"(excludes:", " (excludes:", "  (excludes: "}), 1)
		}
	}
	if needsWrap(v) || r.Chance(s.wrapAll) {
		return "<text>" + v + "</text>"
	}
	return v
}

func (s *tvStyle) spell(ps []tvPair) string {
	nl := "\n"
	if s.crlf {
		nl = "\r\n"
	}
	var sb strings.Builder
	for i, p := range ps {
		if s.comment {
			for s.r.Chance(0.25) {
				sb.WriteString(pick(s.r, []string{"", "   ", "# a comment", "  ## PackageName: fake", "#SPDXID: SPDXRef-x <text>", "\t"}) + nl)
			}
		}
		if s.indent && s.r.Chance(0.5) {
			sb.WriteString(pick(s.r, []string{" ", "\t", "    ", "\u00a0"}))
		}
		sb.WriteString(p.Tag)
		if s.indent && s.r.Chance(0.2) {
			sb.WriteString(" ")
		}
		sb.WriteByte(':')
		sb.WriteString(pick(s.r, []string{" ", " ", " ", "", "\t", "  "}))
		v := s.spellVal(p)
		if s.crlf {
			v = strings.ReplaceAll(v, "\n", "\r\n")
		}
		sb.WriteString(v)
		if s.indent && !strings.HasSuffix(v, "</text>") && s.r.Chance(0.3) {
			sb.WriteString(pick(s.r, []string{" ", "\t"}))
		}
		if i < len(ps)-1 || s.r.Chance(0.8) {
			sb.WriteString(nl)
		}
	}
	return sb.String()
}
