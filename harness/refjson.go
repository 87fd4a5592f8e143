package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// Reference rendering of a document as an SPDX JSON tree, written from the SPDX 2.x JSON schema (property names,
// identifier prefixes, "Type: name" strings), not from the struct tags of the code under test.

type obj = map[string]any

func put(o obj, k string, v any) {
	switch t := v.(type) {
	case string:
		if t != "" {
			o[k] = t
		}
	case []string:
		if len(t) > 0 {
			a := make([]any, len(t))
			for i, s := range t {
				a[i] = s
			}
			o[k] = a
		}
	case []any:
		if len(t) > 0 {
			o[k] = t
		}
	case obj:
		if len(t) > 0 {
			o[k] = t
		}
	case bool, float64:
		o[k] = v
	default:
		panic(fmt.Sprintf("put %T", v))
	}
}

func refElem(e common.ElementID) string { return "SPDXRef-" + string(e) }

func refDocElem(d common.DocElementID) string {
	if d.ElementRefID == "" && d.DocumentRefID == "" {
		return d.SpecialID
	}
	if d.DocumentRefID != "" {
		return "DocumentRef-" + string(d.DocumentRefID) + ":" + refElem(d.ElementRefID)
	}
	return refElem(d.ElementRefID)
}

func typed(t, n string) string {
	if t == "" {
		return n
	}
	return t + ": " + n
}

func jsonChecksums(cs []common.Checksum) []any {
	var out []any
	for _, c := range cs {
		out = append(out, jsonChecksum(c))
	}
	return out
}

func jsonChecksum(c common.Checksum) obj {
	o := obj{}
	put(o, "algorithm", string(c.Algorithm))
	put(o, "checksumValue", c.Value)
	return o
}

func jsonAnn(a v2_3.Annotation) obj {
	o := obj{}
	put(o, "annotator", typed(a.Annotator.AnnotatorType, a.Annotator.Annotator))
	put(o, "annotationDate", a.AnnotationDate)
	put(o, "annotationType", a.AnnotationType)
	put(o, "comment", a.AnnotationComment)
	return o
}

func jsonFile(f *v2_3.File, v int) obj {
	o := obj{}
	put(o, "fileName", f.FileName)
	put(o, "SPDXID", refElem(f.FileSPDXIdentifier))
	put(o, "fileTypes", f.FileTypes)
	put(o, "checksums", jsonChecksums(f.Checksums))
	put(o, "licenseConcluded", f.LicenseConcluded)
	put(o, "licenseInfoInFiles", f.LicenseInfoInFiles)
	put(o, "licenseComments", f.LicenseComments)
	put(o, "copyrightText", f.FileCopyrightText)
	put(o, "comment", f.FileComment)
	put(o, "noticeText", f.FileNotice)
	put(o, "fileContributors", f.FileContributors)
	if v >= 2 {
		put(o, "attributionTexts", f.FileAttributionTexts)
	}
	if v >= 3 {
		put(o, "fileDependencies", f.FileDependencies)
		var aops []any
		for _, a := range f.ArtifactOfProjects {
			ao := obj{}
			put(ao, "name", a.Name)
			put(ao, "homePage", a.HomePage)
			put(ao, "URI", a.URI)
			aops = append(aops, ao)
		}
		put(o, "artifactOfs", aops)
	}
	var as []any
	for _, a := range f.Annotations {
		as = append(as, jsonAnn(a))
	}
	put(o, "annotations", as)
	return o
}

// category spelling of the version's schema
func jsonCategory(c string, v int) string {
	switch v {
	case 2:
		return strings.ReplaceAll(c, "-", "_")
	case 3:
		return strings.ReplaceAll(c, "_", "-")
	}
	return c
}

func jsonPackage(p *v2_3.Package, v int) obj {
	o := obj{}
	put(o, "name", p.PackageName)
	put(o, "SPDXID", refElem(p.PackageSPDXIdentifier))
	put(o, "versionInfo", p.PackageVersion)
	put(o, "packageFileName", p.PackageFileName)
	if s := p.PackageSupplier; s != nil {
		put(o, "supplier", typed(s.SupplierType, s.Supplier))
	}
	if s := p.PackageOriginator; s != nil {
		put(o, "originator", typed(s.OriginatorType, s.Originator))
	}
	put(o, "downloadLocation", p.PackageDownloadLocation)
	if v >= 2 || p.FilesAnalyzed {
		put(o, "filesAnalyzed", p.FilesAnalyzed)
	}
	if c := p.PackageVerificationCode; c != nil {
		co := obj{}
		put(co, "packageVerificationCodeValue", c.Value)
		put(co, "packageVerificationCodeExcludedFiles", c.ExcludedFiles)
		put(o, "packageVerificationCode", co)
	}
	put(o, "checksums", jsonChecksums(p.PackageChecksums))
	put(o, "homepage", p.PackageHomePage)
	put(o, "sourceInfo", p.PackageSourceInfo)
	put(o, "licenseConcluded", p.PackageLicenseConcluded)
	put(o, "licenseInfoFromFiles", p.PackageLicenseInfoFromFiles)
	put(o, "licenseDeclared", p.PackageLicenseDeclared)
	put(o, "licenseComments", p.PackageLicenseComments)
	put(o, "copyrightText", p.PackageCopyrightText)
	put(o, "summary", p.PackageSummary)
	put(o, "description", p.PackageDescription)
	put(o, "comment", p.PackageComment)
	var refs []any
	for _, r := range p.PackageExternalReferences {
		ro := obj{}
		put(ro, "referenceCategory", jsonCategory(r.Category, v))
		put(ro, "referenceType", r.RefType)
		put(ro, "referenceLocator", r.Locator)
		put(ro, "comment", r.ExternalRefComment)
		refs = append(refs, ro)
	}
	put(o, "externalRefs", refs)
	if v >= 2 {
		put(o, "attributionTexts", p.PackageAttributionTexts)
	}
	if v >= 3 {
		put(o, "primaryPackagePurpose", p.PrimaryPackagePurpose)
		put(o, "releaseDate", p.ReleaseDate)
		put(o, "builtDate", p.BuiltDate)
		put(o, "validUntilDate", p.ValidUntilDate)
	}
	var fs []any
	for _, f := range p.Files {
		fs = append(fs, jsonFile(f, v))
	}
	put(o, "files", fs)
	var as []any
	for _, a := range p.Annotations {
		as = append(as, jsonAnn(a))
	}
	put(o, "annotations", as)
	return o
}

func jsonRel(r *v2_3.Relationship) obj {
	o := obj{}
	put(o, "spdxElementId", refDocElem(r.RefA))
	put(o, "relatedSpdxElement", refDocElem(r.RefB))
	put(o, "relationshipType", r.Relationship)
	put(o, "comment", r.RelationshipComment)
	return o
}

func jsonTree(d *v2_3.Document, v int) obj {
	o := obj{}
	put(o, "spdxVersion", d.SPDXVersion)
	put(o, "dataLicense", d.DataLicense)
	put(o, "SPDXID", refElem(d.SPDXIdentifier))
	put(o, "name", d.DocumentName)
	put(o, "documentNamespace", d.DocumentNamespace)
	put(o, "comment", d.DocumentComment)
	var l []any
	for _, e := range d.ExternalDocumentReferences {
		eo := obj{}
		put(eo, "externalDocumentId", "DocumentRef-"+string(e.DocumentRefID))
		put(eo, "spdxDocument", e.URI)
		put(eo, "checksum", jsonChecksum(e.Checksum))
		l = append(l, eo)
	}
	put(o, "externalDocumentRefs", l)
	if ci := d.CreationInfo; ci != nil {
		co := obj{}
		put(co, "licenseListVersion", ci.LicenseListVersion)
		put(co, "created", ci.Created)
		put(co, "comment", ci.CreatorComment)
		var cs []string
		for _, c := range ci.Creators {
			cs = append(cs, typed(c.CreatorType, c.Creator))
		}
		put(co, "creators", cs)
		put(o, "creationInfo", co)
	}
	l = nil
	for _, p := range d.Packages {
		l = append(l, jsonPackage(p, v))
	}
	put(o, "packages", l)
	l = nil
	for _, f := range d.Files {
		l = append(l, jsonFile(f, v))
	}
	put(o, "files", l)
	l = nil
	for _, x := range d.OtherLicenses {
		lo := obj{}
		put(lo, "licenseId", x.LicenseIdentifier)
		put(lo, "extractedText", x.ExtractedText)
		put(lo, "name", x.LicenseName)
		put(lo, "seeAlsos", x.LicenseCrossReferences)
		put(lo, "comment", x.LicenseComment)
		l = append(l, lo)
	}
	put(o, "hasExtractedLicensingInfos", l)
	l = nil
	for _, r := range d.Relationships {
		l = append(l, jsonRel(r))
	}
	put(o, "relationships", l)
	l = nil
	for _, a := range d.Annotations {
		l = append(l, jsonAnn(*a))
	}
	put(o, "annotations", l)
	l = nil
	for _, s := range d.Snippets {
		so := obj{}
		put(so, "SPDXID", refElem(s.SnippetSPDXIdentifier))
		put(so, "snippetFromFile", refElem(s.SnippetFromFileSPDXIdentifier))
		put(so, "licenseConcluded", s.SnippetLicenseConcluded)
		put(so, "licenseInfoInSnippets", s.LicenseInfoInSnippet)
		put(so, "licenseComments", s.SnippetLicenseComments)
		put(so, "copyrightText", s.SnippetCopyrightText)
		put(so, "comment", s.SnippetComment)
		put(so, "name", s.SnippetName)
		var rs []any
		for _, r := range s.Ranges {
			rs = append(rs, obj{"startPointer": jsonPtr(r.StartPointer), "endPointer": jsonPtr(r.EndPointer)})
		}
		put(so, "ranges", rs)
		l = append(l, so)
	}
	put(o, "snippets", l)
	return o
}

func jsonPtr(p common.SnippetRangePointer) obj {
	o := obj{}
	put(o, "reference", refElem(p.FileSPDXIdentifier))
	if p.Offset != 0 {
		put(o, "offset", float64(p.Offset))
	}
	if p.LineNumber != 0 {
		put(o, "lineNumber", float64(p.LineNumber))
	}
	return o
}

// afterJSON is what a document must look like once its JSON form has been read back: the parts that the JSON form
// does not have are gone, and the filesAnalyzed tag, which the writer always emits from 2.2 on, is marked present.
func afterJSON(d *v2_3.Document, v int) *v2_3.Document {
	n := clone(d)
	n.Reviews = nil
	fixF := func(f *v2_3.File) {
		f.Snippets = nil
		if v < 3 {
			f.ArtifactOfProjects = nil
			f.FileDependencies = nil
		}
		for i := range f.Annotations {
			f.Annotations[i].AnnotationSPDXIdentifier = common.DocElementID{}
		}
	}
	for _, p := range n.Packages {
		p.IsFilesAnalyzedTagPresent = v >= 2
		p.IsUnpackaged = false
		for _, f := range p.Files {
			fixF(f)
		}
		for i := range p.Annotations {
			p.Annotations[i].AnnotationSPDXIdentifier = common.DocElementID{}
		}
	}
	for _, f := range n.Files {
		fixF(f)
	}
	for _, a := range n.Annotations {
		a.AnnotationSPDXIdentifier = common.DocElementID{}
	}
	for i := range n.Snippets {
		n.Snippets[i].SnippetAttributionTexts = nil
	}
	return n
}

// prune removes what an absent key would mean anyway: "", null, [], {}, 0 — booleans stay (filesAnalyzed: false is
// not the default), except in 2.1, where false is what absence reads as.
func prune(v any, ver int) any {
	switch t := v.(type) {
	case map[string]any:
		o := obj{}
		for k, e := range t {
			p := prune(e, ver)
			switch q := p.(type) {
			case nil:
				continue
			case string:
				if q == "" {
					continue
				}
			case []any:
				if len(q) == 0 {
					continue
				}
			case obj:
				if len(q) == 0 {
					continue
				}
			case float64:
				if q == 0 {
					continue
				}
			case bool:
				if ver == 1 && !q {
					continue
				}
			}
			o[k] = p
		}
		return o
	case []any:
		out := make([]any, len(t))
		for i, e := range t {
			out[i] = prune(e, ver)
		}
		return out
	}
	return v
}

// treeDiff compares two decoded JSON trees.
func treeDiff(got, want any, path string) string {
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		if !ok {
			return fmt.Sprintf("%s: got %s, want an object", path, clip(fmt.Sprint(got), 120))
		}
		ks := map[string]bool{}
		for k := range g {
			ks[k] = true
		}
		for k := range w {
			ks[k] = true
		}
		for _, k := range sortedKeys(ks) {
			gv, ok1 := g[k]
			wv, ok2 := w[k]
			if !ok1 {
				return fmt.Sprintf("%s.%s: missing, want %s", path, k, clip(fmt.Sprintf("%q", fmt.Sprint(wv)), 160))
			}
			if !ok2 {
				return fmt.Sprintf("%s.%s: unexpected %s", path, k, clip(fmt.Sprintf("%q", fmt.Sprint(gv)), 160))
			}
			if d := treeDiff(gv, wv, path+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok {
			return fmt.Sprintf("%s: got %T, want a list", path, got)
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: got %d elements, want %d", path, len(g), len(w))
		}
		for i := range w {
			if d := treeDiff(g[i], w[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s: got %s, want %s", path, clip(fmt.Sprintf("%#v", got), 160), clip(fmt.Sprintf("%#v", want), 160))
	}
	return ""
}

func decodeTree(b []byte) (any, error) {
	var v any
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

// jsonStyle spells a tree as JSON text in one of the many ways the grammar allows.
type jsonStyle struct {
	r       *R
	shuffle bool
	ws      int     // 0 none, 1 some, 2 wild
	esc     float64 // chance that a character is written as an escape
	unknown float64 // chance of an extra, unknown member per object
	nulls   bool
}

func newJSONStyle(r *R) *jsonStyle {
	s := &jsonStyle{r: r, shuffle: r.Chance(0.6), ws: r.N(3)}
	if r.Chance(0.6) {
		s.esc = pick(r, []float64{0.01, 0.1, 0.5, 1})
	}
	if r.Chance(0.4) {
		s.unknown = 0.15
	}
	return s
}

func (s *jsonStyle) space(sb *strings.Builder) {
	if s.ws == 0 {
		return
	}
	if s.ws == 1 {
		if s.r.Chance(0.3) {
			sb.WriteByte(' ')
		}
		return
	}
	for s.r.Chance(0.5) {
		sb.WriteString(pick(s.r, []string{" ", "\n", "\t", "\r\n", "  "}))
	}
}

func (s *jsonStyle) str(sb *strings.Builder, v string, esc bool) {
	sb.WriteByte('"')
	for _, c := range v {
		switch {
		case esc && s.esc > 0 && s.r.Chance(s.esc):
			if c > 0xffff {
				a, b := utf16.EncodeRune(c)
				fmt.Fprintf(sb, "\\u%04x\\u%04X", a, b)
			} else if c == '/' && s.r.Chance(0.5) {
				sb.WriteString("\\/")
			} else {
				fmt.Fprintf(sb, "\\u%04x", c)
			}
		case c == '"':
			sb.WriteString("\\\"")
		case c == '\\':
			sb.WriteString("\\\\")
		case c == '\n':
			sb.WriteString("\\n")
		case c == '\t':
			sb.WriteString("\\t")
		case c == '\r':
			sb.WriteString("\\r")
		case c < 0x20:
			fmt.Fprintf(sb, "\\u%04X", c)
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
}

var unknownKeys = []string{"x-vendor", "$schema", "annotation", "id", "Spdx", "package", "artifact", "ext", "refs", "documentDescribe", "licenseInfo"}

func (s *jsonStyle) render(sb *strings.Builder, v any) {
	s.space(sb)
	switch t := v.(type) {
	case obj:
		keys := sortedKeys(t)
		if s.shuffle {
			s.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		sb.WriteByte('{')
		first := true
		sep := func() {
			if !first {
				sb.WriteByte(',')
			}
			first = false
			s.space(sb)
		}
		for _, k := range keys {
			if s.unknown > 0 && s.r.Chance(s.unknown) {
				sep()
				s.str(sb, pick(s.r, unknownKeys)+fmt.Sprint(len(sb.String())), false)
				sb.WriteByte(':')
				s.render(sb, pick(s.r, []any{"v", 12.5, true, nil, []any{"a", 1.0}, obj{"SPDXID": "x", "name": "y"}}))
			}
			sep()
			s.str(sb, k, true)
			s.space(sb)
			sb.WriteByte(':')
			s.render(sb, t[k])
		}
		s.space(sb)
		sb.WriteByte('}')
	case []any:
		sb.WriteByte('[')
		for i, e := range t {
			if i > 0 {
				sb.WriteByte(',')
			}
			s.render(sb, e)
		}
		s.space(sb)
		sb.WriteByte(']')
	case string:
		s.str(sb, t, true)
	case bool:
		fmt.Fprint(sb, t)
	case float64:
		sb.WriteString(jsonNumber(t))
	case nil:
		sb.WriteString("null")
	default:
		panic(fmt.Sprintf("render %T", v))
	}
	s.space(sb)
}

func (s *jsonStyle) text(v any) string {
	var sb strings.Builder
	s.render(&sb, v)
	return sb.String()
}

func sortStrings(s []string) []string {
	o := append([]string{}, s...)
	sort.Strings(o)
	return o
}

// required lists, by the list or object holding them, the members the JSON schemas require: these are written though
// empty.
var required = map[string][]string{
	"":                           {"spdxVersion", "SPDXID", "dataLicense", "name", "documentNamespace", "creationInfo"},
	"creationInfo":               {"created", "creators"},
	"externalDocumentRefs":       {"externalDocumentId", "spdxDocument", "checksum"},
	"checksum":                   {"algorithm", "checksumValue"},
	"checksums":                  {"algorithm", "checksumValue"},
	"annotations":                {"annotationDate", "annotationType", "annotator", "comment", "spdxElementId"},
	"files":                      {"SPDXID", "fileName", "checksums", "copyrightText", "licenseConcluded", "licenseInfoInFiles"},
	"artifactOfs":                {"URI", "homePage", "name"},
	"packages":                   {"SPDXID", "name", "downloadLocation", "filesAnalyzed", "copyrightText", "licenseConcluded", "licenseDeclared", "licenseInfoFromFiles"},
	"externalRefs":               {"referenceCategory", "referenceType", "referenceLocator"},
	"packageVerificationCode":    {"packageVerificationCodeValue"},
	"hasExtractedLicensingInfos": {"licenseId", "extractedText"},
	"relationships":              {"spdxElementId", "relatedSpdxElement", "relationshipType"},
	"snippets":                   {"SPDXID", "snippetFromFile", "ranges", "copyrightText", "licenseConcluded"},
}

// requiredBefore23 are the members of that list SPDX 2.3 made optional, licenseInfoFromFiles being so since 2.2.
var requiredBefore23 = map[string][]string{
	"files":    {"licenseConcluded", "licenseInfoInFiles"},
	"packages": {"copyrightText", "licenseConcluded", "licenseDeclared", "licenseInfoFromFiles"},
	"snippets": {"licenseConcluded"},
}

// invented returns the path of a member that says nothing ("", null, 0, an empty list or object) and need not be there.
func invented(v any, ver int, holder, path string) string {
	switch t := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(t) {
			e, empty := t[k], false
			switch x := e.(type) {
			case nil:
				empty = true
			case string:
				empty = x == ""
			case float64:
				empty = x == 0
			case []any:
				empty = len(x) == 0
			case map[string]any:
				empty = len(x) == 0
			}
			if empty && (!slices.Contains(required[holder], k) || ver == 3 && slices.Contains(requiredBefore23[holder], k) || ver == 2 && k == "licenseInfoFromFiles") {
				return path + "." + k
			}
			if p := invented(e, ver, k, path+"."+k); p != "" {
				return p
			}
		}
	case []any:
		for i, e := range t {
			if p := invented(e, ver, holder, fmt.Sprintf("%s[%d]", path, i)); p != "" {
				return p
			}
		}
	}
	return ""
}
