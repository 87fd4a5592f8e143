package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"time"

	"sigs.k8s.io/yaml"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
)

func init() {
	register(&Prop{ID: "H01", Rule: genRule + "; spelled in each format and damaged: JSON and YAML trees (values replaced by every other type, null list entries, members deleted, repeated, swapped, subtrees copied elsewhere, deep nesting, YAML anchors, aliases and tags), tag-value pairs (deleted, repeated, moved, retagged, hostile values), RDF graphs (statements dropped, repeated, retargeted into cycles, retyped, literals for nodes), then bytes (flipped, cut, spliced, tokens inserted); plus size ladders of a few megabytes. Every call is watched for panics, fatal errors and time; every document that comes back is given to every writer, converter, validator and report", Quick: 1600, Deep: 30000,
		Need: []string{"json_accepted", "json_rejected", "yaml_accepted", "yaml_rejected", "tagvalue_accepted", "tagvalue_rejected", "rdf_accepted", "rdf_rejected", "documents_handed_on", "size_ladders"}, MinSeen: 300, Run: runH01})
}

const callLimit = 50 * time.Second

// watched runs one call of the code under test: panics and calls that take too long are violations.
func (c *Case) watched(what string, size int, f func()) bool {
	t0 := time.Now()
	ok := c.guard(what, f)
	if d := time.Since(t0); d > callLimit {
		c.ViolationK("slow:"+what, "%s took %v for %d bytes", what, d.Round(time.Millisecond), size)
		return false
	}
	return ok
}

func runH01(c *Case) {
	if c.Idx%50 == 7 {
		ladder(c, c.Idx/50)
		return
	}
	r := c.R
	f := allFormats[c.Idx%4]
	v := 1 + (c.Idx/4)%3
	if f.Name == "rdf" && v == 1 {
		v = 2
	}
	g := newGen(c, v, f.F)
	g.Plain = r.Chance(0.5)
	d := g.doc()
	// one document, damaged again and again in different places
	rounds := map[string]int{"json": 5, "yaml": 3, "tagvalue": 25, "rdf": 1}[f.Name]
	for i := 0; i < rounds && !c.viol; i++ {
		var text, how string
		switch f.Name {
		case "json":
			text, how = hostileJSON(r, d, v)
		case "yaml":
			text, how = hostileYAML(r, d, v)
		case "tagvalue":
			text, how = hostileTV(r, d, v)
		case "rdf":
			text, how = hostileRDF(r, d)
			if !wellFormed(text) {
				c.Count("rdf_not_wellformed")
				continue
			}
		}
		c.Count("damaged_" + f.Name)
		judgeHostile(c, f, text, how)
	}
}

func wellFormed(s string) bool {
	d := xml.NewDecoder(strings.NewReader(s))
	depth, roots := 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			return depth == 0 && roots == 1
		}
		if err != nil {
			return false
		}
		switch t.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
		case xml.EndElement:
			depth--
		}
	}
}

func judgeHostile(c *Case, f format, text, how string) {
	c.Input([]byte(clip(text, 1<<20)))
	for v := 0; v <= 3; v++ {
		var doc any
		var err error
		what := f.Name + ".Read"
		if v > 0 {
			if c.R.Chance(0.5) {
				continue
			}
			what = fmt.Sprintf("%s.ReadInto a %s document", f.Name, verString(v))
		}
		c.Stage(what)
		if !c.watched(what, len(text), func() {
			if v == 0 {
				var d *v2_3.Document
				d, err = f.Read(strings.NewReader(text))
				doc = d
			} else {
				doc = newDoc(v)
				err = f.Into(strings.NewReader(text), doc)
			}
		}) {
			return
		}
		if err != nil {
			c.Count(f.Name + "_rejected")
			c.Distinct("error_kinds", f.Name, errShape(err))
			c.Seen(f.Name, how, errShape(err))
			return
		}
		c.Count(f.Name + "_accepted")
		c.Seen(f.Name, how, shape(up(doc)))
		if !handOn(c, doc, max(v, 1), v == 0, len(text)) {
			return
		}
	}
	c.Sample(map[string]any{"format": f.Name, "damage": how, "bytes": len(text)})
}

var digits = regexp.MustCompile(`[0-9]+|'[^']*'|"[^"]*"`)

func errShape(err error) string {
	s := digits.ReplaceAllString(err.Error(), "#")
	return clip(s, 40)
}

// handOn gives a document to everything that takes one.
func handOn(c *Case, doc any, v int, cur bool, size int) bool {
	c.Count("documents_handed_on")
	texts := map[string][]byte{}
	for _, f := range writable {
		what := f.Name + ".Write of a document that was read"
		c.Stage(what)
		var buf bytes.Buffer
		var err error
		if !c.watched(what, size, func() { err = f.Write(doc, &buf) }) {
			return false
		}
		if err == nil {
			c.Count("written_" + f.Name)
			texts[f.Name] = buf.Bytes()
		} else {
			c.Count("write_refused_" + f.Name)
		}
	}
	for t := 1; t <= 3; t++ {
		c.Stage(fmt.Sprintf("convert.Document to %s", verString(t)))
		var err error
		dst := newDoc(t)
		if !c.watched("convert.Document of a document that was read", size, func() { err = convert.Document(doc, dst) }) {
			return false
		}
		if err != nil {
			c.Violationf("convert.Document of a document that was read fails: %v", err)
			return false
		}
	}
	d, ok := doc.(*v2_3.Document)
	if !ok || !cur {
		return true
	}
	c.Stage("spdxlib, reporter, licensediff and utils on a document that was read")
	if !c.watched("spdxlib on a document that was read", size, func() {
		_ = spdxlib.ValidateDocument(d)
		_, _ = spdxlib.GetDescribedPackageIDs(d)
	}) {
		return false
	}
	var last *v2_3.Package
	for _, p := range d.Packages {
		if p == nil {
			continue
		}
		p := p
		if !c.watched("reporter, licensediff or utils on a package that was read", size, func() {
			_ = reporter.Generate(p, io.Discard)
			q := last
			if q == nil {
				q = p
			}
			ps, _ := licensediff.MakePairs(p, q)
			_, _ = licensediff.MakeResults(ps)
			_, _ = utils.GetVerificationCode(p.Files, "x")
		}) {
			return false
		}
		last = p
	}
	for _, f := range writable {
		if b, ok := texts[f.Name]; ok {
			c.Stage(f.Name + ".Read of what was written")
			if !c.watched(f.Name+".Read of what was written", size, func() { _, _ = f.Read(bytes.NewReader(b)) }) {
				return false
			}
		}
	}
	return true
}

// ---- JSON and YAML trees

type slot struct {
	get func() any
	set func(any)
	del func()
}

func slots(v any, out *[]slot) {
	switch t := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(t) {
			k := k
			*out = append(*out, slot{func() any { return t[k] }, func(x any) { t[k] = x }, func() { delete(t, k) }})
			slots(t[k], out)
		}
	case []any:
		for i := range t {
			i := i
			*out = append(*out, slot{func() any { return t[i] }, func(x any) { t[i] = x }, func() { t[i] = nil }})
			slots(t[i], out)
		}
	}
}

func copyTree(v any) any {
	switch t := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range t {
			m[k] = copyTree(e)
		}
		return m
	case []any:
		l := make([]any, len(t))
		for i, e := range t {
			l[i] = copyTree(e)
		}
		return l
	}
	return v
}

var hostileStrings = []string{"", " ", "x", "NONE", "NOASSERTION", "SPDXRef-", "SPDXRef-x", "DocumentRef-", "DocumentRef-x", "DocumentRef-x:", "DocumentRef-x:SPDXRef-", ":", "::", "a:b:c", "Person:", ": x", "Tool: ", "Person", "\x00", "\ufeff", "\u2028", "SPDX-2.3", "SPDX-2.1", "true", "null", "1", "1:2", "-1:9", "SHA1:", "SHA1: a", "OTHER a b", "SPDXRef-a DESCRIBES SPDXRef-b", "(", ")", "(excludes: x", "<text>", "</text>", "9999999999999999999999:1", "SPDXRef-DOCUMENT", "SPDXRef-a\nb", "\"", "\\"}

func hostileValue(r *R, pool []slot) any {
	switch r.N(14) {
	case 0, 1, 2:
		return nil
	case 3, 4:
		return pick(r, hostileStrings)
	case 5:
		return pick(r, []any{0.0, -1.0, 1.5, 1e300, json.Number("9223372036854775808"), json.Number("1e999"), json.Number("-0")})
	case 6:
		return r.Chance(0.5)
	case 7:
		return []any{}
	case 8:
		return map[string]any{}
	case 9:
		return []any{nil}
	case 10:
		return []any{[]any{}, map[string]any{}, "x", nil, 1.0}
	case 11:
		return map[string]any{"": nil, "SPDXID": nil, "a": []any{nil}}
	case 12:
		var v any = "deep"
		for i := 0; i < pick(r, []int{5, 100, 3000}); i++ {
			if i%2 == 0 {
				v = []any{v}
			} else {
				v = map[string]any{"a": v}
			}
		}
		return v
	}
	return copyTree(pick(r, pool).get())
}

func damageTree(r *R, tree any) string {
	how := ""
	n := pick(r, []int{0, 1, 1, 1, 2, 3, 8})
	for k := 0; k < n; k++ {
		var ss []slot
		slots(tree, &ss)
		if len(ss) == 0 {
			return how
		}
		s := pick(r, ss)
		op := r.N(7)
		// null entries of lists are the commonest damage real generators do
		if r.Chance(0.3) {
			var ls []slot
			for _, x := range ss {
				if _, ok := x.get().([]any); ok {
					ls = append(ls, x)
				}
			}
			if len(ls) > 0 {
				s, op = pick(r, ls), 6
			}
		}
		how += fmt.Sprintf("%d", op)
		switch op {
		case 0, 1:
			s.set(hostileValue(r, ss))
		case 2:
			s.del()
		case 3:
			s.set([]any{s.get()})
		case 4:
			o := pick(r, ss)
			a, b := copyTree(s.get()), copyTree(o.get())
			s.set(b)
			o.set(a)
		case 5:
			if m, ok := s.get().(map[string]any); ok {
				m[pick(r, []string{"SPDXID", "annotations", "checksums", "hasFiles", "files", "snippets", "ranges", "packages", "relationships", "spdxElementId", "externalRefs", "packageVerificationCode", "documentDescribes", "supplier", "originator", "startPointer", "creationInfo", "creators"})] = hostileValue(r, ss)
			}
		case 6:
			if l, ok := s.get().([]any); ok {
				l = append([]any{}, l...)
				i := r.N(len(l) + 1)
				var e any
				if len(l) > 0 && r.Chance(0.3) {
					e = copyTree(pick(r, l))
				} else if r.Chance(0.2) {
					e = hostileValue(r, ss)
				}
				l = append(l[:i], append([]any{e}, l[i:]...)...)
				s.set(l)
			}
		}
	}
	return how
}

func treeOf(d *v2_3.Document, v int) map[string]any {
	b, err := json.Marshal(jsonTree(d, v))
	if err != nil {
		panic(err)
	}
	var t map[string]any
	if err := json.Unmarshal(b, &t); err != nil {
		panic(err)
	}
	return t
}

func hostileJSON(r *R, d *v2_3.Document, v int) (string, string) {
	t := treeOf(d, v)
	how := damageTree(r, t)
	if r.Chance(0.9) {
		t["spdxVersion"] = verString(v)
	}
	b, err := json.Marshal(t)
	if err != nil { // 1e999
		b, _ = json.Marshal(treeOf(d, v))
	}
	s := string(b)
	if r.Chance(0.15) { // repeated members
		s = strings.Replace(s, "{", "{"+pick(r, []string{`"packages":[null],`, `"relationships":[null,null],`, `"SPDXID":null,`, `"files":[{}],`, `"annotations":null,`, `"creationInfo":{},`, `"snippets":[{"ranges":[{}]}],`}), r.In(1, 3))
		how += "r"
	}
	if r.Chance(0.25) {
		s = damageBytes(r, s, []string{"null", "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "1e", "-", "true", "\x00", "\xff", "/*", "\u2028", "NaN", "\"spdxVersion\":\"SPDX-2.2\",", "[[[[[[[[", "{\"a\":"})
		how += "b"
	}
	return s, how
}

func hostileYAML(r *R, d *v2_3.Document, v int) (string, string) {
	t := treeOf(d, v)
	how := damageTree(r, t)
	if r.Chance(0.9) {
		t["spdxVersion"] = verString(v)
	}
	b, err := json.Marshal(t)
	if err != nil {
		b, _ = json.Marshal(treeOf(d, v))
	}
	s := string(b)
	if y, err := yaml.JSONToYAML(b); err == nil && r.Chance(0.85) {
		s = string(y)
	}
	if r.Chance(0.4) {
		s = damageBytes(r, s, []string{"&a ", "*a", "<<: *a\n", "!!binary ", "!!int ", "!!null ", "!x ", "? ", "- ", "---\n", "...\n", "\t", "|\n", ">-\n", "%YAML 9\n", "~", "{", "}", "[", "]", ": ", ":", "\"", "'", "\\", "#", "\x00", "\xff", "\n", "\n  ", "@", "0x", ".nan", "2001-01-01", "a: &x [*x]\n", "{a: b}: c\n", "1: 2\n", "[1]: 2\n", "null: x\n"})
		how += "b"
	}
	return s, how
}

func damageBytes(r *R, s string, tokens []string) string {
	b := []byte(s)
	for k := pick(r, []int{1, 1, 1, 2, 3, 8}); k > 0; k-- {
		if len(b) == 0 {
			return string(b)
		}
		i := r.N(len(b))
		n := min(pick(r, []int{1, 1, 2, 5, 30, 300}), len(b)-i)
		switch r.N(7) {
		case 0:
			b[i] ^= byte(1 << r.N(8))
		case 1:
			b = append(b[:i:i], b[i+n:]...)
		case 2:
			if r.Chance(0.3) {
				b = b[:i]
			} else {
				b[i] = byte(r.N(256))
			}
		case 3:
			piece := append([]byte{}, b[i:i+n]...)
			j := r.N(len(b))
			b = append(b[:j:j], append(piece, b[j:]...)...)
		default:
			t := pick(r, tokens)
			b = append(b[:i:i], append([]byte(t), b[i:]...)...)
		}
	}
	return string(b)
}

// ---- tag-value

var allTVTags = func() []string {
	l := []string{"SPDXID", "PackageName", "FileName", "SnippetSPDXID", "LicenseID", "Reviewer", "Relationship", "RelationshipComment", "Annotator", "AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment", "ExternalDocumentRef", "DocumentComment", "PackageAttributionText", "PrimaryPackagePurpose", "ReleaseDate", "BuiltDate", "ValidUntilDate", "FileAttributionText", "SnippetAttributionText"}
	for _, k := range sortedKeys(tvTagsOf) {
		l = append(l, tvTagsOf[k]...)
	}
	return l
}()

// compositeTags have values readers take apart
var compositeTags = map[string]bool{"SPDXVersion": true, "SPDXID": true, "ExternalDocumentRef": true, "Creator": true, "PackageSupplier": true, "PackageOriginator": true, "PackageVerificationCode": true, "PackageChecksum": true,
	"ExternalRef": true, "FileChecksum": true, "SnippetSPDXID": true, "SnippetFromFileSPDXID": true, "SnippetByteRange": true, "SnippetLineRange": true, "Relationship": true, "Annotator": true, "SPDXREF": true, "Reviewer": true, "FilesAnalyzed": true}

// bendValue damages one value: a part gone, doubled, swapped or cut
func bendValue(r *R, v string) string {
	if v == "" {
		return pick(r, []string{"(excludes:", ":", " ", "-"})
	}
	i := r.N(len(v))
	switch r.N(7) {
	case 0:
		return v[:i]
	case 1:
		return v[i:]
	case 2: // one separator gone, or all of them
		sep := pick(r, []string{":", " ", "-", "(", ")", ",", "excludes"})
		return strings.Replace(v, sep, "", pick(r, []int{1, 1, -1}))
	case 3:
		sep := pick(r, []string{":", " ", "-", "(", ")", ",", "(excludes:"})
		return v[:i] + sep + v[i:]
	case 4:
		return v + pick(r, []string{" (excludes: ", " (excludes:", ":", ")", " ", ",", v})
	case 5:
		return pick(r, []string{")", ":", "(excludes:", ") (excludes:", " "}) + v
	}
	return v[:i] + v[i+1:]
}

func hostileTV(r *R, d *v2_3.Document, v int) (string, string) {
	st := newTVStyle(r)
	ps := st.order(tvSections(d, v))
	how := ""
	for k := pick(r, []int{0, 1, 1, 1, 1, 2, 3, 10}); k > 0 && len(ps) > 1; k-- {
		i := 1 + r.N(len(ps)-1) // the version stays
		if r.Chance(0.05) {
			i = 0
		}
		op := pick(r, []int{0, 1, 2, 3, 4, 5, 6, 6, 6, 7})
		how += fmt.Sprint(op)
		switch op {
		case 0:
			ps = append(ps[:i:i], ps[i+1:]...)
		case 1:
			p := ps[r.N(len(ps))]
			ps = append(ps[:i:i], append([]tvPair{p}, ps[i:]...)...)
		case 2:
			j := r.N(len(ps))
			ps[i], ps[j] = ps[j], ps[i]
		case 3:
			ps[i].Tag = pick(r, allTVTags)
		case 4:
			ps[i].Val = pick(r, hostileStrings)
		case 5:
			t := pick(r, allTVTags)
			val := goodVal(t)
			if r.Chance(0.4) {
				val = pick(r, hostileStrings)
			}
			ps = append(ps[:i:i], append([]tvPair{{Tag: t, Val: val}}, ps[i:]...)...)
		case 6: // a value that has parts, not quite right
			at := map[string][]int{}
			for k, p := range ps {
				if compositeTags[p.Tag] {
					at[p.Tag] = append(at[p.Tag], k)
				}
			}
			if len(at) > 0 {
				k := pick(r, at[pick(r, sortedKeys(at))])
				ps[k].Val = bendValue(r, ps[k].Val)
			}
		case 7:
			ps[i].Val = bendValue(r, ps[i].Val)
		}
	}
	s := st.spell(ps)
	if r.Chance(0.25) {
		s = damageBytes(r, s, []string{"<text>", "</text>", ":", "\n", "\r", "#", " ", "\x00", "\xff", "SPDXID: ", "PackageName: p\n", "FileName: f\n", "SnippetSPDXID: SPDXRef-s\n", "LicenseID: l\n", "Reviewer: Person: x\n", "Relationship: a\n", "Annotator: Person: x\n", "SPDXVersion: SPDX-2.1\n", "ExternalRef: a b c\n", "PackageVerificationCode: (", ")", "\ufeff"})
		how += "b"
	}
	return s, how
}

// ---- RDF graphs

func graphNodes(g *rgraph) []*rnode {
	var out []*rnode
	seen := map[*rnode]bool{}
	var walk func(n *rnode)
	walk = func(n *rnode) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		out = append(out, n)
		for _, p := range n.props {
			walk(p.node)
		}
	}
	for _, n := range g.tops {
		walk(n)
	}
	for _, id := range g.order {
		walk(g.named[id])
	}
	return out
}

var rdfClasses = []string{"spdx:SpdxDocument", "spdx:Package", "spdx:File", "spdx:Snippet", "spdx:Checksum", "spdx:CreationInfo", "spdx:Relationship", "spdx:Annotation", "spdx:Review", "spdx:ExternalDocumentRef", "spdx:ExternalRef", "spdx:ExtractedLicensingInfo", "spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet", "spdx:WithExceptionOperator", "spdx:OrLaterOperator", "spdx:SimpleLicensingInfo", "spdx:License", "spdx:ListedLicense", "spdx:LicenseException", "spdx:PackageVerificationCode", "ptr:StartEndPointer", "ptr:ByteOffsetPointer", "ptr:LineCharPointer", "doap:Project", "rdf:Description", "spdx:Nothing"}
var rdfPreds = []string{"spdx:specVersion", "spdx:name", "spdx:dataLicense", "spdx:creationInfo", "spdx:creator", "spdx:created", "spdx:licenseListVersion", "spdx:describesPackage", "spdx:hasExtractedLicensingInfo", "spdx:externalDocumentRef", "spdx:externalDocumentId", "spdx:spdxDocument", "spdx:checksum", "spdx:algorithm", "spdx:checksumValue", "spdx:relationship", "spdx:relationshipType", "spdx:relatedSpdxElement", "spdx:annotation", "spdx:annotator", "spdx:annotationDate", "spdx:annotationType", "rdfs:comment", "spdx:reviewed", "spdx:reviewer", "spdx:reviewDate", "spdx:hasFile", "spdx:fileName", "spdx:fileType", "spdx:licenseConcluded", "spdx:licenseDeclared", "spdx:licenseInfoInFile", "spdx:licenseInfoFromFiles", "spdx:licenseInfoInSnippet", "spdx:member", "spdx:licenseException", "spdx:licenseExceptionId", "spdx:licenseId", "spdx:extractedText", "rdfs:seeAlso", "spdx:downloadLocation", "spdx:packageVerificationCode", "spdx:packageVerificationCodeValue", "spdx:packageVerificationCodeExcludedFile", "spdx:externalRef", "spdx:referenceCategory", "spdx:referenceType", "spdx:referenceLocator", "spdx:filesAnalyzed", "spdx:copyrightText", "spdx:snippetFromFile", "spdx:range", "ptr:startPointer", "ptr:endPointer", "ptr:reference", "ptr:offset", "ptr:lineNumber", "spdx:fileDependency", "spdx:artifactOf", "doap:homepage", "doap:name", "spdx:primaryPackagePurpose", "spdx:attributionText", "spdx:supplier", "rdf:type", "spdx:nothing"}

func hostileRDF(r *R, d *v2_3.Document) (string, string) {
	g := buildRDF(r, d)
	how := ""
	for k := pick(r, []int{0, 1, 1, 2, 3, 10}); k > 0; k-- {
		ns := graphNodes(g)
		n := pick(r, ns)
		op := r.N(9)
		how += fmt.Sprint(op)
		iri := func() string {
			switch r.N(6) {
			case 0:
				return g.ns + "#" + pick(r, []string{"SPDXRef-Unknown", "SPDXRef-", "", "x", "LicenseRef-unknown", "DocumentRef-x:SPDXRef-y", "SPDXRef-a:b"})
			case 1:
				return pick(r, []string{nsSpdx, nsSpdx + "none", nsSpdx + "noassertion", nsLic + "MIT", nsLic, "", "#", "x", "SPDXRef-x", "http://", "urn:x:y", "%%", "http://a#b#c", nsSpdx + "checksumAlgorithm_", nsSpdx + "relationshipType_x", nsSpdx + "purpose_library"})
			}
			if len(g.order) > 0 && r.Chance(0.8) {
				return pick(r, g.order)
			}
			for _, t := range ns {
				if t.id != "" && r.Chance(0.3) {
					return t.id
				}
			}
			return g.ns + "#SPDXRef-DOCUMENT"
		}
		switch op {
		case 0: // drop a statement
			if len(n.props) > 0 {
				i := r.N(len(n.props))
				n.props = append(n.props[:i:i], n.props[i+1:]...)
			}
		case 1: // repeat one
			if len(n.props) > 0 {
				p := pick(r, n.props)
				if p.kind == 'n' && p.node.id == "" {
					p = rprop{pred: p.pred, node: cloneNode(p.node), kind: 'n'}
				}
				n.props = append(n.props, p)
			}
		case 2, 3: // retarget one: cycles, dangling references, wrong kinds
			if len(n.props) > 0 {
				i := r.N(len(n.props))
				n.props[i] = rprop{pred: n.props[i].pred, res: iri(), kind: 'r'}
			}
		case 4: // a literal in place of a node, or another literal
			if len(n.props) > 0 {
				i := r.N(len(n.props))
				n.props[i] = rprop{pred: n.props[i].pred, lit: pick(r, hostileStrings), kind: 'l'}
			}
		case 5: // other class
			n.typ = pick(r, rdfClasses)
		case 6: // other predicate
			if len(n.props) > 0 {
				n.props[r.N(len(n.props))].pred = pick(r, rdfPreds)
			}
		case 7: // an extra statement
			p := rprop{pred: pick(r, rdfPreds), kind: pick(r, []byte{'l', 'r', 'n'})}
			switch p.kind {
			case 'l':
				p.lit = pick(r, hostileStrings)
			case 'r':
				p.res = iri()
			default:
				p.node = g.blank(pick(r, rdfClasses))
				for j := r.N(3); j > 0; j-- {
					p.node.res(pick(r, rdfPreds), iri())
				}
			}
			n.props = append(n.props, p)
		case 8: // a blank node gets a name, so that other statements can close a cycle through it
			if n.id == "" {
				id := fmt.Sprintf("%s#%s%d", g.ns, pick(r, []string{"x", "SPDXRef-n", "LicenseRef-n"}), r.N(1000))
				if g.named[id] == nil {
					n.id = id
					g.named[id] = n
					g.order = append(g.order, id)
					if r.Chance(0.7) {
						n.props = append(n.props, rprop{pred: pick(r, rdfPreds), res: id, kind: 'r'})
						if len(n.props) > 1 {
							n.props[len(n.props)-1].pred = n.props[0].pred
						}
					}
				}
			}
		}
	}
	// names of elements stay XML names; texts stay characters XML allows
	for _, n := range graphNodes(g) {
		for i := range n.props {
			n.props[i].lit = strings.NewReplacer("\x00", "?", "\ufeff", "?").Replace(n.props[i].lit)
		}
	}
	st := randStyle(r)
	if !st.Labels && r.Chance(0.7) {
		st.Labels = true
	}
	s := g.write(st)
	if r.Chance(0.25) {
		s = damageXML(r, s)
		how += "b"
	}
	return s, how
}

func cloneNode(n *rnode) *rnode {
	m := *n
	m.props = append([]rprop{}, n.props...)
	return &m
}

var xmlTag = regexp.MustCompile(`<[A-Za-z][^<>/!?]*`)

// damageXML makes textual changes that mostly keep XML well-formed.
func damageXML(r *R, s string) string {
	at := xmlTag.FindAllStringIndex(s, -1)
	for k := r.In(1, 3); k > 0 && len(at) > 0; k-- {
		a := pick(r, at)
		if a[1] > len(s) {
			continue
		}
		switch r.N(5) {
		case 0:
			s = s[:a[1]] + " " + pick(r, []string{`rdf:parseType="Resource"`, `rdf:parseType="Literal"`, `rdf:parseType="Collection"`, `xml:lang="en"`, `rdf:ID="SPDXRef-id"`, `xml:base="http://b/"`, `spdx:name="n"`, `rdf:nodeID="z"`, `rdf:resource="#x"`, `rdf:about=""`, `rdf:datatype="x"`, `foo="bar"`, `xmlns:q="http://q"`, `rdf:bagID="b"`}) + s[a[1]:]
		case 1:
			s = s[:a[0]] + pick(r, []string{"<?pi x?>", "<!-- -->", "text", "&amp;", "<x/>", "<rdf:li>x</rdf:li>", "<![CDATA[<x>]]>", "<spdx:File/>", "<rdf:Description/>", " ", "\n\n"}) + s[a[0]:]
		case 2:
			s = strings.Replace(s, "rdf:about=", pick(r, []string{"rdf:nodeID=", "rdf:ID=", "about="}), 1)
		case 3:
			s = strings.Replace(s, pick(r, rdfClasses)+">", pick(r, rdfClasses)+">", -1)
		case 4:
			s = strings.Replace(s, "<rdf:RDF", pick(r, []string{"<!DOCTYPE rdf:RDF [<!ENTITY e 'x'>]>\n<rdf:RDF", "<?xml-stylesheet x?><rdf:RDF", "\ufeff<rdf:RDF", "<!-- c --><rdf:RDF"}), 1)
		}
		at = xmlTag.FindAllStringIndex(s, -1)
	}
	return s
}

// ---- size ladders

const tvHead = "SPDXVersion: SPDX-2.3\nDataLicense: CC0-1.0\nSPDXID: SPDXRef-DOCUMENT\nDocumentName: d\nDocumentNamespace: http://x/y\nCreator: Tool: t\nCreated: 2020-01-01T00:00:00Z\n"
const jsHead = `{"spdxVersion":"SPDX-2.3","SPDXID":"SPDXRef-DOCUMENT","name":"d","dataLicense":"CC0-1.0","documentNamespace":"http://x/y","creationInfo":{"creators":["Tool: t"],"created":"2020-01-01T00:00:00Z"}`

type bigText struct {
	name string
	f    format
	make func(n int) string
}

func numbered(n int, f func(i int) string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(f(i))
	}
	return sb.String()
}

var ladders = []bigText{
	{"text of many lines", tvF, func(n int) string {
		return tvHead + "DocumentComment: <text>" + strings.Repeat("\n", n) + "</text>\n"
	}},
	{"unclosed text of many lines", tvF, func(n int) string { return tvHead + "DocumentComment: <text>" + strings.Repeat("ab\n", n/3) }},
	{"one long line", tvF, func(n int) string { return tvHead + "DocumentComment: " + strings.Repeat("x", n) + "\n" }},
	{"one long tag", tvF, func(n int) string { return tvHead + strings.Repeat("x", n) + "\n" }},
	{"many colons", tvF, func(n int) string { return tvHead + "DocumentName: " + strings.Repeat(":", n) + "\n" }},
	{"many text marks", tvF, func(n int) string { return tvHead + "DocumentName: " + strings.Repeat("<text>", n/6) + "\n</text>\n" }},
	{"many comment lines", tvF, func(n int) string { return tvHead + strings.Repeat("#\n", n/2) }},
	{"many packages", tvF, func(n int) string {
		return tvHead + numbered(n/320, func(i int) string { return fmt.Sprintf("PackageName: p\nSPDXID: SPDXRef-p%d\n", i) })
	}},
	{"many files and snippets", tvF, func(n int) string {
		return tvHead + "PackageName: p\nSPDXID: SPDXRef-p\n" + numbered(n/120, func(i int) string {
			return fmt.Sprintf("FileName: f\nSPDXID: SPDXRef-f%d\nSnippetSPDXID: SPDXRef-s%d\n", i, i)
		})
	}},
	{"many snippets of one file", tvF, func(n int) string {
		return tvHead + "FileName: f\nSPDXID: SPDXRef-f\n" + numbered(n/40, func(i int) string { return fmt.Sprintf("SnippetSPDXID: SPDXRef-s%d\n", i) })
	}},
	{"many relationships", tvF, func(n int) string {
		return tvHead + numbered(n/50, func(i int) string {
			return fmt.Sprintf("Relationship: SPDXRef-DOCUMENT DESCRIBES SPDXRef-p%d\n", i)
		})
	}},
	{"many parentheses", tvF, func(n int) string {
		return tvHead + "PackageName: p\nSPDXID: SPDXRef-p\nPackageVerificationCode: a " + strings.Repeat("(", n) + "\n"
	}},
	{"null relationships", jsonF, func(n int) string {
		return jsHead + `,"relationships":[` + strings.TrimSuffix(strings.Repeat("null,", n/5), ",") + "]}"
	}},
	{"null packages", jsonF, func(n int) string {
		return jsHead + `,"packages":[` + strings.TrimSuffix(strings.Repeat("null,", n/5), ",") + "]}"
	}},
	{"empty packages", jsonF, func(n int) string {
		return jsHead + `,"packages":[` + strings.TrimSuffix(strings.Repeat("{},", n/32), ",") + "]}"
	}},
	{"many described elements", jsonF, func(n int) string {
		return jsHead + `,"documentDescribes":[` + strings.TrimSuffix(numbered(n/80, func(i int) string { return fmt.Sprintf(`"SPDXRef-%d",`, i) }), ",") + "]}"
	}},
	{"many contained files", jsonF, func(n int) string {
		return jsHead + `,"packages":[{"SPDXID":"SPDXRef-p","name":"p","hasFiles":[` + strings.TrimSuffix(numbered(n/80, func(i int) string { return fmt.Sprintf(`"SPDXRef-%d",`, i) }), ",") + "]}]}"
	}},
	{"one long string", jsonF, func(n int) string { return jsHead + `,"comment":"` + strings.Repeat("\\n", n/2) + `"}` }},
	{"deep lists", jsonF, func(n int) string {
		return jsHead + `,"x":` + strings.Repeat("[", n/2) + strings.Repeat("]", n/2) + "}"
	}},
	{"deep objects", jsonF, func(n int) string {
		return jsHead + `,"packages":[` + strings.Repeat(`{"annotations":[`, n/20) + strings.Repeat("]}", n/20) + "]}"
	}},
	{"deep lists below the limit", jsonF, func(n int) string {
		return jsHead + `,"x":` + strings.Repeat("[", 9000) + strings.Repeat("]", 9000) + "}"
	}},
	{"repeated members", jsonF, func(n int) string { return jsHead + strings.Repeat(`,"packages":[{}]`, n/16) + "}" }},
	{"deep lists", yamlF, func(n int) string {
		return "spdxVersion: SPDX-2.3\nx: " + strings.Repeat("[", n/4) + strings.Repeat("]", n/4) + "\n"
	}},
	{"alias bomb", yamlF, func(n int) string {
		s := "spdxVersion: SPDX-2.3\na0: &a0 [x,x,x,x,x,x,x,x,x]\n"
		for i := 1; i < 12; i++ {
			s += fmt.Sprintf("a%d: &a%d [%s]\n", i, i, strings.TrimSuffix(strings.Repeat(fmt.Sprintf("*a%d,", i-1), 9), ","))
		}
		return s
	}},
	{"null relationships", yamlF, func(n int) string { return "spdxVersion: SPDX-2.3\nrelationships:\n" + strings.Repeat("-\n", n/20) }},
	{"many relationships", yamlF, func(n int) string {
		return "spdxVersion: SPDX-2.3\nSPDXID: SPDXRef-DOCUMENT\nrelationships:\n" + numbered(n/1000, func(i int) string {
			return fmt.Sprintf("- {spdxElementId: SPDXRef-a, relatedSpdxElement: SPDXRef-b%d, relationshipType: OTHER}\n", i)
		})
	}},
	{"deep licence sets", rdfF, func(n int) string { return deepRDF(n/4000, "lic") }},
	{"chain of files", rdfF, func(n int) string { return deepRDF(n/4000, "file") }},
	{"chain of related packages", rdfF, func(n int) string { return deepRDF(n/4000, "rel") }},
}

func deepRDF(n int, kind string) string {
	const head = `<rdf:RDF xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><spdx:SpdxDocument rdf:about="http://x/y#SPDXRef-DOCUMENT"><spdx:specVersion>SPDX-2.3</spdx:specVersion>`
	in := ""
	switch kind {
	case "lic":
		in = `<spdx:describesPackage><spdx:Package rdf:about="http://x/y#SPDXRef-p"><spdx:licenseConcluded>` +
			numbered(n, func(i int) string {
				return fmt.Sprintf(`<spdx:ConjunctiveLicenseSet rdf:nodeID="n%dx"><spdx:member rdf:resource="http://spdx.org/licenses/MIT"/><spdx:member>`, i)
			}) + `<spdx:DisjunctiveLicenseSet rdf:nodeID="e"><spdx:member rdf:resource="http://spdx.org/licenses/MIT"/></spdx:DisjunctiveLicenseSet>` + strings.Repeat(`</spdx:member></spdx:ConjunctiveLicenseSet>`, n) +
			`</spdx:licenseConcluded></spdx:Package></spdx:describesPackage>`
	case "file":
		in = `<spdx:describesPackage><spdx:Package rdf:about="http://x/y#SPDXRef-p"><spdx:hasFile>` +
			numbered(n, func(i int) string {
				return fmt.Sprintf(`<spdx:File rdf:about="http://x/y#SPDXRef-f%d"><spdx:fileName>f%d</spdx:fileName><spdx:fileDependency>`, i, i)
			}) + `<spdx:File rdf:about="http://x/y#SPDXRef-f"/>` + strings.Repeat(`</spdx:fileDependency></spdx:File>`, n) +
			`</spdx:hasFile></spdx:Package></spdx:describesPackage>`
	case "rel":
		one := func(i int) string {
			return fmt.Sprintf(`<spdx:relationship><spdx:Relationship rdf:nodeID="r%dx"><spdx:relationshipType rdf:resource="http://spdx.org/rdf/terms#relationshipType_contains"/><spdx:relatedSpdxElement><spdx:Package rdf:about="http://x/y#SPDXRef-p%d">`, i, i)
		}
		in = numbered(n, one) + strings.Repeat(`</spdx:Package></spdx:relatedSpdxElement></spdx:Relationship></spdx:relationship>`, n)
	}
	return head + in + `</spdx:SpdxDocument></rdf:RDF>`
}

// ladderSlots keeps the machine from working on more of the large texts at once than it has memory
// bandwidth for: the limit on the time of a call is about the code, not about the load.
var ladderSlots = make(chan struct{}, 3)

func ladder(c *Case, k int) {
	l := ladders[k%len(ladders)]
	n := 2 << 20
	if c.Thorough() {
		n = pick(c.R, []int{1 << 20, 2 << 20, 5 << 20})
	}
	text := l.make(n)
	ladderSlots <- struct{}{}
	defer func() { <-ladderSlots }()
	c.beat()
	c.Count("size_ladders")
	c.Distinct("ladders", l.f.Name, l.name)
	t0 := time.Now()
	judgeHostile(c, l.f, text, "ladder: "+l.name)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "ladder", l.f.Name, l.name, len(text), time.Since(t0))
	}
}
