package main

import (
	"fmt"
	"runtime"
	"slices"
	"strings"

	srdf "github.com/spdx/tools-golang/rdf"
)

func init() {
	need := []string{"controls_accepted", "faults_rejected"}
	for _, f := range rdfFaults {
		need = append(need, "fault:"+f.name)
	}
	register(&Prop{ID: "R03", Rule: genRule + " limited to what the RDF vocabulary states; the document's graph is serialised once as it is (which must be accepted) and once with one fault of a listed kind put into a random node of a random class (which must be rejected, by ReadInto with the target left as it was and by Read); counters show how often each kind was hit, distinct states which classes", Quick: 4200, Deep: 50000, Serial: true, Shards: 7,
		Assume: []string{"runs on one processor, as R01 does, since gordf shares unsynchronised state between its goroutines"},
		Need:   need, MinSeen: 200, Setup: func(*Ctx) { runtime.GOMAXPROCS(1) }, Run: runR03})
}

// badRDF is a graph about to get a fault.
type badRDF struct {
	r     *R
	g     *rgraph
	v     int
	nodes []*rnode // every node, in a fixed order
	where string
	text  func(string) string // a fault of the text
}

func (b *badRDF) index() {
	seen := map[*rnode]bool{}
	var walk func(n *rnode)
	walk = func(n *rnode) {
		if seen[n] {
			return
		}
		seen[n] = true
		b.nodes = append(b.nodes, n)
		for _, p := range n.props {
			if p.kind == 'n' {
				walk(p.node)
			}
		}
	}
	for _, t := range b.g.tops {
		walk(t)
	}
	for _, id := range b.g.order {
		walk(b.g.named[id])
	}
}

// one picks a node of one of the classes.
func (b *badRDF) one(types ...string) *rnode {
	var l []*rnode
	for _, n := range b.nodes {
		if slices.Contains(types, n.typ) {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return nil
	}
	n := pick(b.r, l)
	b.where = n.typ
	return n
}

// prop picks a statement with one of the predicates, of a node of one of the classes (of any, if none is named).
func (b *badRDF) prop(preds []string, types ...string) *rprop {
	var l []*rprop
	var w []string
	for _, n := range b.nodes {
		if len(types) > 0 && !slices.Contains(types, n.typ) {
			continue
		}
		for i := range n.props {
			if slices.Contains(preds, n.props[i].pred) {
				l = append(l, &n.props[i])
				w = append(w, n.typ+"/"+n.props[i].pred)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	k := b.r.N(len(l))
	b.where = w[k]
	return l[k]
}

func setLit(p *rprop, v string) bool {
	if p == nil {
		return false
	}
	*p = rprop{pred: p.pred, lit: v, kind: 'l'}
	return true
}

func setRes(p *rprop, v string) bool {
	if p == nil {
		return false
	}
	*p = rprop{pred: p.pred, res: v, kind: 'r'}
	return true
}

// the classes whose statements the reader has to know, and statements of the vocabulary that each of them may have
// although the generator may not use them
var strictClasses = []string{"spdx:SpdxDocument", "spdx:Package", "spdx:File", "spdx:Snippet", "spdx:Relationship", "spdx:Annotation", "spdx:CreationInfo", "spdx:Checksum", "spdx:ExternalDocumentRef",
	"spdx:ExternalRef", "spdx:PackageVerificationCode", "spdx:Review", "spdx:ExtractedLicensingInfo", "spdx:ConjunctiveLicenseSet", "spdx:WithExceptionOperator", "spdx:LicenseException",
	"spdx:SimpleLicensingInfo", "spdx:ListedLicense", "spdx:License", "doap:Project", "ptr:StartEndPointer", "ptr:LineCharPointer", "ptr:ByteOffsetPointer"}

// statements of the vocabulary that belong to one class only
var ownStatements = map[string]string{"spdx:created": "spdx:CreationInfo", "spdx:packageVerificationCodeValue": "spdx:PackageVerificationCode", "spdx:annotationDate": "spdx:Annotation",
	"spdx:reviewDate": "spdx:Review", "spdx:externalDocumentId": "spdx:ExternalDocumentRef", "spdx:checksumValue": "spdx:Checksum", "spdx:referenceLocator": "spdx:ExternalRef",
	"spdx:specVersion": "spdx:SpdxDocument", "spdx:licenseExceptionText": "spdx:LicenseException", "spdx:versionInfo": "spdx:Package", "spdx:sourceInfo": "spdx:Package"}

var badAgents = []string{"", "someone", "person: x", "Robot: x", "Persons: x", "PERSON: x", " : x", ": x"}
var badIDs = []string{"Package-1", "SPDXRef-", "spdxref-a", "SPDXRefa", "", "x:SPDXRef-a"}
var badURIs = []string{"not a uri", "nouri", "http://a b/c", "%zz", "::", "://x", "http://[::1"}

type rdfFault struct {
	name string
	do   func(b *badRDF) bool
}

var licPreds = []string{"spdx:licenseConcluded", "spdx:licenseDeclared", "spdx:licenseInfoInFile", "spdx:licenseInfoInSnippet"}

var rdfFaults = []rdfFault{
	{"unknown-statement", func(b *badRDF) bool {
		for k := 0; k < 40; k++ {
			if n := b.one(pick(b.r, strictClasses)); n != nil {
				p := pick(b.r, []string{"spdx:frobnicate", "rdfs:label", "doap:bogus", "ptr:offsets", "spdx:Name", "spdx:comment"})
				if b.r.Chance(0.5) {
					n.lit(p, "x")
				} else {
					n.res(p, "http://example.org/x")
				}
				b.where = n.typ + " " + p
				return true
			}
		}
		return false
	}},
	{"foreign-statement", func(b *badRDF) bool {
		for k := 0; k < 40; k++ {
			p := pick(b.r, sortedKeys(ownStatements))
			if n := b.one(pick(b.r, strictClasses)); n != nil && ownStatements[p] != n.typ && p != "spdx:specVersion" {
				n.lit(p, "x")
				b.where = n.typ + " " + p
				return true
			}
		}
		return false
	}},
	{"relationship-type", func(b *badRDF) bool {
		return setRes(b.prop([]string{"spdx:relationshipType"}), pick(b.r, []string{nsSpdx + "relationshipType_", nsSpdx + "relationshipType_describesX", nsSpdx + "describes", nsSpdx + "relationshipType_DESCRIBES", nsSpdx + "relationshiptype_describes", "http://example.org/other", nsSpdx + "relationshipType_contain"}))
	}},
	{"related-element", func(b *badRDF) bool {
		return setRes(b.prop([]string{"spdx:relatedSpdxElement"}), b.g.ns+"#"+pick(b.r, []string{"Package-1", "SPDXRef-", "SPDXRefa", "DocumentRef-x", "DocumentRef-:SPDXRef-a", "DocumentRef-a:b:SPDXRef-c", "DocumentRef-a:b", "DocumentRef-a:SPDXRef-", "nonesuch", ""}))
	}},
	{"related-element-class", func(b *badRDF) bool {
		p := b.prop([]string{"spdx:relatedSpdxElement"})
		if p == nil {
			return false
		}
		*p = rprop{pred: p.pred, kind: 'n', node: &rnode{id: b.g.ns + "#SPDXRef-other-zz", typ: pick(b.r, []string{"spdx:Checksum", "spdx:Frob", "rdf:Description", "spdx:Review", "spdx:ExternalRef"})}}
		return true
	}},
	{"checksum-algorithm", func(b *badRDF) bool {
		return setRes(b.prop([]string{"spdx:algorithm"}), pick(b.r, []string{nsSpdx + "checksumAlgorithm_sha0", nsSpdx + "checksumAlgorithm_", nsSpdx + "sha1", nsSpdx + "checksumalgorithm_sha1", nsSpdx + "checksumAlgorithm_sha1x", nsSpdx + "checksumAlgorithm_blake2b", nsSpdx + "checksumAlgorithm_sha3", "http://example.org/md5"}))
	}},
	{"checksum-without-algorithm", func(b *badRDF) bool {
		p := b.prop([]string{"spdx:checksum"}, "spdx:File", "spdx:Package")
		if p == nil {
			return false
		}
		n := *p.node
		n.props = slices.DeleteFunc(slices.Clone(n.props), func(q rprop) bool { return q.pred == "spdx:algorithm" })
		p.node = &n
		return true
	}},
	{"annotation-type", func(b *badRDF) bool {
		return setRes(b.prop([]string{"spdx:annotationType"}), pick(b.r, []string{nsSpdx + "annotationType_", nsSpdx + "annotationType_others", nsSpdx + "annotationType_REVIEW", nsSpdx + "review", "http://example.org/annotationType_other"}))
	}},
	{"annotator", func(b *badRDF) bool { return setLit(b.prop([]string{"spdx:annotator"}), pick(b.r, badAgents)) }},
	{"creator", func(b *badRDF) bool { return setLit(b.prop([]string{"spdx:creator"}), pick(b.r, badAgents)) }},
	{"reviewer", func(b *badRDF) bool {
		return setLit(b.prop([]string{"spdx:reviewer"}), pick(b.r, []string{"", "someone", "Person x"}))
	}},
	{"supplier", func(b *badRDF) bool {
		return setLit(b.prop([]string{"spdx:supplier"}), pick(b.r, append([]string{"Tool: x", "NONE", "NOASSERTIONS"}, badAgents...)))
	}},
	{"originator", func(b *badRDF) bool {
		return setLit(b.prop([]string{"spdx:originator"}), pick(b.r, append([]string{"Tool: x", "NONE", "NOASSERTIONS"}, badAgents...)))
	}},
	{"boolean", func(b *badRDF) bool {
		return setLit(b.prop([]string{"spdx:filesAnalyzed", "spdx:isOsiApproved", "spdx:isDeprecatedLicenseId", "spdx:isFsfLibre"}), pick(b.r, []string{"", "yes", "1", "0", "tru", "truefalse", "no", "nil"}))
	}},
	{"download-location", func(b *badRDF) bool { return setLit(b.prop([]string{"spdx:downloadLocation"}), pick(b.r, badURIs)) }},
	{"homepage", func(b *badRDF) bool {
		return setLit(b.prop([]string{"doap:homepage"}, "spdx:Package"), pick(b.r, badURIs))
	}},
	{"see-also", func(b *badRDF) bool { return setLit(b.prop([]string{"rdfs:seeAlso"}), pick(b.r, badURIs)) }},
	{"reference-category", func(b *badRDF) bool {
		l := []string{nsSpdx + "referenceCategory_", nsSpdx + "referenceCategory_others", nsSpdx + "security", nsSpdx + "referenceCategory_SECURITY", nsSpdx + "referenceCategory_package-manager", "http://example.org/referenceCategory_other"}
		if b.v == 2 {
			l = append(l, nsSpdx+"referenceCategory_persistentId")
		}
		return setRes(b.prop([]string{"spdx:referenceCategory"}), pick(b.r, l))
	}},
	{"file-type", func(b *badRDF) bool {
		return setRes(b.prop([]string{"spdx:fileType"}), pick(b.r, []string{nsSpdx + "text", nsSpdx + "filetype_text", nsSpdx + "", "http://example.org/x"}))
	}},
	{"licence-unknown", func(b *badRDF) bool {
		return setRes(b.prop(licPreds), pick(b.r, []string{nsLic + "No-Such-License-9", nsLic + "mit", nsLic + "Apache-2.00", b.g.ns + "#LicenseRef-nowhere-defined", nsSpdx + "nonesuch", nsSpdx + "no-assertion", "http://example.org/l"}))
	}},
	{"licence-member-unknown", func(b *badRDF) bool {
		return setRes(b.prop([]string{"spdx:member"}, "spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet", "spdx:WithExceptionOperator"), pick(b.r, []string{nsLic + "No-Such-License-9", b.g.ns + "#LicenseRef-nowhere-defined"}))
	}},
	{"licence-class", func(b *badRDF) bool {
		p := b.prop(append([]string{"spdx:member"}, licPreds...), "spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet", "spdx:File", "spdx:Package", "spdx:Snippet")
		if p == nil {
			return false
		}
		n := b.g.blank(pick(b.r, []string{"rdf:Description", "spdx:File", "spdx:Frob", "spdx:Licence", "spdx:Checksum"}))
		n.lit("spdx:licenseId", "MIT")
		*p = rprop{pred: p.pred, kind: 'n', node: n}
		return true
	}},
	{"licence-cycle", func(b *badRDF) bool {
		p := b.prop(licPreds, "spdx:File", "spdx:Package", "spdx:Snippet")
		if p == nil {
			return false
		}
		// sets with an IRI, so that they can be referred to
		k := b.r.In(1, 3)
		var ring []*rnode
		for i := 0; i < k; i++ {
			n := &rnode{id: fmt.Sprintf("%s#set-%d", b.g.ns, i), typ: pick(b.r, []string{"spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet"})}
			n.res("spdx:member", nsLic+"MIT")
			ring = append(ring, n)
		}
		for i, n := range ring {
			n.res("spdx:member", ring[(i+1)%k].id)
			b.g.tops = append(b.g.tops, n)
		}
		setRes(p, ring[0].id)
		return true
	}},
	{"with-two-members", func(b *badRDF) bool {
		n := b.one("spdx:WithExceptionOperator")
		if n == nil {
			return false
		}
		m := b.g.blank("spdx:SimpleLicensingInfo")
		m.lit("spdx:licenseId", "MIT")
		n.sub("spdx:member", m)
		return true
	}},
	{"element-identifier", func(b *badRDF) bool {
		n := b.one("spdx:Package", "spdx:File", "spdx:Snippet")
		if n == nil {
			return false
		}
		b.rename(n, b.g.ns+"#"+pick(b.r, badIDs))
		return true
	}},
	{"document-identifier", func(b *badRDF) bool {
		n := b.one("spdx:SpdxDocument")
		b.rename(n, strings.ReplaceAll(n.id, "#", "/"))
		return true
	}},
	{"no-document", func(b *badRDF) bool {
		n := b.one("spdx:SpdxDocument")
		n.typ = pick(b.r, []string{"spdx:spdxDocument", "rdf:Description", "spdx:Package", "spdx:SPDXDocument"})
		return true
	}},
	{"two-documents", func(b *badRDF) bool {
		n := &rnode{id: b.g.ns + pick(b.r, []string{"#SPDXRef-OTHER", "2#SPDXRef-DOCUMENT"}), typ: "spdx:SpdxDocument"}
		if b.r.Chance(0.5) {
			n.lit("spdx:name", "another")
		}
		b.g.tops = append(b.g.tops, n)
		b.where = "document"
		return true
	}},
	{"range-statements", func(b *badRDF) bool {
		n := b.one("ptr:StartEndPointer")
		if n == nil {
			return false
		}
		switch k := b.r.N(3); {
		case k == 0: // one end is missing
			i := b.r.N(len(n.props))
			n.props = slices.Delete(n.props, i, i+1)
		case k == 1: // two ends of one kind
			n.props[0].pred = n.props[1].pred
		default: // three
			p := b.g.blank("ptr:ByteOffsetPointer")
			p.lit("ptr:offset", "77")
			n.sub(n.props[0].pred, p)
		}
		return true
	}},
	{"range-kinds", func(b *badRDF) bool {
		p := b.prop([]string{"ptr:offset", "ptr:lineNumber"})
		if p == nil {
			return false
		}
		if p.pred == "ptr:offset" {
			p.pred = "ptr:lineNumber"
		} else {
			p.pred = "ptr:offset"
		}
		return true
	}},
	{"range-number", func(b *badRDF) bool {
		return setLit(b.prop([]string{"ptr:offset", "ptr:lineNumber"}), pick(b.r, []string{"", "x", "1x", "1.5", "0x10", "1:2", "99999999999999999999"}))
	}},
	{"range-pointer-empty", func(b *badRDF) bool {
		n := b.one("ptr:LineCharPointer", "ptr:ByteOffsetPointer")
		if n == nil {
			return false
		}
		n.props = slices.DeleteFunc(n.props, func(q rprop) bool { return q.pred != "ptr:reference" })
		return true
	}},
	{"snippet-without-file", func(b *badRDF) bool {
		n := b.one("spdx:Snippet")
		if n == nil {
			return false
		}
		n.props = slices.DeleteFunc(n.props, func(q rprop) bool { return q.pred == "spdx:snippetFromFile" })
		return true
	}},
	{"package-in-itself", func(b *badRDF) bool {
		n := b.one("spdx:Package")
		if n == nil {
			return false
		}
		// one element cannot be a package and a file of it
		if b.r.Chance(0.5) {
			n.res("spdx:hasFile", n.id)
		} else {
			f := &rnode{id: b.g.ns + "#SPDXRef-inner-zz", typ: "spdx:File"}
			f.lit("spdx:fileName", "./inner")
			f.res("spdx:fileDependency", n.id)
			n.sub("spdx:hasFile", f)
			return true
		}
		return true
	}},
	{"pointer-reference", func(b *badRDF) bool {
		p := b.prop([]string{"ptr:reference"})
		if p == nil {
			return false
		}
		f := &rnode{id: b.g.ns + "#" + pick(b.r, badIDs[:5]), typ: "spdx:File"}
		f.lit("spdx:fileName", "./pointed")
		*p = rprop{pred: p.pred, kind: 'n', node: f}
		return true
	}},
	{"licence-two-classes", func(b *badRDF) bool {
		// of all its members or of any of them?
		n := b.one("spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet")
		if n == nil {
			return false
		}
		other := map[string]string{"spdx:ConjunctiveLicenseSet": "DisjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet": "ConjunctiveLicenseSet"}
		n.res("rdf:type", nsSpdx+other[n.typ])
		return true
	}},
	{"truncated", func(b *badRDF) bool {
		b.text = func(s string) string {
			end := strings.LastIndex(s, "</") // anything shorter lacks the end of the root element
			k := end
			if b.r.Chance(0.7) {
				k = b.r.N(end)
			}
			return s[:k]
		}
		b.where = "text"
		return true
	}},
	{"trailing", func(b *badRDF) bool {
		b.text = func(s string) string {
			return s + pick(b.r, []string{"x", "<a/>", "</spdx:Package>", "{}", "<spdx:SpdxDocument/>"})
		}
		b.where = "text"
		return true
	}},
	{"unclosed-element", func(b *badRDF) bool {
		b.text = func(s string) string {
			// drop one closing tag that is not the last
			var at []int
			for i := 0; ; {
				j := strings.Index(s[i:], "</")
				if j < 0 {
					break
				}
				at = append(at, i+j)
				i += j + 2
			}
			if len(at) < 2 {
				return ""
			}
			k := at[b.r.N(len(at)-1)]
			e := strings.IndexByte(s[k:], '>')
			return s[:k] + s[k+e+1:]
		}
		b.where = "text"
		return true
	}},
}

func (b *badRDF) rename(n *rnode, id string) {
	delete(b.g.named, n.id)
	for i, o := range b.g.order {
		if o == n.id {
			b.g.order[i] = id
		}
	}
	n.id = id
	b.g.named[id] = n
}

func runR03(c *Case) {
	r := c.R
	d, v := rdfDoc(c)
	g := buildRDF(r, d)
	st := randStyle(r)
	st.Labels = true
	f := rdfFaults[(c.Idx/2)%len(rdfFaults)]
	switch f.name {
	case "truncated", "unclosed-element", "trailing":
		st.Spell = false // no tags in comments or CDATA sections
	}
	if r.Chance(0.3) { // the undamaged document is fine
		ok := g.write(&rstyle{R: newR("r03", c.Idx), Nest: st.Nest, Labels: true, Shuffle: st.Shuffle})
		if err := srdf.ReadInto(strings.NewReader(ok), newDoc(v)); err != nil {
			c.Input([]byte(ok))
			c.Violationf("rdf.ReadInto of a valid %s document failed: %v", verString(v), err)
			return
		}
		c.Count("controls_accepted")
	}
	b := &badRDF{r: r, g: g, v: v}
	b.index()
	if !f.do(b) {
		c.Count("fault_not_applicable")
		return
	}
	st.Split = false
	text := g.write(st)
	if b.text != nil {
		text = b.text(text)
	}
	c.Input([]byte(text))
	target := down(newGen(c, v, "mem").doc(), v)
	before := cloneAny(target)
	c.Stage("rdf.ReadInto " + f.name)
	if err := srdf.ReadInto(strings.NewReader(text), target); err == nil {
		c.Violationf("rdf.ReadInto accepts a %s document with a fault (%s at %s)", verString(v), f.name, b.where)
		return
	}
	if df := diff(target, before); df != "" {
		c.Violationf("rdf.ReadInto of a document with a fault (%s) returned an error but changed the target: %s", f.name, df)
		return
	}
	c.Stage("rdf.Read " + f.name)
	if _, err := srdf.Read(strings.NewReader(text)); err == nil {
		c.Violationf("rdf.Read accepts a %s document with a fault (%s at %s)", verString(v), f.name, b.where)
		return
	}
	c.Count("faults_rejected")
	c.Count("fault:" + f.name)
	c.Distinct("fault_places", v, f.name, b.where)
	c.Seen(f.name, b.where, v, shape(d))
	c.Sample(map[string]any{"version": verString(v), "fault": f.name, "where": b.where, "bytes": len(text)})
}
