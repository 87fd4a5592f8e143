package main

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// Reference for RDF/XML, written from the SPDX 2 RDF vocabulary: a document becomes a graph of nodes, and the graph
// is serialised in many equivalent ways. Nothing here comes from the reader under test.

type rnode struct {
	id    string // IRI, or "" for a blank node
	blank string // the label of a blank node
	typ   string // vocabulary class with its prefix
	props []rprop
}

type rprop struct {
	pred string
	lit  string
	res  string // IRI
	node *rnode
	kind byte // l, r, n
}

func (n *rnode) lit(pred, v string) {
	if v != "" {
		n.props = append(n.props, rprop{pred: pred, lit: v, kind: 'l'})
	}
}
func (n *rnode) res(pred, iri string) {
	n.props = append(n.props, rprop{pred: pred, res: iri, kind: 'r'})
}
func (n *rnode) sub(pred string, o *rnode) {
	n.props = append(n.props, rprop{pred: pred, node: o, kind: 'n'})
}

const (
	nsSpdx = "http://spdx.org/rdf/terms#"
	nsLic  = "http://spdx.org/licenses/"
)

// rgraph is one document's graph: nodes with an IRI, by IRI, and the nodes nothing has to refer to.
type rgraph struct {
	ns    string
	named map[string]*rnode
	order []string
	tops  []*rnode
	nb    int
	lics  map[string]bool // extracted licences
	r     *R
	exts  map[common.DocumentID]string // namespaces of other documents

	sharesRelationships bool
}

func (g *rgraph) blank(typ string) *rnode {
	g.nb++
	return &rnode{blank: fmt.Sprintf("x%dq", g.nb), typ: typ}
}

func (g *rgraph) named_(frag, typ string) *rnode {
	id := g.ns + "#" + frag
	if n := g.named[id]; n != nil {
		return n
	}
	n := &rnode{id: id, typ: typ}
	g.named[id] = n
	g.order = append(g.order, id)
	return n
}

var rdfAlgo = map[common.ChecksumAlgorithm]string{common.SHA1: "sha1", common.SHA224: "sha224", common.SHA256: "sha256", common.SHA384: "sha384", common.SHA512: "sha512",
	common.MD2: "md2", common.MD4: "md4", common.MD5: "md5", common.MD6: "md6", "SHA3-256": "sha3_256", "SHA3-384": "sha3_384", "SHA3-512": "sha3_512",
	"BLAKE2b-256": "blake2b256", "BLAKE2b-384": "blake2b384", "BLAKE2b-512": "blake2b512", "BLAKE3": "blake3", "ADLER32": "adler32"}

func (g *rgraph) checksum(c common.Checksum) *rnode {
	n := g.blank("spdx:Checksum")
	n.res("spdx:algorithm", nsSpdx+"checksumAlgorithm_"+rdfAlgo[c.Algorithm])
	n.lit("spdx:checksumValue", c.Value)
	return n
}

// license puts a licence expression of the forms the generator uses (names, A AND B, A OR B, parenthesised parts,
// A WITH e) behind pred.
func (g *rgraph) license(n *rnode, pred, expr string) {
	if expr == "" {
		return
	}
	op, parts := splitLicense(expr)
	if op == "" {
		id := parts[0]
		switch {
		case id == "NONE":
			n.res(pred, nsSpdx+pick(g.r, []string{"none", "NONE"}))
		case id == "NOASSERTION":
			n.res(pred, nsSpdx+pick(g.r, []string{"noassertion", "NOASSERTION"}))
		case strings.Contains(id, " WITH "):
			a, e, _ := strings.Cut(id, " WITH ")
			w := g.blank("spdx:WithExceptionOperator")
			g.operand(w, a)
			if g.r.Chance(0.2) {
				w.res("spdx:licenseException", nsLic+e)
			} else {
				ex := g.blank("spdx:LicenseException")
				if g.r.Chance(0.3) && g.named[nsLic+e] == nil {
					ex = &rnode{id: nsLic + e, typ: "spdx:LicenseException"}
					g.named[ex.id] = ex
					g.order = append(g.order, ex.id)
				}
				ex.lit("spdx:licenseExceptionId", e)
				for _, p := range []string{"spdx:name", "spdx:licenseExceptionText", "spdx:example", "rdfs:comment"} {
					if g.r.Chance(0.4) {
						ex.lit(p, "of "+e)
					}
				}
				if g.r.Chance(0.4) {
					ex.lit("rdfs:seeAlso", "https://example.org/"+e)
				}
				w.sub("spdx:licenseException", ex)
			}
			n.sub(pred, w)
		case strings.HasPrefix(id, "LicenseRef-"):
			n.sub(pred, g.named_(id, "spdx:ExtractedLicensingInfo"))
		default:
			switch {
			case g.r.Chance(0.15):
				n.sub(pred, g.listed(id))
			case g.r.Chance(0.08):
				n.sub(pred, g.simple(id))
			default:
				n.res(pred, nsLic+id)
			}
		}
		return
	}
	typ := "spdx:ConjunctiveLicenseSet"
	if op == "OR" {
		typ = "spdx:DisjunctiveLicenseSet"
	}
	s := g.blank(typ)
	for _, p := range parts {
		g.license(s, "spdx:member", p)
	}
	n.sub(pred, s)
}

// operand puts the licence an operator applies to behind its member.
func (g *rgraph) operand(w *rnode, id string) {
	switch {
	case strings.HasPrefix(id, "LicenseRef-"):
		w.sub("spdx:member", g.named_(id, "spdx:ExtractedLicensingInfo"))
	case !slices.Contains(listedLicenses, id) || g.r.Chance(0.35):
		w.sub("spdx:member", g.simple(id))
	case g.r.Chance(0.4):
		w.sub("spdx:member", g.listed(id))
	default:
		w.res("spdx:member", nsLic+id)
	}
}

// simple is a licence described by as little as a name.
func (g *rgraph) simple(id string) *rnode {
	m := g.blank("spdx:SimpleLicensingInfo")
	m.lit("spdx:licenseId", id)
	for _, p := range []string{"spdx:name", "spdx:example", "rdfs:comment"} {
		if g.r.Chance(0.3) {
			m.lit(p, "of "+id)
		}
	}
	if g.r.Chance(0.3) {
		m.lit("rdfs:seeAlso", "https://example.org/"+id)
	}
	return m
}

// listed is a listed licence that is described in the document itself.
func (g *rgraph) listed(id string) *rnode {
	n := g.named[nsLic+id]
	if n == nil {
		n = &rnode{id: nsLic + id, typ: pick(g.r, []string{"spdx:ListedLicense", "spdx:License"})}
		g.named[n.id] = n
		g.order = append(g.order, n.id)
		n.lit("spdx:licenseId", id)
		for _, p := range []string{"spdx:name", "rdfs:comment", "spdx:example", "spdx:licenseText", "spdx:standardLicenseHeader", "spdx:standardLicenseTemplate", "spdx:standardLicenseHeaderTemplate"} {
			if g.r.Chance(0.3) {
				n.lit(p, "of "+id)
			}
		}
		for _, p := range []string{"spdx:isOsiApproved", "spdx:isDeprecatedLicenseId", "spdx:isFsfLibre"} {
			if g.r.Chance(0.3) {
				n.lit(p, pick(g.r, []string{"true", "false"}))
			}
		}
		if g.r.Chance(0.3) {
			n.lit("rdfs:seeAlso", "https://example.org/"+id)
		}
	}
	return n
}

// splitLicense splits an expression at its outermost operator (one kind per level), outer parentheses removed.
func splitLicense(s string) (string, []string) {
	s = strings.TrimSpace(s)
	for strings.HasPrefix(s, "(") {
		depth, whole := 0, true
		for i, c := range s {
			if c == '(' {
				depth++
			}
			if c == ')' {
				depth--
				if depth == 0 && i != len(s)-1 {
					whole = false
					break
				}
			}
		}
		if !whole || depth != 0 {
			break
		}
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
	for _, op := range []string{"OR", "AND"} {
		var parts []string
		depth, last := 0, 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(':
				depth++
			case ')':
				depth--
			}
			if depth == 0 && strings.HasPrefix(s[i:], " "+op+" ") {
				parts = append(parts, s[last:i])
				last = i + len(op) + 2
				i = last - 1
			}
		}
		if len(parts) > 0 {
			return op, append(parts, s[last:])
		}
	}
	return "", []string{s}
}

// normLicense gives an expression's meaning a canonical text: members of AND and OR sorted, repeats dropped.
func normLicense(s string) string {
	op, parts := splitLicense(s)
	if op == "" {
		return parts[0]
	}
	set := map[string]bool{}
	for _, p := range parts {
		n := normLicense(p)
		switch o, ps := splitLicense(n); o {
		case "":
			set[n] = true
		case op:
			for _, q := range ps {
				set[q] = true
			}
		default:
			set["("+n+")"] = true
		}
	}
	if len(set) == 1 {
		return normLicense(sortedKeys(set)[0])
	}
	return strings.Join(sortedKeys(set), " "+op+" ")
}

// anyCase is how NONE and NOASSERTION are spelled as resources: small by the specification, capital by many tools.
func (g *rgraph) anyCase(s string) string {
	if g.r.Chance(0.35) {
		return s
	}
	return strings.ToLower(s)
}

func agentText(typ, name string) string {
	if typ == "" {
		return name
	}
	return typ + ": " + name
}

func (g *rgraph) elemIRI(e common.ElementID) string { return g.ns + "#SPDXRef-" + string(e) }

func (g *rgraph) relTarget(rel *rnode, d common.DocElementID) {
	const pred = "spdx:relatedSpdxElement"
	switch {
	case d.SpecialID != "":
		rel.res(pred, nsSpdx+g.anyCase(d.SpecialID))
	case d.DocumentRefID != "" && g.exts[d.DocumentRefID] != "" && g.r.Chance(0.6):
		rel.res(pred, g.exts[d.DocumentRefID]+"#SPDXRef-"+string(d.ElementRefID))
	case d.DocumentRefID != "":
		rel.res(pred, g.ns+"#DocumentRef-"+string(d.DocumentRefID)+":SPDXRef-"+string(d.ElementRefID))
	case g.named[g.elemIRI(d.ElementRefID)] != nil:
		rel.sub(pred, g.named[g.elemIRI(d.ElementRefID)])
	case g.r.Chance(0.3): // an element the document says nothing else about
		rel.sub(pred, &rnode{id: g.elemIRI(d.ElementRefID), typ: "spdx:SpdxElement"})
	default:
		rel.res(pred, g.elemIRI(d.ElementRefID))
	}
}

func (g *rgraph) copyright(n *rnode, s string) {
	switch s {
	case "NOASSERTION", "NONE":
		n.res("spdx:copyrightText", nsSpdx+g.anyCase(s))
	default:
		n.lit("spdx:copyrightText", s)
	}
}

func (g *rgraph) annotation(a *v2_3.Annotation) *rnode {
	n := g.blank("spdx:Annotation")
	n.lit("spdx:annotator", agentText(a.Annotator.AnnotatorType, a.Annotator.Annotator))
	n.lit("spdx:annotationDate", a.AnnotationDate)
	n.lit("rdfs:comment", a.AnnotationComment)
	n.res("spdx:annotationType", nsSpdx+"annotationType_"+strings.ToLower(a.AnnotationType))
	return n
}

// buildRDF makes the graph of a document as an RDF reader should return it (see rdfDoc).
func buildRDF(r *R, d *v2_3.Document) *rgraph {
	g := &rgraph{ns: d.DocumentNamespace, named: map[string]*rnode{}, r: r, exts: map[common.DocumentID]string{}, sharesRelationships: r.Chance(0.3)}
	doc := g.named_("SPDXRef-"+string(d.SPDXIdentifier), "spdx:SpdxDocument")
	files := map[common.ElementID]*v2_3.File{}
	for _, p := range d.Packages {
		g.named_("SPDXRef-"+string(p.PackageSPDXIdentifier), "spdx:Package")
		for _, f := range p.Files {
			files[f.FileSPDXIdentifier] = f
		}
	}
	for _, f := range d.Files {
		files[f.FileSPDXIdentifier] = f
	}
	for _, k := range sortedIDs(files) {
		g.named_("SPDXRef-"+string(k), "spdx:File")
		for _, sk := range sortedIDs(files[k].Snippets) {
			g.named_("SPDXRef-"+string(sk), "spdx:Snippet")
		}
	}
	// header
	doc.lit("spdx:specVersion", d.SPDXVersion)
	if d.DataLicense != "" {
		doc.res("spdx:dataLicense", nsLic+d.DataLicense)
	}
	doc.lit("spdx:name", d.DocumentName)
	doc.lit("rdfs:comment", d.DocumentComment)
	for _, e := range d.ExternalDocumentReferences {
		n := g.blank("spdx:ExternalDocumentRef")
		n.lit("spdx:externalDocumentId", "DocumentRef-"+string(e.DocumentRefID))
		n.res("spdx:spdxDocument", e.URI)
		g.exts[e.DocumentRefID] = strings.TrimSuffix(e.URI, "#")
		n.sub("spdx:checksum", g.checksum(e.Checksum))
		doc.sub("spdx:externalDocumentRef", n)
	}
	if ci := d.CreationInfo; ci != nil {
		n := g.blank("spdx:CreationInfo")
		n.lit("spdx:licenseListVersion", ci.LicenseListVersion)
		for _, c := range ci.Creators {
			n.lit("spdx:creator", agentText(c.CreatorType, c.Creator))
		}
		n.lit("spdx:created", ci.Created)
		n.lit("rdfs:comment", ci.CreatorComment)
		doc.sub("spdx:creationInfo", n)
	}
	for _, rv := range d.Reviews {
		n := g.blank("spdx:Review")
		n.lit("spdx:reviewer", agentText(rv.ReviewerType, rv.Reviewer))
		n.lit("spdx:reviewDate", rv.ReviewDate)
		n.lit("rdfs:comment", rv.ReviewComment)
		doc.sub("spdx:reviewed", n)
	}
	for _, l := range d.OtherLicenses {
		n := g.named_(l.LicenseIdentifier, "spdx:ExtractedLicensingInfo")
		n.lit("spdx:licenseId", l.LicenseIdentifier)
		n.lit("spdx:extractedText", l.ExtractedText)
		n.lit("spdx:name", l.LicenseName)
		n.lit("rdfs:comment", l.LicenseComment)
		for _, u := range l.LicenseCrossReferences {
			n.lit("rdfs:seeAlso", u)
		}
		doc.sub("spdx:hasExtractedLicensingInfo", n)
	}
	reach := map[common.ElementID]bool{}
	for _, rel := range d.Relationships {
		if rel.RefB.DocumentRefID == "" && rel.RefA.ElementRefID == d.SPDXIdentifier {
			reach[rel.RefB.ElementRefID] = true
		}
	}
	for _, p := range d.Packages {
		n := g.named_("SPDXRef-"+string(p.PackageSPDXIdentifier), "spdx:Package")
		if !reach[p.PackageSPDXIdentifier] || r.Chance(0.4) {
			doc.sub("spdx:describesPackage", n)
		}
		g.pkg(n, p)
	}
	for _, k := range sortedIDs(files) {
		g.file(g.named_("SPDXRef-"+string(k), "spdx:File"), files[k])
	}
	// what several elements have in common may be said once, in a node all of them refer to
	type saying struct {
		typ, comment string
		to           common.DocElementID
	}
	said, from := map[saying]*rnode{}, map[*rnode]map[common.ElementID]bool{}
	for _, rel := range d.Relationships {
		say := saying{rel.Relationship, rel.RelationshipComment, rel.RefB}
		if n := said[say]; n != nil && !from[n][rel.RefA.ElementRefID] {
			from[n][rel.RefA.ElementRefID] = true
			g.named[g.elemIRI(rel.RefA.ElementRefID)].sub("spdx:relationship", n)
			continue
		}
		n := g.blank("spdx:Relationship")
		if g.sharesRelationships {
			n = g.named_(fmt.Sprintf("relationship-%d", len(from)), "spdx:Relationship")
			said[say], from[n] = n, map[common.ElementID]bool{rel.RefA.ElementRefID: true}
		}
		n.res("spdx:relationshipType", nsSpdx+"relationshipType_"+rel.Relationship)
		g.relTarget(n, rel.RefB)
		n.lit("rdfs:comment", rel.RelationshipComment)
		g.named[g.elemIRI(rel.RefA.ElementRefID)].sub("spdx:relationship", n)
	}
	for _, a := range d.Annotations {
		g.named[g.elemIRI(a.AnnotationSPDXIdentifier.ElementRefID)].sub("spdx:annotation", g.annotation(a))
	}
	g.tops = append(g.tops, doc)
	return g
}

func (g *rgraph) pkg(n *rnode, p *v2_3.Package) {
	n.lit("spdx:name", p.PackageName)
	n.lit("spdx:versionInfo", p.PackageVersion)
	n.lit("spdx:packageFileName", p.PackageFileName)
	if s := p.PackageSupplier; s != nil {
		n.lit("spdx:supplier", agentText(s.SupplierType, s.Supplier))
	}
	if s := p.PackageOriginator; s != nil {
		n.lit("spdx:originator", agentText(s.OriginatorType, s.Originator))
	}
	switch p.PackageDownloadLocation {
	case "NONE", "NOASSERTION":
		n.res("spdx:downloadLocation", nsSpdx+g.anyCase(p.PackageDownloadLocation))
	default:
		n.lit("spdx:downloadLocation", p.PackageDownloadLocation)
	}
	if p.IsFilesAnalyzedTagPresent {
		n.lit("spdx:filesAnalyzed", fmt.Sprint(p.FilesAnalyzed))
	}
	if c := p.PackageVerificationCode; c != nil {
		m := g.blank("spdx:PackageVerificationCode")
		m.lit("spdx:packageVerificationCodeValue", c.Value)
		for _, e := range c.ExcludedFiles {
			m.lit("spdx:packageVerificationCodeExcludedFile", e)
		}
		n.sub("spdx:packageVerificationCode", m)
	}
	for _, c := range p.PackageChecksums {
		n.sub("spdx:checksum", g.checksum(c))
	}
	n.lit("doap:homepage", p.PackageHomePage)
	n.lit("spdx:sourceInfo", p.PackageSourceInfo)
	g.license(n, "spdx:licenseConcluded", p.PackageLicenseConcluded)
	for _, l := range p.PackageLicenseInfoFromFiles {
		switch {
		case l == "NONE" || l == "NOASSERTION":
			n.res("spdx:licenseInfoFromFiles", nsSpdx+g.anyCase(l))
		case strings.HasPrefix(l, "LicenseRef-"):
			if g.r.Chance(0.5) {
				n.res("spdx:licenseInfoFromFiles", g.ns+"#"+l)
			} else {
				g.license(n, "spdx:licenseInfoFromFiles", l)
			}
		default:
			n.res("spdx:licenseInfoFromFiles", nsLic+l)
		}
	}
	g.license(n, "spdx:licenseDeclared", p.PackageLicenseDeclared)
	n.lit("spdx:licenseComments", p.PackageLicenseComments)
	g.copyright(n, p.PackageCopyrightText)
	n.lit("spdx:summary", p.PackageSummary)
	n.lit("spdx:description", p.PackageDescription)
	n.lit("rdfs:comment", p.PackageComment)
	for _, e := range p.PackageExternalReferences {
		m := g.blank("spdx:ExternalRef")
		m.res("spdx:referenceCategory", nsSpdx+"referenceCategory_"+map[string]string{"SECURITY": "security", "PACKAGE-MANAGER": "packageManager", "OTHER": "other", "PERSISTENT-ID": "persistentId"}[e.Category])
		m.res("spdx:referenceType", e.RefType)
		m.lit("spdx:referenceLocator", e.Locator)
		m.lit("rdfs:comment", e.ExternalRefComment)
		n.sub("spdx:externalRef", m)
	}
	for _, f := range p.Files {
		n.sub("spdx:hasFile", g.named_("SPDXRef-"+string(f.FileSPDXIdentifier), "spdx:File"))
	}
	for _, t := range p.PackageAttributionTexts {
		n.lit("spdx:attributionText", t)
	}
	if p.PrimaryPackagePurpose != "" {
		n.res("spdx:primaryPackagePurpose", nsSpdx+"packagePurpose_"+strings.ToLower(strings.ReplaceAll(p.PrimaryPackagePurpose, "-", "_")))
	}
	n.lit("spdx:releaseDate", p.ReleaseDate)
	n.lit("spdx:builtDate", p.BuiltDate)
	n.lit("spdx:validUntilDate", p.ValidUntilDate)
}

func (g *rgraph) file(n *rnode, f *v2_3.File) {
	n.lit("spdx:fileName", f.FileName)
	for _, t := range f.FileTypes {
		n.res("spdx:fileType", nsSpdx+"fileType_"+t)
	}
	for _, c := range f.Checksums {
		n.sub("spdx:checksum", g.checksum(c))
	}
	g.license(n, "spdx:licenseConcluded", f.LicenseConcluded)
	for _, l := range f.LicenseInfoInFiles {
		g.license(n, "spdx:licenseInfoInFile", l)
	}
	n.lit("spdx:licenseComments", f.LicenseComments)
	g.copyright(n, f.FileCopyrightText)
	n.lit("rdfs:comment", f.FileComment)
	if f.FileNotice == "NOASSERTION" && g.r.Chance(0.5) {
		n.res("spdx:noticeText", nsSpdx+g.anyCase(f.FileNotice))
	} else {
		n.lit("spdx:noticeText", f.FileNotice)
	}
	for _, c := range f.FileContributors {
		n.lit("spdx:fileContributor", c)
	}
	for _, t := range f.FileAttributionTexts {
		n.lit("spdx:attributionText", t)
	}
	for _, d := range f.FileDependencies {
		n.sub("spdx:fileDependency", g.named_("SPDXRef-"+d, "spdx:File"))
	}
	for _, a := range f.ArtifactOfProjects {
		m := g.blank("doap:Project")
		if a.URI != "" {
			m = &rnode{id: a.URI, typ: "doap:Project"}
		}
		m.lit("doap:name", a.Name)
		m.lit("doap:homepage", a.HomePage)
		n.sub("spdx:artifactOf", m)
	}
	for _, sk := range sortedIDs(f.Snippets) {
		s := f.Snippets[sk]
		m := g.named_("SPDXRef-"+string(sk), "spdx:Snippet")
		m.sub("spdx:snippetFromFile", n)
		for _, rg := range s.Ranges {
			rn := g.blank("ptr:StartEndPointer")
			ptr := func(p common.SnippetRangePointer) *rnode {
				var pn *rnode
				if p.LineNumber != 0 {
					pn = g.blank("ptr:LineCharPointer")
					pn.lit("ptr:lineNumber", fmt.Sprint(p.LineNumber))
				} else {
					pn = g.blank("ptr:ByteOffsetPointer")
					pn.lit("ptr:offset", fmt.Sprint(p.Offset))
				}
				pn.sub("ptr:reference", n)
				return pn
			}
			rn.sub("ptr:startPointer", ptr(rg.StartPointer))
			rn.sub("ptr:endPointer", ptr(rg.EndPointer))
			m.sub("spdx:range", rn)
		}
		g.license(m, "spdx:licenseConcluded", s.SnippetLicenseConcluded)
		for _, l := range s.LicenseInfoInSnippet {
			g.license(m, "spdx:licenseInfoInSnippet", l)
		}
		m.lit("spdx:licenseComments", s.SnippetLicenseComments)
		g.copyright(m, s.SnippetCopyrightText)
		m.lit("rdfs:comment", s.SnippetComment)
		m.lit("spdx:name", s.SnippetName)
		for _, t := range s.SnippetAttributionTexts {
			m.lit("spdx:attributionText", t)
		}
		g.tops = append(g.tops, m)
	}
}

func sortedIDs[V any](m map[common.ElementID]V) []common.ElementID {
	var ks []common.ElementID
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// rstyle is one way of writing a graph down.
type rstyle struct {
	R       *R
	Shuffle bool    // properties and top-level nodes in random order
	Nest    float64 // chance that a named node is described where it is first referred to
	Labels  bool    // blank nodes carry rdf:nodeID
	Split   bool    // some named nodes are described in two places
	Pfx     bool    // other prefixes
	Tight   bool    // no indentation
	Prolog  bool
	Spell   bool // character references, CDATA sections, comments
}

func randStyle(r *R) *rstyle {
	return &rstyle{R: r, Shuffle: r.Chance(0.8), Nest: pick(r, []float64{0, 0.5, 0.8, 1}), Labels: r.Chance(0.9), Pfx: r.Chance(0.3), Tight: r.Chance(0.3), Split: r.Chance(0.3), Prolog: r.Chance(0.4), Spell: r.Chance(0.5)}
}

type rwriter struct {
	sb    strings.Builder
	st    *rstyle
	g     *rgraph
	done  map[string]bool
	pfx   map[string]string
	later []*rnode // the rest of nodes described in two places
}

func (w *rwriter) q(name string) string {
	p, l, _ := strings.Cut(name, ":")
	if n, ok := w.pfx[p]; ok {
		if n == "" {
			return l
		}
		return n + ":" + l
	}
	return name
}

// quote sign of an attribute
func (w *rwriter) attr(name, v string) string {
	if w.st.R != nil && w.st.R.Chance(0.15) {
		return w.q(name) + "='" + attrEscape(v) + "'"
	}
	return w.q(name) + `="` + attrEscape(v) + `"`
}

func (w *rwriter) nl(depth int) {
	if w.st.Tight {
		return
	}
	w.sb.WriteString("\n" + strings.Repeat("  ", depth))
}

func (w *rwriter) node(n *rnode, depth int) {
	w.nl(depth)
	id := ""
	switch {
	case n.id != "":
		id = " " + w.attr("rdf:about", n.id)
		w.done[n.id] = true
	case w.st.Labels:
		id = " " + w.attr("rdf:nodeID", n.blank)
	}
	props := append([]rprop{}, n.props...)
	if w.st.Shuffle {
		w.st.R.Shuffle(len(props), func(i, j int) { props[i], props[j] = props[j], props[i] })
	}
	tag := w.q(n.typ)
	if w.st.Split && n.id != "" && len(props) > 1 && w.g.named[n.id] != nil && w.st.R.Chance(0.4) {
		k := 1 + w.st.R.N(len(props)-1)
		w.later = append(w.later, &rnode{id: n.id, typ: n.typ, props: props[k:]})
		props = props[:k]
	}
	if len(props) == 0 {
		w.sb.WriteString("<" + tag + id + "/>")
		return
	}
	w.sb.WriteString("<" + tag + id + ">")
	for _, p := range props {
		w.nl(depth + 1)
		w.sb.WriteString(w.comment())
		pt := w.q(p.pred)
		switch {
		case p.kind == 'l':
			at := ""
			if r := w.st.R; r != nil && w.st.Spell && r.Chance(0.1) {
				at = " " + w.attr("rdf:datatype", "http://www.w3.org/2001/XMLSchema#string")
			}
			w.sb.WriteString("<" + pt + at + ">" + w.text(p.lit) + "</" + pt + ">")
		case p.kind == 'r':
			w.resource(pt, p.res)
		case p.node.typ == "spdx:SpdxDocument": // the document is always described at top level
			w.resource(pt, p.node.id)
		case p.node.id != "" && w.g.named[p.node.id] != nil && (w.done[p.node.id] || (w.st.Nest < 1 && !w.st.R.Chance(w.st.Nest))):
			w.resource(pt, p.node.id)
		default:
			w.sb.WriteString("<" + pt + ">")
			w.node(p.node, depth+2)
			w.nl(depth + 1)
			w.sb.WriteString("</" + pt + ">")
		}
	}
	w.nl(depth)
	w.sb.WriteString("</" + tag + ">")
}

func (w *rwriter) resource(tag, iri string) {
	if w.st.R != nil && w.st.R.Chance(0.2) {
		w.sb.WriteString("<" + tag + " " + w.attr("rdf:resource", iri) + "></" + tag + ">")
		return
	}
	w.sb.WriteString("<" + tag + " " + w.attr("rdf:resource", iri) + "/>")
}

// text spells character data: entities, character references, a CDATA section, with or without comments beside it.
func (w *rwriter) text(s string) string {
	r := w.st.R
	if r == nil || !w.st.Spell {
		return xmlEscape(s)
	}
	out := ""
	if !strings.Contains(s, "]]>") && s == strings.TrimSpace(s) && r.Chance(0.1) {
		out = "<![CDATA[" + s + "]]>"
	} else {
		var sb strings.Builder
		p := pick(r, []float64{0, 0, 0.1, 1})
		for i, c := range s {
			switch {
			case c == '&' || c == '<' || r.Chance(p) && c != '\n' && c != '\t' && c != ' ':
				switch e, ok := map[rune]string{'&': "&amp;", '<': "&lt;", '>': "&gt;", '"': "&quot;", '\'': "&apos;"}[c]; {
				case ok && r.Chance(0.7):
					sb.WriteString(e)
				case r.Chance(0.5):
					fmt.Fprintf(&sb, "&#%d;", c)
				default:
					fmt.Fprintf(&sb, pick(r, []string{"&#x%x;", "&#x%X;", "&#x0%x;"}), c)
				}
			default:
				sb.WriteRune(c)
			}
			if i > 0 && r.Chance(0.005) {
				sb.WriteString("<!-- x > <a> & -->")
			}
		}
		out = sb.String()
	}
	return out
}

// comment is a comment or nothing.
func (w *rwriter) comment() string {
	if r := w.st.R; r != nil && w.st.Spell && r.Chance(0.05) {
		return pick(r, []string{"<!-- c -->", "<!---->", "<!--\n<spdx:name>no</spdx:name>\n-->", "<!-- <![CDATA[ -->", "<!-- a & b ]]> -->"})
	}
	return ""
}

func xmlEscape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(s)
}

func attrEscape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "'", "&apos;").Replace(s)
}

func (g *rgraph) write(st *rstyle) string {
	w := &rwriter{st: st, g: g, done: map[string]bool{}, pfx: map[string]string{}}
	if st.Pfx {
		w.pfx["spdx"] = pick(st.R, []string{"s", "", "spdx2"})
		w.pfx["ptr"] = "j.0"
		if st.R.Chance(0.5) {
			w.pfx["rdf"] = "r"
			w.pfx["rdfs"] = "schema"
		}
	}
	if st.Prolog {
		w.sb.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	w.sb.WriteString("<" + w.q("rdf:RDF"))
	for _, p := range [][2]string{{"spdx", nsSpdx}, {"rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"}, {"rdfs", "http://www.w3.org/2000/01/rdf-schema#"}, {"doap", "http://usefulinc.com/ns/doap#"}, {"ptr", "http://www.w3.org/2009/pointers#"}} {
		n := p[0]
		if a, ok := w.pfx[n]; ok {
			n = a
		}
		if n == "" {
			w.sb.WriteString("\n  xmlns=\"" + p[1] + "\"")
		} else {
			w.sb.WriteString("\n  xmlns:" + n + "=\"" + p[1] + "\"")
		}
	}
	w.sb.WriteString(">")
	tops := append([]*rnode{}, g.tops...)
	if st.Shuffle {
		st.R.Shuffle(len(tops), func(i, j int) { tops[i], tops[j] = tops[j], tops[i] })
	}
	for _, t := range tops {
		if !w.done[t.id] {
			w.node(t, 1)
		}
	}
	if st.Shuffle { // some parts of split nodes come before other nodes
		for k := len(w.later); k > 0 && st.R.Chance(0.5); k-- {
			n := w.later[0]
			w.later = w.later[1:]
			w.node(n, 1)
		}
	}
	for { // whatever was only referred to is described at top level
		var rest []string
		for _, id := range g.order {
			if !w.done[id] && len(g.named[id].props) > 0 {
				rest = append(rest, id)
			}
		}
		if len(rest) == 0 {
			break
		}
		if st.Shuffle {
			st.R.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		}
		w.node(g.named[rest[0]], 1)
	}
	for i := 0; i < len(w.later); i++ {
		w.node(w.later[i], 1)
	}
	w.sb.WriteString("\n</" + w.q("rdf:RDF") + ">\n")
	return w.sb.String()
}

// rdfPlain writes a document in one plain style, for checks that only need some RDF text.
func rdfPlain(d *v2_3.Document, v int) string {
	return buildRDF(newR("rdfplain"), d).write(&rstyle{R: newR("rdfplain", 1), Nest: 1, Labels: true})
}

var rdfRelTypes = []string{"amendment", "ancestorOf", "buildDependencyOf", "buildToolOf", "containedBy", "contains", "copyOf", "dataFile", "dataFileOf", "dependencyManifestOf", "dependencyOf", "dependsOn", "descendantOf", "describedBy", "describes", "devDependencyOf", "devToolOf", "distributionArtifact", "documentation", "dynamicLink", "exampleOf", "expandedFromArchive", "fileAdded", "fileDeleted", "fileModified", "generatedFrom", "generates", "hasPrerequisite", "metafileOf", "optionalComponentOf", "optionalDependencyOf", "other", "packageOf", "patchApplied", "patchFor", "prerequisiteFor", "providedDependencyOf", "runtimeDependencyOf", "staticLink", "testDependencyOf", "testOf", "testToolOf", "testcaseOf", "variantOf"}

func dedupe(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// simpleOnce drops repeated plain licences of a list: in a graph they are one statement.
func simpleOnce(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if op, p := splitLicense(x); op == "" && !strings.Contains(p[0], " WITH ") {
			if seen[x] {
				continue
			}
			seen[x] = true
		}
		out = append(out, x)
	}
	return out
}

// rdfForm makes a generated document one that RDF/XML can state and the reader says it reads: values from the RDF
// vocabulary, annotations with their subject, files reachable from the document, lists without repeats.
func (g *Gen) rdfForm(d *v2_3.Document) {
	r := g.R
	known := map[common.ElementID]bool{"DOCUMENT": true}
	var fileIDs []string
	var all []*v2_3.File
	files := func(fs []*v2_3.File) {
		for _, f := range fs {
			known[f.FileSPDXIdentifier] = true
			fileIDs = append(fileIDs, string(f.FileSPDXIdentifier))
			all = append(all, f)
			for k := range f.Snippets {
				known[k] = true
			}
		}
	}
	files(d.Files)
	// in a graph an agent's text is a literal, and literals are a set
	seen := map[string]bool{}
	cs := d.CreationInfo.Creators[:0]
	for _, c := range d.CreationInfo.Creators {
		if t := agentText(c.CreatorType, c.Creator); !seen[t] {
			seen[t] = true
			cs = append(cs, c)
		}
	}
	d.CreationInfo.Creators = cs
	for _, l := range d.OtherLicenses {
		l.LicenseCrossReferences = dedupe(l.LicenseCrossReferences)
	}
	for _, p := range d.Packages {
		known[p.PackageSPDXIdentifier] = true
		files(p.Files)
		for i := range p.Annotations {
			a := p.Annotations[i]
			a.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}
			d.Annotations = append(d.Annotations, &a)
		}
		p.Annotations = nil
		var li []string
		for range p.PackageLicenseInfoFromFiles {
			li = append(li, pick(r, append(append([]string{}, rdfLicenses...), g.lics...)))
		}
		p.PackageLicenseInfoFromFiles = dedupe(li)
		p.PackageAttributionTexts = dedupe(p.PackageAttributionTexts)
		if c := p.PackageVerificationCode; c != nil {
			c.ExcludedFiles = dedupe(c.ExcludedFiles)
		}
		var refs []*v2_3.PackageExternalReference
		for _, e := range p.PackageExternalReferences {
			if e.Category == "PERSISTENT-ID" && g.V < 3 {
				e.Category = "OTHER"
			}
			e.RefType = "http://spdx.org/rdf/references/" + e.RefType
			refs = append(refs, e)
		}
		p.PackageExternalReferences = refs
	}
	for _, f := range all {
		for i := range f.Annotations {
			a := f.Annotations[i]
			a.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: f.FileSPDXIdentifier}
			d.Annotations = append(d.Annotations, &a)
		}
		f.Annotations = nil
		for i := range f.FileTypes {
			f.FileTypes[i] = strings.ToLower(f.FileTypes[i])
		}
		f.FileTypes = dedupe(f.FileTypes)
		f.FileContributors = dedupe(f.FileContributors)
		f.FileAttributionTexts = dedupe(f.FileAttributionTexts)
		f.LicenseInfoInFiles = simpleOnce(f.LicenseInfoInFiles)
		var deps []string
		for range f.FileDependencies {
			if id := pick(r, fileIDs); id != string(f.FileSPDXIdentifier) {
				deps = append(deps, id)
			}
		}
		f.FileDependencies = dedupe(deps)
		for _, s := range f.Snippets {
			s.LicenseInfoInSnippet = simpleOnce(s.LicenseInfoInSnippet)
			s.SnippetAttributionTexts = dedupe(s.SnippetAttributionTexts)
		}
	}
	for _, a := range d.Annotations {
		if !known[a.AnnotationSPDXIdentifier.ElementRefID] || a.AnnotationSPDXIdentifier.DocumentRefID != "" {
			a.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: "DOCUMENT"}
		}
	}
	for _, rel := range d.Relationships {
		if rel.RefA.DocumentRefID != "" || !known[rel.RefA.ElementRefID] {
			rel.RefA = common.DocElementID{ElementRefID: "DOCUMENT"}
		}
		rel.Relationship = pick(r, rdfRelTypes)
		if g.V == 3 && r.Chance(0.1) {
			rel.Relationship = pick(r, []string{"requirementDescriptionFor", "specificationFor"})
		}
	}
	// files that several packages claim
	if len(d.Packages) > 1 && r.Chance(0.35) {
		for k := r.In(1, 3); k > 0; k-- {
			from, to := pick(r, d.Packages), pick(r, d.Packages)
			if len(from.Files) == 0 || from == to {
				continue
			}
			f := pick(r, from.Files)
			dup := false
			for _, o := range to.Files {
				dup = dup || o == f
			}
			if !dup {
				to.Files = append(to.Files, f)
			}
		}
	}
	for i := range d.ExternalDocumentReferences {
		if e := &d.ExternalDocumentReferences[i]; r.Chance(0.15) && !strings.Contains(e.URI, "#") {
			e.URI += "#"
		}
	}
	needed := map[string]bool{}
	for _, p := range d.Packages {
		for _, f := range p.Files {
			for _, dep := range f.FileDependencies {
				needed[dep] = true
			}
		}
	}
	if len(d.Relationships) > 0 && len(known) > 1 && r.Chance(0.2) { // several elements have one relationship
		ids := sortedIDs(known)
		for k := r.In(1, 3); k > 0; k-- {
			rel := *pick(r, d.Relationships)
			rel.RefA = common.DocElementID{ElementRefID: pick(r, ids)}
			d.Relationships = append(d.Relationships, &rel)
		}
	}
	for _, f := range d.Files {
		if (len(f.Snippets) > 0 || needed[string(f.FileSPDXIdentifier)]) && r.Chance(0.5) { // the snippet or file leads to it
			continue
		}
		d.Relationships = append(d.Relationships, &v2_3.Relationship{RefA: common.DocElementID{ElementRefID: "DOCUMENT"}, RefB: common.DocElementID{ElementRefID: f.FileSPDXIdentifier}, Relationship: "contains"})
	}
}

// canonRDF puts what a graph leaves open into one form: list orders, and the order of licence set members.
func canonRDF(d *v2_3.Document) *v2_3.Document {
	n := clone(d)
	canonSort(reflect.ValueOf(n).Elem(), "", true)
	return n
}

// canonPlain is canonRDF with the licence expressions as they are.
func canonPlain(d *v2_3.Document) *v2_3.Document {
	n := clone(d)
	canonSort(reflect.ValueOf(n).Elem(), "", false)
	return n
}

func canonSort(v reflect.Value, field string, licences bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			canonSort(v.Elem(), field, licences)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				canonSort(v.Field(i), v.Type().Field(i).Name, licences)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			canonSort(v.MapIndex(k), field, licences)
		}
	case reflect.String:
		switch field {
		case "PackageLicenseConcluded", "PackageLicenseDeclared", "LicenseConcluded", "SnippetLicenseConcluded", "LicenseInfoInFiles", "LicenseInfoInSnippet", "PackageLicenseInfoFromFiles":
			if v.CanSet() && licences {
				v.SetString(normLicense(v.String()))
			}
		}
	case reflect.Slice:
		keys := make([]string, v.Len())
		idx := make([]int, v.Len())
		for i := 0; i < v.Len(); i++ {
			canonSort(v.Index(i), field, licences)
			m := flatten(v.Index(i).Interface())
			var sb strings.Builder
			for _, k := range sortedKeys(m) {
				sb.WriteString(k + "=" + m[k] + "\x00")
			}
			keys[i], idx[i] = sb.String(), i
		}
		sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i, j := range idx {
			out.Index(i).Set(v.Index(j))
		}
		if v.Len() > 0 {
			v.Set(out)
		}
	}
}
