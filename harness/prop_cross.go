package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"sigs.k8s.io/yaml"
)

func init() {
	register(&Prop{ID: "X02", Rule: genRule + " with everything the source format can state (snippets, annotations of any element, reviews, packaged files); spelled by the independent writers in RDF/XML, tag-value, JSON or YAML, read, written in JSON, YAML or tag-value, read again; both documents are reduced to statements that do not depend on where the model keeps them (snippets of a file or of the document, annotations with their subject) and compared as multisets", Quick: 6000, Deep: 60000, Serial: true, Shards: 7,
		Need: []string{"from_rdf", "from_tv", "from_json", "from_yaml", "to_json", "to_yaml", "to_tv", "snippets", "annotations", "reviews", "packaged_files", "through_latest"}, MinSeen: 100, Setup: setupR01, Run: runX02})
}

// statements is a document taken apart into what does not depend on the place the model keeps it at.
type statements struct {
	rest     *v2_3.Document // everything else, in canonical order
	snippets []string       // of the document and of its files
	inFiles  []string       // those of files
	inDoc    []string       // those of the document
	notes    []string       // annotations with their subjects
	plain    []string       // annotations of the document's list, taken to be about the document
	docNotes []string       // annotations of the document's list, with their subjects
	reviews  []string
	lists    []string // annotations of packages and files
	old      []string // file dependencies and artifacts of files
}

func factsOf(d *v2_3.Document, canon func(*v2_3.Document) *v2_3.Document) statements {
	n := canon(d)
	var s statements
	fact := func(v any) string {
		m := flatten(v)
		var sb strings.Builder
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&sb, "%s=%s\x00", k, m[k])
		}
		return sb.String()
	}
	snippet := func(x v2_3.Snippet) string {
		for i := range x.Ranges {
			x.Ranges[i].StartPointer.FileSPDXIdentifier = ""
			x.Ranges[i].EndPointer.FileSPDXIdentifier = ""
		}
		return fact(x)
	}
	note := func(a v2_3.Annotation, about common.DocElementID) string {
		if a.AnnotationSPDXIdentifier == (common.DocElementID{}) {
			a.AnnotationSPDXIdentifier = about
		}
		return fact(a)
	}
	doc := common.DocElementID{ElementRefID: n.SPDXIdentifier}
	file := func(f *v2_3.File) {
		for _, x := range f.Snippets {
			s.inFiles = append(s.inFiles, snippet(*x))
		}
		f.Snippets = nil
		for _, a := range f.Annotations {
			s.lists = append(s.lists, note(a, common.DocElementID{ElementRefID: f.FileSPDXIdentifier}))
		}
		f.Annotations = nil
		for _, a := range f.ArtifactOfProjects {
			s.old = append(s.old, string(f.FileSPDXIdentifier)+"\x00artifact\x00"+fact(*a))
		}
		for _, p := range f.FileDependencies {
			s.old = append(s.old, string(f.FileSPDXIdentifier)+"\x00depends\x00"+p)
		}
		f.ArtifactOfProjects, f.FileDependencies = nil, nil
	}
	for _, p := range n.Packages {
		for _, a := range p.Annotations {
			s.lists = append(s.lists, note(a, common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}))
		}
		p.Annotations = nil
		p.IsFilesAnalyzedTagPresent, p.IsUnpackaged = false, false
		if !p.FilesAnalyzed { // not to be given then
			p.PackageVerificationCode, p.PackageLicenseInfoFromFiles = nil, nil
		}
		for _, f := range p.Files {
			file(f)
		}
	}
	for _, f := range n.Files {
		file(f)
	}
	for _, x := range n.Snippets {
		s.inDoc = append(s.inDoc, snippet(x))
	}
	n.Snippets = nil
	for _, a := range n.Annotations {
		s.docNotes = append(s.docNotes, note(*a, doc))
		b := *a
		b.AnnotationSPDXIdentifier = doc
		s.plain = append(s.plain, fact(b))
	}
	s.notes = append(append([]string{}, s.lists...), s.docNotes...)
	n.Annotations = nil
	for _, x := range n.Reviews {
		s.reviews = append(s.reviews, fact(*x))
	}
	n.Reviews = nil
	s.snippets = append(append([]string{}, s.inFiles...), s.inDoc...)
	s.rest = canon(n)
	for _, l := range [][]string{s.snippets, s.inFiles, s.inDoc, s.notes, s.plain, s.docNotes, s.reviews, s.old, s.lists} {
		sort.Strings(l)
	}
	return s
}

func sorted(l []string) []string {
	sort.Strings(l)
	return l
}

// scatter gives a document what only its JSON form can hold in this place: snippets in the document's list, annotations
// in packages and files.
func (g *Gen) scatter(d *v2_3.Document) {
	files := append([]*v2_3.File{}, d.Files...)
	notes := func() (out []v2_3.Annotation) {
		for n := g.R.N(3); n > 0; n-- {
			out = append(out, g.annotation(false))
		}
		return
	}
	for _, p := range d.Packages {
		files = append(files, p.Files...)
		if g.R.Chance(0.4) {
			p.Annotations = notes()
		}
	}
	for _, f := range files {
		if g.R.Chance(0.3) {
			f.Annotations = notes()
		}
		for n := g.R.N(3); n > 0 && g.R.Chance(0.5); n-- {
			d.Snippets = append(d.Snippets, g.snippet(f.FileSPDXIdentifier))
		}
	}
}

func sameList(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a) || i < len(b) && a[i] > b[i]:
			return "missing: " + clip(strings.ReplaceAll(b[i], "\x00", " "), 300)
		case i >= len(b) || a[i] < b[i]:
			return "extra: " + clip(strings.ReplaceAll(a[i], "\x00", " "), 300)
		}
	}
	return ""
}

func runX02(c *Case) {
	r := c.R
	var d *v2_3.Document
	var text string
	var from format
	canon := canonPlain
	v := 0
	to := writable[(c.Idx/12)%3]
	latest := r.Chance(0.3)
	// an empty creation section becomes none in the step to the latest version, and then the writer has nothing to go by
	created := func(d *v2_3.Document) {
		if latest && d.CreationInfo != nil && d.CreationInfo.Created == "" {
			d.CreationInfo.Created = "2024-05-06T07:08:09Z"
		}
	}
	switch c.Idx % 4 {
	case 0:
		v = 2 + c.Idx/4%2
		g := newGen(c, v, "rdf")
		g.Trim = to.F == "tv"
		d = g.doc()
		created(d)
		if to.F == "tv" { // which separates the names by commas and ends them with a parenthesis
			for _, p := range d.Packages {
				if p.PackageVerificationCode != nil {
					for i, n := range p.PackageVerificationCode.ExcludedFiles {
						p.PackageVerificationCode.ExcludedFiles[i] = strings.NewReplacer(",", "", "(", "", ")", "").Replace(n)
					}
				}
			}
		}
		st := randStyle(r)
		st.Labels = true
		text = buildRDF(r, d).write(st)
		from = rdfF
		canon = canonRDF
	case 1:
		v = 1 + c.Idx/4%3
		d = newGen(c, v, "tv").doc()
		created(d)
		st := newTVStyle(r)
		text = st.spell(st.order(tvSections(d, v)))
		from = tvF
	default:
		v = 1 + c.Idx/4%3
		g := newGen(c, v, "common")
		d = g.doc()
		created(d)
		g.scatter(d)
		from = jsonF
		text = newJSONStyle(r).text(jsonTree(d, v))
		if c.Idx%4 == 3 {
			b, err := yaml.Marshal(jsonTree(d, v))
			if err != nil {
				panic(err)
			}
			text = string(b)
			from = yamlF
		}
	}
	c.Input([]byte(text))
	at := v
	if latest {
		at = 3
	}
	src := newDoc(at)
	c.Stage("read " + from.Name)
	if err := from.Into(strings.NewReader(text), src); err != nil {
		c.Violationf("%s read of a valid %s document failed: %v", from.Name, verString(v), err)
		return
	}
	have := factsOf(up(src), canon)
	var buf bytes.Buffer
	c.Stage("write " + to.Name)
	if err := to.Write(anyArg(r, src), &buf); err != nil {
		c.Violationf("%s write of a document read from %s failed: %v", to.Name, from.Name, err)
		return
	}
	dst := newDoc(at)
	c.Stage("read back " + to.Name)
	if err := to.Into(bytes.NewReader(buf.Bytes()), dst); err != nil {
		c.Violationf("%s rejects what %s write made of a document read from %s: %v", to.Name, to.Name, from.Name, err)
		return
	}
	got := factsOf(up(dst), canon)
	way := fmt.Sprintf("%s document from %s to %s", verString(at), from.F, to.F)
	if df := diff(got.rest, have.rest); df != "" {
		c.Violationf("%s: %s", way, df)
		return
	}
	// each kind of statement is there, or missing exactly as the known finding says
	judge := func(what, key string, got, want, lossy []string) bool {
		df := sameList(got, want)
		if df == "" {
			return true
		}
		if _, listed := c.ctx.known["X02 "+key]; listed && sameList(got, lossy) == "" {
			c.ViolationK(key, "%s: %s lost: %s", way, what, df)
			c.viol = false
			return true
		}
		c.Violationf("%s: %s: %s", way, what, df)
		return false
	}
	tree := to.F != "tv"
	ok := true
	if tree {
		ok = judge("snippets of files", "json-file-snippets", got.snippets, have.snippets, have.inDoc) &&
			judge("the subjects of annotations", "json-annotation-subjects", got.notes, have.notes, sorted(append(append([]string{}, have.lists...), have.plain...))) &&
			judge("reviews", "json-reviews", got.reviews, have.reviews, nil)
		if at < 3 {
			ok = ok && judge("file dependencies and artifacts", "json-old-file-fields", got.old, have.old, nil)
		} else {
			ok = ok && judge("file dependencies and artifacts", "", got.old, have.old, have.old)
		}
	} else {
		ok = judge("snippets of the document", "tv-document-snippets", got.snippets, have.snippets, have.inFiles) &&
			judge("annotations of packages and files", "tv-element-annotations", got.notes, have.notes, have.docNotes) &&
			judge("reviews", "", got.reviews, have.reviews, have.reviews) &&
			judge("file dependencies and artifacts", "", got.old, have.old, have.old)
	}
	if !ok {
		return
	}
	c.Count("from_" + from.F)
	c.Count("to_" + to.F)
	if at != v {
		c.Count("through_latest")
	}
	c.CountN("snippets", len(have.snippets))
	c.CountN("annotations", len(have.notes))
	c.CountN("reviews", len(have.reviews))
	for _, p := range d.Packages {
		c.CountN("packaged_files", len(p.Files))
	}
	c.Distinct("ways", way)
	noteDoc(c, d, v, way)
	c.Sample(map[string]any{"way": way, "fields": len(flatten(d)), "snippets": len(have.snippets), "annotations": len(have.notes)})
}
