package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	sjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	syaml "github.com/spdx/tools-golang/yaml"
	"sigs.k8s.io/yaml"
)

func caseVersion(c *Case) int { return 1 + c.Idx%3 }

func newGen(c *Case, v int, f string) *Gen {
	g := &Gen{R: c.R, V: v, F: f}
	g.Plain = c.R.Chance(0.1)
	g.Big = c.R.Chance(0.02)
	return g
}

func noteDoc(c *Case, d *v2_3.Document, extra ...any) {
	c.Seen(shape(d), extra)
	c.CountN("packages", len(d.Packages))
	nf := len(d.Files)
	for _, p := range d.Packages {
		nf += len(p.Files)
	}
	c.CountN("files", nf)
	c.CountN("relationships", len(d.Relationships))
	c.CountN("fields_compared", len(flatten(d)))
}

func sampleDoc(c *Case, v int, what string, b []byte) {
	c.Sample(map[string]any{"case": c.Idx, "version": verString(v), "what": what, "text": clip(string(b), 700)})
}

const genRule = "PRNG-determined documents (one stream per seed, property and case index) of SPDX 2.1/2.2/2.3 in turn; " +
	"values drawn from a hostile pool (quotes, backslashes, colons, markup, YAML indicators, unicode, escapes, multi-line, blanks at the ends); " +
	"distinct by the set of populated field paths with multiplicities, non-trivial because every case compares at least a document header and one creator"

func init() {
	register(&Prop{ID: "J01", Rule: genRule + "; each is written with json.Write under random options, read back and compared field by field", Quick: 8000, Deep: 60000,
		Need: []string{"roundtrips", "packages", "files", "relationships"}, MinSeen: 100,
		Run: func(c *Case) {
			v := caseVersion(c)
			g := newGen(c, v, "json")
			d := g.doc()
			if c.R.Chance(0.03) {
				d.CreationInfo = nil
			}
			jsonRoundTrip(c, d, v)
		}})
	register(&Prop{ID: "J02", Rule: genRule + "; the JSON text is decoded by encoding/json into a generic tree and compared with a tree rendered from the document by the harness' own schema table", Quick: 7000, Deep: 60000,
		Need: []string{"trees_compared", "indent_variants", "escape_variants"}, MinSeen: 100, Run: runJ02})
	register(&Prop{ID: "J03", Rule: genRule + "; the harness spells each document as JSON text (member order, white space, \\u escapes, unknown members, omitted defaults all random) and compares what json.Read returns", Quick: 7000, Deep: 60000,
		Need: []string{"texts_read", "escaped_texts", "shuffled_texts", "filesAnalyzed_omitted"}, MinSeen: 100, Run: runJ03})
	register(&Prop{ID: "J04", Rule: "documents of SPDX 2.2/2.3 with documentDescribes and hasFiles shorthand lists over random identifiers (repeated, already stated directly, already stated inversely, external, special, null entries in relationships); the relationships read are compared with a model that is a list of triples", Quick: 30000, Deep: 100000,
		Need: []string{"synthesised", "deduplicated_direct", "deduplicated_inverse", "deduplicated_repeat"}, MinSeen: 100, Run: runJ04})
	register(&Prop{ID: "Y01", Rule: genRule + "; written with yaml.Write, parsed by sigs.k8s.io/yaml into a tree and compared with the reference tree, and read back; YAML and JSON spellings of one tree must read as the same document", Quick: 4000, Deep: 50000,
		Need: []string{"any_character_roundtrips", "roundtrips", "trees_compared", "yaml_equals_json"}, MinSeen: 100, Run: runY01})
}

type wopt struct {
	indent string
	esc    int // 0 default, 1 EscapeHTML(true), 2 EscapeHTML(false)
}

func (o wopt) opts() []sjson.WriteOption {
	var l []sjson.WriteOption
	if o.indent != "" {
		l = append(l, sjson.Indent(o.indent))
	}
	if o.esc != 0 {
		l = append(l, sjson.EscapeHTML(o.esc == 1))
	}
	return l
}

func randOpt(r *R) wopt {
	return wopt{pick(r, []string{"", "", " ", "\t", "    "}), r.N(3)}
}

func jsonRoundTrip(c *Case, d *v2_3.Document, v int) {
	doc := down(d, v)
	var in any = doc
	if c.R.Chance(0.3) {
		in = deref(doc)
	}
	var buf bytes.Buffer
	c.Stage("json.Write")
	if err := sjson.Write(in, &buf, randOpt(c.R).opts()...); err != nil {
		c.Violationf("json.Write failed on a representable %s document: %v", verString(v), err)
		return
	}
	c.Input(buf.Bytes())
	target := newDoc(v)
	c.Stage("json.ReadInto")
	if err := sjson.ReadInto(bytes.NewReader(buf.Bytes()), target); err != nil {
		c.Violationf("json.ReadInto rejects what json.Write wrote (%s): %v", verString(v), err)
		return
	}
	want := down(afterJSON(d, v), v)
	if df := diff(target, want); df != "" {
		c.Violationf("JSON round trip of a %s document changed it: %s", verString(v), df)
		return
	}
	// a second generation must be byte-stable
	var buf2 bytes.Buffer
	if err := sjson.Write(target, &buf2); err != nil {
		c.Violationf("json.Write failed on a document that json.ReadInto returned: %v", err)
		return
	}
	t2 := newDoc(v)
	if err := sjson.ReadInto(bytes.NewReader(buf2.Bytes()), t2); err != nil {
		c.Violationf("json.ReadInto rejects a second-generation document: %v", err)
		return
	}
	if df := diff(t2, target); df != "" {
		c.Violationf("second JSON round trip changed the document: %s", df)
	}
	c.Count("roundtrips")
	noteDoc(c, d, v)
	sampleDoc(c, v, "json.Write output", buf.Bytes())
}

func runJ02(c *Case) {
	v := caseVersion(c)
	g := newGen(c, v, "json")
	if c.R.Chance(0.3) {
		g.F = "mem"
	}
	d := g.doc()
	doc := down(d, v)
	want := prune(any(jsonTree(d, v)), v)
	outs := map[string][]byte{}
	base := wopt{}
	for i, o := range []wopt{base, {"", 1}, {"", 2}, {"  ", 2}, {"\t", 1}, {"    ", 0}} {
		if i > 2 && !c.R.Chance(0.5) {
			continue
		}
		var in any = doc
		if c.R.Chance(0.5) {
			in = deref(doc)
		}
		var buf bytes.Buffer
		c.Stage("json.Write")
		if err := sjson.Write(in, &buf, o.opts()...); err != nil {
			c.Violationf("json.Write(%+v) failed on a representable %s document: %v", o, verString(v), err)
			return
		}
		c.Input(buf.Bytes())
		got, err := decodeTree(buf.Bytes())
		if err != nil {
			c.Violationf("json.Write(%+v) wrote something that is not one JSON value: %v", o, err)
			return
		}
		if df := treeDiff(prune(got, v), want, "$"); df != "" {
			c.Violationf("json.Write(%+v) of a %s document: %s", o, verString(v), df)
			return
		}
		if p := invented(got, v, "", "$"); p != "" {
			c.Violationf("json.Write(%+v) of a %s document writes an empty member nothing asks for: %s", o, verString(v), p)
			return
		}
		c.Count("trees_compared")
		s := buf.String()
		if o.indent != "" {
			c.Count("indent_variants")
			if d.DocumentName != "" && !strings.Contains(s, "\n"+o.indent+"\"") {
				c.Violationf("json.Write with Indent(%q) did not indent: %s", o.indent, clip(s, 200))
				return
			}
		} else if strings.Contains(strings.TrimSuffix(s, "\n"), "\n") {
			c.Violationf("json.Write without Indent wrote several lines: %s", clip(s, 200))
			return
		}
		if o.esc == 1 {
			c.Count("escape_variants")
			if strings.ContainsAny(s, "<>&") {
				c.Violationf("json.Write with EscapeHTML(true) left one of <>& unescaped")
				return
			}
		} else if o.esc == 2 && (strings.Contains(s, "\\u003c") || strings.Contains(s, "\\u003e") || strings.Contains(s, "\\u0026")) {
			c.Violationf("json.Write with EscapeHTML(false) escaped <, > or &")
			return
		}
		outs[fmt.Sprint(o)] = buf.Bytes()
	}
	var again bytes.Buffer
	if err := sjson.Write(doc, &again); err != nil || !bytes.Equal(again.Bytes(), outs[fmt.Sprint(base)]) {
		c.Violationf("json.Write of the same document twice gave different bytes (err %v)", err)
	}
	noteDoc(c, d, v)
	sampleDoc(c, v, "json.Write output", outs[fmt.Sprint(base)])
}

func runJ03(c *Case) {
	v := caseVersion(c)
	g := newGen(c, v, "json")
	d := g.doc()
	want := afterJSON(d, v)
	tree := jsonTree(d, v)
	r := c.R
	// omit filesAnalyzed where its default says the same
	if ps, ok := tree["packages"].([]any); ok && v >= 2 {
		for i, p := range ps {
			if d.Packages[i].FilesAnalyzed && r.Chance(0.4) {
				delete(p.(obj), "filesAnalyzed")
				want.Packages[i].IsFilesAnalyzedTagPresent = false
				c.Count("filesAnalyzed_omitted")
			}
		}
	}
	// both spellings of a category are legal on input from 2.2 on
	if v >= 2 {
		if ps, ok := tree["packages"].([]any); ok {
			for _, p := range ps {
				if rs, ok := p.(obj)["externalRefs"].([]any); ok {
					for _, x := range rs {
						ro := x.(obj)
						if cat, ok := ro["referenceCategory"].(string); ok {
							if r.Chance(0.5) {
								ro["referenceCategory"] = strings.ReplaceAll(cat, "-", "_")
							} else {
								ro["referenceCategory"] = strings.ReplaceAll(cat, "_", "-")
							}
						}
					}
				}
			}
		}
	}
	// explicit nulls and empties for absent optional members
	if r.Chance(0.3) {
		for _, k := range []string{"comment", "packages", "files", "snippets", "annotations", "relationships", "hasExtractedLicensingInfos", "externalDocumentRefs"} {
			if _, ok := tree[k]; !ok && r.Chance(0.5) {
				if k == "comment" {
					tree[k] = pick(r, []any{nil, ""})
				} else {
					tree[k] = pick(r, []any{nil, []any{}})
				}
			}
		}
	}
	st := newJSONStyle(r)
	txt := st.text(tree)
	c.Input([]byte(txt))
	var sanity any
	if err := json.Unmarshal([]byte(txt), &sanity); err != nil {
		c.ctx.harnessError("the harness spelled invalid JSON: %v", err)
		return
	}
	target := newDoc(v)
	c.Stage("json.ReadInto")
	if err := sjson.ReadInto(strings.NewReader(txt), target); err != nil {
		c.Violationf("json.ReadInto rejects a valid %s document: %v", verString(v), err)
		return
	}
	if df := diff(target, down(want, v)); df != "" {
		c.Violationf("json.ReadInto of a %s document: %s", verString(v), df)
		return
	}
	// Read returns the current model
	cur, err := sjson.Read(strings.NewReader(txt))
	if err != nil {
		c.Violationf("json.Read rejects a valid %s document: %v", verString(v), err)
		return
	}
	w := up(down(want, v))
	w.SPDXVersion = v2_3.Version
	if df := diff(cur, w); df != "" {
		c.Violationf("json.Read of a %s document: %s", verString(v), df)
		return
	}
	c.Count("texts_read")
	if st.esc > 0 {
		c.Count("escaped_texts")
	}
	if st.shuffle {
		c.Count("shuffled_texts")
	}
	noteDoc(c, d, v, st.shuffle, st.ws, st.esc)
	sampleDoc(c, v, "JSON text spelled by the harness", []byte(txt))
}

// ---- J04: shorthand relationships

func canonRel(a, rel, b string) string {
	switch rel {
	case "CONTAINED_BY":
		return b + "|CONTAINS|" + a
	case "DESCRIBED_BY":
		return b + "|DESCRIBES|" + a
	}
	return a + "|" + rel + "|" + b
}

func runJ04(c *Case) {
	r := c.R
	v := 2 + c.Idx%2
	g := &Gen{R: r, V: v, F: "yaml", Plain: true}
	if r.Chance(0.25) {
		g.Plain = false
	}
	d := &v2_3.Document{SPDXVersion: verString(v), DataLicense: "CC0-1.0", SPDXIdentifier: "DOCUMENT", DocumentName: "n", DocumentNamespace: "http://x",
		CreationInfo: &v2_3.CreationInfo{Created: g.date(), Creators: []common.Creator{{CreatorType: "Tool", Creator: "t"}}}}
	if r.Chance(0.1) {
		d.SPDXIdentifier = "other-doc"
	}
	np := r.N(5)
	for i := 0; i < np; i++ {
		d.Packages = append(d.Packages, &v2_3.Package{PackageName: fmt.Sprint("p", i), PackageSPDXIdentifier: g.elem(), FilesAnalyzed: true})
	}
	nf := r.N(4)
	for i := 0; i < nf; i++ {
		d.Files = append(d.Files, &v2_3.File{FileName: fmt.Sprint("f", i), FileSPDXIdentifier: g.elem()})
	}
	g.exts = []common.DocumentID{"ext1"}
	if len(g.elems) == 0 {
		g.elem()
	}
	anyRef := func() common.DocElementID {
		if r.Chance(0.05) {
			return common.DocElementID{SpecialID: pick(r, []string{"NONE", "NOASSERTION"})}
		}
		return g.docElem(true)
	}
	n := r.N(7)
	for i := 0; i < n; i++ {
		rel := &v2_3.Relationship{RefA: g.docElem(true), RefB: anyRef(), Relationship: pick(r, []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON", "GENERATED_FROM"}), RelationshipComment: g.opt(g.text)}
		if r.Chance(0.2) {
			rel.RefA = common.DocElementID{ElementRefID: d.SPDXIdentifier}
		} else if r.Chance(0.2) {
			rel.RefB = common.DocElementID{ElementRefID: d.SPDXIdentifier}
		} else if len(d.Relationships) > 0 && r.Chance(0.3) { // the ends of an earlier one, perhaps exchanged
			o := pick(r, d.Relationships)
			rel.RefA, rel.RefB = o.RefA, o.RefB
			if r.Chance(0.5) && o.RefB.SpecialID == "" {
				rel.RefA, rel.RefB = o.RefB, o.RefA
			}
		} else if r.Chance(0.5) {
			if rel.Relationship == "DESCRIBES" {
				rel.RefA = common.DocElementID{ElementRefID: d.SPDXIdentifier}
			}
			if rel.Relationship == "DESCRIBED_BY" {
				rel.RefB = common.DocElementID{ElementRefID: d.SPDXIdentifier}
			}
		}
		d.Relationships = append(d.Relationships, rel)
	}
	tree := jsonTree(d, v)
	for i, p := range d.Packages {
		po := tree["packages"].([]any)[i].(obj)
		if r.Chance(0.7) {
			delete(po, "filesAnalyzed")
		} else {
			p.IsFilesAnalyzedTagPresent = true
		}
	}
	type triple struct{ a, rel, b string }
	var want []triple
	var wantCmt []string
	have := map[string]bool{}
	direct := map[string]bool{}
	for _, x := range d.Relationships {
		a, b := refDocElem(x.RefA), refDocElem(x.RefB)
		want = append(want, triple{a, x.Relationship, b})
		wantCmt = append(wantCmt, x.RelationshipComment)
		have[canonRel(a, x.Relationship, b)] = true
		direct[a+"|"+x.Relationship+"|"+b] = true
	}
	shortRef := func() common.DocElementID {
		if len(d.Relationships) > 0 && r.Chance(0.4) {
			o := pick(r, d.Relationships)
			return pick(r, []common.DocElementID{o.RefA, o.RefB})
		}
		return anyRef()
	}
	stated := map[string]bool{}
	add := func(a, rel, b string) {
		k := canonRel(a, rel, b)
		if have[k] {
			switch {
			case stated[k]:
				c.Count("deduplicated_repeat")
			case direct[a+"|"+rel+"|"+b]:
				c.Count("deduplicated_direct")
			default:
				c.Count("deduplicated_inverse")
			}
			return
		}
		have[k] = true
		stated[k] = true
		want = append(want, triple{a, rel, b})
		wantCmt = append(wantCmt, "")
		c.Count("synthesised")
	}
	if r.Chance(0.8) {
		var l []string
		for i, n := 0, r.N(5); i < n; i++ {
			s := refDocElem(shortRef())
			l = append(l, s)
			if r.Chance(0.2) {
				l = append(l, s)
			}
		}
		put(tree, "documentDescribes", l)
		for _, s := range l {
			add(refElem(d.SPDXIdentifier), "DESCRIBES", s)
		}
	}
	for i, p := range d.Packages {
		if !r.Chance(0.6) {
			continue
		}
		var l []string
		for j, n := 0, r.N(4); j < n; j++ {
			s := refDocElem(shortRef())
			l = append(l, s)
			if r.Chance(0.2) {
				l = append(l, s)
			}
		}
		put(tree["packages"].([]any)[i].(obj), "hasFiles", l)
		for _, s := range l {
			add(refElem(p.PackageSPDXIdentifier), "CONTAINS", s)
		}
	}
	// null entries in the relationship list are ignored
	if rl, ok := tree["relationships"].([]any); ok && r.Chance(0.3) {
		var nl []any
		for _, x := range rl {
			for r.Chance(0.4) {
				nl = append(nl, nil)
			}
			nl = append(nl, x)
		}
		for r.Chance(0.4) {
			nl = append(nl, nil)
		}
		tree["relationships"] = nl
	}
	st := newJSONStyle(r)
	txt := st.text(tree)
	c.Input([]byte(txt))
	target := newDoc(v)
	useYAML := r.Chance(0.2)
	var err error
	if useYAML {
		var y []byte
		y, err = yaml.Marshal(tree)
		if err != nil {
			c.ctx.harnessError("yaml.Marshal: %v", err)
			return
		}
		err = syaml.ReadInto(bytes.NewReader(y), target)
	} else {
		err = sjson.ReadInto(strings.NewReader(txt), target)
	}
	if err != nil {
		c.Violationf("reading a valid %s document with shorthand relationships failed: %v", verString(v), err)
		return
	}
	got := up(target)
	var gl, wl []string
	for _, x := range got.Relationships {
		if x == nil {
			gl = append(gl, "<nil>")
			continue
		}
		gl = append(gl, fmt.Sprintf("%s %s %s %q", refDocElem(x.RefA), x.Relationship, refDocElem(x.RefB), x.RelationshipComment))
	}
	for i, t := range want {
		wl = append(wl, fmt.Sprintf("%s %s %s %q", t.a, t.rel, t.b, wantCmt[i]))
	}
	nExpl := len(d.Relationships)
	// the stated relationships keep their order and come first; the synthesised ones are compared as a set
	bad := len(gl) != len(wl)
	if !bad {
		for i := range wl {
			if i < nExpl && gl[i] != wl[i] {
				bad = true
			}
		}
		a, b := sortStrings(gl[nExpl:]), sortStrings(wl[nExpl:])
		for i := range a {
			if a[i] != b[i] {
				bad = true
			}
		}
	}
	if bad {
		c.Violationf("relationships after reading (%s):\n got %q\nwant %q", verString(v), gl, wl)
		return
	}
	got.Relationships = nil
	exp := clone(d)
	exp.Relationships = nil
	if df := diff(got, exp); df != "" {
		c.Violationf("shorthand relationships changed other parts: %s", df)
		return
	}
	// what was synthesised must survive writing, and must not be duplicated by reading again
	var buf bytes.Buffer
	if err := sjson.Write(target, &buf); err != nil {
		c.Violationf("json.Write after shorthand reading: %v", err)
		return
	}
	t2 := newDoc(v)
	if err := sjson.ReadInto(&buf, t2); err != nil {
		c.Violationf("re-reading: %v", err)
		return
	}
	g2 := up(t2)
	a, b := up(target), g2
	if df := diff(b.Relationships, a.Relationships); df != "" {
		c.Violationf("relationships not stable over a write and read: %s", df)
	}
	c.Seen(v, len(gl), len(wl)-nExpl, np, nf, st.shuffle, strings.Join(wl, "|"))
	c.Sample(map[string]any{"json": clip(txt, 500), "relationships": wl})
}

func runY01(c *Case) {
	v := caseVersion(c)
	// any character and line end for the writer; spellings by the harness keep to what YAML takes as it is
	set := pick(c.R, []string{"yaml", "json"})
	g := newGen(c, v, set)
	d := g.doc()
	doc := down(d, v)
	var in any = doc
	if c.R.Chance(0.3) {
		in = deref(doc)
	}
	var buf bytes.Buffer
	c.Stage("yaml.Write")
	if err := syaml.Write(in, &buf); err != nil {
		c.Violationf("yaml.Write failed on a representable %s document: %v", verString(v), err)
		return
	}
	c.Input(buf.Bytes())
	var tree any
	if err := yaml.Unmarshal(buf.Bytes(), &tree); err != nil {
		c.Violationf("yaml.Write wrote something that is not YAML: %v", err)
		return
	}
	if df := treeDiff(prune(tree, v), prune(any(jsonTree(d, v)), v), "$"); df != "" {
		c.Violationf("yaml.Write of a %s document: %s", verString(v), df)
		return
	}
	if p := invented(tree, v, "", "$"); p != "" {
		c.Violationf("yaml.Write of a %s document writes an empty member nothing asks for: %s", verString(v), p)
		return
	}
	c.Count("trees_compared")
	want := afterJSON(d, v)
	target := newDoc(v)
	c.Stage("yaml.ReadInto")
	if err := syaml.ReadInto(bytes.NewReader(buf.Bytes()), target); err != nil {
		c.Violationf("yaml.ReadInto rejects what yaml.Write wrote (%s): %v", verString(v), err)
		return
	}
	if df := diff(target, down(want, v)); df != "" {
		c.Violationf("YAML round trip of a %s document changed it: %s", verString(v), df)
		return
	}
	c.Count("roundtrips")
	if set == "json" {
		c.Count("any_character_roundtrips")
		noteDoc(c, d, v)
		return
	}
	// a JSON spelling of the document, converted to YAML, reads as JSON does
	txt := newJSONStyle(c.R).text(jsonTree(d, v))
	var y []byte
	if c.R.Chance(0.5) {
		var err error
		y, err = yaml.Marshal(jsonTree(d, v))
		if err != nil {
			c.ctx.harnessError("yaml.Marshal: %v", err)
			return
		}
	} else {
		// flow style, straight from the tree: every string double-quoted
		y = []byte((&jsonStyle{r: c.R, shuffle: true}).text(jsonTree(d, v)))
	}
	a, errA := sjson.Read(strings.NewReader(txt))
	b, errB := syaml.Read(bytes.NewReader(y))
	if (errA == nil) != (errB == nil) {
		c.Input(y)
		c.Violationf("json.Read says %v, yaml.Read of the same tree says %v", errA, errB)
		return
	}
	if errA == nil {
		if df := diff(b, a); df != "" {
			c.Input(y)
			c.Violationf("yaml.Read differs from json.Read of the same tree: %s", df)
			return
		}
		c.Count("yaml_equals_json")
	}
	noteDoc(c, d, v)
	sampleDoc(c, v, "yaml.Write output", buf.Bytes())
}
