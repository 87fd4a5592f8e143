package main

import (
	"fmt"
	"runtime"
	"slices"
	"strings"

	srdf "github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

func init() {
	register(&Prop{ID: "R01", Rule: genRule + " limited to what the RDF vocabulary states; written as RDF/XML by an independent graph serialiser in random style (property and node order, nesting, references, nodes described in two places, prefixes, blank-node labels, quotes, white space), read with ReadInto and Read and compared with the described document up to list order; plus one probe per known finding", Quick: 3600, Deep: 30000, Serial: true, Shards: 7,
		Assume: []string{"gordf, the RDF/XML library the reader is built on, parses blocks in concurrent goroutines and counts unlabelled blank nodes without synchronisation: this check runs it on one processor, R02 on all with labelled blank nodes"},
		Need:   []string{"documents", "unlabelled", "split_nodes", "nested", "snippets", "shared_files", "probes"}, MinSeen: 100, Setup: setupR01, Run: runR01})
	register(&Prop{ID: "R02", Rule: genRule + " limited to what the RDF vocabulary states; each graph is serialised 3 times in different styles and every text is read twice; all results compared up to list order; on all processors, so that gordf's goroutines interleave and Go's map orders vary between reads", Quick: 800, Deep: 16000, Shards: 4,
		Need: []string{"serialisations", "rereads", "distinct_texts"}, MinSeen: 100, Run: runR02})
}

func someFile(r *R, d *v2_3.Document) *v2_3.File {
	all := append([]*v2_3.File{}, d.Files...)
	for _, p := range d.Packages {
		all = append(all, p.Files...)
	}
	if len(all) == 0 {
		return nil
	}
	return pick(r, all)
}

func setupR01(x *Ctx) { runtime.GOMAXPROCS(1) }

func rdfDoc(c *Case) (*v2_3.Document, int) {
	v := 2 + c.Idx%2
	g := newGen(c, v, "rdf")
	return g.doc(), v
}

func noteStyle(c *Case, st *rstyle, d *v2_3.Document) {
	if !st.Labels {
		c.Count("unlabelled")
	}
	if st.Split {
		c.Count("split_nodes")
	}
	if st.Nest > 0 {
		c.Count("nested")
	}
	claimed := map[*v2_3.File]bool{}
	for _, p := range d.Packages {
		for _, f := range p.Files {
			if claimed[f] {
				c.Count("shared_files")
			}
			claimed[f] = true
			c.CountN("snippets", len(f.Snippets))
		}
	}
	for _, f := range d.Files {
		c.CountN("snippets", len(f.Snippets))
	}
}

func runR01(c *Case) {
	r := c.R
	if c.Idx < len(rdfProbes) {
		probeRDF(c, rdfProbes[c.Idx])
	}
	d, v := rdfDoc(c)
	// the whole licence list, some of it in each case
	for k := 0; k < 10; k++ {
		id := listedLicenses[(c.Idx/2*10+k)%len(listedLicenses)]
		if f := someFile(r, d); f != nil && !slices.Contains(f.LicenseInfoInFiles, id) {
			f.LicenseInfoInFiles = append(f.LicenseInfoInFiles, id)
			c.Distinct("listed_licenses", v, id)
		}
	}
	st := randStyle(r)
	text := buildRDF(r, d).write(st)
	c.Input([]byte(text))
	noteStyle(c, st, d)
	want := canonRDF(d)
	try := func() string {
		c.Stage("rdf.ReadInto")
		got := newDoc(v)
		if err := srdf.ReadInto(strings.NewReader(text), got); err != nil {
			return fmt.Sprintf("rdf.ReadInto of a valid %s document failed: %v", verString(v), err)
		}
		if df := diff(canonRDF(up(got)), want); df != "" {
			return fmt.Sprintf("rdf.ReadInto of a %s document: %s", verString(v), df)
		}
		cur, err := srdf.Read(strings.NewReader(text))
		if err != nil {
			return fmt.Sprintf("rdf.Read of a valid %s document failed: %v", verString(v), err)
		}
		if df := diff(canonRDF(cur), canonRDF(up(down(refConvert(d, v, 3), 3)))); df != "" {
			return fmt.Sprintf("rdf.Read of a %s document: %s", verString(v), df)
		}
		return ""
	}
	msg := try()
	for i := 0; i < 3 && msg != "" && !st.Labels; i++ {
		msg = try() // two unlabelled blank nodes may have got one number from gordf
		c.Count("unlabelled_retries")
	}
	if msg != "" {
		c.Violationf("%s", msg)
		return
	}
	c.Count("documents")
	noteDoc(c, d, v)
	c.Sample(map[string]any{"version": verString(v), "bytes": len(text), "fields": len(flatten(d)), "nest": st.Nest, "split": st.Split, "shuffled": st.Shuffle})
}

func runR02(c *Case) {
	r := c.R
	d, v := rdfDoc(c)
	var first *v2_3.Document
	texts := map[string]bool{}
	seed := r.Uint64()
	for i := 0; i < 3; i++ {
		st := randStyle(r)
		st.Labels = true
		if i > 0 {
			st.Shuffle = true
		}
		g := buildRDF(newR("graph", seed), d) // the same graph each time
		text := g.write(st)
		texts[text] = true
		c.Input([]byte(text))
		for k := 0; k < 2; k++ {
			got := newDoc(v)
			c.Stage("rdf.ReadInto")
			if err := srdf.ReadInto(strings.NewReader(text), got); err != nil {
				c.Violationf("rdf.ReadInto of serialisation %d, read %d, failed: %v", i, k, err)
				return
			}
			can := canonRDF(up(got))
			if first == nil {
				first = can
			} else if df := diff(can, first); df != "" {
				c.Violationf("rdf.ReadInto of serialisation %d of one graph, read %d, differs from the first read: %s", i, k, df)
				return
			}
			if k > 0 {
				c.Count("rereads")
			}
		}
		c.Count("serialisations")
		noteStyle(c, st, d)
	}
	c.CountN("distinct_texts", len(texts))
	noteDoc(c, d, v)
	c.Sample(map[string]any{"version": verString(v), "texts": len(texts), "fields": len(flatten(d))})
}

// rdfProbe is one small document with a known defect in how it is read: the probe reports it by its key, which
// known_findings.txt lists; when the defect is repaired the probe is silent.
type rdfProbe struct {
	key, doc, pkg string
	check         func(d *v2_3.Document) string
}

const rdfProbeText = `<rdf:RDF xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#">
<spdx:SpdxDocument rdf:about="http://probe.example/doc#SPDXRef-DOCUMENT">
<spdx:specVersion>SPDX-2.3</spdx:specVersion>
<spdx:dataLicense rdf:resource="http://spdx.org/licenses/CC0-1.0"/>
%s<spdx:describesPackage><spdx:Package rdf:about="http://probe.example/doc#SPDXRef-p">
<spdx:name>p</spdx:name>
<spdx:downloadLocation rdf:resource="http://spdx.org/rdf/terms#noassertion"/>
%s</spdx:Package></spdx:describesPackage>
</spdx:SpdxDocument>
</rdf:RDF>
`

func eq(what, got, want string) string {
	if got != want {
		return fmt.Sprintf("%s: got %q, want %q", what, got, want)
	}
	return ""
}

const rdfChecksum = `<spdx:checksum><spdx:Checksum%s><spdx:algorithm rdf:resource="http://spdx.org/rdf/terms#checksumAlgorithm_%s"/><spdx:checksumValue>%s</spdx:checksumValue></spdx:Checksum></spdx:checksum>
`

var rdfProbes = []rdfProbe{
	{"", "<spdx:name>plain</spdx:name>\n", "", func(d *v2_3.Document) string { return eq("document name", d.DocumentName, "plain") }},
	{"orlater", "", "<spdx:licenseDeclared><spdx:OrLaterOperator><spdx:member><spdx:SimpleLicensingInfo><spdx:licenseId>GPL-2.0</spdx:licenseId></spdx:SimpleLicensingInfo></spdx:member></spdx:OrLaterOperator></spdx:licenseDeclared>\n",
		func(d *v2_3.Document) string {
			return eq("declared licence", d.Packages[0].PackageLicenseDeclared, "GPL-2.0+")
		}},
	{"leading-blank", "<spdx:name>  two</spdx:name>\n", "", func(d *v2_3.Document) string { return eq("document name", d.DocumentName, "  two") }},
	{"nodeid-number", "", fmt.Sprintf(rdfChecksum, "", "sha1", "a") + fmt.Sprintf(rdfChecksum, ` rdf:nodeID="1"`, "md5", "b") + fmt.Sprintf(rdfChecksum, ` rdf:nodeID="2"`, "sha256", "c") + fmt.Sprintf(rdfChecksum, ` rdf:nodeID="3"`, "sha512", "d"), func(d *v2_3.Document) string {
		return eq("checksums", fmt.Sprint(len(d.Packages[0].PackageChecksums)), "4")
	}},
}

func probeRDF(c *Case, p rdfProbe) {
	text := fmt.Sprintf(rdfProbeText, p.doc, p.pkg)
	c.Input([]byte(text))
	c.Count("probes")
	d, err := srdf.Read(strings.NewReader(text))
	msg := ""
	if err != nil {
		msg = "reading failed: " + err.Error()
	} else {
		msg = p.check(d)
	}
	if msg != "" {
		c.ViolationK("rdf-"+p.key, "RDF probe %s: %s", p.key, msg)
		if p.key != "" {
			c.viol = false
		}
	}
}
