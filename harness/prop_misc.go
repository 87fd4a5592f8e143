package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdxlib"
)

func init() {
	register(&Prop{ID: "L01", Rule: "random pairs of packages over a small pool of file names and licences (shared, disjoint, missing, repeated names, empty and special licences, nil and empty file lists; now and then up to 3000 files a side); pairs and results compared with a reference built from the two name sets, argument packages compared with snapshots", Quick: 80000, Deep: 800000,
		Need: []string{"pairs", "changed", "same", "first_only", "second_only", "repeated_names", "empty_sides", "large_packages"}, MinSeen: 500, Run: runL01})
	register(&Prop{ID: "G01", Rule: "random packages (0 to 400, now and then up to 12000 files over 1 to 40, then up to 300 licences, many equal counts, NOASSERTION, NONE, empty, near-miss spellings), the report parsed line by line and compared with independent counts; repeated runs compared bytewise; packages without analysed files", Quick: 15000, Deep: 250000,
		Need: []string{"reports", "ties", "rejected", "no_license_packages"}, MinSeen: 500, Run: runG01})
	register(&Prop{ID: "D01", Rule: "random documents (0 to 6, now and then up to 300 packages and 600 relationships; relationships over document, packages, files, other documents and special values, DESCRIBES/DESCRIBED_BY in both directions, repeated, reversed, misspelled); results compared with a reference, the filter's calls logged and compared with the relationship list", Quick: 150000, Deep: 800000,
		Need: []string{"described", "single_package", "nothing_described", "filter_calls", "filter_rejects", "large_documents", "densely_described"}, MinSeen: 500, Run: runD01})
	register(&Prop{ID: "D02", Rule: "random documents whose relationships name existing elements of every kind, elements of other documents, special values, and, in some, one or more identifiers that do not exist (absent, near-miss, deleted, an external document's name); accept/reject decision compared with a reference, document compared with a snapshot", Quick: 20000, Deep: 500000,
		Need: []string{"accepted", "rejected", "near_miss", "external_refs", "snippet_refs", "special_refs"}, MinSeen: 500, Run: runD02})
}

// ---- licensediff

func runL01(c *Case) {
	r := c.R
	lics := []string{"", "MIT", "mit", "Apache-2.0", "NOASSERTION", "NONE", "MIT OR Apache-2.0", "MIT ", "GPL-2.0-only"}
	nn := r.In(1, 14)
	large := r.Chance(0.004)
	if large {
		nn = r.In(100, 3000)
		c.Count("large_packages")
	}
	mk := func() *spdx.Package {
		p := &spdx.Package{PackageName: "p", PackageSPDXIdentifier: "p", FilesAnalyzed: true}
		switch r.N(12) {
		case 0:
			return p
		case 1:
			p.Files = []*spdx.File{}
			return p
		}
		n := r.In(0, 16)
		if large {
			n = r.In(100, 3000)
		}
		for i := 0; i < n; i++ {
			f := &spdx.File{FileName: pick(r, []string{"./a", "./A", "a", "/a", "./dir/a", "./b.c", "", "./é", "./a "}), LicenseConcluded: pick(r, lics), FileSPDXIdentifier: common.ElementID(fmt.Sprintf("f%d", i))}
			if r.Chance(0.7) {
				f.FileName = fmt.Sprintf("./f%d", r.N(nn))
			}
			f.LicenseInfoInFiles = []string{"Zlib"}
			p.Files = append(p.Files, f)
		}
		return p
	}
	p1, p2 := mk(), mk()
	if r.Chance(0.1) {
		p2 = p1
	}
	s1, s2 := cloneT(p1), cloneT(p2)
	last := func(p *spdx.Package) map[string]string {
		m := map[string]string{}
		for _, f := range p.Files {
			if _, ok := m[f.FileName]; ok {
				c.Count("repeated_names")
			}
			m[f.FileName] = f.LicenseConcluded
		}
		return m
	}
	a, b := last(p1), last(p2)
	want := map[string]licensediff.LicensePair{}
	for n, l := range a {
		want[n] = licensediff.LicensePair{First: l, Second: b[n]}
	}
	for n, l := range b {
		want[n] = licensediff.LicensePair{First: a[n], Second: l}
	}
	pairs, err := licensediff.MakePairs(p1, p2)
	if err != nil {
		c.Violationf("MakePairs failed: %v", err)
		return
	}
	if len(pairs) != len(want) || (len(want) > 0 && !reflect.DeepEqual(pairs, want)) {
		c.Violationf("MakePairs of %v and %v = %v, want %v", a, b, pairs, want)
		return
	}
	c.CountN("pairs", len(pairs))
	if diff(p1, s1) != "" || diff(p2, s2) != "" {
		c.Violationf("MakePairs changed a package: %s %s", diff(p1, s1), diff(p2, s2))
		return
	}
	res, err := licensediff.MakeResults(pairs)
	if err != nil || res == nil {
		c.Violationf("MakeResults failed: %v", err)
		return
	}
	if len(pairs) != len(want) || (len(want) > 0 && !reflect.DeepEqual(pairs, want)) {
		c.Violationf("MakeResults changed its argument")
		return
	}
	total := len(res.InBothChanged) + len(res.InBothSame) + len(res.InFirstOnly) + len(res.InSecondOnly)
	if total != len(want) {
		c.Violationf("MakeResults places %d names, there are %d: pairs %v, results %+v", total, len(want), want, *res)
		return
	}
	for n, p := range want {
		ch, inCh := res.InBothChanged[n]
		sa, inSa := res.InBothSame[n]
		fo, inFo := res.InFirstOnly[n]
		so, inSo := res.InSecondOnly[n]
		var ok bool
		switch {
		case p.First == p.Second:
			ok = inSa && sa == p.First && !inCh && !inFo && !inSo
			c.Count("same")
			if p.First == "" {
				c.Count("empty_sides")
			}
		case p.Second == "":
			ok = inFo && fo == p.First && !inCh && !inSa && !inSo
			c.Count("first_only")
		case p.First == "":
			ok = inSo && so == p.Second && !inCh && !inSa && !inFo
			c.Count("second_only")
		default:
			ok = inCh && ch == p && !inSa && !inFo && !inSo
			c.Count("changed")
		}
		if !ok {
			c.Violationf("MakeResults misplaces %q with pair %+v: %+v", n, p, *res)
			return
		}
	}
	c.Seen(len(a), len(b), len(res.InBothChanged), len(res.InBothSame), len(res.InFirstOnly), len(res.InSecondOnly))
	c.Sample(map[string]any{"first": len(a), "second": len(b), "changed": len(res.InBothChanged), "same": len(res.InBothSame)})
}

// ---- reporter

func reportPackage(r *R) *spdx.Package {
	p := &spdx.Package{PackageName: "p", FilesAnalyzed: true, IsFilesAnalyzedTagPresent: r.Chance(0.5)}
	if r.Chance(0.04) {
		return p
	}
	pool := []string{"MIT", "Apache-2.0", "GPL-2.0-only", "NOASSERTION", "", "NONE", "noassertion", "NOASSERTION ", "MIT OR Apache-2.0", "LicenseRef-1", "TOTAL", "License found", "12", "  MIT", "日本", "<a>&b", "%d"}
	k := r.In(1, 24)
	for i := 0; i < k; i++ {
		pool = append(pool, fmt.Sprintf("LicenseRef-%d", r.N(50)))
	}
	for len(pool) > 1 && r.Chance(0.8) {
		i := r.N(len(pool))
		pool = append(pool[:i], pool[i+1:]...)
	}
	n := r.N(20)
	switch r.N(5) {
	case 0:
		n = r.N(400)
		if r.Chance(0.05) {
			n = r.In(900, 12000)
			for i := r.In(1, 300); i > 0; i-- {
				pool = append(pool, fmt.Sprintf("LicenseRef-%d%s", r.N(5000), strings.Repeat("-x", r.N(60))))
			}
		}
	case 1: // every licence equally often
		n = 0
		m := r.In(1, 4)
		for _, l := range pool {
			for j := 0; j < m; j++ {
				p.Files = append(p.Files, &spdx.File{FileName: "./x", LicenseConcluded: l})
			}
		}
	}
	for i := 0; i < n; i++ {
		p.Files = append(p.Files, &spdx.File{FileName: fmt.Sprintf("./f%d", i), LicenseConcluded: pick(r, pool), LicenseInfoInFiles: []string{"Zlib"}})
	}
	r.Shuffle(len(p.Files), func(i, j int) { p.Files[i], p.Files[j] = p.Files[j], p.Files[i] })
	return p
}

// checkReport compares a report with the counts of the package's files.
func checkReport(p *spdx.Package, text string) (msg string, ties int, counts map[string]int, found, not int) {
	counts = map[string]int{}
	for _, f := range p.Files {
		if f.LicenseConcluded == "" || f.LicenseConcluded == "NOASSERTION" {
			not++
		} else {
			found++
			counts[f.LicenseConcluded]++
		}
	}
	names := sortedKeys(counts)
	sort.SliceStable(names, func(i, j int) bool { return counts[names[i]] > counts[names[j]] })
	type row struct {
		n int
		s string
	}
	want := []row{{found, "License found"}, {not, "License not found"}, {found + not, "TOTAL"}, {-1, ""}}
	for _, n := range names {
		want = append(want, row{counts[n], n})
	}
	want = append(want, row{found, "TOTAL FOUND"})
	for i := 1; i < len(names); i++ {
		if counts[names[i]] == counts[names[i-1]] {
			ties++
		}
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(lines) != len(want) {
		msg = fmt.Sprintf("the report has %d lines, want %d:\n%s", len(lines), len(want), clip(text, 800))
		return
	}
	for i, l := range lines {
		w := want[i]
		if w.n < 0 {
			if strings.TrimSpace(l) != "" {
				msg = fmt.Sprintf("line %d of the report is %q, want an empty one", i, l)
				return
			}
			continue
		}
		t := strings.TrimLeft(l, " ")
		j := 0
		for j < len(t) && t[j] >= '0' && t[j] <= '9' {
			j++
		}
		n, err := strconv.Atoi(t[:j])
		s := strings.TrimPrefix(t[j:], "  ")
		if err != nil || n != w.n || s != w.s {
			msg = fmt.Sprintf("line %d of the report is %q, want %d for %q; report:\n%s", i, l, w.n, w.s, clip(text, 800))
			return
		}
	}
	return
}

func runG01(c *Case) {
	r := c.R
	p := reportPackage(r)
	if r.Chance(0.05) {
		p.FilesAnalyzed = false
		var buf bytes.Buffer
		if err := reporter.Generate(p, &buf); err == nil {
			c.Violationf("reporter.Generate of a package whose files were not analysed returned no error, output %q", clip(buf.String(), 300))
			return
		}
		c.Count("rejected")
		return
	}
	snap := cloneT(p)
	var buf bytes.Buffer
	if err := reporter.Generate(p, &buf); err != nil {
		c.Violationf("reporter.Generate failed: %v", err)
		return
	}
	if df := diff(p, snap); df != "" {
		c.Violationf("reporter.Generate changed the package: %s", df)
		return
	}
	c.Input(buf.Bytes())
	msg, ties, counts, found, not := checkReport(p, buf.String())
	if msg != "" {
		c.Violationf("%s", msg)
		return
	}
	c.CountN("ties", ties)
	for i := 0; i < 3; i++ {
		q := cloneT(p)
		if i > 0 { // the order of the files is immaterial
			r.Shuffle(len(q.Files), func(i, j int) { q.Files[i], q.Files[j] = q.Files[j], q.Files[i] })
		}
		var b2 bytes.Buffer
		if err := reporter.Generate(q, &b2); err != nil || !bytes.Equal(b2.Bytes(), buf.Bytes()) {
			c.Violationf("two reports of one package differ (%v): %s", err, firstDiff(buf.Bytes(), b2.Bytes()))
			return
		}
	}
	c.Count("reports")
	if len(counts) == 0 {
		c.Count("no_license_packages")
	}
	c.Seen(len(counts), found, not, ties)
	c.Sample(map[string]any{"files": found + not, "licenses": len(counts), "ties": ties})
}

// reportFaults belongs to F01.
func reportFaults(c *Case) {
	r := c.R
	p := reportPackage(r)
	var buf bytes.Buffer
	if err := reporter.Generate(p, &buf); err != nil {
		c.Violationf("reporter.Generate failed: %v", err)
		return
	}
	for _, at := range offsets(r, buf.Len(), c.Thorough()) {
		w := &faultWriter{left: at, short: r.Chance(0.5)}
		c.Stage(fmt.Sprintf("reporter.Generate, sink fails at byte %d", at))
		if err := reporter.Generate(p, w); err == nil {
			c.Input(buf.Bytes())
			c.Violationf("reporter.Generate to a sink that fails at byte %d of %d returned no error", at, buf.Len())
			return
		}
		c.Count("report_faults")
	}
}

// ---- spdxlib

var lookalikes = []string{"DESCRIBES", "DESCRIBED_BY", "DESCRIBES", "DESCRIBED_BY", "describes", "DESCRIBE", "DESCRIBED", "DESCRIBES ", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON", "OTHER", "SPECIFICATION_FOR"}

// refDescribed lists the packages described by the document.
func refDescribed(doc *spdx.Document) []string {
	isPk := map[string]bool{}
	for _, p := range doc.Packages {
		isPk[string(p.PackageSPDXIdentifier)] = true
	}
	self := common.DocElementID{ElementRefID: "DOCUMENT"}
	set := map[string]bool{}
	if len(doc.Packages) == 1 {
		set[string(doc.Packages[0].PackageSPDXIdentifier)] = true
	} else {
		for _, rl := range doc.Relationships {
			var t common.DocElementID
			switch {
			case rl.Relationship == "DESCRIBES" && rl.RefA == self:
				t = rl.RefB
			case rl.Relationship == "DESCRIBED_BY" && rl.RefB == self:
				t = rl.RefA
			default:
				continue
			}
			if t.DocumentRefID == "" && t.SpecialID == "" && isPk[string(t.ElementRefID)] {
				set[string(t.ElementRefID)] = true
			}
		}
	}
	return sortedKeys(set)
}

func runD01(c *Case) {
	r := c.R
	doc := &spdx.Document{SPDXVersion: "SPDX-2.3", SPDXIdentifier: "DOCUMENT"}
	np := pick(r, []int{0, 1, 2, 3, 4, 6})
	ids := []string{"DOCUMENT", "Ghost", "f1", "Document", "b", "a", "A", "a1", "a10", "a2", "z.z", "DOCUMENT-2"}
	var pk []string
	perm := r.Perm(len(ids) - 4)
	large := r.Chance(0.01)
	if large { // many packages, relationships and identifiers
		c.Count("large_documents")
		np = r.In(10, 300)
		for i := 0; len(ids)-4 < np; i++ {
			ids = append(ids, fmt.Sprintf("%sk%d", pick(r, []string{"p", "P", "pa", "-"}), i))
		}
		perm = r.Perm(len(ids) - 4)
	}
	for i := 0; i < np; i++ {
		id := ids[4+perm[i]]
		pk = append(pk, id)
		doc.Packages = append(doc.Packages, &spdx.Package{PackageName: "n" + id, PackageSPDXIdentifier: common.ElementID(id)})
	}
	if np == 0 && r.Chance(0.5) {
		doc.Packages = []*spdx.Package{}
	}
	doc.Files = []*spdx.File{{FileName: "f", FileSPDXIdentifier: "f1"}}
	ref := func() common.DocElementID {
		switch r.N(10) {
		case 0:
			return common.DocElementID{SpecialID: pick(r, []string{"NONE", "NOASSERTION"})}
		case 1:
			return common.DocElementID{DocumentRefID: "ext", ElementRefID: common.ElementID(pick(r, ids))}
		case 2, 3, 4:
			return common.DocElementID{ElementRefID: "DOCUMENT"}
		}
		if len(pk) > 0 && r.Chance(0.7) {
			return common.DocElementID{ElementRefID: common.ElementID(pick(r, pk))}
		}
		return common.DocElementID{ElementRefID: common.ElementID(pick(r, ids))}
	}
	nr := pick(r, []int{0, 1, 2, 5, 9})
	if large {
		nr = r.In(10, 600)
	}
	dense := large && r.Chance(0.4) // most packages are described, many of them more than once
	for i := 0; i < nr; i++ {
		if dense && len(pk) > 0 && r.Chance(0.9) {
			a, b, t := common.DocElementID{ElementRefID: "DOCUMENT"}, common.DocElementID{ElementRefID: common.ElementID(pick(r, pk))}, "DESCRIBES"
			if r.Chance(0.3) {
				a, b, t = b, a, "DESCRIBED_BY"
			}
			doc.Relationships = append(doc.Relationships, &spdx.Relationship{RefA: a, RefB: b, Relationship: t})
			continue
		}
		doc.Relationships = append(doc.Relationships, &spdx.Relationship{RefA: ref(), RefB: ref(), Relationship: pick(r, lookalikes)})
	}
	if dense {
		c.Count("densely_described")
	}
	if nr == 0 && r.Chance(0.5) {
		doc.Relationships = []*spdx.Relationship{}
	}
	snap := clone(doc)
	want := refDescribed(doc)
	got, err := spdxlib.GetDescribedPackageIDs(doc)
	if df := diff(doc, snap); df != "" {
		c.Violationf("GetDescribedPackageIDs changed the document: %s", df)
		return
	}
	desc := fmt.Sprintf("packages %v, relationships %v", pk, relText(doc))
	c.Input([]byte(desc))
	if len(want) == 0 {
		if err == nil {
			c.Violationf("GetDescribedPackageIDs = %v without an error though nothing is described; %s", got, desc)
			return
		}
		c.Count("nothing_described")
	} else {
		gs := make([]string, len(got))
		for i, g := range got {
			gs[i] = string(g)
		}
		if err != nil || fmt.Sprint(gs) != fmt.Sprint(want) {
			c.Violationf("GetDescribedPackageIDs = %v, %v; want %v; %s", gs, err, want, desc)
			return
		}
		c.Count("described")
		if np == 1 {
			c.Count("single_package")
		}
	}
	c.Seen(np, want, relText(doc))
	// the filter
	var calls []*spdx.Relationship
	var yield []string
	p := pick(r, []float64{0, 0.5, 0.9, 1})
	out, err := spdxlib.FilterRelationships(doc, func(rl *spdx.Relationship) *common.ElementID {
		calls = append(calls, rl)
		if !r.Chance(p) {
			c.Count("filter_rejects")
			return nil
		}
		id := common.ElementID(fmt.Sprintf("%s%d", pick(r, ids), r.N(3)))
		if r.Chance(0.1) {
			id = "" // it is what the filter answers
		}
		yield = append(yield, string(id))
		return &id
	})
	if err != nil {
		c.Violationf("FilterRelationships failed: %v", err)
		return
	}
	if len(calls) != len(doc.Relationships) {
		c.Violationf("FilterRelationships called its filter %d times for %d relationships", len(calls), len(doc.Relationships))
		return
	}
	for i := range calls {
		if calls[i] != doc.Relationships[i] {
			c.Violationf("FilterRelationships call %d was not given relationship %d", i, i)
			return
		}
		c.Count("filter_calls")
	}
	os := make([]string, len(out))
	for i := range out {
		os[i] = string(out[i])
	}
	if fmt.Sprintf("%q", os) != fmt.Sprintf("%q", append([]string{}, yield...)) {
		c.Violationf("FilterRelationships = %v, its filter yielded %v", os, yield)
		return
	}
	// sorting helper
	in := make([]common.ElementID, r.N(8))
	if large {
		in = make([]common.ElementID, r.N(700))
	}
	ss := make([]string, len(in))
	for i := range in {
		in[i] = common.ElementID(pick(r, ids))
		ss[i] = string(in[i])
	}
	sort.Strings(ss)
	so := spdxlib.SortElementIDs(in)
	os = os[:0]
	for _, e := range so {
		os = append(os, string(e))
	}
	if fmt.Sprint(os) != fmt.Sprint(ss) {
		c.Violationf("SortElementIDs = %v, want %v", os, ss)
		return
	}
	c.Sample(map[string]any{"packages": pk, "relationships": relText(doc), "described": want})
}

func relText(d *v2_3.Document) []string {
	var out []string
	for _, r := range d.Relationships {
		out = append(out, fmt.Sprintf("%s %s %s", common.RenderDocElementID(r.RefA), r.Relationship, common.RenderDocElementID(r.RefB)))
	}
	return out
}

func runD02(c *Case) {
	r := c.R
	g := newGen(c, 3, "mem")
	g.Plain = true
	d := g.doc()
	// element census
	ids := map[string]bool{"DOCUMENT": true}
	var all, snips []string
	addFile := func(f *v2_3.File) {
		ids[string(f.FileSPDXIdentifier)] = true
		all = append(all, string(f.FileSPDXIdentifier))
		for k, s := range f.Snippets {
			// the map key and the snippet's own identifier agree in documents readers make
			if s != nil {
				s.SnippetSPDXIdentifier = k
			}
			ids[string(k)] = true
			all, snips = append(all, string(k)), append(snips, string(k))
		}
	}
	for _, p := range d.Packages {
		ids[string(p.PackageSPDXIdentifier)] = true
		all = append(all, string(p.PackageSPDXIdentifier))
		for _, f := range p.Files {
			addFile(f)
		}
	}
	for _, f := range d.Files {
		addFile(f)
	}
	for _, s := range d.Snippets {
		ids[string(s.SnippetSPDXIdentifier)] = true
		all, snips = append(all, string(s.SnippetSPDXIdentifier)), append(snips, string(s.SnippetSPDXIdentifier))
	}
	sort.Strings(all)
	sort.Strings(snips)
	d.Relationships = nil
	good := func() common.DocElementID {
		switch r.N(8) {
		case 0:
			c.Count("special_refs")
			return common.DocElementID{SpecialID: pick(r, []string{"NONE", "NOASSERTION"})}
		case 1, 2:
			c.Count("external_refs")
			return common.DocElementID{DocumentRefID: common.DocumentID(pick(r, []string{"ext", "other"})), ElementRefID: common.ElementID(pick(r, []string{"Nowhere", "DOCUMENT", "x"}))}
		case 3:
			if len(snips) > 0 {
				c.Count("snippet_refs")
				return common.DocElementID{ElementRefID: common.ElementID(pick(r, snips))}
			}
		}
		if len(all) == 0 || r.Chance(0.15) {
			return common.DocElementID{ElementRefID: "DOCUMENT"}
		}
		return common.DocElementID{ElementRefID: common.ElementID(pick(r, all))}
	}
	n := pick(r, []int{0, 1, 2, 5, 12})
	if r.Chance(0.02) {
		n = r.In(30, 400)
	}
	for i := 0; i < n; i++ {
		d.Relationships = append(d.Relationships, &v2_3.Relationship{RefA: good(), RefB: good(), Relationship: pick(r, []string{"DESCRIBES", "CONTAINS", "OTHER", "DEPENDS_ON", "DESCRIBED_BY", "DEPENDENCY_OF"})})
	}
	bad := ""
	if r.Chance(0.5) && n > 0 {
		for k := r.In(1, 2); k > 0; k-- {
			switch r.N(6) {
			case 0:
				bad = "Ghost"
			case 1:
				bad = pick(r, []string{"ext", "other", "NONE", "NOASSERTION", "document", "DOCUMEN", "DOCUMENTS", "SPDXRef-DOCUMENT"})
			case 2, 3:
				if len(all) > 0 {
					b := pick(r, all)
					bad = pick(r, []string{b + "x", b[:len(b)-1], strings.ToUpper(b), "SPDXRef-" + b, b + " ", strings.ToLower(b)})
					c.Count("near_miss")
				}
			case 4: // a licence or a package name is no element
				if len(d.OtherLicenses) > 0 {
					bad = d.OtherLicenses[0].LicenseIdentifier
				}
				var l []string
				for _, p := range d.Packages {
					l = append(l, p.PackageName, "Package-"+p.PackageName, "File-"+p.PackageName, p.PackageFileName, p.PackageVersion)
					for _, f := range p.Files {
						l = append(l, f.FileName, "File-"+f.FileName)
					}
				}
				for _, f := range d.Files {
					l = append(l, f.FileName, "File-"+f.FileName)
				}
				if len(l) > 0 && r.Chance(0.8) {
					bad = pick(r, l)
					c.Count("names_as_ids")
				}
			case 5:
				bad = "zz-" + g.idstring()
			}
			rl := pick(r, d.Relationships)
			id := common.DocElementID{ElementRefID: common.ElementID(bad)}
			if r.Chance(0.5) {
				rl.RefA = id
			} else {
				rl.RefB = id
			}
		}
	}
	valid := true
	for _, rl := range d.Relationships {
		for _, e := range []common.DocElementID{rl.RefA, rl.RefB} {
			if e.SpecialID == "" && e.DocumentRefID == "" && !ids[string(e.ElementRefID)] {
				valid = false
			}
		}
	}
	snap := clone(d)
	err := spdxlib.ValidateDocument(d)
	if df := diff(d, snap); df != "" {
		c.Violationf("ValidateDocument changed the document: %s", df)
		return
	}
	c.Input([]byte(fmt.Sprintf("elements %v, relationships %q", sortedKeys(ids), relText(d))))
	if valid != (err == nil) {
		c.Violationf("ValidateDocument returned %v, want an error: %v; relationships %q, elements %v", err, !valid, relText(d), sortedKeys(ids))
		return
	}
	if valid {
		c.Count("accepted")
	} else {
		c.Count("rejected")
	}
	c.Seen(valid, n, len(ids), relText(d))
	c.Sample(map[string]any{"elements": len(ids), "relationships": relText(d), "valid": valid})
}
