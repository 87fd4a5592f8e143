package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	stv "github.com/spdx/tools-golang/tagvalue"
	tvreader "github.com/spdx/tools-golang/tagvalue/reader"
)

func init() {
	register(&Prop{ID: "T01", Rule: genRule + "; each is written with tagvalue.Write, read back with tagvalue.ReadInto and compared field by field (values a tag-value file can carry)", Quick: 8000, Deep: 60000,
		Need: []string{"roundtrips", "packages", "files", "relationships", "snippets", "multiline_values"}, MinSeen: 100, Run: runT01})
	register(&Prop{ID: "T02", Rule: genRule + "; the text of tagvalue.Write is split into sections by the harness' own tokenizer and compared, section by section and tag by tag, with sections rendered from the document by the harness' own table", Quick: 9000, Deep: 60000,
		Need: []string{"sections_compared"}, MinSeen: 100, Run: runT02})
	register(&Prop{ID: "T03", Rule: genRule + "; the harness spells each document as tag-value text (tag order within a section, relationships and annotations anywhere, <text> wrapping, comments, indentation, CRLF, sub-field spacing all random) and compares what tagvalue.ReadInto returns", Quick: 8000, Deep: 80000,
		Need: []string{"texts_read", "shuffled", "scattered", "crlf", "commented"}, MinSeen: 100, Run: runT03})
	register(&Prop{ID: "T04", Rule: "random line soups (tags, colons, <text> openings and closings in every position, comments, blank lines, CR, unicode space, very long lines); ReadTagValues is compared with the harness' own tokenizer on the accept/reject decision and on every pair", Quick: 500000, Deep: 600000,
		Need: []string{"accepted", "rejected", "multiline", "long_lines"}, MinSeen: 500, Run: runT04})
}

func tvNotes(c *Case, d *v2_3.Document) {
	n := 0
	count := func(fs []*v2_3.File) {
		for _, f := range fs {
			n += len(f.Snippets)
		}
	}
	count(d.Files)
	for _, p := range d.Packages {
		count(p.Files)
	}
	c.CountN("snippets", n)
	for _, v := range flatten(d) {
		if strings.Contains(v, "\\n") {
			c.Count("multiline_values")
		}
	}
}

func runT01(c *Case) {
	v := caseVersion(c)
	g := newGen(c, v, "tv")
	d := g.doc()
	if c.R.Chance(0.3) { // lists in any order: writing sorts the output
		c.R.Shuffle(len(d.Packages), func(i, j int) { d.Packages[i], d.Packages[j] = d.Packages[j], d.Packages[i] })
		c.R.Shuffle(len(d.Files), func(i, j int) { d.Files[i], d.Files[j] = d.Files[j], d.Files[i] })
	}
	doc := down(d, v)
	var in any = doc
	if c.R.Chance(0.3) {
		in = deref(doc)
	}
	var buf bytes.Buffer
	c.Stage("tagvalue.Write")
	if err := stv.Write(in, &buf); err != nil {
		c.Violationf("tagvalue.Write failed on a representable %s document: %v", verString(v), err)
		return
	}
	c.Input(buf.Bytes())
	target := newDoc(v)
	c.Stage("tagvalue.ReadInto")
	if err := stv.ReadInto(bytes.NewReader(buf.Bytes()), target); err != nil {
		c.Violationf("tagvalue.ReadInto rejects what tagvalue.Write wrote (%s): %v", verString(v), err)
		return
	}
	if df := diff(target, down(afterTV(d), v)); df != "" {
		c.Violationf("tag-value round trip of a %s document changed it: %s", verString(v), df)
		return
	}
	c.Count("roundtrips")
	tvNotes(c, d)
	noteDoc(c, d, v)
	sampleDoc(c, v, "tagvalue.Write output", buf.Bytes())
}

// texts that may be absent: the tag is then absent too. Names and identifiers that open a section are not among them.
var sparseFields = map[string]bool{}

func init() {
	for _, f := range strings.Fields(`SPDXVersion DataLicense DocumentName DocumentNamespace DocumentComment LicenseListVersion Created CreatorComment
		LicenseConcluded LicenseComments FileCopyrightText FileComment FileNotice
		SnippetFromFileSPDXIdentifier SnippetLicenseConcluded SnippetLicenseComments SnippetCopyrightText SnippetComment SnippetName
		PackageVersion PackageFileName PackageDownloadLocation PackageHomePage PackageSourceInfo PackageLicenseConcluded PackageLicenseDeclared
		PackageLicenseComments PackageCopyrightText PackageSummary PackageDescription PackageComment PrimaryPackagePurpose ReleaseDate BuiltDate ValidUntilDate
		ExtractedText LicenseName LicenseComment RelationshipComment AnnotationComment ReviewDate ReviewComment ExternalRefComment`) {
		sparseFields[f] = true
	}
}

// sparse takes texts out of a document.
func sparse(r *R, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			sparse(r, v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			sparse(r, v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			sparse(r, v.MapIndex(k))
		}
	case reflect.Struct:
		if c, ok := v.Addr().Interface().(*common.PackageVerificationCode); ok && r.Chance(0.3) {
			c.Value = ""
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.String {
				if sparseFields[v.Type().Field(i).Name] && r.Chance(0.5) {
					f.SetString("")
				}
			} else {
				sparse(r, f)
			}
		}
	}
}

func runT02(c *Case) {
	v := caseVersion(c)
	g := newGen(c, v, "tv")
	d := g.doc()
	if c.R.Chance(0.2) {
		d.SPDXVersion = verString(v)
	}
	if c.R.Chance(0.25) {
		sparse(c.R, reflect.ValueOf(d))
		c.Count("sparse_documents")
	}
	doc := down(d, v)
	if c.R.Chance(0.4) {
		d2 := clone(d)
		c.R.Shuffle(len(d2.Packages), func(i, j int) { d2.Packages[i], d2.Packages[j] = d2.Packages[j], d2.Packages[i] })
		c.R.Shuffle(len(d2.Files), func(i, j int) { d2.Files[i], d2.Files[j] = d2.Files[j], d2.Files[i] })
		c.R.Shuffle(len(d2.ExternalDocumentReferences), func(i, j int) {
			d2.ExternalDocumentReferences[i], d2.ExternalDocumentReferences[j] = d2.ExternalDocumentReferences[j], d2.ExternalDocumentReferences[i]
		})
		for _, p := range d2.Packages {
			c.R.Shuffle(len(p.Files), func(i, j int) { p.Files[i], p.Files[j] = p.Files[j], p.Files[i] })
		}
		doc = down(d2, v)
	}
	var buf, buf2 bytes.Buffer
	c.Stage("tagvalue.Write")
	if err := stv.Write(doc, &buf); err != nil {
		c.Violationf("tagvalue.Write failed on a representable %s document: %v", verString(v), err)
		return
	}
	c.Input(buf.Bytes())
	toks, err := refTokenize(buf.String())
	if err != nil {
		c.Violationf("tagvalue.Write wrote malformed tag-value text: %v", err)
		return
	}
	want := tvSections(d, v)
	if df := secDiff(splitSections(toks), want); df != "" {
		c.Violationf("tagvalue.Write of a %s document: %s", verString(v), df)
		return
	}
	if err := stv.Write(deref(doc), &buf2); err != nil || !bytes.Equal(buf.Bytes(), buf2.Bytes()) {
		c.Violationf("tagvalue.Write of the same document twice gave different bytes (err %v)", err)
		return
	}
	c.CountN("sections_compared", len(want))
	c.CountN("pairs_compared", len(toks))
	noteDoc(c, d, v)
	sampleDoc(c, v, "tagvalue.Write output", buf.Bytes())
}

func runT03(c *Case) {
	v := caseVersion(c)
	g := newGen(c, v, "tv")
	d := g.doc()
	want := afterTV(d)
	st := newTVStyle(c.R)
	txt := st.spell(st.order(tvSections(d, v)))
	c.Input([]byte(txt))
	target := newDoc(v)
	c.Stage("tagvalue.ReadInto")
	if err := stv.ReadInto(strings.NewReader(txt), target); err != nil {
		c.Violationf("tagvalue.ReadInto rejects a valid %s document: %v", verString(v), err)
		return
	}
	if df := diff(target, down(want, v)); df != "" {
		c.Violationf("tagvalue.ReadInto of a %s document (style %+v): %s", verString(v), *st, df)
		return
	}
	cur, err := stv.Read(strings.NewReader(txt))
	if err != nil {
		c.Violationf("tagvalue.Read rejects a valid %s document: %v", verString(v), err)
		return
	}
	w := up(down(want, v))
	w.SPDXVersion = v2_3.Version
	if df := diff(cur, w); df != "" {
		c.Violationf("tagvalue.Read of a %s document: %s", verString(v), df)
		return
	}
	c.Count("texts_read")
	for k, on := range map[string]bool{"shuffled": st.shuffle, "scattered": st.scatter && len(d.Relationships)+len(d.Annotations) > 0, "crlf": st.crlf, "commented": st.comment} {
		if on {
			c.Count(k)
		}
	}
	noteDoc(c, d, v, st.shuffle, st.scatter, st.crlf, st.wrapAll)
	sampleDoc(c, v, "tag-value text spelled by the harness", []byte(txt))
}

// ---- T04: the line tokenizer

func genSoup(r *R) string {
	var sb strings.Builder
	n := r.In(1, 9)
	frag := []string{"Tag", "PackageName", "SPDXID", ":", ":", ":", " ", "  ", "\t", "value", "<text>", "</text>", "<text>", "</text>", "#", "# c", "a b", "\u00a0", "\u65e5", "<text", "text>", "</text", "<TEXT>", "::", "\x00", "\"", "\v", "\f", "\u2028", "\ufeff"}
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0:
		case 1:
			sb.WriteString(pick(r, []string{"#comment", "  # <text>", "\t#"}))
		case 2, 3, 4:
			fmt.Fprintf(&sb, "%sTag%d:%s%s", pick(r, []string{"", " ", "\t"}), i, pick(r, []string{" ", "", "  "}), pick(r, []string{"v", "<text>v</text>", "<text>open", "a: b", "x</text>", "pre <text>mid</text> post", ""}))
		default:
			for j, m := 0, r.In(1, 7); j < m; j++ {
				sb.WriteString(pick(r, frag))
			}
		}
		if r.Chance(0.003) {
			sb.WriteString(strings.Repeat("long", r.In(10000, 40000)))
		}
		if r.Chance(0.1) {
			sb.WriteString("\r")
		}
		if i < n-1 || r.Chance(0.7) {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

// refReadTV is the model of the tokenizer: lines end at \n, one \r before it belongs to the line end; outside a
// text value blank and # lines are skipped, the tag is what precedes the first colon, a value is a trimmed
// remainder or what lies between <text> and the next </text>, which may be lines further on; what follows
// </text> on its line is dropped; a line without a colon and an unterminated text are errors.
func refReadTV(in string) ([]rawTV, bool) {
	var lines []string
	for len(in) > 0 {
		e := strings.IndexByte(in, '\n')
		var l string
		if e < 0 {
			l, in = in, ""
		} else {
			l, in = in[:e], in[e+1:]
		}
		if strings.HasSuffix(l, "\r") {
			l = l[:len(l)-1]
		}
		lines = append(lines, l)
	}
	var out []rawTV
	for i := 0; i < len(lines); i++ {
		t := strings.TrimSpace(lines[i])
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		k := strings.Index(lines[i], ":")
		if k < 0 {
			return nil, false
		}
		tag, rest := strings.TrimSpace(lines[i][:k]), lines[i][k+1:]
		o := strings.Index(rest, "<text>")
		if o < 0 {
			out = append(out, rawTV{tag, strings.TrimSpace(rest)})
			continue
		}
		cur := rest[o+6:]
		var acc []string
		for {
			if e := strings.Index(cur, "</text>"); e >= 0 {
				acc = append(acc, cur[:e])
				break
			}
			acc = append(acc, cur)
			i++
			if i >= len(lines) {
				return nil, false
			}
			cur = lines[i]
		}
		out = append(out, rawTV{tag, strings.Join(acc, "\n")})
	}
	return out, true
}

func runT04(c *Case) {
	in := genSoup(c.R)
	c.Input([]byte(in))
	want, ok := refReadTV(in)
	c.Stage("ReadTagValues")
	got, err := tvreader.ReadTagValues(strings.NewReader(in))
	if (err == nil) != ok {
		c.Violationf("ReadTagValues(%s): error %v, but the text is well formed: %v", clip(fmt.Sprintf("%q", in), 300), err, ok)
		return
	}
	for _, l := range strings.Split(in, "\n") {
		if len(l) > 65536 {
			c.Count("long_lines")
		}
	}
	if !ok {
		c.Count("rejected")
		c.Seen("rej", clip(in, 400))
		return
	}
	c.Count("accepted")
	if len(got) != len(want) {
		c.Violationf("ReadTagValues(%s): %d pairs, want %d", clip(fmt.Sprintf("%q", in), 300), len(got), len(want))
		return
	}
	for i := range want {
		if got[i].Tag != want[i].Tag || got[i].Value != want[i].Val {
			c.Violationf("ReadTagValues(%s): pair %d is (%q, %q), want (%q, %q)", clip(fmt.Sprintf("%q", in), 300), i, got[i].Tag, clip(got[i].Value, 200), want[i].Tag, clip(want[i].Val, 200))
			return
		}
		if strings.Contains(want[i].Val, "\n") {
			c.Count("multiline")
		}
	}
	c.CountN("pairs", len(want))
	if len(want) > 0 {
		c.Seen("acc", clip(in, 400))
		c.Sample(map[string]any{"text": clip(in, 200), "pairs": len(want)})
	}
}
