package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	sjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx/v2/common"
	ex22 "github.com/spdx/tools-golang/spdx/v2/v2_2/example"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	ex23 "github.com/spdx/tools-golang/spdx/v2/v2_3/example"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
	"sigs.k8s.io/yaml"
)

func init() {
	register(&Prop{ID: "M01", Serial: true, Shards: 7, Quick: 500, Deep: 12000, MinSeen: 100, Run: runM01,
		Rule: genRule + "; per case and format a family of near-identical documents (same name, namespace, identifiers and text length, one letter, digit, licence or list element changed; some edited in place between calls), lists of files, packages and one directory whose files change without changing size or time; a shuffled schedule of reads, writes, conversions, computations, builds and searches over them in one process, refused and broken ones among them; every answer compared with the harness' own reference for exactly those arguments, half of the results then overwritten, the others compared once more at the end",
		Need: []string{"op_json.read", "op_yaml.read", "op_tagvalue.read", "op_rdf.read", "op_json.write", "op_yaml.write", "op_tagvalue.write", "op_convert", "op_code", "op_diff", "op_report", "op_described", "op_validate", "op_hash", "op_build", "op_search", "op_walk", "op_example", "op_broken", "edits_in_place", "file_edits", "overwritten_results", "kept_results", "variants", "repeated_ops"}})
}

// one letter or digit of one of these changes between the documents of a family
var varied = map[string]bool{}

func init() {
	for _, f := range strings.Fields(`DocumentComment CreatorComment LicenseComments FileCopyrightText FileComment FileNotice
		SnippetLicenseComments SnippetCopyrightText SnippetComment SnippetName PackageVersion PackageFileName PackageSourceInfo
		PackageLicenseComments PackageCopyrightText PackageSummary PackageDescription PackageComment PackageName DocumentName
		ExtractedText LicenseName LicenseComment RelationshipComment AnnotationComment ExternalRefComment`) {
		varied[f] = true
	}
}

// leaves collects the settable texts of a document whose letters may change.
func leaves(v reflect.Value, field string, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			leaves(v.Elem(), field, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), field, out)
		}
	case reflect.Struct:
		if c, ok := v.Addr().Interface().(*common.Checksum); ok {
			*out = append(*out, reflect.ValueOf(&c.Value).Elem())
			return
		}
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), v.Type().Field(i).Name, out)
		}
	case reflect.String:
		if varied[field] && v.CanSet() && strings.IndexFunc(v.String(), func(c rune) bool { return c >= 'a' && c <= 'z' }) >= 0 {
			*out = append(*out, v)
		}
	}
}

// vary changes one letter of one text of the document.
func vary(r *R, d *v2_3.Document) bool {
	var ls []reflect.Value
	leaves(reflect.ValueOf(d), "", &ls)
	if len(ls) == 0 {
		return false
	}
	for try := 0; try < 20; try++ {
		l := pick(r, ls)
		b := []byte(l.String())
		var at []int
		hex := len(b) >= 32 && strings.Trim(string(b), "0123456789abcdef") == ""
		for i, c := range b {
			if c >= 'a' && c <= 'z' || hex {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		i := pick(r, at)
		old := b[i]
		if hex {
			b[i] = "0123456789abcdef"[r.N(16)]
		} else {
			b[i] = byte('a' + r.N(26))
		}
		if b[i] == old {
			continue
		}
		// texts of which readers and writers take parts apart keep their meaning
		if s := string(b); strings.Contains(s, "text>") || strings.ContainsAny(s, "\\&") {
			continue
		}
		l.SetString(string(b))
		return true
	}
	return false
}

// assign makes dst equal to src, in the memory dst already has wherever that is possible.
func assign(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Pointer:
		if !dst.IsNil() && !src.IsNil() {
			assign(dst.Elem(), src.Elem())
			return
		}
		dst.Set(src)
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			if dst.Field(i).CanSet() {
				assign(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Slice:
		if !dst.IsNil() && dst.Len() == src.Len() {
			for i := 0; i < dst.Len(); i++ {
				assign(dst.Index(i), src.Index(i))
			}
			return
		}
		dst.Set(src)
	default:
		dst.Set(src)
	}
}

// oneOfEach says whether all files of one identifier are the same file.
func oneOfEach(d *v2_3.Document) bool {
	m := map[common.ElementID]*v2_3.File{}
	fs := append([]*v2_3.File{}, d.Files...)
	for _, p := range d.Packages {
		fs = append(fs, p.Files...)
	}
	for _, f := range fs {
		if o := m[f.FileSPDXIdentifier]; o != nil && diff(o, f) != "" {
			return false
		}
		m[f.FileSPDXIdentifier] = f
	}
	return true
}

type memoOp struct {
	kind, name string
	run        func() string // "" or what is wrong with the answer
}

type keptResult struct {
	what string
	val  any
	vals map[string]string
}

func runM01(c *Case) {
	r := c.R
	var ops []memoOp
	add := func(kind, name string, f func() string) { ops = append(ops, memoOp{kind, name, f}) }
	var kept []keptResult
	keep := func(what string, val any) {
		if r.Chance(0.5) {
			c.CountN("overwritten_results", min(1, scramble(reflect.ValueOf(val))))
			return
		}
		if len(kept) < 60 {
			kept = append(kept, keptResult{what, val, flatten(val)})
			c.Count("kept_results")
		}
	}
	// judgeRead reads a text into a document of version v, or with Read, and judges what comes back
	judgeRead := func(f format, text string, v int, want *v2_3.Document, canon func(*v2_3.Document) *v2_3.Document) string {
		if r.Chance(0.3) {
			got, err := f.Read(strings.NewReader(text))
			if err != nil {
				return fmt.Sprintf("failed: %v", err)
			}
			w := up(down(refConvert(want, v, 3), 3))
			w.SPDXVersion = v2_3.Version
			if df := diff(canon(got), canon(w)); df != "" {
				return df
			}
			keep(f.Name+".Read", got)
			return ""
		}
		got := newDoc(v)
		if err := f.Into(strings.NewReader(text), got); err != nil {
			return fmt.Sprintf("failed: %v", err)
		}
		if df := diff(canon(up(got)), canon(up(down(want, v)))); df != "" {
			return df
		}
		keep(f.Name+".ReadInto", got)
		return ""
	}
	same := func(d *v2_3.Document) *v2_3.Document { return d }
	header := newGen(c, 1, "common")
	name, uri, created := header.word(), header.uri(), header.date()

	var all []*v2_3.Document // current-version documents for the queries
	for _, f := range allFormats {
		v := r.In(1, 3)
		if f.F == "rdf" {
			v = r.In(2, 3)
		}
		g := newGen(c, v, f.F)
		g.Big = false
		if f.F == "rdf" {
			g.Plain = true
		}
		base := g.doc()
		base.DocumentName, base.DocumentNamespace = name, uri
		if base.CreationInfo != nil {
			base.CreationInfo.Created = created
		}
		family := []*v2_3.Document{base}
		for i := r.In(1, 3); i > 0; i-- {
			d := clone(pick(r, family))
			if f.F != "rdf" && r.Chance(0.3) && len(d.Relationships) > 0 {
				d.Relationships = d.Relationships[:len(d.Relationships)-1]
			} else if f.F != "rdf" && r.Chance(0.2) && len(d.Annotations) > 0 {
				d.Annotations = d.Annotations[1:]
			} else if !vary(r, d) || f.F == "rdf" && !oneOfEach(d) {
				continue
			}
			family = append(family, d)
			c.Count("variants")
		}
		var texts []string
		seed := r.Uint64()
		for k, d := range family {
			var text string
			want, canon := d, same
			switch f.F {
			case "json":
				text = newJSONStyle(r).text(jsonTree(d, v))
				want = afterJSON(d, v)
			case "yaml":
				want = afterJSON(d, v)
				if r.Chance(0.5) {
					b, err := yaml.Marshal(jsonTree(d, v))
					if err != nil {
						c.ctx.harnessError("yaml.Marshal: %v", err)
						return
					}
					text = string(b)
				} else {
					text = (&jsonStyle{r: r, shuffle: true}).text(jsonTree(d, v))
				}
			case "tv":
				st := newTVStyle(r)
				text = st.spell(st.order(tvSections(d, v)))
				want = afterTV(d)
			case "rdf":
				st := randStyle(newR("style", seed)) // one spelling for the whole family
				st.Labels = true
				text = buildRDF(newR("graph", seed), d).write(st)
				canon = canonRDF
				if len(text) > 4*rdfLimit {
					continue
				}
			}
			texts = append(texts, text)
			n := 2
			if f.F == "rdf" {
				n = 1
			}
			for i := 0; i < n; i++ {
				add(f.Name+".read", fmt.Sprintf("%s reading %s document %d of a family of %d", f.Name, verString(v), k, len(family)), func() string {
					c.Input([]byte(text))
					return judgeRead(f, text, v, want, canon)
				})
			}
			if r.Chance(0.5) { // refused, and whatever it leaves behind
				i := r.N(len(text) + 1)
				j := min(len(text), i+r.N(30))
				broken := text[:i] + pick(r, []string{"", "", "\x00", "}", "]", "\n:\n", "\nSPDXVersion: SPDX-7\n", "</text>", "\"", "SPDXRef-"}) + text[j:]
				if r.Chance(0.3) {
					broken = text[:i]
				}
				add("broken", f.Name+" reading a broken text", func() string {
					if r.Chance(0.5) {
						_, _ = f.Read(strings.NewReader(broken))
					} else {
						_ = f.Into(&faultReader{b: []byte(text), at: i, r: r}, newDoc(v))
					}
					return ""
				})
			}
		}
		if f.F == "rdf" {
			continue
		}
		// writing: the documents of the family lie in memory of their own; one is edited in place between writes
		abs := make([]*v2_3.Document, len(family))
		mem := make([]any, len(family))
		for k := range family {
			abs[k], mem[k] = clone(family[k]), down(family[k], v)
		}
		for i := 0; i < len(family)+2; i++ {
			k := r.N(len(family))
			edit := r.Chance(0.4)
			add(f.Name+".write", fmt.Sprintf("%s writing %s document %d of a family of %d", f.Name, verString(v), k, len(family)), func() string {
				if edit {
					d := clone(pick(r, family))
					if r.Chance(0.5) {
						vary(r, d)
					}
					abs[k] = d
					assign(reflect.ValueOf(mem[k]), reflect.ValueOf(down(d, v)))
					c.Count("edits_in_place")
				}
				d := abs[k]
				var buf bytes.Buffer
				var err error
				arg := anyArg(r, mem[k])
				if f.F == "json" {
					err = sjson.Write(arg, &buf, randOpt(r).opts()...)
				} else {
					err = f.Write(arg, &buf)
				}
				c.Input(buf.Bytes())
				if err != nil {
					return fmt.Sprintf("failed: %v", err)
				}
				switch f.F {
				case "json":
					got, err := decodeTree(buf.Bytes())
					if err != nil {
						return err.Error()
					}
					return treeDiff(prune(got, v), prune(any(jsonTree(d, v)), v), "$")
				case "yaml":
					var got any
					if err := yaml.Unmarshal(buf.Bytes(), &got); err != nil {
						return err.Error()
					}
					return treeDiff(prune(got, v), prune(any(jsonTree(d, v)), v), "$")
				}
				toks, err := refTokenize(buf.String())
				if err != nil {
					return err.Error()
				}
				return secDiff(splitSections(toks), tvSections(d, v))
			})
			if r.Chance(0.5) {
				j := r.N(len(family))
				add("broken", f.Name+" writing to a sink that fails", func() string {
					_ = f.Write(anyArg(r, down(family[j], v)), &faultWriter{left: r.N(2000), short: r.Chance(0.5)})
					return ""
				})
			}
			to := r.In(1, 3)
			src := clone(pick(r, family))
			add("convert", fmt.Sprintf("converting a %s document to %s", verString(v), verString(to)), func() string {
				if r.Chance(0.3) {
					vary(r, src)
				}
				dst := newDoc(to)
				from := down(src, v)
				if err := convert.Document(anyArg(r, from), dst); err != nil {
					return fmt.Sprintf("failed: %v", err)
				}
				if df := diff(dst, down(refConvert(src, v, to), to)); df != "" {
					return df
				}
				if v != to {
					keep("convert.Document", dst)
				}
				return ""
			})
		}
		all = append(all, family...)
	}
	memoQueries(c, add, keep, all)
	tree := memoTree(c, add, keep)
	if tree != "" {
		defer os.RemoveAll(tree)
	}

	plan := make([]int, 0, 2*len(ops))
	for i := range ops {
		plan = append(plan, i)
	}
	r.Shuffle(len(plan), func(i, j int) { plan[i], plan[j] = plan[j], plan[i] })
	for i := len(plan) / 3; i > 0; i-- { // some again, at once or later
		k := r.N(len(plan))
		at := k + 1
		if r.Chance(0.5) {
			at = r.In(k+1, len(plan))
		}
		plan = append(plan[:at], append([]int{plan[k]}, plan[at:]...)...)
		c.Count("repeated_ops")
	}
	var did []string
	for _, k := range plan {
		o := ops[k]
		c.Stage(o.name)
		did = append(did, o.name)
		msg := ""
		if !c.guard(o.name, func() { msg = o.run() }) {
			return
		}
		if msg != "" {
			c.Violationf("%s gives another answer than its arguments ask for: %s; the calls before it, last first: %s", o.name, msg, clip(lastFirst(did[:len(did)-1]), 1500))
			return
		}
		c.Count("op_" + o.kind)
	}
	for _, k := range kept {
		if df := diffFlat(flatten(k.val), k.vals); df != "" {
			c.Violationf("a result of %s changed while other calls were made: %s; calls, last first: %s", k.what, df, clip(lastFirst(did), 1500))
			return
		}
	}
	for i := 0; i+1 < len(plan); i++ {
		c.Distinct("neighbouring_operations", ops[plan[i]].kind, ops[plan[i+1]].kind)
	}
	c.Seen(c.Idx, plan)
	c.CountN("operations", len(plan))
	c.Sample(map[string]any{"operations": len(plan), "kept": len(kept)})
}

func lastFirst(s []string) string {
	var sb strings.Builder
	for i := len(s) - 1; i >= 0; i-- {
		sb.WriteString(s[i] + "; ")
	}
	return sb.String()
}

// memoQueries adds computations over near-identical packages and documents.
func memoQueries(c *Case, add func(kind, name string, f func() string), keep func(string, any), all []*v2_3.Document) {
	r := c.R
	lics := []string{"MIT", "ISC", "BSD", "X11", "", "NOASSERTION"}
	base := &v2_3.Package{PackageName: "p", PackageSPDXIdentifier: "p", FilesAnalyzed: true}
	for i := r.In(1, 5); i > 0; i-- {
		base.Files = append(base.Files, &v2_3.File{FileName: fmt.Sprintf("./f%d", i), FileSPDXIdentifier: common.ElementID(fmt.Sprintf("F%d", i)),
			LicenseConcluded: pick(r, lics), Checksums: []common.Checksum{{Algorithm: common.SHA1, Value: hexsum([]byte(fmt.Sprintf("%020d", r.N(1000))))}}})
	}
	change := func(p *v2_3.Package) {
		f := pick(r, p.Files)
		if r.Chance(0.5) {
			f.LicenseConcluded = pick(r, lics)
		} else {
			f.Checksums[0].Value = hexsum([]byte(fmt.Sprintf("%020d", r.N(1000))))
		}
	}
	packs := []*v2_3.Package{base}
	for i := 0; i < 3; i++ {
		p := cloneT(base)
		change(p)
		packs = append(packs, p)
	}
	for i := 0; i < 3; i++ {
		add("code", "GetVerificationCode", func() string {
			p := pick(r, packs)
			if r.Chance(0.4) {
				change(p)
			}
			var shas []string
			excl := ""
			if r.Chance(0.3) {
				excl = pick(r, p.Files).FileName
			}
			for _, f := range p.Files {
				if f.FileName != excl {
					shas = append(shas, f.Checksums[0].Value)
				}
			}
			got, err := utils.GetVerificationCode(p.Files, excl)
			if err != nil {
				return err.Error()
			}
			if got.Value != refCode(shas) {
				return fmt.Sprintf("code %s, want %s of %v", got.Value, refCode(shas), shas)
			}
			if want := []string{excl}; excl == "" && len(got.ExcludedFiles) != 0 || excl != "" && fmt.Sprint(got.ExcludedFiles) != fmt.Sprint(want) {
				return fmt.Sprintf("excluded files %q, want %q", got.ExcludedFiles, excl)
			}
			keep("GetVerificationCode", &got)
			return ""
		})
		add("diff", "licensediff", func() string {
			p, q := pick(r, packs), pick(r, packs)
			if r.Chance(0.4) {
				change(p)
			}
			pairs, err := licensediff.MakePairs(p, q)
			if err != nil {
				return err.Error()
			}
			if len(pairs) != len(p.Files) {
				return fmt.Sprintf("%d pairs for %d names", len(pairs), len(p.Files))
			}
			for i, f := range p.Files {
				if w := (licensediff.LicensePair{First: f.LicenseConcluded, Second: q.Files[i].LicenseConcluded}); pairs[f.FileName] != w {
					return fmt.Sprintf("pair %+v for %s, want %+v", pairs[f.FileName], f.FileName, w)
				}
			}
			res, err := licensediff.MakeResults(pairs)
			if err != nil {
				return err.Error()
			}
			n := 0
			for name, w := range pairs {
				if w.First == w.Second {
					n++
					if l, ok := res.InBothSame[name]; !ok || l != w.First {
						return fmt.Sprintf("%s is missing from those that are the same: %+v", name, *res)
					}
				}
			}
			if len(res.InBothSame) != n || len(res.InBothSame)+len(res.InBothChanged)+len(res.InFirstOnly)+len(res.InSecondOnly) != len(pairs) {
				return fmt.Sprintf("results %+v for pairs %+v", *res, pairs)
			}
			keep("MakeResults", res)
			return ""
		})
		add("broken", "reporter.Generate to a sink that fails", func() string {
			p := cloneT(pick(r, packs))
			p.FilesAnalyzed = r.Chance(0.7)
			_ = reporter.Generate(p, &faultWriter{left: r.N(200)})
			return ""
		})
		add("report", "reporter.Generate", func() string {
			p := pick(r, packs)
			if r.Chance(0.4) {
				change(p)
			}
			var buf bytes.Buffer
			if err := reporter.Generate(p, &buf); err != nil {
				return err.Error()
			}
			msg, _, _, _, _ := checkReport(p, buf.String())
			return msg
		})
	}
	for i := 0; i < 4; i++ {
		d := clone(pick(r, all))
		add("described", "GetDescribedPackageIDs", func() string {
			if r.Chance(0.5) && len(d.Packages) > 0 {
				d.Relationships = append(d.Relationships[:len(d.Relationships):len(d.Relationships)], &v2_3.Relationship{Relationship: common.TypeRelationshipDescribe,
					RefA: common.DocElementID{ElementRefID: "DOCUMENT"}, RefB: common.DocElementID{ElementRefID: pick(r, d.Packages).PackageSPDXIdentifier}})
			}
			want := refDescribed(d)
			got, err := spdxlib.GetDescribedPackageIDs(d)
			if (err != nil) != (len(want) == 0) {
				return fmt.Sprintf("error %v, described %v", err, want)
			}
			if len(want) > 0 && fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("%v, want %v", got, want)
			}
			return ""
		})
		v := clone(d)
		v.Relationships = []*v2_3.Relationship{{RefA: common.DocElementID{ElementRefID: "DOCUMENT"}, RefB: common.DocElementID{SpecialID: "NONE"}, Relationship: "OTHER"}}
		add("validate", "ValidateDocument", func() string {
			bad := r.Chance(0.5)
			v.Relationships[0].RefB = common.DocElementID{ElementRefID: "DOCUMENT"}
			if bad {
				v.Relationships[0].RefB.ElementRefID = "no-such-element"
			}
			if err := spdxlib.ValidateDocument(v); (err != nil) != bad {
				return fmt.Sprintf("%v, dangling: %v", err, bad)
			}
			return ""
		})
	}
	add("example", "the examples", func() string {
		a, b := ex22.Copy(), ex23.Copy()
		if df := diffFlat(flatten(a), example22); df != "" {
			return df
		}
		if df := diffFlat(flatten(b), example23); df != "" {
			return df
		}
		scramble(reflect.ValueOf(&a))
		scramble(reflect.ValueOf(&b))
		return ""
	})
}

var example22, example23 = flatten(ex22.Copy()), flatten(ex23.Copy())

// memoTree adds walks, hashes, builds and searches of one directory whose files are edited between calls, keeping
// their sizes and times.
func memoTree(c *Case, add func(kind, name string, f func() string), keep func(string, any)) string {
	r := c.R
	root, err := os.MkdirTemp(c.ctx.Scratch, "memo")
	if err != nil {
		c.ctx.harnessError("%v", err)
		return ""
	}
	stamp := time.Unix(1500000000+int64(r.N(1e6)), 0)
	ids := []string{"MIT", "ISC", "X11", "TCL"}
	names := []string{"/a", "/b", "/d/a", "/d/c"}
	content := map[string]string{}
	put := func(n, id string) {
		content[n] = fmt.Sprintf("// SPDX-License-Identifier: %s\n%03d\n", id, r.N(1000))
		p := filepath.Join(root, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(content[n]), 0o644); err != nil {
			c.ctx.harnessError("%v", err)
		}
		_ = os.Chtimes(p, stamp, stamp)
	}
	drop := func(n string) {
		delete(content, n)
		_ = os.Remove(filepath.Join(root, n))
	}
	put("/a", "MIT")
	edit := func() {
		if r.Chance(0.5) {
			n := pick(r, names)
			if _, ok := content[n]; ok && len(content) > 1 && r.Chance(0.2) {
				drop(n)
			} else {
				put(n, pick(r, ids))
			}
			c.Count("file_edits")
		}
	}
	listed := func(skip string) []treeFile {
		var fs []treeFile
		for _, n := range names {
			if t, ok := content[n]; ok && n != skip {
				fs = append(fs, treeFile{Rel: n, Content: []byte(t)})
			}
		}
		return fs
	}
	ignore := func() (string, []string) {
		if r.Chance(0.3) {
			n := pick(r, names)
			return n, []string{n}
		}
		return "", nil
	}
	for i := 0; i < 3; i++ {
		add("broken", "operations on what is no directory", func() string {
			_, _, _, _ = utils.GetHashesForFilePath(root)
			_, _ = utils.GetAllFilePaths(root+"/nothing here", nil)
			_, _ = builder.Build("p", root+"/nothing here", &builder.Config{})
			_, _ = idsearcher.BuildIDsDocument("p", root+"/nothing here", &idsearcher.Config{})
			_, _ = utils.GetVerificationCode([]*v2_3.File{nil}, "")
			return ""
		})
		add("hash", "GetHashesForFilePath", func() string {
			edit()
			f := pick(r, listed(""))
			a, b, m, err := utils.GetHashesForFilePath(filepath.Join(root, f.Rel))
			wa, wb, wm := refDigests(f.Content)
			if err != nil || a != wa || b != wb || m != wm {
				return fmt.Sprintf("%s: %s %s %s %v, want %s %s %s", f.Rel, a, b, m, err, wa, wb, wm)
			}
			return ""
		})
		add("walk", "GetAllFilePaths", func() string {
			edit()
			skip, pats := ignore()
			got, err := utils.GetAllFilePaths(root, pats)
			var want []string
			for _, f := range listed(skip) {
				want = append(want, f.Rel)
			}
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("%v %v, want %v", got, err, want)
			}
			for i := range got {
				got[i] += "#"
			}
			return ""
		})
		add("build", "builder.Build", func() string {
			edit()
			skip, pats := ignore()
			name := pick(r, []string{"p", "q"})
			typ := pick(r, []string{"Person", "Tool"})
			who := pick(r, []string{"x", "y"})
			date := pick(r, []string{"2020-01-01T00:00:00Z", "2021-01-01T00:00:00Z"})
			pre := pick(r, []string{"https://example.com/", "https://example.org/"})
			got, err := builder.Build(name, root, &builder.Config{NamespacePrefix: pre, CreatorType: typ, Creator: who, PathsIgnored: pats, TestValues: map[string]string{"Created": date}})
			if err != nil {
				return err.Error()
			}
			w := refBuilt(name, listed(skip))
			w.CreationInfo = &v2_3.CreationInfo{Creators: []common.Creator{{CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/builder"}, {CreatorType: typ, Creator: who}}}
			if df := sameBuilt(got, w, pre, date, time.Time{}, time.Time{}); df != "" {
				return df
			}
			keep("builder.Build", got)
			return ""
		})
		add("search", "BuildIDsDocument", func() string {
			edit()
			skip, pats := ignore()
			fs := listed("")
			got, err := idsearcher.BuildIDsDocument("p", root, &idsearcher.Config{NamespacePrefix: "https://example.com/", SearcherPathsIgnored: pats})
			if err != nil {
				return err.Error()
			}
			if len(got.Packages) != 1 || len(got.Packages[0].Files) != len(fs) {
				return fmt.Sprintf("%d packages, want 1 with %d files", len(got.Packages), len(fs))
			}
			for i, f := range got.Packages[0].Files {
				want := strings.Fields(string(fs[i].Content))[2]
				if fs[i].Rel == skip {
					want = "NOASSERTION"
				}
				if f.FileName != "."+fs[i].Rel && f.FileName != fs[i].Rel || f.LicenseConcluded != want || fmt.Sprint(f.LicenseInfoInFiles) != fmt.Sprint([]string{want}) {
					return fmt.Sprintf("file %d is %s with %s %v, want %s with %s", i, f.FileName, f.LicenseConcluded, f.LicenseInfoInFiles, fs[i].Rel, want)
				}
			}
			keep("BuildIDsDocument", got)
			return ""
		})
	}
	return root
}
