package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/convert"
	sjson "github.com/spdx/tools-golang/json"
	srdf "github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	stv "github.com/spdx/tools-golang/tagvalue"
	syaml "github.com/spdx/tools-golang/yaml"
)

func init() {
	register(&Prop{ID: "C01", Rule: genRule + "; converted by convert.Document for every ordered pair of versions in turn, from pointer or value, and compared with the harness' own field-by-name transfer along the version chain; then converted back", Quick: 8000, Deep: 80000,
		Need: []string{"empty_elements", "converted", "downgrades", "upgrades", "identity", "back_and_forth", "rejected_targets"}, MinSeen: 100, Run: runC01})
	register(&Prop{ID: "C02", Rule: genRule + "; deep snapshots of source and target around conversions and reads: source unchanged, no memory shared when versions differ (every leaf, list and map of the result is overwritten, then the source re-compared), used targets end up equal to fresh ones, two reads of one text share nothing", Quick: 1600, Deep: 60000,
		Need: []string{"source_snapshots", "aliasing_probes", "used_target_reads", "used_target_conversions", "leaves_overwritten"}, MinSeen: 100, Run: runC02})
	register(&Prop{ID: "V01", Rule: genRule + "; every format writes or is spelled at every version and is read with Read and with ReadInto into every version; version strings are then replaced by absent, misspelled, padded, ill-typed and unsupported ones, and targets by non-pointers and foreign types", Quick: 1000, Deep: 40000,
		Need: []string{"read_current", "read_into", "bad_version_rejected", "bad_target_rejected", "rdf_reads"}, MinSeen: 50, Run: runV01})
	register(&Prop{ID: "X01", Rule: genRule + " limited to what all formats carry; driven through random sequences of 2 to 6 hops (write and read in JSON, YAML or tag-value, up-and-down version conversion), compared field by field after each hop", Quick: 4000, Deep: 40000,
		Need: []string{"hops_json", "hops_yaml", "hops_tv", "hops_convert", "chains"}, MinSeen: 100, Run: runX01})
	register(&Prop{ID: "W01", Rule: genRule + ", including values and combinations no format can carry; deep snapshot before each write, compared after it; each document is written again after other documents, and as a deep copy with maps rebuilt in another order, and the bytes compared", Quick: 2000, Deep: 40000,
		Need: []string{"writes_json", "writes_yaml", "writes_tv", "determinism_pairs", "multi_snippet_docs", "unsorted_docs"}, MinSeen: 100, Run: runW01})
	register(&Prop{ID: "F01", Rule: genRule + "; every writer is run against sinks that fail at each of many byte offsets (all offsets of small outputs), every reader against sources that fail at each of many offsets, and every reader against random chunkings including empty reads and data-with-EOF", Quick: 600, Deep: 8000,
		Need: []string{"write_faults", "read_faults", "chunkings", "report_faults", "faults_at_0", "faults_at_last_byte"}, MinSeen: 100, Run: runF01})
}

// refConvert moves the abstract document along the chain of models from version a to version b.
func refConvert(d *v2_3.Document, a, b int) *v2_3.Document {
	cur := up(down(d, a))
	for v := a; v != b; {
		if v < b {
			v++
		} else {
			v--
		}
		cur = up(down(cur, v))
	}
	if a != b {
		cur.SPDXVersion = verString(b)
	}
	return cur
}

func anyArg(r *R, doc any) any {
	if r.Chance(0.5) {
		return deref(doc)
	}
	return doc
}

func runC01(c *Case) {
	a, b := 1+c.Idx%3, 1+(c.Idx/3)%3
	g := newGen(c, a, "mem")
	d := g.doc()
	if c.R.Chance(0.3) {
		c.CountN("empty_elements", addEmpties(c.R, reflect.ValueOf(d)))
	}
	src := down(d, a)
	if c.R.Chance(0.1) { // the string is the caller's: conversion must state the target's version
		reflect.ValueOf(src).Elem().FieldByName("SPDXVersion").SetString(pick(c.R, []string{"", "SPDX-9.9", "x"}))
	}
	snap := up(src)
	dst := newDoc(b)
	c.Stage(fmt.Sprintf("convert.Document %d->%d", a, b))
	if err := convert.Document(anyArg(c.R, src), dst); err != nil {
		c.Violationf("convert.Document from %s to %s failed: %v", verString(a), verString(b), err)
		return
	}
	want := down(refConvert(snap, a, b), b)
	if df := diff(dst, want); df != "" {
		c.Violationf("convert.Document from %s to %s: %s", verString(a), verString(b), df)
		return
	}
	if at := nilElement(reflect.ValueOf(dst), "document"); at != "" {
		c.Violationf("convert.Document from %s to %s made a nil element of %s", verString(a), verString(b), at)
		return
	}
	c.Count("converted")
	switch {
	case a < b:
		c.Count("upgrades")
		back := newDoc(a)
		if err := convert.Document(dst, back); err != nil {
			c.Violationf("converting %s to %s and back failed: %v", verString(a), verString(b), err)
			return
		}
		w := up(src)
		w.SPDXVersion = verString(a)
		if df := diff(back, down(w, a)); df != "" {
			c.Violationf("converting %s to %s and back changed the document: %s", verString(a), verString(b), df)
			return
		}
		c.Count("back_and_forth")
	case a > b:
		c.Count("downgrades")
	default:
		c.Count("identity")
	}
	noteDoc(c, d, a, b)
	// targets and sources that cannot work must say so
	if err := convert.Document(src, deref(newDoc(b))); err == nil {
		c.Violationf("convert.Document into a non-pointer %s document returned no error", verString(b))
		return
	}
	if err := convert.Document(src, &struct{ Foo string }{}); err == nil {
		c.Violationf("convert.Document into a type that is no document returned no error")
		return
	}
	if err := convert.Document(struct{ Foo string }{"x"}, newDoc(b)); err == nil {
		c.Violationf("convert.Document from a type that is no document returned no error")
		return
	}
	c.CountN("rejected_targets", 3)
	c.Sample(map[string]any{"from": verString(a), "to": verString(b), "fields": len(flatten(dst))})
}

// addEmpties puts elements without any content into some lists of a document.
func addEmpties(r *R, v reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			n += addEmpties(r, v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += addEmpties(r, v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += addEmpties(r, v.Index(i))
		}
		t := v.Type().Elem()
		if v.CanSet() && r.Chance(0.1) && (t.Kind() == reflect.Struct || t.Kind() == reflect.Ptr) {
			e := reflect.New(t).Elem()
			if t.Kind() == reflect.Ptr {
				e.Set(reflect.New(t.Elem()))
			}
			l := reflect.Append(v, e)
			k := r.N(l.Len())
			x := l.Index(k).Interface()
			l.Index(k).Set(e)
			l.Index(l.Len() - 1).Set(reflect.ValueOf(x))
			v.Set(l)
			n++
		}
	}
	return n
}

// nilElement returns where a list of the value has a nil element, or "".
func nilElement(v reflect.Value, path string) string {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return nilElement(v.Elem(), path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if at := nilElement(v.Field(i), path+"."+v.Type().Field(i).Name); at != "" {
				return at
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.Kind() == reflect.Ptr && e.IsNil() {
				return path
			}
			if at := nilElement(v.Index(i), path+"[]"); at != "" {
				return at
			}
		}
	}
	return ""
}

// scramble overwrites every settable leaf, list element and map entry reachable from v.
func scramble(v reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			n += scramble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n += scramble(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += scramble(v.Index(i))
		}
		if v.Len() > 1 {
			x, y := reflect.New(v.Type().Elem()).Elem(), v.Index(v.Len()-1)
			x.Set(v.Index(0))
			v.Index(0).Set(y)
			y.Set(x)
			n++
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			n += scramble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			n++
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "#scrambled")
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() + 7777)
			n++
		}
	}
	return n
}

type format struct {
	Name  string
	F     string // generator
	Write func(doc any, w io.Writer) error
	Into  func(r io.Reader, doc any) error
	Read  func(r io.Reader) (*v2_3.Document, error)
}

var jsonF = format{"json", "json", func(d any, w io.Writer) error { return sjson.Write(d, w) }, func(r io.Reader, d any) error { return sjson.ReadInto(r, d) }, sjson.Read}
var yamlF = format{"yaml", "yaml", func(d any, w io.Writer) error { return syaml.Write(d, w) }, func(r io.Reader, d any) error { return syaml.ReadInto(r, d) }, syaml.Read}
var tvF = format{"tagvalue", "tv", func(d any, w io.Writer) error { return stv.Write(d, w) }, func(r io.Reader, d any) error { return stv.ReadInto(r, d) }, stv.Read}
var rdfF = format{"rdf", "rdf", func(d any, w io.Writer) error {
	u := up(d)
	v := 3
	if u.SPDXVersion == "SPDX-2.2" {
		v = 2
	}
	_, err := io.WriteString(w, rdfPlain(u, v))
	return err
}, func(r io.Reader, d any) error { return srdf.ReadInto(r, d) }, srdf.Read}

var writable = []format{jsonF, yamlF, tvF}
var allFormats = []format{jsonF, yamlF, tvF, rdfF}

func runC02(c *Case) {
	r := c.R
	a, b := 1+c.Idx%3, 1+(c.Idx/3)%3
	g := newGen(c, a, "mem")
	d := g.doc()
	src := down(d, a)
	snap := reflect.ValueOf(cloneAny(src))
	dst := newDoc(b)
	if err := convert.Document(anyArg(r, src), dst); err != nil {
		c.Violationf("convert.Document from %s to %s failed: %v", verString(a), verString(b), err)
		return
	}
	c.Count("source_snapshots")
	if df := diff(src, snap.Interface()); df != "" {
		c.Violationf("convert.Document from %s to %s changed its source: %s", verString(a), verString(b), df)
		return
	}
	// a used target
	used := down(newGen(c, b, "mem").doc(), b)
	if err := convert.Document(src, used); err != nil {
		c.Violationf("convert.Document into a used target failed: %v", err)
		return
	}
	if df := diff(used, dst); df != "" {
		c.Violationf("convert.Document from %s into a used %s document leaves or loses something: %s", verString(a), verString(b), df)
		return
	}
	c.Count("used_target_conversions")
	if a != b {
		c.CountN("leaves_overwritten", scramble(reflect.ValueOf(dst).Elem()))
		if df := diff(src, snap.Interface()); df != "" {
			c.Violationf("overwriting the %s result of convert.Document shows through its %s source: %s", verString(b), verString(a), df)
			return
		}
		if diff(dst, used) == "" {
			c.Violationf("harness: scrambling changed nothing")
			return
		}
		c.Count("aliasing_probes")
	}
	// readers
	f := allFormats[(c.Idx/9)%4]
	fv := a
	if f.Name == "rdf" && fv == 1 {
		fv = 2
	}
	fd := newGen(c, fv, f.F).doc()
	var buf bytes.Buffer
	if err := f.Write(down(fd, fv), &buf); err != nil {
		c.Violationf("%s write failed: %v", f.Name, err)
		return
	}
	c.Input(buf.Bytes())
	fresh, reused, second := newDoc(b), down(newGen(c, b, "mem").doc(), b), newDoc(b)
	c.Stage(f.Name + ".ReadInto")
	for i, t := range []any{fresh, reused, second} {
		if err := f.Into(bytes.NewReader(buf.Bytes()), t); err != nil {
			c.Violationf("%s.ReadInto (target %d) failed: %v", f.Name, i, err)
			return
		}
	}
	fs := cloneAny(fresh)
	if df := diffOrdered(f, reused, fresh); df != "" {
		c.Violationf("%s.ReadInto of a %s text into a used %s document differs from one into a fresh document: %s", f.Name, verString(fv), verString(b), df)
		return
	}
	c.Count("used_target_reads")
	c.CountN("leaves_overwritten", scramble(reflect.ValueOf(second).Elem()))
	if df := diff(fresh, fs); df != "" {
		c.Violationf("two documents read by %s.ReadInto share memory: %s", f.Name, df)
		return
	}
	again := newDoc(b)
	if err := f.Into(bytes.NewReader(buf.Bytes()), again); err != nil {
		c.Violationf("%s.ReadInto after overwriting an earlier result failed: %v", f.Name, err)
		return
	}
	if df := diffOrdered(f, again, fs); df != "" {
		c.Violationf("overwriting a document read by %s.ReadInto changes a later read: %s", f.Name, df)
		return
	}
	noteDoc(c, d, a, b, f.Name)
	c.Sample(map[string]any{"from": verString(a), "to": verString(b), "format": f.Name, "bytes": buf.Len()})
}

// diffOrdered compares two reads of one text; RDF texts state no list order.
func diffOrdered(f format, got, want any) string {
	if f.Name == "rdf" {
		return diff(canonRDF(up(got)), canonRDF(up(want)))
	}
	return diff(got, want)
}

func cloneAny(doc any) any {
	n := reflect.New(reflect.TypeOf(doc).Elem())
	transfer(n.Elem(), reflect.ValueOf(doc).Elem())
	return n.Interface()
}

var badVersions = []string{"", "SPDX-2.0", "SPDX-2.4", "SPDX-3.0", "SPDX-1.2", "2.3", "spdx-2.3", "SPDX-2.3.0", "SPDX-2.3 beta", "SPDX2.3", "SPDX-2,3", "SPDX-2.33", "SPDX-", "SPDX-2", "null", "SPDX-2.3SPDX-2.2"}

func runV01(c *Case) {
	r := c.R
	f := allFormats[c.Idx%4]
	v := 1 + (c.Idx/4)%3
	if f.Name == "rdf" && v == 1 {
		v = 2
	}
	g := newGen(c, v, f.F)
	d := g.doc()
	var buf bytes.Buffer
	if err := f.Write(down(d, v), &buf); err != nil {
		c.Violationf("%s write failed: %v", f.Name, err)
		return
	}
	if f.Name == "rdf" {
		c.Count("rdf_reads")
	}
	c.Input(buf.Bytes())
	own := newDoc(v)
	c.Stage(f.Name + ".ReadInto own version")
	if err := f.Into(bytes.NewReader(buf.Bytes()), own); err != nil {
		c.Violationf("%s.ReadInto of a %s text failed: %v", f.Name, verString(v), err)
		return
	}
	ownU := up(own)
	if ownU.SPDXVersion != verString(v) {
		c.Violationf("%s.ReadInto of a %s text gives a document saying %q", f.Name, verString(v), ownU.SPDXVersion)
		return
	}
	cur, err := f.Read(bytes.NewReader(buf.Bytes()))
	if err != nil || cur == nil {
		c.Violationf("%s.Read of a %s text failed: %v", f.Name, verString(v), err)
		return
	}
	if df := diffOrdered(f, cur, refConvert(ownU, v, 3)); df != "" {
		c.Violationf("%s.Read of a %s text is not its document in the current version: %s", f.Name, verString(v), df)
		return
	}
	if cur.SPDXVersion != "SPDX-2.3" {
		c.Violationf("%s.Read gives a document saying %q", f.Name, cur.SPDXVersion)
		return
	}
	c.Count("read_current")
	for b := 1; b <= 3; b++ {
		t := newDoc(b)
		if err := f.Into(bytes.NewReader(buf.Bytes()), t); err != nil {
			c.Violationf("%s.ReadInto of a %s text into a %s document failed: %v", f.Name, verString(v), verString(b), err)
			return
		}
		if df := diffOrdered(f, t, down(refConvert(ownU, v, b), b)); df != "" {
			c.Violationf("%s.ReadInto of a %s text into a %s document: %s", f.Name, verString(v), verString(b), df)
			return
		}
		c.Count("read_into")
		c.Distinct("format_version_target", f.Name, v, b)
	}
	noteDoc(c, d, v, f.Name)
	// declared versions no reader supports
	txt := buf.String()
	bad := pick(r, badVersions)
	if r.Chance(0.3) { // a supported version with something before or behind it
		bad = pick(r, []string{"", "", "", "v", "SPDX-", "SPDX-2.", "x", "0"}) + verString(r.In(1, 3)) + pick(r, []string{"", ".0", ".1", ".2", ".3", "-rc1", "-1", "+", "_", "x", "0", "1", ".", " (final)", ", SPDX-2.2", "/2.3"})
		for k := 1; k <= 3; k++ {
			if bad == verString(k) {
				bad += ".1"
			}
		}
	} else if r.Chance(0.4) { // a one-character change
		s := []byte(verString(v))
		i := r.N(len(s))
		nc := byte(' ' + 1 + r.N(90))
		for nc == s[i] || nc == '<' || nc == '&' || nc == '"' || nc == '\\' || nc == ':' || nc == '\'' || nc == '#' || nc == '{' || nc == '-' {
			nc = byte(' ' + 1 + r.N(90))
		}
		s[i] = nc
		bad = string(s)
		for k := 1; k <= 3; k++ {
			if bad == verString(k) {
				bad = "SPDX-2.x"
			}
		}
		if f.Name == "rdf" && bad == "SPDX-2.1" {
			bad = "SPDX-2.x"
		}
	}
	mut := mutVersion(r, f, txt, v, bad)
	if mut != "" {
		c.Input([]byte(mut))
		for b := 1; b <= 3; b++ {
			t := newDoc(b)
			if err := f.Into(strings.NewReader(mut), t); err == nil {
				c.Violationf("%s.ReadInto accepts a text whose version is %q (target %s)", f.Name, bad, verString(b))
				return
			}
		}
		if _, err := f.Read(strings.NewReader(mut)); err == nil {
			c.Violationf("%s.Read accepts a text whose version is %q", f.Name, bad)
			return
		}
		c.Count("bad_version_rejected")
		c.Distinct("bad_versions", f.Name, bad)
	}
	// RDF knows 2.2 and 2.3 only
	if f.Name == "rdf" {
		m := mutVersion(r, f, txt, v, "SPDX-2.1")
		if err := f.Into(strings.NewReader(m), newDoc(3)); err == nil {
			c.Violationf("rdf.ReadInto accepts SPDX-2.1, which it does not support")
			return
		}
	}
	c.Input(buf.Bytes())
	targets := []any{v2_1.Document{}, v2_2.Document{}, v2_3.Document{}, "text", 5, struct{}{}, &struct{ X int }{}, new(string), map[string]any{}}
	t := pick(r, targets)
	if err := f.Into(strings.NewReader(txt), t); err == nil {
		c.Violationf("%s.ReadInto accepts a target of type %T", f.Name, t)
		return
	}
	c.Count("bad_target_rejected")
	c.Distinct("bad_targets", f.Name, fmt.Sprintf("%T", t))
}

// mutVersion replaces the declared version of a text written by the library (or drops it).
func mutVersion(r *R, f format, txt string, v int, bad string) string {
	good := verString(v)
	var old, neu string
	switch f.Name {
	case "json":
		old = `"spdxVersion":"` + good + `"`
		switch r.N(5) {
		case 0:
			neu = `"spdxVersion":` + pick(r, []string{"null", "2.3", "true", `["` + good + `"]`, `{"v":"` + good + `"}`})
		case 1:
			neu = pick(r, []string{`"SPDXversion":"` + bad + `"`, `"spdxversion_":"` + good + `"`, `"x":"` + good + `"`})
		default:
			neu = `"spdxVersion":"` + bad + `"`
		}
	case "yaml":
		old = "spdxVersion: " + good + "\n"
		switch r.N(5) {
		case 0:
			neu = "spdxVersion: " + pick(r, []string{"null", "2.3", "true", "[" + good + "]", "{v: 1}"}) + "\n"
		case 1:
			neu = "x: " + good + "\n"
		default:
			neu = "spdxVersion: \"" + bad + "\"\n"
		}
	case "tagvalue":
		old = "SPDXVersion: " + good + "\n"
		neu = pick(r, []string{"SPDXVersion: " + bad + "\n", "SPDXVersion:" + bad + "\n", "", "#SPDXVersion: " + good + "\n"})
	case "rdf":
		old = "<spdx:specVersion>" + good + "</spdx:specVersion>"
		neu = pick(r, []string{"<spdx:specVersion>" + bad + "</spdx:specVersion>", "", "<spdx:version>" + good + "</spdx:version>"})
		if bad == "SPDX-2.1" {
			neu = "<spdx:specVersion>SPDX-2.1</spdx:specVersion>"
		}
	}
	if f.Name == "yaml" { // only the member of the document stands at the start of a line
		txt, old, neu = "\n"+txt, "\n"+old, "\n"+neu
	}
	if !strings.Contains(txt, old) {
		panic("harness: version not found in " + f.Name)
	}
	return strings.Replace(txt, old, neu, 1)
}

func runX01(c *Case) {
	r := c.R
	v := caseVersion(c)
	g := newGen(c, v, "common")
	d := g.doc()
	want := commonDoc(d, v)
	cur := down(want, v)
	n := r.In(2, 6)
	var path []string
	for i := 0; i < n; i++ {
		h := r.N(4)
		if h == 3 {
			if v == 3 {
				h = r.N(3)
			} else {
				via := newDoc(r.In(v+1, 3))
				if err := convert.Document(anyArg(r, cur), via); err != nil {
					c.Violationf("after %v: conversion failed: %v", path, err)
					return
				}
				next := newDoc(v)
				if err := convert.Document(via, next); err != nil {
					c.Violationf("after %v: conversion back failed: %v", path, err)
					return
				}
				cur = next
				path = append(path, "convert")
				c.Count("hops_convert")
			}
		}
		if h < 3 {
			f := writable[h]
			var buf bytes.Buffer
			if err := f.Write(anyArg(r, cur), &buf); err != nil {
				c.Violationf("after %v: %s write failed: %v", path, f.Name, err)
				return
			}
			next := newDoc(v)
			if err := f.Into(bytes.NewReader(buf.Bytes()), next); err != nil {
				c.Input(buf.Bytes())
				c.Violationf("after %v: %s read failed: %v", path, f.Name, err)
				return
			}
			cur = next
			c.Input(buf.Bytes())
			path = append(path, f.Name)
			c.Count("hops_" + map[int]string{0: "json", 1: "yaml", 2: "tv"}[h])
		}
		if df := diff(normCommon(up(cur)), normCommon(want)); df != "" {
			c.Violationf("a %s document changed over the hops %v: %s", verString(v), path, df)
			return
		}
	}
	c.Count("chains")
	c.Distinct("paths", path)
	noteDoc(c, d, v, path)
	c.Sample(map[string]any{"version": verString(v), "hops": path, "fields": len(flatten(want))})
}

// commonDoc drops from a generated "common" document what one of the formats cannot carry.
func commonDoc(d *v2_3.Document, v int) *v2_3.Document {
	n := clone(d)
	for _, a := range n.Annotations {
		a.AnnotationSPDXIdentifier.ElementRefID = ""
		a.AnnotationSPDXIdentifier.DocumentRefID = ""
	}
	for _, p := range n.Packages {
		p.IsFilesAnalyzedTagPresent = false
		// JSON keeps files at document level: packaged files do not survive a common chain
		p.Files = nil
	}
	return n
}

func normCommon(d *v2_3.Document) *v2_3.Document {
	n := clone(d)
	for _, p := range n.Packages {
		p.IsFilesAnalyzedTagPresent = false
	}
	return n
}

func runW01(c *Case) {
	r := c.R
	v := caseVersion(c)
	g := newGen(c, v, "mem")
	d := g.doc()
	nfile := 0
	for _, f := range d.Files {
		if len(f.Snippets) > 1 {
			nfile++
		}
	}
	for _, p := range d.Packages {
		for _, f := range p.Files {
			if len(f.Snippets) > 1 {
				nfile++
			}
		}
	}
	if nfile > 0 {
		c.Count("multi_snippet_docs")
	}
	if diff(sortedCopy(d), d) != "" {
		c.Count("unsorted_docs")
	}
	if r.Chance(0.05) { // something no format takes: an error is fine, a changed document is not
		switch r.N(4) {
		case 0:
			d.CreationInfo = nil
		case 1:
			if len(d.Packages) > 0 && d.Packages[0].PackageSupplier != nil {
				d.Packages[0].PackageSupplier.SupplierType = ""
			}
		case 2:
			d.Relationships = append(d.Relationships, &v2_3.Relationship{})
		case 3:
			if d.CreationInfo != nil && len(d.CreationInfo.Creators) > 0 {
				d.CreationInfo.Creators[0].Creator = ""
			}
		}
	}
	first := map[string][]byte{}
	firstErr := map[string]bool{}
	for round := 0; round < 2; round++ {
		for _, f := range writable {
			doc := down(d, v)
			before := cloneAny(doc)
			var in any = doc
			if r.Chance(0.5) {
				in = deref(doc)
			}
			var buf bytes.Buffer
			c.Stage(f.Name + ".Write")
			var werr error
			if !c.guard(f.Name+".Write", func() { werr = f.Write(in, &buf) }) {
				return
			}
			after, want := up(doc), up(before)
			if f.Name == "tagvalue" {
				after, want = sortedCopy(after), sortedCopy(want)
				// element order inside the lists may change, the lists' members may not
			}
			if df := diff(after, want); df != "" {
				c.Violationf("%s.Write of a %s document changed the document: %s", f.Name, verString(v), df)
				return
			}
			c.Count("writes_" + map[string]string{"json": "json", "yaml": "yaml", "tagvalue": "tv"}[f.Name])
			if werr != nil {
				c.Count("write_errors")
			}
			if round == 0 {
				first[f.Name], firstErr[f.Name] = bytes.Clone(buf.Bytes()), werr != nil
				continue
			}
			if firstErr[f.Name] != (werr != nil) || !bytes.Equal(first[f.Name], buf.Bytes()) {
				c.Input(buf.Bytes())
				c.Violationf("%s.Write of equal %s documents gave different bytes: %s", f.Name, verString(v), firstDiff(first[f.Name], buf.Bytes()))
				return
			}
			c.Count("determinism_pairs")
		}
		// write something else in between
		od := newGen(c, v, "mem").doc()
		for _, f := range writable {
			_ = f.Write(down(od, v), io.Discard)
		}
	}
	noteDoc(c, d, v)
	c.Sample(map[string]any{"version": verString(v), "json_bytes": len(first["json"]), "tv_bytes": len(first["tagvalue"])})
}

func sortedCopy(d *v2_3.Document) *v2_3.Document {
	n := clone(d)
	sortDoc(n)
	return n
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-30)
	return fmt.Sprintf("at byte %d: %q vs %q", i, clip(string(a[lo:]), 80), clip(string(b[lo:]), 80))
}

// ---- F01

var errInjected = errors.New("injected fault")

type faultWriter struct {
	left  int
	hits  int
	short bool // accept part of a write before failing
	once  bool // fail one write only, then take everything
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.once && w.hits > 0 {
		return len(p), nil
	}
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := 0
	if w.short {
		n = w.left
	}
	w.left = 0
	w.hits++
	return n, errInjected
}

type faultReader struct {
	b    []byte
	at   int // fails once this many bytes were given
	pos  int
	r    *R
	with bool // hand the error out together with the last bytes
	hit  bool
	once bool // fail one read only, then go on with the rest or end
	eof  bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.once && f.hit {
		if f.eof || f.pos >= len(f.b) {
			return 0, io.EOF
		}
		n := copy(p, f.b[f.pos:])
		f.pos += n
		return n, nil
	}
	if f.pos >= f.at {
		f.hit = true
		return 0, errInjected
	}
	n := min(len(p), f.at-f.pos)
	if f.r != nil && n > 1 {
		n = 1 + f.r.N(n)
	}
	copy(p, f.b[f.pos:f.pos+n])
	f.pos += n
	if f.with && f.pos >= f.at {
		f.hit = true
		return n, errInjected
	}
	return n, nil
}

type chunkReader struct {
	b    []byte
	r    *R
	mode int
	zero int
}

func (f *chunkReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	if f.mode == 2 && f.zero < 3 && f.r.Chance(0.3) {
		f.zero++
		return 0, nil
	}
	f.zero = 0
	n := min(len(p), len(f.b))
	switch f.mode {
	case 0:
		n = min(n, 1)
	default:
		n = min(n, 1+f.r.N(700))
	}
	copy(p, f.b[:n])
	f.b = f.b[n:]
	if len(f.b) == 0 && f.mode != 0 && f.r.Chance(0.5) {
		return n, io.EOF
	}
	return n, nil
}

func offsets(r *R, n int, thorough bool) []int {
	var out []int
	budget := 12
	if thorough {
		budget = 40
	}
	if n <= budget {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	out = append(out, 0, 1, n-1, n-2)
	for len(out) < budget {
		out = append(out, r.N(n))
	}
	return out
}

func runF01(c *Case) {
	r := c.R
	v := caseVersion(c)
	for _, f := range allFormats {
		fv := v
		if f.Name == "rdf" && fv == 1 {
			fv = 2
		}
		g := newGen(c, fv, f.F)
		g.Big = false
		d := g.doc()
		doc := down(d, fv)
		var buf bytes.Buffer
		if err := f.Write(doc, &buf); err != nil {
			c.Violationf("%s write failed: %v", f.Name, err)
			return
		}
		b := buf.Bytes()
		c.Input(b)
		if f.Name != "rdf" {
			for _, at := range offsets(r, len(b), c.Thorough()) {
				w := &faultWriter{left: at, short: r.Chance(0.5), once: r.Chance(0.4)}
				c.Stage(fmt.Sprintf("%s.Write, sink fails at byte %d", f.Name, at))
				err := f.Write(doc, w)
				if w.hits == 0 {
					c.Violationf("%s.Write wrote only %d of %d bytes on a second run", f.Name, at, len(b))
					return
				}
				if err == nil {
					c.Violationf("%s.Write to a sink that fails at byte %d of %d returned no error", f.Name, at, len(b))
					return
				}
				c.Count("write_faults")
				if w.once {
					c.Count("write_faults_once")
				}
				if at == 0 {
					c.Count("faults_at_0")
				}
				if at == len(b)-1 {
					c.Count("faults_at_last_byte")
				}
				c.Distinct("write_fault_points", f.Name, at)
			}
		}
		want := newDoc(fv)
		if err := f.Into(bytes.NewReader(b), want); err != nil {
			c.Violationf("%s.ReadInto failed: %v", f.Name, err)
			return
		}
		for _, at := range append(offsets(r, len(b), c.Thorough()), len(b)) {
			s := &faultReader{b: b, at: at, with: r.Chance(0.3), once: r.Chance(0.4), eof: r.Chance(0.5)}
			if r.Chance(0.5) {
				s.r = r
			}
			c.Stage(fmt.Sprintf("%s.ReadInto, source fails at byte %d", f.Name, at))
			var err error
			if r.Chance(0.7) {
				err = f.Into(s, newDoc(fv))
			} else {
				_, err = f.Read(s)
			}
			if !s.hit { // the reader may stop before the end only when it reports an error
				if err == nil {
					c.Violationf("%s reader returned a document without reading to the end of its source", f.Name)
					return
				}
				continue
			}
			if err == nil {
				c.Violationf("%s reader over a source that fails at byte %d of %d returned no error", f.Name, at, len(b))
				return
			}
			c.Count("read_faults")
			if s.once {
				c.Count("read_faults_once")
			}
			c.Distinct("read_fault_points", f.Name, at)
		}
		for mode := 0; mode < 3; mode++ {
			if mode == 0 && len(b) > 20000 {
				continue
			}
			got := newDoc(fv)
			c.Stage(f.Name + ".ReadInto chunked")
			if err := f.Into(&chunkReader{b: b, r: r, mode: mode}, got); err != nil {
				c.Violationf("%s.ReadInto over a chunked source failed: %v", f.Name, err)
				return
			}
			if df := diffOrdered(f, got, want); df != "" {
				c.Violationf("%s.ReadInto depends on how its source splits the bytes: %s", f.Name, df)
				return
			}
			c.Count("chunkings")
		}
		c.Seen(shape(d), f.Name, fv, len(b))
		c.Sample(map[string]any{"format": f.Name, "version": verString(fv), "bytes": len(b)})
	}
	reportFaults(c)
}
