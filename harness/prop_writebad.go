package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/convert"
	sjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	stv "github.com/spdx/tools-golang/tagvalue"
	syaml "github.com/spdx/tools-golang/yaml"
	"sigs.k8s.io/yaml"
)

func init() {
	need := []string{"controls_written", "any_bytes_roundtrips", "json_refused", "yaml_refused", "foreign_refused", "foreign_long_text", "no_creation_info_refused", "pointer_depths"}
	for _, k := range writeFaults {
		need = append(need, "fault:"+k)
	}
	register(&Prop{ID: "W02", Rule: genRule + "; one value of the document is made inexpressible (an agent without type or name, a relationship end naming nothing, no creation information), or a text is filled with arbitrary bytes, or a value that is no document at all (strings, structures, lists, maps, pointers, of lengths around every limit, ASCII or not) is handed to tagvalue.Write; the writers must return an error without writing a byte, or a single well-formed text; distinct classes at which members the faults were", Quick: 9000, Deep: 150000,
		Need: need, MinSeen: 60, Run: runW02})
}

var writeFaults = []string{"supplier without type", "supplier without name", "originator without type", "originator without name", "creator without name", "annotator without name", "relationship end without element"}

// place is a value of a document reached by walking it.
type place struct {
	path string
	v    reflect.Value
}

// places returns every addressable value the JSON forms of the document hold, with its field path.
func places(v reflect.Value, path string, out *[]place) {
	if v.CanAddr() {
		*out = append(*out, place{path, v})
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			places(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && !strings.HasPrefix(f.Tag.Get("json"), "-") {
				places(v.Field(i), path+"."+f.Name, out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			places(v.Index(i), path+"[]", out)
		}
	}
}

func (c *Case) placeOf(doc any, ok func(place) bool) *place {
	var l, m []place
	places(reflect.ValueOf(doc), "", &l)
	var kinds []string
	seen := map[string]bool{}
	for _, p := range l {
		if ok(p) {
			m = append(m, p)
			if !seen[p.path] {
				seen[p.path] = true
				kinds = append(kinds, p.path)
			}
		}
	}
	if len(m) == 0 {
		return nil
	}
	k := pick(c.R, kinds)
	l = nil
	for _, p := range m {
		if p.path == k {
			l = append(l, p)
		}
	}
	p := pick(c.R, l)
	return &p
}

func typeIs[T any](p place) bool { return p.v.Type() == reflect.TypeFor[T]() }

// breakDoc makes one value of the document inexpressible in JSON and YAML.
func breakDoc(c *Case, doc any, fault string) *place {
	r := c.R
	name := pick(r, []string{"x", "Jane Doe (jane@example.com)", "noassertion", "NOASSERTION ", "NONE", "Person: x", "é"})
	typ := pick(r, []string{"Person", "Organization", "Tool", "NOASSERTION", "x"})
	switch fault {
	case "supplier without type", "supplier without name":
		p := c.placeOf(doc, typeIs[*common.Supplier])
		if p != nil {
			s := &common.Supplier{Supplier: name}
			if fault == "supplier without name" {
				s = &common.Supplier{SupplierType: pick(r, []string{typ, ""})}
			}
			p.v.Set(reflect.ValueOf(s))
		}
		return p
	case "originator without type", "originator without name":
		p := c.placeOf(doc, typeIs[*common.Originator])
		if p != nil {
			s := &common.Originator{Originator: name}
			if fault == "originator without name" {
				s = &common.Originator{OriginatorType: pick(r, []string{typ, ""})}
			}
			p.v.Set(reflect.ValueOf(s))
		}
		return p
	case "creator without name":
		p := c.placeOf(doc, typeIs[common.Creator])
		if p != nil {
			p.v.Set(reflect.ValueOf(common.Creator{CreatorType: pick(r, []string{typ, ""})}))
		}
		return p
	case "annotator without name":
		p := c.placeOf(doc, typeIs[common.Annotator])
		if p != nil {
			p.v.Set(reflect.ValueOf(common.Annotator{AnnotatorType: pick(r, []string{typ, ""})}))
		}
		return p
	case "relationship end without element":
		p := c.placeOf(doc, func(p place) bool {
			return typeIs[common.DocElementID](p) && (strings.HasSuffix(p.path, "RefA") || strings.HasSuffix(p.path, "RefB"))
		})
		if p != nil {
			d := common.DocElementID{}
			if r.Chance(0.4) { // a document is no element
				d.DocumentRefID = "ext"
			}
			p.v.Set(reflect.ValueOf(d))
		}
		return p
	}
	return nil
}

// oneText checks that out is a single well-formed JSON or YAML text.
func oneText(lib string, out []byte) error {
	if lib == "json" {
		dec := json.NewDecoder(bytes.NewReader(out))
		var v any
		if err := dec.Decode(&v); err != nil {
			return err
		}
		if _, ok := v.(map[string]any); !ok {
			return fmt.Errorf("no object")
		}
		if _, err := dec.Token(); err != io.EOF {
			return fmt.Errorf("more than one text")
		}
		return nil
	}
	var v map[string]any
	return yaml.UnmarshalStrict(out, &v)
}

func runW02(c *Case) {
	r := c.R
	switch c.Idx % 4 {
	case 0:
		w02Foreign(c)
		return
	case 1:
		if r.Chance(0.5) {
			w02NoCreation(c)
			return
		}
	}
	v := caseVersion(c)
	doc := down(newGen(c, v, "yaml").doc(), v)
	writers := []struct {
		lib   string
		write func(any, io.Writer) error
		read  func(io.Reader, any) error
	}{
		{"json", func(d any, w io.Writer) error { return sjson.Write(d, w) }, func(s io.Reader, d any) error { return sjson.ReadInto(s, d) }},
		{"json", func(d any, w io.Writer) error { return sjson.Write(d, w, sjson.Indent("  "), sjson.EscapeHTML(false)) }, func(s io.Reader, d any) error { return sjson.ReadInto(s, d) }},
		{"yaml", func(d any, w io.Writer) error { return syaml.Write(d, w) }, func(s io.Reader, d any) error { return syaml.ReadInto(s, d) }},
	}
	if r.Chance(0.3) { // any bytes in the texts: still one text, every byte that is no UTF-8 replaced
		anyText := func(p place) bool {
			return p.v.Kind() == reflect.String && (strings.HasSuffix(p.path, "Comment") || strings.HasSuffix(p.path, "Comments") || strings.HasSuffix(p.path, "Text") || strings.HasSuffix(p.path, "Notice") || strings.HasSuffix(p.path, "Summary") || strings.HasSuffix(p.path, "Description"))
		}
		n := 0
		for i := r.In(1, 4); i > 0; i-- {
			p := c.placeOf(doc, anyText)
			if p == nil {
				break
			}
			b := []byte(p.v.String())
			for j := r.In(1, 12); j > 0; j-- {
				k := r.N(len(b) + 1)
				x := pick(r, []string{string([]byte{byte(r.N(256))}), "\xc3", "\x00", "\u2028", "\x1b", "\xed\xa0\x80", "\xff\xfe", "\ufeff", "\U0010ffff", "\x7f", "\u0085", "\\u00e9", "\r", "\t"})
				b = append(b[:k:k], append([]byte(x), b[k:]...)...)
			}
			p.v.SetString(string(b))
			n++
		}
		if n == 0 {
			return
		}
		want := down(afterJSON(up(doc), v), v)
		var l []place
		places(reflect.ValueOf(want), "", &l)
		for _, p := range l {
			if anyText(p) {
				p.v.SetString(string([]rune(p.v.String())))
			}
		}
		for _, w := range writers {
			var buf bytes.Buffer
			c.Stage(w.lib + ".Write any bytes")
			err := w.write(doc, &buf)
			if err != nil {
				c.Violationf("%s.Write of a %s document with arbitrary bytes in its texts failed: %v", w.lib, verString(v), err)
				return
			}
			c.Input(buf.Bytes())
			if err := oneText(w.lib, buf.Bytes()); err != nil {
				c.Violationf("%s.Write of a %s document with arbitrary bytes in its texts wrote no well-formed text: %v", w.lib, verString(v), err)
				return
			}
			target := newDoc(v)
			if err := w.read(bytes.NewReader(buf.Bytes()), target); err != nil {
				c.Violationf("%s.ReadInto rejects what %s.Write wrote: %v", w.lib, w.lib, err)
				return
			}
			if df := diff(target, want); df != "" {
				c.Violationf("%s round trip of a %s document with arbitrary bytes in its texts: %s", w.lib, verString(v), df)
				return
			}
			c.Count("any_bytes_roundtrips")
		}
		return
	}
	fault := writeFaults[(c.Idx/4*3+c.Idx%4)%len(writeFaults)]
	if r.Chance(0.2) { // undamaged
		for _, w := range writers {
			var buf bytes.Buffer
			if err := w.write(doc, &buf); err != nil {
				c.Violationf("%s.Write of a valid %s document failed: %v", w.lib, verString(v), err)
				return
			}
			if err := oneText(w.lib, buf.Bytes()); err != nil {
				c.Input(buf.Bytes())
				c.Violationf("%s.Write of a valid %s document wrote no well-formed text: %v", w.lib, verString(v), err)
				return
			}
		}
		c.Count("controls_written")
	}
	p := breakDoc(c, doc, fault)
	if p == nil {
		c.Count("fault_not_applicable")
		return
	}
	before := cloneAny(doc)
	for _, w := range writers {
		var in any = doc
		if r.Chance(0.3) {
			in = deref(doc)
		}
		var buf bytes.Buffer
		c.Stage(w.lib + ".Write " + fault)
		err := w.write(in, &buf)
		c.Input(buf.Bytes())
		if err == nil {
			c.Violationf("%s.Write accepts a %s document with a %s at %s: %s", w.lib, verString(v), fault, p.path, clip(buf.String(), 300))
			return
		}
		if buf.Len() > 0 {
			c.Violationf("%s.Write of a %s document with a %s at %s returned %v but wrote %q", w.lib, verString(v), fault, p.path, err, clip(buf.String(), 300))
			return
		}
		if df := diff(doc, before); df != "" {
			c.Violationf("%s.Write refused a %s document with a %s at %s but changed it: %s", w.lib, verString(v), fault, p.path, df)
			return
		}
		c.Count(w.lib + "_refused")
	}
	c.Count("fault:" + fault)
	c.Seen(fault, p.path, v)
	c.Distinct("fault places", fault, p.path)
	c.Sample(map[string]any{"fault": fault, "at": p.path, "version": verString(v)})
}

func w02NoCreation(c *Case) {
	r := c.R
	v := caseVersion(c)
	doc := down(newGen(c, v, "tv").doc(), v)
	depth := r.N(4)
	wrap := func() any {
		switch depth {
		case 0:
			return deref(doc)
		case 1:
			return doc
		case 2:
			p := reflect.New(reflect.TypeOf(doc))
			p.Elem().Set(reflect.ValueOf(doc))
			return p.Interface()
		}
		p := reflect.New(reflect.TypeOf(doc))
		p.Elem().Set(reflect.ValueOf(doc))
		q := reflect.New(p.Type())
		q.Elem().Set(p)
		return q.Interface()
	}
	var plain, buf bytes.Buffer
	if err := stv.Write(doc, &plain); err != nil {
		c.Violationf("tagvalue.Write of a valid %s document failed: %v", verString(v), err)
		return
	}
	c.Stage("tagvalue.Write through pointers")
	if err := stv.Write(wrap(), &buf); err != nil || !bytes.Equal(buf.Bytes(), plain.Bytes()) {
		c.Violationf("tagvalue.Write of a %s document behind %d pointers: error %v, output %s", verString(v), depth, err, map[bool]string{true: "the same", false: "another"}[bytes.Equal(buf.Bytes(), plain.Bytes())])
		return
	}
	c.Count("pointer_depths")
	switch d := doc.(type) {
	case *v2_1.Document:
		d.CreationInfo = nil
	case *v2_2.Document:
		d.CreationInfo = nil
	case *v2_3.Document:
		d.CreationInfo = nil
	}
	before := cloneAny(doc)
	buf.Reset()
	c.Stage("tagvalue.Write without creation information")
	err := stv.Write(wrap(), &buf)
	if err == nil {
		c.Violationf("tagvalue.Write accepts a %s document without creation information and writes %q", verString(v), clip(buf.String(), 300))
		return
	}
	if buf.Len() > 0 {
		c.Violationf("tagvalue.Write of a %s document without creation information returned %v but wrote %q", verString(v), err, clip(buf.String(), 300))
		return
	}
	if df := diff(doc, before); df != "" {
		c.Violationf("tagvalue.Write refused a %s document without creation information but changed it: %s", verString(v), df)
		return
	}
	c.Count("no_creation_info_refused")
	c.Seen("no creation info", v, depth)
}

type foreign struct {
	S            string
	N            int
	L            []string
	M            map[string]string
	P            *foreign
	CreationInfo *v2_3.CreationInfo
}

func w02Foreign(c *Case) {
	r := c.R
	n := r.N(400)
	if r.Chance(0.6) {
		n = 280 + r.N(45)
	}
	unit := pick(r, []string{"a", "é", "日", "\U0001f600", "\xff", "e\u0301", "%", "%s", "\n", "{", ""})
	text := strings.Repeat(unit, n)
	if r.Chance(0.3) { // a mixture
		b := []string{}
		for i := 0; i < n; i++ {
			b = append(b, pick(r, []string{"a", "é", "日", "\U0001f600", "\xff", " "}))
		}
		text = strings.Join(b, "")
	}
	f := foreign{S: text, N: n}
	g := newGen(c, 3, "json")
	d := g.doc()
	var val any
	var kind string
	switch k := r.N(16); k {
	case 0:
		val, kind = f, "struct"
	case 1:
		val, kind = &f, "pointer"
	case 2:
		p := &f
		val, kind = &p, "pointer to pointer"
	case 3:
		val, kind = text, "string"
	case 4:
		val, kind = &text, "string pointer"
	case 5:
		val, kind = []string{text, text}, "list"
	case 6:
		val, kind = map[string]string{"x": text, text: "y"}, "map"
	case 7:
		val, kind = n, "number"
	case 8:
		val, kind = struct{}{}, "empty"
	case 9:
		val, kind = common.Supplier{Supplier: text, SupplierType: "Person"}, "supplier"
	case 10:
		if len(d.Packages) == 0 {
			return
		}
		d.Packages[0].PackageName = text
		val, kind = d.Packages[0], "package"
	case 11:
		val, kind = []*v2_3.Document{d}, "list of documents"
	case 12:
		val, kind = map[string]any{"doc": d}, "map of documents"
	case 13:
		type Document v2_3.Document // another type of the same name and shape
		val, kind = Document(*d), "lookalike"
	case 14:
		val, kind = struct{ v2_3.Document }{*d}, "embedding"
	case 15:
		f.P = &foreign{S: text}
		f.L = []string{text}
		f.M = map[string]string{text: text}
		val, kind = &f, "nested"
	}
	var buf bytes.Buffer
	c.Stage("tagvalue.Write of a " + kind)
	c.Input([]byte(text))
	err := stv.Write(val, &buf)
	if err == nil {
		c.Violationf("tagvalue.Write of a value that is no document (%s) returned no error and wrote %q", kind, clip(buf.String(), 300))
		return
	}
	if buf.Len() > 0 {
		c.Violationf("tagvalue.Write of a value that is no document (%s) returned %v but wrote %q", kind, err, clip(buf.String(), 300))
		return
	}
	if len(text) > 300 {
		c.Count("foreign_long_text")
	}
	// the converter refuses such values too
	tv := caseVersion(c)
	target := newDoc(tv)
	reflect.ValueOf(target).Elem().FieldByName("DocumentName").SetString("kept")
	before := cloneAny(target)
	c.Stage("convert.Document of a " + kind)
	if err := convert.Document(val, target); err == nil {
		c.Violationf("convert.Document of a value that is no document (%s) into a %s document returned no error", kind, verString(tv))
		return
	}
	if df := diff(target, before); df != "" {
		c.Violationf("convert.Document of a value that is no document (%s) returned an error but changed the target: %s", kind, df)
		return
	}
	c.Count("foreign_refused")
	c.Seen("foreign", kind, min(len(text)/50, 10))
}
