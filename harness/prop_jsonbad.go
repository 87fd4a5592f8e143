package main

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	sjson "github.com/spdx/tools-golang/json"
	syaml "github.com/spdx/tools-golang/yaml"
	"sigs.k8s.io/yaml"
)

func init() {
	need := []string{"controls_accepted", "json_rejected", "yaml_rejected"}
	for _, f := range jsonFaults {
		need = append(need, "fault:"+f.name)
	}
	register(&Prop{ID: "J05", Rule: genRule + "; the document's member tree, which the reader must accept, gets one fault of a listed kind at a random place (or its text gets one), is spelled as JSON and as YAML, and must be rejected by ReadInto, with the target left as it was, and by Read; counters show how often each kind was hit, distinct classes at which members", Quick: 7000, Deep: 120000,
		Need: need, MinSeen: 300, Run: runJ05})
}

// member is a place of a tree that holds a value.
type member struct {
	path string // without list indices
	key  string // the member name, also for the elements of its list
	list bool   // an element of a list
	val  any
	set  func(any)
}

func memberSlots(v any, path, key string, out *[]member) {
	switch t := v.(type) {
	case obj:
		for _, k := range sortedKeys(t) {
			*out = append(*out, member{path + "." + k, k, false, t[k], func(n any) { t[k] = n }})
			memberSlots(t[k], path+"."+k, k, out)
		}
	case []any:
		for i := range t {
			*out = append(*out, member{path + "[]", key, true, t[i], func(n any) { t[i] = n }})
			memberSlots(t[i], path+"[]", key, out)
		}
	}
}

// badTree is a member tree about to get a fault.
type badTree struct {
	r        *R
	v        int
	root     any
	slots    []member
	where    string
	jsonText func(string) string // a fault of the JSON text
	yamlText func(string) string // a fault of the YAML text
	noYAML   bool                // the fault is none in YAML
	noJSON   bool
}

func (b *badTree) at(ok func(member) bool) *member {
	var l []member
	for _, s := range b.slots {
		if ok(s) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return nil
	}
	// any kind of place is as likely as any other
	var kinds []string
	for _, s := range l {
		if !slices.Contains(kinds, s.path) {
			kinds = append(kinds, s.path)
		}
	}
	k := pick(b.r, kinds)
	l = slices.DeleteFunc(l, func(s member) bool { return s.path != k })
	s := pick(b.r, l)
	b.where = s.path
	return &s
}

func (b *badTree) keys(ks ...string) *member {
	return b.at(func(s member) bool {
		_, str := s.val.(string)
		return str && slices.Contains(ks, s.key)
	})
}

func (b *badTree) put(s *member, vals ...any) bool {
	if s == nil {
		return false
	}
	v := pick(b.r, vals)
	s.set(v)
	b.where += fmt.Sprintf(" = %v", v)
	return true
}

type jsonFault struct {
	name string
	do   func(b *badTree) bool
}

var badElems = []any{"", "Package-1", "SPDXRef-", "spdxref-a", "SPDXRefa", " SPDXRef-a", "SPDXREF-a", "DocumentRef-a:SPDXRef-b", "NONE"}
var badRefs = []any{"", "x", "SPDXRef-", "spdxref-a", "DocumentRef-", "DocumentRef-:SPDXRef-a", "DocumentRef-a:", "DocumentRef-a:x", "DocumentRef-a:NONE", "DocumentRef-a:SPDXRef-", "None", "noassertion", "NONE ", "documentref-a:SPDXRef-b"}

// structural returns the positions of the brackets, commas and colons of a JSON text, and those just inside strings.
func structural(s string) (marks, inside []int) {
	in := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case in && c == '\\':
			i++
		case c == '"':
			in = !in
			if in {
				inside = append(inside, i+1)
			}
		case !in && strings.IndexByte("{}[]:,", c) >= 0:
			marks = append(marks, i)
		}
	}
	return
}

var jsonFaults = []jsonFault{
	{"text-has-other-type", func(b *badTree) bool {
		s := b.at(func(s member) bool { _, ok := s.val.(string); return ok && s.key != "spdxVersion" })
		vals := []any{obj{}, []any{}, []any{"x"}, obj{"value": "x"}}
		if b.r.Chance(0.5) {
			vals = []any{true, false, 0.0, 12.0, 1.5}
			b.noYAML = b.v == 1 // where YAML numbers and booleans are taken as text
		}
		return b.put(s, vals...)
	}},
	{"number-has-other-type", func(b *badTree) bool {
		return b.put(b.at(func(s member) bool { _, ok := s.val.(float64); return ok }), "1", "", "x", true, 1.5, 1e30, obj{}, []any{}, []any{1.0})
	}},
	{"boolean-has-other-type", func(b *badTree) bool {
		return b.put(b.at(func(s member) bool { _, ok := s.val.(bool); return ok }), "true", "false", "", "yes", 1.0, 0.0, obj{}, []any{}, []any{true})
	}},
	{"list-has-other-type", func(b *badTree) bool {
		return b.put(b.at(func(s member) bool { _, ok := s.val.([]any); return ok }), "x", "", 12.0, true, obj{}, obj{"0": "x"})
	}},
	{"object-has-other-type", func(b *badTree) bool {
		return b.put(b.at(func(s member) bool { _, ok := s.val.(obj); return ok }), "x", "", 12.0, true, []any{}, []any{"x"}, []any{obj{}})
	}},
	{"element-identifier", func(b *badTree) bool {
		return b.put(b.keys("SPDXID", "snippetFromFile", "reference"), badElems...)
	}},
	{"document-reference", func(b *badTree) bool {
		return b.put(b.keys("externalDocumentId"), "", "ext", "DocumentRef-", "documentref-a", "SPDXRef-a", "DocumentRefa", " DocumentRef-a", "NONE")
	}},
	{"relationship-end", func(b *badTree) bool {
		return b.put(b.keys("spdxElementId", "relatedSpdxElement"), badRefs...)
	}},
	{"shorthand-element", func(b *badTree) bool {
		if b.v < 2 { // the shorthand lists came with 2.2
			return false
		}
		o := b.root.(obj)
		k := "documentDescribes"
		ps, _ := o["packages"].([]any)
		if len(ps) > 0 && b.r.Chance(0.6) {
			o, k = pick(b.r, ps).(obj), "hasFiles"
		}
		var l []any
		for i := b.r.N(3); i > 0; i-- {
			l = append(l, "SPDXRef-a"+fmt.Sprint(i))
		}
		bad := pick(b.r, append([]any{12.0, true, obj{}, []any{"SPDXRef-a"}}, badRefs...))
		l = slices.Insert(l, b.r.N(len(l)+1), bad)
		o[k] = l
		if b.r.Chance(0.1) {
			o[k] = pick(b.r, []any{"SPDXRef-a", 12.0, obj{"SPDXRef-a": "SPDXRef-b"}})
		}
		b.where = fmt.Sprintf("%s = %v", k, bad)
		return true
	}},
	{"creator", func(b *badTree) bool { return b.put(b.keys("creators"), "", "x", "NOASSERTION", "Person x", "NONE") }},
	{"annotator", func(b *badTree) bool {
		return b.put(b.keys("annotator"), "", "x", "NOASSERTION", "Person x", "NONE")
	}},
	{"supplier", func(b *badTree) bool {
		return b.put(b.keys("supplier"), "", "x", "NONE", "Person x", "noassertion", "NOASSERTION ")
	}},
	{"originator", func(b *badTree) bool {
		return b.put(b.keys("originator"), "", "x", "NONE", "Person x", "noassertion", "NOASSERTION ")
	}},
	{"version", func(b *badTree) bool {
		o := b.root.(obj)
		switch b.r.N(3) {
		case 0:
			delete(o, "spdxVersion")
			b.where = "no version"
		case 1:
			o[pick(b.r, []string{"SPDXVersion", "spdxversion", "SpdxVersion", "specVersion", "spdxVersion "})] = o["spdxVersion"]
			delete(o, "spdxVersion")
			b.where = "version misspelled"
		default:
			o["spdxVersion"] = pick(b.r, []any{"", nil, 2.3, "2.3", "SPDX-2.0", "SPDX-2.4", "SPDX-3.0", "spdx-2.3", "SPDX-2.3 ", "SPDX-2", "SPDX-2.30", true, []any{"SPDX-2.3"}, obj{"SPDX-2.3": "SPDX-2.3"}})
			b.where = fmt.Sprintf("version %v", o["spdxVersion"])
		}
		return true
	}},
	{"top-level", func(b *badTree) bool {
		t := pick(b.r, []any{"x", nil, true, 12.0, []any{}, []any{b.root}, "SPDX-2.3", []any{"spdxVersion", "SPDX-2.3"}})
		b.where = fmt.Sprintf("%T", t)
		b.root = t
		return true
	}},
	{"no-text", func(b *badTree) bool {
		t := pick(b.r, []string{"", " ", "\n", "\n\n \n"})
		b.jsonText = func(string) string { return t }
		b.yamlText = func(string) string {
			return pick(b.r, []string{"", " ", "\n", "# nothing\n", "---\n", "--- # nothing\n...\n"})
		}
		return true
	}},
	{"json-truncated", func(b *badTree) bool {
		b.noYAML = true
		b.jsonText = func(s string) string {
			s = strings.TrimRight(s, " \t\r\n")
			return s[:b.r.N(len(s))]
		}
		return true
	}},
	{"json-trailing", func(b *badTree) bool {
		b.noYAML = true
		b.jsonText = func(s string) string {
			return s + pick(b.r, []string{"x", "}", "{}", "]", ",", "null", s, "//", "\x00", "\"\"", "1"})
		}
		return true
	}},
	{"json-structure", func(b *badTree) bool {
		b.noYAML = true
		b.jsonText = func(s string) string {
			marks, _ := structural(s)
			i := pick(b.r, marks)
			switch b.r.N(3) {
			case 0: // lost
				b.where = "lost " + s[i:i+1]
				return s[:i] + s[i+1:]
			case 1: // doubled
				b.where = "doubled " + s[i:i+1]
				return s[:i] + s[i:i+1] + s[i:]
			default: // another one
				o := pick(b.r, strings.Split(strings.ReplaceAll("{}[]:,;=", s[i:i+1], ""), ""))
				b.where = s[i:i+1] + " became " + o
				return s[:i] + o + s[i+1:]
			}
		}
		return true
	}},
	{"json-string", func(b *badTree) bool {
		b.noYAML = true
		b.jsonText = func(s string) string {
			_, in := structural(s)
			i := pick(b.r, in)
			x := pick(b.r, []string{"\n", "\t", "\x01", "\x00", "\x1f", `\q`, `\x41`, `\u12G4`, `\u 123`, `\'`, `\U00000041`, "\r\n"})
			b.where = fmt.Sprintf("%q", x)
			return s[:i] + x + s[i:]
		}
		return true
	}},
	{"json-value", func(b *badTree) bool {
		b.noYAML = true
		b.jsonText = func(s string) string {
			i := strings.IndexByte(s, '{') + 1
			x := pick(b.r, []string{`"x": NaN`, `"x": 01`, `"x": +1`, `"x": .5`, `"x": 1.`, `"x": 0x10`, `"x": True`, `"x": nul`, `"x": 'a'`, `x: 1`, `'x': 1`, `"x": undefined`, `"x": -`, `"x": 1e`, `"x"`, `"x": `, `"x": [1,]`, `"x": {"y":1,}`, `"x": 1 /* c */`, `1: 2`, `"x": Infinity`, `"x" "y": 1`})
			b.where = x
			return s[:i] + x + "," + s[i:]
		}
		return true
	}},
	{"yaml-syntax", func(b *badTree) bool {
		b.noJSON = true
		b.yamlText = func(s string) string {
			x := pick(b.r, []string{"zz: [", "zz: {", "zz: [a", "zz: {a: b", "zz: \"abc", "zz: 'abc", "zz: *nope", "\tzz: a", "zz: ]", "zz: }", "zz: @a", "zz: `a", "zz: a: b", "zz: [a]]", "zz: \"\\q\"", "zz: \x01", "- zz", "zz", "zz: %a", "  zz: a: b", "? [", "zz: \"\\u12G4\"", "zz: !!int abc", "zz: &", "zz: |x\n  a", "zz: a\n b: c"})
			b.where = x
			return s + x + "\n"
		}
		return true
	}},
}

func runJ05(c *Case) {
	r := c.R
	v := caseVersion(c)
	f := jsonFaults[(c.Idx/3)%len(jsonFaults)]
	d := newGen(c, v, "yaml").doc()
	tree := jsonTree(d, v)
	st := newJSONStyle(r)
	if r.Chance(0.3) { // the undamaged document is fine
		txt := newJSONStyle(newR("j05", c.Idx)).text(tree)
		if err := sjson.ReadInto(strings.NewReader(txt), newDoc(v)); err != nil {
			c.Input([]byte(txt))
			c.Violationf("json.ReadInto of a valid %s document failed: %v", verString(v), err)
			return
		}
		y, err := yaml.Marshal(tree)
		if err != nil {
			c.ctx.harnessError("yaml.Marshal: %v", err)
			return
		}
		if err := syaml.ReadInto(strings.NewReader(string(y)), newDoc(v)); err != nil {
			c.Input(y)
			c.Violationf("yaml.ReadInto of a valid %s document failed: %v", verString(v), err)
			return
		}
		c.Count("controls_accepted")
	}
	b := &badTree{r: r, v: v, root: tree, where: "text"}
	memberSlots(tree, "$", "", &b.slots)
	if !f.do(b) {
		c.Count("fault_not_applicable")
		return
	}
	try := func(lib, text string, readInto func(any) error, read func() error) bool {
		c.Input([]byte(text))
		target := down(newGen(c, v, "mem").doc(), v)
		before := cloneAny(target)
		c.Stage(lib + ".ReadInto " + f.name)
		if err := readInto(target); err == nil {
			c.Violationf("%s.ReadInto accepts a %s document with a fault (%s at %s)", lib, verString(v), f.name, b.where)
			return false
		}
		if df := diff(target, before); df != "" {
			c.Violationf("%s.ReadInto of a document with a fault (%s at %s) returned an error but changed the target: %s", lib, f.name, b.where, df)
			return false
		}
		c.Stage(lib + ".Read " + f.name)
		if err := read(); err == nil {
			c.Violationf("%s.Read accepts a %s document with a fault (%s at %s)", lib, verString(v), f.name, b.where)
			return false
		}
		c.Count(lib + "_rejected")
		return true
	}
	var text string
	if !b.noJSON {
		text = st.text(b.root)
		if b.jsonText != nil {
			text = b.jsonText(text)
		}
		if !try("json", text, func(t any) error { return sjson.ReadInto(strings.NewReader(text), t) }, func() error { _, err := sjson.Read(strings.NewReader(text)); return err }) {
			return
		}
	}
	if !b.noYAML {
		var y []byte
		var err error
		if b.jsonText == nil && b.yamlText == nil && r.Chance(0.3) { // flow style
			y = []byte((&jsonStyle{r: r, shuffle: true}).text(b.root))
		} else if y, err = yaml.Marshal(b.root); err != nil {
			c.ctx.harnessError("yaml.Marshal: %v", err)
			return
		}
		yt := string(y)
		if b.yamlText != nil {
			yt = b.yamlText(yt)
		}
		if !try("yaml", yt, func(t any) error { return syaml.ReadInto(strings.NewReader(yt), t) }, func() error { _, err := syaml.Read(strings.NewReader(yt)); return err }) {
			return
		}
		if text == "" {
			text = yt
		}
	}
	c.Count("fault:" + f.name)
	c.Distinct("fault_places", v, f.name, b.where)
	c.Seen(f.name, b.where, v)
	c.Sample(map[string]any{"version": verString(v), "fault": f.name, "where": b.where, "bytes": len(text)})
}

func jsonNumber(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }
