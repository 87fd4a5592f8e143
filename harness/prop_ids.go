package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
)

func init() {
	register(&Prop{ID: "I01", Rule: "random element and document identifiers, combined references, special values, creators, suppliers, originators and annotators with hostile names; marshalled, compared with the spelling SPDX gives, unmarshalled from every JSON spelling of that string; then malformed strings and other JSON types offered to each decoder, the accept/reject decision and the value compared with a model of the grammar; every exported name of the vocabulary (relationship types, reference categories and types, checksum algorithms, versions, data licence) compared with the specification's", Quick: 400000, Deep: 1500000,
		Need: []string{"roundtrips", "decoded", "rejected", "special_values", "escaped_spellings", "vocabulary"}, MinSeen: 1000, Run: runI01})
}

// spellJSON spells s as a JSON string in a random way.
func spellJSON(r *R, s string) (string, bool) {
	esc := false
	var sb strings.Builder
	sb.WriteByte('"')
	p := pick(r, []float64{0, 0.1, 1})
	for _, ch := range s {
		switch {
		case ch == '"' || ch == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(ch)
			esc = true
		case ch < 0x20 || r.Chance(p):
			esc = true
			if ch > 0xffff {
				c := ch - 0x10000
				fmt.Fprintf(&sb, `\u%04x\u%04X`, 0xd800+(c>>10), 0xdc00+(c&0x3ff))
			} else if ch == '/' && r.Chance(0.5) {
				sb.WriteString(`\/`)
			} else {
				fmt.Fprintf(&sb, pick(r, []string{`\u%04x`, `\u%04X`}), ch)
			}
		default:
			sb.WriteRune(ch)
		}
	}
	sb.WriteByte('"')
	return sb.String(), esc
}

func idText(g *Gen) string {
	r := g.R
	switch r.N(8) {
	case 0:
		return pick(r, []string{"NONE", "NOASSERTION", "DOCUMENT", "a", ".", "-", "0"})
	case 1:
		return strings.ReplaceAll(g.rawLine(false), ":", ";")
	case 2: // characters no SPDX identifier has, but a user may put into one
		return g.idstring() + pick(r, []string{"\"", "\\", "é", "日", "<", "&", " ", "/", "'", "\t"}) + g.idstring()
	}
	return g.idstring()
}

type model struct {
	ok  bool
	val any
}

// what each decoder must make of a string
func modelElem(s string) model {
	if t, ok := strings.CutPrefix(s, "SPDXRef-"); ok && t != "" {
		return model{true, common.ElementID(t)}
	}
	return model{}
}
func modelDocID(s string) model {
	if t, ok := strings.CutPrefix(s, "DocumentRef-"); ok && t != "" {
		return model{true, common.DocumentID(t)}
	}
	return model{}
}
func modelRef(s string) (model, bool) {
	if s == "NONE" || s == "NOASSERTION" {
		return model{true, common.DocElementID{SpecialID: s}}, true
	}
	if strings.HasPrefix(s, "DocumentRef-") {
		a, b, colon := strings.Cut(s, ":")
		da := modelDocID(a)
		if !da.ok {
			return model{}, true
		}
		if !colon { // a bare document reference: accepted today, not a complete reference; not judged
			return model{}, false
		}
		eb := modelElem(b)
		if !eb.ok {
			return model{}, true
		}
		return model{true, common.DocElementID{DocumentRefID: da.val.(common.DocumentID), ElementRefID: eb.val.(common.ElementID)}}, true
	}
	e := modelElem(s)
	if !e.ok {
		return model{}, true
	}
	return model{true, common.DocElementID{ElementRefID: e.val.(common.ElementID)}}, true
}

func runI01(c *Case) {
	r := c.R
	g := &Gen{R: r, V: 3, F: "json"}
	if c.Idx < len(vocabulary) {
		if v := vocabulary[c.Idx]; v[0] != v[1] {
			c.Violationf("a name of the specification is exported as %q instead of %q", v[0], v[1])
			return
		}
		c.Count("vocabulary")
	}
	kind := c.Idx % 7
	// forward: value -> text -> value
	var val any
	var text string
	switch kind {
	case 0:
		id := strings.TrimPrefix(idText(g), "SPDXRef-")
		if id == "" {
			id = "x"
		}
		val, text = common.ElementID(id), "SPDXRef-"+id
		if got := common.RenderElementID(common.ElementID(id)); got != text {
			c.Violationf("RenderElementID(%q) = %q", id, got)
			return
		}
	case 1:
		id := strings.TrimPrefix(idText(g), "DocumentRef-")
		if id == "" {
			id = "x"
		}
		val, text = common.DocumentID(id), "DocumentRef-"+id
	case 2:
		ref := common.DocElementID{}
		switch r.N(4) {
		case 0:
			ref.SpecialID = pick(r, []string{"NONE", "NOASSERTION"})
			text = ref.SpecialID
			c.Count("special_values")
			if m := common.MakeDocElementSpecial(ref.SpecialID); m != ref {
				c.Violationf("MakeDocElementSpecial(%q) = %+v", ref.SpecialID, m)
				return
			}
		case 1:
			d := strings.ReplaceAll(strings.TrimPrefix(idText(g), "DocumentRef-"), ":", ".")
			if d == "" {
				d = "d"
			}
			ref.DocumentRefID = common.DocumentID(d)
			text = "DocumentRef-" + d + ":"
			fallthrough
		default:
			e := strings.TrimPrefix(idText(g), "SPDXRef-")
			if e == "" {
				e = "e"
			}
			ref.ElementRefID = common.ElementID(e)
			text += "SPDXRef-" + e
			if m := common.MakeDocElementID(string(ref.DocumentRefID), e); m != ref {
				c.Violationf("MakeDocElementID(%q, %q) = %+v", ref.DocumentRefID, e, m)
				return
			}
		}
		if got := common.RenderDocElementID(ref); got != text {
			c.Violationf("RenderDocElementID(%+v) = %q, want %q", ref, got, text)
			return
		}
		val = ref
	case 3:
		t, n := pick(r, []string{"Person", "Organization", "Tool"}), g.name()
		val, text = common.Creator{CreatorType: t, Creator: n}, t+": "+n
	case 4:
		t, n := pick(r, []string{"Person", "Organization"}), g.name()
		val, text = common.Supplier{SupplierType: t, Supplier: n}, t+": "+n
		if r.Chance(0.2) {
			val, text = common.Supplier{Supplier: "NOASSERTION"}, "NOASSERTION"
			c.Count("special_values")
		}
	case 5:
		t, n := pick(r, []string{"Person", "Organization"}), g.name()
		val, text = common.Originator{OriginatorType: t, Originator: n}, t+": "+n
		if r.Chance(0.2) {
			val, text = common.Originator{Originator: "NOASSERTION"}, "NOASSERTION"
			c.Count("special_values")
		}
	case 6:
		t, n := pick(r, []string{"Person", "Organization", "Tool"}), g.name()
		val, text = common.Annotator{AnnotatorType: t, Annotator: n}, t+": "+n
	}
	c.Input([]byte(text))
	b, err := json.Marshal(val)
	if err != nil {
		c.Violationf("json.Marshal(%T %+v): %v", val, val, err)
		return
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil || s != text {
		c.Violationf("json.Marshal(%T %+v) = %s, want the string %q", val, val, b, text)
		return
	}
	// as a member of a struct and of a list, by value and by pointer
	pv := reflect.New(reflect.TypeOf(val))
	pv.Elem().Set(reflect.ValueOf(val))
	wrap, err := json.Marshal(map[string]any{"v": val, "p": pv.Interface(), "l": []any{val}})
	if err != nil {
		c.Violationf("json.Marshal of %T %+v inside containers: %v", val, val, err)
		return
	}
	var w struct {
		V, P string
		L    []string
	}
	if err := json.Unmarshal(wrap, &w); err != nil || w.V != text || w.P != text || len(w.L) != 1 || w.L[0] != text {
		c.Violationf("json.Marshal of %T %+v inside containers = %s", val, val, wrap)
		return
	}
	sp, esc := spellJSON(r, text)
	if esc {
		c.Count("escaped_spellings")
	}
	// into a new variable, or one that was used before
	back := reflect.New(reflect.TypeOf(val))
	earlier := ""
	if r.Chance(0.5) {
		switch kind {
		case 0:
			earlier = "SPDXRef-earlier"
		case 1:
			earlier = "DocumentRef-earlier"
		case 2:
			earlier = pick(r, []string{"SPDXRef-e1", "DocumentRef-e2:SPDXRef-e3", "NONE", "NOASSERTION"})
		case 4, 5:
			earlier = pick(r, []string{"Person: earlier", "Organization: earlier", "NOASSERTION"})
		default:
			earlier = pick(r, []string{"Person: earlier", "Organization: earlier"})
		}
		if err := json.Unmarshal([]byte(`"`+earlier+`"`), back.Interface()); err != nil {
			c.Violationf("json.Unmarshal(%q) into %T: %v", earlier, val, err)
			return
		}
		c.Count("used_targets")
	}
	if err := json.Unmarshal([]byte(sp), back.Interface()); err != nil {
		c.Violationf("json.Unmarshal(%s) into %T: %v", sp, val, err)
		return
	}
	if back.Elem().Interface() != val {
		c.Violationf("json.Unmarshal(%s) = %#v, want %#v (read before: %q)", sp, back.Elem().Interface(), val, earlier)
		return
	}
	c.Count("roundtrips")
	c.Seen(kind, text)
	c.Sample(map[string]any{"type": fmt.Sprintf("%T", val), "text": text, "json": sp})

	// backward: any string, any JSON value -> decision
	for i := 0; i < 3; i++ {
		str := hostileRef(g)
		sp, _ := spellJSON(r, str)
		decide(c, g, kind, str, sp)
		if c.viol {
			return
		}
	}
	lit := pick(r, []string{"5", "true", "[]", "{}", "1.5", `["SPDXRef-a"]`, `{"SPDXRef":"a"}`, "null"})
	tgt := reflect.New(reflect.TypeOf(val))
	type box struct{ V any }
	if lit != "null" {
		if err := json.Unmarshal([]byte(lit), tgt.Interface()); err == nil {
			c.Violationf("json.Unmarshal(%s) into %T succeeded: %#v", lit, val, tgt.Elem().Interface())
			return
		}
		c.Count("rejected")
	}
}

func hostileRef(g *Gen) string {
	r := g.R
	switch r.N(10) {
	case 0:
		return pick(r, []string{"", " ", ":", "::", "SPDXRef-", "DocumentRef-", "DocumentRef-:", "DocumentRef-a:", "DocumentRef-:SPDXRef-b", "DocumentRef-a:SPDXRef-", "DocumentRef-a:b", "NONE ", "none", "NoAssertion", "SPDXREF-x", "spdxref-x", " SPDXRef-x", "SPDXRef_x", "Person", "Person:", ": x", "NONE", "NOASSERTION", "SPDXRef", "DocumentRef", "SPDXRef-SPDXRef-x", "DocumentRef-a:DocumentRef-b:SPDXRef-c"})
	case 1:
		return "SPDXRef-" + idText(g)
	case 2:
		return "DocumentRef-" + idText(g) + ":SPDXRef-" + idText(g)
	case 3:
		return pick(r, []string{"Person", "Organization", "Tool", "Company", ""}) + pick(r, []string{":", ": ", " : ", ":  ", ""}) + g.rawLine(true)
	case 4:
		return idText(g)
	case 5:
		return "DocumentRef-" + idText(g)
	case 6: // a mutated valid text
		s := []rune(pick(r, []string{"SPDXRef-" + g.idstring(), "DocumentRef-" + g.idstring() + ":SPDXRef-" + g.idstring(), "Person: " + g.name()}))
		i := r.N(len(s))
		if r.Chance(0.5) {
			s = append(s[:i:i], s[i+1:]...)
		} else {
			s[i] = []rune(pick(r, []string{":", "-", "\"", "\\", " ", "S"}))[0]
		}
		return string(s)
	}
	return g.rawLine(true)
}

func decide(c *Case, g *Gen, kind int, str, sp string) {
	var m model
	judged := true
	var tgt any
	switch kind {
	case 0:
		m, tgt = modelElem(str), new(common.ElementID)
	case 1:
		m, tgt = modelDocID(str), new(common.DocumentID)
	case 2:
		m, judged = modelRef(str)
		tgt = new(common.DocElementID)
	default:
		a, b, ok := strings.Cut(str, ":")
		ta, tb := strings.TrimSpace(a), strings.TrimSpace(b)
		m.ok = ok
		switch kind {
		case 3:
			tgt, m.val = new(common.Creator), common.Creator{CreatorType: ta, Creator: tb}
		case 4:
			tgt, m.val = new(common.Supplier), common.Supplier{SupplierType: ta, Supplier: tb}
			if str == "NOASSERTION" {
				m = model{true, common.Supplier{Supplier: str}}
			}
		case 5:
			tgt, m.val = new(common.Originator), common.Originator{OriginatorType: ta, Originator: tb}
			if str == "NOASSERTION" {
				m = model{true, common.Originator{Originator: str}}
			}
			if ok && (a != ta || strings.TrimRight(b, " \t") != b || strings.TrimLeft(b, " \t") != tb) {
				judged = false // blanks around an originator are kept differently; not promised
			}
		case 6:
			tgt, m.val = new(common.Annotator), common.Annotator{AnnotatorType: ta, Annotator: tb}
		}
	}
	c.Input([]byte(sp))
	err := json.Unmarshal([]byte(sp), tgt)
	if !judged {
		return
	}
	if (err == nil) != m.ok {
		c.Violationf("json.Unmarshal(%s) into %T: error %v, but the text is well formed: %v", sp, tgt, err, m.ok)
		return
	}
	if !m.ok {
		c.Count("rejected")
		c.Seen("rej", kind, str)
		return
	}
	if got := reflect.ValueOf(tgt).Elem().Interface(); got != m.val {
		c.Violationf("json.Unmarshal(%s) = %#v, want %#v", sp, got, m.val)
		return
	}
	c.Count("decoded")
	c.Seen("dec", kind, str)
}
