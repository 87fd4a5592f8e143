package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// The abstract document of the harness is a v2_3.Document (the widest model). transfer copies between the
// versioned models field by field, by name: it is written here, independently of the convert package.

func transfer(dst, src reflect.Value) {
	if !src.IsValid() {
		return
	}
	switch {
	case src.Kind() == reflect.Ptr && dst.Kind() == reflect.Ptr:
		if src.IsNil() {
			return
		}
		n := reflect.New(dst.Type().Elem())
		transfer(n.Elem(), src.Elem())
		dst.Set(n)
	case src.Kind() == reflect.Ptr:
		if !src.IsNil() {
			transfer(dst, src.Elem())
		}
	case dst.Kind() == reflect.Ptr:
		if src.IsZero() {
			return
		}
		n := reflect.New(dst.Type().Elem())
		transfer(n.Elem(), src)
		dst.Set(n)
	case src.Kind() == reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			f := src.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			d := dst.FieldByName(f.Name)
			if d.IsValid() && d.CanSet() {
				transfer(d, src.Field(i))
			}
		}
	case src.Kind() == reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(dst.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			transfer(n.Index(i), src.Index(i))
		}
		dst.Set(n)
	case src.Kind() == reflect.Map:
		if src.IsNil() {
			return
		}
		n := reflect.MakeMap(dst.Type())
		for _, k := range src.MapKeys() {
			nk := reflect.New(dst.Type().Key()).Elem()
			nv := reflect.New(dst.Type().Elem()).Elem()
			transfer(nk, k)
			transfer(nv, src.MapIndex(k))
			n.SetMapIndex(nk, nv)
		}
		dst.Set(n)
	default:
		dst.Set(src.Convert(dst.Type()))
	}
}

func clone(d *v2_3.Document) *v2_3.Document {
	n := &v2_3.Document{}
	transfer(reflect.ValueOf(n).Elem(), reflect.ValueOf(d).Elem())
	return n
}

func cloneT[T any](d *T) *T {
	n := new(T)
	transfer(reflect.ValueOf(n).Elem(), reflect.ValueOf(d).Elem())
	return n
}

// down gives the document in the model of version v (1, 2 or 3) as a pointer.
func down(d *v2_3.Document, v int) any {
	n := newDoc(v)
	transfer(reflect.ValueOf(n).Elem(), reflect.ValueOf(d).Elem())
	return n
}

// up gives any versioned document pointer in the abstract model.
func up(d any) *v2_3.Document {
	n := &v2_3.Document{}
	transfer(reflect.ValueOf(n).Elem(), reflect.Indirect(reflect.ValueOf(d)))
	return n
}

func newDoc(v int) any {
	switch v {
	case 1:
		return &v2_1.Document{}
	case 2:
		return &v2_2.Document{}
	}
	return &v2_3.Document{}
}

func deref(d any) any { return reflect.ValueOf(d).Elem().Interface() }

func verString(v int) string { return fmt.Sprintf("SPDX-2.%d", v) }

// flatten renders any value as path -> leaf. Zero leaves, nil and empty containers, and pointers to zero values do
// not appear, so "absent" and "empty" are one; slices record their length, so a lost element of zeros is visible.
func flatten(v any) map[string]string {
	m := map[string]string{}
	flat(reflect.ValueOf(v), "", m)
	return m
}

func flat(v reflect.Value, path string, m map[string]string) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			flat(v.Elem(), path, m)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() {
				flat(v.Field(i), path+"."+f.Name, m)
			}
		}
	case reflect.Slice:
		if v.Len() > 0 {
			m[path+"#"] = fmt.Sprint(v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			flat(e, fmt.Sprintf("%s[%d]", path, i), m)
			if e.Kind() == reflect.Ptr && e.IsNil() {
				m[fmt.Sprintf("%s[%d]", path, i)] = "<nil>"
			}
		}
	case reflect.Map:
		if v.Len() > 0 {
			m[path+"#"] = fmt.Sprint(v.Len())
		}
		for _, k := range v.MapKeys() {
			flat(v.MapIndex(k), fmt.Sprintf("%s{%v}", path, k), m)
		}
	case reflect.String:
		if v.Len() > 0 {
			m[path] = fmt.Sprintf("%q", v.String())
		}
	case reflect.Bool:
		if v.Bool() {
			m[path] = "true"
		}
	default:
		if !v.IsZero() {
			m[path] = fmt.Sprint(v.Interface())
		}
	}
}

// diff compares two values by their flattened form and describes the first few differences ("" when equal).
func diff(got, want any) string { return diffFlat(flatten(got), flatten(want)) }

func diffFlat(g, w map[string]string) string {
	var out []string
	keys := map[string]bool{}
	for k := range g {
		keys[k] = true
	}
	for k := range w {
		keys[k] = true
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if g[k] != w[k] {
			gs, ws := g[k], w[k]
			if gs == "" {
				gs = "(absent)"
			}
			if ws == "" {
				ws = "(absent)"
			}
			out = append(out, fmt.Sprintf("%s: got %s, want %s", k, clip(gs, 200), clip(ws, 200)))
			if len(out) == 5 {
				break
			}
		}
	}
	return strings.Join(out, "; ")
}

// shape is the set of populated paths, indexes erased: a structural signature of a document.
func shape(v any) string {
	m := flatten(v)
	set := map[string]int{}
	for k := range m {
		b := strings.Builder{}
		skip := false
		for _, r := range k {
			if r == '[' || r == '{' {
				skip = true
			}
			if !skip {
				b.WriteRune(r)
			}
			if r == ']' || r == '}' {
				skip = false
			}
		}
		set[b.String()]++
	}
	var sb strings.Builder
	for _, k := range sortedKeys(set) {
		n := set[k]
		if n > 3 {
			n = 4
		}
		fmt.Fprintf(&sb, "%s*%d;", k, n)
	}
	return sb.String()
}

var algos21 = []common.ChecksumAlgorithm{common.SHA1, common.SHA256, common.MD5}
var algos22 = append(append([]common.ChecksumAlgorithm{}, algos21...), common.SHA224, common.SHA384, common.SHA512, common.MD2, common.MD4, common.MD6)
var algos23 = append(append([]common.ChecksumAlgorithm{}, algos22...), "SHA3-256", "SHA3-384", "SHA3-512", "BLAKE2b-256", "BLAKE2b-384", "BLAKE2b-512", "BLAKE3", "ADLER32")

func algos(v int) []common.ChecksumAlgorithm {
	switch v {
	case 1:
		return algos21
	case 2:
		return algos22
	}
	return algos23
}
