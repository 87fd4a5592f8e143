package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	srdf "github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx/v2/common"
	ex22 "github.com/spdx/tools-golang/spdx/v2/v2_2/example"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	ex23 "github.com/spdx/tools-golang/spdx/v2/v2_3/example"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
)

func init() {
	register(&Prop{ID: "K01", Rule: genRule + "; a pool of operations over them (reads of good and broken texts of every format, writes and conversions of shared documents, tag-value writes of own copies, validations, reports, licence comparisons, verification codes, builds and searches of one shared tree, example copies) is run by several goroutines at once in random orders and, before or after, once alone, in a build with the Go race detector; every result is compared with the one obtained alone; three cases of five are a new process, in which eight goroutines at once make the first call of one kind the process sees", Race: true, Serial: true, Quick: 5 * len(concKinds), Deep: 600,
		Need: []string{"operations", "overlapping_operations", "op_json.Write", "op_yaml.Write", "op_tagvalue.Write", "op_json.Read", "op_yaml.Read", "op_tagvalue.Read", "op_rdf.Read", "op_convert", "op_validate", "op_report", "op_licensediff", "op_code", "op_build", "op_search", "op_example", "op_broken", "op_paths", "at_once_first", "cold_starts"}, MinSeen: 40, Run: runK01})
}

// concRes is all that a caller sees of one operation.
type concRes struct {
	err, text string
	vals      map[string]string
}

func (a concRes) diff(b concRes) string {
	if a.err != b.err {
		return fmt.Sprintf("error %q, alone %q", a.err, b.err)
	}
	if a.text != b.text {
		return "text: " + firstDiff([]byte(a.text), []byte(b.text))
	}
	return diffFlat(a.vals, b.vals)
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

type concOp struct {
	kind string
	name string
	run  func() concRes
}

func wrote(f format, doc any) concRes {
	var buf bytes.Buffer
	err := f.Write(doc, &buf)
	return concRes{err: errText(err), text: buf.String()}
}

// concKinds names the kinds of operations.
var concKinds = []string{"json.Write", "yaml.Write", "tagvalue.Write", "json.Read", "yaml.Read", "tagvalue.Read", "rdf.Read", "convert", "validate", "report", "licensediff", "code", "build", "search", "example", "broken", "paths"}

// coldIn and coldOut are what a case and its cold process tell each other.
type coldIn struct {
	Seed  int64
	Tier  string
	Idx   int
	Kind  string
	Dir   string
	Texts map[string]string
}

type coldOut struct {
	Ops         int
	Name, Wrong string
}

// coldStart has a new process make its first calls of one kind from several goroutines at once.
func coldStart(c *Case, kind string, texts map[string]string) {
	dir, err := os.MkdirTemp(c.ctx.Scratch, "cold")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	in, _ := json.Marshal(coldIn{c.ctx.Seed, c.ctx.Tier, c.Idx, kind, dir, texts})
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "-prop", c.prop.ID, "-cold")
	cmd.Dir, cmd.Stdin = dir, bytes.NewReader(in)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	c.Stage("the first calls of a process: " + kind)
	err = cmd.Run()
	var out coldOut
	switch {
	case ctx.Err() != nil:
		c.Violationf("the first calls of a process (%s) from eight goroutines at once do not return within 90 s", kind)
		return
	case err != nil && (strings.Contains(stderr.String(), "fatal error: ") || strings.Contains(stderr.String(), "panic: ")) && strings.Contains(stderr.String(), "github.com/spdx/"):
		c.Violationf("the first calls of a process (%s) from eight goroutines at once end it: %s", kind, clip(stderr.String(), 2000))
		return
	case err != nil || json.Unmarshal(stdout.Bytes(), &out) != nil:
		panic(fmt.Sprintf("cold process: %v %s %s", err, clip(stderr.String(), 2000), clip(stdout.String(), 200)))
	}
	if out.Wrong != "" {
		c.Violationf("the first calls of a process, from eight goroutines at once: %s", out.Wrong)
		return
	}
	c.Count("cold_starts")
	c.CountN("operations", out.Ops)
	c.Count("cold_" + kind)
	c.Seen("cold", c.Idx, out.Name)
	c.Distinct("first_operations", out.Name)
}

// runCold is the cold process.
func runCold(p *Prop) {
	var in coldIn
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	x := &Ctx{Prop: p, Tier: in.Tier, Seed: in.Seed, counts: map[string]int{}, seenSet: map[string]struct{}{},
		classes: map[string]map[string]struct{}{}, knownHit: map[string]string{}, Scratch: in.Dir}
	c := &Case{prop: p, Idx: in.Idx, R: newR(x.Seed, "|", p.ID, "|", in.Idx), ctx: x, beat: func() {}}
	if in.Texts == nil {
		in.Texts = map[string]string{}
	}
	ops, closeOps := concOps(c, in.Texts, nil)
	defer closeOps()
	var mine []concOp
	for _, o := range ops {
		if o.kind == in.Kind {
			mine = append(mine, o)
		}
	}
	if len(mine) == 0 {
		fmt.Println("{}")
		return
	}
	const workers = 8
	plan := []concOp{pick(c.R, mine), pick(c.R, mine)}
	var results [workers][2]concRes
	var panics [workers]any
	var ready atomic.Int32
	var wg sync.WaitGroup
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[w] = recover() }()
			// nothing but a spin: the goroutines leave it within nanoseconds, with nothing ordered between them
			for ready.Add(1); ready.Load() < workers; {
			}
			for i, o := range plan {
				results[w][i] = o.run()
			}
		}()
	}
	wg.Wait()
	out := coldOut{Ops: 2 * workers, Name: plan[0].name}
	for w := range workers {
		if panics[w] != nil {
			out.Wrong = fmt.Sprintf("%s or %s panics: %v", plan[0].name, plan[1].name, panics[w])
		}
	}
	for i, o := range plan {
		alone := o.run()
		for w := range workers {
			if df := results[w][i].diff(alone); df != "" && out.Wrong == "" {
				out.Wrong = fmt.Sprintf("%s gives another result than alone: %s", o.name, df)
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

const rdfLimit = 6000

// concOps makes the pool of operations. The texts to read come from texts where that is not nil, so that nothing of
// the library has run in this process when the pool is ready; written keeps those made here.
func concOps(c *Case, texts, written map[string]string) (ops []concOp, done func()) {
	r := c.R
	add := func(kind, name string, f func() concRes) { ops = append(ops, concOp{kind, name, f}) }
	var cur []*v2_3.Document // shared documents of the current version
	for _, f := range writable {
		v := r.In(1, 3)
		g := newGen(c, v, f.F)
		d := g.doc()
		shared := down(d, v)
		text, ok := texts[f.Name]
		if texts == nil {
			var buf bytes.Buffer
			c.Stage("a write to prepare")
			if ok = f.Write(cloneAny(shared), &buf) == nil; ok {
				text = buf.String()
				written[f.Name] = text
			}
		}
		if !ok {
			continue
		}
		for i := 0; i < 2; i++ {
			t := r.N(4)
			add(f.Name+".Read", fmt.Sprintf("%s.Read of shared text into %d", f.Name, t), func() concRes {
				if t == 0 {
					got, err := f.Read(strings.NewReader(text))
					return concRes{err: errText(err), vals: flatten(got)}
				}
				got := newDoc(t)
				err := f.Into(strings.NewReader(text), got)
				return concRes{err: errText(err), vals: flatten(got)}
			})
		}
		broken := text
		if n := len(text); n > 0 {
			i := r.N(n)
			broken = text[:i] + pick(r, []string{"", "\x00", "}", "\n:", "SPDXVersion: SPDX-7\n", "</text>", "\""}) + text[min(n, i+r.N(4)):]
		}
		add("broken", f.Name+".Read of a broken text", func() concRes {
			got, err := f.Read(strings.NewReader(broken))
			return concRes{err: errText(err), vals: flatten(got)}
		})
		for _, w := range writable {
			if w.Name == "tagvalue" { // sorts the lists of the document it is given
				add("tagvalue.Write", "tagvalue.Write of an own copy", func() concRes { return wrote(w, cloneAny(shared)) })
			} else {
				add(w.Name+".Write", w.Name+".Write of a shared document", func() concRes { return wrote(w, shared) })
				add(w.Name+".Write", w.Name+".Write of a shared document by value", func() concRes { return wrote(w, deref(shared)) })
			}
		}
		for t := 1; t <= 3; t++ {
			arg := anyArg(r, shared)
			add("convert", fmt.Sprintf("convert.Document of a shared %d to %d", v, t), func() concRes {
				dst := newDoc(t)
				err := convert.Document(arg, dst)
				return concRes{err: errText(err), vals: flatten(dst)}
			})
		}
		cur = append(cur, newGen(c, 3, f.F).doc())
	}
	// gordf takes quadratic time, and the race detector multiplies it
	for try, rdfText := 0, strings.Repeat("x", rdfLimit+1); len(rdfText) > rdfLimit && try < 20; try++ {
		g := newGen(c, 3, "rdf")
		g.Plain = true
		d := g.doc()
		st := randStyle(r)
		st.Labels = true
		rdfText = buildRDF(newR("graph", r.Uint64()), d).write(st)
		if len(rdfText) > rdfLimit {
			continue
		}
		for t := 2; t <= 3; t++ {
			add("rdf.Read", "rdf.ReadInto of shared text", func() concRes {
				got := newDoc(t)
				err := srdf.ReadInto(strings.NewReader(rdfText), got)
				return concRes{err: errText(err), vals: flatten(canonRDF(up(got)))}
			})
		}
	}
	rd := newGen(c, 3, "mem").doc()
	for _, p := range rd.Packages {
		rd.Relationships = append(rd.Relationships, &v2_3.Relationship{RefA: common.DocElementID{ElementRefID: "DOCUMENT"}, RefB: common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}, Relationship: common.TypeRelationshipDescribe})
	}
	cur = append(cur, rd)
	for _, d := range cur {
		add("validate", "ValidateDocument and GetDescribedPackageIDs of a shared document", func() concRes {
			err := spdxlib.ValidateDocument(d)
			ids, err2 := spdxlib.GetDescribedPackageIDs(d)
			rel, err3 := spdxlib.FilterRelationships(d, func(x *v2_3.Relationship) *common.ElementID {
				if x.Relationship == common.TypeRelationshipDescribe {
					return &x.RefB.ElementRefID
				}
				return nil
			})
			return concRes{err: errText(err) + "|" + errText(err2) + "|" + errText(err3), text: fmt.Sprintf("%q %q", spdxlib.SortElementIDs(append([]common.ElementID(nil), ids...)), spdxlib.SortElementIDs(rel))}
		})
	}
	p, q := reportPackage(r), reportPackage(r)
	for i, f := range p.Files {
		f.FileSPDXIdentifier = common.ElementID(fmt.Sprintf("P%d", i))
		f.Checksums = []common.Checksum{{Algorithm: common.SHA1, Value: fmt.Sprintf("%040x", i*7919)}}
	}
	add("report", "reporter.Generate of a shared package", func() concRes {
		var buf bytes.Buffer
		err := reporter.Generate(p, &buf)
		return concRes{err: errText(err), text: buf.String()}
	})
	add("report", "reporter.Generate to io.Discard", func() concRes { return concRes{err: errText(reporter.Generate(q, io.Discard))} })
	add("licensediff", "licensediff of shared packages", func() concRes {
		ps, err := licensediff.MakePairs(p, q)
		if err != nil {
			return concRes{err: err.Error()}
		}
		res, err := licensediff.MakeResults(ps)
		return concRes{err: errText(err), vals: flatten(res), text: fmt.Sprint(ps)}
	})
	add("code", "utils.GetVerificationCode of shared files", func() concRes {
		code, err := utils.GetVerificationCode(p.Files, "./f1")
		return concRes{err: errText(err), text: fmt.Sprint(code)}
	})
	add("example", "a changed copy of the 2.2 example", func() concRes {
		d := ex22.Copy()
		vals := flatten(d)
		scramble(reflect.ValueOf(&d))
		return concRes{vals: vals}
	})
	add("example", "a changed copy of the 2.3 example", func() concRes {
		d := ex23.Copy()
		vals := flatten(d)
		scramble(reflect.ValueOf(&d))
		return concRes{vals: vals}
	})
	t := newTree(c, idContent)
	pats, spats := t.patterns(), t.patterns()
	bcfg := &builder.Config{NamespacePrefix: "https://example.com/", CreatorType: "Person", Creator: "x", PathsIgnored: pats, TestValues: map[string]string{"Created": "2020-01-01T00:00:00Z"}}
	scfg := &idsearcher.Config{NamespacePrefix: "https://example.com/", BuilderPathsIgnored: pats, SearcherPathsIgnored: spats}
	add("build", "builder.Build of a shared tree", func() concRes {
		d, err := builder.Build("p", t.root, bcfg)
		return concRes{err: errText(err), vals: flatten(d)}
	})
	add("search", "BuildIDsDocument of a shared tree", func() concRes {
		d, err := idsearcher.BuildIDsDocument("p", t.root, scfg)
		if d != nil && d.CreationInfo != nil {
			d.CreationInfo.Created = "" // the time of the call
		}
		return concRes{err: errText(err), vals: flatten(d)}
	})
	add("paths", "GetAllFilePaths of a shared tree", func() concRes {
		ps, err := utils.GetAllFilePaths(t.root, pats)
		return concRes{err: errText(err), text: strings.Join(ps, "\n")}
	})

	return ops, t.close
}

func runK01(c *Case) {
	r := c.R
	written := map[string]string{}
	ops, closeOps := concOps(c, nil, written)
	defer closeOps()
	if k := c.Idx%5 - 2; k >= 0 {
		coldStart(c, concKinds[(c.Idx/5*3+k)%len(concKinds)], written)
		return
	}

	// each operation alone, before or after the operations at once: what only happens the first time
	// must be right in both
	alone := make([]concRes, len(ops))
	runAlone := func() bool {
		for i, o := range ops {
			c.Stage(o.name)
			if !c.guard(o.name, func() { alone[i] = o.run() }) {
				return false
			}
		}
		return true
	}
	first := r.Chance(0.3)
	if first && !runAlone() {
		return
	}
	if !first {
		c.Count("at_once_first")
	}
	// and many at once
	workers := r.In(4, 12)
	plans := make([][]int, workers)
	for w := range plans {
		plan := make([]int, len(ops))
		for i := range plan {
			plan[i] = i
		}
		r.Shuffle(len(plan), func(i, j int) { plan[i], plan[j] = plan[j], plan[i] })
		switch r.N(3) {
		case 0: // all goroutines start with the same few operations
			copy(plan, plans[0])
		case 1:
			plan = plan[:len(plan)/2]
		}
		plans[w] = plan
	}
	yields := make([][]bool, workers)
	for w := range yields {
		yields[w] = make([]bool, len(plans[w]))
		for i := range yields[w] {
			yields[w][i] = r.Chance(0.3)
		}
	}
	results := make([][]concRes, workers)
	for w := range results {
		results[w] = make([]concRes, len(plans[w]))
	}
	panics := make([]any, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	c.Stage("operations at once")
	for w := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			op := -1
			defer func() {
				if e := recover(); e != nil {
					panics[w] = fmt.Sprintf("%s: %v", ops[max(op, 0)].name, e)
				}
			}()
			<-start
			for i, k := range plans[w] {
				op = k
				if yields[w][i] {
					runtime.Gosched()
				}
				results[w][i] = ops[k].run()
			}
		}()
	}
	close(start)
	wg.Wait()
	for w := range plans {
		if panics[w] != nil {
			c.Violationf("an operation that works alone panics among others: %v", panics[w])
			return
		}
	}
	if !first && !runAlone() {
		return
	}
	for w := range plans {
		for i, k := range plans[w] {
			if df := results[w][i].diff(alone[k]); df != "" {
				c.Violationf("%s among other operations gives another result than alone: %s", ops[k].name, df)
				return
			}
			c.Count("operations")
			c.Count("op_" + ops[k].kind)
		}
	}
	c.CountN("overlapping_operations", workers*(workers-1)/2*len(ops))
	c.Seen(c.Idx, plans)
	for w := range plans {
		for i := 0; i+1 < len(plans[w]); i++ {
			c.Distinct("neighbouring_operations", ops[plans[w][i]].kind, ops[plans[w][i+1]].kind)
		}
	}
	c.Sample(map[string]any{"goroutines": workers, "operations": len(ops)})
}
