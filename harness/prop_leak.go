package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	sjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
	"sigs.k8s.io/yaml"
)

func init() {
	register(&Prop{ID: "Q01", Serial: true, Shards: 7, PlainRoot: true, Quick: 350, Deep: 3000, MinSeen: 100, Setup: setupQ01, Run: runQ01,
		Rule: genRule + "; per case reads (valid, cut off, broken, from sources that fail), writes (to sinks that fail, too), conversions, computations, builds, searches, walks and hashes over a generated tree (with files that may not be read, a root that is missing, directories in the place of files), each between two looks at the process: open files, goroutines, standard output and error, log settings, working directory and its entries, temporary directory, environment, runtime settings, and whether the source or sink was closed or used after the call returned; then hundreds of calls of one kind, each with other arguments, while the memory in use after collection is measured",
		Need: []string{"calls", "failed_calls", "growth_runs", "growth_calls", "call_read", "call_write", "call_convert", "call_build", "call_search", "call_walk", "call_hash", "call_compute", "sources", "sinks"}})
}

var q01tmp string

func setupQ01(x *Ctx) {
	q01tmp = x.Scratch + "/tmpdir"
	_ = os.MkdirAll(q01tmp, 0o755)
	_ = os.Setenv("TMPDIR", q01tmp)
}

// procState is what a call must leave as it was.
type procState struct {
	fds   map[string]int
	out   string
	cwd   string
	list  string
	tmp   string
	env   string
	log   string
	procs int
	gc    int
	mem   int64
}

func names(dir string) string {
	es, _ := os.ReadDir(dir)
	var ns []string
	for _, e := range es {
		ns = append(ns, e.Name())
	}
	return strings.Join(ns, "\n")
}

func lookAtProcess() procState {
	s := procState{fds: map[string]int{}}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.HasPrefix(t, "/proc/") && !strings.HasPrefix(t, "anon_inode:") {
			s.fds[t]++
		}
	}
	for fd := 1; fd <= 2; fd++ {
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) == nil && st.Mode&syscall.S_IFMT == syscall.S_IFREG {
			s.out += fmt.Sprint(st.Size, " ")
		}
	}
	s.cwd, _ = os.Getwd()
	s.list, s.tmp = names("."), names(q01tmp)
	s.env = strings.Join(os.Environ(), "\n")
	s.log = fmt.Sprint(log.Flags(), log.Prefix(), log.Writer() == io.Writer(os.Stderr))
	s.procs = runtime.GOMAXPROCS(0)
	s.mem = debug.SetMemoryLimit(-1)
	s.gc = debug.SetGCPercent(-1) // and no collection during the call: finalizers would close what it forgot
	return s
}

func (a procState) diff(b procState) string {
	for k, n := range b.fds {
		if n > a.fds[k] {
			return fmt.Sprintf("%q stayed open", k)
		}
	}
	for k, n := range a.fds {
		if n > b.fds[k] {
			return fmt.Sprintf("%q was closed", k)
		}
	}
	switch {
	case a.out != b.out:
		return "something was written to the standard output or error"
	case a.cwd != b.cwd:
		return fmt.Sprintf("the working directory was %q and is %q", a.cwd, b.cwd)
	case a.list != b.list:
		return fmt.Sprintf("the working directory held %q and holds %q", a.list, b.list)
	case a.tmp != b.tmp:
		return fmt.Sprintf("the directory for temporary files held %q and holds %q", a.tmp, b.tmp)
	case a.env != b.env:
		return "the environment changed"
	case a.log != b.log:
		return fmt.Sprintf("the settings of the standard logger were %s and are %s", a.log, b.log)
	case a.procs != b.procs || a.mem != b.mem || b.gc != -1:
		return "settings of the runtime changed"
	}
	return ""
}

// ours returns the stacks of the goroutines that run code of /repo or its libraries.
func ours() []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, s := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(s, "main.lookAt") || strings.Contains(s, "main.runWorker(") && !strings.Contains(s, "tools-golang") {
			continue
		}
		if strings.Contains(s, "github.com/spdx/tools-golang") || strings.Contains(s, "github.com/spdx/gordf") || strings.Contains(s, "sigs.k8s.io/") || strings.Contains(s, "io.(*pipe)") {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

type closableSource struct {
	r      io.Reader
	closed int
	reads  int
}

func (s *closableSource) Read(p []byte) (int, error) { s.reads++; return s.r.Read(p) }
func (s *closableSource) Close() error               { s.closed++; return nil }

type closableSink struct {
	w      io.Writer
	closed int
	writes int
}

func (s *closableSink) Write(p []byte) (int, error) { s.writes++; return s.w.Write(p) }
func (s *closableSink) Close() error                { s.closed++; return nil }

type leakWatch struct {
	c       *Case
	sources []*closableSource
	sinks   []*closableSink
}

func (l *leakWatch) source(r io.Reader) io.Reader {
	s := &closableSource{r: r}
	l.sources = append(l.sources, s)
	l.c.Count("sources")
	return s
}

func (l *leakWatch) sink(w io.Writer) io.Writer {
	s := &closableSink{w: w}
	l.sinks = append(l.sinks, s)
	l.c.Count("sinks")
	return s
}

// call makes one call and judges what it left behind.
func (l *leakWatch) call(kind, what string, f func() error) bool {
	c := l.c
	l.sources, l.sinks = nil, nil
	c.Stage(what)
	n := runtime.NumGoroutine()
	before := lookAtProcess()
	err := f()
	after := lookAtProcess()
	var used []int
	for _, s := range l.sources {
		used = append(used, s.reads)
	}
	for _, s := range l.sinks {
		used = append(used, s.writes)
	}
	if before.gc != -1 {
		debug.SetGCPercent(before.gc)
	}
	outcome := "that succeeded"
	if err != nil {
		outcome = "that failed"
		outcome += " with " + errShape(err)
		c.Count("failed_calls")
	}
	c.Count("calls")
	c.Count("call_" + kind)
	c.Seen(what, outcome)
	if df := before.diff(after); df != "" {
		c.Violationf("after a call of %s %s: %s", what, outcome, df)
		return false
	}
	// goroutines may need a moment to end
	for t0 := time.Now(); runtime.NumGoroutine() > n; time.Sleep(200 * time.Microsecond) {
		if time.Since(t0) > 3*time.Second {
			if g := ours(); len(g) > 0 {
				c.Violationf("after a call of %s %s: %d goroutines more than before, among them %s", what, outcome, runtime.NumGoroutine()-n, clip(g[len(g)-1], 600))
				return false
			}
			break
		}
	}
	i := 0
	for _, s := range l.sources {
		if s.closed != 0 {
			c.Violationf("a call of %s %s closed the caller's source", what, outcome)
			return false
		}
		if s.reads != used[i] {
			c.Violationf("%s went on reading the source after the call returned", what)
			return false
		}
		i++
	}
	for _, s := range l.sinks {
		if s.closed != 0 {
			c.Violationf("a call of %s %s closed the caller's sink", what, outcome)
			return false
		}
		if s.writes != used[i] {
			c.Violationf("%s went on writing to the sink after the call returned", what)
			return false
		}
		i++
	}
	return true
}

// leakText spells a document and says where in it the text mark is.
func leakText(c *Case, f format, d *v2_3.Document, v int) string {
	r := c.R
	switch f.F {
	case "json":
		return newJSONStyle(r).text(jsonTree(d, v))
	case "yaml":
		b, err := yaml.Marshal(jsonTree(d, v))
		if err != nil {
			panic(err)
		}
		return string(b)
	case "tv":
		st := newTVStyle(r)
		return st.spell(st.order(tvSections(d, v)))
	}
	st := randStyle(r)
	st.Labels = true
	return buildRDF(r, d).write(st)
}

const leakMark = "zqzqmarkqzqz"

func runQ01(c *Case) {
	r := c.R
	l := &leakWatch{c: c}
	type prepared struct {
		f    format
		v    int
		text string
		doc  any
	}
	var ps []prepared
	for _, f := range allFormats {
		v := r.In(1, 3)
		if f.F == "rdf" {
			v = r.In(2, 3)
		}
		g := newGen(c, v, f.F)
		g.Big = false
		g.Plain = g.Plain || f.F == "rdf"
		d := g.doc()
		text := leakText(c, f, d, v)
		if f.F == "rdf" && len(text) > 4*rdfLimit {
			continue
		}
		p := prepared{f, v, text, down(d, v)}
		ps = append(ps, p)
		arg := anyArg(r, p.doc)
		at := r.N(len(text) + 1)
		srcs := []func() io.Reader{
			func() io.Reader { return strings.NewReader(text) },
			func() io.Reader { return strings.NewReader(text[:at]) },
			func() io.Reader { return &faultReader{b: []byte(text), at: at, r: r} },
			func() io.Reader {
				return strings.NewReader(text[:at] + pick(r, []string{"\x00", "}", "</", "<text>", "\n: :\n"}) + text[at:])
			},
		}
		for k, src := range srcs {
			what := []string{"a valid text", "a text cut off", "a source that fails", "a broken text"}[k]
			if !l.call("read", f.Name+".Read of "+what, func() error { _, err := f.Read(l.source(src())); return err }) ||
				!l.call("read", f.Name+".ReadInto of "+what, func() error { return f.Into(l.source(src()), newDoc(v)) }) {
				return
			}
		}
		if f.F == "rdf" {
			continue
		}
		if !l.call("write", f.Name+".Write", func() error { return f.Write(arg, l.sink(io.Discard)) }) ||
			!l.call("write", f.Name+".Write to a sink that fails", func() error { return f.Write(arg, l.sink(&faultWriter{left: at, short: r.Chance(0.5)})) }) ||
			!l.call("write", f.Name+".Write of no document", func() error {
				return f.Write(pick(r, []any{1, "x", struct{}{}, []int{1}, map[string]int{}}), l.sink(io.Discard))
			}) {
			return
		}
		if f.F == "json" && !l.call("write", "json.Write with options", func() error { return sjson.Write(arg, l.sink(io.Discard), randOpt(r).opts()...) }) {
			return
		}
	}
	for _, p := range ps {
		if !l.call("convert", "convert.Document", func() error { return convert.Document(p.doc, newDoc(r.In(1, 3))) }) ||
			!l.call("convert", "convert.Document to no document", func() error { return convert.Document(p.doc, &struct{ A int }{}) }) {
			return
		}
		cur := up(p.doc)
		if !l.call("compute", "GetDescribedPackageIDs", func() error { _, err := spdxlib.GetDescribedPackageIDs(cur); return err }) ||
			!l.call("compute", "ValidateDocument", func() error { return spdxlib.ValidateDocument(cur) }) {
			return
		}
	}
	pk, pk2 := reportPackage(r), reportPackage(r)
	if !l.call("compute", "reporter.Generate", func() error {
		return reporter.Generate(pk, l.sink(&faultWriter{left: pick(r, []int{0, 10, 100, 1e6})}))
	}) ||
		!l.call("compute", "licensediff", func() error {
			pairs, err := licensediff.MakePairs(pk, pk2)
			if err == nil {
				_, err = licensediff.MakeResults(pairs)
			}
			return err
		}) || !l.call("compute", "GetVerificationCode", func() error { _, err := utils.GetVerificationCode(pk.Files, ""); return err }) {
		return
	}
	if !leakTree(l) {
		return
	}
	leakGrowth(c)
}

// leakTree makes calls over a generated tree.
func leakTree(l *leakWatch) bool {
	c, r := l.c, l.c.R
	t := newTree(c, idContent)
	defer t.close()
	ok := true
	all := func(how string, pats []string) bool {
		bc := &builder.Config{PathsIgnored: pats, CreatorType: "Person", Creator: "x"}
		sc := &idsearcher.Config{BuilderPathsIgnored: pats, SearcherPathsIgnored: t.patterns()}
		return l.call("walk", "GetAllFilePaths of "+how, func() error { _, err := utils.GetAllFilePaths(t.root, pats); return err }) &&
			l.call("build", "builder.Build of "+how, func() error { _, err := builder.Build("p", t.root, bc); return err }) &&
			l.call("search", "BuildIDsDocument of "+how, func() error { _, err := idsearcher.BuildIDsDocument("p", t.root, sc); return err })
	}
	ok = all("a tree", nil) && all("a tree with files ignored", t.patterns())
	for i := 0; ok && i < 3 && len(t.files) > 0; i++ {
		p := t.root + pick(r, t.files).Rel
		ok = l.call("hash", "GetHashesForFilePath", func() error { _, _, _, err := utils.GetHashesForFilePath(p); return err })
	}
	if ok && len(t.files) > 0 {
		p := t.root + pick(r, t.files).Rel
		if fi, err := os.Stat(p); err == nil && os.Chmod(p, 0) == nil {
			ok = all("a tree with a file that may not be read", nil) &&
				l.call("hash", "GetHashesForFilePath of a file that may not be read", func() error { _, _, _, err := utils.GetHashesForFilePath(p); return err })
			_ = os.Chmod(p, fi.Mode().Perm())
		}
	}
	if ok && len(t.dirs) > 0 {
		p := t.root + strings.TrimSuffix(pick(r, t.dirs), "/")
		if fi, err := os.Stat(p); err == nil && os.Chmod(p, 0) == nil {
			ok = all("a tree with a directory that may not be read", nil)
			_ = os.Chmod(p, fi.Mode().Perm())
		}
	}
	ok = ok && l.call("hash", "GetHashesForFilePath of a directory", func() error { _, _, _, err := utils.GetHashesForFilePath(t.root); return err }) &&
		l.call("hash", "GetHashesForFilePath of nothing", func() error { _, _, _, err := utils.GetHashesForFilePath(t.root + "/no such file"); return err })
	if ok {
		t.root += "/no such directory"
		ok = all("a root that is missing", nil)
		t.root = strings.TrimSuffix(t.root, "/no such directory")
	}
	return ok
}

// leakKinds are calls that are made hundreds of times, with other arguments each time.
var leakKinds = []string{"json.Read", "yaml.Read", "tagvalue.Read", "rdf.Read", "json.Read broken", "yaml.Read broken", "tagvalue.Read broken", "rdf.Read broken", "json.Write", "yaml.Write", "tagvalue.Write", "convert.Document", "Build", "BuildIDsDocument", "GetHashesForFilePath", "GetAllFilePaths", "ShouldIgnore", "GetVerificationCode", "licensediff", "reporter.Generate", "spdxlib", "identifiers"}

const (
	leakRounds = 250
	leakPhases = 3
	leakAllow  = 32 // bytes a call may add to what is in use, on average
)

func heapInUse() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func leakGrowth(c *Case) {
	r := c.R
	kind := leakKinds[c.Idx%len(leakKinds)]
	v := r.In(1, 3)
	f := jsonF
	for _, x := range allFormats {
		if strings.HasPrefix(kind, x.Name) {
			f = x
		}
	}
	if f.F == "rdf" {
		v = r.In(2, 3)
	}
	var g *Gen
	var d *v2_3.Document
	for try := 0; ; try++ { // a small document
		g = newGen(c, v, f.F)
		g.Big, g.Plain = false, true
		d = g.doc()
		d.DocumentName, d.DocumentComment = leakMark, leakMark+" "+leakMark
		if d.CreationInfo != nil {
			d.CreationInfo.CreatorComment = leakMark
		}
		if n := len(fmt.Sprint(flatten(d))); n < 12000 && (f.F != "rdf" || n < 6000) || try > 100 {
			break
		}
	}
	for _, p := range d.Packages {
		p.PackageComment = leakMark
		for _, f := range p.Files {
			f.FileName = "./" + leakMark + "/" + strings.TrimPrefix(f.FileName, "./")
			f.FileCopyrightText = leakMark
		}
	}
	text := ""
	if strings.Contains(kind, "Read") {
		text = leakText(c, f, d, v)
		if strings.Contains(kind, "broken") {
			i := len(text) / 2
			switch f.F {
			case "json", "yaml":
				text = text[:i] + "\x01{" + text[i:]
			case "tv":
				text += "\n" + leakMark + "\nSuchATag: " + leakMark + "\n" + leakMark + ": x\n"
			default:
				text = text[:i]
			}
		}
	}
	n := 0
	mark := func() string { // as long as the mark and of its characters
		n++
		return fmt.Sprintf("q%05dw%05x", n, r.N(1<<20))
	}
	root := ""
	if kind == "Build" || kind == "BuildIDsDocument" || kind == "GetHashesForFilePath" || kind == "GetAllFilePaths" {
		var err error
		if root, err = os.MkdirTemp(c.ctx.Scratch, "grow"); err != nil {
			panic(err)
		}
		defer func() { os.RemoveAll(root) }()
	}
	marked := func() *v2_3.Document {
		m := mark()
		x := clone(d)
		remark(reflect.ValueOf(x), m)
		return x
	}
	call := func() {
		switch kind {
		case "json.Write", "yaml.Write", "tagvalue.Write":
			_ = f.Write(down(marked(), v), io.Discard)
		case "convert.Document":
			_ = convert.Document(down(marked(), v), newDoc(r.In(1, 3)))
		case "ShouldIgnore":
			m := mark()
			_ = utils.ShouldIgnore("/a/"+m+"/x", []string{"**/" + m, "/" + m + "/", "**/" + m + "/", "/a/" + m})
		case "GetVerificationCode", "licensediff", "reporter.Generate", "spdxlib":
			x := marked()
			var p *v2_3.Package
			if len(x.Packages) > 0 {
				p = x.Packages[0]
			} else {
				p = &v2_3.Package{PackageName: mark()}
			}
			m := mark()
			p.FilesAnalyzed = true
			p.Files = append(p.Files, &v2_3.File{FileName: m, LicenseConcluded: m, LicenseInfoInFiles: []string{m}, Checksums: []common.Checksum{{Algorithm: common.SHA1, Value: refHash(m)}}})
			switch kind {
			case "GetVerificationCode":
				_, _ = utils.GetVerificationCode(p.Files, m)
				_, _ = utils.GetVerificationCode(p.Files, "")
			case "licensediff":
				if pairs, err := licensediff.MakePairs(p, p); err == nil {
					_, _ = licensediff.MakeResults(pairs)
				}
			case "reporter.Generate":
				_ = reporter.Generate(p, io.Discard)
			default:
				_ = spdxlib.ValidateDocument(x)
				_, _ = spdxlib.GetDescribedPackageIDs(x)
			}
		case "identifiers":
			m := mark()
			var e common.ElementID
			var q common.DocElementID
			var s common.Supplier
			var a common.Annotator
			_ = e.UnmarshalJSON([]byte(`"SPDXRef-` + m + `"`))
			_ = q.UnmarshalJSON([]byte(`"DocumentRef-` + m + `:SPDXRef-` + m + `"`))
			_ = s.UnmarshalJSON([]byte(`"Person: ` + m + `"`))
			_ = a.UnmarshalJSON([]byte(`"Tool: ` + m + `"`))
			_ = q.UnmarshalJSON([]byte(`"` + m + `"`))
			_ = common.RenderElementID(common.ElementID(m)) + common.RenderDocElementID(common.MakeDocElementID(m, m))
		case "Build", "BuildIDsDocument", "GetHashesForFilePath", "GetAllFilePaths":
			m := mark()
			p := root + "/" + m + ".txt"
			_ = os.WriteFile(p, []byte("// SPDX-License-Identifier: LicenseRef-"+m+"\n"), 0o644)
			switch kind {
			case "Build":
				_, _ = builder.Build(m, root, &builder.Config{NamespacePrefix: m, CreatorType: "Person", Creator: m, PathsIgnored: []string{"/" + m}})
			case "BuildIDsDocument":
				_, _ = idsearcher.BuildIDsDocument(m, root, &idsearcher.Config{NamespacePrefix: m, SearcherPathsIgnored: []string{"/" + m}})
			case "GetHashesForFilePath":
				_, _, _, _ = utils.GetHashesForFilePath(p)
			default:
				_, _ = utils.GetAllFilePaths(root, []string{"**/" + m + "/"})
			}
			_ = os.Remove(p)
		default:
			in := strings.ReplaceAll(text, leakMark, mark())
			if v == 3 && n%2 == 0 {
				_, _ = f.Read(strings.NewReader(in))
			} else {
				_ = f.Into(bytes.NewReader([]byte(in)), newDoc(v))
			}
		}
	}
	c.Stage("memory after many calls of " + kind)
	var use []int64
	for k := 0; k <= leakPhases; k++ {
		for i := 0; i < leakRounds; i++ {
			call()
			if i%50 == 0 {
				c.beat()
			}
		}
		c.CountN("growth_calls", leakRounds)
		use = append(use, heapInUse())
	}
	c.Count("growth_runs")
	// growth of every phase but the first, in which tables may fill: what stays must not depend on how many calls were made
	least := use[1] - use[0]
	for k := 2; k <= leakPhases; k++ {
		least = min(least, use[k]-use[k-1])
	}
	c.Distinct("growth_bytes_per_call_"+kind, least/leakRounds)
	total := use[leakPhases] - use[0]
	allow := int64(leakAllow)
	if f.F == "rdf" { // reads in goroutines, whose descriptors stay for later ones
		allow *= 16
	}
	if total > allow*leakPhases*leakRounds && least > allow*leakRounds/4 {
		c.Violationf("every %d calls of %s leave at least %d bytes in use (in use after each round of calls: %v)", leakRounds, kind, least, use)
	}
	runtime.KeepAlive(text)
}

// remark puts another text in the place of the mark.
func remark(v reflect.Value, m string) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			remark(v.Elem(), m)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			remark(v.Index(i), m)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			remark(v.Field(i), m)
		}
	case reflect.String:
		if v.CanSet() && strings.Contains(v.String(), leakMark) {
			v.SetString(strings.ReplaceAll(v.String(), leakMark, m))
		}
	}
}

func refHash(s string) string { a, _, _ := refDigests([]byte(s)); return a }
