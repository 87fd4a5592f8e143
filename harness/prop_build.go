package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/utils"
)

func init() {
	const treeRule = "random directory trees made in a scratch directory (0 to 60 files, hostile names, empty and binary and large contents, empty directories, now and then a directory of up to 1100 files, a chain of up to 120 directories, names of up to 255 bytes or a file with a line of up to 22 MB, files of any mode and time and with several names, symbolic links to files, directories, nothing and loops, named pipes, sockets), root given as absolute, relative, dotted, slash-ended path or symbolic link"
	register(&Prop{ID: "B01", PlainRoot: true, Rule: treeRule + "; random configurations and ignore lists; the whole built document compared with one computed from the tree the harness made, again after the tree was edited (contents of the same size and time, files added, removed, exchanged); tree compared before and after (names, modes, sizes, times, contents)", Quick: 3000, Deep: 45000,
		Need: []string{"documents", "files_listed", "ignored", "empty_trees", "bad_roots", "symlinks", "special_files", "too_deep", "edits", "same_size_edits", "wide_directories", "odd_modes", "odd_times", "hard_links", "deep_directories", "long_names", "big_files"}, MinSeen: 100, Run: runB01})
	register(&Prop{ID: "B02", PlainRoot: true, Rule: treeRule + "; GetAllFilePaths compared with the harness' own walk and ignore rules; ShouldIgnore compared on random paths and patterns of each documented form (near misses: prefixes of names, partial directories, other depths), on the tree and on 200 synthetic pairs per case", Quick: 5000, Deep: 80000,
		Need: []string{"trees", "files_listed", "ignored", "pattern_hits", "pattern_misses", "bad_roots", "edits", "wide_directories", "odd_modes", "odd_times", "hard_links", "deep_directories", "long_names", "big_files"}, MinSeen: 100, Run: runB02})
	register(&Prop{ID: "B03", PlainRoot: true, Rule: "files of random sizes around block and buffer sizes (0 to 3 MiB), hashed and compared with digests of the bytes written, computed by the harness in differently sized pieces; the same file hashed again after changes that keep its size and times or not; missing files and directories; random file lists in random orders with random SHA1 values, repeated names, several or no checksums, nil entries and exclusions, compared with a reference code", Quick: 10000, Deep: 200000,
		Need: []string{"hashed", "rehashed", "hash_errors", "codes", "exclusions", "nil_files", "without_sha1"}, MinSeen: 300, Run: runB03})
	register(&Prop{ID: "S01", PlainRoot: true, Rule: treeRule + "; files hold noise and short-form tags in many comment styles (known answer per line), long lines, CRLF, binary bytes; random builder and searcher ignore lists; the whole document compared with the builder's document plus the licences the harness planted; again after the tree was edited", Quick: 2200, Deep: 40000,
		Need: []string{"documents", "tags_planted", "decoys_planted", "search_ignored", "noassertion_files", "compound", "multiple", "long_lines", "many_lines", "noassertion_packages", "edits", "wide_directories", "odd_modes", "odd_times", "hard_links", "deep_directories", "long_names", "big_files"}, MinSeen: 100, Run: runS01})
}

type treeFile struct {
	Rel     string // "/a/b"
	Content []byte
	IDs     []string
	linked  bool // shares its contents with another name
}

type tree struct {
	c     *Case
	r     *R
	root  string // absolute
	files []treeFile
	dirs  []string
	conns []net.Listener
	fill  func(t *tree) ([]byte, []string)
}

var nameParts = []string{"a", "b", "src", "lib", "main.go", "README", "file.txt", "File.txt", "x y", " lead", "trail ", "caf\u00e9", "\u65e5\u672c", "-dash", ".hidden", "a.b.c", "new\nline", "back\\slash", "q'uote", "**", "*", "[x]", "%41", "#frag", "COPYING", "ignore", "ignored", "ign", "tmp", "~", "..x", "x..", "file1", "file10", "file2", "$HOME", "a:b", "\"dq\"", "\xff\xfe"}

func (t *tree) name(used map[string]bool) string {
	for {
		n := pick(t.r, nameParts)
		if t.r.Chance(0.15) {
			n += fmt.Sprint(t.r.N(30))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

func (t *tree) dir(rel string, depth int) error {
	r := t.r
	abs := t.root + rel
	if err := os.MkdirAll(abs, 0o755); err != nil {
		return err
	}
	t.dirs = append(t.dirs, rel+"/")
	used := map[string]bool{}
	n := pick(r, []int{0, 1, 2, 3, 6})
	if depth == 0 && r.Chance(0.9) {
		n = r.In(1, 8)
	}
	for i := 0; i < n && len(t.files) < 60; i++ {
		nm := t.name(used)
		b, ids := t.fill(t)
		if err := os.WriteFile(abs+"/"+nm, b, 0o644); err != nil {
			return err
		}
		t.files = append(t.files, treeFile{Rel: rel + "/" + nm, Content: b, IDs: ids})
		if err := t.odd(&t.files[len(t.files)-1], used); err != nil {
			return err
		}
	}
	if r.Chance(0.15) {
		var to string
		switch r.N(5) {
		case 0:
			to = "/nonexistent/nowhere"
		case 1:
			to = "." // a loop
		case 2:
			to = ".."
		case 3:
			to = "/etc/hostname"
		default:
			if len(t.files) > 0 {
				to = t.root + pick(r, t.files).Rel
			} else {
				to = "self"
			}
		}
		if err := os.Symlink(to, abs+"/"+t.name(used)); err != nil {
			return err
		}
		t.c.Count("symlinks")
	}
	if r.Chance(0.05) {
		if err := syscall.Mkfifo(abs+"/"+t.name(used), 0o644); err == nil {
			t.c.Count("special_files")
		}
	}
	if r.Chance(0.03) {
		if l, err := net.Listen("unix", abs+"/"+t.name(used)); err == nil {
			t.conns = append(t.conns, l)
			t.c.Count("special_files")
		}
	}
	if depth < 4 {
		n = pick(r, []int{0, 0, 1, 2, 3})
		if depth == 0 {
			n = r.N(4)
		}
		for i := 0; i < n; i++ {
			if err := t.dir(rel+"/"+t.name(used), depth+1); err != nil {
				return err
			}
		}
		if depth < 2 && r.Chance(0.06) { // the path of the root once more, or its end, below the root
			again := t.root
			if r.Chance(0.4) {
				again = "/" + filepath.Base(t.root)
			}
			if first := strings.Split(again, "/")[1]; !used[first] {
				used[first] = true
				t.c.Count("root_path_repeated")
				if err := t.dir(rel+again, depth+2); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func plainContent(t *tree) ([]byte, []string) {
	r := t.r
	switch r.N(8) {
	case 0:
		return nil, nil
	case 1:
		b := make([]byte, r.In(1, 300))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b, nil
	case 2:
		return bytes.Repeat([]byte{byte(r.N(256))}, r.In(30000, 70000)), nil
	}
	return []byte(pick(r, words) + "\n" + pick(r, words)), nil
}

func newTree(c *Case, fill func(*tree) ([]byte, []string)) *tree {
	d, err := os.MkdirTemp(c.ctx.Scratch, "tree")
	if err != nil {
		panic(err)
	}
	t := &tree{c: c, r: c.R, root: d, fill: fill}
	if c.R.Chance(0.2) {
		t.root = d + "/" + pick(c.R, []string{"sub dir", "a", "*", "x/y"})
		if err := os.MkdirAll(t.root, 0o755); err != nil {
			panic(err)
		}
	}
	if c.R.Chance(0.04) {
		t.dirs = []string{"/"}
	} else if err := t.dir("", 0); err != nil {
		panic(err)
	} else if c.R.Chance(0.03) {
		if err := t.outsize(); err != nil {
			panic(err)
		}
	}
	if len(t.files) == 0 {
		c.Count("empty_trees")
	}
	t.sort()
	return t
}

// odd gives a file another mode, odd times or a second name.
func (t *tree) odd(f *treeFile, used map[string]bool) error {
	r := t.r
	if r.Chance(0.08) {
		if err := os.Chmod(t.root+f.Rel, pick(r, []os.FileMode{0o400, 0o444, 0o755, 0o700, 0o777, 0o666, 0o755 | os.ModeSetuid, 0o644 | os.ModeSetgid, 0o644 | os.ModeSticky, 0o600})); err != nil {
			return err
		}
		t.c.Count("odd_modes")
	}
	if r.Chance(0.04) {
		tm := pick(r, []time.Time{time.Unix(0, 0), time.Unix(1, 0), time.Unix(-86400*400, 0), time.Unix(1<<31, 0), time.Now().Add(48 * time.Hour), time.Unix(5e9, 999999999)})
		if err := os.Chtimes(t.root+f.Rel, tm, tm); err != nil {
			return err
		}
		t.c.Count("odd_times")
	}
	if r.Chance(0.03) {
		dir := filepath.Dir(f.Rel)
		if dir == "/" {
			dir = ""
		}
		nm := dir + "/" + t.name(used)
		if err := os.Link(t.root+f.Rel, t.root+nm); err != nil {
			return err
		}
		f.linked = true
		t.files = append(t.files, treeFile{Rel: nm, Content: f.Content, IDs: f.IDs, linked: true})
		t.c.Count("hard_links")
	}
	return nil
}

// outsize adds what ordinary trees do not have: a directory of many files, a deep chain of directories, names as
// long as names can be, or a big file.
func (t *tree) outsize() error {
	r := t.r
	dir := strings.TrimSuffix(pick(r, t.dirs), "/")
	put := func(rel string, b []byte, ids []string) error {
		t.files = append(t.files, treeFile{Rel: rel, Content: b, IDs: ids})
		return os.WriteFile(t.root+rel, b, 0o644)
	}
	switch r.N(4) {
	case 0:
		t.c.Count("wide_directories")
		dir += "/wide" + fmt.Sprint(r.N(1000))
		if err := os.Mkdir(t.root+dir, 0o755); err != nil {
			return err
		}
		t.dirs = append(t.dirs, dir+"/")
		n := pick(r, []int{99, 100, 101, 255, 256, 257, 1023, 1024, 1025, 1100})
		for i := 0; i < n; i++ {
			b := []byte(fmt.Sprintf("%d %s", i, dir))
			if err := put(fmt.Sprintf("%s/n%d", dir, i), b, nil); err != nil {
				return err
			}
		}
	case 1:
		t.c.Count("deep_directories")
		n := r.In(10, 120)
		for i := 0; i < n; i++ {
			dir += "/" + pick(r, []string{"d", "lib", "node_modules", "a b", "src"}) + fmt.Sprint(i)
			if err := os.Mkdir(t.root+dir, 0o755); err != nil {
				return err
			}
			t.dirs = append(t.dirs, dir+"/")
			if i == n-1 || r.Chance(0.1) {
				b, ids := t.fill(t)
				if err := put(dir+"/"+pick(r, []string{"f", "LICENSE", "index.js"}), b, ids); err != nil {
					return err
				}
			}
		}
	case 2:
		t.c.Count("long_names")
		for i := 0; i < 3; i++ {
			dir += "/" + strings.Repeat(pick(r, []string{"n", "\u65e5", "x y "}), 400)[:r.In(80, 84)*3] + fmt.Sprint(i)
			if err := os.Mkdir(t.root+dir, 0o755); err != nil {
				return err
			}
			t.dirs = append(t.dirs, dir+"/")
			b, ids := t.fill(t)
			if err := put(dir+"/"+strings.Repeat("f", r.In(200, 255)), b, ids); err != nil {
				return err
			}
		}
	default: // one long line, then a tag
		t.c.Count("big_files")
		b, ids := t.fill(t)
		line := strings.Repeat("x y z\t", r.In(1<<17, 7<<19)) + "\n"
		if err := put(dir+"/big"+fmt.Sprint(r.N(1000)), append([]byte(line), b...), ids); err != nil {
			return err
		}
	}
	return nil
}

func (t *tree) sort() {
	// the order of a walk: names sorted within each directory
	sort.Slice(t.files, func(i, j int) bool {
		a, b := strings.Split(t.files[i].Rel, "/"), strings.Split(t.files[j].Rel, "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
}

// edit changes the tree between two looks at it: contents (the size and the times of a file often stay), files gone,
// files added.
func (t *tree) edit() {
	r := t.r
	put := func(f *treeFile, b []byte, ids []string) {
		fi, err := os.Stat(t.root + f.Rel)
		if err != nil {
			panic(err)
		}
		if f.linked { // the other name keeps what it has
			if err := os.Remove(t.root + f.Rel); err != nil {
				panic(err)
			}
			f.linked = false
		} else if err := os.Chmod(t.root+f.Rel, 0o644); err != nil {
			panic(err)
		}
		if err := os.WriteFile(t.root+f.Rel, b, 0o644); err != nil {
			panic(err)
		}
		os.Chmod(t.root+f.Rel, fi.Mode())
		os.Chtimes(t.root+f.Rel, fi.ModTime(), fi.ModTime())
		f.Content, f.IDs = b, ids
	}
	for n := r.In(1, 4); n > 0; n-- {
		switch op := r.N(5); {
		case op == 0:
			rel := strings.TrimSuffix(pick(r, t.dirs), "/") + "/" + t.name(map[string]bool{})
			if _, err := os.Lstat(t.root + rel); err == nil {
				continue
			}
			b, ids := t.fill(t)
			if err := os.WriteFile(t.root+rel, b, 0o644); err != nil {
				panic(err)
			}
			t.files = append(t.files, treeFile{Rel: rel, Content: b, IDs: ids})
			t.c.Count("edits")
		case len(t.files) == 0:
		case op == 1:
			i := r.N(len(t.files))
			if err := os.Remove(t.root + t.files[i].Rel); err != nil {
				panic(err)
			}
			t.files = append(t.files[:i], t.files[i+1:]...)
			t.c.Count("edits")
		case op == 2: // two files change places
			f, g := &t.files[r.N(len(t.files))], &t.files[r.N(len(t.files))]
			fb, fi, gb, gi := f.Content, f.IDs, g.Content, g.IDs
			put(f, gb, gi)
			put(g, fb, fi)
			t.c.Count("edits")
		case op == 3: // letters change, the size stays
			f := &t.files[r.N(len(t.files))]
			if len(f.IDs) > 0 {
				continue
			}
			b := bytes.Clone(f.Content)
			for i := range b {
				if b[i] >= 'a' && b[i] < 'z' {
					b[i]++
				}
			}
			put(f, b, nil)
			t.c.Count("same_size_edits")
		default:
			b, ids := t.fill(t)
			put(&t.files[r.N(len(t.files))], b, ids)
			t.c.Count("edits")
		}
	}
	t.sort()
}

func (t *tree) close() {
	for _, l := range t.conns {
		l.Close()
	}
	top := t.root
	for filepath.Dir(top) != t.c.ctx.Scratch && len(top) > 1 {
		top = filepath.Dir(top)
	}
	os.RemoveAll(top)
}

// spell gives the root in one of the ways a caller may.
func (t *tree) spell() string {
	rel, err := filepath.Rel(t.c.ctx.Scratch, t.root)
	if err != nil {
		panic(err)
	}
	switch t.r.N(8) {
	case 0:
		return t.root + "/"
	case 1: // the worker's working directory is the scratch directory
		return rel
	case 2:
		return "./" + rel + "//"
	case 3:
		return t.root + "/../" + filepath.Base(t.root)
	case 4:
		l := t.root + "-link"
		if err := os.Symlink(t.root, l); err == nil {
			t.c.Count("symlinked_roots")
			t.conns = append(t.conns, linkRemover(l))
			return l
		}
	}
	return t.root
}

type linkRemover string

func (l linkRemover) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l linkRemover) Close() error              { return os.Remove(string(l)) }
func (l linkRemover) Addr() net.Addr            { return nil }

// snapshot describes everything below the root.
func (t *tree) snapshot() string {
	var sb strings.Builder
	filepath.WalkDir(t.root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintf(&sb, "%s: %v\n", p, err)
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			return nil
		}
		fmt.Fprintf(&sb, "%q %v %d %v", p, fi.Mode(), fi.Size(), fi.ModTime())
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(&sb, " %s", hsh(string(b)))
		}
		sb.WriteByte('\n')
		return nil
	})
	return sb.String()
}

// ---- ignore patterns

const (
	ignNo = iota
	ignYes
	ignUnclear // the documentation does not say
)

// refIgnore decides by the documentation of builder.Config.PathsIgnored: a path from the root names one file, a
// trailing slash everything below that directory, and a leading ** a file or directory of that name anywhere.
func refIgnore(file, pat string) int {
	if strings.HasPrefix(pat, "**/") {
		tail := pat[2:] // "/x" or "/d/" or "/d/x"
		if tail == "/" {
			return ignUnclear
		}
		if strings.HasSuffix(tail, "/") {
			if strings.Contains(file, tail) {
				return ignYes
			}
			return ignNo
		}
		if strings.HasSuffix(file, tail) {
			return ignYes
		}
		i := strings.LastIndex(tail, "/")
		if i > 0 && strings.Contains(file, tail[:i+1]) && strings.HasSuffix(file, tail[i:]) {
			return ignUnclear // **/d/x and .../d/more/x
		}
		return ignNo
	}
	if strings.HasPrefix(pat, "/") {
		if strings.HasSuffix(pat, "/") {
			if strings.HasPrefix(file, pat) {
				return ignYes
			}
			return ignNo
		}
		if file == pat {
			return ignYes
		}
		return ignNo
	}
	return ignUnclear
}

func refIgnoreAny(file string, pats []string) int {
	res := ignNo
	for _, p := range pats {
		switch refIgnore(file, p) {
		case ignYes:
			return ignYes
		case ignUnclear:
			res = ignUnclear
		}
	}
	return res
}

func genPattern(r *R, paths []string) string {
	p := "/" + pick(r, nameParts)
	if len(paths) > 0 && r.Chance(0.9) {
		p = pick(r, paths)
	}
	segs := strings.Split(strings.Trim(p, "/"), "/")
	near := func(s string) string {
		switch r.N(12) {
		case 0:
			return s + "x"
		case 1:
			if len(s) > 1 {
				return s[:len(s)-1]
			}
		case 2:
			if len(s) > 1 {
				return s[1:]
			}
		case 3:
			return strings.ToUpper(s)
		}
		return s
	}
	segs = append([]string{}, segs...)
	i := r.N(len(segs))
	segs[i] = near(segs[i])
	switch r.N(7) {
	case 0:
		return "/" + strings.Join(segs, "/")
	case 1:
		return "/" + strings.Join(segs[:r.In(1, len(segs))], "/") + "/"
	case 2:
		return "**/" + segs[len(segs)-1]
	case 3:
		return "**/" + segs[i] + "/"
	case 4:
		j := r.In(i, len(segs)-1)
		return "**/" + strings.Join(segs[i:j+1], "/") + "/"
	case 5:
		return "**/" + strings.Join(segs[i:], "/")
	}
	j := r.In(i, len(segs)-1)
	return "/" + strings.Join(segs[i:j+1], "/")
}

// patterns makes an ignore list that is clear about every file of the tree.
func (t *tree) patterns() []string {
	r := t.r
	if r.Chance(0.25) {
		return nil
	}
	if r.Chance(0.05) {
		return []string{}
	}
	var paths []string
	for _, f := range t.files {
		paths = append(paths, f.Rel)
	}
	for _, d := range t.dirs {
		if d != "/" {
			paths = append(paths, d)
		}
	}
	var out []string
	n := r.In(1, 4)
	for i := 0; i < n; i++ {
		p := genPattern(r, paths)
		clear := true
		for _, f := range t.files {
			if refIgnore(f.Rel, p) == ignUnclear {
				clear = false
			}
		}
		if clear {
			out = append(out, p)
		}
	}
	return out
}

func (t *tree) kept(pats []string) []treeFile {
	var out []treeFile
	for _, f := range t.files {
		if refIgnoreAny(f.Rel, pats) == ignNo {
			out = append(out, f)
		} else {
			t.c.Count("ignored")
		}
	}
	return out
}

func (t *tree) describe(root string, pats []string) string {
	var rel []string
	for _, f := range t.files {
		rel = append(rel, f.Rel)
	}
	return fmt.Sprintf("root %q, files %q, patterns %q", root, rel, pats)
}

// within runs f and reports when it does not return.
func (c *Case) within(what string, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			c.Violationf("%s panicked: %v", what, p)
			return false
		}
		return true
	case <-time.After(60 * time.Second):
		c.Violationf("%s did not return within 60 s", what)
		return false
	}
}

func runB02(c *Case) {
	r := c.R
	t := newTree(c, plainContent)
	defer t.close()
	for k := 0; k < 4; k++ {
		if k == 3 {
			t.edit()
		}
		pats := t.patterns()
		root := t.spell()
		desc := t.describe(root, pats)
		c.Input([]byte(desc))
		arg := append([]string(nil), pats...)
		if pats == nil {
			arg = nil
		}
		var got []string
		var err error
		if !c.within("GetAllFilePaths", func() { got, err = utils.GetAllFilePaths(root, arg) }) {
			return
		}
		if err != nil {
			c.Violationf("GetAllFilePaths failed: %v; %s", err, desc)
			return
		}
		var want []string
		for _, f := range t.kept(pats) {
			want = append(want, f.Rel)
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", append([]string{}, want...)) {
			c.Violationf("GetAllFilePaths = %q, want %q; %s", got, want, desc)
			return
		}
		if fmt.Sprintf("%q", arg) != fmt.Sprintf("%q", pats) {
			c.Violationf("GetAllFilePaths changed its pattern list from %q to %q", pats, arg)
			return
		}
		c.Count("trees")
		c.CountN("files_listed", len(want))
		c.Seen(want, pats)
		if k == 0 {
			c.Sample(map[string]any{"files": len(t.files), "listed": len(want), "patterns": pats})
		}
	}
	// the matching rule by itself
	var paths []string
	for i := 0; i < 12; i++ {
		n := r.In(1, 5)
		p := ""
		for j := 0; j < n; j++ {
			p += "/" + pick(r, []string{"a", "b", "ab", "a.b", "src", "src2", "x.txt", "x.txt2", "x", "caf\u00e9", "**", "*", "d e"})
		}
		paths = append(paths, p)
	}
	for i := 0; i < 200; i++ {
		var pats []string
		for j := r.In(0, 3); j > 0; j-- {
			pats = append(pats, genPattern(r, paths))
		}
		p := pick(r, paths)
		want := refIgnoreAny(p, pats)
		if want == ignUnclear {
			c.Count("pattern_unclear")
			continue
		}
		if got := utils.ShouldIgnore(p, pats); got != (want == ignYes) {
			c.Violationf("ShouldIgnore(%q, %q) = %v", p, pats, got)
			return
		}
		if want == ignYes {
			c.Count("pattern_hits")
		} else {
			c.Count("pattern_misses")
		}
	}
	badRoots(c, t, func(root string) error { _, err := utils.GetAllFilePaths(root, nil); return err })
	denied(c, t, false, func(pats []string) error { _, err := utils.GetAllFilePaths(t.root, pats); return err })
}

func badRoots(c *Case, t *tree, f func(root string) error) {
	for _, root := range []string{t.root + "/no such directory", t.root + "/a\x00b", t.root + strings.Repeat("/d", 3000)} {
		var err error
		if !c.within("walking a root that cannot be read", func() { err = f(root) }) {
			return
		}
		if err == nil {
			c.Violationf("no error for the root %q", clip(root, 200))
			return
		}
		c.Count("bad_roots")
	}
}

// denied runs f while one file or directory of the tree may not be read. f says whether it failed; look is whether it
// looks into files.
func denied(c *Case, t *tree, look bool, f func(pats []string) error) {
	r := c.R
	deny := func(rel string) func() {
		p := t.root + rel
		fi, err := os.Stat(p)
		if err != nil || os.Chmod(p, 0) != nil {
			return nil
		}
		undo := func() { os.Chmod(p, fi.Mode()); os.Chtimes(p, fi.ModTime(), fi.ModTime()) }
		if h, err := os.Open(p); err == nil { // permissions do not count for this user
			h.Close()
			undo()
			return nil
		}
		return undo
	}
	try := func(what, rel string, pats []string, fails bool) {
		undo := deny(rel)
		if undo == nil {
			return
		}
		defer undo()
		var err error
		if !c.within("a look at a tree with something that may not be read", func() { err = f(pats) }) {
			return
		}
		if (err != nil) != fails {
			c.Violationf("%s %q may not be read, ignored are %q: error %v", what, rel, pats, err)
			return
		}
		c.Count("denied_" + what)
	}
	if len(t.files) > 0 {
		try("file", pick(r, t.files).Rel, nil, look)
		if tf := pick(r, t.files); !tf.linked && refIgnoreAny(tf.Rel, []string{tf.Rel}) == ignYes {
			try("ignored_file", tf.Rel, []string{tf.Rel}, false)
		}
	}
	if len(t.dirs) > 0 {
		try("directory", strings.TrimSuffix(pick(r, t.dirs), "/"), nil, true)
	}
}

// deepTree makes a directory whose deepest path is longer than the system accepts, so that walking it must fail.
func deepTree(root string) error {
	if err := os.MkdirAll(root, 0o755); err != nil {
		return err
	}
	fd, err := syscall.Open(root, syscall.O_DIRECTORY|syscall.O_RDONLY, 0)
	if err != nil {
		return err
	}
	name := strings.Repeat("n", 200)
	for i := 0; i < 25; i++ {
		if err := syscall.Mkdirat(fd, name, 0o755); err != nil {
			syscall.Close(fd)
			return err
		}
		n, err := syscall.Openat(fd, name, syscall.O_DIRECTORY|syscall.O_RDONLY, 0)
		syscall.Close(fd)
		if err != nil {
			return err
		}
		fd = n
	}
	return syscall.Close(fd)
}

func hexsum(b []byte) string { return hex.EncodeToString(b) }

func refDigests(b []byte) (string, string, string) {
	a, d, m := sha1.Sum(b), sha256.Sum256(b), md5.Sum(b)
	return hexsum(a[:]), hexsum(d[:]), hexsum(m[:])
}

func refCode(shas []string) string {
	s := append([]string{}, shas...)
	sort.Strings(s)
	h := sha1.Sum([]byte(strings.Join(s, "")))
	return hexsum(h[:])
}

func refBuilt(name string, files []treeFile) *v2_3.Document {
	var shas []string
	p := &v2_3.Package{PackageName: name, PackageSPDXIdentifier: common.ElementID("Package-" + name), PackageDownloadLocation: "NOASSERTION", FilesAnalyzed: true, IsFilesAnalyzedTagPresent: true,
		PackageLicenseConcluded: "NOASSERTION", PackageLicenseDeclared: "NOASSERTION", PackageCopyrightText: "NOASSERTION"}
	for i, f := range files {
		a, b, m := refDigests(f.Content)
		shas = append(shas, a)
		p.Files = append(p.Files, &v2_3.File{FileName: "." + f.Rel, FileSPDXIdentifier: common.ElementID(fmt.Sprintf("File%d", i)),
			Checksums:        []common.Checksum{{Algorithm: common.SHA1, Value: a}, {Algorithm: common.SHA256, Value: b}, {Algorithm: common.MD5, Value: m}},
			LicenseConcluded: "NOASSERTION", LicenseInfoInFiles: []string{"NOASSERTION"}, FileCopyrightText: "NOASSERTION"})
	}
	p.PackageVerificationCode = &common.PackageVerificationCode{Value: refCode(shas)}
	return &v2_3.Document{SPDXVersion: "SPDX-2.3", DataLicense: "CC0-1.0", SPDXIdentifier: "DOCUMENT", DocumentName: name,
		CreationInfo:  &v2_3.CreationInfo{},
		Packages:      []*v2_3.Package{p},
		Relationships: []*v2_3.Relationship{{RefA: common.DocElementID{ElementRefID: "DOCUMENT"}, RefB: common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}, Relationship: "DESCRIBES"}}}
}

// sameBuilt compares up to the order of a file's checksums, and takes Created and the namespace from the result
// after checking what can be said about them.
func sameBuilt(got, want *v2_3.Document, prefix, created string, t0, t1 time.Time) string {
	g := clone(got)
	for _, p := range g.Packages {
		for _, f := range p.Files {
			rank := map[common.ChecksumAlgorithm]int{common.SHA1: 0, common.SHA256: 1, common.MD5: 2}
			sort.SliceStable(f.Checksums, func(i, j int) bool { return rank[f.Checksums[i].Algorithm] < rank[f.Checksums[j].Algorithm] })
		}
	}
	code := want.Packages[0].PackageVerificationCode.Value
	ns := g.DocumentNamespace
	if !strings.HasPrefix(ns, prefix+want.DocumentName+"-") || !strings.Contains(ns[len(prefix+want.DocumentName):], code) {
		return fmt.Sprintf("namespace %q is not made of the prefix %q, the name %q and the verification code %s", ns, prefix, want.DocumentName, code)
	}
	w := clone(want)
	w.DocumentNamespace = ns
	if g.CreationInfo == nil {
		return "no creation info"
	}
	if created != "" {
		w.CreationInfo.Created = created
	} else {
		tm, err := time.Parse("2006-01-02T15:04:05Z", g.CreationInfo.Created)
		if err != nil || tm.Before(t0.Truncate(time.Second)) || tm.After(t1) {
			return fmt.Sprintf("created %q is not the time of the call, %v", g.CreationInfo.Created, t0)
		}
		w.CreationInfo.Created = g.CreationInfo.Created
	}
	return diff(g, w)
}

func runB01(c *Case) {
	r := c.R
	t := newTree(c, plainContent)
	defer t.close()
	g := newGen(c, 3, "json")
	before := t.snapshot()
	for k := 0; k < 3; k++ {
		if k == 2 {
			t.edit()
			before = t.snapshot()
		}
		cfg := &builder.Config{NamespacePrefix: pick(r, []string{"", "https://example.com/docs/", "urn:x-"}), CreatorType: pick(r, []string{"Person", "Organization", "Tool", "person", "", "Whatever"}), Creator: g.line(), PathsIgnored: t.patterns()}
		created := ""
		switch r.N(3) {
		case 0:
			created = g.date()
			cfg.TestValues = map[string]string{"Created": created}
		case 1:
			cfg.TestValues = map[string]string{"Other": "x"}
		}
		name := pick(r, []string{"p", "my-package", "my package", "caf\u00e9", "a/b", "%s%d", "x-1.0.tar.gz"})
		root := t.spell()
		desc := t.describe(root, cfg.PathsIgnored)
		c.Input([]byte(desc))
		var doc *v2_3.Document
		var err error
		cfgSnap := cloneT(cfg)
		t0 := time.Now().UTC()
		if !c.within("builder.Build", func() { doc, err = builder.Build(name, root, cfg) }) {
			return
		}
		if err != nil || doc == nil {
			c.Violationf("builder.Build failed: %v; %s", err, desc)
			return
		}
		kept := t.kept(cfg.PathsIgnored)
		want := refBuilt(name, kept)
		ct := cfg.CreatorType
		if ct != "Person" && ct != "Organization" && ct != "Tool" {
			ct = "Person"
		}
		want.CreationInfo.Creators = []common.Creator{{CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/builder"}, {CreatorType: ct, Creator: cfg.Creator}}
		if df := sameBuilt(doc, want, cfg.NamespacePrefix, created, t0, time.Now().UTC()); df != "" {
			c.Violationf("builder.Build: %s; %s", df, desc)
			return
		}
		if df := diff(cfg, cfgSnap); df != "" {
			c.Violationf("builder.Build changed its configuration: %s", df)
			return
		}
		c.Count("documents")
		c.CountN("files_listed", len(kept))
		c.Seen(len(kept), len(t.files), cfg.PathsIgnored, want.Packages[0].PackageVerificationCode.Value)
		if k == 0 {
			c.Sample(map[string]any{"files": len(t.files), "listed": len(kept), "directories": len(t.dirs), "patterns": cfg.PathsIgnored, "name": name})
		}
	}
	if after := t.snapshot(); after != before {
		c.Violationf("builder.Build changed the tree: %s", firstDiff([]byte(before), []byte(after)))
		return
	}
	cfg := &builder.Config{}
	badRoots(c, t, func(root string) error { _, err := builder.Build("p", root, cfg); return err })
	denied(c, t, true, func(pats []string) error {
		_, err := builder.Build("p", t.root, &builder.Config{PathsIgnored: pats})
		return err
	})
	if c.Idx%50 == 0 {
		deep := t.root + "/deep"
		if err := deepTree(deep); err == nil {
			var e error
			if c.within("builder.Build", func() { _, e = builder.Build("p", t.root, cfg) }) && e == nil {
				c.Violationf("builder.Build of a tree with a directory that cannot be read returned no error")
				return
			}
			c.Count("too_deep")
		}
	}
}

func runB03(c *Case) {
	r := c.R
	size := pick(r, []int{0, 1, 55, 56, 63, 64, 65, 119, 128, 511, 512, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 100000})
	if r.Chance(0.4) {
		size = r.N(5000)
	}
	if r.Chance(0.02) {
		size = r.In(1<<20, 3<<20)
	}
	b := make([]byte, size)
	switch r.N(3) {
	case 0:
		for i := range b {
			b[i] = byte(r.N(256))
		}
	case 1:
		copy(b, bytes.Repeat([]byte(pick(r, []string{"\r\n", "\x00", "a", "\x1a", "line\n"})), size/2+1))
	case 2:
		x := r.Uint64() | 1
		for i := range b {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b[i] = byte(x)
		}
	}
	p := filepath.Join(c.ctx.Scratch, fmt.Sprintf("h%d-%s", c.Idx, pick(r, []string{"f", "x y", "\u00e9", "-"})))
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic(err)
	}
	defer os.Remove(p)
	w1, w2, w3 := refDigests(b)
	g1, g2, g3, err := utils.GetHashesForFilePath(p)
	if err != nil || g1 != w1 || g2 != w2 || g3 != w3 {
		c.Violationf("GetHashesForFilePath of %d bytes = %s %s %s %v, want %s %s %s", size, g1, g2, g3, err, w1, w2, w3)
		return
	}
	c.Count("hashed")
	// the same path with other contents, often of the same size and time
	fi, err := os.Stat(p)
	if err != nil {
		panic(err)
	}
	for k := r.In(1, 3); k > 0; k-- {
		b = bytes.Clone(b)
		if len(b) == 0 || r.Chance(0.2) {
			b = append(b, byte(r.N(256)))
		} else if r.Chance(0.2) {
			b = b[:r.N(len(b))]
		} else {
			b[r.N(len(b))] ^= byte(1 << r.N(8))
		}
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
		if r.Chance(0.7) {
			os.Chtimes(p, fi.ModTime(), fi.ModTime())
		}
		w1, w2, w3 := refDigests(b)
		g1, g2, g3, err := utils.GetHashesForFilePath(p)
		if err != nil || g1 != w1 || g2 != w2 || g3 != w3 {
			c.Violationf("GetHashesForFilePath of a changed file of %d bytes = %s %s %s %v, want %s %s %s", len(b), g1, g2, g3, err, w1, w2, w3)
			return
		}
		c.Count("rehashed")
	}
	for _, bad := range []string{p + "-missing", c.ctx.Scratch, p + "/below", ""} {
		g1, g2, g3, err := utils.GetHashesForFilePath(bad)
		if err == nil {
			c.Violationf("GetHashesForFilePath(%q) = %s %s %s without an error", bad, g1, g2, g3)
			return
		}
		c.Count("hash_errors")
	}
	if os.Chmod(p, 0) == nil {
		if h, err := os.Open(p); err == nil {
			h.Close()
		} else if g1, g2, g3, err := utils.GetHashesForFilePath(p); err == nil {
			c.Violationf("GetHashesForFilePath of a file that may not be read = %s %s %s without an error", g1, g2, g3)
			return
		} else {
			c.Count("denied_file")
		}
	}
	// verification codes
	n := pick(r, []int{0, 1, 2, 3, 5, 9, 40})
	if r.Chance(0.01) {
		n = r.In(100, 2500)
	}
	var files []*v2_3.File
	names := []string{"./a", "./A", "./b", "./a ", "./pkg.spdx", "./dir/pkg.spdx", "a", "./a.b"}
	for i := 0; i < n; i++ {
		f := &v2_3.File{FileName: pick(r, names), FileSPDXIdentifier: common.ElementID(fmt.Sprintf("f%d", i))}
		if r.Chance(0.5) {
			f.FileName = fmt.Sprintf("./f%d", i)
		}
		hx := func() string { g := &Gen{R: r}; return g.hex(40) }
		for k := pick(r, []int{1, 1, 1, 0, 2, 3}); k > 0; k-- {
			f.Checksums = append(f.Checksums, common.Checksum{Algorithm: pick(r, []common.ChecksumAlgorithm{common.MD5, common.SHA256, common.SHA512, "sha1", "SHA-1", ""}), Value: hx()})
		}
		if r.Chance(0.9) {
			cs := common.Checksum{Algorithm: common.SHA1, Value: hx()}
			i := r.N(len(f.Checksums) + 1)
			f.Checksums = append(f.Checksums[:i], append([]common.Checksum{cs}, f.Checksums[i:]...)...)
		}
		files = append(files, f)
	}
	excl := ""
	if r.Chance(0.6) {
		excl = pick(r, append([]string{"./nothing", "./a"}, names...))
		if len(files) > 0 && r.Chance(0.5) {
			excl = pick(r, files).FileName
		}
	}
	var shas []string
	for _, f := range files {
		if excl != "" && f.FileName == excl {
			c.Count("exclusions")
			continue
		}
		has := false
		for _, cs := range f.Checksums {
			if cs.Algorithm == common.SHA1 {
				shas = append(shas, cs.Value)
				has = true
			}
		}
		if !has {
			c.Count("without_sha1")
		}
	}
	want := common.PackageVerificationCode{Value: refCode(shas)}
	if excl != "" {
		want.ExcludedFiles = []string{excl}
	}
	for k := 0; k < 3; k++ {
		var snap []*v2_3.File
		for _, f := range files {
			snap = append(snap, cloneT(f))
		}
		got, err := utils.GetVerificationCode(files, excl)
		if err != nil {
			c.Violationf("GetVerificationCode failed: %v", err)
			return
		}
		if df := diff(got, want); df != "" {
			c.Violationf("GetVerificationCode of %d files excluding %q: %s", len(files), excl, df)
			return
		}
		if df := diff(files, snap); df != "" {
			c.Violationf("GetVerificationCode changed its files: %s", df)
			return
		}
		r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
		c.Count("codes")
	}
	if r.Chance(0.1) {
		i := r.N(len(files) + 1)
		with := append(append(append([]*v2_3.File{}, files[:i]...), nil), files[i:]...)
		if _, err := utils.GetVerificationCode(with, excl); err == nil {
			c.Violationf("GetVerificationCode of a list with a nil file returned no error")
			return
		}
		c.Count("nil_files")
	}
	c.Seen(size, n, excl, want.Value)
	c.Sample(map[string]any{"bytes": size, "files": n, "excluded": excl, "code": want.Value})
}

// ---- S01

var tagPrefixes = []string{"", "// ", "//", "# ", "/* ", " * ", "<!-- ", "-- ", "; ", "% ", "\" ", ".. ", "'' ", "! ", "\t// ", "  ", "#\t", "/** @ ", "*", "{# ", "<%-- ", "(* ", "dnl ", "REM ", "\xff\xfe", "/// ", "/*! ", "     ", "\t\t// ", "    #", "REM\t", ".\\\" ", "   * ", "    // "}

func genExpr(r *R) string {
	ids := []string{"MIT", "Apache-2.0", "GPL-2.0-only", "GPL-2.0-or-later", "BSD-3-Clause", "LicenseRef-Proprietary_1", "LGPL-2.1+", "GPL-2.0+", "0BSD", "Zlib", "LicenseRef-x.y", "DocumentRef-d1:LicenseRef-2", "NOASSERTION", "AGPL-3.0-only", "ORacle", "ANDROID", "WITHOUT-1", "android-sdk", "X11"}
	switch r.N(7) {
	case 0:
		return pick(r, ids) + pick(r, []string{" OR ", " AND "}) + pick(r, ids)
	case 1:
		return "GPL-2.0-only WITH " + pick(r, []string{"Classpath-exception-2.0", "LLVM-exception"})
	case 2:
		return "(" + pick(r, ids) + " OR " + pick(r, ids) + ") AND " + pick(r, ids)
	case 3:
		return "(" + pick(r, ids) + pick(r, []string{" OR ", " AND "}) + "(" + pick(r, ids) + " AND " + pick(r, ids) + "))"
	}
	return pick(r, ids)
}

func idContent(t *tree) ([]byte, []string) {
	r := t.r
	var sb strings.Builder
	set := map[string]bool{}
	n := pick(r, []int{0, 1, 2, 3, 5, 8})
	nl := pick(r, []string{"\n", "\n", "\n", "\r\n"})
	if r.Chance(0.03) { // many lines, and what is planted anywhere among them
		n = r.In(30, 120)
		sb.WriteString(strings.Repeat(pick(r, words)+nl, r.In(100, 3000)))
		t.c.Count("many_lines")
	}
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0, 1, 2, 3:
			e := genExpr(r)
			tail := pick(r, []string{"", "", "", " ", "\t", " */", "*/", " */ int x; /* more */", " -->", "-->", " --> <p>MIT</p>", "\"", "';", " \r"})
			sb.WriteString(pick(r, tagPrefixes) + "SPDX-License-Identifier:" + pick(r, []string{" ", " ", "", "\t", "   "}) + e + tail)
			set[e] = true
			t.c.Count("tags_planted")
		case 4:
			sb.WriteString(pick(r, []string{
				"SPDX-License-Identifier", "SPDX-License-Identifier MIT", "spdx-license-identifier: MIT", "SPDX-License-Identifier:", "// SPDX-License-Identifier: */", "SPDX-License-Identifier:   ", "# SPDX-License-Identifier: \"\"", "<!-- SPDX-License-Identifier: -->",
				"License-Identifier: MIT", "if strings.Contains(x, \"SPDX-License-Identifier: MIT\")", "printf SPDX-License-Identifier: BSD-4-Clause", "The tag is SPDX-License-Identifier: GPL-3.0-only", "SPDX-FileCopyrightText: 2020 X", "SPDX License-Identifier: MIT", "SPDX-Licence-Identifier: MIT", "SPDX-License-Identifier : MIT"}))
			t.c.Count("decoys_planted")
		case 5:
			sb.WriteString("SPDX-License-Identifier: AND OR WITH\n") // names no licence; stays in the concluded expression only beside others
			set["AND OR WITH"] = true
		case 6:
			if r.Chance(0.1) {
				sb.WriteString(strings.Repeat("x y z ", r.In(11000, 40000)))
				t.c.Count("long_lines")
			} else {
				sb.WriteString(pick(r, words))
			}
		case 7:
			for k := r.N(40); k > 0; k-- {
				b := byte(r.N(256))
				if b == '\n' {
					b = ' '
				}
				sb.WriteByte(b)
			}
		default:
			sb.WriteString(pick(r, words) + " " + pick(r, words))
		}
		if i < n-1 || r.Chance(0.6) {
			sb.WriteString(nl)
		}
	}
	return []byte(sb.String()), sortedKeys(set)
}

// refElements are the licences and exceptions an expression names.
func refElements(e string) []string {
	var out []string
	cur := ""
	flush := func() {
		switch strings.ToUpper(cur) {
		case "", "AND", "OR", "WITH":
		default:
			out = append(out, cur)
		}
		cur = ""
	}
	for _, ch := range e {
		if ch == ' ' || ch == '(' || ch == ')' || ch == '+' {
			flush()
		} else {
			cur += string(ch)
		}
	}
	flush()
	return out
}

func runS01(c *Case) {
	r := c.R
	t := newTree(c, idContent)
	defer t.close()
	for k := 0; k < 3; k++ {
		if k == 2 {
			t.edit()
		}
		cfg := &idsearcher.Config{NamespacePrefix: pick(r, []string{"", "https://example.com/"}), BuilderPathsIgnored: t.patterns(), SearcherPathsIgnored: t.patterns()}
		if r.Chance(0.5) {
			cfg.BuilderPathsIgnored = nil
		}
		root := t.spell()
		desc := t.describe(root, cfg.BuilderPathsIgnored) + fmt.Sprintf(", not searched %q", cfg.SearcherPathsIgnored)
		var doc *v2_3.Document
		var err error
		snap := cloneT(cfg)
		t0 := time.Now().UTC()
		if !c.within("BuildIDsDocument", func() { doc, err = idsearcher.BuildIDsDocument("pkg", root, cfg) }) {
			return
		}
		c.Input([]byte(desc))
		if err != nil || doc == nil {
			c.Violationf("BuildIDsDocument failed: %v; %s", err, desc)
			return
		}
		kept := t.kept(cfg.BuilderPathsIgnored)
		want := refBuilt("pkg", kept)
		want.CreationInfo.Creators = []common.Creator{{CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/builder"}, {CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/idsearcher"}}
		all := map[string]bool{}
		for i, f := range kept {
			wf := want.Packages[0].Files[i]
			if refIgnoreAny(f.Rel, cfg.SearcherPathsIgnored) == ignYes {
				c.Count("search_ignored")
				continue
			}
			set := map[string]bool{}
			var parts []string
			for _, id := range f.IDs {
				for _, e := range refElements(id) {
					set[e], all[e] = true, true
				}
				if strings.Contains(id, " AND ") || strings.Contains(id, " OR ") {
					parts = append(parts, "("+id+")")
					c.Count("compound")
				} else {
					parts = append(parts, id)
				}
			}
			if len(set) == 0 {
				c.Count("noassertion_files")
				continue
			}
			wf.LicenseInfoInFiles = sortedKeys(set)
			if len(f.IDs) == 1 {
				wf.LicenseConcluded = f.IDs[0]
			} else {
				wf.LicenseConcluded = strings.Join(parts, " AND ")
				c.Count("multiple")
			}
		}
		if len(all) > 0 {
			want.Packages[0].PackageLicenseInfoFromFiles = sortedKeys(all)
		} else {
			want.Packages[0].PackageLicenseInfoFromFiles = []string{"NOASSERTION"}
			c.Count("noassertion_packages")
		}
		if df := sameBuilt(doc, want, cfg.NamespacePrefix, "", t0, time.Now().UTC()); df != "" {
			c.Violationf("BuildIDsDocument: %s; %s", df, desc)
			return
		}
		if df := diff(cfg, snap); df != "" {
			c.Violationf("BuildIDsDocument changed its configuration: %s", df)
			return
		}
		c.Count("documents")
		c.Seen(len(kept), sortedKeys(all), cfg.SearcherPathsIgnored)
		if k == 0 {
			c.Sample(map[string]any{"files": len(kept), "licenses": sortedKeys(all), "not_searched": cfg.SearcherPathsIgnored})
		}
	}
	badRoots(c, t, func(root string) error {
		_, err := idsearcher.BuildIDsDocument("p", root, &idsearcher.Config{})
		return err
	})
	denied(c, t, true, func(pats []string) error {
		_, err := idsearcher.BuildIDsDocument("p", t.root, &idsearcher.Config{BuilderPathsIgnored: pats})
		return err
	})
}
