package props

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C27", Quick: 40000, Thorough: 800000, Run: cliFiles,
		Rule: "a history with at least one command that writes two or more files, or meets an existing path"})
}

// A pattern and the files it means, as paths relative to the scratch directory.
type globCase struct {
	pattern string
	base    string
	match   func(rel string) bool
}

func inDir(dir string) func(string) bool {
	return func(p string) bool { return path.Dir(p) == dir }
}

func globs(files []string, t *pbt.T) globCase {
	ext := pbt.Pick(t, ".html", ".htm", ".md", "")
	has := func(p string) bool { return ext == "" || strings.HasSuffix(p, ext) }
	d := pbt.Pick(t, "a", "b", "a/b", "nodir")
	switch t.Weighted(4, 3, 3, 2, 2, 2, 1) {
	case 1:
		return globCase{d + "/*" + ext, d, func(p string) bool { return path.Dir(p) == d && has(p) }}
	case 2:
		return globCase{"**/*" + ext, ".", has}
	case 3:
		return globCase{"*" + ext, ".", func(p string) bool { return path.Dir(p) == "." && has(p) }}
	case 4:
		return globCase{"{a,b}/*" + ext, ".", func(p string) bool { return (path.Dir(p) == "a" || path.Dir(p) == "b") && has(p) }}
	case 5:
		return globCase{d + "/**/*" + ext, d, func(p string) bool { return strings.HasPrefix(p, d+"/") && has(p) }}
	case 6:
		q := pbt.Pick(t, "?.html", "[xy].html", "x.*", "nothing*")
		return globCase{"**/" + q, ".", func(p string) bool { ok, _ := path.Match(q, path.Base(p)); return ok }}
	}
	f := pbt.Pick(t, append(append([]string{}, files...), "missing.html")...)
	return globCase{f, path.Dir(f), func(p string) bool { return p == f }}
}

// snapshot reads a directory.
func snapshot(dir string) (files map[string]string, dirs map[string]bool) {
	files, dirs = map[string]string{}, map[string]bool{}
	must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		rel = filepath.ToSlash(rel)
		if d.IsDir() {
			dirs[rel] = true
			return nil
		}
		b, err := os.ReadFile(p)
		files[rel] = string(b)
		return err
	}))
	return
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func restore(dir string, files map[string]string, dirs map[string]bool) {
	for _, d := range keys(dirs) {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	for _, f := range keys(files) {
		must(os.WriteFile(filepath.Join(dir, f), []byte(files[f]), 0o644))
	}
}

func baseName(p string) string { return strings.TrimSuffix(path.Base(p), path.Ext(p)) }

// expectOutputs checks that the files written into a directory are the outputs
// of these inputs: one for each, the first of a name under that name.
func expectOutputs(t *pbt.T, r *cliRun, inputs []string, content, written map[string]string) {
	var want, got []string
	for _, in := range inputs {
		want = append(want, content[in])
		if _, ok := written[baseName(in)+".md"]; !ok {
			t.Fatalf("there is no output %s.md for %q: wrote %q\n%s", baseName(in), in, keys(written), r)
		}
	}
	for _, f := range keys(written) {
		got = append(got, written[f])
		ok := false
		for _, in := range inputs {
			ok = ok || written[f] == content[in] && outputName(in, f)
		}
		if !ok {
			t.Fatalf("the file %s with %q is no output of %q\n%s", f, written[f], inputs, r)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\x00") != strings.Join(got, "\x00") {
		t.Fatalf("the outputs of %q are %q (%q) and not %q\n%s", inputs, got, keys(written), want, r)
	}
}

// outputName reports whether a file can be the output of an input: its name,
// or, if that is taken, its name with a hash.
func outputName(in, f string) bool {
	rest, ok := strings.CutPrefix(f, baseName(in))
	return ok && (rest == ".md" || hashName.MatchString(rest))
}

var hashName = regexp.MustCompile(`^\.[0-9a-z]{10,}\.md$`)

// cliFiles runs a history of commands on a directory.
func cliFiles(t *pbt.T) {
	dir := scratchDir(t)
	defer os.RemoveAll(dir)
	n := 0
	page := func() string {
		n++
		return fmt.Sprintf("<p>page %d <b>bold</b></p>", n) + strings.Repeat("<p>more</p>", t.Intn(3))
	}
	md := func(page string) string {
		r := cli(page)
		if r.code != 0 || !strings.HasSuffix(r.stdout, "\n") {
			t.Fatalf("the command failed: %s", r)
		}
		return strings.TrimSuffix(r.stdout, "\n")
	}
	t.Each(1, 7, func(int) {
		p := path.Join(pbt.Pick(t, ".", "a", "b", "a/b"), pbt.Pick(t, "x.html", "y.html", "x.htm", "x.y.html", "noext", "x.md", "s p.html", "é.html", "日.htm", ".html", "X.html", "x.HTML", "'q'.html", "x..html", "\"q\"", "'q'", "x"))
		must(os.MkdirAll(filepath.Join(dir, path.Dir(p)), 0o755))
		must(os.WriteFile(filepath.Join(dir, p), []byte(page()), 0o644))
	})
	if t.Chance(1, 40) {
		t.Label("many")
		for i, n := 0, min(150, gen.Times(t, 10, 3000)); i < n; i++ {
			must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("m%d.html", i)), []byte(fmt.Sprintf("<p>m<b>%d</b></p>", i)), 0o644))
		}
	}
	if t.Chance(1, 4) {
		// an empty file where an output could be
		p := pbt.Pick(t, "out/x.md", "out/y.md", "r.md", "a/x.md", "x.md")
		if os.MkdirAll(filepath.Join(dir, path.Dir(p)), 0o755) == nil {
			_ = os.WriteFile(filepath.Join(dir, p), nil, 0o644) // unless a directory is there
		}
	}
	if t.Chance(1, 4) {
		_ = os.MkdirAll(filepath.Join(dir, pbt.Pick(t, "out", "a/out", "x.html.d", "out/x.md")), 0o755) // unless a file is there
	}
	cwd, err := os.Getwd()
	must(err)
	relative := t.Chance(1, 4)
	at := func(p string) string {
		full := dir + "/" + p
		if relative {
			if rel, err := filepath.Rel(cwd, dir); err == nil {
				full = rel + "/" + p
			}
		}
		return full
	}
	history := []string{}
	t.Each(1, 4, func(int) {
		before, dirs := snapshot(dir)
		g := globs(keys(before), t)
		var inputs []string
		for _, f := range keys(before) {
			if g.match(f) {
				inputs = append(inputs, f)
			}
		}
		var fs [][]string
		fromStdin := t.Chance(1, 8)
		stdin := ""
		if fromStdin {
			stdin = page()
			inputs = []string{""}
		} else {
			if t.Chance(1, 3) {
				stdin = page() // not used
			}
			fs = append(fs, spellFlag(t, "input", at(g.pattern)))
		}
		out := ""
		switch t.Weighted(3, 3, 4, 1) {
		case 1:
			out = pbt.Pick(t, "r.md", "out", "deep/er/r.md", "a", "x.md", "a/x.html", "x.html/r.md", "noext")
		case 2:
			out = pbt.Pick(t, "out/", "out/", "new/er/", "a/", "./", "x.html/", "noext/")
		case 3:
			out = pbt.Pick(t, keys(before)...)
		}
		if out != "" {
			fs = append(fs, spellFlag(t, "output", at(out)))
		}
		overwrite := t.Bool()
		if overwrite {
			fs = append(fs, spellBool(t, "output-overwrite", true))
		}
		shuffle(t, fs)
		args := flat(fs)
		r := &cliRun{args: args, stdin: strings.NewReader(stdin), limit: -1}
		r.run()
		history = append(history, strings.ReplaceAll(fmt.Sprintf("%q => %d", args, r.code), dir, "DIR"))
		t.Note("history", strings.Join(history, "\n"))
		t.Note("files before", strings.Join(keys(before), " "))
		after, afterDirs := snapshot(dir)

		// what the outputs should be
		content := map[string]string{}
		for _, in := range inputs {
			if fromStdin {
				content["output"] = md(stdin)
			} else {
				content[in] = md(before[in])
			}
		}
		if fromStdin {
			inputs = []string{"output"}
		}
		written := map[string]string{} // new or changed files
		for f, c := range after {
			if old, ok := before[f]; !ok || old != c {
				written[f] = c
			}
		}
		for f := range written {
			if info, err := os.Stat(filepath.Join(dir, f)); err == nil && info.Mode().Perm()&0o600 != 0o600 {
				t.Fatalf("the file %s cannot be read and replaced by its owner (%v): %s", f, info.Mode(), r)
			}
		}
		for f := range before {
			if _, ok := after[f]; !ok {
				t.Fatalf("the file %s is gone: %s", f, r)
			}
		}
		for d := range dirs {
			if !afterDirs[d] {
				t.Fatalf("the directory %s is gone: %s", d, r)
			}
		}
		nothing := func() {
			if len(written) > 0 {
				t.Fatalf("the files %q are written: %s", keys(written), r)
			}
		}
		isDir := strings.HasSuffix(out, "/")
		clean := path.Clean(out)
		blocked := false // a file stands where a directory is needed
		for p := clean; p != "." && out != ""; p = path.Dir(p) {
			if _, ok := before[p]; ok && (p != clean || isDir) {
				blocked = true
			}
		}
		switch {
		case len(inputs) == 0:
			t.Label("no input")
			r.wantErr(t, "no")
			nothing()
		case out == "" && len(inputs) > 1, out != "" && !isDir && len(inputs) > 1:
			t.Label("not a directory")
			r.wantErr(t, "director")
			nothing()
		case out == "":
			t.Label("stdout")
			r.wantOK(t, content[inputs[0]]+"\n")
			nothing()
		case blocked:
			t.Label("blocked")
			r.wantErr(t)
			nothing()
		case !isDir:
			_, exists := before[clean]
			switch {
			case dirs[clean]:
				t.Label("is a directory")
				r.wantErr(t, "director")
				nothing()
			case exists && !overwrite:
				t.Label("exists")
				t.NonTrivial(strings.Join(history, ";"))
				r.wantErr(t, "exist", "output-overwrite")
				nothing()
			default:
				t.Label("file")
				r.wantOK(t, "")
				if got, ok := after[clean]; !ok || got != content[inputs[0]] {
					t.Fatalf("the output is %q and not %q: %s", got, content[inputs[0]], r)
				}
				delete(written, clean)
				nothing()
			}
		default:
			if len(inputs) > 1 {
				t.NonTrivial(strings.Join(history, ";"))
			}
			here := map[string]string{}
			for f, c := range after {
				if path.Dir(f) == clean {
					here[path.Base(f)] = c
				}
			}
			for f := range written {
				if path.Dir(f) != clean {
					t.Fatalf("a file is written outside of the output directory: %s\n%s", f, r)
				}
			}
			// outputs that are in the way
			plain := false
			for _, in := range inputs {
				p := path.Join(clean, baseName(in)+".md")
				if _, ok := before[p]; ok && !overwrite || dirs[p] {
					plain = true
				}
			}
			switch {
			case plain:
				t.Label("exists in directory")
				t.NonTrivial(strings.Join(history, ";"))
				r.wantErr(t)
				for f := range written {
					if _, ok := before[f]; ok && !overwrite {
						t.Fatalf("the file %s was replaced: %s", f, r)
					}
				}
			case r.code == 0:
				t.Label("directory")
				r.wantOK(t, "")
				outs := map[string]string{}
				for f, c := range here {
					if _, changed := written[path.Join(clean, f)]; changed {
						outs[f] = c
					}
				}
				// a rewritten file may be as it was
				ks := keys(here)
				sort.SliceStable(ks, func(i, j int) bool {
					_, a := outs[ks[i]]
					_, b := outs[ks[j]]
					return a && !b || a == b && len(ks[i]) < len(ks[j])
				})
				claimed := map[string]bool{}
				for _, in := range inputs {
					for _, f := range ks {
						_, changed := outs[f]
						if (changed || overwrite) && !claimed[f] && here[f] == content[in] && outputName(in, f) {
							claimed[f] = true
							outs[f] = here[f]
							break
						}
					}
				}
				expectOutputs(t, r, inputs, content, outs)
				if !overwrite && t.Chance(1, 3) {
					sameElsewhere(t, g, before, dirs, inputs, written, clean)
				}
			default:
				// a name with a hash can exist from an earlier command
				clash := false
				for f := range before {
					if path.Dir(f) == clean && !overwrite && regexp.MustCompile(`\.[0-9a-z]{10,}\.md$`).MatchString(f) {
						clash = true
					}
				}
				if !clash {
					t.Fatalf("the command failed: %s", r)
				}
				r.wantErr(t)
				for f := range written {
					if _, ok := before[f]; ok {
						t.Fatalf("the file %s was replaced: %s", f, r)
					}
				}
			}
		}
	})
	t.Sample(strings.Join(history, "; "))
}

// sameElsewhere: the names of the outputs do not depend on where the inputs are.
func sameElsewhere(t *pbt.T, g globCase, before map[string]string, dirs map[string]bool, inputs []string, written map[string]string, out string) {
	if inputs[0] == "output" && len(inputs) == 1 {
		return
	}
	dir := scratchDir(t)
	defer os.RemoveAll(dir)
	restore(dir, before, dirs)
	r := cli("", "--input="+dir+"/"+g.pattern, "--output", dir+"/other place/")
	r.wantOK(t, "")
	files, _ := snapshot(dir + "/other place")
	for f, c := range files {
		if written[path.Join(out, f)] != c {
			t.Fatalf("the same inputs elsewhere give other outputs: %s is %q\n%q\n%q", f, c, keys(written), keys(files))
		}
	}
	if len(files) != len(written) {
		t.Fatalf("the same inputs elsewhere give other outputs:\n%q\n%q", keys(written), keys(files))
	}
}
