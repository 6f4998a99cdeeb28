package props

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C28", Quick: 60000, Thorough: 1500000, Run: cliArgs,
		Rule: "a command line of at least two parts, or a broken stream"})
}

var cliBools = []string{"version", "v", "output-overwrite", "plugin-strikethrough", "plugin-table", "opt-table-skip-empty-rows", "opt-table-header-promotion", "opt-table-presentation-tables"}
var cliStrings = []string{"input", "output", "domain", "include-selector", "exclude-selector", "opt-strong-delimiter", "opt-table-span-cell-behavior", "opt-table-newline-behavior", "opt-table-cell-padding-behavior"}

func cliKnown(name string) bool {
	for _, f := range append(append([]string{"help", "h"}, cliBools...), cliStrings...) {
		if f == name {
			return true
		}
	}
	return false
}

// typo makes one mistake.
func typo(t *pbt.T, s string) string {
	i := t.Intn(len(s))
	switch t.Intn(4) {
	case 0:
		return s[:i] + s[i+1:]
	case 1:
		return s[:i] + pbt.Pick(t, "x", "e", "s", "_", "1") + s[i:]
	case 2:
		return s[:i] + pbt.Pick(t, "x", "e", "_", "Q") + s[i+1:]
	}
	return s + pbt.Pick(t, "s", "e", "-")
}

func editDistance(a, b string) int {
	row := make([]int, len(b)+1)
	for j := range row {
		row[j] = j
	}
	for i := range len(a) {
		diag := row[0]
		row[0] = i + 1
		for j := range len(b) {
			d := diag
			if a[i] != b[j] {
				d++
			}
			diag = row[j+1]
			row[j+1] = min(d, row[j]+1, row[j+1]+1)
		}
	}
	return row[len(b)]
}

// cliArgs: what a command line means, and what is refused.
func cliArgs(t *pbt.T) {
	dir := scratchDir(t)
	defer os.RemoveAll(dir)
	must(os.WriteFile(dir+"/in.html", []byte("<p>file <b>bold</b></p>"), 0o644))
	html := pbt.Pick(t, "<p>stdin <b>bold</b></p>", "<b>x</b>", "<table><tr><td>a</td></tr></table>", "", strings.Repeat("<p>long text</p>", 300))

	// the model of the command line
	var (
		args               []string
		unlike             string   // an unknown flag that is like no other
		early              = true   // decided before anything is converted
		stop               string   // what decides: "", "error", "help"
		mention            []string // in the error message
		set                = map[string]string{}
		strict             []string // mentions needed if nothing else is wrong
		version, positions bool
	)
	fail := func(ms ...string) {
		if stop == "" && !positions {
			stop, mention = "error", ms
		}
	}
	n := 0
	t.Each(0, 5, func(i int) {
		n++
		switch t.Weighted(8, 2, 2, 1, 1, 1, 1, 1) {
		case 0: // a valid flag with a value
			name := pbt.Pick(t, "domain", "opt-strong-delimiter", "input", "output", "include-selector", "exclude-selector", "opt-table-span-cell-behavior", "opt-table-newline-behavior", "opt-table-cell-padding-behavior")
			v, ok := "", true
			switch name {
			case "domain":
				v = pbt.Pick(t, "example.com", "", "http://x.y/")
			case "opt-strong-delimiter":
				v = pbt.Pick(t, "**", "__", "**", "*", "_", "??", "***", " **")
			case "input":
				v = dir + "/" + pbt.Pick(t, "in.html", "in.html", "missing.html", "*.html", "in[.html")
			case "output":
				v = dir + "/" + pbt.Pick(t, "out.md", "out/", "in.html", "new/out.md", "new/er/")
			case "include-selector", "exclude-selector":
				v = pbt.Pick(t, "p", "b", ".none", "p, b", "?", " ")
				ok = v != "?" && v != " "
			case "opt-table-span-cell-behavior":
				v = pbt.Pick(t, "empty", "mirror", "Mirror", "x")
			case "opt-table-newline-behavior":
				v = pbt.Pick(t, "skip", "preserve", "preserved")
			default:
				v = pbt.Pick(t, "aligned", "minimal", "none", "None")
			}
			if _, twice := set[name]; twice && (name == "input" || name == "output") {
				ok = false
			}
			args = append(args, spellFlag(t, name, v)...)
			if !ok {
				fail(name)
				return
			}
			if stop == "" && !positions {
				set[name] = v
			}
		case 1, 2: // a valid switch
			name := pbt.Pick(t, cliBools...)
			if n > 1 && (name == "version" || name == "v") && t.Bool() {
				name = "plugin-table"
			}
			on := !t.Chance(1, 6)
			args = append(args, spellBool(t, name, on)...)
			if stop == "" && !positions {
				set[name] = fmt.Sprint(on)
				if name == "v" || name == "version" {
					version = on
				}
			}
		case 3: // a typo
			good := pbt.Pick(t, append(append([]string{}, cliBools...), cliStrings...)...)
			bad := good
			if len(good) > 4 {
				for bad = typo(t, good); t.Chance(1, 3); {
					bad = typo(t, bad)
				}
			} else {
				bad = "nosuchflagatall"
			}
			if cliKnown(bad) || bad[0] == '-' || strings.ContainsAny(bad, "=") {
				return
			}
			args = append(args, pbt.Pick(t, "--", "-")+bad+pbt.Pick(t, "", "=x", "="))
			// what is closest to it
			var nearest []string
			best := 5
			for _, f := range append(append([]string{}, cliBools...), cliStrings...) {
				if d := editDistance(f, bad); d < best {
					best, nearest = d, nil
				}
				if editDistance(f, bad) == best {
					nearest = append(nearest, f)
				}
			}
			if len(nearest) == 1 && best <= 4 && best < len(bad) && len(nearest[0]) > 1 {
				fail("--"+bad, "--"+nearest[0])
			} else {
				if stop == "" && !positions && best > 4 {
					unlike = bad
				}
				fail("-" + bad) // one letter has one dash
			}
		case 4: // nothing like any flag
			bad := pbt.Pick(t, "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "x", "日本", "INPUT", "0", "%s")
			args = append(args, "--"+bad)
			if stop == "" && !positions {
				unlike = bad
			}
			fail(bad)
		case 5:
			bad := pbt.Pick(t, "file.html", "<p>x</p>", "-", "help", "version", "%d")
			if i == 0 && bad == "-" {
				bad = "dash"
			}
			args = append(args, bad)
			if stop == "" {
				positions = true
			}
		case 6:
			name := pbt.Pick(t, cliBools...)
			bad := pbt.Pick(t, "yes", "2", "", "tru")
			args = append(args, "--"+name+"="+bad)
			fail(name)
		case 7:
			args = append(args, pbt.Pick(t, "--help", "-h", "-help"))
			if stop == "" && !positions {
				stop = "help"
			}
		}
	})
	if t.Chance(1, 12) {
		// no value
		name := pbt.Pick(t, cliStrings...)
		args = append(args, "--"+name)
		fail(name)
	}
	// what only shows when everything is parsed
	if stop == "" {
		on := func(k string) bool { return set[k] == "true" }
		if !on("plugin-table") {
			for _, k := range []string{"opt-table-skip-empty-rows", "opt-table-header-promotion", "opt-table-presentation-tables"} {
				if on(k) {
					stop, strict = "error", append(strict, k)
				}
			}
			for _, k := range []string{"opt-table-span-cell-behavior", "opt-table-newline-behavior", "opt-table-cell-padding-behavior"} {
				if set[k] != "" {
					stop, strict = "error", append(strict, k)
				}
			}
			if len(strict) == 1 {
				mention = []string{"--" + strict[0], "--plugin-table"}
			}
		}
		if stop == "" && positions {
			stop, mention = "error", []string{"argument"}
		}
	}
	stdinKind := t.Weighted(6, 1, 1, 1)
	stdoutBroken := t.Chance(1, 8)
	in := set["input"]
	want := ""
	if stop == "" && !version {
		bad := func(k, v string) bool {
			switch k {
			case "opt-strong-delimiter":
				return v != "" && v != "**" && v != "__"
			case "opt-table-span-cell-behavior":
				return v != "" && v != "empty" && v != "mirror"
			case "opt-table-newline-behavior":
				return v != "" && v != "skip" && v != "preserve"
			case "opt-table-cell-padding-behavior":
				return v != "" && v != "aligned" && v != "minimal" && v != "none"
			}
			return false
		}
		var bads []string
		for _, k := range keys(set) {
			if bad(k, set[k]) {
				bads = append(bads, k)
			}
		}
		_, overwrite := set["output-overwrite"]
		overwrite = overwrite && set["output-overwrite"] == "true"
		switch {
		case in == "" && stdinKind == 1:
			stop = "error" // a terminal
		case in == "" && stdinKind == 2:
			stop = "error" // a broken stream
		case strings.HasSuffix(in, "/missing.html"):
			stop, mention = "error", []string{"missing.html"}
		case strings.HasSuffix(in, "/in[.html"):
			stop = "error"
		case len(bads) > 0:
			stop, early = "error", false
			if len(bads) == 1 {
				mention = []string{set[bads[0]]}
				if bads[0] == "opt-strong-delimiter" {
					mention = append(mention, "--opt-strong-delimiter")
				}
			}
		case strings.HasSuffix(set["output"], "/in.html") && !overwrite:
			stop, mention, early = "error", []string{"in.html", "--output-overwrite"}, false
		default:
			src := html
			if in != "" {
				src = "<p>file <b>bold</b></p>"
			}
			// the same without what does not belong to the conversion
			var as []string
			for _, k := range keys(set) {
				if k != "input" && k != "output" && k != "output-overwrite" && k != "v" && k != "version" && k != "include-selector" && k != "exclude-selector" {
					as = append(as, "--"+k+"="+set[k])
				}
			}
			if set["include-selector"] != "" || set["exclude-selector"] != "" {
				want = "?" // see C26
				break
			}
			r := cli(src, as...)
			if r.code != 0 {
				t.Fatalf("a valid command failed: %s", r)
			}
			want = r.stdout
		}
	}
	t.Note("arguments", strings.ReplaceAll(fmt.Sprintf("%q", args), dir, "DIR"))
	r := &cliRun{args: args, limit: -1, tty: t.Chance(1, 6)}
	switch stdinKind {
	case 0:
		r.stdin = strings.NewReader(html)
	case 2:
		r.stdin = io.MultiReader(strings.NewReader(html), iotest.ErrReader(errStream))
	case 3:
		r.stdin = iotest.OneByteReader(strings.NewReader(html))
	}
	if stdoutBroken && len(want) > 1 {
		r.limit = t.Intn(len(want) - 1)
	}
	r.run()
	if len(args) > 1 || r.limit >= 0 || stdinKind == 2 {
		t.NonTrivial(strings.Join(args, "\x00") + fmt.Sprint(stdinKind, r.limit))
	}
	t.Sample(strings.ReplaceAll(fmt.Sprintf("%q => %d %q %q", args, r.code, clipS(r.stdout, 100), clipS(r.stderr, 200)), dir, "DIR"))
	files, dirs := snapshot(dir)
	src := files["in.html"]
	if set["output"] == "" || !strings.HasSuffix(set["output"], "/in.html") || stop != "" || set["output-overwrite"] != "true" || version {
		if src != "<p>file <b>bold</b></p>" {
			t.Fatalf("the input file was changed: %s", r)
		}
	}
	switch {
	case stop == "error":
		t.Label("refused")
		r.wantErr(t, mention...)
		if len(files) != 1 {
			t.Fatalf("a refused command writes the files %q: %s", keys(files), r)
		}
		if early && len(dirs) != 1 {
			t.Fatalf("a refused command makes the directories %q: %s", keys(dirs), r)
		}
		if unlike != "" {
			rest := strings.ReplaceAll(r.stderr, unlike, "")
			for _, f := range append(append([]string{}, cliBools...), cliStrings...) {
				if strings.Contains(rest, "-"+f+" ") {
					t.Fatalf("--%s is suggested for --%s: %s", f, unlike, r)
				}
			}
		}
	case stop == "help":
		t.Label("help")
		r.wantOK(t, cli("", "--help").stdout)
		for _, f := range append(append([]string{"--help"}, cliBools...), cliStrings...) {
			if f = strings.TrimPrefix(f, "--"); !strings.Contains(r.stdout, "-"+f) {
				t.Fatalf("the help does not mention --%s: %s", f, r)
			}
		}
		if !strings.Contains(r.stdout, cliRelease.Version) {
			t.Fatalf("the help does not mention the version: %s", r)
		}
	case version:
		t.Label("version")
		r.wantOK(t, cli("", "--version").stdout)
		for _, x := range []string{cliRelease.Version, cliRelease.Commit, cliRelease.Date} {
			if !strings.Contains(r.stdout, x) {
				t.Fatalf("the version does not mention %s: %s", x, r)
			}
		}
	case set["output"] != "":
		t.Label("to a file")
		r.wantOK(t, "")
		out := set["output"]
		if strings.HasSuffix(out, "/") {
			name := "output.md"
			if in != "" {
				name = "in.md"
			}
			out += name
		}
		got, err := os.ReadFile(out)
		if err != nil || want != "?" && string(got)+"\n" != want {
			rel, _ := filepath.Rel(dir, out)
			t.Fatalf("the output file %s has not the expected content %q: %q %v\n%s", rel, want, got, err, r)
		}
	case want == "?":
		r.wantOK(t, r.stdout)
	case r.limit >= 0 && r.limit < len(want):
		t.Label("broken stdout")
		if r.code != 1 || strings.TrimSpace(r.stderr) == "" {
			t.Fatalf("the output could not be written and this is not reported: %s", r)
		}
		if !strings.HasPrefix(want, r.stdout) {
			t.Fatalf("not the beginning of %q: %s", want, r)
		}
	default:
		t.Label("converted")
		r.wantOK(t, want)
	}
}
