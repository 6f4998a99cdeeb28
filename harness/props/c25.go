package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C25", Quick: 60000, Thorough: 1500000, Run: cliLibrary,
		Rule: "an input with at least one element, converted with at least one flag"})
}

// cliInput draws a document.
func cliInput(t *pbt.T, c Config) string {
	switch t.Weighted(3, 2, 1) {
	case 1:
		return gen.NewSoup(t, gen.SoupOpts{Malformed: t.Bool(), Hostile: t.Bool(), Tables: c.Table}).HTML(4)
	case 2:
		return pbt.Pick(t, "", " ", "\n", "text", "<!doctype html>", "<p></p>", "\x00", "\xff\xfe", "a\r\nb", "<b>x", "&amp;lt;", "%s %d %", "<table><tr><td>%v</table>", strings.Repeat("<div>", 600)+"x", strings.Repeat("<b>", 520))
	}
	g := gen.New(t, gen.DocOpts{Table: c.Table, Strike: c.Strike})
	return (&gen.Style{T: t}).Blocks(g.Doc(3, 4))
}

// cliLibrary: the CLI is the library with the flags as options.
func cliLibrary(t *pbt.T) {
	c := cliConfig(t)
	domain := pbt.Pick(t, "", "", "example.com", "https://example.com", "http://x.y/a/b/", "https://h:8080/p?q=1")
	if t.Chance(1, 30) {
		// a value the library refuses
		v := []*string{&c.StrongD}
		if c.Table {
			v = append(v, &c.Span, &c.Newline, &c.Padding)
		}
		p := pbt.Pick(t, v...)
		*p = pbt.Pick(t, "x", strings.ToUpper(*p), " "+*p, *p+" ", "\""+*p+"\"", *p+"\n", "Aligned", "EMPTY", "Skip")
	}
	in := cliInput(t, c)
	if t.Chance(1, 400) {
		t.Label("long")
		in += strings.Repeat("<p>some more text</p>\n", 3000+t.Intn(12000))
	}
	fs := cliFlags(t, c, domain)
	t.Note("html", in)
	t.Note("config", c.String())
	want, wantErr := "", error(nil)
	{
		c.LatePlugins = t.Bool() // makes no difference
		var opts []converter.ConvertOptionFunc
		if domain != "" {
			opts = append(opts, converter.WithDomain(domain))
		}
		md, err := c.New().ConvertReader(strings.NewReader(in), opts...)
		want, wantErr = string(md), err
	}
	if len(fs) > 0 && strings.Contains(in, "<") {
		t.NonTrivial(in + c.String())
	}
	stdin, file, output, overwrite := in, "", "", false
	mode := t.Weighted(6, 2, 2, 1)
	if t.Size == 0 {
		mode = 0
	}
	if mode > 0 {
		dir := scratchDir(t)
		defer os.RemoveAll(dir)
		if mode != 2 {
			// the file wins over stdin
			file = filepath.Join(dir, pbt.Pick(t, "in.html", "in", "a b.htm", "é.html", ".hidden", "x.md", "\"q\".html", "'q'", "%d.html", "a=b", "-x.html", "q\""))
			must(os.WriteFile(file, []byte(in), 0o644))
			stdin = pbt.Pick(t, "", "<p>something else</p>")
			fs = append(fs, spellFlag(t, "input", file))
		}
		if mode >= 2 {
			output = filepath.Join(dir, pbt.Pick(t, "out.md", "out", "sub/out.md", "a/b/c.txt"))
			if t.Bool() {
				overwrite = true
				must(os.MkdirAll(filepath.Dir(output), 0o755))
				must(os.WriteFile(output, []byte(strings.Repeat("old content ", 1+t.Intn(100))), 0o644))
			}
			fs = append(fs, spellFlag(t, "output", output))
		}
		if overwrite || t.Chance(1, 6) {
			fs = append(fs, spellBool(t, "output-overwrite", true))
		}
	}
	shuffle(t, fs)
	args := flat(fs)
	if t.Chance(1, 10) {
		args = append(args, "--")
	}
	t.Note("arguments", args)
	r := &cliRun{args: args, stdin: strings.NewReader(stdin), limit: -1, tty: t.Chance(1, 8)}
	if file != "" && t.Chance(1, 4) {
		r.stdin = nil
	}
	r.run()
	t.Sample(fmt.Sprintf("%q %q => %d %q", args, in, r.code, r.stdout))
	if wantErr != nil {
		t.Label("error")
		r.wantErr(t)
		if output != "" && !overwrite {
			if _, err := os.Stat(output); err == nil {
				t.Fatalf("a failed conversion leaves an output file: %s", r)
			}
		}
		return
	}
	if output != "" {
		t.Label("to a file")
		r.wantOK(t, "")
		got, err := os.ReadFile(output)
		if err != nil || string(got) != want {
			t.Fatalf("the output file has not the expected content (%v)\nwant %q\ngot  %q\n%s", err, want, got, r)
		}
		return
	}
	r.wantOK(t, want+"\n")
	if bin := os.Getenv("HM_CLI"); bin != "" && t.Chance(1, 200) {
		// the program itself
		t.Label("process")
		var o, e bytes.Buffer
		p := exec.Command(bin, args...)
		p.Stdin, p.Stdout, p.Stderr = strings.NewReader(stdin), &o, &e
		if err := p.Run(); err != nil || o.String() != want+"\n" || e.Len() > 0 {
			t.Fatalf("the program gives something else: %v\nwant %q\ngot  %q\nstderr %q", err, want+"\n", o.String(), e.String())
		}
		if o, err := exec.Command(bin, "--nosuchflag").Output(); err == nil || len(o) > 0 {
			t.Fatalf("the program accepts an unknown flag, or prints the error to stdout: %q", o)
		}
	}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("check error: %v", err))
	}
}

func scratchDir(t *pbt.T) string {
	dir, err := os.MkdirTemp("", "hmcli")
	must(err)
	return dir
}
