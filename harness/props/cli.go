package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/cli/html2markdown/cmd"

	"verif/harness/pbt"
)

// exitCode unwinds a run of the CLI like os.Exit ends the process.
type exitCode int

func init() { cmd.OsExiter = func(c int) { panic(exitCode(c)) } }

// cliFile is a standard stream.
type cliFile struct {
	in    io.Reader
	out   bytes.Buffer
	tty   bool
	limit int // of bytes that can be written, -1 for none
}

type cliInfo struct{ mode fs.FileMode }

func (i cliInfo) Name() string       { return "stream" }
func (i cliInfo) Size() int64        { return 0 }
func (i cliInfo) Mode() fs.FileMode  { return i.mode }
func (i cliInfo) ModTime() time.Time { return time.Time{} }
func (i cliInfo) IsDir() bool        { return false }
func (i cliInfo) Sys() any           { return nil }

var errStream = errors.New("stream is broken")

func (f *cliFile) Read(p []byte) (int, error) {
	if f.in == nil {
		return 0, io.EOF
	}
	return f.in.Read(p)
}
func (f *cliFile) Write(p []byte) (int, error) {
	if f.limit >= 0 && f.out.Len()+len(p) > f.limit {
		n := max(0, f.limit-f.out.Len())
		f.out.Write(p[:n])
		return n, errStream
	}
	return f.out.Write(p)
}
func (f *cliFile) Stat() (fs.FileInfo, error) {
	if f.tty {
		return cliInfo{os.ModeDevice | os.ModeCharDevice}, nil
	}
	return cliInfo{os.ModeNamedPipe}, nil
}

type cliRun struct {
	args   []string
	stdin  io.Reader // nil for a terminal
	limit  int       // of stdout
	tty    bool      // stdout and stderr
	stdout string
	stderr string
	code   int
}

var cliRelease = cmd.Release{Version: "1.2.3-verif", Commit: "abcdef1", Date: "2026-01-02"}

// run runs the CLI in this process.
func (r *cliRun) run() {
	in := &cliFile{in: r.stdin, tty: r.stdin == nil}
	out := &cliFile{limit: r.limit, tty: r.tty}
	errs := &cliFile{limit: -1, tty: r.tty}
	r.code = -1
	func() {
		defer func() {
			if x := recover(); x != nil {
				c, ok := x.(exitCode)
				if !ok {
					panic(x)
				}
				r.code = int(c)
			}
		}()
		cmd.Run(in, out, errs, append([]string{"html2markdown"}, r.args...), cliRelease)
	}()
	r.stdout, r.stderr = out.out.String(), errs.out.String()
}

func cli(stdin string, args ...string) *cliRun {
	r := &cliRun{args: args, stdin: strings.NewReader(stdin), limit: -1}
	r.run()
	return r
}

func (r *cliRun) String() string {
	return fmt.Sprintf("html2markdown %q: exit code %d\nstdout %q\nstderr %q", r.args, r.code, clipS(r.stdout, 1000), clipS(r.stderr, 1000))
}

// wantOK demands that the run succeeded and printed this.
func (r *cliRun) wantOK(t *pbt.T, stdout string) {
	switch {
	case r.code != 0:
		t.Fatalf("the command failed: %s", r)
	case r.stdout != stdout:
		t.Fatalf("not the expected output %q: %s", clipS(stdout, 1000), r)
	case r.stderr != "":
		t.Fatalf("something is written to stderr: %s", r)
	}
}

// wantErr demands that the run failed with an explanation, and no output.
func (r *cliRun) wantErr(t *pbt.T, parts ...string) {
	if r.code != 1 {
		t.Fatalf("exit code %d and not 1: %s", r.code, r)
	}
	if r.stdout != "" {
		t.Fatalf("a failed command has output: %s", r)
	}
	if strings.TrimSpace(r.stderr) == "" {
		t.Fatalf("a failed command does not say why: %s", r)
	}
	for _, p := range parts {
		if !strings.Contains(r.stderr, p) {
			t.Fatalf("the error message does not mention %q: %s", p, r)
		}
	}
}

// spellFlag draws how a flag with a value is written.
func spellFlag(t *pbt.T, name, value string) []string {
	d := pbt.Pick(t, "--", "-")
	if t.Bool() {
		return []string{d + name, value}
	}
	return []string{d + name + "=" + value}
}

func spellBool(t *pbt.T, name string, on bool) []string {
	d := pbt.Pick(t, "--", "-")
	if on {
		return []string{d + name + pbt.Pick(t, "", "", "=true", "=1", "=t", "=TRUE")}
	}
	return []string{d + name + pbt.Pick(t, "=false", "=0", "=F")}
}

// shuffle draws an order.
func shuffle[V any](t *pbt.T, vs []V) {
	for i := len(vs) - 1; i > 0; i-- {
		j := i - t.Intn(i+1)
		vs[i], vs[j] = vs[j], vs[i]
	}
}

// cliFlags spells a configuration as flags.
func cliFlags(t *pbt.T, c Config, domain string) [][]string {
	var fs [][]string
	str := func(name, v string) {
		if v != "" {
			fs = append(fs, spellFlag(t, name, v))
		}
	}
	flag := func(name string, on bool) {
		if on || t.Chance(1, 12) {
			fs = append(fs, spellBool(t, name, on))
		}
	}
	str("opt-strong-delimiter", c.StrongD)
	flag("plugin-strikethrough", c.Strike)
	flag("plugin-table", c.Table)
	flag("opt-table-skip-empty-rows", c.SkipEmpty)
	flag("opt-table-header-promotion", c.Promote)
	flag("opt-table-presentation-tables", c.Presentation)
	str("opt-table-span-cell-behavior", c.Span)
	str("opt-table-newline-behavior", c.Newline)
	str("opt-table-cell-padding-behavior", c.Padding)
	str("domain", domain)
	return fs
}

// cliConfig draws a configuration that the CLI can express.
func cliConfig(t *pbt.T) Config {
	d := GenConfig(t)
	c := Config{StrongD: d.StrongD, Strike: d.Strike, Table: d.Table, Span: d.Span, Newline: d.Newline, Padding: d.Padding,
		SkipEmpty: d.SkipEmpty, Promote: d.Promote, Presentation: d.Presentation}
	if t.Chance(1, 4) {
		c.StrongD = "__"
	}
	return c
}

func flat(fs [][]string) []string {
	var out []string
	for _, f := range fs {
		out = append(out, f...)
	}
	return out
}
