// Package shellc checks shell execution (C36).
package shellc

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC36(t *testing.T) {
	vt.Check(t, "scripts", "one to three scripts run one after the other, drawn from a grammar of prints of text and bytes to both outputs, variables, directories, conditionals, loops, functions, here-documents, subshells, expansions, pipes, background jobs, failing commands, exits, kills and stop-on-error mode, whose output and status the harness works out itself; non-trivial: a failure, output on standard error, or a multi-line construct",
		450, 20000, scripts)
	vt.Check(t, "large", "outputs of up to two megabytes on either or both streams, in both orders and interleaved, and scripts of up to half a megabyte, ending in success or failure; non-trivial: more than a pipe holds on some stream or in the script",
		100, 3000, large)
	vt.Check(t, "concurrent", "two to six goroutines running one to three drawn scripts each at the same time; every result must be its own script's, also when looked at again after all others ended; non-trivial: at least two scripts with different results",
		120, 4000, concurrent)
}

// ---- scripts and their meaning

type state struct {
	out, err strings.Builder
	vars     map[string]string
	dir      string
	onError  bool // set -e
	status   int
	ended    bool
}

type stmt interface {
	text(b *strings.Builder)
	run(s *state)
}

type script struct {
	body  []stmt
	multi bool
	// ways a text can end before the line break added by the caller
	tail string
}

func (p script) String() string {
	var b strings.Builder
	for i, st := range p.body {
		if i > 0 {
			b.WriteString("\n")
		}
		st.text(&b)
	}
	return b.String() + p.tail
}

func (p script) result() (out, err string, failed bool) {
	s := &state{vars: map[string]string{}, dir: start}
	runAll(p.body, s)
	return s.out.String(), s.err.String(), s.status != 0
}

func runAll(body []stmt, s *state) {
	for _, st := range body {
		if s.ended {
			return
		}
		st.run(s)
		if s.onError && s.status != 0 {
			s.ended = true
		}
	}
}

var start = func() string { d, _ := os.Getwd(); return d }()

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

type put struct {
	data  string
	toErr bool
	how   int
}

func (p put) text(b *strings.Builder) {
	switch p.how {
	case 0:
		b.WriteString("printf '%s' " + quote(p.data))
	case 1:
		b.WriteString("printf '")
		for i := 0; i < len(p.data); i++ {
			fmt.Fprintf(b, `\%03o`, p.data[i])
		}
		b.WriteString("'")
	case 2:
		b.WriteString("cat <<'END'")
		if p.toErr {
			b.WriteString(" >&2")
		}
		b.WriteString("\n" + p.data + "END")
		return
	}
	if p.toErr {
		b.WriteString(" >&2")
	}
}

func (p put) run(s *state) {
	s.status = 0
	if p.toErr {
		s.err.WriteString(p.data)
	} else {
		s.out.WriteString(p.data)
	}
}

type set struct{ name, value string }

func (p set) text(b *strings.Builder) { b.WriteString("export " + p.name + "=" + quote(p.value)) }
func (p set) run(s *state)            { s.vars[p.name] = p.value; s.status = 0 }

type show struct {
	name  string
	plain bool
}

func (p show) text(b *strings.Builder) {
	if p.plain {
		fmt.Fprintf(b, `printf '[%%s]' "$%s"`, p.name)
		return
	}
	fmt.Fprintf(b, `printf '[%%s]' "${%s-unset}"`, p.name)
}
func (p show) run(s *state) {
	v, ok := s.vars[p.name]
	if !ok && !p.plain {
		v = "unset"
	}
	s.out.WriteString("[" + v + "]")
	s.status = 0
}

// idiom is a statement that prints the same anywhere and succeeds.
type idiom struct{ code, out string }

var idioms = []idiom{
	{"printf '<%s>' /dev/nul[l] /dev/no-such-*", "</dev/null></dev/no-such-*>"},
	{`printf '(%s)' "$#" "$*"`, "(0)()"},
	{"printf '%s' \"$VT_INHERITED\"", inherited},
	{"(printf x) & wait", "x"},
	{"printf '1 2\\n3 4\\n' | while read -r a b; do printf '%s-%s;' \"$a\" \"$b\"; done", "1-2;3-4;"},
	{"printf '%s' $((6 * 7))", "42"},
	{"printf '%s' \"$(printf 'a\\n\\n'; printf b)\"", "a\n\nb"},
	{"printf '%s' `printf q`", "q"},
	{"cat </dev/null", ""},
	{"read -r v </dev/null || printf none", "none"},
	{"printf '%s ' a  b   c", "a b c "},
	{"unset nope_; printf '%s' ${nope_}${nope_:-d}", "d"},
	{"case abc in a*) printf yes;; *) printf no;; esac", "yes"},
	{"! false", ""},
	{"false || printf or", "or"},
	{"false && printf and || :", ""},
	{"printf gone >/dev/null", ""},
	{"trap : INT", ""},
	{"printf '%s\n' z y | sort", "y\nz\n"},
	{"umask >/dev/null; printf '\\0\\1' | od -An -tx1", " 00 01\n"},
}

const inherited = "from the caller: \t'é"

func init() { os.Setenv("VT_INHERITED", inherited) }

func (p idiom) text(b *strings.Builder) { b.WriteString(p.code) }
func (p idiom) run(s *state)            { s.out.WriteString(p.out); s.status = 0 }

type cd struct{ to string }

func (p cd) text(b *strings.Builder) { b.WriteString("cd " + p.to) }
func (p cd) run(s *state)            { s.dir = p.to; s.status = 0 }

type pwd struct{}

func (p pwd) text(b *strings.Builder) { b.WriteString("pwd -P") }
func (p pwd) run(s *state)            { s.out.WriteString(s.dir + "\n"); s.status = 0 }

type fail struct{ n, how int }

func (p fail) text(b *strings.Builder) {
	switch p.how {
	case 0:
		fmt.Fprintf(b, "(exit %d)", p.n)
	case 1:
		fmt.Fprintf(b, "sh -c 'exit %d'", p.n)
	case 2:
		b.WriteString("false")
	case 3:
		b.WriteString("true | false")
	}
}
func (p fail) run(s *state) {
	if s.status = p.n; p.how >= 2 {
		s.status = 1
	}
}

type exit struct {
	n    int
	kill bool
}

func (p exit) text(b *strings.Builder) {
	if p.kill {
		b.WriteString("kill -9 $$")
		return
	}
	if p.n < 0 {
		b.WriteString("exit")
		return
	}
	fmt.Fprintf(b, "exit %d", p.n)
}
func (p exit) run(s *state) {
	s.ended = true
	switch {
	case p.kill:
		s.status = 137
	case p.n >= 0:
		s.status = p.n % 256
	}
}

type strict struct{ on bool }

func (p strict) text(b *strings.Builder) {
	if p.on {
		b.WriteString("set -e")
	} else {
		b.WriteString("set +e")
	}
}
func (p strict) run(s *state) { s.onError = p.on; s.status = 0 }

type comment struct{ s string }

func (p comment) text(b *strings.Builder) { b.WriteString("# " + p.s) }
func (p comment) run(*state)              {}

func block(b *strings.Builder, body []stmt) {
	for _, st := range body {
		st.text(b)
		b.WriteString("\n")
	}
}

type cond struct {
	yes       bool
	then, alt []stmt
}

func (p cond) text(b *strings.Builder) {
	fmt.Fprintf(b, "if %v\nthen\n:\n", p.yes)
	block(b, p.then)
	b.WriteString("else\n:\n")
	block(b, p.alt)
	b.WriteString("fi")
}
func (p cond) run(s *state) {
	s.status = 0
	if p.yes {
		runAll(p.then, s)
	} else {
		runAll(p.alt, s)
	}
}

type loop struct {
	words []string
	body  []stmt
}

func (p loop) text(b *strings.Builder) {
	b.WriteString("for w in " + strings.Join(p.words, " ") + "\ndo\n" + `printf '<%s>' "$w"` + "\n")
	block(b, p.body)
	b.WriteString("done")
}
func (p loop) run(s *state) {
	s.status = 0
	for _, w := range p.words {
		if s.ended {
			return
		}
		s.vars["w"] = w
		s.out.WriteString("<" + w + ">")
		s.status = 0
		runAll(p.body, s)
	}
}

type sub struct{ body []stmt }

func (p sub) text(b *strings.Builder) {
	b.WriteString("(\n:\n")
	block(b, p.body)
	b.WriteString(")")
}
func (p sub) run(s *state) {
	in := &state{vars: map[string]string{}, dir: s.dir, onError: s.onError}
	for k, v := range s.vars {
		in.vars[k] = v
	}
	runAll(p.body, in)
	s.out.WriteString(in.out.String())
	s.err.WriteString(in.err.String())
	s.status = in.status
}

type call struct{ body []stmt }

func (p call) text(b *strings.Builder) {
	b.WriteString("f() {\n:\n")
	block(b, p.body)
	b.WriteString("}\nf")
}
func (p call) run(s *state) { s.status = 0; runAll(p.body, s) }

// ---- generation

const alphabet = "abc XYZ 012$`\"'\\*?[]{}()|&;<>#~!%^=-\téß页👩\n"

func word(rt *rapid.T) string {
	n := rapid.IntRange(0, 12).Draw(rt, "length")
	rs := []rune(alphabet)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[rapid.IntRange(0, len(rs)-1).Draw(rt, "character")])
	}
	return b.String()
}

func drawPut(rt *rapid.T) put {
	p := put{how: vt.Weighted(rt, "how", 3, 2, 2), toErr: rapid.IntRange(0, 2).Draw(rt, "to error") == 0}
	switch p.how {
	case 0:
		p.data = word(rt)
	case 1:
		p.data = string(vt.Bytes(20).Draw(rt, "bytes"))
	case 2:
		for i := rapid.IntRange(0, 4).Draw(rt, "lines"); i > 0; i-- {
			p.data += strings.ReplaceAll(word(rt), "\n", " ") + "\n"
		}
	}
	return p
}

func drawBody(rt *rapid.T, depth, max int, multi *bool) []stmt {
	var body []stmt
	for i := rapid.IntRange(0, max).Draw(rt, "statements"); i > 0; i-- {
		k := vt.Weighted(rt, "statement", 8, 2, 2, 1, 2, 4, 1, 1, 1, 5)
		switch k {
		case 0:
			body = append(body, drawPut(rt))
		case 1:
			body = append(body, set{vt.Pick(rt, "name", "VA", "VB", "w"), word(rt)})
		case 2:
			body = append(body, show{vt.Pick(rt, "name", "VA", "VB", "w"), rapid.Bool().Draw(rt, "plain")})
		case 3:
			body = append(body, cd{vt.Pick(rt, "to", "/", "/usr", "/dev")})
		case 4:
			body = append(body, pwd{})
		case 5:
			body = append(body, fail{rapid.IntRange(0, 255).Draw(rt, "n"), rapid.IntRange(0, 3).Draw(rt, "how")})
		case 6:
			body = append(body, exit{n: vt.Pick(rt, "n", -1, 0, 0, 1, 2, 126, 127, 255), kill: depth == 0 && rapid.IntRange(0, 5).Draw(rt, "kill") == 0})
		case 7:
			body = append(body, strict{rapid.Bool().Draw(rt, "on")})
		case 8:
			body = append(body, comment{"a 'comment \" ("})
		case 9:
			body = append(body, idioms[rapid.IntRange(0, len(idioms)-1).Draw(rt, "idiom")])
		}
		if depth < 2 && rapid.IntRange(0, 4).Draw(rt, "nest") == 0 {
			*multi = true
			in := drawBody(rt, depth+1, 3, multi)
			switch rapid.IntRange(0, 3).Draw(rt, "construct") {
			case 0:
				body = append(body, cond{rapid.Bool().Draw(rt, "yes"), in, drawBody(rt, depth+1, 2, multi)})
			case 1:
				body = append(body, loop{[]string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(rt, "words")], in})
			case 2:
				body = append(body, sub{in})
			case 3:
				body = append(body, call{in})
			}
		}
	}
	return body
}

func drawScript(rt *rapid.T) script {
	var p script
	p.body = drawBody(rt, 0, 6, &p.multi)
	p.tail = vt.Pick(rt, "tail", "", "", "\n", ";", "\n\n", " # end", "\n# end", "\n  ")
	if p.tail == ";" {
		// only after something a semicolon can follow
		p.tail = "\n:;"
		p.body = append(p.body, exit{n: -1})
	}
	if _, here := last(p.body).(put); here && last(p.body).(put).how == 2 && strings.HasPrefix(p.tail, " ") {
		p.tail = ""
	}
	return p
}

func last(body []stmt) stmt {
	if len(body) == 0 {
		return nil
	}
	return body[len(body)-1]
}

// ---- checks

type outcome struct {
	buf *bytes.Buffer
	err error
}

func brief(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q… (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func judge(text string, o outcome, out, errOut string, failed bool) string {
	if !failed {
		if o.err != nil {
			return fmt.Sprintf("succeeds, but ShellExec returned the error %s", brief(o.err.Error()))
		}
		if o.buf == nil || o.buf.String() != out {
			return fmt.Sprintf("prints %s, but ShellExec returned %s", brief(out), brief(o.buf.String()))
		}
		return ""
	}
	if o.err == nil {
		return fmt.Sprintf("fails, but ShellExec returned no error and the output %s", brief(o.buf.String()))
	}
	if !strings.Contains(o.err.Error(), errOut) {
		return fmt.Sprintf("fails with standard error %s, but the error is %s", brief(errOut), brief(o.err.Error()))
	}
	if o.buf != nil && o.buf.Len() > 0 {
		return fmt.Sprintf("fails, but ShellExec returned the output %s", brief(o.buf.String()))
	}
	return ""
}

func exec(text string) outcome {
	b, err := utils.ShellExec(text)
	return outcome{b, err}
}

func scripts(rt *rapid.T, c *vt.C) {
	for i := rapid.IntRange(1, 3).Draw(rt, "scripts"); i > 0; i-- {
		p := drawScript(rt)
		text := p.String()
		out, errOut, failed := p.result()
		c.Logf("%q", text)
		c.NTIf(failed || errOut != "" || p.multi)
		c.LabelIf(failed, "failed")
		if why := judge(text, exec(text), out, errOut, failed); why != "" {
			rt.Fatalf("script %s %s", brief(text), why)
		}
	}
}

func large(rt *rapid.T, c *vt.C) {
	size := func(label string) int {
		return vt.Pick(rt, label, 0, 1, 4095, 4097, 65535, 65537, 200000, 1<<20, 2<<20) + rapid.IntRange(0, 3).Draw(rt, label)
	}
	var b strings.Builder
	var out, errOut strings.Builder
	nt := false
	for i := rapid.IntRange(1, 4).Draw(rt, "outputs"); i > 0; i-- {
		n := size("size")
		ch := vt.Pick(rt, "byte", "x", "y", "\\n", "\\377")
		fmt.Fprintf(&b, "head -c %d /dev/zero | tr '\\0' '%s'", n, ch)
		nt = nt || n > 65536
		raw := map[string]string{"x": "x", "y": "y", "\\n": "\n", "\\377": "\xff"}[ch]
		if rapid.Bool().Draw(rt, "to error") {
			b.WriteString(" >&2")
			errOut.WriteString(strings.Repeat(raw, n))
		} else {
			out.WriteString(strings.Repeat(raw, n))
		}
		b.WriteString("\n")
	}
	if lines := vt.Pick(rt, "padding", 0, 0, 1000, 10000); lines > 0 {
		b.WriteString(strings.Repeat("# a comment that makes the script longer\n", lines))
		b.WriteString("printf end\n")
		out.WriteString("end")
		nt = nt || lines == 10000
	}
	failed := rapid.Bool().Draw(rt, "fail")
	if failed {
		b.WriteString("exit 3")
	}
	text := b.String()
	c.Logf("%s", brief(text))
	c.NTIf(nt)
	if why := judge(text, exec(text), out.String(), errOut.String(), failed); why != "" {
		rt.Fatalf("script %s %s", brief(text), why)
	}
}

func concurrent(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(2, 6).Draw(rt, "goroutines")
	plans := make([][]script, n)
	results := make([][]outcome, n)
	different := map[string]bool{}
	for g := range plans {
		for i := rapid.IntRange(1, 3).Draw(rt, "scripts"); i > 0; i-- {
			p := drawScript(rt)
			out, e, f := p.result()
			different[fmt.Sprint(out, f, e)] = true
			c.Logf("%d: %q", g, p.String())
			plans[g] = append(plans[g], p)
		}
		results[g] = make([]outcome, len(plans[g]))
	}
	c.NTIf(len(different) > 1)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for g := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for i, p := range plans[g] {
				results[g][i] = exec(p.String())
			}
		}()
	}
	close(begin)
	wg.Wait()
	for g := range plans {
		for i, p := range plans[g] {
			out, e, f := p.result()
			if why := judge(p.String(), results[g][i], out, e, f); why != "" {
				rt.Fatalf("script %s %s", brief(p.String()), why)
			}
		}
	}
}
