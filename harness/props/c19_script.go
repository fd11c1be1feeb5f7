package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/corywalker/expreduce/expreduce"

	"verif/harness/pbt"
)

// script is a model of a session in which a script runs: two variables, a
// function u -> mul*u + add, and a log.
type script struct {
	t        *T
	n        int64
	mul, add int64
	log      []int64
	id       int
	breaks   int
}

func (m *script) logged() *X {
	var l []*X
	for _, v := range m.log {
		l = append(l, xi(v))
	}
	return xl(l...)
}

// statement draws a statement, notes its effect, and returns its text and its
// value. In the text a ~ stands where a line may be broken and a ` where it may
// not.
func (m *script) statement(depth int) (string, *X) {
	t := m.t
	k := int64(t.Int(1, 9))
	N, F, L := fmt.Sprintf("n%d", m.id), fmt.Sprintf("f%d", m.id), fmt.Sprintf("log%d", m.id)
	note := func(v int64) { m.log = append(m.log, v) }
	pick := t.W(3, 3, 1, 2, 1, 1, 2, 2, 1, 1, 1)
	if depth == 0 && pick == 6 || depth < 2 && pick == 7 {
		pick = 0
	}
	switch pick {
	case 0:
		note(k)
		return fmt.Sprintf("%s`=~Append[~%s~,~%d~]", L, L, k), m.logged()
	case 1:
		m.n += k
		return fmt.Sprintf("%s`=~%s`+~%d", N, N, k), xi(m.n)
	case 2:
		m.mul, m.add = k, int64(t.Int(0, 5))
		return fmt.Sprintf("%s[u_]`:=~u`*~%d`+~%d", F, m.mul, m.add), sys("Null")
	case 3:
		return fmt.Sprintf("%s[~%d~]", F, k), xi(m.mul*k + m.add)
	case 4:
		return fmt.Sprintf("{~%s~,~%d~,{~}~}", N, k), xl(xi(m.n), xi(k), xl())
	case 5:
		s := pbt.Of(t, "text", "(* no comment *)", "a\nb", "1; 2", "]", "{", "\\")
		return fullText(xs(s)), xs(s)
	case 6:
		a, _ := m.statement(depth - 1)
		b, v := m.statement(depth - 1)
		if t.Bool() {
			return fmt.Sprintf("(~%s`;~%s~)", a, b), v
		}
		return fmt.Sprintf("%s`;`%s", a, b), v
	case 7:
		m.n += k
		return fmt.Sprintf("%s`+=~%d`;", N, k), sys("Null")
	case 8:
		if m.n > 20 {
			note(k)
		} else {
			note(-k)
		}
		return fmt.Sprintf("If[~%s`>~20~,~%s`=~Append[~%s~,~%d~]~,~%s`=~Append[~%s~,~-%d~]~]", N, L, L, k, L, L, k), m.logged()
	case 9:
		for i := int64(1); i <= k; i++ {
			note(i)
		}
		return fmt.Sprintf("Do[~%s`=~Append[~%s~,~i~]~,~{~i~,~%d~}~]", L, L, k), sys("Null")
	}
	return L, m.logged()
}

// lay replaces the gaps of a statement by space, comments and line breaks.
func (m *script) lay(s string) string {
	t := m.t
	var b strings.Builder
	inString := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case inString && c == '\\':
			b.WriteString(s[i : i+2])
			i++
		case c == '"':
			inString = !inString
			b.WriteByte(c)
		case inString:
			b.WriteByte(c)
		case c == '~' && t.P(1, 3):
			m.breaks++
			b.WriteString(pbt.Of(t, "\n", " \n", "\r\n", "\n\n", " (* x\n] *) \n", "\n  \t"))
		case c == '~' || c == '`':
			b.WriteString(pbt.Of(t, "", " ", "  ", "\t", "(**)", " (* a (* b *) ; *) ", "(* [ *)"))
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (m *script) between() string {
	t := m.t
	s := pbt.Of(t, "", " ", " (* end *)", "\t", "\r", "(* x\n y *)") + "\n"
	for t.P(1, 3) {
		s += pbt.Of(t, "\n", "  \n", "(* line *)\n", "(* two\nlines *)\n", "\t\n", "\r\n", "(* (* nested *) ( { [ \" *) ")
	}
	return s
}

// cli runs the interpreter program and returns what it printed.
func cli(t *T, stdin string, args ...string) string {
	prog := os.Getenv("VERIF_CLI")
	if prog == "" {
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		prog = filepath.Join(filepath.Dir(exe), "expreduce")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, prog, args...)
	cmd.Stdin = strings.NewReader(stdin)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		t.Failf("the program ended with %v\n%s", err, clip(errs.String()))
	}
	return out.String()
}

// c19Program runs the program on an initialisation file and a script.
func c19Program(t *T) {
	m := &script{t: t, mul: 1, id: 1}
	dir, err := os.MkdirTemp("", "verif-c19-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	want := "Welcome to Expreduce!\n\n"
	write := func(name string, start string) string {
		b := start
		for n := t.Int(1, 6); n > 0; n-- {
			if t.P(1, 3) {
				want += fmt.Sprintf("%d\n", m.n)
				b += "Print[n1]" + m.between()
				continue
			}
			src, _ := m.statement(2)
			b += m.lay(src) + m.between()
		}
		want += m.logged().String() + "\n"
		b += "Print[log1]"
		if t.Bool() {
			b += m.between()
		}
		path := filepath.Join(dir, name)
		if err := os.WriteFile(path, []byte(b), 0o600); err != nil {
			panic(err)
		}
		t.Logf("%s %q", name, b)
		return path
	}
	start := "n1 = 0\nlog1 = {}\nf1[u_] := u\n"
	var args []string
	if t.Bool() {
		args = append(args, "-initfile", write("init.m", start))
		start = ""
	}
	args = append(args, "-script", write("script.m", start))
	t.Case("%s", want)
	t.NontrivialIf(len(m.log) > 1)
	if got := cli(t, "", args...); got != want {
		t.Failf("printed\n%s\nexpected\n%s", got, want)
	}
}

func c19Script(t *T) {
	es := t.ES()
	m := &script{t: t, mul: 1, id: t.Index}
	run(es, fmt.Sprintf("n%d = 0", m.id))
	run(es, fmt.Sprintf("log%d = {}", m.id))
	run(es, fmt.Sprintf("Clear[f%d, u]", m.id))
	run(es, fmt.Sprintf("f%d[u_] := u", m.id))
	var b strings.Builder
	var values []*X
	last := sys("Null")
	if t.P(1, 3) {
		b.WriteString(m.between())
	}
	n := t.Int(0, 9)
	for i := 0; i < n; i++ {
		src, v := m.statement(2)
		last = v
		values = append(values, v)
		b.WriteString(m.lay(src))
		if i < n-1 {
			b.WriteString(m.between())
		}
	}
	if n > 0 && t.P(1, 4) {
		t.Label("error")
		b.WriteString(m.between())
		b.WriteString(pbt.Of(t, "n = = 3", ")", "f[1", "{1, 2", "n + ]", "\"open", "(* open", "f[1,, 2}"))
		if t.Bool() {
			lost := &script{t: t, id: m.id}
			src, _ := lost.statement(0)
			if !strings.Contains(src, "\"") {
				b.WriteString("\n" + lost.lay(src) + "\n")
			}
		}
	} else if t.Bool() {
		b.WriteString(m.between())
	}
	text := b.String()
	way := pbt.Of(t, "many", "get", "list")
	t.Case("%s %q", way, text)
	t.NontrivialIf(n >= 3 && m.breaks > 0)
	t.Label(way)
	var got, want *X
	switch way {
	case "many":
		got, want = from(expreduce.EvalInterpMany(text, "script", es)), last
	default:
		f, err := os.CreateTemp("", "verif-c19-*.m")
		if err != nil {
			panic(err)
		}
		defer os.Remove(f.Name())
		if _, err := f.WriteString(text); err != nil {
			panic(err)
		}
		f.Close()
		if way == "get" {
			got, want = evEx(es, xE("Get", xs(f.Name())).Ex()), last
		} else {
			got, want = evEx(es, xE("ReadList", xs(f.Name())).Ex()), xl(values...)
		}
	}
	if !xeq(got, want) {
		t.Failf("result %s\nexpected %s", got, want)
	}
	state := run(es, fmt.Sprintf("{n%d, log%d, f%d[10]}", m.id, m.id, m.id))
	if want := xl(xi(m.n), m.logged(), xi(10*m.mul+m.add)); !xeq(state, want) {
		t.Failf("state afterwards %s\nexpected %s", state, want)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C19", Title: "Scripts evaluate every statement once, in order, whatever the layout",
		Rule: "script: three or more statements with a line break inside one; program: two or more entries in the log",
		Facets: []pbt.Facet{
			{Name: "script", Quick: 12000, Thorough: 600000, Batch: 400, Run: c19Script},
			{Name: "program", Quick: 100, Thorough: 4000, Batch: 4, Run: c19Program},
		},
	})
}
