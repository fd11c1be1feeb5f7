package props

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C37",
		Title: "String functions agree with text semantics",
		Rule:  "the text has at least two characters and one of them repeats or is not a plain letter",
		Facets: []pbt.Facet{
			{Name: "take", Quick: 3000, Thorough: 60000, Batch: 100, Run: strTake},
			{Name: "join", Quick: 3000, Thorough: 60000, Batch: 100, Run: strJoin},
			{Name: "replace", Quick: 3000, Thorough: 60000, Batch: 100, Run: strReplace},
			{Name: "survive", Quick: 2500, Thorough: 50000, Batch: 100, Run: strSurvive},
		},
	})
}

// A few characters each, so that texts repeat themselves.
var strAlphabets = [][]string{
	{"a", "b"},
	{"a", "b", "A", " "},
	{"é", "e", "ê", "e\u0301"},
	{"\"", "\\", "n", "\n", "\\n", "\t", "\\\"", "(*", "*)"},
	{"中", "文", "a", "😀", "😁", "𝕏"},
	{"ß", "ẞ", "ss", "ı", "I", "ſ"},
	{"1", "2", ".", "-", "#", "$", "`", "%", "&", "<", ">", "_", "^", "{", "|"},
	{"\x00", "\x7f", "\u0080", "\u00ff", "\u07ff", "\u0800", "\uffff", "\ufffd", "\U0010ffff", "\ue000", "\u2028"},
	{"\\[", "Alpha", "]", "α", "\\", ":", "\\:03b1", "\\101"},
}

func genRunes(t *T) string {
	al := pbt.Pick(t, strAlphabets)
	n := t.Int(0, 9)
	if t.P(1, 12) {
		n = t.Int(10, 700)
	}
	var b strings.Builder
	for ; n > 0; n-- {
		if t.P(1, 15) {
			al = pbt.Pick(t, strAlphabets)
		}
		b.WriteString(pbt.Pick(t, al))
	}
	return b.String()
}

func richText(s string) bool {
	seen := map[rune]bool{}
	for _, c := range s {
		if seen[c] || c < 'A' || c > 'z' {
			return utf8.RuneCountInString(s) >= 2
		}
		seen[c] = true
	}
	return false
}

func xtake(s string, i, j *X) *X { return xE("StringTake", xs(s), xl(i, j)) }

func strTake(t *T) {
	es := t.ES()
	s := genRunes(t)
	c := []rune(s)
	n := len(c)
	t.NontrivialIf(richText(s))
	t.Case("%q", s)
	want(t, es, xE("StringLength", xs(s)), xi(int64(n)))
	switch t.W(3, 3, 3) {
	case 0: // one range
		i := t.Int(1, n+1)
		j := t.Int(i-1, n)
		t.Case("%q {%d, %d}", s, i, j)
		want(t, es, xtake(s, xi(int64(i)), xi(int64(j))), xs(string(c[i-1:j])))
	case 1: // cut anywhere
		cuts := []int{0}
		for k := t.Int(1, 4); k > 0; k-- {
			cuts = append(cuts, t.Int(cuts[len(cuts)-1], n))
		}
		cuts = append(cuts, n)
		t.Case("%q cut at %v", s, cuts)
		parts, lens := []*X{}, []*X{}
		for k := 1; k < len(cuts); k++ {
			p := xtake(s, xi(int64(cuts[k-1]+1)), xi(int64(cuts[k])))
			parts = append(parts, p)
			lens = append(lens, xE("StringLength", p))
		}
		want(t, es, xE("StringJoin", parts...), xs(s))
		want(t, es, xE("Plus", lens...), xi(int64(n)))
	case 2: // beyond the ends
		big1 := func() *big.Int {
			k := big.NewInt(int64(t.Int(1, 5)))
			if t.P(1, 3) {
				k.Lsh(k, uint(pbt.Of(t, 31, 32, 62, 63, 64, 100)))
			}
			return k
		}
		i, j := big.NewInt(int64(t.Int(1, n+1))), new(big.Int).Add(big.NewInt(int64(n)), big1())
		if t.P(1, 2) {
			i, j = new(big.Int).Sub(big.NewInt(1), big1()), big.NewInt(int64(t.Int(0, n)))
			if i.Sign() < 0 && t.P(1, 2) { // 0 and everything below is no position
				i.SetInt64(0)
			}
		}
		if i.Cmp(j) > 0 {
			t.Discard()
		}
		x := xtake(s, xI(i), xI(j))
		t.Case("%s", x)
		want(t, es, x, x)
	}
}

func strJoin(t *T) {
	es := t.ES()
	n := t.Int(0, 5)
	all := ""
	total := 0
	args := []*X{}
	holes := map[string]string{}
	for k := 0; k < n; k++ {
		s := genRunes(t)
		all += s
		total += utf8.RuneCountInString(s)
		if t.P(1, 5) {
			h := fmt.Sprintf("h%dsj", k)
			holes[h] = s
			args = append(args, glo(h))
			continue
		}
		args = append(args, xs(s))
	}
	x := xE("StringJoin", args...)
	grouped := len(args) > 1 && t.P(1, 3)
	if grouped {
		k := t.Int(1, len(args)-1)
		x = xE("StringJoin", xE("StringJoin", args[:k]...), xE("StringJoin", args[k:]...))
	}
	flat := xE("StringJoin", args...)
	if len(holes) == 0 && t.P(1, 4) {
		x = xE("StringJoin", xl(args...))
		if t.P(1, 3) && len(args) > 0 {
			x = xE("StringJoin", xl(xl(args...)))
		}
	}
	t.Case("%s", x)
	t.NontrivialIf(n >= 2 && richText(all))
	if len(holes) > 0 {
		// Without a text for every piece nothing is joined or lost.
		if len(args) > 1 && !grouped {
			want(t, es, x, flat)
		}
		rules := []*X{}
		for k := 0; k < n; k++ {
			if s, ok := holes[fmt.Sprintf("h%dsj", k)]; ok {
				rules = append(rules, xE("Rule", glo(fmt.Sprintf("h%dsj", k)), xs(s)))
			}
		}
		x = xE("ReplaceAll", x, xl(rules...))
	}
	want(t, es, x, xs(all))
	want(t, es, xE("StringLength", x), xi(int64(total)))
	if n > 0 && len(holes) == 0 {
		lens := []*X{}
		for _, a := range args {
			lens = append(lens, xi(int64(utf8.RuneCountInString(a.S))))
		}
		want(t, es, xE("StringLength", xl(args...)), xl(lens...))
	}
}

func strReplace(t *T) {
	es := t.ES()
	al := pbt.Pick(t, strAlphabets)
	piece := func(lo, hi int) string {
		s := ""
		for n := t.Int(lo, hi); n > 0; n-- {
			s += pbt.Pick(t, al)
		}
		return s
	}
	old := piece(1, 3)
	s := ""
	for n := t.Int(0, 8); n > 0; n-- {
		switch t.W(2, 2, 1) {
		case 0:
			s += piece(1, 2)
		case 1:
			s += old
		case 2: // nearly
			c := []rune(old)
			s += string(c[:t.Int(0, len(c))])
		}
	}
	if t.P(1, 20) {
		s = strings.Repeat(s, t.Int(1, 60))
	}
	sub := piece(0, 3)
	if t.P(1, 4) {
		sub += old
	}
	if t.P(1, 8) {
		sub += pbt.Of(t, "$1", "\\0", "$0", "&", "%s", "${1}")
	}
	// Reference: from the left, without overlaps.
	var b strings.Builder
	count := 0
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], old) {
			b.WriteString(sub)
			i += len(old)
			count++
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	x := xE("StringReplace", xs(s), xE("Rule", xs(old), xs(sub)))
	t.Case("%s", x)
	t.NontrivialIf(count > 0 && richText(s))
	want(t, es, x, xs(b.String()))
	delta := utf8.RuneCountInString(sub) - utf8.RuneCountInString(old)
	want(t, es, xE("StringLength", x), xi(int64(utf8.RuneCountInString(s)+count*delta)))
	want(t, es, xE("StringReplace", xs(s), xE("Rule", xs(old), xs(old))), xs(s))
}

func strSurvive(t *T) {
	es := t.ES()
	s := genRunes(t)
	u := genRunes(t)
	if t.P(1, 3) { // nearly the same
		c := []rune(s)
		if len(c) > 0 {
			k := t.Int(0, len(c)-1)
			c[k] = []rune(pbt.Of(t, "a", "A", "e", " ", "\u0301"))[0]
			u = string(c)
		}
	} else if t.P(1, 5) {
		u = s
	}
	t.Case("%q and %q", s, u)
	t.NontrivialIf(richText(s))
	want(t, es, xs(s), xs(s))
	want(t, es, xE("ToString", xs(s)), xs(s))
	want(t, es, xE("ToString", xs(s), sys("OutputForm")), xs(s))
	for _, form := range []string{"InputForm", "FullForm"} {
		p := ev(es, xE("ToString", xs(s), sys(form)))
		if p.K != 's' {
			t.Failf("the %s of %q is %s", form, s, p)
		}
		if back := parse(es, p.S); !xeq(back, xs(s)) {
			t.Failf("the %s of %q is %s, which is read as %s", form, s, p.S, back)
		}
	}
	same := boolX(s == u)
	for _, h := range []string{"Equal", "SameQ", "MatchQ"} {
		want(t, es, xE(h, xs(s), xs(u)), same)
	}
	for _, h := range []string{"Unequal", "UnsameQ"} {
		want(t, es, xE(h, xs(s), xs(u)), boolX(s != u))
	}
	// Stored, as a value and as a key.
	v, f := glo(fmt.Sprintf("sv%d", t.Index)), glo(fmt.Sprintf("sf%d", t.Index))
	ev(es, xE("Set", v, xs(s)))
	want(t, es, xl(v, xE("StringLength", v)), xl(xs(s), xi(int64(utf8.RuneCountInString(s)))))
	ev(es, xE("Set", xe(f, xs(s)), xi(1)))
	ev(es, xE("Set", xe(f, xs(u)), xi(2)))
	k := int64(1)
	if s == u {
		k = 2
	}
	want(t, es, xl(xe(f, v), xe(f, xs(u))), xl(xi(k), xi(2)))
	w := u
	if s == "" {
		w = s + "x"
	}
	want(t, es, xE("ReplaceAll", xl(xs(s), xs(w+s+"!"), v), xE("Rule", xs(s), xi(7))), xl(xi(7), xs(w+s+"!"), xi(7)))
	if t.P(1, 2) {
		e := ev(es, xE("ExportString", xs(s), xs(pbt.Of(t, "base64", "Base64", "BASE64"))))
		if e.K != 's' {
			t.Failf("base64 of %q is %s", s, e)
		}
		if d, err := base64.StdEncoding.DecodeString(strings.TrimSuffix(e.S, "\n")); err != nil || string(d) != s {
			t.Failf("base64 of %q is %s", s, e)
		}
	}
}
