// Package props states the properties of corywalker/expreduce as executable
// checks over generated inputs.
package props

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"

	"verif/harness/pbt"
)

type (
	T  = pbt.T
	Ex = expreduceapi.Ex
	ES = *expreduce.EvalState
)

// X is the harness's own expression tree, independent of the code under test.
// K: i integer, r rational, f real, c complex, s string, y symbol, e normal
// expression (P[0] is the head).
type X struct {
	K    byte
	N, D *big.Int
	F    *big.Float
	S    string
	P    []*X
}

func bi(n int64) *big.Int        { return big.NewInt(n) }
func xi(n int64) *X              { return &X{K: 'i', N: bi(n)} }
func xI(n *big.Int) *X           { return &X{K: 'i', N: new(big.Int).Set(n)} }
func xs(s string) *X             { return &X{K: 's', S: s} }
func xf(f float64) *X            { return &X{K: 'f', F: big.NewFloat(f)} }
func xc(re, im *X) *X            { return &X{K: 'c', P: []*X{re, im}} }
func xe(h *X, args ...*X) *X     { return &X{K: 'e', P: append([]*X{h}, args...)} }
func sys(name string) *X         { return &X{K: 'y', S: "System`" + name} }
func glo(name string) *X         { return &X{K: 'y', S: "Global`" + name} }
func xE(h string, args ...*X) *X { return xe(sys(h), args...) }
func xG(h string, args ...*X) *X { return xe(glo(h), args...) }
func xl(args ...*X) *X           { return xE("List", args...) }

// xq builds the canonical number for a rational.
func xq(r *big.Rat) *X {
	if r.IsInt() {
		return xI(r.Num())
	}
	return &X{K: 'r', N: new(big.Int).Set(r.Num()), D: new(big.Int).Set(r.Denom())}
}

// xz builds the canonical Gaussian rational.
func xz(re, im *big.Rat) *X {
	if im.Sign() == 0 {
		return xq(re)
	}
	return xc(xq(re), xq(im))
}

func (x *X) isNum() bool { return x.K == 'i' || x.K == 'r' || x.K == 'f' || x.K == 'c' }

func (x *X) rat() *big.Rat {
	switch x.K {
	case 'i':
		return new(big.Rat).SetInt(x.N)
	case 'r':
		return new(big.Rat).SetFrac(x.N, x.D)
	case 'f':
		r, _ := x.F.Rat(nil)
		return r
	}
	return nil
}

func (x *X) head(name string) bool {
	return x.K == 'e' && x.P[0].K == 'y' && x.P[0].S == "System`"+name
}

func (x *X) args() []*X { return x.P[1:] }

func xeq(a, b *X) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'i':
		return a.N.Cmp(b.N) == 0
	case 'r':
		return a.N.Cmp(b.N) == 0 && a.D.Cmp(b.D) == 0
	case 'f':
		return a.F.Cmp(b.F) == 0
	case 's', 'y':
		return a.S == b.S
	}
	if len(a.P) != len(b.P) {
		return false
	}
	for i := range a.P {
		if !xeq(a.P[i], b.P[i]) {
			return false
		}
	}
	return true
}

// String is an unambiguous full form.
func (x *X) String() string {
	var b strings.Builder
	x.write(&b, false)
	return b.String()
}

// Src is source text for the parser (only for strings without escapes).
func (x *X) Src() string {
	var b strings.Builder
	x.write(&b, true)
	return b.String()
}

func (x *X) write(b *strings.Builder, src bool) {
	switch x.K {
	case 'i':
		b.WriteString(x.N.String())
	case 'r':
		if src {
			fmt.Fprintf(b, "Rational[%s,%s]", x.N, x.D)
		} else {
			fmt.Fprintf(b, "%s/%s", x.N, x.D)
		}
	case 'f':
		s := x.F.Text('f', -1)
		if !strings.Contains(s, ".") {
			s += "."
		}
		b.WriteString(s)
	case 'c':
		b.WriteString("Complex[")
		x.P[0].write(b, src)
		b.WriteString(", ")
		x.P[1].write(b, src)
		b.WriteString("]")
	case 's':
		if src {
			b.WriteString(`"` + x.S + `"`)
		} else {
			b.WriteString(strconv.Quote(x.S))
		}
	case 'y':
		s := x.S
		if strings.HasPrefix(s, "System`") {
			s = s[7:]
		} else if strings.HasPrefix(s, "Global`") {
			s = s[7:]
		}
		b.WriteString(s)
	default:
		if x.head("List") {
			b.WriteString("{")
			for i, a := range x.args() {
				if i > 0 {
					b.WriteString(", ")
				}
				a.write(b, src)
			}
			b.WriteString("}")
			return
		}
		x.P[0].write(b, src)
		b.WriteString("[")
		for i, a := range x.P[1:] {
			if i > 0 {
				b.WriteString(", ")
			}
			a.write(b, src)
		}
		b.WriteString("]")
	}
}

// Ex builds a fresh expression of the system under test.
func (x *X) Ex() Ex {
	switch x.K {
	case 'i':
		return atoms.NewInteger(new(big.Int).Set(x.N))
	case 'r':
		return atoms.NewRational(new(big.Int).Set(x.N), new(big.Int).Set(x.D))
	case 'f':
		return atoms.NewReal(new(big.Float).Set(x.F))
	case 'c':
		return atoms.NewComplex(x.P[0].Ex(), x.P[1].Ex())
	case 's':
		return atoms.NewString(x.S)
	case 'y':
		return atoms.NewSymbol(x.S)
	}
	parts := make([]Ex, len(x.P))
	for i := range x.P {
		parts[i] = x.P[i].Ex()
	}
	return atoms.NewExpression(parts)
}

// from reads an expression of the system under test.
func from(e Ex) *X {
	switch v := e.(type) {
	case *atoms.Integer:
		return xI(v.Val)
	case *atoms.Rational:
		return &X{K: 'r', N: new(big.Int).Set(v.Num), D: new(big.Int).Set(v.Den)}
	case *atoms.Flt:
		return &X{K: 'f', F: new(big.Float).Copy(v.Val)}
	case *atoms.Complex:
		return xc(from(v.Re), from(v.Im))
	case *atoms.String:
		return xs(v.Val)
	case *atoms.Symbol:
		return &X{K: 'y', S: v.Name}
	case expreduceapi.ExpressionInterface:
		x := &X{K: 'e'}
		for _, p := range v.GetParts() {
			x.P = append(x.P, from(p))
		}
		return x
	}
	panic(fmt.Sprintf("unknown expression type %T", e))
}

// ev evaluates a tree; an uncaught Throw is returned as Hold-free marker and
// cleared so that the interpreter can be used again.
func ev(es ES, x *X) *X { return evEx(es, x.Ex()) }

func evEx(es ES, e Ex) *X {
	r := es.Eval(e)
	if es.HasThrown() {
		th := from(es.Thrown())
		es.Throw(nil)
		return xG("UNCAUGHT", th)
	}
	return from(r)
}

// run parses and evaluates source text.
func run(es ES, src string) *X { return evEx(es, parser.Interp(src, es)) }

// parse only parses.
func parse(es ES, src string) *X { return from(parser.Interp(src, es)) }

func srcs(xsl []*X) string {
	var s []string
	for _, x := range xsl {
		s = append(s, x.Src())
	}
	return strings.Join(s, ", ")
}

func contains(x *X, f func(*X) bool) bool {
	if f(x) {
		return true
	}
	for _, p := range x.P {
		if contains(p, f) {
			return true
		}
	}
	return false
}

func size(x *X) int {
	n := 1
	for _, p := range x.P {
		n += size(p)
	}
	return n
}

func join(xsl []*X) string {
	var s []string
	for _, x := range xsl {
		s = append(s, x.String())
	}
	return strings.Join(s, ", ")
}

func clone(x *X) *X {
	y := *x
	y.P = make([]*X, len(x.P))
	for i := range x.P {
		y.P[i] = clone(x.P[i])
	}
	return &y
}
