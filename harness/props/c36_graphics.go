package props

import (
	"bytes"
	"image/png"
	"math"
	"math/big"

	"github.com/corywalker/expreduce/expreduce/graphics"
	chart "github.com/wcharczuk/go-chart"

	"verif/harness/pbt"
)

type refStyle struct {
	r, g, b, a float64 // 0..1
	width      float64
}

type refLine struct {
	xs, ys []float64
	st     refStyle
}

// genDirective draws a style directive and applies it to the reference style.
func genDirective(t *T, st *refStyle) *X {
	unit := func() float64 { return float64(t.N(101)) / 100 }
	switch t.W(3, 3, 3, 1) {
	case 0:
		st.r, st.g, st.b = unit(), unit(), unit()
		return xE("RGBColor", xf(st.r), xf(st.g), xf(st.b))
	case 1:
		st.a = unit()
		return xE("Opacity", xf(st.a))
	case 2:
		st.width = float64(t.Int(0, 40)) / 8
		return xE("AbsoluteThickness", xf(st.width))
	}
	return pbt.Of(t, xE("Dashed"), sys("Thick"), glo("u"), xE("PointSize", xf(0.5)))
}

func genLine(t *T, st refStyle) (*X, *refLine) {
	l := &refLine{st: st}
	pts := xl()
	n := t.W(1, 1, 3, 3, 2)
	if t.P(1, 20) {
		n = t.Int(20, 60)
	}
	for i := 0; i < n; i++ {
		x, y := genFloat(t), genFloat(t)
		if t.P(1, 3) && i > 0 {
			x = l.xs[i-1]
		}
		l.xs, l.ys = append(l.xs, x), append(l.ys, y)
		pts.P = append(pts.P, xl(xf(x), xf(y)))
	}
	return xE("Line", pts), l
}

// genPrimitive draws a graphics element; lines it contains are added to out. The
// style is the one in force, and changes for what follows in the same list.
func genPrimitive(t *T, depth int, st *refStyle, out *[]*refLine) *X {
	switch t.W(5, 4, 3, 1) {
	case 0:
		x, l := genLine(t, *st)
		*out = append(*out, l)
		return x
	case 1:
		d := xE("Directive")
		for i := t.Int(0, 3); i > 0; i-- {
			d.P = append(d.P, genDirective(t, st))
		}
		return d
	case 2:
		if depth > 0 {
			inner := *st
			l := xl()
			for i := t.Int(0, 4); i > 0; i-- {
				l.P = append(l.P, genPrimitive(t, depth-1, &inner, out))
			}
			return l
		}
	}
	return pbt.Of(t, xE("Point", xl(xf(1), xf(2))), xE("Text", xs("a")), glo("u"), xf(1.5), xE("Circle"))
}

// spoil makes one part of a graphics expression malformed; nil if there is
// nothing to spoil.
func spoil(t *T, g *X) *X {
	var spots []*X
	var walk func(x *X)
	walk = func(x *X) {
		if x.head("Line") || x.head("RGBColor") || x.head("Opacity") || x.head("AbsoluteThickness") {
			spots = append(spots, x)
			return
		}
		if x.head("List") || x.head("Directive") {
			for _, p := range x.args() {
				walk(p)
			}
		}
	}
	g = clone(g)
	walk(g.P[1])
	if len(spots) == 0 {
		return nil
	}
	s := pbt.Pick(t, spots)
	bad := pbt.Of(t, xi(1), glo("u"), xs("a"), xq(big.NewRat(1, 2)))
	if s.head("Line") {
		pts := s.P[1].P
		switch t.W(1, 1, 2, 2, 1) {
		case 0:
			s.P = append(s.P, xl())
			return g
		case 1:
			s.P[1] = glo("u")
			return g
		case 2:
			if len(pts) > 1 {
				p := pts[1+t.N(uint64(len(pts)-1))]
				p.P[1+t.N(2)] = bad
				return g
			}
		case 3:
			if len(pts) > 1 {
				p := pts[1+t.N(uint64(len(pts)-1))]
				p.P = append(p.P, xf(1))
				return g
			}
		}
		s.P = s.P[:1]
		return g
	}
	switch t.W(1, 1, 2) {
	case 0:
		s.P = append(s.P, xf(0.5))
	case 1:
		s.P = s.P[:len(s.P)-1]
	case 2:
		s.P[1+t.N(uint64(len(s.P)-1))] = bad
	}
	return g
}

func checkSeries(t *T, c chart.Chart, want []*refLine) {
	if len(c.Series) != len(want) {
		t.Failf("%d lines are drawn, not %d", len(c.Series), len(want))
	}
	for i, w := range want {
		var s chart.ContinuousSeries
		switch v := c.Series[i].(type) {
		case chart.ContinuousSeries:
			s = v
		case *chart.ContinuousSeries:
			s = *v
		default:
			t.Failf("line %d is drawn as %T", i, v)
		}
		if len(s.XValues) != len(w.xs) || len(s.YValues) != len(w.ys) {
			t.Failf("line %d has %d and %d coordinates, not %d", i, len(s.XValues), len(s.YValues), len(w.xs))
		}
		for j := range w.xs {
			if s.XValues[j] != w.xs[j] || s.YValues[j] != w.ys[j] {
				t.Failf("point %d of line %d is (%v, %v), not (%v, %v)", j, i, s.XValues[j], s.YValues[j], w.xs[j], w.ys[j])
			}
		}
		c := s.Style.StrokeColor
		near := func(name string, got uint8, want float64) {
			if math.Abs(float64(got)-want*255) > 1.01 {
				t.Failf("%s of line %d is %d/255, not %v", name, i, got, want)
			}
		}
		near("red", c.R, w.st.r)
		near("green", c.G, w.st.g)
		near("blue", c.B, w.st.b)
		near("opacity", c.A, w.st.a)
		if s.Style.StrokeWidth != w.st.width {
			t.Failf("thickness of line %d is %v, not %v", i, s.Style.StrokeWidth, w.st.width)
		}
		if !s.Style.Show {
			t.Failf("line %d is hidden", i)
		}
	}
}

// plotFns are functions of x with their values; defined says where they are real.
var plotFns = []struct {
	src string
	f   func(x float64) float64
	ok  func(x float64) bool
}{
	{"x", func(x float64) float64 { return x }, nil},
	{"x^2 - 3*x", func(x float64) float64 { return x*x - 3*x }, nil},
	{"Sin[x]", math.Sin, nil},
	{"2*Cos[3*x + 1] + x/4", func(x float64) float64 { return 2*math.Cos(3*x+1) + x/4 }, nil},
	{"7", func(x float64) float64 { return 7 }, nil},
	{"E^(-x)", func(x float64) float64 { return math.Exp(-x) }, nil},
	{"Sqrt[x]", func(x float64) float64 { return math.Sqrt(x) }, func(x float64) bool { return x >= 0 }},
	{"x^3/(x^2 + 1)", func(x float64) float64 { return x * x * x / (x*x + 1) }, nil},
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C36", Title: "graphics",
		Rule: "render: graphics expressions of nested lists, lines and directives, non-trivial with at least two lines or one directive; malformed: the same with one part made wrong, all non-trivial; png: rendered images, non-trivial when an image was made; plot: functions and ranges, all non-trivial",
		Facets: []pbt.Facet{
			{Name: "render", Quick: 15000, Thorough: 300000, Batch: 1000, Run: func(t *T) {
				g, lines, top := genGraphics(t)
				t.Case("%v", g)
				c, err := graphics.Render(g.Ex())
				if err != nil {
					t.Failf("not rendered: %v", err)
				}
				checkSeries(t, c, lines)
				t.NontrivialIf(len(lines) > 1 || contains(top, func(x *X) bool { return x.head("Directive") && len(x.P) > 1 }))
			}},
			{Name: "malformed", Quick: 6000, Thorough: 100000, Batch: 1000, Run: func(t *T) {
				g, _, _ := genGraphics(t)
				var x *X
				if t.P(1, 8) {
					x = pbt.Of(t, xE("Graphics"), xl(g), g.P[1], glo("Graphics"), xE("Graphics3D", g.P[1]), xi(3))
					if x.head("Graphics") && len(x.P) > 1 {
						t.Discard()
					}
				} else {
					x = spoil(t, g)
				}
				if x == nil {
					t.Discard()
				}
				t.Case("%v", x)
				t.Nontrivial()
				if _, err := graphics.Render(x.Ex()); err == nil {
					t.Failf("rendered without an error")
				}
				if s, err := graphics.RenderAsPNG(x.Ex()); err == nil {
					t.Failf("made an image of %d bytes without an error", len(s))
				}
			}},
			{Name: "png", Quick: 120, Thorough: 3000, Batch: 20, Run: func(t *T) {
				g, lines, _ := genGraphics(t)
				t.Case("%v", g)
				// What the drawing library accepts is its own affair.
				ok := len(lines) > 0
				for _, l := range lines {
					lo, hi := math.Inf(1), math.Inf(-1)
					ylo, yhi := lo, hi
					for i := range l.xs {
						lo, hi = math.Min(lo, l.xs[i]), math.Max(hi, l.xs[i])
						ylo, yhi = math.Min(ylo, l.ys[i]), math.Max(yhi, l.ys[i])
					}
					if !(hi-lo > 0.5 && yhi-ylo > 0.5) || hi-lo > 1e5 || yhi-ylo > 1e5 {
						ok = false
					}
				}
				if !ok {
					t.Discard()
				}
				s, err := graphics.RenderAsPNG(g.Ex())
				if err != nil {
					t.Failf("no image: %v", err)
				}
				im, err := png.Decode(bytes.NewReader([]byte(s)))
				if err != nil {
					t.Failf("the image cannot be read: %v", err)
				}
				if b := im.Bounds(); b.Dx() != 360 || b.Dy() != 220 {
					t.Failf("the image measures %v", b)
				}
				t.Nontrivial()
			}},
			{Name: "plot", Quick: 60, Thorough: 1500, Batch: 10, Run: func(t *T) {
				es := t.ES()
				n := t.Int(1, 3)
				fs := xl()
				var idx []int
				for i := 0; i < n; i++ {
					k := int(t.N(uint64(len(plotFns))))
					idx = append(idx, k)
					fs.P = append(fs.P, parse(es, plotFns[k].src))
				}
				lo := big.NewRat(int64(t.Near(24)), 4)
				w := big.NewRat(int64(t.Int(1, 40)), 4)
				hi := new(big.Rat).Add(lo, w)
				a, _ := lo.Float64()
				b, _ := hi.Float64()
				num := func(r *big.Rat, f float64) *X {
					if t.P(1, 3) {
						return xf(f)
					}
					return xq(r)
				}
				arg := fs
				if n == 1 && t.Bool() {
					arg = fs.P[1]
				}
				v := glo(pbt.Of(t, "x", "tt"))
				x := xE("Plot", substSyms(arg, map[string]*X{"x": v}), xl(v, num(lo, a), num(hi, b)))
				t.Case("%v", x)
				t.Nontrivial()
				ex := x.Ex()
				r := es.Eval(ex)
				g := from(r)
				if !g.head("Graphics") || len(g.P) < 2 || !g.P[1].head("List") || len(g.P[1].args()) != n {
					t.Failf("gave %.200v", g)
				}
				step := (b - a) / 500
				lines := 0
				all := []*refLine{}
				for i, e := range g.P[1].args() {
					f := plotFns[idx[i]]
					if !e.head("List") || len(e.P) < 2 || !e.P[len(e.P)-1].head("Line") {
						t.Failf("line %d is %.200v", i, e)
					}
					pts := e.P[len(e.P)-1].P[1].args()
					l := &refLine{}
					first := a
					if f.ok != nil && a < 0 {
						first = math.Min(b, 0)
					}
					prev := math.Inf(-1)
					for j, p := range pts {
						px, py := toFloat(p.P[1]), toFloat(p.P[2])
						if math.Abs(py-f.f(px)) > 1e-6*(1+math.Abs(py)) && !(f.ok != nil && math.Abs(px) < 1e-9) {
							t.Failf("line %d has the point (%v, %v); the function is %v", i, px, py, f.f(px))
						}
						if j == 0 && math.Abs(px-first) > step*1.01+1e-9 && !(f.ok != nil && b <= 0) {
							t.Failf("line %d starts at %v", i, px)
						}
						if j > 0 && !(px > prev && px-prev < step*1.01+1e-9) {
							t.Failf("line %d goes from %v to %v", i, prev, px)
						}
						if px < a-1e-9 || px > b+1e-9 {
							t.Failf("line %d has a point at %v", i, px)
						}
						prev = px
						l.xs, l.ys = append(l.xs, px), append(l.ys, py)
					}
					if (f.ok == nil || b > step) && b-prev > step*1.01+1e-9 {
						t.Failf("line %d ends at %v", i, prev)
					}
					lines++
					all = append(all, l)
				}
				// The plot can be drawn, with the same points.
				c, err := graphics.Render(r)
				if err != nil {
					t.Failf("the plot is not rendered: %v", err)
				}
				if len(c.Series) != lines {
					t.Failf("%d lines are drawn, not %d", len(c.Series), lines)
				}
				for i, l := range all {
					s := c.Series[i].(chart.ContinuousSeries)
					if len(s.XValues) != len(l.xs) {
						t.Failf("line %d is drawn with %d points, not %d", i, len(s.XValues), len(l.xs))
					}
				}
			}},
		},
	})
}

func genGraphics(t *T) (g *X, lines []*refLine, top *X) {
	st := refStyle{a: 1}
	top = genPrimitive(t, 3, &st, &lines)
	if !top.head("List") && t.P(3, 4) {
		l := xl(top)
		for i := t.Int(0, 4); i > 0; i-- {
			l.P = append(l.P, genPrimitive(t, 2, &st, &lines))
		}
		top = l
	}
	g = xE("Graphics", top)
	if t.P(1, 3) {
		g.P = append(g.P, xl(xE("Rule", sys("PlotRange"), sys("All"))))
	}
	return
}

// toFloat is the value of a real number of any kind.
func toFloat(x *X) float64 {
	switch x.K {
	case 'f':
		f, _ := x.F.Float64()
		return f
	case 'i', 'r':
		f, _ := x.rat().Float64()
		return f
	}
	return math.NaN()
}
