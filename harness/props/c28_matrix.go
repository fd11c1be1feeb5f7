package props

import (
	"math/big"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C28",
		Title: "Matrix functions satisfy linear algebra",
		Rule:  "products: at least three factors, or shapes that do not fit, or a symbol among the entries; inverse: a matrix of at least 2 rows; shape: an array of at least two levels; transpose: at least two rows and columns",
		Facets: []pbt.Facet{
			{Name: "products", Quick: 2500, Thorough: 50000, Batch: 100, Run: matProducts},
			{Name: "inverse", Quick: 1200, Thorough: 20000, Batch: 50, Run: matInverse},
			{Name: "shape", Quick: 4000, Thorough: 80000, Batch: 250, Run: matShape},
			{Name: "transpose", Quick: 2500, Thorough: 50000, Batch: 250, Run: matTranspose},
			{Name: "total", Quick: 2500, Thorough: 50000, Batch: 250, Run: matTotal},
		},
	})
}

func genEntry(t *T, symbols bool) *X {
	if symbols && t.P(1, 3) {
		return glo(pbt.Of(t, "ma", "mb", "mc"))
	}
	switch t.W(5, 2, 1) {
	case 1:
		return xq(genRat(t, 5))
	case 2:
		return xI(t.Big(80))
	}
	return xi(int64(t.Near(4)))
}

// arr is a vector (rows < 0) or a matrix.
type arr struct {
	rows, cols int
	v          []*X
}

func (a arr) x() *X {
	if a.rows < 0 {
		return xl(a.v...)
	}
	l := []*X{}
	for i := 0; i < a.rows; i++ {
		l = append(l, xl(a.v[i*a.cols:(i+1)*a.cols]...))
	}
	return xl(l...)
}

func (a arr) first() int { // the extent that is contracted on the left
	if a.rows < 0 {
		return a.cols
	}
	return a.rows
}

func genArr(t *T, vec bool, rows, cols int, symbols bool) arr {
	if vec {
		rows = -1
	}
	n := cols
	if !vec {
		n *= rows
	}
	a := arr{rows: rows, cols: cols}
	for i := 0; i < n; i++ {
		a.v = append(a.v, genEntry(t, symbols))
	}
	return a
}

// dotArr multiplies; the entries are unevaluated sums of products.
func dotArr(a, b arr) (arr, *X, bool) {
	if a.cols != b.first() {
		return arr{}, nil, false
	}
	ar, bc := a.rows, b.cols
	if a.rows < 0 {
		ar = 1
	}
	if b.rows < 0 {
		bc = 1
	}
	var out []*X
	for i := 0; i < ar; i++ {
		for j := 0; j < bc; j++ {
			s := []*X{}
			for k := 0; k < a.cols; k++ {
				bi := k*bc + j
				s = append(s, xE("Times", a.v[i*a.cols+k], b.v[bi]))
			}
			out = append(out, xE("Plus", s...))
		}
	}
	switch {
	case a.rows < 0 && b.rows < 0:
		return arr{}, out[0], true
	case a.rows < 0:
		return arr{rows: -1, cols: b.cols, v: out}, nil, true
	case b.rows < 0:
		return arr{rows: -1, cols: a.rows, v: out}, nil, true
	}
	return arr{rows: a.rows, cols: b.cols, v: out}, nil, true
}

func dim(t *T) int { return pbt.Of(t, 2, 1, 3, 2, 3, 4) }

func matProducts(t *T) {
	es := t.ES()
	symbols := t.P(1, 3)
	n := pbt.Of(t, 2, 2, 3, 4)
	fit := !t.P(1, 5)
	as := []arr{}
	d := dim(t)
	for i := 0; i < n; i++ {
		vec := (i == 0 || i == n-1) && t.P(1, 3)
		e := dim(t)
		if vec && i == 0 {
			e = d
		}
		a := arr{}
		if vec {
			a = genArr(t, true, 0, d, symbols)
			e = d
		} else {
			a = genArr(t, false, d, e, symbols)
		}
		as = append(as, a)
		d = e
		if !fit {
			d = dim(t)
		}
	}
	xs_ := []*X{}
	for _, a := range as {
		xs_ = append(xs_, a.x())
	}
	x := xE("Dot", xs_...)
	ok := true
	acc := as[0]
	var scalar *X
	for i, a := range as[1:] {
		var good bool
		acc, scalar, good = dotArr(acc, a)
		if !good {
			ok = false
			break
		}
		if scalar != nil && i < len(as)-2 {
			t.Discard()
		}
	}
	t.Case("%s", x)
	t.NontrivialIf(n >= 3 || symbols || !ok)
	if !ok {
		if n == 2 {
			want(t, es, x, x)
		}
		return
	}
	r := scalar
	if r == nil {
		r = acc.x()
	}
	if symbols && n > 2 { // products of sums are not expanded: compare at a point
		at := func(y *X) *X {
			return substSyms(y, map[string]*X{"ma": xi(2), "mb": xi(-3), "mc": xq(big.NewRat(1, 2))})
		}
		got := ev(es, at(ev(es, x)))
		if w := ev(es, at(r)); !xeq(got, w) {
			t.Failf("%s has the value %s instead of %s", x, got, w)
		}
		return
	}
	w := ev(es, r)
	want(t, es, x, w)
	if n == 3 && !symbols {
		want(t, es, xE("Dot", xE("Dot", xs_[0], xs_[1]), xs_[2]), w)
		want(t, es, xE("Dot", xs_[0], xE("Dot", xs_[1], xs_[2])), w)
	}
}

func identity(n int) *X {
	rows := []*X{}
	for i := 0; i < n; i++ {
		row := []*X{}
		for j := 0; j < n; j++ {
			if i == j {
				row = append(row, xi(1))
			} else {
				row = append(row, xi(0))
			}
		}
		rows = append(rows, xl(row...))
	}
	return xl(rows...)
}

// det computes a determinant by elimination.
func det(n int, v []*big.Rat) *big.Rat {
	m := make([]*big.Rat, len(v))
	for i := range v {
		m[i] = new(big.Rat).Set(v[i])
	}
	d := big.NewRat(1, 1)
	for c := 0; c < n; c++ {
		p := -1
		for r := c; r < n; r++ {
			if m[r*n+c].Sign() != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			return new(big.Rat)
		}
		if p != c {
			d.Neg(d)
			for k := 0; k < n; k++ {
				m[p*n+k], m[c*n+k] = m[c*n+k], m[p*n+k]
			}
		}
		d.Mul(d, m[c*n+c])
		for r := c + 1; r < n; r++ {
			f := new(big.Rat).Quo(m[r*n+c], m[c*n+c])
			for k := c; k < n; k++ {
				m[r*n+k] = ratSub(m[r*n+k], new(big.Rat).Mul(f, m[c*n+k]))
			}
		}
	}
	return d
}

func matInverse(t *T) {
	es := t.ES()
	n := pbt.Of(t, 2, 1, 3, 3)
	a := genArr(t, false, n, n, false)
	if n > 1 && t.P(1, 5) { // dependent rows
		k := new(big.Rat).SetInt64(int64(t.Near(3)))
		for j := 0; j < n; j++ {
			a.v[j] = xq(new(big.Rat).Mul(k, a.v[n+j].rat()))
		}
	}
	vals := []*big.Rat{}
	for _, e := range a.v {
		vals = append(vals, e.rat())
	}
	d := det(n, vals)
	symbolic := d.Sign() != 0 && t.P(1, 4)
	m := a.x()
	t.Case("Inverse[%s]", m)
	t.NontrivialIf(n >= 2)
	if d.Sign() == 0 {
		// There is no inverse, so no matrix of numbers may be returned.
		got := ev(es, xE("Inverse", m))
		if got.head("List") {
			t.Failf("Inverse[%s] is %s although the matrix is singular", m, got)
		}
		return
	}
	inv := xE("Inverse", m)
	if symbolic {
		s := arr{rows: n, cols: n}
		at := map[string]*X{}
		for i, e := range a.v {
			if t.P(1, 2) {
				name := "mx" + string(rune('a'+i))
				at[name] = e
				e = glo(name)
			}
			s.v = append(s.v, e)
		}
		m = s.x()
		inv = substSyms(ev(es, xE("Inverse", m)), at)
		m = a.x()
	}
	got := ev(es, inv)
	if !xeq(ev(es, xE("Dot", m, got)), identity(n)) || !xeq(ev(es, xE("Dot", got, m)), identity(n)) {
		t.Failf("%s times %s is %s", m, got, ev(es, xE("Dot", m, got)))
	}
}

// genNested draws an array that is rectangular down to some level, or nearly.
func genNested(t *T, dims []int, h string) *X {
	if len(dims) == 0 || t.P(1, 40) {
		return genEntry(t, true)
	}
	n := dims[0]
	if t.P(1, 30) {
		n += t.Near(1)
	}
	if n < 0 {
		n = 0
	}
	l := []*X{}
	for i := 0; i < n; i++ {
		l = append(l, genNested(t, dims[1:], h))
	}
	if t.P(1, 60) {
		h = pbt.Of(t, "List", "shapeHead")
	}
	if h == "List" {
		return xl(l...)
	}
	return xG(h, l...)
}

// refDims gives the extents of the largest full array with one head.
func refDims(x *X) []int {
	if x.K != 'e' {
		return nil
	}
	h := x.P[0]
	dims := []int{len(x.args())}
	var sub []int
	for i, e := range x.args() {
		if e.K != 'e' || !xeq(e.P[0], h) {
			return dims
		}
		d := refDims(e)
		if i == 0 {
			sub = d
			continue
		}
		k := 0
		for k < len(sub) && k < len(d) && sub[k] == d[k] {
			k++
		}
		sub = sub[:k]
	}
	return append(dims, sub...)
}

func intsX(l []int) *X {
	xs := []*X{}
	for _, n := range l {
		xs = append(xs, xi(int64(n)))
	}
	return xl(xs...)
}

func matShape(t *T) {
	es := t.ES()
	dims := []int{}
	for k := t.Int(1, 4); k > 0; k-- {
		dims = append(dims, pbt.Of(t, 2, 1, 3, 2, 0))
	}
	x := genNested(t, dims, pbt.Of(t, "List", "List", "shapeHead"))
	t.Case("%s", x)
	t.NontrivialIf(depthOf(x) >= 3)
	want(t, es, xE("Dimensions", x), intsX(refDims(x)))
	isL := func(y *X) bool { return y.head("List") }
	vec := isL(x)
	parts := []*X{}
	if x.K == 'e' {
		parts = x.args()
	}
	for _, e := range parts {
		vec = vec && !isL(e)
	}
	want(t, es, xE("VectorQ", x), boolX(vec))
	mat := isL(x) && len(parts) > 0
	for _, e := range parts {
		mat = mat && isL(e) && len(e.args()) == len(parts[0].args())
		if !mat {
			break
		}
		for _, f := range e.args() {
			mat = mat && !isL(f)
		}
	}
	want(t, es, xE("MatrixQ", x), boolX(mat))
}

func matTranspose(t *T) {
	es := t.ES()
	h, w := t.Int(1, 4), t.Int(0, 4)
	rows, cols := []*X{}, []*X{}
	m := make([][]*X, h)
	for i := range m {
		for j := 0; j < w; j++ {
			e := genEntry(t, true)
			if t.P(1, 6) {
				e = xl(genEntry(t, true), genEntry(t, true))
			}
			m[i] = append(m[i], e)
		}
		rows = append(rows, xl(m[i]...))
	}
	for j := 0; j < w; j++ {
		c := []*X{}
		for i := range m {
			c = append(c, m[i][j])
		}
		cols = append(cols, xl(c...))
	}
	x := xl(rows...)
	if t.P(1, 8) && w > 0 { // a row of another length
		k := t.Int(0, h-1)
		rows[k] = xl(append(append([]*X{}, m[k]...), xi(9))...)
		x = xl(rows...)
		t.Case("Transpose[%s]", x)
		if h > 1 {
			t.Nontrivial()
			want(t, es, xE("Transpose", x), xE("Transpose", x))
		}
		return
	}
	t.Case("Transpose[%s]", x)
	t.NontrivialIf(h >= 2 && w >= 2)
	want(t, es, xE("Transpose", x), xl(cols...))
	if w > 0 {
		want(t, es, xE("Transpose", xE("Transpose", x)), x)
	}
}

func matTotal(t *T) {
	es := t.ES()
	n := t.Int(0, 6)
	k := pbt.Of(t, -1, -1, 1, 2, 3)
	l := []*X{}
	sums := [][]*X{}
	for i := 0; i < n; i++ {
		if k < 0 {
			l = append(l, genEntry(t, true))
			continue
		}
		row := []*X{}
		for j := 0; j < k; j++ {
			row = append(row, genEntry(t, true))
		}
		l = append(l, xl(row...))
	}
	x := xl(l...)
	t.Case("Total[%s]", x)
	t.NontrivialIf(n >= 2)
	total, mean := xE("Plus", l...), (*X)(nil)
	inv := xq(big.NewRat(1, int64(max(n, 1))))
	if k < 0 || n == 0 {
		mean = xE("Times", total, inv)
	} else {
		for j := 0; j < k; j++ {
			c := []*X{}
			for i := range l {
				c = append(c, l[i].args()[j])
			}
			sums = append(sums, c)
		}
		ts, ms := []*X{}, []*X{}
		for _, c := range sums {
			ts = append(ts, xE("Plus", c...))
			ms = append(ms, xE("Times", xE("Plus", c...), inv))
		}
		total, mean = xl(ts...), xl(ms...)
	}
	want(t, es, xE("Total", x), ev(es, total))
	if n > 0 {
		want(t, es, xE("Mean", x), ev(es, mean))
	}
}
