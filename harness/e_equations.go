package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"sort"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

func init() {
	register("E01", "model_checking", equationSemantics)
	register("E02", "model_checking", declarationOrder)
	register("E03", "model_checking", userTerms)
	register("E04", "model_checking", rejection)
}

var ftCache = map[string]*pfutil.FFTWWrapper{}

func fft(dims []int) *pfutil.FFTWWrapper {
	k := ints(dims)
	if ftCache[k] == nil {
		ftCache[k] = pfutil.NewFFTW(cloneI(dims))
	}
	return ftCache[k]
}

// factor of a term in the equation language
type factor struct {
	text string
	kind byte // 's' scalar, 'f' field, 'L' laplacian
	name string
	pow  float64
}

type eqTerm struct {
	sign    float64
	factors []factor
	text    string
}

func sc(name string, pow float64) factor { return factor{powText(name, pow), 's', name, pow} }
func fl(name string, pow float64) factor { return factor{powText(name, pow), 'f', name, pow} }
func lap(n int) factor {
	return factor{powText("LAP", float64(n)), 'L', "LAP", float64(n)}
}
func powText(name string, p float64) string {
	if p == 1 {
		return name
	}
	return fmt.Sprintf("%s^%g", name, p)
}

func (t eqTerm) hasField() bool {
	for _, f := range t.factors {
		if f.kind == 'f' {
			return true
		}
	}
	return false
}

// coef is the product of the scalars (and the sign)
func (t eqTerm) coef(scal map[string]float64) complex128 {
	v := complex(t.sign, 0)
	for _, f := range t.factors {
		if f.kind == 's' {
			v *= cmplx.Pow(complex(scal[f.name], 0), complex(f.pow, 0))
		}
	}
	return v
}

func (t eqTerm) lapPower() int {
	n := 0
	for _, f := range t.factors {
		if f.kind == 'L' {
			n += int(f.pow)
		}
	}
	return n
}

// linearIn is true if the only field factor is the given field to the first power
func (t eqTerm) linearIn(name string) bool {
	n := 0
	for _, f := range t.factors {
		if f.kind == 'f' {
			if f.name != name || f.pow != 1 {
				return false
			}
			n++
		}
	}
	return n == 1
}

func lapSymbol(dims []int, i, n int) complex128 {
	f := refFreq(dims, i)
	k2 := 0.0
	for _, v := range f {
		k2 += v * v
	}
	v := 1.0
	for j := 0; j < n; j++ {
		v *= -4 * math.Pi * math.Pi * k2
	}
	return complex(v, 0)
}

// refTerm returns the Fourier transform of the term evaluated on real space fields
func refTerm(dims []int, t eqTerm, scal map[string]float64, fields map[string][]complex128) []complex128 {
	n := prod(dims)
	x := make([]complex128, n)
	for i := range x {
		v := t.coef(scal)
		for _, f := range t.factors {
			if f.kind == 'f' {
				v *= cmplx.Pow(fields[f.name][i], complex(f.pow, 0))
			}
		}
		x[i] = v
	}
	out := refDFT(dims, x, -1)
	for i := range out {
		out[i] *= lapSymbol(dims, i, t.lapPower())
	}
	return out
}

// transformAll does what every stepper does before it evaluates the right hand side
func transformAll(m *pf.Model, ft *pfutil.FFTWWrapper) {
	m.SyncDerivedFields()
	for _, f := range m.Fields {
		ft.FFT(f.Data)
	}
	for _, f := range m.DerivedFields {
		ft.FFT(f.Data)
	}
}

type world struct {
	dims   []int
	fields []string
	scal   map[string]float64
	data   map[string][]complex128
}

func newWorld(dims []int, fields []string, scal map[string]float64) world {
	w := world{dims, fields, scal, map[string][]complex128{}}
	for k, f := range fields {
		d := genericField(prod(dims), 11+k)
		for i := range d {
			d[i] += complex(1.1, 0) // positive so that fractional powers are real
		}
		w.data[f] = d
	}
	return w
}

func (w world) model() pf.Model {
	m := pf.NewModel()
	names := []string{}
	for s := range w.scal {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, f := range w.fields {
		m.AddField(pf.NewField(f, prod(w.dims), cloneC(w.data[f])))
	}
	for _, s := range names {
		m.AddScalar(pf.NewScalar(s, complex(w.scal[s], 0)))
	}
	return m
}

// checkSystem builds the model with one equation per field and compares the explicit and the
// implicit part of every equation with the reference
func (w world) checkSystem(r *Run, eqs []string, terms [][]eqTerm) {
	m := w.model()
	for _, e := range eqs {
		m.AddEquation(e)
	}
	m.Init()
	ft := fft(w.dims)
	transformAll(&m, ft)
	for fi, f := range w.fields {
		rhs := m.GetRHS(fi, ft.Freq, 0)
		den := m.GetDenum(fi, ft.Freq, 0)
		r.Step(2)
		n := prod(w.dims)
		wantR, wantD := make([]complex128, n), make([]complex128, n)
		amp := 0.0 // largest magnitude of intermediate results: rounding errors are relative to it
		for _, t := range terms[fi] {
			x := refTerm(w.dims, eqTerm{sign: 1, factors: withoutLap(t.factors)}, w.scal, w.data)
			big := 0.0
			for i := range x {
				big = math.Max(big, cmplx.Abs(lapSymbol(w.dims, i, t.lapPower())))
			}
			amp += big * maxAbsC(x)
			if t.linearIn(f) {
				cf := t.coef(w.scal)
				for i := range wantD {
					wantD[i] += cf * lapSymbol(w.dims, i, t.lapPower())
				}
				continue
			}
			for i, v := range refTerm(w.dims, t, w.scal, w.data) {
				wantR[i] += v
			}
		}
		y := refDFT(w.dims, w.data[f], -1)
		total := make([]complex128, n)
		want := make([]complex128, n)
		for i := range total {
			total[i] = rhs[i] + den[i]*y[i]
			want[i] = wantR[i] + wantD[i]*y[i]
		}
		r.closeC("right hand side (explicit + implicit part) of "+eqs[fi], total, want, 1e-9+1e-12*amp/(1+maxAbsC(want)))
		r.closeC("implicit coefficient of "+eqs[fi], den, wantD, 1e-9)
		r.ObserveC("rhs", total)
		r.ObserveC("den", den)
	}
}

func withoutLap(fs []factor) []factor {
	out := []factor{}
	for _, f := range fs {
		if f.kind != 'L' {
			out = append(out, f)
		}
	}
	return out
}

// spellings returns all ways of writing the product: every order of the factors, and the
// Laplacian separated by '*' or by a blank from the next factor
func spellings(fs []factor, f func(text string)) {
	permutations(len(fs), func(p []int) {
		for style := 0; style < 2; style++ {
			s := ""
			blank := false
			for i, k := range p {
				s += fs[k].text
				if i+1 < len(p) {
					if style == 1 && fs[k].kind == 'L' {
						s += " "
						blank = true
					} else {
						s += "*"
					}
				}
			}
			if style == 1 && !blank {
				continue
			}
			f(s)
		}
	})
}

func equationSemantics(c *Ctx) {
	scalarValues(c)
	localEquations(c)
	type naming struct {
		f1, f2     string
		a, d, k, u string
	}
	namings := []naming{
		{"conc", "eta", "alpha", "dcoef", "kappa", "Mob"},
		{"c", "h", "a", "e", "x", "M"},
	}
	domains := [][]int{{2, 3}}
	if c.Thorough {
		domains = [][]int{{3, 4}, {2, 3, 2}}
	}
	c.bound("every product of: 11 scalar parts x 6 powers and products of powers of the Laplacian x 12 field parts (powers, products, repeated factors), in every order of the factors and every spelling of the Laplacian, as a one-term equation of either of two fields, long and one-letter names; domains %v", domains)
	c.bound("every equation of up to 3 terms over 8 representative terms with every combination of signs (incl. a leading sign), and every pair of two-term equations of a coupled two-field system")
	for _, nm := range namings {
		nm := nm
		scal := map[string]float64{nm.a: 0.7, nm.d: -1.3, nm.k: 2.1, nm.u: 0.45}
		for _, dims := range domains {
			w := newWorld(dims, []string{nm.f1, nm.f2}, scal)
			tag := nm.f1 + "/" + ints(dims) + "/"
			coefs := [][]factor{
				{}, {sc(nm.a, 1)}, {sc(nm.d, 1)}, {sc(nm.k, 1)}, {sc(nm.u, 1)}, {sc(nm.a, 1), sc(nm.d, 1)},
				{sc(nm.k, 2)}, {sc(nm.a, 0.5)}, {sc(nm.d, 3)}, {sc(nm.u, 1), sc(nm.u, 1)}, {sc(nm.d, 2), sc(nm.d, 1)},
			}
			laps := [][]factor{{}, {lap(1)}, {lap(2)}, {lap(3)}, {lap(1), lap(1)}, {lap(2), lap(1)}}
			flds := [][]factor{
				{fl(nm.f1, 1)}, {fl(nm.f2, 1)}, {fl(nm.f1, 2)}, {fl(nm.f2, 3)}, {fl(nm.f1, 0.5)},
				{fl(nm.f1, 1), fl(nm.f2, 1)}, {fl(nm.f1, 2), fl(nm.f2, 1)}, {fl(nm.f1, 1), fl(nm.f2, 3)}, {fl(nm.f1, 2), fl(nm.f2, 2)},
				{fl(nm.f1, 1), fl(nm.f1, 1)}, {fl(nm.f2, 1), fl(nm.f2, 2)}, {},
			}
			for _, cf := range coefs {
				for _, lp := range laps {
					for _, fd := range flds {
						fs := append(append(append([]factor{}, cf...), lp...), fd...)
						if len(fs) == 0 || len(fd) == 0 && len(cf) == 0 {
							continue
						}
						if len(fs) > 4 && !c.Thorough || len(fs) > 4 && (len(lp) > 1 || len(cf) > 1 && cf[0].name == cf[1].name) && !c.Deep {
							continue
						}
						spellings(fs, func(text string) {
							for lhs := 0; lhs < 2; lhs++ {
								lhs := lhs
								for _, sg := range []string{"", "-"} {
									sg := sg
									c.Case(fmt.Sprintf("term/%sd%s/dt = %s%s", tag, w.fields[lhs], sg, text), func(r *Run) {
										t := eqTerm{sign: 1, factors: fs}
										if sg == "-" {
											t.sign = -1
										}
										eqs := []string{"d" + nm.f1 + "/dt=" + nm.a + "*" + nm.f1, "d" + nm.f2 + "/dt = " + nm.a + "*" + nm.f2}
										terms := [][]eqTerm{
											{{sign: 1, factors: []factor{sc(nm.a, 1), fl(nm.f1, 1)}}},
											{{sign: 1, factors: []factor{sc(nm.a, 1), fl(nm.f2, 1)}}},
										}
										eqs[lhs] = fmt.Sprintf("d%s/dt = %s%s", w.fields[lhs], sg, text)
										terms[lhs] = []eqTerm{t}
										w.checkSystem(r, eqs, terms)
									})
								}
							}
						})
					}
				}
			}
			// sums
			base := []eqTerm{
				{1, []factor{fl(nm.f1, 1)}, nm.f1},
				{1, []factor{sc(nm.a, 1), lap(1), fl(nm.f1, 1)}, nm.a + "*LAP " + nm.f1},
				{1, []factor{sc(nm.d, 1), lap(2), fl(nm.f1, 1)}, nm.d + "*LAP^2 " + nm.f1},
				{1, []factor{fl(nm.f1, 3)}, nm.f1 + "^3"},
				{1, []factor{sc(nm.k, 1), fl(nm.f2, 1)}, nm.k + "*" + nm.f2},
				{1, []factor{sc(nm.d, 1), fl(nm.f1, 2), fl(nm.f2, 1)}, nm.d + "*" + nm.f1 + "^2*" + nm.f2},
				{1, []factor{lap(1), fl(nm.f2, 2)}, "LAP*" + nm.f2 + "^2"},
				{1, []factor{sc(nm.u, 1), fl(nm.f2, 1), fl(nm.f1, 1)}, nm.u + "*" + nm.f2 + "*" + nm.f1},
			}
			sum := func(lhs string, idx, signs []int) (string, []eqTerm) {
				s := "d" + lhs + "/dt = "
				ts := []eqTerm{}
				for i, k := range idx {
					t := base[k]
					switch signs[i] {
					case 0:
						if i > 0 {
							s += " + "
						}
						s += t.text
					case 1:
						if i > 0 {
							s += " "
						}
						s += "- " + t.text
						t.sign = -1
					case 2: // a signed term behind a plus or minus
						if i > 0 {
							s += " + -" + t.text
							t.sign = -1
						} else {
							s += "+" + t.text
						}
					case 3:
						if i > 0 {
							s += " - -" + t.text
						} else {
							s += "-" + t.text
							t.sign = -1
						}
					}
					ts = append(ts, t)
				}
				return s, ts
			}
			for l := 1; l <= 3; l++ {
				ns := 2
				if l <= 2 {
					ns = 4
				}
				idxn, sgn := make([]int, l), make([]int, l)
				for i := range idxn {
					idxn[i], sgn[i] = len(base), ns
				}
				product(idxn, func(idx []int) {
					product(sgn, func(signs []int) {
						e, ts := sum(nm.f1, idx, signs)
						c.Case("sum/"+tag+e, func(r *Run) {
							w.checkSystem(r, []string{e, "d" + nm.f2 + "/dt = " + nm.f2}, [][]eqTerm{ts, {{sign: 1, factors: []factor{fl(nm.f2, 1)}}}})
						})
					})
				})
			}
			product([]int{len(base), len(base), len(base), len(base)}, func(x []int) {
				e1, t1 := sum(nm.f1, x[:2], []int{0, 1})
				e2, t2 := sum(nm.f2, x[2:], []int{1, 0})
				c.Case("system/"+tag+e1+" ; "+e2, func(r *Run) {
					w.checkSystem(r, []string{e1, e2}, [][]eqTerm{t1, t2})
				})
			})
		}
	}
	powerSweep(c)
	longEquations(c)
	tripleProducts(c)
	// Names that are contained in one another
	over := []struct {
		fields []string
		scal   map[string]float64
		eqs    []string
		terms  [][]eqTerm
	}{
		{[]string{"conc", "conc2"}, map[string]float64{"m1": -1.5}, []string{"dconc/dt = conc2", "dconc2/dt = m1*conc2"},
			[][]eqTerm{{{sign: 1, factors: []factor{fl("conc2", 1)}}}, {{sign: 1, factors: []factor{sc("m1", 1), fl("conc2", 1)}}}}},
		{[]string{"conc", "conc2"}, map[string]float64{"m1": -1.5}, []string{"dconc/dt = conc^2", "dconc2/dt = -conc2"},
			[][]eqTerm{{{sign: 1, factors: []factor{fl("conc", 2)}}}, {{sign: -1, factors: []factor{fl("conc2", 1)}}}}},
		{[]string{"conc", "conc2"}, map[string]float64{"m1": -1.5}, []string{"dconc/dt = conc*conc2", "dconc2/dt = -conc2"},
			[][]eqTerm{{{sign: 1, factors: []factor{fl("conc", 1), fl("conc2", 1)}}}, {{sign: -1, factors: []factor{fl("conc2", 1)}}}}},
		{[]string{"eta", "phase"}, map[string]float64{"beta": -1.5}, []string{"deta/dt = beta*eta", "dphase/dt = beta*eta"},
			[][]eqTerm{{{sign: 1, factors: []factor{sc("beta", 1), fl("eta", 1)}}}, {{sign: 1, factors: []factor{sc("beta", 1), fl("eta", 1)}}}}},
		{[]string{"c", "h"}, map[string]float64{"c0": -1.5}, []string{"dc/dt = c0*c", "dh/dt = c0*c^2"},
			[][]eqTerm{{{sign: 1, factors: []factor{sc("c0", 1), fl("c", 1)}}}, {{sign: 1, factors: []factor{sc("c0", 1), fl("c", 2)}}}}},
	}
	for _, o := range over {
		o := o
		w := newWorld([]int{2, 3}, o.fields, o.scal)
		c.Case("overlap/"+strings.Join(o.eqs, " ; "), func(r *Run) { w.checkTotal(r, o.eqs, o.terms) })
	}
	tangledNames(c)
	manyNames(c)
}

// checkTotal compares the sum of the explicit and the implicit part of every equation with the
// reference (whether a linear term is treated implicitly is not prescribed)
func (w world) checkTotal(r *Run, eqs []string, terms [][]eqTerm) {
	m := w.model()
	for _, e := range eqs {
		m.AddEquation(e)
	}
	m.Init()
	ft := fft(w.dims)
	transformAll(&m, ft)
	for fi, f := range w.fields {
		rhs, den := m.GetRHS(fi, ft.Freq, 0), m.GetDenum(fi, ft.Freq, 0)
		y := refDFT(w.dims, w.data[f], -1)
		want := make([]complex128, len(y))
		for _, t := range terms[fi] {
			for i, v := range refTerm(w.dims, t, w.scal, w.data) {
				want[i] += v
			}
		}
		for i := range rhs {
			rhs[i] += den[i] * y[i]
		}
		r.Step(2)
		r.closeC("right hand side of "+eqs[fi], rhs, want, 1e-9)
		r.ObserveC("rhs", rhs)
	}
}

// tangledNames: every choice of the names of two fields and a scalar out of names that are
// contained in each other or look like parts of the equation language
func tangledNames(c *Ctx) {
	pool := []string{"c", "cc", "c1", "c11", "d", "dc", "t", "dt", "conc", "con", "P", "AP", "beta", "eta"}
	if c.Thorough {
		pool = append(pool, "L", "LA", "e", "m_c", "_c", "C")
	}
	c.bound("names: two fields and a scalar named in every way out of %v, 4 coupled systems", pool)
	n := len(pool)
	product([]int{n, n, n}, func(x []int) {
		if x[0] == x[1] || x[0] == x[2] || x[1] == x[2] {
			return
		}
		f, g, a := pool[x[0]], pool[x[1]], pool[x[2]]
		w := newWorld([]int{2, 3}, []string{f, g}, map[string]float64{a: -1.3})
		type sys struct {
			t1, t2 []eqTerm
		}
		for _, s := range []sys{
			{[]eqTerm{{sign: 1, factors: []factor{sc(a, 1), fl(f, 1)}}, {sign: -1, factors: []factor{fl(g, 2)}}},
				[]eqTerm{{sign: 1, factors: []factor{sc(a, 1), lap(1), fl(f, 1)}}, {sign: 1, factors: []factor{fl(g, 1)}}}},
			{[]eqTerm{{sign: 1, factors: []factor{fl(f, 1), fl(g, 1)}}, {sign: -1, factors: []factor{sc(a, 1)}}},
				[]eqTerm{{sign: -1, factors: []factor{fl(f, 2), sc(a, 2), fl(g, 1)}}, {sign: 1, factors: []factor{sc(a, 1), fl(g, 1)}}}},
			{[]eqTerm{{sign: 1, factors: []factor{fl(g, 1)}}, {sign: 1, factors: []factor{lap(2), fl(f, 1)}}},
				[]eqTerm{{sign: 1, factors: []factor{fl(f, 3)}}, {sign: 1, factors: []factor{lap(1), fl(g, 3)}}}},
			{[]eqTerm{{sign: 1, factors: []factor{fl(f, 1), fl(f, 1)}}, {sign: 1, factors: []factor{fl(f, 2), fl(g, 2)}}},
				[]eqTerm{{sign: 1, factors: []factor{fl(g, 2), fl(f, 1)}}, {sign: 1, factors: []factor{fl(f, 1)}}}},
		} {
			eqs := []string{}
			for k, ts := range [][]eqTerm{s.t1, s.t2} {
				e := "d" + w.fields[k] + "/dt ="
				for i, t := range ts {
					if t.sign < 0 {
						e += " -"
					} else if i > 0 {
						e += " +"
					}
					for j, q := range t.factors {
						if j > 0 {
							e += "*"
						} else {
							e += " "
						}
						e += q.text
					}
				}
				eqs = append(eqs, e)
			}
			terms := [][]eqTerm{s.t1, s.t2}
			c.Case(fmt.Sprintf("names/%s,%s,%s/%s", f, g, a, strings.Join(eqs, " ; ")), func(r *Run) { w.checkTotal(r, eqs, terms) })
		}
	})
}

// manyNames: systems of many fields and scalars with numbered names
func manyNames(c *Ctx) {
	c.bound("large systems: 4..14 fields named n1..n14 with as many scalars m1..m14, linear, quadratic and product couplings to the next fields; one equation with 40 terms")
	for n := 4; n <= 14; n++ {
		names, scal := []string{}, map[string]float64{}
		for i := 1; i <= n; i++ {
			names = append(names, fmt.Sprintf("n%d", i))
			scal[fmt.Sprintf("m%d", i)] = 0.3 + 0.1*float64(i)
		}
		w := newWorld([]int{2, 3}, names, scal)
		for kind := 0; kind < 3; kind++ {
			eqs, terms := []string{}, [][]eqTerm{}
			for i := range names {
				o, o2 := names[(i+1)%n], names[(i+n/2)%n]
				if o2 == o {
					o2 = names[(i+n-1)%n]
				}
				s := sc(fmt.Sprintf("m%d", (i+3)%n+1), 1)
				var fs []factor
				switch kind {
				case 0:
					fs = []factor{s, fl(o, 1)}
				case 1:
					fs = []factor{s, fl(o, 2)}
				case 2:
					fs = []factor{s, fl(o, 1), fl(o2, 2)}
				}
				txt := []string{}
				for _, q := range fs {
					txt = append(txt, q.text)
				}
				eqs = append(eqs, "d"+names[i]+"/dt = "+strings.Join(txt, "*")+" - "+names[i])
				terms = append(terms, []eqTerm{{sign: 1, factors: fs}, {sign: -1, factors: []factor{fl(names[i], 1)}}})
			}
			c.Case(fmt.Sprintf("many/%d/%d", n, kind), func(r *Run) { w.checkTotal(r, eqs, terms) })
		}
	}
	w := newWorld([]int{2, 3}, []string{"conc", "eta"}, map[string]float64{"ma": 0.83, "mb": -1.4})
	for _, l := range []int{16, 33, 40} {
		ts, s := []eqTerm{}, ""
		for i := 0; i < l; i++ {
			fs := []factor{}
			if i%2 == 1 {
				fs = append(fs, sc("ma", float64(i%5+1)))
			}
			if i%3 == 1 {
				fs = append(fs, sc("mb", 1))
			}
			if i%4 == 2 {
				fs = append(fs, lap(i%3+1))
			}
			fs = append(fs, fl([]string{"conc", "eta"}[i%2], float64(i%7+1)))
			txt := []string{}
			for _, q := range fs {
				txt = append(txt, q.text)
			}
			t := eqTerm{sign: 1, factors: fs}
			if i%3 == 2 {
				t.sign = -1
				s += " - "
			} else if i > 0 {
				s += " + "
			}
			s += strings.Join(txt, "*")
			ts = append(ts, t)
		}
		c.Case(fmt.Sprintf("many/terms/%d", l), func(r *Run) {
			w.checkTotal(r, []string{"dconc/dt = " + s, "deta/dt = eta"}, [][]eqTerm{ts, {{sign: 1, factors: []factor{fl("eta", 1)}}}})
		})
	}
}

// powerSweep: every power of a field, of a scalar and of the Laplacian, fields of either sign
func powerSweep(c *Ctx) {
	fpow := []float64{0, 0.5, 1, 1.125, 1.5, 2, 2.25, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	spow := []float64{0, 0.5, 1, 1.5, 2, 3, 4, 5, 6, 7, 10, 12}
	c.bound("powers: every field power in %v x every scalar power in %v x Laplacian power 0..9 (at most one of the three different from its default, and all pairs with the field power), fields of one sign and fields of both signs, three orders of the factors", fpow, spow)
	for _, shift := range []float64{0, -1.2} {
		w := newWorld([]int{2, 3}, []string{"conc", "eta"}, map[string]float64{"ma": 0.83})
		if shift != 0 {
			for _, d := range w.data {
				for i := range d {
					d[i] += complex(shift, 0)
				}
			}
		}
		for _, fp := range fpow {
			for _, sp := range spow {
				for lp := 0; lp <= 9; lp++ {
					if sp != 1 && lp > 1 {
						continue
					}
					if shift != 0 && (fp < 0 || fp != math.Floor(fp)) {
						continue
					}
					fs := []factor{sc("ma", sp), fl("conc", fp)}
					if lp > 0 {
						fs = append(fs, lap(lp))
					}
					for _, ord := range [][]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}} {
						g := []factor{}
						txt := []string{}
						for _, o := range ord {
							if o < len(fs) {
								g = append(g, fs[o])
								txt = append(txt, fs[o].text)
							}
						}
						for lhs := 0; lhs < 2; lhs++ {
							eqs := []string{"dconc/dt = conc", "deta/dt = eta"}
							terms := [][]eqTerm{{{sign: 1, factors: []factor{fl("conc", 1)}}}, {{sign: 1, factors: []factor{fl("eta", 1)}}}}
							eqs[lhs] = "d" + w.fields[lhs] + "/dt = " + strings.Join(txt, "*")
							terms[lhs] = []eqTerm{{sign: 1, factors: g}}
							c.Case(fmt.Sprintf("power/%g/%s", shift, eqs[lhs]), func(r *Run) { w.checkSystem(r, eqs, terms) })
						}
					}
				}
			}
		}
	}
}

// longEquations: sums of 4 to 10 terms
func longEquations(c *Ctx) {
	c.bound("long equations: every contiguous cyclic selection of 4..10 terms out of 10 different ones, 4 sign patterns, on 2D and 3D domains")
	base := []eqTerm{
		{1, []factor{fl("conc", 1)}, "conc"},
		{1, []factor{sc("ma", 1), fl("eta", 1)}, "ma*eta"},
		{1, []factor{lap(1), fl("conc", 3)}, "LAP conc^3"},
		{1, []factor{sc("mb", 1), lap(2), fl("conc", 1)}, "mb*LAP^2*conc"},
		{1, []factor{sc("ma", 2), fl("eta", 2), fl("conc", 1)}, "ma^2*eta^2*conc"},
		{1, []factor{sc("mb", 1)}, "mb"},
		{1, []factor{sc("ma", 1), sc("mb", 1), fl("eta", 3)}, "ma*mb*eta^3"},
		{1, []factor{lap(1), fl("eta", 1)}, "LAP*eta"},
		{1, []factor{sc("mc", 1), lap(1), fl("conc", 1)}, "mc*LAP conc"},
		{1, []factor{fl("conc", 2), fl("eta", 2)}, "conc^2*eta^2"},
	}
	for _, dims := range [][]int{{2, 3}, {3, 2, 2}} {
		w := newWorld(dims, []string{"conc", "eta"}, map[string]float64{"ma": 0.83, "mb": -1.4, "mc": 0.2})
		for l := 4; l <= len(base); l++ {
			for st := range base {
				for pat := 0; pat < 4; pat++ {
					ts := []eqTerm{}
					s := ""
					for i := 0; i < l; i++ {
						t := base[(st+i)%len(base)]
						neg := pat == 1 || pat == 2 && i%2 == 1 || pat == 3 && i >= l/2
						if neg {
							t.sign = -1
							s += " - " + t.text
						} else {
							if i > 0 {
								s += " + "
							}
							s += t.text
						}
						ts = append(ts, t)
					}
					for lhs := 0; lhs < 2; lhs++ {
						eqs := []string{"dconc/dt = conc", "deta/dt = eta"}
						terms := [][]eqTerm{{{sign: 1, factors: []factor{fl("conc", 1)}}}, {{sign: 1, factors: []factor{fl("eta", 1)}}}}
						eqs[lhs], terms[lhs] = "d"+w.fields[lhs]+"/dt = "+s, ts
						c.Case(fmt.Sprintf("long/%s/%s", ints(dims), eqs[lhs]), func(r *Run) { w.checkSystem(r, eqs, terms) })
					}
				}
			}
		}
	}
}

// tripleProducts: products of up to three different fields in a three-field system
func tripleProducts(c *Ctx) {
	names := []string{"conc", "eta", "phi"}
	c.bound("three-field systems: every product conc^a*eta^b*phi^d with a,b,d in 0..2 in every order of the factors, with and without scalar and Laplacian, in each of the three equations, followed by a second product that shares a derived quantity")
	w := newWorld([]int{2, 3}, names, map[string]float64{"ma": 0.83})
	product([]int{3, 3, 3}, func(p []int) {
		fs := []factor{}
		for k, q := range p {
			if q > 0 {
				fs = append(fs, fl(names[k], float64(q)))
			}
		}
		if len(fs) == 0 {
			return
		}
		for pre := 0; pre < 4; pre++ {
			all := []factor{}
			if pre&1 != 0 {
				all = append(all, sc("ma", 1))
			}
			if pre&2 != 0 {
				all = append(all, lap(1))
			}
			permutations(len(fs), func(perm []int) {
				g := append([]factor{}, all...)
				for _, k := range perm {
					g = append(g, fs[k])
				}
				txt := []string{}
				for _, f := range g {
					txt = append(txt, f.text)
				}
				for lhs := 0; lhs < 3; lhs++ {
					eqs, terms := []string{}, [][]eqTerm{}
					for k, n := range names {
						if k == lhs {
							eqs = append(eqs, "d"+n+"/dt = "+strings.Join(txt, "*")+" - conc*phi")
							terms = append(terms, []eqTerm{{sign: 1, factors: g}, {sign: -1, factors: []factor{fl("conc", 1), fl("phi", 1)}}})
						} else {
							eqs = append(eqs, "d"+n+"/dt = eta^2*conc + phi*conc")
							terms = append(terms, []eqTerm{{sign: 1, factors: []factor{fl("eta", 2), fl("conc", 1)}}, {sign: 1, factors: []factor{fl("phi", 1), fl("conc", 1)}}})
						}
					}
					c.Case("triple/"+strings.Join(eqs, " ; "), func(r *Run) { w.checkSystem(r, eqs, terms) })
				}
			})
		}
	})
}

// scalarValues: a scalar has the value it was last given
func scalarValues(c *Ctx) {
	vals := []float64{0, 1, -2.5, 1e-300}
	c.bound("scalars: every sequence of up to 3 assignments of %v", vals)
	sequences(len(vals), 1, 3, func(seq []int) {
		seq = cloneI(seq)
		c.Case(fmt.Sprintf("scalar/%v", seq), func(r *Run) {
			s := pf.NewScalar("m", complex(vals[seq[0]], 0))
			for k, i := range seq {
				if k > 0 {
					s.SetFloat(vals[i])
				}
				r.Step(1)
				r.Check(s.Get(0) == complex(vals[i], 0) && s.Get(7) == complex(vals[i], 0), "scalar has the value %v after it was given %g", s.Get(0), vals[i])
			}
			r.Observe("scalar", s.Get(0))
			r.Outcome("scalar")
		})
	})
}
