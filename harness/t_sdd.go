package main

import (
	"fmt"
	"io/ioutil"
	"math"
	"math/cmplx"
	"os"
	"path/filepath"
	"strings"

	"github.com/davidkleiven/gopf/pf"
)

func init() {
	register("T05", "model_checking", saddleSearch)
}

// orientationOf reads the orientation of the dimer through the exported shift of the fields
func orientationOf(sdd *pf.SDD, nf, n int) []float64 {
	fs := make([]pf.Field, nf)
	for i := range fs {
		fs[i] = pf.NewField(fmt.Sprintf("probe%d", i), n, nil)
	}
	sdd.ShiftFieldsAlongDimer(fs, 1)
	out := []float64{}
	for _, f := range fs {
		out = append(out, realOf(f.Data)...)
	}
	return out
}

// solveDense solves a*x = b by Gaussian elimination with pivoting
func solveDense(a [][]float64, b []float64) []float64 {
	n := len(b)
	m := make([][]float64, n)
	for i := range m {
		m[i] = append(cloneF(a[i]), b[i])
	}
	for c := 0; c < n; c++ {
		p := c
		for i := c + 1; i < n; i++ {
			if math.Abs(m[i][c]) > math.Abs(m[p][c]) {
				p = i
			}
		}
		m[c], m[p] = m[p], m[c]
		for i := 0; i < n; i++ {
			if i == c || m[i][c] == 0 {
				continue
			}
			f := m[i][c] / m[c][c]
			for k := c; k <= n; k++ {
				m[i][k] -= f * m[c][k]
			}
		}
	}
	x := make([]float64, n)
	for i := range x {
		x[i] = m[i][n] / m[i][i]
	}
	return x
}

// dimerRef is the reference for shrinking dimer dynamics in real space: all fields form one vector
type dimerRef struct {
	s       spec
	x, v    []float64
	lin     [][]float64
	alpha   float64
	l0, min float64
	tauV    float64
	tauL    float64
	dt      float64
	step    int
	// what the monitor has to show for the last step
	force1, rms, torque float64
}

func (d *dimerRef) split(x []float64) map[string][]complex128 {
	n := prod(d.s.dims)
	out := map[string][]complex128{}
	for k, nm := range d.s.names {
		out[nm] = toC(x[k*n : (k+1)*n])
	}
	return out
}

func (d *dimerRef) force(x []float64, t float64) []float64 {
	out := []float64{}
	f := d.split(x)
	for k := range d.s.names {
		out = append(out, realOf(refIDFT(d.s.dims, d.s.explicit(k, t, f)))...)
	}
	return out
}

func (d *dimerRef) linear() {
	n := prod(d.s.dims)
	nt := n * len(d.s.names)
	d.lin = make([][]float64, nt)
	for i := range d.lin {
		d.lin[i] = make([]float64, nt)
	}
	for k := range d.s.names {
		den := d.s.implicit(k, 0)
		for j := 0; j < n; j++ {
			e := make([]complex128, n)
			e[j] = 1
			h := refDFT(d.s.dims, e, -1)
			for i := range h {
				h[i] *= den[i]
			}
			for i, v := range refIDFT(d.s.dims, h) {
				d.lin[k*n+i][k*n+j] = real(v)
			}
		}
	}
}

func (d *dimerRef) length(t float64) float64 {
	return math.Max(d.min, d.l0*math.Exp(-t/d.tauL))
}

func dotF(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

func (d *dimerRef) advance() {
	t := float64(d.step) * d.dt
	l := d.length(t)
	nt := len(d.x)
	x1, x2 := cloneF(d.x), cloneF(d.x)
	for i := range d.x {
		x1[i] -= 0.5 * l * d.v[i]
		x2[i] += 0.5 * l * d.v[i]
	}
	n1, n2 := d.force(x1, t), d.force(x2, t)
	mean := make([]float64, nt)
	for i := range mean {
		mean[i] = d.alpha*n1[i] + (1-d.alpha)*n2[i]
	}
	// x' = x + dt*(I-2vv^T)*(N + L*x')
	p := dotF(mean, d.v)
	b := make([]float64, nt)
	for i := range b {
		b[i] = d.x[i] + d.dt*(mean[i]-2*d.v[i]*p)
	}
	a := make([][]float64, nt)
	vl := make([]float64, nt)
	for j := range vl {
		for i := range d.v {
			vl[j] += d.v[i] * d.lin[i][j]
		}
	}
	for i := range a {
		a[i] = make([]float64, nt)
		for j := range a[i] {
			a[i][j] = -d.dt * (d.lin[i][j] - 2*d.v[i]*vl[j])
		}
		a[i][i]++
	}
	xNew := solveDense(a, b)
	// v' = v + dt*(I-vv^T)*(F(x2)-F(x1))/(l*tau), normalised
	df := make([]float64, nt)
	for i := range df {
		df[i] = n2[i] - n1[i]
		for j := range d.v {
			df[i] += d.lin[i][j] * l * d.v[j]
		}
	}
	q := dotF(df, d.v)
	for i := range df {
		df[i] -= q * d.v[i]
	}
	v := make([]float64, nt)
	for i := range v {
		v[i] = d.v[i] + d.dt*df[i]/(l*d.tauV)
	}
	nv := math.Sqrt(dotF(v, v))
	for i := range v {
		v[i] /= nv
	}
	d.torque, d.force1, d.rms = 0, 0, 0
	for i := range df {
		d.torque = math.Max(d.torque, math.Abs(df[i]))
	}
	n := prod(d.s.dims)
	for k := range d.s.names {
		diff := make([]complex128, n)
		for i := range diff {
			v := (xNew[k*n+i] - d.x[k*n+i]) / d.dt
			diff[i] = complex(v, 0)
			d.rms += v * v / float64(nt)
		}
		if n <= 36 {
			for _, v := range refDFT(d.s.dims, diff, -1) {
				d.force1 = math.Max(d.force1, cmplx.Abs(v))
			}
		}
	}
	d.rms = math.Sqrt(d.rms)
	d.x, d.v = xNew, v
	d.step++
}

type sddCase struct {
	dims   []int
	names  []string
	terms  [][]eqTerm
	scal   map[string]float64
	alpha  float64
	min    float64
	l0     float64 // 0: use the length of the orientation vector
	tauV   float64
	tauL   float64
	dt     float64
	start  int
	init   bool // orientation from two states instead of a vector
	source bool
	steps  int
	before string // what happened to the same search before: see sddBefore
}

// sddBefore: the initial orientation that counts is the last one
var sddBefore = []string{"SetInitialOrientation", "Init", "Init Init", "steps", "fields and steps", "orientation of the caller"}

func (k sddCase) run(r *Run) {
	n := prod(k.dims)
	w := newWorld(k.dims, k.names, k.scal)
	m := w.model()
	for i, nm := range k.names {
		m.AddEquation(sumText(nm, k.terms[i]))
	}
	s := spec{dims: k.dims, names: k.names, scal: k.scal, terms: k.terms}
	if k.source {
		pos := make([]float64, len(k.dims))
		src := make([]complex128, n)
		src[0] = 1
		srcFT := refDFT(k.dims, src, -1)
		m.AddSource(0, pf.NewSource(pos, func(t float64) float64 { return 0.5 + 2*t }))
		s.extra = func(eq int, t float64, f map[string][]complex128) []complex128 {
			out := make([]complex128, n)
			if eq == 0 {
				for i := range out {
					out[i] = srcFT[i] * complex(0.5+2*t, 0)
				}
			}
			return out
		}
	}
	m.Init()
	sdd := pf.NewSDD(k.dims, &m)
	sdd.Dt = k.dt
	sdd.Alpha = k.alpha
	sdd.TimeConstants = pf.SDDTimeConstants{Orientation: k.tauV, DimerLength: k.tauL}
	sdd.MinDimerLength = k.min
	sdd.CurrentStep = k.start
	orient := []float64{}
	for i := range k.names {
		orient = append(orient, realOf(genericField(n, 31+i))...)
	}
	norm := math.Sqrt(dotF(orient, orient))
	other := make([]float64, len(orient))
	for i := range other {
		other[i] = 2.5 - float64(i%5)
	}
	otherInit := func() {
		a, b := []pf.Field{}, []pf.Field{}
		for i, nm := range k.names {
			a = append(a, pf.NewField(nm, n, nil))
			b = append(b, pf.NewField(nm, n, toC(other[i*n:(i+1)*n])))
		}
		sdd.Init(a, b)
	}
	switch k.before {
	case "SetInitialOrientation":
		sdd.SetInitialOrientation(cloneF(other))
	case "Init":
		otherInit()
	case "Init Init":
		otherInit()
		otherInit()
	case "steps", "fields and steps":
		saved := [][]complex128{}
		for i := range m.Fields {
			saved = append(saved, cloneC(m.Fields[i].Data))
			if k.before == "fields and steps" {
				m.Fields[i].Data[0] += 0.5
			}
		}
		otherInit()
		sdd.Step(&m)
		sdd.Step(&m)
		for i := range m.Fields {
			copy(m.Fields[i].Data, saved[i])
		}
		sdd.CurrentStep = k.start
	}
	var given []float64
	if k.init {
		a, b := []pf.Field{}, []pf.Field{}
		for i, nm := range k.names {
			x := genericField(n, 57+i)
			y := cloneC(x)
			for j := range y {
				y[j] += complex(orient[i*n+j], 0)
			}
			a = append(a, pf.NewField(nm, n, x))
			b = append(b, pf.NewField(nm, n, y))
		}
		sdd.Init(a, b)
	} else {
		given = cloneF(orient)
		sdd.SetInitialOrientation(given)
		if k.before == "orientation of the caller" {
			// the orientation belongs to the search from now on
			for i := range given {
				given[i] = 7
			}
		}
	}
	r.close1("initial dimer length", sdd.InitDimerLength, norm, 1e-12)
	if k.l0 > 0 {
		sdd.InitDimerLength = k.l0
	}
	ref := &dimerRef{s: s, alpha: k.alpha, min: k.min, l0: norm, tauV: k.tauV, tauL: k.tauL, dt: k.dt, step: k.start}
	if k.l0 > 0 {
		ref.l0 = k.l0
	}
	ref.linear()
	for _, nm := range k.names {
		ref.x = append(ref.x, realOf(w.data[nm])...)
	}
	for _, v := range orient {
		ref.v = append(ref.v, v/norm)
	}
	r.closeF("initial orientation", orientationOf(&sdd, len(k.names), n), ref.v, 1e-12)
	for st := 0; st < k.steps; st++ {
		t := float64(k.start+st) * k.dt
		r.close1("time", sdd.GetTime(), t, 1e-12)
		r.close1("dimer length", sdd.DimerLength(sdd.GetTime()), ref.length(t), 1e-12)
		before := dotF(ref.x, ref.x)
		prev := sdd.Monitor.FieldNorm
		sdd.Step(&m)
		r.Step(1)
		r.close1("monitored field norm", sdd.Monitor.FieldNorm, before, 1e-8)
		if st > 0 {
			r.close1("monitored change of the field norm", math.Abs(sdd.Monitor.FieldNormChange), math.Abs(before-prev), 1e-8)
		}
		ref.advance()
		r.close1("monitored torque", sdd.Monitor.MaxTorque, ref.torque, 1e-6)
		r.close1("monitored power of the force", sdd.Monitor.ForcePowerSpectrum, ref.rms, 1e-5)
		if n <= 36 {
			r.close1("monitored force", sdd.Monitor.MaxForce, ref.force1, 1e-5)
		}
		for i, f := range m.Fields {
			r.closeC(fmt.Sprintf("field %s after step %d", f.Name, st+1), f.Data, toC(ref.x[i*n:(i+1)*n]), 1e-7)
		}
		r.closeF(fmt.Sprintf("orientation after step %d", st+1), orientationOf(&sdd, len(k.names), n), ref.v, 1e-7)
		r.ObserveF("orientation", ref.v)
	}
	r.close1("time", sdd.GetTime(), float64(k.start+k.steps)*k.dt, 1e-12)
	for _, f := range m.Fields {
		r.ObserveC(f.Name, f.Data)
	}
	r.Outcome(fmt.Sprintf("%d fields", len(k.names)))
}

func saddleSearch(c *Ctx) {
	scal := map[string]float64{"alpha": 0.3, "dcoef": -0.2, "kappa": 0.8}
	steps, m2, m3 := 3, 4, 2
	conv := 3
	if c.Thorough {
		steps, m2, m3, conv = 6, 5, 3, 6
	}
	def := func(dims []int, names []string, terms [][]eqTerm) sddCase {
		return sddCase{dims: dims, names: names, terms: terms, scal: scal, alpha: 0.5, tauV: 1, tauL: 1, dt: 0.01, steps: steps}
	}
	c.bound("every two-field system with two terms per equation out of 8 (4096 systems) on a 1x2 domain, %d steps, compared with a dense real space reference of shrinking dimer dynamics in the space of all fields", steps)
	b1, b2 := twoFieldBase("conc", "eta"), twoFieldBase("eta", "conc")
	product([]int{8, 8, 8, 8}, func(x []int) {
		t1 := []eqTerm{b1[x[0]], b1[x[1]]}
		t2 := []eqTerm{b2[x[2]], b2[x[3]]}
		t1[1].sign, t2[0].sign = -1, -1
		k := def([]int{1, 2}, []string{"conc", "eta"}, [][]eqTerm{t1, t2})
		c.Case(fmt.Sprintf("system/%s;%s", sumText("conc", t1), sumText("eta", t2)), k.run)
	})
	c.bound("one, two and three fields on all 2D domains with sides 1..%d and 3D domains with sides 1..%d (one field), 3x3 (two fields), 2x2 (three fields) x weights alpha 0,0.5,0.3,1 x minimum dimer lengths x time constants x start steps x origin of the orientation x source; time steps of 1e-7, 1e-4 and 0.1", m2, m3)
	for nf := 1; nf <= 3; nf++ {
		names := []string{"conc", "eta", "phi"}[:nf]
		terms := [][]eqTerm{}
		for i := range names {
			a := names[i]
			b := names[(i+1)%nf]
			ts := twoFieldBase(a, b)
			tt := []eqTerm{ts[1+i%2], ts[3]}
			tt[1].sign = -1
			if nf > 1 {
				tt = append(tt, ts[4+i%2])
			}
			terms = append(terms, tt)
		}
		shapes(m2, m3, func(dims []int) {
			n := prod(dims)
			if (nf == 2 && n > 9) || (nf == 3 && n > 4) {
				return
			}
			for _, alpha := range []float64{0.5, 0.3, 0, 1} {
				k := def(dims, names, terms)
				k.alpha = alpha
				c.Case(fmt.Sprintf("shape/%d fields/%s/alpha=%g", nf, ints(dims), alpha), k.run)
			}
		})
		for _, dims := range [][]int{{9, 10}, {16, 16}, {1, 130}, {5, 6, 4}} {
			for _, alpha := range []float64{0.5, 0.3} {
				k := def(dims, names, terms)
				k.alpha = alpha
				c.Case(fmt.Sprintf("large/%d fields/%s/alpha=%g", nf, ints(dims), alpha), k.run)
			}
		}
		for _, steps := range []int{11, 60, 130} {
			k := def([]int{2, 3}, names, terms)
			k.steps, k.dt = steps, 0.002
			c.Case(fmt.Sprintf("long/%d fields/%d steps", nf, steps), k.run)
		}
		for _, dt := range []float64{1e-7, 1e-4, 0.1} {
			k := def([]int{2, 3}, names, terms)
			k.dt, k.start, k.steps = dt, 7, 3
			c.Case(fmt.Sprintf("time step/%d fields/dt=%g", nf, dt), k.run)
		}
		for _, alpha := range []float64{0.5, 0.3} {
			for _, min := range []float64{0, 0.01, 5} {
				for _, l0 := range []float64{0, 0.2} {
					for _, tau := range [][2]float64{{1, 1}, {0.25, 3}, {2, 0.02}} {
						for _, start := range []int{0, 7} {
							for o := 0; o < 4; o++ {
								k := def([]int{2, 2}, names, terms)
								k.alpha, k.min, k.l0, k.tauV, k.tauL, k.start = alpha, min, l0, tau[0], tau[1], start
								k.init, k.source = o%2 == 1, o >= 2
								c.Case(fmt.Sprintf("params/%d fields/alpha=%g/min=%g/l0=%g/tau=%v/start=%d/init=%v/source=%v", nf, alpha, min, l0, tau, start, k.init, k.source), k.run)
							}
						}
					}
				}
			}
		}
	}
	c.bound("a search that is initialised again after %v with one to three fields", sddBefore)
	for nf := 1; nf <= 3; nf++ {
		names := []string{"conc", "eta", "phi"}[:nf]
		terms := [][]eqTerm{}
		for i := range names {
			ts := twoFieldBase(names[i], names[(i+1)%nf])
			tt := []eqTerm{ts[1+i%2], ts[3]}
			tt[1].sign = -1
			terms = append(terms, tt)
		}
		for _, dims := range [][]int{{2, 2}, {2, 3}, {2, 1, 2}} {
			for _, b := range sddBefore {
				for _, init := range []bool{false, true} {
					for _, start := range []int{0, 7} {
						k := def(dims, names, terms)
						k.before, k.init, k.start, k.min = b, init, start, 0.01
						c.Case(fmt.Sprintf("again/%d fields/%s/%s/init=%v/start=%d", nf, ints(dims), b, init, start), k.run)
					}
				}
			}
		}
	}
	c.bound("dimer searches on rotated double well surfaces with 2 variables (%d angles) and 3 variables from a grid of start points and orientations: the search ends in the saddle with the unstable direction as orientation", 2*conv)
	for a := 0; a < 2*conv; a++ {
		theta := math.Pi * float64(a) / float64(2*conv)
		co, si := math.Cos(theta), math.Sin(theta)
		for _, st := range [][2]float64{{0.2, 0.3}, {-0.3, 0.1}, {0.1, -0.4}} {
			for _, or := range [][2]float64{{0.1, 0.02}, {0.1, 0.09}, {-0.05, 0.04}} {
				st, or := st, or
				c.Case(fmt.Sprintf("search/angle=%d of %d/start=%v/orientation=%v", a, 2*conv, st, or), func(r *Run) {
					m := pf.NewModel()
					// start point and orientation in rotated coordinates (p: unstable direction)
					x := pf.NewField("xCrd", 1, []complex128{complex(st[0]*co-st[1]*si, 0)})
					y := pf.NewField("yCrd", 1, []complex128{complex(st[0]*si+st[1]*co, 0)})
					m.AddField(x)
					m.AddField(y)
					f := func(i int, b map[string]pf.Brick) (fp, fq float64) {
						xv, yv := real(b["xCrd"].Get(i)), real(b["yCrd"].Get(i))
						p, q := xv*co+yv*si, -xv*si+yv*co
						return 4*p - 4*p*p*p, -2 * q
					}
					m.RegisterFunction("FORCEX", func(i int, b map[string]pf.Brick) complex128 {
						fp, fq := f(i, b)
						return complex(fp*co-fq*si, 0)
					})
					m.RegisterFunction("FORCEY", func(i int, b map[string]pf.Brick) complex128 {
						fp, fq := f(i, b)
						return complex(fp*si+fq*co, 0)
					})
					m.AddEquation("dxCrd/dt = FORCEX")
					m.AddEquation("dyCrd/dt = FORCEY")
					dt := 0.02
					solver := pf.NewSolver(&m, []int{1, 1}, dt)
					sdd := pf.NewSDD([]int{1, 1}, &m)
					sdd.Dt = dt
					sdd.MinDimerLength = 1e-5
					sdd.SetInitialOrientation([]float64{or[0]*co - or[1]*si, or[0]*si + or[1]*co})
					solver.Stepper = &sdd
					solver.Solve(1, 800)
					r.Step(800)
					r.Check(math.Abs(real(x.Data[0])) < 1e-5 && math.Abs(real(y.Data[0])) < 1e-5,
						"the search ended in (%g, %g), the saddle is (0, 0)", real(x.Data[0]), real(y.Data[0]))
					v := orientationOf(&sdd, 2, 1)
					r.Check(math.Abs(math.Abs(v[0]*co+v[1]*si)-1) < 1e-4, "final orientation %v, unstable direction (%g, %g)", v, co, si)
					r.ObserveF("end", []float64{v[0], v[1], float64(a)})
				})
			}
		}
	}
	c.bound("dimer length for 5 lengths x 4 time constants x 3 minimum lengths x 9 times; time required for 5 target lengths")
	for _, l0 := range []float64{1e-3, 0.5, 1, 5, 40} {
		for _, tau := range []float64{0.1, 1, 2.5, 10} {
			for _, min := range []float64{0, 0.01, 2} {
				l0, tau, min := l0, tau, min
				c.Case(fmt.Sprintf("length/l0=%g/tau=%g/min=%g", l0, tau, min), func(r *Run) {
					sdd := pf.SDD{InitDimerLength: l0, MinDimerLength: min, TimeConstants: pf.SDDTimeConstants{Orientation: 1, DimerLength: tau}}
					for _, t := range []float64{0, 0.01, 0.1, 0.5, 1, 2, 5, 20, 100} {
						r.close1("dimer length", sdd.DimerLength(t), math.Max(min, l0*math.Exp(-t/tau)), 1e-12)
						r.Step(1)
					}
					for _, fr := range []float64{1, 0.5, 0.1, 1e-3, 1e-6} {
						if l0*fr >= min {
							r.close1("length at the required time", sdd.DimerLength(sdd.RequiredDimerLengthTime(l0*fr))/l0, fr, 1e-9)
							r.Step(2)
						}
					}
					r.ObserveF("length", []float64{l0, tau, min, sdd.DimerLength(1)})
				})
			}
		}
	}
	c.Case("misuse", func(r *Run) {
		w := newWorld([]int{2, 2}, []string{"conc"}, scal)
		mk := func() (*pf.Model, pf.SDD) {
			m := w.model()
			m.AddEquation("dconc/dt = conc - conc^3")
			m.Init()
			return &m, pf.NewSDD([]int{2, 2}, &m)
		}
		m, sdd := mk()
		sdd.Dt = 0.1
		p, _ := panics(func() { sdd.Step(m) })
		r.Check(p, "a search without orientation is accepted")
		m, sdd = mk()
		sdd.SetInitialOrientation([]float64{1, 2, 3, 4})
		p, _ = panics(func() { sdd.Step(m) })
		r.Check(p, "a search without time step is accepted")
		for _, n := range []int{0, 1, 3, 5, 8} {
			m, sdd = mk()
			p, _ = panics(func() { sdd.SetInitialOrientation(make([]float64, n)) })
			r.Check(p, "an orientation of %d values for 4 nodes is accepted", n)
		}
		p, _ = panics(func() { sdd.SetFilter(recFilter{}) })
		r.Check(p, "a modal filter is silently ignored")
		r.Step(8)
	})
	c.bound("monitor log of every number of epochs 0..4 and the stored orientation for 1..2 fields in 2D and 3D")
	for ep := 0; ep <= 4; ep++ {
		ep := ep
		c.Case(fmt.Sprintf("log/%d", ep), func(r *Run) {
			w := newWorld([]int{2, 2}, []string{"conc"}, scal)
			m := w.model()
			m.AddEquation("dconc/dt = conc - conc^3")
			solver := pf.NewSolver(&m, []int{2, 2}, 0.1)
			sdd := pf.NewSDD([]int{2, 2}, &m)
			sdd.Dt = 0.1
			sdd.SetInitialOrientation([]float64{1, 2, 3, 4})
			fn := filepath.Join(c.scratch, "monitor.csv")
			f, err := os.Create(fn)
			r.Check(err == nil, "%v", err)
			sdd.Monitor.LogFile = f
			solver.Stepper = &sdd
			want := []string{}
			solver.AddCallback(sdd.Monitor.Log)
			solver.AddCallback(func(s *pf.Solver, epoch int) {
				mo := sdd.Monitor
				want = append(want, fmt.Sprintf("%f,%f,%f,%f,%f", mo.MaxForce, mo.MaxTorque, mo.ForcePowerSpectrum, mo.FieldNorm, mo.FieldNormChange))
			})
			if ep > 0 {
				solver.Solve(ep, 2)
			}
			if ep == 3 { // a second search, started from its first epoch, goes on in the same file
				again := pf.NewSolver(&m, []int{2, 2}, 0.1)
				again.Stepper = &sdd
				for _, cb := range solver.Callbacks {
					again.AddCallback(cb)
				}
				again.Solve(2, 1)
			}
			f.Close()
			b, _ := ioutil.ReadFile(fn)
			os.Remove(fn)
			lines := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
			if len(want) == 0 {
				r.Check(len(b) == 0, "log of a run without epochs: %q", b)
				return
			}
			r.Check(len(lines) == len(want)+1, "%d lines in the log of %d callbacks", len(lines), len(want))
			r.Check(lines[0] == "MaxForce,MaxTorque,ForcePowerSpect,FieldNorm,FieldNormChange", "header of the log: %q", lines[0])
			for i := range want {
				r.Check(lines[i+1] == want[i], "line %d of the log is %q, expected %q", i+1, lines[i+1], want[i])
			}
			r.Observe("log", string(b))
		})
	}
	for _, dims := range [][]int{{2, 3}, {2, 1, 3}} {
		for nf := 1; nf <= 2; nf++ {
			dims, nf := dims, nf
			c.Case(fmt.Sprintf("orientationfile/%s/%d", ints(dims), nf), func(r *Run) {
				w := newWorld(dims, []string{"conc", "eta"}[:nf], scal)
				m := w.model()
				n := prod(dims)
				sdd := pf.NewSDD(dims, &m)
				or := make([]float64, n*nf)
				for i := range or {
					or[i] = float64(1 + i)
				}
				sdd.SetInitialOrientation(or)
				fn := filepath.Join(c.scratch, "orient.csv")
				sdd.SaveOrientation(fn)
				b, err := ioutil.ReadFile(fn)
				os.Remove(fn)
				r.Check(err == nil, "%v", err)
				lines := strings.Split(strings.TrimSpace(string(b)), "\n")
				r.Check(len(lines) == n+1, "%d lines for %d nodes", len(lines), n)
				head := strings.Split(lines[0], ",")
				col := map[string]int{}
				for i, h := range head {
					col[h] = i
				}
				norm := math.Sqrt(dotF(or, or))
				for i := 0; i < n; i++ {
					rec := strings.Split(lines[i+1], ",")
					pos := make([]int, len(dims))
					for k, h := range []string{"X", "Y", "Z"}[:len(dims)] {
						ci, ok := col[h]
						r.Check(ok, "no column %s in %v", h, head)
						fmt.Sscan(rec[ci], &pos[k])
					}
					j := refIndex(dims, pos)
					for f := 0; f < nf; f++ {
						ci, ok := col[fmt.Sprintf("orientation%d", f)]
						r.Check(ok, "no column orientation%d in %v", f, head)
						var v float64
						fmt.Sscan(rec[ci], &v)
						r.close1(fmt.Sprintf("stored orientation of field %d at %v", f, pos), v, or[f*n+j]/norm, 1e-5)
					}
				}
				r.Step(2)
				r.Observe("file", string(b))
			})
		}
	}
}
