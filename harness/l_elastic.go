package main

import (
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"github.com/davidkleiven/gopf/elasticity"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("L01", "model_checking", tensorAlgebra)
	register("L02", "model_checking", elasticEnergies)
}

func fromRank4(r *elasticity.Rank4) tensor4 {
	var t tensor4
	idx4(func(i, j, k, l int) { t[i][j][k][l] = r.At(i, j, k, l) })
	return t
}

func idx4(f func(i, j, k, l int)) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					f(i, j, k, l)
				}
			}
		}
	}
}

func flat4(t tensor4) []float64 {
	out := []float64{}
	idx4(func(i, j, k, l int) { out = append(out, t[i][j][k][l]) })
	return out
}

// rotate4 applies the rotation index by index
func rotate4(t tensor4, R mat3) tensor4 {
	for pos := 0; pos < 4; pos++ {
		var o tensor4
		idx4(func(i, j, k, l int) {
			for m := 0; m < 3; m++ {
				switch pos {
				case 0:
					o[i][j][k][l] += R[i][m] * t[m][j][k][l]
				case 1:
					o[i][j][k][l] += R[j][m] * t[i][m][k][l]
				case 2:
					o[i][j][k][l] += R[k][m] * t[i][j][m][l]
				case 3:
					o[i][j][k][l] += R[l][m] * t[i][j][k][m]
				}
			}
		})
		t = o
	}
	return t
}

func mul3(a, b mat3) mat3 {
	var o mat3
	for i := range o {
		for j := range o {
			for k := range o {
				o[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return o
}

func transpose3(a mat3) mat3 {
	var o mat3
	for i := range o {
		for j := range o {
			o[i][j] = a[j][i]
		}
	}
	return o
}

func fromDense3(d *mat.Dense) mat3 {
	var o mat3
	for i := range o {
		for j := range o {
			o[i][j] = d.At(i, j)
		}
	}
	return o
}

func flat3(m mat3) []float64 {
	o := []float64{}
	for i := range m {
		o = append(o, m[i][:]...)
	}
	return o
}

var voigtPairs = [6][2]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}

// voigtRef expands a 6x6 matrix
func voigtRef(v []float64) tensor4 {
	var t tensor4
	idx := func(a, b int) int {
		for n, p := range voigtPairs {
			if (p[0] == a && p[1] == b) || (p[0] == b && p[1] == a) {
				return n
			}
		}
		return -1
	}
	idx4(func(i, j, k, l int) { t[i][j][k][l] = v[6*idx(i, j)+idx(k, l)] })
	return t
}

func toVoigt(t tensor4) []float64 {
	out := make([]float64, 36)
	for a, p := range voigtPairs {
		for b, q := range voigtPairs {
			out[6*a+b] = t[p[0]][p[1]][q[0]][q[1]]
		}
	}
	return out
}

func genericTensor(seed int) tensor4 {
	var t tensor4
	idx4(func(i, j, k, l int) {
		t[i][j][k][l] = math.Sin(float64(1+i*27+j*9+k*3+l+7*seed)) + 0.3*math.Cos(float64((i+2)*(j+3)*(k+5)*(l+7)+seed))
	})
	return t
}

// cubicGroup enumerates the 48 signed permutation matrices
func cubicGroup(f func(R mat3)) {
	permutations(3, func(p []int) {
		product([]int{2, 2, 2}, func(s []int) {
			var R mat3
			for i := range R {
				R[i][p[i]] = 1 - 2*float64(s[i])
			}
			f(R)
		})
	})
}

func tensorAlgebra(c *Ctx) {
	c.bound("all 81 positions of a tensor; contraction and energy with all 81x9 (and all pairs of 9) unit entries; all 36 entries of the Voigt form")
	for p := 0; p < 81; p++ {
		p := p
		c.Case(fmt.Sprintf("position/%d", p), func(r *Run) {
			i, j, k, l := p/27, (p/9)%3, (p/3)%3, p%3
			t := elasticity.NewRank4()
			t.Set(i, j, k, l, 2.5)
			idx4(func(a, b, cc, d int) {
				want := 0.0
				if a == i && b == j && cc == k && d == l {
					want = 2.5
				}
				r.Check(t.At(a, b, cc, d) == want, "entry (%d,%d,%d,%d) is %g", a, b, cc, d, t.At(a, b, cc, d))
			})
			sym, symWant := mat3{{1, 2, 3}, {2, -4, 5}, {3, 5, 6}}, mat3{}
			symWant[i][j] = 2.5 * sym[k][l]
			r.closeF("contraction with a symmetric tensor", flat3(fromDense3(t.ContractLast(sym.dense()))), flat3(symWant), 1e-12)
			for q := 0; q < 9; q++ {
				var m mat3
				m[q/3][q%3] = 3
				var want mat3
				if q == 3*k+l {
					want[i][j] = 7.5
				}
				d := m.dense()
				r.closeF("contraction", flat3(fromDense3(t.ContractLast(d))), flat3(want), 1e-12)
				r.closeF("argument of the contraction", flat3(fromDense3(d)), flat3(m), 0)
				eff := elasticity.NewEffectiveForceFromMisfit(t, m.dense())
				r.closeF("effective stress", flat3(fromDense3(eff.EffStress)), flat3(want), 1e-12)
				for s := 0; s < 9; s++ {
					e := m
					e[s/3][s%3] += 0.5
					w := 0.5 * 2.5 * e[i][j] * e[k][l]
					r.close1("energy density", elasticity.EnergyDensity(&t, e.dense()), w, 1e-12)
				}
			}
			r.Step(100)
			r.Observe("pos", p)
		})
	}
	for v := 0; v < 36; v++ {
		v := v
		c.Case(fmt.Sprintf("voigt/%d", v), func(r *Run) {
			x := make([]float64, 36)
			x[v] = 4
			t := elasticity.FromFlatVoigt(x)
			r.closeF("tensor of the Voigt matrix", flat4(fromRank4(&t)), flat4(voigtRef(x)), 0)
			r.Step(1)
		})
	}
	c.bound("rotations: 2 generic tensors under all 48 signed permutations and their pairs, and under all rotations about the 3 axes by 24 angles")
	for s := 0; s < 2; s++ {
		s := s
		T := genericTensor(s)
		n1 := 0
		cubicGroup(func(R1 mat3) {
			n1++
			c.Case(fmt.Sprintf("rotate/%d/%v", s, R1), func(r *Run) {
				cubicGroup(func(R2 mat3) {
					t := T.rank4()
					t.Rotate(R1.dense())
					t.Rotate(R2.dense())
					r.closeF("rotated tensor", flat4(fromRank4(&t)), flat4(rotate4(T, mul3(R2, R1))), 1e-10)
					r.Step(2)
				})
				r.ObserveF("rot", flat4(rotate4(T, R1)))
			})
		})
	}
	for axis := 0; axis < 3; axis++ {
		for a := -12; a < 12; a++ {
			axis, a := axis, a
			c.Case(fmt.Sprintf("axis/%d/%d", axis, a), func(r *Run) {
				ang := 2 * math.Pi * (float64(a) + 0.25) / 24
				R := fromDense3(elasticity.RotationMatrix(ang, axis))
				var id mat3
				for i := range id {
					id[i][i] = 1
				}
				r.closeF("R R^T", flat3(mul3(R, transpose3(R))), flat3(id), 1e-12)
				d := det([][]float64{R[0][:], R[1][:], R[2][:]})
				r.close1("determinant", d, 1, 1e-12)
				for i := 0; i < 3; i++ {
					want := 0.0
					if i == axis {
						want = 1
					}
					r.close1("rotation axis", R[i][axis], want, 1e-12)
				}
				r.close1("angle of the rotation", R[0][0]+R[1][1]+R[2][2], 1+2*math.Cos(ang), 1e-12)
				for b := 0; b < 6; b++ {
					ang2 := 1.1 * float64(b)
					R2 := fromDense3(elasticity.RotationMatrix(ang2, axis))
					sum := fromDense3(elasticity.RotationMatrix(ang+ang2, axis))
					r.closeF("composition of rotations", flat3(mul3(R, R2)), flat3(sum), 1e-12)
				}
				for s, T := range []tensor4{genericTensor(3), cubicRef(110, 60, 30)} {
					t := T.rank4()
					t.Rotate(R.dense())
					r.closeF(fmt.Sprintf("rotated tensor %d", s), flat4(fromRank4(&t)), flat4(rotate4(T, R)), 1e-10)
					t.Rotate(transpose3(R).dense())
					r.closeF(fmt.Sprintf("tensor %d rotated back", s), flat4(fromRank4(&t)), flat4(T), 1e-10)
					for _, unit := range []float64{1e-12, 1e9} { // other units of stress
						var u tensor4
						for i := range T {
							for j := range T[i] {
								for k := range T[i][j] {
									for l := range T[i][j][k] {
										u[i][j][k][l] = unit * T[i][j][k][l]
									}
								}
							}
						}
						t := u.rank4()
						t.Rotate(R.dense())
						got := flat4(fromRank4(&t))
						for i := range got {
							got[i] /= unit
						}
						r.closeF(fmt.Sprintf("rotated tensor %d in units of %g", s, unit), got, flat4(rotate4(T, R)), 1e-10)
					}
				}
				iso := elasticity.Isotropic(60, 0.3)
				before := flat4(fromRank4(&iso))
				iso.Rotate(R.dense())
				r.closeF("rotated isotropic tensor", flat4(fromRank4(&iso)), before, 1e-10)
				r.Step(8)
				r.ObserveF("R", flat3(R))
			})
		}
	}
	c.bound("isotropic and cubic materials: 6 bulk moduli x 8 Poisson ratios, 5x5x5 cubic constants: full tensor including both minor symmetries")
	for _, b := range []float64{0.5, 1, 20, 60, 61.4, 250} {
		for _, nu := range []float64{-0.5, -0.1, 0, 0.1, 0.25, 0.3, 0.45, 0.499} {
			b, nu := b, nu
			c.Case(fmt.Sprintf("isotropic/%g/%g", b, nu), func(r *Run) {
				t := elasticity.Isotropic(b, nu)
				r.closeF("isotropic tensor", flat4(fromRank4(&t)), flat4(isoRef(b, nu)), 1e-12)
				mu := elasticity.Shear(b, nu)
				r.close1("shear modulus", mu, 3*b*(1-2*nu)/(2*(1+nu)), 1e-12)
				// uniaxial stress gives Young's modulus 9BG/(3B+G) and Poisson's ratio
				C := fromRank4(&t)
				var e mat3
				e[0][0], e[1][1], e[2][2] = 1, -nu, -nu
				s := C.contract(e)
				r.close1("Young's modulus", s[0][0], 9*b*mu/(3*b+mu), 1e-9)
				r.Check(math.Abs(s[1][1])+math.Abs(s[2][2]) < 1e-9*b, "lateral stress under uniaxial stress: %v", s)
				r.Step(2)
				r.ObserveF("iso", flat4(C))
			})
		}
	}
	vals := []float64{10, 30, 60, 110, 200}
	product([]int{5, 5, 5}, func(x []int) {
		c.Case(fmt.Sprintf("cubic/%v", x), func(r *Run) {
			t := elasticity.CubicMaterial(vals[x[0]], vals[x[1]], vals[x[2]])
			want := cubicRef(vals[x[0]], vals[x[1]], vals[x[2]])
			r.closeF("cubic tensor", flat4(fromRank4(&t)), flat4(want), 0)
			v := elasticity.FromFlatVoigt(toVoigt(want))
			r.closeF("Voigt form of the cubic tensor", flat4(fromRank4(&v)), flat4(want), 0)
			r.Step(2)
			r.ObserveF("cubic", []float64{vals[x[0]], vals[x[1]], vals[x[2]]})
		})
	})
}

// perturbRef is the first order change of the strain in an inclusion with different moduli
func perturbForceRef(dims []int, dC tensor4, misfit mat3, eps [][3][3]complex128, shape []float64) [][3]complex128 {
	n := prod(dims)
	out := make([][3]complex128, n)
	var s [3][3][]complex128
	for k := range s {
		for l := range s[k] {
			x := make([]complex128, n)
			for i := range x {
				x[i] = complex((misfit[k][l]-real(eps[i][k][l]))*shape[i], 0)
			}
			s[k][l] = refDFT(dims, x, -1)
		}
	}
	for i := range out {
		f := refFreq(dims, i)
		for a := 0; a < len(dims); a++ {
			for q := range f {
				for k := 0; k < len(dims); k++ {
					for l := 0; l < len(dims); l++ {
						out[i][a] -= complex(0, 2*math.Pi*f[q]*dC[a][q][k][l]) * s[k][l][i]
					}
				}
			}
		}
	}
	return out
}

func strainOfForce(dims []int, C tensor4, force [][3]complex128) [][3][3]complex128 {
	n := prod(dims)
	var ek [3][3][]complex128
	for a := range ek {
		for b := range ek[a] {
			ek[a][b] = make([]complex128, n)
		}
	}
	for i := range force {
		f := freq3(dims, i)
		if f == [3]float64{} {
			continue
		}
		var A mat3
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				for j := 0; j < 3; j++ {
					for l := 0; l < 3; l++ {
						A[a][b] += C[a][j][b][l] * f[j] * f[l] * 4 * math.Pi * math.Pi
					}
				}
			}
		}
		u := solve3(A, force[i])
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				ek[a][b][i] = complex(0, math.Pi) * (complex(f[a], 0)*u[b] + complex(f[b], 0)*u[a])
			}
		}
	}
	out := make([][3][3]complex128, n)
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for i, v := range refIDFT(dims, ek[a][b]) {
				out[i][a][b] = v
			}
		}
	}
	return out
}

func quadEnergy(C tensor4, e mat3) float64 {
	s := C.contract(e)
	w := 0.0
	for a := range e {
		for b := range e {
			w += 0.5 * s[a][b] * e[a][b]
		}
	}
	return w
}

func elasticEnergies(c *Ctx) {
	m2, m3 := 5, 3
	if c.Thorough {
		m2, m3 = 7, 5
	}
	if c.Deep {
		m2, m3 = 12, 7
	}
	tensors := append(elasticTensors(), rotate4(cubicRef(110, 60, 30), fromDense3(elasticity.RotationMatrix(0.4, 0))))
	c.bound("displacements: all frequencies of all domains up to %d^2 and %d^3, all 3 force components, %d elastic tensors: the balance of forces; strain and effective force for all unit displacements", m2, m3, len(tensors))
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		for ti, C := range tensors {
			ti, C := ti, C
			c.Case(fmt.Sprintf("balance/%s/%d", ints(dims), ti), func(r *Run) {
				freq := func(i int) []float64 {
					f := make([]float64, 3)
					copy(f, refFreq(dims, i))
					return f
				}
				R4 := C.rank4()
				force := make([][]complex128, n)
				for i := range force {
					force[i] = make([]complex128, 3)
					for a := range force[i] {
						force[i][a] = complex(math.Sin(float64(3*i+a+1)), math.Cos(float64(5*i+2*a)))
					}
				}
				u := elasticity.Displacements(force, freq, &R4)
				r.Check(len(u) == n, "%d displacements", len(u))
				r.Step(n)
				for i := range u {
					f := freq(i)
					if f[0] == 0 && f[1] == 0 && f[2] == 0 {
						for a := range u[i] {
							r.Check(u[i][a] == 0, "mean displacement %v", u[i])
						}
						continue
					}
					for a := 0; a < 3; a++ {
						s := complex(0, 0)
						for b := 0; b < 3; b++ {
							k := 0.0
							for j := 0; j < 3; j++ {
								for l := 0; l < 3; l++ {
									k += C[a][j][b][l] * f[j] * f[l] * 4 * math.Pi * math.Pi
								}
							}
							r.close1("displacement matrix", elasticity.DisplacementMatrixElement(a, b, f, &R4), k, 1e-10)
							s += complex(k, 0) * u[i][b]
						}
						r.closeC("balance of forces", []complex128{s}, []complex128{force[i][a]}, 1e-8)
					}
				}
				for a := 0; a < 3; a++ {
					for b := 0; b < 3; b++ {
						got := elasticity.Strain(u, freq, a, b)
						want := make([]complex128, n)
						for i := range want {
							f := freq3(dims, i)
							want[i] = complex(0, math.Pi) * (complex(f[a], 0)*u[i][b] + complex(f[b], 0)*u[i][a])
						}
						r.closeC("strain", got, want, 1e-10)
					}
				}
				mf := misfits(3)[3]
				s := C.contract(mf)
				eff := elasticity.NewEffectiveForceFromMisfit(R4, mf.dense())
				ind := refDFT(dims, genericField(n, 5), -1)
				for a := 0; a < 3; a++ {
					got := eff.Get(a, func(i int) []float64 { return refFreq(dims, i) }, ind)
					want := make([]complex128, n)
					for i := range want {
						for j, f := range refFreq(dims, i) {
							want[i] -= complex(0, 2*math.Pi*f*s[a][j]) * ind[i]
						}
					}
					r.closeC("effective force", got, want, 1e-10)
				}
				r.Step(12)
				r.ObserveC("u", u[n-1])
			})
		}
	})

	// long waves: the balance of forces does not depend on the scale
	c.bound("long waves: all 26 directions with components -1, 0, 1 at the frequencies of domains of 64, 512, 4096 and 100000 nodes per side; strains of all waves with components out of 0, 1, the Nyquist mode and its neighbours on these domains")
	for _, N := range []float64{64, 512, 4096, 100000} {
		for ti, C := range tensors {
			N, ti, C := N, ti, C
			c.Case(fmt.Sprintf("long waves/%g/%d", N, ti), func(r *Run) {
				waves := [][]float64{}
				force := [][]complex128{}
				product([]int{3, 3, 3}, func(t []int) {
					waves = append(waves, []float64{float64(t[0]-1) / N, float64(t[1]-1) / N, float64(t[2]-1) / N})
					force = append(force, []complex128{complex(1, float64(t[0])), complex(float64(t[1]), -1), complex(0.5, float64(t[2]))})
				})
				R4 := C.rank4()
				u := elasticity.Displacements(force, func(i int) []float64 { return cloneF(waves[i]) }, &R4)
				r.Step(len(u))
				for i, f := range waves {
					if i == 13 {
						r.Check(u[i][0] == 0 && u[i][1] == 0 && u[i][2] == 0, "mean displacement %v", u[i])
						continue
					}
					for a := 0; a < 3; a++ {
						s := complex(0, 0)
						for b := 0; b < 3; b++ {
							for j := 0; j < 3; j++ {
								for l := 0; l < 3; l++ {
									s += complex(C[a][j][b][l]*f[j]*f[l]*4*math.Pi*math.Pi, 0) * u[i][b]
								}
							}
						}
						r.closeC("balance of forces", []complex128{s}, []complex128{force[i][a]}, 1e-8)
					}
				}
				for a := 0; a < 3; a++ {
					for b := 0; b < 3; b++ {
						got := elasticity.Strain(u, func(i int) []float64 { return cloneF(waves[i]) }, a, b)
						for i, f := range waves {
							want := complex(0, math.Pi) * (complex(f[a], 0)*u[i][b] + complex(f[b], 0)*u[i][a])
							r.closeC("strain", []complex128{got[i] / complex(N, 0)}, []complex128{want / complex(N, 0)}, 1e-10)
						}
					}
				}
				comps := []float64{0, 1 / N, 0.5 - 1/N, 0.5, 1/N - 0.5, -0.5}
				waves = nil
				disp := [][]complex128{}
				product([]int{len(comps), len(comps), len(comps)}, func(t []int) {
					waves = append(waves, []float64{comps[t[0]], comps[t[1]], comps[t[2]]})
					disp = append(disp, []complex128{complex(1, float64(t[0])), complex(float64(t[1]), -1), complex(0.5, float64(t[2]))})
				})
				deriv := func(f float64) float64 {
					if math.Abs(f) == 0.5 {
						return 0 // odd derivatives of the Nyquist mode vanish
					}
					return f
				}
				for a := 0; a < 3; a++ {
					for b := 0; b < 3; b++ {
						got := elasticity.Strain(disp, func(i int) []float64 { return cloneF(waves[i]) }, a, b)
						for i, f := range waves {
							want := complex(0, math.Pi) * (complex(deriv(f[a]), 0)*disp[i][b] + complex(deriv(f[b]), 0)*disp[i][a])
							r.closeC("strain", []complex128{got[i]}, []complex128{want}, 1e-10)
						}
					}
				}
				r.ObserveC("u", u[0])
			})
		}
	}

	o2, o3 := []int{1, 3, 5}, []int{1, 3}
	if c.Thorough {
		o2 = []int{1, 3, 5, 7}
		o3 = []int{1, 3, 5}
	}
	c.bound("energy of an inclusion with the moduli of the matrix: all odd domains with sides %v (2D) and %v (3D), all single voxels and a set of larger inclusions, %d tensors, all misfits of the list; and the force of a difference in moduli", o2, o3, len(tensors))
	odd := [][]int{}
	for _, a := range o2 {
		for _, b := range o2 {
			if a*b > 1 {
				odd = append(odd, []int{a, b})
			}
		}
	}
	for _, a := range o3 {
		for _, b := range o3 {
			for _, d := range o3 {
				if a*b*d > 1 && a*b*d <= 75 {
					odd = append(odd, []int{a, b, d})
				}
			}
		}
	}
	for _, dims := range odd {
		dims := dims
		n := prod(dims)
		inc := [][]int{}
		for i := 0; i < n && i < 15; i++ {
			inc = append(inc, []int{i})
		}
		for k := 2; k <= 4 && k < n; k++ {
			set := []int{}
			for i := 0; i < n; i++ {
				if (i*i+k*i)%(2*k+1) < k {
					set = append(set, i)
				}
			}
			inc = append(inc, set)
		}
		for ti, C := range tensors {
			if len(dims) == 2 && ti == 3 {
				continue
			}
			for mi, mf := range misfits(len(dims)) {
				ti, C, mi, mf := ti, C, mi, mf
				c.Case(fmt.Sprintf("inclusion/%s/tensor=%d/misfit=%d", ints(dims), ti, mi), func(r *Run) {
					for _, set := range inc {
						ind := make([]complex128, n)
						for _, i := range set {
							ind[i] = 1
						}
						orig := cloneC(ind)
						got := elasticity.HomogeneousModulusEnergy(ind, dims, mf.dense(), C.rank4())
						r.Step(1)
						eps := equilibrium(dims, C, mf, orig)
						want := 0.0
						for i := range orig {
							var e mat3
							for a := range e {
								for b := range e {
									e[a][b] = real(eps[i][a][b]) - mf[a][b]*real(orig[i])
								}
							}
							want += quadEnergy(C, e)
						}
						want /= float64(len(set))
						r.Check(math.Abs(got-want) < 1e-8*(math.Abs(want)+1e-3), "energy %.12g of the inclusion %v, expected %.12g", got, set, want)
						r.closeC("indicator", ind, orig, 1e-10)
						r.ObserveF("energy", []float64{got})
					}
				})
			}
		}
		for ti := 0; ti < 3; ti++ {
			for mi, mf := range misfits(len(dims)) {
				if len(dims) == 2 && mf[2][2] != 0 {
					continue
				}
				ti, mi, mf := ti, mi, mf
				c.Case(fmt.Sprintf("perturbation/%s/%d/%d", ints(dims), ti, mi), func(r *Run) {
					dC := tensors[(ti+1)%3]
					if len(dims) == 3 {
						dC = tensors[3]
					}
					shape := realOf(genericField(n, 9))
					u := make([][]complex128, n)
					var uk [3][]complex128
					for a := 0; a < 3; a++ {
						x := genericField(n, 40+a)
						if a >= len(dims) {
							x = make([]complex128, n)
						}
						uk[a] = refDFT(dims, x, -1)
					}
					for i := range u {
						u[i] = []complex128{uk[0][i], uk[1][i], uk[2][i]}
					}
					eps := make([][3][3]complex128, n)
					for a := 0; a < 3; a++ {
						for b := 0; b < 3; b++ {
							ek := make([]complex128, n)
							for i := range ek {
								f := freq3(dims, i)
								ek[i] = complex(0, math.Pi) * (complex(f[a], 0)*u[i][b] + complex(f[b], 0)*u[i][a])
							}
							for i, v := range refIDFT(dims, ek) {
								eps[i][a][b] = v
							}
						}
					}
					R4 := dC.rank4()
					got := elasticity.PerturbedForce(fft(dims), mf.dense(), u, func(i int) float64 { return shape[i] }, &R4)
					r.Step(1)
					want := perturbForceRef(dims, dC, mf, eps, shape)
					for i := range want {
						r.closeC(fmt.Sprintf("force of the difference in moduli at frequency %d", i), got[i], want[i][:], 1e-9)
					}
					r.ObserveC("force", got[n-1])
				})
			}
		}
	}

	c.bound("strain energy of ellipsoids: domain sizes 3 and 5 (thorough 7), half axes 0.8, 1.2 and 2.1 in all combinations, 3 matrix tensors x {no inclusion moduli, the same moduli, softer, harder, different symmetry} x {no perturbation, perturbation}, misfits: exact energy where the moduli are those of the matrix, and quadratic scaling with the misfit")
	sizes := []int{3, 5}
	if c.Thorough {
		sizes = []int{3, 5, 7}
	}
	axes := []float64{0.8, 1.2, 2.1}
	ms := misfits(3)
	type ell struct {
		N, ti, inc, mi int
		ax             [3]float64
		pert           bool
	}
	// The second energy charges the moduli of the inclusion to the strain of the whole domain (a recorded finding,
	// see known_findings.json: its own case is the one below); any other energy is a violation
	ref := func(q ell) (elasticity.StrainEnergyInput, float64, float64) {
		C := tensors[q.ti]
		mf := ms[q.mi]
		p := elasticity.StrainEnergyInput{HalfA: q.ax[0], HalfB: q.ax[1], HalfC: q.ax[2], DomainSize: q.N, ApplyPerturbation: q.pert,
			MatPropMatrix: toVoigt(C), Misfit: []float64{mf[0][0], mf[1][1], mf[2][2], 2 * mf[1][2], 2 * mf[0][2], 2 * mf[0][1]}}
		var dC tensor4
		if q.inc > 0 {
			I := tensors[(q.ti+1)%3]
			if q.inc < 3 {
				I = C
				idx4(func(i, j, k, l int) { I[i][j][k][l] *= []float64{0, 0.6, 1.7}[q.inc] })
			}
			p.MatPropInc = toVoigt(I)
			idx4(func(i, j, k, l int) { dC[i][j][k][l] = I[i][j][k][l] - C[i][j][k][l] })
		}
		dims := []int{q.N, q.N, q.N}
		n := prod(dims)
		h := make([]complex128, n)
		for i := range h {
			x := 0.0
			for a, v := range refPos(dims, i) {
				d := float64(v-q.N/2) / q.ax[a]
				x += d * d
			}
			if x <= 1 {
				h[i] = 1
			}
		}
		eps := equilibrium(dims, C, mf, h)
		if q.pert && q.inc > 0 {
			corr := strainOfForce(dims, C, perturbForceRef(dims, dC, mf, eps, realOf(h)))
			for i := range eps {
				for a := range eps[i] {
					for b := range eps[i][a] {
						eps[i][a][b] += corr[i][a][b]
					}
				}
			}
		}
		w, whole := 0.0, 0.0
		for i := range h {
			var e mat3
			for a := range e {
				for b := range e {
					e[a][b] = real(eps[i][a][b]) - mf[a][b]*real(h[i])
				}
			}
			w += quadEnergy(C, e) + real(h[i])*quadEnergy(dC, e)
			whole += quadEnergy(C, e) + quadEnergy(dC, e)
		}
		vol := 4 * math.Pi * q.ax[0] * q.ax[1] * q.ax[2] / 3
		return p, w / vol, whole / vol
	}
	for _, N := range sizes {
		product([]int{3, 3, 3}, func(x []int) {
			if N == 7 && x[0] != 2 {
				return
			}
			for mi := range ms {
				if N >= 5 && !c.Thorough && (x[0]+x[1]+x[2]+mi)%3 != 0 {
					continue
				}
				N, mi := N, mi
				c.Case(fmt.Sprintf("ellipsoid/%d/%v/misfit=%d", N, x, mi), func(r *Run) {
					for ti := 0; ti < 3; ti++ {
						for inc := 0; inc < 4; inc++ {
							for pt := 0; pt < 2; pt++ {
								q := ell{N: N, ti: ti, inc: inc, mi: mi, ax: [3]float64{axes[x[0]], axes[x[1]], axes[x[2]]}, pert: pt == 1}
								if N >= 5 && (ti+inc+pt+x[0])%4 != 0 && !c.Thorough {
									continue
								}
								p, want, whole := ref(q)
								got := elasticity.CalculateStrainEnergy(p)
								r.Step(1)
								if inc == 0 {
									r.Check(math.Abs(got-want) < 1e-7*(math.Abs(want)+1e-3), "strain energy %.12g, expected %.12g (tensor %d, perturbation %v)", got, want, ti, q.pert)
									p.MatPropInc = p.MatPropMatrix
									r.close1("strain energy for an inclusion with the moduli of the matrix", elasticity.CalculateStrainEnergy(p), got, 1e-9)
									p.MatPropInc = nil
									r.Step(1)
								}
								if inc > 0 {
									near := func(w float64) bool { return math.Abs(got-w) < 1e-7*(math.Abs(w)+1e-3) }
									r.Check(near(want) || near(whole), "strain energy %.12g of an inclusion with moduli of its own, expected %.12g (tensor %d, inclusion %d, perturbation %v)", got, want, ti, inc, q.pert)
								}
								r.Check(got >= 0, "negative energy %g", got)
								for i := range p.Misfit {
									p.Misfit[i] *= -3
								}
								r.close1("strain energy for three times the misfit", elasticity.CalculateStrainEnergy(p), 9*got, 1e-9)
								r.Step(1)
								r.ObserveF("energy", []float64{got})
							}
						}
					}
				})
			}
		})
	}
	c.bound("symmetry: energy of an ellipsoid with different moduli, all 48 signed permutations of the axes applied to ellipsoid, misfit and both tensors; affine in the moduli of the inclusion without perturbation")
	for ti := 0; ti < 4; ti++ {
		for mi := range ms {
			for pt := 0; pt < 2; pt++ {
				for inc := 1; inc < 4; inc++ {
					ti, mi, pt, inc := ti, mi, pt, inc
					N := 3
					if c.Thorough {
						N = 5
					}
					c.Case(fmt.Sprintf("symmetry/%d/%d/%d/%d", ti, mi, pt, inc), func(r *Run) {
						C := tensors[ti]
						I := rotate4(tensors[(ti+inc)%4], fromDense3(elasticity.RotationMatrix(0.7, inc-1)))
						idx4(func(i, j, k, l int) { I[i][j][k][l] *= []float64{0, 0.6, 1.7, 1}[inc] })
						ax := [3]float64{0.8, 1.2, 2.1}
						input := func(R mat3, I tensor4) elasticity.StrainEnergyInput {
							m := mul3(mul3(R, ms[mi]), transpose3(R))
							var h [3]float64
							for i := range h {
								for j := range h {
									h[i] += math.Abs(R[i][j]) * ax[j]
								}
							}
							return elasticity.StrainEnergyInput{HalfA: h[0], HalfB: h[1], HalfC: h[2], DomainSize: N, ApplyPerturbation: pt == 1,
								MatPropMatrix: toVoigt(rotate4(C, R)), MatPropInc: toVoigt(rotate4(I, R)),
								Misfit: []float64{m[0][0], m[1][1], m[2][2], 2 * m[1][2], 2 * m[0][2], 2 * m[0][1]}}
						}
						id := mat3{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
						want := elasticity.CalculateStrainEnergy(input(id, I))
						cubicGroup(func(R mat3) {
							r.close1(fmt.Sprintf("energy of the configuration turned by %v", R), elasticity.CalculateStrainEnergy(input(R, I)), want, 1e-8)
							r.Step(1)
						})
						if pt == 0 {
							e := make([]float64, 3)
							for s := range e {
								X := C
								idx4(func(i, j, k, l int) { X[i][j][k][l] += float64(s) * I[i][j][k][l] })
								e[s] = elasticity.CalculateStrainEnergy(input(id, X))
								r.Step(1)
							}
							r.close1("energy as function of the moduli of the inclusion", e[2]-e[1], e[1]-e[0], 1e-8)
						}
						r.ObserveF("energy", []float64{want})
					})
				}
			}
		}
	}
	c.Case("inhomogeneous/isotropic sphere, inclusion 0.6 times as stiff, 3x3x3", func(r *Run) {
		p, want, _ := ref(ell{N: 3, ti: 0, inc: 1, mi: 0, ax: [3]float64{1.2, 1.2, 1.2}})
		got := elasticity.CalculateStrainEnergy(p)
		r.Step(1)
		r.Check(math.Abs(got-want) < 1e-7*(math.Abs(want)+1e-3), "strain energy %.6g of an inclusion with moduli of its own, expected %.6g", got, want)
	})
	c.bound("voxels of ellipsoids: sizes 1..7, half axes 0.8, 1.2, 2.1 and 3 in all combinations")
	for N := 1; N <= 7; N++ {
		N := N
		c.Case(fmt.Sprintf("voxels/%d", N), func(r *Run) {
			ax := []float64{0.8, 1.2, 2.1, 3}
			product([]int{4, 4, 4}, func(x []int) {
				v := elasticity.Ellipsoid(N, ax[x[0]], ax[x[1]], ax[x[2]])
				for i := range v.Data {
					s := 0.0
					p := refPos([]int{N, N, N}, i)
					for a := range p {
						d := float64(p[a]-N/2) / ax[x[a]]
						s += d * d
					}
					want := complex(0, 0)
					if s <= 1 {
						want = 1
					}
					r.Check(v.Data[i] == want && v.At(p[0], p[1], p[2]) == want, "voxel %v of the ellipsoid %v is %v", p, x, v.Data[i])
				}
				r.Step(1)
			})
		})
	}
	c.bound("command line: energy of 12 input files, the template, and 6 invalid inputs")
	energyOf := func(r *Run, out string) string {
		i := strings.Index(out, "Elastic energy per volume inclusion:")
		r.Check(i >= 0, "no energy in the output %q", out)
		return strings.Fields(out[i:])[5]
	}
	for ti := 0; ti < 3; ti++ {
		for inc := 0; inc < 4; inc++ {
			ti, inc := ti, inc
			c.Case(fmt.Sprintf("command/%d/%d", ti, inc), func(r *Run) {
				dir := c.newDir()
				q := ell{N: 3, ti: ti, inc: inc, mi: 3, ax: [3]float64{0.8, 1.2, 2.1}, pert: inc%2 == 1}
				p, _, _ := ref(q)
				want := elasticity.CalculateStrainEnergy(p)
				b, _ := json.Marshal(p)
				fn := filepath.Join(dir, "in.json")
				r.Check(writeFile(fn, string(b)) == nil, "cannot write the input")
				out, err := cli(dir, "elast", "energy", "-i", fn)
				r.Step(1)
				r.Check(err == nil, "%v: %s", err, out)
				r.Check(energyOf(r, out) == fmt.Sprintf("%f", want), "the command reports %s, expected %f", energyOf(r, out), want)
				r.Observe(out[len(out)-12:])
			})
		}
	}
	c.Case("command/template", func(r *Run) {
		dir := c.newDir()
		for _, args := range [][]string{{"elast", "template"}, {"elast", "template", "-o", "other.json"}} {
			out, err := cli(dir, args...)
			r.Check(err == nil, "%v: %s", err, out)
		}
		for _, f := range []string{"elasticTemplate.json", "other.json"} {
			b := readFile(filepath.Join(dir, f))
			var p elasticity.StrainEnergyInput
			r.Check(json.Unmarshal([]byte(b), &p) == nil, "template is not a JSON document: %q", b)
			r.Check(p.HalfA > 0 && p.HalfB > 0 && p.HalfC > 0 && p.DomainSize > 0 && len(p.Misfit) == 6 && len(p.MatPropMatrix) == 36 && len(p.MatPropInc) == 36, "incomplete template %+v", p)
			// both materials are isotropic, and one is a multiple of the other
			for _, c := range [][]float64{p.MatPropMatrix, p.MatPropInc} {
				c11, c12, c44 := c[0], c[1], c[21]
				r.Check(c44 > 0 && c11 > math.Abs(c12) && math.Abs(c11-c12-2*c44) < 1e-9*c11, "the material of the template is not isotropic: %v", c)
				for i := range c {
					want := 0.0
					switch a, b := i/6, i%6; {
					case a == b && a < 3:
						want = c11
					case a == b:
						want = c44
					case a < 3 && b < 3:
						want = c12
					}
					r.close1(fmt.Sprintf("elastic constant %d of the template", i), c[i], want, 1e-9)
				}
			}
			for i := range p.MatPropInc {
				r.close1(fmt.Sprintf("ratio of the elastic constants %d of the template", i), p.MatPropInc[i]*p.MatPropMatrix[0], p.MatPropMatrix[i]*p.MatPropInc[0], 1e-9)
			}
			// the template must be accepted
			p.DomainSize = 9
			p.HalfA, p.HalfB, p.HalfC = 2, 2, 2
			b2, _ := json.Marshal(p)
			writeFile(filepath.Join(dir, "small.json"), string(b2))
			out, err := cli(dir, "elast", "energy", "-i", "small.json")
			r.Check(err == nil, "%v: %s", err, out)
			r.Check(energyOf(r, out) == fmt.Sprintf("%f", elasticity.CalculateStrainEnergy(p)), "energy of the template: %s", out)
		}
		r.Step(4)
	})
	q := ell{N: 3, ti: 0, inc: 1, mi: 3, ax: [3]float64{0.8, 1.2, 2.1}}
	p, _, _ := ref(q)
	good, _ := json.Marshal(p)
	for i, bad := range []string{"", "{", string(good[:len(good)/2]), strings.Replace(string(good), `"DomainSize":3`, `"DomainSize":"3"`, 1), strings.Replace(string(good), `"HalfA":0.8`, `"HalfA":[1]`, 1), "[]"} {
		i, bad := i, bad
		c.Case(fmt.Sprintf("command/invalid/%d", i), func(r *Run) {
			dir := c.newDir()
			fn := filepath.Join(dir, "in.json")
			writeFile(fn, bad)
			out, err := cli(dir, "elast", "energy", "-i", fn)
			r.Step(1)
			r.Fault(1)
			r.Check(err != nil, "an invalid input is accepted: %s", out)
		})
	}
	c.Case("command/missing", func(r *Run) {
		dir := c.newDir()
		out, err := cli(dir, "elast", "energy", "-i", filepath.Join(dir, "nofile.json"))
		r.Step(1)
		r.Fault(1)
		r.Check(err != nil, "a missing input is accepted: %s", out)
	})
}
