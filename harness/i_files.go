package main

import (
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

func init() {
	register("I01", "model_checking", fileIO)
}

var specialValues = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, -2.5e-7, 5e-324, 1.7e308, -1.7e308, math.Inf(1), math.Inf(-1), math.NaN(), 123456.789, 255, 1e-10}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (math.IsNaN(a) && math.IsNaN(b))
}

// fileVal is the value of a field at a node; it differs for every epoch, field and node
func fileVal(epoch, field, node int) float64 {
	if (epoch+field+node)%4 == 1 {
		return specialValues[(epoch*5+field*3+node)%len(specialValues)]
	}
	return float64(epoch)*100 + float64(field)*10 + float64(node)*0.37 - 20
}

// byteVal is the value of a field at a node for the byte files; every epoch and
// field has a range of its own
func byteVal(epoch, field, node int) float64 {
	return (float64((node*7+field+epoch)%5)-1.5)*math.Pow(3, float64(epoch+2*field)) + float64(10*field-4*epoch)
}

func solverWith(names []string, dims []int, val func(f, i int) float64) *pf.Solver {
	fs := []pf.Field{}
	for k, nm := range names {
		f := pf.NewField(nm, prod(dims), nil)
		for i := range f.Data {
			f.Data[i] = complex(val(k, i), float64(i)+3)
		}
		fs = append(fs, f)
	}
	return pf.NewSolver(&pf.Model{Fields: fs}, dims, 0.1)
}

func fileIO(c *Ctx) {
	binaryValues(c)
	callbackFiles(c)
	byteFiles(c)
	csvFiles(c)
	gridFiles(c)
	xdmfFiles(c)
}

func binaryValues(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 4
	}
	c.bound("binary files: every array of up to %d of the %d special values, each overwriting the previous file", max, len(specialValues))
	path := filepath.Join(c.scratch, "float.bin")
	defer os.Remove(path)
	sequences(len(specialValues), 0, max, func(s []int) {
		s = cloneI(s)
		c.Case(fmt.Sprintf("binary values=%v", s), func(r *Run) {
			x := make([]float64, len(s))
			for i := range x {
				x[i] = specialValues[s[i]]
			}
			pf.SaveFloat64(path, []float64{1, 2, 3, 4, 5, 6, 7}) // a longer earlier file
			pf.SaveFloat64(path, x)
			y := pf.LoadFloat64(path)
			r.Step(2)
			r.Check(len(y) == len(x), "%d numbers read, %d written", len(y), len(x))
			for i := range x {
				r.Check(sameFloat(x[i], y[i]), "number %d is read as %g, written %g", i, y[i], x[i])
			}
			raw, err := ioutil.ReadFile(path)
			r.Check(err == nil && len(raw) == 8*len(x), "file size %d for %d numbers", len(raw), len(x))
			for i := range x {
				v := math.Float64frombits(binary.BigEndian.Uint64(raw[8*i:]))
				r.Check(sameFloat(v, x[i]), "number %d is not stored as big endian float64", i)
			}
			r.Observe("bin", s)
			r.Outcome("binary")
		})
	})
}

// callbackFiles stores several epochs (some of them twice) and reads everything back at the end
func callbackFiles(c *Ctx) {
	domains := [][]int{{1, 1}, {2, 3}, {3, 2}, {2, 3, 2}, {20, 30}, {5, 9, 11}, {600, 1}, {130, 130}}
	nameSets := [][]string{{"c"}, {"c", "eta"}, {"c", "c1", "eta_1"}}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.bound("callbacks: domains %v, field sets %v, every sequence of up to %d epochs out of 4, over longer files of an earlier run, all files compared at the end, for the float, csv and byte writers", domains, nameSets, depth)
	c.bound("callbacks on the domain 2x3 at every sequence of up to 2 epochs out of 99, 100, 101, 110, 10110, 1000000, 2^40")
	epochs, tag := []int{0, 1, 10, 11}, ""
	one := func(dims []int, names []string, seq []int) {
		seq, epochs := cloneI(seq), epochs
		c.Case(fmt.Sprintf("callback%s dims=%s fields=%v epochs=%v", tag, ints(dims), names, seq), func(r *Run) {
			dir := c.newDir()
			defer os.RemoveAll(dir)
			fl := pf.NewFloat64IO(filepath.Join(dir, "f"))
			by := pf.NewUint8IO(filepath.Join(dir, "u"))
			cs := pf.CsvIO{Prefix: filepath.Join(dir, "t"), DomainSize: dims}
			junk := bytes.Repeat([]byte("9,8,7,6,5\n"), 400)
			for _, nm := range names { // longer files of an earlier run
				for _, pre := range []string{"f", "u"} {
					ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("%s_%s_%d.bin", pre, nm, epochs[seq[0]])), junk, 0644)
				}
			}
			ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("t_%d.csv", epochs[seq[0]])), junk, 0644)
			last := map[int]int{}
			for k, e := range seq {
				k := k
				s := solverWith(names, dims, func(f, i int) float64 { return fileVal(k, f, i) })
				before := cloneC(s.Model.Fields[0].Data)
				fl.SaveFields(s, epochs[e])
				cs.SaveFields(s, epochs[e])
				fin := solverWith(names, dims, func(f, i int) float64 { return byteVal(k, f, i) })
				by.SaveFields(fin, epochs[e])
				r.Step(3)
				last[e] = k
				for i := range before {
					r.Check(sameFloat(real(before[i]), real(s.Model.Fields[0].Data[i])) && imag(before[i]) == imag(s.Model.Fields[0].Data[i]), "storing changed the field")
				}
			}
			files, _ := ioutil.ReadDir(dir)
			r.Check(len(files) == len(last)*(2*len(names)+1), "%d files written, expected %d", len(files), len(last)*(2*len(names)+1))
			for e, k := range last {
				tab := pf.LoadCSV(filepath.Join(dir, fmt.Sprintf("t_%d.csv", epochs[e])))
				r.Check(len(tab) == len(names), "%d fields loaded from the csv file", len(tab))
				recs, err := readCSV(filepath.Join(dir, fmt.Sprintf("t_%d.csv", epochs[e])))
				r.Check(err == nil && len(recs) == prod(dims)+1, "csv file: %d lines, %v", len(recs), err)
				for i, rec := range recs[1:] {
					p := append(refPos(dims, i), 0)
					for a := 0; a < 3; a++ {
						r.Check(rec[a] == fmt.Sprint(p[a]), "row %d of the csv file has position %v, expected %v", i, rec[:3], p)
					}
				}
				for f, nm := range names {
					x := pf.LoadFloat64(filepath.Join(dir, fmt.Sprintf("f_%s_%d.bin", nm, epochs[e])))
					r.Check(len(x) == prod(dims), "%d values of field %s loaded", len(x), nm)
					r.Check(tab[f].Name == nm && len(tab[f].Data) == len(x) && recs[0][3+f] == nm, "field %d of the csv file is %s (%d values), expected %s", f, tab[f].Name, len(tab[f].Data), nm)
					u, err := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("u_%s_%d.bin", nm, epochs[e])))
					r.Check(err == nil && len(u) == len(x), "byte file of %s: %d bytes, %v", nm, len(u), err)
					blo, bhi := byteVal(k, f, 0), byteVal(k, f, 0)
					for i := range x {
						blo, bhi = math.Min(blo, byteVal(k, f, i)), math.Max(bhi, byteVal(k, f, i))
					}
					for i := range x {
						if bhi > blo {
							e := 255 * (byteVal(k, f, i) - blo) / (bhi - blo)
							r.Check(math.Abs(float64(u[i])-e) <= 1+1e-9, "byte file of %s epoch %d: node %d is %d, expected about %g", nm, k, i, u[i], e)
						}
						w := fileVal(k, f, i)
						r.Check(sameFloat(x[i], w), "field %s epoch %d node %d is loaded as %g, stored %g", nm, epochs[e], i, x[i], w)
						g := real(tab[f].Data[i])
						ok := sameFloat(g, w) || math.Abs(g-w) <= 6e-7+1e-12*math.Abs(w)
						r.Check(ok && imag(tab[f].Data[i]) == 0, "field %s epoch %d node %d is loaded from csv as %v, stored %g", nm, epochs[e], i, tab[f].Data[i], w)
					}
				}
			}
			r.Observe("cb", dims, names, seq)
			r.Outcome("callback")
		})
	}
	for _, dims := range domains {
		for _, names := range nameSets {
			sequences(len(epochs), 1, depth, func(seq []int) {
				if prod(dims) > 100 && len(seq) > 1 {
					return
				}
				one(dims, names, seq)
			})
		}
	}
	epochs, tag = []int{99, 100, 101, 110, 10110, 1000000, 1 << 40}, " late"
	sequences(len(epochs), 1, 2, func(seq []int) { one([]int{2, 3}, nameSets[1], seq) })
}

// byteFiles checks the byte representation: minimum 0, maximum 255, linear in between
func byteFiles(c *Ctx) {
	vals := []float64{-3, -1, 0, 0.5, 1, 4, 1000}
	max := 4
	if c.Thorough {
		max = 5
	}
	if c.Deep {
		max = 6
	}
	c.bound("byte files: every list of 1..%d values out of %v, and of 1..3 of these values in units of 1e-8 and 1e9", max, vals)
	for _, unit := range []float64{1, 1e-8, 1e9} {
		unit := unit
		vals := cloneF(vals)
		for i := range vals {
			vals[i] *= unit
		}
		max := max
		if unit != 1 {
			max = 3
		}
		sequences(len(vals), 1, max, func(s []int) {
			s = cloneI(s)
			c.Case(fmt.Sprintf("bytes values=%v unit=%g", s, unit), func(r *Run) {
				data := make([]complex128, len(s))
				lo, hi := math.Inf(1), math.Inf(-1)
				for i := range s {
					v := vals[s[i]]
					data[i] = complex(v, 2)
					lo, hi = math.Min(lo, v), math.Max(hi, v)
				}
				got := pf.RealPartAsUint8(data, pfutil.MinReal(data), pfutil.MaxReal(data))
				r.Step(1)
				r.Check(len(got) == len(data), "length %d", len(got))
				for i := range got {
					if hi == lo {
						r.Check(got[i] == 0, "constant field stored as %d", got[i])
						continue
					}
					w := 255 * (vals[s[i]] - lo) / (hi - lo)
					r.Check(math.Abs(float64(got[i])-w) <= 1+1e-9, "value %g of range [%g, %g] stored as %d", vals[s[i]], lo, hi, got[i])
					if vals[s[i]] == hi {
						r.Check(got[i] == 255, "the maximum is stored as %d", got[i])
					}
					if vals[s[i]] == lo {
						r.Check(got[i] == 0, "the minimum is stored as %d", got[i])
					}
					for j := range got {
						r.Check(vals[s[j]] <= vals[s[i]] || got[j] >= got[i], "order of the values is not kept")
					}
				}
				r.Observe("u8", got)
				r.Outcome("bytes")
			})
		})
	}
}

// csvFiles checks that broken requests and files are refused
func csvFiles(c *Ctx) {
	c.bound("csv files: every single cell of a 2x2 file with two fields replaced by a text that is not a number")
	for cell := 0; cell < 8; cell++ {
		for _, bad := range []string{"", "abc", "1.0.0", "--1"} {
			cell, bad := cell, bad
			c.Case(fmt.Sprintf("csv bad cell=%d text=%q", cell, bad), func(r *Run) {
				p := filepath.Join(c.scratch, "bad.csv")
				defer os.Remove(p)
				s := "X,Y,Z,a,b\n"
				for i := 0; i < 4; i++ {
					v := []string{"1.5", "2.5"}
					if cell/2 == i {
						v[cell%2] = bad
					}
					s += fmt.Sprintf("%d,%d,0,%s,%s\n", i/2, i%2, v[0], v[1])
				}
				if err := writeFile(p, s); err != nil {
					panic(err)
				}
				ok, _ := panics(func() { pf.LoadCSV(p) })
				r.Step(1)
				r.Check(ok, "a cell with the text %q was loaded as a number", bad)
				r.Observe("bad", cell, bad)
				r.Outcome("refused")
			})
		}
	}
	domains := [][]int{{2, 2}, {2, 3}, {1, 4}, {2, 2, 2}, {1, 2, 3}}
	c.bound("csv files: every pair of declared and actual domain out of %v", domains)
	for _, a := range domains {
		for _, b := range domains {
			a, b := a, b
			c.Case(fmt.Sprintf("csv domain=%s data=%s", ints(a), ints(b)), func(r *Run) {
				dir := c.newDir()
				defer os.RemoveAll(dir)
				cs := pf.CsvIO{Prefix: filepath.Join(dir, "t"), DomainSize: a}
				s := solverWith([]string{"c"}, b, func(f, i int) float64 { return float64(i) })
				ok, _ := panics(func() { cs.SaveFields(s, 0) })
				r.Step(1)
				r.Check(ok == (prod(a) != prod(b)), "domain %v, data of %v: refused=%v", a, b, ok)
				files, _ := ioutil.ReadDir(dir)
				if ok {
					r.Check(len(files) == 0, "a refused request left a file")
					r.Outcome("refused")
				} else {
					r.Outcome("accepted")
				}
				r.Observe("dom", a, b)
			})
		}
	}
}

type xItem struct {
	Dimensions string `xml:"Dimensions,attr"`
	Format     string `xml:"Format,attr"`
	Endian     string `xml:"Endian,attr"`
	Precision  int    `xml:"Precision,attr"`
	Value      string `xml:",chardata"`
}

type xGrid struct {
	Type       string  `xml:"GridType,attr"`
	Collection string  `xml:"CollectionType,attr"`
	Grids      []xGrid `xml:"Grid"`
	Attributes []struct {
		Name     string `xml:"Name,attr"`
		DataItem xItem
	} `xml:"Attribute"`
}

type xDoc struct {
	Domain struct {
		Topology struct {
			Dimensions string `xml:"Dimensions,attr"`
			Type       string `xml:"TopologyType,attr"`
		}
		Geometry struct {
			Type      string  `xml:"Type,attr"`
			DataItems []xItem `xml:"DataItem"`
		}
		Grid struct {
			xGrid
			Time struct {
				Type     string `xml:"TimeType,attr"`
				DataItem xItem
			}
		}
	}
}

// xdmfTimes returns the times of the steps: a hyperslab is given by the start, the stride and the
// number of steps, a list by all times
func xdmfTimes(kind, dim, value string) ([]float64, error) {
	x := []float64{}
	for _, f := range strings.Fields(value) {
		v, err := strconv.ParseFloat(f, 64)
		if err != nil {
			return nil, err
		}
		x = append(x, v)
	}
	if d := strings.TrimSpace(dim); d != fmt.Sprint(len(x)) {
		return nil, fmt.Errorf("%d values where %s are announced", len(x), d)
	}
	switch kind {
	case "List":
		return x, nil
	case "HyperSlab":
		if len(x) != 3 {
			return nil, fmt.Errorf("%d values, expected the start, the stride and the number of steps", len(x))
		}
		times := []float64{}
		for i := 0; float64(i) < x[2]; i++ {
			times = append(times, x[0]+float64(i)*x[1])
		}
		return times, nil
	}
	return nil, fmt.Errorf("unknown type %s", kind)
}

// xdmfFiles reads the description back like a viewer: the dimensions are given from the slowest to
// the fastest axis of the binary file. The node of a file entry is found from the coordinates.
func xdmfFiles(c *Ctx) {
	sizes2, sizes3 := 3, 3
	if c.Thorough {
		sizes2, sizes3 = 5, 4
	}
	if c.Deep {
		sizes2, sizes3 = 8, 6
	}
	c.bound("xdmf: all 2D domains up to %d and all 3D domains up to %d per side, 1..3 fields, 0..3 time steps (2x3: up to 12 fields and 101 steps)", sizes2, sizes3)
	names := []string{"conc", "eta", "phi"}
	for k := 1; k <= 9; k++ {
		names = append(names, fmt.Sprintf("f%d", k))
	}
	allNames := names
	shapesB(c, sizes2, sizes3, func(dims []int) {
		dims = cloneI(dims)
		nums, nfs := []int{0, 1, 2, 3}, []int{1, 2, 3}
		if ints(dims) == "2x3" {
			nums, nfs = []int{0, 1, 2, 3, 9, 10, 11, 12, 101}, []int{1, 2, 3, 9, 10, 12}
		}
		if prod(dims) > 125 {
			nums, nfs = []int{2}, []int{2}
		}
		for _, nf := range nfs {
			for _, num := range nums {
				nf, num := nf, num
				c.Case(fmt.Sprintf("xdmf dims=%s fields=%d steps=%d", ints(dims), nf, num), func(r *Run) {
					dir := c.newDir()
					defer os.RemoveAll(dir)
					names := allNames[:nf]
					fl := pf.NewFloat64IO(filepath.Join(dir, "run"))
					for e := 0; e < num; e++ {
						e := e
						fl.SaveFields(solverWith(names, dims, func(f, i int) float64 {
							p := append(refPos(dims, i), 0)
							return float64(e*20+f)*1e7 + float64(p[0]*40000+p[1]*200+p[2])
						}), e)
					}
					xf := filepath.Join(dir, "run.xdmf")
					pf.WriteXDMF(xf, names, filepath.Join(dir, "run"), num, dims)
					r.Step(num + 1)
					raw, err := ioutil.ReadFile(xf)
					r.Check(err == nil, "%v", err)
					var doc xDoc
					r.Check(xml.Unmarshal(raw, &doc) == nil, "the description is not valid xml")
					r.Check(len(doc.Domain.Grid.Grids) == num, "%d time steps described, expected %d", len(doc.Domain.Grid.Grids), num)
					r.Check(doc.Domain.Grid.Type == "Collection" && doc.Domain.Grid.Collection == "Temporal", "the steps are described as %s %s", doc.Domain.Grid.Collection, doc.Domain.Grid.Type)
					r.Check(strings.HasPrefix(doc.Domain.Topology.Type, fmt.Sprintf("%dD", len(dims))), "topology %s", doc.Domain.Topology.Type)
					if num > 0 {
						t := doc.Domain.Grid.Time
						times, err := xdmfTimes(t.Type, t.DataItem.Dimensions, t.DataItem.Value)
						r.Check(err == nil, "time axis: %v", err)
						r.Check(len(times) == num, "the time axis has %d entries for %d steps", len(times), num)
						for i := 1; i < len(times); i++ {
							r.Check(times[i] > times[i-1], "the steps %d and %d are at the times %g and %g", i-1, i, times[i-1], times[i])
						}
					}
					geo := doc.Domain.Geometry.DataItems
					r.Check(len(geo) == 2, "%d items describe the geometry, expected origin and spacing", len(geo))
					for i, g := range geo {
						v := strings.Fields(g.Value)
						r.Check(len(v) >= len(dims), "%d values of the geometry for %d axes", len(v), len(dims))
						for _, x := range v {
							y, err := strconv.ParseFloat(x, 64)
							r.Check(err == nil && y == float64(i), "origin and spacing are %v", geo)
						}
					}
					// The axes from slowest to fastest in the documented node order
					axes := []int{0, 1}
					if len(dims) == 3 {
						axes = []int{2, 0, 1}
					}
					for e, g := range doc.Domain.Grid.Grids {
						r.Check(len(g.Attributes) == nf, "%d fields at step %d", len(g.Attributes), e)
						for f, a := range g.Attributes {
							r.Check(a.Name == names[f], "field %s", a.Name)
							r.Check(a.DataItem.Dimensions == doc.Domain.Topology.Dimensions, "dimensions of the data and the mesh differ")
							r.Check(a.DataItem.Format == "Binary" && a.DataItem.Endian == "Big" && a.DataItem.Precision == 8, "format %v", a.DataItem)
							x := pf.LoadFloat64(strings.TrimSpace(a.DataItem.Value))
							d := strings.Fields(a.DataItem.Dimensions)
							r.Check(len(d) == len(dims), "dimensions %s", a.DataItem.Dimensions)
							n := make([]int, len(d))
							for k := range d {
								n[k], _ = strconv.Atoi(d[k])
							}
							r.Check(prod(n) == len(x), "dimensions %v for %d values", n, len(x))
							i := 0
							product(n, func(q []int) {
								p := make([]int, 3)
								for k, ax := range axes {
									p[ax] = q[k]
								}
								want := float64(e*20+f)*1e7 + float64(p[0]*40000+p[1]*200+p[2])
								r.Check(x[i] == want, "with dimensions %v the viewer finds %g at %v, expected %g", n, x[i], p, want)
								i++
							})
						}
					}
					r.Observe("xdmf", dims, nf, num)
					r.Outcome("xdmf")
				})
			}
		}
	})
}

func gridFiles(c *Ctx) {
	m2, m3 := 4, 3
	if c.Thorough {
		m2, m3 = 6, 4
	}
	if c.Deep {
		m2, m3 = 10, 6
	}
	c.bound("csv files of grids: all domains up to %d^2 and %d^3, written over a larger earlier file", m2, m3)
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		c.Case("grid csv dims="+ints(dims), func(r *Run) {
			n := prod(dims)
			g := pfutil.NewGrid(dims)
			val := func(i int) float64 { return float64(i*i)*1.25 - float64(i)/3 - 2 }
			for i := 0; i < n; i++ {
				g.Data[refIndex(dims, refPos(dims, i))] = val(i)
			}
			fn := filepath.Join(c.newDir(), "grid.csv")
			writeFile(fn, strings.Repeat("x", 200*n+100))
			g.SaveCsv(fn)
			r.Step(1)
			lines := strings.Split(strings.TrimRight(readFile(fn), "\n"), "\n")
			head := []string{"x", "y", "z"}[:len(dims)]
			r.Check(lines[0] == strings.Join(append(head, "value"), ","), "header %q", lines[0])
			r.Check(len(lines) == n+1, "%d rows for %d nodes", len(lines)-1, n)
			seen := map[int]bool{}
			for _, l := range lines[1:] {
				w := strings.Split(l, ",")
				r.Check(len(w) == len(dims)+1, "row %q", l)
				pos := make([]int, len(dims))
				for k := range pos {
					v, err := strconv.Atoi(w[k])
					r.Check(err == nil && v >= 0 && v < dims[k], "row %q", l)
					pos[k] = v
				}
				i := refIndex(dims, pos)
				v, err := strconv.ParseFloat(w[len(dims)], 64)
				r.Check(err == nil && math.Abs(v-val(i)) < 6e-7, "row %q, expected the value %f", l, val(i))
				r.Check(!seen[i], "position %v is listed twice", pos)
				seen[i] = true
			}
			r.Observe(lines[n])
		})
	})
}
