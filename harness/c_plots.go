package main

import (
	"fmt"
	"image"
	"image/color"
	_ "image/png"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/cmd"
)

func init() {
	register("C03", "model_checking", cliPlots)
}

type plotRow struct {
	pos [3]int
	val []float64
}

func writePlotCSV(path string, names []string, rows []plotRow) {
	s := "X,Y,Z," + strings.Join(names, ",") + "\n"
	for _, r := range rows {
		s += fmt.Sprintf("%d,%d,%d", r.pos[0], r.pos[1], r.pos[2])
		for _, v := range r.val {
			s += fmt.Sprintf(",%f", v)
		}
		s += "\n"
	}
	if err := writeFile(path, s); err != nil {
		panic(err)
	}
}

func writeFile(path, s string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.WriteString(s)
	return err
}

// plotRows gives all nodes of a domain in one of several orders
func plotRows(dims []int, order int, val func(field, node int) float64, nf int) []plotRow {
	N := prod(dims)
	rows := make([]plotRow, N)
	for i := range rows {
		p := refPos(dims, i)
		for k := range p {
			rows[i].pos[k] = p[k]
		}
		for f := 0; f < nf; f++ {
			rows[i].val = append(rows[i].val, val(f, i))
		}
	}
	switch order {
	case 1: // reversed
		for i, j := 0, N-1; i < j; i, j = i+1, j-1 {
			rows[i], rows[j] = rows[j], rows[i]
		}
	case 2: // first axis fastest
		sort.SliceStable(rows, func(a, b int) bool {
			for k := 2; k >= 0; k-- {
				if rows[a].pos[k] != rows[b].pos[k] {
					return rows[a].pos[k] < rows[b].pos[k]
				}
			}
			return false
		})
	case 3: // interleaved
		out := []plotRow{}
		for s := 0; s < 3; s++ {
			for i := s; i < N; i += 3 {
				out = append(out, rows[i])
			}
		}
		rows = out
	}
	return rows
}

func loadPNG(path string) (image.Image, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	img, _, err := image.Decode(f)
	return img, err
}

func cliPlots(c *Ctx) {
	heatMaps(c)
	contours(c)
	contourScales(c)
	columnPlots(c)
	lineplots(c)
}

// heatMaps checks the data handed to the plotter for every permutation of the rows of small domains
func heatMaps(c *Ctx) {
	domains := [][]int{{1, 1}, {2, 1}, {1, 3}, {2, 2}, {2, 3}, {3, 2}}
	if c.Thorough {
		domains = append(domains, []int{4, 2}, []int{2, 4}, []int{7, 1})
	}
	c.bound("contour data: every permutation of the rows of the domains %v", domains)
	for _, dims := range domains {
		dims := dims
		N := prod(dims)
		permutations(N, func(p []int) {
			p = cloneI(p)
			c.Case(fmt.Sprintf("heatmap dims=%s rows=%v", ints(dims), p), func(r *Run) {
				rows := make([]cmd.DataRow, N)
				for i, q := range p {
					pos := refPos(dims, q)
					rows[i] = cmd.DataRow{X: pos[0], Y: pos[1], Value: 10 + float64(q)}
				}
				h := cmd.NewHeatMapData(rows)
				nc, nr := h.Dims()
				r.Check(nc == dims[0] && nr == dims[1], "dimensions %d %d", nc, nr)
				for x := 0; x < nc; x++ {
					for y := 0; y < nr; y++ {
						got := h.Z(x, y)
						r.Check(got == 10+float64(refIndex(dims, []int{x, y})), "value at (%d, %d) is the one of node %g", x, y, got-10)
						r.Check(h.X(x) == float64(x) && h.Y(y) == float64(y), "coordinates of (%d, %d)", x, y)
						r.Step(1)
					}
				}
				r.Observe("heat", dims, p)
				r.Outcome("heat map")
			})
		})
	}
}

// contours checks where the value of each node appears in the picture
func contours(c *Ctx) {
	domains := [][]int{{2, 3}, {3, 2}}
	if c.Thorough {
		domains = append(domains, []int{4, 3}, []int{1, 4}, []int{4, 1}, []int{5, 5})
	}
	c.bound("contour pictures: domains %v, four row orders, the value of every node changed in turn, selection of the first and the second field", domains)
	for _, dims := range domains {
		for order := 0; order < 4; order++ {
			for field := 0; field < 2; field++ {
				dims, order, field := dims, order, field
				c.Case(fmt.Sprintf("contour dims=%s order=%d field=%d", ints(dims), order, field), func(r *Run) {
					dir := c.newDir()
					defer os.RemoveAll(dir)
					N := prod(dims)
					names := []string{"first", "second"}
					pic := func(node int, v float64) image.Image {
						rows := plotRows(dims, order, func(f, i int) float64 {
							if f == field && i == node {
								return v
							}
							// every field has its own range, the extreme values are always present
							switch i {
							case (node + 1) % N:
								return float64(f)
							case (node + 2) % N:
								return float64(f) + 1
							}
							return float64(f) + 0.5
						}, 2)
						writePlotCSV(filepath.Join(dir, "data.csv"), names, rows)
						args := []string{"contour", "-f", "data.csv", "-o", "out.png"}
						if field == 1 {
							args = append(args, "-c", names[1])
						}
						out, err := cli(dir, args...)
						r.Step(1)
						r.Check(err == nil, "contour failed: %v %s", err, out)
						img, err := loadPNG(filepath.Join(dir, "out.png"))
						r.Check(err == nil, "reading the picture: %v", err)
						return img
					}
					type box struct{ x0, x1, y0, y1 int }
					boxes := make([]box, N)
					for node := 0; node < N; node++ {
						a := pic(node, float64(field)+0.02)
						b := pic(node, float64(field)+0.98)
						bx := box{1 << 30, -1, 1 << 30, -1}
						for x := a.Bounds().Min.X; x < a.Bounds().Max.X; x++ {
							for y := a.Bounds().Min.Y; y < a.Bounds().Max.Y; y++ {
								if a.At(x, y) != b.At(x, y) {
									if x < bx.x0 {
										bx.x0 = x
									}
									if x > bx.x1 {
										bx.x1 = x
									}
									if y < bx.y0 {
										bx.y0 = y
									}
									if y > bx.y1 {
										bx.y1 = y
									}
								}
							}
						}
						r.Check(bx.x1 >= 0, "the value of node %d is not visible", node)
						boxes[node] = bx
					}
					for a := 0; a < N; a++ {
						for b := 0; b < N; b++ {
							pa, pb := refPos(dims, a), refPos(dims, b)
							ca := []int{boxes[a].x0 + boxes[a].x1, -boxes[a].y0 - boxes[a].y1}
							cb := []int{boxes[b].x0 + boxes[b].x1, -boxes[b].y0 - boxes[b].y1}
							for k, axis := range []string{"horizontal", "vertical"} {
								if pa[k] < pb[k] {
									r.Check(ca[k] < cb[k]-4, "node %v is not drawn before %v along the %s axis", pa, pb, axis)
								}
								if pa[k] == pb[k] {
									r.Check(ca[k] > cb[k]-8 && ca[k] < cb[k]+8, "nodes %v and %v are not drawn at the same %s position", pa, pb, axis)
								}
							}
						}
					}
					r.Observe("contour", boxes, order, field)
					r.Outcome("contour")
				})
			}
		}
	}
}

// contourScales draws two-valued and constant fields on many scales: nodes with equal values have the
// same colour, nodes with different values do not
func contourScales(c *Ctx) {
	scales := [][2]float64{{1, 0}, {-1, 0}, {1e6, 0}, {1e-4, 0}, {1e-4, 1000}, {0.5, -7}, {1e12, -1e12}, {1, 1e9}}
	dims := []int{3, 2}
	N := prod(dims)
	c.bound("contour pictures of a 3x2 domain: every assignment of two values to the nodes (constant fields included) on the scales %v (scale, offset)", scales)
	for k, sc := range scales {
		k, sc := k, sc
		c.Case(fmt.Sprintf("contour scale %d", k), func(r *Run) {
			dir := c.newDir()
			defer os.RemoveAll(dir)
			pic := func(v func(i int) float64) image.Image {
				rows := plotRows(dims, k%4, func(f, i int) float64 { return v(i)*sc[0] + sc[1] }, 1)
				writePlotCSV(filepath.Join(dir, "data.csv"), []string{"c"}, rows)
				out, err := cli(dir, "contour", "-f", "data.csv", "-o", "out.png")
				r.Step(1)
				r.Check(err == nil, "contour failed: %v %s", err, out)
				img, err := loadPNG(filepath.Join(dir, "out.png"))
				r.Check(err == nil, "reading the picture: %v", err)
				return img
			}
			pics := make([]image.Image, 1<<uint(N))
			for pat := range pics {
				pat := pat
				pics[pat] = pic(func(i int) float64 { return float64(pat >> uint(i) & 1) })
			}
			// The area that shows the nodes consists of the pixels where a pattern differs from its
			// complement
			bd := pics[0].Bounds()
			area := image.Rectangle{Min: bd.Max, Max: bd.Min}
			for x := bd.Min.X; x < bd.Max.X; x++ {
				for y := bd.Min.Y; y < bd.Max.Y; y++ {
					for pat := 1; pat < len(pics)/2; pat++ {
						if pics[pat].At(x, y) != pics[len(pics)-1-pat].At(x, y) {
							area = area.Union(image.Rect(x, y, x+1, y+1))
							break
						}
					}
				}
			}
			r.Check(area.Dx() > 30 && area.Dy() > 30, "no values are visible")
			centre := make([]image.Point, N)
			for i := range centre {
				p := refPos(dims, i)
				centre[i] = image.Point{X: area.Min.X + area.Dx()*(2*p[0]+1)/(2*dims[0]), Y: area.Max.Y - area.Dy()*(2*p[1]+1)/(2*dims[1])}
			}
			similar := func(a, b color.Color) bool {
				r1, g1, b1, _ := a.RGBA()
				r2, g2, b2, _ := b.RGBA()
				d := math.Abs(float64(r1)-float64(r2)) + math.Abs(float64(g1)-float64(g2)) + math.Abs(float64(b1)-float64(b2))
				return d < 0.1*65535
			}
			for pat, img := range pics {
				for i := 0; i < N; i++ {
					for j := 0; j < i; j++ {
						same := pat>>uint(i)&1 == pat>>uint(j)&1
						eq := similar(img.At(centre[i].X, centre[i].Y), img.At(centre[j].X, centre[j].Y))
						r.Check(same == eq, "pattern %0*b: equal colours of nodes %d and %d: %v, equal values: %v", N, pat, j, i, eq, same)
					}
				}
			}
			r.Observe("contour scale", k, centre)
			r.Outcome("scales")
		})
	}
}

var pathRe = regexp.MustCompile(`<path d="M([^"Z]*)" style="fill:none;stroke:(#[0-9A-F]*)`)
var legendRe = regexp.MustCompile(`font-size:12px">([^<]*)</text>`)

// lineplots checks the curves in a vector graphics plot
func lineplots(c *Ctx) {
	domains := [][]int{{3, 4}, {4, 3}, {3, 4, 5}}
	if c.Thorough {
		domains = append(domains, []int{5, 3, 4}, []int{6, 6}, []int{3, 3, 3})
	}
	names := []string{"conc", "eta1", "eta2"}
	sels := []string{"", "conc", "eta1", "eta2", "conc,eta1", "eta2,conc", "eta1,eta2", "conc,eta1,eta2", "eta2,eta1,conc"}
	c.bound("line plots: domains %v, every line along every axis, four row orders, selections %q", domains, sels)
	for _, dims := range domains {
		dims3 := append(cloneI(dims), 1)[:3]
		for axis := 0; axis < len(dims); axis++ {
			others := []int{}
			sz := []int{}
			for k := 0; k < 3; k++ {
				if k != axis {
					others = append(others, k)
					sz = append(sz, dims3[k])
				}
			}
			product(sz, func(fixed []int) {
				fixed = cloneI(fixed)
				for si, sel := range sels {
					if !c.Thorough && si > 1 && (fixed[0]+fixed[1]*2+si)%4 != 0 {
						continue
					}
					dims, axis, sel, order := dims, axis, sel, (si+fixed[0])%4
					c.Case(fmt.Sprintf("line dims=%s axis=%d at=%v fields=%s order=%d", ints(dims), axis, fixed, sel, order), func(r *Run) {
						dir := c.newDir()
						defer os.RemoveAll(dir)
						val := func(f, i int) float64 {
							return math.Round(1e6*(float64((i*(2*f+3)+f*5)%11)+0.1*float64(f)+float64(i)*0.01)) / 1e6
						}
						rows := plotRows(dims, order, val, 3)
						writePlotCSV(filepath.Join(dir, "data.csv"), names, rows)
						args := []string{"lineplot", "-f", "data.csv", "-o", "out.svg"}
						for k, o := range others {
							args = append(args, []string{"-x", "-y", "-z"}[o], fmt.Sprint(fixed[k]))
						}
						want := names
						if sel != "" {
							args = append(args, "-d", sel)
							want = strings.Split(sel, ",")
						}
						out, err := cli(dir, args...)
						r.Step(1)
						r.Check(err == nil, "lineplot failed: %v %s", err, out)
						data, err := os.Open(filepath.Join(dir, "out.svg"))
						r.Check(err == nil, "no picture: %v", err)
						defer data.Close()
						st, _ := data.Stat()
						buf := make([]byte, st.Size())
						data.Read(buf)
						svg := string(buf)
						curves := [][][2]float64{}
						colour, sample := []string{}, []string{}
						for _, m := range pathRe.FindAllStringSubmatch(svg, -1) {
							if m[2] == "#000000" {
								continue // axes
							}
							pts := [][2]float64{}
							for _, p := range strings.Split(m[1], "L") {
								xy := strings.Split(p, ",")
								x, e1 := strconv.ParseFloat(xy[0], 64)
								y, e2 := strconv.ParseFloat(xy[1], 64)
								r.Check(e1 == nil && e2 == nil, "point %s", p)
								pts = append(pts, [2]float64{x, y})
							}
							if len(pts) > 2 {
								curves = append(curves, pts)
								colour = append(colour, m[2])
							} else {
								sample = append(sample, m[2])
							}
						}
						for k := range colour {
							for l := 0; l < k; l++ {
								r.Check(colour[k] != colour[l], "the curves %d and %d have the same colour %s", l, k, colour[k])
							}
						}
						r.Check(strings.Join(sample, ",") == strings.Join(colour, ","), "the colours %v in the legend differ from those of the curves %v", sample, colour)
						r.Check(len(curves) == len(want), "%d curves drawn, expected the fields %v", len(curves), want)
						legend := []string{}
						for _, m := range legendRe.FindAllStringSubmatch(svg, -1) {
							if m[1] != "Field value" && !strings.HasPrefix(m[1], "Position") {
								legend = append(legend, m[1])
							}
						}
						r.Check(strings.Join(legend, ",") == strings.Join(want, ","), "the legend is %v, expected %v", legend, want)
						// reference curves
						ref := [][][2]float64{}
						lo, hi := math.Inf(1), math.Inf(-1)
						for _, nm := range want {
							f := 0
							for k := range names {
								if names[k] == nm {
									f = k
								}
							}
							pts := [][2]float64{}
							for t := 0; t < dims3[axis]; t++ {
								p := make([]int, 3)
								p[axis] = t
								for k, o := range others {
									p[o] = fixed[k]
								}
								v := val(f, refIndex(dims, p[:len(dims)]))
								pts = append(pts, [2]float64{float64(t), v})
								lo, hi = math.Min(lo, v), math.Max(hi, v)
							}
							ref = append(ref, pts)
						}
						// The picture is an affine map of the data: the extreme points give the scale
						x0, x1, y0, y1 := math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
						for _, cv := range curves {
							for _, p := range cv {
								x0, x1 = math.Min(x0, p[0]), math.Max(x1, p[0])
								y0, y1 = math.Min(y0, p[1]), math.Max(y1, p[1])
							}
						}
						for k, cv := range curves {
							r.Check(len(cv) == len(ref[k]), "%d points in the curve of %s, expected %d", len(cv), want[k], len(ref[k]))
							sort.Slice(cv, func(a, b int) bool { return cv[a][0] < cv[b][0] })
							for i := range cv {
								x := (cv[i][0] - x0) / (x1 - x0) * float64(dims3[axis]-1)
								y := lo + (cv[i][1]-y0)/(y1-y0)*(hi-lo)
								r.Check(math.Abs(x-ref[k][i][0]) < 1e-2 && math.Abs(y-ref[k][i][1]) < 1e-2*(hi-lo), "curve %s: point %d is (%.3f, %.3f), expected %v", want[k], i, x, y, ref[k][i])
							}
						}
						r.Observe("line", dims, axis, fixed, sel, order)
						r.Outcome(fmt.Sprintf("%d curves", len(curves)))
					})
				}
			})
		}
	}
}

// columnPlots checks that the picture of a column depends on its own values and its name only: not on
// the other columns, whatever they are called, and not on the space after the commas
func columnPlots(c *Ctx) {
	names := []string{}
	for _, nm := range fussyNames {
		if strings.TrimSpace(nm) == nm && !strings.ContainsAny(nm, ",\"\n") {
			names = append(names, nm)
		}
	}
	dims := []int{3, 4}
	N := prod(dims)
	sizes := []int{2, 3, 5}
	c.bound("pictures of every column of files with %v of the columns %q, with and without a space after the commas, compared with those of files with one column", sizes, names)
	write := func(path, sep string, order int, cols []string) {
		s := strings.Join(append([]string{"X", "Y", "Z"}, cols...), sep) + "\n"
		for _, row := range plotRows(dims, order, func(f, i int) float64 { return 0 }, 0) {
			i := refIndex(dims, row.pos[:2])
			s += fmt.Sprintf("%d%s%d%s%d", row.pos[0], sep, row.pos[1], sep, row.pos[2])
			for _, col := range cols {
				k := 0
				for names[k] != col {
					k++
				}
				s += fmt.Sprintf("%s%f", sep, float64((i*(2*k+3)+k)%N)+float64(k))
			}
			s += "\n"
		}
		if err := writeFile(path, s); err != nil {
			panic(err)
		}
	}
	draw := func(r *Run, dir string, args ...string) string {
		out, err := cli(dir, args...)
		r.Step(1)
		r.Check(err == nil, "%v failed: %v %s", args, err, out)
		buf, err := ioutil.ReadFile(filepath.Join(dir, args[len(args)-1]))
		r.Check(err == nil, "no picture: %v", err)
		return string(buf)
	}
	for a := range names {
		for _, size := range sizes {
			for sp, sep := range []string{",", ", "} {
				a, size, sep := a, size, sep
				c.Case(fmt.Sprintf("columns first=%d num=%d spaces=%d", a, size, sp), func(r *Run) {
					dir := c.newDir()
					defer os.RemoveAll(dir)
					cols := []string{}
					for k := 0; k < size; k++ {
						cols = append(cols, names[(a+k)%len(names)])
					}
					write(filepath.Join(dir, "all.csv"), sep, a%4, cols)
					seen := map[string]string{}
					for _, col := range cols {
						write(filepath.Join(dir, "one.csv"), ",", a%4, []string{col})
						one := draw(r, dir, "contour", "-f", "one.csv", "-o", "one.png")
						all := draw(r, dir, "contour", "-f", "all.csv", "-c", col, "-o", "all.png")
						r.Check(one == all, "the contours of %q differ with the other columns %q", col, cols)
						line := draw(r, dir, "lineplot", "-f", "one.csv", "-y", "2", "-z", "0", "-o", "one.svg")
						lall := draw(r, dir, "lineplot", "-f", "all.csv", "-y", "2", "-z", "0", "-d", col, "-o", "all.svg")
						r.Check(line == lall, "the line of %q differs with the other columns %q", col, cols)
						for o, s := range seen {
							r.Check(s != line, "the lines of %q and %q are the same", o, col)
						}
						seen[col] = line
						r.Observe("column", col, size)
					}
					r.Outcome("columns")
				})
			}
		}
	}
}
