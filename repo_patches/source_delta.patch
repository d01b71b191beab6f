From fda3274c20d4c3d0f3134248a1f7b6faab687b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 01/73] fix: transform 3D domains in the node order used by Pos
 and Freq

The plan was created with the dimensions in the order (row, col, depth), but the
nodes are stored with depth as the slowest index. Non-cubic 3D domains were
transformed along the wrong axes.
---
 pfutil/fftWrap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..01641ec 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,14 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+	// FFTW expects the slowest varying dimension first. In 3D the nodes are ordered
+	// by depth, row and column (see NodeIdx)
+	layout := n
+	if len(n) == 3 {
+		layout = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(layout, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(layout, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From 5089acc25217a27b90247fb4baa3667854780527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 02/73] fix: start every pixel of a 2D grid in the z=0 plane
 when drawing

The transformed z-coordinate of the previous pixel leaked into the next one, so
rotations about the x- or y-axis drew the wrong pixels on 2D grids.
---
 pfutil/shapes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pfutil/shapes.go b/pfutil/shapes.go
index d916d33..4ee1622 100644
--- a/pfutil/shapes.go
+++ b/pfutil/shapes.go
@@ -107,6 +107,7 @@ func Draw(shape Shape, grid *Grid, transformation *Affine, value float64) {
 	floatPos := make([]float64, 3)
 	for i := range grid.Data {
 		pos := grid.Pos(i)
+		floatPos[2] = 0.0
 		for j := range pos {
 			floatPos[j] = float64(pos[j])
 		}
-- 
2.43.0


From c6df8c526448557b07a63ac19afc978e102d0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 03/73] fix: accept names shorter than three characters in
 explicit terms

ValidName sliced the first three characters of the name, so dc/dt = c^3 panicked.
---
 pf/rhsBuilder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..1bffef1 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -115,9 +115,7 @@ func ValidName(name string, model *Model) bool {
 		}
 	}
 
-	if nameStripped[:3] == "LAP" {
-		nameStripped = nameStripped[3:]
-	}
+	nameStripped = strings.TrimPrefix(nameStripped, "LAP")
 	return model.IsBrickName(nameStripped) || model.IsFieldName(nameStripped)
 }
 
-- 
2.43.0


From 23262e8aa09a35e3131079062c85eae88642d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 04/73] fix: identify the factors of a term by name when
 building equations

Fields and scalars were located by substring and regexp search in the term. As a
result (1) a scalar whose name sorts between two field names, or a blank after
LAP in front of a product, made the product of the fields vanish from the term,
(2) repeated factors (conc*conc) were counted once, (3) a scalar directly behind
the laplacian (LAP gamma*conc) was dropped, (4) only one of several laplacians
was applied and (5) names contained in another name were mixed up. Products no
field represents are now rejected instead of being evaluated as one.
---
 pf/rhsBuilder.go | 74 ++++++++++++++++++++----------------------------
 pf/util.go       | 35 ++++++++++++++++++++---
 2 files changed, 61 insertions(+), 48 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 1bffef1..cd18a55 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -5,8 +5,6 @@ import (
 	"log"
 	"math"
 	"math/cmplx"
-	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -44,7 +42,7 @@ func Build(eq string, m *Model) RHS {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
 			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
-			t.SubString = strings.Replace(t.SubString, field, "", -1)
+			t.SubString = removeFactor(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
@@ -67,42 +65,25 @@ func fieldNameFromLeibniz(leibniz string) string {
 
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
-	fieldReg := regexp.MustCompile(field)
-	resCount := fieldReg.FindAllStringIndex(term, -1)
-	if len(resCount) != 1 {
-		return false
-	}
-
 	// Check if any of ther other fields are present. In that case, the term
 	// will not be linear in the fourier domain
 	for _, f := range fieldNames {
-		if f == field {
-			continue
-		}
-		r := regexp.MustCompile(f)
-		count := r.FindAllStringIndex(term, -1)
-		if len(count) > 0 {
+		if f != field && strings.Contains(term, f) {
 			return false
 		}
 	}
 
-	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
-	res := regIncludingPowers.FindString(term)
-
-	// Extract an power (if exists) (the number after ^)
-	regPower := regexp.MustCompile("\\^(-?\\d+\\.?\\d*)")
-	strPower := regPower.FindStringSubmatch(res)
-	if len(strPower) <= 1 {
-		return true
-	}
-	power, err := strconv.ParseFloat(strPower[1], 64)
-
-	if err != nil || math.Abs(power-1.0) < 1e-10 {
-		// No power or equal to 1
-		return true
+	count := 0
+	for _, factor := range strings.Split(term, "*") {
+		if factorName(factor) != field {
+			continue
+		}
+		if math.Abs(GetPower(withoutLaplacian(factor))-1.0) > 1e-10 {
+			return false
+		}
+		count++
 	}
-	return false
+	return count == 1
 }
 
 // ValidName returns true if the parser knows how to parse it
@@ -127,32 +108,37 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		sign = -1.0
 	}
 
-	fieldReg := regexp.MustCompile("[^\\*]*")
-	res := fieldReg.FindAllStringSubmatch(term, -1)
-
 	brickNames := []string{}
 	powers := []float64{}
+	fieldFactors := []string{}
+	lapPower := 0
 
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
-	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
+	for _, factor := range strings.Split(term, "*") {
+		name := factorName(factor)
+		for _, op := range laplacian.FindAllString(laplacianPrefix.FindString(factor), -1) {
+			lapPower += int(GetPower(op))
+		}
 
-		if !m.IsFieldName(name) && m.IsBrickName(name) {
+		if m.IsFieldName(name) {
+			fieldFactors = append(fieldFactors, withoutLaplacian(factor))
+		} else if m.IsBrickName(name) {
 			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
+			powers = append(powers, GetPower(withoutLaplacian(factor)))
 		} else if !ValidName(name, m) {
 			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
 			panic(msg)
 		}
 	}
 
-	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
+	fieldName := SortFactors(strings.Join(fieldFactors, "*"))
+	if fieldName != "" && !m.IsFieldName(fieldName) {
+		msg := fmt.Sprintf("rhsBuilder: No field represents the product %s", fieldName)
+		panic(msg)
+	}
 
-	if strings.Contains(term, "LAP") {
+	if lapPower > 0 {
 		// Term with Laplace operator
-		lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
-		res := lapWithPowReg.FindString(term)
-		lap := LaplacianN{Power: int(GetPower(res))}
+		lap := LaplacianN{Power: lapPower}
 		return func(freq Frequency, t float64, field []complex128) {
 			for i := range field {
 				field[i] = complex(sign, 0.0)
diff --git a/pf/util.go b/pf/util.go
index 20af17b..8f8cd04 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -20,10 +20,10 @@ func GetNonLinearFieldExpressions(pattern string, field string, fieldNames []str
 		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
 			continue
 		}
-		regField := regexp.MustCompile(fieldNames[i] + "[^\\*]*")
-		res := regField.FindString(pattern)
-		if res != "" {
-			expr += res + "*"
+		for _, factor := range strings.Split(pattern, "*") {
+			if factorName(factor) == fieldNames[i] {
+				expr += withoutLaplacian(factor) + "*"
+			}
 		}
 	}
 
@@ -79,6 +79,33 @@ func GetPower(pattern string) float64 {
 	return power
 }
 
+// laplacian matches a laplacian operator and laplacianPrefix matches all laplacian operators in
+// front of a factor (e.g. LAP^2 in LAP^2conc)
+var laplacian = regexp.MustCompile("LAP(\\^\\d+)?")
+var laplacianPrefix = regexp.MustCompile("^(LAP(\\^\\d+)?)+")
+
+// withoutLaplacian removes the laplacian operators (if any) in front of a factor
+func withoutLaplacian(factor string) string {
+	return laplacianPrefix.ReplaceAllString(factor, "")
+}
+
+// factorName returns the name of a factor, without laplacian operator and power
+func factorName(factor string) string {
+	return strings.Split(withoutLaplacian(factor), "^")[0]
+}
+
+// removeFactor removes the factors with the passed name from a term. Laplacian operators
+// in front of the factors are kept.
+func removeFactor(term string, name string) string {
+	factors := strings.Split(term, "*")
+	for i := range factors {
+		if factorName(factors[i]) == name {
+			factors[i] = laplacianPrefix.FindString(factors[i])
+		}
+	}
+	return strings.Join(removeEmpty(factors), "*")
+}
+
 // GetFieldName returns the field name of a term.
 func GetFieldName(term string, fieldNames []string) string {
 	field := ""
-- 
2.43.0


From 9781cf718bb3e7d303b1970ebf388bbebcb6f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 05/73] fix: fourier transform terms that consist of scalars
 only

A constant on the right hand side (dconc/dt = rate) was added to all fourier
amplitudes, which is a point source at the first node rather than a constant.
---
 pf/rhsBuilder.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index cd18a55..d1f452c 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -44,6 +44,8 @@ func Build(eq string, m *Model) RHS {
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
 			t.SubString = removeFactor(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
+		} else if !hasField(t.SubString, m) {
+			rhs.Terms = append(rhs.Terms, uniformTerm(ConcreteTerm(t, m)))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
 		}
@@ -51,6 +53,28 @@ func Build(eq string, m *Model) RHS {
 	return rhs
 }
 
+// hasField returns true if at least one of the factors in the term is a field
+func hasField(term string, m *Model) bool {
+	for _, factor := range strings.Split(term, "*") {
+		if m.IsFieldName(factorName(factor)) {
+			return true
+		}
+	}
+	return false
+}
+
+// uniformTerm represents a term that has the same value at all nodes in real space. Its
+// fourier transform is zero everywhere apart from at the first node (zero frequency)
+func uniformTerm(term Term) Term {
+	return func(freq Frequency, t float64, field []complex128) {
+		term(freq, t, field)
+		field[0] *= complex(float64(len(field)), 0.0)
+		for i := 1; i < len(field); i++ {
+			field[i] = 0.0
+		}
+	}
+}
+
 // fieldNameFromLeibniz extracts a field name from a Leibniz formatted
 // differnetation operation (e.g dkappa/dt)
 func fieldNameFromLeibniz(leibniz string) string {
-- 
2.43.0


From 020edc675708db6fcd195210ab9c0e249ff2eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 06/73] fix: respect the sign of terms with two leading signs

The second sign in expressions like a + -b was ignored.
---
 pf/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pf/model.go b/pf/model.go
index 140d220..1162b3c 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -156,6 +156,7 @@ func (m *Model) AddSource(eqNo int, s Source) {
 // AddEquation adds equations to the model
 func (m *Model) AddEquation(eq string) {
 	eq = strings.Replace(eq, " ", "", -1)
+	eq = strings.NewReplacer("+-", "-", "-+", "-", "--", "+", "++", "+").Replace(eq)
 	m.Equations = append(m.Equations, eq)
 	m.UpdateDerivedFields(eq)
 	m.AllSources = append(m.AllSources, make(Sources, 0))
-- 
2.43.0


From c64a94c4373f3a5adb9452ee4f09b0f77eeb7dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 07/73] fix: support products of registered functions and
 fields

A function times a field (func*conc) was silently evaluated as one.
---
 pf/model.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 1162b3c..18ff03b 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -172,9 +172,12 @@ func (m *Model) UpdateDerivedFields(eq string) {
 	}
 
 	field := fieldNameFromLeibniz(strings.Split(eq, "=")[0])
-	fieldNames := make([]string, len(m.Fields))
-	for i := range m.Fields {
-		fieldNames[i] = m.Fields[i].Name
+	fieldNames := m.AllFieldNames()
+
+	// Registered functions may be a factor in a product
+	factors := append([]Field{}, m.Fields...)
+	for _, f := range m.DerivedFields {
+		factors = append(factors, Field{Data: f.Data, Name: f.Name})
 	}
 
 	for i := range splitted {
@@ -187,7 +190,7 @@ func (m *Model) UpdateDerivedFields(eq string) {
 			dField := DerivedField{
 				Data: make([]complex128, len(m.Fields[0].Data)),
 				Name: newFields,
-				Calc: DerivedFieldCalcFromDesc(newFields, m.Fields),
+				Calc: DerivedFieldCalcFromDesc(newFields, factors),
 			}
 			m.DerivedFields = append(m.DerivedFields, dField)
 			m.Bricks[newFields] = &dField
-- 
2.43.0


From 1070fcfaa9d74a642bdab5fb357f9fcb9abdde5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 08/73] fix: evaluate all equations at the old fields in the
 Euler scheme

The fields were updated one by one, so terms that are linear in a field that was
already updated used y_{n+1} instead of y_n and the result depended on the order
of the fields.
---
 pf/euler.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..f24e692 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -24,9 +24,18 @@ func (eu *Euler) Step(m *Model) {
 	}
 
 	t := eu.GetTime()
+
+	// Evaluate all equations before any of the fields are altered
+	allRHS := make([][]complex128, len(m.Fields))
+	allDenum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		allRHS[i] = m.GetRHS(i, eu.FT.Freq, t)
+		allDenum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
+		rhs := allRHS[i]
+		denum := allDenum[i]
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-- 
2.43.0


From 90b2c968b0d9bb87eb8a6cd974c3f31512da5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 09/73] fix: advance the time in every step of the RK4 scheme

The step counter was only incremented in Propagate, which is not used by the
solver. Thus, time dependent terms were always evaluated at t=0.
---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..bd8f571 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From 51fb53e9a3995f53c210867fbe48df9ef29eeb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 10/73] fix: evaluate the RK4 stages at the documented times

The documentation of correction states N(t + factor*dt, ...), but t was used.
---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index bd8f571..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -123,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
-- 
2.43.0


From 27ea1e800f11f58d730180934078c3ebe2428127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 11/73] fix: store each derived field of a term under its own
 name

All bricks pointed to the loop variable, i.e. to the last derived field.
---
 pf/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pf/model.go b/pf/model.go
index 18ff03b..623240f 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -340,6 +340,7 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
 		for _, f := range dFields {
+			f := f // The address is stored below
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From eb5ccdb7cc718ad931216af17794a7ad3b102d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 12/73] fix: apply each equation to the field on its left hand
 side

The equations were applied to the fields by position, such that dA/dt was used to
evolve B if the equations were not added in the same order as the fields.
---
 pf/model.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 623240f..5ae6dd7 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -283,23 +283,37 @@ func (m *Model) AllVariableNames() []string {
 	return names
 }
 
+// eqNumberFromField returns the number of the equation that evolves the passed field. If there
+// is no equation for a field with that name, the equations are assumed to be given in the same
+// order as the fields
+func (m *Model) eqNumberFromField(fieldNo int) int {
+	lhs := "d" + m.Fields[fieldNo].Name + "/dt="
+	for i, eq := range m.Equations {
+		if strings.HasPrefix(eq, lhs) {
+			return i
+		}
+	}
+	return fieldNo
+}
+
 // GetRHS evaluates the right hand side of one of the equations
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Terms {
+	eqNo := m.eqNumberFromField(fieldNo)
+	for _, f := range m.RHS[eqNo].Terms {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
-	for _, s := range m.AllSources[fieldNo] {
+	for _, s := range m.AllSources[eqNo] {
 		s.Eval(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
 	// Apply eventual modifiers
 	for i := range m.RHSModifiers {
-		if m.RHSModifiers[i].EqNo == fieldNo {
+		if m.RHSModifiers[i].EqNo == eqNo {
 			m.RHSModifiers[i].RHSModifier(data)
 		}
 	}
@@ -310,7 +324,7 @@ func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 func (m *Model) GetDenum(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Denum {
+	for _, f := range m.RHS[m.eqNumberFromField(fieldNo)].Denum {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
-- 
2.43.0


From d6cb6f69503d0158f9f73734a84fcbc40ec5fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:25 +0000
Subject: [PATCH 13/73] fix: number the rows of the positions table by the node
 they describe

---
 pf/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 160a9d9..e2937dc 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -180,13 +180,13 @@ func (fdb *FieldDB) populatePositionsTable() {
 	for i := 0; i < numNodes; i++ {
 		pos := pfutil.Pos(fdb.DomainSize, i)
 		copy(pos3, pos)
-		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")
+		statement, err := tx.Prepare("INSERT INTO positions (id, X, Y, Z) VALUES (?, ?, ?, ?)")
 
 		if err != nil {
 			tx.Rollback()
 			return
 		}
-		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
+		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-- 
2.43.0


From c32442bb32cd752929568ec6d15a85997a388585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:25 +0000
Subject: [PATCH 14/73] fix: recognise a populated positions table of a domain
 with one node

---
 pf/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/database.go b/pf/database.go
index e2937dc..10d1863 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -165,7 +165,7 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	for result.Next() {
 		result.Scan(&numRows)
 	}
-	return numRows > 1
+	return numRows > 0
 }
 
 // populatePositionTables inserts values into the position table
-- 
2.43.0


From 0600b3523d7baf9c93288941aac001e32c94b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:25 +0000
Subject: [PATCH 15/73] fix: refuse to store 2D fields in the database of a 3D
 domain

---
 pf/database.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 10d1863..58759e2 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -351,7 +351,12 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 	columns := []string{"X", "Y", "Z"}
 
-	for i := 0; i < len(fdb.DomainSize); i++ {
+	for i := range columns {
+		// Directions that are not part of the domain consist of one node
+		size := 1
+		if i < len(fdb.DomainSize) {
+			size = fdb.DomainSize[i]
+		}
 		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
@@ -363,7 +368,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 		for rows.Next() {
 			rows.Scan(&maxval)
 		}
-		if maxval != fdb.DomainSize[i]-1 {
+		if maxval != size-1 {
 			return false
 		}
 	}
-- 
2.43.0


From 46582a996aea2e64c321f0e5361e5df791ab7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 16/73] fix: restore NaN values when fields are loaded from the
 database

---
 pf/database.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 58759e2..a483fe5 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"log"
+	"math"
 	"math/rand"
 	"strings"
 	"time"
@@ -406,11 +407,14 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 
 	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
 		"WHERE simID=? AND timestep=?", simID, timestep)
-	var value float64
+	var value sql.NullFloat64 // NaN is stored as NULL
 	var positionID int
 	for rows.Next() {
 		rows.Scan(&name, &value, &positionID)
-		fields[name].Data[positionID] = complex(value, 0.0)
+		if !value.Valid {
+			value.Float64 = math.NaN()
+		}
+		fields[name].Data[positionID] = complex(value.Float64, 0.0)
 	}
 
 	fieldArray := make([]Field, len(fieldNames))
-- 
2.43.0


From 59095f5c494abe0db71f34bf65b73b80dc87f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:31 +0000
Subject: [PATCH 17/73] fix: report errors that occur when the database is
 initialized

---
 pf/database.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index a483fe5..8adeb42 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -87,13 +87,17 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS fields (id INTEGER PRIMARY KEY, name TEXT, " +
@@ -104,14 +108,18 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, " +
@@ -120,7 +128,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value TEXT, " +
@@ -129,7 +139,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS timeseries (key TEXT, value REAL, " +
@@ -138,19 +150,24 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	if fdb.simID == 0 {
 		source := rand.NewSource(time.Now().UnixNano())
 		generator := rand.New(source)
-		fdb.simID = generator.Int31()
+		simID := generator.Int31()
 
 		// Insert into the database
 		statement, err = fdb.DB.Prepare("INSERT INTO simIDs (simID, creationTime) VALUES (?, datetime('now', 'localtime'))")
 		if err != nil {
 			panic(err)
 		}
-		statement.Exec(fdb.simID)
+		if _, err = statement.Exec(simID); err != nil {
+			panic(err)
+		}
+		fdb.simID = simID
 	}
 
 	fdb.initialized = true
-- 
2.43.0


From 6f3a225e31fec0a60f0ac95a1a21943b06022d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:31 +0000
Subject: [PATCH 18/73] fix: report database writes that fail

---
 pf/database.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 8adeb42..3829c46 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -202,16 +202,18 @@ func (fdb *FieldDB) populatePositionsTable() {
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // insertRealPart inserts the real part of a set of field values into the database
@@ -223,7 +225,11 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 	if len(values) != pfutil.ProdInt(fdb.DomainSize) {
 		panic("FieldDB: The passed array does not match the specified domain size")
 	}
-	tx, _ := fdb.DB.Begin()
+	tx, err := fdb.DB.Begin()
+	if err != nil {
+		log.Fatal(err)
+		return
+	}
 	for i := range values {
 		statement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")
 
@@ -241,7 +247,9 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SaveFields stores all the field to the database. This function satisfies the
@@ -271,7 +279,9 @@ func (fdb *FieldDB) Comment(comment string) {
 		log.Fatal(err)
 		return
 	}
-	statement.Exec(fdb.simID, comment)
+	if _, err = statement.Exec(fdb.simID, comment); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetAttr adds a set of key-value pairs associated with the current simID
@@ -300,7 +310,9 @@ func (fdb *FieldDB) SetAttr(attr map[string]float64) {
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetTextAttr sets text attributes associated with the current simulation
@@ -329,7 +341,9 @@ func (fdb *FieldDB) SetTextAttr(attr map[string]string) {
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // TimeSeries inserts data into the timeseries table
@@ -357,7 +371,9 @@ func (fdb *FieldDB) TimeSeries(data map[string]float64, timestep int) {
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // domainSizeOk returns true if the domain size stored locally matches the one
-- 
2.43.0


From 8e16675dd7770f8a7d5d468e798fa5d0e0746b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:21 +0000
Subject: [PATCH 19/73] fix: report errors that occur while fields are loaded
 from the database

---
 pf/database.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pf/database.go b/pf/database.go
index 3829c46..f0d1d48 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -424,6 +424,9 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 		rows.Scan(&name)
 		fieldNames = append(fieldNames, name)
 	}
+	if err = rows.Err(); err != nil {
+		panic(err)
+	}
 
 	var numNodes int
 	rows, err = fdb.DB.Query("SELECT COUNT(*) FROM positions")
@@ -433,6 +436,9 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 	for rows.Next() {
 		rows.Scan(&numNodes)
 	}
+	if err = rows.Err(); err != nil {
+		panic(err)
+	}
 	fields := make(map[string]Field)
 	for _, key := range fieldNames {
 		fields[key] = NewField(key, numNodes, nil)
@@ -440,6 +446,9 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 
 	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
 		"WHERE simID=? AND timestep=?", simID, timestep)
+	if err != nil {
+		panic(err)
+	}
 	var value sql.NullFloat64 // NaN is stored as NULL
 	var positionID int
 	for rows.Next() {
@@ -449,6 +458,9 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 		}
 		fields[name].Data[positionID] = complex(value.Float64, 0.0)
 	}
+	if err = rows.Err(); err != nil {
+		panic(err)
+	}
 
 	fieldArray := make([]Field, len(fieldNames))
 	for i, fieldName := range fieldNames {
@@ -468,5 +480,8 @@ func (fdb *FieldDB) LoadLast(simID int) []Field {
 	for rows.Next() {
 		rows.Scan(&maxTs)
 	}
+	if err = rows.Err(); err != nil {
+		panic(err)
+	}
 	return fdb.Load(simID, maxTs)
 }
-- 
2.43.0


From c4db27ddac8b0b75d1bb3bd74f6701ff2bb65669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 20/73] fix: accept the documented export type fielddata

---
 cmd/export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 65e9dd1..d19720f 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -88,7 +88,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 		switch ftype {
 		case "timeseries", "ts":
 			exportTimeseries(db, outfile, simid)
-		case "field", "fieldData", "fd":
+		case "field", "fieldData", "fielddata", "fd":
 			if all {
 				steps := allTimeSteps(db, simid)
 				for _, step := range steps {
@@ -106,7 +106,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 
 func init() {
 	dbCmd.AddCommand(exportCmd)
-	exportCmd.Flags().StringP("type", "t", "timeseries", "If timeries or field data should be exported. Can be one of timeseries (ts) or field (fd, fieldData). Synonyms are shown in paranthesis.")
+	exportCmd.Flags().StringP("type", "t", "timeseries", "If timeries or field data should be exported. Can be one of timeseries (ts) or field (fd, fieldData, fielddata). Synonyms are shown in paranthesis.")
 	exportCmd.Flags().StringP("out", "o", "", "Name of the output file. If empty, a name will be crafted from the other arguments.")
 	exportCmd.Flags().IntP("simid", "i", -1, "Simulation ID. If negative, the newest ID will be used.")
 	exportCmd.Flags().IntP("timestep", "s", 0, "Timestep to export (only relevant if type is field).")
-- 
2.43.0


From 5d57ccf4b64156904b3a210b7ee22a209e45bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 21/73] fix: export NaN values instead of repeating the
 previous value

---
 cmd/export.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index d19720f..c6ea7b5 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -5,6 +5,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"log"
+	"math"
 	"os"
 
 	"github.com/spf13/cobra"
@@ -157,11 +158,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		return
 	}
 	var timestep int
-	var value float64
+	var value sql.NullFloat64
 
 	for rows.Next() {
 		rows.Scan(&key, &value, &timestep)
-		dataArray[timestep][key] = value
+		dataArray[timestep][key] = floatOrNaN(value)
 	}
 
 	out, err := os.Create(outfile)
@@ -230,11 +231,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		return
 	}
 	var name string
-	var value float64
+	var value sql.NullFloat64
 	var positionID int
 	for rows.Next() {
 		rows.Scan(&name, &value, &positionID)
-		data[positionID][name] = value
+		data[positionID][name] = floatOrNaN(value)
 	}
 
 	out, err := os.Create(outfile)
@@ -265,6 +266,14 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	fmt.Printf("Field data written to %s\n", outfile)
 }
 
+// floatOrNaN returns the value, or NaN if it is NULL (SQLite has no NaN, it is stored as NULL)
+func floatOrNaN(value sql.NullFloat64) float64 {
+	if !value.Valid {
+		return math.NaN()
+	}
+	return value.Float64
+}
+
 // largestTimestep extracts the largest timestep from the fields table
 func largestTimestep(db *sql.DB, simid int) int {
 	rows, err := db.Query("SELECT MAX(timestep) FROM fields WHERE simId=?", simid)
-- 
2.43.0


From 5fdf611844009018a1dbb09fdefd5afeb19b404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 22/73] fix: do not export missing points of timeseries as
 zeros

---
 cmd/export.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index c6ea7b5..155f6d4 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -21,9 +21,9 @@ Example:
 
 gopf db export mydatabase.db --type timeseries
 
-exports all temperature data to a csv file where the timestep is stored in the first
-column and corresponding values in the remaining columns. The first row is a header
-that describes the content of the file.
+exports all timeseries to a csv file with one column per timeseries and one row per
+timestep (starting from zero). The first row is a header that describes the content
+of the file. Points that are not present in the database are exported as NaN.
 
 gopf db export mystabaset.db --type fielddata --timestep 0
 
@@ -178,7 +178,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	record := make([]string, len(keys))
 	for _, item := range dataArray {
 		for j, k := range keys {
-			record[j] = fmt.Sprintf("%f", item[k])
+			value, ok := item[k]
+			if !ok {
+				value = math.NaN()
+			}
+			record[j] = fmt.Sprintf("%f", value)
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From 37201afb340b5c8d04d9eb686bc4c685f6ef1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 23/73] fix: select the newest of several simulations that were
 created within one second

---
 cmd/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/util.go b/cmd/util.go
index cf503fb..a748080 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -28,7 +28,7 @@ func singleLine(length int) string {
 
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
-	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1")
+	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
 	if err != nil {
 		fmt.Printf("%s\n", err)
 		return 0
-- 
2.43.0


From 65c7e328476d2f2beb757a6034d615c67b820540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 24/73] fix: list the newest of simulations created within one
 second first

---
 cmd/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/list.go b/cmd/list.go
index 75e0061..f375bb1 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -77,7 +77,7 @@ func showSimulationIds(db *sql.DB, max int) {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
 
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 
@@ -108,7 +108,7 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	simIds := []int{}
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 	if err != nil {
-- 
2.43.0


From d9714dffbd9d2aab2bd4da8fe7fff07c2a4113fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 25/73] fix: do not list the comment of another simulation when
 there is none

---
 cmd/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/list.go b/cmd/list.go
index f375bb1..df1451d 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -124,8 +124,8 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	sql = "SELECT value from comments WHERE simID=?"
-	var comment string
 	for _, v := range simIds {
+		var comment string
 		rows, err = db.Query(sql, v)
 		if err != nil {
 			fmt.Printf("%s\n", err)
-- 
2.43.0


From 8f2d50222dc4deeb5faa3da32cb5d64188e07ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 26/73] fix: print the value of text attributes that are
 selected by name

---
 cmd/attr.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 3a21063..ffe2fbc 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -219,9 +219,14 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
 	}
 
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
+
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		rows.Scan(&txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
 }
-- 
2.43.0


From a1139240eb418cb469439ff5e5cf0ea0a8ee6437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 27/73] fix: update the comment of the newest simulation when
 no ID is given

---
 cmd/comment.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/comment.go b/cmd/comment.go
index 306d6f0..be0ada7 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -51,6 +51,10 @@ is used.
 			return
 		}
 
+		if simid < 0 && newMsg != "" {
+			simid = newestSimulationID(sqlDB)
+		}
+
 		if simid < 0 {
 			printAllComments(sqlDB)
 			return
-- 
2.43.0


From 398c8c6ec4dc37673b499c5267b24c27ff98245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 28/73] fix: store a new comment for simulations that have no
 comment

---
 cmd/comment.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index be0ada7..f816a4b 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -66,7 +66,29 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
-			statement.Exec(newMsg, simid)
+			result, err := statement.Exec(newMsg, simid)
+			if err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
+
+			updated, err := result.RowsAffected()
+			if err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
+			if updated == 0 {
+				// The simulation has no comment yet
+				result, err = sqlDB.Exec("INSERT INTO comments (simId, value) SELECT simId, ? FROM simIds WHERE simId=?", newMsg, simid)
+				if err != nil {
+					fmt.Printf("%s\n", err)
+					return
+				}
+				if inserted, err := result.RowsAffected(); err != nil || inserted == 0 {
+					fmt.Printf("There is no simulation with id %d\n", simid)
+					return
+				}
+			}
 			fmt.Printf("Comment of id %d was successfully updated\n", simid)
 		} else {
 			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=?", simid)
-- 
2.43.0


From 5a6122f1f8b912cf20c878d9813c20461639bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 29/73] fix: print long comments completely

---
 cmd/comment.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index f816a4b..fa1ed9a 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"log"
+	"strings"
 
 	"github.com/spf13/cobra"
 )
@@ -124,24 +125,18 @@ func printAllComments(db *sql.DB) {
 	for rows.Next() {
 		rows.Scan(&simID, &comment)
 
-		numLines := len(comment)/CommentWidth + 1
-		var currentComment string
-		start := 0
-		for lineNum := 0; lineNum < numLines; lineNum++ {
-			idString := " "
-			if lineNum == 0 {
-				idString = fmt.Sprintf("%d", simID)
+		idString := fmt.Sprintf("%d", simID)
+		for len(comment) > CommentWidth {
+			// Break the line at a white space. Words that are longer than a line are split.
+			end := closestWhiteSpace(comment, CommentWidth)
+			if end == 0 {
+				end = CommentWidth
 			}
-
-			if start+CommentWidth > len(comment) {
-				currentComment = comment[start:]
-			} else {
-				end := closestWhiteSpace(comment, start+CommentWidth)
-				currentComment = comment[start:end]
-				start = end + 1
-			}
-			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
+			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment[:end])
+			comment = strings.TrimPrefix(comment[end:], " ")
+			idString = " "
 		}
+		fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment)
 	}
 	fmt.Printf("%s\n", singleLine(width))
 }
-- 
2.43.0


From 148d02c4c7c8c4bb4ff7901e864f6fbd0e5feaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:36 +0000
Subject: [PATCH 30/73] fix: look up values of contour plots by position

---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..a917f53 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
-- 
2.43.0


From 068d01a62ab39c438be61c0ccf8b0e57214c5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:36 +0000
Subject: [PATCH 31/73] fix: draw contour plots with the y axis pointing
 upwards

---
 cmd/contour.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index a917f53..9161096 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -327,7 +327,8 @@ func fillImage(data HeatMapData, cmap palette.ColorMap) *image.RGBA64 {
 				log.Fatalf("%s\n", err)
 				return img
 			}
-			img.Set(i, j, color)
+			// The first row of an image is at the top, while the y axis points upwards
+			img.Set(i, m-1-j, color)
 		}
 	}
 	return img
-- 
2.43.0


From 23cfdb14b7596c3fee76004bf4a9144befb38a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:36 +0000
Subject: [PATCH 32/73] fix: plot the requested fields along a line

---
 cmd/lineplot.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..519c6d5 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,17 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
+		if err != nil {
+			log.Fatalf("Could not read the fields: %s\n", err)
+			return
+		}
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
-- 
2.43.0


From 7eba03aed778b7983449f764df8a66d95505fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 33/73] fix: refuse csv files with values that are not numbers

---
 pf/fileIO.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index df1c779..09e9a39 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -144,7 +144,11 @@ func LoadCSV(fname string) []Field {
 		}
 
 		for i := 0; i < len(fields); i++ {
-			v, _ := strconv.ParseFloat(record[i+3], 64)
+			v, err := strconv.ParseFloat(record[i+3], 64)
+			if err != nil {
+				msg := fmt.Sprintf("Could not convert value of field %s: %s\n", fields[i].Name, err)
+				panic(msg)
+			}
 			fields[i].Data = append(fields[i].Data, complex(v, 0.0))
 		}
 	}
-- 
2.43.0


From 821b022569b958e4384766b8fb39b60213088b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 34/73] fix: list the dimensions of 3D domains in storage order
 in xdmf files

---
 pf/xdmf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 76fa426..0eaa1ab 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -88,7 +88,8 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		dimensions = fmt.Sprintf("%d %d", domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDY"
 	} else if len(domainSize) == 3 {
-		dimensions = fmt.Sprintf("%d %d %d", domainSize[0], domainSize[1], domainSize[2])
+		// The dimensions are listed from the slowest to the fastest axis (see pfutil.Pos)
+		dimensions = fmt.Sprintf("%d %d %d", domainSize[2], domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDYDZ"
 	} else {
 		panic("Length of domain size to be either 2 or 3")
-- 
2.43.0


From 45644f2807551d3cc066214f851971ba6489aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 35/73] fix: let SetFloat change the value of the scalar

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 5ae6dd7..5f85784 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -98,7 +98,7 @@ func NewScalar(name string, value complex128) Scalar {
 }
 
 // SetFloat sets a new value
-func (s Scalar) SetFloat(v float64) {
+func (s *Scalar) SetFloat(v float64) {
 	s.Value = complex(v, 0.0)
 }
 
-- 
2.43.0


From e3edd7ad448d3a8838ff7b824dbf2ef0dd218989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 36/73] fix: let Advection, DivGrad and WeightedLaplacian be
 registered as terms

---
 pf/advection.go          | 2 +-
 pf/gradientCalculator.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 9408dfc..b8f20cd 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -95,4 +95,4 @@ func (ad *Advection) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (ad *Advection) OnStepFinished(t float64) {}
+func (ad *Advection) OnStepFinished(t float64, bricks map[string]Brick) {}
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..7c76f6b 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -106,7 +106,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (dg *DivGrad) OnStepFinished(t float64) {}
+func (dg *DivGrad) OnStepFinished(t float64, bricks map[string]Brick) {}
 
 // WeightedLaplacian is a type used to represent terms of the form
 // F(c) LAP <field>, where F is a function of all the fields.
@@ -158,3 +158,6 @@ func (wl *WeightedLaplacian) Construct(bricks map[string]Brick) Term {
 		wl.FT.FFT(field)
 	}
 }
+
+// OnStepFinished does nothing as we don't need any updates in between steps
+func (wl *WeightedLaplacian) OnStepFinished(t float64, bricks map[string]Brick) {}
-- 
2.43.0


From a339dc64558a2c5cbd578982b212e3e94da804a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 37/73] fix: use all elements of the coefficient tensor in
 TensorialHessian

---
 pf/tensorialHessian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..1b22918 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,7 +53,7 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
-					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
+					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
 			}
-- 
2.43.0


From c245c7a9837e3b432b4d4579b1bf6442ad8692df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 38/73] fix: keep real fields real when TensorialHessian has
 off-diagonal elements

---
 pf/tensorialHessian.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 1b22918..b8deb17 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,6 +53,9 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
+					if isNyquist(f[j]) || isNyquist(f[k]) {
+						continue
+					}
 					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
@@ -61,6 +64,12 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 	}
 }
 
+// isNyquist returns true if the passed frequency is the Nyquist frequency, for which
+// the first derivative vanishes
+func isNyquist(f float64) bool {
+	return math.Abs(math.Abs(f)-0.5) < 1e-10
+}
+
 // GetCoeff return the i, j element of the coefficient tensor
 func (th *TensorialHessian) GetCoeff(i, j int) float64 {
 	d := 2
-- 
2.43.0


From a9a2ba99beb2d69532acf55e6fcebe63c963b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 39/73] fix: keep real fields real when using DivGrad

---
 pf/gradientCalculator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 7c76f6b..a9732a4 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -99,6 +99,9 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 			brick := bricks[dg.FuncName()+dg.GradName(d)]
 			for i := range field {
 				f := freq(i)[d]
+				if isNyquist(f) {
+					continue
+				}
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
 			}
 		}
-- 
2.43.0


From 5332d97f5323e4b0f38f1be6a191f02110f220cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 40/73] fix: do not overwrite fields of the user in Advection

---
 pf/advection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/advection.go b/pf/advection.go
index b8f20cd..361104a 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -21,7 +21,7 @@ type Advection struct {
 
 // GradName returns the gradient term associated with the field
 func (ad *Advection) GradName(comp int) string {
-	return fmt.Sprintf("%s_%d", ad.Field, comp)
+	return fmt.Sprintf("GRAD_%s_%d", ad.Field, comp)
 }
 
 // GetName returns the name of the brick corresponding to
-- 
2.43.0


From 02f52a92153b1d2900c84f35c321e55c71dfa904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 41/73] fix: register the gradient of a field only once

---
 pf/advection.go          | 2 +-
 pf/gradientCalculator.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 361104a..0a588a1 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -63,7 +63,7 @@ func (ad *Advection) PrepareModel(N int, m *Model, FT FourierTransform) {
 			Comp: d,
 		}
 		dField := grad.ToDerivedField(ad.GradName(d), N, m.Bricks[ad.Field])
-		m.RegisterDerivedField(dField)
+		m.registerDerivedFields([]DerivedField{dField})
 	}
 
 	vDotGradField := DerivedField{
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index a9732a4..fc8f621 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -75,7 +75,7 @@ func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 			KeepNyquist: false,
 		}
 		dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
-		m.RegisterDerivedField(dField)
+		m.registerDerivedFields([]DerivedField{dField})
 
 		dField2 := DerivedField{
 			Name: dg.FuncName() + dg.GradName(d),
-- 
2.43.0


From e92a9e0ae8831babd6195ba50322e9cf60a5ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 42/73] fix: keep the functions of several DivGrad terms of the
 same field apart

---
 pf/gradientCalculator.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index fc8f621..976048e 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -50,6 +50,9 @@ func (g *GradientCalculator) ToDerivedField(name string, N int, brick Brick) Der
 type DivGrad struct {
 	Field string
 	F     GenericFunction
+
+	// id distinguishes terms of the same field with different functions
+	id string
 }
 
 // FuncName returns the name of the generic function F
@@ -62,12 +65,21 @@ func (dg *DivGrad) GradName(comp int) string {
 	return fmt.Sprintf("GRAD_%s_%d", dg.Field, comp)
 }
 
+// fluxName returns the name of the product of the generic function and the gradient
+func (dg *DivGrad) fluxName(comp int) string {
+	return dg.FuncName() + dg.GradName(comp) + dg.id
+}
+
 // PrepareModel impose nessecary changes in the model in order to use the
 // DivGrad term. N is the number of grid points in the simulation domain,
 // dim is the dimension of the simulation domain. FT is a fourier transformer
 // required for gradient evaluations
 func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 	dim := len(FT.Freq(0))
+	dg.id = ""
+	for i := 1; m.IsFieldName(dg.fluxName(0)); i++ {
+		dg.id = fmt.Sprintf("_%d", i)
+	}
 	for d := 0; d < dim; d++ {
 		grad := GradientCalculator{
 			FT:          FT,
@@ -78,7 +90,7 @@ func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 		m.registerDerivedFields([]DerivedField{dField})
 
 		dField2 := DerivedField{
-			Name: dg.FuncName() + dg.GradName(d),
+			Name: dg.fluxName(d),
 			Data: make([]complex128, N),
 			Calc: func(data []complex128) {
 				for i := range data {
@@ -96,7 +108,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 		pfutil.Clear(field)
 		dim := len(freq(0))
 		for d := 0; d < dim; d++ {
-			brick := bricks[dg.FuncName()+dg.GradName(d)]
+			brick := bricks[dg.fluxName(d)]
 			for i := range field {
 				f := freq(i)[d]
 				if isNyquist(f) {
-- 
2.43.0


From 262d0a3f2d872ff0dfb4c6078ac1cd3161b4f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 43/73] fix: validate implicit terms of 3D models with 3D
 frequencies

---
 pf/model.go  | 9 ++++++++-
 pf/solver.go | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 5f85784..1f4105e 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -124,6 +124,9 @@ type Model struct {
 	RHS           []RHS
 	AllSources    []Sources
 	RHSModifiers  []eqModifier
+
+	// dim is the dimension of the domain (set by the solver)
+	dim int
 }
 
 // NewModel returns a new model
@@ -253,9 +256,13 @@ func (m *Model) Init() {
 	m.SyncDerivedFields()
 
 	// Validate all implicit terms
+	testFreq := []float64{0.4, 0.4}
+	if m.dim == 3 {
+		testFreq = append(testFreq, 0.4)
+	}
 	for k, v := range m.ImplicitTerms {
 		if !isImplicit(v, m.Bricks, m.NumNodes(), func(i int) []float64 {
-			return []float64{0.4, 0.4}
+			return append([]float64{}, testFreq...)
 		}) {
 			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)
 			panic(msg)
diff --git a/pf/solver.go b/pf/solver.go
index fbf519a..f0d0dae 100644
--- a/pf/solver.go
+++ b/pf/solver.go
@@ -39,6 +39,7 @@ type Solver struct {
 // NewSolver initializes a new solver
 func NewSolver(m *Model, domainSize []int, dt float64) *Solver {
 	var solver Solver
+	m.dim = len(domainSize)
 	m.Init()
 	solver.Model = m
 	solver.Dt = dt
-- 
2.43.0


From ef14194e361e5c206531b142e240c2668aec6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 44/73] fix: include the prefactor in the non-linear part of
 IdealMixtureTerm

---
 pf/pairCorrelationTerm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..96669ae 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -161,7 +161,7 @@ func (idt *IdealMixtureTerm) ConstructNonLinear(bricks map[string]Brick) Term {
 	return func(freq Frequency, t float64, field []complex128) {
 		if b, ok := bricks[idt.nonLinearDerivedFieldName()]; ok {
 			for i := range field {
-				field[i] = b.Get(i)
+				field[i] = complex(idt.Prefactor, 0.0) * b.Get(i)
 			}
 
 			if idt.Laplacian {
-- 
2.43.0


From a5478a44900d9bbece2dbe1f5c7dae1dc9971059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 45/73] fix: evaluate NegativeValuePenalty as documented for
 even exponents

---
 pf/negative_value_penalty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/negative_value_penalty.go b/pf/negative_value_penalty.go
index c6de7f5..30d8224 100644
--- a/pf/negative_value_penalty.go
+++ b/pf/negative_value_penalty.go
@@ -17,7 +17,8 @@ func (nvp *NegativeValuePenalty) Penalty(x float64) float64 {
 		return 0.0
 	}
 	p := float64(nvp.Exponent)
-	return -2.0*nvp.Prefactor*p*math.Pow(x, p-1.0)
+	xPow := math.Pow(x, p-1.0)
+	return -nvp.Prefactor*p*(math.Abs(xPow) + xPow)
 }
 
 // Evaluate can be registered as a function in any model
-- 
2.43.0


From 2184b839e7b517b536fe079cbfca64635969e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 46/73] fix: use the current field in the elastic energy term

---
 pf/homoLinElast.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index 02c90ae..bab3e6b 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -51,6 +51,16 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 		}
 
 		work := make([]complex128, h.N)
+		if b, ok := bricks[h.FieldName]; ok {
+			// Use the current value of the field (the bricks are fourier transformed)
+			for i := range work {
+				work[i] = b.Get(i)
+			}
+			h.FT.IFFT(work)
+			for i := range work {
+				h.Field[i] = real(work[i]) / float64(h.N)
+			}
+		}
 		for i := range work {
 			work[i] = complex(Indicator(h.Field[i]), 0.0)
 		}
-- 
2.43.0


From f5889069039577c6b53beb00144b5a2e377d7c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 47/73] fix: keep real fields real when using the elastic
 energy term

---
 pf/homoLinElast.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index bab3e6b..81a1c65 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -109,14 +109,15 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 }
 
 // Freq wraps the passed frequency method such that the length of the returned frequency
-// is always 3
+// is always 3. Components that are equal to the Nyquist frequency are set to zero, since the
+// first derivative of the Nyquist mode vanishes
 func (h *HomogeneousModulusLinElast) Freq(i int) []float64 {
-	if h.Dim == 3 {
-		return h.FT.Freq(i)
-	}
 	res := make([]float64, 3)
-	f := h.FT.Freq(i)
-	copy(res[:h.Dim], f)
+	for d, f := range h.FT.Freq(i) {
+		if !isNyquist(f) {
+			res[d] = f
+		}
+	}
 	return res
 }
 
-- 
2.43.0


From 3039b7b7391dec794884058b2a78441b5fd26c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:16 +0000
Subject: [PATCH 48/73] fix: document the order in which the conductivity
 components are used

---
 pf/chargeTransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..c20b4fb 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -32,7 +32,7 @@ import (
 // and r is the real space position vector. E_ext is the external electric field
 type ChargeTransport struct {
 	// Conductivity return the conductivity tensor at node i. If 3D
-	// the order should be s_xx, s_yy, s_zz, s_xz, s_yz, s_xy and if 2D
+	// the order should be s_xx, s_yy, s_zz, s_yz, s_xz, s_xy and if 2D
 	// it should be s_xx, s_yy, s_xy. The vacuum permittivity should be embeded
 	// in the conductivity. Thus, if the "normal" conductiviy in Ohm's law is
 	// labeled sigma, the current density is given by j = sigma*E, this function
-- 
2.43.0


From 64994f209231f04dc97f2a0e9fb926eb75dcdc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:32 +0000
Subject: [PATCH 49/73] fix: apply the dimer reflection of SDD to the space of
 all fields

Every field was driven by the force of the first field and reflected
separately with a non-unit part of the orientation, so searches with
several fields did not follow the dimer equations.
---
 pf/sdd.go | 51 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..02f1dee 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -195,41 +195,45 @@ func (sdd *SDD) Step(m *Model) {
 	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*l)
 	sdd.fft(m)
 
-	work := make([]complex128, m.NumNodes())
-
-	// Array that is used to track changes in the produced field
-	origField := make([]complex128, m.NumNodes())
+	// The dimer lives in the space spanned by all fields, thus the reflections are applied
+	// to vectors that contain all fields
+	work := make([]complex128, len(ftOrientation))
+	denums := make([]complex128, 0, len(ftOrientation))
+	newFields := make([]complex128, 0, len(ftOrientation))
 	sdd.Monitor.MaxForce = 0.0
 	sdd.Monitor.ForcePowerSpectrum = 0.0
 	cDt := complex(sdd.Dt, 0.0)
 
+	// Fill the work array with the weighted average of the forces
+	w1 := complex(sdd.Alpha, 0.0)
+	w2 := complex(1.0-sdd.Alpha, 0.0)
+	for j := range work {
+		work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+	}
+	sdd.householder(work, ftOrientation, 2.0, m.NumNodes())
 	for i := range m.Fields {
-		copy(origField, m.Fields[i].Data)
-		// Fill the work array with the weighted average of the field values
-		w1 := complex(sdd.Alpha, 0.0)
-		w2 := complex(1.0-sdd.Alpha, 0.0)
-		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
-		}
-		d := m.Fields[i].Data
-		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-		sdd.householder(work, activeFtOrient, 2.0, m.NumNodes())
+		denums = append(denums, m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())...)
+		newFields = append(newFields, m.Fields[i].Data...)
+	}
 
-		// Apply euler scheme
-		for j := range d {
-			d[j] = (d[j] + cDt*work[j])
-		}
-		work = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		dsm := sdd.householderDenum(work, activeFtOrient, 2.0)
-		dsm.dot(d)
+	// Apply euler scheme
+	for j := range newFields {
+		newFields[j] += cDt * work[j]
+	}
+	dsm := sdd.householderDenum(denums, ftOrientation, 2.0)
+	dsm.dot(newFields)
 
+	for i := range m.Fields {
+		d := m.Fields[i].Data
+		updated := newFields[i*m.NumNodes() : (i+1)*m.NumNodes()]
 		for j := range d {
-			diff := cmplx.Abs((d[j] - origField[j]) / cDt)
+			diff := cmplx.Abs((updated[j] - d[j]) / cDt)
 			sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(m.NumNodes())
 			if diff > sdd.Monitor.MaxForce {
 				sdd.Monitor.MaxForce = diff
 			}
 		}
+		copy(d, updated)
 	}
 
 	// Normalize power spectrum by <number of fields> * <number of nodes>
@@ -334,9 +338,10 @@ func (sdd *SDD) householderDenum(data []complex128, ftOrientation []complex128,
 	}
 
 	cSigma := complex(sigma, 0.0)
+	numNodes := complex(float64(pfutil.ProdInt(sdd.ft.Dimensions)), 0.0)
 	for i := range data {
 		dsm.invDiagonal[i] = 1.0 / (1.0 - cDt*data[i])
-		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(len(data)), 0.0)
+		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / numNodes
 	}
 	dsm.u = ftOrientation
 	return dsm
-- 
2.43.0


From 6c6cf3508fb5bd2da65dcf74909b9297ece63248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:19 +0000
Subject: [PATCH 50/73] fix: count planes with equal first and last Miller
 index once

---
 pfc/miller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/miller.go b/pfc/miller.go
index 0a7d334..e7d90d8 100644
--- a/pfc/miller.go
+++ b/pfc/miller.go
@@ -60,7 +60,7 @@ func NumEquivalent3D(miller Miller) int {
 	if abs(miller.K) == abs(miller.H) {
 		numEqual++
 	}
-	if abs(miller.L) == abs(miller.K) {
+	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {
 		numEqual++
 	}
 
-- 
2.43.0


From 6f6fa7ed600421dc0ecca21e602ef3a2d531072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 51/73] fix: transpose the change of the real space cell in
 CellChange

The reciprocal cell is 2*pi times the transposed inverse, its first order
change is therefore -M*dC^T*M/(2*pi).
---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 60962bd..2ddb2ec 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -47,7 +47,7 @@ func (rc *ReciprocalCell) HKLVector(miller Miller) []float64 {
 func (rc *ReciprocalCell) CellChange(realSpaceChange *mat.Dense) *mat.Dense {
 	r, c := realSpaceChange.Dims()
 	change := mat.NewDense(r, c, nil)
-	change.Product(rc.CellVec, realSpaceChange, rc.CellVec)
+	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
 	change.Scale(-1.0/(2.0*math.Pi), change)
 	return change
 }
-- 
2.43.0


From 964cd975ce0254be1481f69afa35c82c8cd7fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 52/73] fix: return a positive volume for left-handed cells

---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 2ddb2ec..30fbb85 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -17,7 +17,7 @@ type Cell struct {
 // Volume returns the volume of the cell. For 2D lattices this would
 // be the surface area
 func (c *Cell) Volume() float64 {
-	return mat.Det(c.CellVec)
+	return math.Abs(mat.Det(c.CellVec))
 }
 
 // ReciprocalCell is a type used to represent the reciprocal lattice. In underlying CellVec
-- 
2.43.0


From acef7c455cc1a61ba92e4a5fa70db46b553e1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 53/73] fix: allow elastic properties to be matched with a
 single mode

---
 pfc/mode_solver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pfc/mode_solver.go b/pfc/mode_solver.go
index 3010487..19980aa 100644
--- a/pfc/mode_solver.go
+++ b/pfc/mode_solver.go
@@ -435,7 +435,13 @@ func (ms *ModeSolver) MatchElasticProp(properties map[string]float64) ElasticPro
 		initX[i] = 1.0
 	}
 	initX[0] = 1.0
-	initX[1] = 0.01
+	if len(initX) > 1 {
+		initX[1] = 0.01
+	} else {
+		// The first step has unit length, make sure that it does not end in the
+		// stationary point at zero
+		initX[0] = 0.3
+	}
 	optRes, _ := optimize.Minimize(problem, initX, nil, nil)
 
 	fitRes := ElasticPropResult{
-- 
2.43.0


From 1eddf3031a805fca8f1f33cd29faf48fbcc460f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 54/73] fix: leave the concentration passed to TwoPhaseCorrFunc
 unchanged

---
 pfc/twoPhaseCorrFunc.go | 150 ++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 74 deletions(-)

diff --git a/pfc/twoPhaseCorrFunc.go b/pfc/twoPhaseCorrFunc.go
index 8a90840..1b03a40 100644
--- a/pfc/twoPhaseCorrFunc.go
+++ b/pfc/twoPhaseCorrFunc.go
@@ -1,75 +1,77 @@
-package pfc
-
-import (
-	"math"
-	"github.com/davidkleiven/gopf/pfutil"
-)
-
-// 3*x^2 - 2x^3
-func Indicator(x float64) float64 {
-	if x < 0.0 {
-		return 0.0
-	} else if x > 1{
-		return 1.0
-	} 
-	return 3 * x * x - 2 * x * x * x
-}
-
-func IndicatorDeriv(x float64) float64 {
-	if x < 0.0 || x > 1.0 {
-		return 0.0
-	}
-	return 6 * x - 6 * x * x
-}
-
-type TwoPhaseCorrFunc struct {
-	CorrFunc []ReciprocalSpacePairCorrelation
-}
-
-func Dot(x []float64, y []float64) float64 {
-	res := 0.0
-	for i := range x {
-		res += x[i]*y[i]
-	}
-	return res
-}
-
-func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	if len(tpcf.CorrFunc) != 2 {
-		panic("Length of CorrFunc must be 2\n")
-	}
-
-	// Calcualte real space correlation functions
-	corrFunc1FT := make([]complex128, len(cFT))
-	corrFunc2FT := make([]complex128, len(cFT))
-	twoPi := 2.0*math.Pi
-	for i := range corrFunc1FT {
-		freq := fft.Freq(i)
-		k := twoPi*math.Sqrt(Dot(freq, freq))
-		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
-		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
-	}
-
-	corrFunc1 := fft.IFFT(corrFunc1FT)
-	corrFunc2 := fft.IFFT(corrFunc2FT)
-	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
-	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
-
-	// Calculate real space concentration
-	conc := fft.IFFT(cFT)
-	pfutil.DivRealScalar(conc, float64(len(conc)))
-	
-	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
-	C_eff := corrFunc1FT // Overwrite corrFunc1FT
-	for i := range C_eff {
-		x := real(conc[i])
-		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
-	}
-	return C_eff
-}
-
-func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	Ceff := tpcf.Evaluate(cFT, fft)
-	fft.FFT(Ceff)
-	return Ceff
+package pfc
+
+import (
+	"math"
+	"github.com/davidkleiven/gopf/pfutil"
+)
+
+// 3*x^2 - 2x^3
+func Indicator(x float64) float64 {
+	if x < 0.0 {
+		return 0.0
+	} else if x > 1{
+		return 1.0
+	} 
+	return 3 * x * x - 2 * x * x * x
+}
+
+func IndicatorDeriv(x float64) float64 {
+	if x < 0.0 || x > 1.0 {
+		return 0.0
+	}
+	return 6 * x - 6 * x * x
+}
+
+type TwoPhaseCorrFunc struct {
+	CorrFunc []ReciprocalSpacePairCorrelation
+}
+
+func Dot(x []float64, y []float64) float64 {
+	res := 0.0
+	for i := range x {
+		res += x[i]*y[i]
+	}
+	return res
+}
+
+func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	if len(tpcf.CorrFunc) != 2 {
+		panic("Length of CorrFunc must be 2\n")
+	}
+
+	// Calcualte real space correlation functions
+	corrFunc1FT := make([]complex128, len(cFT))
+	corrFunc2FT := make([]complex128, len(cFT))
+	twoPi := 2.0*math.Pi
+	for i := range corrFunc1FT {
+		freq := fft.Freq(i)
+		k := twoPi*math.Sqrt(Dot(freq, freq))
+		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
+		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
+	}
+
+	corrFunc1 := fft.IFFT(corrFunc1FT)
+	corrFunc2 := fft.IFFT(corrFunc2FT)
+	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
+	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
+
+	// Calculate real space concentration
+	conc := make([]complex128, len(cFT))
+	copy(conc, cFT)
+	fft.IFFT(conc)
+	pfutil.DivRealScalar(conc, float64(len(conc)))
+	
+	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
+	C_eff := corrFunc1FT // Overwrite corrFunc1FT
+	for i := range C_eff {
+		x := real(conc[i])
+		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
+	}
+	return C_eff
+}
+
+func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	Ceff := tpcf.Evaluate(cFT, fft)
+	fft.FFT(Ceff)
+	return Ceff
 }
\ No newline at end of file
-- 
2.43.0


From 598119a652d5b18dca5786dd3a7f5f22f2163639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 55/73] fix: make all atoms of a crystal equal

Nodes outside of the domain were rounded towards zero, so atoms at the lower
boundaries differed from the others, and CircleKernel was not zero beyond its
cutoff.
---
 pfc/periodicFieldInit.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pfc/periodicFieldInit.go b/pfc/periodicFieldInit.go
index c6d02e5..82ff4aa 100644
--- a/pfc/periodicFieldInit.go
+++ b/pfc/periodicFieldInit.go
@@ -99,14 +99,14 @@ type CircleKernel struct {
 	Radius float64
 }
 
-// Cutoff returns the width of the square
+// Cutoff returns the radius of the circle
 func (ck *CircleKernel) Cutoff() float64 {
 	return ck.Radius
 }
 
-// Eval return 1 if -width/2 <= x < width/2, and zero otherwise
+// Eval return 1 if 0 <= x < radius, and zero otherwise
 func (ck *CircleKernel) Eval(x float64) float64 {
-	if x >= 0.0 && x < ck.Radius+1.0 {
+	if x >= 0.0 && x < ck.Radius {
 		return 1.0
 	}
 	return 0.0
@@ -173,7 +173,7 @@ func BuildCrystal(ucell UnitCell, kernel AtomicKernel, grid *pfutil.Grid) {
 				distSq := 0.0
 				for k := 0; k < dims; k++ {
 					delta := float64(pos[k]) - cutoff + 0.5
-					shiftedPos[k] = int(delta + origin.AtVec(k) + eucledianPos.At(k, j))
+					shiftedPos[k] = int(math.Floor(delta + origin.AtVec(k) + eucledianPos.At(k, j)))
 					distSq += math.Pow(delta, 2)
 				}
 				pfutil.Wrap(shiftedPos, grid.Dims)
-- 
2.43.0


From 2ef7e46b5e445a7b64a99b26ab3627f50b5ef6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:22 +0000
Subject: [PATCH 56/73] fix: elastic tensor of a cubic material lacks the minor
 symmetries of the shear entries

---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..8a5b2d3 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -122,6 +122,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 
 			tensor.Set(i, j, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 		}
 	}
 	return tensor
-- 
2.43.0


From 211a60979d9d3873c6dc1ae6350393742b989769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:22 +0000
Subject: [PATCH 57/73] fix: force of a perturbed modulus uses the wrong wave
 vector component

---
 elasticity/perturbation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..b21145c 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -54,8 +54,8 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			for k := range force {
 				f := ft.Freq(k)
 				for comp := 0; comp < dim; comp++ {
-					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+					for q := 0; q < dim; q++ {
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From f2019107873d7ad6afb0d10465734dcc207b2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:22 +0000
Subject: [PATCH 58/73] fix: strain energy of ellipsoids swaps the first two
 axes of the misfit

---
 elasticity/strainEnergyCLI.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elasticity/strainEnergyCLI.go b/elasticity/strainEnergyCLI.go
index 25cbbcf..eb8f3b8 100644
--- a/elasticity/strainEnergyCLI.go
+++ b/elasticity/strainEnergyCLI.go
@@ -3,6 +3,7 @@ package elasticity
 import (
 	"math"
 
+	"github.com/davidkleiven/gopf/pfutil"
 	"github.com/davidkleiven/gosfft/sfft"
 	"gonum.org/v1/gonum/mat"
 )
@@ -52,7 +53,7 @@ func CalculateStrainEnergy(params StrainEnergyInput) float64 {
 		}
 	}
 
-	ft := sfft.NewFFT3(params.DomainSize, params.DomainSize, params.DomainSize)
+	ft := pfutil.NewFFTW([]int{params.DomainSize, params.DomainSize, params.DomainSize})
 	ft.FFT(indicator.Data)
 	force := make([][]complex128, params.DomainSize*params.DomainSize*params.DomainSize)
 	for k := range force {
-- 
2.43.0


From 0eeb55597a08bbffc2f669d3c89179bcd4bf9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:22 +0000
Subject: [PATCH 59/73] fix: elastic energy command ignores malformed input
 files

---
 cmd/energy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/energy.go b/cmd/energy.go
index 0cb9798..b04194c 100644
--- a/cmd/energy.go
+++ b/cmd/energy.go
@@ -35,7 +35,9 @@ passed via a JSON file. See gopf elast templatate for further information.
 		}
 
 		var params elasticity.StrainEnergyInput
-		json.Unmarshal(byteValue, &params)
+		if err := json.Unmarshal(byteValue, &params); err != nil {
+			log.Fatalf("%s\n", err)
+		}
 		energy := elasticity.CalculateStrainEnergy(params)
 		log.Printf("Elastic energy per volume inclusion: %f\n", energy)
 	},
-- 
2.43.0


From 5b33c9cac20e43a76e35288c63df9c4a893599c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 60/73] fix: advection terms with different velocities share
 one derived field

---
 pf/advection.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 0a588a1..d1c20f9 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -27,12 +27,8 @@ func (ad *Advection) GradName(comp int) string {
 // GetName returns the name of the brick corresponding to
 // vDotGradField
 func (ad *Advection) GetName() string {
-	name := ""
-	for _, vel := range ad.VelocityFields {
-		name += vel
-	}
-	name += "Dot" + "Grad" + ad.Field
-	return name
+	// Quote the names, such that different velocities never result in the same name
+	return fmt.Sprintf("%qDotGrad%s", ad.VelocityFields, ad.Field)
 }
 
 // AllFieldsExist returns true if all the fields are registered in the model
-- 
2.43.0


From 619334061b82aa9172842c2663680dfce7a4771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:35 +0000
Subject: [PATCH 61/73] fix: attr command attributes NaN to the value and
 simulation of the row before

---
 cmd/attr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index ffe2fbc..fd3d8d2 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -126,14 +126,14 @@ func listAttributes(db *sql.DB, simulationID int) {
 
 	// Go through the float attributes
 	var key string
-	var value float64
+	var value sql.NullFloat64 // NaN is stored as NULL
 	var simID int
 	for rows.Next() {
 		rows.Scan(&key, &value, &simID)
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
-		kvp[simID][key] = fmt.Sprintf("%f", value)
+		kvp[simID][key] = fmt.Sprintf("%f", floatOrNaN(value))
 		header[key] = true
 	}
 
@@ -206,11 +206,11 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		return
 	}
 
-	var value float64
+	var value sql.NullFloat64 // NaN is stored as NULL
 	var simID int
 	for rows.Next() {
 		rows.Scan(&value, &simID)
-		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
+		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, floatOrNaN(value))
 	}
 
 	if simulationID > 0 {
-- 
2.43.0


From d64349fe4b91b5c581e49782516b037116f6ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:35 +0000
Subject: [PATCH 62/73] fix: nodes without a stored value are exported as zero

---
 cmd/export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index 155f6d4..5a11056 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -263,7 +263,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 			record[j] = fmt.Sprintf("%d", v)
 		}
 		for j, k := range keys {
-			record[3+j] = fmt.Sprintf("%f", item[k])
+			value, ok := item[k]
+			if !ok {
+				value = math.NaN()
+			}
+			record[3+j] = fmt.Sprintf("%f", value)
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From 7aa2158e647cce4cd1a302583160afd1ef13d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:35 +0000
Subject: [PATCH 63/73] fix: contour command fails for fields with the same
 value at all nodes

---
 cmd/contour.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/contour.go b/cmd/contour.go
index 9161096..75b451b 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -20,6 +20,7 @@ import (
 	"image"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -79,6 +80,10 @@ will be selected.
 		data := NewHeatMapData(rows)
 		colormap := moreland.Kindlmann()
 		rng := max - min
+		if rng == 0.0 {
+			// The colormap requires a finite range
+			rng = math.Max(1.0, math.Abs(max))
+		}
 		colormap.SetMin(min - 0.05*rng)
 		colormap.SetMax(max + 0.05*rng)
 
-- 
2.43.0


From c2897096c85fade90a902f8ddac7d922c1d871e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:35 +0000
Subject: [PATCH 64/73] fix: density of planes with indices beyond zero and one

---
 pfc/lattice.go | 56 +++++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 30fbb85..c39c0e2 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -2,10 +2,8 @@ package pfc
 
 import (
 	"math"
-	"sort"
 
 	"gonum.org/v1/gonum/mat"
-	"gonum.org/v1/gonum/spatial/r3"
 )
 
 // Cell is a type used to represent a unit cell. In the underlying CellVec
@@ -163,43 +161,27 @@ func Triangular2D(a float64) Cell {
 // CubicUnitCellDensity returns the density of a plane when the underlying
 // Bravais lattice is cubic.
 func CubicUnitCellDensity(miller Miller) float64 {
-	millerArray := make([]int, 3)
-	millerArray[0] = miller.At(0)
-	millerArray[1] = miller.At(1)
-	millerArray[2] = miller.At(2)
-	sort.Ints(millerArray)
-
-	if millerArray[0] == 0 && millerArray[1] == 0 {
-		return 1.0
+	// Remove common factors such that the indices are those of a lattice plane
+	divisor := 0
+	for i := 0; i < 3; i++ {
+		divisor = gcd(divisor, abs(miller.At(i)))
 	}
-	v1 := r3.Vec{}
-	v2 := r3.Vec{}
-	v3 := r3.Vec{}
-
-	if millerArray[0] == 1 {
-		v1.X = 1.0
-		v2.Y = 1.0 / float64(millerArray[1])
-		v3.Z = 1.0 / float64(millerArray[2])
-		v3 = v3.Sub(v1) // v3 --> v3 - v1
-		v2 = v2.Sub(v1) // v2 --> v2 - v1
-	} else if millerArray[0] == 0 {
-		v2.Y = 1.0 / float64(millerArray[1])
-		v3.Z = 1.0 / float64(millerArray[2])
-		v3 = v3.Sub(v2)
-		v2.Y = 0.0
-		v2.X = 1.0
-	} else {
-		panic("The smallest Miller index has to be 0 or 1")
+	if divisor == 0 {
+		return 1.0
 	}
+	h := float64(miller.H / divisor)
+	k := float64(miller.K / divisor)
+	l := float64(miller.L / divisor)
 
-	// TODO: v0.7 of gonum does not include Cross, but it is included in development version
-	// Use the line below after next release of gonum
-	// cross := v1.Cross(v2)
-	cross := r3.Vec{
-		X: v3.Y*v2.Z - v3.Z*v2.Y,
-		Y: v3.Z*v2.X - v3.X*v2.Z,
-		Z: v3.X*v2.Y - v3.Y*v2.X,
-	}
-	area := math.Sqrt(cross.X*cross.X + cross.Y*cross.Y + cross.Z*cross.Z)
+	// Area of the primitive cell in the plane
+	area := math.Sqrt(h*h + k*k + l*l)
 	return 1.0 / area
 }
+
+// gcd returns the greatest common divisor of two non-negative integers
+func gcd(a, b int) int {
+	for b != 0 {
+		a, b = b, a%b
+	}
+	return a
+}
-- 
2.43.0


From 63a46c7e9e182c9b6a09ff87733e29e815a622ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 65/73] fix: implicit scheme inaccurate for weak linear terms
 and small time steps

---
 pf/implicitEuler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/implicitEuler.go b/pf/implicitEuler.go
index 1a698b3..151531b 100644
--- a/pf/implicitEuler.go
+++ b/pf/implicitEuler.go
@@ -155,7 +155,7 @@ func (ie *ImplicitEuler) nonlinearIntegral(denum complex128, rhs complex128, rhs
 	b := (rhs - rhsPrev) / cDt
 	f := cmplx.Exp(denum * cDt)
 
-	if cmplx.Abs(denum) < tol {
+	if cmplx.Abs(denum*cDt) < tol {
 		return 0.5 * cDt * (rhs + rhsPrev*f)
 	}
 	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)
-- 
2.43.0


From 05c50f9c6dd7aeda40602120f9bfcfd0b78c36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 66/73] fix: implicit check misses dependence on differences of
 fields

All fields and nodes were perturbed by the same amount, so a term that depends
on the difference between two fields, or between two nodes of one field, was
accepted as an implicit term.
---
 pf/userDefinedTerm.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index af1e615..5e644ac 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -80,10 +80,12 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	// Construct a set of fields that changes the fields
 	tmpBricks := make(map[string]Brick)
 	for k, brick := range bricks {
+		// Each field has its own perturbation, such that the changes of two fields
+		// do not cancel each other
 		tmpBricks[k] = &perturbedBrick{
 			name:         k,
 			parentBrick:  brick,
-			perturbation: complex(0.2, 0.0),
+			perturbation: complex(0.2+0.17*float64(len(tmpBricks)), 0.0),
 		}
 	}
 	func1 := t.Construct(bricks)
@@ -105,5 +107,7 @@ type perturbedBrick struct {
 }
 
 func (pb *perturbedBrick) Get(i int) complex128 {
-	return pb.parentBrick.Get(i) + pb.perturbation
+	// The perturbation varies from node to node, otherwise terms that depend on
+	// differences between nodes would not be affected by it
+	return pb.parentBrick.Get(i) + pb.perturbation*complex(1.0+1.0/float64(i+1), 0.0)
 }
-- 
2.43.0


From 9456d76bf5647f901e5c17073fd729db6a31737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 67/73] fix: implicit terms may depend on scalars

Scalars are constants, but they were perturbed together with the fields when the
implicit terms are validated. A linear term with a coefficient given by a scalar
was therefore rejected.
---
 pf/userDefinedTerm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index 5e644ac..dc6db86 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -80,6 +80,11 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	// Construct a set of fields that changes the fields
 	tmpBricks := make(map[string]Brick)
 	for k, brick := range bricks {
+		if _, isScalar := brick.(*Scalar); isScalar {
+			// Scalars are constants
+			tmpBricks[k] = brick
+			continue
+		}
 		// Each field has its own perturbation, such that the changes of two fields
 		// do not cancel each other
 		tmpBricks[k] = &perturbedBrick{
-- 
2.43.0


From 0bc56a3cfadc4d71f1961c842ce58d70c5ea7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 68/73] fix: implicit check only looks at one frequency and at
 time zero

---
 pf/model.go           |  6 +++---
 pf/userDefinedTerm.go | 23 ++++++++++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 1f4105e..6f8d9a7 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -256,13 +256,13 @@ func (m *Model) Init() {
 	m.SyncDerivedFields()
 
 	// Validate all implicit terms
-	testFreq := []float64{0.4, 0.4}
+	dim := 2
 	if m.dim == 3 {
-		testFreq = append(testFreq, 0.4)
+		dim = 3
 	}
 	for k, v := range m.ImplicitTerms {
 		if !isImplicit(v, m.Bricks, m.NumNodes(), func(i int) []float64 {
-			return append([]float64{}, testFreq...)
+			return testFrequency(i, dim)
 		}) {
 			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)
 			panic(msg)
diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index dc6db86..6e518fe 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -1,6 +1,10 @@
 package pf
 
-import "github.com/davidkleiven/gopf/pfutil"
+import (
+	"math"
+
+	"github.com/davidkleiven/gopf/pfutil"
+)
 
 // PureTerm is an interface that can be used to add
 // special terms to a PDE that cannot easily be defined via a string
@@ -98,11 +102,24 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	array1 := make([]complex128, N)
 	array2 := make([]complex128, N)
 
-	func1(freq, 0.0, array1)
-	func2(freq, 0.0, array2)
+	time := 0.7
+	func1(freq, time, array1)
+	func2(freq, time, array2)
 	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)
 }
 
+// testFrequency returns the frequency at node i used to test implicit terms. It differs
+// for all nodes and directions, such that the terms do not vanish because of a symmetry
+func testFrequency(i int, dim int) []float64 {
+	irrational := []float64{math.Sqrt2, math.SqrtPhi, math.E}
+	f := make([]float64, dim)
+	for d := range f {
+		_, frac := math.Modf(float64(i+1) * irrational[d])
+		f[d] = frac - 0.5
+	}
+	return f
+}
+
 // perturbedBrick is a helper structure used to test implicit terms when
 // the underlying fields are perturbed
 type perturbedBrick struct {
-- 
2.43.0


From ccd1834c279fef3b266b57062e3f29a1502f5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:02 +0000
Subject: [PATCH 69/73] fix: Read csv files with spaces after the commas, which
 is the documented layout

---
 cmd/contour.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/contour.go b/cmd/contour.go
index 75b451b..5d4f31e 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -237,6 +237,7 @@ func readData(fname string, column string) []DataRow {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
@@ -311,6 +312,7 @@ func readHeader(fname string) []string {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
-- 
2.43.0


From c6b41d9dfe78dce8b15da343fafd783614ea98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 70/73] fix: refuse models where an equation would evolve the
 field of another equation or is ignored

---
 pf/model.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pf/model.go b/pf/model.go
index 6f8d9a7..765c8ff 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -253,6 +253,7 @@ func (m *Model) Init() {
 	for _, eq := range m.Equations {
 		m.RHS = append(m.RHS, Build(eq, m))
 	}
+	m.panicOnAmbiguousEquations()
 	m.SyncDerivedFields()
 
 	// Validate all implicit terms
@@ -303,6 +304,22 @@ func (m *Model) eqNumberFromField(fieldNo int) int {
 	return fieldNo
 }
 
+// panicOnAmbiguousEquations panics if there are two equations for one field, or if the equation of
+// one field would be used for another field that has none
+func (m *Model) panicOnAmbiguousEquations() {
+	for i, eq := range m.Equations {
+		name := fieldNameFromLeibniz(strings.Split(eq, "=")[0])
+		if !m.IsFieldName(name) {
+			continue
+		}
+		for j, f := range m.Fields {
+			if (f.Name == name) != (m.eqNumberFromField(j) == i) {
+				panic(fmt.Sprintf("Model: Equation %s can not be used for field %s", eq, f.Name))
+			}
+		}
+	}
+}
+
 // GetRHS evaluates the right hand side of one of the equations
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
-- 
2.43.0


From e31c6454d55440db9d4331275706d0b08a07886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 71/73] fix: build the crystal of any cell that is commensurate
 with the domain without losing sites

---
 pfc/periodicFieldInit.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pfc/periodicFieldInit.go b/pfc/periodicFieldInit.go
index 82ff4aa..295ce20 100644
--- a/pfc/periodicFieldInit.go
+++ b/pfc/periodicFieldInit.go
@@ -64,12 +64,25 @@ func CornersScaledCrd(cell Cell, domainSize []int) *mat.Dense {
 	return cornerLoc
 }
 
+// tolerance is used when positions and scaled coordinates are compared
+const tolerance = 1e-6
+
+// isCommensurate returns true if all the passed scaled coordinates are integers
+func isCommensurate(scaledCrd *mat.Dense) bool {
+	for _, x := range scaledCrd.RawMatrix().Data {
+		if math.Abs(x-math.Round(x)) > tolerance {
+			return false
+		}
+	}
+	return true
+}
+
 // isInsideBox returns true if a point is inside the box specified by domainSize
 // (e.g. 0 <= point.AtVec(i) && point.AtVec(i) + threshold < domainSize[i]) where
 // i is 0, 1 (and 2 if 3D)
 func isInsideBox(point *mat.VecDense, domainSize []int, threshold float64) bool {
 	for i := range domainSize {
-		if (point.AtVec(i) < 0.0) || (point.AtVec(i)+threshold > float64(domainSize[i])) {
+		if (point.AtVec(i) < -tolerance) || (point.AtVec(i)+threshold > float64(domainSize[i])) {
 			return false
 		}
 	}
@@ -139,7 +152,7 @@ func BuildCrystal(ucell UnitCell, kernel AtomicKernel, grid *pfutil.Grid) {
 	end := make([]int, dims)
 	rng := maxval - minval
 	for i := range end {
-		end[i] = int(rng) + 1
+		end[i] = int(rng+tolerance) + 1
 	}
 	prod := pfutil.NewProduct(end)
 	origin := mat.NewVecDense(dims, nil)
@@ -154,7 +167,14 @@ func BuildCrystal(ucell UnitCell, kernel AtomicKernel, grid *pfutil.Grid) {
 
 	shiftedPos := make([]int, dims)
 	vol := ucell.Cell.Volume()
+
+	// Sites close to the upper boundaries may come too close to the periodic images of those at the
+	// lower boundaries. If the domain is commensurate with the cell, only the images of the sites at the
+	// lower boundaries themselves have to be left out.
 	L := math.Pow(vol, 1.0/3.0) / 2.0
+	if isCommensurate(corners) {
+		L = tolerance
+	}
 
 	for idx := prod.Next(); idx != nil; idx = prod.Next() {
 		for i := range idx {
-- 
2.43.0


From 6e40933405061899421de28fae34979899fdbb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 72/73] fix: describe the time axis of the xdmf file by its
 start, stride and number of steps

---
 pf/xdmf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 0eaa1ab..1c65919 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -117,11 +117,12 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		},
 	}
 
-	timeStr := ""
-	for i := 0; i < num; i++ {
-		timeStr += fmt.Sprintf("%f ", float64(i)/float64(num))
+	// A hyperslab is given by the start, the stride and the number of steps
+	stride := 1.0
+	if num > 0 {
+		stride = 1.0 / float64(num)
 	}
-	timeStr += fmt.Sprintf("%d", num)
+	timeStr := fmt.Sprintf("%f %g %d", 0.0, stride, num)
 
 	xdmf.Domain.Grid = XDMFGrid{
 		Name:           "TimeSeries",
@@ -129,7 +130,7 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		CollectionType: "Temporal",
 		Grids:          make([]XDMFGrid, num),
 		Time: &XDMFTime{Type: "HyperSlab",
-			DataItem: XDMFDataItem{Format: "XML", NumberType: "Float", Dimensions: fmt.Sprintf("%d", dim), Value: timeStr},
+			DataItem: XDMFDataItem{Format: "XML", NumberType: "Float", Dimensions: "3", Value: timeStr},
 		},
 	}
 
-- 
2.43.0


From 974dec97377b5e27cbfa9a5df3335992a6690469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 73/73] fix: store the maximum of every field as 255 in byte
 files

---
 pf/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/util.go b/pf/util.go
index 8f8cd04..4dffd16 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -138,7 +138,7 @@ func RealPartAsUint8(data []complex128, min float64, max float64) []uint8 {
 		max = min + 1.0
 	}
 	for i := range data {
-		res[i] = uint8(255 * (real(data[i]) - min) / (max - min))
+		res[i] = uint8(255 * ((real(data[i]) - min) / (max - min)))
 	}
 	return res
 }
-- 
2.43.0

