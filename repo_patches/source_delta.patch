From dadecd8ddd2637a57b069ad43eb32c5322e10c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 01/38] fix: plan 3D transforms in the layout of the node
 numbering

---
 pfutil/fftWrap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..783c010 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,15 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+	// FFTW expects the dimensions in row-major order (last dimension varies fastest),
+	// while the nodes in 3D are ordered such that the third dimension varies slowest
+	// (see NodeIdx)
+	planDim := n
+	if len(n) == 3 {
+		planDim = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(planDim, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(planDim, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From bb9b2a3aa2da95d245c973199418e3f2897460e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:23 +0000
Subject: [PATCH 02/38] fix: start every node from a clean position when
 drawing on 2D grids

---
 pfutil/shapes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfutil/shapes.go b/pfutil/shapes.go
index d916d33..3487d64 100644
--- a/pfutil/shapes.go
+++ b/pfutil/shapes.go
@@ -107,6 +107,9 @@ func Draw(shape Shape, grid *Grid, transformation *Affine, value float64) {
 	floatPos := make([]float64, 3)
 	for i := range grid.Data {
 		pos := grid.Pos(i)
+		for j := range floatPos {
+			floatPos[j] = 0.0
+		}
 		for j := range pos {
 			floatPos[j] = float64(pos[j])
 		}
-- 
2.43.0


From 8adf8c523909e3327a40735feced5bcb34ed63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:24 +0000
Subject: [PATCH 03/38] fix: match whole factors when the text of an equation
 is parsed

---
 pf/rhsBuilder.go | 92 +++++++++++++++++++++++++++---------------------
 pf/util.go       |  8 ++---
 2 files changed, 55 insertions(+), 45 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..94ebd10 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -6,7 +6,6 @@ import (
 	"math"
 	"math/cmplx"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -44,7 +43,7 @@ func Build(eq string, m *Model) RHS {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
 			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
-			t.SubString = strings.Replace(t.SubString, field, "", -1)
+			t.SubString = removeField(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
@@ -65,44 +64,53 @@ func fieldNameFromLeibniz(leibniz string) string {
 	return leibniz[1 : len(leibniz)-3]
 }
 
+// lapOperator matches a Laplacian operator (with an optional power) in front of a factor
+var lapOperator = regexp.MustCompile("^LAP(\\^\\d+\\.?\\d*)?")
+
+// splitFactor splits a factor into a leading Laplacian operator (if any), and the
+// name and the power of the quantity that follows
+func splitFactor(factor string) (string, string, string) {
+	lap := lapOperator.FindString(factor)
+	name := factor[len(lap):]
+	power := ""
+	if i := strings.Index(name, "^"); i != -1 {
+		name, power = name[:i], name[i:]
+	}
+	return lap, name, power
+}
+
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
-	fieldReg := regexp.MustCompile(field)
-	resCount := fieldReg.FindAllStringIndex(term, -1)
-	if len(resCount) != 1 {
+	if strings.Count(term, field) != 1 {
 		return false
 	}
 
 	// Check if any of ther other fields are present. In that case, the term
 	// will not be linear in the fourier domain
 	for _, f := range fieldNames {
-		if f == field {
-			continue
-		}
-		r := regexp.MustCompile(f)
-		count := r.FindAllStringIndex(term, -1)
-		if len(count) > 0 {
+		if f != field && strings.Contains(term, f) {
 			return false
 		}
 	}
 
-	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
-	res := regIncludingPowers.FindString(term)
-
-	// Extract an power (if exists) (the number after ^)
-	regPower := regexp.MustCompile("\\^(-?\\d+\\.?\\d*)")
-	strPower := regPower.FindStringSubmatch(res)
-	if len(strPower) <= 1 {
-		return true
+	// The field has to be a factor on its own, with a power of one
+	for _, factor := range strings.Split(term, "*") {
+		if _, name, power := splitFactor(factor); name == field {
+			return math.Abs(GetPower(power)-1.0) < 1e-10
+		}
 	}
-	power, err := strconv.ParseFloat(strPower[1], 64)
+	return false
+}
 
-	if err != nil || math.Abs(power-1.0) < 1e-10 {
-		// No power or equal to 1
-		return true
+// removeField removes the passed field from a term
+func removeField(term string, field string) string {
+	factors := strings.Split(term, "*")
+	for i := range factors {
+		if lap, name, _ := splitFactor(factors[i]); name == field {
+			factors[i] = lap
+		}
 	}
-	return false
+	return strings.Join(factors, "*")
 }
 
 // ValidName returns true if the parser knows how to parse it
@@ -115,9 +123,7 @@ func ValidName(name string, model *Model) bool {
 		}
 	}
 
-	if nameStripped[:3] == "LAP" {
-		nameStripped = nameStripped[3:]
-	}
+	nameStripped = strings.TrimPrefix(nameStripped, "LAP")
 	return model.IsBrickName(nameStripped) || model.IsFieldName(nameStripped)
 }
 
@@ -129,32 +135,36 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		sign = -1.0
 	}
 
-	fieldReg := regexp.MustCompile("[^\\*]*")
-	res := fieldReg.FindAllStringSubmatch(term, -1)
-
 	brickNames := []string{}
 	powers := []float64{}
+	fieldFactors := []string{}
+	lap := LaplacianN{}
 
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
-	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
+	for _, factor := range strings.Split(term, "*") {
+		op, name, power := splitFactor(factor)
+		if op != "" {
+			lap.Power += int(GetPower(op))
+		}
 
-		if !m.IsFieldName(name) && m.IsBrickName(name) {
+		if m.IsFieldName(name) {
+			fieldFactors = append(fieldFactors, name+power)
+		} else if m.IsBrickName(name) {
 			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
+			powers = append(powers, GetPower(power))
 		} else if !ValidName(name, m) {
 			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
 			panic(msg)
 		}
 	}
 
-	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
+	fieldName := SortFactors(strings.Join(fieldFactors, "*"))
+	if fieldName != "" && !m.IsFieldName(fieldName) {
+		msg := fmt.Sprintf("rhsBuilder: There is no field for the product %s", fieldName)
+		panic(msg)
+	}
 
-	if strings.Contains(term, "LAP") {
+	if lap.Power > 0 {
 		// Term with Laplace operator
-		lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
-		res := lapWithPowReg.FindString(term)
-		lap := LaplacianN{Power: int(GetPower(res))}
 		return func(freq Frequency, t float64, field []complex128) {
 			for i := range field {
 				field[i] = complex(sign, 0.0)
diff --git a/pf/util.go b/pf/util.go
index 20af17b..12f81cd 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -20,10 +20,10 @@ func GetNonLinearFieldExpressions(pattern string, field string, fieldNames []str
 		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
 			continue
 		}
-		regField := regexp.MustCompile(fieldNames[i] + "[^\\*]*")
-		res := regField.FindString(pattern)
-		if res != "" {
-			expr += res + "*"
+		for _, factor := range strings.Split(pattern, "*") {
+			if _, name, power := splitFactor(factor); name == fieldNames[i] {
+				expr += name + power + "*"
+			}
 		}
 	}
 
-- 
2.43.0


From 1908fcfda6c0af148f294ad8844bf2516486e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:50 +0000
Subject: [PATCH 04/38] fix: evaluate all equations before an Euler step
 updates the fields

---
 pf/euler.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..c7bc838 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -24,13 +24,19 @@ func (eu *Euler) Step(m *Model) {
 	}
 
 	t := eu.GetTime()
+	// Evaluate all equations at the current state, before any of the fields is updated
+	rhs := make([][]complex128, len(m.Fields))
+	denum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
+		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])
+			d[j] = (d[j] + cDt*rhs[i][j]) / (complex(1.0, 0.0) - cDt*denum[i][j])
 		}
 
 		if eu.Filter != nil {
-- 
2.43.0


From d225b5c1d34e27eba0cdc63ad225aa0cf4d348eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:50 +0000
Subject: [PATCH 05/38] fix: advance the clock in every RK4 step and evaluate
 the stages at their own time

---
 pf/rk4.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -122,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From 06b039a7f4607b441c4413ece981f618dc126818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:50 +0000
Subject: [PATCH 06/38] fix: bind every derived field of a term to its own data

---
 pf/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pf/model.go b/pf/model.go
index 140d220..0b39a56 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -336,6 +336,7 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
 		for _, f := range dFields {
+			f := f // The model keeps a pointer to the field
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From 97f04489249dabc28e8a83e5f7ff7c579061de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:50 +0000
Subject: [PATCH 07/38] fix: let SetFloat change the scalar

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 0b39a56..547eb5e 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -98,7 +98,7 @@ func NewScalar(name string, value complex128) Scalar {
 }
 
 // SetFloat sets a new value
-func (s Scalar) SetFloat(v float64) {
+func (s *Scalar) SetFloat(v float64) {
 	s.Value = complex(v, 0.0)
 }
 
-- 
2.43.0


From 67482dc8a6a97d891a4b78a978dd15273ea95093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 08/38] fix: reflect the force of all fields along the whole
 dimer

---
 pf/sdd.go | 60 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..548cafe 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -195,42 +195,47 @@ func (sdd *SDD) Step(m *Model) {
 	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*l)
 	sdd.fft(m)
 
-	work := make([]complex128, m.NumNodes())
+	work := make([]complex128, len(ftOrientation))
+	denumAll := make([]complex128, len(ftOrientation))
+	d := make([]complex128, len(ftOrientation))
 
 	// Array that is used to track changes in the produced field
-	origField := make([]complex128, m.NumNodes())
+	origField := make([]complex128, len(ftOrientation))
 	sdd.Monitor.MaxForce = 0.0
 	sdd.Monitor.ForcePowerSpectrum = 0.0
 	cDt := complex(sdd.Dt, 0.0)
 
 	for i := range m.Fields {
-		copy(origField, m.Fields[i].Data)
-		// Fill the work array with the weighted average of the field values
-		w1 := complex(sdd.Alpha, 0.0)
-		w2 := complex(1.0-sdd.Alpha, 0.0)
-		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
-		}
-		d := m.Fields[i].Data
-		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-		sdd.householder(work, activeFtOrient, 2.0, m.NumNodes())
+		copy(d[i*m.NumNodes():], m.Fields[i].Data)
+		copy(denumAll[i*m.NumNodes():], m.GetDenum(i, sdd.ft.Freq, sdd.GetTime()))
+	}
+	copy(origField, d)
 
-		// Apply euler scheme
-		for j := range d {
-			d[j] = (d[j] + cDt*work[j])
-		}
-		work = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		dsm := sdd.householderDenum(work, activeFtOrient, 2.0)
-		dsm.dot(d)
-
-		for j := range d {
-			diff := cmplx.Abs((d[j] - origField[j]) / cDt)
-			sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(m.NumNodes())
-			if diff > sdd.Monitor.MaxForce {
-				sdd.Monitor.MaxForce = diff
-			}
+	// Fill the work array with the weighted average of the field values
+	w1 := complex(sdd.Alpha, 0.0)
+	w2 := complex(1.0-sdd.Alpha, 0.0)
+	for j := range work {
+		work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+	}
+	sdd.householder(work, ftOrientation, 2.0, m.NumNodes())
+
+	// Apply euler scheme
+	for j := range d {
+		d[j] = (d[j] + cDt*work[j])
+	}
+	dsm := sdd.householderDenum(denumAll, ftOrientation, 2.0)
+	dsm.dot(d)
+
+	for j := range d {
+		diff := cmplx.Abs((d[j] - origField[j]) / cDt)
+		sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(m.NumNodes())
+		if diff > sdd.Monitor.MaxForce {
+			sdd.Monitor.MaxForce = diff
 		}
 	}
+	for i := range m.Fields {
+		copy(m.Fields[i].Data, d[i*m.NumNodes():])
+	}
 
 	// Normalize power spectrum by <number of fields> * <number of nodes>
 	sdd.Monitor.ForcePowerSpectrum /= float64(len(m.Fields) * m.NumNodes())
@@ -334,9 +339,10 @@ func (sdd *SDD) householderDenum(data []complex128, ftOrientation []complex128,
 	}
 
 	cSigma := complex(sigma, 0.0)
+	numNodes := float64(pfutil.ProdInt(sdd.ft.Dimensions))
 	for i := range data {
 		dsm.invDiagonal[i] = 1.0 / (1.0 - cDt*data[i])
-		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(len(data)), 0.0)
+		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(numNodes, 0.0)
 	}
 	dsm.u = ftOrientation
 	return dsm
-- 
2.43.0


From 7ad93af703c4740dea9153546d35affe0544fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 09/38] fix: drop the unpaired frequency in the outer
 derivative of DivGrad

On grids with even sides the first derivative of the highest frequency has no
conjugate partner, so the term made real fields complex.
---
 pf/gradientCalculator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..5074daa 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -99,6 +99,9 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 			brick := bricks[dg.FuncName()+dg.GradName(d)]
 			for i := range field {
 				f := freq(i)[d]
+				if math.Abs(f-0.5) < 1e-10 {
+					f = 0.0
+				}
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
 			}
 		}
-- 
2.43.0


From 0e072643a66a03b4a18bb7c9abf2a8c72814e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 10/38] fix: drop the unpaired frequency in the mixed
 derivatives of TensorialHessian

On grids with even sides the coefficient of a frequency and its conjugate partner
differed, so the term made real fields complex.
---
 pf/tensorialHessian.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..a64b3ff 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -50,9 +50,13 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 				field[i] += complex(preFactor, 0.0)
 			}
 
-			// Off-diagonal terms
+			// Off-diagonal terms (the highest frequency on an axis of even length has
+			// no conjugate partner and does not contribute to the first derivatives)
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
+					if math.Abs(f[j]-0.5) < 1e-10 || math.Abs(f[k]-0.5) < 1e-10 {
+						continue
+					}
 					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
 					field[i] += complex(preFactor, 0.0)
 				}
-- 
2.43.0


From 5f760d211160449c9ec6fed6fbea82f97f99c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 11/38] fix: drop the unpaired frequency in the elastic term

Force and displacement kept the highest frequency on even sides while the strain
dropped it, so the term made real fields complex and was not the derivative of the
energy.
---
 pf/homoLinElast.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index 02c90ae..ed5c160 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -1,6 +1,8 @@
 package pf
 
 import (
+	"math"
+
 	"github.com/davidkleiven/gopf/elasticity"
 	"github.com/davidkleiven/gopf/pfutil"
 	"gonum.org/v1/gonum/mat"
@@ -99,14 +101,18 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 }
 
 // Freq wraps the passed frequency method such that the length of the returned frequency
-// is always 3
+// is always 3. The highest frequency on an axis of even length has no conjugate partner.
+// It is therefore omitted when calculating derivatives (as in elasticity.Strain), such that
+// forces, displacements and strains are consistent and belong to real fields
 func (h *HomogeneousModulusLinElast) Freq(i int) []float64 {
-	if h.Dim == 3 {
-		return h.FT.Freq(i)
-	}
 	res := make([]float64, 3)
 	f := h.FT.Freq(i)
 	copy(res[:h.Dim], f)
+	for j := range res {
+		if math.Abs(math.Abs(res[j])-0.5) < 1e-10 {
+			res[j] = 0.0
+		}
+	}
 	return res
 }
 
-- 
2.43.0


From da8835da82895a0b8523f4723373713393653982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:32 +0000
Subject: [PATCH 12/38] fix: evolve each field with the equation that has it on
 the left hand side

Equations that were added in a different order than the fields evolved the wrong
fields.
---
 pf/model.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 547eb5e..3b71e0f 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -279,34 +279,46 @@ func (m *Model) AllVariableNames() []string {
 	return names
 }
 
-// GetRHS evaluates the right hand side of one of the equations
+// eqNumberOfField returns the number of the equation that evolves the passed field.
+// Equations may be added in a different order than the fields
+func (m *Model) eqNumberOfField(fieldNo int) int {
+	for i, eq := range m.Equations {
+		if strings.HasPrefix(eq, "d"+m.Fields[fieldNo].Name+"/dt=") {
+			return i
+		}
+	}
+	return fieldNo
+}
+
+// GetRHS evaluates the right hand side of the equation that evolves one of the fields
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Terms {
+	eqNo := m.eqNumberOfField(fieldNo)
+	for _, f := range m.RHS[eqNo].Terms {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
-	for _, s := range m.AllSources[fieldNo] {
+	for _, s := range m.AllSources[eqNo] {
 		s.Eval(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
 	// Apply eventual modifiers
 	for i := range m.RHSModifiers {
-		if m.RHSModifiers[i].EqNo == fieldNo {
+		if m.RHSModifiers[i].EqNo == eqNo {
 			m.RHSModifiers[i].RHSModifier(data)
 		}
 	}
 	return data
 }
 
-// GetDenum evaluates the denuminator
+// GetDenum evaluates the denuminator of the equation that evolves one of the fields
 func (m *Model) GetDenum(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Denum {
+	for _, f := range m.RHS[m.eqNumberOfField(fieldNo)].Denum {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
-- 
2.43.0


From b53aa5d1ede1937fe1c04ea7bf4368213a884c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:21 +0000
Subject: [PATCH 13/38] fix: vary each field, and only the fields, when
 implicit terms are validated

A coefficient that depends on a scalar was refused, and a coefficient that depends
on the difference of two fields was accepted.
---
 pf/userDefinedTerm.go | 57 +++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index af1e615..95f4bf7 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -73,27 +73,54 @@ type GenericFunction func(i int, bricks map[string]Brick) complex128
 // implicitly in the fourier domain. Thus, if a term should be handled implicitly
 // in GOPF it has to be a linear operator (constant, nabla etc.) that is independent
 // of any of the fields applied to the field. This, function tries to vary all
-// fields and confirms that the value returned by the passed term is independent
-// of all fields
+// fields (all at once, and one by one such that variations cannot cancel each other)
+// and confirms that the value returned by the passed term is independent of all fields.
+// Scalars are not varied, as they can be part of the coefficient
 func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool {
+	evaluate := func(b map[string]Brick) []complex128 {
+		array := make([]complex128, N)
+		t.Construct(b)(freq, 0.0, array)
+		return array
+	}
 
 	// Construct a set of fields that changes the fields
-	tmpBricks := make(map[string]Brick)
-	for k, brick := range bricks {
-		tmpBricks[k] = &perturbedBrick{
-			name:         k,
-			parentBrick:  brick,
-			perturbation: complex(0.2, 0.0),
+	perturb := func(shouldVary func(name string) bool) map[string]Brick {
+		tmpBricks := make(map[string]Brick)
+		for k, brick := range bricks {
+			tmpBricks[k] = brick
+			if shouldVary(k) {
+				tmpBricks[k] = &perturbedBrick{
+					name:         k,
+					parentBrick:  brick,
+					perturbation: complex(0.2, 0.0),
+				}
+			}
+		}
+		return tmpBricks
+	}
+
+	isField := func(name string) bool {
+		switch bricks[name].(type) {
+		case *Scalar, Scalar:
+			return false
 		}
+		return true
 	}
-	func1 := t.Construct(bricks)
-	func2 := t.Construct(tmpBricks)
-	array1 := make([]complex128, N)
-	array2 := make([]complex128, N)
 
-	func1(freq, 0.0, array1)
-	func2(freq, 0.0, array2)
-	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)
+	want := evaluate(bricks)
+	if !pfutil.CmplxEqualApprox(want, evaluate(perturb(isField)), 1e-10) {
+		return false
+	}
+	for varied := range bricks {
+		if !isField(varied) {
+			continue
+		}
+		only := perturb(func(name string) bool { return name == varied })
+		if !pfutil.CmplxEqualApprox(want, evaluate(only), 1e-10) {
+			return false
+		}
+	}
+	return true
 }
 
 // perturbedBrick is a helper structure used to test implicit terms when
-- 
2.43.0


From e16fe8139b018579494f20c00afa8cb0e14d6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 14/38] fix: read the 3D conductivity tensor in its documented
 order

---
 pf/chargeTransport.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..ae5162d 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -150,9 +150,9 @@ func (ct *ChargeTransport) OnStepFinished(t float64, b map[string]Brick) {}
 
 func voigtIndex3D() [][]int {
 	return [][]int{
-		{0, 5, 4},
-		{5, 1, 3},
-		{4, 3, 2},
+		{0, 5, 3},
+		{5, 1, 4},
+		{3, 4, 2},
 	}
 }
 
-- 
2.43.0


From b53452ee42b185fbd2b8f1ecb8fe9f738db07d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 15/38] fix: scale the non-linear part of the ideal mixture by
 its prefactor

---
 pf/pairCorrelationTerm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..462d6ef 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -150,7 +150,7 @@ func (idt *IdealMixtureTerm) DerivedField(numNodes int, bricks map[string]Brick)
 			b := bricks[idt.Field]
 			for i := range out {
 				v := real(b.Get(i))
-				out[i] = complex(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v, 0.0)
+				out[i] = complex(idt.Prefactor*(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v), 0.0)
 			}
 		},
 	}
-- 
2.43.0


From ca9ae10b9f75d0d37b5a37871bc7059da1242137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 16/38] fix: give cubic materials both minor symmetries

---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..f13e484 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -121,6 +121,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 			tensor.Set(j, j, i, i, c12)
 
 			tensor.Set(i, j, i, j, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
 		}
 	}
-- 
2.43.0


From 90a8657533478c52134c85736da26b676b5167e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 17/38] fix: contract the perturbation stress with the
 frequency, over all components

---
 elasticity/perturbation.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..934255d 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -33,15 +33,20 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 		force[i] = make([]complex128, 3)
 	}
 
-	dim := len(ft.Freq(0))
+	// Wrap the freq function in case of 2D calculation
+	freq := func(i int) []float64 {
+		f3 := make([]float64, 3)
+		copy(f3, ft.Freq(i))
+		return f3
+	}
 
-	for i := 0; i < dim; i++ {
-		for j := i; j < dim; j++ {
+	for i := 0; i < 3; i++ {
+		for j := i; j < 3; j++ {
 			factor := 1.0
 			if i != j {
 				factor = 2.0
 			}
-			strain := Strain(ftDisp, ft.Freq, i, j)
+			strain := Strain(ftDisp, freq, i, j)
 			ft.IFFT(strain)
 
 			// Multiply with the shape function
@@ -52,10 +57,10 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			ft.FFT(strain)
 
 			for k := range force {
-				f := ft.Freq(k)
-				for comp := 0; comp < dim; comp++ {
+				f := freq(k)
+				for comp := 0; comp < 3; comp++ {
 					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From dd9faf98543efb5bc5379467d0f12b6e2d6e8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:06 +0000
Subject: [PATCH 18/38] fix: transpose the cell change in the first order
 change of the reciprocal cell

---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 60962bd..2ddb2ec 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -47,7 +47,7 @@ func (rc *ReciprocalCell) HKLVector(miller Miller) []float64 {
 func (rc *ReciprocalCell) CellChange(realSpaceChange *mat.Dense) *mat.Dense {
 	r, c := realSpaceChange.Dims()
 	change := mat.NewDense(r, c, nil)
-	change.Product(rc.CellVec, realSpaceChange, rc.CellVec)
+	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
 	change.Scale(-1.0/(2.0*math.Pi), change)
 	return change
 }
-- 
2.43.0


From bcc61377d98a18f04c71f96b32252a502cf2ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:06 +0000
Subject: [PATCH 19/38] fix: count equivalent planes when the first and last
 index are equal

---
 pfc/miller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/miller.go b/pfc/miller.go
index 0a7d334..e7d90d8 100644
--- a/pfc/miller.go
+++ b/pfc/miller.go
@@ -60,7 +60,7 @@ func NumEquivalent3D(miller Miller) int {
 	if abs(miller.K) == abs(miller.H) {
 		numEqual++
 	}
-	if abs(miller.L) == abs(miller.K) {
+	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {
 		numEqual++
 	}
 
-- 
2.43.0


From d39b3d755fc2a0dec0b8149f578b56c1aafdac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 20/38] fix: fit elastic properties with a single mode

---
 pfc/mode_solver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfc/mode_solver.go b/pfc/mode_solver.go
index 3010487..a4b56ed 100644
--- a/pfc/mode_solver.go
+++ b/pfc/mode_solver.go
@@ -435,7 +435,9 @@ func (ms *ModeSolver) MatchElasticProp(properties map[string]float64) ElasticPro
 		initX[i] = 1.0
 	}
 	initX[0] = 1.0
-	initX[1] = 0.01
+	if len(initX) > 1 {
+		initX[1] = 0.01
+	}
 	optRes, _ := optimize.Minimize(problem, initX, nil, nil)
 
 	fitRes := ElasticPropResult{
-- 
2.43.0


From 728ff35ac99ec95bfa33d3f4cf4ff16e2a7010af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 21/38] fix: negative value penalty is flat for even exponents

---
 pf/negative_value_penalty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/negative_value_penalty.go b/pf/negative_value_penalty.go
index c6de7f5..f2f697d 100644
--- a/pf/negative_value_penalty.go
+++ b/pf/negative_value_penalty.go
@@ -13,7 +13,8 @@ type NegativeValuePenalty struct {
 
 // Penalty returns the derivative of the underlying function
 func (nvp *NegativeValuePenalty) Penalty(x float64) float64 {
-	if x > 0.0 {
+	// For even exponents |x|^p and x^p coincide, so the function vanishes everywhere
+	if x > 0.0 || nvp.Exponent%2 == 0 {
 		return 0.0
 	}
 	p := float64(nvp.Exponent)
-- 
2.43.0


From 89f11ff8cdf2c244742e3c93f8951e208460fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 22/38] fix: position table of a single-node domain was filled
 again at every save

---
 pf/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/database.go b/pf/database.go
index 160a9d9..6c6797e 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -165,7 +165,7 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	for result.Next() {
 		result.Scan(&numRows)
 	}
-	return numRows > 1
+	return numRows > 0
 }
 
 // populatePositionTables inserts values into the position table
-- 
2.43.0


From 42a77946c5d7657451932080eb23058c2c68dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 23/38] fix: position ids start at one although fields refer to
 node numbers

---
 pf/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 6c6797e..10d1863 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -180,13 +180,13 @@ func (fdb *FieldDB) populatePositionsTable() {
 	for i := 0; i < numNodes; i++ {
 		pos := pfutil.Pos(fdb.DomainSize, i)
 		copy(pos3, pos)
-		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")
+		statement, err := tx.Prepare("INSERT INTO positions (id, X, Y, Z) VALUES (?, ?, ?, ?)")
 
 		if err != nil {
 			tx.Rollback()
 			return
 		}
-		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
+		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-- 
2.43.0


From b610ab04f1b411defb917f2bbead9bb1dfcac0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 24/38] fix: domain size check ignores dimensions missing in
 the given size

---
 pf/database.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 10d1863..0a9d6ed 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -351,7 +351,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 	columns := []string{"X", "Y", "Z"}
 
-	for i := 0; i < len(fdb.DomainSize); i++ {
+	for i := range columns {
 		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
@@ -363,7 +363,13 @@ func (fdb *FieldDB) domainSizeOk() bool {
 		for rows.Next() {
 			rows.Scan(&maxval)
 		}
-		if maxval != fdb.DomainSize[i]-1 {
+
+		// The position is zero in directions the domain does not have
+		size := 1
+		if i < len(fdb.DomainSize) {
+			size = fdb.DomainSize[i]
+		}
+		if maxval != size-1 {
 			return false
 		}
 	}
-- 
2.43.0


From 2656f5a9b38f4213a4d77537aadcef1b214e24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 25/38] fix: attr --name shows text attributes without value
 and under another simulation

---
 cmd/attr.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 3a21063..ffe2fbc 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -219,9 +219,14 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
 	}
 
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
+
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		rows.Scan(&txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
 }
-- 
2.43.0


From d2ef3d1baa108824046d2f6094c13bb78a203b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 26/38] fix: only the last comment of a simulation is shown,
 and that of another one if it has none

---
 cmd/comment.go | 3 ++-
 cmd/list.go    | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 306d6f0..8ccace7 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -70,11 +70,12 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
+			fmt.Printf("Sim id %d:\n", simid)
 			var comment string
 			for rows.Next() {
 				rows.Scan(&comment)
+				fmt.Printf("%s\n", comment)
 			}
-			fmt.Printf("Sim id %d:\n%s\n", simid, comment)
 		}
 
 	},
diff --git a/cmd/list.go b/cmd/list.go
index 75e0061..ad6ef2c 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -131,10 +131,12 @@ func showComments(db *sql.DB, max int) {
 			fmt.Printf("%s\n", err)
 			return
 		}
+
+		fmt.Printf("Sim Id %d:\n", v)
 		for rows.Next() {
 			rows.Scan(&comment)
+			fmt.Printf("%s\n", comment)
 		}
-
-		fmt.Printf("Sim Id %d:\n%s\n\n", v, comment)
+		fmt.Printf("\n")
 	}
 }
-- 
2.43.0


From cb04718e3f4886ff63c8f7582afb94b122f15e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 27/38] fix: comment table crashes on long words and loses the
 end of long comments

---
 cmd/comment.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 8ccace7..ba80587 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -99,23 +99,26 @@ func printAllComments(db *sql.DB) {
 	for rows.Next() {
 		rows.Scan(&simID, &comment)
 
-		numLines := len(comment)/CommentWidth + 1
-		var currentComment string
-		start := 0
-		for lineNum := 0; lineNum < numLines; lineNum++ {
-			idString := " "
-			if lineNum == 0 {
-				idString = fmt.Sprintf("%d", simID)
-			}
-
-			if start+CommentWidth > len(comment) {
-				currentComment = comment[start:]
-			} else {
-				end := closestWhiteSpace(comment, start+CommentWidth)
-				currentComment = comment[start:end]
-				start = end + 1
+		idString := fmt.Sprintf("%d", simID)
+		for {
+			currentComment := comment
+			comment = ""
+			if len(currentComment) > CommentWidth {
+				end := closestWhiteSpace(currentComment, CommentWidth)
+				if currentComment[end] == ' ' {
+					comment = currentComment[end+1:]
+				} else {
+					// The word does not fit on one line
+					end = CommentWidth
+					comment = currentComment[end:]
+				}
+				currentComment = currentComment[:end]
 			}
 			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
+			idString = " "
+			if comment == "" {
+				break
+			}
 		}
 	}
 	fmt.Printf("%s\n", singleLine(width))
-- 
2.43.0


From a8f494991a9a3533bec6464058c921b8d9977d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 28/38] fix: attr shows number attributes of all simulations
 for simulation 0

---
 cmd/attr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index ffe2fbc..aefb2a9 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -99,12 +99,12 @@ func listUniqueAttributes(db *sql.DB) {
 	}
 }
 
-// listAttributes lists the attributes. If simulationID is greater than 0, only attributes
+// listAttributes lists the attributes. If simulationID is not negative, only attributes
 // belonging to the passed ID is printed. If it is negative, all simulation IDs are included.
 func listAttributes(db *sql.DB, simulationID int) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes WHERE simId=?", simulationID)
 	} else {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes")
@@ -195,7 +195,7 @@ func listAttributes(db *sql.DB, simulationID int) {
 func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=?", name)
@@ -213,7 +213,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
 	}
 
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
-- 
2.43.0


From 788a49e19e4d33583342205cefe174999f150d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 29/38] fix: export refuses the documented type fielddata

---
 cmd/export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index 65e9dd1..074b23c 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -88,7 +88,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 		switch ftype {
 		case "timeseries", "ts":
 			exportTimeseries(db, outfile, simid)
-		case "field", "fieldData", "fd":
+		case "field", "fieldData", "fielddata", "fd":
 			if all {
 				steps := allTimeSteps(db, simid)
 				for _, step := range steps {
-- 
2.43.0


From 88dbc90ce54c2e08751d04c3e81b60c4d365c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 30/38] fix: contour plot ignores the positions in the file

---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..a917f53 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
-- 
2.43.0


From d5d91b5bd85d609630b21075199b74aaf0f7fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 31/38] fix: lineplot ignores the selected fields

---
 cmd/lineplot.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..35a5bbc 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,17 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
+		if err != nil {
+			log.Fatalf("Error when parsing fields: %s\n", err)
+			return
+		}
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
-- 
2.43.0


From fd9d160863ec3e997bd9711e53ee02563a77336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 32/38] fix: contour plot is upside down

---
 cmd/contour.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index a917f53..c46066e 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -327,7 +327,8 @@ func fillImage(data HeatMapData, cmap palette.ColorMap) *image.RGBA64 {
 				log.Fatalf("%s\n", err)
 				return img
 			}
-			img.Set(i, j, color)
+			// The first row of an image is its top one
+			img.Set(i, m-1-j, color)
 		}
 	}
 	return img
-- 
2.43.0


From ba463af25ed060b0565f0cba050c5a58673018ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 33/38] fix: contour plot of a constant field fails

---
 cmd/contour.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/contour.go b/cmd/contour.go
index c46066e..0620ef7 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -20,6 +20,7 @@ import (
 	"image"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -79,6 +80,10 @@ will be selected.
 		data := NewHeatMapData(rows)
 		colormap := moreland.Kindlmann()
 		rng := max - min
+		if rng == 0.0 {
+			// The color map needs a range also when all values are equal
+			rng = math.Max(1.0, math.Abs(max))
+		}
 		colormap.SetMin(min - 0.05*rng)
 		colormap.SetMax(max + 0.05*rng)
 
-- 
2.43.0


From ccc3680eded5286b271acedce4a22b877f4a5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:55 +0000
Subject: [PATCH 34/38] fix: files in the documented format, with blanks after
 the commas, are refused

---
 cmd/contour.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/contour.go b/cmd/contour.go
index 0620ef7..87dde57 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -237,6 +237,7 @@ func readData(fname string, column string) []DataRow {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
@@ -311,6 +312,7 @@ func readHeader(fname string) []string {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
-- 
2.43.0


From a35845ae1228b9356c07c8fb0c72f8b33171c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 35/38] fix: the largest value of a field is sometimes written
 as 254

---
 pf/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/util.go b/pf/util.go
index 12f81cd..067c205 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -111,7 +111,7 @@ func RealPartAsUint8(data []complex128, min float64, max float64) []uint8 {
 		max = min + 1.0
 	}
 	for i := range data {
-		res[i] = uint8(255 * (real(data[i]) - min) / (max - min))
+		res[i] = uint8(255 * ((real(data[i]) - min) / (max - min)))
 	}
 	return res
 }
-- 
2.43.0


From 501c4b55d4b0a279dfb45fecdc9d1733b30775f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 36/38] fix: 3D XDMF dimensions do not match the order of the
 nodes in the files

---
 pf/xdmf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 76fa426..2e3db90 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -88,7 +88,7 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		dimensions = fmt.Sprintf("%d %d", domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDY"
 	} else if len(domainSize) == 3 {
-		dimensions = fmt.Sprintf("%d %d %d", domainSize[0], domainSize[1], domainSize[2])
+		dimensions = fmt.Sprintf("%d %d %d", domainSize[2], domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDYDZ"
 	} else {
 		panic("Length of domain size to be either 2 or 3")
-- 
2.43.0


From 2e0883bc990f347455046abe7ecf9f5675cb8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 37/38] fix: XDMF HyperSlab holds all instants instead of
 start, stride and count

---
 pf/xdmf.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 2e3db90..0ef1319 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -116,11 +116,8 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		},
 	}
 
-	timeStr := ""
-	for i := 0; i < num; i++ {
-		timeStr += fmt.Sprintf("%f ", float64(i)/float64(num))
-	}
-	timeStr += fmt.Sprintf("%d", num)
+	// Start, stride and count of the instants
+	timeStr := fmt.Sprintf("0.0 %f %d", 1.0/float64(num), num)
 
 	xdmf.Domain.Grid = XDMFGrid{
 		Name:           "TimeSeries",
@@ -128,7 +125,7 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		CollectionType: "Temporal",
 		Grids:          make([]XDMFGrid, num),
 		Time: &XDMFTime{Type: "HyperSlab",
-			DataItem: XDMFDataItem{Format: "XML", NumberType: "Float", Dimensions: fmt.Sprintf("%d", dim), Value: timeStr},
+			DataItem: XDMFDataItem{Format: "XML", NumberType: "Float", Dimensions: "3", Value: timeStr},
 		},
 	}
 
-- 
2.43.0


From a8de3d0747eaceb7fc550931f289e1f1bab7649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 38/38] fix: density of cubic lattice planes with indices other
 than 0 and 1

CubicUnitCellDensity took the parallelogram spanned by the intercepts of the
plane for its unit cell. That is only right for indices 0 and 1: the density of
(1,2,2) came out as 4/3 instead of 1/3.
---
 pfc/lattice.go | 55 +++++++++++++-------------------------------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 2ddb2ec..cb2a9a8 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -2,10 +2,8 @@ package pfc
 
 import (
 	"math"
-	"sort"
 
 	"gonum.org/v1/gonum/mat"
-	"gonum.org/v1/gonum/spatial/r3"
 )
 
 // Cell is a type used to represent a unit cell. In the underlying CellVec
@@ -161,45 +159,20 @@ func Triangular2D(a float64) Cell {
 }
 
 // CubicUnitCellDensity returns the density of a plane when the underlying
-// Bravais lattice is cubic.
+// Bravais lattice is cubic. The distance between neighbouring planes is
+// 1/sqrt(h^2 + k^2 + l^2) when the indices have no common divisor, and there is
+// one lattice point per unit cell.
 func CubicUnitCellDensity(miller Miller) float64 {
-	millerArray := make([]int, 3)
-	millerArray[0] = miller.At(0)
-	millerArray[1] = miller.At(1)
-	millerArray[2] = miller.At(2)
-	sort.Ints(millerArray)
-
-	if millerArray[0] == 0 && millerArray[1] == 0 {
-		return 1.0
-	}
-	v1 := r3.Vec{}
-	v2 := r3.Vec{}
-	v3 := r3.Vec{}
-
-	if millerArray[0] == 1 {
-		v1.X = 1.0
-		v2.Y = 1.0 / float64(millerArray[1])
-		v3.Z = 1.0 / float64(millerArray[2])
-		v3 = v3.Sub(v1) // v3 --> v3 - v1
-		v2 = v2.Sub(v1) // v2 --> v2 - v1
-	} else if millerArray[0] == 0 {
-		v2.Y = 1.0 / float64(millerArray[1])
-		v3.Z = 1.0 / float64(millerArray[2])
-		v3 = v3.Sub(v2)
-		v2.Y = 0.0
-		v2.X = 1.0
-	} else {
-		panic("The smallest Miller index has to be 0 or 1")
-	}
-
-	// TODO: v0.7 of gonum does not include Cross, but it is included in development version
-	// Use the line below after next release of gonum
-	// cross := v1.Cross(v2)
-	cross := r3.Vec{
-		X: v3.Y*v2.Z - v3.Z*v2.Y,
-		Y: v3.Z*v2.X - v3.X*v2.Z,
-		Z: v3.X*v2.Y - v3.Y*v2.X,
+	divisor := 0
+	normSq := 0
+	for i := 0; i < 3; i++ {
+		index := miller.At(i)
+		normSq += index * index
+
+		// Greatest common divisor
+		for index != 0 {
+			divisor, index = index, divisor%index
+		}
 	}
-	area := math.Sqrt(cross.X*cross.X + cross.Y*cross.Y + cross.Z*cross.Z)
-	return 1.0 / area
+	return math.Abs(float64(divisor)) / math.Sqrt(float64(normSq))
 }
-- 
2.43.0

