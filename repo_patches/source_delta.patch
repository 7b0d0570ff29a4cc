From 94017b1e95e64c011163fcc9371255db4328e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 01/69] fix: write the missing branch, not the right branch,
 under path M

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 4a3d0649fed84ca49d2da1871ef6ad3cb97c843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 02/69] fix: keep = signs in the values of .sf lines

---
 forestreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..1c230c0 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -187,7 +187,8 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	}
 	parsed := make(map[string]string, 0)
 	for _, clause := range clauses {
-		vs := strings.Split(clause, "=")
+		//only the first = separates the key from the value, feature names can contain =
+		vs := strings.SplitN(clause, "=", 2)
 		for i, v := range vs {
 			vs[i] = strings.Trim(strings.TrimSpace(v), "\"")
 		}
-- 
2.43.0


From 2d7af38216debfe8ee32d393ae03e1e61e54fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 03/69] fix: read the last line of .sf and libsvm files without
 a trailing newline

---
 forestreader.go | 3 ++-
 libsvm.go       | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 1c230c0..10bbb4f 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -83,7 +83,8 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		}
 
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		//the last line of a file may not end in a newline
+		if err != nil && (err != io.EOF || line == "") {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
diff --git a/libsvm.go b/libsvm.go
index 06e1c11..a716687 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -23,9 +23,10 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		ncases++
 
 		line, err := reader.ReadString('\n')
-		if err == io.EOF {
+		//the last line of a file may not end in a newline
+		if err == io.EOF && line == "" {
 			break
-		} else if err != nil {
+		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
 			return nil
 		}
-- 
2.43.0


From 7924c46853d04a1a863c9c2ef1affd7d7e916239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 04/69] fix: record the target in the trees grown by
 GrowRandomForest

---
 forrest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forrest.go b/forrest.go
index fd6aab9..1965d53 100644
--- a/forrest.go
+++ b/forrest.go
@@ -58,6 +58,7 @@ func GrowRandomForest(fm *FeatureMatrix,
 		cases := SampleWithReplacment(nSamples, nCases)
 
 		f.Trees = append(f.Trees, NewTree())
+		f.Trees[i].Target = f.Target
 		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
 		switch target.(type) {
 		case BoostingTarget:
-- 
2.43.0


From 18e1f6a857698be984f005c8ffd42121e48557a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 05/69] fix: quote splitter ids and preds with commas in .sf
 files and keep quoted spaces

---
 forestreader.go | 7 ++++---
 forestwriter.go | 9 +++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 10bbb4f..bad1445 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -165,12 +165,13 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	clauses := make([]string, 0)
 	insidequotes := make([]string, 0)
 	terms := strings.Split(strings.TrimSpace(line), ",")
-	for _, term := range terms {
-		term = strings.TrimSpace(term)
+	for _, rawterm := range terms {
+		term := strings.TrimSpace(rawterm)
 		quotes := strings.Count(term, "\"")
 		//if quotes have been opend join terms
 		if quotes == 1 || len(insidequotes) > 0 {
-			insidequotes = append(insidequotes, term)
+			//the spaces around commas inside of quotes are part of the value
+			insidequotes = append(insidequotes, rawterm)
 		} else {
 			//If the term doesn't have an = in it join it to the last term
 			if strings.Count(term, "=") == 0 {
diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..766b558 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -79,11 +79,16 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 func (fw *ForestWriter) WriteNode(n *Node, path string) {
 	node := fmt.Sprintf("NODE=%v", path)
 	if n.Pred != "" {
-		node += fmt.Sprintf(",PRED=%v", n.Pred)
+		if strings.Contains(n.Pred, ",") {
+			//commas separate terms outside of quotes
+			node += fmt.Sprintf(",PRED=\"%v\"", n.Pred)
+		} else {
+			node += fmt.Sprintf(",PRED=%v", n.Pred)
+		}
 	}
 
 	if n.Splitter != nil {
-		node += fmt.Sprintf(",SPLITTER=%v", n.Splitter.Feature)
+		node += fmt.Sprintf(",SPLITTER=\"%v\"", n.Splitter.Feature)
 		switch n.Splitter.Numerical {
 		case true:
 			node += fmt.Sprintf(",SPLITTERTYPE=NUMERICAL,LVALUES=%v,RVALUES=%v", n.Splitter.Value, n.Splitter.Value)
-- 
2.43.0


From 7b69fd9feca9fdfb3e0a05d6e69a5a8d2703d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 06/69] fix: copies of a feature keep track of having missing
 values

---
 densecatfeature.go | 1 +
 densenumfeature.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..35860e2 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1216,6 +1216,7 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
 	copy(copyf.(*DenseCatFeature).CatData, f.CatData)
+	copyf.(*DenseCatFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..5c835e5 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -644,7 +644,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
@@ -658,6 +658,7 @@ func (f *DenseNumFeature) Copy() Feature {
 func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 	copy(copyf.(*DenseNumFeature).Missing, f.Missing)
 	copy(copyf.(*DenseNumFeature).NumData, f.NumData)
+	copyf.(*DenseNumFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
-- 
2.43.0


From aba93e7b5e0c1a063f14e3467957b4ffee529f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 07/69] fix: copies of a categorical feature have their own
 categories

---
 densecatfeature.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 35860e2..c2c4e03 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1193,9 +1193,15 @@ func (f *DenseCatFeature) ShuffledCopy() Feature {
 /*Copy returns a copy of f.*/
 func (f *DenseCatFeature) Copy() Feature {
 	capacity := len(f.Missing)
+	catmap := &CatMap{make(map[string]int, len(f.Map)),
+		make([]string, len(f.Back))}
+	for k, v := range f.Map {
+		catmap.Map[k] = v
+	}
+	copy(catmap.Back, f.Back)
+
 	fake := &DenseCatFeature{
-		&CatMap{f.Map,
-			f.Back},
+		catmap,
 		nil,
 		make([]bool, capacity),
 		f.Name,
-- 
2.43.0


From 98e2786634f358b4c598ff31f1328e4b52db599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 08/69] fix: putting a missing value string in a categorical
 feature makes it missing

---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index c2c4e03..1fd2b05 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -147,6 +147,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From 125ddae309482217099753cf24cd5a5f173c7f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 09/69] fix: treat nan as missing in numerical features

---
 densenumfeature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 5c835e5..c5426f2 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -21,7 +21,7 @@ type DenseNumFeature struct {
 //during data parseing.
 func (f *DenseNumFeature) Append(v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.NumData = append(f.NumData, 0.0)
 		f.Missing = append(f.Missing, true)
 		f.HasMissing = true
@@ -39,7 +39,7 @@ func (f *DenseNumFeature) Less(i int, j int) bool {
 //PutStr parses a string and puts it in the i'th position
 func (f *DenseNumFeature) PutStr(i int, v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.Missing[i] = true
 		f.HasMissing = true
 		return
-- 
2.43.0


From ebdbaddd101155173da357acaa4c0d94fa509675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 10/69] fix: span of a numerical feature covers all of the
 cases

---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index c5426f2..3710f8c 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -560,6 +560,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From c4caf4c64cf80c15021565f147bc1958f20875d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 11/69] fix: consider numerical splits that leave exactly
 leafSize cases on the right

---
 densenumfeature.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 3710f8c..4598c3c 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -304,6 +304,7 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 		lastsplit := 0
 		var innerimp float64
+		//the last split considered leaves leafSize cases on the right
 		stop := (ncases - leafSize)
 		constant = (sortedData[0] + constant_cutoff) >= sortedData[ncases-1]
 		if constant {
@@ -313,13 +314,13 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 		lasti := leafSize - 1
 
 		if randomSplit  && stop > leafSize {
-			leafSize = leafSize + allocs.Rnd.Intn(stop-leafSize)
+			leafSize = leafSize + allocs.Rnd.Intn(stop-leafSize+1)
 			lasti = leafSize - 1
-			stop = leafSize + 1
+			stop = leafSize
 
 		}
 
-		for i := leafSize; i < stop; i++ {
+		for i := leafSize; i <= stop; i++ {
 
 			//skip cases where the next sorted case has the same value as these can't be split on
 			if sortedData[i] <= (sortedData[lasti] + constant_cutoff) {
-- 
2.43.0


From 900b0044f2a8f80dbda494a78037a12b06621e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 12/69] fix: place numerical split values between the two cases
 they were evaluated between

---
 densenumfeature.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 4598c3c..921264c 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -356,9 +356,13 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
+				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
+				//the midpoint can round up to the right value or overflow
+				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {
+					splitf = sortedData[i-1]
+				}
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
 
 			}
-- 
2.43.0


From f411ba7ffe0ff00b275616998001f970a8da8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 13/69] fix: never return a negative squared error as impurity

---
 densenumfeature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index 921264c..ee22ba1 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -494,6 +494,11 @@ func (target *DenseNumFeature) Impurity(cases *[]int, counter *[]int) (e float64
 
 	sum, sum_sqr := target.SumAndSumSquares(cases)
 	e = sum_sqr - sum*sum/float64(len(*cases))
+	//rounding can make this slightly negative which would mark the target as
+	//not having a parent impurity
+	if e < 0 {
+		e = 0
+	}
 
 	return
 
-- 
2.43.0


From 2c143e04e5222b4374dbfc361b09df5b8ec56bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 14/69] fix: use the disutilities in every disutility entropy
 and don't add categories when predicting

---
 dentropytarget.go  | 19 ++++++++-----------
 hdistancetarget.go |  4 ++--
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..b43ff27 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -84,7 +84,13 @@ func (target *DEntropyTarget) ImpFromCounts(total int, counts *[]int) (e float64
 
 func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	prob_true := 0.0
-	t := target.CatToNum("True")
+	//look the category up without adding it as trees can be grown in parallel
+	t := -1
+	for i := 0; i < target.NCats(); i++ {
+		if target.NumToCat(i) == "True" {
+			t = i
+		}
+	}
 	weightedvoted := true
 	if weightedvoted {
 		count := 0.0
@@ -120,15 +126,6 @@ func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64)
 	total := len(*cases)
 	target.CountPerCat(cases, counts)
 
-	p := 0.0
-	for _, i := range *counts {
-		if i > 0 {
-			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
-		}
-
-	}
-
-	return
+	return target.ImpFromCounts(total, counts)
 
 }
diff --git a/hdistancetarget.go b/hdistancetarget.go
index 2aff363..9470f04 100644
--- a/hdistancetarget.go
+++ b/hdistancetarget.go
@@ -65,11 +65,11 @@ func (target *HDistanceTarget) HDist(lcounts *[]int, rcounts *[]int) (d float64)
 func (target *HDistanceTarget) FindPredicted(cases []int) (pred string) {
 	// TODO(ryan): lapalcian smoothing?
 	prob_true := 0.0
-	t := target.CatToNum(target.Pos_class)
 
 	count := 0
 	for _, i := range cases {
-		if target.Geti(i) == t {
+		//compare labels instead of looking up the number as that could add a category
+		if target.NumToCat(target.Geti(i)) == target.Pos_class {
 			count++
 		}
 
-- 
2.43.0


From ef34967e982195f186dfda4b8a8ddae73b673424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 15/69] fix: adaptive boosting targets implement BoostingTarget

---
 adaboosttarget.go       | 2 +-
 adacosttarget.go        | 2 +-
 numadaboostingtarget.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..f9ab1f4 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -112,7 +112,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..bbac780 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -128,7 +128,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..150aede 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -77,7 +77,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
-- 
2.43.0


From 97caf952561f1ea86f9de6388180f1b49d60a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 16/69] fix: keep the boosting weights when a partition is
 perfect instead of making them NaN

---
 adaboosttarget.go       | 4 ++++
 adacosttarget.go        | 4 ++++
 numadaboostingtarget.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index f9ab1f4..7b18f0f 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -121,6 +121,10 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 	if weight >= .5 {
 		return 0.0
 	}
+	if weight <= 0 {
+		//the partition is perfect and there are no errors to boost
+		return math.Inf(1)
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index bbac780..85d2ccd 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -137,6 +137,10 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 	if weight >= .5 {
 		return 0.0
 	}
+	if weight <= 0 {
+		//the partition is perfect and there are no errors to boost
+		return math.Inf(1)
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 150aede..ca29da1 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -92,6 +92,10 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 		return 0.0
 	}
 
+	if imp <= 0 {
+		//the partition is perfect and there are no errors to boost
+		return math.Inf(1)
+	}
 	weight = math.Log(norm / imp)
 
 	for _, cases := range *leaves {
-- 
2.43.0


From 45a848d02dbc12f0e7834e903a3eee959eafb470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 17/69] fix: zero weight votes don't turn the running mean into
 NaN

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 14a59ff..0ed8bc0 100644
--- a/utils.go
+++ b/utils.go
@@ -31,7 +31,8 @@ func (rm *RunningMean) Add(val float64) {
 
 //WeightedAdd add's the specified value to the running mean in a thread safe way.
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
-	if !math.IsNaN(val) && !math.IsNaN(weight) {
+	//values without weight, from zero weight trees, don't change the mean
+	if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {
 		rm.mutex.Lock()
 		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
 		rm.Count += weight
-- 
2.43.0


From cfb49e204d4600aa71d8f876ee2f2ee15b86048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 18/69] fix: leaves of a reused tree don't keep their old
 branches

---
 tree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tree.go b/tree.go
index c01f024..30b54d5 100644
--- a/tree.go
+++ b/tree.go
@@ -169,6 +169,10 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		//remove the branches left over from a previous growth of this tree
+		n.Left = nil
+		n.Right = nil
+		n.Missing = nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
@@ -262,6 +266,10 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			split = nil
 			n.CodedSplit = nil
 			n.Splitter = nil
+			//remove the branches left over from a previous growth of this tree
+			n.Left = nil
+			n.Right = nil
+			n.Missing = nil
 			n.Pred = target.FindPredicted(innercases)
 			continue
 
-- 
2.43.0


From dbf2b9f40195bbaba4d6aac4a9927ac3b98ee3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 19/69] fix: only grow missing branches from missing cases

---
 tree.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 30b54d5..dad90dd 100644
--- a/tree.go
+++ b/tree.go
@@ -156,8 +156,15 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 					n.Left = new(Node)
 					n.Right = new(Node)
 				}
+				//without missing cases there is nothing to predict from
+				n.Missing = nil
 				if splitmissing {
-					n.Missing = new(Node)
+					for _, c := range *innercases {
+						if fm.Data[fi].IsMissing(c) {
+							n.Missing = new(Node)
+							break
+						}
+					}
 				}
 				return
 			}
@@ -250,9 +257,11 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					n.Right = new(Node)
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
+					//without missing cases there is nothing to predict from
+					n.Missing = nil
 					if splitmissing {
-						n.Missing = new(Node)
 						if li != ri {
+							n.Missing = new(Node)
 							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
 						}
 					}
-- 
2.43.0


From bd95a6b1838cd9e940c09f733897a5d2be268f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 20/69] fix: recombined jungle nodes are grown from the cases
 of both nodes

---
 tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree.go b/tree.go
index dad90dd..f41b06a 100644
--- a/tree.go
+++ b/tree.go
@@ -328,6 +328,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					nodes[combine].dead = true
 					nj := nodes[combine]
 					nodei.end = nj.end
+					nodes[i].end = nj.end
 					parent := nj.parent
 					switch nj.n {
 					case parent.Left:
-- 
2.43.0


From 9141208b5116eb12f00d4a677915419ccf7fa37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 21/69] fix: encoded features don't share missing values with
 the original

---
 densecatfeature.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1fd2b05..b64417e 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool{}, f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
-- 
2.43.0


From 6ef1daa305a8f6d0aa08a03b48d52b254141a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 22/69] fix: leave missing target values out of gradient
 boosting

---
 gradboostclasstarget.go | 17 +++++++++++++++--
 gradboosttarget.go      | 11 +++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 64833be..356fd31 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -40,6 +40,9 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	pred := actual.Copy().(*DenseNumFeature)
 	// Make sure the encoding has the positive class as 1
 	for i := 0; i < f.Length(); i++ {
+		if f.IsMissing(i) {
+			continue
+		}
 		if f.GetStr(i) == pos_class {
 			actual.Put(i, 1.0)
 		} else {
@@ -51,14 +54,21 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	res := &GradBoostTarget{actual.Copy().(*DenseNumFeature), learnrate, 0.0}
 
 	pos := 0.0
+	nonmissing := 0.0
 	for i := 0; i < actual.Length(); i++ {
-		pos += actual.Get(i)
+		if !actual.IsMissing(i) {
+			pos += actual.Get(i)
+			nonmissing++
+		}
 	}
 
 	// Set intial residual to
-	prior := math.Log(pos / (float64(res.Length()) - pos))
+	prior := math.Log(pos / (nonmissing - pos))
 
 	for i := 0; i < res.Length(); i++ {
+		if res.IsMissing(i) {
+			continue
+		}
 		pred.Put(i, prior)
 		v := actual.Get(i) - Expit(prior)
 		res.Put(i, v)
@@ -110,6 +120,9 @@ func (f *GradBoostClassTarget) FindPredicted(cases []int) (pred string) {
 //specified cases from the value for those cases.
 func (f *GradBoostClassTarget) Update(cases *[]int, predicted float64) {
 	for _, i := range *cases {
+		if f.IsMissing(i) {
+			continue
+		}
 		pred := f.Pred.Get(i) + f.LearnRate*predicted
 		f.Pred.Put(i, pred)
 
diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..16309f1 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -17,14 +17,21 @@ func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget)
 
 	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
 	sum := 0.0
+	n := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			n++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := sum / float64(n)
 
 	for i := 0; i < f.Length(); i++ {
+		if f.IsMissing(i) {
+			continue
+		}
 		v := f.Get(i) - prior
 		f.Put(i, v)
 	}
-- 
2.43.0


From 00f141098dd72153af2605d32e284638817a9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 23/69] fix: make voting for categories thread safe and the
 resolution of ties deterministic

---
 catballotbox.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..7fbddd2 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,25 +21,29 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box   []*CatBallot
+	mutex sync.RWMutex //protects the CatMap which all of the ballots share
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
-	bb := CatBallotBox{
+	bb := &CatBallotBox{
 		&CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		make([]*CatBallot, 0, size),
+		sync.RWMutex{}}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
-	return &bb
+	return bb
 }
 
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.mutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.mutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -52,23 +56,22 @@ func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
 //if it is a Categorical or boolean feature. Ie it returns the mode
 //(the most frequent value) of all votes.
 func (bb *CatBallotBox) Tally(i int) (predicted string) {
-	predictedn := 0
+	predicted = "NA"
 	votes := 0.0
 	bb.Box[i].Mutex.Lock()
+	bb.mutex.RLock()
 	for k, v := range bb.Box[i].Map {
-		if v > votes {
-			predictedn = k
+		//ties go to the first label so that the prediction doesn't depend on the order
+		//of the map or of the votes
+		if v > votes || (v == votes && v > 0 && bb.Back[k] < predicted) {
+			predicted = bb.Back[k]
 			votes = v
 
 		}
 
 	}
+	bb.mutex.RUnlock()
 	bb.Box[i].Mutex.Unlock()
-	if votes > 0 {
-		predicted = bb.Back[predictedn]
-	} else {
-		predicted = "NA"
-	}
 
 	return
 
-- 
2.43.0


From 40e55b88b2b18be640b4a438d252753af2bea74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 24/69] fix: balanced error ignores labels that no case has
 instead of being NaN

---
 catballotbox.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/catballotbox.go b/catballotbox.go
index 7fbddd2..4c9bd94 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -110,8 +110,13 @@ func (bb *CatBallotBox) TallyError(feature Feature) (e float64) {
 		}
 	}
 
+	//labels that no case has don't have an error
+	ncats = 0
 	for i, ncorrect := range correct {
-		e += float64(ncorrect) / float64(total[i])
+		if total[i] > 0 {
+			e += float64(ncorrect) / float64(total[i])
+			ncats++
+		}
 	}
 
 	e /= float64(ncats)
-- 
2.43.0


From 4b90d140176a4a43c75eb3744aa59fccc5c88086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 25/69] fix: squared error isn't calculated against cases
 without votes

---
 numballotbox.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c0b5583..c9640a0 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -63,8 +63,9 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	d := 0.0
 	c := 0
 	for i := 0; i < feature.Length(); i++ {
-		predicted := bb.TallyNum(i)
-		if !feature.IsMissing(i) && !math.IsNaN(predicted) {
+		predicted, count := bb.box[i].Read()
+		//cases that haven't been voted on don't have a prediction to score
+		if count > 0 && !feature.IsMissing(i) && !math.IsNaN(predicted) {
 			value := feature.(NumFeature).Get(i)
 
 			d = float64(value) - predicted
@@ -73,7 +74,7 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 		}
 	}
 	if c == 0.0 {
-		log.Fatal("TallyError with 0 count!")
+		log.Print("TallyError with 0 count!")
 	}
 	e = e / float64(c)
 
-- 
2.43.0


From 59a826f8bf5baf3de9157e1ae1300c96e97c4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 26/69] fix: writing cases as libsvm doesn't impute the
 caller's data

---
 libsvm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index a716687..6820ab8 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -164,7 +164,8 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			//copy so that imputing doesn't change the data
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From 41b478395335c1234ed51dd96022ea21b74e5a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 27/69] fix: stripped category labels map to their own number

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..65f6ec8 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -51,7 +51,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From 89af8ebcc7917ca07255720a38d722816db2dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 28/69] fix: one hot encoding a feature matrix keeps features
 with two or less categories

---
 featurematrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featurematrix.go b/featurematrix.go
index 65f6ec8..e827e39 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -93,6 +93,10 @@ func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 			out.Data = append(out.Data, f)
 		case CatFeature:
 			fns := f.(CatFeature).OneHot()
+			if len(fns) == 0 {
+				//features with two or less categories don't need encoding
+				fns = []Feature{f}
+			}
 			for _, fn := range fns {
 				out.Map[fn.GetName()] = len(out.Map)
 				out.Data = append(out.Data, fn)
-- 
2.43.0


From c9282df9f87bd001f2cd7b2578cebcd36d1c898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 29/69] fix: nfold -onehot writes the encoded features

---
 utils/nfold/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e775ed6..db1f28c 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -147,7 +147,7 @@ func main() {
 
 	if onehot {
 		fmt.Println("OneHot encoding.")
-		data.OneHot()
+		data = data.OneHot()
 	}
 
 	if num {
-- 
2.43.0


From 4787b2a39c8e6f9848e6f961325457bc26c49517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 30/69] fix: nfold writes libsvm files for categorical targets

---
 utils/nfold/main.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index db1f28c..39a5321 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -215,19 +215,6 @@ func main() {
 
 		}
 	}
-	encode := false
-
-	for _, f := range data.Data {
-		if f.NCats() > 0 {
-			encode = true
-		}
-	}
-
-	encoded := data
-	if encode && (writelibsvm || writeall) {
-		encoded = data.EncodeToNum()
-	}
-
 	trainis := make([]int, 0, foldsize*(folds-1))
 	//Write training and testing matrixes
 	for i := 0; i < folds; i++ {
@@ -256,8 +243,8 @@ func main() {
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW)
+			CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW)
+			CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW)
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From 10be1959b25f53be0b3bb27689c52e782731ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 31/69] fix: leafcount threads don't race on the recorded
 splits

---
 leafcount/leafcount.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index b32a58f..8219dc7 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 func main() {
@@ -23,6 +24,7 @@ func main() {
 	flag.Parse()
 
 	splits := make(map[string][]string)
+	var splitsMutex sync.Mutex
 
 	//Parse Data
 	data, err := CloudForest.LoadAFM(*fm)
@@ -86,6 +88,7 @@ func main() {
 						forest.Trees[i].Root.Climb(func(n *CloudForest.Node) {
 							if n.Splitter != nil {
 								name := n.Splitter.Feature
+								splitsMutex.Lock()
 								_, ok := splits[name]
 								if !ok {
 									splits[name] = make([]string, 0, 10)
@@ -102,6 +105,7 @@ func main() {
 									split = strings.Join(keys, ",")
 								}
 								splits[name] = append(splits[name], split)
+								splitsMutex.Unlock()
 							}
 						})
 					}
-- 
2.43.0


From e25abb2d22313a1abe31f3e3ba23789d3416d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 32/69] fix: every tree of a tested forest is its own tree

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4f3ae28..30c07a0 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -713,7 +713,7 @@ func main() {
 					if dotest && foresti == nForest-1 {
 						trees = append(trees, tree)
 
-						if treesStarted < nTrees-1 {
+						if treesStarted < nTrees {
 							//newtree := new(CloudForest.Tree)
 							tree = CloudForest.NewTree()
 							tree.Target = *targetname
-- 
2.43.0


From b7b645cbebb42252193b51082c4e5efa8eb518e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 33/69] fix: don't grow more than nTrees trees when there are
 more cores

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 30c07a0..58fa1ec 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -205,6 +205,11 @@ func main() {
 		nCores = 1
 	}
 
+	//every core grows at least one tree
+	if nTrees > 0 && nCores > nTrees {
+		nCores = nTrees
+	}
+
 	if nCores > 1 {
 
 		runtime.GOMAXPROCS(nCores)
-- 
2.43.0


From c14b79d194d5bc72201b35666bb8be15252f52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 34/69] fix: allocate enough space to vet splits on oob cases

---
 growforest/growforest.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 58fa1ec..30053ed 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -621,7 +621,12 @@ func main() {
 					depthUsed = &du
 				}
 
-				allocs := CloudForest.NewBestSplitAllocs(nSamples, targetf)
+				//vetting on oob cases needs space for more cases then where sampled
+				nAllocs := nSamples
+				if nAllocs < data.Data[0].Length() {
+					nAllocs = data.Data[0].Length()
+				}
+				allocs := CloudForest.NewBestSplitAllocs(nAllocs, targetf)
 				for {
 					nCases := data.Data[0].Length()
 					//sample nCases case with replacement
-- 
2.43.0


From 06aa54b0f73740a1cb44dc0f38ea7c5d5eba1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 35/69] fix: nobag uses every case that isn't missing the
 target

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 30053ed..7b00835 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -608,7 +608,7 @@ func main() {
 				oobcases := make([]int, 0, nNonMissing)
 
 				if nobag {
-					for i := 0; i < nNonMissing; i++ {
+					for i := 0; i < targetf.Length(); i++ {
 						if !targetf.IsMissing(i) {
 							cases = append(cases, i)
 						}
-- 
2.43.0


From 783d251a80cc36b5c8f46a7e7cea0bfb04d0cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 36/69] fix: multi threaded boosting ends when the weight
 reaches infinity

---
 growforest/growforest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 7b00835..b963f75 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -588,7 +588,6 @@ func main() {
 		var waitGroup sync.WaitGroup
 
 		waitGroup.Add(nCores)
-		treechan := make(chan *CloudForest.Tree, 0)
 		//fmt.Println("forest ", foresti)
 		//Grow a single forest on nCores
 		for core := 0; core < nCores; core++ {
@@ -694,7 +693,9 @@ func main() {
 						boostMutex.Unlock()
 						if weight == math.Inf(1) {
 							fmt.Printf("Boosting Reached Weight of %v\n", weight)
-							close(treechan)
+							if nCores > 1 {
+								waitGroup.Done()
+							}
 							break
 						}
 
-- 
2.43.0


From 3a28c7df022b1ad30c4a22a945dfa5175e8411e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 37/69] fix: testing doesn't panic when predicted classes are
 missing from the test data

---
 growforest/growforest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index b963f75..d6a899a 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -936,6 +936,12 @@ func main() {
 		fmt.Printf("Error: %v\n", bb.TallyError(testtarget))
 
 		if testtarget.NCats() != 0 {
+			//classes that are predicted but not present in the test data need counts too
+			for i := 0; i < testtarget.Length(); i++ {
+				if pred := bb.Tally(i); pred != "NA" {
+					testtarget.(*CloudForest.DenseCatFeature).CatToNum(pred)
+				}
+			}
 			falsesbypred := make([]int, testtarget.NCats())
 			predtotals := make([]int, testtarget.NCats())
 
-- 
2.43.0


From c82955e6fae86ba95a339f515e39232a85d49ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 38/69] fix: features used to split the root count as used in
 the importance output

---
 growforest/growforest.go |  2 +-
 tree.go                  | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index d6a899a..b5b0de7 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -679,7 +679,7 @@ func main() {
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
 							if v != 0 {
-								(*mmdpnt)[i].Add(float64(v))
+								(*mmdpnt)[i].Add(float64(v - 1))
 								(*depthUsed)[i] = 0
 							}
 
diff --git a/tree.go b/tree.go
index f41b06a..93c0a20 100644
--- a/tree.go
+++ b/tree.go
@@ -92,6 +92,9 @@ leafSize specifies the minimum number of cases at a leafNode.
 splitmissing indicates if missing values should be split onto a third branch
 
 vet indicates if splits should be penalized against a randomized version of them selves
+
+depthUsed, if not nil, records one plus the minimal depth at which each feature is used to
+split, so that zero means that the feature isn't used.
 */
 func (t *Tree) Grow(fm *FeatureMatrix,
 	target Target,
@@ -142,8 +145,8 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				if importance != nil {
 					(*importance)[fi].Add(impDec)
 				}
-				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
-					(*depthUsed)[fi] = depth
+				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth+1 < (*depthUsed)[fi]) {
+					(*depthUsed)[fi] = depth + 1
 				}
 				//not a leaf node so define the splitter and left and right nodes
 				//so recursion will continue
@@ -236,8 +239,8 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					if importance != nil {
 						(*importance)[fi].Add(impDec)
 					}
-					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
-						(*depthUsed)[fi] = depth
+					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth+1 < (*depthUsed)[fi]) {
+						(*depthUsed)[fi] = depth + 1
 					}
 
 					//not a leaf node so define the splitter and left and right nodes
-- 
2.43.0


From b8dd327cee0d39a9d4647ff58963eb97d21014dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 39/69] fix: GrowRandomForest doesn't sample cases that are
 missing the target

---
 forrest.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/forrest.go b/forrest.go
index 1965d53..9104143 100644
--- a/forrest.go
+++ b/forrest.go
@@ -53,9 +53,27 @@ func GrowRandomForest(fm *FeatureMatrix,
 	//Slices for reuse during search for best splitter.
 	allocs := NewBestSplitAllocs(nSamples, target)
 
+	//only cases that aren't missing the target can be learned from
+	known := make([]int, 0, fm.Data[0].Length())
+	if f, ok := target.(Feature); ok {
+		for i := 0; i < f.Length(); i++ {
+			if !f.IsMissing(i) {
+				known = append(known, i)
+			}
+		}
+	}
+
 	for i := 0; i < nTrees; i++ {
 		nCases := fm.Data[0].Length()
+		if len(known) > 0 {
+			nCases = len(known)
+		}
 		cases := SampleWithReplacment(nSamples, nCases)
+		if len(known) > 0 {
+			for j, c := range cases {
+				cases[j] = known[c]
+			}
+		}
 
 		f.Trees = append(f.Trees, NewTree())
 		f.Trees[i].Target = f.Target
-- 
2.43.0


From 1a6e700c460f7214d56d0a2b4de0f9a4b316ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 40/69] fix: calculate the variance without cancellation

---
 stats/stats.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 240c39d..88e8a9c 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -12,11 +12,13 @@ import (
 func MeanAndVar(X *[]float64) (m, v, n float64) {
 	for _, x := range *X {
 		m += x
-		v += x * x
 	}
 	n = float64(len(*X))
 	m /= n
-	v -= n * m * m
+	//summing the squared deviations is never negative and doesn't cancel for large means
+	for _, x := range *X {
+		v += (x - m) * (x - m)
+	}
 	v /= (n - 1.0)
 	return
 }
-- 
2.43.0


From 3fd90adeb58287673144f82df7e9979d8098d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 41/69] verif: record grown trees and their cases when built
 with the verif tag

---
 growforest/growforest.go   |   2 +
 growforest/verif_hook.go   | 105 +++++++++++++++++++++++++++++++++++++
 growforest/verif_nohook.go |   9 ++++
 3 files changed, 116 insertions(+)
 create mode 100644 growforest/verif_hook.go
 create mode 100644 growforest/verif_nohook.go

diff --git a/growforest/growforest.go b/growforest/growforest.go
index b5b0de7..03c5f4e 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -702,6 +702,8 @@ func main() {
 						tree.Weight = weight
 					}
 
+					verifTree(foresti, tree, cases)
+
 					if oob && foresti == nForest-1 {
 						tree.VoteCases(data, oobVotes, oobcases)
 					}
diff --git a/growforest/verif_hook.go b/growforest/verif_hook.go
new file mode 100644
index 0000000..20e7691
--- /dev/null
+++ b/growforest/verif_hook.go
@@ -0,0 +1,105 @@
+//go:build verif
+// +build verif
+
+package main
+
+import (
+	"encoding/json"
+	"log"
+	"math/rand"
+	"os"
+	"strconv"
+	"sync"
+	"time"
+
+	"github.com/ryanbressler/CloudForest"
+)
+
+// verifNode is the record of one node of a grown tree.
+type verifNode struct {
+	Pred     string
+	Splitter *verifSplitter
+	Left     *verifNode
+	Right    *verifNode
+	Missing  *verifNode
+}
+
+// verifSplitter is the record of the decoded splitter of a node.
+type verifSplitter struct {
+	Feature   string
+	Numerical bool
+	Value     string
+	Left      []string
+}
+
+type verifRecord struct {
+	Forest int
+	Weight string
+	Cases  []int
+	Root   *verifNode
+}
+
+var verifMutex sync.Mutex
+var verifFile *os.File
+var verifDelays *rand.Rand
+
+func init() {
+	if seed, err := strconv.ParseInt(os.Getenv("VERIF_DELAYS"), 10, 64); err == nil {
+		verifDelays = rand.New(rand.NewSource(seed))
+	}
+	if name := os.Getenv("VERIF_TREELOG"); name != "" {
+		f, err := os.Create(name)
+		if err != nil {
+			log.Fatal(err)
+		}
+		verifFile = f
+	}
+}
+
+func verifRecordNode(n *CloudForest.Node) *verifNode {
+	if n == nil {
+		return nil
+	}
+	r := &verifNode{Pred: n.Pred}
+	if s := n.Splitter; s != nil {
+		r.Splitter = &verifSplitter{Feature: s.Feature, Numerical: s.Numerical}
+		if s.Numerical {
+			r.Splitter.Value = strconv.FormatFloat(s.Value, 'g', -1, 64)
+		} else {
+			r.Splitter.Left = make([]string, 0, len(s.Left))
+			for k, in := range s.Left {
+				if in {
+					r.Splitter.Left = append(r.Splitter.Left, k)
+				}
+			}
+		}
+	}
+	r.Left = verifRecordNode(n.Left)
+	r.Right = verifRecordNode(n.Right)
+	r.Missing = verifRecordNode(n.Missing)
+	return r
+}
+
+// verifTree records a tree and the cases it was grown from as a line of json in the
+// file named by VERIF_TREELOG and delays the calling go routine if VERIF_DELAYS holds
+// the seed of the delays.
+func verifTree(foresti int, tree *CloudForest.Tree, cases []int) {
+	if verifFile != nil {
+		line, err := json.Marshal(&verifRecord{foresti, strconv.FormatFloat(tree.Weight, 'g', -1, 64), cases, verifRecordNode(tree.Root)})
+		if err != nil {
+			log.Fatal(err)
+		}
+		verifMutex.Lock()
+		_, err = verifFile.Write(append(line, '\n'))
+		verifMutex.Unlock()
+		if err != nil {
+			log.Fatal(err)
+		}
+	}
+	if verifDelays != nil {
+		verifMutex.Lock()
+		d := verifDelays.Intn(2000)
+		verifMutex.Unlock()
+		time.Sleep(time.Duration(d) * time.Microsecond)
+	}
+}
diff --git a/growforest/verif_nohook.go b/growforest/verif_nohook.go
new file mode 100644
index 0000000..92aaed8
--- /dev/null
+++ b/growforest/verif_nohook.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package main
+
+import "github.com/ryanbressler/CloudForest"
+
+// verifTree does nothing unless growforest is built with the verif build tag.
+func verifTree(foresti int, tree *CloudForest.Tree, cases []int) {}
-- 
2.43.0


From 0b48635c228241e4de8c1c826552b92ebc35eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 42/69] fix: stop drawing candidate features when there are
 none left

An mTry larger than the number of candidates ran past their end.
---
 featurematrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featurematrix.go b/featurematrix.go
index e827e39..92f081f 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -213,6 +213,9 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 			cans[randi] = cans[lastSample]
 			cans[lastSample] = swap
 
+		} else {
+			//all of the candidates have been drawn
+			return
 		}
 		i := cans[lastSample]
 
-- 
2.43.0


From c2b496d7c6f9019a5816625031f8581683e3a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 43/69] fix: jungles don't take features for constant that
 aren't

The constants found by a node are marked by their position in the list of
candidates which the nodes of the same level rearrange before the node's
children are split.
---
 tree.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/tree.go b/tree.go
index 93c0a20..14b2e2d 100644
--- a/tree.go
+++ b/tree.go
@@ -3,12 +3,11 @@ package CloudForest
 import ()
 
 type nodeAndCases struct {
-	n          *Node
-	start      int
-	end        int
-	nconstants int
-	parent     *Node
-	dead       bool
+	n      *Node
+	start  int
+	end    int
+	parent *Node
+	dead   bool
 }
 
 //Tree represents a single decision tree.
@@ -208,8 +207,8 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 
 	//var innercanidates []int
 	var impDec float64
-	nodes := []nodeAndCases{nodeAndCases{t.Root, 0, len(cases), 0, nil, false}}
-	var depth, nconstants, start, end, fi, firstThisLevel int
+	nodes := []nodeAndCases{nodeAndCases{t.Root, 0, len(cases), nil, false}}
+	var depth, start, end, fi, firstThisLevel int
 	var split interface{}
 
 	innercases := cases[0:len(cases)]
@@ -229,11 +228,12 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			start = node.start
 			end = node.end
 			innercases = cases[node.start:node.end]
-			nconstants = node.nconstants
 
 			if (depth < maxDepth || maxDepth <= 0) && (2*leafSize) <= len(innercases) {
 
-				fi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstants)
+				//the constants a parent found can't be passed on as they are marked by their
+				//position in candidates which the other nodes of a level change
+				fi, split, impDec, _ = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, 0)
 
 				if split != nil {
 					if importance != nil {
@@ -254,18 +254,18 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 
 					//Left
 					n.Left = new(Node)
-					nodes = append(nodes, nodeAndCases{n.Left, start, start + li, nconstants, n, false})
+					nodes = append(nodes, nodeAndCases{n.Left, start, start + li, n, false})
 
 					//Right
 					n.Right = new(Node)
-					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
+					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, n, false})
 
 					//without missing cases there is nothing to predict from
 					n.Missing = nil
 					if splitmissing {
 						if li != ri {
 							n.Missing = new(Node)
-							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
+							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, n, false})
 						}
 					}
 
-- 
2.43.0


From a92fcac143b35ff51c46b8c28569ae0e321697f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 44/69] fix: applyforest doesn't panic when voting of another
 type than the target's is forced

-mean for a forest that predicts numbers for a categorical target, and -mode for
a numerical one, ended in the type assertions of the error tally if the data had
the target.
---
 applyforest/applyforest.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 24689d2..ed59ef9 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -74,8 +74,16 @@ func main() {
 	targeti, hasTarget := data.Map[forest.Target]
 	if hasTarget {
 		fmt.Printf("Target is %v in feature %v\n", forest.Target, targeti)
-		er := bb.TallyError(data.Data[targeti])
-		fmt.Printf("Error: %v\n", er)
+		_, catTarget := data.Data[targeti].(CloudForest.CatFeature)
+		_, catVotes := bb.(*CloudForest.CatBallotBox)
+		_, numVotes := bb.(*CloudForest.NumBallotBox)
+		if catVotes && !catTarget || numVotes && catTarget {
+			//forced voting of another type than the target's has no error
+			fmt.Println("Error: not defined for this type of voting")
+		} else {
+			er := bb.TallyError(data.Data[targeti])
+			fmt.Printf("Error: %v\n", er)
+		}
 	}
 	if *predfn != "" {
 		fmt.Printf("Outputting label predicted actual tsv to %v\n", *predfn)
-- 
2.43.0


From 42bd2c874566e1c0cc08ee19ea32e0825c2c0af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 45/69] fix: numeric adaptive boosting weights don't overflow
 for large errors

---
 numadaboostingtarget.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ca29da1..636906e 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -98,17 +98,31 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 	}
 	weight = math.Log(norm / imp)
 
+	//weights are normalized so all exponents can be shifted to keep large ones from
+	//overflowing
+	exps := make([]float64, len(t.Weights))
 	for _, cases := range *leaves {
 		m := t.Predicted(&cases)
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
-				t.Weights[c] = t.Weights[c] * math.Exp(weight*(t.Norm(c, m)-imp))
+				exps[c] = weight * (t.Norm(c, m) - imp)
 			}
 
 		}
 	}
+	max := math.Inf(-1)
+	for i, v := range exps {
+		if t.Weights[i] > 0 && v > max {
+			max = v
+		}
+	}
 
 	normfactor := 0.0
+	for i, v := range exps {
+		if t.Weights[i] > 0 {
+			t.Weights[i] *= math.Exp(v - max)
+		}
+	}
 	for _, v := range t.Weights {
 		normfactor += v
 	}
-- 
2.43.0


From f6de00f936d776d99957ec2b5de20a4c8184bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 46/69] fix: balanced samplers don't panic when a class has no
 cases to sample

---
 sampeling.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sampeling.go b/sampeling.go
index de4afbb..e7116a6 100644
--- a/sampeling.go
+++ b/sampeling.go
@@ -28,9 +28,21 @@ func NewBalancedSampler(catf *DenseCatFeature) (s *BalancedSampler) {
 			s.Cases[v] = append(s.Cases[v], i)
 		}
 	}
+	s.Cases = dropEmpty(s.Cases)
 	return
 }
 
+//dropEmpty removes classes that no case can be sampled from.
+func dropEmpty(classes [][]int) [][]int {
+	present := classes[0:0]
+	for _, cases := range classes {
+		if len(cases) > 0 {
+			present = append(present, cases)
+		}
+	}
+	return present
+}
+
 //Sample samples n integers in a balnced-with-replacment fashion into the provided array.
 func (s *BalancedSampler) Sample(samples *[]int, n int) {
 	(*samples) = (*samples)[0:0]
@@ -73,6 +85,9 @@ func NewSecondaryBalancedSampler(target *DenseCatFeature, balanceby *DenseCatFea
 			s.Samplers[balanceCat][targetCat] = append(s.Samplers[balanceCat][targetCat], i)
 		}
 	}
+	for i := range s.Samplers {
+		s.Samplers[i] = dropEmpty(s.Samplers[i])
+	}
 	return
 
 }
-- 
2.43.0


From eb404dfcb494d8fa0a42c041b33d3a62acc2b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 47/69] fix: feature names of less than two characters can be
 parsed

---
 featurematrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 92f081f..fbedf99 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -371,7 +371,7 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			//features in cols
 
 			for i, label := range headers {
-				if label[:2] == "N:" {
+				if strings.HasPrefix(label, "N:") {
 					data = append(data, &DenseNumFeature{
 						make([]float64, 0, 0),
 						make([]bool, 0, 0),
@@ -453,8 +453,8 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 //"N:"" indicating numerical, anything else (usually "C:" and "B:") for categorical
 func ParseFeature(record []string) Feature {
 	capacity := len(record)
-	switch record[0][0:2] {
-	case "N:":
+	switch {
+	case strings.HasPrefix(record[0], "N:"):
 		f := &DenseNumFeature{
 			nil,
 			make([]bool, 0, capacity),
-- 
2.43.0


From 94943c17deb480acc71e55c71a15c9d3fb5f708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 48/69] fix: cases that are missing the target don't count in
 adaptive boosting

---
 adaboosttarget.go       | 11 ++++++++++-
 adacosttarget.go        | 11 ++++++++++-
 numadaboostingtarget.go | 13 +++++++++++--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 7b18f0f..a13e19a 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -19,8 +19,17 @@ NewAdaBoostTarget creates a categorical adaptive boosting target and initializes
 func NewAdaBoostTarget(f CatFeature) (abt *AdaBoostTarget) {
 	nCases := f.Length()
 	abt = &AdaBoostTarget{f, make([]float64, nCases)}
+	known := 0.0
 	for i := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
+		if !f.IsMissing(i) {
+			known++
+		}
+	}
+	//cases that are missing the target have no weight
+	for i := range abt.Weights {
+		if !f.IsMissing(i) {
+			abt.Weights[i] = 1 / known
+		}
 	}
 	return
 }
diff --git a/adacosttarget.go b/adacosttarget.go
index 85d2ccd..d971ebe 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -26,8 +26,17 @@ NewAdaCostTarget creates a categorical adaptive boosting target and initializes
 func NewAdaCostTarget(f CatFeature) (abt *AdaCostTarget) {
 	nCases := f.Length()
 	abt = &AdaCostTarget{f, make([]float64, nCases), make([]float64, f.NCats())}
+	known := 0.0
 	for i := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
+		if !f.IsMissing(i) {
+			known++
+		}
+	}
+	//cases that are missing the target have no weight
+	for i := range abt.Weights {
+		if !f.IsMissing(i) {
+			abt.Weights[i] = 1 / known
+		}
 	}
 	return
 }
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 636906e..7595d23 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -18,11 +18,20 @@ func NewNumAdaBoostTarget(f NumFeature) (abt *NumAdaBoostTarget) {
 	nCases := f.Length()
 	abt = &NumAdaBoostTarget{f, make([]float64, nCases), 0.0}
 	cases := make([]int, nCases)
+	known := 0.0
 	for i, _ := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
 		cases[i] = i
+		if !f.IsMissing(i) {
+			known++
+		}
+	}
+	//cases that are missing the target have no weight
+	for i, _ := range abt.Weights {
+		if !f.IsMissing(i) {
+			abt.Weights[i] = 1 / known
+		}
 	}
-	abt.NormFactor = abt.Impurity(&cases, nil) * float64(nCases)
+	abt.NormFactor = abt.Impurity(&cases, nil) * known
 	return
 }
 
-- 
2.43.0


From b01df4138d6c71b8115a57b8c1f894ea03f3672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 49/69] fix: leaves of saturated cases predict no change
 instead of NaN in gradient boosting classification

---
 gradboostclasstarget.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 356fd31..6de951d 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -107,6 +107,11 @@ func (f *GradBoostClassTarget) Predicted(cases *[]int) float64 {
 
 	}
 
+	//the predictions for all of the cases are saturated and can't be improved
+	if math.Abs(denom) < 1e-150 {
+		return 0.0
+	}
+
 	return num / denom // 1.0 / (1.0 + math.Exp(-1*meanlogodds))
 }
 
-- 
2.43.0


From edfd43dbacb79cf6a1ac576934f8c4ba67c5d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 50/69] fix: cases that are missing the target don't vote for
 the label of a boosted leaf

---
 adaboosttarget.go | 16 ++++++++++++++++
 adacosttarget.go  |  1 +
 2 files changed, 17 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index a13e19a..bf3f1df 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -123,6 +123,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 //returns the weight that tree that generated the partition should be given.
 func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
+	leaves = knownLeaves(t, leaves)
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
@@ -170,3 +171,18 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 	}
 	return
 }
+
+//knownLeaves leaves the cases that are missing the target out of a partition.
+func knownLeaves(target CatFeature, leaves *[][]int) *[][]int {
+	known := make([][]int, 0, len(*leaves))
+	for _, cases := range *leaves {
+		leaf := make([]int, 0, len(cases))
+		for _, c := range cases {
+			if !target.IsMissing(c) {
+				leaf = append(leaf, c)
+			}
+		}
+		known = append(known, leaf)
+	}
+	return &known
+}
diff --git a/adacosttarget.go b/adacosttarget.go
index d971ebe..38cb988 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -139,6 +139,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 //returns the weight that tree that generated the partition should be given.
 func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
+	leaves = knownLeaves(t, leaves)
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
-- 
2.43.0


From 8cb9f1d1a367b287e10ab9abb740112d2a5f3d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 51/69] fix: integer attributes of arff files are numerical

---
 arff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arff.go b/arff.go
index 8c1b841..7070fbd 100644
--- a/arff.go
+++ b/arff.go
@@ -37,7 +37,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 		if strings.HasPrefix(norm, "@attribute") {
 			vals := strings.Fields(line)
 
-			if strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" {
+			if t := strings.ToLower(vals[2]); t == "numeric" || t == "real" || t == "integer" {
 				data = append(data, &DenseNumFeature{
 					make([]float64, 0, 0),
 					make([]bool, 0, 0),
-- 
2.43.0


From d071f7b45c63e2b4df969c67a40634adfe68d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 52/69] fix: spaces after the commas of arff files aren't part
 of the values

---
 arff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arff.go b/arff.go
index 7070fbd..8687581 100644
--- a/arff.go
+++ b/arff.go
@@ -65,6 +65,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 	csvdata := csv.NewReader(reader)
 	csvdata.Comment = '%'
+	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
 	fm.LoadCases(csvdata, false)
-- 
2.43.0


From 65a5263d9868f4333a87177e6dfdeddc732a9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 53/69] fix: blank lines of libsvm files are skipped

---
 libsvm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libsvm.go b/libsvm.go
index 6820ab8..43a7506 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -32,6 +32,11 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		}
 
 		vals := strings.Fields(line)
+		if len(vals) == 0 {
+			//blank lines aren't cases
+			ncases--
+			continue
+		}
 
 		if i == 0 {
 			name := "0"
-- 
2.43.0


From 72e31df39210cdeec00dd6b0e8076b9007343fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 54/69] fix: features without any values aren't imputed

---
 densecatfeature.go | 8 ++++++++
 densenumfeature.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index b64417e..31133a8 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1228,6 +1228,14 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
 func (f *DenseCatFeature) ImputeMissing() {
+	known := false
+	for _, m := range f.Missing {
+		known = known || !m
+	}
+	if !known {
+		//there is nothing to impute from
+		return
+	}
 	cases := make([]int, 0, len(f.Missing))
 	for i := range f.Missing {
 		cases = append(cases, i)
diff --git a/densenumfeature.go b/densenumfeature.go
index ee22ba1..ccdff23 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -674,6 +674,14 @@ func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
 func (f *DenseNumFeature) ImputeMissing() {
+	known := false
+	for _, m := range f.Missing {
+		known = known || !m
+	}
+	if !known {
+		//there is nothing to impute from
+		return
+	}
 	cases := make([]int, 0, len(f.Missing))
 	for i, _ := range f.Missing {
 		cases = append(cases, i)
-- 
2.43.0


From a990005b4ca9d4cf748879e0c347ca036c3493d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 55/69] fix: writing cases as libsvm doesn't panic for
 categorical features without categories

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 43a7506..616374f 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -165,7 +165,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 	encode := false
 	for i, f := range data.Data {
 		if i != targeti {
-			if data.Data[i].NCats() > 0 {
+			if _, ok := f.(CatFeature); ok {
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-- 
2.43.0


From 2bdac527aceacbd00b75347924da75b2b8868e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 56/69] verif: record the data every forest is grown on if
 built with the verif tag

---
 growforest/growforest.go   |  1 +
 growforest/verif_hook.go   | 47 ++++++++++++++++++++++++++++++++++++++
 growforest/verif_nohook.go |  3 +++
 3 files changed, 51 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 03c5f4e..58908d9 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -582,6 +582,7 @@ func main() {
 	trainingStart := time.Now()
 
 	for foresti := 0; foresti < nForest; foresti++ {
+		verifData(foresti, data)
 		var treesStarted, treesFinished int
 		treesStarted = nCores
 		var recordingTree sync.Mutex
diff --git a/growforest/verif_hook.go b/growforest/verif_hook.go
index 20e7691..786aebc 100644
--- a/growforest/verif_hook.go
+++ b/growforest/verif_hook.go
@@ -42,6 +42,7 @@ type verifRecord struct {
 var verifMutex sync.Mutex
 var verifFile *os.File
 var verifDelays *rand.Rand
+var verifDataFile *os.File
 
 func init() {
 	if seed, err := strconv.ParseInt(os.Getenv("VERIF_DELAYS"), 10, 64); err == nil {
@@ -54,6 +55,52 @@ func init() {
 		}
 		verifFile = f
 	}
+	if name := os.Getenv("VERIF_DATALOG"); name != "" {
+		f, err := os.Create(name)
+		if err != nil {
+			log.Fatal(err)
+		}
+		verifDataFile = f
+	}
+}
+
+// verifFeature is the record of the values of a feature, nil where they are missing.
+type verifFeature struct {
+	Name   string
+	Num    bool
+	Values []*string
+}
+
+type verifFrame struct {
+	Forest   int
+	Features []*verifFeature
+}
+
+// verifData records the data a forest is about to be grown on as a line of json in the
+// file named by VERIF_DATALOG.
+func verifData(foresti int, data *CloudForest.FeatureMatrix) {
+	if verifDataFile == nil {
+		return
+	}
+	frame := &verifFrame{Forest: foresti}
+	for _, f := range data.Data {
+		_, num := f.(*CloudForest.DenseNumFeature)
+		rec := &verifFeature{Name: f.GetName(), Num: num, Values: make([]*string, f.Length())}
+		for i := range rec.Values {
+			if !f.IsMissing(i) {
+				v := f.GetStr(i)
+				rec.Values[i] = &v
+			}
+		}
+		frame.Features = append(frame.Features, rec)
+	}
+	line, err := json.Marshal(frame)
+	if err != nil {
+		log.Fatal(err)
+	}
+	if _, err = verifDataFile.Write(append(line, '\n')); err != nil {
+		log.Fatal(err)
+	}
 }
 
 func verifRecordNode(n *CloudForest.Node) *verifNode {
diff --git a/growforest/verif_nohook.go b/growforest/verif_nohook.go
index 92aaed8..46329ce 100644
--- a/growforest/verif_nohook.go
+++ b/growforest/verif_nohook.go
@@ -7,3 +7,6 @@ import "github.com/ryanbressler/CloudForest"
 
 // verifTree does nothing unless growforest is built with the verif build tag.
 func verifTree(foresti int, tree *CloudForest.Tree, cases []int) {}
+
+// verifData does nothing unless growforest is built with the verif build tag.
+func verifData(foresti int, data *CloudForest.FeatureMatrix) {}
-- 
2.43.0


From 0143b1a5379accd982b5ab0506c839ceed6249b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 57/69] fix: merging nodes of jungles redirects everything that
 leads to them

A node that had absorbed others was only disconnected from the parent it was
made for when it was merged into another node, so cases from the other
parents ended up in a dead node without a prediction.
---
 tree.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tree.go b/tree.go
index 14b2e2d..e8c5ad4 100644
--- a/tree.go
+++ b/tree.go
@@ -332,14 +332,17 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					nj := nodes[combine]
 					nodei.end = nj.end
 					nodes[i].end = nj.end
-					parent := nj.parent
-					switch nj.n {
-					case parent.Left:
-						parent.Left = nodei.n
-					case parent.Right:
-						parent.Right = nodei.n
-					case parent.Missing:
-						parent.Missing = nodei.n
+					//nodes that were merged into nj lead to it too
+					for _, parent := range nodes[firstThisLevel:lastThisLevel] {
+						if parent.n.Left == nj.n {
+							parent.n.Left = nodei.n
+						}
+						if parent.n.Right == nj.n {
+							parent.n.Right = nodei.n
+						}
+						if parent.n.Missing == nj.n {
+							parent.n.Missing = nodei.n
+						}
 					}
 
 				}
-- 
2.43.0


From b662b7a2fde8557970f9b0c7307cc0e7b2a006f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 58/69] fix: LoadAFM reports data that can't be read to its end

A row with another number of fields, a stray quote or a damaged zip file ended
the reading of a file early, and the tools went on without the rest of it.
---
 arff.go          | 11 ++++++++---
 featurematrix.go | 41 ++++++++++++++++++++++++-----------------
 libsvm.go        |  9 +++++++--
 3 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/arff.go b/arff.go
index 8687581..4c5d528 100644
--- a/arff.go
+++ b/arff.go
@@ -13,6 +13,11 @@ import (
 //http://www.cs.waikato.ac.nz/ml/weka/arff.html
 //The relation is ignored and only catagorical and numerical variables are supported
 func ParseARFF(input io.Reader) *FeatureMatrix {
+	fm, _ := parseARFF(input)
+	return fm
+}
+
+func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 
 	reader := bufio.NewReader(input)
 
@@ -26,7 +31,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 		line, err := reader.ReadString('\n')
 		if err != nil {
 			log.Print("Error:", err)
-			return nil
+			return nil, err
 		}
 		norm := strings.ToLower(line)
 
@@ -68,8 +73,8 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
-	fm.LoadCases(csvdata, false)
-	return fm
+	err := fm.LoadCases(csvdata, false)
+	return fm, err
 
 }
 
diff --git a/featurematrix.go b/featurematrix.go
index fbedf99..be2cf9a 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -319,16 +319,16 @@ func (fm *FeatureMatrix) ImputeMissing() {
 //LoadCases will load data stored case by case from a cvs reader into a
 //feature matrix that has allready been filled with the coresponding empty
 //features. It is a lower level method generally called after inital setup to parse
-//a fm, arff, csv etc.
-func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
+//a fm, arff, csv etc. It stops at and returns the first error of the reader.
+func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) error {
 	count := 0
 	for {
 		record, err := data.Read()
 		if err == io.EOF {
-			break
+			return nil
 		} else if err != nil {
 			log.Print("Error:", err)
-			break
+			return err
 		}
 
 		caselabel := fmt.Sprintf("%v", count)
@@ -352,16 +352,22 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 //N: indicating numerical, C: indicating categorical or B: indicating boolean
 //For this parser features without N: are assumed to be categorical
 func ParseAFM(input io.Reader) *FeatureMatrix {
+	fm, _ := parseAFM(input)
+	return fm
+}
+
+//parseAFM returns what could be parsed and the error that kept it from parsing the rest
+func parseAFM(input io.Reader) (*FeatureMatrix, error) {
 	data := make([]Feature, 0, 100)
 	lookup := make(map[string]int, 0)
 	tsv := csv.NewReader(input)
 	tsv.Comma = '\t'
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, headers[1:]}, nil
 	} else if err != nil {
 		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, headers[1:]}, err
 	}
 	headers = headers[1:]
 
@@ -392,26 +398,27 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			}
 
 			fm := &FeatureMatrix{data, lookup, make([]string, 0, 0)}
-			fm.LoadCases(tsv, true)
-			return fm
+			err = fm.LoadCases(tsv, true)
+			return fm, err
 		}
 	}
 
 	//features in rows
 	count := 0
 	for {
-		record, err := tsv.Read()
-		if err == io.EOF {
+		record, rerr := tsv.Read()
+		if rerr == io.EOF {
 			break
-		} else if err != nil {
-			log.Print("Error:", err)
+		} else if rerr != nil {
+			log.Print("Error:", rerr)
+			err = rerr
 			break
 		}
 		data = append(data, ParseFeature(record))
 		lookup[record[0]] = count
 		count++
 	}
-	return &FeatureMatrix{data, lookup, headers}
+	return &FeatureMatrix{data, lookup, headers}, err
 }
 
 //LoadAFM loads a, possible zipped, FeatureMatrix specified by filename
@@ -421,7 +428,7 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 	if err == nil {
 		rc, err := r.File[0].Open()
 		if err == nil {
-			fm = ParseAFM(rc)
+			fm, err = parseAFM(rc)
 			rc.Close()
 			return fm, err
 		}
@@ -434,11 +441,11 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 
 	switch {
 	case strings.HasSuffix(filename, ".arff"):
-		fm = ParseARFF(datafile)
+		fm, err = parseARFF(datafile)
 	case strings.HasSuffix(filename, ".libsvm"):
-		fm = ParseLibSVM(datafile)
+		fm, err = parseLibSVM(datafile)
 	default:
-		fm = ParseAFM(datafile)
+		fm, err = parseAFM(datafile)
 	}
 
 	datafile.Close()
diff --git a/libsvm.go b/libsvm.go
index 616374f..a897ebf 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -11,6 +11,11 @@ import (
 )
 
 func ParseLibSVM(input io.Reader) *FeatureMatrix {
+	fm, _ := parseLibSVM(input)
+	return fm
+}
+
+func parseLibSVM(input io.Reader) (*FeatureMatrix, error) {
 	reader := bufio.NewReader(input)
 
 	data := make([]Feature, 0, 100)
@@ -28,7 +33,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 			break
 		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
-			return nil
+			return nil, err
 		}
 
 		vals := strings.Fields(line)
@@ -98,7 +103,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 
 	fm := &FeatureMatrix{data, lookup, labels}
 
-	return fm
+	return fm, nil
 
 }
 
-- 
2.43.0


From cc45770528c5aa277ad73d7d4a09405fd673d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 59/69] fix: writing arff and libsvm files reports errors

The writers are buffered and weren't asked for errors after flushing, and those
of the arff header were ignored.
---
 arff.go   | 14 ++++++++++----
 libsvm.go |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/arff.go b/arff.go
index 4c5d528..9be3b8d 100644
--- a/arff.go
+++ b/arff.go
@@ -85,7 +85,9 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 	  @ATTRIBUTE sepallength  NUMERIC
 	  @ATTRIBUTE class        {Iris-setosa,Iris-versicolor,Iris-virginica}*/
 
-	fmt.Fprintf(outfile, "@RELATION %v\n\n", relation)
+	if _, err := fmt.Fprintf(outfile, "@RELATION %v\n\n", relation); err != nil {
+		return err
+	}
 
 	for _, f := range data.Data {
 		ftype := "NUMERIC"
@@ -94,10 +96,14 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			ftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))
 		}
 
-		fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		if _, err := fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype); err != nil {
+			return err
+		}
 	}
 
-	fmt.Fprint(outfile, "\n@DATA\n")
+	if _, err := fmt.Fprint(outfile, "\n@DATA\n"); err != nil {
+		return err
+	}
 
 	oucsv := csv.NewWriter(outfile)
 	oucsv.Comma = ','
@@ -121,5 +127,5 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
diff --git a/libsvm.go b/libsvm.go
index a897ebf..aacbbb5 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -155,7 +155,7 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
 
 func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile io.Writer) error {
@@ -213,5 +213,5 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
-- 
2.43.0


From 0c098a188423876b6b2f5f74f4b0c107e487185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 60/69] fix: nfold stops if a fold can't be written

---
 utils/nfold/main.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index 39a5321..6f41706 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -231,20 +231,32 @@ func main() {
 
 		if writearff || writeall {
 			trainW, testW := openfiles(trainfn+".arff", testfn+".arff")
-			CloudForest.WriteArffCases(data, foldis[i], *targetname, testW)
-			CloudForest.WriteArffCases(data, trainis, *targetname, trainW)
+			if err := CloudForest.WriteArffCases(data, foldis[i], *targetname, testW); err != nil {
+				log.Fatal(err)
+			}
+			if err := CloudForest.WriteArffCases(data, trainis, *targetname, trainW); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if ((!writelibsvm) && (!writearff)) || writeall {
 			trainW, testW := openfiles(trainfn, testfn)
-			data.WriteCases(testW, foldis[i])
-			data.WriteCases(trainW, trainis)
+			if err := data.WriteCases(testW, foldis[i]); err != nil {
+				log.Fatal(err)
+			}
+			if err := data.WriteCases(trainW, trainis); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW)
+			if err := CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW); err != nil {
+				log.Fatal(err)
+			}
+			if err := CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From 9fdc2e5916480c4fe80c3801efa60b1ff11a839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 61/69] fix: growforest stops if its outputs can't be written

ForestWriter ignored errors of the writer, so growforest reported success for
forests, importances and out of bag predictions that were cut off.
---
 forestwriter.go          | 56 +++++++++++++++++++++++++++-------------
 growforest/growforest.go | 25 ++++++++++++++----
 2 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 766b558..75fd6b0 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -22,61 +22,80 @@ func NewForestWriter(w io.Writer) *ForestWriter {
 	return &ForestWriter{w}
 }
 
-//WriteForest writes an entire forest including all headers.
-func (fw *ForestWriter) WriteForest(forest *Forest) {
+//WriteForest writes an entire forest including all headers. Like the other methods it
+//returns the first error of the underlying writer.
+func (fw *ForestWriter) WriteForest(forest *Forest) error {
 	if forest.Intercept != 0.0 {
-		fw.WriteForestHeader(0, forest.Target, forest.Intercept)
+		if err := fw.WriteForestHeader(0, forest.Target, forest.Intercept); err != nil {
+			return err
+		}
 	}
 	for i, tree := range forest.Trees {
-		fw.WriteTree(tree, i)
+		if err := fw.WriteTree(tree, i); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 //WriteTree writes an entire Tree including the header.
-func (fw *ForestWriter) WriteTree(tree *Tree, ntree int) {
-	fw.WriteTreeHeader(ntree, tree.Target, tree.Weight)
-	fw.WriteNodeAndChildren(tree.Root, "*")
+func (fw *ForestWriter) WriteTree(tree *Tree, ntree int) error {
+	if err := fw.WriteTreeHeader(ntree, tree.Target, tree.Weight); err != nil {
+		return err
+	}
+	return fw.WriteNodeAndChildren(tree.Root, "*")
 }
 
 //WrieTreeHeader writes only the header line for a tree.
-func (fw *ForestWriter) WriteTreeHeader(ntree int, target string, weight float64) {
+func (fw *ForestWriter) WriteTreeHeader(ntree int, target string, weight float64) error {
 	weightterm := ""
 	if weight >= 0.0 {
 		weightterm = fmt.Sprintf(",WEIGHT=%v", weight)
 	}
-	fmt.Fprintf(fw.w, "TREE=%v,TARGET=\"%v\"%v\n", ntree, target, weightterm)
+	_, err := fmt.Fprintf(fw.w, "TREE=%v,TARGET=\"%v\"%v\n", ntree, target, weightterm)
+	return err
 }
 
 //WrieTreeHeader writes only the header line for a tree.
-func (fw *ForestWriter) WriteForestHeader(nforest int, target string, intercept float64) {
+func (fw *ForestWriter) WriteForestHeader(nforest int, target string, intercept float64) error {
 	interceptterm := ""
 	if intercept != 0.0 {
 		interceptterm = fmt.Sprintf(",INTERCEPT=%v", intercept)
 	}
-	fmt.Fprintf(fw.w, "FOREST=%v,TARGET=\"%v\"%v\n", nforest, target, interceptterm)
+	_, err := fmt.Fprintf(fw.w, "FOREST=%v,TARGET=\"%v\"%v\n", nforest, target, interceptterm)
+	return err
 }
 
 //WriteNodeAndChildren recursively writes out the target node and all of its children.
 //WriteTree is preferred for most use cases.
-func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
+func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) error {
 
-	fw.WriteNode(n, path)
+	if err := fw.WriteNode(n, path); err != nil {
+		return err
+	}
 	if n.Splitter != nil && n.Left != nil {
-		fw.WriteNodeAndChildren(n.Left, path+"L")
+		if err := fw.WriteNodeAndChildren(n.Left, path+"L"); err != nil {
+			return err
+		}
 	}
 	if n.Splitter != nil && n.Right != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"R")
+		if err := fw.WriteNodeAndChildren(n.Right, path+"R"); err != nil {
+			return err
+		}
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Missing, path+"M")
+		if err := fw.WriteNodeAndChildren(n.Missing, path+"M"); err != nil {
+			return err
+		}
 	}
+	return nil
 
 }
 
 //WriteNode writes a single node but not it's children. WriteTree will be used more
 //often but WriteNode can be used to grow a large tree directly to disk without
 //storing it in memory.
-func (fw *ForestWriter) WriteNode(n *Node, path string) {
+func (fw *ForestWriter) WriteNode(n *Node, path string) error {
 	node := fmt.Sprintf("NODE=%v", path)
 	if n.Pred != "" {
 		if strings.Contains(n.Pred, ",") {
@@ -97,7 +116,8 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 			node += fmt.Sprintf(",SPLITTERTYPE=CATEGORICAL,LVALUES=%v", left)
 		}
 	}
-	fmt.Fprintln(fw.w, node)
+	_, err := fmt.Fprintln(fw.w, node)
+	return err
 }
 
 //DescribeMap serializes the "left" map of a categorical splitter.
diff --git a/growforest/growforest.go b/growforest/growforest.go
index 58908d9..f5ac5d0 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -528,7 +528,10 @@ func main() {
 		forestwriter = CloudForest.NewForestWriter(forestfile)
 		switch target.(type) {
 		case CloudForest.TargetWithIntercept:
-			forestwriter.WriteForestHeader(0, *targetname, target.(CloudForest.TargetWithIntercept).Intercept())
+			err = forestwriter.WriteForestHeader(0, *targetname, target.(CloudForest.TargetWithIntercept).Intercept())
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 	//****************** Setup For ACE ********************************//
@@ -715,7 +718,10 @@ func main() {
 					}
 
 					if forestwriter != nil && foresti == nForest-1 {
-						forestwriter.WriteTree(tree, treesFinished)
+						err := forestwriter.WriteTree(tree, treesFinished)
+						if err != nil {
+							log.Fatal(err)
+						}
 					}
 
 					if scikitforest != "" {
@@ -869,7 +875,10 @@ func main() {
 		}
 		defer caseoobfile.Close()
 		for i := 0; i < unboostedTarget.Length(); i++ {
-			fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			_, err = fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
@@ -886,7 +895,10 @@ func main() {
 
 				p, _, _, m := stats.Ttest(&aceImps[i], &aceImps[i+firstace])
 
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				_, err = fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				if err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		} else {
@@ -894,7 +906,10 @@ func main() {
 			for i, v := range *imppnt {
 				mean, count := v.Read()
 				meanMinDepth, treeCount := (*mmdpnt)[i].Read()
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				_, err = fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				if err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		}
-- 
2.43.0


From 63f3dcbbad544013586071ecd1e31a51943b0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 62/69] fix: applyforest stops if its outputs can't be written

---
 applyforest/applyforest.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index ed59ef9..e0dd6b2 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"github.com/ryanbressler/CloudForest"
@@ -110,7 +111,10 @@ func main() {
 			} else {
 				result = bb.Tally(i)
 			}
-			fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual)
+			_, err = fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual)
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
@@ -123,25 +127,31 @@ func main() {
 			log.Fatal(err)
 		}
 		defer votefile.Close()
-		fmt.Fprintf(votefile, ".")
+		votes := bufio.NewWriter(votefile)
+		fmt.Fprintf(votes, ".")
 
 		for _, lable := range cbb.CatMap.Back {
-			fmt.Fprintf(votefile, "\t%v", lable)
+			fmt.Fprintf(votes, "\t%v", lable)
 		}
-		fmt.Fprintf(votefile, "\n")
+		fmt.Fprintf(votes, "\n")
 
 		for i, box := range cbb.Box {
-			fmt.Fprintf(votefile, "%v", data.CaseLabels[i])
+			fmt.Fprintf(votes, "%v", data.CaseLabels[i])
 
 			for j, _ := range cbb.CatMap.Back {
 				total := 0.0
 				total = box.Map[j]
 
-				fmt.Fprintf(votefile, "\t%v", total)
+				fmt.Fprintf(votes, "\t%v", total)
 
 			}
-			fmt.Fprintf(votefile, "\n")
+			fmt.Fprintf(votes, "\n")
 
 		}
+		//the buffered writer keeps the first error
+		err = votes.Flush()
+		if err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From d058e6cc4fc74af8029cc419a65ca544c49e0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 63/69] fix: leafcount stops if the splits can't be written

---
 leafcount/leafcount.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index 8219dc7..d636798 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -146,6 +146,9 @@ func main() {
 		}
 		defer soutfile.Close()
 		encoder := json.NewEncoder(soutfile)
-		encoder.Encode(splits)
+		err = encoder.Encode(splits)
+		if err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From 607481cae12c986aada2d777a74285d8c0bd6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 64/69] fix: reading forests reports nodes outside of trees and
 damaged numbers

ReadForest found these but returned no error, so what was read until then, or
zeros in place of the numbers, were used.
---
 forestreader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index bad1445..ee56d0b 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -62,7 +62,7 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			return forest, nil
 		}
 		if e != nil {
-			return
+			return forest, e
 		}
 
 	}
@@ -97,6 +97,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 				intercept, err := strconv.ParseFloat(i, 64)
 				if err != nil {
 					log.Print("Error parsing forest intercept value ", err)
+					return tree, forest, err
 				}
 				forest.Intercept = intercept
 			}
@@ -110,6 +111,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 				weight, err := strconv.ParseFloat(weights, 64)
 				if err != nil {
 					log.Print("Error parsing weight value ", err)
+					return tree, forest, err
 				}
 				tree.Weight = weight
 			} else {
@@ -145,6 +147,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 					lvalue, err := strconv.ParseFloat(parsed["LVALUES"], 64)
 					if err != nil {
 						log.Print("Error parsing lvalues value ", err)
+						return tree, forest, err
 					}
 					splitter.Value = float64(lvalue)
 				}
-- 
2.43.0


From 52c30a893f4cfcc0c7abcd7b5edd1ce1b6b52881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 65/69] fix: features that aren't in the data a tree is applied
 to are missing

---
 splitter.go | 7 ++++++-
 tree.go     | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/splitter.go b/splitter.go
index bffa051..be2807b 100644
--- a/splitter.go
+++ b/splitter.go
@@ -28,7 +28,12 @@ func (s *Splitter) Split(fm *FeatureMatrix, cases []int) (l []int, r []int, m []
 	lastright := length
 	swaper := 0
 
-	f := fm.Data[fm.Map[s.Feature]]
+	fi, ok := fm.Map[s.Feature]
+	if !ok {
+		//all cases are missing a feature that isn't in the data
+		return cases[:0], cases[length:], cases
+	}
+	f := fm.Data[fi]
 
 	//Move left cases to the start and right cases to the end so that missing cases end up
 	//in between.
diff --git a/tree.go b/tree.go
index e8c5ad4..bdd0416 100644
--- a/tree.go
+++ b/tree.go
@@ -374,8 +374,11 @@ func (t *Tree) GetLeaves(fm *FeatureMatrix, fbycase *SparseCounter) []Leaf {
 			leaves = append(leaves, Leaf{cases, n.Pred})
 		}
 		if fbycase != nil && n.Splitter != nil { //I'm not in a leaf node?
-			for _, c := range cases {
-				fbycase.Add(c, fm.Map[n.Splitter.Feature], 1)
+			//features that aren't in the data don't have an index to count at
+			if fi, ok := fm.Map[n.Splitter.Feature]; ok {
+				for _, c := range cases {
+					fbycase.Add(c, fi, 1)
+				}
 			}
 		}
 
-- 
2.43.0


From 502d68ffe12cd16409ad38ad9071c9b45d8da1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 66/69] fix: a feature to balance by that isn't in the data is
 refused

---
 growforest/growforest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index f5ac5d0..378fb03 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -352,7 +352,11 @@ func main() {
 	}
 
 	if balanceby != "" {
-		bSampler = CloudForest.NewSecondaryBalancedSampler(targetf.(*CloudForest.DenseCatFeature), data.Data[data.Map[balanceby]].(*CloudForest.DenseCatFeature))
+		balancebyi, ok := data.Map[balanceby]
+		if !ok {
+			log.Fatal("Feature to balance by not found in data.")
+		}
+		bSampler = CloudForest.NewSecondaryBalancedSampler(targetf.(*CloudForest.DenseCatFeature), data.Data[balancebyi].(*CloudForest.DenseCatFeature))
 		balance = true
 
 	}
-- 
2.43.0


From 76095182e0def40ce0952a97ba1aa41b1a56b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 67/69] fix: growforest doesn't sample forever from a target
 without known values

---
 growforest/growforest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 378fb03..4814897 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -370,6 +370,10 @@ func main() {
 
 	}
 	fmt.Printf("non-missing cases: %v\n", nNonMissing)
+	if nNonMissing == 0 {
+		//sampling would never find a case to train on
+		log.Fatal("Target is missing for all cases.")
+	}
 
 	leafSize := CloudForest.ParseAsIntOrFractionOfTotal(StringleafSize, nNonMissing)
 
-- 
2.43.0


From 2b9de0887ff7ea24424b72d3149cc71fd769f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 68/69] fix: boosting with less than three known targets needs
 a leaf size of at least one

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4814897..90060c9 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -380,6 +380,9 @@ func main() {
 	if leafSize <= 0 {
 		if boost {
 			leafSize = nNonMissing / 3
+			if leafSize < 1 {
+				leafSize = 1
+			}
 		} else if targetf.NCats() == 0 {
 			//regression
 			leafSize = 4
-- 
2.43.0


From 27080c185e191d6b0e572de6dcaefe57a291b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 69/69] fix: values behind missing ones aren't written to
 libsvm files

---
 libsvm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsvm.go b/libsvm.go
index aacbbb5..ed72266 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -142,6 +142,9 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 		}
 
 		for j, f := range encodedfm.Data {
+			if f.IsMissing(i) {
+				continue
+			}
 			v := f.(NumFeature).Get(i)
 			if v != 0.0 {
 				entries = append(entries, fmt.Sprintf("%v:%v", j+1, v))
@@ -200,6 +203,9 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 		}
 
 		for j, f := range encodedfm.Data {
+			if f.IsMissing(i) {
+				continue
+			}
 			v := f.(NumFeature).Get(i)
 			if v != 0.0 {
 				entries = append(entries, fmt.Sprintf("%v:%v", j+1, v))
-- 
2.43.0

