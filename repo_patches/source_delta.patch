From a84311f2dccb5f3c4277eecc283c0fa31b2e5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 01/14] fix: models with a single feature reported zero
 features

---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From 5a123193db01e173eb855845d1971d30264ad4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 02/14] fix: name of the exponential transformation

---
 transformation/exponential.go    | 3 +--
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..0f079c7 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,5 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
-
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 9352518cb5a3ffb91019442c400c646e54bd1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 03/14] fix: softmax of large raw scores overflowed to NaN

---
 util/util.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 5aa0081..f22bd13 100644
--- a/util/util.go
+++ b/util/util.go
@@ -259,9 +259,19 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 }
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
+	if len(rawValues) == 0 {
+		return
+	}
+	// subtract the largest value so that math.Exp can not overflow
+	max := rawValues[0]
+	for _, v := range rawValues {
+		if v > max {
+			max = v
+		}
+	}
 	sum := 0.0
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From b0424eb6536cbf1793340bf6f5fbe9e88ab42abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 04/14] fix: sklearn models trained with max_features <
 n_features lost features

---
 internal/pickle/sklearn.go | 9 +++++++++
 skensemble_io.go           | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..dd94f01 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -205,6 +205,7 @@ type SklearnGradientBoosting struct {
 	Classes       []int
 	NEstimators   int
 	MaxFeatures   int
+	NFeatures     int
 	Estimators    []SklearnDecisionTreeRegressor
 	LearningRate  float64
 	InitEstimator SKlearnInitEstimator
@@ -287,6 +288,14 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
+	// max_features_ is the number of features examined per split, the model may have more
+	t.NFeatures = t.MaxFeatures
+	if _, found := dict["n_features_"]; found {
+		t.NFeatures, err = dict.toInt("n_features_")
+		if err != nil {
+			return
+		}
+	}
 	t.NEstimators, err = dict.toInt("n_estimators")
 	if err != nil {
 		return
diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..eddfca0 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -132,7 +132,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
+	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
-- 
2.43.0


From 88454a3bb5708bc7f05fcf593a4890726835d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 05/14] fix: refuse models whose output transformation doesn't
 fit the number of groups

Predictions of such models were silently left unwritten.
---
 lgensemble_io.go | 6 ++++++
 xgblinear_io.go  | 3 +++
 xgensemble_io.go | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..79353a0 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -356,6 +356,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("expected num_class = 1 for objective '%s' (got %d)", objectiveStr, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformExponential{}
 		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
 			objectiveStruct, err := lgObjectiveParse(objectiveStr)
@@ -366,6 +369,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 				if objectiveStruct.value != 1 {
 					return nil, fmt.Errorf("got sigmoid with value != 1 (got %d)", objectiveStruct.value)
 				}
+				if e.nRawOutputGroups != 1 {
+					return nil, fmt.Errorf("expected num_class = 1 for objective '%s' (got %d)", objectiveStr, e.nRawOutputGroups)
+				}
 				transform = &transformation.TransformLogistic{}
 			} else if objectiveStruct.name == "multiclass" && objectiveStruct.param == "num_class" {
 				if objectiveStruct.value != e.nRawOutputGroups {
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..2b3ba8e 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -39,6 +39,9 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
 	if loadTransformation {
 		if header.NameObj == "binary:logistic" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("expected 1 output group for '%s' (got %d)", header.NameObj, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformLogistic{}
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..7fb4d62 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -225,6 +225,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
 	if loadTransformation {
 		if header.NameObj == "binary:logistic" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("expected 1 output group for '%s' (got %d)", header.NameObj, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformLogistic{}
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
-- 
2.43.0


From 9448fd2cb3fa0428057b266abcb200f3137075d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 06/14] fix: refuse XGBoost models with inconsistent numbers of
 groups, trees or weights

They were loaded and panicked (or dropped trees) when used.
---
 xgblinear_io.go  | 7 +++++++
 xgensemble_io.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/xgblinear_io.go b/xgblinear_io.go
index 2b3ba8e..ce994c2 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,13 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups (%d) should be > 0", e.nRawOutputGroups)
+	}
+	if len(e.Weights) != (e.NumFeature+1)*e.nRawOutputGroups {
+		return nil, fmt.Errorf("unexpected number of weights (got: %d, expected: %d)",
+			len(e.Weights), (e.NumFeature+1)*e.nRawOutputGroups)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 7fb4d62..7d3d710 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -199,6 +199,13 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups (%d) should be > 0", e.nRawOutputGroups)
+	}
+	if int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d) for number of output groups (%d)",
+			origModel.Param.NumTrees, e.nRawOutputGroups)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
-- 
2.43.0


From 39776de9c653a466e82a3d910e3eccf2f9cb9607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 07/14] fix: constant sklearn trees were reported to have two
 leaves

---
 skensemble_io.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index eddfca0..030fc0e 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -29,15 +29,7 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	}
 
 	if numNodes == 0 {
-		// special case
-		// we mimic decision rule but left and right childs lead to the same result
-		t.nodes = make([]lgNode, 0, 1)
-		node := numericalNode(0, 0, 0.0, 0)
-		node.Flags |= leftLeaf
-		node.Flags |= rightLeaf
-		node.Left = uint32(len(t.leafValues))
-		node.Right = uint32(len(t.leafValues))
-		t.nodes = append(t.nodes, node)
+		// special case - constant value tree
 		t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)
 		return t, nil
 	}
-- 
2.43.0


From caf32be2b8fb69218cc2d2732b75165f56b997e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 08/14] fix: absent values in the first and last columns of a
 tsv file were dropped

---
 mat/mat_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..ef61c96 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -210,7 +211,10 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		// NOTE: don't trim the delimiter (it could be tab): leading and trailing values can be absent
+		line = strings.TrimFunc(line, func(r rune) bool {
+			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From 24bb0c8e4d37d6662529a903c2b983bc2229b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 09/14] fix: blank lines before a parameters block were not
 skipped

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index f22bd13..3387237 100644
--- a/util/util.go
+++ b/util/util.go
@@ -37,7 +37,7 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 			return nil, err
 		}
 		line = strings.TrimSpace(line)
-		if line != "\n" {
+		if line != "" {
 			break
 		}
 	}
-- 
2.43.0


From d88b56fa03e9609d2ce6166b2e79ca953f5cddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 10/14] fix: elements appended to a pickled list were lost
 through memo references

---
 internal/pickle/decoder.go |  4 ++--
 internal/pickle/numpy.go   |  4 ++--
 internal/pickle/types.go   | 11 ++++++-----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..a3bca54 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -103,7 +103,7 @@ loop:
 			d.machine.push(tuple)
 		case opList:
 			list := append(List{}, d.machine.popMark()...)
-			d.machine.push(list)
+			d.machine.push(&list)
 		case opAppend:
 			el := d.machine.pop()
 			obj := d.machine.pop()
@@ -111,7 +111,7 @@ loop:
 			if err != nil {
 				return nil, err
 			}
-			list = append(list, el)
+			*list = append(*list, el)
 			d.machine.push(list)
 		case opUnicode:
 			line, err := d.readLine()
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..483a4c0 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -73,9 +73,9 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	case Build, Reduce:
 		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
-	case List:
+	case *List:
 		// sometimes we've got data stored as python list (for array of python objects)
-		a.DataList = x
+		a.DataList = *x
 	default:
 		err = fmt.Errorf("unexpected type %T", args[4])
 	}
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..e2f6ce1 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -8,7 +8,8 @@ type None struct{}
 // Tuple is python tuple
 type Tuple []interface{}
 
-// List is python list
+// List is python list. The machine keeps lists by pointer, because python lists are
+// mutable objects: an element appended to a list is seen through every reference to it
 type List []interface{}
 
 // Dict represents python's dict.
@@ -70,13 +71,13 @@ func toTuple(obj interface{}, length int) (Tuple, error) {
 	return tuple, nil
 }
 
-func toList(obj interface{}, length int) (List, error) {
-	list, ok := obj.(List)
+func toList(obj interface{}, length int) (*List, error) {
+	list, ok := obj.(*List)
 	if !ok {
 		return nil, fmt.Errorf("expected List object (got %T)", obj)
 	}
-	if length > -1 && len(list) != length {
-		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(list))
+	if length > -1 && len(*list) != length {
+		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(*list))
 	}
 	return list, nil
 }
-- 
2.43.0


From 3d0d6ce13fd067a957c0b716a8d22b05d9b2665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 11/14] fix: load XGBoost trees pruned back to their root

---
 xgensemble_io.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 7d3d710..1d0bfd6 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -44,8 +44,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 	// XGBoost doesn't support categorical features
 	t.nCategorical = 0
 
-	if numNodes == 1 {
-		// special case - constant value tree
+	if numNodes == 1 || xgIsLeaf(&origTree.Nodes[0]) {
+		// special case - constant value tree. The node table may still contain
+		// deleted (pruned) nodes
 		t.leafValues = append(t.leafValues, float64(origTree.Nodes[0].Info))
 		return t, nil
 	}
-- 
2.43.0


From b66c81d89acd5868e84d13c5dbcec34663ba522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 12/14] fix: refuse a dense matrix whose first row has no
 columns and later rows have some

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index ef61c96..01f8681 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -120,7 +120,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
-- 
2.43.0


From e9bea004b1a19548f6679c352d2588bf04666df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 13/14] fix: libsvm values after repeated spaces were silently
 dropped

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 01f8681..1ec7785 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -162,7 +162,7 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0


From 51b0d9a6acc2ce32b2365751e1e2be6569cb590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:17 +0000
Subject: [PATCH 14/14] fix: refuse a pickle GET of a memo key that was never
 stored

---
 internal/pickle/decoder.go | 5 ++++-
 internal/pickle/machine.go | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index a3bca54..cbe604a 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -52,7 +52,10 @@ loop:
 			if err != nil {
 				return nil, err
 			}
-			obj := d.machine.getMemory(string(line))
+			obj, found := d.machine.getMemory(string(line))
+			if !found {
+				return nil, fmt.Errorf("memo key \"%s\" not found", line)
+			}
 			d.machine.push(obj)
 		case opGlobal:
 			module, err := d.readLine()
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..99d324c 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -46,6 +46,7 @@ func (m *machine) putMemory(key string) {
 	m.memory[key] = m.stack[len(m.stack)-1]
 }
 
-func (m *machine) getMemory(key string) interface{} {
-	return m.memory[key]
+func (m *machine) getMemory(key string) (interface{}, bool) {
+	obj, found := m.memory[key]
+	return obj, found
 }
-- 
2.43.0

