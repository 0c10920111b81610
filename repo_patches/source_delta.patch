From 1cc584ffbd7d06837f7f5b0c391408d75e6c8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 01/34] fix: SelectModel scores its root model and no longer
 lists the empty model

---
 featselect/optimize.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..5c6d575 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -71,7 +71,7 @@ func NewSelectModelOptParams() *SelectModelOptParams {
 func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProgress, params *SelectModelOptParams) {
 	queue := list.New()
 
-	_, ncols := X.Dims()
+	nrows, ncols := X.Dims()
 
 	if params == nil {
 		params = NewSelectModelOptParams()
@@ -101,6 +101,15 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	pruneCh := make(chan int)
 	currentBestScore := -1e100
 
+	// The root itself is never passed to the score workers, so it has to be scored here
+	if numFeat := NumFeatures(rootNode.Model); numFeat > 0 && numFeat < nrows {
+		rootNode.Lower, rootNode.Upper = BoundsAICC(rootNode.Model, rootNode.Level, X, y)
+		scoreNode(rootNode, X, y)
+		highscore.Insert(rootNode)
+		numChecked++
+		currentBestScore = highscore.BestScore()
+	}
+
 	numScoreWorkers := 8
 	for i := 0; i < numScoreWorkers; i++ {
 		go ScoreWorker(node, score, X, y)
@@ -121,7 +130,7 @@ exploreLoop:
 			numInProgress--
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
-			if isNewNode(ns) {
+			if ns.Score > -math.MaxFloat64 {
 				highscore.Insert(ns)
 				numChecked++
 
@@ -214,17 +223,22 @@ func isNewNode(node *Node) bool {
 	return node.WasFlipped
 }
 
+// scoreNode fits the model of the node and calculates its score
+func scoreNode(n *Node, X mat.Matrix, y []float64) {
+	nrows, _ := X.Dims()
+	design := GetDesignMatrix(n.Model, X)
+	n.Coeff = Fit(design, y)
+	rss := Rss(design, n.Coeff, y)
+	n.Score = -Aicc(NumFeatures(n.Model), nrows, rss)
+}
+
 // ScoreWorker is a function that calculates the score of a node
 func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
-	nrows, _ := X.Dims()
 	for n := range nodeCh {
 		numFeat := NumFeatures(n.Model)
 
 		if numFeat > 0 && isNewNode(n) {
-			design := GetDesignMatrix(n.Model, X)
-			n.Coeff = Fit(design, y)
-			rss := Rss(design, n.Coeff, y)
-			n.Score = -Aicc(numFeat, nrows, rss)
+			scoreNode(n, X, y)
 		} else {
 			n.Score = -math.MaxFloat64
 		}
-- 
2.43.0


From fa586fe9edda0d1fc34ceec2e0556d7e3a43664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 02/34] fix: SelectModel explores subtrees whose undecided
 features would exceed the number of rows

---
 featselect/optimize.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 5c6d575..7819d61 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -234,10 +234,11 @@ func scoreNode(n *Node, X mat.Matrix, y []float64) {
 
 // ScoreWorker is a function that calculates the score of a node
 func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
+	nrows, _ := X.Dims()
 	for n := range nodeCh {
 		numFeat := NumFeatures(n.Model)
 
-		if numFeat > 0 && isNewNode(n) {
+		if numFeat > 0 && numFeat < nrows && isNewNode(n) {
 			scoreNode(n, X, y)
 		} else {
 			n.Score = -math.MaxFloat64
@@ -250,10 +251,12 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 // is lower than the current best score
 func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
 	child := node.GetChildNode(flip)
-	n := NumFeatures(child.Model)
 	nrows, _ := X.Dims()
-	if n < nrows {
-		if n > 0 {
+
+	// Bits that are not decided yet can still be switched off further down the tree, so a
+	// subtree is only too large if its smallest model is
+	if NumFeatures(Lcs(child.Model, child.Level)) < nrows {
+		if NumFeatures(child.Model) > 0 {
 			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
 		} else {
 			child.Lower = -1e100
-- 
2.43.0


From abd1628580b03684b6873395c05334e812708318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 03/34] fix: a node is never pruned against the best score of
 an empty highscore list

---
 featselect/optimize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 7819d61..16ffab2 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -266,7 +266,9 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	// Check the length first: the best score of an empty list is meaningless, and another
+	// goroutine may fill the list at any time
+	if h.Len() > 0 && child.Lower > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From 28922bb43decb12c9b8b9ba3e173ba7d61794d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 04/34] fix: SelectModel honours the cutoff when it prunes

---
 featselect/optimize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 16ffab2..174e000 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -136,7 +136,7 @@ exploreLoop:
 
 				if highscore.BestScore() > currentBestScore {
 					currentBestScore = highscore.BestScore()
-					CleanQueue(queue, -currentBestScore)
+					CleanQueue(queue, -currentBestScore-params.Cutoff)
 				}
 			}
 
@@ -268,7 +268,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 
 	// Check the length first: the best score of an empty list is meaningless, and another
 	// goroutine may fill the list at any time
-	if h.Len() > 0 && child.Lower > -h.BestScore() {
+	if h.Len() > 0 && child.Lower+cutoff > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From f4baec205df9df1e33cbf7fcd5ffe30abc8a70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 05/34] fix: release the worker goroutines when a search, lasso
 path, kappa sequence or threshold search is finished

---
 featselect/cohens_kappa.go | 3 +++
 featselect/lassoCrdDesc.go | 3 +++
 featselect/optimize.go     | 5 +++--
 featselect/thresholdCov.go | 5 ++++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 604498c..61ab74f 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -109,6 +109,9 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 		}
 	}
 
+	// Release the workers
+	close(workChannel)
+
 	srt := Argsort(allKappas)
 	fmt.Printf("-------------------------------------------------------------------\n")
 	fmt.Printf("                    COHEN'S KAPPA SUMMARY                          \n")
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..94147e0 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -245,6 +245,9 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 		}
 	}
 
+	// Release the workers
+	close(workChan)
+
 	firstModelWithFeatures := 0
 	for i := range nodes {
 		if len(nodes[i].Selection) > 0 {
diff --git a/featselect/optimize.go b/featselect/optimize.go
index 174e000..e15d935 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -97,7 +97,9 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	node := make(chan *Node)
 	score := make(chan *Node)
 	wantChildNode := make(chan *Node)
-	childReady := make(chan bool)
+	// Buffered such that the workers can deliver their last message after the search is finished
+	numChildWorkers := 8
+	childReady := make(chan bool, numChildWorkers)
 	pruneCh := make(chan int)
 	currentBestScore := -1e100
 
@@ -115,7 +117,6 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		go ScoreWorker(node, score, X, y)
 	}
 
-	numChildWorkers := 8
 	for i := 0; i < numChildWorkers; i++ {
 		go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
 	}
diff --git a/featselect/thresholdCov.go b/featselect/thresholdCov.go
index dfb8288..426c52c 100644
--- a/featselect/thresholdCov.go
+++ b/featselect/thresholdCov.go
@@ -109,7 +109,7 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 				work.gr = 0
 				gridPt = 1
 			}
-			if gridPt <= numGrid {
+			if gridPt <= numGrid && numReceives < numSamples*numGrid {
 				workChannel <- work
 			}
 		case <-ticker:
@@ -117,6 +117,9 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 		}
 	}
 
+	// Release the workers
+	close(workChannel)
+
 	minIdx := Argmin(meanNormDiff)
 	var op ThresholdOperator
 	op.threshold = getThreshold(minIdx, step)
-- 
2.43.0


From e11e494e6004699cb3e2a3734705011dd5bf58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 06/34] fix: the search progress reflects the current highscore
 list and counts every pruned subtree once

---
 featselect/optimize.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index e15d935..08460f4 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -129,7 +129,6 @@ exploreLoop:
 		select {
 		case ns := <-score:
 			numInProgress--
-			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
 			if ns.Score > -math.MaxFloat64 {
 				highscore.Insert(ns)
@@ -140,6 +139,7 @@ exploreLoop:
 					CleanQueue(queue, -currentBestScore-params.Cutoff)
 				}
 			}
+			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
 			if ns.Level < ncols {
 				queue.PushBack(ns)
@@ -156,7 +156,9 @@ exploreLoop:
 			}
 
 		case prLevel := <-pruneCh:
-			log2Pruned = NewLog2Pruned(log2Pruned, ncols-prLevel)
+			// The pruned subtree is rooted at one of the two children of a node on level prLevel
+			log2Pruned = NewLog2Pruned(log2Pruned, ncols-prLevel-1)
+			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 			numInProgress--
 			if numInProgress <= 0 && queue.Len() == 0 {
 				break exploreLoop
-- 
2.43.0


From 9e979da4b177628f26792fd7bc642e9ea4e76a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 07/34] fix: clamp the residual sum of squares so exact fits
 get a finite AICc and the sparsest one wins

---
 featselect/criteria.go | 4 ++--
 featselect/optimize.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/featselect/criteria.go b/featselect/criteria.go
index 50015ff..437ae32 100644
--- a/featselect/criteria.go
+++ b/featselect/criteria.go
@@ -49,7 +49,7 @@ func bounds(model []bool, start int, X mat.Matrix, y []float64, criteria crit) (
 	if kLcs > 0 {
 		XLcs := GetDesignMatrix(lcsMod, X)
 		coeffLcs := Fit(XLcs, y)
-		rssLcs = Rss(XLcs, coeffLcs, y)
+		rssLcs = math.Max(Rss(XLcs, coeffLcs, y), RssTol)
 	}
 
 	rssGcs := RssTol
@@ -57,7 +57,7 @@ func bounds(model []bool, start int, X mat.Matrix, y []float64, criteria crit) (
 	if kGcs < nr {
 		XGcs := GetDesignMatrix(gcsMod, X)
 		coeffGcs := Fit(XGcs, y)
-		rssGcs = Rss(XGcs, coeffGcs, y)
+		rssGcs = math.Max(Rss(XGcs, coeffGcs, y), RssTol)
 	}
 
 	lower := criteria(kLcs, len(y), rssGcs)
diff --git a/featselect/optimize.go b/featselect/optimize.go
index 08460f4..2b0c15c 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -231,7 +231,7 @@ func scoreNode(n *Node, X mat.Matrix, y []float64) {
 	nrows, _ := X.Dims()
 	design := GetDesignMatrix(n.Model, X)
 	n.Coeff = Fit(design, y)
-	rss := Rss(design, n.Coeff, y)
+	rss := math.Max(Rss(design, n.Coeff, y), RssTol)
 	n.Score = -Aicc(NumFeatures(n.Model), nrows, rss)
 }
 
-- 
2.43.0


From b877296e9519533b8272d28c2c05bfde6c2c1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 08/34] fix: highscore lists of capacity one, and decoding a
 highscore list into a zero value or with tied scores

---
 featselect/highscore.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..3f1d8ae 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -23,7 +23,7 @@ func NewHighscore(maxItems int) *Highscore {
 func (h *Highscore) Insert(node *Node) {
 	if h.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
-		if last.Value.(*Node).Score > node.Score {
+		if last != nil && last.Value.(*Node).Score > node.Score {
 			return
 		}
 	}
@@ -101,11 +101,14 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
-	h.MaxItems = aux.MaxItems
 
+	// All the stored items fit in the list, so none of them may be dropped here
+	h.Items = list.New()
+	h.MaxItems = len(aux.Items) + 1
 	for _, n := range aux.Items {
 		h.Insert(n)
 	}
+	h.MaxItems = aux.MaxItems
 	return nil
 }
 
-- 
2.43.0


From bfe0e5a613a0cf5c2e765edd65956822726e902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 09/34] fix: the highscore list can be read while a search is
 running

---
 featselect/highscore.go | 51 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 3f1d8ae..f7f3952 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,15 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
-// Highscore is a structure that holds a list of Nodes sorted by their score
+// Highscore is a structure that holds a list of Nodes sorted by their score. Its methods
+// can be used while a search inserts new nodes.
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	rwlock   sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
@@ -21,7 +24,10 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
+
+	if h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last != nil && last.Value.(*Node).Score > node.Score {
 			return
@@ -43,18 +49,22 @@ func (h *Highscore) Insert(node *Node) {
 		}
 	}
 
-	if !itemInserted && h.Len() < h.MaxItems {
+	if !itemInserted && h.Items.Len() < h.MaxItems {
 		h.Items.PushBack(node)
 	}
 }
 
 // Len returns the number of items in the highscore list
 func (h *Highscore) Len() int {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	return h.Items.Len()
 }
 
 // BestScore returns the best score
 func (h *Highscore) BestScore() float64 {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	front := h.Items.Front()
 
 	if front == nil {
@@ -63,31 +73,35 @@ func (h *Highscore) BestScore() float64 {
 	return front.Value.(*Node).Score
 }
 
+// nodes returns the nodes that are in the list right now
+func (h *Highscore) nodes() []*Node {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	nodes := make([]*Node, 0, h.Items.Len())
+	for e := h.Items.Front(); e != nil; e = e.Next() {
+		nodes = append(nodes, e.Value.(*Node))
+	}
+	return nodes
+}
+
 // Scores returns all the scores in the highscore list
 func (h *Highscore) Scores() []float64 {
-	scores := make([]float64, h.Len())
-	i := 0
-	for item := h.Items.Front(); item != nil; item = item.Next() {
-		scores[i] = item.Value.(*Node).Score
-		i++
+	nodes := h.nodes()
+	scores := make([]float64, len(nodes))
+	for i, n := range nodes {
+		scores[i] = n.Score
 	}
 	return scores
 }
 
 // MarshalJSON creates a JSON representation of the highscore list
 func (h *Highscore) MarshalJSON() ([]byte, error) {
-	data := make([]*Node, h.Len())
-	counter := 0
-	for e := h.Items.Front(); e != nil; e = e.Next() {
-		data[counter] = e.Value.(*Node)
-		counter++
-	}
 	return json.Marshal(&struct {
 		MaxItems int     `json:"maxItems"`
 		Items    []*Node `json:"items"`
 	}{
 		MaxItems: h.MaxItems,
-		Items:    data,
+		Items:    h.nodes(),
 	})
 }
 
@@ -113,12 +127,13 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 }
 
 func (h *Highscore) Equal(h2 *Highscore) bool {
-	if h.MaxItems != h2.MaxItems || h.Len() != h2.Len() {
+	nodes, nodes2 := h.nodes(), h2.nodes()
+	if h.MaxItems != h2.MaxItems || len(nodes) != len(nodes2) {
 		return false
 	}
 
-	for e1, e2 := h.Items.Front(), h2.Items.Front(); e1 != nil; e1, e2 = e1.Next(), e2.Next() {
-		if !NodesEqual(e1.Value.(*Node), e2.Value.(*Node)) {
+	for i := range nodes {
+		if !NodesEqual(nodes[i], nodes2[i]) {
 			return false
 		}
 	}
-- 
2.43.0


From ab393505190476aded8b1c8000d86290c5d762fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 10/34] fix: an evicted SA item is replaced together with its
 coefficients

---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From 048eadf37a703dd90d31ff6a8a37940596d7d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 11/34] fix: IterProduct returns independent rows

---
 featselect/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..77752ed 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,8 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				// Rows must not share their backing array
+				newRow := append(append([]int{}, res[j]...), values[i])
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From 40fe8c44a97afb9df3b54b2a5330f9315e3448af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 12/34] fix: ParseCSV reads space padded numbers

---
 featselect/csvIO.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..83f354f 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"gonum.org/v1/gonum/floats"
 
@@ -135,7 +136,7 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 		} else {
 			row := make([]float64, len(line))
 			for i, v := range line {
-				if fl, err := strconv.ParseFloat(v, 64); err == nil {
+				if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
 					row[i] = fl
 				}
 			}
-- 
2.43.0


From 077fbbf215ca151b00f2ea68228c5490725ec161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 13/34] fix: CohenKappa of two sets that both contain
 everything is one

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index 77752ed..7d322eb 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -465,5 +465,9 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 
 	PrA := float64(n11+n22) / float64(totNum)
 	PrE := float64((n11+n12)*(n11+n21))/float64(totNum*totNum) + float64((n12+n22)*(n21+n22))/float64(totNum*totNum)
+	if PrE == 1.0 {
+		// Both sets contain everything
+		return 1.0
+	}
 	return (PrA - PrE) / (1. - PrE)
 }
-- 
2.43.0


From 34afb3165a76dae9387747e331f740369b4a23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 14/34] fix: CalculateCohenSequence returns the best target
 when no kappa is positive

---
 featselect/cohens_kappa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 61ab74f..bdec73d 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -94,7 +94,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 		hyper := res.target.HyperParameters()
 		fmt.Printf(res.target.StringRep()+" kappa: %3.3f\n", res.kappa)
 
-		if res.kappa > bestKappa {
+		if numReceives == 1 || res.kappa > bestKappa {
 			bestKappa = res.kappa
 			bestHyper = hyper
 		}
-- 
2.43.0


From 1c494ede1680d46a12f404be438c2d5ca4f23130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 15/34] fix: PlotPath draws the last feature

---
 featselect/lassoPlot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 392d13d..0776af8 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -224,7 +224,7 @@ func (p *LassoLarsPath) PlotPath(cr *AxisRange) *plot.Plot {
 
 	_, numFeat := p.MaxMinFeatNo()
 
-	for featNo := 0; featNo < numFeat; featNo++ {
+	for featNo := 0; featNo <= numFeat; featNo++ {
 		xy := p.ExtractPath(featNo)
 		line, err := plotter.NewLine(xy)
 
-- 
2.43.0


From 7cbf383473a37591db148ff90c0de1e3f2c4bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 16/34] fix: LassoCrdDesc checks the KKT conditions of dropped
 features and leaves the starting point of the caller alone

---
 featselect/lassoCrdDesc.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 94147e0..f509e74 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -25,14 +25,18 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	yVec := mat.NewVecDense(len(dset.y), dset.y)
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
+	XTy.ScaleVec(1.0/float64(nr), XTy)
 
-	iterIndices := make([]int, nFeat-1)
-	for i := 1; i < nFeat; i++ {
-		iterIndices[i-1] = i
+	iterIndices := []int{}
+	for i := 0; i < nFeat; i++ {
+		// The first column carries no information if it is a constant
+		if i > 0 || !dset.HasBias {
+			iterIndices = append(iterIndices, i)
+		}
 	}
 
 	betaOld := make([]float64, nFeat)
-	copy(x0, betaOld)
+	copy(betaOld, x0)
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
@@ -41,7 +45,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			covDiag := covMat.At(j, j)
 			oldCoeff := betaOld[j]
 			covDotBetaNoDiag := covDotBeta[j] - betaOld[j]*covDiag
-			newCoeff := XTy.AtVec(j)/float64(nr) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
+			newCoeff := XTy.AtVec(j) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
 			newCoeff = SoftThreshold(newCoeff, lamb) / covDiag
 
 			UpdateCovDotBeta(covMat, covDotBeta, j, oldCoeff, newCoeff)
@@ -62,7 +66,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			}
 		}
 
-		converged = maxChange/maxCoeff < tol
+		converged = maxChange <= tol*maxCoeff
 
 		numActive := 0
 		for _, j := range iterIndices {
@@ -101,13 +105,13 @@ func SoftThreshold(x float64, threshold float64) float64 {
 	return 0.0
 }
 
-// UnsatisfiedKKTConditions returns the indices where KKT conditions are not met
+// UnsatisfiedKKTConditions returns the indices of the features that are zero, but should not be
+// according to the KKT conditions. Xy is X^T y divided by the number of rows.
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
 	unsatisfied := []int{}
-	nr := Xy.Len()
-	for i := 1; i < len(covDotBeta); i++ {
-		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*float64(nr) - correction.Deriv(coeff, i))
-		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {
+	for i := 0; i < len(covDotBeta); i++ {
+		value := math.Abs(Xy.AtVec(i) - covDotBeta[i] - correction.Deriv(coeff, i))
+		if value > lamb*(1.0+lassoTol)+1e-12 && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
 		}
 	}
-- 
2.43.0


From 03d6f2615b5b9b03097a6ddadac7be33460875f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 17/34] fix: NestedLasso maps features correctly when the
 target is not the last column

---
 featselect/nestedLasso.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..ae55813 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -52,8 +52,12 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		survivors := path.PickMostRelevantFeatures(newNum)
 
 		// Map selection
+		featNames := make([]string, currentNumCoeff)
+		for i := range featNames {
+			featNames[i] = curDset.GetFeatName(i)
+		}
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
+			v.Selection = MapSelectionByName(data, featNames, v.Selection)
 		}
 
 		if newNum <= 2 {
-- 
2.43.0


From e901fd2d613188c07950b3c3ee8006e5a79d69ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 18/34] fix: NestedLasso leaves the data of the caller
 unchanged

---
 featselect/nestedLasso.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index ae55813..e0a8558 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -70,7 +70,8 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	}
 
 	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	orig := data.Copy()
+	normD = NewNormalizedData(orig.X, orig.Y)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From f5eaa95d3c8737f54617e4f3337424c2c9ca5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 19/34] fix: SelectModel does not write its default root model
 into the options of the caller

---
 featselect/optimize.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 2b0c15c..663e7a5 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -81,15 +81,16 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		panic("SelectModel: The number of features has to be larger or equal to 3.")
 	}
 
-	if params.RootModel == nil {
-		params.RootModel = make([]bool, ncols)
+	rootModel := params.RootModel
+	if rootModel == nil {
+		rootModel = make([]bool, ncols)
 	} else {
-		if len(params.RootModel) != ncols {
+		if len(rootModel) != ncols {
 			panic("SelectModel: Inconsistent length of rootModel.")
 		}
 	}
 
-	rootNode := NewNode(0, params.RootModel)
+	rootNode := NewNode(0, rootModel)
 
 	log2Pruned := 0.0
 	numChecked := 0
-- 
2.43.0


From 62ef9d1524ead060875e91b17f3b29faf1e9bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:34 +0000
Subject: [PATCH 20/34] fix: datasets with different column names are not equal

---
 featselect/csvIO.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 83f354f..748dc76 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -80,6 +80,12 @@ func (d *Dataset) IsEqual(o *Dataset) bool {
 		return false
 	}
 
+	for i := range d.Names {
+		if d.Names[i] != o.Names[i] {
+			return false
+		}
+	}
+
 	tol := 1e-10
 	if !floats.EqualApprox(d.Y, o.Y, tol) {
 		return false
-- 
2.43.0


From a174cde5f2929d402b04a7e8e03a0a72333424b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 21/34] fix: the count of pruned solutions does not overflow
 with more than 1024 features

---
 featselect/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index 7d322eb..14d2bc4 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -72,8 +72,11 @@ func Sum(a []int) int {
 // current is log2 of the current number of pruned solutions
 // numPruned is log2 of the new number of pruned solutions
 func NewLog2Pruned(current float64, numPruned int) float64 {
-	diff := float64(numPruned) - current
-	return current + math.Log2(1+math.Pow(2, diff))
+	// Factor out the largest of the two numbers, otherwise the power overflows
+	// when one is more than 1024 larger than the other
+	largest := math.Max(current, float64(numPruned))
+	smallest := math.Min(current, float64(numPruned))
+	return largest + math.Log2(1+math.Pow(2, smallest-largest))
 }
 
 // RearrangeDense changes the order of the columns in the matrix X such that they appear
-- 
2.43.0


From 060830de494ad62cd7493f14bc9ebf8d198734be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 22/34] fix: a starting coefficient of the constant column does
 not disturb coordinate descent

---
 featselect/lassoCrdDesc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index f509e74..08ee8d5 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -37,6 +37,9 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 
 	betaOld := make([]float64, nFeat)
 	copy(betaOld, x0)
+	if dset.HasBias {
+		betaOld[0] = 0.0
+	}
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From e6031adbd2214dfd8fdf7f29b8117421a1475c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 23/34] fix: large constant columns are constant in spite of
 round-off in their mean

---
 featselect/normalized_dataset.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/featselect/normalized_dataset.go b/featselect/normalized_dataset.go
index 69de48c..8e2974c 100644
--- a/featselect/normalized_dataset.go
+++ b/featselect/normalized_dataset.go
@@ -45,6 +45,12 @@ func NewNormalizedData(X *mat.Dense, y []float64) *NormalizedData {
 		normD.std[c] = Std(tmp)
 		normD.mu[c] = Mean(tmp)
 
+		// The round-off in the mean of a large constant is not a spread
+		if isConstant(tmp) {
+			normD.std[c] = 0.0
+			normD.mu[c] = tmp[0]
+		}
+
 		if normD.std[c] < 1e-10 && c != 0 {
 			msg := fmt.Sprintf("normdata: Only the first column can be constant! Std: %e of column %d", normD.std[c], c)
 			panic(msg)
@@ -63,6 +69,16 @@ func NewNormalizedData(X *mat.Dense, y []float64) *NormalizedData {
 	return &normD
 }
 
+// isConstant returns true if all values are equal
+func isConstant(v []float64) bool {
+	for i := 1; i < len(v); i++ {
+		if v[i] != v[0] {
+			return false
+		}
+	}
+	return true
+}
+
 // LinearNormalizationTransformation computes the difference in coefficient in the expansion
 // y1 = c_0 + c_1*x_1 + c_2*x_2+ ... and
 // y2 = c_0' + c_1'*x_1' + c_2'*x_2', where primed x and y are normalized values
-- 
2.43.0


From c8ff60d271cf811040c5389b9c5a037534d005af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:38 +0000
Subject: [PATCH 24/34] fix: the command line tools reported success when the
 result could not be written

---
 cmd/bnb.go      | 21 +++++++++++++--------
 cmd/lasso.go    | 12 +++++-------
 cmd/sasearch.go | 12 ++++++++----
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 74bd5d9..2c09212 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -63,12 +63,12 @@ func init() {
 	bnbCmd.Flags().Int("maxqueue", 10000000, "Maximum size of the queue. If this limit is reached, subtrees will be removed. If you run out of memory, this number should be lowered.")
 }
 
-func saveHighscoreList(fname string, h *featselect.Highscore) {
-	file, _ := os.Open(fname)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(h)
-	ioutil.WriteFile(fname, highscoreJSON, 0644)
+func saveHighscoreList(fname string, h *featselect.Highscore) error {
+	highscoreJSON, err := json.Marshal(h)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(fname, highscoreJSON, 0644)
 }
 
 func setSearchFinished(finished chan int) {
@@ -114,12 +114,17 @@ timeloop:
 		case <-c:
 			score, numChecked, log2Pruned := progress.Get()
 			fmt.Printf("%v: Score: %f, Num. checked: %d, Log2 pruned: %f\n", time.Now().Format(time.RFC3339), score, numChecked, log2Pruned)
-			saveHighscoreList(outfile, highscore)
+			if err := saveHighscoreList(outfile, highscore); err != nil {
+				log.Print(err)
+			}
 		case <-searchFinished:
 			break timeloop
 		}
 	}
-	saveHighscoreList(outfile, highscore)
 	wg.Wait()
+	if err := saveHighscoreList(outfile, highscore); err != nil {
+		fmt.Printf("Error: %s\n", err)
+		os.Exit(1)
+	}
 	fmt.Printf("Selection finished\n")
 }
diff --git a/cmd/lasso.go b/cmd/lasso.go
index d4eabc1..78e2d9b 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -110,14 +110,12 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 
 	js, err := json.Marshal(path)
 
+	if err == nil {
+		err = ioutil.WriteFile(out, js, 0644)
+	}
 	if err != nil {
-		fmt.Printf("Error: %s", err)
-		return
+		fmt.Printf("Error: %s\n", err)
+		os.Exit(1)
 	}
-
-	file, _ := os.Create(out)
-	defer file.Close()
-
-	ioutil.WriteFile(out, js, 0644)
 	fmt.Printf("LASSO-LARS results written to %s\n", out)
 }
diff --git a/cmd/sasearch.go b/cmd/sasearch.go
index dd2549e..a0e37c3 100644
--- a/cmd/sasearch.go
+++ b/cmd/sasearch.go
@@ -66,11 +66,15 @@ func saSearch(csvfile string, targetCol int, out string, sweeps int) {
 	rand.Seed(time.Now().UTC().UnixNano())
 	dset := featselect.ReadCSV(csvfile, targetCol)
 	res := featselect.SelectModelSA(dset.X, dset.Y, sweeps, featselect.Aicc)
-	file, _ := os.Open(out)
-	defer file.Close()
 
-	highscoreJSON, _ := json.Marshal(res.Scores)
-	ioutil.WriteFile(out, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(res.Scores)
+	if err == nil {
+		err = ioutil.WriteFile(out, highscoreJSON, 0644)
+	}
+	if err != nil {
+		fmt.Printf("Error: %s\n", err)
+		os.Exit(1)
+	}
 
 	fmt.Printf("SA highscore list written to %s", out)
 }
-- 
2.43.0


From 237126c1e59c5b4120cab0f8ad2ee795b812c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:42 +0000
Subject: [PATCH 25/34] fix: the lasso tool reported success for an unknown
 algorithm or covariance type

---
 cmd/lasso.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/lasso.go b/cmd/lasso.go
index 78e2d9b..b90a207 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -35,7 +35,7 @@ var lassoCmd = &cobra.Command{
 		lassoCsv, _ := cmd.Flags().GetString("csv")
 		if lassoCsv == "" {
 			fmt.Printf("No CSV file given!\n")
-			return
+			os.Exit(1)
 		}
 
 		target, _ := cmd.Flags().GetInt("target")
@@ -89,10 +89,13 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 			cov = featselect.NewSparseThreshold(normDset.X)
 		} else {
 			fmt.Printf("Unknown covariance type %s\n", covType)
-			return
+			os.Exit(1)
 		}
 		lambs := featselect.Logspace(lambMin, lambMax, num)
 		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &corr)
+	} else {
+		fmt.Printf("Unknown lasso type %s\n", lassoType)
+		os.Exit(1)
 	}
 
 	featselect.Path2Unnormalized(normDset, larspath)
-- 
2.43.0


From a7139bfcd5d30036b52bcbd0c2fd3bb0dc8210ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:01 +0000
Subject: [PATCH 26/34] fix: a damaged lasso path was read as an empty one

---
 featselect/lassoPlot.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 0776af8..0eb8e05 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -37,7 +37,10 @@ func LassoLarsPathFromJSON(fname string) *LassoLarsPath {
 // LassoLarsPathFromBytes loads the lasso lars path from a bytes array
 func LassoLarsPathFromBytes(data []byte) *LassoLarsPath {
 	var lassoPath LassoLarsPath
-	json.Unmarshal(data, &lassoPath)
+	if err := json.Unmarshal(data, &lassoPath); err != nil {
+		fmt.Printf("%v\n", err)
+		panic("lassolarspathfrombytes: Error when decoding the path!")
+	}
 	return &lassoPath
 }
 
-- 
2.43.0


From 0f312aa6fc878c751122c0a5c64ace0ef9b0d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 27/34] fix: a branch and bound search that panicked could be
 reported as finished and overwrite an older result

---
 cmd/bnb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 2c09212..aff8e8e 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -100,9 +100,11 @@ func findOptimalSolution(csvfile string, targetCol int, cutoff float64, outfile
 	params.RootModel = featselect.Selected2Model(res.Selected, nFeat)
 	wg.Add(1)
 	go func() {
-		defer wg.Done()
-		defer setSearchFinished(searchFinished)
 		featselect.SelectModel(dset.X, dset.Y, highscore, &progress, params)
+
+		// Not deferred: a search that panics has not finished
+		setSearchFinished(searchFinished)
+		wg.Done()
 	}()
 
 	c := time.Tick(60 * time.Second)
-- 
2.43.0


From e37fa76ecec11de177fa9ecde35b764600a7fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:54 +0000
Subject: [PATCH 28/34] fix: the first sweep of coordinate descent used a
 correction that did not know the starting point

With a stateful correction (CLasso) a solution of the pure lasso problem was
accepted as converged when it was passed as starting point.
---
 featselect/lassoCrdDesc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 08ee8d5..03ef203 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -40,6 +40,9 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	if dset.HasBias {
 		betaOld[0] = 0.0
 	}
+
+	// The correction of the first iteration is the one of the starting point
+	corr.Update(betaOld)
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From ce8a026ce70e5ea163ae9db5289fe3e52489a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:54 +0000
Subject: [PATCH 29/34] fix: concurrent problems of a coordinate descent path
 shared the state of a CLasso correction

---
 featselect/lassoCorrections.go | 9 +++++++++
 featselect/lassoCrdDesc.go     | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoCorrections.go b/featselect/lassoCorrections.go
index b43d608..e0a1472 100644
--- a/featselect/lassoCorrections.go
+++ b/featselect/lassoCorrections.go
@@ -59,6 +59,15 @@ func (cl *CLasso) Deriv(beta []float64, featNo int) float64 {
 	return cl.eta * cl.beta[featNo] * inner / normSq
 }
 
+// correctionForProblem returns the correction to be used for one problem of a path.
+// CLasso has state that belongs to one problem, and the problems are solved concurrently.
+func correctionForProblem(correction LassoCorrection) LassoCorrection {
+	if cl, ok := correction.(*CLasso); ok {
+		return NewCLasso(len(cl.beta), cl.eta)
+	}
+	return correction
+}
+
 // Elastic net adds a L2 penalty
 type ElasticNet struct {
 	Lamb float64
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 03ef203..0b7993e 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -217,7 +217,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 		wrk.cov = cov
 		wrk.maxIter = maxIter
 		wrk.tol = tol
-		wrk.corr = correction
+		wrk.corr = correctionForProblem(correction)
 		workChan <- wrk
 	}
 
@@ -250,7 +250,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 			wrk.cov = cov
 			wrk.maxIter = maxIter
 			wrk.tol = tol
-			wrk.corr = correction
+			wrk.corr = correctionForProblem(correction)
 			workChan <- wrk
 		}
 	}
-- 
2.43.0


From 78c6079a32dc66942f5a7193e9df70bb436db538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:55 +0000
Subject: [PATCH 30/34] fix: goselect-plotlasso ignored the coefficient range,
 the flags were read before they were parsed

---
 cmdDepreciated/goselect-plotlasso/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index d247c65..fb570be 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -41,6 +41,8 @@ func main() {
 	lassoPathCoeffMin := flag.Float64("coeffmin", 0.0, "Minumum coefficient value in plot")
 	lassoPathCoeffMax := flag.Float64("coeffmax", 0.0, "Maximum coefficient value in plot. If equal to the minimum value, the range is autoscaled")
 
+	flag.Parse()
+
 	coeffMin := *lassoPathCoeffMin
 	coeffMax := *lassoPathCoeffMax
 	var coeffRng featselect.AxisRange
@@ -53,6 +55,5 @@ func main() {
 		coeffRngPtr = nil
 	}
 
-	flag.Parse()
 	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)
 }
-- 
2.43.0


From 61557b8552d3d244a4c7f1d5474598ada89eac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:57 +0000
Subject: [PATCH 31/34] fix: the nested lasso and plot tools ended with status
 0 when a file could not be written

---
 cmdDepreciated/goselect-nestedlasso/main.go |  8 ++++++--
 cmdDepreciated/goselect-plotlasso/main.go   | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/cmdDepreciated/goselect-nestedlasso/main.go b/cmdDepreciated/goselect-nestedlasso/main.go
index 46df44b..360fc1e 100644
--- a/cmdDepreciated/goselect-nestedlasso/main.go
+++ b/cmdDepreciated/goselect-nestedlasso/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
+	"os"
 
 	"github.com/davidkleiven/goselect/featselect"
 )
@@ -17,10 +18,13 @@ func nestedLasso(csvfile string, targetCol int, out string, lambMin float64, kee
 
 	if err != nil {
 		fmt.Printf("Error %s", err)
-		return
+		os.Exit(1)
 	}
 
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		fmt.Printf("Could not write %s: %s\n", out, err)
+		os.Exit(1)
+	}
 	fmt.Printf("Nested LASSO-LARS results written to %s\n", out)
 }
 
diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index fb570be..b20632e 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -4,33 +4,41 @@ import (
 	"flag"
 	"fmt"
 	"math"
+	"os"
 
 	"github.com/davidkleiven/goselect/featselect"
+	"gonum.org/v1/plot"
 	"gonum.org/v1/plot/vg"
 )
 
+// save writes a plot to file, and exits if that is not possible
+func save(plt *plot.Plot, fname string) {
+	if err := plt.Save(4*vg.Inch, 4*vg.Inch, fname); err != nil {
+		fmt.Printf("Could not write %s: %s\n", fname, err)
+		os.Exit(1)
+	}
+}
+
 func analyseLasso(jsonfile string, prefix string, ext string, coeffRng *featselect.AxisRange) {
 	path := featselect.LassoLarsPathFromJSON(jsonfile)
 	entrance := path.PlotEntranceTimes()
 	fname := prefix + "_entrance." + ext
-	w := 4 * vg.Inch
-	h := 4 * vg.Inch
-	entrance.Save(w, h, fname)
+	save(entrance, fname)
 	fmt.Printf("Entrance times written to %s\n", fname)
 
 	quality := path.PlotQualityScores()
 	fname = prefix + "_quality." + ext
-	quality.Save(w, h, fname)
+	save(quality, fname)
 	fmt.Printf("Quality score written to %s\n", fname)
 
 	dev := path.PlotDeviations()
 	fname = prefix + "_dev." + ext
-	dev.Save(w, h, fname)
+	save(dev, fname)
 	fmt.Printf("Dev. score written to %s\n", fname)
 
 	coeff := path.PlotPath(coeffRng)
 	fname = prefix + "_path." + ext
-	coeff.Save(w, h, fname)
+	save(coeff, fname)
 	fmt.Printf("LASSO-LARS path written to %s\n", fname)
 }
 
-- 
2.43.0


From f3d02e40161bfe59731911b4d3b19dce0038e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:54 +0000
Subject: [PATCH 32/34] fix: WeightsFromAIC overwrote the AIC values of the
 caller

---
 featselect/util.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index 14d2bc4..d2070f5 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -280,17 +280,14 @@ func WeightsFromAIC(aic []float64) []float64 {
 	w := make([]float64, len(aic))
 	min := MinFloat(aic)
 
-	for i := range aic {
-		aic[i] -= min
-	}
-
 	sumW := 0.0
 	for i := range aic {
-		sumW += math.Exp(-aic[i])
+		w[i] = math.Exp(min - aic[i])
+		sumW += w[i]
 	}
 
-	for i := range aic {
-		w[i] = math.Exp(-aic[i]) / sumW
+	for i := range w {
+		w[i] /= sumW
 	}
 	return w
 }
-- 
2.43.0


From 9290271e7deb83ba113082941bd29fd20628416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 33/34] fix: the kappa log used the text of a target as a
 format

---
 featselect/cohens_kappa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index bdec73d..4a15be5 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -92,7 +92,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 
 		numReceives++
 		hyper := res.target.HyperParameters()
-		fmt.Printf(res.target.StringRep()+" kappa: %3.3f\n", res.kappa)
+		fmt.Printf("%s kappa: %3.3f\n", res.target.StringRep(), res.kappa)
 
 		if numReceives == 1 || res.kappa > bestKappa {
 			bestKappa = res.kappa
-- 
2.43.0


From 4a8216f572dd0602653eadd38d182fc6e6f97283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:01 +0000
Subject: [PATCH 34/34] fix: nested lasso named features wrongly when column
 names are not unique

---
 featselect/nestedLasso.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index e0a8558..0075638 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -31,6 +31,15 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	res.Dset = data
 	curDset := data.Copy()
 	normD := NewNormalizedData(curDset.X, curDset.Y)
+
+	// Features are identified by their number in the passed dataset, since names do not
+	// need to be unique
+	_, numFeat := data.X.Dims()
+	featNo := make([]int, numFeat)
+	for i := range featNo {
+		featNo[i] = i
+	}
+
 	for {
 		iter++
 		newPath := LassoLars(normD, lambMin, estimator)
@@ -52,12 +61,10 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		survivors := path.PickMostRelevantFeatures(newNum)
 
 		// Map selection
-		featNames := make([]string, currentNumCoeff)
-		for i := range featNames {
-			featNames[i] = curDset.GetFeatName(i)
-		}
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, featNames, v.Selection)
+			for i := range v.Selection {
+				v.Selection[i] = featNo[v.Selection[i]]
+			}
 		}
 
 		if newNum <= 2 {
@@ -65,6 +72,11 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		}
 
 		// Update the current dataset and the normalized dataset
+		newFeatNo := make([]int, len(survivors))
+		for i, v := range survivors {
+			newFeatNo[i] = featNo[v]
+		}
+		featNo = newFeatNo
 		curDset = curDset.GetSubset(survivors)
 		normD = NewNormalizedData(curDset.X, curDset.Y)
 	}
-- 
2.43.0

