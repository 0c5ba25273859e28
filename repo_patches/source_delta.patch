From 9d17b7adc9069154251da1dbc6185ea62fe42076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:38 +0000
Subject: [PATCH 01/83] fix: topological sorts put parents before children when
 an edge skips levels

---
 spn/topo.go | 54 ++++++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/spn/topo.go b/spn/topo.go
index a8572fd..1f0ab35 100644
--- a/spn/topo.go
+++ b/spn/topo.go
@@ -43,20 +43,22 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
+			// A node may be on the stack once for each of its parents: only the first one counts.
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+			}
 			continue
 		}
 		S.Push(u)
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -77,13 +79,15 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
-			if !f(u) {
-				return C
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+				if !f(u) {
+					return C
+				}
 			}
 			continue
 		}
@@ -91,9 +95,8 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -111,28 +114,25 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 	}
 
 	S.Push(G)
-	V[G] = true
 
 	for !S.Empty() {
 		s := S.Pop().(SPN)
-		ch := s.Ch()
-		if len(ch) == 0 {
+		if V[s] {
+			continue
+		}
+		var m []SPN
+		for _, c := range s.Ch() {
+			if !V[c] {
+				m = append(m, c)
+			}
+		}
+		if len(m) == 0 {
 			C.Give(s)
+			V[s] = true
 		} else {
-			var m []SPN
-			for _, c := range ch {
-				if !V[c] {
-					m = append(m, c)
-				}
-			}
-			if len(m) == 0 {
-				C.Give(s)
-			} else {
-				S.Push(s)
-				for _, c := range m {
-					S.Push(c)
-					V[c] = true
-				}
+			S.Push(s)
+			for _, c := range m {
+				S.Push(c)
 			}
 		}
 	}
-- 
2.43.0


From 533beb98f6b319f72a8d6f969c633f3b51ef3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:07 +0000
Subject: [PATCH 02/83] fix: weights and probabilities lose precision when a
 network is serialized

---
 spn/multinom.go | 2 +-
 spn/sum.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 9043ac6..5945fe5 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -220,7 +220,7 @@ func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d %d", m.varid, len(m.pr))
 	for _, p := range m.pr {
-		fmt.Fprintf(&b, " %f", p)
+		fmt.Fprintf(&b, " %g", p)
 	}
 	return b.Bytes(), nil
 }
diff --git a/spn/sum.go b/spn/sum.go
index 790eaaf..156ec5d 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -138,7 +138,7 @@ func (s *Sum) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d", len(s.w))
 	for _, w := range s.w {
-		fmt.Fprintf(&b, " %f", w)
+		fmt.Fprintf(&b, " %g", w)
 	}
 	return b.Bytes(), nil
 }
-- 
2.43.0


From dbd3a9d447f5566b16fbb0d063379a53e1ec36ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:27 +0000
Subject: [PATCH 03/83] fix: scope of a sum is empty, and asking a node for its
 scope writes to the node

---
 spn/gaussian.go  | 2 +-
 spn/indicator.go | 3 ++-
 spn/product.go   | 5 ++++-
 spn/sum.go       | 4 ++--
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 9a2f630..d2b25ca 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -174,7 +174,7 @@ func (g *Gaussian) Params() (float64, float64) {
 // Sc returns the scope of this node.
 func (g *Gaussian) Sc() []int {
 	if len(g.sc) == 0 {
-		g.sc = []int{g.varid}
+		return []int{g.varid}
 	}
 	return g.sc
 }
diff --git a/spn/indicator.go b/spn/indicator.go
index 4268f1d..a50702a 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -57,7 +57,7 @@ func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 // Sc returns the scope of this node.
 func (i *Indicator) Sc() []int {
 	if len(i.sc) == 0 {
-		i.sc = []int{i.varid}
+		return []int{i.varid}
 	}
 	return i.sc
 }
@@ -71,5 +71,6 @@ func (i *Indicator) GobEncode() ([]byte, error) {
 func (i *Indicator) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
 	_, err := fmt.Fscanf(b, "%d %d", &i.varid, &i.v)
+	i.sc = []int{i.varid}
 	return err
 }
diff --git a/spn/product.go b/spn/product.go
index 3f04894..b76750a 100644
--- a/spn/product.go
+++ b/spn/product.go
@@ -22,9 +22,12 @@ func (p *Product) Type() string { return "product" }
 // Sc returns the scope of this node.
 func (p *Product) Sc() []int {
 	if p.sc == nil {
+		// Not stored: concurrent callers may ask for the scope, and children may be added later.
+		var sc []int
 		for i := range p.ch {
-			p.sc = append(p.sc, p.ch[i].Sc()...)
+			sc = append(sc, p.ch[i].Sc()...)
 		}
+		return sc
 	}
 	return p.sc
 }
diff --git a/spn/sum.go b/spn/sum.go
index 156ec5d..00f69ef 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -32,8 +32,8 @@ func (s *Sum) AddChildW(c SPN, w float64) {
 
 // Sc returns the scope of this node.
 func (s *Sum) Sc() []int {
-	if s.sc == nil {
-		copy(s.sc, s.ch[0].Sc())
+	if s.sc == nil && len(s.ch) > 0 {
+		return s.ch[0].Sc()
 	}
 	return s.sc
 }
-- 
2.43.0


From 12b450a232d95b24484515e02cf713db1dffd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:27 +0000
Subject: [PATCH 04/83] fix: most probable state of an indicator with no
 evidence is its own value

---
 spn/indicator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index a50702a..43beb6b 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -48,7 +48,7 @@ func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	u, e := val[i.varid]
 	if !e || u == i.v {
-		retval[i.varid] = u
+		retval[i.varid] = i.v
 		return retval, 0
 	}
 	return retval, utils.LogZero
-- 
2.43.0


From 2d01c9f41b3d27978976fb1ae70f1e6afef13cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:27 +0000
Subject: [PATCH 05/83] fix: most probable state of a sum panics when the
 evidence is impossible

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 00f69ef..3257e2e 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -100,7 +100,7 @@ func (s *Sum) ArgMax(val VarSet) (VarSet, float64) {
 	for i := 0; i < n; i++ {
 		ch := s.ch[i]
 		m := math.Log(s.w[i]) + ch.Max(val)
-		if m > max {
+		if mch == nil || m > max {
 			max, mch = m, ch
 		}
 	}
-- 
2.43.0


From 3905f496a674181a7cbdba3bbc1d9a0369f947be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:04 +0000
Subject: [PATCH 06/83] fix: a gaussian with no deviation has probability zero
 when its variable is not observed

---
 spn/gaussian.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index d2b25ca..cafaf4c 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -115,7 +115,7 @@ func NewGaussianFit(varid int, counts []float64) *Gaussian {
 func (g *Gaussian) Type() string { return "leaf" }
 
 func zeroSigma(v int, ok bool, mu float64) float64 {
-	if ok && v == int(mu) {
+	if !ok || v == int(mu) {
 		return 0
 	}
 	return math.Inf(-1)
@@ -154,8 +154,12 @@ func (g *Gaussian) ArgMax(val VarSet) (VarSet, float64) {
 	v, ok := val[g.varid]
 
 	if g.dist.Sigma == 0 {
-		retval[g.varid] = int(g.dist.Mu)
-		return retval, 0.0
+		if !ok {
+			retval[g.varid] = int(g.dist.Mu)
+		} else {
+			retval[g.varid] = v
+		}
+		return retval, zeroSigma(v, ok, g.dist.Mu)
 	} else if ok {
 		retval[g.varid] = v
 		z := g.dist.LogProb(float64(v))
-- 
2.43.0


From 76297bee43132d5d2673e3d8417540d2de4f78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:54 +0000
Subject: [PATCH 07/83] fix: concurrent callers get different default
 parameters for the same node

---
 learn/parameters/parameters.go | 14 ++++++++++++++
 spn/node.go                    |  7 +------
 spn/product.go                 |  7 +------
 spn/sum.go                     |  7 +------
 4 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/learn/parameters/parameters.go b/learn/parameters/parameters.go
index c854024..902e0c5 100644
--- a/learn/parameters/parameters.go
+++ b/learn/parameters/parameters.go
@@ -116,3 +116,17 @@ func Retrieve(e Parametrizable) (*P, bool) {
 	mu.Unlock()
 	return p, q
 }
+
+// RetrieveOrDefault returns the parameters bound to e. If no bound parameter is found, binds default
+// parameter values and returns them. Looking up and binding are a single step, so concurrent callers
+// get the same parameters.
+func RetrieveOrDefault(e Parametrizable) *P {
+	mu.Lock()
+	defer mu.Unlock()
+	p, q := bindings[e]
+	if !q {
+		p = Default()
+		bindings[e] = p
+	}
+	return p
+}
diff --git a/spn/node.go b/spn/node.go
index c582e5c..e7daa8e 100644
--- a/spn/node.go
+++ b/spn/node.go
@@ -118,10 +118,5 @@ func (n *Node) Height() int {
 // Parameters returns the parameters of this object. If no bound parameter is found, binds default
 // parameter values and returns.
 func (n *Node) Parameters() *parameters.P {
-	p, e := parameters.Retrieve(n)
-	if !e {
-		p = parameters.Default()
-		parameters.Bind(n, p)
-	}
-	return p
+	return parameters.RetrieveOrDefault(n)
 }
diff --git a/spn/product.go b/spn/product.go
index b76750a..ad99938 100644
--- a/spn/product.go
+++ b/spn/product.go
@@ -93,12 +93,7 @@ func (p *Product) AddChild(c SPN) {
 // Parameters returns the parameters of this object. If no bound parameter is found, binds default
 // parameter values and returns.
 func (p *Product) Parameters() *parameters.P {
-	r, e := parameters.Retrieve(p)
-	if !e {
-		r = parameters.Default()
-		parameters.Bind(p, r)
-	}
-	return r
+	return parameters.RetrieveOrDefault(p)
 }
 
 func (p *Product) GobEncode() ([]byte, error) {
diff --git a/spn/sum.go b/spn/sum.go
index 3257e2e..a8385df 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -125,12 +125,7 @@ func (s *Sum) AddChild(c SPN) {
 // Parameters returns the parameters of this object. If no bound parameter is found, binds default
 // parameter values and returns.
 func (s *Sum) Parameters() *parameters.P {
-	p, e := parameters.Retrieve(s)
-	if !e {
-		p = parameters.Default()
-		parameters.Bind(s, p)
-	}
-	return p
+	return parameters.RetrieveOrDefault(s)
 }
 
 // GobEncode serializes this sum node, but does not recurse over its children.
-- 
2.43.0


From b3e6b87f4391747d2ba2645f234eba69b91f9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 08/83] fix: parameters bound to a leaf are not the ones the
 leaf reports

---
 spn/gaussian.go  | 7 +++++++
 spn/indicator.go | 7 +++++++
 spn/multinom.go  | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index cafaf4c..e8f6611 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -4,6 +4,7 @@ import (
 	//"github.com/RenatoGeh/gospn/sys"
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"gonum.org/v1/gonum/stat/distuv"
 	"math"
 )
@@ -200,3 +201,9 @@ func (g *Gaussian) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (g *Gaussian) SubType() string { return "gaussian" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (g *Gaussian) Parameters() *parameters.P {
+	return parameters.RetrieveOrDefault(g)
+}
diff --git a/spn/indicator.go b/spn/indicator.go
index 43beb6b..0643742 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/utils"
 )
 
@@ -74,3 +75,9 @@ func (i *Indicator) GobDecode(data []byte) error {
 	i.sc = []int{i.varid}
 	return err
 }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (i *Indicator) Parameters() *parameters.P {
+	return parameters.RetrieveOrDefault(i)
+}
diff --git a/spn/multinom.go b/spn/multinom.go
index 5945fe5..fd1c269 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/sys"
 	"math"
 )
@@ -248,3 +249,9 @@ func (m *Multinomial) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (m *Multinomial) SubType() string { return "multinomial" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (m *Multinomial) Parameters() *parameters.P {
+	return parameters.RetrieveOrDefault(m)
+}
-- 
2.43.0


From be78609c663e66a5400738b565ed6f431183e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:08 +0000
Subject: [PATCH 09/83] fix: reseeding may hand out a generator of another
 call, and the seed is read without its lock

---
 sys/rand.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sys/rand.go b/sys/rand.go
index c63d83e..abf3019 100644
--- a/sys/rand.go
+++ b/sys/rand.go
@@ -19,9 +19,9 @@ func init() {
 // RandSeed sets the pseudo-random generator's seed and resets the
 func RefreshRandom(s int64) *rand.Rand {
 	mu.Lock()
+	defer mu.Unlock()
 	seed = s
 	Random = rand.New(rand.NewSource(seed))
-	mu.Unlock()
 	return Random
 }
 
@@ -47,7 +47,11 @@ func RandNormFloat64() float64 {
 }
 
 // Seed returns the pseudo-random seed.
-func Seed() int64 { return seed }
+func Seed() int64 {
+	mu.Lock()
+	defer mu.Unlock()
+	return seed
+}
 
 func RandomComb(u int, v int, m int) [][2]int {
 	n := u * v
-- 
2.43.0


From aff95f014feb9563c474e2b2da9b9cba1c695cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:42 +0000
Subject: [PATCH 10/83] fix: a draw with an invalid bound leaves the generator
 locked forever

---
 sys/rand.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/sys/rand.go b/sys/rand.go
index abf3019..a914d49 100644
--- a/sys/rand.go
+++ b/sys/rand.go
@@ -27,23 +27,20 @@ func RefreshRandom(s int64) *rand.Rand {
 
 func RandIntn(n int) int {
 	mu.Lock()
-	r := Random.Intn(n)
-	mu.Unlock()
-	return r
+	defer mu.Unlock()
+	return Random.Intn(n)
 }
 
 func RandFloat64() float64 {
 	mu.Lock()
-	r := Random.Float64()
-	mu.Unlock()
-	return r
+	defer mu.Unlock()
+	return Random.Float64()
 }
 
 func RandNormFloat64() float64 {
 	mu.Lock()
-	r := Random.NormFloat64()
-	mu.Unlock()
-	return r
+	defer mu.Unlock()
+	return Random.NormFloat64()
 }
 
 // Seed returns the pseudo-random seed.
-- 
2.43.0


From 4f1f43a63de14ad1a4d8651b33894f917f9feade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:43 +0000
Subject: [PATCH 11/83] fix: evaluating a score panics on fewer than ten
 instances and modifies the dataset

---
 score/score.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/score/score.go b/score/score.go
index 0265655..e86cfe4 100644
--- a/score/score.go
+++ b/score/score.go
@@ -71,17 +71,15 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 	tk := st.NewTicket()
 	v := classVar.Varid
 	sys.Println("Evaluating scores...")
-	n := len(T) / 10
+	n := tenth(len(T))
 	for i, I := range T {
 		if i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
-		delete(I, v)
+		I = copyExcept(I, v)
 		_, _, M := spn.StoreMAP(N, I, tk, st)
 		s.Register(M[v], L[i])
 		st.Reset(tk)
-		I[v] = l
 	}
 }
 
@@ -92,13 +90,12 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	tk := st.NewTicket()
 	v := classVar.Varid
 	sys.Println("Evaluating scores...")
-	n := len(T) / 10
+	n := tenth(len(T))
 	for i, I := range T {
 		if i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
-		delete(I, v)
+		I = copyExcept(I, v)
 		spn.StoreInference(N, I, tk, st)
 		pe, _ := st.Single(tk, N)
 		mp := math.Inf(-1)
@@ -115,10 +112,17 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		}
 		s.Register(ml, L[i])
 		st.Reset(tk)
-		I[v] = l
 	}
 }
 
+// tenth returns how many out of n instances to evaluate between two progress messages.
+func tenth(n int) int {
+	if n < 10 {
+		return 1
+	}
+	return n / 10
+}
+
 func copyExcept(V spn.VarSet, x int) spn.VarSet {
 	U := make(spn.VarSet)
 	for k, v := range V {
@@ -166,7 +170,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 				}
 				mu.Lock()
 				s.Register(ml, h[j])
-				if _n := s.total; (_n > 0) && (_n%(len(D)/10) == 0) {
+				if _n := s.total; (_n > 0) && (_n%tenth(len(D)) == 0) {
 					sys.Printf("... %d%% ...\n", int(100.0*(float64(_n)/float64(len(D)))))
 				}
 				mu.Unlock()
-- 
2.43.0


From 42d33dfad5d74e74cc81199892b14086c7f698b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:43 +0000
Subject: [PATCH 12/83] fix: concurrent score evaluation panics when there are
 more processors than instances

---
 score/score.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/score.go b/score/score.go
index e86cfe4..e347b17 100644
--- a/score/score.go
+++ b/score/score.go
@@ -136,16 +136,16 @@ func copyExcept(V spn.VarSet, x int) spn.VarSet {
 // EvaluatePosteriorConc runs EvaluatePosterior concurrently. Additional argument k is the number
 // of concurrent jobs to run at a time. If k <= 0, k is set to the number of CPUs available.
 func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable, k int) {
+	Q := conc.NewSingleQueue(k)
+	k = Q.Allowed()
 	if len(D) < k {
 		s.EvaluatePosterior(D, L, N, classVar)
 		return
 	}
-	Q := conc.NewSingleQueue(k)
 	mu := &sync.Mutex{}
 	c, v := classVar.Categories, classVar.Varid
 	sys.Println("Evaluating scores...")
 
-	k = Q.Allowed()
 	G, H := data.Divide(D, L, k)
 	for i := 0; i < k; i++ {
 		Q.Run(func(id int) {
-- 
2.43.0


From 8d539bda7c32e0601d43c24efc298eeb8716f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 13/83] fix: adding scores shares storage between the results

---
 score/score.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index e347b17..de2eb6f 100644
--- a/score/score.go
+++ b/score/score.go
@@ -209,7 +209,7 @@ func Add(s, t *S) *S {
 	m.hits = s.hits + t.hits
 	m.misses = s.misses + t.misses
 	m.total = s.total + t.total
-	m.predictions = append(s.predictions, t.predictions...)
+	m.predictions = append(append(m.predictions, s.predictions...), t.predictions...)
 	return m
 }
 
-- 
2.43.0


From 683e5c4219c341486c996debe4cb22279a8e2732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 14/83] fix: dividing a dataset into more parts than it has
 instances panics

---
 data/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cdcb80c..831aff8 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -335,8 +335,8 @@ func Divide(D []map[int]int, L []int, n int) ([][]map[int]int, [][]int) {
 		for i, I := range D {
 			M := make(map[int]int)
 			copyMap(M, I)
-			Gd[0][i] = M
-			Gl[0][i] = L[i]
+			Gd[0] = append(Gd[0], M)
+			Gl[0] = append(Gl[0], L[i])
 		}
 		return Gd, Gl
 	}
-- 
2.43.0


From 57c782364374156d113977c4bd5ff9d13cf0a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:10 +0000
Subject: [PATCH 15/83] fix: clustering a dataset by density panics when a
 cluster's representative is not among the first instances

---
 utils/cluster/dbscan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 5d52a7a..63dfd04 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -108,11 +108,11 @@ func DBSCANData(data []map[int]int, eps float64, mp int) [][]map[int]int {
 	rgs := dbscanInternal(M, eps, mp)
 	G := make([]int, len(M))
 	var k int
-	for i, u := range rgs {
+	for _, u := range rgs {
 		if u.Pa == u {
 			ch := utils.UFVarids(u)
 			for _, c := range ch {
-				G[c] = i
+				G[c] = k
 			}
 			k++
 		}
-- 
2.43.0


From 75f74f99b7911809fbb6c483976164da50beefb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:17 +0000
Subject: [PATCH 16/83] fix: partitioning few values into many quantiles gives
 undefined means and deviations

---
 learn/dennis/region.go |  2 +-
 learn/poon/poon.go     |  2 +-
 utils/stats.go         | 10 +++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 0e805dd..76b605e 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -33,8 +33,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 			mu, sigma := utils.MuSigma(X)
 			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
 		} else {
-			r.rep = make([]spn.SPN, g)
 			Q := utils.PartitionQuantiles(X, g)
+			r.rep = make([]spn.SPN, len(Q))
 			for i, q := range Q {
 				r.rep[i] = spn.NewGaussianParams(v, q[0], q[1])
 			}
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 4077f0f..aea69a2 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -111,7 +111,7 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	sort.Ints(V)
 	//sys.Printf("p: %d\n", p)
 	Q := utils.PartitionQuantiles(V, n)
-	S := make([]spn.SPN, n)
+	S := make([]spn.SPN, len(Q))
 	//s := spn.NewSum()
 	for i, q := range Q {
 		g := spn.NewGaussianParams(p, q[0], q[1])
diff --git a/utils/stats.go b/utils/stats.go
index 5f240b6..3a0b6ee 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -56,7 +56,7 @@ func MuSigma(c []int) (float64, float64) {
 
 // PartitionQuantiles takes a slice of values X of a single variable from the dataset and the
 // number m of quantiles to partition the data. Returns a slice of pair of values containing mean
-// and standard deviation (in this order).
+// and standard deviation (in this order). Quantiles with no values are left out.
 func PartitionQuantiles(X []int, m int) [][]float64 {
 	k := len(X)
 	var l int
@@ -65,7 +65,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 	} else {
 		l = int(floats.Round(float64(k)/float64(m), 0))
 	}
-	P := make([][]float64, m)
+	P := make([][]float64, 0, m)
 	for i := 0; i < m; i++ {
 		q := (i + 1) * l
 		if i == m-1 {
@@ -75,6 +75,10 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		for j := i * l; j < q && j < k; j++ {
 			Q = append(Q, X[j])
 		}
+		// More partitions than values: there is nothing to take the mean of.
+		if len(Q) == 0 {
+			continue
+		}
 		// Compute mean and standard deviation.
 		var mu, sigma float64
 		n := float64(len(Q))
@@ -90,7 +94,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		if sigma == 0 {
 			sigma = 0.5
 		}
-		P[i] = []float64{mu, sigma, n}
+		P = append(P, []float64{mu, sigma, n})
 	}
 	return P
 }
-- 
2.43.0


From 1904a4879e2acad87910f914a14edc01344fca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:37 +0000
Subject: [PATCH 17/83] fix: single gaussians are fitted to the values as if
 they were counts

---
 learn/dennis/region.go | 4 ++--
 learn/poon/poon.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 76b605e..88c1cb3 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -30,8 +30,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 		}
 		X := learn.ExtractInstance(v, D)
 		if g > len(D) {
-			mu, sigma := utils.MuSigma(X)
-			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
+			q := utils.PartitionQuantiles(X, 1)[0]
+			r.rep = []spn.SPN{spn.NewGaussianParams(v, q[0], q[1])}
 		} else {
 			Q := utils.PartitionQuantiles(X, g)
 			r.rep = make([]spn.SPN, len(Q))
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index aea69a2..9d35158 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -104,8 +104,8 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	}
 
 	if n == 1 {
-		mu, sigma := utils.MuSigma(V)
-		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, mu, sigma)}, 1)
+		q := utils.PartitionQuantiles(V, 1)[0]
+		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, q[0], q[1])}, 1)
 	}
 
 	sort.Ints(V)
-- 
2.43.0


From 49500a42075eab260e7b88fec27e5898c6c9de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:17 +0000
Subject: [PATCH 18/83] fix: learning from a cluster with no instances

---
 learn/dennis/dennis.go   |  2 +-
 utils/cluster/cluster.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/learn/dennis/dennis.go b/learn/dennis/dennis.go
index 1472c32..49803b8 100644
--- a/learn/dennis/dennis.go
+++ b/learn/dennis/dennis.go
@@ -57,7 +57,7 @@ func buildRegionGraph(D spn.Dataset, sc map[int]*learn.Variable, k int, t float6
 	n := G.root
 	if k > 1 {
 		C := cluster.KMeansDataI(k, D)
-		for i := 0; i < k; i++ {
+		for i := range C {
 			//sys.Printf("Expanding region graph on cluster %d...\n", i)
 			P := transpose(dataToCluster(C[i]))
 			expandRegionGraph(G, n, P, t)
diff --git a/utils/cluster/cluster.go b/utils/cluster/cluster.go
index c017e6c..3ac7597 100644
--- a/utils/cluster/cluster.go
+++ b/utils/cluster/cluster.go
@@ -59,6 +59,8 @@ func copyMap(src map[int]int) map[int]int {
 	return dst
 }
 
+// guessToData groups the instances by the cluster they were assigned to. Clusters with no instances
+// are left out.
 func guessToData(k int, G []int, M [][]float64, Sc map[int]int) [][]map[int]int {
 	C := make([][]map[int]int, k)
 	for i, g := range G {
@@ -68,5 +70,11 @@ func guessToData(k int, G []int, M [][]float64, Sc map[int]int) [][]map[int]int
 		}
 		C[g] = append(C[g], I)
 	}
-	return C
+	var N [][]map[int]int
+	for _, c := range C {
+		if len(c) > 0 {
+			N = append(N, c)
+		}
+	}
+	return N
 }
-- 
2.43.0


From e3307a7358f1032e79a9bcd71e3ac91761060ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:10 +0000
Subject: [PATCH 19/83] fix: saving a network destroys the saved one when the
 save fails or is interrupted

---
 io/spn.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/io/spn.go b/io/spn.go
index e44f6fd..b446277 100644
--- a/io/spn.go
+++ b/io/spn.go
@@ -4,17 +4,33 @@ import (
 	"github.com/RenatoGeh/gospn/spn"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 )
 
 // SaveSPN serializes an SPN and writes it to a file. Suggested extension: ".spn".
+// Either the whole network replaces the file's contents or, on error, the file is left as it was.
 func SaveSPN(filename string, S spn.SPN) error {
-	f, err := os.Create(filename)
+	bytes := spn.Marshal(S)
+	f, err := ioutil.TempFile(filepath.Dir(filename), filepath.Base(filename)+".tmp")
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	bytes := spn.Marshal(S)
 	_, err = f.Write(bytes)
+	if err == nil {
+		err = f.Chmod(0644)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
 	return err
 }
 
-- 
2.43.0


From f54620760e8635f1f7b0421d060469486294125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 20/83] fix: loading a cut-off network file panics or gives a
 network without its edges

---
 io/spn.go     | 14 ++++++++++----
 spn/serial.go | 15 +++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/io/spn.go b/io/spn.go
index b446277..ccb870c 100644
--- a/io/spn.go
+++ b/io/spn.go
@@ -1,6 +1,7 @@
 package io
 
 import (
+	"fmt"
 	"github.com/RenatoGeh/gospn/spn"
 	"io/ioutil"
 	"os"
@@ -34,12 +35,17 @@ func SaveSPN(filename string, S spn.SPN) error {
 	return err
 }
 
-// LoadSPN reads a binary file that contains a serialized SPN.
-func LoadSPN(filename string) (spn.SPN, error) {
+// LoadSPN reads a binary file that contains a serialized SPN. It returns an error if the file could
+// not be read or does not hold a whole network.
+func LoadSPN(filename string) (S spn.SPN, err error) {
 	data, err := ioutil.ReadFile(filename)
 	if err != nil {
 		return nil, err
 	}
-	S := spn.Unmarshal(data)
-	return S, nil
+	defer func() {
+		if r := recover(); r != nil {
+			S, err = nil, fmt.Errorf("io: could not load network from [%s]: %v", filename, r)
+		}
+	}()
+	return spn.Unmarshal(data), nil
 }
diff --git a/spn/serial.go b/spn/serial.go
index 2ded8d7..8bcbc6e 100644
--- a/spn/serial.go
+++ b/spn/serial.go
@@ -65,21 +65,32 @@ func Marshal(S SPN) []byte {
 	return append(nb, net.Bytes()...)
 }
 
+// Unmarshal reads a serialized SPN. It panics if buffer does not hold a whole network.
 func Unmarshal(buffer []byte) SPN {
+	if len(buffer) < 4 {
+		panic("spn: serialized network has no header")
+	}
 	net := bytes.NewBuffer(buffer[4:])
 	dec := gob.NewDecoder(net)
 
 	n := binary.LittleEndian.Uint32(buffer[:4])
+	if n == 0 || uint64(n) > uint64(len(buffer)) {
+		panic("spn: serialized network has an invalid number of nodes")
+	}
 	M := make([]SPN, n)
 	for i := uint32(0); i < n; i++ {
 		var k uint32
-		dec.Decode(&k)
+		if err := dec.Decode(&k); err != nil {
+			panic(err)
+		}
 		Z := decodeSPN(dec)
 		M[k] = Z
 	}
 
 	var list [][]uint32
-	dec.Decode(&list)
+	if err := dec.Decode(&list); err != nil {
+		panic(err)
+	}
 	for i, ch := range list {
 		S := M[i]
 		for _, c := range ch {
-- 
2.43.0


From 52d276b3271908658139f8836d0a8868bc4838f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:33 +0000
Subject: [PATCH 21/83] fix: a failed download crashes, or leaves a file that
 later calls take for the dataset

---
 io/http.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/io/http.go b/io/http.go
index f316395..097da6e 100644
--- a/io/http.go
+++ b/io/http.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/RenatoGeh/gospn/sys"
 	"io"
+	"io/ioutil"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -36,22 +37,39 @@ func DownloadFromURL(u, p string, override bool) error {
 		fmt.Println(e)
 		return e
 	}
-	out, e := os.Create(f)
-	defer out.Close()
+	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
+	d, e := http.Get(u)
 	if e != nil {
-		fmt.Println("Error when trying to create file [%s].\n", f)
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
 		return e
 	}
-	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
-	d, e := http.Get(u)
 	defer d.Body.Close()
+	if d.StatusCode != http.StatusOK {
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
+		return fmt.Errorf("io: downloading [%s]: %s", u, d.Status)
+	}
+	// Download to a temporary file: f must either not exist or be complete.
+	out, e := ioutil.TempFile(filepath.Dir(f), filepath.Base(f)+".tmp")
 	if e != nil {
-		fmt.Println("Error while downloading [%s].\nStopping download.", u)
+		fmt.Printf("Error when trying to create file [%s].\n", f)
 		return e
 	}
 	_, e = io.Copy(out, d.Body)
+	if e == nil {
+		e = out.Chmod(0644)
+	}
+	if e == nil {
+		e = out.Sync()
+	}
+	if ce := out.Close(); e == nil {
+		e = ce
+	}
+	if e == nil {
+		e = os.Rename(out.Name(), f)
+	}
 	if e != nil {
 		fmt.Println("Error while copying download to local directory.")
+		os.Remove(out.Name())
 		return e
 	}
 	sys.Printf("Download finished.")
-- 
2.43.0


From 00a24a6c2ba3d1e9aa3b4e8dc358d836c5db767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:33 +0000
Subject: [PATCH 22/83] fix: a failed download of half of MNIST is ignored

---
 data/datasets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/datasets.go b/data/datasets.go
index f7029f5..d5e35b8 100644
--- a/data/datasets.go
+++ b/data/datasets.go
@@ -189,6 +189,9 @@ func pullMNIST(n, b int) (map[int]*learn.Variable, []map[int]int, []map[int]int)
 		return nil, nil, nil
 	}
 	e = io.DownloadFromURL(ur, pr, false)
+	if e != nil {
+		return nil, nil, nil
+	}
 	v, dt := io.ParseData(pt)
 	_, dr := io.ParseData(pr)
 	return v, dt, dr
-- 
2.43.0


From c66beb0122597f6b5ecc109cc64cceb641bd2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:11 +0000
Subject: [PATCH 23/83] fix: parsing a data file stops silently at a read error
 or an overlong line

---
 io/arff.go  |  1 +
 io/input.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/io/arff.go b/io/arff.go
index 7f8c736..3bc0adb 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -299,5 +299,6 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 			i++
 		}
 	}
+	checkScan(stream, filename)
 	return
 }
diff --git a/io/input.go b/io/input.go
index 7abf64f..3252820 100644
--- a/io/input.go
+++ b/io/input.go
@@ -32,6 +32,14 @@ func GetPath(relpath string) string {
 	return rp
 }
 
+// checkScan panics if the scanner stopped before the end of the file.
+func checkScan(scanner *bufio.Scanner, filename string) {
+	if err := scanner.Err(); err != nil {
+		fmt.Printf("Error. Could not read file [%s].\n", filename)
+		panic(err)
+	}
+}
+
 // ParseData reads from a file named filename and returns the scope and data map of the parsed data
 // file.
 func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
@@ -82,6 +90,8 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 		k++
 	}
 
+	checkScan(scanner, filename)
+
 	data = append(data, make([]int, n))
 	s := regex.Split(line, -1)
 	for i := 0; i < n; i++ {
@@ -159,6 +169,8 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 		k++
 	}
 
+	checkScan(scanner, filename)
+
 	data = append(data, make([]int, n))
 	s := regex.Split(line, -1)
 	for i := 0; i < n; i++ {
@@ -251,6 +263,8 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 		k++
 	}
 
+	checkScan(scanner, filename)
+
 	data = append(data, make([]int, n))
 	s := regex.Split(line, -1)
 	for i := 0; i < n; i++ {
-- 
2.43.0


From a096b0150e89066eedf4a47e1f6334357c22d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:12 +0000
Subject: [PATCH 24/83] fix: reading a model file erases it

---
 io/input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/input.go b/io/input.go
index 3252820..9715ddc 100644
--- a/io/input.go
+++ b/io/input.go
@@ -350,9 +350,9 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 
 // ReadFromFile reads an SPN from an spn mdl file.
 func ReadFromFile(filename string) spn.SPN {
-	file, err := os.Create(filename)
+	file, err := os.Open(filename)
 	if err != nil {
-		fmt.Printf("Error. Could not create file [%s].\n", filename)
+		fmt.Printf("Error. Could not open file [%s].\n", filename)
 		panic(err)
 	}
 	defer file.Close()
-- 
2.43.0


From 9e5ebae945c51b9afbb3612bb8dcd5c4c2733c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:13 +0000
Subject: [PATCH 25/83] fix: blanks in an image become pixels when it is
 converted to evidence

---
 io/pgm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/pgm.go b/io/pgm.go
index 06a42ef..5de3472 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -516,8 +516,10 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 			tokens := strings.Split(line, " ")
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
-				tkn, _ := strconv.Atoi(tokens[j])
-				fmt.Fprintf(out, "%d ", tkn)
+				tkn, err := strconv.Atoi(tokens[j])
+				if err == nil {
+					fmt.Fprintf(out, "%d ", tkn)
+				}
 			}
 		}
 
-- 
2.43.0


From 3236a1ecc5119a208051c248a7216ba233ae8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:14 +0000
Subject: [PATCH 26/83] fix: evidence labels are misplaced when classes have
 different numbers of images

---
 io/pbm.go | 2 +-
 io/pgm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/pbm.go b/io/pbm.go
index 88c49b9..63d55b0 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -317,7 +317,7 @@ func PBMFToEvidence(dirname, dname string) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
diff --git a/io/pgm.go b/io/pgm.go
index 5de3472..9ea10cc 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -449,7 +449,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
-- 
2.43.0


From fda70f89e66900251a46c55a4c110dacad1d46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:01 +0000
Subject: [PATCH 27/83] fix: converting a dataset ignores read and write errors

---
 io/arff.go  |  3 ++-
 io/input.go | 12 ++++++++++++
 io/pbm.go   | 24 ++++++++++++++++++------
 io/pgm.go   | 25 +++++++++++++++++++------
 4 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index 3bc0adb..a1aa964 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -38,6 +38,7 @@ func ARFFToData(dirname, fname, dname string) {
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
+	checkScan(scanner, fname)
 
 	var dataflag bool = false
 	attributes := 0
@@ -141,7 +142,7 @@ func ARFFToData(dirname, fname, dname string) {
 		fmt.Println("Instance written")
 	}
 
-	write.Flush()
+	finish(write, output)
 
 	// Rough output
 	//write := bufio.NewWriter(output)
diff --git a/io/input.go b/io/input.go
index 9715ddc..025fed8 100644
--- a/io/input.go
+++ b/io/input.go
@@ -40,6 +40,18 @@ func checkScan(scanner *bufio.Scanner, filename string) {
 	}
 }
 
+// finish writes out what is left in out and closes f, and panics if not everything could be written.
+func finish(out *bufio.Writer, f *os.File) {
+	err := out.Flush()
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		fmt.Printf("Error. Could not write file [%s].\n", f.Name())
+		panic(err)
+	}
+}
+
 // ParseData reads from a file named filename and returns the scope and data map of the parsed data
 // file.
 func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
diff --git a/io/pbm.go b/io/pbm.go
index 63d55b0..cb105ec 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -110,13 +110,14 @@ func PBMFToData(dirname, dname string) {
 	}
 
 	cmpname = utils.StringConcat(cmpname, "/")
-	out, err := os.Create(utils.StringConcat(cmpname, dname))
+	outf, err := os.Create(utils.StringConcat(cmpname, dname))
 
 	if err != nil {
 		fmt.Printf("Error creating output file [%s/%s].\n", cmpname, dname)
 		panic(err)
 	}
-	defer out.Close()
+	defer outf.Close()
+	out := bufio.NewWriter(outf)
 
 	// Deal with P1.
 	instreams[0].Scan()
@@ -150,9 +151,12 @@ func PBMFToData(dirname, dname string) {
 				fmt.Fprintf(out, "%c ", line[j])
 			}
 		}
+		checkScan(stream, dirname)
 
 		fmt.Fprintf(out, "%d\n", labels[i])
 	}
+
+	finish(out, outf)
 }
 
 // PBMToData (PBM to Data file). If class is true, it's a classifying problem and will label as
@@ -191,13 +195,14 @@ func PBMToData(dirname, dname string, class int) {
 		instream[i] = bufio.NewScanner(in[i])
 	}
 
-	out, err := os.Create(dname)
+	outf, err := os.Create(dname)
 
 	if err != nil {
 		fmt.Printf("Error. Could not create file [%s].\n", dname)
 		panic(err)
 	}
-	defer out.Close()
+	defer outf.Close()
+	out := bufio.NewWriter(outf)
 
 	// Deal with P1.
 	instream[0].Scan()
@@ -229,6 +234,7 @@ func PBMToData(dirname, dname string, class int) {
 				fmt.Fprintf(out, "%c ", line[j])
 			}
 		}
+		checkScan(stream, dirname)
 
 		if class > 0 {
 			fmt.Fprintf(out, "%d\n", class)
@@ -236,6 +242,8 @@ func PBMToData(dirname, dname string, class int) {
 			fmt.Fprintf(out, "\n")
 		}
 	}
+
+	finish(out, outf)
 }
 
 // PBMFToEvidence (PBM file to evidence).
@@ -334,13 +342,14 @@ func PBMFToEvidence(dirname, dname string) {
 	}
 
 	cmpname = utils.StringConcat(cmpname, "/")
-	out, err := os.Create(utils.StringConcat(cmpname, dname))
+	outf, err := os.Create(utils.StringConcat(cmpname, dname))
 
 	if err != nil {
 		fmt.Printf("Error creating output file [%s/%s].\n", cmpname, dname)
 		panic(err)
 	}
-	defer out.Close()
+	defer outf.Close()
+	out := bufio.NewWriter(outf)
 
 	// Deal with P1.
 	instreams[0].Scan()
@@ -383,9 +392,12 @@ func PBMFToEvidence(dirname, dname string) {
 				fmt.Fprintf(out, "%c ", line[j])
 			}
 		}
+		checkScan(stream, dirname)
 
 		fmt.Fprintf(out, "\n")
 	}
+
+	finish(out, outf)
 }
 
 // VarSetToPBM takes a state and draws according to the SPN that generated the instantiation.
diff --git a/io/pgm.go b/io/pgm.go
index 9ea10cc..946319e 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -114,13 +114,14 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 	}
 
 	cmpname = utils.StringConcat(cmpname, "/")
-	out, err := os.Create(utils.StringConcat(cmpname, dname))
+	outf, err := os.Create(utils.StringConcat(cmpname, dname))
 
 	if err != nil {
 		fmt.Printf("Error creating output file [%s/%s].\n", cmpname, dname)
 		panic(err)
 	}
-	defer out.Close()
+	defer outf.Close()
+	out := bufio.NewWriter(outf)
 
 	// Deal with magical number.
 	instreams[0].Scan()
@@ -160,10 +161,13 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 				}
 			}
 		}
+		checkScan(stream, dirname)
 
 		fmt.Fprintf(out, "%d\n", labels[i])
 	}
 
+	finish(out, outf)
+
 	return w, h, max
 }
 
@@ -256,13 +260,14 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 	}
 
 	cmpname = utils.StringConcat(cmpname, "/")
-	out, err := os.Create(utils.StringConcat(cmpname, dname))
+	outf, err := os.Create(utils.StringConcat(cmpname, dname))
 
 	if err != nil {
 		fmt.Printf("Error creating output file [%s/%s].\n", cmpname, dname)
 		panic(err)
 	}
-	defer out.Close()
+	defer outf.Close()
+	out := bufio.NewWriter(outf)
 
 	// Parse the first file separately to find variables and image dimensions/max value.
 	f, err := os.Open(files[0])
@@ -299,6 +304,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			}
 		}
 	}
+	checkScan(stream, dirname)
 	fmt.Fprintf(out, "%d\n", labels[0])
 	labels = labels[1:]
 	f.Close()
@@ -348,6 +354,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 					}
 				}
 			}
+			checkScan(lstream, files[id])
 			vals = append(vals, labels[id])
 
 			mutex.Lock()
@@ -367,6 +374,8 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 
 	wg.Wait()
 
+	finish(out, outf)
+
 	return w, h, max
 }
 
@@ -466,13 +475,14 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 	}
 
 	cmpname = utils.StringConcat(cmpname, "/")
-	out, err := os.Create(utils.StringConcat(cmpname, dname))
+	outf, err := os.Create(utils.StringConcat(cmpname, dname))
 
 	if err != nil {
 		fmt.Printf("Error creating output file [%s/%s].\n", cmpname, dname)
 		panic(err)
 	}
-	defer out.Close()
+	defer outf.Close()
+	out := bufio.NewWriter(outf)
 
 	// Deal with magical number.
 	instreams[0].Scan()
@@ -522,10 +532,13 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 				}
 			}
 		}
+		checkScan(stream, dirname)
 
 		fmt.Fprintf(out, "\n")
 	}
 
+	finish(out, outf)
+
 	return w, h, max
 }
 
-- 
2.43.0


From 754186650aeb0361453ea8918404ed41dfa7040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:03 +0000
Subject: [PATCH 28/83] fix: saving a score ignores write errors

---
 score/score.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/score/score.go b/score/score.go
index de2eb6f..f136b48 100644
--- a/score/score.go
+++ b/score/score.go
@@ -216,11 +216,16 @@ func Add(s, t *S) *S {
 // Save saves this score table's textual representation to a file.
 func (s *S) Save(filename string) {
 	f, e := os.Create(filename)
-	defer f.Close()
 	if e != nil {
 		panic(e)
 	}
-	fmt.Fprintln(f, s.String())
+	_, e = fmt.Fprintln(f, s.String())
+	if ce := f.Close(); e == nil {
+		e = ce
+	}
+	if e != nil {
+		panic(e)
+	}
 }
 
 // Clear clears the score table.
-- 
2.43.0


From 16e4c8af70f45d0b126efd7e7622e006d47fe27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:04 +0000
Subject: [PATCH 29/83] fix: parallel image completion writes jobs' images over
 each other

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 5de9eef..963a4d1 100644
--- a/app/image.go
+++ b/app/image.go
@@ -320,7 +320,7 @@ func ImgTestParallel(filename string, m, g, r int, eta, eps float64, concurrents
 			S := dennis.LearnGD(train, lsc, 1, m, g, 0.95, P, id)
 			for _, q := range io.Quadrants {
 				cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
+				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, id), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 			}
 			sys.Printf("Ending job %d\n", id)
 
-- 
2.43.0


From 30e9f38d754f9e62c8b6948aff4ab3675ae9a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:05 +0000
Subject: [PATCH 30/83] fix: partitioning by labels gives leftover instances of
 one class the values of another

---
 data/manipulate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 831aff8..3159176 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -155,7 +155,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 	}
 	for i := 0; i < c; i++ {
 		for K[i] < len(R[i]) {
-			l := R[i][K[i]]
+			l := C[i][R[i][K[i]]]
 			V := make(map[int]int)
 			copyMap(V, D[l])
 			M[di] = append(M[di], V)
-- 
2.43.0


From 821c8780d66ad7d959b501f0ec8063ab38988747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 31/83] fix: reading past the end of an npy file, or a cut-off
 one, makes up instances or never ends

---
 io/npy.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/io/npy.go b/io/npy.go
index f7e9423..f4d876c 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -3,6 +3,7 @@ package io
 import (
 	"errors"
 	"github.com/sbinet/npyio"
+	"io"
 	"os"
 )
 
@@ -46,13 +47,27 @@ type NpyReader struct {
 	s [2]int        // Shape.
 }
 
+// exactReader fills the buffer in every call to Read or fails. Package npyio reads one element at a
+// time and takes for granted that it has been read, even at the end of the file.
+type exactReader struct {
+	r io.Reader
+}
+
+func (e exactReader) Read(b []byte) (int, error) {
+	n, err := io.ReadFull(e.r, b)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 // NewNpyReader creates a new *NpyReader from .npy file fname.
 func NewNpyReader(fname string) (*NpyReader, error) {
 	f, err := os.Open(fname)
 	if err != nil {
 		return nil, err
 	}
-	r, err := npyio.NewReader(f)
+	r, err := npyio.NewReader(exactReader{f})
 	if err != nil {
 		return nil, err
 	}
@@ -219,6 +234,9 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 
 // read reads .npy file from an *NpyReader, pulling n entries.
 func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
+	if n > r.s[0] {
+		return nil, nil, io.ErrUnexpectedEOF
+	}
 	k := n * r.s[1]
 	u := make([]map[int]int, n)
 	l := make([]int, n)
@@ -391,7 +409,7 @@ func (r *NpyReader) ReadBalanced(n int, c int) ([]map[int]int, []int, error) {
 // Reset resets the file pointer so it points to the beginning of data.
 func (r *NpyReader) Reset() error {
 	r.f.Seek(0, 0)
-	nr, err := npyio.NewReader(r.f)
+	nr, err := npyio.NewReader(exactReader{r.f})
 	r.r = nr
 	return err
 }
-- 
2.43.0


From ce0f088494b012fb936fc0aedc3d5f24c2fcf91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:12 +0000
Subject: [PATCH 32/83] fix: a failed reset of an npy reader is ignored

---
 io/npy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/npy.go b/io/npy.go
index f4d876c..be99b8c 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -408,7 +408,9 @@ func (r *NpyReader) ReadBalanced(n int, c int) ([]map[int]int, []int, error) {
 
 // Reset resets the file pointer so it points to the beginning of data.
 func (r *NpyReader) Reset() error {
-	r.f.Seek(0, 0)
+	if _, err := r.f.Seek(0, 0); err != nil {
+		return err
+	}
 	nr, err := npyio.NewReader(exactReader{r.f})
 	r.r = nr
 	return err
-- 
2.43.0


From fa61d5409803ad4787b3a9c1d9f5007267801d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:13 +0000
Subject: [PATCH 33/83] fix: an npy file that is not a dataset stays open

---
 io/npy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index be99b8c..5ffad86 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -69,14 +69,17 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	}
 	r, err := npyio.NewReader(exactReader{f})
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	s := r.Header.Descr.Shape
 	if len(s) != 2 {
+		f.Close()
 		return nil, ErrNonDatasetShape
 	}
 	t := isValid(r.Header.Descr.Type)
 	if t < 0 {
+		f.Close()
 		return nil, ErrNonIntegerType
 	}
 	return &NpyReader{f, r, t, [2]int{s[0], s[1]}}, nil
-- 
2.43.0


From e35ad2d78bdbf855d2494c6efb978ead134817d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:14 +0000
Subject: [PATCH 34/83] fix: reading a balanced dataset panics on a label out
 of range

---
 io/npy.go | 65 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/io/npy.go b/io/npy.go
index 5ffad86..5ccd905 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -20,6 +20,7 @@ var (
 	}
 
 	ErrNonIntegerType  = errors.New("gospn: npy data type is non integer.")
+	ErrInvalidLabel    = errors.New("gospn: npy data has a label out of range.")
 	ErrNonDatasetShape = errors.New("gospn: npy data does not have dimension two.")
 )
 
@@ -115,12 +116,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
@@ -130,12 +135,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
@@ -145,12 +154,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
@@ -160,12 +173,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
@@ -175,12 +192,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
@@ -190,12 +211,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
@@ -205,12 +230,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
@@ -220,12 +249,16 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			if l := m[y-1]; C[l] > 0 {
+			l := int(m[y-1])
+			if l < 0 || l >= c {
+				return nil, nil, ErrInvalidLabel
+			}
+			if C[l] > 0 {
 				D[i] = make(map[int]int)
 				for j := 0; j < y-1; j++ {
 					D[i][j] = int(m[j])
 				}
-				L[i] = int(l)
+				L[i] = l
 				C[l]--
 				i++
 			}
-- 
2.43.0


From ac4d3abcb53d450ae5dd7679092763100bbca887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:15 +0000
Subject: [PATCH 35/83] fix: setting a log file has no effect

---
 sys/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sys/print.go b/sys/print.go
index b5acc08..e026bd8 100644
--- a/sys/print.go
+++ b/sys/print.go
@@ -17,6 +17,9 @@ func SetLogFile(filename string) (*os.File, error) {
 		return nil, nil
 	}
 	f, err := os.Create(filename)
+	if err == nil {
+		fout = f
+	}
 	return f, err
 }
 
-- 
2.43.0


From 38f742f7474eafa89ccc16ca90f8ab86b644867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:29 +0000
Subject: [PATCH 36/83] fix: reading no instances of an npy file panics

---
 io/npy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index 5ccd905..6aa096f 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -273,6 +273,9 @@ func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
 	if n > r.s[0] {
 		return nil, nil, io.ErrUnexpectedEOF
 	}
+	if n == 0 {
+		return nil, nil, nil
+	}
 	k := n * r.s[1]
 	u := make([]map[int]int, n)
 	l := make([]int, n)
-- 
2.43.0


From 51d9a1e3102a23e3ce60436e3fc29794fb2425a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:30 +0000
Subject: [PATCH 37/83] fix: npy data stored by columns is read as if it were
 stored by rows

---
 io/npy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index 6aa096f..9428a34 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -20,6 +20,7 @@ var (
 	}
 
 	ErrNonIntegerType  = errors.New("gospn: npy data type is non integer.")
+	ErrFortranOrder    = errors.New("gospn: npy data is stored by columns.")
 	ErrInvalidLabel    = errors.New("gospn: npy data has a label out of range.")
 	ErrNonDatasetShape = errors.New("gospn: npy data does not have dimension two.")
 )
@@ -78,6 +79,10 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 		f.Close()
 		return nil, ErrNonDatasetShape
 	}
+	if r.Header.Descr.Fortran {
+		f.Close()
+		return nil, ErrFortranOrder
+	}
 	t := isValid(r.Header.Descr.Type)
 	if t < 0 {
 		f.Close()
-- 
2.43.0


From 0c10358a3ca4f5d5944207da75535fbb8630e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:25 +0000
Subject: [PATCH 38/83] fix: reading a balanced dataset from an array with no
 instances panics

---
 io/npy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index 9428a34..d0ff722 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -109,6 +109,9 @@ func new_counts(n int, k int) []int {
 // number of entries for each label in the resulting dataset. Argument c is the number of classes
 // in the dataset.
 func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
+	if n > r.s[0] {
+		return nil, nil, io.ErrUnexpectedEOF
+	}
 	D := make([]map[int]int, n)
 	L := make([]int, n)
 	y := r.s[1]
-- 
2.43.0


From 551a4678cb68b83f35200ae600daa0d75951af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:22 +0000
Subject: [PATCH 39/83] fix: the seed of a random partitioning is ignored after
 the first call

---
 io/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/input.go b/io/input.go
index 025fed8..658d1f1 100644
--- a/io/input.go
+++ b/io/input.go
@@ -320,7 +320,7 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 	if rseed < 0 {
 		rint = rand.Intn
 	} else {
-		if glrseed < 0 {
+		if glrand == nil || glrseed != rseed {
 			glrand, glrseed = rand.New(rand.NewSource(rseed)), rseed
 		}
 		rint = glrand.Intn
-- 
2.43.0


From 43f3855fdc0325ac75a869d0d4924a2ffc6ecc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:22 +0000
Subject: [PATCH 40/83] fix: datasets of different lengths or variables are
 taken for identical

---
 data/manipulate.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 3159176..8dcd88e 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -294,17 +294,25 @@ func Identical(D []map[int]int, E []map[int]int, L []int, M []int) bool {
 	if c && (len(L) != len(D) || len(M) != len(E)) {
 		panic("Length of dataset does not match length of labels.")
 	}
+	if len(D) != len(E) {
+		return false
+	}
 	for i, I := range D {
 		J := E[i]
+		if len(I) != len(J) {
+			return false
+		}
 		for k, v := range I {
-			if v != J[k] {
+			if u, ok := J[k]; !ok || v != u {
 				return false
 			}
 		}
 	}
-	for i, l := range L {
-		if M[i] != l {
-			return false
+	if c {
+		for i, l := range L {
+			if M[i] != l {
+				return false
+			}
 		}
 	}
 	return true
-- 
2.43.0


From 0fa598981e26f111cc3d4feb125fac635fa4b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:00 +0000
Subject: [PATCH 41/83] fix: height of a network with edges that skip levels is
 too small

---
 spn/utils.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e0d5e1a..b396f7b 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -307,28 +307,22 @@ func NormalizeSPN(S SPN) SPN {
 
 // ComputeHeight computes the height of a certain SPN S.
 func ComputeHeight(S SPN) int {
-	T := common.Stack{}
-	V := make(map[SPN]int)
-
-	T.Push(S)
-	V[S] = 0
+	T := common.Queue{}
+	H := make(map[SPN]int)
+	TopSortTarjan(S, &T)
 
-	var h int
 	for !T.Empty() {
-		s := T.Pop().(SPN)
-		if s.Type() == "leaf" && V[s] > h {
-			h = V[s]
-		}
-		ch := s.Ch()
-		for _, c := range ch {
-			if _, e := V[c]; !e {
-				T.Push(c)
-				V[c] = V[s] + 1
+		s := T.Dequeue().(SPN)
+		var h int
+		for _, c := range s.Ch() {
+			if u := H[c] + 1; u > h {
+				h = u
 			}
 		}
+		H[s] = h
 	}
 
-	return h
+	return H[S]
 }
 
 // ComputeScope computes the scope of a certain SPN S.
-- 
2.43.0


From 0048073655c8152af578585a94cc6340cb647c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:15 +0000
Subject: [PATCH 42/83] fix: derivatives are incomplete when an edge skips
 levels

---
 learn/derive.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/learn/derive.go b/learn/derive.go
index 61344cf..a714ac8 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -18,28 +18,27 @@ import (
 // of such sum are the products of each parent node multiplied by all its siblings.
 // It is relevant to note that since GoSPN treats values in logspace, all the derivatives are too
 // in logspace. Argument tk is the ticket to be used for storing the derivatives. Argument itk is
-// the ticket for the stored values of S(X) (i.e. soft inference). A Collection is required for the
-// graph search, though if Collection c is nil, then we use a Queue. If a Queue is used, then the
-// graph search is a breadth-first, if a Stack is used, then it performs a depth-first search.
+// the ticket for the stored values of S(X) (i.e. soft inference). Nodes are visited in topological
+// order, whatever Collection c is.
 // If tk < 0, then a new ticket will be created and returned alongside the SPN S.
 // Returns the SPN S and the ticket used.
 func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection) (spn.SPN, int) {
 	if tk < 0 {
 		tk = storage.NewTicket()
 	}
-	if c == nil {
-		c = &common.Queue{}
-	}
 
 	table, _ := storage.Table(tk)
 	inf, _ := storage.Table(itk)
-	visited := make(map[spn.SPN]bool)
 	table.StoreSingle(S, 0.0)
-	c.Give(S)
-	visited[S] = true
+	// A node's derivative is complete once all of its parents have been visited.
+	T := common.Stack{}
+	spn.TopSortTarjan(S, &T)
 
-	for !c.Empty() {
-		s := c.Take().(spn.SPN)
+	for !T.Empty() {
+		s := T.Pop().(spn.SPN)
+		if s.Type() == "leaf" {
+			continue
+		}
 		ch := s.Ch()
 		pv, _ := table.Single(s)
 		//sys.Printf("pv=%f, parent: %s\n", pv, s.Type())
@@ -73,17 +72,8 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 				}
 			}
 		}
-
-		for _, cs := range ch {
-			if cs.Type() != "leaf" && !visited[cs] {
-				c.Give(cs)
-				visited[cs] = true
-			}
-		}
 	}
 
-	visited = nil
-	c = nil
 	sys.Free()
 	return S, tk
 }
-- 
2.43.0


From bf765ced8f0db45ed116c042d4980576ef2c599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:15 +0000
Subject: [PATCH 43/83] fix: discriminative learning changes its dataset while
 it runs, and instances without labels for good

---
 learn/discriminative.go | 42 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 7daa85a..3029c2a 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -30,18 +30,16 @@ func Discriminative(S spn.SPN, D spn.Dataset, Y []*Variable) spn.SPN {
 	return DiscriminativeGD(S, P.Eta, P.Epsilon, D, Y, P.Normalize)
 }
 
-func pullValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
-		u := v.Varid
-		y[i] = I[u]
-		delete(I, u)
+// withoutValues returns a copy of I without the values of Y.
+func withoutValues(I spn.VarSet, Y []*Variable) spn.VarSet {
+	X := make(spn.VarSet)
+	for k, v := range I {
+		X[k] = v
 	}
-}
-
-func pushValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
-		I[v.Varid] = y[i]
+	for _, v := range Y {
+		delete(X, v.Varid)
 	}
+	return X
 }
 
 // DiscriminativeGD performs discriminative gradient descent on SPN S given data D. Argument eta is
@@ -53,17 +51,15 @@ func DiscriminativeGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable,
 	s, d, w := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			spn.StoreInference(S, I, s, st)
 			DeriveSPN(S, st, d, s, Q)
 			DeriveWeights(S, st, w, d, s, Q)
-			pullValues(I, Y, y)
-			spn.StoreInference(S, I, z, st)
+			X := withoutValues(I, Y)
+			spn.StoreInference(S, X, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
 			applyDGD(S, s, d, w, z, p, u, st, eta, norm, Q, 1)
 			st.ResetTickets(s, d, w, z, p, u)
 		}
@@ -78,13 +74,11 @@ func DiscriminativeHardGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Varia
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			DeriveHard(S, st, d, I)
-			pullValues(I, Y, y)
-			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			X := withoutValues(I, Y)
+			DeriveHard(S, st, p, X)
 			applyHDGD(S, d, p, st, eta, P.Lambda, norm, 1)
 			st.ResetTickets(d, p)
 		}
@@ -103,18 +97,16 @@ func DiscriminativeBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	l := st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	var j int
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			spn.StoreInference(S, I, s, st)
 			DeriveSPN(S, st, d, s, Q)
 			DeriveWeights(S, st, w, d, s, Q)
-			pullValues(I, Y, y)
-			spn.StoreInference(S, I, z, st)
+			X := withoutValues(I, Y)
+			spn.StoreInference(S, X, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
 			storeDGD(S, s, d, w, z, p, u, l, st, eta, norm, Q)
 			st.ResetTickets(s, d, w, z, p, u)
 			j++
@@ -139,7 +131,6 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	var j int
 
 	u := st.NewTicket()
@@ -156,9 +147,8 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 			sys.Printf("Log-likelihood = %.3f\n", llh)
 
 			DeriveHard(S, st, d, I)
-			pullValues(I, Y, y)
-			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			X := withoutValues(I, Y)
+			DeriveHard(S, st, p, X)
 			j++
 			if j%b == 0 {
 				sys.Println("Applying gradient.")
-- 
2.43.0


From f2aba8ef787fdde8248610477c8484cfe104ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 44/83] fix: soft discriminative learning learns only the
 root's weights, from the wrong gradient

---
 learn/discriminative.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 3029c2a..fd882b5 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -178,6 +178,13 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 	dut, _ := st.Table(u)
 	ist, _ := st.Table(s)
 	izt, _ := st.Table(z)
+	iS, _ := ist.Single(S)
+	iZ, _ := izt.Single(S)
+	if math.IsInf(iS, -1) || math.IsInf(iZ, -1) {
+		// The gradient is not defined at impossible instances.
+		Q.Reset()
+		return
+	}
 	P := S.Parameters()
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
@@ -187,10 +194,8 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			W := sum.Weights()
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := range W {
-				delta := eta * (math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i]))
+				delta := eta * (math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ))
 				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
 			}
 			if norm {
@@ -198,7 +203,7 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
@@ -217,6 +222,12 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 	ist, _ := st.Table(s)
 	izt, _ := st.Table(z)
 	lt, _ := st.Table(l)
+	iS, _ := ist.Single(S)
+	iZ, _ := izt.Single(S)
+	if math.IsInf(iS, -1) || math.IsInf(iZ, -1) {
+		Q.Reset()
+		return
+	}
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
 		ch := n.Ch()
@@ -225,16 +236,14 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			nw := len(sum.Weights())
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := 0; i < nw; i++ {
-				delta := math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i])
+				delta := math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ)
 				v, _ := lt.Entry(n, i)
 				lt.Store(n, i, v+delta)
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
-- 
2.43.0


From 37657e6272b5a7cbca3b92fe5169e0bd1c5b2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:32 +0000
Subject: [PATCH 45/83] fix: hard weight learning divides by zero weights

---
 learn/discriminative.go | 3 +--
 learn/generative.go     | 6 ++++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index fd882b5..fe95f4a 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -294,8 +294,7 @@ func applyHDGD(S spn.SPN, d, p int, st *spn.Storer, eta, l float64, norm bool, b
 		W := sum.Weights()
 		//change := false
 		for i, delta := range cnts {
-			if delta != 0 {
-				w := W[i]
+			if w := W[i]; delta != 0 && w != 0 {
 				W[i] += eta*(delta/(w*float64(b))) - 2*l*w
 				//fmt.Printf("(%f, %f) ", w, W[i])
 				//change = true
diff --git a/learn/generative.go b/learn/generative.go
index bc3ebb6..1e3726b 100644
--- a/learn/generative.go
+++ b/learn/generative.go
@@ -316,6 +316,9 @@ func applyFastHGD(S spn.SPN, eta float64, tk int, st *spn.Storer, norm bool, b i
 			W := s.(*spn.Sum).Weights()
 			for i, d := range dW {
 				w := W[i]
+				if w == 0 {
+					continue
+				}
 				delta := eta * (d / (w * float64(b)))
 				W[i] = w + delta - 2*P.Lambda*w
 			}
@@ -342,6 +345,9 @@ func applyHGD(S spn.SPN, eta float64, tk int, st *spn.Storer, norm bool, b int)
 				W := s.(*spn.Sum).Weights()
 				for i, d := range v {
 					w := W[i]
+					if w == 0 {
+						continue
+					}
 					delta := eta * (d / (w * float64(b)))
 					W[i] = w + delta - 2*P.Lambda*w
 				}
-- 
2.43.0


From d7624f6bd9e9903aeaf2597f3c0e5b23c22cbc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 46/83] fix: learning a structure with resolution one panics

---
 learn/poon/poon.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 9d35158..9973cf5 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -58,9 +58,7 @@ type decomp struct {
 
 func newRegion(id int, inner []spn.SPN, step int) *region {
 	var d []*decomp
-	if step == 1 {
-		d = nil
-	} else {
+	if id != gmixtureId {
 		d = make([]*decomp, len(inner))
 	}
 	return &region{id, inner, step, -1, 100, 100, d}
-- 
2.43.0


From 999571e35830053bcb5ba6658e4f2dd9a9d32706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:16 +0000
Subject: [PATCH 47/83] fix: learned structures have sum nodes without children

Sum nodes of one region shared the record of the decompositions in use, so
that an unused sum node could be selected without getting a child.
---
 learn/poon/poon.go | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 9973cf5..7dcd741 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -345,7 +345,7 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 			U = append(U, i)
 		}
 	}
-	var cUnusedIndex int
+	cUnusedIndex := -1
 	if len(U) > 0 {
 		cUnusedIndex = U[sys.RandIntn(len(U))]
 	}
@@ -398,12 +398,12 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 	//sys.Printf("Selected: %v\n", cDecomp)
 
 	var mapSumOpts []int
-	var bestDecomp []*decomp
 
 	for i, s := range R.inner {
 		if len(s.Ch()) == 0 {
 			continue
 		}
+		var bestDecomp []*decomp
 		spn.StoreInference(s, I, infTk, storer)
 		ch := s.Ch()
 		sv, _ := tab.Single(s)
@@ -421,7 +421,7 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 				bestDecomp = append(bestDecomp, existingProds[c])
 			}
 		}
-		if !existsDecomp(cDecomp, existingDecomps) {
+		if !existsDecomp(s, cDecomp, existingDecomps) {
 			v := R.maxProd
 			if sv != utils.LogZero {
 				v = utils.LogSumExpPair(R.maxProd, sv+slc)
@@ -454,22 +454,22 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 	}
 	R.mapIndex = mapSumOpts[sys.RandIntn(len(mapSumOpts))]
 	bD := R.bestDecomp[R.mapIndex]
-	if !existsDecomp(bD, existingDecomps) {
+	sum := R.inner[R.mapIndex].(*spn.Sum)
+	if !existsDecomp(sum, bD, existingDecomps) {
 		pi := spn.NewProduct()
 		S, T := L[bD.p], L[bD.q]
 		s, t := S.inner[bD.r], T.inner[bD.s]
 		pi.AddChild(s)
 		pi.AddChild(t)
 		//sys.Printf("(%d, %d, %d, %d)\n", x1, y1, x2, y2)
-		sum := R.inner[R.mapIndex].(*spn.Sum)
 		sum.AddChildW(pi, 1.0)
-		storeDecomp(bD, existingDecomps)
-		storeProd(pi, bD, decompToProd)
+		storeDecomp(sum, bD, existingDecomps)
+		storeProd(sum, pi, bD, decompToProd)
 		existingProds[pi] = bD
 		c, _ := counts.Single(pi)
 		counts.StoreSingle(pi, c+1.0)
 	} else {
-		pi := extractProd(bD, decompToProd)
+		pi := extractProd(sum, bD, decompToProd)
 		c, _ := counts.Single(pi)
 		counts.StoreSingle(pi, c+1.0)
 	}
@@ -479,26 +479,26 @@ func equalsDecomp(d, e *decomp) bool {
 	return d.p == e.p && d.q == e.q && d.r == e.r && d.s == e.s
 }
 
-func existsDecomp(D *decomp, E map[string]bool) bool {
-	s := fmt.Sprintf("%d,%d,%d,%d", D.p, D.q, D.r, D.s)
-	v, e := E[s]
-	return v && e
+// decompKey identifies decomposition D of sum node n. Sum nodes of the same region may share a
+// decomposition, yet each has its own product node for it.
+func decompKey(n spn.SPN, D *decomp) string {
+	return fmt.Sprintf("%p,%d,%d,%d,%d", n, D.p, D.q, D.r, D.s)
 }
 
-func storeDecomp(D *decomp, E map[string]bool) {
-	s := fmt.Sprintf("%d,%d,%d,%d", D.p, D.q, D.r, D.s)
-	E[s] = true
+func existsDecomp(n spn.SPN, D *decomp, E map[string]bool) bool {
+	return E[decompKey(n, D)]
 }
 
-func storeProd(p spn.SPN, d *decomp, E map[string]spn.SPN) {
-	s := fmt.Sprintf("%d,%d,%d,%d", d.p, d.q, d.r, d.s)
-	E[s] = p
+func storeDecomp(n spn.SPN, D *decomp, E map[string]bool) {
+	E[decompKey(n, D)] = true
 }
 
-func extractProd(d *decomp, E map[string]spn.SPN) *spn.Product {
-	s := fmt.Sprintf("%d,%d,%d,%d", d.p, d.q, d.r, d.s)
-	v := E[s]
-	return v.(*spn.Product)
+func storeProd(n, p spn.SPN, d *decomp, E map[string]spn.SPN) {
+	E[decompKey(n, d)] = p
+}
+
+func extractProd(n spn.SPN, d *decomp, E map[string]spn.SPN) *spn.Product {
+	return E[decompKey(n, d)].(*spn.Product)
 }
 
 func compUnitRegions(I spn.VarSet, L map[uint64]*region, st *spn.Storer) {
-- 
2.43.0


From bf72b7dbf7ae7e1af24e781047e4e219d92f4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:54 +0000
Subject: [PATCH 48/83] fix: learned root has no children when the resolution
 is the image's size

---
 learn/poon/poon.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 7dcd741..bb4dded 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -162,7 +162,12 @@ func createRegions(D spn.Dataset, m, g, r int) map[uint64]*region {
 							if x == 1 && y == 1 {
 								R = createUnitRegion(x1, y1, g, D)
 							} else {
-								R = createRegion(m, r)
+								if x == w && y == h {
+									// The whole image: this is the root.
+									_, R = createSum(x1, y1, x2, y2, r)
+								} else {
+									R = createRegion(m, r)
+								}
 								if x2-x1 <= r || y2-y1 <= r {
 									R.step = 1
 								}
-- 
2.43.0


From 09a5fff4059b8100d742ce96b8e300e9276da061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 49/83] fix: conversion may return as if complete while a
 failed job is panicking

---
 io/pgm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/pgm.go b/io/pgm.go
index 946319e..e2cee00 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -324,7 +324,6 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 		cond.L.Unlock()
 		wg.Add(1)
 		go func(id int) {
-			defer wg.Done()
 			mutex.Lock()
 			//fmt.Printf("File: %s, id: %d\n", files[id], id)
 			lf, err := os.Open(files[id])
@@ -369,6 +368,8 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			nrun--
 			cond.L.Unlock()
 			cond.Signal()
+			// Not deferred: a job that panics has not done its work.
+			wg.Done()
 		}(i)
 	}
 
-- 
2.43.0


From 5728e138ff429f4a56232284aa5035c3571b52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 50/83] fix: clustering a dataset by k-means loses instances

---
 utils/cluster/kmeans.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index b83441a..a680e01 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -123,8 +123,8 @@ func KMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansData(k int, data []map[int]int) []map[int][]int {
-	D, Sc := learn.DataToMatrix(data)
-	return KMeansMuesli(k, D, Sc)
+	D, _ := learn.DataToMatrix(data)
+	return KMeansMuesli(k, D, nil)
 }
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
@@ -220,8 +220,8 @@ func KMeansF(k int, D [][]float64, sc map[int]int) []map[int][]float64 {
 }
 
 func KMeansFData(k int, D []map[int]int) []map[int][]float64 {
-	E, Sc := learn.DataToMatrixF(D)
-	return KMeansMuesliF(k, E, Sc)
+	E, _ := learn.DataToMatrixF(D)
+	return KMeansMuesliF(k, E, nil)
 }
 
 func OldKMeansF(k int, D [][]float64, F metrics.MetricF) []map[int][]float64 {
-- 
2.43.0


From 3c532136164881a2d9e572aecc0ef5ef6bdb4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 51/83] fix: clustering by medoids panics when there are fewer
 distinct instances than clusters

---
 utils/cluster/kmedoid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cluster/kmedoid.go b/utils/cluster/kmedoid.go
index debe94b..afda2fc 100644
--- a/utils/cluster/kmedoid.go
+++ b/utils/cluster/kmedoid.go
@@ -91,7 +91,7 @@ func KMedoid(k int, data [][]int) []map[int][]int {
 			which = v
 			min = metrics.Hamming(clusters[which][means[which]], data[i])
 		}
-		for j := 0; j < k; j++ {
+		for j := 0; j < len(clusters); j++ {
 			if j != which {
 				t := metrics.Hamming(clusters[j][means[j]], data[i])
 				if t < min {
-- 
2.43.0


From b413eb404a6fd35622bb0dcb6f909542566a6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:02 +0000
Subject: [PATCH 52/83] fix: clustering by OPTICS panics

---
 utils/cluster/optics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cluster/optics.go b/utils/cluster/optics.go
index 7d95bc2..0f2637c 100644
--- a/utils/cluster/optics.go
+++ b/utils/cluster/optics.go
@@ -83,7 +83,7 @@ func getCoreDist(nb []*object, o *object, eps float64, mp int) float64 {
 	if n < mp {
 		return undef
 	}
-	dists, p1 := make([]*objDist, n), o.data
+	dists, p1 := make([]*objDist, 0, n), o.data
 	for i := 0; i < n; i++ {
 		dists = append(dists, &objDist{dist: distance(p1, nb[i].data), index: i})
 	}
-- 
2.43.0


From bc08b0a4dcde01e79f511f5227ca7a202fa15101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 53/83] fix: clustering into more clusters than instances never
 ends

---
 utils/cluster/kmeans.go | 3 +++
 utils/cluster/kmode.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index a680e01..5d7a0ce 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -129,6 +129,9 @@ func KMeansData(k int, data []map[int]int) []map[int][]int {
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
 	n := len(data)
+	if n < k {
+		panic("Length of dataset is smaller than number of clusters!")
+	}
 	F := metrics.Hamming
 
 	// Initializes using the Forgy method.
diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 49342f1..648a655 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -35,6 +35,9 @@ func kModeRemove(which int, means map[int][]int, clusters []map[int][]int, v []i
 
 func KMode(k int, data [][]int) []map[int][]int {
 	n := len(data)
+	if n < k {
+		panic("Length of dataset is smaller than number of clusters!")
+	}
 
 	// Initializes using the Forgy method.
 	//fmt.Println("Initializing K-means clustering via the Forgy method...")
-- 
2.43.0


From 5c90620eeb78769b71eb5defb8ad762c890d3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:34 +0000
Subject: [PATCH 54/83] fix: OPTICS never reaches the neighbours of a dense
 instance

---
 utils/cluster/optics.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/cluster/optics.go b/utils/cluster/optics.go
index 0f2637c..1bb6232 100644
--- a/utils/cluster/optics.go
+++ b/utils/cluster/optics.go
@@ -141,12 +141,12 @@ func seedsUpdate(nb []*object, o *object, pq *pQueue) {
 	for i := 0; i < n; i++ {
 		if !nb[i].vst {
 			rdist := max(cdist, distance(p1, nb[i].data))
-			if o.rdist == undef {
-				o.rdist = rdist
-				pq.Push(&item{obj: o, p: rdist})
-			} else if rdist < o.rdist {
-				o.rdist = rdist
-				pq.update(o, rdist)
+			if nb[i].rdist == undef {
+				nb[i].rdist = rdist
+				heap.Push(pq, &item{obj: nb[i], p: rdist})
+			} else if rdist < nb[i].rdist {
+				nb[i].rdist = rdist
+				pq.update(nb[i], rdist)
 			}
 		}
 	}
@@ -161,7 +161,7 @@ func expand(set []*object, o *object, eps float64, mp int, order *qObj, pq *pQue
 	if o.cdist != undef {
 		seedsUpdate(nb, o, pq)
 		for len(*pq) != 0 {
-			co := pq.Pop().(*item).obj
+			co := heap.Pop(pq).(*item).obj
 			nb := getNeighbors(set, co, eps)
 			co.vst = true
 			co.cdist = getCoreDist(nb, co, eps, mp)
-- 
2.43.0


From d20dfbe7b727f239b08568aab59bbfe30a137be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:45 +0000
Subject: [PATCH 55/83] fix: clustering by density counts only the neighbours
 that are not clustered yet

---
 utils/cluster/dbscan.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 63dfd04..c93e733 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -37,6 +37,7 @@ func dbscanInternal(data [][]float64, eps float64, mp int) []*utils.UFNode {
 
 		// Neighbourhood of p.
 		nbh := common.Queue{}
+		nbs := 0
 
 		for i := 0; i < n; i++ {
 			// Clause 1 (i != p):
@@ -45,13 +46,16 @@ func dbscanInternal(data [][]float64, eps float64, mp int) []*utils.UFNode {
 			//  Distance must be <= the epsilon parameter of max distance.
 			// Clause 3 (utils.Find(rgs[i]) != utils.Find(rgs[p])):
 			//  Pair is not already in the same cluster.
-			if (i != p) && (dmatrix[p][i] <= eps) && (utils.Find(rgs[i]) != utils.Find(rgs[p])) {
-				nbh.Enqueue(i)
+			if (i != p) && (dmatrix[p][i] <= eps) {
+				nbs++
+				if utils.Find(rgs[i]) != utils.Find(rgs[p]) {
+					nbh.Enqueue(i)
+				}
 			}
 		}
 
 		// Found dense neighbourhood.
-		if nbh.Size() >= mp {
+		if nbs >= mp {
 			for !nbh.Empty() {
 				q := nbh.Dequeue().(int)
 				utils.Union(rgs[p], rgs[q])
-- 
2.43.0


From 03fa8c75b4c26b9950cc07570070017451bde337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:07 +0000
Subject: [PATCH 56/83] fix: k-means and k-modes take a wrong mode when an
 instance leaves a cluster

---
 utils/cluster/kmeans.go | 2 +-
 utils/cluster/kmode.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index 5d7a0ce..26cdfb9 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -27,7 +27,7 @@ func kMeansRemove(which int, means map[int][]int, clusters []map[int][]int, v []
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 648a655..7680ad2 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -24,7 +24,7 @@ func kModeRemove(which int, means map[int][]int, clusters []map[int][]int, v []i
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
-- 
2.43.0


From 0e4fbb6b7216597a76d45a5e7f9b4709c5e1161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 57/83] fix: colour pictures are marked as binary though
 written as text

---
 io/ppm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/ppm.go b/io/ppm.go
index 76e5555..27ccc54 100644
--- a/io/ppm.go
+++ b/io/ppm.go
@@ -17,7 +17,7 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 	}
 	defer file.Close()
 
-	fmt.Fprintf(file, "P6\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
-- 
2.43.0


From 03aeb8b25b0b5fef1f04fbff77bc236fbe3e4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:29 +0000
Subject: [PATCH 58/83] fix: drawings of a single leaf show another variable or
 call a function wrongly

---
 io/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/output.go b/io/output.go
index 7ddadd5..c759abb 100644
--- a/io/output.go
+++ b/io/output.go
@@ -57,7 +57,7 @@ func DrawGraphTools(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "add_node(\"X\")\n\n")
+		fmt.Fprintf(file, "add_node(\"X_%d\", \"#0066ff\")\n\n", s.Sc()[0])
 		fmt.Fprintf(file, "g.vertex_properties[\"name\"]=vnames\n")
 		fmt.Fprintf(file, "g.vertex_properties[\"color\"]=vcolors\n")
 		fmt.Fprintf(file, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
@@ -167,7 +167,7 @@ func DrawGraph(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "X1 [label=<X<sub>1</sub>>,shape=circle];\n")
+		fmt.Fprintf(file, "X1 [label=<X<sub>%d</sub>>,shape=circle];\n", s.Sc()[0])
 		fmt.Fprintf(file, "}")
 		file.Close()
 		return
-- 
2.43.0


From b0e3d6f9cd3498d460445591c315b8d1d7904882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 59/83] fix: printing a network with indicators panics

---
 spn/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spn/print.go b/spn/print.go
index f9e4c3b..2bb5e09 100644
--- a/spn/print.go
+++ b/spn/print.go
@@ -63,6 +63,9 @@ func PrintSPN(S SPN, filename string) {
 			if st == "*spn.Multinomial" {
 				cc := s.(*Multinomial)
 				mu, sigma = cc.MuSigma()
+			} else if st == "*spn.Indicator" {
+				cc := s.(*Indicator)
+				mu = float64(cc.v)
 			} else /* Gaussian */ {
 				cc := s.(*Gaussian)
 				mu, sigma = cc.dist.Mu, cc.dist.Sigma
-- 
2.43.0


From a117a78eaa350228b4f6bc42344153c4d3f89049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:49 +0000
Subject: [PATCH 60/83] fix: standard deviation of a multinomial ignores its
 probabilities

---
 spn/multinom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index fd1c269..9d1e882 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -196,11 +196,11 @@ func (m *Multinomial) Mean() float64 {
 func (m *Multinomial) StdDev() float64 {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return sd
 }
 
@@ -208,11 +208,11 @@ func (m *Multinomial) StdDev() float64 {
 func (m *Multinomial) MuSigma() (float64, float64) {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return mu, sd
 }
 
-- 
2.43.0


From 8d22d70caf8b50e9f7314adb3eb4da0b500adaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:31 +0000
Subject: [PATCH 61/83] fix: pictures and drawings are cut off silently when
 the disk fails

---
 common/color.go |  6 ++--
 io/input.go     | 11 +++++++
 io/output.go    | 76 +++++++++++++++++++++++++------------------------
 io/pbm.go       | 28 +++++++++---------
 io/pgm.go       | 24 +++++++++-------
 io/ppm.go       | 12 ++++----
 6 files changed, 88 insertions(+), 69 deletions(-)

diff --git a/common/color.go b/common/color.go
index 8a233c8..6901edd 100644
--- a/common/color.go
+++ b/common/color.go
@@ -3,7 +3,7 @@ package common
 import (
 	"fmt"
 	"github.com/RenatoGeh/gospn/sys"
-	"os"
+	"io"
 )
 
 // Color (RGB).
@@ -161,12 +161,12 @@ func hsv2rgb(in hsv) rgb {
 }
 
 // DrawColor simply calls fmt.Fprintf and writes the RGB components of c to file.
-func DrawColor(file *os.File, c *Color) {
+func DrawColor(file io.Writer, c *Color) {
 	fmt.Fprintf(file, "%d %d %d", c.r, c.g, c.b)
 }
 
 // DrawColorRGB simply calls fmt.Fprintf and writes the RGB components (r, g, b) to file.
-func DrawColorRGB(file *os.File, r, g, b int) {
+func DrawColorRGB(file io.Writer, r, g, b int) {
 	fmt.Fprintf(file, "%d %d %d", r, g, b)
 }
 
diff --git a/io/input.go b/io/input.go
index 658d1f1..2b9b941 100644
--- a/io/input.go
+++ b/io/input.go
@@ -52,6 +52,17 @@ func finish(out *bufio.Writer, f *os.File) {
 	}
 }
 
+// written writes out what is left in out and closes f, and says so if not everything could be written.
+func written(out *bufio.Writer, f *os.File) {
+	err := out.Flush()
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		fmt.Printf("Could not write file [%s].\n", f.Name())
+	}
+}
+
 // ParseData reads from a file named filename and returns the scope and data map of the parsed data
 // file.
 func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
diff --git a/io/output.go b/io/output.go
index c759abb..a70564e 100644
--- a/io/output.go
+++ b/io/output.go
@@ -1,6 +1,7 @@
 package io
 
 import (
+	"bufio"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -41,26 +42,27 @@ func DrawGraphTools(filename string, s spn.SPN) {
 		fmt.Printf("Error. Could not create file [%s].\n", filename)
 		panic(err)
 	}
-	defer file.Close()
+	out := bufio.NewWriter(file)
+	defer finish(out, file)
 
 	outname := utils.StringConcat(filename[0:len(filename)-len(filepath.Ext(filename))], ".png")
 
-	fmt.Fprintf(file, "from graph_tool.all import *\n\n")
-	fmt.Fprintf(file, "g = Graph(directed=True)\n")
-	fmt.Fprintf(file, "vcolors = g.new_vertex_property(\"string\")\n")
-	fmt.Fprintf(file, "vnames = g.new_vertex_property(\"string\")\n")
-	fmt.Fprintf(file, "enames = g.new_edge_property(\"string\")\n\n")
-	fmt.Fprintf(file, "def add_node(name, type):\n\tv=g.add_vertex()\n\tvnames[v]=name\n\t"+
+	fmt.Fprintf(out, "from graph_tool.all import *\n\n")
+	fmt.Fprintf(out, "g = Graph(directed=True)\n")
+	fmt.Fprintf(out, "vcolors = g.new_vertex_property(\"string\")\n")
+	fmt.Fprintf(out, "vnames = g.new_vertex_property(\"string\")\n")
+	fmt.Fprintf(out, "enames = g.new_edge_property(\"string\")\n\n")
+	fmt.Fprintf(out, "def add_node(name, type):\n\tv=g.add_vertex()\n\tvnames[v]=name\n\t"+
 		"vcolors[v]=type\n\treturn v\n\n")
-	fmt.Fprintf(file, "def add_edge(o, t, name):\n\te=g.add_edge(o, t)\n\tenames[e]=name\n\treturn e\n\n")
-	fmt.Fprintf(file, "def add_edge_nameless(o, t):\n\te=g.add_edge(o, t)\n\treturn e\n\n\n")
+	fmt.Fprintf(out, "def add_edge(o, t, name):\n\te=g.add_edge(o, t)\n\tenames[e]=name\n\treturn e\n\n")
+	fmt.Fprintf(out, "def add_edge_nameless(o, t):\n\te=g.add_edge(o, t)\n\treturn e\n\n\n")
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "add_node(\"X_%d\", \"#0066ff\")\n\n", s.Sc()[0])
-		fmt.Fprintf(file, "g.vertex_properties[\"name\"]=vnames\n")
-		fmt.Fprintf(file, "g.vertex_properties[\"color\"]=vcolors\n")
-		fmt.Fprintf(file, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
+		fmt.Fprintf(out, "add_node(\"X_%d\", \"#0066ff\")\n\n", s.Sc()[0])
+		fmt.Fprintf(out, "g.vertex_properties[\"name\"]=vnames\n")
+		fmt.Fprintf(out, "g.vertex_properties[\"color\"]=vcolors\n")
+		fmt.Fprintf(out, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
 			"edge_text=enames, vertex_fill_color=g.vertex_properties[\"color\"], output=\"%s\")\n",
 			outname)
 		return
@@ -83,20 +85,20 @@ func DrawGraphTools(filename string, s spn.SPN) {
 		// In case it is a sum node. Else product node.
 		if currt == "sum" {
 			name = fmt.Sprintf("S%d", nsums)
-			fmt.Fprintf(file, "%s = add_node(\"+\", \"#ff3300\")\n", name)
+			fmt.Fprintf(out, "%s = add_node(\"+\", \"#ff3300\")\n", name)
 			nsums++
 		} else if currt == "product" {
 			name = fmt.Sprintf("P%d", nprods)
-			fmt.Fprintf(file, "%s = add_node(\"*\", \"#669900\")\n", name)
+			fmt.Fprintf(out, "%s = add_node(\"*\", \"#669900\")\n", name)
 			nprods++
 		}
 
 		// If pname is empty, then it is the root node. Else, link parent node to current node.
 		if pname != "" {
 			if pw >= 0 {
-				fmt.Fprintf(file, "add_edge(%s, %s, \"%.3f\")\n", pname, name, pw)
+				fmt.Fprintf(out, "add_edge(%s, %s, \"%.3f\")\n", pname, name, pw)
 			} else {
-				fmt.Fprintf(file, "add_edge_nameless(%s, %s)\n", pname, name)
+				fmt.Fprintf(out, "add_edge_nameless(%s, %s)\n", pname, name)
 			}
 		}
 
@@ -115,16 +117,16 @@ func DrawGraphTools(filename string, s spn.SPN) {
 				var cname string
 				if !_e {
 					cname = fmt.Sprintf("X%d", nvars)
-					fmt.Fprintf(file, "%s = add_node(\"X_%d\", \"#0066ff\")\n", cname, c.Sc()[0])
+					fmt.Fprintf(out, "%s = add_node(\"X_%d\", \"#0066ff\")\n", cname, c.Sc()[0])
 					nvars++
 					vmap[_id] = cname
 				} else {
 					cname = _v
 				}
 				if currt == "sum" {
-					fmt.Fprintf(file, "add_edge(%s, %s, \"%.3f\")\n", name, cname, w[i])
+					fmt.Fprintf(out, "add_edge(%s, %s, \"%.3f\")\n", name, cname, w[i])
 				} else {
-					fmt.Fprintf(file, "add_edge_nameless(%s, %s)\n", name, cname)
+					fmt.Fprintf(out, "add_edge_nameless(%s, %s)\n", name, cname)
 				}
 			} else {
 				tw := -1.0
@@ -136,12 +138,12 @@ func DrawGraphTools(filename string, s spn.SPN) {
 		}
 	}
 
-	fmt.Fprintf(file, "g.vertex_properties[\"name\"]=vnames\n")
-	fmt.Fprintf(file, "g.vertex_properties[\"color\"]=vcolors\n")
-	fmt.Fprintf(file, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
+	fmt.Fprintf(out, "g.vertex_properties[\"name\"]=vnames\n")
+	fmt.Fprintf(out, "g.vertex_properties[\"color\"]=vcolors\n")
+	fmt.Fprintf(out, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
 		"edge_text=enames, vertex_fill_color=g.vertex_properties[\"color\"], "+
 		"output_size=[16384, 16384], output=\"%s\", bg_color=[1, 1, 1, 1])\n", outname)
-	//fmt.Fprintf(file, "\ngraph_draw(g, "+
+	//fmt.Fprintf(out, "\ngraph_draw(g, "+
 	//"edge_text=enames, vertex_fill_color=g.vertex_properties[\"color\"], "+
 	//"output_size=[16384, 16384], output=\"%s\", bg_color=[1, 1, 1, 1])\n", outname)
 }
@@ -161,15 +163,15 @@ func DrawGraph(filename string, s spn.SPN) {
 		fmt.Printf("Error. Could not create file [%s].\n", filename)
 		panic(err)
 	}
-	defer file.Close()
+	out := bufio.NewWriter(file)
+	defer finish(out, file)
 
-	fmt.Fprintf(file, "graph {\n")
+	fmt.Fprintf(out, "graph {\n")
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "X1 [label=<X<sub>%d</sub>>,shape=circle];\n", s.Sc()[0])
-		fmt.Fprintf(file, "}")
-		file.Close()
+		fmt.Fprintf(out, "X1 [label=<X<sub>%d</sub>>,shape=circle];\n", s.Sc()[0])
+		fmt.Fprintf(out, "}")
 		return
 	}
 
@@ -189,20 +191,20 @@ func DrawGraph(filename string, s spn.SPN) {
 		// In case it is a sum node. Else product node.
 		if currt == "sum" {
 			name = fmt.Sprintf("S%d", nsums)
-			fmt.Fprintf(file, "%s [label=\"+\",shape=circle];\n", name)
+			fmt.Fprintf(out, "%s [label=\"+\",shape=circle];\n", name)
 			nsums++
 		} else if currt == "product" {
 			name = fmt.Sprintf("P%d", nprods)
-			fmt.Fprintf(file, "%s [label=<&times;>,shape=circle];\n", name)
+			fmt.Fprintf(out, "%s [label=<&times;>,shape=circle];\n", name)
 			nprods++
 		}
 
 		// If pname is empty, then it is the root node. Else, link parent node to current node.
 		if pname != "" {
 			if pw >= 0 {
-				fmt.Fprintf(file, "%s -- %s [label=\"%.3f\"];\n", pname, name, pw)
+				fmt.Fprintf(out, "%s -- %s [label=\"%.3f\"];\n", pname, name, pw)
 			} else {
-				fmt.Fprintf(file, "%s -- %s\n", pname, name)
+				fmt.Fprintf(out, "%s -- %s\n", pname, name)
 			}
 		}
 
@@ -217,12 +219,12 @@ func DrawGraph(filename string, s spn.SPN) {
 			// If leaf, then simply write to the graphviz dot file. Else, recurse the BFS.
 			if c.Type() == "leaf" {
 				cname := fmt.Sprintf("X%d", nvars)
-				fmt.Fprintf(file, "%s [label=<X<sub>%d</sub>>,shape=circle];\n", cname, c.Sc()[0])
+				fmt.Fprintf(out, "%s [label=<X<sub>%d</sub>>,shape=circle];\n", cname, c.Sc()[0])
 				nvars++
 				if currt == "sum" {
-					fmt.Fprintf(file, "%s -- %s [label=\"%.3f\"]\n", name, cname, w[i])
+					fmt.Fprintf(out, "%s -- %s [label=\"%.3f\"]\n", name, cname, w[i])
 				} else {
-					fmt.Fprintf(file, "%s -- %s\n", name, cname)
+					fmt.Fprintf(out, "%s -- %s\n", name, cname)
 				}
 			} else {
 				tw := -1.0
@@ -234,5 +236,5 @@ func DrawGraph(filename string, s spn.SPN) {
 		}
 	}
 
-	fmt.Fprintf(file, "}")
+	fmt.Fprintf(out, "}")
 }
diff --git a/io/pbm.go b/io/pbm.go
index cb105ec..0cc4d48 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -407,9 +407,10 @@ func VarSetToPBM(filename string, state spn.VarSet, w, h int) {
 		fmt.Printf("Could not create file [%s].\n", filename)
 		return
 	}
-	defer file.Close()
+	out := bufio.NewWriter(file)
+	defer written(out, file)
 
-	fmt.Fprintf(file, "P1\n%d %d\n", w, h)
+	fmt.Fprintf(out, "P1\n%d %d\n", w, h)
 
 	n := len(state)
 	pixels := make([]int, n)
@@ -419,9 +420,9 @@ func VarSetToPBM(filename string, state spn.VarSet, w, h int) {
 
 	for i := 0; i < n; i++ {
 		if i%71 == 0 {
-			fmt.Fprintf(file, "\n")
+			fmt.Fprintf(out, "\n")
 		}
-		fmt.Fprintf(file, "%d", pixels[i])
+		fmt.Fprintf(out, "%d", pixels[i])
 	}
 }
 
@@ -433,7 +434,8 @@ func ImgCmplToPPM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h int
 		fmt.Printf("Could not create file [%s].\n", filename)
 		return
 	}
-	defer file.Close()
+	out := bufio.NewWriter(file)
+	defer written(out, file)
 
 	var mid func(int) bool
 	if typ == Top || typ == Bottom {
@@ -449,32 +451,32 @@ func ImgCmplToPPM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h int
 		}
 	}
 
-	fmt.Fprintf(file, "P3\n%d %d\n255\n", w, h)
+	fmt.Fprintf(out, "P3\n%d %d\n255\n", w, h)
 
 	n, j := w*h, 0
 	for i := 0; i < n; i++ {
 		if mid(i) {
-			common.DrawColor(file, common.Red)
+			common.DrawColor(out, common.Red)
 			goto cleanup
 		} else if v, eo := orig[j]; eo {
 			if v == 1 {
-				common.DrawColor(file, common.Blue)
+				common.DrawColor(out, common.Blue)
 			} else {
-				common.DrawColor(file, common.White)
+				common.DrawColor(out, common.White)
 			}
 		} else {
 			u, _ := cmpl[j]
 			if u == 1 {
-				common.DrawColor(file, common.Green)
+				common.DrawColor(out, common.Green)
 			} else {
-				common.DrawColor(file, common.White)
+				common.DrawColor(out, common.White)
 			}
 		}
 		j++
 	cleanup:
-		fmt.Fprintf(file, " ")
+		fmt.Fprintf(out, " ")
 		if i != 0 && i%w == 0 {
-			fmt.Fprintf(file, "\n")
+			fmt.Fprintf(out, "\n")
 		}
 	}
 }
diff --git a/io/pgm.go b/io/pgm.go
index e2cee00..7fe779d 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -550,9 +550,10 @@ func VarSetToPGM(filename string, state spn.VarSet, w, h, max int) {
 		fmt.Printf("Could not create file [%s].\n", filename)
 		return
 	}
-	defer file.Close()
+	out := bufio.NewWriter(file)
+	defer written(out, file)
 
-	fmt.Fprintf(file, "P2\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(out, "P2\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
@@ -564,10 +565,10 @@ func VarSetToPGM(filename string, state spn.VarSet, w, h, max int) {
 
 	for i := 0; i < n; i++ {
 		if (i+1)%w == 0 {
-			fmt.Fprintf(file, "\n")
+			fmt.Fprintf(out, "\n")
 		}
 		p := pixels[i]
-		fmt.Fprintf(file, "%d ", p)
+		fmt.Fprintf(out, "%d ", p)
 	}
 }
 
@@ -579,7 +580,8 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 		fmt.Printf("Could not create file [%s].\n", filename)
 		return
 	}
-	defer file.Close()
+	out := bufio.NewWriter(file)
+	defer written(out, file)
 
 	var mid func(int) bool
 	if typ == Top || typ == Bottom {
@@ -596,24 +598,24 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 	}
 
 	max--
-	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(out, "P3\n%d %d\n%d\n", w, h, max)
 
 	n, j := w*h, 0
 	for i := 0; i < n; i++ {
 		if mid(i) {
-			common.DrawColor(file, common.Red)
+			common.DrawColor(out, common.Red)
 			goto cleanup
 		} else if v, eo := orig[j]; eo {
-			common.DrawColorRGB(file, v, v, v)
+			common.DrawColorRGB(out, v, v, v)
 		} else {
 			u, _ := cmpl[j]
-			common.DrawColorRGB(file, 0, u, 0)
+			common.DrawColorRGB(out, 0, u, 0)
 		}
 		j++
 	cleanup:
-		fmt.Fprintf(file, " ")
+		fmt.Fprintf(out, " ")
 		if i != 0 && i%w == 0 {
-			fmt.Fprintf(file, "\n")
+			fmt.Fprintf(out, "\n")
 		}
 	}
 }
diff --git a/io/ppm.go b/io/ppm.go
index 27ccc54..f85d7b0 100644
--- a/io/ppm.go
+++ b/io/ppm.go
@@ -1,6 +1,7 @@
 package io
 
 import (
+	"bufio"
 	"fmt"
 	"os"
 
@@ -15,9 +16,10 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 		fmt.Printf("Could not create file [%s].\n", filename)
 		return
 	}
-	defer file.Close()
+	out := bufio.NewWriter(file)
+	defer written(out, file)
 
-	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(out, "P3\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
@@ -29,10 +31,10 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 
 	for i := 0; i < n; i++ {
 		if (i+1)%w == 0 {
-			fmt.Fprintf(file, "\n")
+			fmt.Fprintf(out, "\n")
 		}
 		p := pixels[i]
-		common.DrawColorRGB(file, p, p, p)
-		fmt.Fprintf(file, " ")
+		common.DrawColorRGB(out, p, p, p)
+		fmt.Fprintf(out, " ")
 	}
 }
-- 
2.43.0


From 1fb8417365b5b4ace5a0917dded5f4d1c58eef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 62/83] fix: printed networks are cut off silently when the
 disk fails

---
 spn/print.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/spn/print.go b/spn/print.go
index 2bb5e09..077162b 100644
--- a/spn/print.go
+++ b/spn/print.go
@@ -1,6 +1,7 @@
 package spn
 
 import (
+	"bufio"
 	"fmt"
 	"github.com/RenatoGeh/gospn/common"
 	"os"
@@ -20,7 +21,17 @@ func PrintSPN(S SPN, filename string) {
 		fmt.Printf("Error. Could not create file [%s].\n", filename)
 		panic(err)
 	}
-	defer f.Close()
+	out := bufio.NewWriter(f)
+	defer func() {
+		err := out.Flush()
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+		if err != nil {
+			fmt.Printf("Error. Could not write file [%s].\n", filename)
+			panic(err)
+		}
+	}()
 
 	L := make(map[SPN]string)
 	T := []int{0, 0, 0}
@@ -50,7 +61,7 @@ func PrintSPN(S SPN, filename string) {
 
 	for !Q.Empty() {
 		s := Q.Dequeue().(SPN)
-		fmt.Fprintf(f, "%s [\n", L[s])
+		fmt.Fprintf(out, "%s [\n", L[s])
 		ch := s.Ch()
 		var W []float64
 		t := L[s][0]
@@ -71,14 +82,14 @@ func PrintSPN(S SPN, filename string) {
 				mu, sigma = cc.dist.Mu, cc.dist.Sigma
 			}
 			//fmt.Printf("%.5f %.5f\n", mu, sigma)
-			fmt.Fprintf(f, "  %.5f %.5f\n", mu, sigma)
+			fmt.Fprintf(out, "  %.5f %.5f\n", mu, sigma)
 		} else {
 			for i, c := range ch {
 				if t == 'S' {
 					w := W[i]
-					fmt.Fprintf(f, "  %s %.5f\n", L[c], w)
+					fmt.Fprintf(out, "  %s %.5f\n", L[c], w)
 				} else {
-					fmt.Fprintf(f, "  %s\n", L[c])
+					fmt.Fprintf(out, "  %s\n", L[c])
 				}
 				if !V[c] {
 					Q.Enqueue(c)
@@ -86,6 +97,6 @@ func PrintSPN(S SPN, filename string) {
 				}
 			}
 		}
-		fmt.Fprintf(f, "]\n")
+		fmt.Fprintf(out, "]\n")
 	}
 }
-- 
2.43.0


From 8cd382459dcf0bec4941327271ef7f67e7ba7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:49 +0000
Subject: [PATCH 63/83] fix: draw the line of a completed image between its
 halves

With an odd height or width the line was drawn one row or column into the
bottom or right half: its place was computed from the size of the picture
that already counts the line, not from that of the image, which is what
says where the halves are.
---
 io/pbm.go | 6 ++++--
 io/pgm.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/io/pbm.go b/io/pbm.go
index 0cc4d48..b0957b5 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -439,15 +439,17 @@ func ImgCmplToPPM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h int
 
 	var mid func(int) bool
 	if typ == Top || typ == Bottom {
+		// The line goes between the halves: their sizes are those of the original image.
+		q := w * (h / 2)
 		h++
 		mid = func(p int) bool {
-			q := w * (h / 2)
 			return p >= q && p < q+w
 		}
 	} else {
+		q := w / 2
 		w++
 		mid = func(p int) bool {
-			return p%w == w/2
+			return p%w == q
 		}
 	}
 
diff --git a/io/pgm.go b/io/pgm.go
index 7fe779d..f35efde 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -585,15 +585,17 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 
 	var mid func(int) bool
 	if typ == Top || typ == Bottom {
+		// The line goes between the halves: their sizes are those of the original image.
+		q := w * (h / 2)
 		h++
 		mid = func(p int) bool {
-			q := w * (h / 2)
 			return p >= q && p < q+w
 		}
 	} else {
+		q := w / 2
 		w++
 		mid = func(p int) bool {
-			return p%w == w/2
+			return p%w == q
 		}
 	}
 
-- 
2.43.0


From bde1229d06228d297a7e5ce5935ed55a8b00b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:49 +0000
Subject: [PATCH 64/83] fix: separate the halves that were asked for in ImgTest

Every picture was drawn as the completion of a left half, so the line in
those of a top or bottom half ran down the middle, through both.
---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 963a4d1..3289119 100644
--- a/app/image.go
+++ b/app/image.go
@@ -255,7 +255,7 @@ func ImgTest(filename string, m, g, r int, eta, eps float64) {
 		//spn.NormalizeSPN(S)
 		for _, q := range io.Quadrants {
 			cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, io.Left, sys.Width, sys.Height, sys.Max)
+			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 		}
 	}
 }
-- 
2.43.0


From b431b5585dcfcb498b0c01804f3429593e43c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:40 +0000
Subject: [PATCH 65/83] fix: look for incomplete and undecomposable nodes below
 the root

Complete and Decomposable skipped every child because the root, not the
child, was looked up among the nodes already visited: a network was called
complete and decomposable whatever was below its root.
---
 spn/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index b396f7b..33f778f 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -396,7 +396,7 @@ func Complete(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
@@ -447,7 +447,7 @@ func Decomposable(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
-- 
2.43.0


From e5709f9adb5b4ca2e94a0e6b6e70943e49655e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 66/83] fix: asking whether a network is complete or
 decomposable writes to its nodes

Both computed the scopes of all nodes by storing them in the nodes, so that
two goroutines asking about one network raced with each other and with
every reader of a scope.
---
 spn/utils.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 33f778f..e9b8f9d 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -325,10 +325,11 @@ func ComputeHeight(S SPN) int {
 	return H[S]
 }
 
-// ComputeScope computes the scope of a certain SPN S.
-func ComputeScope(S SPN) []int {
+// scopes returns the scope of every node in S, with no duplicates. It only reads S.
+func scopes(S SPN) map[SPN][]int {
 	T := common.Queue{}
 	TopSortTarjan(S, &T)
+	M := make(map[SPN][]int)
 
 	for !T.Empty() {
 		s := T.Dequeue().(SPN)
@@ -336,8 +337,7 @@ func ComputeScope(S SPN) []int {
 		if len(ch) > 0 {
 			msc := make(map[int]bool)
 			for _, c := range ch {
-				csc := c.rawSc()
-				for _, v := range csc {
+				for _, v := range M[c] {
 					msc[v] = true
 				}
 			}
@@ -345,16 +345,26 @@ func ComputeScope(S SPN) []int {
 			for k, _ := range msc {
 				sc = append(sc, k)
 			}
-			s.setRawSc(sc)
+			M[s] = sc
+		} else {
+			M[s] = s.rawSc()
 		}
 	}
 
+	return M
+}
+
+// ComputeScope computes the scope of a certain SPN S and stores it in each of its nodes.
+func ComputeScope(S SPN) []int {
+	for s, sc := range scopes(S) {
+		s.setRawSc(sc)
+	}
 	return S.rawSc()
 }
 
 // Complete returns whether the SPN is complete.
 func Complete(S SPN) bool {
-	ComputeScope(S)
+	M := scopes(S)
 	Q := common.Queue{}
 	V := make(map[SPN]bool)
 
@@ -365,14 +375,14 @@ func Complete(S SPN) bool {
 		s := Q.Dequeue().(SPN)
 		ch := s.Ch()
 		if s.Type() == "sum" {
-			sc := s.rawSc()
+			sc := M[s]
 			v := make(map[int]int)
 			for _, u := range sc {
 				v[u]++
 			}
 			for _, c := range ch {
-				csc := c.rawSc()
-				// Invariant: ComputeScope guarantees that there will be no duplicates.
+				csc := M[c]
+				// Invariant: scopes guarantees that there will be no duplicates.
 				if len(csc) != len(sc) {
 					sys.Printf("len(csc)=%d != len(sc)=%d\n", len(csc), len(sc))
 					sys.Printf("%v\n%v\n", csc, sc)
@@ -408,7 +418,7 @@ func Complete(S SPN) bool {
 
 // Decomposable returns whether the SPN is decomposable.
 func Decomposable(S SPN) bool {
-	ComputeScope(S)
+	M := scopes(S)
 	Q := common.Queue{}
 	V := make(map[SPN]bool)
 
@@ -419,15 +429,15 @@ func Decomposable(S SPN) bool {
 		s := Q.Dequeue().(SPN)
 		ch := s.Ch()
 		if s.Type() == "product" {
-			sc := s.rawSc()
+			sc := M[s]
 			v := make(map[int]int)
 			for _, u := range sc {
 				v[u]++
 			}
 			n := len(sc)
 			for _, c := range ch {
-				csc := c.rawSc()
-				// Invariant: ComputeScope guarantees that there will be no duplicates.
+				csc := M[c]
+				// Invariant: scopes guarantees that there will be no duplicates.
 				for _, u := range csc {
 					_, e := v[u]
 					if !e {
-- 
2.43.0


From 3ac2c8f10340964e9df48aa8429232a84da80b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 67/83] fix: centre a gaussian made by NewGaussianMode on the
 mode

The mode was never set: every such gaussian was centred on zero.
---
 spn/gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index e8f6611..d65d607 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -90,7 +90,7 @@ func NewGaussianMode(varid int, counts []int) *Gaussian {
 	for i := 0; i < n; i++ {
 		c := float64(counts[i])
 		if c > max {
-			max = c
+			max, mode = c, float64(i)
 		}
 		d := float64(i) - mean
 		sd += (c / float64(N)) * d * d
-- 
2.43.0


From fd760cc0b52b50d0875803b6d9a1d6388359b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 68/83] fix: keep classes' proportions exact where the product
 is rounded down

---
 data/manipulate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 8dcd88e..8488c86 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -112,7 +112,8 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 	for i := 0; i < m; i++ {
 		q := make([]float64, c) // Tuple of size c, with each q_i the number of elements of class i.
 		for j := 0; j < c; j++ {
-			q[j] = math.Floor(float64(N[j]) * p[i])
+			// A product that should be an integer may come out just below it (e.g. 0.58*50).
+			q[j] = math.Floor(float64(N[j])*p[i] + 1e-9)
 		}
 		S[i] = cascadeRounding(q)
 		for _, v := range S[i] {
-- 
2.43.0


From 1c1fa111b5710956ea96fcb51803764d0adb5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:40 +0000
Subject: [PATCH 69/83] fix: pixels of a PGM image may be separated by any
 white space

Tokens were split at single spaces only, so that pixels separated by tabs
were dropped silently.
---
 io/pgm.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/io/pgm.go b/io/pgm.go
index f35efde..07c8be2 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -152,7 +152,7 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 		stream := instreams[i]
 		for stream.Scan() {
 			line := stream.Text()
-			tokens := strings.Split(line, " ")
+			tokens := strings.Fields(line)
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, err := strconv.Atoi(tokens[j])
@@ -295,7 +295,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 
 	for stream.Scan() {
 		line := stream.Text()
-		tokens := strings.Split(line, " ")
+		tokens := strings.Fields(line)
 		ntokens := len(tokens)
 		for i := 0; i < ntokens; i++ {
 			tkn, err := strconv.Atoi(tokens[i])
@@ -344,7 +344,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			var vals []int
 			for lstream.Scan() {
 				line := lstream.Text()
-				tokens := strings.Split(line, " ")
+				tokens := strings.Fields(line)
 				ntokens := len(tokens)
 				for j := 0; j < ntokens; j++ {
 					tkn, err := strconv.Atoi(tokens[j])
@@ -524,7 +524,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 		for stream.Scan() {
 			line := stream.Text()
-			tokens := strings.Split(line, " ")
+			tokens := strings.Fields(line)
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, err := strconv.Atoi(tokens[j])
-- 
2.43.0


From c719368c78a20ec1dd0e85c125d0900b8c4277da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:41 +0000
Subject: [PATCH 70/83] fix: ParseDataNL fails on a label that is not a number

It took such a label, or one that is missing after a trailing space, for 0.
---
 io/input.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/io/input.go b/io/input.go
index 2b9b941..be14f80 100644
--- a/io/input.go
+++ b/io/input.go
@@ -186,7 +186,11 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 				panic(err)
 			}
 		}
-		lbl, _ := strconv.Atoi(s[n])
+		lbl, err := strconv.Atoi(s[n])
+		if err != nil {
+			fmt.Printf("Invalid string \"%s\" found in data file [%s].\n", s[n], filename)
+			panic(err)
+		}
 		lbls = append(lbls, lbl)
 		line = scanner.Text()
 		k++
@@ -203,7 +207,11 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 			panic(err)
 		}
 	}
-	lbl, _ := strconv.Atoi(s[n])
+	lbl, err := strconv.Atoi(s[n])
+	if err != nil {
+		fmt.Printf("Invalid string \"%s\" found in data file [%s].\n", s[n], filename)
+		panic(err)
+	}
 	lbls = append(lbls, lbl)
 
 	m, n := len(data), len(data[0])
-- 
2.43.0


From a7bad6082fd4bb79183ea978cac6d47f5aed068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:42 +0000
Subject: [PATCH 71/83] fix: ParseArff takes no instance from a blank line

A blank line among or after the data gave an instance with no values.
---
 io/arff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io/arff.go b/io/arff.go
index a1aa964..4e13f3a 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -263,6 +263,10 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 			v := strings.FieldsFunc(line, func(c rune) bool {
 				return c == ' ' || c == ','
 			})
+			// Blank line.
+			if len(v) == 0 {
+				continue
+			}
 
 			vals = append(vals, make(map[int]int))
 			for j := range v {
-- 
2.43.0


From 0ed03e39c759098c2bb8562c025c089a72ea2744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:08 +0000
Subject: [PATCH 72/83] fix: ParseArff gives a value that its class does not
 list a number of its own

It was given the number of a listed value.
---
 io/arff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index 4e13f3a..4dcf999 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -295,8 +295,8 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 				} else /* class */ {
 					tk := v[j]
 					if _, e := labels[j][tk]; !e {
-						labels[j][tk] = counts[j]
-						counts[j]++
+						labels[j][tk] = sc[j].Categories
+						sc[j].Categories++
 					}
 					vals[i][j] = labels[j][tk]
 				}
-- 
2.43.0


From 2edd33d43af2a2472a221950510b1742e5b36ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:09 +0000
Subject: [PATCH 73/83] fix: ParseArff takes tabs for white space between
 values

A tab was taken for part of the value it stood next to.
---
 io/arff.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/arff.go b/io/arff.go
index 4dcf999..a74bbad 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // ARFFToData. Each class is in a subfolder of dirname. dname is the output file. Arg dirname must
@@ -261,7 +262,7 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 			}
 		} else {
 			v := strings.FieldsFunc(line, func(c rune) bool {
-				return c == ' ' || c == ','
+				return unicode.IsSpace(c) || c == ','
 			})
 			// Blank line.
 			if len(v) == 0 {
-- 
2.43.0


From 903978242843af7c3a27f0e9b9031c0b5782a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:10 +0000
Subject: [PATCH 74/83] fix: ARFFToData reads ARFF files as ParseArff does

Keywords in capitals were not recognised, so that no instance was written;
spaces next to a class or a value made it unknown, and the value was then
written as it was; blank lines and comments among the data became
instances.
---
 io/arff.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index a74bbad..b5d50e1 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -49,13 +49,16 @@ func ARFFToData(dirname, fname, dname string) {
 
 	// go through lines and use flags to decide how to parse
 	for _, line := range lines {
-		if dataflag != true {
+		line = strings.TrimSpace(line)
+		if line == "" || line[0] == '%' {
+			fmt.Println("Ignoring empty line or comment")
+		} else if dataflag != true {
 			// start splitting for words
-			header := strings.Split(line, " ")
+			header := strings.Fields(line)
 
 			if len(header) != 1 {
 
-				switch header[0] {
+				switch strings.ToLower(header[0]) {
 				case "@relation":
 					fmt.Println("Ignoring @relation line")
 				case "@attribute":
@@ -64,7 +67,11 @@ func ARFFToData(dirname, fname, dname string) {
 					temp2 := strings.Split(temp1[1], "}")
 					temp := temp2[0]
 					attributes++
-					classes = append(classes, strings.Split(temp, ","))
+					class := strings.Split(temp, ",")
+					for i := range class {
+						class[i] = strings.TrimSpace(class[i])
+					}
+					classes = append(classes, class)
 					classrange = append(classrange, len(classes[attributes-1]))
 
 					// do stuff
@@ -74,11 +81,9 @@ func ARFFToData(dirname, fname, dname string) {
 					//	dataflag = true
 				}
 			} else {
-				if header[0] == "@data" {
+				if strings.ToLower(header[0]) == "@data" {
 					fmt.Println("data")
 					dataflag = true
-				} else {
-					fmt.Println("Ignoring empty line")
 				}
 			}
 
@@ -86,13 +91,18 @@ func ARFFToData(dirname, fname, dname string) {
 			// start saving your instances
 			instance := strings.Split(line, ",")
 			for i, att := range instance {
+				found := false
 				// iterate through the attributes in the instance and map them
 				for j, class := range classes[i] {
-					if att == class {
+					if strings.TrimSpace(att) == class {
 						instance[i] = strconv.Itoa(j)
+						found = true
 						//fmt.Println("Conversion to string")
 					}
 				}
+				if !found {
+					panic(fmt.Errorf("value %q of attribute %d not declared in file [%s]", att, i, fname))
+				}
 			}
 			//fmt.Println("instance at point of reading: ")
 			//fmt.Println(instance)
-- 
2.43.0


From 1c4a418cd2e084783759aa0e466b277620985fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:09 +0000
Subject: [PATCH 75/83] fix: inference on a network of a single leaf gives the
 leaf's value

Inference, InferenceY, StoreInference and StoreMAP took a leaf for a network without children and
answered 0 or nothing, whatever the evidence.
---
 spn/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e9b8f9d..fd2c2f7 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -21,7 +21,7 @@ import (
 // InferenceY returns the value of S(I, Y=y). This convenience function allows for fast computation
 // of soft inference values without having to create another VarSet for each valuation of Y.
 func InferenceY(S SPN, I VarSet, Y, y int) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	J := map[int]int{Y: y}
@@ -64,7 +64,7 @@ func InferenceY(S SPN, I VarSet, Y, y int) float64 {
 
 // Inference simply returns the value of S(I), without storing values for later use.
 func Inference(S SPN, I VarSet) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	O := common.Queue{}
@@ -104,7 +104,7 @@ func Inference(S SPN, I VarSet) float64 {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreInference creates a new ticket).
 func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1
 	}
 
@@ -162,7 +162,7 @@ func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreMAP creates a new ticket).
 func StoreMAP(S SPN, I VarSet, tk int, storage *Storer) (SPN, int, VarSet) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1, nil
 	}
 
-- 
2.43.0


From ab0f88b949a2629da77bdb2bcf99be0dfed926c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:09 +0000
Subject: [PATCH 76/83] fix: NormalizeSPN makes negative weights non-negative

It added the negative minimum to every weight instead of subtracting it, so that the weights stayed
negative; learn.Normalize subtracts it.
---
 spn/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/utils.go b/spn/utils.go
index fd2c2f7..267d947 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -265,7 +265,7 @@ func norm(v []float64) {
 	}
 	if min < 0 {
 		for i := range v {
-			v[i] += min
+			v[i] -= min
 		}
 	}
 
-- 
2.43.0


From 87a48d4dc24578a54204bf7d4e3577c24506b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 77/83] fix: weights that all are equal and not positive are
 normalised to equal shares, not to NaN

---
 learn/derive.go | 7 +++++++
 spn/utils.go    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/learn/derive.go b/learn/derive.go
index a714ac8..69c8202 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -204,6 +204,13 @@ func Normalize(v []float64) {
 	for i := range v {
 		norm += v[i]
 	}
+	if norm == 0 {
+		// All weights are equal: no scale makes zeros add up to one.
+		for i := range v {
+			v[i] = 1 / float64(len(v))
+		}
+		return
+	}
 	//var c float64
 	for i := range v {
 		v[i] /= norm
diff --git a/spn/utils.go b/spn/utils.go
index 267d947..281ffea 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -273,6 +273,13 @@ func norm(v []float64) {
 	for i := range v {
 		norm += v[i]
 	}
+	if norm == 0 {
+		// All weights are equal: no scale makes zeros add up to one.
+		for i := range v {
+			v[i] = 1 / float64(len(v))
+		}
+		return
+	}
 	for i := range v {
 		v[i] /= norm
 	}
-- 
2.43.0


From eb4fa86458ac068aaf8f0ec7485752e8dc810eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 78/83] fix: an empty dataset has an empty matrix instead of a
 panic

---
 learn/variable.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/learn/variable.go b/learn/variable.go
index fcc9157..b00c5a1 100644
--- a/learn/variable.go
+++ b/learn/variable.go
@@ -49,7 +49,7 @@ func ExtractInstance(v int, D spn.Dataset) []int {
 // variable's varid in D's scope is equivalent to its map position and the scope's maximum varid is
 // equal to the number of variables in D plus one (i.e. there are no "holes" in the scope).
 func CompleteDataToMatrix(D spn.Dataset) [][]int {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil
 	}
 	n := len(D)
@@ -66,7 +66,7 @@ func CompleteDataToMatrix(D spn.Dataset) [][]int {
 
 // DataToMatrix returns a Dataset's matrix form. Assumes a consistent dataset.
 func DataToMatrix(D spn.Dataset) ([][]int, map[int]int) {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil, nil
 	}
 	n := len(D)
@@ -98,7 +98,7 @@ func DataToMatrix(D spn.Dataset) ([][]int, map[int]int) {
 // variable's varid in D's scope is equivalent to its map position and the scope's maximum varid is
 // equal to the number of variables in D plus one (i.e. there are no "holes" in the scope).
 func CompleteDataToMatrixF(D spn.Dataset) [][]float64 {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil
 	}
 	n := len(D)
@@ -115,7 +115,7 @@ func CompleteDataToMatrixF(D spn.Dataset) [][]float64 {
 
 // DataToMatrixF returns a Dataset's matrix form. Assumes a consistent dataset.
 func DataToMatrixF(D spn.Dataset) ([][]float64, map[int]int) {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil, nil
 	}
 	n := len(D)
-- 
2.43.0


From 259aa12703106c79009bd72cee49e946d68287ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 79/83] fix: a value outside of a multinomial's has probability
 zero instead of a panic

---
 spn/multinom.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 9d1e882..2863ecb 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -150,12 +150,20 @@ func (m *Multinomial) Type() string { return "leaf" }
 // Pr returns the discrete probability distribution.
 func (m *Multinomial) Pr() []float64 { return m.pr }
 
+// prob returns the probability of value v, which is zero for values outside of the distribution.
+func (m *Multinomial) prob(v int) float64 {
+	if v < 0 || v >= len(m.pr) {
+		return 0
+	}
+	return m.pr[v]
+}
+
 // Value returns the probability of a certain valuation. That is Pr(X=val[varid]), where
 // Pr is a probability function over a Multinomial distribution.
 func (m *Multinomial) Value(val VarSet) float64 {
 	v, ok := val[m.varid]
 	if ok {
-		return math.Log(m.pr[v])
+		return math.Log(m.prob(v))
 	}
 	return 0.0 // ln(1.0) = 0.0
 }
@@ -164,7 +172,7 @@ func (m *Multinomial) Value(val VarSet) float64 {
 func (m *Multinomial) Max(val VarSet) float64 {
 	v, ok := val[m.varid]
 	if ok {
-		return math.Log(m.pr[v])
+		return math.Log(m.prob(v))
 	}
 	return math.Log(m.mode.val)
 }
@@ -176,7 +184,7 @@ func (m *Multinomial) ArgMax(val VarSet) (VarSet, float64) {
 
 	if ok {
 		retval[m.varid] = v
-		return retval, math.Log(m.pr[v])
+		return retval, math.Log(m.prob(v))
 	}
 
 	retval[m.varid] = m.mode.index
-- 
2.43.0


From e326f0eadf990ad11920290fafebd78ee5f191f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 80/83] fix: ARFF rows with values missing are refused

---
 io/arff.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/io/arff.go b/io/arff.go
index b5d50e1..8491cf2 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -90,6 +90,9 @@ func ARFFToData(dirname, fname, dname string) {
 		} else {
 			// start saving your instances
 			instance := strings.Split(line, ",")
+			if len(instance) != attributes {
+				panic(fmt.Errorf("%d values for %d attributes in file [%s]", len(instance), attributes, fname))
+			}
 			for i, att := range instance {
 				found := false
 				// iterate through the attributes in the instance and map them
@@ -279,6 +282,11 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 				continue
 			}
 
+			if len(v) != len(typs) {
+				fmt.Printf("Error parsing line %d of file [%s].\n", lc, filename)
+				panic(fmt.Errorf("%d values for %d attributes", len(v), len(typs)))
+			}
+
 			vals = append(vals, make(map[int]int))
 			for j := range v {
 				if typs[j] == "numeric" {
-- 
2.43.0


From 0be80b669a6e0a689d78eb8d32689b1086f78181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 81/83] fix: partitions of data files made at the same time
 with a seed do not share the generator unguarded

---
 io/input.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/io/input.go b/io/input.go
index be14f80..d9bf910 100644
--- a/io/input.go
+++ b/io/input.go
@@ -10,6 +10,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/RenatoGeh/gospn/learn"
 	"github.com/RenatoGeh/gospn/spn"
@@ -321,6 +322,9 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 var glrand *rand.Rand
 var glrseed int64 = -1
 
+// glrmutex guards glrand and glrseed.
+var glrmutex sync.Mutex
+
 // ParsePartitionedData reads a data file and, with p probability, chooses ((1-p)*100)% of the data
 // file to be used as evidence file. For instance, p=0.7 will create a map[int]*learn.Variable,
 // which contains the data variables, and two []map[int]int. The first []map[int]int returned is
@@ -339,6 +343,8 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 	if rseed < 0 {
 		rint = rand.Intn
 	} else {
+		glrmutex.Lock()
+		defer glrmutex.Unlock()
 		if glrand == nil || glrseed != rseed {
 			glrand, glrseed = rand.New(rand.NewSource(rseed)), rseed
 		}
-- 
2.43.0


From 1540949ccb734bb9d8cbbeecb396f12760bb76b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 82/83] fix: the line in a completed picture is red and within
 the picture's maximum value

---
 io/pgm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/pgm.go b/io/pgm.go
index 07c8be2..133b910 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -605,7 +605,8 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 	n, j := w*h, 0
 	for i := 0; i < n; i++ {
 		if mid(i) {
-			common.DrawColor(out, common.Red)
+			// Red, in a picture whose greatest value is max.
+			common.DrawColorRGB(out, max, 0, 0)
 			goto cleanup
 		} else if v, eo := orig[j]; eo {
 			common.DrawColorRGB(out, v, v, v)
-- 
2.43.0


From 2c26cb6b38c1b48a517ae14eaf66f86bcd05c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 83/83] fix: images with a bad header, or pixels that are
 missing, too many or not allowed are refused

---
 io/input.go | 24 ++++++++++++++++++++++++
 io/pbm.go   | 24 ++++++++++++++++++++++++
 io/pgm.go   | 33 +++++++++++++++++++++------------
 3 files changed, 69 insertions(+), 12 deletions(-)

diff --git a/io/input.go b/io/input.go
index d9bf910..56d57a4 100644
--- a/io/input.go
+++ b/io/input.go
@@ -41,6 +41,30 @@ func checkScan(scanner *bufio.Scanner, filename string) {
 	}
 }
 
+// checkHeader panics if the width, height or maximum value of an image could not be read.
+func checkHeader(w, h, max int, filename string) {
+	if w < 0 || h < 0 || max < 0 {
+		panic(fmt.Errorf("io: an image in [%s] has no width, height or maximum value", filename))
+	}
+}
+
+// checkPixel panics if x, read with error err, is not a pixel of an image whose maximum value is max.
+func checkPixel(x, max int, err error, filename string) {
+	if err == nil && (x < 0 || x > max) {
+		err = fmt.Errorf("value %d is not in [0, %d]", x, max)
+	}
+	if err != nil {
+		panic(fmt.Errorf("io: an image in [%s] has a bad pixel: %v", filename, err))
+	}
+}
+
+// checkSize panics if an image does not have the number of pixels it should have.
+func checkSize(n, want int, filename string) {
+	if n != want {
+		panic(fmt.Errorf("io: an image in [%s] has %d pixels instead of %d", filename, n, want))
+	}
+}
+
 // finish writes out what is left in out and closes f, and panics if not everything could be written.
 func finish(out *bufio.Writer, f *os.File) {
 	err := out.Flush()
diff --git a/io/pbm.go b/io/pbm.go
index b0957b5..b717e50 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -126,6 +126,7 @@ func PBMFToData(dirname, dname string) {
 	w, h := -1, -1
 	instreams[0].Scan()
 	fmt.Sscanf(instreams[0].Text(), "%d %d", &w, &h)
+	checkHeader(w, h, 1, dirname)
 
 	nin := len(instreams)
 	// Move stream pointer to the right position.
@@ -143,15 +144,22 @@ func PBMFToData(dirname, dname string) {
 
 	for i := 0; i < nin; i++ {
 		stream := instreams[i]
+		npixels := 0
 
 		for stream.Scan() {
 			line := stream.Text()
 			nline := len(line)
 			for j := 0; j < nline; j++ {
+				if line[j] == '0' || line[j] == '1' {
+					npixels++
+				} else if line[j] != ' ' && line[j] != '\t' && line[j] != '\r' {
+					checkPixel(int(line[j]), 1, nil, dirname)
+				}
 				fmt.Fprintf(out, "%c ", line[j])
 			}
 		}
 		checkScan(stream, dirname)
+		checkSize(npixels, tt, dirname)
 
 		fmt.Fprintf(out, "%d\n", labels[i])
 	}
@@ -211,6 +219,7 @@ func PBMToData(dirname, dname string, class int) {
 	w, h := -1, -1
 	instream[0].Scan()
 	fmt.Sscanf(instream[0].Text(), "%d %d", &w, &h)
+	checkHeader(w, h, 1, dirname)
 
 	// Move stream pointer to the right position.
 	for i := 1; i < nin; i++ {
@@ -226,15 +235,22 @@ func PBMToData(dirname, dname string, class int) {
 
 	for i := 0; i < nin; i++ {
 		stream := instream[i]
+		npixels := 0
 
 		for stream.Scan() {
 			line := stream.Text()
 			nline := len(line)
 			for j := 0; j < nline; j++ {
+				if line[j] == '0' || line[j] == '1' {
+					npixels++
+				} else if line[j] != ' ' && line[j] != '\t' && line[j] != '\r' {
+					checkPixel(int(line[j]), 1, nil, dirname)
+				}
 				fmt.Fprintf(out, "%c ", line[j])
 			}
 		}
 		checkScan(stream, dirname)
+		checkSize(npixels, tt, dirname)
 
 		if class > 0 {
 			fmt.Fprintf(out, "%d\n", class)
@@ -358,6 +374,7 @@ func PBMFToEvidence(dirname, dname string) {
 	w, h := -1, -1
 	instreams[0].Scan()
 	fmt.Sscanf(instreams[0].Text(), "%d %d", &w, &h)
+	checkHeader(w, h, 1, dirname)
 
 	nin := len(instreams)
 	// Move stream pointer to the right position.
@@ -384,15 +401,22 @@ func PBMFToEvidence(dirname, dname string) {
 
 	for i := 0; i < nin; i++ {
 		stream := instreams[i]
+		npixels := 0
 
 		for stream.Scan() {
 			line := stream.Text()
 			nline := len(line)
 			for j := 0; j < nline; j++ {
+				if line[j] == '0' || line[j] == '1' {
+					npixels++
+				} else if line[j] != ' ' && line[j] != '\t' && line[j] != '\r' {
+					checkPixel(int(line[j]), 1, nil, dirname)
+				}
 				fmt.Fprintf(out, "%c ", line[j])
 			}
 		}
 		checkScan(stream, dirname)
+		checkSize(npixels, tt, dirname)
 
 		fmt.Fprintf(out, "\n")
 	}
diff --git a/io/pgm.go b/io/pgm.go
index 133b910..ce13773 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -132,6 +132,7 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 	fmt.Sscanf(instreams[0].Text(), "%d %d", &w, &h)
 	instreams[0].Scan()
 	fmt.Sscanf(instreams[0].Text(), "%d", &max)
+	checkHeader(w, h, max, dirname)
 
 	nin := len(instreams)
 	// Move stream pointer to the right position.
@@ -150,18 +151,20 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 
 	for i := 0; i < nin; i++ {
 		stream := instreams[i]
+		npixels := 0
 		for stream.Scan() {
 			line := stream.Text()
 			tokens := strings.Fields(line)
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, err := strconv.Atoi(tokens[j])
-				if err == nil {
-					fmt.Fprintf(out, "%d ", tkn)
-				}
+				checkPixel(tkn, max, err, dirname)
+				fmt.Fprintf(out, "%d ", tkn)
 			}
+			npixels += ntokens
 		}
 		checkScan(stream, dirname)
+		checkSize(npixels, tt, dirname)
 
 		fmt.Fprintf(out, "%d\n", labels[i])
 	}
@@ -286,6 +289,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 	fmt.Sscanf(stream.Text(), "%d %d", &w, &h)
 	stream.Scan()
 	fmt.Sscanf(stream.Text(), "%d", &max)
+	checkHeader(w, h, max, dirname)
 
 	tt := w * h
 	for i := 0; i < tt; i++ {
@@ -293,18 +297,20 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 	}
 	fmt.Fprintf(out, "var %d %d\n", tt, nsdirs)
 
+	npixels := 0
 	for stream.Scan() {
 		line := stream.Text()
 		tokens := strings.Fields(line)
 		ntokens := len(tokens)
 		for i := 0; i < ntokens; i++ {
 			tkn, err := strconv.Atoi(tokens[i])
-			if err == nil {
-				fmt.Fprintf(out, "%d ", tkn)
-			}
+			checkPixel(tkn, max, err, dirname)
+			fmt.Fprintf(out, "%d ", tkn)
 		}
+		npixels += ntokens
 	}
 	checkScan(stream, dirname)
+	checkSize(npixels, tt, dirname)
 	fmt.Fprintf(out, "%d\n", labels[0])
 	labels = labels[1:]
 	f.Close()
@@ -348,12 +354,12 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 				ntokens := len(tokens)
 				for j := 0; j < ntokens; j++ {
 					tkn, err := strconv.Atoi(tokens[j])
-					if err == nil {
-						vals = append(vals, tkn)
-					}
+					checkPixel(tkn, max, err, files[id])
+					vals = append(vals, tkn)
 				}
 			}
 			checkScan(lstream, files[id])
+			checkSize(len(vals), tt, files[id])
 			vals = append(vals, labels[id])
 
 			mutex.Lock()
@@ -494,6 +500,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 	fmt.Sscanf(instreams[0].Text(), "%d %d", &w, &h)
 	instreams[0].Scan()
 	fmt.Sscanf(instreams[0].Text(), "%d", &max)
+	checkHeader(w, h, max, dirname)
 
 	nin := len(instreams)
 	// Move stream pointer to the right position.
@@ -521,6 +528,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 	for i := 0; i < nin; i++ {
 		stream := instreams[i]
+		npixels := 0
 
 		for stream.Scan() {
 			line := stream.Text()
@@ -528,12 +536,13 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, err := strconv.Atoi(tokens[j])
-				if err == nil {
-					fmt.Fprintf(out, "%d ", tkn)
-				}
+				checkPixel(tkn, max, err, dirname)
+				fmt.Fprintf(out, "%d ", tkn)
 			}
+			npixels += ntokens
 		}
 		checkScan(stream, dirname)
+		checkSize(npixels, tt, dirname)
 
 		fmt.Fprintf(out, "\n")
 	}
-- 
2.43.0

