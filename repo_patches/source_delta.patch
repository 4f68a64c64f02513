From 8ac941ad4ec707ad9753dc015d478eb56e0dc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:59 +0000
Subject: [PATCH 01/29] fix: logic factors given, given-not and given-excl
 count parents from the first one

The index counted parents from the last one, and an index that is not a
valid parent was accepted (or caused a panic when negative).
---
 logic/given.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..a87d91a 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -24,12 +24,16 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("parent index %d out of range for %d operands", f.Index, given)
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << (given - 1 - f.Index))) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +63,16 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("parent index %d out of range for %d operands", f.Index, given)
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & (1 << (given - 1 - f.Index))) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,12 +102,16 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("parent index %d out of range for %d operands", f.Index, given)
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << (given - 1 - f.Index))) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
@@ -110,7 +122,7 @@ func (f *givenExclFactor) Table(given int) ([]float64, error) {
 			if j == f.Index {
 				continue
 			}
-			if (i & (1 << j)) == 0 {
+			if (i & (1 << (given - 1 - j))) == 0 {
 				otherTrue = true
 				break
 			}
-- 
2.43.0


From 99ac3805a749d2359c6c3e3cd6a1f9b2991f4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:19 +0000
Subject: [PATCH 02/29] fix: report invalid outcome indices of logic factors as
 error instead of panicking

---
 logic/outcome.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/logic/outcome.go b/logic/outcome.go
index f46a26b..2c0ac00 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -4,6 +4,14 @@ import (
 	"fmt"
 )
 
+// checkOutcome checks that an outcome index is in range 0 to max (inclusive).
+func checkOutcome(idx, count, max int) error {
+	if count < 1 || idx < 0 || idx > max {
+		return fmt.Errorf("outcome index %d out of range for %d outcomes", idx, count)
+	}
+	return nil
+}
+
 type outcomeIsFactor struct {
 	Index  int
 	Length int
@@ -31,6 +39,9 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length-1); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -69,6 +80,9 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length-1); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -107,6 +121,14 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if f.Length < 1 {
+		return nil, fmt.Errorf("logic operator requires at least one outcome, got %d", f.Length)
+	}
+	for _, idx := range f.Indices {
+		if err := checkOutcome(idx, f.Length, f.Length-1); err != nil {
+			return nil, err
+		}
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -148,6 +170,9 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
@@ -188,6 +213,9 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
-- 
2.43.0


From 28f1105730f549408760e05e79c637f4630d3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:36 +0000
Subject: [PATCH 03/29] fix: logic.Get returns independent factors, so their
 arguments don't leak between users

All users of a factor name shared a single mutable instance. Setting arguments
changed the factor for everyone, and loading networks concurrently was a data race.
---
 logic/factor.go  | 39 ++++++++++++++++++++++++++++++++++++++-
 logic/outcome.go |  2 +-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/logic/factor.go b/logic/factor.go
index 2bc0dc3..d35de64 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -11,9 +11,46 @@ type Factor interface {
 // Get logic factors by their name.
 //
 // Primarily used for deserialization.
+//
+// Each call returns a separate instance, so arguments set on it don't affect other users.
 func Get(name string) (Factor, bool) {
 	f, ok := factors[name]
-	return f, ok
+	return clone(f), ok
+}
+
+// clone returns a copy of a factor, so its arguments can be set independently of the original.
+func clone(f Factor) Factor {
+	switch f := f.(type) {
+	case *countFactor:
+		c := *f
+		return &c
+	case *givenFactor:
+		c := *f
+		return &c
+	case *givenNotFactor:
+		c := *f
+		return &c
+	case *givenExclFactor:
+		c := *f
+		return &c
+	case *outcomeIsFactor:
+		c := *f
+		return &c
+	case *outcomeIsNotFactor:
+		c := *f
+		return &c
+	case *outcomeEitherFactor:
+		c := *f
+		return &c
+	case *outcomeLessFactor:
+		c := *f
+		return &c
+	case *outcomeGreaterFactor:
+		c := *f
+		return &c
+	}
+	// all other factors have no arguments
+	return f
 }
 
 var factors = map[string]Factor{
diff --git a/logic/outcome.go b/logic/outcome.go
index 2c0ac00..93ecb5b 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -112,7 +112,7 @@ func (f *outcomeEitherFactor) SetArgs(args ...int) error {
 	if len(args) < 2 {
 		return fmt.Errorf("logic operator expects at least 2 argument (index..., length), got %d", len(args))
 	}
-	f.Indices = args[:len(args)-1]
+	f.Indices = append([]int{}, args[:len(args)-1]...)
 	f.Length = args[len(args)-1]
 	return nil
 }
-- 
2.43.0


From 4b3ec957e32bf44b7aa630544c957a93b33d6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:47 +0000
Subject: [PATCH 04/29] fix: refuse duplicate variable IDs, as intended by the
 existing check

---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..cb6bc78 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0


From ac39186194a7cb8501aba5a3b1541b4df15e2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:48 +0000
Subject: [PATCH 05/29] fix: Factor.Row returns the requested row, not a window
 starting at the row number

---
 network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index ffc915b..dfaf275 100644
--- a/network.go
+++ b/network.go
@@ -39,10 +39,11 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
+	idx *= f.columns
 	return f.Table[idx : idx+f.columns], true
 }
 
-// rowIndex returns a row starting index for the
+// rowIndex returns the row index for the
 // given outcome indices of given/parent variables.
 //
 // Returns False as second argument in case of missing data in the argument (i.e. -1).
-- 
2.43.0


From 2271c4b99177d4f156b6b0e0abfaca1907871c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:36 +0000
Subject: [PATCH 06/29] fix: trained utilities are the mean of samples, not
 half of it

Samples of utility nodes were counted twice.
---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From 846a051ddde36c769227f2ce5ebc333cb6785cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:37 +0000
Subject: [PATCH 07/29] fix: training leaves decisions and total utility
 weights alone, and changes nothing on error

UpdateNetwork overwrote the weights of the total utility node with their mean
over samples, required samples for decision nodes that have a table, and left
the network half trained when a later node had no samples.
---
 training.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/training.go b/training.go
index a93e1dd..259c7d8 100644
--- a/training.go
+++ b/training.go
@@ -65,13 +65,19 @@ func NewTrainer(net *Network) Trainer {
 	}
 }
 
+// isTrained returns whether the table of a node is derived from samples.
+// This excludes decisions and the weights of the total utility node.
+func (t *Trainer) isTrained(i int) bool {
+	return t.network.variables[i].NodeType != ve.DecisionNode && i != t.network.totalUtilityIndex
+}
+
 // AddSample adds a training sample.
 // Order of values in the sample is the same as the order in which nodes were passed into the [Network] constructor.
 func (t *Trainer) AddSample(sample []int, utility []float64) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode {
+		if !t.isTrained(i) {
 			continue
 		}
 
@@ -114,16 +120,28 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
+	// check for missing samples before changing anything
+	for i, node := range nodes {
+		if !t.isTrained(i) {
+			continue
+		}
+		for j, cnt := range t.counter[i] {
+			if cnt == 0 {
+				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
+			}
+		}
+	}
+
 	for i, node := range nodes {
+		if !t.isTrained(i) {
+			continue
+		}
 		data := t.data[i]
 
 		cols := node.Factor.columns
 		rows := len(node.Factor.Table) / cols
 		for j := 0; j < rows; j++ {
 			cnt := t.counter[i][j]
-			if cnt == 0 {
-				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
-			}
 			for k := 0; k < cols; k++ {
 				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)
 			}
-- 
2.43.0


From 99420a88ae5e7fd19f4215c7d32cf67bdbb9f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:01 +0000
Subject: [PATCH 08/29] fix: training fills in tables of nodes defined without
 one, instead of panicking

---
 training.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/training.go b/training.go
index 259c7d8..67b3705 100644
--- a/training.go
+++ b/training.go
@@ -36,7 +36,10 @@ func NewTrainer(net *Network) Trainer {
 
 	for i, node := range nodes {
 		columns := len(node.Outcomes)
-		rows := len(node.Factor.Table) / columns
+		rows := 1
+		for _, n := range node.Factor.outcomes {
+			rows *= n
+		}
 		d := make([][]float64, rows)
 		for j := 0; j < rows; j++ {
 			d[j] = make([]float64, columns)
@@ -139,7 +142,10 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 		data := t.data[i]
 
 		cols := node.Factor.columns
-		rows := len(node.Factor.Table) / cols
+		rows := len(data)
+		if len(node.Factor.Table) == 0 {
+			node.Factor.Table = make([]float64, rows*cols)
+		}
 		for j := 0; j < rows; j++ {
 			cnt := t.counter[i][j]
 			for k := 0; k < cols; k++ {
-- 
2.43.0


From 92f1a457c243fa081c887ad0726a2e6a2e0ecbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:01 +0000
Subject: [PATCH 09/29] fix: saving a network to YAML keeps its info text and
 node colors

---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From 52d6be639881a2a1d80c476da02a5a7b1c98d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:02 +0000
Subject: [PATCH 10/29] fix: missing utility values in CSV training data are
 skipped, instead of failing

---
 internal/tui/training.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..90f194a 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -52,6 +52,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
-- 
2.43.0


From 848992c261ffee40172fe9fbd8e0bf4ebdd7ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:02 +0000
Subject: [PATCH 11/29] fix: bbni respects the value for missing data
 (--no-data)

---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..933b5ab 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -44,6 +44,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 		file:         path,
 		trainingFile: trainingFile,
 		csvDelimiter: csvDelimiter,
+		noData:       noData,
 		evidence:     evidence,
 	}
 }
-- 
2.43.0


From fd7f5a8ab15932c35268a358f94583658fe1b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:02 +0000
Subject: [PATCH 12/29] fix: selecting a node by mouse resets the selected
 outcome, like selecting it by key

The outcome index of the previously selected node was kept. Pressing Enter
then panicked if the clicked node has fewer outcomes.
---
 internal/tui/input.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..71e3447 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -206,6 +206,9 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
+				if a.selectedNode != i {
+					a.selectedState = 0
+				}
 				a.selectedNode = i
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
@@ -222,6 +225,9 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
+				if a.selectedNode != i {
+					a.selectedState = 0
+				}
 				a.selectedNode = i
 				a.render(true)
 				a.showTable()
-- 
2.43.0


From 6d6dff13d145eac7fc0ab1d54a83b8fed0b5858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:28 +0000
Subject: [PATCH 13/29] fix: report missing definitions in BIF-XML as error
 instead of panicking

---
 xml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml.go b/xml.go
index 2c2d591..2f107de 100644
--- a/xml.go
+++ b/xml.go
@@ -52,7 +52,10 @@ func FromBIFXML(content []byte) (*Network, error) {
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		def, ok := defs[variable.Name]
+		if !ok {
+			return nil, fmt.Errorf("no definition found for node '%s'", variable.Name)
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
-- 
2.43.0


From daa336b447453cb34203548d7fb2c5d11a52862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:39 +0000
Subject: [PATCH 14/29] fix: reject inconsistent networks on construction,
 instead of panicking when solving

Checks for cycles, repeated parents, multiple factors or factors without
variable, missing outcomes, utility nodes as parents, missing utility weights
and table sizes. Chance variables that are not part of any factor give
undefined results instead of a panic.
---
 network.go | 96 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 95 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index dfaf275..aee4147 100644
--- a/network.go
+++ b/network.go
@@ -140,14 +140,29 @@ func (n *Network) prepareVariables() error {
 		if _, ok := varNames[v.Name]; ok {
 			return fmt.Errorf("duplicate variable name %s", v.Name)
 		}
+		if len(v.Outcomes) == 0 {
+			return fmt.Errorf("variable %s has no outcomes", v.Name)
+		}
 		varNames[v.Name] = v
 		outcomes[v.Name] = len(v.Outcomes)
 	}
 
+	hasFactor := map[string]bool{}
+	for _, f := range n.factors {
+		if _, ok := varNames[f.For]; !ok {
+			return fmt.Errorf("variable %s for factor not found", f.For)
+		}
+		if hasFactor[f.For] {
+			return fmt.Errorf("multiple factors for variable %s", f.For)
+		}
+		hasFactor[f.For] = true
+	}
+
 	for i := range n.variables {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
 		if idx < 0 {
+			v.Factor = &Factor{For: v.Name, columns: len(v.Outcomes)}
 			continue
 		}
 		v.Factor = &n.factors[idx]
@@ -159,11 +174,79 @@ func (n *Network) prepareVariables() error {
 			if !ok {
 				return fmt.Errorf("parent variable %s of %s not found", g, v.Name)
 			}
+			if slices.Contains(v.Factor.Given[:i], g) {
+				return fmt.Errorf("duplicate parent variable %s of %s", g, v.Name)
+			}
 			v.Factor.outcomes[i] = n
 		}
 	}
 
-	return n.prepareUtilityNodes(varNames)
+	if err := n.checkAcyclic(varNames); err != nil {
+		return err
+	}
+	if err := n.prepareUtilityNodes(varNames); err != nil {
+		return err
+	}
+	return n.checkTables(varNames)
+}
+
+// checkAcyclic checks that there are no cyclic dependencies, called from prepareVariables.
+func (n *Network) checkAcyclic(varNames map[string]*Variable) error {
+	const active, done = 1, 2
+	state := make(map[string]int, len(varNames))
+
+	var visit func(v *Variable) error
+	visit = func(v *Variable) error {
+		if state[v.Name] == done {
+			return nil
+		}
+		if state[v.Name] == active {
+			return fmt.Errorf("variable %s depends on itself; network must be acyclic", v.Name)
+		}
+		state[v.Name] = active
+		for _, g := range v.Factor.Given {
+			if err := visit(varNames[g]); err != nil {
+				return err
+			}
+		}
+		state[v.Name] = done
+		return nil
+	}
+
+	for i := range n.variables {
+		if err := visit(&n.variables[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// checkTables checks the size of tables and that utilities are no parents of other nodes,
+// called from prepareVariables.
+func (n *Network) checkTables(varNames map[string]*Variable) error {
+	for i := range n.variables {
+		v := &n.variables[i]
+		size := len(v.Outcomes)
+		for _, g := range v.Factor.Given {
+			if i == n.totalUtilityIndex {
+				continue
+			}
+			if varNames[g].NodeType == ve.UtilityNode {
+				return fmt.Errorf("utility node %s can't be a parent of %s", g, v.Name)
+			}
+			size *= len(varNames[g].Outcomes)
+		}
+		if v.Factor.Table == nil && i != n.totalUtilityIndex {
+			continue
+		}
+		if len(v.Factor.Table) != size {
+			return fmt.Errorf("wrong table size for variable %s; expected %d, got %d", v.Name, size, len(v.Factor.Table))
+		}
+	}
+
+	// check that all utilities have a weight
+	_, err := n.prepareUtilityWeights()
+	return err
 }
 
 // prepareUtilityNodes, called from prepareVariables.
@@ -489,6 +572,17 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 		factors = append(factors, factor)
 	}
 
+	// chance variables that are not in any factor have no probabilities
+	for i := range varIDs {
+		v := varIDs[i].VeVariable
+		if i == n.totalUtilityIndex || n.variables[i].NodeType != ve.ChanceNode {
+			continue
+		}
+		if !slices.ContainsFunc(factors, func(f ve.Factor) bool { return slices.ContainsFunc(f.Variables(), v.Is) }) {
+			factors = append(factors, vars.CreateFactor([]ve.Variable{v}, nil))
+		}
+	}
+
 	// add policies as factors
 	factors = append(factors, n.policyFactors(vars, varIDs, evidence)...)
 
-- 
2.43.0


From 7d910a7ef8a903b64610a99eb41de8cb65316b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:08 +0000
Subject: [PATCH 15/29] fix: solve decisions that don't affect anything,
 instead of panicking

---
 ve/ve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ve/ve.go b/ve/ve.go
index 65e536f..1e0d36b 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -2,7 +2,6 @@ package ve
 
 import (
 	"cmp"
-	"fmt"
 	"slices"
 )
 
@@ -289,7 +288,9 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 		}*/
 
 		if len(factors) == 0 {
-			panic(fmt.Sprintf("found no factors containing variable %d and its parents", dec.id))
+			// decision without any effect, all outcomes are equally good
+			f := ve.variables.CreateFactor([]Variable{dec}, nil)
+			factors = append(factors, &f)
 		}
 
 		// TODO: check that multiplying when multiple factors are remaining is correct!
-- 
2.43.0


From 585afb64f6047abcedfbc73567b79c5fbdee5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:08 +0000
Subject: [PATCH 16/29] fix: ToEvidence works before the first query, and
 refuses utility variables

---
 network.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index aee4147..4cf9c00 100644
--- a/network.go
+++ b/network.go
@@ -477,15 +477,19 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 // As an example, say we have a variable with outcomes [yes, no]. Given evidence "yes" (index 0):
 // we get the following probabilities: [1, 0].
 func (n *Network) ToEvidence(variable string, value string) ([]float64, error) {
-	vv, ok := n.variableNames[variable]
-	if !ok {
+	varIdx := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
+	if varIdx < 0 {
 		return nil, fmt.Errorf("evidence variable %s not found", variable)
 	}
-	idx := slices.Index(vv.Variable.Outcomes, value)
+	v := &n.variables[varIdx]
+	if v.NodeType == ve.UtilityNode {
+		return nil, fmt.Errorf("utility variable %s can't be used as evidence", variable)
+	}
+	idx := slices.Index(v.Outcomes, value)
 	if idx < 0 {
 		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
 	}
-	probs := make([]float64, len(vv.Variable.Outcomes))
+	probs := make([]float64, len(v.Outcomes))
 	probs[idx] = 1.0
 	return probs, nil
 }
-- 
2.43.0


From 387066833468b9ea3364519fbca5446cb55641cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:09 +0000
Subject: [PATCH 17/29] fix: refuse utility variables as evidence or query, and
 others as utility, instead of returning nonsense

---
 network.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/network.go b/network.go
index 4cf9c00..fe5cb1d 100644
--- a/network.go
+++ b/network.go
@@ -441,6 +441,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("utility variable %s can't be used as evidence", name)
+		}
 		idx := slices.Index(vv.Variable.Outcomes, value)
 		if idx < 0 {
 			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
@@ -454,6 +457,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("query variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("utility variable %s can't be used as query", name)
+		}
 		q[i] = vv.VeVariable
 	}
 
@@ -464,6 +470,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 			if !ok {
 				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
 			}
+			if u.Variable.NodeType != ve.UtilityNode {
+				return nil, fmt.Errorf("variable %s is not a utility variable", utilityVar)
+			}
 			util = &u.VeVariable
 		}
 		return n.ve.SolveUtility(ev, q, util), nil
-- 
2.43.0


From 22157d7e48102721c4b27bbc5ab10db565b69bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:10 +0000
Subject: [PATCH 18/29] fix: querying a variable that is also evidence returns
 certainty, instead of panicking

---
 network.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/network.go b/network.go
index fe5cb1d..2d481f0 100644
--- a/network.go
+++ b/network.go
@@ -401,6 +401,13 @@ func (n *Network) SolveQuery(evidence map[string]string, query []string, ignoreP
 
 	result := map[string][]float64{}
 	for _, q := range query {
+		// query variables with evidence are not in the factor
+		if value, ok := evidence[q]; ok {
+			if result[q], err = n.ToEvidence(q, value); err != nil {
+				return nil, nil, err
+			}
+			continue
+		}
 		m := n.Marginal(f, q)
 		n := n.Normalize(&m)
 		result[q] = n.Data()
-- 
2.43.0


From bef074244d1152c9b451aac74ef4488b75e8d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:10 +0000
Subject: [PATCH 19/29] fix: decisions that affect later ones through chance
 variables are solved in temporal order

Only direct links between decisions were considered. Otherwise, decisions were
solved in the order of their declaration, resulting in wrong policies.
---
 network.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/network.go b/network.go
index 2d481f0..b7b49d5 100644
--- a/network.go
+++ b/network.go
@@ -592,6 +592,20 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 		factors = append(factors, factor)
 	}
 
+	// earlier decisions can affect a decision through chance variables, add them as dependencies
+	for i := range varIDs {
+		v := varIDs[i].VeVariable
+		if i == n.totalUtilityIndex || v.NodeType() != ve.DecisionNode {
+			continue
+		}
+		for _, d := range n.decisionAncestors(i) {
+			dec := varIDs[d].VeVariable
+			if dec.NodeType() == ve.DecisionNode && !slices.ContainsFunc(dependencies[v], dec.Is) {
+				dependencies[v] = append(dependencies[v], dec)
+			}
+		}
+	}
+
 	// chance variables that are not in any factor have no probabilities
 	for i := range varIDs {
 		v := varIDs[i].VeVariable
@@ -614,6 +628,29 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 	return ve.New(vars, factors, dependencies, weights), varNames, nil
 }
 
+// decisionAncestors returns the indices of all decision variables among the ancestors of a variable.
+func (n *Network) decisionAncestors(index int) []int {
+	decisions := []int{}
+	visited := make([]bool, len(n.variables))
+	stack := []int{index}
+	for len(stack) > 0 {
+		v := &n.variables[stack[len(stack)-1]]
+		stack = stack[:len(stack)-1]
+		for _, g := range v.Factor.Given {
+			p := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == g })
+			if visited[p] {
+				continue
+			}
+			visited[p] = true
+			if n.variables[p].NodeType == ve.DecisionNode {
+				decisions = append(decisions, p)
+			}
+			stack = append(stack, p)
+		}
+	}
+	return decisions
+}
+
 // prepareUtilityWeights derives utility weights from a potential total utility node.
 func (n *Network) prepareUtilityWeights() ([]float64, error) {
 	utilityNodes := []*Variable{}
-- 
2.43.0


From 92e635cc65d8fe40297872abdfe6746012a3d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:29 +0000
Subject: [PATCH 20/29] fix: clear previous utility values before drawing
 shorter ones

---
 internal/tui/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 75e7414..4361b23 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -230,6 +230,10 @@ func (n *node) drawUtility(probs []float64) {
 		} else {
 			text = []rune(fmt.Sprintf("%12.3f", p))
 		}
+		// clear the previous value, which may be longer
+		for j := n.barsX + 1; j < n.bounds.W-1; j++ {
+			n.runes[i+2][j] = Empty
+		}
 		copy(n.runes[i+2][n.barsX+1:], text)
 	}
 }
-- 
2.43.0


From c7c5235a13411f53ca70f656b6d8ffbf8a7501eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:29 +0000
Subject: [PATCH 21/29] fix: show nodes with negative positions at the border,
 instead of panicking

---
 internal/tui/input.go | 3 +--
 internal/tui/node.go  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 71e3447..6ac110f 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -119,8 +119,7 @@ func (a *App) moveNode(event *tcell.EventKey) *tcell.EventKey {
 		b.X += dx
 		b.Y += dy
 
-		p := a.network.Variables()[a.selectedNode].Position
-		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
+		a.network.Variables()[a.selectedNode].Position = [2]int{b.X, b.Y}
 
 		if createCanvas {
 			a.createCanvas()
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 4361b23..92ac073 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -48,8 +48,8 @@ func NewNode(n bbn.Variable) Node {
 	}
 
 	bounds := Bounds{
-		X: n.Position[0],
-		Y: n.Position[1],
+		X: max(n.Position[0], 0),
+		Y: max(n.Position[1], 0),
 		W: max(maxStateLen+bars+9, titleLength) + 4,
 		H: len(n.Outcomes) + 3,
 	}
-- 
2.43.0


From 766ad7915ec01545db2935159363d8f261ac580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:30 +0000
Subject: [PATCH 22/29] fix: report unknown node colors as error instead of
 panicking

---
 cmd/bbn/inference.go |  3 +++
 internal/tui/app.go  |  4 ++++
 internal/tui/node.go | 10 ++++++++++
 3 files changed, 17 insertions(+)

diff --git a/cmd/bbn/inference.go b/cmd/bbn/inference.go
index 4e5d922..77c64dd 100644
--- a/cmd/bbn/inference.go
+++ b/cmd/bbn/inference.go
@@ -72,6 +72,9 @@ func runInferenceCommand(path string, evidence []string) ([]bbn.Variable, map[st
 	}
 
 	nodes := net.Variables()
+	if err := tui.CheckColors(nodes); err != nil {
+		return nil, nil, nil, err
+	}
 	tuiNodes := make([]tui.Node, len(nodes))
 	for i, n := range nodes {
 		tuiNodes[i] = tui.NewNode(n)
diff --git a/internal/tui/app.go b/internal/tui/app.go
index 933b5ab..3bc1d80 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -65,6 +65,10 @@ func (a *App) Run() error {
 		}
 	}
 
+	if err := CheckColors(nodes); err != nil {
+		return err
+	}
+
 	a.nodes = make([]Node, len(nodes))
 	a.nodesByName = make(map[string]int, len(nodes))
 	for i, n := range nodes {
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 92ac073..0c9379c 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -91,6 +91,16 @@ func NewNode(n bbn.Variable) Node {
 	return &node
 }
 
+// CheckColors returns an error if any of the nodes has an unknown color.
+func CheckColors(nodes []bbn.Variable) error {
+	for i := range nodes {
+		if _, err := nodeColor(&nodes[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func nodeColor(n *bbn.Variable) (Color, error) {
 	color := White
 	if n.Color == "" {
-- 
2.43.0


From 1e8d03d5101786960e1f41298ba6e8a40c446b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:46 +0000
Subject: [PATCH 23/29] fix: querying an unsolved decision that affects only
 utilities returns a result, instead of panicking

---
 ve/ve.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ve/ve.go b/ve/ve.go
index 1e0d36b..12950ea 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -253,11 +253,38 @@ func (ve *VE) solve(evidence []Evidence, query []Variable, utility bool, utility
 		ve.removeUtilities(nil)
 	}
 
+	ve.addFreeQuery(evidence, query)
+
 	ve.eliminateHidden(evidence, query, false)
 
 	return ve.summarize()
 }
 
+// addFreeQuery adds constant factors for query variables that are not in any factor,
+// like decisions without policy that only affect utilities.
+func (ve *VE) addFreeQuery(evidence []Evidence, query []Variable) {
+	for _, q := range query {
+		if slices.ContainsFunc(evidence, func(ev Evidence) bool { return ev.Variable.Is(q) }) {
+			continue
+		}
+		found := false
+		for _, f := range ve.factors {
+			if slices.ContainsFunc(f.variables, q.Is) {
+				found = true
+				break
+			}
+		}
+		if found {
+			continue
+		}
+		f := ve.variables.CreateFactor([]Variable{q}, nil)
+		for i := range f.data {
+			f.data[i] = 1
+		}
+		ve.factors[f.id] = &f
+	}
+}
+
 // SolvePolicies solves decision policies.
 //
 // Solves only the last decision if single is true.
-- 
2.43.0


From 7155798b92b68bfb2d9b9b601464fcb9241b6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:02 +0000
Subject: [PATCH 24/29] fix: reject variables with more outcomes than the
 solver can represent, instead of panicking when solving

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index b7b49d5..5ee1a24 100644
--- a/network.go
+++ b/network.go
@@ -2,6 +2,7 @@ package bbn
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"slices"
@@ -143,6 +144,9 @@ func (n *Network) prepareVariables() error {
 		if len(v.Outcomes) == 0 {
 			return fmt.Errorf("variable %s has no outcomes", v.Name)
 		}
+		if len(v.Outcomes) > math.MaxUint16 {
+			return fmt.Errorf("variable %s has too many outcomes (maximum is %d)", v.Name, math.MaxUint16)
+		}
 		varNames[v.Name] = v
 		outcomes[v.Name] = len(v.Outcomes)
 	}
-- 
2.43.0


From 05f26fd6004f08df8559092611667da0a6229cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:42 +0000
Subject: [PATCH 25/29] fix: multi-line texts with leading white space survive
 saving to YAML

---
 yml.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/yml.go b/yml.go
index 93b906f..efea281 100644
--- a/yml.go
+++ b/yml.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/mlange-42/bbn/logic"
 	"github.com/mlange-42/bbn/ve"
@@ -30,20 +32,35 @@ var nodeTypeNames = map[ve.NodeType]string{
 	ve.UtilityNode:  UtilityNodeType,
 }
 
+// text is a string that is written such that it is read back exactly.
+type text string
+
+// MarshalYAML implements [yaml.Marshaler].
+//
+// The encoder writes multi-line strings as block literals,
+// which does not preserve all kinds of leading white space.
+func (t text) MarshalYAML() (any, error) {
+	s := string(t)
+	if strings.Contains(s, "\n") && strings.TrimLeftFunc(s, unicode.IsSpace) != s && utf8.ValidString(s) {
+		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s, Style: yaml.DoubleQuotedStyle}, nil
+	}
+	return s, nil
+}
+
 type variableYaml struct {
-	Variable string      // Name of the node.
+	Variable text        // Name of the node.
 	Given    []string    `yaml:",flow,omitempty"`
 	Type     string      `yaml:",omitempty"`      // Type of the node [nature, decision, utility]
 	Outcomes []string    `yaml:",flow"`           // Names of the node's possible states.
 	Position [2]int      `yaml:",flow"`           // Coordinates for visualization, optional.
-	Color    string      `yaml:",omitempty"`      // Node color, optional.
+	Color    text        `yaml:",omitempty"`      // Node color, optional.
 	Logic    string      `yaml:",omitempty"`      // Logic operations, alternative to a table
 	Table    [][]float64 `yaml:",flow,omitempty"` // Table with the variable's factor
 }
 
 type networkYaml struct {
-	Name      string
-	Info      string `yaml:",omitempty"`
+	Name      text
+	Info      text `yaml:",omitempty"`
 	Variables []variableYaml
 }
 
@@ -67,11 +84,11 @@ func FromYAML(content []byte) (*Network, error) {
 			return nil, fmt.Errorf("unknown node type %s", v.Type)
 		}
 		variables[i] = Variable{
-			Name:     v.Variable,
+			Name:     string(v.Variable),
 			NodeType: tp,
 			Outcomes: v.Outcomes,
 			Position: v.Position,
-			Color:    v.Color,
+			Color:    string(v.Color),
 		}
 
 		table, err := toTable(&v)
@@ -80,13 +97,13 @@ func FromYAML(content []byte) (*Network, error) {
 		}
 
 		factors = append(factors, Factor{
-			For:   v.Variable,
+			For:   string(v.Variable),
 			Given: v.Given,
 			Table: table,
 		})
 	}
 
-	return New(net.Name, net.Info, variables, factors)
+	return New(string(net.Name), string(net.Info), variables, factors)
 }
 
 func toTable(v *variableYaml) ([]float64, error) {
@@ -141,19 +158,19 @@ func ToYAML(network *Network) ([]byte, error) {
 		}
 
 		variables[i] = variableYaml{
-			Variable: v.Name,
+			Variable: text(v.Name),
 			Given:    v.Factor.Given,
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
-			Color:    v.Color,
+			Color:    text(v.Color),
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
-		Name:      network.Name(),
-		Info:      network.Info(),
+		Name:      text(network.Name()),
+		Info:      text(network.Info()),
 		Variables: variables,
 	}
 
-- 
2.43.0


From d5df7a1bd96e7496efb6d20fe161cf7d86cddc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:01 +0000
Subject: [PATCH 26/29] fix: variables defined without a factor can be solved
 and trained, instead of panicking

---
 network.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/network.go b/network.go
index 5ee1a24..5bbaa85 100644
--- a/network.go
+++ b/network.go
@@ -610,15 +610,23 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 		}
 	}
 
-	// chance variables that are not in any factor have no probabilities
+	// chance variables defined without a factor have no probabilities, unless they were trained
 	for i := range varIDs {
 		v := varIDs[i].VeVariable
 		if i == n.totalUtilityIndex || n.variables[i].NodeType != ve.ChanceNode {
 			continue
 		}
-		if !slices.ContainsFunc(factors, func(f ve.Factor) bool { return slices.ContainsFunc(f.Variables(), v.Is) }) {
-			factors = append(factors, vars.CreateFactor([]ve.Variable{v}, nil))
+		f := n.variables[i].Factor
+		isDefined := slices.ContainsFunc(n.factors, func(f Factor) bool { return f.For == n.variables[i].Name })
+		isUsed := slices.ContainsFunc(factors, func(f ve.Factor) bool {
+			vars := f.Variables()
+			return vars[len(vars)-1].NodeType() != ve.UtilityNode && slices.ContainsFunc(vars, v.Is)
+		})
+		if isDefined || (f.Table == nil && isUsed) {
+			continue
 		}
+		factor := vars.CreateFactor([]ve.Variable{v}, f.Table)
+		factors = append(factors, vars.NormalizeFor(&factor, v))
 	}
 
 	// add policies as factors
-- 
2.43.0


From 418e44932d59b760f022d44f07f89d1a240b54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 27/29] fix: decisions without any defined utility value are
 solved as ties, instead of panicking

---
 ve/variables.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ve/variables.go b/ve/variables.go
index cb6bc78..ca00796 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -201,8 +201,11 @@ func (v *Variables) Policy(f *Factor, variable Variable) Factor {
 			}
 		}
 
+		// no outcome has a defined utility, so none is preferred
 		if len(maxIndices) == 0 {
-			panic("no utility values to derive policy")
+			for c := range rowData {
+				maxIndices = append(maxIndices, c)
+			}
 		}
 
 		probValue := 1.0 / float64(len(maxIndices))
-- 
2.43.0


From 84a4e22943cf4ca0d3a225912dbb2ceebf1d5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:03 +0000
Subject: [PATCH 28/29] fix: variables with an empty name keep their factor,
 instead of panicking when solving

---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 5bbaa85..7075a43 100644
--- a/network.go
+++ b/network.go
@@ -553,7 +553,7 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 	factors := make([]ve.Factor, 0, len(n.factors))
 	for _, f := range n.factors {
 		// skip factor for total utility
-		if f.For == totalUtilityName {
+		if n.totalUtilityIndex >= 0 && f.For == totalUtilityName {
 			continue
 		}
 		// get primary variable
-- 
2.43.0


From ed79c4ec00bb74b97bcd20be2d9fb06e5f4e27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:26 +0000
Subject: [PATCH 29/29] fix: digits of other scripts no longer crash the app

---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 6ac110f..0f7fafb 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -5,7 +5,6 @@ import (
 	"path"
 	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/gdamore/tcell/v2"
 	"github.com/mlange-42/bbn"
@@ -31,7 +30,7 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 		a.selectedState = (a.selectedState + 1) % len(a.nodes[a.selectedNode].Node().Outcomes)
 		a.render(true)
 		return nil
-	} else if unicode.IsDigit(event.Rune()) {
+	} else if event.Rune() >= '0' && event.Rune() <= '9' {
 		// Select states by index/number keys.
 		a.selectNodeOutcome(string(event.Rune()))
 		return nil
-- 
2.43.0

