From 86f3f57c04bdc005fa0672b6478567506e6afaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 01/46] fix: xo: the deadline of Try only applies to that Try,
 and expiry backtracks

---
 internal/xo/s.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..ad011b9 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -195,6 +195,8 @@ func (s *S) Try(dur time.Duration) int {
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
+	// the deadline only holds for this call.
+	defer func() { s.deadline = s.startTime }()
 	return s.Solve()
 }
 
@@ -256,6 +258,8 @@ func (s *S) Solve() int {
 			tick++
 			if tick%CancelTicks == 0 {
 				if s.deadline != s.startTime && time.Until(s.deadline) <= 0 {
+					s.stEnded++
+					trail.Back(s.endTestLevel)
 					return 0
 				}
 				if !s.control.Tick() {
-- 
2.43.0


From 6887e6153226dabd834f2fe820db06ecd00918a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 02/46] fix: xo: copying a solver keeps its heuristic and gc
 state

The copied decision queue had no decay parameters (the bump increment became
infinite after a conflict), and clause bump increment and gc clock were lost.
---
 internal/xo/cdat.go  | 1 +
 internal/xo/cgc.go   | 4 ++--
 internal/xo/guess.go | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..919127b 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -227,6 +227,7 @@ func (c *CDat) CopyTo(other *CDat) {
 	other.Len = c.Len
 	other.Cap = c.Cap
 	other.ClsLen = c.ClsLen
+	other.bumpInc = c.bumpInc
 	copy(other.D, c.D)
 }
 
diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..7d54884 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -52,8 +52,8 @@ func (c *Cgc) Copy() *Cgc {
 	*l = *c.luby
 	other := &Cgc{
 		luby:      l,
-		factor:    2048,
-		stopWatch: 2048 * l.Next(),
+		factor:    c.factor,
+		stopWatch: c.stopWatch,
 		rmq:       make([]z.C, len(c.rmq), cap(c.rmq)),
 		rmLits:    c.rmLits,
 		rmd:       c.rmd}
diff --git a/internal/xo/guess.go b/internal/xo/guess.go
index 7816467..2b88abe 100644
--- a/internal/xo/guess.go
+++ b/internal/xo/guess.go
@@ -211,6 +211,14 @@ func (g *Guess) Copy() *Guess {
 		vhp:       make([]z.Var, len(g.vhp), cap(g.vhp)),
 		heat:      make([]float64, len(g.heat), cap(g.heat)),
 		cache:     make([]int8, len(g.cache), cap(g.cache)),
+
+		decays:        g.decays,
+		restartDecays: g.restartDecays,
+		decayMax:      g.decayMax,
+		decayMin:      g.decayMin,
+		decayMaxMax:   g.decayMaxMax,
+		decayMaxDecay: g.decayMaxDecay,
+
 		bumpInc:   g.bumpInc,
 		bumpDecay: g.bumpDecay,
 		bumpLim:   g.bumpLim}
-- 
2.43.0


From ddcdba3ed2d2bf1e38bf6268d661f76599417614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 03/46] fix: xo: clause compaction relocates the empty clause
 and keeps reasons aligned with variables

---
 internal/xo/cgc.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 7d54884..f7c2a9f 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -192,8 +192,12 @@ func (c *Cgc) CompactCDat(cdb *Cdb) (int, int) {
 func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
-	// reasons
-	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
+	// empty clause
+	if q, ok := rlm[cdb.Bot]; ok {
+		cdb.Bot = q
+	}
+	// reasons, which are indexed by variable
+	relocateReasons(cdb.Vars.Reasons, rlm)
 	// watches
 	c.relocateWatches(cdb, rlm)
 	// activation occs
@@ -331,3 +335,12 @@ func relocateSlice(ps []z.C, m map[z.C]z.C) []z.C {
 	}
 	return ps[:j]
 }
+
+// relocateReasons relocates in place, since rs is indexed by variable.
+func relocateReasons(rs []z.C, m map[z.C]z.C) {
+	for i, p := range rs {
+		if q, ok := m[p]; ok {
+			rs[i] = q
+		}
+	}
+}
-- 
2.43.0


From eec877164d2b2638cde648f85deb958b3da9b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 04/46] fix: xo: do not recycle an activation literal which is
 fixed at level 0

---
 internal/xo/active.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..e97e618 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -63,8 +63,12 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	sl := a.Occs[mv]
 	a.Occs[mv] = nil
 	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
-	a.Free = append(a.Free, m)
 	a.IsActive[mv] = false
+	if cdb.Vars.Vals[m] != 0 {
+		// fixed at level 0, cannot be used to activate other clauses.
+		return
+	}
+	a.Free = append(a.Free, m)
 }
 
 func (a *Active) CRemap(rlm map[z.C]z.C) {
-- 
2.43.0


From 9593371fde81e222589ad0c1da6b05d0443668c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 05/46] fix: xo: ActivateWith accepts a literal the solver has
 not seen

---
 internal/xo/s.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index ad011b9..fe4198f 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -533,6 +533,7 @@ func (s *S) ActivationLit() z.Lit {
 func (s *S) ActivateWith(act z.Lit) {
 	s.ensure0()
 	s.ensureActive()
+	s.ensureLitCap(act)
 	s.Active.ActivateWith(act, s)
 }
 
-- 
2.43.0


From f59f44bbf35333f7ea6a0d17fae31d356f2aed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 06/46] fix: xo: writing a solver without clauses does not
 divide by zero

---
 internal/xo/cdat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index 919127b..a821967 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -179,7 +179,7 @@ func (c *CDat) Load(p z.C, ms []z.Lit) []z.Lit {
 
 // Func Forall applies f to every clause in the store.
 func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
-	ns := make([]z.Lit, 0, c.ClsLen*2/c.Len)
+	ns := make([]z.Lit, 0, 32)
 	i := 0
 	q := z.C(1)
 	for q < z.C(c.Len) {
-- 
2.43.0


From 134498b73e67106172e5efc8c095bba902fcd445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 07/46] fix: xo: bumping a clause header does not spill into
 the learnt bit

---
 internal/xo/chd.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/xo/chd.go b/internal/xo/chd.go
index 4270a58..8d1d686 100644
--- a/internal/xo/chd.go
+++ b/internal/xo/chd.go
@@ -49,8 +49,9 @@ func (c Chd) Heat() uint32 {
 }
 
 func (c Chd) Bump(n uint32) (Chd, bool) {
-	ht := c.Heat() + n
-	return Chd((uint32(c) & (lrnMask | szMask | lbdMask)) | (ht << heatShift)), ht == heatMask>>heatShift
+	const heatMax = heatMask >> heatShift
+	ht := (c.Heat() + n) & heatMax // otherwise heat spills into the learnt bit.
+	return Chd((uint32(c) & (lrnMask | szMask | lbdMask)) | (ht << heatShift)), ht == heatMax
 }
 
 func (c Chd) Decay() Chd {
-- 
2.43.0


From 97da3dcb4f09e68d9db6ed06bc6e3d3f31d359c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 08/46] fix: xo: the written problem line counts the clauses
 which are written

---
 internal/xo/cdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..c7b2f6e 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -304,7 +304,7 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
-- 
2.43.0


From 71a4ec1dac685efe5703c9ed34774c28b46b789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 09/46] fix: logic: Eval64 sets the constant true in all 64
 evaluations

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..b72ab98 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -228,7 +228,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = ^uint64(0)
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From 0a1aa6581283863782d5dd5fa1f596f7f678b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 10/46] fix: logic: a copied circuit finds its structurally
 hashed gates

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index b72ab98..e8a44ff 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -68,7 +68,7 @@ func (c *C) ToCnf(dst inter.Adder) {
 
 // Copy makes a copy of `c`.
 func (c *C) Copy() *C {
-	ns := make([]node, len(c.nodes))
+	ns := make([]node, len(c.nodes), cap(c.nodes)) // strash is modulo capacity
 	st := make([]uint32, len(c.strash))
 	copy(ns, c.nodes)
 	copy(st, c.strash)
-- 
2.43.0


From a099973622fa7d80a203373d5059fe505c520ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 11/46] fix: aiger: Copy keeps the inputs and outputs

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..dceaaea 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -93,11 +93,15 @@ func Copy(a *T) *T {
 	}
 	result := &T{
 		S:           a.S.Copy(),
+		Inputs:      make([]z.Lit, len(a.Inputs)),
+		Outputs:     make([]z.Lit, len(a.Outputs)),
 		Bad:         make([]z.Lit, len(a.Bad)),
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
 		Fair:        make([]z.Lit, len(a.Fair)),
 		symbols:     make(map[byte]map[int]string, len(a.symbols))}
+	copy(result.Inputs, a.Inputs)
+	copy(result.Outputs, a.Outputs)
 	copy(result.Bad, a.Bad)
 	copy(result.Constraints, a.Constraints)
 	copy(result.Fair, a.Fair)
-- 
2.43.0


From 0d7034aeb7d01039ad034551200b37df484d2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 12/46] fix: aiger: naming an item one past the end is an error

---
 logic/aiger/aiger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index dceaaea..a63754c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -128,7 +128,7 @@ func (a *T) Sys() *logic.S {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameInput(index int, nm string) error {
-	if index < 0 || index > len(a.Inputs) {
+	if index < 0 || index >= len(a.Inputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -150,7 +150,7 @@ func (a *T) InputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameLatch(index int, nm string) error {
-	if index < 0 || index > len(a.Latches) {
+	if index < 0 || index >= len(a.Latches) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -182,7 +182,7 @@ func (a *T) NewIn() z.Lit {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameOutput(index int, nm string) error {
-	if index < 0 || index > len(a.Outputs) {
+	if index < 0 || index >= len(a.Outputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -204,7 +204,7 @@ func (a *T) OutputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameBad(index int, nm string) error {
-	if index < 0 || index > len(a.Bad) {
+	if index < 0 || index >= len(a.Bad) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -226,7 +226,7 @@ func (a *T) BadName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameConstraint(index int, nm string) error {
-	if index < 0 || index > len(a.Constraints) {
+	if index < 0 || index >= len(a.Constraints) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -248,7 +248,7 @@ func (a *T) ConstraintName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameJustice(index int, nm string) error {
-	if index < 0 || index > len(a.Justice) {
+	if index < 0 || index >= len(a.Justice) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -270,7 +270,7 @@ func (a *T) JusticeName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameFair(index int, nm string) error {
-	if index < 0 || index > len(a.Fair) {
+	if index < 0 || index >= len(a.Fair) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
-- 
2.43.0


From 28f2c7cdedf865b7e089690b17044cf8e36cffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 13/46] fix: aiger: write the constant literals with the
 polarity they are read

---
 logic/aiger/aiger.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a63754c..4b5f602 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -607,9 +607,15 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 
 // get an aiger literal for a gini literal for writer
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
+	if m == abw.trueLit {
+		return 1
+	}
+	if m == abw.trueLit.Not() {
+		return 0
+	}
 	v := m.Var()
 	a := abw.idMap[v]
-	if a == 0 || m.IsPos() {
+	if m.IsPos() {
 		return a
 	}
 	return a | 1
@@ -1411,11 +1417,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
 	if m == t {
-		_, err := w.WriteString("0")
+		_, err := w.WriteString("1")
 		return err
 	}
 	if m == t.Not() {
-		_, err := w.WriteString("1")
+		_, err := w.WriteString("0")
 		return err
 	}
 	u := m - 2
-- 
2.43.0


From 38d207e82537e348cc2ac6aa7532d0bab280c75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 14/46] fix: aiger: the header counts exactly the and gates
 which are written

Ands below constraints only were counted and mapped but not written in binary,
and ands not below anything were counted but not written in both formats.
---
 logic/aiger/aiger.go | 51 +++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 4b5f602..4f2f77a 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -375,23 +375,12 @@ func (a *T) WriteBinary(w io.Writer) error {
 		abw.mapLit(m)
 	}
 	// create mapping for and gates
-	nexts := make([]z.Lit, 0, len(a.Latches))
-	for _, m := range a.Latches {
-		nexts = append(nexts, a.Next(m))
-	}
 	dfs := newsDfs(a.S, func(s *logic.S, m z.Lit) {
 		if s.Type(m) == logic.SAnd {
 			abw.mapLit(m)
 		}
 	})
-	dfs.post(a.Outputs...)
-	dfs.post(nexts...)
-	dfs.post(a.Bad...)
-	dfs.post(a.Constraints...)
-	for _, ma := range a.Justice {
-		dfs.post(ma...)
-	}
-	dfs.post(a.Fair...)
+	dfs.post(a.roots()...)
 	dfs.reset()
 
 	// Stage2: write the remaining data.  Latches
@@ -432,13 +421,7 @@ func (a *T) WriteBinary(w io.Writer) error {
 	}
 	// second pass writes the ands in binary format.
 	dfs.fn = abw.writeBinAnd
-	dfs.post(a.Outputs...)
-	dfs.post(nexts...)
-	dfs.post(a.Bad...)
-	for _, ma := range a.Justice {
-		dfs.post(ma...)
-	}
-	dfs.post(a.Fair...)
+	dfs.post(a.roots()...)
 	a.writeSymtab(bw)
 	// finally write comment
 	writeComment(bw)
@@ -576,18 +559,23 @@ func (a *T) writeAsciiAnds(w *bufio.Writer) {
 		writeLit(w, c1, a.S.T)
 		w.WriteString("\n")
 	})
-	nexts := make([]z.Lit, 0, len(a.Latches))
+	dfs.post(a.roots()...)
+}
+
+// roots gives all the literals which are written to an aiger file, other than
+// inputs and latches. Only the ands below roots are written.
+func (a *T) roots() []z.Lit {
+	ms := make([]z.Lit, 0, len(a.Outputs)+len(a.Latches))
+	ms = append(ms, a.Outputs...)
 	for _, m := range a.Latches {
-		nexts = append(nexts, a.Next(m))
+		ms = append(ms, a.Next(m))
 	}
-	dfs.post(a.Outputs...)
-	dfs.post(a.Bad...)
-	dfs.post(a.Constraints...)
+	ms = append(ms, a.Bad...)
+	ms = append(ms, a.Constraints...)
 	for _, ma := range a.Justice {
-		dfs.post(ma...)
+		ms = append(ms, ma...)
 	}
-	dfs.post(a.Fair...)
-	dfs.post(nexts...)
+	return append(ms, a.Fair...)
 }
 
 // state information for binary writer
@@ -1235,14 +1223,13 @@ type aigerHeader struct {
 // creates a header object from a system and an indication
 // of whether or not the binary version is desired.
 func makeHeader(a *T, binary bool) *aigerHeader {
-	s := a.S
-	N := s.Len()
 	nAnd := uint(0)
-	for i := 0; i < N; i++ {
-		if s.Type(s.At(i)) == logic.SAnd {
+	dfs := newsDfs(a.S, func(s *logic.S, m z.Lit) {
+		if s.Type(m) == logic.SAnd {
 			nAnd++
 		}
-	}
+	})
+	dfs.post(a.roots()...)
 	return &aigerHeader{
 		Binary:     binary,
 		Max:        uint(a.Len() - 1),
-- 
2.43.0


From ced6524d1d75d1d9e77b846106420cbdf1e2d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 15/46] fix: aiger: write gates positively and with ordered
 operands whatever the traversal order

A gate first reached by its negation was written negated, and the binary deltas
wrapped around when traversal order and literal order differ.
---
 logic/aiger/aiger.go | 16 ++++++++++------
 logic/aiger/dfs.go   |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 4f2f77a..63e8e9a 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -616,16 +616,18 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	if s.Type(m) != logic.SAnd {
 		return
 	}
-	// *logic.S stores c0 < c1, aiger
-	// wants c0 > c1, so we swap
-	// the assignment to c1, c0 :=
+	// aiger wants c0 > c1 in terms of aiger literals, whose order
+	// may differ from the order of the literals in *logic.S.
 	c1, c0 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-	if delta0 <= 0 || delta1 <= 0 {
+	if me <= mc0 || delta1 == 0 {
 		panic(fmt.Sprintf("incorrect delta computation %s(%s,%s) d0 %d d1 %d mc0 %d mc1 %d\n", m, c1, c0, delta0, delta1, mc0, mc1))
 	}
 	write7(abw.w, delta0)
@@ -1418,7 +1420,7 @@ func writeLit(w *bufio.Writer, m, t z.Lit) error {
 
 // for binary aiger coding of and deltas
 func write7(w *bufio.Writer, val uint) error {
-	for val != 0 {
+	for {
 		b := byte(val & 0x7f)
 		val = val >> 7
 		if val != 0 {
@@ -1428,8 +1430,10 @@ func write7(w *bufio.Writer, val uint) error {
 		if err != nil {
 			return err
 		}
+		if val == 0 {
+			return nil
+		}
 	}
-	return nil
 }
 
 // for binary aiger coding of and deltas
diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..3eda8d1 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -44,6 +44,6 @@ func (d *sDfs) vis(m z.Lit) {
 		d.vis(c0)
 		d.vis(c1)
 	}
-	d.fn(d.s, m)
+	d.fn(d.s, m.Var().Pos()) // gates are positive, m may not be
 	d.marks[m.Var()] = 2
 }
-- 
2.43.0


From b9b0552ed888caa4f338c9ea42c60a283db09655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 16/46] fix: aiger: keep the sign of gates which simplify when
 read

---
 logic/aiger/aiger.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 63e8e9a..a953390 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -660,7 +660,7 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
+	litMap         []z.Lit
 	AigAnds        []aigAnd
 }
 
@@ -675,14 +675,14 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		litMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.litMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	abr.litMap[int(aigerLit>>1)] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -692,16 +692,14 @@ func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
 		}
 		return abr.S.F
 	}
-	v := aigerLit >> 1
-
-	rv := abr.varMap[v]
-	if rv == 0 {
+	m := abr.litMap[aigerLit>>1]
+	if m == z.LitNull {
 		return z.LitNull
 	}
 	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
+		return m.Not()
 	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
@@ -1113,7 +1111,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag0.mapped {
-			if err := aigrdr.mapAndsRec(ag0, c0); err != nil {
+			if err := aigrdr.mapAndsRec(ag0, c0&^1); err != nil {
 				return err
 			}
 		}
@@ -1124,7 +1122,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag1.mapped {
-			if err := aigrdr.mapAndsRec(ag1, c1); err != nil {
+			if err := aigrdr.mapAndsRec(ag1, c1&^1); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 6e771e18b21be018b8d3908d78050a3226c59c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 17/46] fix: aiger: ascii and gates may have constant operands

---
 logic/aiger/aiger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a953390..e3dc890 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1009,6 +1009,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
 	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
+	aigrdr.AigAnds[0] = aigAnd{defined: true, mapped: true} // constant
 	var i uint
 	for i = 0; i < hdr.And; i++ {
 		g, gErr := readUint(r)
-- 
2.43.0


From 5f2208d960fe9bcb874107890dec82a8c4003f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 18/46] fix: aiger: ascii latch literals are bounded and may be
 named by themselves as reset

---
 logic/aiger/aiger.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index e3dc890..682174e 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -770,14 +770,19 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 	var i uint
 	for i = 0; i < hdr.Latch; i++ {
 		var m z.Lit
+		g := (hdr.In + i + 1) * 2
 		if ascii {
 			latch, latchErr := readUint(br)
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
+			g = latch
 			abr.AigLatches = append(abr.AigLatches, latch)
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(latch, m)
@@ -792,7 +797,6 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				return UnexpectedChar
 			}
 		} else {
-			g := (hdr.In + i + 1) * 2
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(g, m)
 		}
@@ -824,7 +828,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				abr.SetInit(m, abr.S.F)
 			} else if ini == 1 {
 				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
+			} else if ini == g {
 				abr.SetInit(m, 0)
 			} else {
 				return InvalidLatchInit
-- 
2.43.0


From 3f1af8030b2020de1e76821dfc1cbde8b6ce7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 19/46] fix: aiger: reading reports io errors and overflow
 instead of looping or wrapping

---
 logic/aiger/aiger.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 682174e..23d2a13 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -992,7 +992,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 		if err0 != nil {
 			return err0
 		}
-		if delta0 > id {
+		if delta0 == 0 || delta0 > id {
 			return BadDeltaEncoding
 		}
 		c0 := id - delta0
@@ -1150,6 +1150,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
@@ -1197,16 +1200,16 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	for {
 		comment, err := r.ReadString('\n')
 		// TBD: add comments api
-		if len(comment) > 0 {
-			if err == io.EOF {
+		if err == nil {
+			continue
+		}
+		if err == io.EOF {
+			if len(comment) > 0 {
 				return PrematureEOF
 			}
-			if err != nil {
-				return err
-			}
-		} else if err == io.EOF {
 			return nil
 		}
+		return err
 	}
 	panic("unreachable")
 }
@@ -1297,6 +1300,9 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 		if e == io.EOF {
 			return nil, PrematureEOF
 		}
+		if e != nil {
+			return nil, e
+		}
 		if b == '\n' {
 			if i < 5 {
 				return nil, BadHeader
@@ -1392,6 +1398,9 @@ func readUint(r *bufio.Reader) (uint, error) {
 			return 0, e
 		}
 		if b >= '0' && b <= '9' {
+			if result > (^uint(0)-9)/10 {
+				return 0, BadUInt
+			}
 			result *= 10
 			result += uint(b - '0')
 			first = false
@@ -1447,6 +1456,12 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
+		if i > 8 {
+			return 0, BadDeltaEncoding
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From dab7ca38ffe340e59e0a636ac5d517fbe3cea71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 20/46] fix: aiger: reject headers whose counts exceed the
 maximum variable

---
 logic/aiger/aiger.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 23d2a13..a7b5fc7 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1214,6 +1214,9 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	panic("unreachable")
 }
 
+// maxCount bounds the numbers in a header, as literals are 32 bits wide.
+const maxCount = 1<<30 - 1
+
 // header for aiger v 1.9
 type aigerHeader struct {
 	Binary     bool
@@ -1314,6 +1317,14 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 		}
 		wantSpace = false
 	}
+	for _, n := range counts {
+		if n > maxCount {
+			return nil, BadHeader
+		}
+	}
+	if counts[1]+counts[2]+counts[4] > counts[0] {
+		return nil, BadHeader
+	}
 	result.Max = counts[0]
 	result.In = counts[1]
 	result.Latch = counts[2]
-- 
2.43.0


From 266d7d86e93441ca539bd9573a2af49a8d984b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 21/46] fix: dimacs: filter comments in data returned together
 with an error and after empty lines

---
 dimacs/cfilt.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..078aace 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -44,9 +44,6 @@ func (s state) String() string {
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -69,7 +66,9 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b != byte('\n') {
+				state = notComment
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
@@ -95,8 +94,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && e == nil && len(buf) != 0 {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From 49fdf859f3d8e6fb4afec8799bf6e0a852908be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 22/46] fix: dimacs: the cnf reader calls Eof at the end of the
 file

---
 dimacs/cnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..d73fa7c 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -115,6 +115,7 @@ func (r *cnfReader) readBody() error {
 	for {
 		v, e = readInt(r.rdr)
 		if e == io.EOF {
+			vis.Eof()
 			return nil
 		}
 		if e != nil {
-- 
2.43.0


From e1496bd6b69804cfb283149d69b43a3a546acdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 23/46] fix: dimacs: reject a lone minus and integers which do
 not fit a literal

---
 dimacs/int.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..354b30d 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -9,6 +9,10 @@ import (
 	"io"
 )
 
+// maxInt bounds what readInt reads to what fits in a z.Lit with room for
+// one extra bit in the solver.
+const maxInt = 1<<30 - 1
+
 func readInt(rdr *bufio.Reader) (int, error) {
 	v := 0
 	m := 1
@@ -24,6 +28,15 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		v = int(c - byte('0'))
 	} else if c == byte('-') {
 		m = -1
+		if c, e = rdr.ReadByte(); e == io.EOF {
+			return 0, io.ErrUnexpectedEOF
+		} else if e != nil {
+			return 0, e
+		}
+		if c < byte('0') || c > byte('9') {
+			return 0, fmt.Errorf("bad character for int: %c", c)
+		}
+		v = int(c - byte('0'))
 	} else {
 		return 0, fmt.Errorf("bad character for int: %c", c)
 	}
@@ -41,6 +54,9 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		if c < byte('0') || c > byte('9') {
 			return 0, fmt.Errorf("bad character for int: %c", c)
 		}
+		if v > (maxInt-9)/10 {
+			return 0, fmt.Errorf("integer out of range")
+		}
 		v *= 10
 		v += int(c - byte('0'))
 	}
-- 
2.43.0


From fad97540b12769c5aad08f3326c4ea58f9e848f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 24/46] fix: dimacs: solver output may have several value
 lines, and icnf trailing blanks

---
 dimacs/icnf.go  | 2 +-
 dimacs/int.go   | 4 ++++
 dimacs/solve.go | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..f48c32b 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -34,7 +34,7 @@ func (i *iCnfReader) read() error {
 	vis := i.vis
 	assumptions := false
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
 			vis.Eof()
 			return nil
diff --git a/dimacs/int.go b/dimacs/int.go
index 354b30d..37954d9 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -49,6 +49,10 @@ func readInt(rdr *bufio.Reader) (int, error) {
 			return 0, e
 		}
 		if c == byte(' ') || c == byte('\n') || c == byte('\t') || c == byte('\r') {
+			// leave it, an end of line is significant for some callers.
+			if e := rdr.UnreadByte(); e != nil {
+				return 0, e
+			}
 			break
 		}
 		if c < byte('0') || c > byte('9') {
diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..d511b87 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -87,6 +87,9 @@ func (s *sRdr) read() error {
 				return fmt.Errorf("unexpected character '%c' at line %d\n", c, line)
 			}
 		case values:
+			if c == byte(' ') || c == byte('\t') || c == byte('\r') {
+				continue
+			}
 			if e := rdr.UnreadByte(); e != nil {
 				return e
 			}
-- 
2.43.0


From beae092b69d4c9ad13bfa8178bc3236fd29ffcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 25/46] fix: crisp: stopping a remote solve which just finished
 does not block

---
 crisp/netsolve.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crisp/netsolve.go b/crisp/netsolve.go
index 1b08713..01b7a39 100644
--- a/crisp/netsolve.go
+++ b/crisp/netsolve.go
@@ -39,7 +39,6 @@ func (s *netsolve) Try(d time.Duration) (int, error) {
 func (s *netsolve) Stop() (int, error) {
 	select {
 	case res := <-s.result:
-		s.cancel <- struct{}{}
 		return res.v, res.e
 	case s.cancel <- struct{}{}:
 		r := <-s.result
-- 
2.43.0


From c31bc03949ddfe041234ec466fe7430ee37b882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 26/46] fix: crisp: the client reports the connection errors it
 encounters

---
 crisp/client.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..bdeebfa 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -114,7 +114,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
 	if c.proto != Add {
-		c.checkState(Add)
+		if e := c.checkState(Add); e != nil {
+			return e
+		}
 	}
 	if m.Var() > c.maxVar {
 		c.maxVar = m.Var()
@@ -128,7 +130,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
-	c.checkState(Assume)
+	if e := c.checkState(Assume); e != nil {
+		return e
+	}
 	if e := c.io.send(ms); e != nil {
 		return e
 	}
@@ -226,7 +230,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(Model); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	var u uint32
 	var n uint32
@@ -276,7 +280,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(ModelFor); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -317,7 +321,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(Failed); e != nil {
-		return ms, nil
+		return ms, e
 	}
 	return c.io.recv(ms)
 }
@@ -330,7 +334,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(FailedFor); e != nil {
-		return dst, nil
+		return dst, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -361,7 +365,9 @@ func (c *Client) GetExts() (int, error) {
 		if d == 0 {
 			break
 		}
-		exts.Install(uint16(d>>16), uint8(d&0xff))
+		if _, e := exts.Install(uint16(d>>16), uint8(d&0xff)); e != nil {
+			return 0, e
+		}
 	}
 	c.exts = exts
 	return len(c.exts.D), nil
-- 
2.43.0


From ef431ee7243aa36104947e8c8ebfc40d5853df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 27/46] fix: crisp: client values are those of the last solve,
 addresses print as they parse

---
 crisp/addr.go   | 2 +-
 crisp/client.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crisp/addr.go b/crisp/addr.go
index 0679c5a..11af95b 100644
--- a/crisp/addr.go
+++ b/crisp/addr.go
@@ -30,7 +30,7 @@ func ParseAddr(s string) *Addr {
 // String puts the address back in the format provided
 // to ParseAddr.
 func (a *Addr) String() string {
-	if a.Network == "@" {
+	if a.Network == "unix" {
 		return fmt.Sprintf("@%s", a.NetAddr)
 	}
 	return fmt.Sprintf("%s", a.NetAddr)
diff --git a/crisp/client.go b/crisp/client.go
index bdeebfa..a228cb6 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -159,6 +159,9 @@ func (c *Client) MaxVar() z.Var {
 //
 //  -1 if the problem is unsatisfiable
 func (c *Client) Solve() (int, error) {
+	// models and failed assumptions are those of the last solve.
+	c.lastSat = 0
+	c.model = nil
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -299,7 +302,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
 	for i := uint32(0); i < theCap-1; i++ {
 		j := i % 32
@@ -386,6 +389,9 @@ func (c *Client) Reset() error {
 		return e
 	}
 	c.proto = Unknown
+	c.lastSat = 0
+	c.model = nil
+	c.maxVar = 0
 	return nil
 }
 
-- 
2.43.0


From 7e9c641db9f36e196778684ccbc7cacf29c030c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 28/46] fix: crisp: reject encoded integers of more than 32
 bits

---
 crisp/vu32io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..929ff6e 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -51,7 +51,9 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
-
+		if s == 28 && z > 0xf {
+			return 0, ErrVarUint // does not fit 32 bits
+		}
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
 			return res, nil
-- 
2.43.0


From 3bc3e07ee4095703a64fac0f2f274924cf1b1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 29/46] fix: crisp: the server answers result queries only for
 the result they concern

Continue and End need a running solve, models need sat and failed
assumptions unsat; other operations out of order are errors to the client
instead of crashing or leaking the running solve.
---
 crisp/handler.go | 74 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f84fbc6..39b93ac 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -30,6 +30,7 @@ type Handler struct {
 	gini      *gini.Gini
 	solveConn inter.Solve
 	proto     ProtoPoint
+	lastRes   int // result of last solve, if proto is Solve and it is finished.
 	ms        []z.Lit
 	trace     *bool
 	steps     int
@@ -70,6 +71,9 @@ func (h *Handler) serveConn(conn net.Conn) {
 	h.gini = gini.New()
 	h.proto = Unknown
 	if e := h.Crisp(); e != nil {
+		if pe, ok := e.(ProtoErr); ok && h.uio != nil {
+			h.Error(pe)
+		}
 		log.Printf("%d crisp() result error %s", h.id, e)
 	}
 	h.cleanup()
@@ -79,6 +83,7 @@ func (h *Handler) cleanup() {
 	if *h.trace {
 		log.Printf("%d cleanup\n", h.id)
 	}
+	h.endSolve()
 	h.conn.Close()
 	h.uio = nil
 	h.gini = nil
@@ -100,6 +105,9 @@ func (h *Handler) Crisp() error {
 		if *h.trace {
 			log.Printf("%d received %s\n", h.id, p)
 		}
+		if h.solveConn != nil && (p == Add || p == Assume || p == Solve || p == Ext || p == Key) {
+			return h.Error(ErrOutOfOrder)
+		}
 		switch p {
 		case Key:
 			if e := h.handleKey(); e != nil {
@@ -173,19 +181,20 @@ func (h *Handler) handleKey() error {
 	if e != nil {
 		return e
 	}
-	key := make([]uint32, n)
+	var key []uint32
 	for i := uint32(0); i < n; i++ {
 		m, e := h.uio.readu32()
 		if e != nil {
 			return e
 		}
-		key[i] = m
+		key = append(key, m)
 	}
 	// check the key
 	return nil
 }
 
 func (h *Handler) handleReset() error {
+	h.endSolve()
 	h.gini = gini.New()
 	h.proto = Unknown
 	return nil
@@ -214,7 +223,7 @@ func (h *Handler) handleAdd() error {
 			return nil
 		}
 		if m >= uint32(MinProto) {
-			return fmt.Errorf("CRISP protocol error expected data, got %s", ProtoPoint(m))
+			return h.Error(ErrNotLit)
 		}
 		g.Add(z.Lit(m))
 	}
@@ -242,20 +251,43 @@ func (h *Handler) handleSolve() error {
 }
 
 func (h *Handler) handleContinue() error {
-	if h.proto != Solve {
+	if h.solveConn == nil {
 		log.Printf("continue but not solving.\n")
-		return ErrOutOfOrder
+		return h.Error(ErrOutOfOrder)
 	}
 	return h.handleStep()
 }
 
 func (h *Handler) handleEnd() error {
-	if h.proto != Solve {
+	if h.solveConn == nil {
 		log.Printf("end but not solving\n")
-		return ErrOutOfOrder
+		return h.Error(ErrOutOfOrder)
 	}
-	h.proto = End
-	return h.sendRes(h.solveConn.Stop(), true)
+	return h.sendRes(h.endSolve(), true)
+}
+
+// endSolve ends the running solve, if any, and returns the result of the last
+// solve.
+func (h *Handler) endSolve() int {
+	if h.solveConn != nil {
+		h.lastRes = h.solveConn.Stop()
+		h.solveConn = nil
+	}
+	return h.lastRes
+}
+
+// ended returns nil if the last request which is not a query of the result is
+// a finished solve with result res, and otherwise reports err, or that
+// the request is out of order.
+func (h *Handler) ended(res int, err ProtoErr) error {
+	if h.proto != Solve || h.solveConn != nil {
+		log.Printf("result query but not solved.\n")
+		return h.Error(ErrOutOfOrder)
+	}
+	if h.lastRes != res {
+		return h.Error(err)
+	}
+	return nil
 }
 
 func (h *Handler) handleStep() error {
@@ -263,6 +295,10 @@ func (h *Handler) handleStep() error {
 	if res == 0 && done {
 		panic("Test bombed")
 	}
+	if done {
+		h.lastRes = res
+		h.solveConn = nil
+	}
 	h.steps++
 	return h.sendRes(res, false)
 }
@@ -303,9 +339,8 @@ func (h *Handler) sendRes(res int, end bool) error {
 }
 
 func (h *Handler) handleModel() error {
-	if h.proto != Solve {
-		log.Printf("model but not solving.\n")
-		return h.Error(ErrOutOfOrder)
+	if e := h.ended(1, ErrNotSat); e != nil {
+		return e
 	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
@@ -337,8 +372,8 @@ func (h *Handler) handleModel() error {
 }
 
 func (h *Handler) handleModelFor() error {
-	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+	if e := h.ended(1, ErrNotSat); e != nil {
+		return e
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -355,7 +390,7 @@ func (h *Handler) handleModelFor() error {
 	var u uint32
 	for i := uint32(0); i < N; i++ {
 		j := i % 32
-		if i < M && h.gini.Value(ms[i]) {
+		if i < M && ms[i].Var() <= h.gini.MaxVar() && h.gini.Value(ms[i]) {
 			u = u | (1 << j)
 		}
 		if j == uint32(31) {
@@ -369,9 +404,8 @@ func (h *Handler) handleModelFor() error {
 }
 
 func (h *Handler) handleFailed() error {
-	if h.proto != Solve {
-		log.Printf("failed but not solve\n")
-		return h.Error(ErrOutOfOrder)
+	if e := h.ended(-1, ErrNotUnsat); e != nil {
+		return e
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -381,8 +415,8 @@ func (h *Handler) handleFailed() error {
 }
 
 func (h *Handler) handleFailedFor() error {
-	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+	if e := h.ended(-1, ErrNotUnsat); e != nil {
+		return e
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
-- 
2.43.0


From cc84665ea1f24038e85bda934d896a4fd19e2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 30/46] fix: crisp: answering does not overwrite requests which
 are already received

---
 crisp/vu32io.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 929ff6e..003189f 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -17,13 +17,13 @@ import (
 // 2. encoding/binary keeps a separate buffer for each value, we code directly
 // to the underlying buffer of the buffered io.
 // 3. we are not safe for multiple goroutines (unliked buffered io)
-// 4. encoding/binary's buffered io needs a separate buffer for reading and
-// writing, we don't in this context.
 
 type vu32io struct {
 	rw   io.ReadWriter
-	buf  []byte
+	buf  []byte // input: buf[r:w] is read from rw but not yet consumed
 	r, w int
+	out  []byte // output: out[:n] is not yet written to rw
+	n    int
 }
 
 const (
@@ -35,7 +35,8 @@ func newVu32Io(rw io.ReadWriter) *vu32io {
 		rw:  rw,
 		r:   0,
 		w:   0,
-		buf: make([]byte, 1024)}
+		buf: make([]byte, 1024),
+		out: make([]byte, 1024)}
 }
 
 func (io *vu32io) readu32() (uint32, error) {
@@ -137,18 +138,18 @@ func (io *vu32io) readByte() (byte, error) {
 }
 
 func (io *vu32io) writeByte(b byte) error {
-	if io.r >= len(io.buf) {
+	if io.n >= len(io.out) {
 		if e := io.flush(); e != nil {
 			return e
 		}
 	}
-	io.buf[io.r] = b
-	io.r++
+	io.out[io.n] = b
+	io.n++
 	return nil
 }
 
 func (vio *vu32io) fill() error {
-	if vio.r > vio.w {
+	if vio.n > 0 {
 		return fmt.Errorf("fill without write flush")
 	}
 	if vio.r == vio.w {
@@ -172,11 +173,11 @@ func (vio *vu32io) fill() error {
 }
 
 func (io *vu32io) flush() error {
-	n := io.r
-	m := io.w
+	n := io.n
+	m := 0
 	k := 0
 	for m < n {
-		o, e := io.rw.Write(io.buf[m:n])
+		o, e := io.rw.Write(io.out[m:n])
 		m += o
 		if o > 0 {
 			k = 0
@@ -189,7 +190,6 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.r = 0
-	io.w = 0
+	io.n = 0
 	return nil
 }
-- 
2.43.0


From 736600727fbb2d3c59f024c59130c34397f42cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 31/46] fix: crisp: turning tracing on or off does not race
 with the handlers

---
 crisp/handler.go | 30 ++++++++++++++++++------------
 crisp/server.go  | 13 +++++++------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 39b93ac..1c4f137 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync/atomic"
 
 	"github.com/go-air/gini"
 	"github.com/go-air/gini/inter"
@@ -32,22 +33,27 @@ type Handler struct {
 	proto     ProtoPoint
 	lastRes   int // result of last solve, if proto is Solve and it is finished.
 	ms        []z.Lit
-	trace     *bool
+	trace     *int32 // shared with the server, atomic
 	steps     int
 }
 
-func newHandler(i int, tr *bool) *Handler {
+func newHandler(i int, tr *int32) *Handler {
 	h := &Handler{
 		id:    i,
 		proto: Unknown,
 		ms:    make([]z.Lit, 0, 1024),
 		trace: tr}
 	if os.Getenv("TRACE_CRISP") != "" {
-		*tr = true
+		atomic.StoreInt32(tr, 1)
 	}
 	return h
 }
 
+// tracing tells whether the server is currently tracing.
+func (h *Handler) tracing() bool {
+	return atomic.LoadInt32(h.trace) != 0
+}
+
 func (h *Handler) serve(cc <-chan net.Conn) {
 	for {
 		conn, ok := <-cc
@@ -55,11 +61,11 @@ func (h *Handler) serve(cc <-chan net.Conn) {
 			// shutdown, channel closed
 			return
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d start serving %+v.\n", h.id, conn)
 		}
 		h.serveConn(conn)
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d done serving.\n", h.id)
 		}
 	}
@@ -80,7 +86,7 @@ func (h *Handler) serveConn(conn net.Conn) {
 }
 
 func (h *Handler) cleanup() {
-	if *h.trace {
+	if h.tracing() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.endSolve()
@@ -102,7 +108,7 @@ func (h *Handler) Crisp() error {
 			return e
 		}
 		p := ProtoPoint(u)
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d received %s\n", h.id, p)
 		}
 		if h.solveConn != nil && (p == Add || p == Assume || p == Solve || p == Ext || p == Key) {
@@ -217,7 +223,7 @@ func (h *Handler) handleAdd() error {
 			return e
 		}
 		if m == uint32(End) {
-			if *h.trace {
+			if h.tracing() {
 				log.Printf("%d received %s\n", h.id, End)
 			}
 			return nil
@@ -309,7 +315,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Unsat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Unsat)
 		}
 		return nil
@@ -317,7 +323,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Sat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Sat)
 		}
 		return nil
@@ -329,7 +335,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(op); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Unknown)
 		}
 		return nil
@@ -452,7 +458,7 @@ func (h *Handler) handleQuit() error {
 }
 
 func (h *Handler) Error(e ProtoErr) error {
-	if *h.trace {
+	if h.tracing() {
 		log.Printf("%d <error> %s\n", h.id, e)
 	}
 	if e := h.uio.writeu32(uint32(Error)); e != nil {
diff --git a/crisp/server.go b/crisp/server.go
index 0ad87d3..4341dfe 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -9,18 +9,17 @@ import (
 	"net"
 	"os"
 	"runtime"
-	"sync"
+	"sync/atomic"
 )
 
 // Type Server houses state for a server.
 type Server struct {
 	addr       Addr
-	mu         sync.Mutex
 	listener   net.Listener
 	lastSolve  ProtoPoint
 	maxClients int
 	connChan   chan net.Conn
-	trace      bool
+	trace      int32 // shared with the handlers, atomic
 	// The thing which generates the solvers for each connection.
 }
 
@@ -75,9 +74,11 @@ func (s *Server) Serve() error {
 
 // Trace tells the server whether to trace
 func (s *Server) Trace(b bool) {
-	s.mu.Lock()
-	defer s.mu.Unlock()
-	s.trace = b
+	v := int32(0)
+	if b {
+		v = 1
+	}
+	atomic.StoreInt32(&s.trace, v)
 }
 
 // Shutdown stops listening for connections
-- 
2.43.0


From 68330823b2c40112a1bebe50edd09c3dec619900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 32/46] fix: ax: stopping ends every unit and the exchange,
 whatever they wait for

---
 ax/ax.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 0fae038..522d4a5 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -133,6 +133,7 @@ type ax struct {
 	reqChn   chan *Request
 	respChn  chan *Response
 	uRespChn chan *Response
+	done     chan struct{} // closed when stopped
 	us       []*unit
 	avail    []int
 	cap      int
@@ -147,6 +148,7 @@ func newAx(proto inter.S, cap int) *ax {
 		reqChn:   make(chan *Request),
 		respChn:  make(chan *Response),
 		uRespChn: make(chan *Response, 1),
+		done:     make(chan struct{}),
 		us:       make([]*unit, 1, cap),
 		avail:    make([]int, 1, cap),
 		cap:      cap}
@@ -189,6 +191,7 @@ func (m *ax) TryEx(req *Request) (*Response, bool) {
 }
 
 func (m *ax) Stop() {
+	close(m.done)
 	close(m.reqChn)
 }
 
@@ -252,13 +255,16 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
-	m.respChn <- resp // shouldn't block if client agrees to API
+	select {
+	case m.respChn <- resp: // shouldn't block if client agrees to API
+	case <-m.done:
+	}
 }
 
 func (m *ax) shutdown() {
 	for _, u := range m.us {
 		if u != nil {
-			u.cancel <- struct{}{}
+			close(u.cancel)
 		}
 	}
 }
@@ -352,7 +358,10 @@ func (u *unit) handleResult(req *Request, res int, c chan<- *Response) {
 	}
 
 	//log.Printf("end req %d by %d:%p\n", req.Id, u.I, u.S)
-	c <- resp
+	select {
+	case c <- resp:
+	case <-u.cancel:
+	}
 }
 
 func (u *unit) score(ms []z.Lit) int {
-- 
2.43.0


From 584c49e2c6de9a4f2c7f699ad77f9885375430c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 33/46] fix: ax: responses carry the pending count and the
 result of a solve ended by its limit

---
 ax/ax.go  | 7 +++++--
 ax/req.go | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 522d4a5..9bdadaf 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -137,6 +137,7 @@ type ax struct {
 	us       []*unit
 	avail    []int
 	cap      int
+	pending  int // number of requests without response
 }
 
 func newAx(proto inter.S, cap int) *ax {
@@ -211,6 +212,7 @@ func (m *ax) serve() {
 }
 
 func (m *ax) handleReq(req *Request) {
+	m.pending++
 	if len(m.avail) == 0 {
 		resp := <-m.uRespChn
 		m.handleResp(resp)
@@ -255,6 +257,8 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
+	m.pending--
+	resp.Pending = m.pending
 	select {
 	case m.respChn <- resp: // shouldn't block if client agrees to API
 	case <-m.done:
@@ -310,8 +314,7 @@ func (u *unit) handleReq(respChn chan<- *Response, req *Request) {
 			case <-alarm: // alarm nil/blocks if not time limit.
 				res, ok := u.Solve.Test()
 				if !ok {
-					u.Solve.Stop()
-					u.Solve = nil
+					res = u.Solve.Stop()
 				}
 				u.handleResult(req, res, respChn)
 				return
diff --git a/ax/req.go b/ax/req.go
index 90ab68c..70cf2d6 100644
--- a/ax/req.go
+++ b/ax/req.go
@@ -99,6 +99,8 @@ func (g *RequestGen) New(ms ...z.Lit) *Request {
 // Limit causes requests generated by g.New() to
 // have time limit d.
 func (g *RequestGen) Limit(d time.Duration) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
 	g.limit = d
 }
 
-- 
2.43.0


From 783239a49e98fb0413f503d59f9c88a08e048d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 34/46] fix: z: a fresh variable map never gives the null
 variable to the application

---
 z/dv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/z/dv.go b/z/dv.go
index bc3ae43..4c0f8e2 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -104,6 +104,7 @@ func (v *Vars) Inner() Lit {
 		v.free = v.free[:fl-1]
 		return res.Pos()
 	}
+	v.ensureOuterCap(0)
 	w := Var(len(v.i2o))
 	v.ensureInnerCap(w)
 	return w.Pos()
@@ -129,6 +130,7 @@ func (v *Vars) String() string {
 }
 
 func (v *Vars) ensureInnerCap(w Var) {
+	v.ensureOuterCap(0) // the null variable is never mapped
 	for u := Var(len(v.i2o)); u <= w; u++ {
 		v.i2o = append(v.i2o, 0)
 	}
-- 
2.43.0


From 1ef6055c4c538ac40f0113c2e0e20dcd1ac9f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 35/46] fix: the variable mapping wrapper does not overwrite
 the caller's assumptions

---
 sv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sv.go b/sv.go
index f6a525f..c197635 100644
--- a/sv.go
+++ b/sv.go
@@ -41,7 +41,9 @@ func (w *svWrap) FreeInner(m z.Lit) {
 }
 
 func (w *svWrap) Assume(ms ...z.Lit) {
-	w.S.Assume(w.V.ToInners(ms)...)
+	inners := make([]z.Lit, len(ms))
+	copy(inners, ms) // the caller's slice is not scratch space
+	w.S.Assume(w.V.ToInners(inners)...)
 }
 
 func (w *svWrap) Add(m z.Lit) {
-- 
2.43.0


From e613e964ebd9fda29e82234acb962cdcbf0b3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 36/46] fix: gen: coloring has one variable per node and color
 and one clause per edge and color

---
 gen/color.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..407f7da 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -17,7 +17,7 @@ import (
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
 	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+		return z.Var(n*k + c + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From 5188639e33613a3686db59fdf561a9d36e83e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 37/46] fix: gen: random graphs and cubes follow the seed of
 the package

---
 gen/color.go | 6 +++---
 gen/cubes.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 407f7da..22fdeec 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -4,8 +4,6 @@
 package gen
 
 import (
-	"math/rand"
-
 	"github.com/go-air/gini/inter"
 	"github.com/go-air/gini/z"
 )
@@ -68,9 +66,11 @@ func RandGraph(n, m int) [][]int {
 		}
 	}
 
+	mu.Lock() // for package rng
+	defer mu.Unlock()
 	for i := 0; i < m; i++ {
 		el := len(es)
-		j := rand.Intn(el)
+		j := rng.Intn(el)
 		e := es[j]
 		ns[e.a] = append(ns[e.a], e.b)
 		el--
diff --git a/gen/cubes.go b/gen/cubes.go
index 30bf224..505bfaf 100644
--- a/gen/cubes.go
+++ b/gen/cubes.go
@@ -4,8 +4,6 @@
 package gen
 
 import (
-	"math/rand"
-
 	"github.com/go-air/gini/z"
 )
 
@@ -37,13 +35,15 @@ func (c *cubes) SetMaxSize(s int) {
 }
 
 func (c *cubes) RandCube(dst []z.Lit) []z.Lit {
+	mu.Lock() // for package rng
+	defer mu.Unlock()
 	dst = dst[:0]
-	sz := c.minSize + rand.Intn(c.maxSize-c.minSize+1)
+	sz := c.minSize + rng.Intn(c.maxSize-c.minSize+1)
 	for k := range c.uniq {
 		delete(c.uniq, k)
 	}
 	for i := 0; i < sz; i++ {
-		m := z.Lit((rand.Intn(int(c.maxVar))+1)*2 + rand.Intn(2))
+		m := z.Lit((rng.Intn(int(c.maxVar))+1)*2 + rng.Intn(2))
 		if _, ok := c.uniq[m.Var()]; ok {
 			continue
 		}
-- 
2.43.0


From 49859cd71e3a518bfffebd2dbfe3f9a3d6a33bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 38/46] fix: bench: system time is reported as system time

---
 bench/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index edc9205..e0502f9 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -73,7 +73,7 @@ func Times(r *Run) (real float64, user float64, sys float64) {
 	for _, ir := range r.InstRuns {
 		real += float64(ir.Dur) / sec
 		user += float64(ir.UDur) / sec
-		real += float64(ir.SDur) / sec
+		sys += float64(ir.SDur) / sec
 	}
 	return
 }
-- 
2.43.0


From 06b7ab42cb49920df8f137834d9b093751c2bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 39/46] fix: gini: a file of unknown format is an error, not a
 panic

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5691bd4..94d2391 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -400,6 +400,10 @@ func main() {
 			continue
 		}
 		format, e := path2Format(fName)
+		if e != nil {
+			log.Println(e)
+			continue
+		}
 		log.Print(fName)
 		_, e = format.runReader(r)
 		if e != nil {
-- 
2.43.0


From 54f425d2334fcf3bd495b12933f24e405bef5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 40/46] fix: xo: a conflict at level 0 is recorded before it is
 forgotten

Solve after an unsatisfiable answer without assumptions, or Add after it,
dropped the conflict; the next Solve then derived from it at level 0, or found
a model which falsifies a clause and ended the process.
---
 internal/xo/s.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index fe4198f..804509c 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -426,6 +426,10 @@ func (s *S) Untest() int {
 		s.x = x
 		return -1
 	}
+	if s.Cdb.Bot != CNull {
+		s.x = s.Cdb.Bot
+		return -1
+	}
 	s.Trail.backWithLates(lastTestLevel)
 	if x := trail.Prop(); x != CNull {
 		s.x = x
@@ -547,6 +551,7 @@ func (s *S) ensure0() {
 	if len(s.testLevels) != 0 {
 		panic("ivalid operation under test scope")
 	}
+	s.learnBot()
 	if s.Trail.Level != 0 {
 		s.Trail.Back(0)
 	}
@@ -644,6 +649,7 @@ func (s *S) solveInit() int {
 func (s *S) cleanupSolve() z.C {
 	trail := s.Trail
 	for s.x != CNull {
+		s.learnBot()
 		if s.Cdb.Bot != CNull { // Cdb.Bot is always checked in makeAssumptions, true empty clause.
 			s.x = CNull
 			break
@@ -669,6 +675,14 @@ func (s *S) cleanupSolve() z.C {
 	return CNull
 }
 
+// a conflict without any decision or assumption never goes away: record it as
+// the empty clause before it is forgotten.
+func (s *S) learnBot() {
+	if s.x != CNull && s.Trail.Level == 0 && s.Cdb.Bot == CNull {
+		s.Cdb.Learn(nil, 0)
+	}
+}
+
 func (s *S) lastTestLevel() int {
 	if len(s.testLevels) > 0 {
 		return s.testLevels[len(s.testLevels)-1]
-- 
2.43.0


From a965f7ceee57761acbf4fee893e7a8e088842454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 41/46] fix: aiger reader accepts justice properties of any
 size

A justice property may list a literal more than once, so its size is not
bounded by the number of literals. The literals are kept as they are read, so
a wrong size does not allocate memory.
---
 logic/aiger/aiger.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a7b5fc7..b7067be 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -936,8 +936,8 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
-			return LitOOB
+		if v > maxCount { // literals may repeat
+			return BadUInt
 		}
 		counts = append(counts, int(v))
 		if err := readNL(r); err != nil {
@@ -945,8 +945,7 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 		}
 	}
 	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
+		var lits []uint // not of size c from the start, which may be wrong
 		for j := 0; j < c; j++ {
 			v, err := readUint(r)
 			if err != nil {
@@ -955,11 +954,13 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			lits = append(lits, v)
 			if err := readNL(r); err != nil {
 				return err
 			}
 		}
+		a.AigJustice = append(a.AigJustice, lits)
+		a.Justice[i] = make([]z.Lit, len(lits))
 	}
 	return nil
 }
-- 
2.43.0


From abb5d6a6191bf1df6632b681f8dd4f8c4dd2d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 42/46] fix: keep polling for stop and timeout after statistics
 were read and reset

---
 internal/xo/s.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 804509c..26c3d44 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -254,7 +254,6 @@ func (s *S) Solve() int {
 
 		// propagation ticker
 		if trail.Props > nxtTick {
-			nxtTick += PropTick
 			tick++
 			if tick%CancelTicks == 0 {
 				if s.deadline != s.startTime && time.Until(s.deadline) <= 0 {
@@ -268,6 +267,8 @@ func (s *S) Solve() int {
 					return 0
 				}
 			}
+			// reading the statistics while paused resets trail.Props.
+			nxtTick = trail.Props + PropTick
 		}
 
 		// maybe restart.
-- 
2.43.0


From 5db9d46a3f1150ffd29fe3b40089f649ad4683b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 43/46] fix: dimacs: a truncated problem statement is an error,
 not an empty formula

---
 dimacs/cnf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index d73fa7c..51f70e2 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -94,7 +94,11 @@ func (r *cnfReader) readHeader() error {
 		if e := r.rdr.UnreadByte(); e != nil {
 			return e
 		}
-		return r.readP()
+		if e := r.readP(); e != io.EOF {
+			return e
+		}
+		// unlike an empty input, a truncated problem statement is malformed.
+		return io.ErrUnexpectedEOF
 	}
 	return r.rdr.UnreadByte()
 }
-- 
2.43.0


From fa9c7c22f5cb78dff47dfaca7adaf1e630c2c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 44/46] fix: aiger: refuse inputs, latches and gates which
 define a variable again

---
 logic/aiger/aiger.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index b7067be..bfeb107 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -34,6 +34,7 @@ var (
 	SignedAnd          = errors.New("and gate def is negated")
 	CombLoop           = errors.New("combinational logic has a loop")
 	AndMultiplyDefined = errors.New("and gate multiply defined")
+	MultiplyDefined    = errors.New("literal multiply defined")
 	UndefinedLit       = errors.New("literal not defined")
 )
 
@@ -782,6 +783,9 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			if latch&1 != 0 {
 				return SignedLatch
 			}
+			if abr.litMap[latch>>1] != z.LitNull {
+				return MultiplyDefined
+			}
 			g = latch
 			abr.AigLatches = append(abr.AigLatches, latch)
 			m = abr.S.Latch(abr.S.F)
@@ -856,6 +860,9 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 		if in&1 != 0 {
 			return SignedInput
 		}
+		if aigrdr.litMap[in>>1] != z.LitNull {
+			return MultiplyDefined
+		}
 		m := aigrdr.S.Lit()
 		aigrdr.Inputs = append(aigrdr.Inputs, m)
 		aigrdr.mapLit(in, m)
@@ -1072,7 +1079,7 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 		}
 		// define the gate in terms of AigAnds
 		aa := &aigrdr.AigAnds[int(g>>1)]
-		if aa.defined {
+		if aa.defined || aigrdr.litMap[g>>1] != z.LitNull {
 			return AndMultiplyDefined
 		}
 		aa.defined = true
-- 
2.43.0


From f03cb198de9a3c775f8ac8331910afbe6c54a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 45/46] fix: ax: Stop ends the pool also while a request waits
 for a unit

With all units busy and one more request accepted, the dispatcher waited for
a unit without looking whether the pool was stopped, so that Stop did not
cancel the running solves until one of them ended by itself.
---
 ax/ax.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 9bdadaf..88c6ce3 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -214,8 +214,12 @@ func (m *ax) serve() {
 func (m *ax) handleReq(req *Request) {
 	m.pending++
 	if len(m.avail) == 0 {
-		resp := <-m.uRespChn
-		m.handleResp(resp)
+		select {
+		case resp := <-m.uRespChn:
+			m.handleResp(resp)
+		case <-m.done:
+			return // serve shuts down the units
+		}
 	}
 	u := m.getunit(req)
 	//log.Printf("start request %d by %d\n", req.Id, u.I)
-- 
2.43.0


From 51126f652beda97df355c99be0d632543b2e5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:36 +0000
Subject: [PATCH 46/46] fix: xo: removing clauses keeps the literals of a
 clause which is being added

---
 internal/xo/cdb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index c7b2f6e..219dacc 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -258,7 +258,7 @@ func (c *Cdb) Size(p z.C) int {
 // clause garbage collection.
 func (c *Cdb) Unlink(rms []z.C) {
 	d := c.CDat.D
-	wLits := c.AddLits
+	wLits := make([]z.Lit, 0, 2*len(rms))
 	wVals := c.AddVals
 	rMap := make(map[z.C]bool, len(rms))
 	for _, p := range rms {
@@ -296,7 +296,6 @@ func (c *Cdb) Unlink(rms []z.C) {
 	for _, m := range wLits {
 		wVals[m.Var()] = 0
 	}
-	c.AddLits = c.AddLits[:0]
 }
 
 func (c *Cdb) SetTracer(t Tracer) {
-- 
2.43.0

