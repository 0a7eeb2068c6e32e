From 00f6adc14b24cc1c3ea2b7605bb81c43e6235ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 01/25] fix: substituting a term replaces every occurrence, not
 only the first argument

Fun.ReplaceSubTermBy rewrote only the first argument containing the term, so
f(X,X) under X -> a became f(a,X): a metavariable bound by one branch stayed
free in the others.
---
 src/AST/term-list.go | 27 ---------------------------
 src/AST/termsDef.go  |  2 +-
 2 files changed, 1 insertion(+), 28 deletions(-)

diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index ab4d882..b555a94 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -54,33 +54,6 @@ func GetMetasOfList(tl Lib.List[Term]) Lib.Set[Meta] {
 	return res
 }
 
-/*
-Replace the first occurence of a term by another in the list
-*/
-func replaceFirstOccurrenceTermList(
-	tl Lib.List[Term],
-	replaceThis, withThis Term,
-) (Lib.List[Term], bool) {
-	res := Lib.MkList[Term](tl.Len())
-	updated := false
-
-	for i := range tl.GetSlice() {
-		candidate := tl.At(i)
-
-		// FIXME: should [res.At(i)] be copied? I don't think so but we'll see.
-		modifiedTerm := candidate.ReplaceSubTermBy(replaceThis, withThis)
-
-		if !tl.At(i).Equals(modifiedTerm) && !updated {
-			updated = true
-			candidate = modifiedTerm
-		}
-
-		res.Upd(i, candidate)
-	}
-
-	return res, updated
-}
-
 /*
 Replace all occurences of a term by another in the list
 */
diff --git a/src/AST/termsDef.go b/src/AST/termsDef.go
index 5ceef28..43d097d 100644
--- a/src/AST/termsDef.go
+++ b/src/AST/termsDef.go
@@ -196,7 +196,7 @@ func (f Fun) ReplaceSubTermBy(oldTerm, newTerm Term) Term {
 	if f.Equals(oldTerm) {
 		return newTerm.Copy()
 	} else {
-		tl, res := replaceFirstOccurrenceTermList(f.GetArgs(), oldTerm, newTerm)
+		tl, res := ReplaceOccurrence(f.GetArgs(), oldTerm, newTerm)
 		nf := MakeFun(f.GetID(), f.GetTyArgs(), tl, f.metas.Raw())
 		if !res && !f.metas.NeedsUpd() {
 			nf.metas.AvoidUpd()
-- 
2.43.0


From c535700a38c9274e1c9062ee3f30644c20beb302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 02/25] fix: Set.Filter keeps the elements that satisfy the
 predicate

The set returned by Add was dropped, so the result was always empty.
---
 src/Lib/sets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index be86e7d..6ed4d68 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -322,7 +322,7 @@ func (s Set[T]) Filter(pred Func[T, bool]) Set[T] {
 	res := EmptySet[T]()
 	for _, x := range s.Elements().GetSlice() {
 		if pred(x) {
-			res.Add(x)
+			res = res.Add(x)
 		}
 	}
 	return res
-- 
2.43.0


From 7b3ff7bca08d43d849fb23aeb167273b721f224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 03/25] fix: adding to or removing from a set leaves the
 original set as it was

insert, remove and the rotations updated the nodes shared with the original
set. Typing contexts share their sets between sibling subformulas, which are
checked in parallel: the original context lost variables, and well-typed
problems were rejected.
---
 src/Lib/sets.go | 52 ++++++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index 6ed4d68..973f3bf 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -77,6 +77,17 @@ func mkNode[T Ordered](x T) *Node[T] {
 	return n
 }
 
+// Sets share their nodes, so a node is never updated once built: an operation
+// builds new nodes along the path that it changes.
+func mkBranch[T Ordered](left *Node[T], x T, right *Node[T]) *Node[T] {
+	return &Node[T]{
+		height: 1 + max(height(left), height(right)),
+		left:   left,
+		right:  right,
+		value:  x,
+	}
+}
+
 func balance[T Ordered](node *Node[T]) int {
 	if node == nil {
 		return 0
@@ -84,26 +95,14 @@ func balance[T Ordered](node *Node[T]) int {
 	return height(node.left) - height(node.right)
 }
 
-func newHeight[T Ordered](node *Node[T]) int {
-	return 1 + max(height(node.left), height(node.right))
-}
-
 func rotateLeft[T Ordered](w *Node[T]) *Node[T] {
 	n := w.left
-	w.left = n.right
-	n.right = w
-	w.height = newHeight(w)
-	n.height = newHeight(n)
-	return n
+	return mkBranch(n.left, n.value, mkBranch(n.right, w.value, w.right))
 }
 
 func rotateRight[T Ordered](w *Node[T]) *Node[T] {
 	n := w.right
-	w.right = n.left
-	n.left = w
-	w.height = newHeight(w)
-	n.height = newHeight(n)
-	return n
+	return mkBranch(mkBranch(w.left, w.value, n.left), n.value, n.right)
 }
 
 func rebalance[T Ordered](node *Node[T]) *Node[T] {
@@ -115,8 +114,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 			return rotateLeft(node)
 		} else {
 			// Unbalanced by right child of left child
-			node.left = rotateRight(node.left)
-			return rotateLeft(node)
+			return rotateLeft(mkBranch(rotateRight(node.left), node.value, node.right))
 		}
 	}
 	if nodeBalance < -1 {
@@ -125,8 +123,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 			return rotateRight(node)
 		} else {
 			// Unbalanced by left child of right child
-			node.right = rotateLeft(node.right)
-			return rotateRight(node)
+			return rotateRight(mkBranch(node.left, node.value, rotateLeft(node.right)))
 		}
 	}
 
@@ -142,11 +139,10 @@ func insert[T Ordered](node *Node[T], x T) *Node[T] {
 	}
 
 	if x.Less(node.value) {
-		node.left = insert(node.left, x)
+		node = mkBranch(insert(node.left, x), node.value, node.right)
 	} else {
-		node.right = insert(node.right, x)
+		node = mkBranch(node.left, node.value, insert(node.right, x))
 	}
-	node.height = newHeight(node)
 
 	return rebalance(node)
 }
@@ -164,9 +160,9 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 	}
 
 	if x.Less(node.value) {
-		node.left = remove(node.left, x)
+		node = mkBranch(remove(node.left, x), node.value, node.right)
 	} else if node.value.Less(x) {
-		node.right = remove(node.right, x)
+		node = mkBranch(node.left, node.value, remove(node.right, x))
 	} else {
 		if node.left == nil || node.right == nil {
 			n := node.left
@@ -180,8 +176,7 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 			}
 		} else {
 			newVal := minValue(node.right)
-			node.value = newVal
-			node.right = remove(node.right, newVal)
+			node = mkBranch(node.left, newVal, remove(node.right, newVal))
 		}
 	}
 
@@ -189,7 +184,6 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 		return nil
 	}
 
-	node.height = newHeight(node)
 	return rebalance(node)
 }
 
@@ -233,11 +227,7 @@ func nodeCpy[T Ordered](node *Node[T]) *Node[T] {
 		return node
 	}
 
-	newNode := mkNode(node.value)
-	newNode.left = nodeCpy(node.left)
-	newNode.right = nodeCpy(node.right)
-
-	return newNode
+	return mkBranch(nodeCpy(node.left), node.value, nodeCpy(node.right))
 }
 
 // End internal
-- 
2.43.0


From 215a86e1308ff31716122b69a79748f37ea0f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 04/25] fix: a proof is printed as text, not used as a format
 string

---
 src/Search/print_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Search/print_proof.go b/src/Search/print_proof.go
index 69cf734..50bead9 100644
--- a/src/Search/print_proof.go
+++ b/src/Search/print_proof.go
@@ -83,5 +83,5 @@ func (ps *OutputProofStruct) printProofWithProofStruct(finalProof []ProofStruct,
 		f.WriteString(output)
 	}
 
-	fmt.Printf("\n" + output)
+	fmt.Print("\n" + output)
 }
-- 
2.43.0


From 232c39424cbfb7618ec64c477511a1a713c98b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 05/25] fix: type check a problem whose types only come from
 included files

---
 src/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.go b/src/main.go
index 4f51ef7..1085825 100644
--- a/src/main.go
+++ b/src/main.go
@@ -258,6 +258,7 @@ func StatementListToFormula(
 
 			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
 			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
+			is_typed_problem = is_typed_problem || is_typed
 			containsEquality = containsEquality || contEq
 			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
 				actual_new_lstm,
-- 
2.43.0


From 83310aeb7f43ac49b5a96a4de92664017875fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 06/25] fix: an unexpected character is a syntax error, not the
 end of the input

---
 src/Parser/tptp_lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 8ed6630..2024c77 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -825,6 +825,8 @@ func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
 		return token
 	}
 
+	// FAILURE_TOKEN is the end of the input for the parser
+	lexer.Error(fmt.Sprintf("unexpected character %q", lexer.c))
 	return FAILURE_TOKEN
 }
 
-- 
2.43.0


From 3a0cfad1624eb6a91ce0600236f9a9921bbe5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 07/25] fix: each type Skolem constant is a new symbol

---
 src/Core/skolemisation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index e894780..2524988 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -128,7 +128,7 @@ func realSkolemize(
 	var res AST.Form
 
 	if AST.IsTType(x.GetTy()) {
-		id := AST.MakerId("skoTy")
+		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
 		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
 	} else {
-- 
2.43.0


From da588acf498cbf15f6d24e3aa6372430cb3c7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 08/25] fix: check the type of functional terms against the
 type their context expects

---
 src/Typing/rules.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 96c0e16..295e108 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -128,7 +128,7 @@ func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 		)
 
 	case AST.Fun:
-		return checkFunctional(
+		return checkOutputType(t, ty) && checkFunctional(
 			con,
 			t.GetID().GetName(),
 			t.GetTyArgs(),
@@ -211,6 +211,41 @@ func typecheckType(con Con, ty AST.Ty) bool {
 	return false
 }
 
+// Integers are accepted where rationals or reals are expected, and rationals where reals are.
+func isCoercible(from, to AST.Ty) bool {
+	switch {
+	case from.Equals(AST.TInt()):
+		return to.Equals(AST.TRat()) || to.Equals(AST.TReal())
+	case from.Equals(AST.TRat()):
+		return to.Equals(AST.TReal())
+	}
+	return false
+}
+
+// Checks that [fun] builds a term of type [expected]. An unknown symbol is reported by [checkFunctional].
+func checkOutputType(fun AST.Fun, expected AST.Ty) bool {
+	switch instance := QueryEnvInstance(fun.GetID().GetName(), fun.GetTyArgs()).(type) {
+	case Lib.Some[AST.Ty]:
+		out := instance.Val
+		if functional_ty, ok := out.(AST.TyFunc); ok {
+			out = AST.GetOutTy(functional_ty)
+		}
+		if !out.Equals(expected) && !isCoercible(out, expected) {
+			Glob.Fatal(
+				label,
+				fmt.Sprintf(
+					"Term %s has type %s but should have type %s",
+					fun.ToString(),
+					out.ToString(),
+					expected.ToString(),
+				),
+			)
+			return false
+		}
+	}
+	return true
+}
+
 func checkFunctional(
 	con Con,
 	name string,
-- 
2.43.0


From 8bd68517b6c1d1d94f2a67b37c7b6cf8b4537f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 09/25] fix: removing a formula removes it from the
 dependencies

---
 src/Mods/gs3/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 6f534e4..2918a94 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -480,7 +480,7 @@ func (gs *GS3Proof) removeDependency(form AST.Form) {
 			nb_rm := 0
 			for i, f := range v.Snd.GetSlice() {
 				if f.Equals(form) {
-					removed.RemoveAt(i - nb_rm)
+					removed = removed.RemoveAt(i - nb_rm)
 					nb_rm++
 				}
 			}
-- 
2.43.0


From 6a73173f776d7e01dcafa8dd7b60ce115c4fdac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 10/25] fix: pruning metavariables removes their bindings from
 the local unifiers

---
 src/Core/global_unifier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Core/global_unifier.go b/src/Core/global_unifier.go
index aea67a6..a9aa4fd 100644
--- a/src/Core/global_unifier.go
+++ b/src/Core/global_unifier.go
@@ -215,7 +215,8 @@ func (u *Unifier) PruneMetasInSubsts(metas Lib.Set[AST.Meta]) {
 			}
 			switch id := index.(type) {
 			case Lib.Some[int]:
-				u.localUnifiers[i].Fst.RemoveAt(id.Val)
+				unif.Fst = unif.Fst.RemoveAt(id.Val)
+				u.localUnifiers[i].Fst = unif.Fst
 			}
 		}
 	}
-- 
2.43.0


From 78909543f9a2eaf6679bc729dee210b4942e9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 11/25] fix: the reintroduction limit given by -l also holds
 for problems with includes

---
 src/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.go b/src/main.go
index 1085825..f48ecf0 100644
--- a/src/main.go
+++ b/src/main.go
@@ -153,10 +153,6 @@ func presearchLoader() (AST.Form, int) {
 		}),
 	)
 
-	if Glob.GetLimit() != -1 {
-		bound = Glob.GetLimit()
-	}
-
 	form, bound, contEq, is_typed_include := StatementListToFormula(
 		actual_statements,
 		bound,
@@ -164,6 +160,10 @@ func presearchLoader() (AST.Form, int) {
 	)
 	containsEquality = containsEquality || contEq
 
+	if Glob.GetLimit() != -1 {
+		bound = Glob.GetLimit()
+	}
+
 	if !containsEquality {
 		Glob.SetPlugin("equality", false)
 		Glob.PrintInfo("EQU", "Plugin Equality disabled")
-- 
2.43.0


From 45bf0020e5a88aeee8bea278ecaadfcf6bfb48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 12/25] fix: substituting in a conjunction or disjunction
 leaves the original formula as it was

---
 src/AST/form-list.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/AST/form-list.go b/src/AST/form-list.go
index 4472f74..97440fd 100644
--- a/src/AST/form-list.go
+++ b/src/AST/form-list.go
@@ -42,10 +42,9 @@ import (
 
 // ex-name: ReplaceMetaByTerm
 func LsSubstByTerm(formulas Lib.List[Form], meta Meta, term Term) Lib.List[Form] {
-	for i, f := range formulas.GetSlice() {
-		formulas.Upd(i, f.ReplaceMetaByTerm(meta, term))
-	}
-	return formulas
+	return Lib.ListMap(formulas, func(f Form) Form {
+		return f.ReplaceMetaByTerm(meta, term)
+	})
 }
 
 func FlattenAnd(formulas Lib.List[Form]) Lib.List[Form] {
-- 
2.43.0


From 5c9ae693016d177a04eea35f3966546f0deb3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 13/25] fix: instantiating or Skolemising a type variable
 reaches the types of the remaining bound variables

---
 src/Core/instanciation.go | 3 +++
 src/Core/skolemisation.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Core/instanciation.go b/src/Core/instanciation.go
index 4b1373b..d0eeb3f 100644
--- a/src/Core/instanciation.go
+++ b/src/Core/instanciation.go
@@ -84,6 +84,9 @@ func RealInstantiate(
 	if AST.IsTType(v.GetTy()) {
 		meta := AST.MkTyMeta(strings.ToUpper(v.GetName()), index)
 		subForm = subForm.SubstTy(v.ToTyBoundVar(), meta)
+		varList = Lib.ListMap(varList, func(p AST.TypedVar) AST.TypedVar {
+			return p.SubstTy(v.ToTyBoundVar(), meta)
+		})
 		m = Lib.MkNone[AST.Meta]()
 	} else {
 		meta := AST.MakerMeta(strings.ToUpper(v.GetName()), index, v.GetTy())
diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index 2524988..aaa70dc 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -130,7 +130,11 @@ func realSkolemize(
 	if AST.IsTType(x.GetTy()) {
 		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
-		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
+		skoTy := AST.MkTyConst(id.ToString())
+		res = deltaForm.SubstTy(x.ToTyBoundVar(), skoTy)
+		allVars = Lib.ListMap(allVars, func(p AST.TypedVar) AST.TypedVar {
+			return p.SubstTy(x.ToTyBoundVar(), skoTy)
+		})
 	} else {
 		selectedSkolemization, res = selectedSkolemization.Skolemize(
 			initialForm,
-- 
2.43.0


From 77f2049f4ae44e02dd4281eaeb269e18ae426830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 14/25] fix: a forbidden substitution stays forbidden when
 another one closes the branch

---
 src/Search/rules.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/Search/rules.go b/src/Search/rules.go
index b9b490b..43b5f49 100644
--- a/src/Search/rules.go
+++ b/src/Search/rules.go
@@ -88,15 +88,8 @@ func ApplyClosureRules(form AST.Form, state *State) (bool, Lib.List[Lib.List[Uni
 		for _, subst := range matchSubsts {
 			debug(Lib.MkLazy(func() string { return fmt.Sprintf("MSL : %v", subst.ToString()) }))
 
-			if subst.IsSubstsEmpty() {
+			if subst.IsSubstsEmpty() || !searchForbidden(state, subst.MatchingSubstitutions()) {
 				result = true
-			} else {
-				if !searchForbidden(state, subst.MatchingSubstitutions()) {
-					result = true
-				}
-			}
-
-			if result {
 				debug(
 					Lib.MkLazy(func() string {
 						return fmt.Sprintf(
-- 
2.43.0


From 587b36b90e411ee714a3122a00977c25065c6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 15/25] fix: metavariables below a function symbol of a
 substitution belong to the father too

---
 src/AST/term-list.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index b555a94..d248f6f 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -46,9 +46,7 @@ func GetMetasOfList(tl Lib.List[Term]) Lib.Set[Meta] {
 	res := Lib.EmptySet[Meta]()
 
 	for _, term := range tl.GetSlice() {
-		if typed, ok := term.(Meta); ok {
-			res = res.Add(typed)
-		}
+		res = res.Union(term.GetMetas())
 	}
 
 	return res
-- 
2.43.0


From 06b8f4e1de97a3115afe4b247eeecba3bf340ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 16/25] fix: backtracking on a substitution makes it the
 current one

When the children refuse a substitution and the next one is sent to them, the
refused one stayed the current substitution: the one that failed next was never
forbidden, and the answers of the children were compared with the wrong one.
---
 src/Search/child_management.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index 90afaee..85b3041 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -297,6 +297,7 @@ func (ds *destructiveSearch) manageOpenedChild(args wcdArgs) {
 		// Mutually exclusive cases: when a backtrack is done on substitutions, this backtrack is prioritised from now on.
 		args.st.SetBTOnFormulas(false)
 		args.overwrite = false
+		args.currentSubst = newSubst
 		ds.waitChildren(args)
 	} else {
 		debug(
-- 
2.43.0


From fb0b1bf60f3ba0bb60ff0d23a50deebfb903f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 17/25] fix: a problem is type-checked when a typed symbol
 occurs below an untyped one

---
 src/Engine/syntax-translation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 404aab9..d80e0af 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -185,7 +185,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 				func(p Lib.Pair[Parser.PTerm, Parser.PType]) Parser.PType { return p.Snd })
 			typed_args = elaborateDefinedFunctionals(con, pform.Symbol(), tys, args)
 		} else {
-			is_typed = !typed_args.Empty()
+			is_typed = is_typed || !typed_args.Empty()
 		}
 
 		return con, AST.MakerPred(
@@ -350,7 +350,7 @@ func elaborateTerm(con Context, t, source_term Parser.PTerm) (Context, AST.Term,
 				func(p Lib.Pair[Parser.PTerm, Parser.PType]) Parser.PType { return p.Snd })
 			typed_args = elaborateDefinedFunctionals(con, pterm.Symbol(), tys, args)
 		} else {
-			is_typed = !typed_args.Empty()
+			is_typed = is_typed || !typed_args.Empty()
 		}
 
 		fun := AST.MakerFun(
-- 
2.43.0


From fff61147238340ec89e2b6f01704f64c694b936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 18/25] fix: dmt: keep an implication from which no rewrite
 rule is made as an axiom

---
 src/Mods/dmt/axiom_registration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 9bcbc09..d43be33 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -229,7 +229,10 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 		return false
 	}
 
+	consumed := false
+
 	if isAtomic(phi1) {
+		consumed = true
 		if Glob.Is[AST.Pred](phi1) {
 			addPosRewriteRule(phi1, phi2)
 		} else {
@@ -240,6 +243,7 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 	// This line currently blocks the generation of a rewrite rule if there is
 	// an equality atom on the right-side of the formula.
 	if isAtomic(phi2) && !isEqualityPred(phi2) {
+		consumed = true
 		if Glob.Is[AST.Pred](phi2) {
 			addNegRewriteRule(phi2, AST.MakerNot(phi1))
 		} else {
@@ -247,7 +251,7 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 		}
 	}
 
-	return true
+	return consumed
 }
 
 // End rewrite rule from implicated formula.
-- 
2.43.0


From e7210b499a1823fce330b530c001d1025e820abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 19/25] fix: dmt: the truth constants are not atoms to rewrite

---
 src/Mods/dmt/axiom_registration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index d43be33..9ed9417 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -175,8 +175,12 @@ func makeRewriteRuleFromEquivalence(equForm AST.Equ) bool {
 	return addEquRewriteRuleIfNotEquality(f1, f2)
 }
 
+// Only the literals over a predicate can be rewritten: the truth constants cannot.
 func isAtomic(f AST.Form) bool {
-	return Core.ShowKindOfRule(f) == Core.Atomic
+	if not, ok := f.(AST.Not); ok {
+		f = not.GetForm()
+	}
+	return Glob.Is[AST.Pred](f)
 }
 
 func areBothAtomics(f1, f2 AST.Form) bool {
-- 
2.43.0


From 750703c6de52f1eee08b73b0031306ddc5da1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 20/25] fix: dmt: register only the axioms that became rewrite
 rules

---
 src/Mods/dmt/axiom_registration.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 9ed9417..2a06c9d 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -54,15 +54,17 @@ func InitDebugger() {
 func RegisterAxiom(axiom AST.Form) bool {
 	axiomFT := instanciateForalls(axiom)
 
+	consumed := false
 	if isRegisterableAsEqu(axiomFT) {
-		registeredAxioms.Append(axiom)
-		return makeRewriteRuleFromEquivalence(axiomFT.(AST.Equ))
+		consumed = makeRewriteRuleFromEquivalence(axiomFT.(AST.Equ))
 	} else if isRegisterableAsImplication(axiomFT) {
-		registeredAxioms.Append(axiom)
-		return makeRewriteRuleFromImplication(axiomFT.(AST.Imp))
+		consumed = makeRewriteRuleFromImplication(axiomFT.(AST.Imp))
 	}
 
-	return false
+	if consumed {
+		registeredAxioms.Append(axiom)
+	}
+	return consumed
 }
 
 func instanciateForalls(axiom AST.Form) AST.Form {
-- 
2.43.0


From f940a6e19ac6dcd26405677e4661e1b4109ba837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 21/25] fix: AST: look up and add a symbol in one critical
 section

---
 src/AST/maker.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index 427701e..a492cdb 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -89,21 +89,24 @@ func ResetMeta() {
 /* ID maker */
 func MakerId(s string) Id {
 	lock_term.Lock()
-	i, ok := idTable[s]
-	lock_term.Unlock()
-	if ok {
+	defer lock_term.Unlock()
+	if i, ok := idTable[s]; ok {
 		return MakeId(i, s)
-	} else {
-		return MakerNewId(s)
 	}
+	return newId(s)
 }
 
 func MakerNewId(s string) Id {
 	lock_term.Lock()
+	defer lock_term.Unlock()
+	return newId(s)
+}
+
+/* Should be called with lock_term held. */
+func newId(s string) Id {
 	idTable[s] = cpt_term
 	id := MakeId(cpt_term, s)
 	cpt_term += 1
-	lock_term.Unlock()
 	return id
 }
 
@@ -131,23 +134,12 @@ func MakerNewVar(s string) Var {
 /* Meta maker */
 func MakerMeta(s string, formula int, ty Ty) Meta {
 	lock_term.Lock()
-	i, ok := occurenceMeta[s]
-	lock_term.Unlock()
-	if ok {
-		lock_term.Lock()
-		occurenceMeta[s] = i + 1
-		new_index := cpt_term
-		cpt_term += 1
-		lock_term.Unlock()
-		return MakeMeta(new_index, i, s, formula, ty)
-	} else {
-		lock_term.Lock()
-		occurenceMeta[s] = 1
-		new_index := cpt_term
-		cpt_term += 1
-		lock_term.Unlock()
-		return MakeMeta(new_index, 0, s, formula, ty)
-	}
+	defer lock_term.Unlock()
+	i := occurenceMeta[s]
+	occurenceMeta[s] = i + 1
+	new_index := cpt_term
+	cpt_term += 1
+	return MakeMeta(new_index, i, s, formula, ty)
 }
 
 /* Const maker (given a id, create a fun without args) */
-- 
2.43.0


From e3b2742944a95b8a5c72ea03f3592e1cae3c3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 22/25] fix: Glob: return the node number that was taken under
 the lock

---
 src/Glob/helper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Glob/helper.go b/src/Glob/helper.go
index fcf7d91..59ef58d 100644
--- a/src/Glob/helper.go
+++ b/src/Glob/helper.go
@@ -195,8 +195,9 @@ func GetCptNode() int {
 func IncrCptNode() int {
 	lock_cpt_node.Lock()
 	cpt_node++
+	res := cpt_node
 	lock_cpt_node.Unlock()
-	return GetCptNode()
+	return res
 }
 
 func GetDMTBeforeEq() bool {
-- 
2.43.0


From 8571e1160bd6946e67c8b03883272be7d9121bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 23/25] fix: Core: Skolemise under a lock, so that no Skolem
 symbol is forgotten

---
 src/Core/skolemisation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index aaa70dc..034d08f 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -33,6 +33,8 @@ package Core
 
 import (
 	"fmt"
+	"sync"
+
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Core/Sko"
 	"github.com/GoelandProver/Goeland/Glob"
@@ -72,6 +74,7 @@ import (
  **/
 
 var selectedSkolemization Sko.Skolemization = Sko.MkOuterSkolemization()
+var skolemizationMutex sync.Mutex
 
 const (
 	isNegAll = iota
@@ -136,12 +139,14 @@ func realSkolemize(
 			return p.SubstTy(x.ToTyBoundVar(), skoTy)
 		})
 	} else {
+		skolemizationMutex.Lock()
 		selectedSkolemization, res = selectedSkolemization.Skolemize(
 			initialForm,
 			deltaForm,
 			x,
 			metas,
 		)
+		skolemizationMutex.Unlock()
 	}
 
 	switch typ {
-- 
2.43.0


From da50c961116faabf308ac8115aa9deef63d8dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 24/25] fix: assisted: read the status list under its lock

---
 src/Mods/assisted/rules.go  | 2 +-
 src/Mods/assisted/status.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Mods/assisted/rules.go b/src/Mods/assisted/rules.go
index cdce682..fa73816 100644
--- a/src/Mods/assisted/rules.go
+++ b/src/Mods/assisted/rules.go
@@ -114,7 +114,7 @@ func applyAtomicRule(state Search.State, fatherId uint64, c Search.Communication
 			applySubstsAssisted(listSubsts2[subChoice])
 		}
 
-		if len(status) > 0 {
+		if hasStatusElements() {
 			nextStep <- true
 		} else {
 			nextStep <- false
diff --git a/src/Mods/assisted/status.go b/src/Mods/assisted/status.go
index e5a92b9..c2f7bf6 100644
--- a/src/Mods/assisted/status.go
+++ b/src/Mods/assisted/status.go
@@ -59,6 +59,13 @@ func addStatusElement(se *StatusElement) {
 	status = append(status, se)
 }
 
+func hasStatusElements() bool {
+	lockStatus.Lock()
+	defer lockStatus.Unlock()
+
+	return len(status) > 0
+}
+
 func removeStatusElement(id int) {
 	lockStatus.Lock()
 	defer lockStatus.Unlock()
-- 
2.43.0


From 68acf81ab2a9866789dd6c4cfe001fae301b64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 25/25] fix: sateq: take the number of a class under a lock

---
 src/Mods/equality/sateq/termrep.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/termrep.go b/src/Mods/equality/sateq/termrep.go
index 244a577..3f1eb19 100644
--- a/src/Mods/equality/sateq/termrep.go
+++ b/src/Mods/equality/sateq/termrep.go
@@ -34,6 +34,7 @@ package sateq
 import (
 	"cmp"
 	"fmt"
+	"sync"
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
@@ -58,6 +59,7 @@ func makeUnorderedPair[T Ordered[T]](x, y T) unorderedPair[T] {
 }
 
 var eqClassCounter = 0
+var eqClassMutex sync.Mutex
 
 type eqClass struct {
 	id     int
@@ -109,9 +111,11 @@ func (e *eqClass) congruent(e2 *eqClass) bool {
 }
 
 func makeEqClass() *eqClass {
+	eqClassMutex.Lock()
 	r := eqClass{id: eqClassCounter, parent: nil, size: 1}
-	r.parent = &r
 	eqClassCounter++
+	eqClassMutex.Unlock()
+	r.parent = &r
 
 	return &r
 }
-- 
2.43.0

