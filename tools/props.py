#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))

SHAPE = "shape analysis (abstract interpretation over the SSA of the current source, with per-element list summaries and trace partitioning) compared with a specification derived from the types"

prop("A01", "Substitution and renaming act on every part of a formula",
     "Substituting a metavariable, a bound variable, a term or a type variable in a formula, or renaming its bound variables, yields the same formula with the operation applied to every subformula, term and type argument in its place, and with nothing else changed. Renaming gives each bound variable a new name that is used both at the binder and at every occurrence. The operation reports a replacement exactly when one of the parts had one.",
     ["inputs"], "every formula, variable, metavariable, term and type; every connective and quantifier",
     "The unit tests apply a few substitutions to hand-written formulas; a connective, argument position or nesting they do not contain is never substituted.",
     ["src/AST/formsDef.go", "src/AST/quantifiers.go", "src/AST/formula.go", "src/AST/form-list.go"],
     [("SubstTy, ReplaceMetaByTerm, SubstituteVarByMeta, ReplaceTermByTerm, RenameVariables of every formula type", "src/AST/formsDef.go, src/AST/quantifiers.go"), ("replaceTermInTermList", "src/AST/formula.go")],
     SHAPE, "Static, for all inputs, per constructor; leaf terms by kind. The freshness of the new names is property A06.")

prop("A02", "Substitution and instantiation act on every part of a term or type",
     "Replacing a term in a term replaces every occurrence, at any depth and in every argument position, and changes nothing else. Substituting a type variable or instantiating a polymorphic type reaches every component, replaces exactly the variable sought, and pairs the n-th variable with the n-th argument. Types and terms convert into one another symbol for symbol and argument for argument.",
     ["inputs"], "every term, type, sought term and replacement",
     "Tests replace one occurrence in small terms; a term with several occurrences or a deeper position is not covered (the tool replaced only the first occurrence until it was repaired here).",
     ["src/AST/termsDef.go", "src/AST/term-list.go", "src/AST/ty-syntax.go", "src/AST/typed-vars.go"],
     [("ReplaceSubTermBy, SubstTy of every term and type", "src/AST/termsDef.go, src/AST/ty-syntax.go"), ("ReplaceOccurrence", "src/AST/term-list.go"), ("InstantiateTy", "src/AST/ty-syntax.go")],
     SHAPE, "Static, for all inputs, per constructor.")

prop("A03", "No metavariable, subterm or subformula of an expression is overlooked",
     "The set of metavariables of a formula or term contains the metavariables of all its parts, also after any substitution or copy (a remembered set is used only while it is valid). The subterms, subformulas and children reported for an expression include those of all its parts. Simplifying negations removes them only in pairs.",
     ["inputs", "histories"], "every formula and term, after any sequence of operations on it",
     "Tests look at metavariables of fresh formulas; a stale remembered set only shows after a particular sequence of substitutions, and makes Skolem terms miss dependencies.",
     ["src/AST/formsDef.go", "src/AST/quantifiers.go", "src/AST/termsDef.go", "src/Lib/cache.go"],
     [("forceGetMetas, GetMetas, GetMetaList, GetSubTerms, GetSubFormulasRecur, GetChildFormulas", "src/AST/formsDef.go, src/AST/termsDef.go"), ("Cache", "src/Lib/cache.go")],
     SHAPE, "Static, for all inputs, per constructor.")

prop("A04", "Equality and copying of expressions take every part into account",
     "Two formulas, terms or types compare equal only if they have the same constructor and all their identifying parts are equal, and they do compare equal if all those parts are. A copy has exactly the parts of the original.",
     ["inputs"], "every pair of formulas, terms and types",
     "Tests compare a few pairs; an argument, type argument or bound variable that the comparison skips is only noticed on a pair that differs there alone.",
     ["src/AST/formsDef.go", "src/AST/quantifiers.go", "src/AST/termsDef.go", "src/AST/ty-syntax.go", "src/AST/typed-vars.go"],
     [("Equals and Copy of every formula, term and type", "src/AST")],
     SHAPE, "Static, for all pairs of constructors. Identity of variables, symbols and metavariables is by index.")

prop("A05", "Formulas, terms and types are never changed in place",
     "No operation that reads or transforms a formula, term or type changes the one it was given: its parts, lists of arguments and bound variables stay as they were. Several branches of the search may therefore share an expression.",
     ["inputs", "schedules"], "every operation on every expression, from any number of branches at once",
     "Aliasing shows only when the original is used after the operation, by another branch; tests use each expression once.",
     ["src/AST/form-list.go", "src/AST/formsDef.go", "src/AST/termsDef.go", "src/AST/term-list.go", "src/AST/quantifiers.go", "src/AST/ty-syntax.go"],
     [("value receivers and list helpers of the expression types", "src/AST"), ("LsSubstByTerm", "src/AST/form-list.go")],
     "effect analysis on top of the shape analysis: writes into memory reachable from the arguments", "Static, for all inputs; methods on pointer receivers update their receiver by design and are left out.")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P + NA, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            for fl in p["files"]:
                assert os.path.exists(os.path.join("/repo", fl)), fl
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']} quick", "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
                     "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in sorted(P, key=lambda p: p["id"])],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NA, key=lambda p: p["id"])]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
main()
