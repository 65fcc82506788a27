#!/usr/bin/env python3
"""Writes known_findings.txt (by hand, never by a check)."""
import subprocess
def rev(s): return subprocess.check_output(["git","-C","/repo","rev-parse","--short",s],text=True).strip()
NEG="SingularQuery (serde_json_path_core/src/spec/selector/filter.rs): a negative index in a singular query that is an operand of a comparison or a function argument selects nothing, e.g. $[?@[-1]==1] on [[1]] (file under spec/, which commits here may not touch)"
ORD="ComparisonExpr::test_filter (spec/selector/filter.rs): <= and >= are false for two missing nodes, and >, >= (and <=) hold between two values of the same kind that are neither numbers nor strings (true > false, [1] > [2], {} >= {\"a\":1}) (file under spec/)"
DEEP="value_equal_to (spec/selector/filter.rs): numbers inside arrays and objects are compared by representation, e.g. [1] == [1.0] is false (file under spec/)"
K=[]
for p in ["C02","C03","C04","C13"]:
    K+= [(p,"neg-index",NEG),(p,"ordering",ORD),(p,"deep-num",DEEP)]
K+=[("C10","display-dots","Display for QuerySegment / Segment (serde_json_path_core/src/spec/segment.rs): a shorthand name or wildcard after `..` is displayed with a third dot, e.g. $..a as $...a, which is not a query (file under spec/)"),
("C10","display-not","Display for the negated function expression (spec/selector/filter.rs): the `!` is left out, e.g. $[?!match(@,'a')] is displayed as $[?match(@,'a')] (file under spec/)"),
("C10","display-quotes","Display for Name and Literal (spec/selector/name.rs, filter.rs): names and string literals are displayed without escapes, e.g. $[\"it's\"] as $['it's'] (file under spec/)")]
L=[("6a1ecc9","C07","a truncated \\u escape in a string literal, e.g. $['\\u12, made the parser panic"),
("9043991","C06","high surrogates with lower-case hex digits (\\ud83d\\ude00) were rejected"),
("39bf035","C09","names with quotes, backslashes or control characters gave invalid normalized paths"),
("9a829f3","C05","blank space before a descendant segment ($ ..a) was rejected"),
("74a4a41","C05","function names of one character were rejected"),
("69abb3f","C12","Locations and Nodes reported no exact size hint, so that ExactSizeIterator::len panicked"),
("ddad3ed","C18","expected and received number of arguments were swapped in the error"),
("df41e68","C05","functions whose name begins with true, false or null could not be called"),
("a275c1c","C04","the invalid expression a)|(b was accepted by match"),
("6188953","C17","parsing nested filters took exponential time"),
("fbb930a","C05","logical expressions as function arguments were rejected"),
("d534a50","C13","functions without parameters could not be called"),
("1d4e861","C04","&& and ~~ in character classes ([a&&b]) were taken for set operations"),
("c24dfe5","C13","functions whose name or parameters are called v, or with a parameter called like the function, did not compile"),
("0840f9e","C18","errors in the right operand of a comparison, e.g. $[?@.a==foo(@)], and of incomparable functions on the left were reported as `parser error`"),
("d908cfb","C13","(clean-up after the repair of clashing names: a part of the macro that is not used any more)"),
("fe1e230","C19","the function attribute could not be used without depending on serde_json_path_macros as well"),
("d55ff44","C19","visibility, attributes, where clauses and qualifiers of a registered function were dropped"),
("9d5a252","C19","the attribute's expansion depended on the names in scope (Ok, String, TryFrom) and panicked on raw identifiers"),
("1af0504","C19","types in parentheses and types passed through a macro_rules macro ($t:ty) were rejected"),
]
o="# Findings on hiltontj/serde_json_path. `known:` lines are expected on the unchanged tree; `fixed:` lines suppress nothing.\n"
for p,k,d in K: o+=f"known: property={p} key={k} {d}\n"
for c,p,d in L: o+=f"fixed: property={p} {rev(c)} {d}\n"
open("/verif/known_findings.txt","w").write(o)
