#!/usr/bin/env python3
"""writes contracts/kw.vc: pairwise distinctness of the keyword literals, proved from their characters"""
KW="""not if then else contains additionalProperties propertyNames additionalItems unevaluatedProperties unevaluatedItems
contentSchema allOf anyOf oneOf prefixItems items properties patternProperties dependentSchemas $defs definitions
$ref $schema $id type format enum const example examples default nullable required title description null string object array number integer boolean
pattern minItems maxItems minimum maximum uniqueItems minLength maxLength false true Ok Err""".split()
out=["@@ generated by tools/mkkw.py","@verus"]
out.append("pub open spec fn kwid(s: Seq<char>) -> int {\n  "+" else ".join(f'if s == "{k}"@ {{ {i} }}' for i,k in enumerate(KW))+" else { -1 }\n}")
def rev(k): return f'reveal_strlit("{k}");'
# group by length: distinctness inside a group by a differing character
out.append("pub proof fn lemma_kwid()\n  ensures\n"+"".join(f'    kwid("{k}"@) == {i},\n' for i,k in enumerate(KW))+"{\n  "+" ".join(rev(k) for k in KW))
for i,a in enumerate(KW):
    for b in KW[:i]:
        if len(a)==len(b):
            d=next(j for j in range(len(a)) if a[j]!=b[j])
            out.append(f'  assert("{a}"@[{d}] != "{b}"@[{d}]);')
out.append("}")
open("/verif/contracts/kw.vc","w").write("\n".join(out)+"\n")
