#!/usr/bin/env python3
"""writes contracts/dnames.vc: pairwise distinctness of the keywords and of the names in derive/corpus.rs, proved from their characters"""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
t = open(os.path.join(HERE, "mkkw.py")).read()
KW = re.search(r'KW="""(.*?)"""', t, re.S).group(1).split()
KW = [k for k in KW if k not in ("false", "true", "Ok", "Err", "$id", "if", "then", "else", "example")]
NAMES = """deprecated readOnly writeOnly x-a a b c d t firstName x-y out in field_one fieldOne two
One 2 Unit New Tup Rec Gone In Out U V first_unit new tup rec gone
Ok Err Included Excluded Unbounded start end secs nanos secs_since_epoch nanos_since_epoch Unix Windows Left Right Mon Tue Wed Thu Fri Sat Sun
FIRST-NAME first-unit first_name A F First Second Half""".split()
ALL = KW + NAMES
out = ["@@ generated by tools/mkdnames.py", "@verus"]
out.append("pub open spec fn did(s: Seq<char>) -> int {\n  " + " else ".join(f'if s == "{k}"@ {{ {i} }}' for i, k in enumerate(ALL)) + " else { -1 }\n}")
out.append("pub proof fn lemma_dnames()\n  ensures\n" + "".join(f'    did("{k}"@) == {i},\n' for i, k in enumerate(ALL)) + "{\n  " + " ".join(f'reveal_strlit("{k}");' for k in ALL))
for i, a in enumerate(ALL):
    for b in ALL[:i]:
        if len(a) == len(b):
            d = next(j for j in range(len(a)) if a[j] != b[j])
            out.append(f'  assert("{a}"@[{d}] != "{b}"@[{d}]);')
out.append("}")
open(os.path.join(HERE, "..", "contracts", "dnames.vc"), "w").write("\n".join(out) + "\n")
