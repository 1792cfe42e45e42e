#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md.in, the properties, the notes, the fixed defects and tools/caught.json."""
import glob, json, os, re
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
notes = json.load(open(f"{V}/tools/notes.json"))
caught = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
text = open(f"{V}/tools/design.md.in").read()
ORACLE = {
 "P01": "a pool is a size and a set of naturals; a labelled set a sequence of labels and a pool. Refinement `Words -> Set` is the design model's invariant",
 "P02": "the lexicographically ordered sequence of all increasing k-tuples, defined recursively, independent of the odometer",
 "P03": "the defining equations of division, gcd, divisibility, primality over exact integers",
 "P04": "pairs numerator/denominator with cross multiplication over big integers",
 "P05": "functions on naturals with finite support; products by composition",
 "P06": "the same functions on 0..n-1; order as least common multiple of cycle lengths",
 "P07": "functions basis -> coefficient with finite support",
 "P08": "total functions of indices; views as index maps; exact fractions",
 "P09": "the dense function a sparse matrix denotes",
 "P10": "R*A*C = S with R, C invertible (recorded inverses verified by multiplication), divisibility chain, and S determined by determinantal divisors",
 "P11": "rank over the rationals by the largest non-vanishing minor (small) or modulo three primes (large); Betti numbers from ranks",
 "P12": "the set of all faces (closed under subsets)",
 "P13": "homology from the specification's own Smith elimination; listed cycles are cycles, boundaries are boundaries, together a basis",
 "P14": "the set of two-element edges on 0..n-1",
 "P15": "the depth-first labelling as the set of admissible labellings of the recorded multigraph (any base point/branch order), the subdivision condition of Abrams/Farley-Sabalka",
 "P16": "all products of disjoint vertices and edges with the right number of factors; boundary = sum of signed faces",
 "P17": "Farley-Sabalka gradient field; critical cells, flow and Morse boundary by the limit of the flow; homology compared with the whole complex",
 "P18": "token motions on the graph: legality, endpoints, induced permutation and a normal form of the homotopy class",
 "P19": "a multiset of unordered pairs; adjacency, degree and Laplacian by counting",
 "P20": "exact in-circle, orientation and betweenness determinants (also for collinear points)",
 "P21": "the denoted real function by exact truncated Taylor series in several variables",
 "P22": "exact minors, residuals and norm bounds in fixed point",
 "P23": "elementary symmetric functions of the eigenvalues = sums of principal minors; residuals; conjugation",
 "P24": "exact Gram determinants: size reduction, Lovasz condition; a unimodular change of basis",
 "P25": "the printed text as a function of the value (string operators in TLA+); for symbolic functions the value of the expression read from the text",
 "P26": "set-theoretic definitions on the vertices spanned by a factor and the tree of largest smaller neighbours",
}
out = []
for p in props:
    i = p["id"]
    src = open(f"{V}/vt/{i.lower()}.py").read() if os.path.exists(f"{V}/vt/{i.lower()}.py") else ""
    cfgs = sorted(set(re.findall(r'"([A-Za-z_0-9]+\.cfg)"', src)))
    mods = sorted(set(re.findall(r'"([A-Z][A-Za-z_]+)",\s*"[A-Za-z_0-9]+\.cfg"', src)) | {c[:-4] for c in cfgs if c.endswith("_Trace.cfg")})
    out.append(f"### {i} {p['title']}\n\n- Specification: {', '.join('`' + m + '`' for m in mods)} ({', '.join(cfgs)}).\n"
               f"- Oracle: {ORACLE.get(i, '')}.\n- Explored: {notes['checks'][i]['note']}\n- Beyond the tests: {p['why_tests_cant']}\n")
bugs = []
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    bugs.append(f"| `{b}` | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(b, '?')} |")
text = text.replace("@@PROPS@@", "\n".join(out))
text = text.replace("@@FIXED@@", "\n".join("- " + f.replace("fixed: property=", "") for f in json.load(open(f"{V}/known_findings.json"))["fixed"]))
text = text.replace("@@BUGS@@", "| bug | property | what breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(bugs))
text = text.replace("@@MISSED@@", "\n".join(f"- `{k}`: {v}" for k, v in notes.get("missed", {}).items()))
open(f"{V}/DESIGN.md", "w").write(text)
