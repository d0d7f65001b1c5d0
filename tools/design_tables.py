import json,glob,os,re
s=open('/verif/DESIGN.md').read()
rows=[
("V01–V03","`PVec`","every history of ≤ Depth calls (push, pop, insert, remove, update, slice, split, concat, extend, bulk, chunk, sort, drain, functional ops…) from vectors built in one of several ways (back, front, joined); after each: content, length, every index, iterators from both ends, all older versions (V02), pairs of versions by ==/cmp/hash with elements that are not equal to themselves or equal without being identical (V03)","Q: starts 0–200 + 2047…4160 (depth 1), hooked 2-way tree 0–9, depth 2; T: depth 3, hooked 0–17; recorded histories up to 300 (Q) / 5000 (T) elements; sparsely-read histories with drops and 6 threads","35–200 s / 5–12 min"),
("M01","`Memo`→`MemoSpec`","every schedule of n threads × k requests (get, clear) with ≤ s preemptions; free-running and sequential histories, many keys, keys whose hashes collide","Q: 2×2, 3×1; T: 2×3, 3×2, 4×1","59 s / 5 min"),
("I01, I02","`Eff` (io, iofail)","every program of ≤ size nodes (pure, effect, map, bind, then, apply, lift2, sequence, recover, attempt, try…), each program run several times; one value used at several places (share), values that run themselves again from inside (rec)","Q 5, T 6 / 5; recorded size 40","20 s / 3 min"),
("I03","`Once`→`OnceSpec`","every schedule of n threads running one shared one-shot IO r times, also where its future runs another one-shot (chains of up to 3)","Q: 2×2, 3×1, chains 2×1; T: 2×3, 3×2, 4×1, chains 2×2","60 s / 8 min"),
("A01, A02","`Async`","every task tree of ≤ size nodes and every order in which its pending steps may finish; one computation used at several places, clones running at once, executions that give different values, runs dropped half-way","Q 5/4, T 6/5; recorded size 14","23 s / 4 min"),
("S01, S02, R01, W01","`Eff` (state, statet×4 bases, reader, readert×2, writer)","as I01, over each base monad and several initial states/environments per program","Q 5, T 6 (5 for StateT); recorded size 40","10–25 s / 2–5 min"),
("C01","`Cont`","every program with call_cc/escapes/shift-like nesting, run with several final continuations","Q 5, T 6; recorded size 40","20 s / 5 min"),
("D01","`Valid` + Data, Mono, Conv, Utils","every path of ≤ Depth operations from each kind of value","Q 2, T 3; recorded 40–60","44 s / 4 min"),
("D02, D04, D08, D11","`Data` (groups law, alt, fold, own)","for each of 7–9 types (and two implemented in the harness for D11) every operation, in every form, over every small value; laws as invariants","Q 1–3, T +1","34–55 s / 3 min"),
("D03","`Choice` + Data, Mono, Conv","paths over choices, including out-of-range indices, equal labels, values with colliding hashes; what the caller's function is run on, lazy binds taken in part","Q 2, T 3","62 s / 5 min"),
("D05, D06","`Mono`","32 semigroups/monoids: binary ops, n-fold combination, powers up to 62, folds from both sides, intersperse, wrappers' defaults, two-sided ties","Q 2, T 3–4","61, 25 s / 6 min"),
("D07","`Pred`","a stack machine over predicates: every expression of ≤ MaxLen operators, evaluated at every point","Q 5, T 6","18 s / 2 min"),
("D09","`Conv`","paths of conversions between containers","Q 3, T 5","22 s / 3 min"),
("D10","`Utils`","every list of ≤ MaxLen items with any pattern of failing/absent items through every traversal, pipeline and lazy adaptor","Q 4, T 10; recorded 30–40","27 s / 3 min"),
("E01, E02","`Err` (error, pipe)","paths over error values (contexts, codes, formatting, chains) and over pipelines (map, and_then, recover, context…)","Q 3, T 4","24, 21 s / 2–4 min"),
("O01","`Optics`","paths over structures through lenses, prisms and their compositions","Q 3, T 4","35 s / 2 min"),
("O02","`Iso`","every composition tree of isomorphisms of ≤ Size nodes on every small value, their lifts into optics, law checkers","Q 4, T 5","20 s / 2 min"),
("F01","`Arrow`","every arrow term of ≤ size nodes, run on several data per term, laws with the term in each position","Q 5, T 6; recorded 40–60","39 s / 11 min"),
("F02","`Eval`","paths over thunks, evaluators and comonadic values","Q 5, T 7","40 s / 2 min"),
]
tab="\n".join("| "+" | ".join(r)+" |" for r in rows)
s=re.sub(r"(\|---\|---\|---\|---\|---\|\n)(.*?)\n\n### What", lambda m:m.group(1)+tab+"\n\n### What", s, flags=re.S)
kf=json.load(open('/verif/known_findings.json'))['findings']
fx="\n".join("* **%s** `%s` %s"%re.match(r"fixed: property=(\S+) (\S+) (.*)",f['what']).groups() for f in kf if f['status']=='fixed')
s=re.sub(r"(recorded in `known_findings.json`:)(.*?)\n\nKnown finding", lambda m:m.group(1)+"\n\n"+fx+"\n\nKnown finding", s, flags=re.S)
sd="Every bug below is reported by the check of its own property (quick tier).\n\n| bug | property | what it breaks |\n|---|---|---|\n"
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); sd+="| %s | %s | %s |\n"%(os.path.basename(d),m['property'],m['what_it_breaks'])
i=s.index("`tools/mkseed.py`"); j=s.index("\n\n",i) 
s=s[:j]+"\n\n"+sd
open('/verif/DESIGN.md','w').write(s)
