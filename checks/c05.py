"""C05: damaged metadata is reported, never silently decoded into different values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dmg import *

QUICK = TIER != "thorough"
BITS = [1 << i for i in range(8)]


def run(chk):
    r = random.Random(SEED * 1000 + 5)
    b = build()
    model(chk, "DamageModel", "DamageModel_B.cfg")
    for i in ((1, 2, 3) if QUICK else range(1, 8)):
        model_bad(chk, "DamageModel", "DamageModel_bad%d.cfg" % i)
    cases = [(c, b"") for c in small_cases()]
    cases.append((dict(cases[1][0], label="prefixed one/zstd"), bytes(range(33, 240))))
    cases += [(c, b"") for c in chunk_cases()]
    nsmall = len(cases)
    cases += [(c, b"") for c in wide_cases()]
    for i in range(60 if QUICK else 600):
        c = rand_case(r, i=i)
        if QUICK or i % 2:
            c["dir"] = dense_dir(r)
        cases.append((c, b""))
    with Scratch("c05") as d, Pool(b, d) as p:
        M = Maker(p, d)
        for a in range(0, len(cases), 24):
            ts = []
            for i, (c, pre) in list(enumerate(cases))[a:a + 24]:
                t = Target(M, c, pre)
                if not t.ok:
                    chk.add(creations_refused=1)
                    continue
                size = sum(len(x) for x in t.data)
                if i < nsmall:
                    masks = ([0xff] + BITS if QUICK else range(1, 256)) if size < 5000 else [r.randrange(1, 256)]
                    batches = list(t.sweep(masks)) + list(t.listed(t.random_alts(r, 600 if QUICK else 8000))) + list(t.listed(t.blanks()))
                else:
                    n = 150 if "wide" in c["label"] else (60 if QUICK else 250) if size < 60000 else 10
                    batches = list(t.listed(t.random_alts(r, n) + t.single(r, 2 * n), 30))
                ev, groups, bad = run_alts(p, t, batches)
                t.close()
                chk.add(alterations=sum(len(x[1]) for x in groups), containers=1, crashes=len(bad),
                        values_compared=(ev["base"] or {}).get("keys", 0) * sum(len(x[1]) for x in groups))
                ts.append((t, ev, groups, []))
                if i in (0, nsmall):
                    chk.sample({"case": c["label"], "files": [len(x) for x in t.data], "results": [[g[0], len(g[1])] for g in groups[:3]]})
            judge_damage(chk, "C05", ts, "c05")
            if len(chk.viol) > 8:
                break


if __name__ == "__main__":
    main(run, "C05", "fault_enumeration")
