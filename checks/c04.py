"""C04: created packs verify; any later change to checksummed bytes makes the check fail."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dmg import *

QUICK = TIER != "thorough"
BITS = [1 << i for i in range(8)]


def run(chk):
    r = random.Random(SEED * 1000 + 4)
    b = build()
    model(chk, "DamageModel", "DamageModel_A.cfg")
    model(chk, "DamageModel", "DamageModel_C.cfg")
    for i in ((4, 5, 6, 7) if QUICK else range(1, 8)):
        model_bad(chk, "DamageModel", "DamageModel_bad%d.cfg" % i)
    cases = [(c, b"") for c in small_cases()]
    cases.append((dict(cases[1][0], label="prefixed one/zstd"), bytes(range(33, 240))))
    cases += [(c, b"") for c in chunk_cases()]
    nsmall = len(cases)
    cases += [(c, b"") for c in wide_cases()]
    cases += [(rand_case(r, big=i % 8 == 0, i=i), b"") for i in range(60 if QUICK else 600)]
    with Scratch("c04") as d, Pool(b, d) as p:
        M = Maker(p, d)
        for a in range(0, len(cases), 24):
            ts, refused = [], 0
            for i, (c, pre) in list(enumerate(cases))[a:a + 24]:
                t = Target(M, c, pre)
                if not t.ok:
                    # creation which fails is C01's matter
                    refused += 1
                    continue
                size = sum(len(x) for x in t.data)
                if i < nsmall:
                    masks = ([1, 0xff, r.choice(BITS[1:])] if QUICK else BITS + [0xff, 0x55]) if size < 5000 else [r.randrange(1, 256)]
                    batches = list(t.sweep(masks)) + list(t.listed(t.random_alts(r, 300 if QUICK else 5000))) + list(t.listed(t.blanks()))
                    forged = t.forged([1, r.randrange(2, 256)] if QUICK else BITS + [0xff])
                else:
                    n = 200 if "wide" in c["label"] else (25 if QUICK else 120) if size < 200000 else 6
                    batches = list(t.listed(t.random_alts(r, n) + t.single(r, n), 20))
                    forged = t.forged([r.randrange(1, 256)], r, n)
                ev, groups, bad = run_alts(p, t, batches)
                # a crash on a damaged file is not a success of the check: C06 judges it
                e2, g2, bad2 = run_alts(p, t, t.listed(forged, 100), 20, strict=False)
                t.close()
                chk.add(alterations=sum(len(x[1]) for x in groups), forged_alterations=sum(len(x[1]) for x in g2), crashes=len(bad) + len(bad2),
                        containers=1)
                ts.append((t, dict(ev, groups=ev["groups"] + e2["groups"]), groups + g2, []))
                if i in (0, nsmall):
                    chk.sample({"case": c["label"], "files": [len(x) for x in t.data], "results": [[g[0], len(g[1])] for g in groups[:3]]})
            judge_damage(chk, "C04", ts, "c04")
            if refused:
                chk.add(creations_refused=refused)
            if len(chk.viol) > 8:
                break


if __name__ == "__main__":
    main(run, "C04", "fault_enumeration")
