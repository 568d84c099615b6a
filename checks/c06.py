"""C06: reading a damaged or truncated file returns a value or an error, never crashes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dmg import *

QUICK = TIER != "thorough"
BITS = [1 << i for i in range(8)]


def big_cases():
    """Clusters of many chunks, clusters of which the decoding outlives the reading, big value stores."""
    out = []
    for comp in (["zstd", 1], ["lz4", 1], ["lzma", 0]):
        out.append({"label": "many chunks/%s" % comp[0], "mode": "one", "comp": comp, "dir": one_store_dir(60),
                    "contents": [txt(70000, 1), txt(5, 2), txt(200000, 3), {"g": ["z", 50000, 0], "hint": "y"}]})
    out.append({"label": "many raw", "mode": "two", "comp": ["none"], "dir": one_store_dir(300), "contents": [noise(3000, i) for i in range(20)]})
    return out


def run(chk):
    r = random.Random(SEED * 1000 + 6)
    model(chk, "SyncVec", "SyncVec_B.cfg")
    model(chk, "SyncVec", "SyncVec_C.cfg")
    for i in (4, 5):
        model_bad(chk, "SyncVec", "SyncVec_bad%d.cfg" % i)
    if not QUICK:
        model(chk, "SyncVec", "SyncVec_D.cfg")
    cases = [(c, b"") for c in small_cases()]
    cases.append((dict(cases[1][0], label="prefixed one/zstd"), bytes(range(33, 240))))
    nsmall = len(cases)
    cases += [(c, b"") for c in wide_cases()]
    cases += [(c, b"") for c in chunk_cases() + big_cases()]
    nbig = len(cases)
    cases += [(rand_case(r, i=i), b"") for i in range(30 if QUICK else 400)]
    for prof in ("dev", "release"):
        b = build(prof)
        with Scratch("c06") as d, Pool(b, d) as p:
            M = Maker(p, d)
            for a in range(0, len(cases), 24):
                ts = []
                for i, (c, pre) in list(enumerate(cases))[a:a + 24]:
                    t = Target(M, c, pre)
                    if not t.ok:
                        chk.add(creations_refused=1)
                        continue
                    size = sum(len(x) for x in t.data)
                    t.req["linger"] = 10
                    if i < nsmall:
                        masks = [r.choice(BITS), 0xff, r.randrange(1, 256)] if QUICK else BITS + [0xff, 0x55, r.randrange(1, 256)]
                        batches = list(t.sweep(masks)) + list(t.truncations()) + list(t.listed(
                            t.garbage(r, 20) + t.random_alts(r, 300 if QUICK else 6000) + t.blanks()))
                    elif i < nbig:
                        n = 400 if QUICK else 3000
                        al = t.single(r, n) + t.random_alts(r, n // 2) + [
                            {"f": f, "trunc": r.randrange(len(t.data[f]))} for f in range(len(t.data)) for _ in range(n // 4)]
                        batches = list(t.listed(al, 40))
                    else:
                        n = 120 if "wide" in c["label"] else (40 if QUICK else 150) if size < 60000 else 8
                        al = t.single(r, n) + t.random_alts(r, n) + [
                            {"f": f, "trunc": r.randrange(len(t.data[f]))} for f in range(len(t.data)) for _ in range(n)]
                        batches = list(t.listed(al, 50))
                    ev, groups, bad = run_alts(p, t, batches)
                    t.close()
                    chk.add(alterations=sum(len(x[1]) for x in groups), containers=1, crashes=len(bad))
                    for g in ev["groups"]:
                        g["alts"] = [[] for _ in g["alts"]]
                    ts.append((t, ev, groups, bad))
                    if i in (0, nsmall):
                        chk.sample({"case": c["label"], "profile": prof, "files": [len(x) for x in t.data],
                                    "results": [[g[0]["all"], len(g[1])] for g in groups[:3]]})
                judge_damage(chk, "C06", ts, "c06 " + prof)
                if len(chk.viol) > 8:
                    return


if __name__ == "__main__":
    main(run, "C06", "fault_enumeration")
