"""C16: the compression hint decides how a content is stored."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from congen import *

QUICK = TIER != "thorough"
LENS = [0, 1, 2, 3, 17, 100, 240, 250, 255, 256, 257, 1000, 4095, 4096, 4097, 5000, 9000]


def table(r):
    """hint x entropy x compression x dedup, pairs of contents."""
    for comp in COMPS:
        for h1 in "ynd":
            for h2 in "ynd":
                for k1 in "trezh":
                    for dedup in (False, True):
                        n1, n2 = r.choice(LENS), r.choice(LENS)
                        g1, g2 = [k1, n1, r.randrange(99)], [r.choice("trezhp"), n2, r.randrange(99)]
                        if r.randrange(3) == 0:
                            g2 = g1
                        yield {"label": "pair %s %s%s %s %s" % (comp, h1, h2, k1, dedup), "mode": r.choice(["one", "two", "none"]), "comp": comp,
                               "dedup": dedup, "dir": EMPTY_DIR, "contents": [
                                   {"g": g1, "hint": h1, "src": r.choice(["mem", "file", "range", "tail"])},
                                   {"g": g2, "hint": h2, "src": r.choice(["mem", "file", "range", "tail"])}]}


def session(r, i):
    n = r.choice([3, 6, 12, 30])
    cs = []
    for _ in range(n):
        cs.append({"g": [r.choice("zctrehpx"), r.choice(LENS), r.randrange(256)], "hint": r.choice("ynd"),
                   "src": r.choice(["mem", "file", "range", "tail"])})
        if len(cs) > 1 and r.randrange(3) == 0:
            cs[-1]["g"] = r.choice(cs)["g"]
    c = {"label": "session %d" % i, "mode": r.choice(["one", "two", "none"]), "comp": r.choice(COMPS), "dedup": bool(r.randrange(2)),
         "dir": EMPTY_DIR, "contents": cs}
    if r.randrange(3) == 0:
        c["extra"] = [{"id": 2, "comp": r.choice(COMPS), "contents": [dict(x) for x in r.sample(cs, min(3, n))]}]
    return c


def multi(r, i):
    """Several clusters of each kind: the sizes force splits of the compressed clusters (and dedup over 4 MiB, which streams)."""
    MB = 1 << 20
    cs = []
    for _ in range(r.choice([3, 5, 7])):
        cs.append({"g": [r.choice("ct"), r.choice([MB, 2 * MB, 3 * MB, 4 * MB - 1, 4 * MB, 4 * MB + 1, 5 * MB]), r.randrange(250)],
                   "hint": r.choice("yynd"), "src": r.choice(["mem", "file", "range", "tail"])})
        if len(cs) > 1 and r.randrange(3) == 0:
            cs[-1]["g"] = r.choice(cs)["g"]
    return {"label": "multi %d" % i, "mode": "one", "comp": r.choice([["zstd", 1], ["lz4", 1], ["none"]]), "dedup": bool(r.randrange(2)),
            "dir": EMPTY_DIR, "contents": cs}


def from_model(m, r):
    MB = 1 << 20
    return {"label": "model %s" % [(c["size"], c["hint"]) for c in m["contents"]], "mode": "one", "comp": r.choice([["zstd", 1], ["lz4", 1]]),
            "dedup": bool(r.randrange(2)), "dir": EMPTY_DIR, "contents": [
                {"g": ["c", c["size"] * MB, 1 + i], "hint": c["hint"], "src": "mem"} for i, c in enumerate(m["contents"])]}


def blobs(r, i):
    """More contents than a cluster takes, hints mixed."""
    cs, seed = [], 0
    for _ in range(r.choice([2, 3])):
        cs.append({"g": [r.choice("rt"), r.choice([2, 3, 9]), seed], "hint": r.choice("ynd"), "rep": r.choice([2000, 4095, 4096])})
        seed += 5000
    return {"label": "blobs %d" % i, "mode": "one", "comp": r.choice([["zstd", 1], ["lz4", 0], ["none"]]), "dedup": bool(r.randrange(2)),
            "dir": EMPTY_DIR, "contents": cs}


def run(chk):
    model(chk, "ContentPack", "ContentPack_A.cfg")
    model(chk, "ContentPack", "ContentPack_B.cfg")
    r = random.Random(SEED * 1000 + 16)
    b = build()
    cs, res = tlc_emit("ContentPack", "ContentPack_emit.cfg")
    chk.add(states=res["distinct"], transitions=res["states"], models_checked=1)
    seqs = list({json.dumps(m["contents"]): m for m in cs}.values())
    t = list(table(r))
    cases = r.sample(t, 500) if QUICK else t * 2
    cases += [session(r, i) for i in range(300 if QUICK else 4000)]
    cases += [multi(r, i) for i in range(30 if QUICK else 300)]
    cases += [from_model(m, r) for m in (r.sample(seqs, 80) if QUICK else seqs)]
    cases += [blobs(r, i) for i in range(4 if QUICK else 24)]
    with Scratch("c16") as d, Pool(b, d) as p:
        M = Maker(p, d)
        for i in range(0, len(cases), 1500):
            part = cases[i:i + 1500]
            ev = M.events(part)
            judge_format(chk, "C16", part, ev, "c16")
            for c, e in list(zip(part, ev))[-2:]:
                chk.sample({"case": c["label"], "contents": len(e["adds"])})
            chk.add(contents=sum(len(e["adds"]) for e in ev))


if __name__ == "__main__":
    main(run, "C16", "translation_validation")
