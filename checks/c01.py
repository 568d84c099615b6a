"""C01: stored content reads back byte-identical at the address returned on insertion."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from congen import *

QUICK = TIER != "thorough"
MB = 1 << 20


def seq_case(m, r, i):
    """A terminal state of ContentPack (sizes in quarters of the limit of a compressed cluster)."""
    cs = []
    for c in m["contents"]:
        n = c["size"] * MB
        # exactly at the limit, one byte more or less
        n = max(0, n + r.choice([0, 0, -1, 1])) if n else 0
        cs.append({"g": [r.choice("ct"), n, r.randrange(256)], "hint": c["hint"], "src": r.choice(["mem", "file", "range", "tail"])})
    return {"label": "model %s" % [(c["size"], c["hint"]) for c in m["contents"]], "mode": "one", "contents": cs,
            "comp": r.choice([["zstd", 1], ["lz4", 1], ["zstd", -7]]), "dir": EMPTY_DIR, "dedup": r.randrange(4) == 0}


def blob_case(m, r, i):
    """One content of the model stands for 1365 contents (3 * 1365 = 4095 blobs fill a cluster)."""
    cs, seed = [], 0
    for c in m["contents"]:
        cs.append({"g": [r.choice("rt"), r.choice([0, 1, 3, 20]), seed], "hint": c["hint"], "rep": 1365 + r.choice([0, 0, 0, 1, -1])})
        seed += 1400
    return {"label": "blobs %s" % [c["hint"] for c in m["contents"]], "mode": r.choice(["one", "two", "none"]), "contents": cs,
            "comp": r.choice([["zstd", 1], ["lz4", 1], ["none"]]), "dir": EMPTY_DIR, "dedup": r.randrange(6) == 0}


LENS = [0, 1, 2, 3, 4, 5, 15, 16, 17, 63, 64, 65, 100, 200, 230, 239, 240, 245, 250, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1000,
        4095, 4096, 4097, 8191, 8192, 8193, 65500, 65530, 65534, 65535, 65536, 65537, 65600]
BIG = [300000, MB, 4 * MB - 1, 4 * MB, 4 * MB + 1, 5 * MB, 2**24 - 70, 2**24 - 1, 2**24, 2**24 + 1, 20 * MB]


def sweep(r):
    """One content alone: every boundary length x kind x hint x compression."""
    for comp in (["none"], ["lz4", 1], ["lzma", 1], ["zstd", 3]):
        for n in LENS:
            for k in "ztreh":
                for h in "ynd":
                    yield {"label": "alone %s %d%s %s" % (comp, n, k, h), "mode": "one", "comp": comp, "dir": EMPTY_DIR,
                           "contents": [{"g": [k, n, r.randrange(200)], "hint": h, "src": r.choice(["mem", "file", "range", "tail"])}]}


def widths(r):
    """Clusters whose data size crosses the 1/2/3/4 byte boundaries, in several blobs."""
    for comp in (["none"], ["lz4", 1], ["lzma", 0], ["zstd", 1]):
        for total in [253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537] + ([2**24 - 1, 2**24, 2**24 + 1] if comp[0] in ("none", "zstd") else []):
            for k in "rt":
                for h in "yn":
                    cuts = sorted(r.randint(0, total) for _ in range(r.choice([1, 2, 3])))
                    parts = [e - s for s, e in zip([0] + cuts, cuts + [total])]
                    if r.randrange(2):
                        parts = [1, total - 1]
                    yield {"label": "width %s %d%s %s %s" % (comp, total, k, h, parts), "mode": "one", "comp": comp, "dir": EMPTY_DIR,
                           "contents": [{"g": [k, n, r.randrange(200)], "hint": h, "src": r.choice(["mem", "range"])} for n in parts]}


def rand_session(r, i, big):
    c = rand_case(r, i=i)
    n = r.choice([0, 1, 2, 5, 20, 60])
    lens = LENS + (BIG if big else [])

    def cont(k):
        out = []
        for _ in range(k):
            kind = r.choice("zcrtehpx")
            ln = r.choice(lens)
            if kind in "reh" and ln > MB and r.randrange(3):
                ln = 70000
            out.append({"g": [kind, ln, r.randrange(256)], "hint": r.choice("ynd"), "src": r.choice(["mem", "file", "range", "tail"]),
                        "before": r.choice([0, 1, 37, 5000]), "after": r.choice([0, 1, 53])})
            if len(out) > 1 and r.randrange(5) == 0:
                out[-1]["g"] = r.choice(out)["g"]
        return out
    if c["mode"] == "manual":
        for p in c["packs"]:
            p["contents"] = cont(min(n, 8))
    else:
        c["contents"] = cont(n)
    nc = sum(len(p["contents"]) for p in c["packs"]) if c["mode"] == "manual" else n + sum(len(x["contents"]) for x in c.get("extra", []))
    c["dir"] = small_dir(r, nc)
    return c


def run(chk):
    for cfg in ("ContentPack_A", "ContentPack_B", "ContentPack_D") if QUICK else ("ContentPack_A", "ContentPack_B", "ContentPack_C", "ContentPack_D"):
        model(chk, "ContentPack", cfg + ".cfg")
    r = random.Random(SEED * 1000 + 1)
    b = build()
    seqs, blobs = [], []
    for cfg, out in (("ContentPack_emit.cfg", seqs), ("ContentPack_emit2.cfg", blobs)):
        cs, res = tlc_emit("ContentPack", cfg)
        seen = set()
        for m in cs:
            k = json.dumps(m["contents"])
            if k not in seen:
                seen.add(k)
                out.append(m)
        chk.add(states=res["distinct"], transitions=res["states"], models_checked=1)
    cases = []
    if QUICK:
        seqs, blobs = r.sample(seqs, 200), r.sample(blobs, 40)
    cases += [seq_case(m, r, i) for i, m in enumerate(seqs)]
    cases += [blob_case(m, r, i) for i, m in enumerate(blobs)]
    sw = list(sweep(r))
    cases += r.sample(sw, min(len(sw), 1200)) if QUICK else sw
    wd = list(widths(r))
    cases += r.sample(wd, min(len(wd), 130)) if QUICK else wd * 4
    cases += [rand_session(r, i, i % 8 == 0) for i in range(500 if QUICK else 2500)]
    with Scratch("c01") as d, Pool(b, d) as p:
        C = Con(p, d)
        t = time.time()
        step = 1500
        for i in range(0, len(cases), step):
            part = cases[i:i + step]
            ev = C.containers(part, SEED + i)
            judge_con(chk, part, ev, "c01")
            log("c01", i + len(part), "of", len(cases), "in %.0fs" % (time.time() - t))
            for c, e in list(zip(part, ev))[-2:]:
                chk.sample({"case": c["label"], "contents": len(e["c"]["adds"]), "reads": len(e["reads"])})
            chk.add(contents=sum(len(e["c"]["adds"]) for e in ev), reads=sum(len(e["reads"]) for e in ev))
    chk.add(model_sequences_replayed=len(seqs) + len(blobs))


if __name__ == "__main__":
    main(run, "C01", "model_checking")
