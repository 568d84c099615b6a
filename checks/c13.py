"""C13: all views of a stored content agree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from packgen import *

QUICK = TIER != "thorough"
SIZES = [0, 1, 2, 3, 5, 17, 64, 100, 999, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 20000, 66000]


def real_ops(r, hist, n, N):
    """The operations of a history of the model (content of N units) for a content of n bytes."""
    inner = sorted(r.choice([r.randrange(n + 1), r.randrange(n + 1), min(n, 4096), min(n, 4095), max(0, n - 1), min(n, 1), 0, n, min(n, 8192)])
                   for _ in range(N - 1))
    p = [0] + inner + [n]
    vs, out = [["region", 0, N, 0]], []
    for o in hist:
        v = vs[o["h"] - 1]
        op, ro, rs = o["op"], 0, 0
        if op in ("cut", "get"):
            a, b = v[1] + o["o"], v[1] + o["o"] + o["s"]
            ro, rs = p[a] - p[v[1]], p[b] - p[a]
        if op == "cut":
            vs.append(["slice", a, b, 0])
        elif op == "as_slice":
            vs.append(["slice", v[1], v[2], 0])
        elif op == "to_region":
            vs.append(["region", v[1], v[2], 0])
        elif op in ("stream", "into_stream"):
            vs.append(["stream", v[1], v[2], v[1]])
        elif op == "read":
            e = min(v[2], v[3] + o["s"])
            rs = p[e] - p[v[3]] + (r.choice([1, 7, 5000]) if v[3] + o["s"] > v[2] else 0)
            v[3] = e
        elif op == "toend":
            v[3] = v[2]
        out.append({"op": op, "h": o["h"], "o": ro, "s": rs})
    return out


def run(chk):
    for c in ("A", "B", "Z"):
        model(chk, "ViewsModel", "ViewsModel_%s.cfg" % c)
    for c in ("bad1", "bad2", "bad3", "bad4"):
        model_bad(chk, "ViewsModel", "ViewsModel_%s.cfg" % c)
    r = random.Random(SEED * 1000 + 13)
    ms, st = tlc_emit("ViewsModel", "ViewsModel_emit.cfg")
    chk.add(states=st["distinct"], transitions=st["states"])
    hists = [(m["hist"], 3) for m in (r.sample(ms, 7000) if QUICK else ms)]
    out = tlc("ViewsModel", "ViewsModel_walk.cfg", workers=1, extra=["-simulate", "num=%d" % (100 if QUICK else 600), "-depth", "10", "-seed", str(SEED)], timeout=300)
    wk = [json.loads(json.loads(x)[5:])["hist"] for x in out["out"].splitlines() if x.startswith('"CASE ')]
    if not wk:
        raise ToolError("no walk")
    wk = r.sample(wk, min(len(wk), 3000 if QUICK else 20000))
    hists += [(h, 4) for h in wk]
    r.shuffle(hists)
    b = build()
    with Scratch("c13") as d, Pool(b, d) as p:
        C = Con(p, d)
        worlds = []          # (path, src, addr, g, label)
        for i, comp in enumerate([["none"], ["zstd", 1], ["lz4", 3], ["lzma", 3]]):
            sizes = SIZES + ([300000] if i % 2 == 0 else [])
            cont = [{"g": ["r", s, 1000 * i + j], "hint": "n" if comp == ["none"] else r.choice(["y", "y", "y", "n"])} for j, s in enumerate(sizes)]
            r.shuffle(cont)
            case = {"mode": "manual", "comp": ["none"], "label": "views %s" % comp[0], "dir": EMPTY_DIR, "dirpos": 0,
                    "packs": [{"id": 1, "loc": "p1.jbkc", "comp": comp, "contents": cont}]}
            ev = C.container(case, keep=True)
            if not (ev["built"] and ev["opened"]):
                chk.violation("c13: %s cannot be created or read: %s" % (case["label"], ev["why"]), {"case": case})
                continue
            one = {"mode": "one", "comp": comp, "label": "views one %s" % comp[0], "dir": EMPTY_DIR, "contents": cont}
            e1 = C.container(one, keep=True)
            if not (e1["built"] and e1["opened"]):
                chk.violation("c13: %s cannot be created or read: %s" % (one["label"], e1["why"]), {"case": one})
                continue
            whole = os.path.join(e1["folder"], "out.jbk")
            emb = os.path.join(e1["folder"], "embedded.bin")
            open(emb, "wb").write(b"#!" + bytes(4999) + open(whole, "rb").read())
            for j, x in enumerate(cont):
                for src in ("file", "vec", "mmap"):
                    worlds.append((os.path.join(ev["folder"], "p1.jbkc"), src, ev["addrs"][j], x, "%s %s %s" % (src, comp[0], x["hint"])))
                worlds.append((whole, "container", e1["addrs"][j], x, "container %s %s" % (comp[0], x["hint"])))
                worlds.append((emb, "container", e1["addrs"][j], x, "embedded %s %s" % (comp[0], x["hint"])))
        by = {}
        order = list(range(len(worlds)))
        r.shuffle(order)
        for i, (h, N) in enumerate(hists):
            w = order[i % len(order)]
            n = worlds[w][3]["g"][1]
            by.setdefault(w, []).append(real_ops(r, h, n, N))
        log("sequences", len(hists), "contents", len(worlds))
        jobs = list(by.items())
        res = p.map([{"id": 0, "op": "views", "path": worlds[w][0], "src": worlds[w][1], "addr": worlds[w][2], "g": worlds[w][3]["g"], "seqs": s}
                     for w, s in jobs], timeout=120)
        evs, of = [], []
        for (w, seqs), x in zip(jobs, res):
            for i, ops in enumerate(seqs):
                got = x["res"][i] if x["outcome"] == "done" else {"ok": False, "first": [], "res": []}
                evs.append(dict(got, n=worlds[w][3]["g"][1], ops=ops))
                of.append((w, x["outcome"], x.get("msg", "")))
        bad, st = tlc_cases("ViewCase", evs, "c13", jobs=8)
        for i in bad:
            w = worlds[of[i][0]]
            chk.violation("c13: views of a content of %d bytes (%s) do not agree: %s %s: %s" % (
                evs[i]["n"], w[4], of[i][1], of[i][2][:200], [(o["op"], o["h"], o["o"], o["s"]) for o in evs[i]["ops"]]), {"world": w, "event": evs[i]})
        chk.add(states=st["distinct"], transitions=st["distinct"], traces_validated_against_impl=len(evs), operations=sum(len(e["ops"]) for e in evs),
                contents=len(worlds), source_kinds=len({w[4] for w in worlds}))
        for i in range(0, len(evs), len(evs) // 4):
            chk.sample({"source": worlds[of[i][0]][4], "n": evs[i]["n"], "ops": [(o["op"], o["h"], o["o"], o["s"]) for o in evs[i]["ops"]]})


if __name__ == "__main__":
    main(run, "C13", "model_checking")
