"""C07: any number of threads read exactly the stored bytes, whatever the schedule."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from concur import *

QUICK = TIER != "thorough"


def hung(o):
    x = o.get("res")
    return o["outcome"] in ("timeout", "hang") or any(y.get("hang") for y in (x if isinstance(x, list) else [x]) if isinstance(y, dict))


def batches(p, reqs, timeout):
    """Stops soon after a reader which never ends (the others would be as long)."""
    outs = []
    for a in range(0, len(reqs), 16):
        outs += p.map(reqs[a:a + 16], timeout=timeout)
        if any(hung(o) for o in outs[a:]):
            break
    return outs


def sync_part(chk, p, M, r):
    """Schedules of SyncVec on a cluster of three chunks."""
    walks = simulate("SyncVec", "SyncVec_walk.cfg", 700 if QUICK else 6000, SEED)
    walks = walks[:1000 if QUICK else 100000]
    chk.add(schedules=len(walks))
    conts = []
    for k in range(3 if QUICK else 12):
        for comp in ("zstd", "lz4", "lzma"):
            c = small_cluster(M, r, comp, k % 3)
            if c:
                conts.append(c)
    cuts = {}
    for c in conts:
        if c["comp"] == "lzma":
            for at in (1, 2, 3):
                for d in (0, 1000):
                    if (at - 1) * CHUNK + d < c["total"]:
                        x = cut_short(M, r, c, (at - 1) * CHUNK + d)
                        if x:
                            cuts.setdefault(at, []).append(x)
    jobs = {}
    for i, w in enumerate(walks):
        pool = cuts.get(w["at"], []) if w["fail"] else conts
        if not pool:
            continue
        j = i % len(pool)
        jobs.setdefault((w["fail"], w["at"] if w["fail"] else 0, j), (pool[j], []))[1].append(
            {"steps": w["steps"], "after": bool(r.randrange(2)), "seed": r.randrange(1 << 30)})
    reqs = [(c, ws[a:a + 12]) for c, ws in jobs.values() for a in range(0, len(ws), 12)]
    outs = batches(p, [dict(request(c, ws), id=i) for i, (c, ws) in enumerate(reqs)], 200)
    evs, where, missed = [], [], 0
    for (c, ws), o in zip(reqs, outs):
        what = {"comp": c["comp"], "sizes": c["sizes"], "good": c["good"], "total": c["total"]}
        if o["outcome"] != "done":
            chk.violation("concurrent readers: the process ends with %s %s" % (o["outcome"], o.get("msg", "")[:200]), {"cluster": what, "walks": ws})
            continue
        for w, x in zip(ws, o["res"]):
            if not x["open"]:
                chk.violation("the container does not open", {"cluster": what})
                continue
            missed += x["missed"]
            # (the part of a chunk before the damage may be lost)
            good = c["good"] if c["good"] == c["total"] else c["good"] // CHUNK * CHUNK
            evs.append({"total": c["total"], "good": good, "hang": x["hang"], "ev": x["ev"]})
            where.append((what, w))
    judge_sync(chk, evs, where, "c07sync")
    chk.add(replayed=len(evs), steps_missed=missed)
    if evs:
        chk.sample({"schedule": where[0][1], "events": evs[0]["ev"][:12]})


def judge_sync(chk, evs, where, tag):
    bad, st = tlc_cases("SyncVecCase", evs, tag)
    chk.add(states=st["states"], judged=len(evs))
    for i in bad[:5]:
        chk.violation("%s: the threads do what SyncVec does not allow (%s)" % (tag, json.dumps(where[i][0])),
                      {"case": where[i][0], "walk": where[i][1], "events": evs[i]})


def groups(n, comp, each, size, r):
    """n full clusters (4095 blobs), one after the other."""
    return [{"g": ["t" if comp else "r", size + (k % 3), 4096 * k + (0 if comp else 1 << 20)], "hint": "y" if comp else "n", "rep": 4095} for k in range(n)]


def cache_part(chk, p, M, r, many, path):
    walks = simulate("ClusterCache", "ClusterCache_walk.cfg", 250 if QUICK else 3000, SEED)
    walks = walks[:400 if QUICK else 100000]
    of = [0, 4095 + 7, 23 * 4095 + 3]        # two compressed clusters and a raw one
    fill = [4095 * k + 9 for k in range(2, 23)] + [4095 * k + 9 for k in range(24, 45)]
    def content(i):
        k = i // 4095
        g = many[k]["g"]
        return [g[0], g[1], g[2] + i % 4095]
    g = [content(i) for i in of]
    reqs = [{"id": i, "op": "cache", "path": path, "of": of, "g": g, "fill": fill, "walks": [{"steps": w["steps"]} for w in walks[i:i + 8]]}
            for i in range(0, len(walks), 8)]
    outs = batches(p, reqs, 200)
    missed = played = 0
    evs, where = [], []
    for q, o in zip(reqs, outs):
        if o["outcome"] != "done":
            chk.violation("cluster cache: the process ends with %s %s" % (o["outcome"], o.get("msg", "")[:200]), {"walks": q["walks"]})
            continue
        for w, x in zip(q["walks"], o["res"]):
            played += 1
            missed += x["missed"]
            ev = [["end", int(a[0]), a[2], 1] for a in x["reads"]]
            evs.append({"total": 1, "good": 1, "hang": x["hang"], "ev": ev})
            where.append(({"what": "cluster cache", "reads": x["reads"]}, w))
    judge_sync(chk, evs, where, "c07cache")
    chk.add(cache_schedules=played, cache_steps_missed=missed)


def storm_part(chk, p, slow, M, r, many, path):
    """Free runs with perturbations: more clusters than slots, more decodings than decoding threads."""
    runs = []
    hot = [0, 1, 4094, 4095, 4096, 8000, 22 * 4095 - 1, 22 * 4095, 23 * 4095 + 1]
    for k in range(12 if QUICK else 60):
        runs.append(("many", {"op": "storm", "path": path, "packs": [{"id": 1, "g": many}], "hot": hot, "threads": [4, 8, 16, 32][k % 4],
                              "reads": 400 if QUICK else 3000, "every": 97, "dir": {"idx": ["full0"]}}))
    for j, comp in enumerate(["zstd", "lz4", "lzma", "none"] * (1 if QUICK else 5)):
        sizes = [r.choice([1, 4096, 30000, 70000, 300000]) for _ in range(40)]
        cs = [{"g": ["x" if i % 2 else "e", s, 100 + i], "hint": "y", "rep": 1} for i, s in enumerate(sizes)]
        # clusters of their own: a content of more than 2 MiB each
        cs += [{"g": ["t", 2400000 + i, 7 + i], "hint": "y", "rep": 1} for i in range(10)]
        cs += [{"g": ["r", 5000, 90 + i], "hint": "n", "rep": 1} for i in range(10)]
        other = [{"g": ["t", 3000 + i, 900 + i], "hint": "y", "rep": 1} for i in range(30)]
        d = rich_dir(30)
        f, pth = bigbuild(M, cs, [comp, 1] if comp != "none" else ["none"], ["one", "two", "none", "one"][j % 4], d,
                          [{"id": 2, "comp": ["lz4", 1], "contents": other}])
        for k in range(4):
            runs.append((comp, {"op": "storm", "path": pth, "packs": [{"id": 1, "g": cs}, {"id": 2, "g": other}], "hot": list(range(38, 50)),
                                "threads": [12, 24, 8, 16][k], "reads": 60 if QUICK else 200, "every": 3,
                                "dir": {"idx": [i["name"] for i in d["idx"]]}}))
    runs = [(l, dict(q, id=i, seed=SEED * 1000 + i, limit=60)) for i, (l, q) in enumerate(runs)]
    outs = [None] * len(runs)
    for which, pool in ((0, p), (1, slow)):
        mine = [i for i in range(len(runs)) if i % 2 == which]
        for a in range(0, len(mine), 8):
            some = mine[a:a + 8]
            for i, o in zip(some, pool.map([runs[i][1] for i in some], timeout=150)):
                outs[i] = o
            if any(hung(outs[i]) for i in some):
                break
    evs, where, reads, dec = [], [], 0, 0
    for (label, q), o in zip(runs, outs):
        if o is None:
            continue
        what = {"what": "free run", "container": label, "threads": q["threads"], "seed": q["seed"]}
        if o["outcome"] != "done":
            chk.violation("free run (%s): the process ends with %s %s" % (label, o["outcome"], o.get("msg", "")[:200]), what)
            continue
        x = o["res"]
        reads += x["reads"]
        dec += x["decodings"]
        evs.append({"total": 1, "good": 1, "hang": x["hang"] or not x["open"], "ev": [["end", 1, b[-1] if isinstance(b[-1], int) else 1, 1] for b in x["bad"]]})
        where.append((dict(what, bad=x["bad"]), None))
        for ev in x["inst"]:
            t = ev[0][2]
            evs.append({"total": t, "good": t, "hang": False, "ev": ev})
            where.append((what, None))
    judge_sync(chk, evs, where, "c07storm")
    chk.add(free_runs=len(runs), free_reads=reads, decodings=dec)


def run(chk):
    r = random.Random(SEED * 1000 + 7)
    b = build()
    so = shim("slow")
    for c in ("A", "B") if QUICK else ("A", "B", "C", "D"):
        model(chk, "SyncVec", "SyncVec_%s.cfg" % c)
    for i in range(1, 10):
        model_bad(chk, "SyncVec", "SyncVec_bad%d.cfg" % i)
    for c in ("A", "B") if QUICK else ("A", "B", "C"):
        model(chk, "ClusterCache", "ClusterCache_%s.cfg" % c)
    for i in range(1, 5):
        model_bad(chk, "ClusterCache", "ClusterCache_bad%d.cfg" % i)
    with Scratch("c07") as d, Pool(b, d) as p:
        M = Con(p, d)
        log("models done")
        sync_part(chk, p, M, r)
        log("schedules of SyncVec done")
        many = groups(22, True, 4095, 40, r) + groups(23, False, 4095, 30, r)
        f, path = bigbuild(M, many, ["zstd", 1])
        log("container of", len(many), "clusters")
        cache_part(chk, p, M, r, many, path)
        log("schedules of ClusterCache done")
        with Pool(b, d, env={"LD_PRELOAD": so}) as slow:
            storm_part(chk, p, slow, M, r, many, path)


if __name__ == "__main__":
    main(run, "C07", "model_checking")
