"""C08: the created container does not depend on how compression workers are scheduled."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from congen import *

QUICK = TIER != "thorough"
MB = 1 << 20
HALF = 2 * MB + MB // 4      # two of them do not fit in a compressed cluster


def gates(hints, order, blobs_limit):
    """Which clusters must be in the file before each insertion and before finalisation so that the raw clusters land where
    `order` wants them. hints: one unit per insertion. Returns (waits per insertion, finwait)."""
    pos = {c: i for i, c in enumerate(order)}
    waits, rawid, rawn, nid = [], None, 0, 0
    for h in hints:
        w = []
        if h == "y":
            nid += 1
        else:
            if rawid is None or rawn == blobs_limit:
                if rawid is not None:
                    w = order[:pos[rawid]]
                rawid, rawn, nid = nid, 0, nid + 1
            rawn += 1
        waits.append(w)
    fin = order[:pos[rawid]] if rawid is not None else []
    # the last compressed cluster is only sent by the finalisation itself
    return waits, fin


def model_case(m, r, i):
    """A terminal state of ContentPack (orders): contents of 3/4 of a cluster, or a third of the blobs of a raw cluster."""
    hints = [c["hint"] for c in m["contents"]]
    waits, fin = gates(hints, m["order"], 3)
    cs = []
    for k, (h, w) in enumerate(zip(hints, waits)):
        if h == "y":
            cs.append({"g": [r.choice("ccz"), 3 * MB + r.choice([0, -1, 1, k]), 16 * k + 7], "hint": "y", "wait": w})
        else:
            cs.append({"g": ["r", r.choice([0, 1, 5]), 1400 * k], "hint": "n", "rep": 1365, "wait": w})
    return {"label": "order %s of %s" % (m["order"], "".join(hints)), "mode": r.choice(["one", "two", "none"]), "contents": cs,
            "comp": r.choice([["zstd", 1], ["lz4", 1], ["zstd", -7]]), "dir": EMPTY_DIR, "plan": {"order": m["order"]}, "finwait": fin,
            "prog": True, "order": m["order"]}


def sim_order(r, n, w, style):
    """A completion order of n compressed clusters with w workers taking them in turn."""
    nxt, fly, out = 0, [], []
    while len(out) < n:
        while nxt < n and len(fly) < w:
            fly.append(nxt)
            nxt += 1
        if style == "lifo":
            k = len(fly) - 1
        elif style == "hold":
            k = len(fly) - 1 if len(fly) == 1 or nxt < n else r.randrange(1, len(fly))
        else:
            k = r.randrange(len(fly))
        out.append(fly.pop(k))
    return out


def long_case(r, i, w):
    """More compressed clusters than the back-pressure limit 2w, completion order imposed."""
    n = r.choice([1, w, 2 * w, 2 * w + 1, 2 * w + 2, 3 * w + 1])
    n = max(1, min(n, 36))
    style = r.choice(["lifo", "hold", "rand"])
    order = sim_order(r, n, w, style)
    cs = []
    for k in range(n):
        cs.append({"g": ["c", HALF + r.randrange(1000), k + 1], "hint": "y"})
        for _ in range(r.choice([0, 0, 1, 2])):
            # small contents finding their place in the open cluster
            cs.append({"g": ["t", r.choice([0, 1, 300, 5000]), r.randrange(200)], "hint": "y"})
    for _ in range(r.choice([0, 0, 3, 9])):
        cs.insert(r.randrange(len(cs) + 1), {"g": ["r", r.choice([0, 1, 300, 5000]), r.randrange(200)], "hint": r.choice("nd")})
    if any(c["hint"] != "y" for c in cs):
        order = []          # cluster ids are shifted by the raw cluster
    return {"label": "%d clusters, %d workers, %s" % (n, w, style if order else "free"), "mode": r.choice(["one", "two", "none"]),
            "contents": cs, "comp": r.choice([["zstd", 1], ["lz4", 1], ["zstd", -7]]), "dir": one_store_dir(2), "ncpu": w + 1,
            "plan": {"order": order} if order else {}, "delay": 0 if order else r.randrange(1, 10**6), "prog": True, "order": order}


def slow_case(r, i, w):
    """Workers (or the writer) stalled for long enough that the queue fills up and the insertions have to wait."""
    n = 2 * w + 4
    plan = {"h%d" % k: 1300 for k in range(w)} if i % 3 else {"w0": 1300, "w1": 700}
    cs = [{"g": ["c", HALF + k, k + 1], "hint": "y"} for k in range(n)]
    if i % 2:
        cs.append({"g": ["r", 100, 1], "hint": "n", "rep": 4096})
    return {"label": "%d clusters, %d stalled workers" % (n, w), "mode": "one", "contents": cs, "comp": ["zstd", 1], "dir": EMPTY_DIR,
            "ncpu": w + 1, "plan": plan, "prog": True}


def noisy_case(r, i, w):
    """Random sessions with seeded delays at every worker and writer step, all packagings."""
    n = r.choice([2, 3, 6, 9])
    def cont(n):
        cs = []
        for k in range(n):
            x = r.randrange(8)
            if x < 4:
                cs.append({"g": [r.choice("ct"), HALF + r.randrange(100000), r.randrange(1, 250)], "hint": r.choice("yyd")})
            elif x < 6:
                cs.append({"g": [r.choice("rt"), r.choice([0, 1, 2, 3, 100]), r.randrange(50)], "hint": r.choice("yn"),
                           "rep": r.choice([1, 7, 4095, 4096, 1500])})
            else:
                cs.append({"g": [r.choice("rtx"), r.choice([0, 5, 4096, 70000, MB]), r.randrange(250)], "hint": r.choice("ynd"),
                           "src": r.choice(["mem", "file", "range", "tail"])})
        return cs
    c = {"label": "noisy %d" % i, "mode": r.choice(["one", "two", "none", "manual"]), "comp": r.choice([["zstd", 1], ["lz4", 1], ["none"]]),
         "delay": r.randrange(1, 10**6), "ncpu": w + 1, "dedup": r.randrange(4) == 0}
    if c["mode"] == "manual":
        c["packs"] = [{"id": k, "loc": "p%d.jbkc" % k, "comp": r.choice([["zstd", 1], ["lz4", 1]]), "contents": cont(n), "delay": c["delay"]}
                      for k in r.sample([1, 2, 7], r.choice([1, 2]))]
        c["dedup"] = False
        nc = 1
    else:
        c["contents"] = cont(n)
        if r.randrange(3) == 0:
            c["extra"] = [{"id": 2, "comp": ["zstd", 1], "contents": [{"g": ["c", HALF, 3], "hint": "y"}, {"g": ["r", 20, 3], "hint": "n"}]}]
        nc = 1
    c["dir"] = small_dir(r, nc)
    return c


def run(chk):
    for cfg in ("ContentPack_A", "ContentPack_D") if QUICK else ("ContentPack_A", "ContentPack_B", "ContentPack_C", "ContentPack_D"):
        model(chk, "ContentPack", cfg + ".cfg")
    ms, res = tlc_emit("ContentPack", "ContentPack_orders.cfg")
    chk.add(states=res["distinct"], transitions=res["states"], models_checked=1)
    r = random.Random(SEED * 1000 + 8)
    seen, orders = set(), []
    for m in ms:
        k = json.dumps([m["contents"], m["order"]])
        if k not in seen:
            seen.add(k)
            orders.append(m)
    chk.add(model_schedules=len(orders))
    if QUICK:
        orders = r.sample(orders, min(len(orders), 160))
    cases = [model_case(m, r, i) for i, m in enumerate(orders)]
    for w in range(1, 16):
        cases += [long_case(r, i, w) for i in range(5 if QUICK else 60)]
        cases += [slow_case(r, i, w) for i in range((4 if w < 4 else 1) if QUICK else 12)]
        cases += [noisy_case(r, i, w) for i in range(6 if QUICK else 60)]
    b = build()
    so = shim("ncpu")
    with Scratch("c08") as d:
        byn = {}
        for c in cases:
            byn.setdefault(c.get("ncpu", 3), []).append(c)
        achieved = wanted = 0
        counts = {}
        for ncpu, cs in sorted(byn.items()):
            with Pool(b, d, env={"LD_PRELOAD": so, "JV_NCPU": str(ncpu)}) as p:
                C = Con(p, d)
                for i in range(0, len(cs), 400):
                    part = cs[i:i + 400]
                    ev = C.containers(part, SEED + i)
                    EV.append((part, ev))
                    for c, e in zip(part, ev):
                        if c.get("order"):
                            wanted += 1
                            w = [x[1] for x in e.get("prog", []) if x[0] == "w"]
                            achieved += w == c["order"]
                counts[ncpu - 1] = len(cs)
        log("recorded", sum(len(x) for x, _ in EV))
        cs = [c for x, _ in EV for c in x]
        ev = [e for _, x in EV for e in x]
        judge_con(chk, cs, ev, "c08")
        chk.add(contents=sum(len(e["c"]["adds"]) for e in ev), orders_requested=wanted, orders_realised=achieved,
                worker_counts=sorted(counts), cases_per_worker_count=counts)
        for c, e in list(zip(cs, ev))[::max(1, len(cs) // 5)]:
            chk.sample({"case": c["label"], "progress": e.get("prog", [])[:12]})


EV = []

if __name__ == "__main__":
    main(run, "C08", "model_checking")
