"""C10: a container reads the same however its packs are packaged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from packgen import *

QUICK = TIER != "thorough"


def run(chk):
    for c in ("A", "B", "C"):
        model(chk, "Packaging", "Packaging_%s.cfg" % c)
    for c in ("bad1", "bad2", "bad3"):
        model_bad(chk, "Packaging", "Packaging_%s.cfg" % c)
    r = random.Random(SEED * 1000 + 10)
    orders, st = tlc_emit("Packaging", "Packaging_orders.cfg")
    chk.add(states=st["distinct"], transitions=st["states"])
    full = [c for c in orders if len(c["hist"][0]["src"]) == 4]
    if QUICK:
        # every order of the four files once, and a sample of the partial ones
        by = {}
        for c in full:
            by.setdefault(json.dumps(c["hist"][0]["src"]), []).append(c)
        orders = [r.choice(x) for x in by.values()] + r.sample([c for c in orders if c not in full], 40)
    wk, gen = walks("Packaging_walk10.cfg", 120 if QUICK else 1500, SEED, 420 if QUICK else 12000, r)
    chk.add(transitions=gen)
    b = build()
    with Scratch("c10") as d, Pool(b, d) as p:
        C = Con(p, d)
        bs = bases(chk, C, SEED, 1 if QUICK else 3)
        fresh = [{"mode": m, "n": n, "hist": []} for m, n in bs]
        log("worlds", len(orders), len(wk))
        judge(chk, C, bs, fresh, "fresh", SEED)
        judge(chk, C, bs, orders, "orders", SEED)
        judge(chk, C, bs, wk, "walks", SEED)


if __name__ == "__main__":
    main(run, "C10", "model_checking")
