"""C11: an unavailable pack is reported as missing, and everything else still reads."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from packgen import *

QUICK = TIER != "thorough"


def run(chk):
    for c in ("A", "B", "C"):
        model(chk, "Packaging", "Packaging_%s.cfg" % c)
    for c in ("bad1", "bad2"):
        model_bad(chk, "Packaging", "Packaging_%s.cfg" % c)
    r = random.Random(SEED * 1000 + 11)
    subsets, st = tlc_emit("Packaging", "Packaging_subsets.cfg")
    chk.add(states=st["distinct"], transitions=st["states"])
    loss, st = tlc_emit("Packaging", "Packaging_loss1.cfg")
    chk.add(states=st["distinct"], transitions=st["states"])
    wk, gen = walks("Packaging_walk11.cfg", 120 if QUICK else 1500, SEED + 50, 350 if QUICK else 12000, r)
    chk.add(transitions=gen)
    if QUICK:
        # every combination of losses without copies, and a sample of the others
        plain = [c for c in subsets if all(o["op"] != "copy" for o in c["hist"])]
        rest = [c for c in subsets if any(o["op"] == "copy" for o in c["hist"])]
        subsets = plain + r.sample(rest, min(len(rest), 150))
        loss = r.sample(loss, min(len(loss), 150))
    b = build()
    with Scratch("c11") as d, Pool(b, d) as p:
        C = Con(p, d)
        bs = bases(chk, C, SEED + 3, 1 if QUICK else 3)
        log("worlds", len(subsets), len(loss), len(wk))
        judge(chk, C, bs, subsets, "subsets", SEED)
        judge(chk, C, bs, loss, "loss", SEED)
        judge(chk, C, bs, wk, "walks", SEED)


if __name__ == "__main__":
    main(run, "C11", "model_checking")
