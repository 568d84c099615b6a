"""Positions in jubako files, for spec/FormatCase.tla.  This reader is only a hint: the specification derives every
position from the bytes by itself and rejects a hint which does not match.  It never fails on malformed files."""
import os


class Bytes:
    def __init__(self, data):
        self.d = data

    def num(self, p, n):
        return int.from_bytes(self.d[p:p + n], "little") if p >= 0 else 0

    def raw(self, p, n):
        return self.d[p:p + n] if p >= 0 else b""


ELIDE = 2048


def scan_pack(data, base, size, depth=0):
    """Packs of the `size` bytes at `base`: list of dicts."""
    b = Bytes(data[base:base + size])
    kind = b.raw(0, 4)
    out = {"pos": base, "size": size, "kind": kind.decode("latin1"), "clusters": [], "b3": None, "elide": []}
    n = len(b.d)
    res = [out]
    if n < 128:
        return res
    ck = b.num(40, 8)
    if kind in (b"jbkc", b"jbkd", b"jbkm"):
        mask = []
        if kind == b"jbkm":
            cnt = b.num(64, 2)
            mask = [[ck - 256 * (cnt - i) + 38, ck - 256 * (cnt - i) + 256] for i in range(cnt)
                    if ck - 256 * (cnt - i) > 0]
        out["b3"] = {"pos": base, "n": min(ck, n), "mask": mask}
    if kind == b"jbkC" and depth == 0:
        ptr, cnt = b.num(64, 8), b.num(72, 2)
        for i in range(min(cnt, 64)):
            p = ptr + 36 * i
            sz, pos = b.num(p + 16, 8), b.num(p + 24, 8)
            if pos + sz <= n:
                res += scan_pack(data, base + pos, sz, 1)
    if kind == b"jbkc":
        ptr, cnt = b.num(72, 8), b.num(84, 4)
        for i in range(min(cnt, 20000)):
            e = ptr + 8 * i
            so = b.num(e, 8)
            t = so >> 16
            alg, w, k = b.num(t, 1), b.num(t + 1, 1), b.num(t + 2, 2)
            raw, dat = b.num(t + 4, w), b.num(t + 4 + w, w)
            cuts = [0] + [b.num(t + 4 + w * (2 + j), w) for j in range(min(k, 4096) - 1)] + [dat]
            if k == 0:
                cuts = [0]
            if raw > t or alg > 3:
                cl = {"pos": 0, "n": 0, "alg": alg & 3, "cuts": [0]}
            else:
                cl = {"pos": base + t - raw, "n": raw, "alg": alg, "cuts": [min(x, 1 << 40) for x in cuts]}
                if raw > ELIDE:
                    out["elide"].append((base + t - raw, base + t))
            out["clusters"].append(cl)
    return res


def scan(path):
    with open(path, "rb") as f:
        data = f.read()
    return data, scan_pack(data, 0, len(data))


def segments(data, packs):
    """The bytes of the file without the big cluster data: [[pos, [bytes]]..]"""
    cut = sorted(e for p in packs for e in p["elide"])
    segs, at = [], 0
    for a, e in cut:
        if a < at:
            continue
        if a > at:
            segs.append([at, list(data[at:a])])
        at = e
    if at < len(data):
        segs.append([at, list(data[at:])])
    return segs


def file_event(pool, path, name=None):
    """The file as an event of FormatCase."""
    data, packs = scan(path)
    b3 = [p["b3"] for p in packs if p["b3"]]
    cl = [c for p in packs for c in p["clusters"]]
    r = pool.one({"id": 0, "op": "prims", "path": path, "b3": b3, "clusters": cl})["res"]
    b3r, clr = iter(r["b3"]), iter(r["clusters"])
    out = []
    for p in packs:
        e = {"pos": p["pos"], "size": p["size"], "b3": {"n": 0, "mask": [], "digest": []}, "clusters": []}
        if p["b3"]:
            e["b3"] = {"n": p["b3"]["n"], "mask": p["b3"]["mask"], "digest": next(b3r)}
        for c in p["clusters"]:
            x = next(clr)
            e["clusters"].append({"start": c["pos"] - p["pos"], "n": c["n"], "alg": c["alg"], "len": x["len"],
                                  "cuts": [min(k, 2**31 - 1) for k in c["cuts"]], "parts": x["parts"]})
        out.append(e)
    return {"name": list((name or os.path.basename(path)).encode()), "size": len(data), "segs": segments(data, packs), "packs": out}
