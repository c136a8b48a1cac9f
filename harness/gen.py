"""Scenario generators.  Everything is derived from the seed; abstract
behaviours (streams, histories, sessions, ...) come from TLC, see gens().
Nothing here decides a verdict."""
import random
import msg
from msg import frame

CTL0 = dict(hca=False, lt=False, hdr=True, aux=True, pretty=True, shift=18,
            lit=[1, -4, 5, 6, 1, -4, 5, 6, -2, -7, 0, -1, -2, -7, 0, -1, 4, -3, 3, 2, 4, -3, 3, 2])
BUILTIN = dict(CTL0, hdr=False, aux=False, pretty=False, via="builtin")
MODES = ("MARGO", "JSON", "JSON-B", "JARGO")


def ctl(**k):
    return dict(CTL0, **k)


def rctl(R):
    return dict(hca=R.random() < .5, lt=R.random() < .5, hdr=R.random() < .7, aux=R.random() < .7, pretty=R.random() < .5,
                shift=R.choice([0, 1, 17, 18, 19, 37, -1, -18, 100]), lit=[R.randrange(-7, 7) for _ in range(24)])


class Suite:
    def __init__(self, name, seed):
        self.name, self.out, self.n = name, [], 0
        self.R = random.Random(f"{seed}/{name}")

    def add(self, mode, data, ch=None, c=None, obst=(), tag=""):
        if isinstance(data, (list, tuple)):
            data = b"".join(data)
        self.out.append(dict(id=f"{self.name}/{len(self.out)}{tag}", kind="conv", mode=mode, ctl=c or CTL0, obst=list(obst),
                             s=data.hex(), ch=[len(data)] if ch is None else ch))

    def file(self, mode, data, c=None, obst=(), fault=None, tag=""):
        if isinstance(data, (list, tuple)):
            data = b"".join(data)
        self.out.append(dict(id=f"{self.name}/{len(self.out)}{tag}", kind="file", mode=mode, ctl=c or CTL0, obst=list(obst),
                             s=data.hex(), fault=fault))


# ------------------------------------------------------------------ framing
def cut(R, n, style):
    if style == "whole":
        return [n]
    if style == "ones":
        return [1] * n
    if style == "two":
        k = R.randrange(0, n + 1)
        return [k, n - k]
    if style == "k4096":
        return [4096] * (n // 4096) + ([n % 4096] if n % 4096 else [])
    if style == "empty":
        out, left = [0], n
        while left:
            k = min(left, R.choice([1, 2, 3, 5, 8, 40]))
            out += [k] + [0] * R.randrange(0, 2)
            left -= k
        return out
    out, left = [], n
    while left:
        k = min(left, R.choice([1, 1, 2, 3, 4, 5, 6, 7, 13, 29, 64, 200]))
        out.append(k)
        left -= k
    return out


FOREIGN = [1, 3, 999, 1001, 1004, 1009, 1012, 1018, 1021, 1057, 1068, 1070, 1078, 1079, 1080, 1138, 1200, 1229, 1231, 4001, 4094, 4095, 0]


def small(R, n=None):
    num = R.choice(FOREIGN)
    p = bytearray(R.getrandbits(8) for _ in range(R.randrange(2, 16) if n is None else n))
    p[0], p[1] = num >> 4, ((num & 15) << 4) | (p[1] & 15)
    return bytes(p)


def odd(R):
    """A payload that no sub-decoder claims: a foreign number, or too short to carry one."""
    return R.choice([small(R), small(R), b"", bytes([R.getrandbits(8)])])


def noise(R, n):
    return bytes(R.choice([x for x in (0, 1, 2, 3, 0xD2, 0xD4, 0xFF, R.randrange(0, 0xD3))]) for _ in range(n))


def token(R, t):
    if t == "good":
        return frame(small(R))
    if t == "known":
        return frame(msg.good(R.choice([1005, 1230, 1019, 1071, 1074, 1007]), R))
    if t == "max":
        return frame(small(R, R.choice([1023, 1023, 1022, 512, 256, 255])))
    if t == "zero":
        return frame(b"")
    if t == "nest":
        return frame(small(R, 2) + frame(small(R)) + noise(R, R.randrange(0, 3)))
    if t == "noise":
        return noise(R, R.randrange(1, 9))
    if t == "pre":
        return b"".join(bytes([0xD3, R.randrange(4, 256)]) + noise(R, R.randrange(0, 3)) for _ in range(R.randrange(1, 4)))
    if t == "flip":
        f = bytearray(frame(small(R)))
        k = R.randrange(3, len(f) - 3)
        f[k] ^= 1 << R.randrange(8)
        return bytes(f)
    if t == "crc":
        f = bytearray(frame(small(R)))
        f[-R.randrange(1, 4)] ^= 1 << R.randrange(8)
        return bytes(f)
    if t == "hide":
        f = bytearray(frame(small(R, 3) + frame(small(R)) + small(R, 2)))
        f[-1] ^= R.randrange(1, 256)
        return bytes(f)
    if t == "long":
        return bytes([0xD3, 3, R.choice([255, 255, 200])])
    if t == "trunc":
        f = frame(small(R))
        return f[:R.randrange(2, len(f))]
    if t == "resv":
        return frame(small(R), res=R.randrange(1, 64))
    if t == "lone":
        return b"\xD3"
    if t == "dbl":
        return b"\xD3" + frame(small(R))
    raise ValueError(t)


def stream_suite(seed, behaviours, name="stream", every=1):
    """behaviours: abstract streams enumerated by GenStream."""
    S = Suite(name, seed)
    R = S.R
    for k, b in enumerate(behaviours):
        if k % every:
            continue
        head = frame(small(R)) if R.random() < .5 else b""
        body = b"".join(token(R, t) for t in b["t"])
        tail = frame(small(R))
        if "long" in b["t"] or "trunc" in b["t"]:
            # enough material to resolve the false header, every other time
            if R.random() < .6:
                while len(tail) < 1100:
                    tail += frame(small(R, R.randrange(2, 200)))
        if R.random() < .2:
            tail += R.choice([b"\xD3", b"\xD3\x00", b"\xD3\x00\x10", b"\x00", frame(small(R))[:-1]])
        data = head + body + tail
        ch = cut(R, len(data), b["c"])
        if len(ch) > 400:
            ch = cut(R, len(data), "rand")
        mode = R.choice(MODES)
        S.add(mode, data, ch)
    return S.out


def split_suite(seed, n=3):
    """Every position of a single cut, over short streams rich in edge cases."""
    S = Suite("split", seed)
    R = S.R
    for k in range(n):
        toks = [["good", "flip", "good"], ["nest", "dbl", "good"], ["hide", "zero", "good"], ["pre", "good", "lone"],
                ["crc", "good", "trunc"], ["resv", "good", "noise", "good"]][k % 6]
        data = b"".join(token(R, t) for t in toks)[:90]
        for i in range(len(data) + 1):
            S.add("JSON", data, [i, len(data) - i])
    return S.out


def longstream_suite(seed, n=6):
    """Long streams crossing many 4096-byte reads, with sporadic damage."""
    S = Suite("longstream", seed)
    R = S.R
    for k in range(n):
        data = b""
        while len(data) < 9000 + 3000 * (k % 3):
            data += token(R, R.choice(["good", "good", "good", "max", "max", "noise", "flip", "nest", "zero", "hide", "dbl"]))
        if k % 2:
            S.file("JSON", data)
        else:
            S.add("JSON", data, cut(R, len(data), "k4096"))
    # exact multiples of the read size
    for extra in (0, 1, -1, 5, -5):
        data = b""
        while len(data) < 4096 + extra - 700:
            data += frame(small(R, 300))
        rest = 4096 + extra - len(data)
        data += frame(small(R, rest - 6))
        data += b"".join(frame(small(R, 100)) for _ in range(3))
        S.file("JSON", data)
    return S.out


def crc_suite(seed, deep=False):
    S = Suite("crc", seed)
    R = S.R
    # every single-bit error in a few frames (header, payload, checksum)
    for n in ([2, 5, 19] if not deep else [2, 3, 7, 19, 40, 61]):
        f = frame(small(R, n))
        for k in range(len(f)):
            data = b""
            for b in range(8):
                g = bytearray(f)
                g[k] ^= 1 << b
                data += bytes(g) + frame(small(R, 2))
            if k < 3:
                data += b"".join(frame(small(R, 200)) for _ in range(6))
            S.add("JSON", data)
    # lengths
    lens = range(0, 1024)
    for n in lens:
        f = frame(small(R, n) if n > 1 else bytes(R.getrandbits(8) for _ in range(n)))
        g = bytearray(f)
        g[R.randrange(3, len(f))] ^= 1 << R.randrange(8)
        S.add("JSON", f + bytes(g) + frame(small(R, 4)))
    # bursts, swaps, substituted bytes, zeroed / inverted checksum, two errors
    for _ in range(60 if not deep else 600):
        f = bytearray(frame(small(R, R.randrange(4, 60))))
        k = R.randrange(3, len(f) - 3)
        how = R.randrange(7)
        if how == 0:
            for j in range(k, min(len(f), k + 3)):
                f[j] ^= R.randrange(1, 256)
        elif how == 1:
            f[k], f[k + 1] = f[k + 1], f[k]
        elif how == 2:
            f[-3:] = b"\0\0\0"
        elif how == 3:
            f[-3:] = bytes(255 - x for x in f[-3:])
        elif how == 4:
            f[k] ^= 1
            f[R.randrange(3, len(f))] ^= 0x10
        elif how == 5:
            f[-3:] = bytes(reversed(f[-3:]))
        else:
            f[-1], f[-2] = f[-2], f[-1]
        S.add("JSON", bytes(f) + frame(small(R, 3)))
    return S.out


# ------------------------------------------------------------------ content
def chunked(L, n):
    return [L[i:i + n] for i in range(0, len(L), n)]


def pack(S, mode, payloads, c=None, per=6):
    for p in chunked([frame(x) for x in payloads], per):
        S.add(mode, p, c=c)


def msm_plain(seed, modes, reps=2, nums=None, styles=("rand", "edge", "mark", "real"), name="msm", c=None):
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for num in nums or msg.MSM:
            pack(S, mode, [msg.msm(num, R, style=R.choice(styles)) for _ in range(reps)], c=c(R) if c else None)
    return S.out


def shapes(R, num, bare):
    """Satellite x signal grids: single, full, sparse, extreme ids."""
    g = msg.gnss(num)
    known = list(range(1, 33)) if bare else msg.KNOWN[g]
    out = []
    k = len(known)
    out.append(([1], [known[0]], None))
    out.append(([64], [known[-1]], None))
    out.append((sorted(R.sample(range(1, 65), 3)), sorted(R.sample(known, min(3, k))), None))
    n = min(k, R.choice([2, 4, 8]))
    out.append((sorted(R.sample(range(1, 65), 64 // n)), sorted(R.sample(known, n)), None))
    # one cell per satellite / per signal; first / last cell only
    ns, ng = R.randrange(2, 5), min(k, R.randrange(2, 5))
    sats, sgns = sorted(R.sample(range(1, 65), ns)), sorted(R.sample(known, ng))
    cells = [0] * (ns * ng)
    for i in range(ns):
        cells[i * ng + R.randrange(ng)] = 1
    out.append((sats, sgns, cells))
    cells = [0] * (ns * ng)
    cells[R.choice([0, -1])] = 1
    out.append((sats, sgns, cells))
    cells = [1] * (ns * ng)
    for j in range(ng):
        cells[j] = 0
    out.append((sats, sgns, cells))       # announced satellite without signals
    cells = [1] * (ns * ng)
    for i in range(ns):
        cells[i * ng] = 0
    if any(cells):
        out.append((sats, sgns, cells))   # announced signal without satellites
    return out


def msm_shapes(seed, modes, nums=None, name="shape", k=3):
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for num in nums or msg.MSM:
            sh = shapes(R, num, mode == "JSON-B")
            R.shuffle(sh)
            pack(S, mode, [msg.msm(num, R, sats=a, sgns=b, cells=c) for a, b, c in sh[:k]])
    return S.out


def msm_masks(seed, modes, behaviours, name="mask", nums=None):
    """Cell masks enumerated by MCMsm, values all different within a message."""
    S = Suite(name, seed)
    R = S.R
    nums = list(nums or msg.MSM)
    for mode in modes:
        by = {}
        order = nums[:]
        R.shuffle(order)
        k = 0
        for b in behaviours:
            while True:
                num = order[k % len(order)]
                k += 1
                known = msg.KNOWN[msg.gnss(num)]
                if b["g"] <= len(known):
                    break
            by.setdefault(num, []).append(msg.msm(num, R, sats=sorted(R.sample(range(1, msg.MAXSAT[msg.gnss(num)] + 1), b["s"])),
                                                  sgns=sorted(R.sample(known, b["g"])), cells=b["m"], style=R.choice(["real", "real", "mark"])))
        for num in sorted(by):
            for grp in chunked([frame(p) for p in by[num]], 12):
                S.add(mode, grp)
    return S.out


def full_sgn(R, num, n):
    return sorted(R.sample(msg.KNOWN[msg.gnss(num)], n))


def msm_sweep(seed, mode, fields=("lock", "cnr", "ms", "rough", "rate", "hc"), name="sweep", step=1, gn="G"):
    """Every value of the narrow fields, 64 cells at a time."""
    S = Suite(name, seed)
    R = S.R
    base = {g: 1071 + 10 * i for i, g in enumerate(msg.GN)}[gn]
    W = {"lock": {4: 4, 5: 4, 6: 10, 7: 10, 2: 4, 3: 4}, "cnr": {4: 6, 5: 6, 6: 10, 7: 10},
         "ms": {4: 8, 5: 8, 6: 8, 7: 8}, "rough": {1: 10, 2: 10, 3: 10, 4: 10, 5: 10, 6: 10, 7: 10}, "hc": {2: 1, 3: 1, 4: 1, 5: 1, 6: 1, 7: 1},
         "ext": {5: 4, 7: 4}}
    for f in fields:
        seen = set()
        for t in (7, 6, 5, 4, 3, 2, 1):
            w = W.get(f, {}).get(t)
            if not w:
                continue
            full = (w, t > 3) not in seen
            seen.add((w, t > 3))
            vals = list(range(1 << w))
            if not full and w == 10:
                vals = vals[::16]
            vals = vals[::step] if w == 10 else vals
            for grp in chunked(vals, 32):
                sats = sorted(R.sample(range(1, 65), len(grp)))
                p = msg.msm(base + t - 1, R, sats=sats, sgns=[2], cells=[1] * len(grp), style="real", over={f: lambda j, g=grp: g[j]})
                S.add(mode, frame(p))
    return S.out


def msm_signals(seed, modes, name="signals", nums=None):
    """Every signal id of every system alone, every satellite id."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for gi, g in enumerate(msg.GN):
            ids = list(range(1, 33)) if mode == "JSON-B" else msg.KNOWN[g]
            ps = []
            for s in ids:
                num = 1071 + 10 * gi + R.randrange(7)
                ps.append(msg.msm(num, R, sats=sorted(R.sample(range(1, msg.MAXSAT[g] + 1), 2)), sgns=[s], cells=[1, 1], style="real"))
            pack(S, mode, ps)
            for half in (range(1, 33), range(33, 65)):
                S.add(mode, frame(msg.msm(1071 + 10 * gi + R.randrange(3, 7), R, sats=list(half), sgns=[ids[0]], cells=[1] * 32, style="real")))
            if mode != "JSON-B":
                bad = [s for s in range(1, 33) if s not in ids]
                S.add(mode, [frame(msg.msm(1071 + 10 * gi + R.randrange(7), R, sats=[1, 2], sgns=sorted([R.choice(bad), R.choice(ids)]), style="real"))
                             for _ in range(3)] + [frame(msg.msm(1074 + 10 * gi, R, style="real"))])
    return S.out


def msm_cross(seed, modes, name="cross", sigs=True):
    """Every signal of every system in every MSM type; every satellite in every MSM type."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for num in msg.MSM:
            g = msg.gnss(num)
            ids = list(range(1, 33)) if mode == "JSON-B" else msg.KNOWN[g]
            ps = []
            for s in ids:
                ps.append(msg.msm(num, R, sats=sorted(R.sample(range(1, msg.MAXSAT[g] + 1), 2)), sgns=[s], cells=[1, 1], style="real"))
            top = 64 if mode != "MARGO" or R.random() < .3 else msg.MAXSAT[g]
            for grp in chunked(R.sample(range(1, top + 1), top), 16):
                ps.append(msg.msm(num, R, sats=sorted(grp), sgns=[R.choice(ids)], cells=[1] * len(grp), style="real"))
            pack(S, mode, ps, per=12)
    return S.out


def msm_mix(seed, modes, k, name="mix"):
    """Every field of header and cells at one of its corners, in combination."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        rest = []
        for num in msg.MSM:
            g = msg.gnss(num)
            ids = list(range(1, 33)) if mode == "JSON-B" else msg.KNOWN[g]
            top = 64 if mode != "MARGO" else msg.MAXSAT[g]
            ps = []
            for _ in range(k):
                ns, ng = R.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)])
                ng = min(ng, len(ids))
                h = {"time": R.choice(time_values(R, g))} if R.random() < .5 else None
                ps.append(msg.msm(num, R, sats=sorted(R.sample(range(1, top + 1), ns)), sgns=sorted(R.sample(list(ids), ng)), cells=[1] * (ns * ng) if R.random() < .7 else None, style="corner", hdr=h))
            pack(S, mode, ps[::2], c=rctl(R) if mode == "MARGO" else None, per=k)
            rest += ps[1::2]
        R.shuffle(rest)
        for grp in chunked(rest, 25):
            pack(S, mode, grp, c=rctl(R) if mode == "MARGO" or R.random() < .5 else None, per=25)
    return S.out


def msm_grid(seed, modes, name="grid"):
    """Every possible number of satellites with every possible number of signals."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        ps = []
        for ns in range(1, 65):
            for ng in range(1, 33):
                if ns * ng > 64:
                    break
                if mode == "JSON-B":
                    num = R.choice(msg.MSM)
                    ids = range(1, 33)
                else:
                    c = [n for n in msg.MSM if len(msg.KNOWN[msg.gnss(n)]) >= ng]
                    if not c:
                        continue
                    num = R.choice(c)
                    ids = msg.KNOWN[msg.gnss(num)]
                full = R.random() < .5
                ps.append(msg.msm(num, R, sats=sorted(R.sample(range(1, 65), ns)), sgns=sorted(R.sample(list(ids), ng)),
                                  cells=[1] * (ns * ng) if full else None, style=R.choice(["real", "mark"])))
        R.shuffle(ps)
        pack(S, mode, ps, per=5)
    return S.out


def msm_forms(seed, modes, name="form"):
    """For every MSM type: every number of satellites, of signals and of cells."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        ps = []
        for t in range(1, 8):
            def put(ns, ng, nc):
                c = [n for n in msg.MSM if n % 10 == t and (mode == "JSON-B" or len(msg.KNOWN[msg.gnss(n)]) >= ng)]
                if not c:
                    return
                num = R.choice(c)
                g = msg.gnss(num)
                top = msg.MAXSAT[g] if mode == "MARGO" and ns <= msg.MAXSAT[g] and R.random() < .7 else 64
                ids = range(1, 33) if mode == "JSON-B" else msg.KNOWN[g]
                on = set(R.sample(range(ns * ng), nc))
                ps.append(msg.msm(num, R, sats=sorted(R.sample(range(1, top + 1), ns)), sgns=sorted(R.sample(list(ids), ng)),
                                  cells=[int(k in on) for k in range(ns * ng)], style=R.choice(["real", "rand", "mark"])))
            for ns in range(1, 65):
                put(ns, 1, R.randint(1, min(ns, 4)))
            for ng in range(1, 33):
                ns = R.randint(1, 64 // ng)
                put(ns, ng, R.randint(1, min(ns * ng, 4)))
            for nc in range(0, 65):
                area = R.choice([(a, b) for a in range(1, 65) for b in range(1, 9) if nc <= a * b <= min(64, max(nc + 8, nc * 2))])
                put(*area, nc)
        R.shuffle(ps)
        pack(S, mode, ps, per=6)
    return S.out


def msm_headers(seed, modes, name="hdr"):
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        ps = []
        for num in msg.MSM:
            for k, n in [("steer", 4), ("ext", 4), ("indc", 2), ("intr", 8), ("mmb", 2), ("iods", 8)]:
                for x in range(n):
                    if x in (0, n - 1) or R.random() < .3:
                        ps.append(msg.msm(num, R, sats=[R.randrange(1, 65)], sgns=[R.choice(msg.KNOWN[msg.gnss(num)])], cells=[1], hdr={k: x}))
        for k, v in [("steer", range(4)), ("ext", range(4)), ("indc", range(2)), ("intr", range(8)), ("mmb", range(2)), ("iods", range(8)),
                     ("rs", (0, 1, 4095)), ("res", (0, 127))]:
            for x in v:
                ps.append(msg.msm(R.choice(msg.MSM), R, sats=[R.randrange(1, 65)], sgns=None, hdr={k: x}))
        for num in R.sample(msg.MSM, 7):
            ps.append(msg.msm(num, R, sats=[], sgns=R.choice([[], [2], [2, 3]])))    # no satellites at all
        pack(S, mode, ps)
    return S.out


def time_values(R, g, shift=18):
    day = 86400000
    if g == "R":
        edges = [0, 1, day - 1, (10800 - shift) * 1000 - 1, (10800 - shift) * 1000, (10800 - shift) * 1000 + 1, day, (1 << 27) - 1, 10800000 - 1, 10800000]
        return [(d << 27) | R.choice(edges) for d in range(8)] + [(0 << 27) | e for e in edges] + [(6 << 27) | e for e in edges] + [(7 << 27) | 5]
    week = 604800000
    e = [0, 1, 13999, 14000, week - 14001, week - 14000, week - 13999, week - 1, week, (1 << 30) - 1, R.randrange(week)]
    return e


def msm_times(seed, modes, name="time", c=None):
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for gi, g in enumerate(msg.GN):
            shifts = (18, 0, 19) if g == "R" and mode in ("MARGO", "JARGO") else (18,)
            for sh in shifts:
                ps = [msg.msm(1071 + 10 * gi + R.randrange(7), R, sats=[R.randrange(1, 5)], sgns=msg.KNOWN[g][:1], cells=[1], style="real", hdr={"time": t})
                      for t in time_values(R, g, sh)]
                pack(S, mode, ps, c=dict(c or CTL0, shift=sh))
    return S.out


def msm_marks(seed, modes, name="mark", reps=1):
    """Unavailable-value codes, in every field, in every cell position."""
    S = Suite(name, seed)
    R = S.R
    W = {"rng": {1: 15, 3: 15, 4: 15, 5: 15, 6: 20, 7: 20}, "phs": {2: 22, 3: 22, 4: 22, 5: 22, 6: 24, 7: 24}, "rate": {5: 14, 7: 14},
         "frate": {5: 15, 7: 15}, "ms": {4: 8, 5: 8, 6: 8, 7: 8}}
    for mode in modes:
        for t in range(1, 8):
            for f, w in W.items():
                if t not in w:
                    continue
                top = 255 if f == "ms" else 1 << (w[t] - 1)
                for _ in range(reps):
                    ps = []
                    for gi in R.sample(range(7), 3):
                        g = msg.GN[gi]
                        sgns = sorted(R.sample(msg.KNOWN[g], min(2, len(msg.KNOWN[g]))))
                        sats = sorted(R.sample(range(1, msg.MAXSAT[g] + 1), 3))
                        hit = set(R.sample(range(6), R.randrange(1, 4)))
                        ps.append(msg.msm(1071 + 10 * gi + t - 1, R, sats=sats, sgns=sgns, cells=[1] * (len(sats) * len(sgns)), style="real",
                                          over={f: lambda j, h=hit, m=top, b=w[t]: m if j in h else R.choice([m - 1, (m + 1) % (1 << b), R.getrandbits(b)])}))
                    pack(S, mode, ps)
    return S.out


def msm_extremes(seed, modes, name="extreme"):
    """Largest/smallest representable values of the wide fields."""
    S = Suite(name, seed)
    R = S.R
    W = {"rng": {1: 15, 3: 15, 4: 15, 5: 15, 6: 20, 7: 20}, "phs": {2: 22, 3: 22, 4: 22, 5: 22, 6: 24, 7: 24}, "rate": {5: 14, 7: 14},
         "frate": {5: 15, 7: 15}, "ms": {4: 8, 5: 8, 6: 8, 7: 8}, "rough": {t: 10 for t in range(1, 8)}}
    for mode in modes:
        for t in range(1, 8):
            ps = []
            for f, w in W.items():
                if t not in w:
                    continue
                top = 1 << (w[t] - 1)
                vals = [0, 1, 2, top - 1, top - 2, top + 1, top + 2, 2 * top - 1, 2 * top - 2]
                if f == "ms":
                    vals = [0, 1, 127, 128, 253, 254]
                if f == "rough":
                    vals = [0, 1, 511, 512, 513, 1022, 1023]
                gi = R.randrange(7)
                g = msg.GN[gi]
                n = min(len(vals), msg.MAXSAT[g])
                vals = vals[:n]
                sats = sorted(R.sample(range(1, msg.MAXSAT[g] + 1), n))
                ps.append(msg.msm(1071 + 10 * gi + t - 1, R, sats=sats, sgns=[R.choice(msg.KNOWN[g])], cells=[1] * n, style="real",
                                  over={f: lambda j, v=vals: v[j]}))
            # every combination of "nothing", "no value" and "a value" in the fields that are added up
            near = {"rough": [0, 0, 1, 1023], "ms": [0, 0, 255, 1], "rate": [0, 0, 1 << 13, 1], "rng": None, "phs": None, "frate": None, "cnr": [0, 1], "lock": [0, 1], "hc": [0, 1]}
            for gi in range(7):
                g = msg.GN[gi]
                for st in ("zero", "ones", "edge", "edge"):
                    ps.append(msg.msm(1071 + 10 * gi + t - 1, R, style=st))
                n = min(6, msg.MAXSAT[g])
                sats = sorted(R.sample(range(1, msg.MAXSAT[g] + 1), n))
                sg = full_sgn(R, 1071 + 10 * gi + t - 1, min(3, len(msg.KNOWN[g])))
                ov = {f: (lambda j, v=v: R.choice(v)) for f, v in near.items() if v}
                for f in ("rng", "phs", "frate"):
                    if t in W[f]:
                        ov[f] = lambda j, b=W[f][t]: R.choice([0, 0, 1 << (b - 1), 1, (1 << b) - 1])
                ps.append(msg.msm(1071 + 10 * gi + t - 1, R, sats=sats, sgns=sg, cells=[1] * (n * len(sg)), style="zero", over=ov))
            pack(S, mode, ps)
    return S.out


def variants(seed, modes, nums, name, per_field=("ones", "half", "zero"), reps=2, frac=1.0, mix=0):
    """One field at a time at its extremes, everything else random."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        rest = []
        for num in nums:
            ps = [msg.eph(num, R, st) for st in ("zero", "ones", "edge", "edge")] + [msg.eph(num, R) for _ in range(reps)]
            w = msg.EPHW[num]
            for k, b in enumerate(w):
                for how in per_field:
                    if R.random() > frac:
                        continue
                    v = [R.getrandbits(x) for x in w]
                    v[k] = {"ones": (1 << b) - 1, "half": 1 << (b - 1), "zero": 0, "max": (1 << (b - 1)) - 1, "one": 1 % (1 << b), "min1": ((1 << (b - 1)) + 1) % (1 << b),
                            "near": ((1 << b) - 2) % (1 << b)}[how]
                    ps.append(msg.eph(num, R, vals=v))
            # every field at one of its corners: covers combinations of two and most of three
            for q in range(mix):
                (ps, rest)[q % 2].append(msg.eph(num, R, vals=[corner(R, x) for x in w]))
            # fields of equal width at equal or neighbouring values; values that mean something
            for q in range(6 * reps):
                base_ = {}
                v = []
                for x in w:
                    base_.setdefault(x, R.getrandbits(x) if q % 3 else R.randrange(0, min(1 << x, 64)))
                    v.append((base_[x] + R.choice([0, 0, 1, -1] if q % 2 else [0])) % (1 << x))
                ps.append(msg.eph(num, R, vals=v))
            for q in range(len(NOTABLE)):
                v = [R.choice([R.getrandbits(x)] + [(c + R.choice([0, 0, 1, -1])) % (1 << x) for c in NOTABLE[q:] + NOTABLE[:q] if c < (1 << x)][:2]) for x in w]
                ps.append(msg.eph(num, R, vals=v))
            for x in sorted(set(w)):
                for c in NOTABLE:
                    if x > 10 and c < (1 << x):
                        ps.append(msg.eph(num, R, vals=[c if y == x else R.getrandbits(y) for y in w]))
            pack(S, mode, ps, per=20)
        R.shuffle(rest)
        pack(S, mode, rest, per=35)
    return S.out


def corner(R, b):
    """A value of b bits: zero, all ones, sign bit alone, largest positive, or anything."""
    h = 1 << (b - 1)
    return R.choice([0, 2 * h - 1, h, h - 1, R.getrandbits(b), R.getrandbits(b)])


# numbers that mean something in one unit or another: hours, days, weeks, roll-overs, powers
NOTABLE = [24, 60, 100, 255, 256, 1000, 1023, 1024, 1440, 2047, 2048, 3600, 4095, 4096, 5040, 7200, 8191, 10079, 10080, 10800, 21600, 32767, 32768, 37799, 37800, 43200, 65535,
           75599, 75600, 86399, 86400, 100000, 302400, 604799, 604800]


def enum_fields(seed, modes, num, name, widths=(1, 2, 3, 4, 5, 6)):
    """Every value of every narrow field of one ephemeris message, the fields in different orders."""
    S = Suite(f"{name}{num}", seed)
    R = S.R
    w = msg.EPHW[num]
    for mode in modes:
        top = max(1 << b for b in w if b in widths)
        perm = [(R.randrange(1, 1 << b, 2), R.getrandbits(b)) for b in w]
        ps = []
        for x in range(top):
            ps.append(msg.eph(num, R, vals=[(x * m + c) % (1 << b) if b in widths else R.getrandbits(b) for b, (m, c) in zip(w, perm)]))
        pack(S, mode, ps, per=20)
    return S.out


def base_msgs(seed, modes, name="base", deep=1):
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for num in (1005, 1006):
            ps = [msg.base(num, R, st) for st in ("zero", "ones", "edge", "edge", "edge", "rand", "rand", "rand") for _ in range(deep)]
            ps += [msg.base(num, R, "corner") for _ in range(200 * deep)]
            pack(S, mode, ps, per=20)
        for num in (1007, 1008, 1033):
            n = {1007: 1, 1008: 2, 1033: 5}[num]
            ps = [msg.base(num, R, lens=[0] * n), msg.base(num, R, lens=[1] * n), msg.base(num, R, lens=[31] * n), msg.base(num, R, lens=[255 if n < 4 else 190] * n)]
            for k in range(n):
                L = [R.randrange(1, 20) for _ in range(n)]
                L[k] = 0
                ps.append(msg.base(num, R, lens=L))
            for _ in range(2 * deep):
                # the same text in several places
                t = msg.text(R, R.choice([1, 2, 7, 20, R.randrange(1, 30)]), R.choice(["ascii", "utf"]))
                eq = [t if R.random() < .8 else msg.text(R, len(t), "ascii") for _ in range(n)]
                ps.append(msg.base(num, R, texts=eq))
            ps.append(msg.base(num, R, texts=[b"ABCDEFG"] * n))
            for kind in ("utf", "ctl", "junk", "ascii", "utf") * deep:
                ps.append(msg.base(num, R, lens=[R.randrange(0, 40) for _ in range(n)], kind=kind))
            pack(S, mode, ps, per=20)
        ps = []
        for n in (list(range(0, 32)) if deep > 1 else [0, 1, 2, 3, 4, 7, 8, 15, 16, 31]):
            ps.append(msg.base(1013, R, nm=n))
            if n:
                ps.append(msg.base(1013, R, nm=n, nmfield=0))
        ps.append(msg.base(1013, R, nm=2, style="ones"))
        ps += [msg.base(1013, R, nm=R.choice([0, 1, 2, 3]), style="corner") for _ in range(60 * deep)]
        for ids in ([5, 5], [1, 2, 1, 3, 2], [0] * 4, [4095, 0, 4095]):      # a number announced twice
            w = msg.W().put(1013, 12).put(R.getrandbits(12), 12).put(R.getrandbits(16), 16).put(R.getrandbits(17), 17).put(len(ids), 5).put(R.getrandbits(8), 8)
            for i in ids:
                w.put(i, 12).put(R.getrandbits(1), 1).put(R.getrandbits(16), 16)
            ps.append(w.bytes())
        ps.append(msg.base(1013, R, nm=3, style="zero"))
        pack(S, mode, ps, per=20)
        for num in (1005, 1230) if mode == "JSON" else (1006,):       # every reference station
            ps = []
            for x in range(4096) if deep > 1 else range(0, 4096, 64):
                q = bytearray(msg.base(num, R))
                q[1] = (q[1] & 0xF0) | (x >> 8)
                q[2] = x & 255
                ps.append(bytes(q))
            pack(S, mode, ps, per=256)
        # texts made of pieces that writers and readers trip over
        ps = [msg.base(num, R, lens=[R.randrange(1, 32) for _ in range(5)], kind="special") for num in (1007, 1008, 1029, 1033) for _ in range(12 * deep)]
        for x in msg.SPECIAL:
            b = x.encode()
            for t in (b, b"A" + b, b + b"A", b"A" + b + b"B", b + b):
                ps.append(msg.base(1029, R, lens=[0])[:-1] + bytes([len(t)]) + t)
            ps.append(msg.base(1033, R, lens=[0] * 5)[:3] + b"".join(bytes([len(b)]) + b + (b"\7" if k == 0 else b"") for k in range(5)))
            ps.append(msg.base(1008, R, lens=[0] * 2)[:3] + b"".join(bytes([len(b) + 1]) + b"A" + b + (b"\7" if k == 0 else b"") for k in range(2)))
        pack(S, mode, ps, c=ctl(pretty=False), per=40)
        pack(S, mode, ps[::2], per=40)
        ps = [msg.base(1029, R, lens=[n], kind=k) for n in (0, 1, 2, 3, 4, 127, 128, 255, R.randrange(256)) for k in ("ascii", "utf", "ctl")]
        ps += [msg.base(1029, R, lens=[n], kind="junk") for n in (1, 2, 5, 40)]
        for s in (b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xe2\x82", b"a\xc3", b"\xf0\x8f\xbf\xbf", b"\xe0\x9f\xbf", b"\xf8\x88\x80\x80\x80",
                  "é€\U0001F600\uFEFF\u2028\"\\\n\t\x00".encode(), b"\xef\xbf\xbf", b"\xf4\x8f\xbf\xbf"):
            ps.append(msg.base(1029, R, lens=[0])[:-1] + bytes([len(s)]) + s)
        pack(S, mode, ps, per=20)
        ps = [msg.base(1230, R, st, flags=f) for f in range(16) for st in (("rand", "edge", "corner", "corner", "corner") if deep == 1 else ("rand", "edge", "zero", "ones") + ("corner",) * 20)]
        ps += [msg.base(1029, R, "corner", lens=[R.randrange(0, 9)], kind="ascii") for _ in range(40 * deep)]
        pack(S, mode, ps, per=20)
        # all kinds in turn, also beside other families
        ps = [msg.base(R.choice(msg.BASE), R, R.choice(["corner", "rand"])) if R.random() < .8 else msg.good(R.choice(msg.EPH + msg.MSM), R) for _ in range(300 * deep)]
        pack(S, mode, ps, c=rctl(R), per=30)
        pack(S, mode, [msg.base(R.choice(msg.BASE), R, R.choice(["corner", "rand"])) for _ in range(120 * deep)], per=30)
    return S.out


def struct(seed, modes, name="struct", nums=None, reps=1):
    """Well-formed frames around structurally damaged payloads."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for num in nums or msg.ALL:
            for _ in range(reps):
                p = msg.good(num, R)
                while len(p) < 3:
                    p = msg.good(num, R)
                v = [p, p + b"\0", p + bytes([R.getrandbits(8)] * R.randrange(1, 5)), p[:-1], p[:-2], p[:R.randrange(2, len(p))], p[:2], p[:3]]
                if num in msg.MSM:
                    v += [p[:21], p[:22], p[:20]]
                    q = bytearray(p)
                    q[R.randrange(9, min(21, len(q)))] ^= 1 << R.randrange(8)      # masks announce something else
                    v.append(bytes(q))
                    v.append(msg.msm(num, R, sats=[1, 2], sgns=[2 if num // 10 != 113 else 8], cells=[0, 0]))
                    v.append(msg.msm(num, R, sats=[1, 2, 3], sgns=[], cells=[]))
                    v.append(msg.msm(num, R, sats=[], sgns=[2]) + b"\0")
                    # grids at the limit of 64 cells and beyond
                    kn = msg.KNOWN[msg.gnss(num)]
                    for ng in (R.choice([1, 2] if len(kn) < 4 else [1, 2, 4]),):
                        for tot, few in ((64, 1), (64, 0), (64 - ng, 0), (64 + ng, 1)):
                            if tot // ng > 64:
                                continue
                            v.append(msg.msm(num, R, sats=sorted(R.sample(range(1, 65), tot // ng)), sgns=sorted(R.sample(kn, ng)),
                                             cells=[1] + [0] * (tot - 2) + [1] if few else None))
                    if reps > 1 or R.random() < .3:
                        big = msg.msm(num, R, sats=list(range(1, 34)), sgns=[2, 3], cells=[1] + [0] * 65)
                        v.append(big)
                if num in (1007, 1008, 1029, 1033):
                    n = {1007: 1, 1008: 2, 1029: 1, 1033: 5}[num]
                    for _ in range(12):
                        # short texts, some of them empty, with one byte more or less
                        u = msg.base(num, R, lens=[R.choice([0, 0, 1, 2, 3]) for _ in range(n)])
                        v += [u, u + bytes([R.choice([0, 0, 32, 255, 1])]), u[:-1], u + b"\0\0"]
                    u = msg.base(num, R, lens=[0] * n)
                    v += [u, u + b"\0", u + b"\1", u[:-1]]
                    q = bytearray(p)
                    k = 3 if num != 1029 else 8
                    if k < len(q):
                        q[k] = (q[k] + R.choice([1, 2, 255, 254])) & 255
                        v.append(bytes(q))
                if num == 1013:
                    q = bytearray(p)
                    q[7] ^= R.choice([1, 2, 4])
                    v.append(bytes(q))
                v = [x for x in v if 2 <= len(x) <= 1023]
                v.append(p)
                for grp in chunked([frame(x) for x in v], 12):
                    S.add(mode, grp)
    return S.out


# ------------------------------------------------------------------ routing
def route(seed, modes, name="route", allnum=False):
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        # one of each, shuffled
        L = [frame(msg.good(n, R, "real")) for n in msg.ALL]
        R.shuffle(L)
        for grp in chunked(L, 16):
            S.add(mode, grp)
        # numbers around and beyond the catalogue
        pool = [n for n in range(4096) if n not in msg.ALL] if allnum else \
            [n for n in list(range(1001, 1050)) + list(range(1068, 1140)) + [1229, 1231, 1200, 4, 0, 4095, 2047, 2048 + 1077, 1077 // 2, 51, 53] if n not in msg.ALL]
        fs = []
        for n in pool:
            body = R.choice([msg.good(R.choice(msg.ALL), R, "real"), bytes(R.getrandbits(8) for _ in range(R.randrange(2, 30)))])
            b = bytearray(body)
            b[0], b[1] = n >> 4, ((n & 15) << 4) | (b[1] & 15)
            fs.append(frame(bytes(b)))
        for grp in chunked(fs, 50):
            S.add(mode, grp + [frame(msg.good(1005, R)), frame(msg.good(1074, R, "real"))])
    return S.out


def around(seed, modes, reps, name="around", c=None):
    """Every kind of message before and behind every other kind, all about the same station,
    satellites and signals, in streams as a receiver sends them."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for _ in range(reps):
            sats = sorted(R.sample(range(1, 6), 3))
            rs = R.getrandbits(12)

            def one(n):
                if n in msg.MSM:
                    g = msg.gnss(n)
                    k = msg.KNOWN[g]
                    return msg.msm(n, R, sats=sats, sgns=sorted({k[0], R.choice(k)}), style=R.choice(["real", "mark"]), hdr={"rs": rs})
                p = bytearray(msg.good(n, R, R.choice(["rand", "real", "corner"])))
                if n in msg.BASE:
                    if n == 1230:
                        p = bytearray(msg.base(1230, R, flags=R.choice([15, 15, R.getrandbits(4)])))
                    p[1], p[2] = (p[1] & 0xF0) | (rs >> 8), rs & 255
                return bytes(p)
            L = msg.ALL[:]
            R.shuffle(L)
            for order in (L, L[::-1]):
                S.add(mode, [frame(one(n)) for n in order], c=c(R) if c else None)
    return S.out


# ------------------------------------------------------------------ histories
def bad_payload(R, fam):
    num = R.choice({"msm": msg.MSM, "eph": msg.EPH, "base": msg.BASE}[fam])
    p = msg.good(num, R, "real")
    while len(p) < 5:
        p = msg.good(num, R, "real")
    how = R.randrange(3)
    if fam == "msm" and how == 2:
        g = msg.gnss(num)
        return msg.msm(num, R, sats=[1, 2], sgns=msg.KNOWN[g][:1], cells=[0, 0])
    if how == 0:
        return p + b"\0"
    return p[:-1] if len(p) > 3 else p + b"\0\0"


OBST = {"msm": {"JSON": ["MSM%d" % k for k in range(1, 8)], "MARGO": ["GPS", "GLN", "GAL", "SBS", "QZS", "BDS", "NAVIC"]},
        "eph": ["EPH"], "base": ["BASE"]}


def obstacles(mode, fams):
    out = []
    for f in fams:
        if f == "msm":
            out += OBST["msm"]["JSON" if mode in ("JSON", "JSON-B") else "MARGO"]
        elif mode != "MARGO":
            out += OBST[f]
    return out


def history_files(seed, behaviours, name="histfile", every=1):
    """The same histories through the file loop, for the verdict in the log."""
    S = Suite(name, seed)
    for sc in history(seed, behaviours, name=name, every=every, c=rctl):
        data = bytes.fromhex(sc["s"])
        if S.R.random() < .3:
            # the source fills whole blocks exactly, or misses that by one byte
            fill = (-len(data) - S.R.choice([0, 0, 0, 1, -1])) % 4096
            while fill > 1029:
                data += frame(small(S.R, 900))
                fill -= 906
            if fill >= 8:
                data += frame(small(S.R, fill - 6))
        S.file(sc["mode"], data, c=sc["ctl"], obst=sc["obst"])
    return S.out


def history(seed, behaviours, name="hist", every=1, c=None, clear=False):
    """Abstract histories enumerated by MCConverter, made concrete."""
    S = Suite(name, seed)
    R = S.R
    for k, b in enumerate(behaviours):
        if k % every:
            continue
        fs = []
        for fam, v in b["h"]:
            if fam == "gap":
                fs.append(noise(R, R.randrange(1, 5)))
            elif fam == "none":
                fs.append(frame(odd(R)))
            elif v == "ok":
                num = R.choice({"msm": msg.MSM, "eph": msg.EPH, "base": msg.BASE}[fam])
                fs.append(frame(msg.msm(num, R, sats=sorted(R.sample(range(1, 6), 2)), style=R.choice(["real", "mark"])) if fam == "msm" else msg.good(num, R)))
            else:
                fs.append(frame(bad_payload(R, fam)))
        data = b"".join(fs)
        S.add(b["mode"], data, cut(R, len(data), R.choice(["whole", "rand"])), obst=obstacles(b["mode"], b["obst"]), c=c(R) if c else None)
        if clear and b["obst"] and len(fs) > 1:
            # once more, with the obstacles taken away half way: the messages again afterwards
            S.add(b["mode"], data + data, [len(data), len(data)], obst=obstacles(b["mode"], b["obst"]), c=c(R) if c else None)
            S.out[-1]["clr"] = 1
    return S.out


def repeats(seed, modes, name="repeat", n=10, nums=None):
    """The same message number many times with different content: entries and
    rows accumulate in order and never leak from one message into the next."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for num in nums or R.sample(msg.MSM, 6) + R.sample(msg.EPH, 2) + R.sample(msg.BASE, 2):
            fs = []
            for _ in range(n):
                if num in msg.MSM:
                    g = msg.gnss(num)
                    sg = sorted(R.sample(msg.KNOWN[g], R.randint(1, min(3, len(msg.KNOWN[g])))))
                    fs.append(frame(msg.msm(num, R, sats=sorted(R.sample(range(1, 6), R.randint(1, 3))), sgns=sg, style=R.choice(["mark", "real"]))))
                else:
                    fs.append(frame(msg.good(num, R)))
                if R.random() < .25:
                    fs.append(frame(bad_payload(R, "msm")))
            S.add(mode, fs)
    return S.out


def twins(seed, modes, name="twin", nums=None, reps=1):
    """Messages that agree in all but a part: same header and masks with another body, same epoch
    with other satellites, the same message again, a damaged copy in between."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for num in nums or (msg.MSM if mode in ("MARGO", "JARGO") else msg.ALL):
            for _ in range(reps):
                fs = []
                if num in msg.MSM:
                    g = msg.gnss(num)
                    sg = sorted(R.sample(msg.KNOWN[g], R.randint(1, min(2, len(msg.KNOWN[g])))))
                    pool = range(1, msg.MAXSAT[g] + 1)
                    sa = sorted(R.sample(pool, 2))
                    cells = [1] + [R.randrange(2) for _ in range(2 * len(sg) - 1)]
                    h = dict(rs=R.getrandbits(12), time=R.randrange(0, 86400000), mmb=1, iods=R.getrandbits(3), res=R.getrandbits(7), steer=R.getrandbits(2), ext=R.getrandbits(2),
                             indc=R.getrandbits(1), intr=R.getrandbits(3))

                    def m(n=num, sats=sa, c=cells, **k):
                        return msg.msm(n, R, sats=sats, sgns=sg, cells=c, style="real", hdr=dict(h, **k))
                    a = m()
                    fs = [a, m(), a, a, m(sats=sorted(R.sample(pool, 2))), a[:-1], m(mmb=0), m(rs=h["rs"] ^ 1), a, m(iods=h["iods"] ^ 1), m(time=h["time"] + 1), m(),
                          m(c=[0] * (len(cells) - 1) + [1]), m(n=num // 10 * 10 + 1 + num % 10 % 7), m(intr=h["intr"] ^ 1), a]
                else:
                    a = msg.base(num, R, lens=[6] * 5, nm=2, flags=R.getrandbits(4)) if num in msg.BASE else msg.good(num, R)

                    def m(lo, hi):
                        q = bytearray(a)
                        for _ in range(3):
                            q[R.randrange(int(len(q) * lo), int(len(q) * hi))] ^= R.choice([1, 2, 4, 8, 16])
                        return bytes(q)
                    part = .5 if num not in (1029, 1013, 1230, 1007, 1008, 1033) else .75
                    fs = [a, m(part, 1), a, a, m(part, 1), a[:-1], a, m(part, 1) + b"\0", m(part, 1)]
                k = R.randrange(len(fs))
                S.add(mode, [frame(x) for x in fs[k:] + fs[:k]])
    return S.out


def longrun(seed, modes, n=300, name="long"):
    """Hundreds of messages in one conversion."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        fs = []
        kinds = [1005, 1230, 1071, 1019, 1007]
        for k in range(n):
            num = R.choice(kinds)
            p = msg.msm(num, R, sats=[R.randrange(1, 33)], sgns=[2], cells=[1], style="real") if num in msg.MSM else msg.good(num, R)
            fs.append(frame(p))
            if k % 37 == 5:
                fs.append(noise(R, 3))
            if k % 41 == 7:
                fs.append(frame(bad_payload(R, "eph")))
        S.file(mode, fs)
    return S.out


def endure_stream(seed, n=1100, name="endstream"):
    """One converter, more than a thousand of everything: frames, disturbances, reads."""
    S = Suite(name, seed)
    R = S.R
    def mix(tok, k, every):
        fs = []
        for j in range(k):
            fs.append(frame(small(R, R.choice([2, 2, 3, 4]))))
            if j % every == 0:
                fs.append(token(R, tok) if tok else noise(R, R.randrange(1, 3)))
        return b"".join(fs)
    d = mix(None, n, 1)                                     # a gap after each message
    S.file("JSON", d)
    S.add(R.choice(MODES), d, cut(R, len(d), "k4096"))
    d = mix(R.choice(["flip", "crc"]), n // 2, 1)
    S.add("JSON", d, cut(R, len(d), "rand"))
    d = mix("zero", n // 2, 2)
    S.add("MARGO", d)
    d = b"".join(frame(small(R, R.choice([2, 3]))) for _ in range(n * 2))   # nothing but messages
    S.file(R.choice(MODES), d)
    d = noise(R, 9000) + mix(None, 40, 3) + noise(R, 20000) + mix(None, 10, 2) + bytes(70000) + mix(None, 6, 2)   # long silences
    S.file("JSON", d)
    S.add("JSON", d)
    d = b"\xD3" * 3000 + frame(small(R)) + b"\xD3\x00" * 900 + frame(small(R)) * 260
    S.add("JSON-B", d, cut(R, len(d), "k4096"))
    return S.out


def tiny(R, num):
    """A short acceptable message."""
    if num in msg.MSM:
        g = msg.gnss(num)
        return msg.msm(num, R, sats=[R.randrange(1, msg.MAXSAT[g] + 1)], sgns=[R.choice(msg.KNOWN[g])], cells=[1], style="real")
    return msg.good(num, R)


def endure(seed, modes, n=1100, name="endure", kinds=("base", "eph", "msm", "mix", "bad", "odd")):
    """More than a thousand messages of one kind in one conversion."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for kind in kinds:
            if mode == "MARGO" and kind in ("base", "eph"):
                continue
            num = dict(base=R.choice([1005, 1006, 1230]), eph=R.choice(msg.EPH), msm=R.choice(msg.MSM)).get(kind)
            k = {"eph": n // 4, "mix": n // 2}.get(kind, n)
            fs = []
            for j in range(k):
                if kind == "mix":
                    fs.append(frame(tiny(R, R.choice([1005, 1230, 1071, 1072, 1087, 1094, 1124, 1007]))))
                elif kind == "bad":      # the unusable ones are counted, the last one still converted
                    fs.append(frame(bad_payload(R, R.choice(["msm", "base"])) if j % 300 else tiny(R, 1071)))
                elif kind == "odd":
                    fs.append(frame(small(R, 3) if j % 300 else tiny(R, 1077)))
                else:
                    fs.append(frame(tiny(R, num)))
            S.file(mode, fs, c=ctl(pretty=False) if R.random() < .5 else None, tag=kind)
    return S.out


def endure_sess(seed, n=300, name="endsess"):
    """One command with hundreds of sources; sources with hundreds of remarks in the log."""
    import drivers
    S = Suite(name, seed)
    R = S.R
    for mode in (R.choice(["MARGO", "JARGO"]), R.choice(["JSON", "JSON-B"])):
        c = rctl(R)
        src = []
        for j in range(n):
            d = frame(tiny(R, R.choice([1005, 1071, 1084, 1230])))
            if j % 9 == 5:
                d += noise(R, 2) + frame(small(R, 2))
            if j % 11 == 7:
                d += frame(bad_payload(R, "base"))
            src.append(dict(name="q%d.rtcm3" % j, s=d.hex(), kind="none" if j % 17 == 3 else "file", stale=False))
            if j % 17 == 3:
                src[-1]["s"] = ""
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="cli", mode=mode, ctl=c, ctlok=1, args=list(range(1, n + 1)), src=src, defaults=drivers.ini_text(c)))
    for mode in (R.choice(["MARGO", "JARGO"]), R.choice(["JSON", "JSON-B"])):
        c = rctl(R)
        src = []
        for j, what in enumerate((("good",), ("rej", "good"), ("unk", "noise"), ("rej", "unk", "noise", "good"))):
            d = b""
            for _ in range(4 * n):
                w = R.choice(what)
                d += {"good": lambda: frame(tiny(R, 1071)), "rej": lambda: frame(tiny(R, 1071) + b"\0"), "unk": lambda: frame(small(R, 2)),
                      "noise": lambda: noise(R, 1) + frame(small(R, 2))}[w]()
            src.append(dict(name="r%d.rtcm3" % j, s=d.hex(), kind="file", stale=False))
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="cli", mode=mode, ctl=c, ctlok=1, args=[1, 2, 3, 4], src=src, defaults=drivers.ini_text(c)))
    return S.out


def manyfiles(seed, modes, name="many", rounds=2):
    """Every message number again and again in one conversion: all outputs are open at once."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        fs = []
        for _ in range(rounds):
            L = []
            for n in msg.ALL:
                if n in msg.MSM:
                    g = msg.gnss(n)
                    L.append(frame(msg.msm(n, R, sats=[R.randrange(1, msg.MAXSAT[g] + 1)], sgns=sorted(R.sample(msg.KNOWN[g], 1)) if mode[:2] == "JS" else msg.KNOWN[g][:3], style="real")))
                else:
                    L.append(frame(msg.good(n, R)))
            R.shuffle(L)
            fs += L
        S.add(mode, fs, c=ctl(lt=True, hca=True) if mode[:2] != "JS" else None)
    return S.out


def switches(seed, modes, name="switch", keys=("pretty", "hdr", "aux")):
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for v in range(1 << len(keys)):
            c = ctl(**{k: bool(v >> i & 1) for i, k in enumerate(keys)})
            nums = R.sample(msg.MSM, 4) + [R.choice([1071, 1083, 1092]), R.choice([1077, 1084, 1096])]
            if mode in ("JSON", "JSON-B", "JARGO"):
                nums += [R.choice(msg.EPH), R.choice(msg.BASE), 1033]
            fs = [frame(msg.good(n, R, "real")) for n in nums for _ in range(2)]
            if mode in ("JSON", "JSON-B", "JARGO"):
                # the smallest and the largest entries there are
                for n in (1007, 1008, 1029, 1033):
                    fs += [frame(msg.base(n, R, "zero", lens=[0] * 5)), frame(msg.base(n, R, lens=[R.choice([180, 190])] * 5))]
                fs += [frame(msg.base(1013, R, "zero", nm=0)), frame(msg.base(1013, R, nm=31)), frame(msg.base(1230, R, "zero", flags=0)), frame(msg.base(1230, R, flags=15))]
                fs += [frame(msg.good(n, R, st)) for n in (1005, 1006) for st in ("zero", "ones")]
                fs += [frame(msg.eph(n, R, st)) for n in msg.EPH for st in ("zero", "ones")]
                fs += [frame(msg.msm(n, R, sats=[], sgns=[])) for n in R.sample(msg.MSM, 7)]
            fs.append(frame(msg.msm(R.choice(msg.MSM), R, sats=[])))
            S.add(mode, fs, c=c if v % 3 else dict(c, via="code"))
        S.add(mode, fs, c=BUILTIN)
    return S.out


def margo_ctl(seed, modes, name="mctl", reps=1):
    """HCA / LOCK_TIME switches over messages rich in half-cycle flags."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for hca in (False, True):
            for lt in (False, True):
                for t in range(1, 8):
                    fs = []
                    for gi in R.sample(range(7), 2 * reps):
                        g = msg.GN[gi]
                        for _ in range(2):
                            fs.append(frame(msg.msm(1071 + 10 * gi + t - 1, R, sats=sorted(R.sample(range(1, msg.MAXSAT[g] + 1), 3)), style=R.choice(["real", "mark", "rand"]))))
                    c = dict(rctl(R), hca=hca, lt=lt)
                    if R.random() < .3:
                        c["via"] = "code"
                    S.add(mode, fs, c=c)
        S.add(mode, [frame(msg.msm(1080 + t, R, sats=list(range(1 + 12 * h, 13 + 12 * h)), sgns=sg, cells=[1] * (12 * len(sg)), style="real"))
                     for t, sg, h in ((7, [2, 8], 0), (5, [3, 9], 1), (4, [2, 9], 1), (2, [8], 0), (7, [2], 1))], c=BUILTIN)
    return S.out


def glo_freq(seed, modes, name="glo"):
    """Every GLONASS slot with every channel number."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        for k in range(4):
            lit = [((i + 5 * k) % 14) - 7 for i in range(24)]
            c = ctl(lit=lit, hca=True)
            S.add(mode, [frame(msg.msm(1080 + t, R, sats=list(range(1 + 12 * h, 13 + 12 * h)), sgns=sg, cells=[1] * (12 * len(sg)), style="real"))
                         for t, sg, h in ((7, [2, 8], 0), (5, [3, 9], 1), (4, [2, 9], 1), (2, [8], 0))], c=c)
    return S.out


# ------------------------------------------------------------------ faults
OTHERS = ("os", "key", "val", "run", "mem", "fnf", "idx", "type", "assert", "zero", "eof", "attr", "stop", "exc", "perm", "isdir", "intr", "timeout", "pipe",
          "over", "rec", "buf", "ref", "lookup", "nimp", "uni", "name", "imp", "sys", "syn", "warn")


def faults(seed, name="fault", modes=("JSON", "MARGO"), n=5, deep=False):
    """A fault at every call the file loop makes."""
    S = Suite(name, seed)
    R = S.R
    for mode in modes:
        nums = R.sample([1005, 1019, 1071, 1074, 1082, 1097, 1007, 1230], n)
        fs = [frame(msg.msm(x, R, sats=[1, 3], style="real") if x in msg.MSM else msg.good(x, R)) for x in nums]
        fs.insert(2, frame(small(R)))
        fs.insert(1, frame(bad_payload(R, "msm")))
        data = b"".join(fs)
        if deep:
            data += b"".join(frame(small(R, 1000)) for _ in range(4)) + b"".join(fs)
        m = len(fs) * (2 if deep else 1) + (4 if deep else 0)
        for op, top in (("parse", 2), ("decode", m), ("print", m)):
            for k in range(1, top + 1):
                for when in ("before", "after"):
                    for exc in ("int", OTHERS[S.n % len(OTHERS)]) if not deep else ("int",) + OTHERS[:5] if S.n % 2 else ("int",) + OTHERS[5:]:
                        S.n += 1
                        if deep or op != "decode" or exc == "int" or k % 2:
                            S.file(mode, data, fault=dict(op=op, n=k, when=when, exc=exc))
        # the user interrupts somewhere inside an operation
        for op, top, depths in (("parse", 2, (1, 2, 3, 5, 8, 13)), ("decode", m, (1, 2, 3, 4, 5, 6, 8, 12, 20, 60)), ("print", m, (1, 2))):
            for k in range(1, top + 1):
                for dp in depths if deep else R.sample(depths, min(3, len(depths))):
                    S.file(mode, data, fault=dict(op=op, n=k, when="deep", depth=dp, exc="int"))
        S.file(mode, data)
        S.file(mode, b"")
        # late in a source of several blocks: before, at and after each block boundary
        for rep in range(3 if deep else 1):
            gs = []
            for b in range(3):
                gs += [frame(msg.msm(R.choice(msg.MSM), R, sats=[1, 3], style="real")), frame(bad_payload(R, "msm")), frame(msg.good(R.choice(msg.ALL), R))]
                gs += [frame(small(R, R.randrange(960, 1020))) for _ in range(4)]
            gs += [frame(msg.msm(R.choice(msg.MSM), R, sats=[1, 3], style="real")), frame(small(R))]
            late = b"".join(gs)
            m = len(gs)
            for op, ks, depths in (("parse", range(1, 6), (1, 3, 8)), ("decode", range(1, m + 1), (1, 3, 6, 12)), ("print", range(1, m - 3), (1, 2))):
                for k in ks:
                    for when in ("before", "after"):
                        S.file(mode, late, fault=dict(op=op, n=k, when=when, exc=R.choice(("int", R.choice(OTHERS)))))
                    if depths and (deep or R.random() < .5):
                        S.file(mode, late, fault=dict(op=op, n=k, when="deep", depth=R.choice(depths), exc="int"))
            S.file(mode, late)
            # an interrupt between any two steps of the loop, and while progress is reported
            for k in range(1, 300, 1 if deep else 5):
                S.file(mode, late, fault=dict(op="line", n=k if deep else k + R.randrange(5), when="", exc="int"))
            for k in range(1, (len(late) + 4095) // 4096 + 1):
                S.file(mode, late, fault=dict(op="stat", n=k, when="before", exc="int"))
    return S.out


# ------------------------------------------------------------------ library use
def library(seed, behaviours, name="lib"):
    """Schedules enumerated by MCApi over converters of random modes; the converters often
    work on the same message numbers, and a chunk carries part of the next message."""
    S = Suite(name, seed)
    R = S.R
    # several schedules interleaved: up to eight converters at a time
    for _ in range(max(20, len(behaviours) // 12)):
        parts, n = [], 0
        for b in R.sample(behaviours, R.choice([2, 3, 4])):
            parts.append([[o, c + n, k] for o, c, k in b["h"]])
            n += max(e[1] for e in b["h"])
        if R.random() < .5:
            # all of them exist before anything else happens
            first = [e for p in parts for e in p if e[0] == "n"]
            parts = [[e for e in p if e[0] != "n"] for p in parts]
        else:
            first = []
        h = first
        while any(parts):
            h.append(R.choice([p for p in parts if p]).pop(0))
        behaviours = behaviours + [dict(h=h)]
    for b in behaviours:
        ncv = max(e[1] for e in b["h"])
        nms = max(e[2] for e in b["h"])
        same = R.random() < .6
        mode0 = R.choice(MODES)
        pool = R.sample(msg.MSM, 2) + [R.choice(msg.EPH), R.choice(msg.BASE)]
        if mode0 == "MARGO":
            pool = pool[:2]
        conv = []
        for _ in range(ncv):
            mode = mode0 if same else R.choice(MODES)
            fs, ch = [], []
            for k in range(nms):
                num = R.choice(pool[:1] * 3 + pool)
                u = R.random()
                if u < .06:
                    fs.append(frame(bad_payload(R, "msm")))
                elif u < .1:
                    fs.append(frame(small(R)))
                elif num in msg.MSM:
                    g = msg.gnss(num)
                    fs.append(frame(msg.msm(num, R, sats=sorted(R.sample(range(1, 6), R.randint(1, 3))),
                                            sgns=sorted(R.sample(msg.KNOWN[g], R.randint(1, min(2, len(msg.KNOWN[g]))))), style=R.choice(["real", "mark"]))))
                else:
                    fs.append(frame(msg.good(num, R)))
            fed = 0
            for k in range(nms):
                end = sum(len(f) for f in fs[:k + 1])
                extra = R.randrange(0, len(fs[k + 1])) if k + 1 < nms and R.random() < .6 else 0
                ch.append(end + extra - fed)
                fed = end + extra
            conv.append(dict(mode=mode, ctl=rctl(R), s=b"".join(fs).hex(), ch=ch))
            if R.random() < .3:
                # the folder was used before, for messages of the same numbers
                L = fs[R.randrange(len(fs)):] + [frame(msg.good(R.choice(pool), R))]
                conv[-1]["used"] = b"".join(L).hex()
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="lib", conv=conv, sched=b["h"], rel=R.choice([1, 1, 2])))
    return S.out


# ------------------------------------------------------------------ repetition
def mixed(R, mode, n):
    fs = []
    for _ in range(n):
        u = R.random()
        if u < .08:
            fs.append(noise(R, R.randrange(1, 5)))
        elif u < .16:
            fs.append(frame(bad_payload(R, R.choice(["msm", "eph", "base"]))))
        elif u < .24:
            fs.append(frame(odd(R)))
        elif u < .7 or mode == "MARGO":
            fs.append(frame(msg.msm(R.choice(msg.MSM), R, style=R.choice(["real", "mark", "rand"]))))
        elif u < .78:
            num = R.choice([1007, 1008, 1029, 1033])
            fs.append(frame(msg.base(num, R, lens=[R.randrange(1, 12) for _ in range(msg_texts(num))], kind="utf")))
        else:
            fs.append(frame(msg.good(R.choice(msg.EPH + msg.BASE), R)))
    return b"".join(fs)


def msg_texts(num):
    return {1007: 1, 1008: 2, 1033: 5, 1029: 1}[num]


def reproduce(seed, name="repro", n=32, size=14):
    """Orders of circumstances under which one source is converted repeatedly."""
    S = Suite(name, seed)
    R = S.R
    for k in range(n):
        mode = MODES[k % 4]
        data = mixed(R, mode, size)
        # bytes that mean something to text files, archives and terminals
        fs = [R.choice([b"", b"", b"\xef\xbb\xbf", b"\x1f\x8b\x08", b"PK\3\4", b"#!RTCM\r\n", b"\r\n", b"\0\0", b"\xff\xfe", b"\x1a"]), data]
        for b in (b"\r\n", b"\n\n", b"\x1a\x00", b"\n\r", b"\x00\x00", b"\xff\xff"):
            x = int.from_bytes(b, "big")
            fs.append(frame(msg.msm(R.choice([n for n in msg.MSM if n // 10 != 108]), R, hdr=dict(rs=(R.getrandbits(4) << 8) | (x >> 8), time=((x & 255) << 22 | R.getrandbits(22)) % 604800000)))
                      if mode == "MARGO" or R.random() < .5 else frame(msg.base(R.choice([1007, 1029]), R, lens=[R.randrange(20, 60)], kind="special")))
        data = b"".join(fs)
        kinds = ["lib", "main", "proc", "proc"] + R.choice([["main"], ["lib"], ["proc"]])
        kinds += ["name", "name", "name"]
        R.shuffle(kinds)
        how = []
        for h in kinds:
            if h == "name":
                how.append(["name", R.choice(["y.rtcm3", "x.bin", "x", "X.RTCM3", "x.v1.2.rtcm", "d/e/x.rtcm3", "GLO-2024-01-01.rtcm3", "1077.rtcm3", "msg1085.rtcm3", "d.x/x", ".x", "x.log",
                                              "x.txt", "x.json", "x.obs", "x.ini", "JSON.rtcm3", "MARGO/x-JSON.rtcm3", "test.rtcm3", "tests/x.rtcm3", 120 * "l" + ".rtcm3", "\u00e9.rtcm3", "0.0",
                                              "bare.rtcm3", "tmp_x.rtcm3", "x-B.rtcm3", "x~", "#x#", "BDS.rtcm3", "eph.rtcm3"]),
                            R.choice(["", "", "ro", "old"]), R.choice([0, 1, 86400 * 365, 10 ** 9, 2 ** 31, 2 ** 32 + 5]), R.randrange(2), R.randrange(2)])
            elif h == "lib":
                how.append(["lib", cut(R, len(data), R.choice(["whole", "rand", "k4096"]))])
            elif h == "main":
                how.append(["main", R.randrange(0, 2)])
            else:
                how.append(["proc", R.choice([0, 1, 2, 3, R.randrange(4, 1 << 30), "random"]), R.randrange(0, 2), R.randrange(2), R.choice([0, 1, 1, 2, 3]),
                            R.choice([0, 1, 61, 600, 1860, 3600, 11 * 3600, 86400, 5 * 86400, 31 * 86400, 200 * 86400, 366 * 86400, 9 * 366 * 86400, -40 * 86400, R.randrange(-10 ** 8, 10 ** 8)])])
        S.out.append(dict(id=f"{name}/{k}", kind="repro", mode=mode, ctl=rctl(R), s=data.hex(), other=mixed(R, mode, 5).hex(), how=how))
    return S.out


# ------------------------------------------------------------------ sessions
def sess_bytes(R, shape, big=False):
    def some(k):
        return [frame(msg.msm(R.choice(msg.MSM), R, sats=[1, 2], style="real")) for _ in range(k)] + [frame(msg.good(R.choice(msg.EPH + msg.BASE), R))]
    fs = some(R.randrange(1, 3))
    if shape == "noisy":
        return b"".join(fs) + noise(R, 3) + b"".join(some(1))
    if shape == "reject":
        return b"".join(fs) + frame(bad_payload(R, "msm")) + b"".join(some(1))
    if shape == "empty":
        return b""
    if shape in ("read1", "int1"):
        return b"".join(b"".join(some(1)) + b"".join(frame(small(R, 1000)) for _ in range(4)) for _ in range(R.choice([1, 1, 1, 2, 3]))) + b"".join(some(1)) + R.choice([b"", noise(R, 2) + frame(small(R))])
    return b"".join(fs)


BROKEN = ("", "[JSON]\nENABLE_PRETTY_VIEW = true\n", None)


NAMES = ["s%d.rtcm3", "d%d/in.v1.rtcm3", "s%d", "s.%d.bin"]
ODD = ["d.%d/in", "d.x%d/a.b.c.rtcm3", "S%d.RTCM3", ".h%d", ".h%d.rtcm3", "s%d-JSON.rtcm3", "x[%d].rtcm3", "s%d..rtcm3", "very-" + 90 * "l" + "ong%d.rtcm3", "q%d/JSON/GPS.obs", "s%d-log.txt"]
SPACED = ["my file %d.rtcm3", "a b/c %d.bin", " lead%d.rtcm3", "\u00e9t\u00e9%d.rtcm3", "it's%d.rtcm3", "a,b%d;.rtcm3", "100%%%d.rtcm3", "#%d{0}.rtcm3"]


def sname(R, dest, how):
    pool = NAMES if R.random() < .5 else ODD if how == "line" or R.random() < .5 else SPACED
    return R.choice(pool) % dest


def sessions(seed, behaviours, name="sess", every=1, want=None):
    """Sessions enumerated by MCSession, made concrete."""
    import drivers
    S = Suite(name, seed)
    R = S.R
    k = -1
    for b in behaviours:
        if len(b["a"]) == 1 and b["a"][0][0] == "dir":
            continue            # a single directory argument starts the dialogue
        if want and not want(b):
            continue
        k += 1
        if k % every:
            continue
        mode = MODES[R.randrange(4)]
        how = R.choice(["line", "argv", "rel"])
        src, args, names = [], [], {}
        for shape, stale, dest in b["a"]:
            if dest not in names:
                data = sess_bytes(R, shape)
                q = dict(name=sname(R, dest, how), s=data.hex(),
                         kind={"missing": "none", "dir": "dir"}.get(shape, "file"), stale=stale and shape != "blocked", blocked=shape == "blocked")
                if shape in ("missing", "dir"):
                    q["name"] = "s%d.rtcm3" % dest
                    q["s"] = ""
                f = {"open": dict(n=-1, exc="os"), "read0": dict(n=0, exc="os"), "read1": dict(n=max(1, len(data) // 4096 - R.choice([0, 0, 1])), exc="os"), "int1": dict(n=max(1, len(data) // 4096 - R.choice([0, 0, 1])), exc="int")}.get(shape)
                if f:
                    q["fault"] = f
                if q["kind"] == "file" and R.random() < .15:
                    q["link"] = R.choice([1, 2])
                if q["blocked"] and "/" in q["name"]:
                    q["name"] = "s%d.rtcm3" % dest
                src.append(q)
                names[dest] = len(src)
            args.append(names[dest])
        c = rctl(R)
        text = drivers.ini_text(c)
        if not b["ctl"]:
            text = R.choice([text.replace("[JSON]", "[NOSON]"), text.replace("HCA", "HCB"), text.replace("GPS2UTC", "GPS3UTC"), text.replace("R24", "R25"), "",
                             text.replace("ENABLE_AUX_DATA", "AUX")])
        opts = ["-o", mode] if mode != "MARGO" or R.random() < .5 else []
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="cli", mode=mode, ctl=c, ctlok=1 if b["ctl"] else 0, args=args, src=src, defaults=text, opts=opts, how=how))
    return S.out


def bigsession(seed, name="bigsess", n=3):
    """Larger files and user controls through the command line."""
    import drivers
    S = Suite(name, seed)
    R = S.R
    for k in range(n):
        mode = MODES[k % 4]
        base = rctl(R)
        eff = rctl(R)
        src = []
        for j in range(3):
            fs = []
            while sum(map(len, fs)) < 5000:
                fs.append(frame(msg.good(R.choice(msg.ALL), R, "real")))
                if j == 1 and R.random() < .2:
                    fs.append(noise(R, 3))
            src.append(dict(name="f%d.rtcm3" % j, s=b"".join(fs).hex(), kind="file"))
        S.out.append(dict(id=f"{name}/{k}", kind="cli", mode=mode, ctl=eff, ctlok=1, args=[1, 2, 3], src=src, defaults=drivers.ini_text(base), user=drivers.ini_text(eff)))
    return S.out


def logs(seed, name="logs", n=24):
    """Sources of several blocks with all kinds of trouble, some of them failing half-way."""
    import drivers
    S = Suite(name, seed)
    R = S.R
    for k in range(n):
        mode = MODES[k % 4]
        src = []
        for j in range(R.randrange(1, 3)):
            data, size = b"", R.choice([0, 60, 3000, 4096, 4096, 8192, 9000, 13000]) if k % 3 else R.choice([4096, 8192])
            trouble = R.choice([0, .1, .3])
            while len(data) < size:
                u = R.random()
                if u < trouble:
                    data += R.choice([lambda: noise(R, R.randrange(1, 9)), lambda: frame(bad_payload(R, R.choice(["msm", "eph", "base"]))), lambda: frame(small(R)),
                                      lambda: token(R, R.choice(["flip", "hide", "resv"]))])()
                elif u < .5:
                    data += frame(small(R, R.randrange(100, 1000)))
                else:
                    data += frame(msg.good(R.choice(msg.ALL), R, "real"))
            if k % 3 == 0 and size:
                # ends exactly with a block
                rest = size - (len(data) - len(data) // size * size) if len(data) != size else 0
                while rest and rest < 8:
                    rest += size
                while rest > 900:
                    data += frame(small(R, 400))
                    rest -= 406
                if rest:
                    data += frame(small(R, rest - 6))
            q = dict(name="l%d.rtcm3" % j, s=data.hex(), kind="file", stale=R.random() < .3)
            if R.random() < .3:
                q["fault"] = dict(n=R.randrange(0, 3), exc=R.choice(["os", "int"]))
            src.append(q)
        args = list(range(1, len(src) + 1))
        if R.random() < .3:
            args.append(1)
        c = rctl(R)
        S.out.append(dict(id=f"{name}/{k}", kind="cli", mode=mode, ctl=c, ctlok=1, args=args, src=src, defaults=drivers.ini_text(c)))
    return S.out


def cmdlines(seed, behaviours, name="opts"):
    """Command lines enumerated by MCCli in all spellings."""
    S = Suite(name, seed)
    R = S.R
    LONG = {"o": "--output", "i": "--ini"}
    for b in behaviours:
        folder = R.randrange(2)
        alt = R.choice(["bin", "bin", ".bin", "BIN", "RTCM3", "a.b", "rtcm4", "3"])
        which = R.choice(["rtcm3", alt])
        near = {".bin": "bin", "BIN": "bin", "RTCM3": "rtcm3", "a.b": "b", "bin": ".bin"}.get(alt, "bin")    # not asked for
        b = dict(b, w=[dict(w, v=alt) if w["k"] == "ext" and w["v"] == "bin" else w for w in b["w"]])
        line = []
        for w in b["w"]:
            k, v = w["k"], w["v"]
            if k == "bad":
                k, v = "o", R.choice(["XML", "json", "MARGO2", "JSON-A"])
            if k in ("o", "i", "ext"):
                if k == "i":
                    v += ".ini"
                if k == "ext":
                    line += ["-ext", v]
                else:
                    sp = R.randrange(6)
                    line += [["-" + k, v], [LONG[k], v], [LONG[k] + "=" + v], ["-" + k + v], [LONG[k][:R.choice([4, 5])], v], [LONG[k][:4] + "=" + v]][sp]
            elif k == "src":
                line.append("fld" if folder else "fld/m." + which)
            elif k == "unk":
                line.append(R.choice(["-x", "--what", "--json", "-z=1"]))
            elif k == "ver":
                line.append(R.choice(["-v", "--version"]))
            elif k == "help":
                line.append(R.choice(["-h", "--help"]))
            else:
                line.append({"o": R.choice(["-o", "--output"]), "i": R.choice(["-i", "--ini"]), "ext": "-ext"}[v])
        if not line:
            continue
        src = [[n, b"".join([frame(msg.msm(R.choice([1077, 1084, 1094, 1122]), R, sats=[1, 3], style="real")), frame(msg.good(R.choice(msg.EPH), R)),
                             frame(msg.good(1005, R))]).hex()] for n in dict.fromkeys(("rtcm3", alt, near))]
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="opt", words=b["w"], line=line, argv=R.randrange(2), folder=folder, name=which,
                          ctl=rctl(R), ctlA=rctl(R), ctlB=rctl(R), src=src))
    return S.out


# ------------------------------------------------------------------ controls
SECT = {"hca": "MARGO", "lt": "MARGO", "shift": "TIME", "pretty": "JSON", "hdr": "JSON", "aux": "JSON"}
NAME = {"hca": "HCA", "lt": "LOCK_TIME", "shift": "GPS2UTC", "pretty": "ENABLE_PRETTY_VIEW", "hdr": "ENABLE_HDR_DATA", "aux": "ENABLE_AUX_DATA"}


def layer(R, kind, keys, junk=True, base=None, last=False):
    """One configuration file giving the abstract settings `keys`."""
    d, sec = [], {}
    if kind != "text":
        return dict(kind=kind, d=[], text="" if R.random() < .5 else "# nothing here\n\n")
    for k in keys:
        if k == "lit":
            # a user file may give any part of the channel table
            ids = list(range(1, 25)) if base is None else sorted(R.sample(range(1, 25), R.choice([1, 2, 24])))
            for i in ids:
                v = R.choice([R.randrange(-7, 14), R.randrange(-7, 14), R.randrange(-40, 120)])
                d.append(["R%d" % i, v])
                sec.setdefault("LITERALS", []).append((R.choice(["R%d", "r%d"] + (["R%02d", "%d", "r%03d"] if last else [])) % i, R.choice(["%d", "%d", "%+d", "%03d"]) % v))
        elif k == "shift":
            v = R.choice([R.randrange(0, 60), R.randrange(-40, 0), R.randrange(60, 4000)])
            d.append([k, v])
            sec.setdefault("TIME", []).append((R.choice(["GPS2UTC", "gps2utc", "Gps2Utc"]), R.choice(["%d", "%d", "%+d", "%03d"]) % v))
        else:
            v = R.randrange(2)
            d.append([k, v])
            n = NAME[k]
            sec.setdefault(SECT[k], []).append((R.choice([n, n.lower()]), R.choice(["true", "True", "TRUE", "yes", "Yes", "YES", "on", "On", "ON", "1", "tRuE"] if v else ["false", "False", "FALSE", "no", "No", "NO", "off", "Off", "OFF", "0"])))
    if base is None and "lit" not in keys and R.random() < .5:
        # incomplete table: one entry missing
        miss = R.randrange(1, 25)
        for i in range(1, 25):
            if i != miss:
                sec.setdefault("LITERALS", []).append(("R%d" % i, "0"))
                d.append(["R%d" % i, 0])
    if junk:
        if R.random() < .4:
            sec.setdefault("OTHER", []).append(("HCA", "true"))
        if R.random() < .4:
            sec.setdefault("JSON", []).append(("ENABLE_COLOUR", "yes"))
        if R.random() < .3:
            sec.setdefault("LITERALS", []).append(("R%d" % R.choice([25, 99, 0]), "3"))
        if R.random() < .3:
            sec.setdefault(R.choice(["LITERALS", "DEFAULT"]) if sec else "LITERALS", []).append((R.choice(["NOTE", "R", "Rx", "R1a", "HOME", "v2"]), R.choice(["1", "text", "", "5%"])))
    if R.random() < .5:
        # sections are there although their settings are not
        for n in ("MARGO", "JSON", "TIME", "LITERALS"):
            if n not in sec and R.random() < .7:
                sec[n] = [] if R.random() < .5 else [("OTHER", "1")]
    if not sec:
        sec["OTHER"] = [("x", "1")]
    names = list(sec)
    R.shuffle(names)
    text = ""
    for n in names:
        text += f"[{n}]\n"
        for k, v in sec[n]:
            text += k + R.choice([" = ", " : ", "=", ":", "   =   "]) + v + "\n" + R.choice(["", "", "\n", "# note\n", "; note\n"])
    return dict(kind=kind, d=d, text=text)


def layers(seed, behaviours, name="ctl"):
    S = Suite(name, seed)
    R = S.R
    for b in behaviours:
        fs = []
        for k, f in enumerate(b["f"]):
            fs.append(layer(R, f["kind"], f["k"], base=None if k == 0 else fs[0], last=k and k == len(b["f"]) - 1))
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="ctl", files=fs))
    return S.out


def layer_sessions(seed, behaviours, name="ctlsess"):
    """Command line sessions with a user file on top of the defaults."""
    S = Suite(name, seed)
    R = S.R
    for b in behaviours:
        if len(b["f"]) > 2:
            continue
        fs = [layer(R, f["kind"], f["k"], base=None if k == 0 else b) for k, f in enumerate(b["f"])]
        mode = MODES[len(S.out) % 4]
        shift = R.choice([1081, 1084, 1087])
        data = b"".join(frame(msg.msm(n, R, sats=sorted(R.sample(range(1, 25), 3)), sgns=[2], cells=[1, 1, 1], style="mark", hdr={"time": (R.randrange(7) << 27) | R.randrange(86400000)} if n < 1090 and n > 1080 else None))
                        for n in (shift, R.choice([1074, 1077, 1093])))
        data += frame(msg.good(R.choice([1005, 1019]), R))
        q = dict(name="x.rtcm3", s=data.hex(), kind="file")
        sc = dict(id=f"{name}/{len(S.out)}", kind="cli", mode=mode, ctl=CTL0, ctlok=1, args=[1], src=[q], defaults=fs[0]["text"] if fs[0]["kind"] != "none" else None,
                  layers=[dict(kind=f["kind"], d=f["d"]) for f in fs])
        if len(fs) > 1:
            sc["user"] = fs[1]["text"] if fs[1]["kind"] != "none" else False
        S.out.append(sc)
    return S.out


# ------------------------------------------------------------------ sources
def selections(seed, behaviours, name="sel"):
    import drivers
    S = Suite(name, seed)
    R = S.R
    for b in behaviours:
        mode = MODES[R.randrange(4)]
        ext = R.choice(["rtcm3", "rtcm3", "bin", "RTCM", "v2.rtcm", ".x", "RTCM3", "0", "rtcm3_", "a-b"])
        folder = R.choice(["in", "a[1]", "d.x", "set?1", "deep/er"])
        files, match = [], []
        # folders may hold more files than the model enumerates
        more = R.choice([15, 25, 60, 120]) if b["n"] and b["t"] and len(b["a"]) == 1 and R.random() < .05 else 0

        def add(name_, i):
            files.append(dict(name=name_, id=i, s=(frame(small(R)) + (noise(R, 2) + frame(small(R)) if R.random() < .3 else b"")).hex()))
        for i in range(more or b["n"]):
            add(f"{folder}/" + R.choice(["f%d", "x.y%d", "Z-%d", "%d", "a b%d" if not more else "q%d"]) % i + "." + ext, 1001 + i)
            match.append(1001 + i)
        answer = [t if t in (99, -1, 0) or not more else R.choice([t, R.randrange(1, more + 3), more, more + 1]) for t in b["t"]]
        answer = [98 if t == 99 and u != 99 else t for t, u in zip(answer, b["t"])]
        # files that must not be offered
        other = {"rtcm3": "bin", "bin": "rtcm3", "RTCM": "rtcm", "v2.rtcm": "rtcm", ".x": "x", "RTCM3": "rtcm3"}.get(ext, "rtcm3")
        add(f"{folder}/other.{other}", 50)
        add(f"{folder}/tail.{ext}x", 51)
        add(f"{folder}/no{ext}", 52)
        add(f"{folder}/sub/inner.{ext}", 53)
        add(f"up.{ext}", 54)
        add("one.rtcm3", 1)
        add("two.bin", 2)
        sub = R.choice([None, f"{folder}/dir.{ext}"])      # a folder named like a source
        word = {1: "one.rtcm3", 2: "two.bin", 3: "three.rtcm3", 4: folder + R.choice(["", "", "/", "/."])}
        toks = [R.choice(["%d", "%d", "%d", "%02d", "%03d"] if t > 0 else ["%d"]) % t if t != 99 else R.choice(["x", "1.5", "one", "1,2", "a1"]) for t in answer]
        opts = ["-o", mode] if mode != "MARGO" or R.random() < .5 else []
        if ext != "rtcm3":
            opts += ["-ext", ext]
        R.shuffle(files)
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="sel", mode=mode, folder=folder, sub=sub, files=files, match=match, defaults=drivers.ini_text(CTL0), opts=opts,
                          args=[dict(kind=a["kind"], id=a["id"], word=word[a["id"]]) for a in b["a"]], answer=answer if answer else [99],
                          reply=" ".join(toks), rel=R.random() < .3, argv=R.random() < .3))
    return S.out


# ------------------------------------------------------------------ objects
EPHC = ["EphGPS", "EphGLO", "EphGALF", "EphGALI", "EphBDS", "EphQZS", "EphNAVIC"]
BASEC = ["BaseRP", "BaseRPH", "BaseAD", "BaseADSN", "BaseADSNRC", "BaseSP", "BaseTS", "BaseGLBS"]


def fl(x):
    return {"x": float(x).hex()}


def rnd_float(R):
    k = R.randrange(8)
    if k == 0:
        return fl(R.choice([0.0, 1.0, -1.0, 1e-9, -1e-9, 3.5e8]))
    if k == 1:
        return {"x": "nan"}
    return fl(R.choice([-1, 1]) * R.random() * 10.0 ** R.randrange(-12, 13))


def rnd_val(R, depth=2):
    k = R.randrange(9 if depth else 5)
    if k < 2:
        return R.randrange(-10 ** 6, 10 ** 6)
    if k < 4:
        return rnd_float(R)
    if k == 4:
        return R.choice(["", "a", "abc", "ключ", "0"])
    if k == 5:
        return {"l": [rnd_val(R, depth - 1) for _ in range(R.randrange(0, 4))]}
    if k == 6:
        return {"d": [[("k%d" % i) if R.random() < .8 else i, rnd_val(R, depth - 1)] for i in range(R.randrange(0, 4))]}
    if k == 7:
        return leaf(R)
    return {"t": [rnd_val(R, 0) for _ in range(R.randrange(0, 3))]}


def leaf(R):
    return {"c": "Leaf", "f": [["x", R.randrange(-99, 99)], ["y", rnd_float(R)], ["s", R.choice(["", "q", "text"])], ["b", R.random() < .5]]}


def node(R):
    return {"c": "Node", "f": [["n", R.randrange(99)], ["leaf", leaf(R)], ["seq", {"l": [rnd_val(R) for _ in range(R.randrange(0, 4))]}],
                               ["tab", {"d": [["k%d" % i, rnd_val(R)] for i in range(R.randrange(0, 4))]}], ["z", rnd_float(R)]]}


def slots(v, path=()):
    """All positions of a value tree."""
    yield path, v
    if isinstance(v, dict):
        if "c" in v:
            for i, (_, x) in enumerate(v["f"]):
                yield from slots(x, path + ("f", i, 1))
        elif "d" in v:
            for i, (_, x) in enumerate(v["d"]):
                yield from slots(x, path + ("d", i, 1))
        else:
            for t in ("l", "t"):
                for i, x in enumerate(v.get(t, ())):
                    yield from slots(x, path + (t, i))


def put(v, path, x):
    import copy
    v = copy.deepcopy(v)
    if not path:
        return x
    w = v
    for p in path[:-1]:
        w = w[p]
    w[path[-1]] = x
    return v


def mutate(R, v, tol):
    """Another value for one position, and the kind of change."""
    if isinstance(v, bool):
        return not v, "flag"
    if isinstance(v, int):
        return R.choice([(v + 1, "int"), (v - 1, "int"), (-v - 3, "int"), (fl(v), "type"), (str(v), "type")])
    if isinstance(v, str):
        return R.choice([(v + "x", "str"), ("y" + v, "str"), (v.upper() + "Q", "str"), (7, "type")])
    if "x" in v:
        f = float.fromhex(v["x"])
        if f != f:
            return R.choice([(fl(0.0), "nan"), (fl(-1.5), "nan"), (1, "type")])
        k = R.randrange(6)
        if k == 0:
            return {"x": "nan"}, "nan"
        if k == 1:
            return fl(-f if f else 2 * tol), "float"
        if k == 2 and f == int(f):
            return int(f), "type"
        d = R.choice([0.3, 0.3, 3.0, 3.0, 1000.0]) * tol * R.choice([-1, 1])
        return fl(f * (1 + d) if abs(f) > 100 * tol else f + d), "float"
    for t in ("l", "t"):
        if t in v:
            L = list(v[t])
            k = R.randrange(4)
            if k == 3 and len(L) > 1:
                # the same elements in another order
                return {t: L[::-1] if R.random() < .5 else L[1:] + L[:1]}, "order"
            if k == 0 or not L:
                L.append(R.choice([0, "", fl(0.0)]))
            elif k == 1:
                L.pop(R.randrange(len(L)))
            else:
                L = L + [L[-1]]
            return {t: L}, "len"
    if "d" in v:
        L = [list(x) for x in v["d"]]
        k = R.randrange(3)
        if k == 0 or not L:
            L.append(["new", 0])
        elif k == 1:
            L.pop()
        else:
            L[0][0] = "other"
        return {"d": L}, "key"
    if v["c"] == "Leaf":
        return R.choice([5, {"d": [[k, x] for k, x in v["f"]]}]), "type"
    return v, "equal"


FIELDS = {}


def real_obj(R, name):
    """A library object with its real field names (asked from the recorder side)."""
    return {"c": name, "f": []}


def objects(seed, name="cmp", n=400):
    S = Suite(name, seed)
    R = S.R

    def add(**k):
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="cmp", **k))
    for k in range(n):
        a = node(R) if R.random() < .7 else leaf(R)
        tol = R.choice([None, None, 1e-6, 0.01, 1e-12])
        t = tol or 1e-15
        if k % 6 == 0:
            b = a
            if R.random() < .5 and a["c"] == "Node":
                b = put(a, ("f", 3, 1), {"d": list(reversed(a["f"][3][1]["d"]))})       # order of keys is irrelevant
            add(op="cmp", a=a, b=b, tol=tol, tag="equal")
            continue
        pos = [p for p, v in slots(a) if p]
        p = R.choice(pos)
        old = dict(slots(a)) if False else None
        v = a
        for q in p:
            v = v[q]
        new, tag = mutate(R, v, t)
        b = put(a, p, new)
        if R.random() < .5:
            a, b = b, a
        add(op="cmp", a=a, b=b, tol=tol, tag=tag)
    # library classes against each other, with and without a differing field
    for x in EPHC + BASEC:
        for y in (x, R.choice(EPHC + BASEC)):
            add(op="cmp", a={"c": x, "f": []}, b={"c": y, "f": []}, tol=None, tag="class")
    for x, y in (("BaseRPH", "BaseRP"), ("BaseADSN", "BaseAD"), ("BaseADSNRC", "BaseADSN"), ("BaseADSNRC", "BaseAD")):
        add(op="cmp", a={"c": x, "f": []}, b={"c": y, "f": []}, tol=None, tag="class")
        add(op="cmp", a={"c": y, "f": []}, b={"c": x, "f": []}, tol=None, tag="class")
    for x, f in (("EphGPS", "m0"), ("EphGPS", "satNum"), ("EphBDS", "af0"), ("EphGLO", "x"), ("BaseRP", "x"), ("BaseRP", "y"), ("EphQZS", "cis"), ("EphGALF", "e")):
        for v, w in ((fl(-1.25e7), fl(-1.25e7 * (1 + 1e-9))), (fl(3.0), fl(3.0)), (fl(-2.5e-7), fl(-2.4e-7)), (5, 6), (5, 5)):
            for tol in (None, 1e-6):
                add(op="cmp", a={"c": x, "f": [[f, v]]}, b={"c": x, "f": [[f, w]]}, tol=tol, tag="field")
    # a nested object without comparison of its own: different ones never compare equal
    for k in range(12):
        h = [{"c": "Holder", "f": [["a", 1], ["p", {"c": "Plain", "f": [["x", x], ["y", fl(y)]]}], ["b", 2]]} for x, y in ((k, 1.5), (k + k % 2, 1.5 + (k + 1) % 2))]
        add(op="cmp", a=h[0], b=h[1], tol=R.choice([None, 1e-6]), tag="nested")
        add(op="cmp", a=h[1], b=h[0], tol=R.choice([None, 1e-6]), tag="nested")
    for other in (5, "text", {"d": []}, {"l": []}, fl(1.0)):
        add(op="cmp", a=leaf(R), b=other, tol=None, tag="class")
    for k in range(n // 8):
        for how in ("copy", "deepcopy"):
            add(op="copy", how=how, a=node(R) if k % 3 else leaf(R), pick=R.randrange(100))
    for x in EPHC + BASEC:
        for how in ("copy", "deepcopy"):
            add(op="copy", how=how, a={"c": x, "f": []}, pick=R.randrange(100))
        add(op="shape", a={"c": x, "f": []})
    add(op="shape", a=node(R))
    add(op="shape", a=leaf(R))
    return S.out


# ------------------------------------------------------------------ extension points
_D = ("proto", "sub", "bare", "meth", "act", "ret")
DECS = [dict(zip(_D, x)) for x in (
    (1, "EPH", 0, 1, [1019], "EphGPS"), (1, "EPH", 0, 1, [1019, 1020], "EphGLO"), (1, "EPH", 1, 1, [1019, 1005], "raise"),
    (1, "BASE", 0, 1, [1005, 1019], "BaseRP"), (1, "BASE", 0, 0, [1005], "BaseRP"), (1, "BASE", 0, 1, [], "BaseRP"),
    (0, "EPH", 0, 1, [1019], "EphGPS"), (1, "MSM47O", 1, 1, [1074, 1073], "BareObservablesMSM4567"),
    (1, "MSM13O", 0, 1, [1073], "None"), (1, "LEGO", 0, 1, [1004], "ObservablesMSM"))]
_P = ("proto", "mode", "pm", "cm", "act", "fail")
PRNS = [dict(zip(_P, x)) for x in (
    (1, "JSON", 1, 1, ["EphGPS", "ObservablesMSM"], 0), (1, "JARGO", 1, 1, ["EphGLO", "ObservablesMSM"], 0),
    (1, "MARGO", 1, 1, ["ObservablesMSM", "EphGLO"], 1), (1, "JSON", 0, 1, ["EphGPS"], 0), (1, "JSON", 1, 0, ["EphGPS"], 0),
    (1, "JSON", 1, 1, [], 0), (0, "JSON", 1, 1, ["EphGPS"], 0), (1, "JARGO", 1, 1, ["BaseRP", "EphGPS"], 1))]
CLS = {1019: "EphGPS", 1020: "EphGLO", 1041: "EphNAVIC", 1042: "EphBDS", 1044: "EphQZS", 1045: "EphGALF", 1046: "EphGALI",
       1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD", 1008: "BaseADSN", 1013: "BaseSP", 1029: "BaseTS", 1033: "BaseADSNRC", 1230: "BaseGLBS"}
ALLCLS = sorted(CLS.values()) + ["ObservablesMSM", "BareObservablesMSM123", "BareObservablesMSM4567"]


def registry(seed, behaviours, n, name="reg"):
    """Registrations enumerated by MCRegistry followed by a probe of everything; random parts in longer sequences."""
    S = Suite(name, seed)
    R = S.R

    def add(side, subs, ops):
        nums = sorted({a for o, a in ops if o == "dec"})
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="reg", side=side, subs=subs, ops=ops,
                          msgs={str(a): frame(bytes([a >> 4, (a & 15) << 4]) + bytes(R.randrange(256) for _ in range(R.randint(0, 6)))).hex() for a in nums}))

    for b in behaviours:
        dec = b["side"] == "dec"
        ops = [[o, int(a) if a.isdigit() else a] for o, a in b["h"]]
        if dec:
            ops += [["dec", a] for a in (1019, 1020, 1005, 1074, 1073, 1004)]
        else:
            if R.random() < .8:
                ops = [["fmt", R.choice(["JSON", "MARGO", "JARGO"])]] + ops
            ops += [["prn", a] for a in ("EphGPS", "EphGLO", "ObservablesMSM", "BaseRP")] + [["close", ""]]
        add(b["side"], DECS if dec else PRNS, ops)
    msm13 = [m for m in msg.MSM if m % 10 <= 3]
    msm47 = [m for m in msg.MSM if m % 10 > 3]
    nums = {"EPH": list(msg.EPH), "BASE": list(msg.BASE), "MSM13O": msm13, "MSM47O": msm47, "LEGO": [1001, 1004, 1012]}
    every = sum(nums.values(), [])
    for _ in range(n):
        if R.random() < .6:
            subs = []
            for _ in range(R.randint(1, 7)):
                sub = R.choice(sorted(nums))
                bare = R.randrange(2)
                act = R.sample(nums[sub], R.randint(0, min(4, len(nums[sub])))) + (R.sample(every, 1) if R.random() < .3 else [])
                ret = ("ObservablesMSM" if not bare else "BareObservablesMSM123" if sub == "MSM13O" else "BareObservablesMSM4567") if sub.startswith("MSM") else \
                    CLS[R.choice([a for a in act if a in CLS] or [1019])]
                if R.random() < .3:
                    ret = R.choice(["None", "raise", "EphGPS", "BaseTS", "ObservablesMSM"])
                if ret in ("BaseRPH", "BaseADSN", "BaseADSNRC"):
                    act = [a for a in act if CLS.get(a) not in ("BaseRP", "BaseAD", "BaseADSN", "BaseADSNRC", "BaseRPH") or CLS.get(a) == ret]
                subs.append(dict(proto=int(R.random() < .92), sub=sub, bare=bare, meth=int(R.random() < .9), act=act, ret=ret))
            pool = sorted({a for q in subs for a in q["act"]}) + R.sample(every, 3) + [4095, 0]
            ops = []
            for _ in range(R.randint(4, 20)):
                ops.append(["reg", R.randint(1, len(subs))] if R.random() < .4 else ["dec", R.choice(pool)])
            add("dec", subs, ops + [["dec", a] for a in pool])
        else:
            subs = [dict(proto=int(R.random() < .92), mode=R.choice(["JSON", "MARGO", "JARGO"]), pm=int(R.random() < .9), cm=int(R.random() < .9),
                         act=R.sample(ALLCLS, R.choice([0, 1, 3, 8, len(ALLCLS)])), fail=int(R.random() < .3)) for _ in range(R.randint(1, 6))]
            ops = [["fmt", R.choice(["JSON", "MARGO", "JARGO", "JSON", "XML", "json", ""])]] if R.random() < .9 else []
            for _ in range(R.randint(4, 20)):
                ops.append(["reg", R.randint(1, len(subs))] if R.random() < .4 else ["prn", R.choice(ALLCLS)])
            add("prn", subs, ops + [["prn", a] for a in ALLCLS] + [["close", ""]])
    return S.out


def bitcalls(seed, per=60, name="bits"):
    """Every width 0..129 at every alignment; positions around the end of the buffer; reversals."""
    S = Suite(name, seed)
    R = S.R
    for w in range(0, 130):
        calls = []
        for a in range(8):
            for f in "us":
                for fill in range(3):
                    n = R.randint(1, 24)
                    buf = bytes(n) if fill == 0 else b"\xff" * n if fill == 1 else bytes(R.randrange(256) for _ in range(n))
                    p = 8 * R.randrange(0, n) + a if R.random() < .5 else 8 * n - w + R.randint(-2, 2)
                    calls.append([f, buf.hex(), p, w])
                n = (w + 7) // 8 + 3
                calls.append([f, bytes(R.randrange(256) for _ in range(n)).hex(), a + 8 * R.randrange(2), w])
        if w:
            for _ in range(8):
                calls.append([R.choice(["ru", "rs"]), bytes(R.randrange(256) for _ in range(R.randint(1, 17))).hex(), R.choice([0, 0, R.randint(0, 130)]), w])
        if w:
            # messages of full size: around byte boundaries of every magnitude
            n = R.choice([300, 600, 1029, 1029, 1100])
            buf = bytes(R.randrange(256) for _ in range(n)).hex()
            for p in (8 * n - w, 8 * n - w - R.randrange(1, 30), R.choice([255, 256, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192]) - R.randrange(0, w + 1), R.randrange(0, 8 * n)):
                calls.append([R.choice("us"), buf, max(0, p), w])
        calls.append(["u", "d300", -1 - R.randrange(9), max(1, w)])
        S.out.append(dict(id=f"{name}/{w}", kind="bits", calls=calls))
    return S.out


def blocks(seed, behaviours, name="blk"):
    """Uses of data blocks enumerated by MCBlocks, over all classes."""
    S = Suite(name, seed)
    R = S.R
    clr = ["BareObservablesMSM123", "BareObservablesMSM4567", "Attributes"]
    rest = [c for c in ALLCLS if c not in clr]
    for n, b in enumerate(behaviours):
        # blocks of one or of related classes in one run
        c1 = [clr[n % 3], R.choice(clr)]
        c0 = [rest[n % len(rest)], R.choice(rest)]
        ops = []
        for o, a in b["h"]:
            ops.append([o, R.choice(c1 if a == "1" else c0) if o == "new" else int(a)])
        S.out.append(dict(id=f"{name}/{n}", kind="blk", ops=ops, seed=R.randrange(1 << 30)))
    for c in ALLCLS + clr:
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="blk", seed=R.randrange(1 << 30),
                          ops=[["new", c], ["fill", 1], ["new", c], ["fill", 2], ["fill", 1]] + ([["clear", 1], ["fill", 1], ["clear", 2]] if c in clr else []) + [["new", c]]))
    return S.out


def classify(seed, name="cls"):
    S = Suite(name, seed)
    R = S.R
    far = [n + d for n in list(range(1000, 1140)) + [1230] for d in (-4096, 4096, 8192, 65536, -2 * n, 1 << 20, 10000, -1000)] + [R.randrange(-1 << 31, 1 << 31) for _ in range(200)]
    for k, r in enumerate(chunked([["num", n] for n in list(range(-3, 4200)) + far], 300)):
        S.out.append(dict(id=f"{name}/num{k}", kind="cls", rows=r))
    for g in list("GRESQBICJXgresqbi") + ["", "GR", "GPS", "G "]:
        S.out.append(dict(id=f"{name}/sig{g}", kind="cls", rows=[["sig", g, c] for c in list(range(-40, 80)) + [256 + 2, 1000, 65536 + 2]]))
    S.out.append(dict(id=f"{name}/clk", kind="cls", rows=[["clk", c] for c in list(range(-6, 20)) + [256, 1024, 1 << 20]]))
    return S.out


def loggers(seed, behaviours, name="logger", n=100):
    """Uses of the logger enumerated by MCLogger; longer random ones over all levels."""
    S = Suite(name, seed)
    R = S.R
    lv = ["debug", "info", "warning", "error", "critical", "progress"]
    swap = {"debug": ["debug"], "info": ["info"], "error": ["warning", "error", "critical", "progress"]}

    def op(o, a):
        if o == "init":
            return dict(e=o, a=int(a), id=R.choice(["RTCMDEC", "X", "LogDcd"]))
        if o == "deinit":
            return dict(e=o)
        return dict(e=o, a=a, text=R.choice(["plain %d", "Msg 1077. %d", "50%% of %d {0} %%s", " lead %d ", "a:b: %d", "two\nlines %d", "%d\n", "\n%d", "tab\t%d\r", "", "\u00e9\u20ac %d",
                                             "long " + 40 * R.choice(["abc ", "x" * 99, "/dir"]) + "%d", "long" + 2000 * "y", "same"]).replace("%d", str(R.randrange(1000))).replace("%%", "%"))

    def add(ops, nf):
        S.out.append(dict(id=f"{name}/{len(S.out)}", kind="logger", nf=nf, ops=ops, pre=[R.choice([[], ["New log file was created.", "----"]]) for _ in range(nf)]))
    for b in behaviours:
        add([op(o, R.choice(swap[a]) if o == "log" else a) for o, a in b["h"]], 2)
    for _ in range(n):
        nf = R.randint(1, 4)
        ops = []
        for _ in range(R.randint(6, 30)):
            x = R.random()
            ops.append(op("init", R.randint(1, nf)) if x < .2 else op("deinit", "") if x < .35 else op("log", R.choice(lv)))
        add(ops, nf)
    # Logs of many records, of one level and of all, within one set-up and over several
    for k in range(6):
        ops = [op("init", 1)]
        for j in range(150 + 50 * k):
            ops.append(dict(e="log", a=lv[k % 3] if k < 3 else R.choice(lv), text=f"m{j}"))
            if k == 5 and R.random() < .02:
                ops += [op("deinit", ""), op("init", R.randint(1, 2))]
        add(ops, 2)
    return S.out


def locations(seed, name="loc"):
    """Predicted locations for all numbers, modes and shapes of a source's path."""
    S = Suite(name, seed)
    R = S.R
    nums = list(msg.ALL)
    names = [("x", ".rtcm3"), ("x", ""), ("a.b", ".bin"), ("a.b.c", ".r"), (".hid", ""), ("a", "."), ("A-B_c", ".RTCM3"), ("-", ".x"), ("JSON", ".json"), ("x-JSON", ".rtcm3"), ("x-log", ".txt"), ("\u00e9\u4e2d", ".d"), ("0", ".0"), (100 * "n", ".e"), ("rtcm3", ".rtcm3")]
    dirs = ["", "d", "d/e", "d.x", "d.x/e.y", "d-JSON", "a.b/c", "MSM4"]
    absd = ["/no/where", "..", "../up", "./here", "/a.b"]
    modes = ["JSON", "JSON-B", "JARGO", "MARGO"]
    rows = []
    for mode in modes:
        for n in nums + [0, 1, 999, 1004, 1009, 1012, 1018, 1043, 1047, 1070, 1078, 1080, 1138, 1231, 4095, 5000] + [R.randrange(4096) for _ in range(60)]:
            rows.append([R.choice(dirs + absd), *R.choice(names), mode, n, ""])
    for d in dirs + absd:
        for stem, ext in names:
            rows.append([d, stem, ext, R.choice(modes + ["OTHER", "json", ""]), R.choice(nums), ""])
    for k in range(0, len(rows), 60):
        S.out.append(dict(id=f"{name}/p{k}", kind="path", ctl=CTL0, rows=rows[k:k + 60]))
    rows = []
    for n in nums:
        for mode in modes:
            d, (stem, ext) = R.choice(dirs), R.choice([x for x in names if x[0] not in ("-",)])
            rows.append([d, stem, ext, mode, n, msg.frame(msg.good(n, R)).hex()])
    for d in dirs:
        for stem, ext in names:
            if stem != "-" or d:
                n = R.choice(nums)
                rows.append([d, stem, ext, R.choice(modes), n, msg.frame(msg.good(n, R)).hex()])
    for k in range(0, len(rows), 20):
        S.out.append(dict(id=f"{name}/r{k}", kind="path", ctl=CTL0, rows=rows[k:k + 20]))
    return S.out
