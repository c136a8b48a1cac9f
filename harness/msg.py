"""Builders of RTCM 3 messages (test-data generators; the oracle is in spec/).
Nothing here is consulted when a verdict is reached."""
import random

POLY = 0x1864CFB


def crc24q(data):
    c = 0
    for b in data:
        c ^= b << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= POLY
    return c & 0xFFFFFF


def frame(payload, res=0):
    h = bytes([0xD3, ((res & 63) << 2) | (len(payload) >> 8), len(payload) & 255]) + bytes(payload)
    return h + crc24q(h).to_bytes(3, "big")


class W:
    def __init__(self):
        self.v, self.n = 0, 0

    def put(self, val, w):
        self.v = (self.v << w) | (val & ((1 << w) - 1))
        self.n += w
        return self

    def bytes(self, pad=0):
        k = -self.n % 8
        return (((self.v << k) | (pad & ((1 << k) - 1))).to_bytes((self.n + k) // 8, "big")) if self.n else b""


GN = "GRESQBI"
KNOWN = {
    "G": [2, 3, 4, 8, 9, 10, 15, 16, 17, 22, 23, 24, 30, 31, 32],
    "R": [2, 3, 8, 9],
    "E": [2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14, 15, 16, 18, 19, 20, 22, 23, 24],
    "S": [2, 22, 23, 24],
    "Q": [2, 9, 10, 11, 15, 16, 17, 22, 23, 24, 30, 31, 32],
    "B": [2, 3, 4, 8, 9, 10, 14, 15, 16],
    "I": [8, 22],
}
MAXSAT = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}
MSM = [1071 + 10 * g + s for g in range(7) for s in range(7)]
EPH = [1019, 1020, 1041, 1042, 1044, 1045, 1046]
BASE = [1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230]
ALL = MSM + EPH + BASE

SAT = {5: [("ms", 8), ("ext", 4), ("rough", 10), ("rate", 14)], 4: [("ms", 8), ("rough", 10)], 1: [("rough", 10)]}
SAT[7] = SAT[5]
SAT[6] = SAT[4]
SAT[2] = SAT[3] = SAT[1]
SGN = {
    7: [("rng", 20), ("phs", 24), ("lock", 10), ("hc", 1), ("cnr", 10), ("frate", 15)],
    6: [("rng", 20), ("phs", 24), ("lock", 10), ("hc", 1), ("cnr", 10)],
    5: [("rng", 15), ("phs", 22), ("lock", 4), ("hc", 1), ("cnr", 6), ("frate", 15)],
    4: [("rng", 15), ("phs", 22), ("lock", 4), ("hc", 1), ("cnr", 6)],
    3: [("rng", 15), ("phs", 22), ("lock", 4), ("hc", 1)],
    2: [("phs", 22), ("lock", 4), ("hc", 1)],
    1: [("rng", 15)],
}
MARK = {"rng", "phs", "rate", "frate"}


def gnss(num):
    return GN[(num - 1071) // 10]


def value(R, name, w, style):
    top = 1 << (w - 1)
    full = (1 << w) - 1
    if style == "zero":
        return 0
    if style == "ones":
        return full
    if style == "edge":
        return R.choice([0, 1, 2, top - 1, top, top + 1, full, full - 1, R.getrandbits(w)])
    if style == "corner":
        return R.choice([0, full, top, top - 1, R.getrandbits(w), R.getrandbits(w)])
    if style == "mark":
        if name in MARK and R.random() < 0.4:
            return top
        if name == "ms" and R.random() < 0.4:
            return 255
        return R.getrandbits(w)
    if style == "real":  # plausible receiver data, no markers
        if name == "ms":
            return R.randrange(60, 90)
        if name in MARK:
            return R.getrandbits(w - 2)
        return R.getrandbits(w)
    v = R.getrandbits(w)
    return v


def msm(num, R, sats=None, sgns=None, cells=None, style="rand", hdr=None, over=None, pad=None, cutbits=0):
    """over: {field: callable(index) -> value} overriding generated values."""
    t = num % 10
    g = gnss(num)
    hdr = hdr or {}
    if style == "corner":
        hdr = dict({k: value(R, k, b, style) for k, b in (("rs", 12), ("mmb", 1), ("iods", 3), ("res", 7), ("steer", 2), ("ext", 2), ("indc", 1), ("intr", 3))}, **hdr)
    over = over or {}
    pad = R.choice([0, R.getrandbits(7)]) if pad is None else pad
    if sgns is None:
        k = KNOWN[g]
        sgns = sorted(R.sample(k, R.randint(1, min(len(k), 4))))
    if sats is None:
        n = max(1, min(64 // max(1, len(sgns)), R.choice([1, 2, 3, 5, 8])))
        pool = range(1, 65) if R.random() < 0.3 else range(1, MAXSAT[g] + 1)
        sats = sorted(R.sample(list(pool), min(n, len(pool))))
    grid = len(sats) * len(sgns)
    if cells is None:
        cells = [1 if R.random() < 0.8 else 0 for _ in range(grid)]
        if grid and not any(cells):
            cells[R.randrange(grid)] = 1
    w = W()
    w.put(num, 12).put(hdr.get("rs", R.getrandbits(12)), 12)
    if "time" in hdr:
        w.put(hdr["time"], 30)
    elif g == "R":
        w.put((R.randrange(0, 7) << 27) | R.randrange(0, 86400000), 30)
    else:
        w.put(R.randrange(0, 604800000), 30)
    w.put(hdr.get("mmb", R.getrandbits(1)), 1).put(hdr.get("iods", R.getrandbits(3)), 3).put(hdr.get("res", R.getrandbits(7)), 7)
    w.put(hdr.get("steer", R.getrandbits(2)), 2).put(hdr.get("ext", R.getrandbits(2)), 2)
    w.put(hdr.get("indc", R.getrandbits(1)), 1).put(hdr.get("intr", R.getrandbits(3)), 3)
    sm = 0
    for s in sats:
        sm |= 1 << (64 - s)
    gm = 0
    for s in sgns:
        gm |= 1 << (32 - s)
    w.put(sm, 64).put(gm, 32)
    if not sats:
        return w.bytes(pad)
    for c in cells:
        w.put(c, 1)
    nc = sum(cells)
    for name, bits in SAT[t]:
        for j in range(len(sats)):
            w.put(over[name](j) if name in over else value(R, name, bits, style), bits)
    for name, bits in SGN[t]:
        for j in range(nc):
            w.put(over[name](j) if name in over else value(R, name, bits, style), bits)
    return w.bytes(pad)


EPHW = {
    1019: [6, 10, 4, 2, 14, 8, 16, 8, 16, 22, 10, 16, 16, 32, 16, 32, 16, 32, 16, 16, 32, 16, 32, 16, 32, 24, 8, 6, 1, 1],
    1020: [6, 5, 1, 1, 2, 12, 1, 1, 7, 24, 27, 5, 24, 27, 5, 24, 27, 5, 1, 11, 2, 1, 22, 5, 5, 1, 4, 11, 2, 1, 11, 32, 5, 22, 1, 7],
    1041: [6, 10, 22, 16, 8, 4, 16, 8, 22, 8, 10, 1, 1, 15, 15, 15, 15, 15, 15, 14, 32, 16, 32, 32, 32, 32, 22, 32, 4],
    1042: [6, 13, 4, 14, 5, 17, 11, 22, 24, 5, 18, 16, 32, 18, 32, 18, 32, 17, 18, 32, 18, 32, 18, 32, 24, 10, 10, 1],
    1044: [4, 16, 8, 16, 22, 8, 16, 16, 32, 16, 32, 16, 32, 16, 16, 32, 16, 32, 16, 32, 24, 14, 2, 10, 4, 6, 8, 10, 1],
    1045: [6, 12, 10, 8, 14, 14, 6, 21, 31, 16, 16, 32, 16, 32, 16, 32, 14, 16, 32, 16, 32, 16, 32, 24, 10, 2, 1, 7],
    1046: [6, 12, 10, 8, 14, 14, 6, 21, 31, 16, 16, 32, 16, 32, 16, 32, 14, 16, 32, 16, 32, 16, 32, 24, 10, 10, 2, 1, 2, 1, 2],
}


def eph(num, R, style="rand", extra=b"", vals=None):
    w = W()
    w.put(num, 12)
    for k, b in enumerate(EPHW[num]):
        w.put(vals[k] if vals else value(R, "f", b, style), b)
    return w.bytes(0) + extra


# pieces that a careless writer or reader of texts trips over
SPECIAL = [", ", ": ", ",", ":", "\"", "\\", "\\u0041", "\\n", "/", "\r", "\n", "\r\n", "\t", "\0", "\0\0", "NaN", "Infinity", "null", "true", "]", "[", "},\r{", "  ", " ", "0x41 ",
           "%d", "%s", "{0}", "{}", "$x", "'", "<b>", "&amp;", "\u00e9", "e\u0301", "\u20ac", "\u2028", "\ufeff", "\ufffd", "\U0001F600", "\x7f", "\x1a", "\x1b[0m", "NONE", "A", "z", "0", "-0.0"]


def text(R, n, kind="ascii"):
    """n bytes of valid UTF-8 (or junk)."""
    if kind == "junk":
        return bytes(R.getrandbits(8) for _ in range(n))
    out = b""
    if kind == "special":
        while len(out) < n:
            c = R.choice(SPECIAL).encode()
            out += c if len(out) + len(c) <= n else R.choice([b" ", b"\0", b"0", b"\n", b","])
        return out
    pool = {"ascii": lambda: R.randrange(32, 127), "ctl": lambda: R.randrange(0, 128),
            "utf": lambda: R.choice([R.randrange(32, 127), R.randrange(0x80, 0x800), R.randrange(0x800, 0xD800),
                                     R.randrange(0xE000, 0x10000), R.randrange(0x10000, 0x110000), 0x80, 0x7FF, 0x800, 0xFFFF, 0x10FFFF,
                                     0x2028, 0x0A, 0x22, 0x5C])}[kind]
    while len(out) < n:
        c = chr(pool()).encode("utf-8", "ignore")
        if len(out) + len(c) <= n:
            out += c
        elif n - len(out) < 4:
            out += bytes([R.randrange(32, 127)])
    return out


def base(num, R, style="rand", lens=None, kind="ascii", nm=None, flags=None, nmfield=None, texts=None):
    w = W()
    w.put(num, 12).put(value(R, "f", 12, style), 12)
    v = lambda b: w.put(value(R, "f", b, style), b)
    if num in (1005, 1006):
        for b in (6, 1, 1, 1, 1, 38, 1, 1, 38, 2, 38):
            v(b)
        if num == 1006:
            v(16)
        return w.bytes()
    if num in (1007, 1008, 1033):
        n = {1007: 1, 1008: 2, 1033: 5}[num]
        lens = [len(x) for x in texts] if texts else lens or [R.choice([0, 1, 5, 31, R.randrange(0, 60)]) for _ in range(n)]
        out = w.bytes()
        for k in range(n):
            out += bytes([lens[k]]) + (texts[k] if texts else text(R, lens[k], kind))
            if k == 0:
                out += bytes([R.getrandbits(8)])
        return out
    if num == 1013:
        n = R.choice([0, 1, 2, 3, 8, 31]) if nm is None else nm
        v(16), v(17)
        w.put(n if nmfield is None else nmfield, 5)
        v(8)
        for _ in range(n):
            v(12), v(1), v(16)
        return w.bytes()
    if num == 1029:
        n = lens[0] if lens else R.choice([0, 1, 2, 20, 127, 128, 255, R.randrange(0, 256)])
        v(16), v(17), w.put(R.getrandbits(7), 7).put(n, 8)
        return w.bytes() + text(R, n, kind)
    if num == 1230:
        f = R.getrandbits(4) if flags is None else flags
        v(1), w.put(R.getrandbits(3), 3).put(f, 4)
        for _ in range(bin(f).count("1")):
            v(16)
        return w.bytes()
    raise ValueError(num)


def good(num, R, style="rand"):
    """A structurally valid payload of the given number."""
    if num in EPHW:
        return eph(num, R, style)
    if num in BASE:
        return base(num, R, style)
    if num in MSM:
        return msm(num, R, style=style)
    # some foreign message
    w = W().put(num, 12)
    return w.bytes() + bytes(R.getrandbits(8) for _ in range(R.randrange(0, 40)))
