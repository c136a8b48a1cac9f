"""Small RTCM3 encoder and driver used by demonstrations (run with cwd = repository)."""
import builtins, contextlib, io, json, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


def crc(b):
    r = 0
    for x in b:
        r ^= x << 16
        for _ in range(8):
            r <<= 1
            if r & 0x1000000:
                r ^= 0x1864CFB
    return r


def frame(p, res=0):
    h = bytes([0xD3, (res << 2) | len(p) >> 8, len(p) & 255]) + bytes(p)
    return h + crc(h).to_bytes(3, "big")


def bits(*fw):
    """(value, width) pairs -> payload padded with zero bits"""
    a = n = 0
    for v, w in fw:
        a = a << w | (v & ((1 << w) - 1))
        n += w
    pad = -n % 8
    return (a << pad).to_bytes((n + pad) // 8, "big")


SAT = {1: (("rough", 10),), 4: (("ms", 8), ("rough", 10)), 5: (("ms", 8), ("ext", 4), ("rough", 10), ("rate", 14))}
SAT[2] = SAT[3] = SAT[1]
SAT[6], SAT[7] = SAT[4], SAT[5]
C3 = (("rng", 15), ("phs", 22), ("lock", 4), ("hc", 1))
C7 = (("rng", 20), ("phs", 24), ("lock", 10), ("hc", 1), ("cnr", 10))
CELL = {1: C3[:1], 2: C3[1:], 3: C3, 4: C3 + (("cnr", 6),), 6: C7}
CELL[5], CELL[7] = CELL[4] + (("frate", 15),), C7 + (("frate", 15),)


def msm(num, sats, sgns, cells=None, time=1000, sat=None, cell=None, rs=1, mmb=0, iods=0, steer=0, ext=0, smi=0, smt=0):
    """sats/sgns: numbers; cells: list of (sat, sgn) (default: all);
    sat: {field: [value per satellite]}, cell: {field: [value per cell]}"""
    t = num % 10
    cells = [(a, b) for a in sats for b in sgns] if cells is None else cells
    cl = [(a, b) for a in sats for b in sgns if (a, b) in cells]
    f = [(num, 12), (rs, 12), (time, 30), (mmb, 1), (iods, 3), (0, 7), (steer, 2), (ext, 2), (smi, 1), (smt, 3)]
    f += [(int(i in sats), 1) for i in range(1, 65)] + [(int(i in sgns), 1) for i in range(1, 33)]
    f += [(int((a, b) in cells), 1) for a in sats for b in sgns]
    for n, w in SAT[t]:
        L = (sat or {}).get(n) or [70 + i for i in range(len(sats))]
        f += [(v, w) for v in L]
    for n, w in CELL[t]:
        L = (cell or {}).get(n) or [(5 + i) if n not in ("hc",) else 0 for i in range(len(cl))]
        f += [(v, w) for v in L]
    return bits(*f)


def box(**kw):
    """controls; keys hca, lock, utc, lit, hdr, aux, pretty"""
    from controls import BoxWithConverterControls
    from printers import MargoControls, JSONControls
    m, j = MargoControls(), JSONControls()
    m.half_cycle_enable, m.lock_time_enable, m.gps_utc_shift = kw.get("hca", False), kw.get("lock", False), kw.get("utc", 18)
    m.glo_lit_tab = dict(m.glo_lit_tab, **kw.get("lit", {})) if not kw.get("lit") else {**m.glo_lit_tab, **kw["lit"]}
    j.enable_hdr_data, j.enable_aux_data, j.enable_pretty_view = kw.get("hdr", True), kw.get("aux", True), kw.get("pretty", False)
    return BoxWithConverterControls(m, j)


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="demo")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def convert(mode, frames, wd, pre=None, **ctl):
    """Converts the payloads; returns (converter, statistics)."""
    from converter_top import ConverterFactory
    c = ConverterFactory(mode)(wd, box(**ctl))
    if pre:
        pre(c)
    for m in c.parse_bytes(b"".join(frames)):
        x = c.decode(m)
        if x is not None:
            c.print(x)
    c.release()
    return c.get_statistics()


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), encoding="utf-8", errors="replace") as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return out


def js(d, rel):
    with open(os.path.join(d, rel), encoding="utf-8") as h:
        return json.load(h)


def obs(d, rel):
    """rows of a table as lists of floats/ints, headers first"""
    with open(os.path.join(d, rel), encoding="utf-8") as h:
        return [[float(x) for x in l.split(",")] for l in h.read().splitlines()]


def parse(chunks):
    from decoder_top import DecoderTop
    d = DecoderTop()
    out = []
    for c in chunks:
        out += [bytes(m) for m in d.catch_message(c)]
    return out, d.parse_errors


def session(args, answer=None):
    import run_conversion
    o, old = io.StringIO(), builtins.input
    if answer is not None:
        builtins.input = lambda *a: answer
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(io.StringIO()):
            run_conversion.main(args)
    finally:
        builtins.input = old
    return o.getvalue()


def write(p, b):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(b)
    return p


def need(c, t="property violated"):
    if not c:
        print("FAIL:", t)
        sys.exit(1)
