"""Encoding of observed artefacts for the TLA+ side (see spec/Doc.tla)."""
import json, math, os, re


def limbs(n):
    out = []
    while n:
        out.append(n & 0xFFF)
        n >>= 12
    return out


class _Pairs(list):
    """Marks a JSON object parsed as a list of pairs (duplicates kept)."""


def enc(v):
    if v is None:
        return {"t": "z"}
    if isinstance(v, bool):
        return {"t": "b", "v": v}
    if isinstance(v, int):
        return {"t": "i", "s": 1 if v < 0 else 0, "m": limbs(abs(v))}
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return {"t": "n"}
        m, e = math.frexp(abs(v))
        n = int(m * (1 << 53))
        e -= 53
        if n == 0:
            return {"t": "f", "s": 0, "m": [], "e": 0}
        while not n & 1:
            n >>= 1
            e += 1
        return {"t": "f", "s": 1 if v < 0 else 0, "m": limbs(n), "e": e}
    if isinstance(v, str):
        u = v.encode("utf-8", "surrogatepass")
        asc = v if all(32 <= c < 127 for c in u) else ""
        return {"t": "s", "v": asc, "u": list(u)}
    if isinstance(v, _Pairs):
        return {"t": "o", "k": [k for k, _ in v], "v": [enc(x) for _, x in v]}
    if isinstance(v, dict):
        return {"t": "o", "k": [str(k) for k in v], "v": [enc(x) for x in v.values()]}
    if isinstance(v, (list, tuple)):
        return {"t": "a", "v": [enc(x) for x in v]}
    return {"t": "u"}


_dec = json.JSONDecoder(object_pairs_hook=_Pairs)
_WS = re.compile(r"[ \t\r\n]*")


def json_file(path):
    """Parse one JSON product: array of {source_type} followed by entries."""
    bad = {"k": "json", "ok": 0, "src": "", "e": [], "nl": [], "par": ""}
    try:
        with open(path, "r", encoding="utf-8", newline="") as f:
            text = f.read()
    except (OSError, UnicodeError):
        return bad
    ent, nls = [], []
    try:
        p = _WS.match(text, 0).end()
        if text[p] != "[":
            return bad
        p = _WS.match(text, p + 1).end()
        while True:
            v, q = _dec.raw_decode(text, p)
            ent.append(v)
            nls.append(1 if "\n" in text[p:q] or "\r" in text[p:q] else 0)
            p = _WS.match(text, q).end()
            if text[p] == "]":
                break
            if text[p] != ",":
                return bad
            p = _WS.match(text, p + 1).end()
        if _WS.match(text, p + 1).end() != len(text):
            return bad
    except (ValueError, IndexError, RecursionError):
        return bad
    first = ent[0]
    if not (isinstance(first, _Pairs) and len(first) == 1 and first[0][0] == "source_type" and isinstance(first[0][1], str)):
        return bad
    return {"k": "json", "ok": 1, "src": first[0][1], "e": [enc(x) for x in ent[1:]], "nl": nls[1:], "par": ""}


_NUM = re.compile(r"^([+-]?)(\d+)(?:\.(\d+))?$")


def cell(text):
    s = text.strip()
    if s.lower() == "nan":
        return {"t": "n", "w": len(text)}
    m = _NUM.match(s)
    if not m or not s.isascii():
        return {"t": "x"}
    frac = m.group(3) or ""
    return {"t": "d", "s": 1 if m.group(1) == "-" else 0, "m": limbs(int(m.group(2) + frac)), "d": len(frac), "w": len(text)}


def obs_file(path):
    name = os.path.basename(path)
    other = {"k": "other", "par": "." + (name[1:2] or "_")}
    try:
        with open(path, "r", encoding="utf-8", newline="") as f:
            text = f.read()
    except (OSError, UnicodeError):
        return other
    if not text.endswith("\n"):
        return other
    rows = [[cell(c) for c in ln.split(",")] for ln in text[:-1].split("\n")]
    if len(rows) < 2:
        return other
    return {"k": "obs", "par": "." + (name[1:2] or "_"), "h1": rows[0], "h2": rows[1], "rows": rows[2:]}


def tree(root, skip=()):
    """Records of all regular files below root (paths relative, '/')."""
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for fn in sorted(files):
            full = os.path.join(d, fn)
            rel = os.path.relpath(full, root).replace(os.sep, "/")
            if rel in skip:
                continue
            if fn.endswith(".json"):
                rec = json_file(full)
            elif fn.endswith(".obs"):
                rec = obs_file(full)
            else:
                rec = {"k": "other", "par": ""}
            rec["p"] = rel
            out.append(rec)
    return out
