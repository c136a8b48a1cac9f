"""Scenario drivers (executed inside the recorder process)."""
import contextlib, io, os, re, shutil, sys, tempfile
import obs

STATS = ("decoding_attempts", "parsing_errors", "decoding_errors", "printing_attempts", "printing_errors")


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def stats(conv):
    s = conv.get_statistics()
    return [int(getattr(s, n)) for n in STATS]


def ini_text(ctl):
    def b(x):
        return "true" if x else "false"
    lines = ["[MARGO]", f"HCA = {b(ctl['hca'])}", f"LOCK_TIME = {b(ctl['lt'])}",
             "[JSON]", f"ENABLE_PRETTY_VIEW = {b(ctl['pretty'])}", f"ENABLE_HDR_DATA = {b(ctl['hdr'])}",
             f"ENABLE_AUX_DATA = {b(ctl['aux'])}", "[TIME]", f"GPS2UTC : {ctl['shift']}", "[LITERALS]"]
    lines += [f"R{k + 1} : {v}" for k, v in enumerate(ctl["lit"])]
    return "\n".join(lines) + "\n"


def boxed(ctl, wd):
    from controls import ConverterControls
    if ctl.get("via") in ("code", "builtin"):
        # controls composed by the caller, or left as they are made
        from controls import BoxWithConverterControls
        from printers import MargoControls, JSONControls
        m, j = MargoControls(), JSONControls()
        if ctl["via"] == "code":
            m.half_cycle_enable, m.lock_time_enable, m.gps_utc_shift = ctl["hca"], ctl["lt"], ctl["shift"]
            m.glo_lit_tab = {k + 1: v for k, v in enumerate(ctl["lit"])}
            j.enable_hdr_data, j.enable_aux_data, j.enable_pretty_view = ctl["hdr"], ctl["aux"], ctl["pretty"]
        return BoxWithConverterControls(m, j)
    path = os.path.join(wd, "c.ini")
    with open(path, "w") as f:
        f.write(ini_text(ctl))
    cc = ConverterControls()
    cc.init_from_file(path)
    return cc.boxed_controls


def plant(root, obst):
    """Occupy output paths: a directory where a file should go or vice versa."""
    for o in obst:
        full = os.path.join(root, o)
        if o.endswith(".json") or o.endswith(".obs"):
            os.makedirs(full, exist_ok=True)
        else:
            if not os.path.exists(full):
                with open(full, "w") as f:
                    f.write("x")


def conv_run(sc):
    """One conversion through the converter interface."""
    rec = {k: sc[k] for k in ("id", "mode", "ctl", "obst")}
    rec["kind"], rec["clr"] = "api", 1 if sc.get("clr") else 0
    data = bytes.fromhex(sc["s"])
    rec["s"] = list(data)
    ev = rec["ev"] = []
    wd = tempfile.mkdtemp(dir=".")
    out = os.path.join(wd, "out")
    os.mkdir(out)
    plant(out, sc["obst"])
    with quiet():
        from converter_top import ConverterFactory
        conv = None
        try:
            conv = ConverterFactory(sc["mode"])(out, boxed(sc["ctl"], wd))
            if conv is None:
                raise RuntimeError("no converter")
        except Exception:
            ev.append({"e": "exc", "w": "create"})
        if conv is not None:
            pos = 0
            for q, n in enumerate(sc["ch"]):
                if sc.get("clr") and q == sc["clr"]:
                    # what stood in the way is taken away
                    for o in sc["obst"]:
                        os.remove(os.path.join(out, o))
                    ev.append({"e": "clr"})
                chunk = data[pos:pos + n]
                pos += n
                try:
                    msgs = conv.parse_bytes(chunk)
                    msgs = [bytes(m) for m in msgs]
                except Exception:
                    ev.append({"e": "exc", "w": "parse"})
                    break
                ev.append({"e": "feed", "n": n, "same": 1, "d": [list(m) for m in msgs], "st": stats(conv)})
                k = len(ev)
                for j, m in enumerate(msgs, 1):
                    try:
                        x = conv.decode(m)
                    except Exception:
                        ev.append({"e": "exc", "w": "decode"})
                        continue
                    ev.append({"e": "dec", "k": k, "j": j, "ok": 0 if x is None else 1, "st": stats(conv)})
                    if x is not None:
                        try:
                            conv.print(x)
                            ev.append({"e": "prn", "k": k, "j": j, "st": stats(conv)})
                        except Exception:
                            ev.append({"e": "exc", "w": "print"})
            try:
                conv.release()
            except Exception:
                ev.append({"e": "exc", "w": "release"})
            ev.append({"e": "rel"})
    rec["files"] = obs.tree(out, skip=set() if rec["clr"] else set(sc["obst"]))
    shutil.rmtree(wd)
    return rec


OLD = 1000000


def used_before(top, q, wd):
    """A converter released long ago has left its products in the folder."""
    from converter_top import ConverterFactory
    conv = ConverterFactory(q["mode"])(top, boxed(q["ctl"], wd))
    for m in conv.parse_bytes(bytes.fromhex(q["used"])):
        b = conv.decode(m)
        if b is not None:
            conv.print(b)
    conv.release()
    for d, _, ff in os.walk(top):
        for f in ff:
            os.utime(os.path.join(d, f), (OLD, OLD))


def untouched(top):
    return {os.path.relpath(os.path.join(d, f), top).replace(os.sep, "/") for d, _, ff in os.walk(top) for f in ff if os.path.getmtime(os.path.join(d, f)) == OLD}


def lib_run(sc):
    """Several converters in one process, their operations interleaved."""
    rec = {"id": sc["id"], "conv": [], "ev": []}
    ev = rec["ev"]
    wd = tempfile.mkdtemp(dir=".")
    with quiet():
        from converter_top import ConverterFactory
        convs, held, pos, srcs = [], [], [], []
        for k, q in enumerate(sc["conv"]):
            os.mkdir(os.path.join(wd, "out%d" % k))
            convs.append(None)
            held.append({})
            pos.append(0)
            srcs.append(bytes.fromhex(q["s"]))
            rec["conv"].append({"mode": q["mode"], "ctl": q["ctl"], "s": list(srcs[-1])})
            if q.get("used"):
                used_before(os.path.join(wd, "out%d" % k), q, wd)

        def seen():
            return [[] if y is None else stats(y) for y in convs]

        for op, c, k in sc["sched"]:
            x, q = convs[c - 1], sc["conv"][c - 1]
            if op == "n":
                try:
                    convs[c - 1] = ConverterFactory(q["mode"])(os.path.join(wd, "out%d" % (c - 1)), boxed(q["ctl"], wd))
                except Exception:
                    ev.append({"e": "exc", "w": "create"})
                    break
                ev.append({"e": "new", "c": c, "all": seen()})
            elif op == "d":
                n = q["ch"][k - 1]
                chunk = srcs[c - 1][pos[c - 1]:pos[c - 1] + n]
                pos[c - 1] += n
                try:
                    msgs = [bytes(m) for m in x.parse_bytes(chunk)]
                except Exception:
                    ev.append({"e": "exc", "w": "parse"})
                    continue
                ev.append({"e": "feed", "c": c, "n": n, "d": [list(m) for m in msgs], "all": seen()})
                f = len(ev)
                for j, m in enumerate(msgs, 1):
                    try:
                        b = x.decode(m)
                    except Exception:
                        ev.append({"e": "exc", "w": "decode"})
                        continue
                    ev.append({"e": "dec", "c": c, "k": f, "j": j, "ok": 0 if b is None else 1, "all": seen()})
                    if b is not None:
                        held[c - 1].setdefault(k, []).append((b, f, j))
            elif op == "p":
                for b, f, j in held[c - 1].get(k, ()):
                    try:
                        x.print(b)
                        ev.append({"e": "prn", "c": c, "k": f, "j": j, "all": seen()})
                    except Exception:
                        ev.append({"e": "exc", "w": "print"})
            else:
                for _ in range(sc["rel"]):
                    try:
                        x.release()
                    except Exception:
                        ev.append({"e": "exc", "w": "release"})
                ev.append({"e": "rel", "all": seen()})
        for k, q in enumerate(rec["conv"]):
            top = os.path.join(wd, "out%d" % k)
            q["files"] = obs.tree(top, skip=untouched(top))
    shutil.rmtree(wd)
    return rec


EXC = {"int": KeyboardInterrupt, "os": OSError, "fnf": FileNotFoundError, "val": ValueError, "mem": MemoryError, "key": KeyError,
       "run": RuntimeError, "idx": IndexError, "type": TypeError, "zero": ZeroDivisionError, "assert": AssertionError, "eof": EOFError,
       "attr": AttributeError, "stop": StopIteration, "exc": Exception, "perm": PermissionError, "isdir": IsADirectoryError, "intr": InterruptedError,
       "timeout": TimeoutError, "pipe": BrokenPipeError, "over": OverflowError, "rec": RecursionError, "buf": BufferError, "ref": ReferenceError,
       "lookup": LookupError, "nimp": NotImplementedError, "uni": UnicodeError, "name": NameError, "imp": ImportError, "sys": SystemError, "syn": SyntaxError,
       "warn": UserWarning}


class Spy:
    """Logging converter: delegates to the real one, may raise at one call."""

    def __init__(self, conv, data, ev, fault):
        self.conv, self.data, self.ev = conv, data, ev
        self.fault = fault
        self.calls = {}
        self.fired = 0
        self.nrel = 0
        self.pos = 0
        self.k = 0
        self.msgs = []
        self.j = 0
        self.cur = 0
        self.pending = 0
        self.lines = 0

    def step(self, frame, event, arg):
        """Trace function of the program's own frames: an interrupt between two
        of its steps, somewhere between the first block and the last."""
        if event == "line" and not self.fired and 0 < self.pos < len(self.data):
            self.lines += 1
            if self.lines == self.fault["n"]:
                self.fired = 1
                self.ev.append({"e": "fault", "lost": self.pending})
                sys.settrace(None)
                raise KeyboardInterrupt("injected")
        return self.step

    def _strike(self, op, when, lost):
        f = self.fault
        if not f or self.fired or f["op"] != op or f["when"] != when or self.calls.get(op) != f["n"]:
            return
        self.fired = 1
        self.ev.append({"e": "fault", "lost": lost})
        raise EXC[f["exc"]]("injected")

    @contextlib.contextmanager
    def _deep(self, op, lost=0):
        """The interrupt strikes when the operation enters its `depth`-th function."""
        f = self.fault
        if not f or self.fired or f["when"] != "deep" or f["op"] != op or self.calls.get(op) != f["n"]:
            yield
            return
        left = [f["depth"]]
        root = sys.modules["converter_top"].__file__.rsplit(os.sep, 1)[0] + os.sep

        def tr(frame, event, arg):
            if event == "call" and not self.fired and frame.f_code.co_filename.startswith(root):
                left[0] -= 1
                if left[0] == 0:
                    self.fired = 1
                    self.ev.append({"e": "fault", "lost": lost})
                    sys.settrace(None)
                    raise EXC[f["exc"]]("injected")
            return None

        sys.settrace(tr)
        try:
            yield
        finally:
            sys.settrace(None)

    def _begin(self, op, lost=0):
        self.calls[op] = self.calls.get(op, 0) + 1
        self._strike(op, "before", lost)

    def parse_bytes(self, buf):
        self._begin("parse")
        buf = bytes(buf)
        n = len(buf)
        same = 1 if buf == self.data[self.pos:self.pos + n] else 0
        self.pos += n
        try:
            with self._deep("parse"):
                r = self.conv.parse_bytes(buf)
        except Exception:
            self.ev.append({"e": "exc", "w": "parse"})
            raise
        self.msgs = [bytes(m) for m in r]
        self.j = 0
        self.ev.append({"e": "feed", "n": n, "same": same, "d": [list(m) for m in self.msgs], "st": stats(self.conv)})
        self.k = len(self.ev)
        self._strike("parse", "after", 0)
        return list(self.msgs)

    def decode(self, message):
        self._begin("decode")
        m = bytes(message)
        self.j += 1
        j = self.j if self.j <= len(self.msgs) and self.msgs[self.j - 1] == m else 0
        try:
            with self._deep("decode"):
                x = self.conv.decode(message)
        except Exception:
            self.ev.append({"e": "exc", "w": "decode"})
            raise
        self.ev.append({"e": "dec", "k": self.k, "j": j, "ok": 0 if x is None else 1, "st": stats(self.conv)})
        self.cur = j
        self.pending = 0 if x is None else 1
        self._strike("decode", "after", 1)
        return x

    def print(self, rtcm_data):
        self._begin("print", 1)
        try:
            with self._deep("print", 1):
                self.conv.print(rtcm_data)
        except Exception:
            self.ev.append({"e": "exc", "w": "print"})
            raise
        self.ev.append({"e": "prn", "k": self.k, "j": self.cur, "st": stats(self.conv)})
        self.pending = 0
        self._strike("print", "after", 0)

    def get_statistics(self):
        self._begin("stat")
        return self.conv.get_statistics()

    def release(self):
        self.nrel += 1
        self.conv.release()


VERDICTS = (("Finished without errors", "ok"), ("Finished with errors", "err"), ("Decoding was terminated", "term"),
            ("No valid controls", "noctl"))


def verdicts(text):
    return [v for line in text.split("\n") for w, v in VERDICTS if w in line]


@contextlib.contextmanager
def spying(wrap):
    """Every converter handed out by the factory goes through `wrap`."""
    import converter_top
    F = converter_top.ConverterFactory
    real = F.__call__
    F.__call__ = lambda self, *a, **k: wrap(real, self, *a, **k)
    try:
        yield
    finally:
        F.__call__ = real


def file_run(sc):
    """One file converted by the command line tool's own loop; the converter it
    uses is wrapped so that every call is logged and may be struck by a fault."""
    rec = {k: sc[k] for k in ("id", "mode", "ctl", "obst")}
    rec["kind"], rec["clr"] = "file", 0
    data = bytes.fromhex(sc["s"])
    rec["s"] = list(data)
    ev = rec["ev"] = []
    wd = os.path.realpath(tempfile.mkdtemp(dir="."))
    home = os.getcwd()
    src = os.path.join(wd, "x.rtcm3")
    out = os.path.join(wd, "x-" + sc["mode"])
    with open(src, "wb") as f:
        f.write(data)
    with open(os.path.join(wd, "defaults.ini"), "w") as f:
        f.write(ini_text(sc["ctl"]))
    spies = []

    def wrap(real, factory, *a, **k):
        plant(out, sc["obst"])
        conv = real(factory, *a, **k)
        if conv is None:
            return None
        spies.append(Spy(conv, data, ev, sc.get("fault")))
        return spies[-1]

    rec["ret"], rec["said"], rec["nrel"], rec["fault"] = "X", "X", 0, 0
    os.chdir(wd)

    def tr(frame, event, arg):
        return spies[0].step if spies and frame.f_code.co_filename == run_conversion.__file__ else None
    try:
        with quiet(), spying(wrap):
            import run_conversion
            try:
                if (sc.get("fault") or {}).get("op") == "line":
                    sys.settrace(tr)
                run_conversion.main("-o " + sc["mode"] + " " + src)
            except (Exception, KeyboardInterrupt):
                ev.append({"e": "exc", "w": "main"})
    finally:
        sys.settrace(None)
        os.chdir(home)
    if len(spies) == 1:
        rec["nrel"], rec["fault"] = spies[0].nrel, spies[0].fired
    elif not spies:
        ev.append({"e": "exc", "w": "create"})
    log = os.path.join(out, "x-log.txt")
    if os.path.isfile(log):
        with open(log, encoding="utf-8", errors="replace") as f:
            v = verdicts(f.read())
        rec["ret"] = {"ok": "T", "err": "T", "term": "F"}.get(v[0], "X") if len(v) == 1 else "X"
        rec["said"] = v[0] if len(v) == 1 else "X"
    ev.append({"e": "rel"})
    rec["files"] = obs.tree(out, skip=set(sc["obst"]) | {"x-log.txt"})
    shutil.rmtree(wd)
    return rec


class Flaky:
    """A source file whose reads fail at some point."""

    def __init__(self, f, info, fault):
        self._f, self._info, self._fault, self._n = f, info, fault, 0
        info["given"] = 0
        info["marks"] = []

    def _tick(self):
        if self._fault and self._n >= self._fault["n"]:
            self._info["fault"] = 1
            raise (KeyboardInterrupt if self._fault["exc"] == "int" else OSError)("injected")
        self._n += 1

    def read(self, *a):
        self._tick()
        b = self._f.read(*a)
        self._note(len(b))
        return b

    def _note(self, n):
        self._info["given"] += n
        if n:
            self._info["marks"].append(self._info["given"])

    def readinto(self, buf):
        self._tick()
        n = self._f.readinto(buf)
        self._note(n or 0)
        return n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def __getattr__(self, n):
        return getattr(self._f, n)


@contextlib.contextmanager
def flaky_open(infos):
    """infos: real path -> dict(given, fault, plan); plan None = faithful."""
    import builtins
    real = io.open

    def opener(file, mode="r", *a, **k):
        key = None
        if isinstance(file, (str, bytes, os.PathLike)):
            key = os.path.realpath(os.fsdecode(file))
        inf = infos.get(key)
        if inf is None or "b" not in mode or "r" not in mode:
            return real(file, mode, *a, **k)
        inf["opened"] = inf.get("opened", 0) + 1
        plan = inf["plan"]
        inf["fault"] = 0
        if plan and plan["n"] < 0:
            inf["fault"] = 1
            inf["given"] = 0
            raise PermissionError("injected")
        infos["order"].append(key)
        return Flaky(real(file, mode, *a, **k), inf, plan)

    builtins.open = opener
    io.open = opener
    try:
        yield
    finally:
        builtins.open = real
        io.open = real


def snapshot(path):
    if os.path.isdir(path):
        out = []
        for d, dirs, files in os.walk(path):
            for fn in files:
                p = os.path.join(d, fn)
                with open(p, "rb") as f:
                    out.append((os.path.relpath(p, path), f.read()))
            out += [(os.path.relpath(os.path.join(d, x), path), None) for x in dirs]
        return sorted(out, key=lambda t: t[0])
    if os.path.isfile(path):
        with open(path, "rb") as f:
            return f.read()
    return None


STALE = ["old.txt", ".hidden", ".cache/x", "old-log.txt.1", "a b", "GPS-log.txt~", "EPH/.tmp", "empty/sub/.keep", "MSM7/GPS-MSM7-1077.json", "GPS/GC1C_MSM7.obs", "EPH/GPS-EPH-1019.json", "deep/er/x"]


_PROG = re.compile(r"(\d+)\.(\d\d)%, (\d+) messages, \D*errors (\d+)-(\d+)-(\d+)")
_REJ = re.compile(r":(?:WARNING|ERROR|CRITICAL|PROGRESS): .*unexpected result for msg (\d+)")
_MSG = re.compile(r"Msg (\d+)\. Decoding (succeeded|failed)")
_UNK = re.compile(r"Decoder not found, message (\d+)")


def log_lines(text):
    """What the log says about progress, rejected and unsupported messages."""
    for line in text.split("\n"):
        m = _PROG.search(line)
        if m:
            g = [int(x) for x in m.groups()]
            yield "prog", [g[0] * 100 + g[1]] + g[2:]
        m = _REJ.search(line)
        if m:
            yield "rej", int(m.group(1))
        m = _UNK.search(line)
        if m:
            yield "unk", int(m.group(1))
        m = _MSG.search(line)
        if m:
            yield ("acc" if m.group(2) == "succeeded" else "fail"), int(m.group(1))


def cli_run(sc):
    """One invocation of the command line tool."""
    rec = {k: sc[k] for k in ("id", "mode", "ctl", "ctlok", "args")}
    rec["raised"], rec["what"] = 0, ""
    top = os.path.realpath(tempfile.mkdtemp(dir="."))
    home = os.getcwd()
    infos = {"order": []}
    src = []
    known = set()
    if sc["defaults"] is not None:
        with open(os.path.join(top, "defaults.ini"), "w") as f:
            f.write(sc["defaults"])
        known.add("defaults.ini")
    if sc.get("user"):
        with open(os.path.join(top, "user.ini"), "w") as f:
            f.write(sc["user"])
        known.add("user.ini")
    if "layers" in sc:
        rec["layers"] = sc["layers"]
    snaps, stores = [], []
    for q in sc["src"]:
        path = os.path.join(top, q["name"])
        stem = os.path.splitext(path)[0]
        dest = stem + "-" + sc["mode"]
        data = bytes.fromhex(q["s"])
        kind0 = "none"
        if q["kind"] == "file":
            os.makedirs(os.path.dirname(path), exist_ok=True)
            real = path
            if q.get("link"):
                # the source is reached through a symbolic link
                real = os.path.join(top, "store%d" % len(src), "real.rtcm3")
                os.makedirs(os.path.dirname(real))
                os.symlink(real if q["link"] == 1 else os.path.relpath(real, os.path.dirname(path)), path)
                known.add("store%d" % len(src))
                stores.append(real)
            with open(real, "wb") as f:
                f.write(data)
        elif q["kind"] == "dir":
            os.makedirs(path)
        if q.get("blocked"):
            with open(dest, "w") as f:
                f.write("occupied")
            kind0 = "plain"
        elif q.get("stale"):
            kind0 = "stale"
            for rel in STALE + [os.path.basename(stem) + "-log.txt"]:
                p = os.path.join(dest, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write("stale Finished with errors.\n")
        infos[os.path.realpath(path)] = {"given": 0 if q["kind"] != "file" else len(data), "fault": 0, "plan": q.get("fault")}
        snaps.append(snapshot(dest))
        src.append({"s": list(data), "kind": q["kind"], "kind0": kind0, "path": path, "key": os.path.realpath(path), "dest": dest, "stem": os.path.basename(stem)})
        known.add(os.path.relpath(path, top).split(os.sep)[0])
        known.add(os.path.relpath(dest, top).split(os.sep)[0])
    words = list(sc.get("opts", ["-o", sc["mode"]]))
    if sc.get("user") is not None:
        words += ["-i", os.path.join(top, "user.ini")]
    how = sc.get("how", "line")
    words += [os.path.relpath(src[a - 1]["path"], top) if how == "rel" else src[a - 1]["path"] for a in sc["args"]]
    os.chdir(top)
    argv = sys.argv
    try:
        with quiet(), flaky_open(infos):
            import run_conversion
            try:
                if how == "line":
                    run_conversion.main(" ".join(words))
                else:
                    sys.argv = ["run_conversion.py"] + words
                    run_conversion.main()
            except KeyboardInterrupt:
                rec["raised"], rec["what"] = 1, "KeyboardInterrupt"
            except SystemExit:
                rec["raised"], rec["what"] = 1, "SystemExit"
            except Exception as ex:
                rec["raised"], rec["what"] = 1, type(ex).__name__
    finally:
        os.chdir(home)
        sys.argv = argv
    out = []
    for q, sn in zip(src, snaps):
        inf = infos[q["key"]]
        dest = q["dest"]
        o = {"s": q["s"], "kind": q["kind"], "kind0": q["kind0"], "given": inf["given"], "fault": inf["fault"]}
        o["same"] = 1
        if q["kind"] == "file":
            o["same"] = 1 if os.path.isfile(q["path"]) and open(q["path"], "rb").read() == bytes(q["s"]) else 0
        o["dkind"] = "dir" if os.path.isdir(dest) else "plain" if os.path.exists(dest) else "none"
        o["touched"] = 0 if snapshot(dest) == sn else 1
        o["left"], o["log"], o["cross"], o["files"] = 0, [], 0, []
        o["marks"], o["prog"], o["rej"], o["unk"], o["acc"], o["fail"] = inf.get("marks", []), [], [], [], [], []
        if o["dkind"] == "dir":
            logs = [f for f in os.listdir(dest) if f.endswith("-log.txt") and os.path.isfile(os.path.join(dest, f))]
            for lf in logs:
                text = open(os.path.join(dest, lf), encoding="utf-8", errors="replace").read()
                if lf != q["stem"] + "-log.txt":
                    o["log"].append("misplaced")
                for key, x in log_lines(text):
                    o[key].append(x)
                for line in text.split("\n"):
                    o["log"] += [v for w, v in VERDICTS if w in line]
                if any(z["path"] != q["path"] and z["path"] in text for z in src):
                    o["cross"] = 1
            o["files"] = obs.tree(dest, skip=set(logs))
            if q["kind0"] == "stale":
                o["left"] = sum(1 for rel in STALE if rel.split("/")[0] not in ("MSM7", "GPS", "EPH") and os.path.lexists(os.path.join(dest, rel.split("/")[0]))) + sum(
                    1 for rel in STALE if os.path.isfile(os.path.join(dest, rel)) and "stale Fin" in open(os.path.join(dest, rel), errors="replace").read())
        out.append(o)
    rec["src"] = out
    rec["stray"] = sorted(set(os.listdir(top)) - known)
    own = {z[k] for z in src for k in ("path", "dest")}
    own |= set(stores)
    for d in sorted({os.path.dirname(p) for p in [z["path"] for z in src] + stores} - {top}):
        if os.path.isdir(d):
            rec["stray"] += sorted(os.path.relpath(os.path.join(d, x), top) for x in os.listdir(d) if os.path.join(d, x) not in own)
    shutil.rmtree(top)
    return rec


# ------------------------------------------------------------------ repetition
def digests(root, skip=()):
    import hashlib
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for fn in sorted(files):
            rel = os.path.relpath(os.path.join(d, fn), root).replace(os.sep, "/")
            if rel not in skip:
                with open(os.path.join(d, fn), "rb") as f:
                    out.append([rel, hashlib.sha256(f.read()).hexdigest()])
    return out


ENVS = [{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"TZ": "Asia/Tokyo", "LC_ALL": "C.UTF-8", "COLUMNS": "40"},
        {"LC_ALL": "POSIX", "PYTHONUTF8": "1", "PYTHONIOENCODING": "latin-1", "HOME": "/nonexistent", "TZ": "UTC+11"}]


CLOCK = """
import time, datetime
_o = %r
def _w(f):
    def g(*a):
        return f(*a) if a else f(_t() + _o)
    return g
_t = time.time
_n, _m = time.time_ns, time.monotonic
time.localtime, time.gmtime, time.ctime = _w(time.localtime), _w(time.gmtime), _w(time.ctime)
_s, _l, _a = time.strftime, time.localtime, time.asctime
time.strftime = lambda f, *a: _s(f, *(a or (_l(),)))
time.asctime = lambda *a: _a(*(a or (_l(),)))
time.time = lambda: _t() + _o
time.time_ns = lambda: _n() + int(_o * 1e9)
time.monotonic = time.perf_counter = lambda: _m() + abs(_o)
class _D(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)
    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)
    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())
class _E(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())
datetime.datetime, datetime.date = _D, _E
"""


def repro_run(sc):
    """The same source converted again and again under different circumstances."""
    import subprocess
    rec = {k: sc[k] for k in ("id", "mode", "ctl")}
    data = bytes.fromhex(sc["s"])
    rec["s"], rec["runs"] = list(data), []
    wd = os.path.realpath(tempfile.mkdtemp(dir="."))
    home = os.getcwd()
    src = os.path.join(wd, "x.rtcm3")
    out = os.path.join(wd, "x-" + sc["mode"])
    with open(src, "wb") as f:
        f.write(data)
    with open(os.path.join(wd, "defaults.ini"), "w") as f:
        f.write(ini_text(sc["ctl"]))
    with open(os.path.join(wd, "other.rtcm3"), "wb") as f:
        f.write(bytes.fromhex(sc["other"]))

    def done(how, ok, root=out, skip=("x-log.txt",)):
        rec["runs"].append({"how": how, "ok": 1 if ok else 0, "tree": digests(root, skip)})
        if len(rec["runs"]) == 1:
            rec["files"] = obs.tree(root, skip=set(skip))
    for how in sc["how"]:
        ok = True
        if how[0] == "lib":
            with quiet():
                from converter_top import ConverterFactory
                o = os.path.join(wd, "lib%d" % len(rec["runs"]))
                os.mkdir(o)
                try:
                    conv = ConverterFactory(sc["mode"])(o, boxed(sc["ctl"], wd))
                    pos = 0
                    for n in how[1]:
                        for m in conv.parse_bytes(data[pos:pos + n]):
                            b = conv.decode(m)
                            if b is not None:
                                conv.print(b)
                        pos += n
                    conv.release()
                except Exception:
                    ok = False
            done("lib", ok, o, ())
        elif how[0] == "main":
            os.chdir(wd)
            try:
                with quiet():
                    import run_conversion
                    run_conversion.main(" ".join(["-o", sc["mode"]] + ["other.rtcm3"] * how[1] + [src]))
            except (Exception, SystemExit):
                ok = False
            finally:
                os.chdir(home)
            done("main", ok)
        elif how[0] == "name":
            # the same bytes under another name, elsewhere, with other attributes
            sub = os.path.join(wd, "n%d" % len(rec["runs"]), os.path.dirname(how[1]))
            os.makedirs(sub)
            base = os.path.basename(how[1])
            path = os.path.join(sub, base)
            with open(path, "wb") as f:
                f.write(data)
            if how[2] == "ro":
                os.chmod(path, 0o444)
            elif how[2] == "old":
                os.utime(path, (how[3], how[3]))
            os.chdir(wd if how[4] else sub)
            try:
                if not how[4]:
                    shutil.copy(os.path.join(wd, "defaults.ini"), sub)
                with quiet():
                    import run_conversion
                    run_conversion.main(" ".join(["-o", sc["mode"], path if how[5] else os.path.relpath(path)]))
            except (Exception, SystemExit):
                ok = False
            finally:
                os.chdir(home)
            stem = os.path.splitext(base)[0]
            done("name", ok, os.path.join(sub, stem + "-" + sc["mode"]), (stem + "-log.txt",))
        else:
            repo = os.path.dirname(os.path.abspath(sys.modules["converter_top"].__file__)) if "converter_top" in sys.modules else sys.path[0]
            env = dict(os.environ, PYTHONHASHSEED=str(how[1]), **ENVS[how[4] if len(how) > 4 else 0])
            if len(how) > 5 and how[5]:
                os.makedirs(os.path.join(wd, "clk"), exist_ok=True)
                with open(os.path.join(wd, "clk", "sitecustomize.py"), "w") as f:
                    f.write(CLOCK % how[5])
                env["PYTHONPATH"] = os.path.join(wd, "clk")
            p = subprocess.run([sys.executable, os.path.join(repo, "run_conversion.py"), "-o", sc["mode"]] + ["other.rtcm3"] * how[2] + ["x.rtcm3" if how[3] else src],
                               cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=50)
            done("proc", p.returncode == 0)
    shutil.rmtree(wd)
    return rec


# ------------------------------------------------------------------ command lines
def opt_run(sc):
    """One invocation with an arbitrary command line."""
    import builtins
    rec = {k: sc[k] for k in ("id", "words", "ctl", "ctlA", "ctlB", "folder", "name")}
    top = os.path.realpath(tempfile.mkdtemp(dir="."))
    home = os.getcwd()
    for n, c in (("defaults.ini", "ctl"), ("A.ini", "ctlA"), ("B.ini", "ctlB")):
        with open(os.path.join(top, n), "w") as f:
            f.write(ini_text(sc[c]))
    os.mkdir(os.path.join(top, "fld"))
    rec["src"] = []
    for name, s in sc["src"]:
        with open(os.path.join(top, "fld", "m." + name), "wb") as f:
            f.write(bytes.fromhex(s))
        rec["src"].append({"name": name, "s": list(bytes.fromhex(s))})
    before = {os.path.join(d, x) for d, dd, ff in os.walk(top) for x in dd + ff}
    rec.update(code=0, exit=0, what="")
    out = io.StringIO()
    real_in, real_argv = builtins.input, sys.argv
    os.chdir(top)
    try:
        builtins.input = lambda *a: "1"
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            import run_conversion
            try:
                if sc["argv"]:
                    sys.argv = ["run_conversion.py"] + sc["line"]
                    run_conversion.main()
                else:
                    run_conversion.main(" ".join(sc["line"]))
            except SystemExit as ex:
                rec["exit"], rec["what"] = 1, "SystemExit"
                rec["code"] = ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1
            except (Exception, KeyboardInterrupt) as ex:
                rec["code"], rec["what"] = -1, type(ex).__name__
    finally:
        builtins.input, sys.argv = real_in, real_argv
        os.chdir(home)
    rec["said"] = 1 if out.getvalue().strip() else 0
    rec["made"], own = [], []
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO"):
        for stem in sorted({os.path.splitext("m." + name)[0] for name, _ in sc["src"]}):
            d = os.path.join(top, "fld", stem + "-" + mode)
            if os.path.isdir(d):
                own.append(d)
                log = os.path.join(d, stem + "-log.txt")
                text = open(log, errors="replace").read() if os.path.isfile(log) else ""
                for name, _ in sc["src"]:
                    if os.path.splitext("m." + name)[0] == stem and os.path.join(top, "fld", "m." + name) in text:
                        rec["made"].append({"name": name, "mode": mode, "files": obs.tree(d, skip={stem + "-log.txt"})})
    after = {os.path.join(d, x) for d, dd, ff in os.walk(top) for x in dd + ff}
    rec["stray"] = sorted(os.path.relpath(p, top) for p in after ^ before if not any(p == d or p.startswith(d + os.sep) for d in own))
    shutil.rmtree(top)
    return rec


# ------------------------------------------------------------------ controls
def num(v):
    return int(v) if isinstance(v, (bool, int)) else -77777


def margo_vals(m):
    out = [["hca", num(m.half_cycle_enable) if isinstance(m.half_cycle_enable, bool) else -77777],
           ["lt", num(m.lock_time_enable) if isinstance(m.lock_time_enable, bool) else -77777], ["shift", num(m.gps_utc_shift)]]
    return out + [["R%d" % k, num(v)] for k, v in sorted(m.glo_lit_tab.items())]


def json_vals(j):
    return [[n, num(v) if isinstance(v, bool) else -77777] for n, v in
            (("pretty", j.enable_pretty_view), ("hdr", j.enable_hdr_data), ("aux", j.enable_aux_data))]


def ctl_run(sc):
    """The controls manager fed with a sequence of configuration files."""
    rec = {"id": sc["id"], "files": [{"kind": f["kind"], "d": f["d"]} for f in sc["files"]], "obs": []}
    wd = tempfile.mkdtemp(dir=".")
    with quiet():
        from controls import ConverterControls
        cc = ConverterControls()
        for k, f in enumerate(sc["files"]):
            path = os.path.join(wd, "f%d.ini" % k)
            if f["kind"] != "none":
                with open(path, "w") as h:
                    h.write(f["text"])
            o = {"exc": 0, "box": 0, "m": 0, "j": 0, "v": [], "mv": [], "jv": []}
            try:
                (cc.init_from_file if k == 0 else cc.update_from_file)(path)
                b, m, j = cc.boxed_controls, cc.MARGO, cc.JSON
                if b is not None:
                    o["box"], o["v"] = 1, margo_vals(b.MARGO) + json_vals(b.JSON)
                if m is not None:
                    o["m"], o["mv"] = 1, margo_vals(m)
                if j is not None:
                    o["j"], o["jv"] = 1, json_vals(j)
            except Exception:
                o["exc"] = 1
            rec["obs"].append(o)
    shutil.rmtree(wd)
    return rec


# ------------------------------------------------------------------ sources
def sel_run(sc):
    """One invocation naming sources or selecting them in the dialogue."""
    import ast, builtins
    rec = {k: sc[k] for k in ("id", "answer")}
    rec["raised"], rec["listing"] = 0, []
    top = os.path.realpath(tempfile.mkdtemp(dir="."))
    home = os.getcwd()
    with open(os.path.join(top, "defaults.ini"), "w") as f:
        f.write(sc["defaults"])
    fld = os.path.join(top, sc["folder"])
    os.makedirs(fld)
    if sc.get("sub"):
        os.makedirs(os.path.join(top, sc["sub"]))
    infos, paths = {"order": []}, {}
    for q in sc["files"]:
        p = os.path.join(top, q["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(bytes.fromhex(q["s"]))
        paths[p] = q["id"]
        infos[p] = {"given": 0, "fault": 0, "plan": None}
    before = {os.path.join(d, x) for d, dd, ff in os.walk(top) for x in dd + ff}
    words, rec["args"] = list(sc["opts"]), []
    for a in sc["args"]:
        rec["args"].append({"kind": a["kind"], "id": a["id"]})
        words.append(a["word"] if sc["rel"] else os.path.join(top, a["word"]))
    rec["match"] = sc["match"]
    asked = []

    def answer(prompt=""):
        asked.append(prompt)
        return sc["reply"]
    out = io.StringIO()
    os.chdir(top)
    real_in, real_argv = builtins.input, sys.argv
    try:
        builtins.input = answer
        with contextlib.redirect_stdout(out), flaky_open(infos):
            import run_conversion
            try:
                if sc["argv"]:
                    sys.argv = ["run_conversion.py"] + words
                    run_conversion.main()
                else:
                    run_conversion.main(" ".join(words))
            except (Exception, KeyboardInterrupt, SystemExit):
                rec["raised"] = 1
    finally:
        builtins.input, sys.argv = real_in, real_argv
        os.chdir(home)
    rec["asked"] = len(asked)
    for line in out.getvalue().split("\n"):
        m = re.match(r"^\s*(\d+)\s*:\s*(\S.*?)\s*$", line)
        if m:
            t = m.group(2)
            try:
                t = str(ast.literal_eval(t))
            except (ValueError, SyntaxError):
                pass
            rec["listing"].append([int(m.group(1)), paths.get(os.path.realpath(os.path.join(top, t)), 0)])
    rec["opened"] = [paths[p] for p in infos["order"]]
    made = {}
    for p, i in paths.items():
        made.setdefault(os.path.splitext(p)[0] + "-" + sc["mode"], []).append(i)
    rec["folders"] = sorted(i for d, ids in made.items() if os.path.isdir(d) for i in ids)
    rec["logs"] = []
    for d, ids in made.items():
        logs = [f for f in (os.listdir(d) if os.path.isdir(d) else []) if f.endswith("-log.txt")]
        if logs and any("Finished" in open(os.path.join(d, f), errors="replace").read() for f in logs):
            rec["logs"] += ids
    after = {os.path.join(d, x) for d, dd, ff in os.walk(top) for x in dd + ff}
    rec["stray"] = sorted(os.path.relpath(p, top) for p in after - before if not any(p == d or p.startswith(d + os.sep) for d in made))
    shutil.rmtree(top)
    return rec


# ------------------------------------------------------------------ objects
_CLS = {}


def classes():
    if not _CLS:
        import dataclasses
        import gnss_types as gt
        DCM = gt.DataClassMethods
        for n in dir(gt):
            c = getattr(gt, n)
            if isinstance(c, type) and issubclass(c, DCM) and c is not DCM and dataclasses.is_dataclass(c):
                _CLS[n] = c

        @dataclasses.dataclass
        class Leaf(DCM):
            x: int = 0
            y: float = 0.0
            s: str = ""
            b: bool = False

        @dataclasses.dataclass
        class Node(DCM):
            n: int = 0
            leaf: Leaf = dataclasses.field(default_factory=Leaf)
            seq: list = dataclasses.field(default_factory=list)
            tab: dict = dataclasses.field(default_factory=dict)
            z: float = 0.0

        @dataclasses.dataclass
        class Plain:
            x: int = 0
            y: float = 0.0

        @dataclasses.dataclass
        class Holder(DCM):
            a: int = 0
            p: Plain = dataclasses.field(default_factory=Plain)
            b: int = 0
        _CLS.update(Leaf=Leaf, Node=Node, Plain=Plain, Holder=Holder)
    return _CLS


def build(v):
    if isinstance(v, dict):
        if "c" in v:
            o = classes()[v["c"]]()
            for k, x in v["f"]:
                setattr(o, k, build(x))
            return o
        if "d" in v:
            return {k: build(x) for k, x in v["d"]}
        if "l" in v:
            return [build(x) for x in v["l"]]
        if "t" in v:
            return tuple(build(x) for x in v["t"])
        return float.fromhex(v["x"])
    return v


def enc_obj(v):
    import dataclasses
    if dataclasses.is_dataclass(v):
        fs = [f.name for f in dataclasses.fields(v)]
        return {"t": "c", "n": type(v).__name__, "k": fs, "v": [enc_obj(getattr(v, f)) for f in fs]}
    if isinstance(v, dict):
        return {"t": "o", "k": [repr(k) for k in v], "v": [enc_obj(x) for x in v.values()]}
    if isinstance(v, (list, tuple)):
        return {"t": "a", "v": [enc_obj(x) for x in v]}
    return obs.enc(v)


def cmp_run(sc):
    import copy, dataclasses
    rec = {"id": sc["id"], "op": sc["op"], "tag": sc.get("tag", "")}
    with quiet():
        a = build(sc["a"])
        rec["a"] = enc_obj(a)
        if sc["op"] == "cmp":
            b = build(sc["b"])
            rec["b"] = enc_obj(b)
            rec["tol"] = obs.enc(sc["tol"] if sc["tol"] else 1e-15)
            try:
                r = a.compare(b, sc["tol"]) if sc["tol"] else a.compare(b)
                rec["r"] = 1 if r is True else 0 if r is False else 2
            except Exception:
                rec["r"] = 2
        elif sc["op"] == "copy":
            rec["how"] = sc["how"]
            c = getattr(a, sc["how"])()
            rec["c"] = enc_obj(c)
            rec["r"] = 1 if c.compare(a) is True and type(c) is type(a) and c is not a else 0
            fs = [f.name for f in dataclasses.fields(c)]
            nest = [i for i, f in enumerate(fs) if isinstance(getattr(c, f), (list, dict)) or dataclasses.is_dataclass(getattr(c, f))]
            flat = [i for i in range(len(fs)) if i not in nest]
            rec["top"] = flat[sc["pick"] % len(flat)] + 1
            setattr(c, fs[rec["top"] - 1], "changed")
            rec["nest"] = nest[sc["pick"] % len(nest)] + 1 if nest else 0
            if nest:
                x = getattr(c, fs[rec["nest"] - 1])
                if isinstance(x, list):
                    x.append("changed")
                elif isinstance(x, dict):
                    x["changed"] = 1
                else:
                    setattr(x, dataclasses.fields(x)[0].name, "changed")
            rec["a1"] = enc_obj(a)
        else:
            it = list(a.items())
            rec["items"] = [k for k, _ in it]
            rec["vals"] = [enc_obj(v) for _, v in it]
            rec["len"] = a.len()
    return rec


def reg_run(sc):
    """Registration of sub-decoders / sub-printers with the top objects, and dispatch to them."""
    import types
    rec = {"id": sc["id"], "side": sc["side"], "subs": sc["subs"], "ev": []}
    ev, called = rec["ev"], []
    with quiet():
        import gnss_types
        from decoder_top import DecoderTop, SubDecoderInterface
        from printer_top import PrinterTop, SubPrinterInterface
        dec = sc["side"] == "dec"
        top = DecoderTop() if dec else PrinterTop()
        ios = []
        for k, q in enumerate(sc["subs"], 1):
            if dec:
                def decode(buf, k=k, q=q):
                    called.append(k)
                    if q["ret"] == "raise":
                        raise ValueError("refused")
                    return None if q["ret"] == "None" else getattr(gnss_types, q["ret"])()
                x = SubDecoderInterface(q["sub"], True) if q["bare"] else SubDecoderInterface(q["sub"])
                x.actual_messages = set(q["act"])
                if q["meth"]:
                    x.decode = decode
            else:
                def prn(block, k=k, q=q):
                    called.append(k)
                    if q["fail"]:
                        raise AssertionError("refused")
                def close(k=k):
                    called.append(k)
                x = SubPrinterInterface()
                x.format = q["mode"]
                x.data_spec = SubPrinterInterface.make_specs(q["mode"])
                x.actual_spec = {getattr(gnss_types, c) for c in q["act"]}
                if q["pm"]:
                    x.print = prn
                if q["cm"]:
                    x.close = close
            ios.append(x if q["proto"] else types.SimpleNamespace(**vars(x)))
        for o, a in sc["ops"]:
            called.clear()
            e = {"e": o, "a": a}
            try:
                if o == "reg":
                    e["ok"] = 1 if (top.register_decoder if dec else top.add_subprinter)(ios[a - 1]) else 0
                elif o == "dec":
                    r = top.decode(bytes.fromhex(sc["msgs"][str(a)]))
                    e["ret"] = type(r).__name__ if r is not None else "None"
                elif o == "fmt":
                    top.format = a
                elif o == "prn":
                    top.print(getattr(gnss_types, a)())
                elif o == "close":
                    top.close()
            except Exception:
                e = {"e": "exc", "w": o}
            e["called"] = list(called)
            e["st"] = [top.dec_attempts, top.dec_errors] if dec else [top.attempts, top.errors]
            if not dec:
                e["rd"] = [int(bool(top.exist)), int(bool(top.ready))]
            ev.append(e)
    return rec


def bits_run(sc):
    """Direct use of the bit-field primitives."""
    rec = {"id": sc["id"], "calls": []}
    with quiet():
        from utilities import Bits, ExceptionBitsError
        fn = {"u": Bits.getbitu, "s": Bits.getbits, "ru": Bits.revbitu, "rs": Bits.revbits}
        for f, b, p, n in sc["calls"]:
            buf = bytes.fromhex(b)
            q = {"f": f, "b": list(buf), "p": p, "n": n, "ok": 1, "s": 0, "r": [0]}
            try:
                v = fn[f](buf, p, n) if f in ("u", "s") else fn[f](int.from_bytes(buf, "big"), n, p)
                q["s"], q["r"] = int(v < 0), list(abs(v).to_bytes(max(1, (abs(v).bit_length() + 7) // 8), "big"))
            except ExceptionBitsError:
                q["ok"] = 0
            except Exception:
                q["ok"] = -1
            rec["calls"].append(q)
    return rec


def enc_slots(v):
    """A data block of any kind: dataclass or slots object, recursively."""
    import dataclasses
    if dataclasses.is_dataclass(v):
        fs = [f.name for f in dataclasses.fields(v)]
    elif hasattr(type(v), "__slots__") and type(v).__module__.startswith("gnss_types"):
        fs = [f for f in type(v).__slots__]
    elif isinstance(v, dict):
        return {"t": "o", "k": [repr(k) for k in v], "v": [enc_slots(x) for x in v.values()]}
    elif isinstance(v, (list, tuple)):
        return {"t": "a", "v": [enc_slots(x) for x in v]}
    else:
        return obs.enc(v)
    return {"t": "c", "n": type(v).__name__, "k": fs, "v": [enc_slots(getattr(v, f)) for f in fs]}


def fill(v, R):
    """Write every part of a block, nested containers in place; returns the encoding of what it must now hold."""
    import dataclasses
    fs = [f.name for f in dataclasses.fields(v)] if dataclasses.is_dataclass(v) else list(type(v).__slots__)
    out = []
    for f in fs:
        x = getattr(v, f)
        if dataclasses.is_dataclass(x) or (hasattr(type(x), "__slots__") and type(x).__module__.startswith("gnss_types")):
            out.append(fill(x, R))
        elif isinstance(x, dict):
            want = enc_slots(x)
            key, val = "k%d" % R.randrange(10 ** 6), R.randrange(1, 10 ** 6)
            x[key] = val
            want["k"].append(repr(key))
            want["v"].append(obs.enc(val))
            out.append(want)
        elif isinstance(x, list):
            want = enc_slots(x)
            val = R.randrange(1, 10 ** 6)
            x.append(val)
            want["v"].append(obs.enc(val))
            out.append(want)
        else:
            if f == "gnss":
                val = R.choice("GREBQSI")
            elif f == "subset":
                val = "MSM%d" % R.randint(1, 7)
            elif isinstance(x, tuple):
                val = tuple(R.randrange(1, 10 ** 6) for _ in range(R.randint(1, 3)))
            elif isinstance(x, str):
                val = "s%d" % R.randrange(10 ** 6)
            else:
                val = R.randrange(1, 1 << 30)
            setattr(v, f, val)
            out.append(enc_slots(val))
    return {"t": "c", "n": type(v).__name__, "k": fs, "v": out}


def blk_run(sc):
    """Data blocks made, written and cleared."""
    import random
    R = random.Random(sc["seed"])
    rec = {"id": sc["id"], "ev": []}
    objs = []
    with quiet():
        import gnss_types as gt
        for o, a in sc["ops"]:
            e = {"e": o, "a": a}
            try:
                if o == "new":
                    objs.append(getattr(gt, a)())
                elif o == "fill":
                    e["w"] = fill(objs[a - 1], R)
                else:
                    objs[a - 1].clear()
            except Exception:
                rec["ev"].append({"e": "exc", "w": o})
                break
            e["all"] = [enc_slots(x) for x in objs]
            e["read"] = []
            for x in objs:
                if type(x).__name__.startswith("Bare"):
                    e["read"].append({"t": x.time, "d": x.day, "g": x.atr.gnss, "h": x.hdr.time, "s": x.atr.subset,
                                      "k": [int(getattr(x.atr, "is_msm%d" % q)) for q in range(1, 8)]})
            rec["ev"].append(e)
    return rec


def cls_run(sc):
    """Classification of message numbers, signals and codes."""
    rec = {"id": sc["id"], "rows": []}
    with quiet():
        from utilities import getSubset, MSMT, LEGT, EPHT
        for k, *q in sc["rows"]:
            if k == "num":
                n, = q
                rec["rows"].append({"k": k, "n": n, "all": list(getSubset(n)), "msm": list(MSMT.msm_subset(n)), "leg": list(LEGT.legacy_subset(n)),
                                    "eph": list(EPHT.eph_subset(n))})
            elif k == "sig":
                g, c = q
                lit = MSMT.rnx_lit(g, c)
                frq = 0
                if lit is not None:
                    f = MSMT.crr_frq(g, lit)
                    frq = round(f * 1e4)
                    frq = frq if frq / 1e4 == f else -1
                rec["rows"].append({"k": k, "g": g, "c": c, "lit": lit or "", "frq": frq})
            else:
                c, = q
                rec["rows"].append({"k": k, "c": c, "steer": MSMT.unpack_clk_steer(c), "ext": MSMT.unpack_clk_ext(c)})
    return rec


def logger_run(sc):
    """The two-channel logger on its own."""
    import sys
    rec = {"id": sc["id"], "ev": []}
    wd = tempfile.mkdtemp(dir=".")
    paths = [os.path.join(wd, "log%d.txt" % i) for i in range(sc["nf"])]
    con = io.StringIO()
    old = sys.stderr
    sys.stderr = con
    try:
        with quiet():
            from logger import LOGGER_CF as lg
            for i, p in enumerate(paths):
                if sc["pre"][i]:
                    with open(p, "w") as f:
                        f.write("".join(x + "\n" for x in sc["pre"][i]))

            def content():
                out = []
                for p in paths:
                    try:
                        with open(p, newline="", errors="replace") as f:
                            out.append(f.read())
                    except OSError:
                        out.append("")
                return out
            for e in sc["ops"]:
                e = dict(e)
                c0, f0 = len(con.getvalue()), content()
                e["ok"] = 1
                try:
                    if e["e"] == "init":
                        lg.init_2CH(paths[e["a"] - 1], e["id"])
                    elif e["e"] == "deinit":
                        lg.deinit()
                    else:
                        getattr(lg, e["a"])(e["text"])
                except Exception:
                    e["ok"] = 0
                e["con"] = con.getvalue()[c0:]
                e["files"] = [b[len(a):] if b.startswith(a) else "?" for a, b in zip(f0, content())]
                rec["ev"].append(e)
            try:
                lg.deinit()
            except Exception:
                pass
    finally:
        sys.stderr = old
        shutil.rmtree(wd, ignore_errors=True)
    return rec


# ------------------------------------------------------------------ locations
def path_run(sc):
    """Where the products of a source are said to be, and where they really are."""
    rec = dict(id=sc["id"], rows=[])
    home = os.getcwd()
    with quiet():
        from printers import PrintJSON
        import run_conversion
    for dir_, stem, ext, mode, n, data in sc["rows"]:
        base = os.path.join(dir_, stem + ext)
        got = PrintJSON.make_opath(base, n, mode)
        row = dict(dir=dir_, stem=stem, ext=ext, mode=mode, n=n, ofile=str(got[0]), odir=str(got[1]), olog=str(got[2]), ran=0, seen=[])
        if data:
            wd = os.path.realpath(tempfile.mkdtemp(dir="."))
            try:
                with open(os.path.join(wd, "defaults.ini"), "w") as f:
                    f.write(ini_text(sc["ctl"]))
                os.chdir(wd)
                os.makedirs(dir_ or ".", exist_ok=True)
                with open(base, "wb") as f:
                    f.write(bytes.fromhex(data))
                try:
                    with quiet():
                        run_conversion.main(" ".join(["-o", mode, base]))
                except (Exception, SystemExit):
                    row["seen"].append("raised")
                for d, _, fs in os.walk("."):
                    row["seen"] += [os.path.relpath(os.path.join(d, f), ".") for f in fs]
                row["seen"] = sorted(f for f in row["seen"] if f not in ("defaults.ini", os.path.normpath(base)))
                row["ran"] = 1
            finally:
                os.chdir(home)
                shutil.rmtree(wd)
        rec["rows"].append(row)
    return rec


KINDS = {"path": path_run, "logger": logger_run, "blk": blk_run, "cls": cls_run, "bits": bits_run, "reg": reg_run, "conv": conv_run, "lib": lib_run, "opt": opt_run, "repro": repro_run, "file": file_run, "cli": cli_run, "ctl": ctl_run, "sel": sel_run, "cmp": cmp_run}
