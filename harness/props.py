"""Property table: which scenario suites feed the trace validation and which
deviation clauses of the specification decide the property."""
import random
import gen, msg

J = ("JSON", "JSON-B")
M = gen.MODES


def deep(tier):
    return tier == "thorough"


def pick(seed, name, L, n):
    """n behaviours, spread evenly over the enumeration with a seeded offset."""
    if n >= len(L):
        return L
    R = random.Random(f"{seed}/{name}/pick")
    return R.sample(L, n)


def R_(seed, name):
    return random.Random(f"{seed}/{name}/R")


def masks(s, t, B, name, mode):
    b = B("MCMsm", "MCMsm12" if deep(t) else None)
    return gen.msm_masks(s, (mode,), pick(s, name, b, 4000 if deep(t) else 1200), name=name)


# name -> (validation module, generator(seed, tier, behaviours))
SUITES = {}


def suite(name, module="TConv"):
    def reg(f):
        SUITES[name] = (module, f)
        return f
    return reg


def some(seed, sc, n, tier):
    """Subset of a suite (whole scenarios) for the quick tier."""
    return sc if deep(tier) else pick(seed, sc[0]["id"] if sc else "", sc, n)


@suite("stream")
def _(s, t, B):
    b = B("GenStream", "GenStream3" if deep(t) else None)
    return gen.stream_suite(s, pick(s, "stream", b, 4000) if deep(t) else b)


@suite("stream2")
def _(s, t, B):
    return gen.stream_suite(s, pick(s, "stream2", B("GenStream"), 1400), name="stream2")


@suite("split")
def _(s, t, B):
    return gen.split_suite(s, 40 if deep(t) else 18)


@suite("longstream")
def _(s, t, B):
    return gen.longstream_suite(s, 36 if deep(t) else 15)


@suite("crc")
def _(s, t, B):
    return gen.crc_suite(s, deep(t))


@suite("msmJ")
def _(s, t, B):
    return gen.msm_plain(s, ("JSON",), reps=16 if deep(t) else 8, name="msmJ")


@suite("msmB")
def _(s, t, B):
    return gen.msm_plain(s, ("JSON-B",), reps=16 if deep(t) else 8, name="msmB")


@suite("shapeJ")
def _(s, t, B):
    return gen.msm_shapes(s, ("JSON",), k=16 if deep(t) else 8, name="shapeJ")


@suite("shapeB")
def _(s, t, B):
    return gen.msm_shapes(s, ("JSON-B",), k=16 if deep(t) else 6, name="shapeB")


@suite("shapeM")
def _(s, t, B):
    return gen.msm_shapes(s, ("MARGO",), k=16 if deep(t) else 5, name="shapeM")


@suite("sweepJ")
def _(s, t, B):
    out = gen.msm_sweep(s, "JSON")
    if deep(t):
        for g in "RESQCI":
            out += gen.msm_sweep(s, "JSON", name="sweep" + g, gn=g)
    return out


@suite("sweepB")
def _(s, t, B):
    return gen.msm_sweep(s, "JSON-B", name="sweepB", step=1 if deep(t) else 2)


@suite("sweepM")
def _(s, t, B):
    return gen.msm_sweep(s, "MARGO", fields=("lock", "cnr", "ms", "hc"), name="sweepM")


@suite("signalsJ")
def _(s, t, B):
    return gen.msm_signals(s, ("JSON",), name="signalsJ")


@suite("signalsB")
def _(s, t, B):
    return gen.msm_signals(s, ("JSON-B",), name="signalsB")


@suite("signalsM")
def _(s, t, B):
    return gen.msm_signals(s, ("MARGO",), name="signalsM")


for _m, _k in (("JSON", "J"), ("JSON-B", "B"), ("MARGO", "M")):
    suite("cross" + _k)(lambda s, t, B, m=_m, k=_k: gen.msm_cross(s, (m,) * (3 if deep(t) else 1), name="cross" + k))
    suite("mix" + _k)(lambda s, t, B, m=_m, k=_k: gen.msm_mix(s, (m,), 240 if deep(t) else 40, name="mix" + k))
    suite("grid" + _k)(lambda s, t, B, m=_m, k=_k: gen.msm_grid(s, (m,) * (4 if deep(t) else 1), name="grid" + k))
    suite("form" + _k)(lambda s, t, B, m=_m, k=_k: gen.msm_forms(s, (m,), name="form" + k))


@suite("hdrB")
def _(s, t, B):
    return gen.msm_headers(s, ("JSON-B",), name="hdrB")


@suite("hdrJ")
def _(s, t, B):
    return gen.msm_headers(s, ("JSON",), name="hdrJ")


@suite("timeJ")
def _(s, t, B):
    return gen.msm_times(s, J, name="timeJ")


@suite("timeM")
def _(s, t, B):
    return gen.msm_times(s, ("MARGO", "JARGO"), name="timeM")


@suite("markJ")
def _(s, t, B):
    return gen.msm_marks(s, ("JSON",), reps=8 if deep(t) else 3, name="markJ")


@suite("markM")
def _(s, t, B):
    return gen.msm_marks(s, ("MARGO",), reps=8 if deep(t) else 3, name="markM")


@suite("extremeJ")
def _(s, t, B):
    return gen.msm_extremes(s, ("JSON",) * (4 if deep(t) else 1), name="extremeJ")


@suite("extremeB")
def _(s, t, B):
    return gen.msm_extremes(s, ("JSON-B",), name="extremeB")


@suite("extremeM")
def _(s, t, B):
    return gen.msm_extremes(s, ("MARGO",) * (4 if deep(t) else 1), name="extremeM")


@suite("eph")
def _(s, t, B):
    if deep(t):
        return gen.variants(s, J, msg.EPH, "eph", per_field=("ones", "half", "zero", "max", "one", "min1", "near"), reps=20, mix=1500)
    return gen.variants(s, J, msg.EPH, "eph", per_field=("ones", "half", "zero", "max", "one", "min1", "near"), reps=6, mix=300)


@suite("ephenum")
def _(s, t, B):
    out = []
    for n in msg.EPH:
        out += gen.enum_fields(s, J, n, "ephenum", widths=range(1, 12 if deep(t) else 11))
    return out


@suite("base")
def _(s, t, B):
    return gen.base_msgs(s, J, deep=8 if deep(t) else 3)


@suite("struct")
def _(s, t, B):
    return gen.struct(s, M if deep(t) else J, reps=6 if deep(t) else 2)


@suite("route")
def _(s, t, B):
    return gen.route(s, M, allnum=True)


@suite("hist")
def _(s, t, B):
    b = B("MCConverter", "MCConverter4" if deep(t) else None)
    return gen.history(s, pick(s, "hist", b, 12000 if deep(t) else 2500), c=gen.rctl, clear=True)


@suite("hist2")
def _(s, t, B):
    return gen.history(s, pick(s, "hist2", B("MCConverter"), 3000 if deep(t) else 1200), name="hist2", c=gen.rctl)


@suite("repeat")
def _(s, t, B):
    return gen.repeats(s, M, n=20 if deep(t) else 12)


@suite("twin")
def _(s, t, B):
    return gen.twins(s, ("JSON", "JSON-B"), reps=3 if deep(t) else 1)


@suite("twinM")
def _(s, t, B):
    return gen.twins(s, ("MARGO", "JARGO") * (2 if deep(t) else 1), name="twinM")


@suite("histfile")
def _(s, t, B):
    return gen.history_files(s, pick(s, "hf", B("MCConverter", "MCConverter4" if deep(t) else None), 3000 if deep(t) else 600))


@suite("repeatM")
def _(s, t, B):
    return gen.repeats(s, ("MARGO", "JARGO"), n=12, name="repeatM", nums=random.Random(f"{s}rm").sample(msg.MSM, 12))


@suite("many")
def _(s, t, B):
    return gen.manyfiles(s, M if deep(t) else ("JSON", R_(s, "many").choice(["JSON-B", "JARGO"])), rounds=4 if deep(t) else 2)


@suite("manyM")
def _(s, t, B):
    return gen.manyfiles(s, ("MARGO", "JARGO"), name="manyM", rounds=4 if deep(t) else 2)


@suite("maskJ")
def _(s, t, B):
    return masks(s, t, B, "maskJ", "JSON")


@suite("maskB")
def _(s, t, B):
    return masks(s, t, B, "maskB", "JSON-B")


@suite("maskM")
def _(s, t, B):
    return masks(s, t, B, "maskM", "MARGO")


@suite("long")
def _(s, t, B):
    return gen.longrun(s, M if deep(t) else ("JSON", "MARGO"), n=1000 if deep(t) else 400)


@suite("endstream")
def _(s, t, B):
    return gen.endure_stream(s, 3000 if deep(t) else 1100)


@suite("endure")
def _(s, t, B):
    return gen.endure(s, M, 2500 if deep(t) else 1100)


@suite("endM")
def _(s, t, B):
    return gen.endure(s, ("MARGO", "JARGO"), 2500 if deep(t) else 1100, name="endM", kinds=("msm", "msm", "mix"))


@suite("endsess", "TSession")
def _(s, t, B):
    return gen.endure_sess(s, 600 if deep(t) else 300)


@suite("switch")
def _(s, t, B):
    return gen.switches(s, ("JSON", "JSON-B", "JARGO"))


@suite("mctl")
def _(s, t, B):
    return gen.margo_ctl(s, ("MARGO", "JARGO"), reps=6 if deep(t) else 2)


@suite("glo")
def _(s, t, B):
    return gen.glo_freq(s, ("MARGO", "JARGO") if deep(t) else ("MARGO",))


@suite("around")
def _(s, t, B):
    return gen.around(s, M, 15 if deep(t) else 3)


@suite("jargo")
def _(s, t, B):
    out = gen.route(s, ("JARGO",), name="jroute")
    out += gen.repeats(s, ("JARGO",), name="jrep", n=6)
    out += gen.msm_plain(s, ("JARGO",), reps=2, name="jmsm", c=gen.rctl)
    b = [x for x in B("MCConverter") if x["mode"] == "JARGO"]
    out += gen.history(s, pick(s, "jh", b, 1500 if deep(t) else 600), name="jhist", c=gen.rctl)
    out += gen.around(s, ("JARGO",), 40 if deep(t) else 8, name="jaround", c=gen.rctl)
    if deep(t):
        out += gen.variants(s, ("JARGO",), msg.EPH, "jeph") + gen.base_msgs(s, ("JARGO",), name="jbase")
    return out


@suite("fault")
def _(s, t, B):
    return gen.faults(s, modes=M if deep(t) else ("JSON", "MARGO"), n=6 if deep(t) else 5, deep=deep(t))


@suite("sess", "TSession")
def _(s, t, B):
    b = B("MCSession", "MCSession3" if deep(t) else None)
    return gen.sessions(s, pick(s, "sess", b, 6000 if deep(t) else 800))


@suite("sessfault", "TSession")
def _(s, t, B):
    b = B("MCSession")
    return gen.sessions(s, b, name="sessfault", want=lambda x: any(a[0] in ("open", "read0", "read1", "int1", "blocked") for a in x["a"]), every=1 if deep(t) else 4)


@suite("verdict", "TSession")
def _(s, t, B):
    b = B("MCSession")
    return gen.sessions(s, b, name="verdict", want=lambda x: all(a[0] in ("good", "noisy", "reject", "empty", "read1", "int1") for a in x["a"]), every=1 if deep(t) else 2)


@suite("bigsess", "TSession")
def _(s, t, B):
    return gen.bigsession(s, n=16 if deep(t) else 8)


@suite("ctl", "TControls")
def _(s, t, B):
    b = B("MCControls", "MCControls3" if deep(t) else None)
    return gen.layers(s, pick(s, "ctl", b, 20000 if deep(t) else 5000))


@suite("ctlsess", "TSession")
def _(s, t, B):
    b = [x for x in B("MCControls") if len(x["f"]) == 2 and (x["f"][0]["kind"] == "text" or x["f"][1]["kind"] == "text")]
    full = [x for x in b if len(x["f"][0]["k"]) == 7]
    n = 400 if deep(t) else 120
    return gen.layer_sessions(s, pick(s, "cs1", full, n) + pick(s, "cs2", b, n // 4))


@suite("sel", "TSources")
def _(s, t, B):
    b = B("MCSources", "MCSources4" if deep(t) else None)
    return gen.selections(s, pick(s, "sel", b, 8000 if deep(t) else 4000))


@suite("cmp", "TCompare")
def _(s, t, B):
    return gen.objects(s, n=8000 if deep(t) else 3000)


@suite("reg", "TRegistry")
def _(s, t, B):
    d, p = B("MCRegistry", "MCRegistry4" if deep(t) else None), B("MCRegistry", "MCRegistryP4" if deep(t) else "MCRegistryP")
    n = 8000 if deep(t) else 3000
    return gen.registry(s, pick(s, "regd", d, n) + pick(s, "regp", p, n), n)


@suite("bits", "TBits")
def _(s, t, B):
    return gen.bitcalls(s)


@suite("blk", "TBlocks")
def _(s, t, B):
    b = B("MCBlocks", "MCBlocks7" if deep(t) else None)
    return gen.blocks(s, pick(s, "blk", b, 12000 if deep(t) else 4000))


@suite("logger", "TLogger")
def _(s, t, B):
    b = B("MCLogger", "MCLogger6" if deep(t) else None)
    return gen.loggers(s, pick(s, "logger", b, 12000 if deep(t) else 4000), n=1200 if deep(t) else 400)


@suite("loc", "TPath")
def _(s, t, B):
    return gen.locations(s)


@suite("cls", "TClass")
def _(s, t, B):
    return gen.classify(s)


@suite("lib", "TApi")
def _(s, t, B):
    b = B("MCApi", "MCApi3" if deep(t) else None)
    return gen.library(s, pick(s, "lib", b, 4000 if deep(t) else 1600))


@suite("repro", "TRepro")
def _(s, t, B):
    return gen.reproduce(s, n=300 if deep(t) else 80, size=30 if deep(t) else 14)


@suite("logs", "TSession")
def _(s, t, B):
    return gen.logs(s, n=200 if deep(t) else 64)


@suite("opts", "TCli")
def _(s, t, B):
    b = B("MCCli", "MCCli3" if deep(t) else None)
    return gen.cmdlines(s, pick(s, "opts", b, 8000 if deep(t) else 1600))


OUTPUT = r"^(entry|json|margo|files)\."

PROPS = {
    "C01": dict(suites=["stream", "longstream", "endstream"], models=[("MCFramer", None)], clauses=r"^(frames|forged|raise\.parse|loop\.bytes)$"),
    "C02": dict(suites=["split", "stream2", "endstream"], models=[("MCFramer", None)], clauses=r"^(deliver|frames|raise\.parse)$"),
    "C03": dict(suites=["stream2", "longstream", "endstream", "hist2"], models=[("MCFramer", None)], clauses=r"^(stat\.gaps|raise\.parse)$"),
    "C04": dict(suites=["crc"], clauses=r"^(frames|forged|deliver|raise\.parse)$"),
    "C05": dict(suites=["hist", "repeat", "twin", "twinM", "endure", "around"], clauses=r"^(entry|json\.(form|count)|margo|files|accept|raise)\b"),
    "C06": dict(suites=["route"], clauses=r"^(accept|files|json\.(src|count)|stat\.(att|derr)|raise\.(decode|print|create))\b"),
    "C07": dict(suites=["msmB", "maskB", "shapeB", "sweepB", "signalsB", "hdrB", "extremeB", "crossB", "gridB", "formB", "mixB"], clauses=r"^(entry\.msm\.bare|json\.count\.msm|accept\.\w+\.msm|files\.(missing|extra)|raise)\b"),
    "C08": dict(suites=["msmJ", "sweepJ", "signalsJ", "extremeJ", "hdrJ", "timeJ", "crossJ", "mixJ"], clauses=r"^(entry\.msm\.scaled|json\.count\.msm|files\.missing|accept\.accept\.msm|raise)\b"),
    "C09": dict(suites=["shapeJ", "shapeB", "shapeM", "markJ", "markM", "maskJ", "maskB", "maskM", "gridJ", "gridB", "gridM", "formJ"], models=[("MCMsm", None)],
                clauses=r"^(entry\.msm\.(bare|scaled)\.(body|sec\.\w+|obs|sat|sgn)|json\.count\.msm|margo\.(nan|count|value|form)|files\.(missing|extra)|accept\.accept\.msm|raise)\b"),
    "C10": dict(suites=["eph", "ephenum"], clauses=r"^(entry\.eph|json\.count\.eph|files\.missing|accept\.\w+\.eph|raise)\b"),
    "C11": dict(suites=["base"], clauses=r"^(entry\.base|json\.(form|count)\.base|files\.missing|accept\.\w+\.base|raise)\b"),
    "C12": dict(suites=["struct"], clauses=r"^(accept\.|raise|stat\.derr|json\.count|files\.)"),
    "C13": dict(suites=["hist", "repeat", "twin", "long", "many", "endure"], clauses=r"^(json\.(form|src|count)|files\.(missing|extra)\.(msm|eph|base|json|other)|entry\.|raise\.(print|release|create))"),
    "C14": dict(suites=["switch", "mixJ"], clauses=r"^(json\.|entry\.|files\.|raise)"),
    "C15": dict(suites=["repeatM", "twinM", "shapeM", "signalsM", "crossM", "manyM", "endM", "mixM", "formM"], clauses=r"^(margo\.(form|head|width|count)|files\.|raise)"),
    "C16": dict(suites=["signalsM", "sweepM", "extremeM", "glo", "markM", "crossM", "mixM"], clauses=r"^(margo\.(freq|value|nan|count|A|T|form)|files\.missing|raise)\b"),
    "C17": dict(suites=["timeM", "mixM"], clauses=r"^(margo\.(time|form|count)|raise)\b"),
    "C18": dict(suites=["mctl", "mixM"], clauses=r"^(margo\.|files\.|raise)"),
    "C19": dict(suites=["jargo"], clauses=r"^(margo\.|files\.|json\.|entry\.|accept\.|stat\.|raise)"),
    "C20": dict(suites=["hist2", "histfile", "struct", "verdict", "endure", "endstream"], clauses=r"^(stat\.|sess\.log\.|end\.verdict)"),
    "C21": dict(suites=["sess", "bigsess", "endsess"], clauses=r"^sess\.(?!prog|rej|unk|acc)"),
    "C22": dict(suites=["fault", "sessfault"], clauses=r"^(loop\.|end\.|raise|files\.|json\.|entry\.|margo\.|sess\.(?!prog|rej|unk|acc))"),
    "C23": dict(suites=["ctl", "ctlsess"], models=[("MCControls", None)], clauses=r"^(ctl\.|sess\.(?!prog|rej|unk|acc))"),
    "C24": dict(suites=["sel"], models=[("MCSources", None)], clauses=r"^src\."),
    "C26": dict(suites=["lib"], clauses=r"^lib\."),
    "C27": dict(suites=["repro"], clauses=r"^repro\."),
    "C28": dict(suites=["logs", "verdict", "endsess"], clauses=r"^sess\.(prog|rej|unk|acc|cross|log|raise)\b"),
    "C29": dict(suites=["opts"], models=[("MCCli", None)], clauses=r"^cli\."),
    "C30": dict(suites=["reg"], clauses=r"^reg\."),
    "C31": dict(suites=["bits"], clauses=r"^bits\."),
    "C32": dict(suites=["cls"], clauses=r"^cls\."),
    "C33": dict(suites=["blk"], clauses=r"^blk\."),
    "C34": dict(suites=["logger"], clauses=r"^log\."),
    "C35": dict(suites=["loc"], clauses=r"^loc\."),
    "C25": dict(suites=["cmp"], clauses=r"^cmp\."),
}
