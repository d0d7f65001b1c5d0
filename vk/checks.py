"""One function per property: which specifications, which conformance runs."""
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ---------------------------------------------------------------- PVec
def pvec(c, mode, small=False, also=()):
    exe = c.build("pvec")
    small_, small = small, "TRUE" if small else "FALSE"

    def mc(consts, e, fl=1, require=100, workers=8):
        out = c.path("cases.ndjson")
        c.model("PVecMC", consts={"Fronts": "{0}", "Joins": "{0}", "Chunk": 0, **consts, "Small": small}, env={"VK_OUT": out}, workers=workers)
        c.replay(e, ["--mode", mode, "--flavours", fl], out, require=require)

    # spec -> code, real sizes: inline, one leaf, several leaves, deep tree
    real = "{0, 2, 63, 64, 65, 127, 128, 129, 200}"
    mc({"Starts": "{2047, 2049, 4160}", "Fronts": "{0, 2}", "Chunk": 64, "Depth": 1, "AllIdx": "FALSE"}, exe, workers=1)
    if c.quick:
        mc({"Starts": real, "Depth": 2, "AllIdx": "FALSE"}, exe)
    elif small_:
        # comparing every pair of versions is the expensive part
        mc({"Starts": real, "Depth": 2, "AllIdx": "FALSE"}, exe)
        mc({"Starts": "{0, 64, 65, 129}", "Depth": 3, "AllIdx": "FALSE"}, exe)
    else:
        # cases of more than 8 KB are not written in one piece by several workers
        mc({"Starts": real, "Depth": 3, "AllIdx": "FALSE"}, exe, workers=1)
    # spec -> code, leaves and branches of two elements: every index, trees several levels deep
    hk = c.build("pvec", hook=True)
    mc({"Starts": "{" + ", ".join(map(str, range(10 if c.quick else 18))) + "}", "Depth": 2, "AllIdx": "TRUE"}, hk)
    # the same from vectors with a filled front buffer, and from joined ones, with runs that cross a leaf
    mc({"Starts": "{63, 65, 128}" if c.quick else real, "Fronts": "{3, 64, 65}", "Chunk": 64, "Depth": 1 if c.quick else 2, "AllIdx": "FALSE"}, exe,
       workers=1)
    mc({"Starts": "{2, 64, 65, 129}", "Fronts": "{0, 2}", "Joins": "{3, 64, 65}", "Chunk": 64, "Depth": 1, "AllIdx": "FALSE"}, exe, workers=1)
    mc({"Starts": "{0, 3, 4, 7}", "Fronts": "{1, 2, 3, 5}", "Chunk": 2, "Depth": 1 if c.quick else 2, "AllIdx": "TRUE"}, hk)
    mc({"Starts": "{1, 3, 5, 8, 11}", "Fronts": "{0, 1, 2}", "Joins": "{1, 2, 3, 7}", "Chunk": 2, "Depth": 1 if c.quick else 2, "AllIdx": "TRUE"}, hk)
    mc({"Starts": "{0, 3, 7, 12}", "Fronts": "{0, 2}", "Chunk": 2, "Depth": 2 if c.quick else 3, "AllIdx": "FALSE"}, hk)
    # code -> spec
    for e, args in ([(exe, ["--n", 60, "--len", 40, "--maxsize", 300]), (hk, ["--n", 100, "--len", 60, "--maxsize", 30])] if c.quick else
                    [(exe, ["--n", 600, "--len", 60, "--maxsize", 400]), (exe, ["--n", 60, "--len", 60, "--maxsize", 5000]),
                     (hk, ["--n", 2000, "--len", 60, "--maxsize", 40])]):
        c.validate("PVecTrace", c.record(e, ["--mode", mode, *args]))
    # versions that are read at a few points only, and dropped
    for e, args in ([(exe, ["--n", 250, "--maxsize", 400]), (hk, ["--n", 250, "--maxsize", 30])] if c.quick else
                    [(exe, ["--n", 3000, "--maxsize", 400]), (exe, ["--n", 40, "--maxsize", 5000]), (hk, ["--n", 3000, "--maxsize", 40])]):
        c.validate("PVecTrace", c.record(e, ["--mode", "churn", "--len", 120, *args]))
    # threads that share versions
    for e, args in ([(exe, ["--n", 25, "--maxsize", 400]), (hk, ["--n", 25, "--maxsize", 30])] if c.quick else
                    [(exe, ["--n", 300, "--maxsize", 400]), (hk, ["--n", 300, "--maxsize", 40])]):
        c.validate("PVecTrace", c.record(e, ["--mode", "churn", "--threads", 6, "--len", 90, *args]))
    # the other ways of looking at the same histories
    for m in also:
        c.validate("PVecTrace", c.record(exe, ["--mode", m, "--n", 40, "--len", 40, "--maxsize", 300]))
        c.validate("PVecTrace", c.record(hk, ["--mode", m, "--n", 100, "--len", 60, "--maxsize", 30]))
    return c.finish("model_checking")


@check("V01")
def v01(c):
    return pvec(c, "seq", also=["persist", "eq"])


@check("V02")
def v02(c):
    return pvec(c, "persist", also=["seq"])


@check("V03")
def v03(c):
    return pvec(c, "eq", small=True, also=["seq"])


# ---------------------------------------------------------------- effect programs
def eff(c, kinds, size, tsize, n, tn, rec=30, also=(), more=None):
    """<also>: neighbouring kinds, whose code is partly the same, at a smaller size."""
    exe = c.build("eff")
    for k in also:
        out = c.path("cases.ndjson")
        c.model("EffMC", consts={"Kind": f'"{k}"', "MaxSize": 4}, env={"VK_OUT": out})
        c.replay(exe, ["--flavours", 4], out, require=100)
    if also:
        c.validate("EffTrace", c.record(exe, ["--kinds", ",".join(also), "--n", 200, "--size", rec]))
    if more:
        more()
    for k in kinds:
        out = c.path("cases.ndjson")
        c.model("EffMC", consts={"Kind": f'"{k}"', "MaxSize": size if c.quick else tsize}, env={"VK_OUT": out})
        c.replay(exe, ["--flavours", 2 if c.quick else 4], out, require=100)
    c.validate("EffTrace", c.record(exe, ["--kinds", ",".join(kinds), "--n", n if c.quick else tn, "--size", rec]))
    c.exhaustive = True
    return c.finish("model_checking")


@check("S01")
def s01(c):
    return eff(c, ["state"], 5, 6, 2000, 8000, 40, also=["statetI"])


@check("S02")
def s02(c):
    return eff(c, ["statetO", "statetR", "statetL", "statetI"], 5, 5, 600, 3000, 30, also=["state"])


@check("R01")
def r01(c):
    return eff(c, ["reader", "readertO", "readertR"], 5, 6, 800, 4000, 40)


@check("W01")
def w01(c):
    return eff(c, ["writer"], 5, 6, 2000, 8000, 40, more=lambda: mono_stage(c, ["writer"]))


@check("I01")
def i01(c):
    return eff(c, ["io"], 5, 6, 2000, 8000, 40, also=["iofail"], more=lambda: (once_stage(c), machine_stage(c, *EVAL)))


@check("I02")
def i02(c):
    return eff(c, ["iofail"], 5, 5, 2000, 8000, 40, also=["io"])


# ---------------------------------------------------------------- concurrency
@check("M01")
def m01(c):
    exe = c.build("memo")
    plans = [(2, 2, 1, 1), (3, 1, 2, 3)] if c.quick else [(2, 2, 2, 1), (3, 1, 3, 1), (2, 3, 1, 4), (3, 2, 1, 8), (4, 1, 1, 4)]
    for n, ops, sw, step in plans:
        out = c.path("cases.ndjson")
        c.model("MemoMC", consts={"NThreads": n, "MaxOps": ops, "MaxSwitch": sw}, env={"VK_OUT": out}, heap="12g")
        c.validate("MemoTrace", c.record(exe, ["--cases", out, "--step", step]))
    c.validate("MemoTrace", c.record(exe, ["--free", 300 if c.quick else 5000, "--seq", 12 if c.quick else 60, "--many", 2 if c.quick else 4]))
    return c.finish("model_checking")


def once_stage(c, plans=((2, 2, 3, 1, 1), (2, 1, 3, 2, 4))):
    exe = c.build("once")
    for n, runs, sw, depth, step in plans:
        out = c.path("cases.ndjson")
        c.model("OnceMC", consts={"NThreads": n, "MaxRuns": runs, "MaxSwitch": sw, "Depth": depth}, env={"VK_OUT": out})
        c.validate("OnceTrace", c.record(exe, ["--cases", out, "--step", step]))
    c.validate("OnceTrace", c.record(exe, ["--free", 300 if c.quick else 5000]))


@check("I03")
def i03(c):
    once_stage(c, [(2, 2, 3, 1, 1), (3, 1, 3, 1, 1), (2, 1, 3, 2, 1), (2, 1, 2, 3, 2)] if c.quick else
               [(2, 3, 4, 1, 1), (3, 1, 5, 1, 1), (3, 2, 3, 1, 2), (4, 1, 3, 1, 2), (2, 2, 3, 2, 1), (2, 1, 3, 3, 1), (3, 1, 2, 2, 8)])
    return c.finish("model_checking")


def asyn(c, kind, size, tsize, step, also=None):
    exe = c.build("async")
    out = c.path("cases.ndjson")
    c.model("AsyncMC", consts={"Kind": f'"{kind}"', "MaxSize": size if c.quick else tsize}, env={"VK_OUT": out}, heap="12g")
    c.validate("AsyncTrace", c.record(exe, ["--cases", out, "--flavours", 2 if c.quick else 4, "--step", step if c.quick else 1]))
    if kind == "plain":
        out = c.path("cases.ndjson")
        c.model("AsyncMC", consts={"Kind": '"share"', "MaxSize": 4}, env={"VK_OUT": out}, heap="12g")
        c.validate("AsyncTrace", c.record(exe, ["--cases", out, "--flavours", 3, "--step", 1]))
    c.validate("AsyncTrace", c.record(exe, ["--n", 2500 if c.quick else 12000, "--size", 14] + (["--fail", 1] if kind == "fail" else [])))
    if also:
        out = c.path("cases.ndjson")
        c.model("AsyncMC", consts={"Kind": f'"{also}"', "MaxSize": 3}, env={"VK_OUT": out}, heap="12g")
        c.validate("AsyncTrace", c.record(exe, ["--cases", out, "--flavours", 4, "--step", 1]))
        c.validate("AsyncTrace", c.record(exe, ["--n", 300, "--size", 14] + (["--fail", 1] if also == "fail" else [])))
    return c.finish("model_checking")


@check("A01")
def a01(c):
    return asyn(c, "plain", 5, 6, 1, also="fail")


@check("A02")
def a02(c):
    return asyn(c, "fail", 4, 5, 1, also="plain")


@check("C01")
def c01(c):
    exe = c.build("cont")
    for k in ("cont", "contI", "contO"):
        out = c.path("cases.ndjson")
        c.model("ContMC", consts={"Kind": f'"{k}"', "MaxSize": 5 if c.quick else 6}, env={"VK_OUT": out}, heap="12g")
        c.replay(exe, ["--flavours", 2 if c.quick else 4], out, require=100)
    c.validate("ContTrace", c.record(exe, ["--n", 1500 if c.quick else 6000, "--size", 40]))
    c.exhaustive = True
    return c.finish("model_checking")


# ---------------------------------------------------------------- containers
def data(c, group, kinds, n, tn, depth=2, require=10):
    exe = c.build("data")
    for k in kinds:
        out = c.path("cases.ndjson")
        c.model("DataMC", consts={"Kind": f'"{k}"', "Group": f'"{group}"', "Depth": depth if c.quick else depth + 1}, env={"VK_OUT": out}, heap="12g")
        c.replay(exe, [], out, require=require)
    c.validate("DataTrace", c.record(exe, ["--group", group, "--kinds", ",".join(kinds), "--n", n if c.quick else tn, "--len", 10]))


LAWS = ["option", "result", "either", "maybe", "id", "validated", "vec", "choice", "pvec"]
ALTS = ["option", "result", "either", "maybe", "validated", "vec", "choice"]
FOLDS = ["option", "result", "id", "validated", "vec", "choice", "pvec"]


def data_also(c, kind):
    """Everything the container specification says about one type."""
    for group, kinds in (("law", LAWS), ("alt", ALTS), ("fold", FOLDS)):
        if kind in kinds:
            data(c, group, [kind], 60, 60, 1)


@check("D02")
def d02(c):
    data(c, "law", LAWS, 300, 2000, 1)
    machine_stage(c, *VALID)
    machine_stage(c, *CHOICE)
    c.exhaustive = True
    return c.finish("model_checking")


@check("D11")
def d11(c):
    data(c, "own", ["ownlist", "ownres", "option", "result", "vec", "box", "show"], 300, 2000, 2, require=3)
    mono_stage(c, ["own"])
    machine_stage(c, *EVAL)
    c.exhaustive = True
    return c.finish("model_checking")


@check("D04")
def d04(c):
    data(c, "alt", ALTS, 500, 3000, 3)
    machine_stage(c, *VALID)
    machine_stage(c, *CHOICE)
    machine_stage(c, *CONV)
    machine_stage(c, *UTILS)
    c.exhaustive = True
    return c.finish("model_checking")


@check("D08")
def d08(c):
    data(c, "fold", FOLDS, 500, 3000, 2)
    machine_stage(c, *CHOICE)
    mono_stage(c, ["str", "vec", "pvec", "sum", "product", "min", "max", "first", "last"])
    c.exhaustive = True
    return c.finish("model_checking")


# ---------------------------------------------------------------- one value, all its operations
def machine_stage(c, mc, trace, bin, consts, rec, require=200, extra=()):
    """A specification <mc> that writes every step it takes, a harness <bin> that
    performs them, and a trace specification for the histories the harness records."""
    exe = c.build(bin)
    for k in consts:
        out = c.path("cases.ndjson")
        c.model(mc, consts=k, env={"VK_OUT": out}, heap="12g")
        c.replay(exe, list(extra), out, require=require)
    for r in rec:
        c.validate(trace, c.record(exe, [*r, *extra]))


def machine(c, mc, trace, bin, consts, tconsts, rec, trec, require=200, also=()):
    machine_stage(c, mc, trace, bin, consts if c.quick else tconsts, rec if c.quick else trec, require)
    for f in also:
        f()
    c.exhaustive = True
    return c.finish("model_checking")


# a quick run of each, for the properties whose code it shares
CHOICE = ("ChoiceMC", "ChoiceTrace", "choice", [{"Depth": 2}], [["--n", 200, "--len", 40]])
VALID = ("ValidMC", "ValidTrace", "valid", [{"Depth": 2}], [["--n", 200, "--len", 40]])
CONV = ("ConvMC", "ConvTrace", "conv", [{"Depth": 3}], [["--n", 400, "--len", 30]])
PIPE = ("ErrMC", "ErrTrace", "err", [{"Group": '"pipe"', "Depth": 2}], [["--n", 200, "--len", 40]])
ERROR = ("ErrMC", "ErrTrace", "err", [{"Group": '"error"', "Depth": 2}], [["--n", 200, "--len", 40]])
UTILS = ("UtilsMC", "UtilsTrace", "utils", [{"MaxLen": 3, "Depth": 1}], [["--n", 300, "--len", 30]])
OPTICS = ("OpticsMC", "OpticsTrace", "optics", [{"Depth": 2}], [["--n", 300, "--len", 40]])
ISO = ("IsoMC", "IsoTrace", "iso", [{"Size": 3, "MaxLen": 3, "Depth": 1}], [["--n", 300, "--len", 30]])
EVAL = ("EvalMC", "EvalTrace", "eval", [{"Depth": 4}], [["--n", 300, "--len", 30]])
PRED = ("PredMC", "PredTrace", "pred", [{"MaxLen": 4, "MaxStack": 3}], [["--n", 200, "--len", 40]])


@check("D03")
def d03(c):
    return machine(c, *CHOICE[:3], [{"Depth": 2}], [{"Depth": 3}], [["--n", 1500, "--len", 40]], [["--n", 8000, "--len", 60]],
                   also=[lambda: data_also(c, "choice"), lambda: mono_stage(c, ["choice"]), lambda: machine_stage(c, *CONV)])


@check("D01")
def d01(c):
    return machine(c, *VALID[:3], [{"Depth": 2}], [{"Depth": 3}], [["--n", 1500, "--len", 40]], [["--n", 8000, "--len", 60]],
                   also=[lambda: data_also(c, "validated"), lambda: mono_stage(c, ["validated"]), lambda: machine_stage(c, *CONV),
                         lambda: machine_stage(c, *UTILS)])


SEMIGROUPS = ["str", "idstr", "vec", "pvec", "choice", "idvec", "hset", "bset", "hmap", "bmap", "hmapsum", "bmapsum", "opt", "optopt",
              "pair", "triple", "quad", "writer", "validated", "sum", "product", "min", "max", "first", "last", "idsum", "pred", "maxcl", "maxcr", "mincl", "mincr"]
CLASSED = ["maxcl", "maxcr", "mincl", "mincr"]
WRAPPERS = ["sum", "product", "min", "max", "first", "last"]


def mono(group, kinds, depth, big=()):
    return [{"Kind": f'"{k}"', "Group": f'"{group}"', "Depth": depth - 1 if k in big else depth} for k in kinds]


def mono_stage(c, kinds, group="all"):
    rec = [["--n", 30, "--kinds", ",".join(kinds)]]
    machine_stage(c, "MonoMC", "MonoTrace", "mono", mono(group, kinds, 1), rec, require=20)


@check("D05")
def d05(c):
    return machine(c, "MonoMC", "MonoTrace", "mono", mono("all", SEMIGROUPS, 2, ["hmap", "bmap", "hmapsum", "bmapsum", "quad", "pair"]),
                   mono("all", SEMIGROUPS, 3, ["hmap", "bmap", "hmapsum", "bmapsum", "quad", "pair", "writer", "triple", "product"]),
                   [["--n", 100]], [["--n", 1000]], require=100, also=[lambda: mono_stage(c, WRAPPERS, "wrap")])


@check("D06")
def d06(c):
    return machine(c, "MonoMC", "MonoTrace", "mono", mono("wrap", WRAPPERS, 2), mono("wrap", WRAPPERS, 4, ["product"]),
                   [["--n", 500, "--kinds", ",".join(WRAPPERS)]], [["--n", 3000, "--kinds", ",".join(WRAPPERS)]], require=50,
                   also=[lambda: mono_stage(c, WRAPPERS), lambda: mono_stage(c, CLASSED)])


@check("D07")
def d07(c):
    return machine(c, *PRED[:3], [{"MaxLen": 5, "MaxStack": 3}], [{"MaxLen": 6, "MaxStack": 4}],
                   [["--n", 1500, "--len", 40]], [["--n", 8000, "--len", 80]], also=[lambda: mono_stage(c, ["pred"])])


@check("D09")
def d09(c):
    return machine(c, *CONV[:3], [{"Depth": 3}], [{"Depth": 5}], [["--n", 2500, "--len", 30]], [["--n", 12000, "--len", 40]],
                   also=[lambda: machine_stage(c, *CHOICE), lambda: machine_stage(c, *VALID), lambda: machine_stage(c, *ERROR)])


@check("E01")
def e01(c):
    return machine(c, *ERROR[:3], [{"Group": '"error"', "Depth": 3}], [{"Group": '"error"', "Depth": 4}],
                   [["--n", 2500, "--len", 40]], [["--n", 12000, "--len", 60]], also=[lambda: machine_stage(c, *PIPE), lambda: machine_stage(c, *VALID)])


@check("E02")
def e02(c):
    return machine(c, *PIPE[:3], [{"Group": '"pipe"', "Depth": 3}], [{"Group": '"pipe"', "Depth": 4}],
                   [["--n", 2500, "--len", 40]], [["--n", 12000, "--len", 60]],
                   also=[lambda: machine_stage(c, *ERROR), lambda: machine_stage(c, *UTILS), lambda: machine_stage(c, *VALID)])


@check("D10")
def d10(c):
    return machine(c, *UTILS[:3], [{"MaxLen": 4, "Depth": 2}], [{"MaxLen": 10, "Depth": 1}, {"MaxLen": 5, "Depth": 2}],
                   [["--n", 2500, "--len", 30]], [["--n", 12000, "--len", 40]],
                   also=[lambda: machine_stage(c, *VALID), lambda: machine_stage(c, *PIPE)])


@check("O01")
def o01(c):
    return machine(c, *OPTICS[:3], [{"Depth": 3}], [{"Depth": 4}], [["--n", 2500, "--len", 40]], [["--n", 12000, "--len", 60]],
                   also=[lambda: machine_stage(c, *ISO)])


@check("O02")
def o02(c):
    return machine(c, *ISO[:3], [{"Size": 4, "MaxLen": 3, "Depth": 1}],
                   [{"Size": 5, "MaxLen": 4, "Depth": 1}, {"Size": 4, "MaxLen": 4, "Depth": 2}],
                   [["--n", 2500, "--len", 30]], [["--n", 12000, "--len", 40]], also=[lambda: machine_stage(c, *OPTICS)])


@check("F01")
def f01(c):
    exe = c.build("arrow")
    for size, runs in [(5, 2)] if c.quick else [(5, 2), (6, 1)]:
        out = c.path("cases.ndjson")
        c.model("ArrowMC", consts={"MaxSize": size, "Runs": runs}, env={"VK_OUT": out}, heap="12g")
        c.replay(exe, ["--flavours", 2 if c.quick else 4], out, require=1000)
    c.validate("ArrowTrace", c.record(exe, ["--n", 2500 if c.quick else 12000, "--size", 40 if c.quick else 60]))
    c.exhaustive = True
    return c.finish("model_checking")


@check("F02")
def f02(c):
    return machine(c, *EVAL[:3], [{"Depth": 5}], [{"Depth": 7}],
                   [["--n", 2500, "--len", 30]], [["--n", 12000, "--len", 40]], also=[lambda: data(c, "law", ["id"], 60, 60, 1)])
