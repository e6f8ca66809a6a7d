"""What decides each property: the trace specification its recorded sessions are validated
against, the generators of sessions, and the models that are checked exhaustively and whose
behaviours are replayed on the real code."""
from . import gen, gen_py

UNIT = gen.Units.__new__(gen.Units)
UNIT.exact, UNIT.u, UNIT.off = True, "1", ["0", "0", "0"]


class Model:
    """An exhaustive TLC run; `replay` sessions of those it prints are run on the real code
    (quick, thorough)."""

    def __init__(self, module, cfg, replay=(0, 0), deep=None, adapt=None, simulate=None):
        self.module, self.cfg, self.replay = module + ".tla", "mc/%s.cfg" % cfg, replay
        self.deep = deep            # changed constants of the thorough run
        self.adapt = adapt          # drops what cannot be compared exactly
        self.simulate = simulate    # (behaviours, depth): thorough runs simulate instead


class Prop:
    def __init__(self, trace, make, sessions, models, io=False, small=False):
        self.trace, self.make, self.sessions, self.models = trace + ".tla", make, sessions, models
        self.io = io                # about data files: the other harness
        self.small = small          # with read buffers of a few steps


def exact_positions(s):
    pos = [p for p in s["pos"] if gen.pos_ok(s["g"], p, UNIT)]
    return dict(s, pos=pos) if pos else None


def ops(mix):
    return lambda rng, n: gen.histories(rng, n, mix) + gen.histories(rng, max(1, n // 20), mix, length=(25, 40))


def an(p, quick, thorough, *more, big=("parts", "steps", "cells", "ids"), **kw):
    return Prop("TraceAnalyses", gen.magnified(getattr(gen, p.lower()), big), (quick, thorough),
                [Model("MCAnalyses", "Analyses_" + p, (900, 20000), **kw)] + list(more))


def circ(op, two, rec):
    return Prop("TraceAnalyses", gen.magnified(lambda rng, n: gen.circ(rng, n, two), ("parts", "steps", "ids")), (300, 6000),
                [Model("MCCirc", "Circ_%s_path" % op, (1500, 20000), deep={"T": 7 if two else 8}),
                 Model("MCCirc", "Circ_%s_rec" % op, (1000, 20000)),
                 Model("MCCirc", "Circ_%s_win" % op, (300, 5000), deep={"T": 5})])


def reader(mgr):
    return Prop("TraceReader", gen.extended(lambda rng, n: gen.readers(rng, n, mgr), gen.readers_long(mgr)), (240, 5000),
                [Model("MCBuffers", "Buffers", (1200, 20000), adapt=gen.read_back(1, mgr), deep={"Depth": 5})], io=True)


def python(make, quick, thorough, *models, small=False):
    return Prop("TracePython", make, (quick, thorough), list(models), io="python", small=small)


def conv(mode, replay, longer=None):
    return Model("MCConvert", "Convert_" + mode, replay, deep={"MaxLen": longer} if longer else None)


WIDE = {"Wide": "TRUE"}
PROPS = {
    "C01": Prop("TraceGeometry", gen.magnified(lambda rng, n: gen.geom(rng, n, "cart"), ("cells",), 2), (240, 5000),
                [Model("MCGeometry", "Geometry_cart", (200, 5000), adapt=exact_positions, deep={"Ext": 4, "MaxN": 6})]),
    "C02": Prop("TraceGeometry", gen.magnified(lambda rng, n: gen.geom(rng, n, "cyl"), ("cells",), 2), (240, 5000),
                [Model("MCGeometry", "Geometry_cyl", (200, 5000), adapt=exact_positions, deep={"MaxN": 8})]),
    "C03": Prop("TraceGridOps", gen.magnified(ops(gen.MIX_C03), ("cells",), 2), (240, 6000), [Model("MCGridOps", "GridStore", (1200, 20000))]),
    "C04": Prop("TraceGridOps", gen.magnified(ops(gen.MIX_C04), ("cells",), 2), (240, 6000), [Model("MCGridOps", "GridViews", (900, 20000), deep={"Depth": 3})]),
    "C05": Prop("TraceGridOps", gen.magnified(ops(gen.MIX_C05), ("cells",), 2), (240, 6000), [Model("MCGridOps", "GridOutliers", (1200, 20000))]),
    "C06": Prop("TraceMisc", gen.magnified(gen.selectors, ("ids",), 4), (240, 6000),
                [Model("MCSelector", "Selector_one", (333, 333)), Model("MCSelector", "Selector_two", (400, 771)),
                 Model("MCSelector", "Selector_window", (600, 20000), deep={"Depth": 4})]),
    "C07": an("C07", 240, 5000),
    "C08": an("C08", 240, 5000),
    "C09": an("C09", 240, 5000, deep=WIDE),
    "C10": an("C10", 240, 5000),
    "C11": an("C11", 240, 5000),
    "C12": an("C12", 240, 5000),
    "C13": an("C13", 240, 5000, big=("parts", "steps", "ids"), deep=WIDE),
    "C14": an("C14", 240, 5000, deep=WIDE),
    "C15": an("C15", 240, 5000, deep=WIDE),
    "C16": an("C16", 240, 5000, deep=WIDE),
    "C17": circ("circ", False, "rec"),
    "C18": circ("circ2", True, "rec"),
    "C19": Prop("TraceAnalyses", gen.magnified(gen.c19, ("parts", "steps", "ids")), (240, 5000), [Model("MCExtract", "Extract", (800, 10000))]),
    "C20": Prop("TraceMisc", gen.magnified(gen.c20, ("steps",), 4), (200, 4000), [Model("MCTimeLookup", "TimeLookup", (127, 2000), deep={"H": 9})]),
    "C21": Prop("TraceAnalyses", gen.c21, (200, 4000), [Model("MCSequence", "Sequence", (900, 20000))]),
    "C22": Prop("TraceMisc", gen.extended(gen.c22, gen.c22_long), (300, 6000),
                [Model("MCHelpers", "Helpers_lists", (1200, 20000), deep={"Size": 6}), Model("MCHelpers", "Helpers_arrays", (122, 122))]),
    "C23": Prop("TraceMisc", gen.c23, (300, 6000), [Model("MCHelpers", "Helpers_rotate", (500, 500))]),
    "C24": Prop("TraceMisc", gen.extended(gen.c24, gen.c24_long), (240, 5000), [Model("MCHelpers", "Helpers_threshold", (1200, 20000), deep={"Size": 5})]),
    "C25": reader("t"),
    "C26": reader("p"),
    "C27": Prop("TraceConvert", gen.extended(gen.c27, gen.c27_long), (500, 8000), [conv("csv", (324, 4000), 6)], io=True),
    "C28": Prop("TraceConvert", gen.extended(gen.c28, gen.c28_long), (500, 8000), [conv("vtk", (900, 8000)), conv("steps", (84, 400), 4)], io=True),
    "C29": Prop("TraceConvert", gen.extended(gen.c29, gen.c29_long), (400, 6000), [conv("chain", (400, 780)), conv("id_line", (432, 8000), 5)], io=True),
    "C30": Prop("TraceConvert", gen.extended(gen.c30, gen.c30_long), (400, 6000),
                [conv("fit", (600, 8000), 8), conv("uneven", (500, 8000), 6), conv("interp", (500, 4000))], io=True),
    "C31": python(gen_py.c31, 240, 4000, Model("MCPlots", "Plots_maps", (300, 625))),
    "C32": python(gen_py.c32, 240, 4000, Model("MCPlots", "Plots_arrows", (400, 625))),
    "C33": python(gen_py.c33, 240, 4000, Model("MCPlots", "Plots_parity", (250, 1296), deep={"Cells2": 2}),
                  Model("MCPlots", "Plots_vparity", (250, 1296), deep={"Cells2": 2})),
    "C34": python(gen_py.c34, 400, 8000, Model("MCItems", "Items", (1500, 20000), deep={"N": 4})),
    "C35": python(gen_py.c35, 400, 8000, Model("MCGridArgs", "GridArgs", (1024, 1024))),
    "C36": python(gen_py.c36, 300, 6000, Model("MCSession", "Session", (900, 2375))),
    "C37": Prop("TracePyConvert", gen_py.c37, (300, 5000), [Model("MCConvertArgs", "ConvertArgs", (1010, 4000), deep={"MaxOff": 3})], io="python"),
    "C38": python(gen_py.c38, 300, 5000, Model("MCPlotArgs", "PlotArgs", (1500, 13260))),
    "C39": python(gen_py.c39, 300, 5000, Model("MCSession", "Session", (1500, 20000), deep={"Depth": 4})),
    "C40": python(gen_py.c40, 260, 5000, Model("MCWindows", "Windows", (800, 20000), deep={"Depth": 4, "MaxT": 9, "Emitted": "{5, 9}"}), small=True),
    "C41": Prop("TracePipeline", gen_py.c41, (300, 5000), [Model("MCPipeline", "Pipeline", (700, 12529), deep={"Depth": 3})], io="python"),
    "C42": python(gen_py.c42, 300, 5000, Model("MCTexts", "Texts", (500, 6000), deep={"MaxSamples": 4})),
}
