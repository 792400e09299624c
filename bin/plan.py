"""What each check runs.

mc:     laws on the specification: (module, mode, deep quick, deep thorough, invariants)
gen:    parts of the specification's universe run on the library: (module, mode, deep quick, deep thorough)
rec:    random sessions: (quick, thorough)
macro:  invocations of the value macro: (deep quick, deep thorough, random quick, random thorough)
probes: single inputs that are otherwise set aside: each holds, or fails exactly as a listed finding says
"""
import json
import os


def session(name, reg, evs):
    """a probe judged by TLC: the library must not do what the finding describes"""
    def probe(exe, run, svh, judge, prop):
        src, out = os.path.join(run, "probe.in"), os.path.join(run, "probe.out")
        with open(src, "w") as f:
            f.write(json.dumps({"sid": 1, "reg": reg, "evs": [dict(e, probe=True) for e in evs]}) + "\n")
        rc, _ = svh(exe, ["exec", src, out, os.path.join(run, "probe.cur")], 100)
        if rc is None or rc < 0:
            return "no outcome within 100 s" if rc is None else f"the process died ({rc})"
        _, rej, _, _ = judge(prop, out, run, "probe")
        return f"rejected at call {rej[0][1]}" if rej else "holds"
    return name, probe


def survives(name, reg, evs):
    """a probe too deep for TLC: the call must return"""
    def probe(exe, run, svh, judge, prop):
        src, out = os.path.join(run, "probe.in"), os.path.join(run, "probe.out")
        with open(src, "w") as f:
            f.write(json.dumps({"sid": 1, "reg": reg, "evs": evs}) + "\n")
        rc, _ = svh(exe, ["exec", src, out, os.path.join(run, "probe.cur")], 100)
        return "holds" if rc == 0 else "no outcome within 100 s" if rc is None else f"the process died ({rc})"
    return name, probe


def rt(name, t, x, fix=""):
    return session(name, [], [{"op": "rt", "t": t, "x": x, "fix": fix}])


def flat(name, fix, v):
    key = lambda c: {"k": "str", "s": [ord(c)]}
    return rt(name, {"t": "flat"}, {"k": "map", "es": [{"key": key("a"), "val": u(1)}, {"key": key("x"), "val": v}]}, fix)


def u(n):
    return {"k": "int", "ty": "u8", "neg": False, "i": [n]}


U8 = {"t": "int", "ty": "u8"}
PROBES25 = [
    rt("newtype-struct", {"t": "nstruct", "x": U8}, {"k": "nstruct", "x": u(5)}),
    rt("newtype-struct-of-list", {"t": "nstruct", "x": {"t": "seq", "x": U8}}, {"k": "nstruct", "x": {"k": "seq", "xs": [u(5), u(6)]}}),
    rt("newtype-variant", {"t": "enum", "vs": [{"n": [65], "k": "new", "x": U8}]}, {"k": "nvar", "n": [65], "x": u(5)}),
    rt("newtype-variant-of-list", {"t": "enum", "vs": [{"n": [65], "k": "new", "x": {"t": "seq", "x": U8}}]},
       {"k": "nvar", "n": [65], "x": {"k": "seq", "xs": [u(5), u(6)]}}),
    flat("flattened-option", "_FlatOption", {"k": "some", "x": u(5)}),
    flat("flattened-enum", "_FlatEnum", {"k": "uvar", "n": [65]}),
    flat("flattened-unit", "_FlatUnit", {"k": "unit"}),
]


def nest(n, v):
    for _ in range(n):
        v = {"k": "unnamed", "vs": [v], "ctx": 0}
    return v


PROBES10 = [session("recursive-newtype-of-list", [{"t": "comp", "fs": [{"h": False, "n": [], "i": 1}]}, {"t": "seq", "i": 0}],
                    [{"op": "setbuf", "b": []},
                     {"op": "enc", "how": "fn", "cap": 2000000, "ty": 0, "v": nest(40, {"k": "bool", "b": True, "ctx": 0})}])]
PROBES05 = [
    session("zero-sized-elements", [{"t": "seq", "i": 1}, {"t": "tup", "is": []}],
            [{"op": "load", "b": [2, 0, 64, 0]}, {"op": "dec", "how": "plain", "keep": False, "ty": 0}]),
    survives("recursion-depth-decode", [{"t": "comp", "fs": [{"h": False, "n": [], "i": 1}]},
                                        {"t": "var", "vs": [{"n": [78], "x": 0, "fs": []}, {"n": [83], "x": 1, "fs": [{"h": False, "n": [], "i": 0}]}]}],
             [{"op": "load", "b": [1] * 400000 + [0]}, {"op": "dec", "how": "plain", "keep": False, "ty": 0}]),
]
PROBES23 = [session("marked-composite", [], [{"op": "de", "part": "value", "fix": "", "t": {"t": "value"}, "v":
            {"k": "named", "ctx": 0, "fs": [{"n": [ord(c) for c in "__bitvec__values__"], "v":
                                             {"k": "unnamed", "ctx": 0, "vs": [{"k": "bool", "b": True, "ctx": 0}]}}]}}])]
PROBES19 = [survives("recursion-depth-parse", [], [{"op": "parse", "how": "fn", "last": False, "ps": [], "s": [40] * 400000}])]

PLAN = {
    "C01": dict(mc=[("MCScale", "bytes", 2, 4, ["C01Bytes"]), ("MCScale", "vals", 1, 4, ["C01Vals"])],
                gen=[("Gen", "long", 1, 3), ("Gen", "bytes", 2, 3), ("Gen", "vals", 1, 4)], rec=(1200, 40000)),
    "C02": dict(mc=[("MCScale", "vals", 2, 8, ["C02Vals"])],
                gen=[("Gen", "long", 1, 3), ("Gen", "vals", 2, 8)], rec=(1500, 60000)),
    "C03": dict(mc=[("MCScale", "bytes", 2, 4, ["C03Shape"])],
                gen=[("Gen", "long", 1, 3), ("Gen", "bytes", 2, 3), ("Gen", "vals", 1, 4)], rec=(1200, 40000)),
    "C04": dict(mc=[("MCScale", "bytes", 2, 3, ["C04Suffix"]), ("MCStream", "stream", 1, 2, ["Fifo", "CursorExact", "PropAppendOnly"])],
                gen=[("Gen", "long", 1, 3), ("Gen", "bytes", 2, 3)], rec=(1500, 60000)),
    "C05": dict(mc=[("MCScale", "bytes", 2, 3, ["C05Prefix"])],
                gen=[("Gen", "bytes", 2, 3), ("Gen", "cuts", 1, 4)], rec=(1500, 60000),
                probes=PROBES05),
    "C06": dict(mc=[("MCStream", "stream", 1, 2, ["Fifo", "CursorExact", "PropAppendOnly", "PropFailedComposite"])],
                gen=[("Gen", "any", 1, 2), ("Gen", "derived", 1, 2)], rec=(1200, 40000)),
    "C07": dict(mc=[("MCScale", "derived", 1, 3, ["C07Derived"])],
                gen=[("Gen", "derived", 1, 3)], rec=(1500, 60000)),
    "C08": dict(mc=[("MCScale", "aligned", 2, 6, ["C08Align"])],
                gen=[("Gen", "aligned", 2, 6)], rec=(1500, 60000)),
    "C09": dict(mc=[("MCScale", "any", 1, 2, ["C09Sound"]), ("MCScale", "derived", 1, 3, ["C09Derived"])],
                gen=[("Gen", "long", 1, 3), ("Gen", "any", 1, 2), ("Gen", "bits", 1, 2)], rec=(1500, 60000)),
    "C10": dict(mc=[("MCWork", "towers", 1, 2, ["WorkPolynomial", "WorkAgrees"])],
                gen=[("Gen", "towers", 1, 3)], rec=(1000, 30000),
                probes=PROBES10),
    "C11": dict(mc=[("MCScale", "bytes", 2, 4, ["C11Agree"])],
                gen=[("Gen", "long", 1, 3), ("Gen", "bytes", 2, 3)], rec=(1500, 60000)),
    "C12": dict(mc=[("MCScale", "bytes", 2, 4, ["C12Path"]), ("MCScale", "cuts", 1, 6, ["C12Part"])],
                gen=[("Gen", "wide", 1, 1), ("Gen", "bytes", 2, 3), ("Gen", "cuts", 1, 4)], rec=(1500, 60000)),
    "C13": dict(mc=[("MCScale", "vals", 1, 4, ["C13Fields"])],
                gen=[("Gen", "fields", 1, 4)], rec=(1500, 60000)),
    "C14": dict(mc=[("MCScale", "bits", 2, 3, ["C14Bits"])],
                gen=[("Gen", "long", 1, 3), ("Gen", "bits", 2, 3)], rec=(1500, 40000)),
    "C15": dict(mc=[("MCText", "print", 2, 3, ["C15Round"])], gen=[("GenText", "print", 2, 3)], rec=(2000, 60000)),
    "C16": dict(mc=[("MCText", "print", 2, 3, ["C16White", "C16Odd", "C16Lines"])], gen=[("GenText", "print", 2, 3)], rec=(2000, 60000)),
    "C17": dict(mc=[("MCText", "fmt", 1, 3, ["C17Absent", "C17Log", "C17Fail"])], gen=[("GenText", "fmt", 1, 2)], rec=(2000, 60000)),
    "C18": dict(mc=[("MCText", "text", 3, 4, ["C18Prefix", "C18Lead"])], gen=[("GenText", "text", 3, 4)], rec=(2000, 60000)),
    "C19": dict(mc=[("MCText", "text", 3, 4, ["C19Where"])], gen=[("GenText", "text", 3, 4)], rec=(2000, 60000),
                probes=PROBES19),
    "C20": dict(mc=[("MCText", "custom", 2, 3, ["C20Absent", "C20First", "C20Log"])], gen=[("GenText", "custom", 2, 3)], rec=(2000, 60000)),
    "C21": dict(mc=[("MCText", "bytes", 2, 4, ["C21Bytes"]), ("MCText", "hex", 3, 5, ["C21Text"])], gen=[("GenText", "hex", 3, 4)], rec=(2000, 60000)),
    "C22": dict(mc=[("MCText", "ss58", 1, 2, ["C22Address"])], gen=[("GenText", "ss58", 1, 2)], rec=(600, 10000)),
    "C23": dict(mc=[("MCData", "vals", 2, 3, ["C23Same", "C23Form"])], gen=[("GenData", "same", 2, 3)], rec=(3000, 80000),
                probes=PROBES23),
    "C24": dict(mc=[("MCData", "vals", 2, 3, ["C24Json", "C24Parts"]), ("MCData", "trees", 2, 2, ["C24Read", "C24Kinds"])],
                gen=[("GenData", "ser", 2, 3)], rec=(3000, 80000)),
    "C25": dict(mc=[("MCData", "data", 8, 16, ["C25Round", "C25Named"]), ("MCData", "ints", 1, 1, ["C25Ints"])],
                gen=[("GenData", "types", 6, 14), ("GenData", "matrix", 2, 3)], rec=(4000, 100000),
                probes=PROBES25),
    "C26": dict(mc=[("MCData", "paths", 2, 3, ["C26Fold", "C26Index"])], gen=[("GenData", "paths", 2, 3)], rec=(3000, 80000)),
    "C27": dict(mc=[("MCData", "ctx", 2, 2, ["C27Judge"])], gen=[("GenData", "ctx", 2, 2)], rec=(2000, 60000)),
    "C28": dict(mc=[("MCData", "vals", 2, 3, ["C28Scalar"])], gen=[("GenData", "build", 2, 3)], rec=(3000, 80000)),
    "C30": dict(mc=[("MCFeed", "feed", 2, 6, ["C30Whole", "C30Prefix", "C30Frames", "PropC30Final", "PropC30Ends"])],
                gen=[("GenData", "thru", 1, 2)], rec=(2500, 60000)),
    "C31": dict(mc=[("MCScale", "any", 1, 2, ["C31Leads"]), ("MCScale", "blame", 1, 3, ["C31Leads", "C31Holds"])],
                gen=[("Gen", "any", 1, 2), ("Gen", "blame", 1, 3), ("Gen", "fields", 1, 4), ("Gen", "bits", 1, 2)], rec=(2000, 60000)),
    "C32": dict(mc=[("MCScale", "gonebytes", 2, 3, ["C32Dec"]), ("MCScale", "gonevals", 1, 2, ["C32Enc"])],
                gen=[("Gen", "faults", 1, 2)], rec=(1500, 60000)),
    "C29": dict(mc=[("MCMacro", "macro", 1, 2, ["C29Text", "C29Commas", "C29Once"])], macro=(1, 2, 800, 6000), rec=(0, 0)),
}
