"""What each property's check consists of.

kind "gen":   the harness records executions of the real code, and TLC checks
              every trace against the module named.
kind "enum":  TLC enumerates behaviours of the specification (with what has to
              be observed), and the harness replays them into the real code.
kind "model": TLC checks a design-level model exhaustively.
"""


def enc(p, n, nt):
    return {"kind": "gen", "gen": p, "module": "ConfEnc", "n": n, "n_thorough": nt}


def dec(p, n, nt):
    return {"kind": "gen", "gen": p, "module": "ConfDec", "n": n, "n_thorough": nt}


def conf(module, p, n, nt):
    return {"kind": "gen", "gen": p, "module": module, "n": n, "n_thorough": nt}


def texts(p):
    return {"kind": "enum", "module": "MCEnumText", "cfg_thorough": "MCEnumText_t", "replay": p}


def values(cfg, replay, **kw):
    return dict({"kind": "enum", "module": "EnumEnc", "cfg": "EnumEnc_" + cfg, "replay": replay}, **kw)


def docs(cfg, replay, **kw):
    return dict({"kind": "enum", "module": "EnumDec", "cfg": "EnumDec_" + cfg, "replay": replay}, **kw)


def hist(cfg, **kw):
    return dict({"kind": "enum", "module": "EnumSess", "cfg": "EnumSess_" + cfg, "replay": "sess"}, **kw)


def towers(p):
    return {"kind": "enum", "module": "MCTower", "cfg_thorough": "MCTower_t", "replay": "tower" + p}


def wides(p):
    return {"kind": "enum", "module": "MCWide", "cfg_thorough": "MCWide_t", "replay": "wide" + p}


THOROUGH = {"tier": "thorough"}
PLAN = {
    "C01": {"universe": values("one", "strip"), "universe_deep": values("deep", "strip", **THOROUGH),
            "strip": enc("C01", 3000, 8000)},
    "C02": {"universe": values("col", "enc"), "universe_deep": values("deepcol", "enc", **THOROUGH),
            "colors": enc("C02", 3000, 8000)},
    "C03": {"universe": values("lay", "enc", cfg_thorough="EnumEnc_collay"), "universe_deep": values("deeplay", "enc", **THOROUGH),
            "layout": enc("C03", 3000, 8000)},
    "C04": {"universe": values("small", "enc", cfg_thorough="EnumEnc_flags"),
            "scalars": enc("C04", 4000, 10000)},
    "C05": {"universe": values("one", "enc", cfg_thorough="EnumEnc_flags"), "universe_deep": values("deep", "enc", **THOROUGH),
            "composites": enc("C05", 3000, 8000)},
    "C06": {"texts": texts("C06"), "raw": enc("C06", 2500, 6000)},
    "C07": {"one": hist("one"), "two": hist("two"), "one5": hist("one5", **THOROUGH), "two5": hist("two5", **THOROUGH),
            "sessions": enc("C07", 1000, 2500)},
    "C08": {"universe": values("one", "entry"), "universe_layouts": values("lay", "entry", **THOROUGH), "universe_deep": values("deep", "entry", **THOROUGH),
            "entries": enc("C08", 1000, 2000)},
    "C09": {"texts": texts("C09"), "inputs": dec("C09", 10000, 30000)},
    "C10": {"universe": docs("any1", "dec", cfg_thorough="EnumDec_any2"),
            "untyped": dec("C10", 5000, 12000)},
    "C11": {"universe": docs("plain", "dec"), "universe_deep": docs("deep", "dec", **THOROUGH),
            "typed": dec("C11", 5000, 12000)},
    "C12": {"universe": docs("structs", "dec"), "universe_deep": docs("deep", "dec", **THOROUGH),
            "structs": dec("C12", 3000, 8000)},
    "C13": {"buffer": {"kind": "model", "module": "StreamBuf", "cfg_thorough": "StreamBuf_t"},
            "universe": docs("some", "streamed", cfg_thorough="EnumDec_structs"),
            "universe_any": docs("any2", "streamed", **THOROUGH), "texts": texts("C13"),
            "streams": conf("ConfStream", "C13", 2500, 6000)},
    "C14": {"universe": docs("some", "parsed", cfg_thorough="EnumDec_structs"), "universe_any": docs("any2", "parsed", **THOROUGH),
            "texts": texts("C14"), "parsing": dec("C14", 4000, 10000)},
    "C15": {"universe": docs("some", "kept", cfg_thorough="EnumDec_structs"), "universe_any": docs("any2", "kept", **THOROUGH),
            "universe_deep": docs("deep", "kept", **THOROUGH),
            "kept": dec("C15", 1500, 4000)},
    "C16": {"texts": texts("C16"), "lives": conf("ConfTok", "C16", 4000, 8000)},
    "C18": {"pools": {"kind": "model", "module": "MCCalls", "cfg_thorough": "MCCalls_t"},
            "cache": {"kind": "model", "module": "CodecCache", "cfg_thorough": "CodecCache_t"},
            "schedules": {"kind": "enum", "module": "EnumCalls", "replay": "C18"},
            "schedules4": {"kind": "enum", "module": "EnumCalls", "cfg_thorough": "EnumCalls4", "replay": "C18", "tier": "thorough"},
            "stress": dict(conf("ConfConc", "C18", 1500, 3000), race=True)},
    "C17": {"universe": values("one", "round"), "universe_deep": values("deep", "round", **THOROUGH),
            "roundtrips": dec("C17", 5000, 12000)},
    "C19": {"precedence": {"kind": "model", "module": "MCTerminal"},
            "states": {"kind": "enum", "module": "EnumTerm", "replay": "C19"}},
    "C20": {"configurations": {"kind": "enum", "module": "EnumTool", "cfg_thorough": "EnumTool_t", "replay": "C20", "cli": True},
            "runs": dict(conf("ConfTool", "C20", 3000, 8000), cli=True)},
    "C21": {"attributes": {"kind": "enum", "module": "EnumColors", "replay": "C21"},
            "sets": conf("ConfColors", "C21", 2500, 6000)},
    "C22": {"texts": texts("C22"), "escapes": {"kind": "enum", "module": "EnumHtml", "cfg_thorough": "EnumHtml_t", "replay": "html"},
            "buffers": conf("ConfText", "C22", 3000, 8000)},
    "C23": {"universe": {"kind": "enum", "module": "EnumWhy", "replay": "why"},
            "universe_deep": {"kind": "enum", "module": "EnumWhy", "cfg": "EnumWhy_deep", "replay": "why", **THOROUGH},
            "causes": conf("ConfWhy", "C23", 4000, 12000)},
}
for _p in ("C01", "C02", "C03", "C05", "C06", "C09", "C10", "C11", "C13", "C14", "C16", "C17", "C22"):
    PLAN[_p]["towers"] = towers(_p)
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C22", "C23"):
    PLAN[_p]["sizes"] = wides(_p)
PLAN["C20"]["sizes"]["cli"] = True
NOTES = {}
