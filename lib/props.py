"""How each property is decided: model(s), driver, trace specification, behaviours."""

BLEND = {"module": "MCBlend", "thorough": {"M": "15", "E": "15"}}
LCOLOR = {"module": "MCLColor", "thorough": {"M": "63", "B": "63", "RT": "11"}}
COMPOSE = {"module": "MCCompose", "thorough": {"CONTS": '{"kw", "tr", "mk", "pl", "wt", "pa"}', "WIDE": "TRUE"}}
PIX = {"module": "MCPix", "thorough": {"DEPTH": "6"}}


def core(mc, beh=(), **kw):
    return dict({"driver": "core", "trace": "TraceCore", "mc": mc, "beh": list(beh)}, **kw)


def gcompose(kind):
    return {"module": "MCCompose", "cfg": "GenCompose", "kind": kind, "num": (250, 2500), "depth": 8}


def gpix(kind):
    return {"module": "MCPix", "cfg": "GenPix", "kind": kind, "num": (60, 600), "depth": 16}


FAULTS = {"module": "Faults", "thorough": {"N": "8", "BUF": "3"}}
ORADOC = {"module": "MCOraDoc", "thorough": {"LEN": "9"}}
ORARICH = {"module": "MCOraDoc", "quick": {"LEN": "5", "RICH": "TRUE"}, "thorough": {"LEN": "6", "RICH": "TRUE"}}
ORAIMG = {"module": "MCOraImg", "thorough": {"MODES": '{"Normal", "Value"}', "CONTS": '{"rkw", "mk"}'}}


def ora(mc, beh=(), **kw):
    return dict({"driver": "orad", "trace": "TraceOra", "mc": mc, "beh": list(beh)}, **kw)


def goradoc():
    return {"module": "MCOraDoc", "cfg": "GenOraDoc", "kind": "doc", "num": (1000, 20000), "depth": 23}


def goraimg(kind):
    return {"module": "MCOraImg", "cfg": "GenOraImg", "kind": kind, "num": (300, 3000), "depth": 9}


PROPS = {
    "C01": core([COMPOSE], [gcompose("compose")]),
    "C02": core([BLEND]),
    "C03": core([BLEND]),
    "C04": core([BLEND]),
    "C05": core([LCOLOR]),
    "C06": core([LCOLOR]),
    "C07": core([PIX], [gpix("pix")]),
    "C08": core([PIX], [gpix("view")]),
    "C09": core([COMPOSE], [gcompose("subimage")]),
    "C10": core([COMPOSE]),
    "C11": ora([ORAIMG], [goraimg("rt")]),
    "C12": ora([ORAIMG], [goraimg("enc")]),
    "C13": ora([ORADOC, ORARICH], [goradoc()]),
    "C14": ora([ORADOC, ORARICH], [goradoc()]),
    "C15": ora([FAULTS]),
}

RAT = {"module": "MCReaderAt", "thorough": {"CALLS": "4", "FAULTS": "2", "D": "3"}}
PROPS["C23"] = {"driver": "ratd", "trace": "TraceRat", "mc": [RAT],
                "beh": [{"module": "MCReaderAt", "cfg": "GenReaderAt", "kind": "rat", "num": (300, 3000), "depth": 90}]}


def xcf(mc, beh=(), **kw):
    return dict({"driver": "xcfd", "trace": "TraceXcf", "mc": mc, "beh": list(beh), "xss": "256m"}, **kw)


RLE = {"module": "MCRle", "quick": {"N": "3"}, "thorough": {"N": "5", "VALS": "{0, 3}"}}
TEXT = {"module": "MCText", "quick": {"LEN": "2", "STEP": "4"}, "thorough": {"STEP": "7"}}
TILES = {"module": "MCTiles", "thorough": {"READS": "3"}}
UNLOCKED = {"module": "MCTiles", "quick": {"LOCK": "FALSE"}, "thorough": {"LOCK": "FALSE"}, "fails": "True"}


def mcxcf(quick, thorough):
    return {"module": "MCXcf", "quick": quick, "thorough": dict(quick, **thorough), "xss": "64m"}


ALLPROPS = '{"none", "dim", "hid", "float", "twice"}'
# every form of the header, the properties, the attributes, masks and clipping, of one layer
XFORMAT = mcxcf({"NLAYERS": "1", "VERS": "{0, 11}", "BASES": "{0, 1, 2}", "SIZES": "{302}", "PROPSETS": ALLPROPS, "PLACES": "{2, 3}"},
                {"VERS": "{0, 3, 4, 10, 11, 13}", "PLACES": "{1, 2, 3, 4}", "SIZES": "{101, 302}", "NPROPS": "1"})
# the tree, and paths that lead nowhere
XTREE = mcxcf({"NLAYERS": "3", "VERS": "{11}", "PROPSETS": '{"none"}', "SIZES": "{101}", "MASKS": "{FALSE}", "COMPS": "{0}", "FAULTY": "TRUE"},
              {"NLAYERS": "4", "PLACES": "{2}"})
# tiles, whole and not
XTILES = mcxcf({"NLAYERS": "1", "VERS": "{10}", "PROPSETS": '{"none"}', "SIZES": "{101, 302, 303}", "BASES": "{0, 1, 2}", "PLACES": "{1}"},
               {"SIZES": "{101, 102, 201, 202, 302, 303, 503, 205}", "VERS": "{3, 11}"})
# files cut short at every byte
XCUTS = mcxcf({"NLAYERS": "1", "VERS": "{3, 11}", "PROPSETS": '{"none"}', "SIZES": "{302}", "PLACES": "{1}", "STEP": "1", "BASES": "{2}"},
              {"BASES": "{0, 1, 2}", "SIZES": "{101, 302}", "PLACES": "{1, 2, 3}", "NPROPS": "1"})
# files that contradict themselves
LIES = '{"version", "zero", "base", "type", "width", "bpp", "level", "end", "mask", "name", "index", "opacity"}'
XLIES = mcxcf({"NLAYERS": "2", "VERS": "{3, 11}", "PROPSETS": '{"dim"}', "SIZES": "{302}", "PLACES": "{1}", "BASES": "{1, 2}", "COMPS": "{0}", "LIES": LIES},
              {"BASES": "{0, 1, 2}", "COMPS": "{0, 1}", "SIZES": "{101, 302}", "PROPSETS": '{"none", "dim"}'})
# the parts of a file
XFORM = mcxcf({"NLAYERS": "2", "VERS": "{3, 10}", "BASES": "{1, 2}", "SIZES": "{302}", "PROPSETS": '{"none"}', "PLACES": "{1}", "COMPS": "{0, 1}"},
              {"SIZES": "{101, 503}", "BASES": "{0, 1, 2}", "PROPSETS": '{"none", "hid"}', "NPROPS": "1"})
XDOC = mcxcf({"VERS": "{11}", "SIZES": "{302}", "PROPSETS": '{"none"}', "COMPS": "{1}"}, {"SIZES": "{101, 302}", "BASES": "{0, 1}", "COMPS": "{0, 1}"})


def gxcf(num=(150, 2000), **over):
    return {"module": "MCXcf", "cfg": "GenXcf", "kind": "file", "num": num, "depth": 12, "over": over}


def gtiles(kind, num):
    return {"module": "MCTiles", "cfg": "GenTiles", "kind": kind, "num": num, "depth": 200}


def gtext(kind, num=(150, 3000)):
    return {"module": "MCText", "cfg": "GenText", "kind": kind, "num": num, "depth": 17}


PROPS["C16"] = xcf([XDOC])
PROPS["C17"] = xcf([RLE], [{"module": "MCRle", "cfg": "GenRle", "kind": "rle", "num": (150, 3000), "depth": 60}])
PROPS["C18"] = xcf([XTILES, TILES], [gtiles("tiles", (40, 800))])
PROPS["C19"] = xcf([XFORMAT], [gxcf()])
PROPS["C20"] = xcf([XTREE], [gxcf(SIZES="{101, 201}", NPROPS="1", VERS="{0, 11}", MASKS="{FALSE}")], retries=3)
PROPS["C21"] = xcf([XCUTS])
PROPS["C22"] = xcf([FAULTS])
PROPS["C24"] = xcf([TEXT], [gtext("text"), gtext("styled")])
PROPS["C29"] = xcf([XFORM])
PROPS["C30"] = xcf([XLIES], [gxcf(LIES=LIES, FAULTY="FALSE")])
PROPS["C25"] = xcf([TILES, UNLOCKED], [gtiles("readers", (20, 400))], race=True, retries=3)


def sess(mc, beh=(), **kw):
    return dict({"driver": "sess", "trace": "TraceSess", "mc": mc, "beh": list(beh), "xss": "64m"}, **kw)


SESSION = {"module": "MCSession", "quick": {"STEPS": "2", "RECTS": '{"l", "m"}'}, "thorough": {"GROUPS": '{"deep", "mask"}', "RECTS": '{"l", "m", "r"}'}}
SAVES = {"module": "MCSession", "quick": {"STEPS": "2", "CONTS": '{"tr", "mo"}', "GROUPS": '{"two", "thin"}', "OFFS": "{0, 1, 2}"},
         "thorough": {"STEPS": "2", "CONTS": '{"kw", "tr", "mk", "mo"}', "GROUPS": '{"one", "two", "deep", "mask", "thin"}', "OFFS": "{0, 1, 2}", "RECTS": '{"l", "m", "r", "o"}',
                      "MODES": '{"Normal", "Multiply", "Screen", "Difference"}'}}


def gsess():
    return {"module": "MCSession", "cfg": "GenSession", "kind": "session", "num": (300, 4000), "depth": 9}


PROPS["C26"] = sess([SESSION, SAVES], [gsess()])
PROPS["C27"] = sess([SESSION], [gsess()], race=True, retries=3)
PROPS["C28"] = core([COMPOSE], [gcompose("meta")])
