"""What each property's check runs."""
B = ["std", "bin"]
T = ["std", "json", "ron"]
def bin_(mc, **kw): return dict(mc=mc, fmt="bin", features=B, **kw)
def json_(mc, **kw): return dict(mc=mc, fmt="json", features=T, **kw)
def ron_(mc, **kw): return dict(mc=mc, fmt="ron", features=T, **kw)
FIELD = {"VERIF_TAGS": "field"}
LOC = {"VERIF_LOC": "1"}
LOCF = dict(FIELD, **LOC)
ENUM = {"VERIF_TAGS": "enum"}
ARITY = {"VERIF_TAGS": "arity"}
COLL = {"VERIF_TAGS": "coll"}
PX = {"VERIF_TAGS": "px"}
TIME = {"VERIF_TAGS": "time"}
WIDE = {"VERIF_TAGS": "wide"}
WIDES = dict(WIDE, VERIF_SPARSE="1")
def combo(tag="all"): return {"VERIF_TAGS": tag, "VERIF_COMBO": "1", "VERIF_SPARSE": "1"}
PROPS = {
    "C01": dict(runs=[bin_("MC_C01"), bin_("MC_C01", env=combo()), bin_("MC_LargeB"), bin_("MC_LargeB", env=combo()), bin_("MC_C01", env=WIDE)]),
    "C02": dict(runs=[bin_("MC_LargeB"), bin_("MC_C02"), bin_("MC_C02", env=combo()), bin_("MC_C02", env=WIDE)]),
    "C03": dict(runs=[bin_("MC_C03"), bin_("MC_C03", env=combo())]),
    "C04": dict(runs=[json_("MC_Round", trace="TR_Tok"), json_("MC_Round", trace="TR_Tok", env=combo()), json_("MC_Floats"), json_("MC_Large"), json_("MC_Large", env=combo()), json_("MC_Round", trace="TR_Tok", env=WIDE)]),
    "C05": dict(runs=[json_("MC_C05", trace="TR_Json"), json_("MC_C05", trace="TR_Json", env=combo()), json_("MC_C05", trace="TR_Json", env=WIDE)]),
    "C06": dict(runs=[json_("MC_Spell"), json_("MC_Spell", env=combo()), json_("MC_Floats")]),
    "C07": dict(runs=[json_("MC_Total"), json_("MC_Total", env=combo())]),
    "C08": dict(runs=[json_("MC_Fields", env=FIELD), json_("MC_C05", trace="TR_Json", env=FIELD), json_("MC_Round", env=FIELD, trace="TR_Tok"),
                      json_("MC_Fields", env=combo("field")), json_("MC_C05", trace="TR_Json", env=combo("field")), json_("MC_Round", env=combo("field"), trace="TR_Tok"), json_("MC_Fields", env=WIDES)]),
    "C09": dict(runs=[json_("MC_Ints"), ron_("MC_Ints")]),
    "C10": dict(runs=[json_("MC_Strings", trace="TR_Json"), ron_("MC_Strings", trace="TR_Tok")]),
    "C11": dict(runs=[ron_("MC_Round", trace="TR_Tok"), ron_("MC_Round", trace="TR_Tok", env=combo()), ron_("MC_Floats"), ron_("MC_Large"), ron_("MC_Large", env=combo()), ron_("MC_Round", trace="TR_Tok", env=WIDE)]),
    "C12": dict(runs=[ron_("MC_Spell"), ron_("MC_Spell", env=combo()), ron_("MC_Floats")]),
    "C13": dict(runs=[ron_("MC_Total"), ron_("MC_Total", env=combo())]),
    "C14": dict(runs=[ron_("MC_Fields", env=FIELD), ron_("MC_Round", env=FIELD, trace="TR_Tok"),
                      ron_("MC_Fields", env=combo("field")), ron_("MC_Round", env=combo("field"), trace="TR_Tok"), ron_("MC_Fields", env=WIDES)]),
    "C17": dict(runs=[dict(mc="MC_Slots", fmt="drops-" + f, vf=f, features=["std", "drops"], trace="TR_Slots") for f in "bjr"]),
    "C18": dict(runs=[dict(mc="MC_Toml", fmt="toml", features=["std", "toml"]), dict(mc="MC_TomlLarge", fmt="toml", features=["std", "toml"])]),
    "C19": dict(runs=[dict(mc="MC_TomlTotal", fmt="toml", features=["std", "toml"])]),
    "C20": dict(runs=[json_("MC_Total", env=LOC), ron_("MC_Total", env=LOC), json_("MC_Fields", env=LOCF), ron_("MC_Fields", env=LOCF),
                      dict(mc="MC_TomlTotal", fmt="toml", features=["std", "toml"], env=LOC), bin_("MC_C03", env=LOC)]),
    "C21": dict(runs=[bin_("MC_Seq"), json_("MC_Walk"), ron_("MC_Walk")]),
    "C15": dict(runs=[bin_("MC_EnumsB", env=ENUM), json_("MC_Enums", env=ENUM), ron_("MC_Enums", env=ENUM), bin_("MC_C02", env=ENUM), json_("MC_Round", env=ENUM), ron_("MC_Round", env=ENUM),
                      bin_("MC_EnumsB", env=combo("enum")), json_("MC_Enums", env=combo("enum")), ron_("MC_Enums", env=combo("enum")), bin_("MC_C02", env=combo("enum")),
                      json_("MC_Enums", env=WIDES), ron_("MC_Enums", env=WIDES), bin_("MC_EnumsB", env=WIDES), json_("MC_Round", env=WIDE), ron_("MC_Round", env=WIDE)]),
    "C16": dict(runs=[json_("MC_Arity"), ron_("MC_Arity"), json_("MC_Round", env=ARITY, trace="TR_Tok"), ron_("MC_Round", env=ARITY, trace="TR_Tok"), bin_("MC_C01", env=ARITY),
                      json_("MC_Arity", env=combo("arity")), ron_("MC_Arity", env=combo("arity")), bin_("MC_C01", env=combo("arity")),
                      json_("MC_Wide", env=WIDE), ron_("MC_Wide", env=WIDE), json_("MC_Round", env=WIDE), ron_("MC_Round", env=WIDE), bin_("MC_C01", env=WIDE)]),
    "C23": dict(runs=[json_("MC_Coll", trace="TR_Tok"), ron_("MC_Coll", trace="TR_Tok"), bin_("MC_CollB"), json_("MC_C05", env=COLL, trace="TR_Json"),
                      bin_("MC_C01", env=COLL), json_("MC_Round", env=COLL, trace="TR_Tok"), ron_("MC_Round", env=COLL, trace="TR_Tok"),
                      json_("MC_Large", env=COLL), ron_("MC_Large", env=COLL), bin_("MC_LargeB", env=COLL),
                      bin_("MC_C01", env=combo("coll")), json_("MC_Round", env=combo("coll"), trace="TR_Tok"), ron_("MC_Round", env=combo("coll"), trace="TR_Tok")]),
    "C22": dict(runs=[bin_("MC_C01", env=PX), bin_("MC_C02", env=PX), json_("MC_Round", env=PX, trace="TR_Tok"), json_("MC_C05", env=PX, trace="TR_Json"), json_("MC_Fields", env=PX),
                      bin_("MC_C01", env=combo("px")), bin_("MC_C02", env=combo("px")), json_("MC_Round", env=combo("px"), trace="TR_Tok"), json_("MC_C05", env=combo("px"), trace="TR_Json"), json_("MC_Fields", env=combo("px"))]),
    "C24": dict(runs=[dict(python="c24")], compiles=True),
    "C25": dict(runs=[dict(python="c25")], compiles=True),
    "C26": dict(runs=[json_("MC_Time", trace="TR_Tok"), ron_("MC_Time", trace="TR_Tok"), bin_("MC_TimeB"), bin_("MC_C01", env=TIME), json_("MC_Round", env=TIME, trace="TR_Tok"), ron_("MC_Round", env=TIME, trace="TR_Tok")]),
}
