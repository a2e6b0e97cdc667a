"""What each check explores, and which differences belong to its property."""
import re

def _op(*ops):
    return lambda m, e, p, x, g: e["op"] in ops
def anything(m, e, p, x, g):
    return not p.startswith("cost")     # that is C20's
def has(*words):
    return lambda m, e, p, x, g: any(w in p for w in words)
def rejected(m, e, p, x, g):
    """something appeared, or was stored, that should not have; in a unit cut short or spoiled from some element on, anything"""
    if m.name.startswith(("cuts", "t_")):
        return not p.startswith("cost")
    if p.startswith("d1") or p.startswith("d2"):
        return True
    if p.endswith("#") and isinstance(x, list) and isinstance(g, list):
        return len(g) > len(x)
    return False

BUGGY = ("crash", "leak")          # every check reports these
PURE = ("memory", "differs-when-repeated", "ro", "changed")

# profile: (quick sessions, thorough sessions)
PLAN = {
 "C01": dict(runs={"C01": (260, 3000), "e_find": (171, 2800), "e_big_stream": (8, 8), "e_edges": (19, 19)}, scope=anything),
 "C02": dict(runs={"C02": (260, 3000), "e_len": (184, 2000), "e_big_len": (12, 12), "e_edges": (19, 19), "e_prefix": (9, 9)}, scope=anything),
 "C03": dict(runs={"C03": (200, 2500), "pairs": (200, 2500), "e_esc": (62, 1600), "e_big_esc": (3, 3), "e_edges": (19, 19)}, scope=None),
 "C04": dict(runs={"C04": (600, 9000), "e_ue": (400, 4096), "e_big_bits": (4, 4)}, scope=anything),
 "C05": dict(runs={"C05": (170, 2000), "e_hist": (650, 8232), "e_types": (64, 64), "e_ids": (5, 40)}, scope=lambda m, e, p, x, g: p[:2] in ("d1", "d2") or e["op"] == "get" or p == "changed"),
 "C06": dict(runs={"C06": (150, 2500), "e_hist": (650, 8232), "e_types": (64, 64), "e_ids": (4, 40)}, scope=lambda m, e, p, x, g: ".slice" in p or p.startswith("obs.qp") or e["op"] in ("qp",) or p.startswith("obs.slice")),
 "C07": dict(runs={"C07": (260, 4000), "l_vps": (6, 6), "w_vps": (13, 52), "v_vps": (8, 64), "t_vps": (8, 64)}, scope=anything),
 "C08": dict(runs={"C08": (260, 4000), "e_dims": (50, 105), "l_sps": (64, 64), "w_sps": (23, 92), "v_sps": (16, 128), "t_sps": (12, 96)}, scope=anything),
 "C09": dict(runs={"C09": (260, 4000), "e_vuifr": (1, 1), "l_hrd": (33, 33), "w_hrd": (25, 100), "v_hrd": (32, 160), "t_hrd": (15, 96)}, scope=anything),
 "C10": dict(runs={"C10": (300, 4500), "l_pps": (6, 6), "w_pps": (15, 60), "v_pps": (8, 64), "t_pps": (10, 80)}, scope=anything),
 "C11": dict(runs={"C11": (260, 4000), "l_slice": (24, 24), "e_rows": (20, 20), "e_entry": (12, 60), "w_slice": (68, 136), "v_slice": (24, 192), "t_slice": (16, 128)}, scope=anything),
 "C12": dict(runs={"C12": (400, 6000), "e_st": (200, 1024), "l_st": (5, 5), "w_st": (8, 32), "t_st": (4, 32)}, scope=anything),
 "C13": dict(runs={"C13": (220, 3000), "e_profs": (40, 40), "e_pred": (1, 1), "v_ptl": (16, 64), "t_ptl": (6, 32)}, scope=anything),
 "C14": dict(runs={"C14": (260, 4000), "l_ext": (40, 40), "w_ext": (22, 88), "v_ext": (48, 192), "t_ext": (28, 140)}, scope=anything),
 "C15": dict(runs={"C15": (350, 5000), "e_big_sei": (8, 8), "w_sei": (25, 100), "v_sei": (56, 224), "t_sei": (16, 128)}, scope=anything),
 "C16": dict(runs={"C16": (200, 3000), "e_hdr": (64, 256), "e_pred": (1, 1), "e_aud": (16, 16), "e_types": (64, 64)}, scope=anything),
 "C17": dict(runs={"C17": (230, 3500), "e_fu": (112, 112), "e_big_rtp": (3, 3), "e_types": (64, 64), "e_edges": (19, 19), "e_ap": (4, 4)}, scope=anything),
 "C18": dict(runs={"C18": (260, 4000), "e_big_box": (3, 3), "e_types": (64, 64), "e_edges": (19, 19), "e_box": (9, 9)}, scope=anything),
 "C19": dict(runs={"C19": (180, 2500), "cuts": (120, 2000), "l_sps": (64, 64), "l_vps": (6, 6), "l_hrd": (33, 33), "l_slice": (24, 24), "t_vps": (4, 64), "t_sps": (12, 96), "t_hrd": (9, 96), "t_pps": (8, 80), "t_ext": (21, 140), "t_slice": (12, 128), "t_sei": (8, 128), "t_ptl": (4, 32), "t_st": (2, 16)}, scope=rejected),
 "C20": dict(runs={"C20": (220, 3500), "C04": (120, 2000), "e_qp": (15, 15), "e_find": (40, 400), "C24": (20, 300), "e_big_stream": (8, 8), "e_big_len": (12, 12), "e_big_rtp": (3, 3), "e_big_bits": (4, 4), "e_big_esc": (3, 3), "e_many": (6, 6), "e_big_box": (3, 3), "e_big_sei": (8, 8), "e_prefix": (9, 9), "e_ap": (4, 4), "e_box": (9, 9)}, scope=lambda m, e, p, x, g: p.startswith("cost")),
 "C21": dict(runs={"C21": (200, 3000), "e_qp": (15, 15)}, scope=lambda m, e, p, x, g: e["op"] == "qp" and p.startswith("obs") or p.startswith("obs.qp")),
 "C22": dict(runs={"C22": (250, 4000), "e_dims": (105, 105)}, scope=has("spsd")),
 "C23": dict(runs={"C23": (220, 4000), "e_sum": (49, 49), "e_big_stream": (8, 8), "e_edges": (19, 19)}, scope=has("checksum")),
 "C24": dict(runs={"C24": (190, 3000), "cli": (110, 1500), "e_cli": (11, 11), "l_dump": (40, 60), "e_rows": (12, 20), "e_big_stream": (8, 8), "e_types": (64, 64), "w_dump": (79, 158), "w_sei": (25, 50), "v_dump": (24, 96)}, scope=anything),
 "C25": dict(runs={"split": (320, 5000), "e_big_stream": (8, 8), "e_types": (64, 64)}, scope=anything),
 "C26": dict(runs={"C26": (180, 2500)}, scope=lambda m, e, p, x, g: p.split(".")[0].split("[")[0] in PURE
                   or p.startswith("d%d" % (3 - e["st"]))),
}
# calls found by a search guided by the coverage of the library as it is (seconds, most sessions),
# and from the sample streams of the repository (sessions): quick, thorough
for c in PLAN:
    if c not in ("C03", "C04"):
        PLAN[c]["search"] = ((10, 250), (400, 6000))
for c in ("C01", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C16", "C21", "C22", "C23", "C24", "C25"):
    PLAN[c]["media"] = (16, 200)
# sessions side by side on threads
PLAN["C26"]["threads"] = ({"C26": 60, "C24": 12, "C17": 12, "C18": 12, "C21": 8, "C08": 8, "C10": 8, "C11": 8, "C07": 8, "C04": 6, "C15": 6, "split": 6, "e_types": 6},
                          {"C26": 600, "C24": 100, "C17": 100, "C18": 100, "C21": 60, "C08": 60, "C09": 60, "C10": 60, "C11": 60, "C12": 60, "C13": 60, "C14": 60,
                           "C07": 60, "C04": 40, "C15": 60, "C16": 60, "split": 60, "e_types": 64})
PLAN["C03"]["pure"] = ({"C03": 10, "e_esc": 1}, {"C03": 80, "e_esc": 8, "pairs": 40, "C01": 40, "C23": 20})
PLAN["C04"]["pure"] = ({"C04": 12, "C11": 3}, {"C04": 100, "C11": 40, "C08": 20, "C10": 20, "C15": 20})
# C03: what the escaped form gives and the unescaped form does not
def c03(m, e, p, x, g):
    return e["op"] == "unescape" or (m.name.startswith("pairs") and e["op"] in ("nalu", "payload") and
                                     not getattr(m, "twin_differs", False))
PLAN["C03"]["scope"] = c03

# what the property says, as laws of the specification itself (spec/Laws.tla): members quick, thorough
LAWS = {
 "C01": {"tile": (9841, 88573), "back": (6248, 31248)}, "C02": {"len": (5460, 87380), "lenback": (2496, 62496)},
 "C03": {"esc": (19531, 97656)}, "C04": {"bits": (4096, 131072)}, "C05": {"channel": (512, 12000), "keep": (3500, 60000)},
 "C06": {"keep": (7000, 80000), "slice": (256, 4000)}, "C07": {"open": (1024, 20000)}, "C08": {"open": (2048, 40000)},
 "C09": {"syntax": (2048, 40000)}, "C10": {"open": (2048, 40000)}, "C11": {"slice": (1024, 20000)}, "C12": {"rps": (2000, 60000)},
 "C13": {"syntax": (2048, 40000)}, "C14": {"syntax": (2048, 40000)}, "C15": {"sei": (99, 99)}, "C16": {"hdr": (65536, 65536)},
 "C17": {"channel": (512, 12000)}, "C18": {"channel": (512, 12000)}, "C19": {"keep": (3500, 60000), "syntax": (1024, 20000), "slice": (256, 4000)},
 "C21": {"qp": (1024, 1024)}, "C22": {"dim": (5000, 200000)}, "C23": {"sum": (2000, 100000)}, "C24": {"dump": (512, 12000)},
 "C25": {"channel": (512, 12000)},
}
# properties not claimed, with the reason
NOT_APPLICABLE = {}
