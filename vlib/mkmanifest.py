"""Writes MANIFEST.json from the list below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification (Store/Layout), TLC trace validation of recorded executions of the real crate"
NOTE = ("Every recorded operation of randomized histories over about 120 types is judged by TLC against spec/Trace.tla; "
        "holds for the executions explored. Trusts the harness's recording and TLC.")
DYN = ["C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
       "C18", "C22", "C23", "C24", "C25"]
checks = [(p, TRACE, "model_checking", NOTE) for p in DYN]
checks += [("C03", "TLA+ specification Overflow (exact sizes beyond machine integers): TLC enumerates boundary cases, replays them on the real crate, and judges the recorded outcomes", "model_checking",
            "Every boundary case enumerated by TLC for 28 types; holds for those."),
           ("C04", "TLA+ specification Overflow (range of each length field): TLC enumerates source lengths, replays them on the real crate, and judges the outcomes; plus trace validation against Trace", "model_checking",
            "All length types, boundary lengths up to usize::MAX for elements without size, 300000 otherwise; holds for those.")]
COMP = "TLA+ specification %s: TLC enumerates programs with the verdict the rules require, and the compiler's verdict on each against the real crate is compared with it"
checks += [("C19", COMP % "MacroAccept", "model_checking", "About 4000 definitions: exhaustive small families (markers x types, lengths, visibilities, attributes, names, item kinds) and random combinations; holds for those.")]
checks += [("C20", COMP % "Visibility", "model_checking", "About 18000 programs: every visibility of struct and fields x every place a use can stand x every kind of use, and uses forbidden everywhere; holds for those.")]
checks += [("C21", COMP % "Borrow and Heads", "model_checking", "About 60000 programs: all of two or three operations (and random ones of six) over the borrowing operations of every container, with a model of loans; every way to a head x every act on it x 24 types; unsafe functions, user impls, threads, variance. Holds for those.")]
NA = []
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 vlib/check.py %s quick" % p, "thorough_cmd": "python3 vlib/check.py %s thorough" % p,
                 "technique": t, "level": l, "level_note": n} for p, t, l, n in sorted(checks)],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA]}
have = {c["property"] for c in m["checks"]} | {n["property"] for n in m["not_applicable"]}
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in have:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
