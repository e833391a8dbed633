"""Which property a failed condition of the trace specification belongs to."""

DYN = ["C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
       "C18", "C22", "C23", "C24", "C25"]

BASE = {
    "type.align": ["C02"],
    "obj.shape": ["C01", "C02", "C05", "C06"],
    "obj.size": ["C01", "C02"],
    "obj.off": ["C02"],
    "obj.mut": ["C16", "C02", "C05"],
    "obj.len": ["C05", "C04", "C15"],
    "obj.val": ["C05", "C09", "C11"],
    "obj.dup": ["C05", "C09"],
    "own": ["C05", "C09"],
    "seq.exists": ["C06"],
    "seq.list": ["C06", "C05"],
    "ses": ["C18", "C23"],
    "seq.len": ["C06", "C23"],
    "seq.offsets": ["C07", "C06"],
    "seq.itermut": ["C06", "C16", "C23"],
    "seq.cap": ["C13", "C10"],
    "seq.valid": ["C08"],
    "seq.lookup": ["C08", "C07"],
    "seq.place": ["C07", "C10", "C02"],
    "crash": list(DYN),
    "crash.oom": list(DYN),
    "eval": list(DYN),
    "outcome": [],
    "outcome.kind": ["C11"],
    "next.none": ["C18", "C23"],
    "count": ["C06"],
    "count.fail": ["C06", "C11"],
    "content": ["C05"],
    "announce": ["C01"],
    "calls": ["C17"],
    "source": ["C14"],
    "mut.none": ["C16"],
    "mut": ["C16"],
    "ctl.verdict": ["C15"],
    "ctl.effect": ["C15"],
    "ctl.drops": ["C15", "C09"],
    "iter": ["C23", "C06"],
    "look.valid": ["C08"],
    "look.addr": ["C08", "C07"],
    "foff": ["C07"],
    "tcount": ["C23", "C18"],
    "same.place": ["C22"],
    "quiet": ["C09"],
    "next.place": ["C18"],
    "stay": ["C05", "C24"],
    "mem": ["C10"],
    "tokens": ["C09"],
    "aligned": ["C02"],
    "box.place": ["C10"],
    "arena.place": ["C24"],
    "arena.apart": ["C24"],
    "distinct": ["C10"],
    "cap.grow": ["C13"],
    "cap.keep": ["C13"],
    "cap.refused": ["C12", "C13"],
    "cap.move": ["C13", "C07"],
    "cap.same": ["C13"],
    "arr": ["C17"],
    "mvs": ["C05", "C06", "C07"],
    "live.lost": ["C09"],
    "live.orphan": ["C09", "C22"],
    "live.leak": ["C09"],
    "live.z": ["C09"],
    "blocks": ["C10"],
    "end.values": ["C09"],
    "end.z": ["C09"],
    "end.blocks": ["C10"],
}

# Kinds of operation a property is about: whatever goes wrong in such a step is
# a failure of the property too.
KIND = {
    "C14": lambda e: e.get("k") == "clone" or e.get("sk") in ("clone", "copy"),
    "C15": lambda e: e.get("k") == "ctl",
    "C16": lambda e: e.get("k") in ("mut", "swp"),
    "C18": lambda e: e.get("k") in ("take", "next", "forget", "tcount", "tlast", "free") or (e.get("k") == "drop" and e.get("a") == ["t"]),
    "C22": lambda e: e.get("k") in ("raw", "unraw", "leak"),
    "C23": lambda e: e.get("k") in ("iter", "tcount"),
    "C25": lambda e: e.get("k") == "bare" or "drop" in e.get("pm", "") and "head" in e.get("pm", ""),
    "C11": lambda e: e.get("fired", 0) > 0,
    "C12": lambda e: e.get("failed", 0) > 0 and e.get("fired", 0) == 0,
    "C17": lambda e: e.get("wrong", 0) > 0 or e.get("k") == "arr",
    "C24": lambda e: bool(e.get("a")) and (e["a"][0][:1] == "o" or str(e.get("sr", [""])[0])[:1] == "o"),
}
# Properties about what stays true after such a step.
LATER = {
    "C11": KIND["C11"], "C12": KIND["C12"], "C14": KIND["C14"], "C15": KIND["C15"], "C16": KIND["C16"],
    "C18": lambda e: e.get("k") == "take", "C22": KIND["C22"], "C17": lambda e: e.get("wrong", 0) > 0,
    "C24": lambda e: e.get("k") == "new" and e.get("a", [""])[0][:1] == "o",
}


def attribute(label, ev, earlier, clean_fails):
    """Properties violated by `label` failing at event `ev`, given the earlier events of the
    script and the set of (label, kind) that also fail in scripts without such steps."""
    ps = set(BASE.get(label, []))
    k = ev.get("k")
    for p, f in KIND.items():
        if f(ev):
            ps.add(p)
    if label == "outcome":
        if ev.get("out") in ("ok", "none"):
            # should have panicked
            if k == "look":
                ps.add("C08")
            if k == "foff":
                ps.add("C07")
            if k == "bare":
                ps.add("C25")
            if k in ("ext", "col"):
                ps.add("C11")
        else:
            ps |= {"C06"} if k in ("push", "ext", "col", "mac", "seq", "iter") else set()
            ps |= {"C05"} if k in ("new", "push", "ext", "col", "mac", "drop", "dinit", "mvs") else set()
            ps |= {"C01"} if k in ("new", "push", "ext", "col") else set()
            ps |= {"C09"} if k in ("drop", "dinit") else set()
            ps |= {"C08"} if k == "look" else set()
            ps |= {"C07"} if k == "foff" else set()
            ps |= {"C17"} if k in ("new", "push", "ext", "col") else set()
            if "drop" in ev.get("pm", ""):
                ps.add("C25")
    if label in ("content",) and k in ("new", "push", "ext", "col", "mac") and ev.get("sk") == "new":
        ps.add("C17")
    if label in ("live.leak", "live.z", "tokens", "obj.val") and ev.get("sk") == "new" and k in ("new", "push", "ext", "col", "mac"):
        ps.add("C17")
    if (label, k) not in clean_fails or label in ("crash", "eval"):
        for p, f in LATER.items():
            if p not in ps and any(f(e) for e in earlier):
                ps.add(p)
    return ps
