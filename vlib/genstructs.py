"""Writes harness/src/gen_structs.rs: struct definitions for the menu, one feature at a time and mixed.

The result is committed; run this only to change the menu."""
import os, random
R = random.Random(20240607)
PLAIN = ["u8", "u16", "u32", "u64", "u128", "[u8; 3]", "(u8, u32)", "()", "[u64; 0]", "Al32", "bool"]
TOKS = ["Tok", "NTok", "BTok", "ZTok", "NestBox"]
SUBS = ["Str", "Str<u8>", "Array<u16, u8>", "Array<u64, u16>", "Tup2<FixedLen<u8>, Str<u8>>", "S1", "S3", "FixedLen<u32>", "Tup2<Array<u8, u8>, Array<u32, u8>>", "N1"]
TSUBS = ["Array<Tok>", "Array<NTok, u8>", "Tup2<FixedLen<u8>, Array<BTok, u8>>", "FixedLen<Tok>", "S2", "Tup2<Str<u8>, FixedLen<ZTok>>", "Tup2<Tup2<FixedLen<u8>, Array<Tok, u8>>, Str>", "S14", "N2<u8>"]
CTL = ["u8", "u8", "u16", "u32", "u64", "bool"]
# where the values with destructors are: nowhere, one kind of part, or anywhere
SITES = ["none", "fix", "arr", "sub", "ctl", "arr0", "last", "any", "any"]


def expr(ctls, depth=0):
    """(Rust over references, Rust over values, description)"""
    def one():
        i = R.randrange(len(ctls))
        n, t = ctls[i]
        a = '["c",%d]' % (i + 1)
        return ("%s.len" % n, "%s.len" % n, a) if t == "CTok" else ("*%s as usize" % n, "%s as usize" % n, a)
    k = R.randrange(8) if ctls else 7
    if k <= 2:
        return one()
    if k == 3:
        x = one()
        c = R.randint(1, 3)
        return ("%s + %d" % (x[0], c), "%s + %d" % (x[1], c), '["+",%s,["k",%d]]' % (x[2], c))
    if k == 4:
        x = one()
        return ("(%s) / 2" % x[0], "(%s) / 2" % x[1], '["/",%s,["k",2]]' % x[2])
    if k == 5:
        x, y = one(), one()
        return ("(%s) + (%s)" % (x[0], y[0]), "(%s) + (%s)" % (x[1], y[1]), '["+",%s,%s]' % (x[2], y[2]))
    if k == 6:
        x, y = one(), one()
        return ("(%s) * (%s)" % (x[0], y[0]), "(%s) * (%s)" % (x[1], y[1]), '["*",%s,%s]' % (x[2], y[2]))
    c = R.randrange(4)
    return (str(c), str(c), '["k",%d]' % c)


def struct(no, site):
    kinds = []
    for k, lo, hi in (("fix", 0, 3), ("ctl", 0, 2), ("arr", 0, 3), ("sub", 0, 3)):
        kinds += [k] * R.randint(lo, hi)
    need = {"fix": "fix", "arr": "arr", "sub": "sub", "ctl": "ctl", "arr0": "arr", "last": "sub"}.get(site)
    if need and need not in kinds:
        kinds.append(need)
    if not kinds:
        kinds = ["arr", "fix"]
    R.shuffle(kinds)
    if site == "last":
        kinds.remove("sub")
        kinds.append("sub")
    which = [i for i, k in enumerate(kinds) if k == need]
    target = (which[-1] if site == "last" else R.choice(which)) if need else -1
    names = {}
    fields, ctls = [], []
    # controllers first, so that lengths can mention later ones
    for i, k in enumerate(kinds):
        names[i] = R.choice(["a", "b", "c", "x", "n", "size_", "len"]) + str(i)
        if k == "ctl":
            t = "CTok" if i == target or (site == "any" and R.random() < 0.3) else R.choice(CTL)
            ctls.append((names[i], t))
    for i, k in enumerate(kinds):
        n = names[i]
        tok = i == target or (site == "any" and R.random() < 0.5)
        vis = R.choice(["pub ", "pub ", "pub(crate) ", ""])
        if k == "fix":
            t = R.choice(TOKS if tok else PLAIN)
            fields.append((k, n, t, "", vis, None))
        elif k == "ctl":
            fields.append((k, n, dict(ctls)[n], "#[controls_layout] ", vis, None))
        elif k == "arr":
            t = R.choice(TOKS if tok else PLAIN)
            fields.append((k, n, t, "#[varlen_array] ", vis, expr(ctls)))
        else:
            t = R.choice(TSUBS if tok else SUBS)
            fields.append((k, n, t, "#[varlen] ", vis, None))
    rep = R.choice(["", "", "#[repr(C)] "])
    S, m, M = "G%d" % no, "g_%d" % no, "MG%d" % no
    out = ["#[define_varlen]", "%spub struct %s {" % (rep, S)]
    for k, n, t, attr, vis, e in fields:
        ty = "[%s; %s]" % (t, e[0]) if k == "arr" else t
        out.append("    %s%s%s: %s," % (attr, vis, n, ty))
    out.append("}")
    fixed = ["%s: %s" % (f[1], f[2]) for f in fields if f[0] in ("fix", "ctl")]
    out.append("#[allow(dead_code)] %spub struct %s { %s }" % (rep, M, ", ".join(fixed)))
    def rnd(t):
        return {"bool": "cx.len(9) % 2 == 1", "CTok": "CTok::new(cx.len(3))"}.get(t, "cx.len(4) as %s" % t)
    def keep(n, t):
        return "CTok::new(cur.refs().%s.len)" % n if t == "CTok" else "*cur.refs().%s" % n
    def other(t):
        return {"bool": "r.below(2) == 0", "CTok": "CTok::new(r.below(3))"}.get(t, "r.below(4) as %s" % t)
    def near(n, t):
        return {"bool": "!*cur.refs().%s" % n, "CTok": "CTok::new(cur.refs().%s.len ^ 1)" % n}.get(t, "*cur.refs().%s ^ 1" % n)
    tup = lambda xs: "(%s,)" % ", ".join(xs) if xs else "()"
    out.append("ty_struct! { %s, %s, %s; ctl(%s) = |%s| %s;" % (S, m, M, ", ".join("%s: %s" % c for c in ctls), "cx" if ctls else "_", tup([rnd(t) for _, t in ctls])))
    for k, n, t, attr, vis, e in fields:
        out.append("    %s %s: %s%s;" % (k, n, t, ' = (%s) "%s"' % (e[1], e[2].replace('"', '\\"')) if e else ""))
    if ctls:
        first = [near(*ctls[0])] + [keep(*c) for c in ctls[1:]]
        out.append("    => |mode, r, cur| match mode { 0 => %s, 1 => %s, _ => %s };" % (tup([keep(*c) for c in ctls]), tup(first), tup([other(t) for _, t in ctls])))
    else:
        out.append("    => |_, _, _| ();")
    out.append("}")
    return "\n".join(out)


def main():
    o = ["//! Written by vlib/genstructs.py.", "#![allow(unused_parens, unused_variables, dead_code)]", "use crate::elem::*;", "use crate::structs::*;", "use crate::track::*;", "use crate::ty::*;",
         "use std::pin::Pin;", "use varlen::prelude::*;", ""]
    n = 0
    for rnd in range(4):
        for s in SITES:
            n += 1
            o.append("// values with destructors: " + s)
            o.append(struct(n, s))
            o.append("")
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/gen_structs.rs")
    open(p, "w").write("\n".join(o))
    print(n)


main()
