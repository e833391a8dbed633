"""C21: programs which keep or break the borrowing rules, from spec/Borrow.tla, given to the compiler."""
import os
from common import *
from compiles import Compiler, cases

PRELUDE = """use varlen::prelude::*;
use bumpalo::Bump;
static TEXT: String = String::new();
#[define_varlen] pub struct S { #[controls_layout] n: usize, k: u32, #[varlen_array] x: [u16; *n], #[varlen] w: Str }
varlen::define_varlen_newtype! { #[repr(transparent)] pub struct N(Tup2<Str, Array<u16>>); with init: pub struct NInit<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }
type StrT = Str; type ArrT = Array<u16>; type TupT = Tup2<Str, Array<u16>>; type ST = S; type NT = N; type FixT = FixedLen<String>; type RT<'a> = FixedLen<&'a String>;
fn touch<T: ?Sized>(_: &T) {}
"""
TYPE = dict(Str="Str", Arr="Array<u16>", Tup="Tup2<Str, Array<u16>>", S="S", N="N", Fix="FixedLen<String>", R="FixedLen<&String>")
TUP = "tup2::Init(Str::copy(\"ab\"), Array::copy(&[1u16, 2]))"
INIT = dict(Str="Str::copy(\"ab\")", Arr="Array::copy(&[1u16, 2])", Tup=TUP, S="s::Init { n: 2, k: 1, x: FillWithDefault, w: Str::copy(\"a\") }", N="NInit(%s)" % TUP,
            Fix="FixedLen(String::new())", R="FixedLen(&TEXT)")
BASE = dict(vbox="VBox<%s> = VBox::new(%s)", seq="Seq<%s> = Seq::new()", iseq="IndexableSeq<%s> = IndexableSeq::new()", bump="Bump = Bump::new()", string="String = String::new()")


def base(n, con, el):
    t = BASE[con]
    if "%s" in t:
        t = t % ((TYPE[el], INIT[el]) if con == "vbox" else (TYPE[el],))
    return "let mut v%d: %s;" % (n, t)


def step(s):
    t = s["t"].replace("$", "v%d" % s["v"]).replace("@", "v%d" % s["a"])
    for e in INIT:
        t = t.replace("{init:%s}" % e, INIT[e])
    t = t.replace("{init}", INIT.get(s["e"], "")).replace("{E}", TYPE.get(s["e"], ""))
    d = s["d"]
    for i, r in enumerate(s["r"]):
        d = d.replace("%%%d" % (i + 1), "v%d" % r)
    if not d and s["r"]:
        d = "let mut v%d" % s["r"][0]
    return "%s%s;" % (d + " = " if d else "", t)


def body(c):
    return " ".join([base(i + 1, *b) for i, b in enumerate(c["base"])] + [step(s) for s in c["steps"]])


def linear(i, c):
    return "pub fn p%d() { %s }" % (i, body(c))


NT = "define_varlen_newtype! { #[repr(transparent)] pub struct %s; %s with init: pub struct %sInit<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }\n"
HEADS = PRELUDE + """use core::pin::Pin;
#[define_varlen] pub struct OnlyArray { #[controls_layout] n: u8, #[varlen_array] x: [u8; *n as usize] }
#[define_varlen] pub struct OnlySub { #[varlen] w: Str }
#[define_varlen] pub struct ConstArray { #[varlen_array] x: [u8; 3] }
#[define_varlen] pub struct Gen<T: VarLen> { k: u8, #[varlen] w: T }
#[define_varlen] pub struct Plain { k: u8 }
#[define_varlen] pub struct PlainPinned { k: core::marker::PhantomPinned }
#[define_varlen] pub struct Two<A: VarLen, B: VarLen> { k: u8, #[varlen] a: A, #[varlen] b: B }
#[define_varlen] pub struct ShareArray<T> { #[controls_layout] n: u8, #[varlen_array] x: [T; *n as usize] }
#[define_varlen] pub struct ShareSub<T: VarLen> { #[varlen] x: T }
fn is_copy<T: Copy>() {} fn is_unpin<T: Unpin>() {} fn is_send<T: Send>() {} fn is_sync<T: Sync>() {} fn needs_clone<T: Clone>(_: &T) {}
pub fn side_effect(_: &usize) -> usize { 3 } pub const fn const_fn(n: usize) -> usize { n }
""" + NT % ("NStr(Str)", "", "NStr") + NT % ("NFix(FixedLen<u32>)", "", "NFix") + NT % ("NPinned(FixedLen<core::marker::PhantomPinned>)", "", "NPinned") + NT % ("NGen<(T)>(Array<T>)", "with signature: impl<(T)> NGen<(T)> { _ }", "NGen")
OTHERS = ["heads", "direct", "unsafes", "items", "threads", "variance"]


def other(i, c):
    if "it" in c:
        return "pub mod m%d { use super::*; %s }" % (i, c["it"])
    if "from" in c:
        t = lambda l: c["ty"].replace("{E}", c["e"].replace("{L}", l))
        return "pub fn p%d<'long: 'short, 'short: 'q, 'q>(a: %s) -> %s { a }" % (i, t(c["from"]), t(c["to"]))
    if "x" in c:
        return "pub fn p%d() { %s::<%s>() }" % (i, c["n"], c["ty"].replace("{H}", c.get("h", "")).replace("{X}", c["x"]))
    s = lambda x: x.replace("{T}", c.get("t", "")).replace("{init}", c.get("init", "")).replace("{S}", INIT["S"]).replace("{N}", INIT["N"])
    return "pub fn p%d(%s) { %s }" % (i, s(c["ps"]), s(c["st"]))


# families, and how long all their programs are; those of random programs, and how many walks of which length
SHORT = [("box", 2), ("seq", 2), ("iseq", 2), ("bump", 3), ("string", 2), ("seqs", 2), ("boxseq", 2), ("boxbump", 2), ("refs", 2), ("bumpseq", 2)]
DEEP = [("box", 3), ("seq", 3), ("iseq", 3), ("bump", 4), ("string", 4), ("seqs", 2), ("boxseq", 2), ("boxbump", 2), ("refs", 3), ("bumpseq", 2), ("all", 2), ("all2", 2)]
RANDOM = ["box", "seq", "iseq", "bump", "seqs", "boxseq", "boxbump", "refs", "bumpseq", "all", "all2"]
CHAINS = ["box", "seq", "iseq", "bump", "string"]
WALKS, LENGTH, DEEP_WALKS = 10, 6, 150


def run(tier, ev):
    work = os.path.join(BUILD, "work", "C21." + tier)
    comp = Compiler(work)
    for prelude in (PRELUDE, HEADS):
        ok, errs = comp.one(prelude)
        if not ok:
            return [dict(label="accept", ev=dict(k="prelude", what="definitions", errors=[e[0] for e in errs][:3]), script=[prelude], key="prelude")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = [("Borrow", f, d, 0) for f, d in (SHORT if tier == "quick" else DEEP)]
    jobs += [("Borrow", f, 3 if tier == "quick" else 4, -1) for f in CHAINS]
    jobs += [("Borrow", f, LENGTH, WALKS if tier == "quick" else DEEP_WALKS) for f in RANDOM] + [("Heads", f, 0, 0) for f in OTHERS]

    def generate(j):
        module, f, d, n = j
        if module == "Heads":
            return cases(module, work, f)
        return cases(module, os.path.join(work, "%d" % n), f, n=max(n, 0), seed=seed, extra={"DEPTH": str(d), "CHAIN": "1" if n < 0 else "0"}, depth=d + 1)
    seen, linears, others, count = set(), [], [], {}
    for (module, f, d, n), cs in zip(jobs, comp.map(generate, jobs)):
        name = f + (" random" if n > 0 else " chains" if n else "")
        count[name] = 0
        for c in cs:
            t = other(0, c) if module == "Heads" else linear(0, c)
            if t not in seen:
                seen.add(t)
                (others if module == "Heads" else linears).append(dict(text=c, accept=c["accept"], t=t))
                count[name] += 1
    note("%d programs" % len(seen))
    bad = comp.judge(linears, PRELUDE, linear, batch=200) + comp.judge(others, HEADS, other, batch=60)
    note("%d compilations" % comp.runs)
    todo = linears + others
    ev["coverage"].update(states=len(todo), transitions=sum(len(c["text"].get("steps", "1")) for c in todo), traces_validated_against_impl=len(todo), accepted=sum(c["accept"] for c in todo),
                          rejected=sum(not c["accept"] for c in todo), families=count, compilations=comp.runs, samples=[c["t"][:600] for c in todo[::max(1, len(todo) // 6)]][:6])
    r = []
    for c, errs in bad:
        k = "/".join(c["text"]["names"]) if "names" in c["text"] else c["text"]["n"]
        r.append(dict(label="accept" if c["accept"] else "reject", ev=dict(k=k, what=c["t"], errors=[e[0] for e in errs][:3]), script=[(PRELUDE if "names" in c["text"] else HEADS) + c["t"]], key=c["t"]))
    return r
