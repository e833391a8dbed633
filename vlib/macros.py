"""C19: definitions enumerated from spec/MacroAccept.tla, given to the real macro."""
import json, os, re
from common import *
from compiles import Compiler, cases

FAMILIES = ["kinds", "focus", "lengths", "vis", "types", "atts", "names", "long", "empty", "generic", "cfg", "structs", "places", "paths", "clashes"]

PRELUDE = """
pub use varlen::prelude::*;
pub const K: usize = 3;
pub const fn cf(x: usize) -> usize { x + K }
#[derive(Clone, Copy)] pub struct Pq { pub r: usize }
pub type Pv = Array<u64>;
pub const R: usize = 1;
pub mod clash { #[derive(Clone, Copy)] pub struct Init(pub u8); #[derive(Clone, Copy)] pub struct Refs(pub u8); #[derive(Clone, Copy)] pub struct Muts(pub u8); #[derive(Clone, Copy)] pub struct LayoutControllers(pub u8); #[derive(Clone, Copy)] pub struct VarLenLayout(pub u8); }
pub fn ncf(x: usize) -> usize { x + 1 }
pub enum Mode { One = 1 }
pub const MODE: u8 = Mode::One as u8;
pub static STATIC_MUT_LIKE: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(3);
#[derive(Clone, Copy, Debug)] pub struct Cfg { pub len: usize }
impl Cfg { pub const fn get(&self) -> usize { self.len } pub fn noget(&self) -> usize { self.len } }
pub trait HasTy { type Ty; }
impl HasTy for u8 { type Ty = u32; }
impl HasTy for u16 { type Ty = Str; }
#[define_varlen] pub struct Other { pub q: u8, #[varlen] pub r: Str }
define_varlen_newtype! {
    #[repr(transparent)] pub struct Wrapped(Tup2<Str, FixedLen<u8>>);
    with init: pub struct WrappedInit<_>(_);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
"""
MARK = {"doc": "/// documented", "allow": "#[allow(dead_code)]", "cfg": "#[cfg(all())]", "cfg_off": "#[cfg(any())]", "deprecated": "#[deprecated]"}


def ty(t):
    return "[%s; %s]" % (t["el"], t["len"]["t"]) if t["k"] == "array" else t["t"]


def field(f):
    return "%s %s %s: %s" % (" ".join(MARK.get(m, "#[%s]" % m) + "\n" * (m == "doc") for m in f["marks"]), f["vis"], f["name"], ty(f["ty"]))


def att(a):
    return "/// documented\n" if a == "doc" else "#[%s] " % a


def item(d):
    fs = [field(f) for f in d["fields"]]
    k, body = d["kind"], ", ".join(fs)
    s = "".join(att(a) for a in d["before"]) + "#[define_varlen] " + "".join(att(a) for a in d["after"]) + d["vis"] + " "
    unnamed = ", ".join("%s %s %s" % (" ".join("#[%s]" % m for m in f["marks"]), f["vis"], ty(f["ty"])) for f in d["fields"])
    return place(d, s + {
        "named": "struct %s%s %s { %s }" % (d["sn"], d["gen"], d["wh"], body), "tuple": "struct S(%s);" % unnamed, "unit": "struct S;", "enum": "enum S { A { %s } }" % body.replace("pub(crate)", "").replace("pub", ""), "union": "union S { %s }" % body,
        "fn": "fn s() {}", "trait": "trait S {}", "impl": "impl crate::Cfg { }", "mod": "mod s2 { }", "const": "const S: u8 = 1;", "static": "static S: u8 = 1;", "type": "type S = u8;", "use": "use crate::K as S;"}[k])


def place(d, s):
    p = d["place"]
    if p == "fn":
        return "pub fn place() { %s }" % s
    if p == "const":
        return "const _: () = { %s };" % s
    if p == "shadow":
        return "pub fn place() { #[derive(Clone, Copy)] pub struct Pq { pub l: usize } type Pv = Array<u128>; %s %s }" % (s, "".join(b for _, b in d["uses"]))
    if p == "clash":
        return "use crate::clash::*; " + s
    if p == "macro":
        return ("macro_rules! mk { ($v:vis struct $s:ident { $($(#[$($a:tt)*])* $fv:vis $f:ident : $t:ty),* }) => { #[define_varlen] $v struct $s { $( $(#[$($a)*])* $fv $f: $t ),* } } }\nmk! { %s }"
                % s.replace("#[define_varlen]", ""))
    if p == "macro2":
        fs, pat, body, args = d["fields"], "", "", ""
        for i, f in enumerate(fs):
            arr = f["ty"]["k"] == "array"
            pat += " $v%d:vis $f%d:ident %s," % (i, i, "$t%d:ty, $e%d:expr" % (i, i) if arr else "$t%d:ty" % i)
            body += " %s $v%d $f%d: %s," % (" ".join("#[%s]" % m for m in f["marks"]), i, i, "[$t%d; $e%d]" % (i, i) if arr else "$t%d" % i)
            args += " %s %s %s," % (f["vis"], f["name"], "%s, %s" % (f["ty"]["el"], f["ty"]["len"]["t"]) if arr else f["ty"]["t"])
        return "macro_rules! mk { ($v:vis $s:ident,%s) => { #[define_varlen] $v struct $s {%s } } }\nmk! { %s %s,%s }" % (pat, body, d["vis"], d["sn"], args)
    return s


IN = "#[derive(Clone, Copy)] pub struct Pq { pub %s: usize } pub type Pv = varlen::prelude::Array<u%d>; pub const PK: usize = %d; pub const %s: usize = 7;"


def chunk(i, text):
    return "pub mod d%d { %s pub mod a { %s pub mod b { use crate::*; %s %s\n } } }" % (i, IN % ("g", 8, 2, "G"), IN % ("p", 16, 3, "P"), IN % ("o", 32, 4, "O"), text.replace("crate::d0", "crate::d%d" % i))


def run(tier, ev):
    work = os.path.join(BUILD, "work", "C19." + tier)
    comp = Compiler(work)
    deep = tier != "quick"
    todo, count = [], {}
    fams = FAMILIES + ["random"]
    got = comp.map(lambda f: cases("MacroAccept", work, f, n=(6000 if deep else 500) if f == "random" else 0, seed=SEED), fams)
    seen = set()
    for f, cs in zip(fams, got):
        for c in cs:
            t = item(c["d"])
            use = "pub fn _use(s: &S) -> usize { let _ = s.refs(); <S as VarLen>::ALIGN }".replace("S)", c["d"]["sn"] + ")").replace("<S ", "<%s " % c["d"]["sn"]) if not c["d"]["gen"] and c["d"]["place"] not in ("fn", "const") else ""
            if (t, c["accept"]) in seen:
                continue
            seen.add((t, c["accept"]))
            if c["accept"]:
                for good, bad in c["kept"]:
                    use += "const _: () = { %s };" % good if good else ""
                    if bad:
                        todo.append(dict(text=t + "\n" + bad, accept=False, what=t + " is used without complaint", label="kept", k=f))
                todo.append(dict(text=t + "\n" + use, accept=True, what=t, label="accept", k=f))
            else:
                todo.append(dict(text=t, accept=False, what=t, label="reject", k=f))
            count[f] = count.get(f, 0) + 1
    note("%d definitions" % len(todo))
    bad = comp.judge(todo, PRELUDE, chunk)
    note("%d compilations" % comp.runs)
    ev["coverage"].update(states=len(todo), transitions=len(todo), traces_validated_against_impl=len(todo), accepted=sum(c["accept"] for c in todo), rejected=sum(not c["accept"] for c in todo),
                          families=count, compilations=comp.runs, samples=[c["what"] for c in todo[::max(1, len(todo) // 6)]][:6])
    return [dict(label=c["label"], ev=dict(k=c["k"], what=" ".join(c["what"].split()), errors=[e[0] for e in errs][:3]), script=[PRELUDE + chunk(0, c["text"])], key=" ".join(c["what"].split())) for c, errs in bad]


SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
