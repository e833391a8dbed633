"""C20: who may mention what, enumerated from spec/Visibility.tla, given to the compiler."""
import os
from common import *
from compiles import Compiler, cases

FAMILIES = ["names", "fields", "literals", "mixed", "forbidden"]
DEEP = FAMILIES + ["mixedfields"]
PIN = "core::pin::Pin"
BOX = "varlen::prelude::VBox"
DEF = """use varlen::prelude::*;
#[define_varlen] %(ty)s struct S {
    #[controls_layout] %(n)s n: usize, %(k)s k: u32,
    %(X)s
    %(W)s #[controls_layout] %(m)s m: u8 }
"""
ON = {"s": "pub fn u(s: &P::S) { %s }", "p": "pub fn u(mut s: PIN<&mut P::S>) { %s }", "b": "pub fn u(mut b: BOX<P::S>) { %s }", "": "pub fn u() { %s }",
      "pp": "pub fn u(mut s: PIN<&mut P::S>, mut t: PIN<&mut P::S>) { %s }", "bb": "pub fn u(mut s: BOX<P::S>, mut t: BOX<P::S>) { %s }",
      "i": "pub fn u<A, B>(i: P::s::Init<A, B>) { %s }", "c": "pub fn u(s: PIN<&mut P::S>, c: P::s::LayoutControllers) { %s }"}
INIT = "P::s::Init { n: 1, k: 2, x: %s, w: %s, m: 1 }"
PROBES = {
    "type": ON["s"] % "", "module": "use P::s as m1;", "Init": "use P::s::Init as m1;", "Refs": "use P::s::Refs as m1;", "Muts": "use P::s::Muts as m1;",
    "LayoutControllers": "use P::s::LayoutControllers as m1;", "VarLenLayout": "use P::s::VarLenLayout as m1;",
    "call_refs": ON["s"] % "let _ = s.refs();", "call_muts": ON["p"] % "let _ = s.muts();", "call_set": ON["c"] % "let _ = s.try_set_layout_controllers(c);",
    "as_VarLen": "pub const A: usize = <P::S as varlen::VarLen>::ALIGN;",
    "on_struct": ON["s"] % "let _ = &s.F;", "on_mut_struct": ON["b"] % "let _ = &b.F;", "on_refs": ON["s"] % "let _ = s.refs().F;", "on_muts": ON["p"] % "let _ = s.muts().F;",
    "on_init": ON["i"] % "let _ = i.F;", "pattern_refs": ON["s"] % "let P::s::Refs { F: _q, .. } = s.refs();", "pattern_muts": ON["p"] % "let P::s::Muts { F: _q, .. } = s.muts();",
    "init_literal": ON[""] % ("let _ = " + INIT % ("3", "4") + ";"),
    "new": ON[""] % ("let _: BOX<P::S> = BOX::new(" + INIT % ("varlen::array_init::FillWithDefault", "varlen::prelude::Str::copy(\"w\")") + ");"),
    "controllers_literal": ON[""] % "let _ = P::s::LayoutControllers { n: 1, m: 2 };",
    "pattern_all_refs": ON["s"] % "let P::s::Refs { n: _a, k: _b, x: _c, w: _d, m: _e } = s.refs();",
    # nobody may
    "set_ctl_direct": ON["p"] % "s.n = 5;", "set_ctl_get_mut": ON["p"] % "s.get_mut().n = 5;", "set_ctl_muts": ON["p"] % "*s.muts().n = 5;", "set_ctl_refs": ON["s"] % "*s.refs().n = 5;",
    "set_ctl_box": ON["b"] % "b.n = 5;", "set_ctl_as_mut": ON["b"] % "b.as_mut().n = 5;", "set_plain_refs": ON["s"] % "*s.refs().k = 5;", "set_elem_refs": ON["s"] % "s.refs().x[0] = 5;",
    "marker_content": ON["s"] % "let _ = &s.x.1;", "marker_made": ON[""] % "let _ = varlen::marker::ArrayMarker::<u8>::new_unchecked();", "marker_moved": ON["b"] % "let _m = b.x;",
    "literal": ON[""] % "let _ = P::S { n: 1, k: 2, m: 1 };", "literal_update": ON["b"] % "let _ = P::S { n: 5, ..*b };",
    "swap_markers": ON["bb"] % "core::mem::swap(&mut s.x, &mut t.x);", "swap_ctl": ON["pp"] % "core::mem::swap(&mut s.n, &mut t.n);",
    "sub_get_mut": ON["p"] % "let _ = s.muts().w.get_mut();", "sub_assign": ON["pp"] % "*s.muts().w = *t.muts().w;", "sub_head_swap": ON["pp"] % "core::mem::swap(&mut *s.muts().w, &mut *t.muts().w);",
    "array_shorten": ON["p"] % "let x: &mut [u8] = s.muts().x; *x = [];", "str_bytes": ON["p"] % "s.muts().w.mut_slice().as_bytes_mut()[0] = 255;", "arr_len_write": ON["p"] % "s.muts().w.0.len = 5;",
}
WRITE = {"plain": "*s.muts().F = 5;", "array": "s.muts().F[0] = 5;", "sub": "s.muts().F.mut_slice();"}


def probe(c, path):
    if c["pr"] == "write_through_muts":
        t = ON["p"] % WRITE[c["field"]["kind"]]
    else:
        t = PROBES[c["pr"]]
    t = t.replace("PIN", PIN).replace("BOX", BOX).replace("P::", path + "::")
    return "const _: () = { %s };" % t.replace(".F", "." + c["field"]["f"]).replace("F: _q", c["field"]["f"] + ": _q")


def definition(d):
    x = "" if d["shape"] == "sub" else "#[varlen_array] %s x: [u8; *n + *m as usize]," % d["fv"][2]
    w = "" if d["shape"] == "array" else "#[varlen] %s w: Str," % d["fv"][3]
    return DEF % dict(zip(["n", "k", "x", "w", "m"], d["fv"]), ty=d["ty"], X=x, W=w)


def inside(i, text):
    """text: a case."""
    at = {text["at"]: probe(text, "crate::d%d::a::b" % i)}
    return ("pub mod d%d { %s pub mod t { %s } pub mod a { %s pub mod s { %s } pub mod b { %s %s pub mod c { %s pub mod e { %s } } } } } %s pub mod o%d { %s }"
            % (i, at.get("grandparent", ""), at.get("uncle", ""), at.get("parent", ""), at.get("sibling", ""), definition(text["def"]), at.get("same", ""), at.get("child", ""), at.get("grandchild", ""),
               at.get("root", ""), i, at.get("elsewhere", "")))


def run(tier, ev):
    work = os.path.join(BUILD, "work", "C20." + tier)
    comp = Compiler(work)
    fams = FAMILIES if tier == "quick" else DEEP
    todo, count = [], {}
    for f, cs in zip(fams, comp.map(lambda f: cases("Visibility", work, f), fams)):
        count[f] = len(cs)
        todo += [dict(text=c, accept=c["accept"], k=f) for c in cs]
    note("%d programs" % len(todo))
    # one crate has every definition, for the programs of another crate
    defs = {}
    for c in todo:
        defs.setdefault(definition(c["text"]["def"]), len(defs))
    place = lambda n, d: "pub mod d%d { pub mod a { pub mod b { %s } } }\n" % (n, d)
    wrong = comp.judge([dict(text=d, accept=True) for d in defs], "", place, batch=20)
    drop = {c["text"] for c, _ in wrong}
    lib = "".join(place(n, d) for d, n in defs.items() if d not in drop)
    ok, errs = comp.one(lib, keep=True, crate="defs")
    bad = []
    if not ok and not wrong:
        raise NoAnswer("the definitions do not compile together: " + str(errs[:3]))
    todo = [c for c in todo if definition(c["text"]["def"]) not in drop and (ok or c["text"]["at"] != "outside")]

    def outside(i, text):
        return "pub mod p%d { %s }" % (i, probe(text, "defs::d%d::a::b" % defs[definition(text["def"])]))
    out = [c for c in todo if c["text"]["at"] == "outside"]
    bad += comp.judge([c for c in todo if c["text"]["at"] != "outside"], "", inside, batch=100)
    bad += comp.judge(out, "", outside, extra=["--extern", "defs=" + os.path.join(comp.dir, "libdefs.rmeta")], batch=100)
    note("%d compilations" % comp.runs)
    say = lambda c: "%s %s from %s: %s" % (c["text"]["pr"], c["text"]["field"]["f"], c["text"]["at"], " ".join(definition(c["text"]["def"]).split()))
    ev["coverage"].update(states=len(todo), transitions=len(todo), traces_validated_against_impl=len(todo), accepted=sum(c["accept"] for c in todo), rejected=sum(not c["accept"] for c in todo),
                          families=count, definitions=len(defs), compilations=comp.runs, samples=[say(c) for c in todo[::max(1, len(todo) // 6)]][:6])
    refused = [dict(label="definition", ev=dict(k="definition", what=c["text"], errors=[e[0] for e in errs][:3]), script=[place(0, c["text"])], key=" ".join(c["text"].split())) for c, errs in wrong]
    return refused + [dict(label="accept" if c["accept"] else "reject", ev=dict(k=c["text"]["pr"], what=say(c), errors=[e[0] for e in errs][:3]),
                 script=[outside(0, c["text"]) + "\n// in crate defs:\n" + place(defs[definition(c["text"]["def"])], definition(c["text"]["def"])) if c["text"]["at"] == "outside" else inside(0, c["text"])], key=say(c)) for c, errs in bad]
