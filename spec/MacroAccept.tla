---------------------------- MODULE MacroAccept ----------------------------
(* Definitions given to #[define_varlen] and whether they must be accepted. *)
(* A definition is                                                          *)
(*   [kind, vis, before, after, fields, gen, wh, sn, place, uses]           *)
(*   fields[i]: [name, marks, ty, vis]                                      *)
(* kind: "named" or some other item. before / after: attributes written     *)
(* before / after the macro's own. gen, wh: generics, where clause. sn: the *)
(* struct's name. place: where the definition stands: in a module, in a     *)
(* function body, in a constant, or behind a declarative macro which passes *)
(* the types on as a whole (macro) or in parts (macro2). uses: pairs of     *)
(* code that must compile with the definition and code that must not.      *)
(*  marks: attributes of the field, in       *)
(* order; the recognised markers are "varlen", "varlen_array" and           *)
(* "controls_layout". ty: [k |-> "val" | "vl" | "unsized", t |-> text] or   *)
(* [k |-> "array", el |-> text, len |-> expression]. An expression lists    *)
(* the fields it uses and says whether, given those as controlling fields   *)
(* of the right type, it is a constant expression of type usize.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Markers == {"varlen", "varlen_array", "controls_layout"}
Supported == {"", "pub", "pub(crate)", "pub(super)", "pub(self)"}
Unsupported == {"pub(in super::super)", "pub(in crate::d0)", "pub(in crate::d0::a)"}

Val(t) == [k |-> "val", t |-> t]
VL(t) == [k |-> "vl", t |-> t]
Arr(el, len) == [k |-> "array", el |-> el, len |-> len]

\* Controlling fields that lengths refer to, with their types.
CtlTy == [n |-> "usize", m |-> "u8", p |-> "(usize, u16)", c |-> "Cfg", b |-> "bool", s |-> "&'static str", a |-> "[usize; 3]"]

X(t, uses, good) == [t |-> t, uses |-> uses, good |-> good]
GoodExprs == {
  X("*n", {"n"}, TRUE), X("*m as usize", {"m"}, TRUE), X("(*m) as usize", {"m"}, TRUE),
  X("*n + 1", {"n"}, TRUE), X("(*n) / 2", {"n"}, TRUE), X("*n * *n", {"n"}, TRUE),
  X("*n + *m as usize", {"n", "m"}, TRUE), X("2 * (*n) + 3 * (*m as usize)", {"n", "m"}, TRUE),
  X("3", {}, TRUE), X("0", {}, TRUE), X("K", {}, TRUE), X("crate::K", {}, TRUE), X("K + *n", {"n"}, TRUE),
  X("cf(*n)", {"n"}, TRUE), X("cf(*n + K)", {"n"}, TRUE), X("crate::cf(3)", {}, TRUE),
  X("if *n > 3 { 3 } else { *n }", {"n"}, TRUE), X("if *b { 1 } else { 0 }", {"b"}, TRUE), X("*b as usize", {"b"}, TRUE),
  X("match *m { 0 => 1, x => x as usize }", {"m"}, TRUE), X("{ let x = *n; x + 1 }", {"n"}, TRUE),
  X("{ let mut x = 0; while x < *n { x += 2; } x }", {"n"}, TRUE),
  X("p.0", {"p"}, TRUE), X("p.0 + p.1 as usize", {"p"}, TRUE), X("c.len", {"c"}, TRUE), X("c.get()", {"c"}, TRUE), X("c.get() + *n", {"c", "n"}, TRUE),
  X("s.len()", {"s"}, TRUE), X("a[0] + a[1]", {"a"}, TRUE), X("a.len()", {"a"}, TRUE),
  X("n.count_ones() as usize", {"n"}, TRUE), X("(*n).saturating_sub(1)", {"n"}, TRUE), X("n.wrapping_add(1)", {"n"}, TRUE),
  X("core::mem::size_of::<u32>()", {}, TRUE), X("usize::MAX & *n", {"n"}, TRUE), X("MODE as usize", {}, TRUE) }
BadExprs == {
  X("ncf(*n)", {"n"}, FALSE), X("ncf(3)", {}, FALSE), X("crate::ncf(*n + 1)", {"n"}, FALSE),
  X("nowhere", {}, FALSE), X("*nowhere", {}, FALSE), X("nowhere(*n)", {"n"}, FALSE), X("self.n", {"n"}, FALSE), X("*self.n", {"n"}, FALSE),
  X("c.noget()", {"c"}, FALSE), X("String::from(*s).len()", {"s"}, FALSE), X("vec![1, 2].len() + *n", {"n"}, FALSE),
  X("STATIC_MUT_LIKE.load(core::sync::atomic::Ordering::SeqCst)", {}, FALSE),
  X("*n as u32", {"n"}, FALSE), X("*m", {"m"}, FALSE), X("n", {"n"}, FALSE), X("\"x\"", {}, FALSE), X("-1", {}, FALSE), X("*b", {"b"}, FALSE),
  X("*k", {"k"}, FALSE), X("k", {"k"}, FALSE), X("*n + *k", {"n", "k"}, FALSE), X("cf(*k)", {"k"}, FALSE),
  X("w.len()", {"w"}, FALSE), X("y.len()", {"y"}, FALSE), X("if *n > 3 { *k } else { 0 }", {"n", "k"}, FALSE) }
Exprs == GoodExprs \cup BadExprs

ValTypes == {Val(t) : t \in {"u8", "usize", "String", "&'static str", "fn(u8) -> u8", "(u8, String)", "Option<Box<dyn Fn(u8) -> u8>>", "core::marker::PhantomData<u8>",
                             "crate::Cfg", "()", "Vec<Vec<u8>>", "std::rc::Rc<core::cell::Cell<u8>>", "*const u8", "VBox<Str>", "Seq<Str>", "core::pin::Pin<Box<u8>>", "<u8 as crate::HasTy>::Ty"}}
VLTypes == {VL(t) : t \in {"Str", "Str<u8>", "Array<u8>", "Array<String, u16>", "varlen::array::Array<(), u8>", "FixedLen<String>", "Tup2<Str, Array<u16>>", "Other", "crate::Other", "<u16 as crate::HasTy>::Ty",
                           "Tup2<Tup2<Str, FixedLen<u8>>, Other>", "Wrapped"}}
BadTypes == {[k |-> "unsized", t |-> t] : t \in {"str", "[u8]", "dyn Fn()"}} \cup {[k |-> "unknown", t |-> "Nowhere"]}
Elems == {"u8", "u16", "String", "(u8, u64)", "[u8; 4]", "Option<Box<u8>>", "()", "[[u16; 2]; 2]", "crate::Cfg", "&'static str", "VBox<Str>"}

---------------------------------------------------------------------------
Marks(f) == {i \in 1..Len(f.marks) : f.marks[i] \in Markers}
MarkOf(f) == IF Marks(f) = {} THEN "" ELSE f.marks[CHOOSE i \in Marks(f) : TRUE]

\* Names usable in lengths: the controlling fields.
Controlling(d) == {d.fields[i].name : i \in {j \in 1..Len(d.fields) : MarkOf(d.fields[j]) = "controls_layout"}}

LengthOk(d, x) == x.good /\ x.uses \subseteq Controlling(d)

FieldOk(d, f) ==
  /\ Cardinality(Marks(f)) <= 1
  /\ f.vis \in Supported
  /\ CASE MarkOf(f) = "varlen_array" -> f.ty.k = "array" /\ (f.ty.el \notin {"str", "Nowhere", "T"} \/ (f.ty.el = "T" /\ d.gen # "")) /\ LengthOk(d, f.ty.len)
       [] MarkOf(f) = "varlen" -> f.ty.k = "vl"
       [] OTHER -> \/ f.ty.k \in {"val", "vl"}
                   \* an ordinary field of array type: its length is an ordinary constant
                   \/ f.ty.k = "array" /\ f.ty.len.good /\ f.ty.len.uses = {}

Accepts(d) ==
  /\ d.kind = "named"
  /\ d.place # "shadow"
  /\ d.vis \in Supported
  /\ \A i \in 1..Len(d.fields) : FieldOk(d, d.fields[i])

---------------------------------------------------------------------------
(* Enumeration.                                                            *)
F(name, marks, ty, vis) == [name |-> name, marks |-> marks, ty |-> ty, vis |-> vis]
D(kind, vis, before, after, fields) == [kind |-> kind, vis |-> vis, before |-> before, after |-> after, fields |-> fields, gen |-> "", wh |-> "", sn |-> "S", place |-> "module", uses |-> <<>>]
Ctl(c) == F(c, <<"controls_layout">>, Val(CtlTy[c]), "")
Star == X("*n", {"n"}, TRUE)
Good == <<Ctl("n"), F("k", <<>>, Val("usize"), "pub"), F("x", <<"varlen_array">>, Arr("u8", Star), ""), F("w", <<"varlen">>, VL("Str"), "pub(crate)")>>
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
CtlNames == {"n", "m", "p", "c", "b", "s", "a"}
\* the context a length needs: its fields as controlling ones, others ordinary
Context(x) == SetToSeq({Ctl(u) : u \in x.uses \cap CtlNames}) \o
              (IF "k" \in x.uses THEN <<F("k", <<>>, Val("usize"), "")>> ELSE <<>>) \o
              (IF "w" \in x.uses THEN <<F("w", <<"varlen">>, VL("Str"), "")>> ELSE <<>>) \o
              (IF "y" \in x.uses THEN <<F("y", <<"varlen_array">>, Arr("u8", X("3", {}, TRUE)), "")>> ELSE <<>>)

MarkSeqs == {<<>>} \cup [1..1 -> Markers] \cup [1..2 -> Markers] \cup
            {<<"varlen", "varlen_array", "controls_layout">>, <<"varlen_array", "varlen_array", "varlen_array">>, <<"controls_layout", "doc", "varlen_array">>, <<"allow", "varlen_array", "doc">>,
             <<"doc", "varlen">>, <<"varlen", "allow", "varlen">>, <<"cfg", "controls_layout">>, <<"varlen_array", "cfg">>, <<"doc">>, <<"allow">>, <<"cfg">>, <<"varlen", "doc", "controls_layout">>, <<"deprecated", "varlen_array">>}
FocusTypes == {Val("u8"), VL("Str"), VL("Other"), Arr("u8", Star), Arr("String", X("3", {}, TRUE)), Val("Vec<u8>"), Val("(u8,)"), Val("&'static [u8]")} \cup BadTypes

Kinds == {D(k, v, <<>>, <<>>, fs) : k \in {"named", "tuple", "unit", "enum", "union", "fn", "trait", "impl", "mod", "const", "static", "type", "use"}, v \in {"", "pub"}, fs \in {Good, <<F("k", <<>>, Val("u8"), "")>>}}
Focus == UNION {{D("named", "pub", <<>>, <<>>, <<Ctl("n"), F("f", m, t, "")>>), D("named", "pub", <<>>, <<>>, <<F("f", m, t, "pub")>> \o Good)} : m \in MarkSeqs, t \in FocusTypes}
Lengths == UNION {{D("named", "pub", <<>>, <<>>, Context(x) \o <<F("f", <<"varlen_array">>, Arr("u16", x), "")>>),
                   D("named", "pub", <<>>, <<>>, <<F("f", <<"varlen_array">>, Arr("u16", x), ""), F("g", <<"varlen">>, VL("Str"), "")>> \o Context(x)),
                   \* the same with a field that should control only stored
                   D("named", "pub", <<>>, <<>>, [i \in 1..Len(Context(x)) |-> [Context(x)[i] EXCEPT !.marks = IF i = 1 /\ @ = <<"controls_layout">> THEN <<>> ELSE @]]
                                                 \o <<F("f", <<"varlen_array">>, Arr("u16", x), "")>>)} : x \in Exprs}
Vis == UNION {{D("named", tv, <<>>, <<>>, [Good EXCEPT ![i].vis = fv]) : i \in 1..4} : tv \in Supported \cup Unsupported, fv \in Supported \cup Unsupported}
Types == {D("named", "pub", <<>>, <<>>, <<F("f", <<>>, t, ""), Ctl("n"), F("x", <<"varlen_array">>, Arr("u8", Star), "")>>) : t \in ValTypes \cup VLTypes \cup BadTypes}
         \cup {D("named", "pub", <<>>, <<>>, <<F("g", <<"varlen">>, VL("Str"), ""), F("f", <<"varlen">>, t, "")>>) : t \in ValTypes \cup VLTypes \cup BadTypes}
         \cup {D("named", "pub", <<>>, <<>>, <<Ctl("n"), F("f", <<"varlen_array">>, Arr(e, Star), "")>>) : e \in Elems \cup {"str", "Nowhere"}}
\* What shows that an attribute of the type was kept: code that must compile with it, and code that must not.
Kept(a) ==
  CASE a = "repr(C)" -> <<"const _: () = assert!(core::mem::size_of::<S>() == 32);", "">>
    [] a = "repr(align(64))" -> <<"const _: () = assert!(core::mem::align_of::<S>() == 64 && <S as VarLen>::ALIGN == 64);", "">>
    [] a = "repr(C, align(32))" -> <<"const _: () = assert!(core::mem::align_of::<S>() == 32 && core::mem::size_of::<S>() == 32);", "">>
    [] a = "derive(Debug)" -> <<"pub fn dbg(s: &S) -> String { format!(\"{:?}\", s) }", "">>
    [] a = "derive(PartialEq)" -> <<"pub fn eq(s: &S, t: &S) -> bool { s == t }", "">>
    [] a = "derive(Debug, PartialEq)" -> <<"pub fn eq2(s: &S, t: &S) -> bool { let _ = format!(\"{:?}\", s); s == t }", "">>
    [] a = "must_use" -> <<"", "pub fn mk() -> S { loop {} } #[deny(unused_must_use)] pub fn ig() { mk(); }">>
    [] a = "deprecated" -> <<"", "#[deny(deprecated)] pub fn ig(_: &S) {}">>
    [] OTHER -> <<"", "">>
Padded == <<F("b0", <<>>, Val("u8"), ""), Ctl("n"), F("b1", <<>>, Val("u8"), ""), F("k", <<>>, Val("usize"), ""), F("x", <<"varlen_array">>, Arr("u8", Star), ""), F("w", <<"varlen">>, VL("Str"), "")>>
Fixed == <<F("b0", <<>>, Val("u8"), "pub"), F("k", <<>>, Val("u64"), "")>>
TypeAtts == {"repr(C)", "repr(align(64))", "repr(C, align(32))", "doc", "allow(dead_code)", "must_use", "deprecated", "cfg(all())", "non_exhaustive"}
Orders(a) == {D("named", "pub", a, <<>>, <<>>), D("named", "pub", <<>>, a, <<>>)}
With(fields, as) == UNION {{[x EXCEPT !.fields = fields] : x \in Orders(a)} : a \in as}
Atts == With(Padded, {<<x>> : x \in TypeAtts} \cup {<<x, y>> : x \in {"repr(C)", "repr(align(64))"}, y \in {"doc", "allow(dead_code)", "must_use"}})
        \cup With(Fixed, {<<"derive(Debug)">>, <<"derive(Debug)", "allow(dead_code)">>, <<"derive(PartialEq)">>, <<"doc", "derive(Debug, PartialEq)">>})
Names == {"size", "layout", "lengths", "p", "p_typed", "dst", "mut_ptr", "mut_ref", "layout_controllers", "lengths_before", "lengths_after", "valid", "self_mut", "_old", "init", "f_len", "Init", "len", "offset",
          "r#type", "r#fn", "r#match", "a1", "a_1", "fooBar", "foo_bar", "Init0F", "refs", "muts", "drop", "vdrop", "x_len", "w_layout", "align", "array_len", "super_", "varlen", "core", "Self_", "T", "A", "__x"}
NameDefs == UNION {{D("named", "pub", <<>>, <<>>, <<F(nm, <<>>, Val("u32"), "pub")>> \o Good), D("named", "pub", <<>>, <<>>, Good \o <<F(nm, <<"varlen">>, VL("Str"), "")>>),
                    D("named", "pub", <<>>, <<>>, <<F(nm, <<"varlen_array">>, Arr("u8", Star), "")>> \o Good), D("named", "pub", <<>>, <<>>, Good \o <<F(nm, <<"controls_layout">>, Val("u32"), "")>>)} : nm \in Names}
Long == {D("named", "pub", <<>>, <<>>, <<Ctl("n")>> \o [i \in 1..k |-> CASE i % 4 = 0 -> F("f" \o ToString(i), <<>>, Val("u8"), "") [] i % 4 = 1 -> F("f" \o ToString(i), <<"varlen_array">>, Arr("u16", Star), "pub")
             [] i % 4 = 2 -> F("f" \o ToString(i), <<"varlen">>, VL("Str"), "") [] OTHER -> F("f" \o ToString(i), <<"controls_layout">>, Val("u32"), "pub")]) : k \in {0, 1, 2, 3, 5, 8, 13, 24, 40}}
G(gen, wh, fields) == [D("named", "pub", <<>>, <<>>, fields) EXCEPT !.gen = gen, !.wh = wh]
ArrN(el) == F("x", <<"varlen_array">>, Arr(el, Star), "")
Generic == {
  G("<T: VarLen = Str>", "", <<F("w", <<"varlen">>, VL("T"), "")>>),
  G("<T: VarLen = Str>", "", <<Ctl("n"), F("w", <<"varlen">>, VL("Tup2<T, Str>"), ""), ArrN("u8")>>),
  G("<T: VarLen = Str, U: VarLen = Array<u8>>", "", <<F("w", <<"varlen">>, VL("T"), ""), F("u", <<"varlen">>, VL("U"), "")>>),
  G("<T: VarLen>", "", <<F("w", <<"varlen">>, VL("T"), "")>>),
  G("<T: VarLen>", "", <<Ctl("n"), F("w", <<"varlen">>, VL("T"), ""), ArrN("u8"), F("u", <<"varlen">>, VL("Tup2<T, Str>"), "pub")>>),
  G("<T: VarLen, U: VarLen>", "", <<F("w", <<"varlen">>, VL("Tup2<U, T>"), ""), F("k", <<>>, Val("String"), "")>>),
  G("<T>", "where T: VarLen + Clone", <<F("w", <<"varlen">>, VL("T"), "")>>),
  G("<T>", "", <<F("k", <<>>, Val("T"), "")>>),
  G("<T>", "", <<Ctl("n"), ArrN("T")>>),
  G("<T: Copy = u8>", "", <<Ctl("n"), ArrN("T"), F("w", <<"varlen">>, VL("Str"), "")>>),
  G("<const N: usize>", "", <<Ctl("n"), ArrN("u8")>>),
  G("<'z>", "", <<F("k", <<>>, Val("&'z u8"), "")>>),
  G("<T = u8>", "where T: Copy", <<F("k", <<>>, Val("T"), "")>>) }
CfgOff == {D("named", "pub", <<>>, <<>>, <<F("off", <<"cfg_off">>, Val("u8"), "")>> \o Good)}
Empty == {D("named", v, <<>>, <<>>, <<>>) : v \in Supported \cup Unsupported}

\* Names of the struct.
StructNames == {"Async", "Await", "Dyn", "Try", "Super", "Crate", "Self_", "r#Struct", "r#Type", "Type", "Match", "Static", "Init", "Refs", "Muts", "LayoutControllers", "VarLenLayout", "Lengths", "Core",
                "Std", "Alloc", "T1", "ABTest", "HTTPServer", "X", "Union", "Auto", "Default", "Impl", "Use", "Fn", "Box_", "ArrayN", "FooBar2Baz", "Drop_", "Xe", "P"}
StructDefs == {[D("named", v, <<>>, <<>>, fs) EXCEPT !.sn = nm] : nm \in StructNames, v \in {"", "pub(crate)"}, fs \in {Good, <<F("k", <<>>, Val("u8"), "")>>}}

\* Places. What a definition means does not depend on its place, except that it must have fields where the macro needs one.
Places == {"fn", "const", "macro", "macro2"}
PlaceDefs == UNION {{[x EXCEPT !.place = pl] : x \in {D("named", v, <<>>, <<>>, [Good EXCEPT ![i].vis = fv]) : v \in Supported, i \in 1..4, fv \in Supported}
                      \cup {D("named", "pub", <<>>, <<>>, <<Ctl("n"), F("f", m, t, "")>>) : m \in {<<>>} \cup [1..1 -> Markers] \cup [1..2 -> Markers], t \in FocusTypes}
                      \cup {D("named", "pub", <<>>, <<>>, Context(x) \o <<F("f", <<"varlen_array">>, Arr("u16", x), "")>>) : x \in {y \in Exprs : y.t \in {"*n", "*n + *m as usize", "3", "crate::cf(3)", "c.get()", "*nowhere", "ncf(*n)", "*m", "*k"}}}}
                      : pl \in Places}

\* Paths. Each of the modules crate, super::super, super and the definition's own has types Pq (a struct with a field r, g, p or o),
\* Pv (a variable-length type), and constants Pk and R, G, P or O; modules further in see those further out only by path.
Quals == {"", "self::", "super::", "super::super::", "crate::"}
Home(q) == CASE q \in {"", "self::"} -> "o" [] q = "super::" -> "p" [] q = "super::super::" -> "g" [] q = "crate::" -> "r"
See(q, use(_)) == LET f[qs \in SUBSET Quals] == IF qs = {} THEN <<>> ELSE LET q2 == CHOOSE x \in qs : TRUE IN
                        <<IF Home(q2) = Home(q) THEN <<use(q2), "">> ELSE <<"", use(q2)>>>> \o f[qs \ {q2}] IN f[Quals]
PlainRef(q) == "pub fn pr(s: &S) -> &" \o q \o "Pq { s.refs().f }"
PlainMut(q) == "pub fn pm(s: core::pin::Pin<&mut S>) -> &mut " \o q \o "Pq { s.muts().f }"
CtlRef(q) == "pub fn pr(s: &S) -> &" \o q \o "Pq { s.refs().f }"
CtlSet(q) == "pub fn ps(s: core::pin::Pin<&mut S>, f: " \o q \o "Pq) { let _ = s.try_set_layout_controllers(s::LayoutControllers { f, n: 3 }); }"
ArrRef(q) == "pub fn pr(s: &S) -> &[" \o q \o "Pq] { s.refs().f }"
ArrMut(q) == "pub fn pm(s: core::pin::Pin<&mut S>) -> &mut [" \o q \o "Pq] { s.muts().f }"
ArrInit(q) == "pub fn pi(i: [" \o q \o "Pq; 3]) -> VBox<S> { VBox::new(s::Init { n: 3, f: varlen::array_init::MoveFrom(i) }) }"
SubRef(q) == "pub fn pr(s: &S) -> &" \o q \o "Pv { s.refs().f }"
SubMut(q) == "pub fn pm(s: core::pin::Pin<&mut S>) -> core::pin::Pin<&mut " \o q \o "Pv> { s.muts().f }"
PlainInit(q) == "pub fn pi(f: " \o q \o "Pq) -> VBox<S> { VBox::new(s::Init { n: 3, f }) }"
PathDef(fs, q, u1(_), u2(_), u3(_)) == [D("named", "pub", <<>>, <<>>, <<Ctl("n")>> \o fs) EXCEPT !.uses = See(q, u1) \o See(q, u2) \o See(q, u3)]
PathDefs == UNION {{
    PathDef(<<F("f", <<>>, Val(q \o "Pq"), "pub")>>, q, PlainRef, PlainMut, PlainInit),
    PathDef(<<F("f", <<"controls_layout">>, Val(q \o "Pq"), "pub")>>, q, CtlRef, CtlSet, CtlRef),
    PathDef(<<F("f", <<"varlen_array">>, Arr(q \o "Pq", Star), "pub")>>, q, ArrRef, ArrMut, ArrRef),
    PathDef(<<F("f", <<"varlen_array">>, Arr(q \o "Pq", X("3", {}, TRUE)), "pub")>>, q, ArrRef, ArrMut, ArrInit),
    PathDef(<<F("f", <<"varlen">>, VL(q \o "Pv"), "pub")>>, q, SubRef, SubMut, SubRef) } : q \in Quals}
\* a length by path, and a length using a field which only one of the types of that name has
Where == [r |-> "R", g |-> "G", p |-> "P", o |-> "O"]
PathLens == {D("named", "pub", <<>>, <<>>, <<Ctl("n"), F("f", <<"varlen_array">>, Arr("u8", X(q \o Where[w], {}, Home(q) = w \/ (w = "r" /\ Home(q) = "o"))), "")>>) : q \in Quals, w \in DOMAIN Where}
            \cup {D("named", "pub", <<>>, <<>>, <<Ctl("n"), F("f", <<"controls_layout">>, Val(q \o "Pq"), ""), F("x", <<"varlen_array">>, Arr("u8", X("f." \o l, {}, Home(q) = l)), "")>>) : q \in Quals, l \in DOMAIN Where}
\* Two types of one name, in the module and in a function body with the definition. Accepted or not, none may be taken for the other.
Shadow(f, use(_)) == [D("named", "pub", <<>>, <<>>, <<Ctl("n"), f>>) EXCEPT !.place = "shadow", !.uses = <<<<"", use("self::")>>>>]
Shadows == {Shadow(F("f", <<>>, Val("Pq"), ""), PlainRef), Shadow(F("f", <<>>, Val("Pq"), ""), PlainMut), Shadow(F("f", <<>>, Val("Pq"), ""), PlainInit),
            Shadow(F("f", <<"controls_layout">>, Val("Pq"), ""), CtlRef), Shadow(F("f", <<"controls_layout">>, Val("Pq"), ""), CtlSet),
            Shadow(F("f", <<"varlen_array">>, Arr("Pq", Star), ""), ArrRef), Shadow(F("f", <<"varlen_array">>, Arr("Pq", Star), ""), ArrMut), Shadow(F("f", <<"varlen_array">>, Arr("Pq", Star), ""), ArrInit),
            Shadow(F("f", <<"varlen">>, VL("Pv"), ""), SubRef), Shadow(F("f", <<"varlen">>, VL("Pv"), ""), SubMut)}
\* Names that clash with generated ones.
Clashes == {[D("named", "pub", <<>>, <<>>, Good) EXCEPT !.sn = nm] : nm \in {"s", "foo_bar"}}
           \cup UNION {{D("named", "pub", <<>>, <<>>, <<F("f", <<>>, Val("clash::" \o nm), "")>>), [D("named", "pub", <<>>, <<>>, <<F("f", <<>>, Val(nm), "")>>) EXCEPT !.place = "clash"],
                        [D("named", "pub", <<>>, <<>>, <<F("f", <<"controls_layout">>, Val(nm), "")>>) EXCEPT !.place = "clash"],
                        [D("named", "pub", <<>>, <<>>, <<F("f", <<"varlen_array">>, Arr(nm, X("3", {}, TRUE)), "")>>) EXCEPT !.place = "clash"]} : nm \in {"Init", "Refs", "Muts", "LayoutControllers", "VarLenLayout"}}
           \cup {D("named", "pub", <<>>, <<>>, <<F("f", <<>>, Val("core::marker::PhantomData<Self>"), "")>>)}

Family == IOEnv.FAMILY
All == CASE Family = "kinds" -> Kinds [] Family = "focus" -> Focus [] Family = "lengths" -> Lengths [] Family = "vis" -> Vis
         [] Family = "types" -> Types [] Family = "atts" -> Atts [] Family = "names" -> NameDefs [] Family = "long" -> Long [] Family = "empty" -> Empty
         [] Family = "generic" -> Generic [] Family = "cfg" -> CfgOff [] Family = "structs" -> StructDefs [] Family = "places" -> PlaceDefs [] Family = "paths" -> PathDefs \cup PathLens \cup Shadows [] Family = "clashes" -> Clashes [] OTHER -> {}

(* Definitions assembled field by field, for simulation.                   *)
VARIABLES d, done
vars == <<d, done>>
Init == IF Family = "random" THEN d = D("named", "pub", <<>>, <<>>, <<>>) /\ done = FALSE ELSE d \in All /\ done = TRUE

Has(nm) == \E i \in 1..Len(d.fields) : d.fields[i].name = nm
Add(f) == d' = [d EXCEPT !.fields = Append(@, f)] /\ done' = FALSE
Pick(s) == RandomElement(s)
AddControl == \E c \in CtlNames : ~Has(c) /\ Add(F(c, <<"controls_layout">>, Val(CtlTy[c]), Pick(Supported)))
AddArray == \E nm \in {"x", "y", "z"} : ~Has(nm) /\ Add(F(nm, <<"varlen_array">>, Arr(Pick(Elems), Pick(GoodExprs)), Pick(Supported)))
AddSub == \E nm \in {"w", "u"} : ~Has(nm) /\ Add(F(nm, <<"varlen">>, Pick(VLTypes), Pick(Supported)))
AddPlain == \E nm \in {"k", "l"} : ~Has(nm) /\ Add(F(nm, Pick({<<>>, <<"doc">>, <<"allow">>, <<"cfg">>}), IF nm = "k" THEN Val("usize") ELSE Pick(ValTypes), Pick(Supported)))
AddOdd == \E nm \in {"o"} : ~Has(nm) /\ Add(F(nm, Pick(MarkSeqs), Pick(FocusTypes \cup {Arr(Pick(Elems), Pick(Exprs))}), Pick(Supported \cup Supported \cup Unsupported)))
Turn == \E v \in {Pick(Supported)} : d' = [d EXCEPT !.vis = v] /\ done' = TRUE
Next == /\ ~done
        /\ \/ Len(d.fields) < 7 /\ (AddControl \/ AddArray \/ AddSub \/ AddPlain \/ AddOdd)
           \/ Len(d.fields) > 1 /\ Turn
Spec == Init /\ [][Next]_vars
Show == done => PrintT(<<"CASE", ToJson([d |-> d, accept |-> Accepts(d), kept |-> [i \in 1..Len(d.before \o d.after) |-> Kept((d.before \o d.after)[i])] \o d.uses])>>)
===========================================================================
