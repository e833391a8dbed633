------------------------------- MODULE Borrow -------------------------------
(* Safe programs over the borrowing and invalidating operations of all       *)
(* containers, and whether they may compile. A program declares some base    *)
(* values and then applies operations, each to one variable (perhaps with    *)
(* another as its argument), each declaring its results. A variable carries  *)
(* loans: <<variable it borrows from, "sh" | "mut", "o" | "e" (elements)>>. A use of a variable in *)
(* a way that a loan excludes is an error if the variable which carries the  *)
(* loan is still used afterwards, be it by its destructor; so is a use of a  *)
(* variable that was moved away, and a loan on something which is destroyed  *)
(* before the borrower.                                                      *)
(* A type is <<constructor, element>>.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Els == {"Str", "Arr", "Tup", "S", "N", "Fix"}   \* what containers contain
ElsR == Els \cup {"R"}                          \* R: an element which is itself a reference, to a String
VC == {"Str", "Arr", "Tup", "Fix", "R"}
VCP == {"Str", "Arr", "Tup", "R"}
Boxes == {"vbox", "owned"}
Seqs == {"seq", "iseq"}
Inits == {"vbox", "owned", "cloner", "copier", "sinit"}
CopyCons == {"ref", "slice", "str"}
NoLt == {"vbox", "seq", "iseq", "bump", "string"}   \* constructors without a lifetime of their own
Cons == {"vbox", "owned", "seq", "iseq", "bump", "string", "ref", "pin", "iter", "itermut", "elems", "refs", "muts", "slice", "mslice", "str", "mstr",
         "cloner", "copier", "sinit", "vecref", "vecpin", "vecowned", "mref"}
AnyEl == ElsR \cup {"", "u16"}

\* An operation: name, constructors and elements it applies to, how it uses its receiver (read, write, move, set), what it results in
\* (element "=": the receiver's), what the results borrow (new: the receiver, and all that it borrows from; inner: what the receiver
\* borrows from; none), and its text ($ receiver, @ argument, %1 %2 results, {init} {E}: an initializer, the type of the element).
Op(n, c, e, m, r, l, t) == [n |-> n, c |-> c, e |-> e, m |-> m, r |-> r, l |-> l, t |-> t, ac |-> {}, ae |-> "=", am |-> "", af |-> "none", d |-> ""]
\* With an argument: constructors, element, how it is used; whether the receiver (recv) or the result (res) keep what the argument borrows,
\* or the receiver borrows the argument (recvnew).
Op2(o, ac, ae, am, af) == [o EXCEPT !.ac = ac, !.ae = ae, !.am = am, !.af = af]
Pat(o, d) == [o EXCEPT !.d = d]
Same(c) == <<<<c, "=">>>>
One(c, e) == <<<<c, e>>>>

OpsGeneral == {
  Op("touch", Cons, AnyEl, "read", <<>>, "none", "touch(&$)"),
  Op("drop", Cons \ CopyCons, AnyEl, "move", <<>>, "none", "drop($)") }
  \cup {Op("move", {c}, AnyEl, "move", Same(c), "inner", "$") : c \in Cons \ CopyCons}
  \cup {Op("copy", {c}, AnyEl, "read", Same(c), "inner", "$") : c \in CopyCons}
OpsBox == {
  Op("deref", Boxes, ElsR, "read", Same("ref"), "new", "&*$"),
  Op("as_mut", Boxes, ElsR, "write", Same("pin"), "new", "$.as_mut()"),
  Op("clone", {"vbox"}, VC \ {"R"}, "read", Same("vbox"), "none", "$.clone()"),
  Op("assign", {"vbox"}, Els, "set", <<>>, "none", "$ = VBox::new({init})"),
  Op("replace", {"vbox"}, ElsR, "write", Same("vbox"), "none", "core::mem::replace(&mut $, VBox::new({init}))"),
  Op2(Op("swap", {"vbox"}, ElsR, "write", <<>>, "none", "core::mem::swap(&mut $, &mut @)"), {"vbox"}, "=", "write", "both"),
  Op("leak", {"owned"}, ElsR, "move", Same("pin"), "inner", "$.leak()"),
  Op("box", Inits, ElsR, "move", Same("vbox"), "none", "VBox::<{E}>::new($)") }
OpsSeq == {
  Op("push", Seqs, ElsR, "write", <<>>, "none", "$.push({init})"),
  Op2(Op("push_arg", Seqs, ElsR, "write", <<>>, "none", "$.push(@)"), Inits, "=", "move", "recv"),
  Op2(Op("push_ref", Seqs, {"R"}, "write", <<>>, "none", "$.push(FixedLen(&@))"), {"string"}, "", "read", "recvnew"),
  Op("extend", Seqs, ElsR, "write", <<>>, "none", "$.extend([{init}])"),
  Op2(Op("extend_iter", Seqs, VC, "write", <<>>, "none", "$.extend(@.map(|e| e.vclone()))"), {"iter"}, "=", "move", "recv"),
  Op2(Op("extend_elems", Seqs, ElsR, "write", <<>>, "none", "$.extend(@)"), {"elems"}, "=", "move", "recv"),
  Op("iter", Seqs, ElsR, "read", Same("iter"), "new", "$.iter()"),
  Op("iter_mut", Seqs, ElsR, "write", Same("itermut"), "new", "$.iter_mut()"),
  Op("take_elems", Seqs, ElsR, "write", Same("elems"), "new", "$.take_elems()"),
  Op("counts", Seqs, ElsR, "read", <<>>, "none", "$.len() + $.offset() + $.capacity_in_offsets()"),
  Op2(Op("offset_of", Seqs, ElsR, "read", <<>>, "none", "$.offset_of(@)"), {"ref"}, "=", "read", "none"),
  Op("unchecked", Seqs, ElsR, "read", Same("ref"), "new", "unsafe { $.from_offset_unchecked(0) }"),
  Op("unchecked_mut", Seqs, ElsR, "write", Same("pin"), "new", "unsafe { $.from_offset_unchecked_mut(0) }"),
  Op("from_offset", {"iseq"}, ElsR, "read", Same("ref"), "new", "$.from_offset(0)"),
  Op("from_offset_mut", {"iseq"}, ElsR, "write", Same("pin"), "new", "$.from_offset_mut(0)"),
  Op("is_offset_valid", {"iseq"}, ElsR, "read", <<>>, "none", "$.is_offset_valid(0)"),
  Op("assign", Seqs, Els, "set", <<>>, "none", "$ = Seq::new()"),
  Op2(Op("swap", {"seq"}, ElsR, "write", <<>>, "none", "core::mem::swap(&mut $, &mut @)"), {"seq"}, "=", "write", "both"),
  Op("collect_refs", Seqs, ElsR, "read", Same("vecref"), "new", "$.iter().collect::<Vec<_>>()"),
  Op("collect_muts", Seqs, ElsR, "write", Same("vecpin"), "new", "$.iter_mut().collect::<Vec<_>>()"),
  Op("collect_elems", Seqs, ElsR, "write", Same("vecowned"), "new", "$.take_elems().collect::<Vec<_>>()") }
  \cup {Op("replace", {c}, ElsR, "write", Same(c), "none", "core::mem::replace(&mut $, Seq::new())") : c \in Seqs}
OpsVec == {
  Op("index", {"vecref"}, ElsR, "read", Same("ref"), "inner", "$[0]"),
  Op("pop", {"vecref"}, ElsR, "write", Same("ref"), "inner", "$.pop().unwrap()"),
  Op("index_mut", {"vecpin"}, ElsR, "write", Same("pin"), "new", "$[0].as_mut()"),
  Op("pop", {"vecpin"}, ElsR, "write", Same("pin"), "inner", "$.pop().unwrap()"),
  Op("index", {"vecowned"}, ElsR, "read", Same("ref"), "new", "&*$[0]"),
  Op("index_mut", {"vecowned"}, ElsR, "write", Same("pin"), "new", "$[0].as_mut()"),
  Op("pop", {"vecowned"}, ElsR, "write", Same("owned"), "inner", "$.pop().unwrap()"),
  Op("clear", {"vecowned", "vecpin", "vecref"}, ElsR, "write", <<>>, "none", "$.clear()") }
OpsBump == {
  Op("reset", {"bump"}, {""}, "write", <<>>, "none", "$.reset()"),
  Op("alloc", {"bump"}, {""}, "read", <<>>, "none", "$.alloc(1u8)"),
  Op("assign", {"bump"}, {""}, "set", <<>>, "none", "$ = Bump::new()") }
  \cup {Op("new_in", {"bump"}, {""}, "read", One("owned", e), "new", "Owned::<" \o e \o "T>::new_in({init:" \o e \o "}, &$)") : e \in Els}
  \cup {Op2(Op("new_in_arg", {"bump"}, {""}, "read", One("owned", e), "new", "Owned::<" \o e \o "T>::new_in(@, &$)"), Inits, e, "move", IF e = "R" THEN "res" ELSE "none") : e \in ElsR}
OpsString == {
  Op("str_copy", {"string"}, {""}, "read", One("sinit", "Str"), "new", "Str::copy(&$)"),
  Op("str_box", {"string"}, {""}, "read", One("vbox", "Str"), "none", "VBox::<Str>::new(Str::copy(&$))"),
  Op("ref_box", {"string"}, {""}, "read", One("vbox", "R"), "elem", "VBox::new(FixedLen(&$))"),
  Op("push", {"string"}, {""}, "write", <<>>, "none", "$.push('x')"),
  Op("assign", {"string"}, {""}, "set", <<>>, "none", "$ = String::new()") }
OpsRef == {
  Op("vclone", {"ref"}, VC, "read", Same("cloner"), "inner", "$.vclone()"),
  Op("vcopy", {"ref"}, VCP, "read", Same("copier"), "inner", "$.vcopy()"),
  Op("refs", {"ref"}, {"Tup", "S"}, "read", Same("refs"), "inner", "$.refs()"),
  Op("slice", {"ref"}, {"Arr"}, "read", One("slice", "u16"), "inner", "&$[..]"),
  Op("str", {"ref"}, {"Str"}, "read", One("str", ""), "inner", "&$[..]"),
  Op("inner", {"ref"}, {"N"}, "read", One("ref", "Tup"), "inner", "$.inner()"),
  Op("field0", {"refs"}, {"Tup"}, "read", One("ref", "Str"), "inner", "$.0"),
  Op("field1", {"refs"}, {"Tup"}, "read", One("ref", "Arr"), "inner", "$.1"),
  Op("field_x", {"refs"}, {"S"}, "read", One("slice", "u16"), "inner", "$.x"),
  Op("field_w", {"refs"}, {"S"}, "read", One("ref", "Str"), "inner", "$.w"),
  Op("sub", {"slice"}, {"u16"}, "read", One("slice", "u16"), "inner", "&$[0..]"),
  Op("sub", {"str"}, {""}, "read", One("str", ""), "inner", "&$[0..]") }
OpsPin == {
  Op("as_mut", {"pin"}, ElsR, "write", Same("pin"), "new", "$.as_mut()"),
  Op("as_ref", {"pin"}, ElsR, "read", Same("ref"), "new", "$.as_ref().get_ref()"),
  Op("deref", {"pin"}, ElsR, "read", Same("ref"), "new", "&*$"),
  Op("mut_slice", {"pin"}, {"Str"}, "move", One("mstr", ""), "inner", "$.mut_slice()"),
  Op("mut_slice", {"pin"}, {"Arr"}, "move", One("mslice", "u16"), "inner", "$.mut_slice()"),
  Op("as_mut_slice", {"pin"}, {"Str"}, "write", One("mstr", ""), "new", "$.as_mut().mut_slice()"),
  Op("as_mut_slice", {"pin"}, {"Arr"}, "write", One("mslice", "u16"), "new", "$.as_mut().mut_slice()"),
  Op("muts", {"pin"}, {"Tup", "S"}, "move", Same("muts"), "inner", "$.muts()"),
  Op("as_mut_muts", {"pin"}, {"Tup", "S"}, "write", Same("muts"), "new", "$.as_mut().muts()"),
  Op("inner_mut", {"pin"}, {"N"}, "move", One("pin", "Tup"), "inner", "$.inner_mut()"),
  Op("as_mut_inner", {"pin"}, {"N"}, "write", One("pin", "Tup"), "new", "$.as_mut().inner_mut()"),
  Op("set_controllers", {"pin"}, {"S"}, "write", <<>>, "none", "$.as_mut().try_set_layout_controllers(s::LayoutControllers { n: 2 }).is_ok()"),
  Op("get_mut", {"pin"}, {"Fix"}, "move", Same("mref"), "inner", "$.get_mut()"),
  Op("reborrow", {"mref"}, {"Fix"}, "write", Same("mref"), "new", "&mut *$"),
  Pat(Op("split", {"muts"}, {"Tup"}, "move", <<<<"pin", "Str">>, <<"pin", "Arr">>>>, "inner", "$"), "let tup2::Muts(mut %1, mut %2)"),
  Pat(Op("split", {"muts"}, {"S"}, "move", <<<<"mslice", "u16">>, <<"pin", "Str">>>>, "inner", "$"), "let s::Muts { x: %1, w: mut %2, .. }"),
  Op("field0", {"muts"}, {"Tup"}, "write", One("pin", "Str"), "new", "$.0.as_mut()"),
  Op("field_w", {"muts"}, {"S"}, "write", One("pin", "Str"), "new", "$.w.as_mut()"),
  Op("reborrow", {"mslice"}, {"u16"}, "write", One("mslice", "u16"), "new", "&mut $[..]"),
  Op("reborrow", {"mstr"}, {""}, "write", One("mstr", ""), "new", "&mut $[..]"),
  Op("share", {"mslice"}, {"u16"}, "read", One("slice", "u16"), "new", "&$[..]"),
  Op("share", {"mstr"}, {""}, "read", One("str", ""), "new", "&$[..]"),
  Op("write", {"mslice"}, {"u16"}, "write", <<>>, "none", "$[0] = 1"),
  Op("write", {"mstr"}, {""}, "write", <<>>, "none", "$.make_ascii_uppercase()") }
OpsIter == {
  Op("next", {"iter"}, ElsR, "write", Same("ref"), "inner", "$.next().unwrap()"),
  Op("limited_to", {"iter"}, ElsR, "read", Same("iter"), "inner", "$.limited_to(1)"),
  Op("len", {"iter", "itermut", "elems"}, ElsR, "read", <<>>, "none", "$.len()"),
  Op("count", {"iter", "itermut", "elems"}, ElsR, "move", <<>>, "none", "$.count()"),
  Op("collect", {"iter"}, ElsR, "move", Same("vecref"), "inner", "$.collect::<Vec<_>>()"),
  Op("last", {"iter"}, ElsR, "move", Same("ref"), "inner", "$.last().unwrap()"),
  Op("to_seq", {"iter"}, VCP, "move", Same("seq"), "none", "$.map(|e| e.vcopy()).collect::<Seq<_>>()"),
  Op("next", {"itermut"}, ElsR, "write", Same("pin"), "inner", "$.next().unwrap()"),
  Op("limited_to", {"itermut"}, ElsR, "move", Same("itermut"), "inner", "$.limited_to(1)"),
  Op("collect", {"itermut"}, ElsR, "move", Same("vecpin"), "inner", "$.collect::<Vec<_>>()"),
  Op("next", {"elems"}, ElsR, "write", Same("owned"), "inner", "$.next().unwrap()"),
  Op("collect", {"elems"}, ElsR, "move", Same("vecowned"), "inner", "$.collect::<Vec<_>>()"),
  Op("to_seq", {"elems"}, ElsR, "move", Same("seq"), "none", "$.collect::<Seq<_>>()") }
Ops == OpsGeneral \cup OpsBox \cup OpsSeq \cup OpsVec \cup OpsBump \cup OpsString \cup OpsRef \cup OpsPin \cup OpsIter

---------------------------------------------------------------------------
\* Types whose destructor uses what they borrow. Whether the unnamed initializer types do is nobody's promise.
Sig(ty, odd) == \/ ty[1] \in {"owned", "elems", "vecowned"}
                \/ ty[2] = "R" /\ ty[1] \in {"vbox", "seq", "iseq"}
                \/ odd /\ ty[1] \in {"sinit"}

El(e, recv) == IF e = "=" THEN recv[2] ELSE e
Applies(o, ty) == ty[1] \in o.c /\ ty[2] \in o.e
TakesArg(o, ty, a) == a[1] \in o.ac /\ a[2] = El(o.ae, ty)
Results(o, ty) == [i \in 1..Len(o.r) |-> <<o.r[i][1], El(o.r[i][2], ty)>>]

VARIABLES base,    \* how many variables are bases
          types,   \* of the variables
          moved,   \* those moved away
          cars,    \* cars[i][v]: the loans v carries before step i; one more than steps
          prog,    \* the steps [o, v, a, res]
          bad      \* the program is wrong, up to here
vars == <<base, types, moved, cars, prog, bad>>

Accesses(s) == {<<s.v, s.o.m>>} \cup (IF s.a = 0 THEN {} ELSE {<<s.a, s.o.am>>})
Uses(s) == {x[1] : x \in {y \in Accesses(s) : y[2] # "set"}}

\* Those loans which the elements carry, and not the pointer to them.
OfElements(lns) == {ln \in lns : ln[3] = "e"}
\* What the variables carry after step s, given before.
Carried(car, s, nres, resEl) ==
  LET from == car[s.v]
      arg == IF s.a = 0 THEN {} ELSE OfElements(car[s.a])
      mode == IF s.o.m = "read" THEN "sh" ELSE "mut"
      res(i) == (CASE s.o.l = "new" -> from \cup {<<s.v, mode, "o">>}
                   [] s.o.l = "elem" -> from \cup {<<s.v, mode, "e">>}
                   [] s.o.l = "inner" -> from
                   [] OTHER -> IF resEl[i] = "R" THEN OfElements(from) ELSE {})
                \cup (IF s.o.af = "res" THEN arg ELSE {})
      isR == s.elR
      recv == CASE s.o.m = "set" -> {}
                [] s.o.af \in {"recv", "both"} /\ isR -> from \cup arg
                [] s.o.af = "recvnew" -> from \cup {<<s.a, "sh", "e">>}
                [] OTHER -> from
      argv == IF s.o.af = "both" /\ isR THEN from \cup arg ELSE car[s.a]
  IN [v \in 1..(Len(car) + nres) |-> IF v > Len(car) THEN res(v - Len(car)) ELSE IF v = s.v THEN recv ELSE IF v = s.a THEN argv ELSE car[v]]

LiveAfter(p, ts, gone, odd, u, i) ==
  \/ \E j \in (i + 1)..Len(p) : u \in Uses(p[j])
  \/ Sig(ts[u], odd) /\ u \notin gone
Conflict(p, ts, cs, gone, odd, i) ==
  \E acc \in Accesses(p[i]) : \E u \in 1..Len(cs[i]) :
    /\ u # acc[1]
    /\ \E ln \in cs[i][u] : ln[1] = acc[1] /\ (acc[2] # "read" \/ ln[2] = "mut")
    /\ LiveAfter(p, ts, gone, odd, u, i) \/ u \in Uses(p[i])
\* A loan on a variable declared later, which is therefore destroyed earlier.
Dangling(p, ts, car, gone, odd) == \E u \in 1..Len(ts) : Sig(ts[u], odd) /\ u \notin gone /\ \E ln \in car[u] : ln[1] > u /\ ln[1] \notin gone
Wrong(p, ts, cs, gone, odd) == (\E i \in 1..Len(p) : Conflict(p, ts, cs, gone, odd, i)) \/ Dangling(p, ts, cs[Len(cs)], gone, odd)

---------------------------------------------------------------------------
Bases == [
  box |-> {<<<<"vbox", e>>>> : e \in ElsR}, seq |-> {<<<<"seq", e>>>> : e \in ElsR}, iseq |-> {<<<<"iseq", e>>>> : e \in ElsR},
  bump |-> {<<<<"bump", "">>>>}, string |-> {<<<<"string", "">>>>},
  seqs |-> {<<<<"seq", e>>, <<"seq", e>>>> : e \in ElsR}, boxseq |-> {<<<<"vbox", e>>, <<"iseq", e>>>> : e \in ElsR}, boxbump |-> {<<<<"vbox", e>>, <<"bump", "">>>> : e \in ElsR} \cup {<<<<"bump", "">>, <<"vbox", e>>>> : e \in ElsR},
  refs |-> {<<<<"string", "">>, <<"seq", "R">>>>, <<<<"seq", "R">>, <<"string", "">>>>, <<<<"string", "">>, <<"iseq", "R">>, <<"bump", "">>>>, <<<<"string", "">>, <<"seq", "Str">>>>},
  bumpseq |-> {<<<<"bump", "">>, <<"seq", e>>>> : e \in Els},
  all |-> {<<<<"bump", "">>, <<"string", "">>, <<"seq", e>>, <<"vbox", e>>>> : e \in ElsR}, all2 |-> {<<<<"string", "">>, <<"iseq", e>>, <<"bump", "">>>> : e \in ElsR} ]
Family == IOEnv.FAMILY
Depth == CASE IOEnv.DEPTH = "2" -> 2 [] IOEnv.DEPTH = "3" -> 3 [] IOEnv.DEPTH = "4" -> 4 [] IOEnv.DEPTH = "5" -> 5 [] IOEnv.DEPTH = "6" -> 6 [] OTHER -> 8

\* Chains: the second step is about what the first one gave.
Chain == IOEnv.CHAIN = "1"
Init == \E b \in {b \in Bases[Family] : Chain => \A i \in 1..Len(b) : b[i][2] \in {"Str", "S", "R", ""}} :
          /\ base = Len(b) /\ types = b /\ moved = {} /\ prog = <<>> /\ bad = "no"
          /\ cars = <<[v \in 1..Len(b) |-> {}]>>

Step(o, v, a) ==
  LET res == Results(o, types[v])
      s == [o |-> o, v |-> v, a |-> a, elR |-> (types[v][2] = "R"), res |-> [i \in 1..Len(res) |-> Len(types) + i]]
      ts == types \o res
      p == Append(prog, s)
      cs == Append(cars, Carried(cars[Len(cars)], s, Len(res), [i \in 1..Len(res) |-> res[i][2]]))
      after == (moved \cup {x[1] : x \in {y \in Accesses(s) : y[2] = "move"}}) \ (IF o.m = "set" THEN {v} ELSE {})
  IN /\ prog' = p /\ types' = ts /\ cars' = cs
     /\ moved' = after
     /\ bad' = IF Uses(s) \cap moved # {} \/ Wrong(p, ts, cs, after, FALSE) THEN "yes" ELSE IF Wrong(p, ts, cs, after, TRUE) THEN "maybe" ELSE "no"
     /\ UNCHANGED base

\* What was moved away is only touched (or given a new value).
Fits(o, v) == Applies(o, types[v]) /\ (v \in moved => o.n \in {"touch", "assign"})
\* A touch of something nothing happened to says nothing.
Follows(v) == Chain /\ Len(prog) = 1 => v \in {prog[1].res[i] : i \in 1..Len(prog[1].res)}
Next == /\ bad # "yes" /\ Len(prog) < Depth
        /\ \E v \in {v \in 1..Len(types) : Follows(v)} : \E o \in Ops :
             /\ Fits(o, v)
             /\ IF o.ac = {} THEN Step(o, v, 0) ELSE \E a \in (1..Len(types)) \ ({v} \cup moved) : TakesArg(o, types[v], types[a]) /\ Step(o, v, a)
Spec == Init /\ [][Next]_vars

\* Re-initialised variables are not destroyed twice, so "moved" at the end is enough for destructors; a variable that was moved and then
\* assigned has no borrows.
Out(s) == [t |-> s.o.t, d |-> s.o.d, v |-> s.v, a |-> s.a, r |-> s.res, e |-> types[s.v][2]]
Show == (Len(prog) > (IF Chain THEN 2 ELSE 0) /\ bad # "maybe") =>
          PrintT(<<"CASE", ToJson([base |-> SubSeq(types, 1, base), steps |-> [i \in 1..Len(prog) |-> Out(prog[i])], accept |-> bad = "no", names |-> [i \in 1..Len(prog) |-> prog[i].o.n]])>>)
=============================================================================
