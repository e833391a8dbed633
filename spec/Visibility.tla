---------------------------- MODULE Visibility ----------------------------
(* Who may mention what #[define_varlen] generates.                         *)
(* The crate is a tree of modules, a module being the sequence of names on  *)
(* the path to it, the crate's own name first. A definition stands in       *)
(* module M and gives a visibility to the type and to each field. A program *)
(* stands in some module of this or of another crate and mentions items.    *)
(* It must compile iff every mentioned item is visible from where it        *)
(* stands, and reject otherwise; what needs access to the layout or the raw *)
(* content of a variable-length field directly is rejected everywhere.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

M == <<"this", "d", "a", "b">>
Positions == [same |-> M, child |-> Append(M, "c"), grandchild |-> M \o <<"c", "e">>, parent |-> <<"this", "d", "a">>, sibling |-> <<"this", "d", "a", "s">>,
              grandparent |-> <<"this", "d">>, uncle |-> <<"this", "d", "t">>, root |-> <<"this">>, elsewhere |-> <<"this", "o">>, outside |-> <<"that", "p">>]
Vis == {"", "pub(self)", "pub(super)", "pub(crate)", "pub"}
\* the module within which an item of that visibility may be mentioned
Scope(v) == CASE v \in {"", "pub(self)"} -> M [] v = "pub(super)" -> SubSeq(M, 1, Len(M) - 1) [] v = "pub(crate)" -> <<M[1]>> [] v = "pub" -> <<>>
Under(p, m) == Len(m) <= Len(p) /\ SubSeq(p, 1, Len(m)) = m
Sees(p, v) == Under(p, Scope(v))

(* The fields: a controlling one, a plain one, an array, two sub-objects.  *)
Fields == <<[f |-> "n", kind |-> "ctl"], [f |-> "k", kind |-> "plain"], [f |-> "x", kind |-> "array"], [f |-> "w", kind |-> "sub"], [f |-> "m", kind |-> "ctl"]>>
I == 1..Len(Fields)

(* A probe mentions the type (or something that is as visible as it), some *)
(* fields, or does what nobody may do.                                     *)
NameProbes == {"type", "module", "Init", "Refs", "Muts", "LayoutControllers", "VarLenLayout", "call_refs", "call_muts", "call_set", "as_VarLen"}
FieldProbes == {"on_struct", "on_refs", "on_muts", "on_init", "pattern_refs", "pattern_muts", "write_through_muts", "on_mut_struct"}
AllFieldProbes == {"init_literal", "controllers_literal", "new", "pattern_all_refs"}
Forbidden == {"set_ctl_direct", "set_ctl_get_mut", "set_ctl_muts", "set_ctl_refs", "set_ctl_box", "set_ctl_as_mut", "set_plain_refs", "set_elem_refs", "marker_content", "marker_made", "marker_moved", "literal", "literal_update",
              "swap_markers", "swap_ctl", "sub_get_mut", "sub_assign", "sub_head_swap", "array_shorten", "str_bytes", "arr_len_write"}

\* which fields there are to probe in which way
Applies(pr, i) ==
  CASE pr = "write_through_muts" -> Fields[i].kind # "ctl"
    [] OTHER -> TRUE
Needs(pr, def, i) ==
  CASE pr \in NameProbes -> {def.ty}
    [] pr \in FieldProbes -> {def.ty, def.fv[i]}
    [] pr \in {"init_literal", "new", "pattern_all_refs"} -> {def.ty} \cup {def.fv[j] : j \in I}
    [] pr = "controllers_literal" -> {def.ty} \cup {def.fv[j] : j \in {j \in I : Fields[j].kind = "ctl"}}
Allowed(pr, def, i, p) == pr \notin Forbidden /\ \A v \in Needs(pr, def, i) : Sees(p, v)

---------------------------------------------------------------------------
(* Enumeration.                                                            *)
(* shape: which of the variable-length fields there are. *)
Def(t, fv) == [ty |-> t, fv |-> fv, shape |-> "both"]
WithShape(def, sh) == [def EXCEPT !.shape = sh]
OfArray == {"set_elem_refs", "marker_content", "swap_markers", "array_shorten", "marker_moved"}
OfSub == {"sub_get_mut", "sub_assign", "sub_head_swap", "str_bytes", "arr_len_write"}
Shapes(pr) == {"both"} \cup (IF pr \in OfSub THEN {} ELSE {"array"}) \cup (IF pr \in OfArray \cup {"literal"} THEN {} ELSE {"sub"})
Case(def, pr, i, at) == [def |-> def, pr |-> pr, field |-> IF i = 0 THEN [f |-> "", kind |-> ""] ELSE Fields[i], at |-> at, accept |-> Allowed(pr, def, i, Positions[at])]
At == DOMAIN Positions
OneVaries == {Def(t, [[j \in I |-> "pub"] EXCEPT ![i] = v]) : t \in Vis, i \in I, v \in Vis}
\* every field as visible as in a fixed mixed pattern, shifted
VisSeq == <<"", "pub(self)", "pub(super)", "pub(crate)", "pub">>
Mixed == {Def(t, [j \in I |-> VisSeq[((j * s + o) % 5) + 1]]) : t \in Vis, s \in 1..4, o \in 0..4}

Family == IOEnv.FAMILY
Cases ==
  CASE Family = "names" -> {Case(Def(t, [j \in I |-> "pub"]), pr, 0, at) : t \in Vis, pr \in NameProbes, at \in At}
    [] Family = "fields" -> {Case(Def(t, [[j \in I |-> "pub"] EXCEPT ![i] = v]), pr, i, at) : t \in Vis, i \in I, v \in Vis, pr \in FieldProbes, at \in At}
    [] Family = "literals" -> {Case(def, pr, 0, at) : def \in OneVaries, pr \in AllFieldProbes, at \in At}
    [] Family = "mixed" -> {Case(def, pr, 0, at) : def \in Mixed, pr \in AllFieldProbes, at \in At}
    [] Family = "mixedfields" -> UNION {{Case(def, pr, i, at) : def \in Mixed, pr \in FieldProbes, at \in At} : i \in I}
    [] Family = "forbidden" -> UNION {{Case(WithShape(Def("pub", [j \in I |-> v]), sh), pr, 0, at) : v \in {"pub", "pub(crate)"}, sh \in Shapes(pr), at \in {"same", "child", "parent", "elsewhere", "outside"}} : pr \in Forbidden}
Kept == {c \in Cases : c.field.f = "" \/ \E i \in I : Fields[i] = c.field /\ Applies(c.pr, i)}

(* Sanity of the rules themselves.                                         *)
ASSUME \A p \in At : Sees(Positions[p], "pub") /\ (Sees(Positions[p], "") => \A v \in Vis : Sees(Positions[p], v))
ASSUME \A p \in At : (Sees(Positions[p], "pub(super)") => Sees(Positions[p], "pub(crate)"))
ASSUME \A v \in Vis, w \in Vis : Under(Scope(v), Scope(w)) \/ Under(Scope(w), Scope(v))

VARIABLE c
Init == c \in Kept
Next == FALSE /\ c' = c
Show == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
