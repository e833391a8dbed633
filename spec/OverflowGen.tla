---------------------------- MODULE OverflowGen ----------------------------
(* Enumerates the cases of Overflow, one per state.                        *)
EXTENDS Overflow, Json, IOUtils

Types == ndJsonDeserialize(IOEnv.OTYPES)

VARIABLE c
Init == \/ \E t \in 1..Len(Types) : \E v \in Vectors(Types[t].d, Types[t].k, IOEnv.DEEP = "1") : c = <<"o", t, v>>
        \/ \E x \in NarrowCases : c = <<"n", x>>
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Show == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
