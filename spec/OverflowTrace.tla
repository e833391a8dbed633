--------------------------- MODULE OverflowTrace ---------------------------
(* Judges what the real crate did on the cases of OverflowGen, one event   *)
(* per step. Every event is judged alone.                                  *)
EXTENDS Overflow, Json, IOUtils

Evs == ndJsonDeserialize(IOEnv.TRACE_EV)
Types == ndJsonDeserialize(IOEnv.OTYPES)

VARIABLE l

MiB == Pow2(20)
Refused == Pow2(26)

Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>)

None == <<-1>>
\* the announced size
Announce(e, d, size) ==
  /\ Chk("o.exact", e.an # None => e.an = size)
  /\ Chk("o.announced", Leq(Up(size, OAlign(d)), IsizeMax) => e.an # None)
  /\ Chk("o.silent", e.out = "ok" /\ e.calls = <<>> /\ e.al = <<>>)

Construct(e, d, size, need) ==
  LET exists == Leq(Up(need, OAlign(d)), IsizeMax)
      got == {i \in 1..Len(e.al) : e.al[i][1] \in {"a", "r"}}
      refused == {i \in 1..Len(e.al) : e.al[i][1] = "x"}
  IN /\ Chk("o.refuse", Less(Refused, need) => e.out = "panic")
     /\ Chk("o.build", Leq(need, MiB) => e.out = "ok")
     /\ Chk("o.size", e.out = "ok" => e.sz = size)
     /\ Chk("o.calls", e.out = "ok" => e.calls = Calls(d, e.n))
     /\ Chk("o.untouched", e.out # "ok" => e.calls = <<>> /\ got = {})
     /\ Chk("o.request", /\ \A i \in refused : exists /\ Geq(e.al[i][2], need)
                         /\ \A i \in got \cup refused : Leq(Up(e.al[i][2], e.al[i][3]), IsizeMax)
                         /\ \A i \in got : e.route \in {"box", "sequ", "seqc"} => Geq(e.al[i][2], need))
     /\ Chk("o.same", e.same /\ e.after)
     /\ Chk("o.memory", e.live = 0 /\ e.bad = <<>>)
     /\ Chk("o.probes", e.probes = 0)

Sized(e) ==
  LET d == Types[e.t].d
      size == Exact(d, e.n)
  IN CASE e.route = "announce" -> Announce(e, d, size)
       [] e.route = "box" -> Construct(e, d, size, size)
       [] e.route = "area" -> Construct(e, d, size, size)
       [] OTHER -> Construct(e, d, size, SeqNeed(d, e.n, e.occ, e.route = "seqc"))

NarrowEv(e) ==
  /\ Chk("n.accept", e.out = IF Accepts(e.len, e.n) THEN "some" ELSE "none")
  /\ Chk("n.built", \A i \in 1..Len(e.b) : e.b[i][1] = e.n /\ e.b[i][2] = e.n /\ e.b[i][3])
  /\ Chk("n.memory", e.live = 0 /\ e.bad = <<>>)

Judge(e) ==
  CASE e.e = "o" -> Sized(e)
    [] e.e = "n" -> NarrowEv(e)
    [] OTHER -> Chk(IF e.kind = "o" THEN "o.crash" ELSE "n.crash", FALSE)

Init == l = 1
Next == /\ l <= Len(Evs)
        /\ Judge(Evs[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Evs) + 1
===========================================================================
