------------------------------- MODULE Trace -------------------------------
(* Judges recorded executions of the real crate: every event must be a     *)
(* step of Store, and every object seen must have the layout of Layout.    *)
(*                                                                         *)
(* One state per event. All conditions of an event are evaluated; one      *)
(* that does not hold is reported with PrintT and the run goes on from     *)
(* the observed state, so that the rest of the trace is checked too.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Layout

Ev    == ndJsonDeserialize(IOEnv.TRACE_EV)
Objs  == ndJsonDeserialize(IOEnv.TRACE_OB)
Types == ndJsonDeserialize(IOEnv.TRACE_TY)

Range(q) == {q[i] : i \in 1..Len(q)}
ToksOf(o) == IF o = 0 THEN {} ELSE Range(Objs[o].tk)
TypeOf(o) == Types[Objs[o].ty]
UnitsOf(o) == LET a == TypeOf(o).align IN Max2(1, (Objs[o].sz + a - 1) \div a)

S0 == INSTANCE Store WITH NoObj <- 0, Toks <- ToksOf, Units <- UnitsOf

VARIABLES l,     \* next event
          S,     \* abstract state (Store)
          pre,   \* snapshot before the event
          tk,    \* placements of the elements of the taking session
          oT,    \* values alive without an owner (leaked or abandoned)
          oZ, oB \* numbers of anonymous values and heap blocks without an owner
vars == <<l, S, pre, tk, oT, oZ, oB>>

Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, Ev[l].k, Ev[l].out, l>>)

---------------------------------------------------------------------------
(* Objects. Judged once each; referred to by number afterwards.            *)
D(o) == TypeOf(o).d
BadShape == {o \in 1..Len(Objs) : ~GoodShape(D(o), Objs[o])}
Shaped == (1..Len(Objs)) \ BadShape
BadSize == {o \in Shaped : ~GoodSize(D(o), Objs[o])}
BadOff  == {o \in Shaped : ~GoodOffsets(D(o), Objs[o])}
BadMut  == {o \in Shaped : ~GoodMutable(Objs[o])}
BadLen  == {o \in Shaped : ~GoodLengths(D(o), Objs[o])}
HasSuffix(v, x) == Len(v) >= Len(x) /\ SubSeq(v, Len(v) - Len(x) + 1, Len(v)) = x
BadVal(s) == \E x \in {"dead", "never", "garbage"} : HasSuffix(s, x)
BadVals == {o \in 1..Len(Objs) : \E i \in 1..Len(Objs[o].lf) :
              \E j \in 1..Len(Objs[o].lf[i].t) :
                 j <= Len(Objs[o].lf[i].v) /\ BadVal(Objs[o].lf[i].v[j])}
\* two different values of one object claim to be the same
DupVals == {o \in 1..Len(Objs) : Cardinality(ToksOf(o)) # Len(Objs[o].tk)}
BadAlign == {t \in 1..Len(Types) :
               \/ Types[t].align \notin PowersOfTwo
               \/ Types[t].align < AlignOf(Types[t].d)}

---------------------------------------------------------------------------
(* From snapshots to Store states.                                         *)
Nth(name) == CASE name \in {"b0","o0","k0","l0","r0","s0"} -> 1
               [] name \in {"b1","o1","k1","l1","r1","s1"} -> 2
               [] OTHER -> 3
Cell(s, n) ==
  CASE n \in S0!BoxSlots -> s.b[Nth(n)]
    [] n \in S0!AreaSlots -> s.o[Nth(n)]
    [] n \in S0!KeptSlots -> s.k[Nth(n)]
    [] n \in S0!LeakSlots -> s.l[Nth(n)]
    [] OTHER -> s.r[Nth(n)]
ObjIn(s, n) == LET c == Cell(s, n) IN IF c = <<>> THEN 0 ELSE c[1]
ObservedSeq(q, old) ==
  CASE q.x = 0 -> S0!NoSeq
    [] q.x = 2 -> [x |-> 1, m |-> old.m, el |-> <<>>, cap |-> old.cap]
    [] OTHER -> [x |-> 1, m |-> q.m, el |-> [i \in 1..Len(q.el) |-> q.el[i][1]], cap |-> q.cap]
SeqName(i) == <<"s0", "s1", "s2">>[i + 1]
BusyName(s) == IF s.busy < 0 THEN "" ELSE SeqName(s.busy)
\* The observed state; what a snapshot cannot show is taken from `ses`.
Observed(s, old, ses) ==
  [own |-> [n \in S0!OwnSlots |-> ObjIn(s, n)],
   sq |-> [n \in S0!SeqSlots |-> ObservedSeq(s.s[Nth(n)], old.sq[n])],
   ses |-> IF s.t = <<>> THEN S0!NoSes ELSE ses,
   busy |-> BusyName(s)]
NoSnap == [b |-> <<<<>>, <<>>, <<>>>>, o |-> <<<<>>, <<>>, <<>>>>, k |-> <<<<>>, <<>>, <<>>>>,
           l |-> <<<<>>, <<>>, <<>>>>, r |-> <<<<>>, <<>>, <<>>>>,
           s |-> <<[x |-> 0], [x |-> 0], [x |-> 0]>>, t |-> <<>>, lb |-> <<>>, lt |-> <<>>,
           z |-> 0, busy |-> -1]

Seqs(s) == {i \in 1..3 : s.s[i].x = 1}
ElTriples(s) == UNION {Range(s.s[i].el) : i \in Seqs(s)}
SlotTriples(s) == {c \in Range(s.b) \cup Range(s.o) \cup Range(s.k) \cup Range(s.l) \cup Range(s.r) : c # <<>>}
Shown(s) == {c[1] : c \in ElTriples(s) \cup SlotTriples(s)}

---------------------------------------------------------------------------
(* The operation of an event, as Store sees it.                            *)
Arg(e, i) == IF i <= Len(e.a) THEN e.a[i] ELSE ""
\* Objects constructed, read off the place where they must have ended up.
NewElems(e) ==
  LET q == e.s.s[Nth(Arg(e, 1))] IN
  IF q.x # 1 THEN <<>>
  ELSE LET els == [i \in 1..Len(q.el) |-> q.el[i][1]]
           had == IF e.k \in {"col", "mac"} THEN 0 ELSE Len(S.sq[Arg(e, 1)].el)
       IN SubSeq(els, had + 1, Len(els))
ObjAt(s, loc) ==
  IF loc[1] \in S0!SeqSlots
  THEN LET q == s.s[Nth(loc[1])] IN
       IF q.x = 1 /\ loc[2] \in 1..Len(q.el) THEN q.el[loc[2]][1] ELSE 0
  ELSE ObjIn(s, loc[1])
NewObjs(e) ==
  CASE e.k = "new" -> <<ObjIn(e.s, Arg(e, 1))>>
    [] e.k \in {"push", "ext", "col", "mac"} -> NewElems(e)
    [] e.k \in {"mut", "swp", "ctl"} -> <<ObjAt(e.s, e.loc)>>
    [] e.k = "clone" -> <<ObjIn(e.s, Arg(e, 2))>>
    [] OTHER -> <<>>
Mode(e) == IF e.k # "mac" /\ Arg(e, 2) = "c" THEN "c" ELSE "u"
Op(e) == [k |-> e.k, d |-> Arg(e, 1), d2 |-> Arg(e, 2), sk |-> e.sk, sr |-> e.sr,
          loc |-> e.loc, ns |-> NewObjs(e), m |-> Mode(e), i |-> e.skip]

Succeeded(e) == e.out \in {"ok", "none"}
Wanted(e) == CASE e.k = "push" -> 1 [] e.k = "mac" -> 3 [] e.k \in {"ext", "col"} -> e.req [] OTHER -> 0
\* An operation on sequences that should have added n elements but did not.
Added(e) == Len(NewObjs(e))
Expect(e) ==
  LET op == Op(e) IN
  IF Succeeded(e)
  THEN IF e.k = "push" /\ op.ns = <<>> THEN S ELSE S0!Step(S, op)
  ELSE S0!Failed(S, op)

---------------------------------------------------------------------------
(* Contents of constructed objects.                                        *)
Pairs(e) == Range(e.c)
ClonedOnce(e, t) == Cardinality({i \in 1..Len(e.c) : e.c[i][1] = t}) = 1
BuiltLeaf(e, p, f) ==
  /\ f.n = p.n
  /\ f.v = p.v
  /\ f.z = p.z
  /\ CASE p.md = "m" -> f.t = p.t
       [] p.md = "c" -> /\ Len(f.t) = Len(p.t)
                        /\ \A j \in 1..Len(p.t) : <<p.t[j], f.t[j]>> \in Pairs(e) /\ ClonedOnce(e, p.t[j])
       [] OTHER -> \A j \in 1..Len(f.t) : f.t[j] \in Range(e.nw)
Built(e, put, o) ==
  /\ Len(put) = Len(Objs[o].lf)
  /\ \A i \in 1..Len(put) : BuiltLeaf(e, put[i], Objs[o].lf[i])
\* Fill functions are called for 0..n-1 in order; iterators asked exactly n times.
Calls(p) ==
  CASE p.ck = "f" \/ p.ck = "i" -> p.ca = [j \in 1..p.n |-> j - 1]
    [] p.ck \in {"F", "I"} -> p.ca = <<p.n>> \/ p.ca = [j \in 1..p.n |-> j - 1]
    [] OTHER -> TRUE
SameShape(a, b) ==
  /\ Len(a.lf) = Len(b.lf)
  /\ a.sz = b.sz
  /\ \A i \in 1..Len(a.lf) : a.lf[i].o = b.lf[i].o /\ a.lf[i].n = b.lf[i].n /\ a.lf[i].l = b.lf[i].l
CloneOf(e, a, b) ==
  /\ SameShape(a, b)
  /\ \A i \in 1..Len(a.lf) :
       /\ a.lf[i].v = b.lf[i].v
       /\ a.lf[i].z = b.lf[i].z
       /\ a.lf[i].x = b.lf[i].x
       /\ Len(a.lf[i].t) = Len(b.lf[i].t)
       /\ \A j \in 1..Len(a.lf[i].t) : <<a.lf[i].t[j], b.lf[i].t[j]>> \in Pairs(e)
  /\ \A t \in Range(a.tk) : ClonedOnce(e, t)
  /\ Len(e.c) = Len(a.tk)
  /\ e.zc = a.z
Content(e, i) ==     \* the i-th object constructed
  LET o == NewObjs(e)[i] IN
  CASE o = 0 -> FALSE
    [] e.k = "clone" \/ e.sk = "clone" -> CloneOf(e, Objs[e.src], Objs[o])
    [] e.sk \in {"mv", "copy"} -> o = e.src
    [] OTHER -> i <= Len(e.put) /\ Built(e, e.put[i], o)

Replace(q, i, x) == [q EXCEPT ![i] = x]
\* b is a with element ix of leaf lf overwritten
Overwritten(a, b, e) ==
  /\ SameShape(a, b)
  /\ \A i \in 1..Len(a.lf) :
       IF i # e.lf THEN /\ b.lf[i].v = a.lf[i].v
                        /\ b.lf[i].t = a.lf[i].t
                        /\ b.lf[i].x = a.lf[i].x
       ELSE /\ IF Len(a.lf[i].v) >= e.ix /\ a.lf[i].n <= 40
               THEN b.lf[i].v = Replace(a.lf[i].v, e.ix, e.nv) ELSE TRUE
            /\ IF e.nt # <<>> /\ e.ix <= Len(a.lf[i].t)
               THEN b.lf[i].t = Replace(a.lf[i].t, e.ix, e.nt[1]) ELSE b.lf[i].t = a.lf[i].t
Swapped(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
SwappedIn(a, b, e) ==
  /\ SameShape(a, b)
  /\ \A i \in 1..Len(a.lf) :
       IF i # e.lf THEN b.lf[i].v = a.lf[i].v /\ b.lf[i].t = a.lf[i].t /\ b.lf[i].x = a.lf[i].x
       ELSE /\ (a.lf[i].n <= 40 => b.lf[i].v = Swapped(a.lf[i].v, e.ix, e.jx))
            /\ (a.lf[i].t # <<>> => b.lf[i].t = Swapped(a.lf[i].t, e.ix, e.jx))

\* Layout-controlling fields: leaf numbers of the controllers of a struct type
StructD(o) == D(o)
RECURSIVE CtlLeaves(_, _, _)
CtlLeaves(d, j, i) ==
  IF j > Len(d.f) THEN <<>>
  ELSE (IF d.f[j].f = "ctl" THEN <<i>> ELSE <<>>) \o
       CtlLeaves(d, j + 1, i + (IF d.f[j].f = "sub" THEN LeavesIn(d.f[j].d) ELSE 1))
HasCtl(o) == D(o).k = "struct"
CtlAllowed(a, d, cx) ==
  LET RECURSIVE Same(_, _)
      Same(j, i) == IF j > Len(d.f) THEN TRUE ELSE
        /\ (d.f[j].f = "arr" => Eval(d.f[j].len, cx) = a.lf[i].n)
        /\ Same(j + 1, i + (IF d.f[j].f = "sub" THEN LeavesIn(d.f[j].d) ELSE 1))
  IN Same(1, 1)
Controlled(a, b, e, cl) ==
  /\ SameShape(a, b)
  /\ \A i \in 1..Len(a.lf) :
       IF \E c \in 1..Len(cl) : cl[c] = i
       THEN LET c == CHOOSE c \in 1..Len(cl) : cl[c] = i IN
            /\ b.lf[i].v = <<e.cv[c]>>
            /\ b.lf[i].t = e.ck[c]
       ELSE b.lf[i].v = a.lf[i].v /\ b.lf[i].t = a.lf[i].t

---------------------------------------------------------------------------
(* Storage.                                                                *)
AlignAt(o) == TypeOf(o).align
Block(s, id) == LET m == {i \in 1..Len(s.lb) : s.lb[i][1] = id} IN IF m = {} THEN <<0, 0, 1>> ELSE s.lb[CHOOSE i \in m : TRUE]
\* A heap or arena address is aligned as far as its block is.
Aligned(s, c) ==
  LET a == AlignAt(c[1]) IN
  /\ c[3] % a = 0
  /\ (c[2] > 0 => Block(s, c[2])[3] % a = 0)
BoxPlaced(s, c) == Objs[c[1]].sz = 0 \/
  (c[2] > 0 /\ c[3] = 0 /\ Block(s, c[2])[2] = Objs[c[1]].sz)
RawBoxes(s) == {i \in 1..3 : s.r[i] # <<>> /\ s.r[i][4] = 0}
RawAreas(s) == {i \in 1..3 : s.r[i] # <<>> /\ s.r[i][4] = 1}
Boxes(s) == {<<"b", i>> : i \in {i \in 1..3 : s.b[i] # <<>>}} \cup {<<"r", i>> : i \in RawBoxes(s)}
Areas(s) == {<<"o", i>> : i \in {i \in 1..3 : s.o[i] # <<>>}} \cup {<<"r", i>> : i \in RawAreas(s)}
            \cup {<<"l", i>> : i \in {i \in 1..3 : s.l[i] # <<>>}}
Tr(s, x) == CASE x[1] = "b" -> s.b[x[2]] [] x[1] = "o" -> s.o[x[2]] [] x[1] = "l" -> s.l[x[2]] [] OTHER -> s.r[x[2]]
AreaPlaced(c) == c[2] = -1 \/ Objs[c[1]].sz = 0
Apart(c, d) == \/ Objs[c[1]].sz = 0 \/ Objs[d[1]].sz = 0
               \/ c[3] + Objs[c[1]].sz <= d[3] \/ d[3] + Objs[d[1]].sz <= c[3]
SeqPlaced(s, q) ==
  LET a == IF q.el = <<>> THEN 1 ELSE AlignAt(q.el[1][1]) IN
  q.el = <<>> \/
  /\ q.el[1][2] > 0
  /\ \A i \in 1..Len(q.el) : q.el[i][2] = q.el[1][2]
  /\ q.el[1][3] >= 0
  /\ \A i \in 1..Len(q.el) : q.el[i][3] - q.el[1][3] = (q.of[i] - q.of[1]) * a
  /\ q.el[1][3] + q.occ * a <= Block(s, q.el[1][2])[2]
SeqBlocks(s) == {s.s[i].el[1][2] : i \in {i \in Seqs(s) : s.s[i].el # <<>>}}
NonEmptyBoxes(s) == {x \in Boxes(s) : Objs[Tr(s, x)[1]].sz > 0}
DistinctBlocks(s) ==
  LET bb == {Tr(s, x)[2] : x \in NonEmptyBoxes(s)}
      qq == {i \in Seqs(s) : s.s[i].el # <<>>}
  IN /\ Cardinality(bb) = Cardinality(NonEmptyBoxes(s))
     /\ Cardinality(SeqBlocks(s)) = Cardinality(qq)
     /\ bb \cap SeqBlocks(s) = {}

RECURSIVE SumNb(_)
SumNb(q) == IF q = <<>> THEN 0 ELSE Objs[Head(q)].nb + SumNb(Tail(q))
RECURSIVE SumZ(_)
SumZ(q) == IF q = <<>> THEN 0 ELSE Objs[Head(q)].z + SumZ(Tail(q))
\* heap blocks the containers of state T are responsible for
BlocksFor(s, T) == Cardinality(NonEmptyBoxes(s))
                   + Cardinality({n \in S0!SeqSlots : T.sq[n].x = 1 /\ T.sq[n].cap > 0})
                   + SumNb(S0!HeldList(T))

Sorted(q) == q   \* probes are made in ascending order
GoodSeq(s, q, label) ==
  LET els == [i \in 1..Len(q.el) |-> q.el[i][1]]
      offs == S0!Offsets(els)
      bytes == [i \in 1..Len(q.el) |-> q.el[i][3]]
  IN /\ Chk("seq.len", q.len = Len(els))
     /\ Chk("seq.offsets", q.of = offs /\ q.occ = S0!Occupied(els))
     /\ Chk("seq.itermut", q.im = bytes)
     /\ Chk("seq.cap", q.cap >= q.occ)
     /\ Chk("seq.valid", q.m = "c" => q.vd = offs)
     /\ Chk("seq.lookup", q.m = "c" => q.lk = bytes)
     /\ Chk("seq.place", SeqPlaced(s, q))

---------------------------------------------------------------------------
Reset(e) ==
  /\ S' = S0!Empty
  /\ pre' = e.s
  /\ tk' = <<>> /\ oT' = {} /\ oZ' = 0 /\ oB' = 0
  /\ Chk("type.align", e.ty \notin BadAlign)

\* Everything has been dropped.
End(e) ==
  /\ Chk("mem", e.bad = <<>>)
  /\ Chk("end.values", Range(e.s.lt) = oT \cup S0!HeldToks(S))
  /\ Chk("end.z", e.s.z = oZ + SumZ(S0!HeldList(S)))
  /\ Chk("end.blocks", Len(e.s.lb) = oB + BlocksFor(e.s, S))
  /\ UNCHANGED <<S, pre, tk, oT, oZ, oB>>

\* The process ended inside an operation. Only a box whose storage was refused may do that.
Crash(e) ==
  /\ Chk("crash", e.why = "oom" /\ e.box)
  /\ Chk("crash.oom", e.why = "oom" => e.refused)
  /\ UNCHANGED <<S, pre, tk, oT, oZ, oB>>

Constructs(e) == e.k \in {"new", "push", "ext", "col", "mac", "clone"}
\* Did the operation have to panic?
MustPanic(e) ==
  \/ e.fired > 0
  \/ e.wrong > 0 /\ e.k # "dinit"
  \/ e.failed > 0
  \/ e.k = "look" /\ ~(e.off >= 0 /\ e.off \in Range(S0!Offsets(S.sq[Arg(e, 1)].el)))
  \/ e.k = "foff" /\ e.loc2[1] # Arg(e, 1)
  \/ e.k = "bare" /\ D(e.src).k \in {"tup", "struct"}
  \/ e.k \in {"ext", "col"} /\ e.stop > 0 /\ e.stop <= e.req + 1

SeqChange(e, n) ==    \* capacity and storage of sequence n across the event
  LET q == e.s.s[Nth(n)]
      p == pre.s[Nth(n)]
      old == S.sq[n]
      need == IF q.x = 1 THEN S0!Occupied([i \in 1..Len(q.el) |-> q.el[i][1]]) ELSE 0
  IN (q.x = 1 /\ old.x = 1) =>
     /\ Chk("cap.grow", e.out = "ok" => S0!CapOK(old.cap, q.cap, Max2(need, old.cap)) /\ S0!CapOK(old.cap, q.cap, need))
     /\ Chk("cap.keep", q.cap >= old.cap)
     /\ Chk("cap.refused", (e.failed > 0 /\ e.k = "push") => q.cap = old.cap)
     /\ Chk("cap.move", (q.cap = old.cap /\ p.x = 1) =>
              \A i \in 1..Len(p.el) : i <= Len(q.el) => (q.el[i][2] = p.el[i][2] /\ q.el[i][3] = p.el[i][3]))
     /\ Chk("cap.same", (q.cap = old.cap /\ q.el # <<>>) => \E i \in 1..Len(pre.lb) : pre.lb[i][1] = q.el[1][2])

OpEvent(e) ==
  LET s == e.s
      op == Op(e)
      exp == Expect(e)
      obs == Observed(s, S, exp.ses)
      nobj == Len(op.ns)
      good == Succeeded(e)
      k == e.k
  IN
  \* objects
  /\ LET sh == Shown(s) IN
     /\ Chk("obj.shape", sh \cap BadShape = {})
     /\ Chk("obj.size", sh \cap BadSize = {})
     /\ Chk("obj.off", sh \cap BadOff = {})
     /\ Chk("obj.mut", sh \cap BadMut = {})
     /\ Chk("obj.len", sh \cap BadLen = {})
     /\ Chk("obj.val", sh \cap BadVals = {})
     /\ Chk("obj.dup", sh \cap DupVals = {})
  \* containers
  /\ Chk("own", \A n \in S0!OwnSlots : obs.own[n] = exp.own[n])
  /\ Chk("seq.exists", \A n \in S0!SeqSlots : obs.sq[n].x = exp.sq[n].x /\ obs.sq[n].m = exp.sq[n].m)
  /\ Chk("seq.list", \A n \in S0!SeqSlots : obs.sq[n].el = exp.sq[n].el)
  /\ Chk("ses", /\ (s.t # <<>>) = exp.ses.on
                /\ (s.t # <<>> => /\ SeqName(s.t[1]) = exp.ses.sq
                                  /\ s.t[2] = Len(exp.ses.rest) /\ s.t[3] = s.t[2] /\ s.t[4] = s.t[2])
                /\ obs.busy = exp.busy)
  /\ \A n \in S0!SeqSlots : s.s[Nth(n)].x = 1 => GoodSeq(s, s.s[Nth(n)], n)
  \* outcome
  /\ Chk("outcome", (k = "dinit" /\ e.wrong > 0) \/ (MustPanic(e) <=> ~good))
  /\ Chk("outcome.kind", e.out = "inj" => e.fired > 0 \/ e.stop > 0)
  /\ Chk("next.none", (k = "next" => (e.out = "none") = (Len(S.ses.rest) <= e.skip))
                    /\ (k = "tlast" => (e.out = "none") = (S.ses.rest = <<>>)))
  \* what was built
  /\ Chk("count", (good /\ Wanted(e) > 0) => nobj = Wanted(e))
  /\ Chk("count.fail", (~good /\ k \in {"push", "ext"}) =>
            /\ nobj < Wanted(e) + (IF e.stop > 0 THEN 1 ELSE 0)
            /\ (k = "ext" /\ e.stop > 0 /\ e.stop <= e.req + 1 /\ e.fired = 1 /\ e.fl = <<0, 0, 0, 0>> => nobj = e.stop - 1))
  /\ Chk("content", Constructs(e) /\ (good \/ k = "ext") => \A i \in 1..nobj : Content(e, i))
  /\ Chk("announce", (Constructs(e) /\ k # "clone" /\ (good \/ k = "ext")) =>
            \A i \in 1..nobj : (i <= Len(e.psz) /\ op.ns[i] # 0) => e.psz[i] = Objs[op.ns[i]].sz)
  /\ Chk("calls", (Constructs(e) /\ good) =>
            \A i \in 1..Len(e.put) : \A j \in 1..Len(e.put[i]) : Calls(e.put[i][j]))
  /\ Chk("source", (e.sk \in {"clone", "copy"} \/ k = "clone") =>
            (IF e.sk \in {"clone", "copy"} THEN ObjAt(s, e.sr) ELSE ObjAt(s, e.loc)) = e.src)
  \* changing parts
  /\ (k \in {"mut", "swp"} /\ e.out = "none") => Chk("mut.none", ObjAt(s, e.loc) = e.src)
  /\ (k = "mut" /\ e.out = "ok") => Chk("mut", op.ns[1] # 0 /\ Overwritten(Objs[e.src], Objs[op.ns[1]], e))
  /\ (k = "swp" /\ e.out = "ok") => Chk("mut", op.ns[1] # 0 /\ SwappedIn(Objs[e.src], Objs[op.ns[1]], e))
  /\ (k = "ctl" /\ e.out = "ok") =>
       LET a == Objs[e.src]
           d == D(e.src)
           cl == CtlLeaves(d, 1, 1) IN
       /\ Chk("ctl.verdict", e.cok = CtlAllowed(a, d, e.cx))
       /\ Chk("ctl.effect", op.ns[1] # 0 /\ IF e.cok THEN Controlled(a, Objs[op.ns[1]], e, cl) ELSE op.ns[1] = e.src)
       /\ Chk("ctl.drops", IF e.cok
             THEN Range(e.d) = UNION {Range(a.lf[cl[i]].t) : i \in 1..Len(cl)}
             ELSE Range(e.d) = Range(e.ct))
  /\ (k = "ctl" /\ e.out = "inj") =>
       LET a == Objs[e.src]
           cl == CtlLeaves(D(e.src), 1, 1) IN
       Chk("ctl.effect", op.ns[1] # 0 /\ (op.ns[1] = e.src \/ Controlled(a, Objs[op.ns[1]], e, cl)))
  \* iteration and offsets
  /\ k = "iter" =>
       LET q == pre.s[Nth(Arg(e, 1))] IN
       Chk("iter", S0!IterOK([i \in 1..Len(q.el) |-> q.el[i][3]], <<>>, e.steps, Arg(e, 2) = "m"))
  /\ k = "look" =>
       LET q == pre.s[Nth(Arg(e, 1))]
           hit == {i \in 1..Len(q.of) : q.of[i] = e.off} IN
       /\ Chk("look.valid", e.vl = (hit # {}))
       /\ Chk("look.addr", e.out = "ok" => \E i \in hit : q.el[i][3] = e.bo)
  /\ (k = "foff" /\ e.out = "ok") =>
       Chk("foff", e.loc2[1] = Arg(e, 1) /\ e.loc2[2] \in 1..Len(S.sq[Arg(e, 1)].el)
                   /\ e.off = S0!Offsets(S.sq[Arg(e, 1)].el)[e.loc2[2]])
  \* a plain array made by an initializer, here and now
  /\ (k = "arr" /\ e.out = "ok") =>
       Chk("arr", /\ e.kept
                  /\ Len(e.put) = 1 /\ Len(e.put[1]) = 1 /\ Len(e.res) = 1
                  /\ BuiltLeaf(e, e.put[1][1], e.res[1])
                  /\ Calls(e.put[1][1])
                  /\ Range(e.res[1].t) \subseteq Range(e.d))
  /\ k = "tcount" => Chk("tcount", e.out = "ok" => e.cnt = Len(S.ses.rest))
  /\ k = "raw" \/ k = "unraw" \/ k = "leak" =>
       Chk("same.place", SubSeq(Cell(s, Arg(e, 2)), 1, 3) = SubSeq(Cell(pre, Arg(e, 1)), 1, 3))
  /\ k \in {"raw", "unraw", "leak", "mvs", "take", "next", "forget", "free", "iter", "look", "foff"} /\ e.skip = 0 =>
       Chk("quiet", e.d = <<>> /\ e.zd = 0 /\ e.c = <<>> /\ e.nw = <<>> /\ e.al = <<>>)
  /\ (k = "next" /\ e.out = "ok" /\ Len(S.ses.rest) > e.skip) =>
       Chk("next.place", Len(tk) > e.skip /\ Cell(s, Arg(e, 1)) = tk[e.skip + 1])
  /\ (k = "tlast" /\ e.out = "ok" /\ S.ses.rest # <<>>) =>
       Chk("next.place", tk # <<>> /\ Cell(s, Arg(e, 1)) = tk[Len(tk)])
  /\ Chk("stay", \A n \in S0!OwnSlots :
            (S.own[n] # 0 /\ obs.own[n] # 0 /\ Objs[S.own[n]].sz > 0 /\ n \notin {Arg(e, 1), Arg(e, 2)})
               => SubSeq(Cell(s, n), 2, 3) = SubSeq(Cell(pre, n), 2, 3))
  \* storage
  /\ Chk("mem", e.bad = <<>>)
  /\ Chk("tokens", e.badt = <<>>)
  /\ Chk("aligned", \A c \in ElTriples(s) \cup SlotTriples(s) : Aligned(s, c))
  /\ Chk("box.place", \A x \in Boxes(s) : BoxPlaced(s, Tr(s, x)))
  /\ Chk("arena.place", \A x \in Areas(s) : AreaPlaced(Tr(s, x)))
  /\ Chk("arena.apart", \A x, y \in Areas(s) : x # y => Apart(Tr(s, x), Tr(s, y)))
  /\ Chk("distinct", DistinctBlocks(s))
  /\ \A n \in S0!SeqSlots : (n # Arg(e, 2) \/ k # "mvs") => SeqChange(e, n)
  /\ k = "mvs" => Chk("mvs", s.s[Nth(Arg(e, 2))] = pre.s[Nth(Arg(e, 1))])
  \* ownership: what is alive is exactly what somebody owns
  /\ LET orph == oT \cup UNION {ToksOf(o) : o \in Range(S0!Orphaned(S, op))}
         own == S0!HeldToks(obs)
         lt == Range(s.lt)
         z == SumZ(S0!HeldList(obs))
         b == BlocksFor(s, obs)
         refused == e.failed > 0 /\ e.fired = 0 /\ e.wrong = 0
         exact == good \/ k \in {"look", "foff"} \/ refused
         oz == oZ + SumZ(S0!Orphaned(S, op))
         ob == oB + SumNb(S0!Orphaned(S, op))
     IN
     /\ Chk("live.lost", own \subseteq lt)                    \* something owned was destroyed
     /\ Chk("live.orphan", (exact /\ k # "bare") => orph \subseteq lt)  \* something given up was destroyed
     /\ Chk("live.leak", exact => lt \subseteq own \cup orph) \* something was neither kept nor destroyed
     /\ Chk("live.z", IF exact /\ k # "bare" THEN s.z = z + oz ELSE s.z >= z)
     /\ Chk("blocks", IF exact /\ k # "bare" THEN Len(s.lb) = b + ob ELSE Len(s.lb) >= b)
     /\ oT' = lt \ own
     /\ oZ' = s.z - z
     /\ oB' = Len(s.lb) - b
  /\ S' = obs
  /\ pre' = s
  /\ tk' = CASE k = "take" /\ e.out = "ok" -> pre.s[Nth(Arg(e, 1))].el
             [] k = "next" -> SubSeq(tk, S0!Min2(e.skip, Len(tk)) + 2, Len(tk))
             [] OTHER -> tk

Init == l = 1 /\ S = S0!Empty /\ pre = NoSnap /\ tk = <<>> /\ oT = {} /\ oZ = 0 /\ oB = 0
Next ==
  /\ l <= Len(Ev)
  /\ l' = l + 1
  /\ LET e == Ev[l] IN
     CASE e.e = "reset" -> Reset(e)
       [] e.e = "end" -> End(e)
       [] e.e = "crash" -> Crash(e)
       [] OTHER -> OpEvent(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Ev)
===========================================================================
