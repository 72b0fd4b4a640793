----------------------------- MODULE MCSession -----------------------------
(* Exhaustive exploration of SessionSys within small bounds. *)
EXTENDS SessionSys, Json

CONSTANTS MaxSent, MaxBundles, Ops, Tams, Crashes, MaxDepth, UseOtk

VARIABLES sys, cnt, path
vars == <<sys, cnt, path>>
View == <<sys, cnt>>

Init == /\ sys = Sys0
        /\ cnt = [sent |-> 0, bundles |-> 0, crash |-> 0]
        /\ path = <<>>

C(op, p, q) == [Call0 EXCEPT !.op = op, !.p = p, !.q = q]

\* The one-time prekey the server hands out next.
NextOtk(S, q) ==
  LET left == {o.id : o \in S.pubo[q]} \ (S.used[q] \cup {LastResort})
  IN IF left = {} THEN -1 ELSE CHOOSE i \in left : \A j \in left : i <= j

Bundles(S) ==
  IF cnt.bundles >= MaxBundles THEN {}
  ELSE {[C("bundle", p, q) EXCEPT !.src = q, !.spk = 1,
           !.otk = IF u THEN NextOtk(S, q) ELSE -1, !.crash = x] :
          p \in P, q \in P, u \in UseOtk, x \in Crashes \ {"otk-", "otk+"}}

Encs(S) ==
  IF cnt.sent >= MaxSent THEN {}
  ELSE {[C("enc", p, q) EXCEPT !.keep = <<0>>, !.crash = x] :
          p \in P, q \in P, x \in Crashes \ {"otk-", "otk+"}}

Dlvs(S) ==
  UNION {
    LET g == S.net[m] IN
    {[C("dlv", g.to, g.from) EXCEPT !.m = m, !.crash = x] : x \in Crashes}
    \cup (IF "reflect" \in Tams THEN {[C("dlv", g.from, g.to) EXCEPT !.m = m]} ELSE {})
    \cup (IF "redirect" \in Tams
            THEN {[C("dlv", t, q) EXCEPT !.m = m] : t \in P, q \in P} ELSE {})
    \cup {[C("dlv", g.to, g.from) EXCEPT !.m = m, !.tam = t] :
            t \in Tams \cap ({"ver", "body", "mac", "ever", "strip"}
                             \ (IF g.m.e.has THEN {} ELSE {"ever", "strip"}))}
    \cup {[C("dlv", g.to, g.from) EXCEPT !.m = m, !.tam = t, !.arg = o] :
            t \in Tams \cap ({"obody", "omac"} \cup IF g.m.e.has THEN {"wrap"} ELSE {}),
            o \in {j \in 1..Len(S.net) : j # m}}
    \cup (IF "ctr" \in Tams
            THEN {[C("dlv", g.to, g.from) EXCEPT !.m = m, !.tam = "ctr", !.arg = g.m.w.i + 1]}
            ELSE {})
    \cup (IF "rk" \in Tams
            THEN {[C("dlv", g.to, g.from) EXCEPT !.m = m, !.tam = "rk", !.k = AtkKey]} ELSE {})
    \cup (IF "forge" \in Tams
            THEN {[C("dlv", g.to, g.from) EXCEPT !.m = m, !.tam = "forge", !.spk = 1,
                     !.otk = o, !.k = i] :
                    o \in {-1, 2}, i \in {AtkIdent, S.ps[g.from].ident}} ELSE {})
    : m \in 1..Len(S.net)}

Others(S) ==
  UNION {{C(op, p, q) : p \in P, q \in P} : op \in Ops \cap {"delete", "archive"}}
  \cup {[C("accept", p, q) EXCEPT !.k = S.ps[q].ident] :
          p \in IF "accept" \in Ops THEN P ELSE {}, q \in P}
  \cup {C("reinstall", p, "-") : p \in {p \in P : "reinstall" \in Ops /\ S.gen[p] = 0}}

Valid(c) == c.p # c.q
Calls(S) == {c \in Bundles(S) \cup Encs(S) \cup Dlvs(S) \cup Others(S) :
               Valid(c) /\ (c.op = "bundle" => c.src # c.p)
               /\ (c.crash # "none" => cnt.crash = 0)}

\* Crash points that are not reached are the plain call again.
Do(c) ==
  LET r == Exec(sys, c) IN
  /\ c.crash # "none" => r.log.crash
  /\ r.S # sys
  /\ sys' = r.S
  /\ cnt' = [sent    |-> cnt.sent + (IF c.op = "enc" THEN 1 ELSE 0),
             bundles |-> cnt.bundles + (IF c.op = "bundle" THEN 1 ELSE 0),
             crash   |-> cnt.crash + (IF r.log.crash THEN 1 ELSE 0)]
  /\ path' = Append(path, Brief(r.log))

Next == /\ Len(path) < MaxDepth
        /\ \E c \in Calls(sys) : Do(c)

Spec == Init /\ [][Next]_vars

\* For every state reached: the calls that lead to it, those that change nothing, and
\* those that change something, each with what has to be observed.
Emit ==
  LET rs == {Exec(sys, c) : c \in Calls(sys)}
      ok == {r \in rs : r.log.c[13] # "none" => r.log.crash}
  IN PrintT("@@" \o ToJson(
        [path  |-> path,
         loops |-> {Brief(r.log) : r \in {r \in ok : r.S = sys}},
         succ  |-> {r.log : r \in {r \in ok : r.S # sys}}]))

InvBad     == NoBad(sys)
InvAgree   == Agreement(sys)
InvFresh   == FreshRatchets(sys)
InvErased  == Erased(sys)
InvBounded == Bounded(sys)
InvNoDup   == NoDuplicates(sys)
InvDeliver == Deliverable(sys)
InvUnique  == UniqueKeys(sys)
InvHand    == HandshakeUntilAck(sys)
InvConv    == \A p, q \in P : p # q => Converges(sys, p, q)
=============================================================================
