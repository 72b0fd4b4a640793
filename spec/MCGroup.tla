------------------------------ MODULE MCGroup ------------------------------
(* Exhaustive exploration of GroupSys within small bounds. *)
EXTENDS GroupSys, Json

CONSTANTS MaxSent, MaxKeys, MaxDist, Senders, Tams, Crashes, MaxDepth, MaxReset

VARIABLES sys, cnt, path
vars == <<sys, cnt, path>>
View == <<sys, cnt>>

Init == /\ sys = Sys0
        /\ cnt = [sent |-> 0, reset |-> 0, crash |-> 0]
        /\ path = <<>>

C(op, p, g, s) == [Call0 EXCEPT !.op = op, !.p = p, !.g = g, !.s = s]

Creates(S) ==
  {[C("create", p, g, p) EXCEPT !.crash = x] : p \in Senders, g \in G,
     x \in IF Len(S.dist) >= MaxDist THEN {} ELSE Crashes}

Processes(S) ==
  UNION {{[C("process", p, S.dist[d].g, S.dist[d].s) EXCEPT !.d = d, !.crash = x] :
            p \in P \ {S.dist[d].s}, x \in Crashes} : d \in 1..Len(S.dist)}

Encs(S) ==
  IF cnt.sent >= MaxSent THEN {}
  ELSE {[C("enc", p, g, s) EXCEPT !.keep = <<0>>, !.crash = x] :
          p \in P, g \in G, s \in Senders, x \in Crashes}

Ids(S) == {S.dist[d].d.id : d \in 1..Len(S.dist)}

Dlvs(S) ==
  UNION {
    LET n == S.net[m] IN
    {[C("dlv", p, n.g, n.s) EXCEPT !.m = m, !.crash = x] : p \in P, x \in Crashes}
    \cup (IF "redirect" \in Tams
            THEN {[C("dlv", p, g, s) EXCEPT !.m = m] : p \in P, g \in G, s \in Senders} ELSE {})
    \cup {[C("dlv", p, n.g, n.s) EXCEPT !.m = m, !.tam = t] :
            p \in P, t \in Tams \cap {"ver", "ct", "sig"}}
    \cup {[C("dlv", p, n.g, n.s) EXCEPT !.m = m, !.tam = t, !.arg = o] :
            p \in P, t \in Tams \cap {"oct", "osig"}, o \in (1..Len(S.net)) \ {m}}
    \cup {[C("dlv", p, n.g, n.s) EXCEPT !.m = m, !.tam = t, !.arg = i] :
            p \in P, t \in Tams \cap {"iter", "junk"}, i \in {n.m.i + 1, n.m.i + MaxAhead + 1} \cup
                (IF n.m.i > 0 THEN {n.m.i - 1} ELSE {})}
    \cup {[C("dlv", p, n.g, n.s) EXCEPT !.m = m, !.tam = "forge", !.arg = n.m.i + 1, !.k = AtkSig] :
            p \in IF "forge" \in Tams THEN P ELSE {}}
    \cup {[C("dlv", p, n.g, n.s) EXCEPT !.m = m, !.tam = "id", !.k = k] :
            p \in IF "id" \in Tams THEN P ELSE {}, k \in Ids(S) \ {n.m.id}}
    : m \in 1..Len(S.net)}

Resets(S) ==
  IF cnt.reset >= MaxReset THEN {}
  ELSE {C("reset", p, g, p) : p \in {p \in Senders : S.nk[p] < MaxKeys}, g \in G}

Calls(S) == {c \in Creates(S) \cup Processes(S) \cup Encs(S) \cup Dlvs(S) \cup Resets(S) :
               (c.crash # "none" => cnt.crash = 0)
               /\ (c.op = "create" /\ S.rec[c.p][c.g][c.p] = <<>> => S.nk[c.p] < MaxKeys)}

\* Crash points that are not reached are the plain call again.
Do(c) ==
  LET r == Exec(sys, c) IN
  /\ c.crash # "none" => r.log.crash
  /\ r.S # sys
  /\ sys' = r.S
  /\ cnt' = [sent  |-> cnt.sent + (IF c.op = "enc" /\ r.log.ok THEN 1 ELSE 0),
             reset |-> cnt.reset + (IF c.op = "reset" THEN 1 ELSE 0),
             crash |-> cnt.crash + (IF r.log.crash THEN 1 ELSE 0)]
  /\ path' = Append(path, Brief(r.log))

Next == /\ Len(path) < MaxDepth
        /\ \E c \in Calls(sys) : Do(c)

Spec == Init /\ [][Next]_vars

Emit ==
  LET rs == {Exec(sys, c) : c \in Calls(sys)}
      ok == {r \in rs : r.log.c[12] # "none" => r.log.crash}
  IN PrintT("@@" \o ToJson(
        [path  |-> path,
         loops |-> {Brief(r.log) : r \in {r \in ok : r.S = sys}},
         succ  |-> {r.log : r \in {r \in ok : r.S # sys}}]))

InvBad     == NoBad(sys)
InvDeliver == Deliverable(sys)
InvEarly   == NoEarlier(sys)
InvErased  == Erased(sys)
InvSender  == SenderErased(sys)
InvBounded == Bounded(sys)
InvOwned   == Owned(sys)
=============================================================================
