----------------------------- MODULE SimSession -----------------------------
(* Random behaviours of SessionSys with the library's constants.  Behaviour *)
(* number id is a function of id and Seed; profiles are taken in turn.      *)
EXTENDS SessionSys, Rng, Json

CONSTANTS Profiles, First, Count, Seed, BaseDepth

VARIABLES id, rng, step, sys, log
vars == <<id, rng, step, sys, log>>
View == <<id, step>>

Profile == Profiles[1 + (id % Len(Profiles))]
\* It takes longer to fill an archive, or all chains of a session more than once.
Depth == CASE Profile = "arch" -> 3 * BaseDepth [] Profile = "turns" -> 2 * BaseDepth [] OTHER -> BaseDepth

\* Devices of one user have the same identity key.
Ident0(p) ==
  IF Profile # "linked" THEN IdentName(p, 0)
  ELSE IF p \in PickSeq(<<{"B", "C"}, {"A", "B"}, {"A", "B", "C"}, {"A", "C"}>>, id \div Len(Profiles))
         THEN "iU" ELSE IdentName(p, 0)
Start == [Sys0 EXCEPT !.ps = [p \in P |-> [@[p] EXCEPT !.ident = Ident0(p)]]]

Init == /\ id \in First..(First + Count - 1)
        /\ rng = RngInit(id, Seed)
        /\ step = 0
        /\ sys = Start
        /\ log = <<>>

---------------------------------------------------------------------------
(* Profiles: weights of operations; crashes and pairs *)

W == CASE Profile = "mix"    -> << <<"bundle", 8>>, <<"enc", 36>>, <<"dlv", 38>>, <<"tam", 10>>,
                                   <<"redir", 3>>, <<"reload", 3>>, <<"rotate", 1>>, <<"rmspk", 1>>,
                                   <<"addotk", 2>>, <<"again", 2>>, <<"accept", 1>>,
                                   <<"reinstall", 1>>, <<"delete", 1>>, <<"archive", 2>> >>
       [] Profile = "chat"   -> << <<"bundle", 3>>, <<"enc", 45>>, <<"dlv", 50>>, <<"reload", 3>> >>
       [] Profile = "replay" -> << <<"bundle", 8>>, <<"enc", 27>>, <<"dlv", 30>>, <<"dup", 30>>,
                                   <<"reload", 3>>, <<"strip", 6>>, <<"ever", 4>>, <<"addotk", 2>> >>
       [] Profile = "forge"  -> << <<"bundle", 5>>, <<"enc", 25>>, <<"dlv", 25>>, <<"tam", 40>>,
                                   <<"redir", 5>>, <<"reload", 2>> >>
       [] Profile = "limits" -> << <<"bundle", 2>>, <<"burst", 18>>, <<"enc", 20>>, <<"edge", 30>>,
                                   <<"dlv", 30>>, <<"tam", 4>>, <<"reload", 3>> >>
       [] Profile = "arch"   -> << <<"bundle", 42>>, <<"enc", 30>>, <<"dlv", 22>>, <<"addotk", 8>>,
                                   <<"dup", 3>>, <<"reload", 1>>, <<"archive", 4>> >>
       [] Profile = "chains" -> << <<"bundle", 1>>, <<"enc", 40>>, <<"last", 32>>, <<"dlv", 20>>,
                                   <<"dup", 4>>, <<"tam", 3>> >>
       [] Profile = "turns"  -> << <<"bundle", 1>>, <<"turn", 70>>, <<"some", 6>>, <<"dlv", 12>>, <<"old", 12>>,
                                   <<"dup", 3>>, <<"tam", 3>>, <<"reload", 2>> >>
       [] Profile = "ident"  -> << <<"bundle", 16>>, <<"badbundle", 8>>, <<"enc", 28>>, <<"dlv", 28>>,
                                   <<"redir", 9>>, <<"tam", 4>>, <<"reinstall", 5>>, <<"accept", 6>>,
                                   <<"reload", 1>>, <<"archive", 2>> >>
       [] Profile = "crash"  -> << <<"bundle", 10>>, <<"enc", 40>>, <<"dlv", 44>>, <<"dup", 5>>,
                                   <<"addotk", 3>> >>
       [] Profile = "otk"    -> << <<"bundle", 24>>, <<"enc", 28>>, <<"dlv", 22>>, <<"tam", 10>>,
                                   <<"dup", 5>>, <<"rotate", 3>>, <<"rmspk", 3>>, <<"addotk", 7>>,
                                   <<"delete", 3>>, <<"reload", 2>> >>
       [] Profile = "linked" -> << <<"bundle", 10>>, <<"badbundle", 2>>, <<"enc", 34>>, <<"dlv", 36>>, <<"redir", 6>>,
                                   <<"tam", 8>>, <<"dup", 3>>, <<"reload", 1>>, <<"accept", 1>>,
                                   <<"reinstall", 1>>, <<"delete", 1>>, <<"addotk", 2>> >>
       [] Profile = "iso"    -> << <<"bundle", 10>>, <<"enc", 35>>, <<"dlv", 35>>, <<"redir", 8>>,
                                   <<"tam", 4>>, <<"again", 6>>, <<"delete", 1>>, <<"addotk", 3>> >>

CrashPct == CASE Profile = "crash" -> 35 [] Profile \in {"mix", "otk"} -> 4 [] OTHER -> 0

\* How often the third party takes part, in percent.
ThirdPct == CASE Profile \in {"iso", "linked"} -> 60 [] Profile = "ident" -> 35 [] Profile \in {"mix", "otk", "forge"} -> 20
              [] OTHER -> 0

\* How often a genuine message is taken in order, in percent.
OrderPct == CASE Profile \in {"chat", "limits"} -> 40 [] Profile = "crash" -> 70 [] OTHER -> 50

---------------------------------------------------------------------------

Rs == RngSeq(rng, 14)
V(k, n) == RngVal(Rs[k], n)

\* Two different parties.
Pair(a, b) ==
  IF V(a, 100) >= ThirdPct THEN IF V(b, 2) = 0 THEN <<"A", "B">> ELSE <<"B", "A">>
  ELSE PickSeq(<< <<"A", "C">>, <<"C", "A">>, <<"B", "C">>, <<"C", "B">> >>, V(b, 4))

Undelivered == {m \in 1..Len(sys.net) :
                  <<sys.net[m].to, sys.net[m].from, m>> \notin sys.got}

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

CrashAt(k, kinds) == IF V(k, 100) < CrashPct THEN PickSeq(kinds, V(k, 997) \div 7) ELSE "none"

GBundle(pq) ==
  LET q    == pq[2]
      left == {o.id : o \in sys.pubo[q]} \ (sys.used[q] \cup {LastResort})
      r    == V(5, 100)
      reuse == IF Profile \in {"otk", "mix", "forge"} THEN 12 ELSE 3
      otk  == IF r < 50 /\ left # {} THEN MinOf(left)
              ELSE IF r < 85 - reuse THEN -1
              ELSE IF r < 85 THEN PickNum({o.id : o \in sys.pubo[q]}, V(6, 999))
              ELSE LastResort
      ids  == {s.id : s \in sys.pubs[q]}
      spk  == IF V(7, 100) < 80 THEN MaxOf(ids) ELSE PickNum(ids, V(8, 999))
  IN [Call0 EXCEPT !.op = "bundle", !.p = pq[1], !.q = q, !.src = q,
        !.otk = IF \E o \in sys.pubo[q] : o.id = otk THEN otk ELSE -1, !.spk = spk,
        !.crash = CrashAt(9, <<"rec-", "rec+">>)]

GBadBundle(pq) ==
  LET c == GBundle(pq)
      k == V(10, 12)
  IN CASE k < 2 -> [c EXCEPT !.tam = "sig"]
       [] k < 4 -> [c EXCEPT !.tam = "key"]
       [] k < 6 -> [c EXCEPT !.tam = "ident"]
       [] k < 8 -> [c EXCEPT !.tam = "nospk", !.spk = -1]
       [] k < 9 -> [c EXCEPT !.tam = "own"]
       [] OTHER -> \* the bundle of a third party under this address
            LET t == CHOOSE t \in P : t \notin {pq[1], pq[2]} IN
            [c EXCEPT !.src = t, !.otk = -1, !.spk = MaxOf({s.id : s \in sys.pubs[t]})]

Talk == {<<p, q>> \in P \X P : p # q /\ sys.ps[p].rec[q].cur.has}

\* Encrypt, preferably where there is a session; otherwise set one up.
GEnc(n, keep) ==
  LET pq == Pair(3, 4) IN
  IF pq \in Talk \/ V(5, 100) < 4
    THEN [Call0 EXCEPT !.op = "enc", !.p = pq[1], !.q = pq[2], !.n = n, !.keep = keep,
            !.crash = IF n = 1 THEN CrashAt(9, <<"rec-", "rec+">>) ELSE "none"]
    ELSE GBundle(pq)

One == GEnc(1, <<0>>)

GDlv(m) ==
  LET g == sys.net[m] IN
  [Call0 EXCEPT !.op = "dlv", !.p = g.to, !.q = g.from, !.m = m,
     !.crash = CrashAt(9, <<"rec-", "rec+", "otk-", "otk+", "rec+", "otk-">>)]

AnyMsg(k) == 1 + V(k, Len(sys.net))

\* Keys and numbers the attacker can put into a message.
AnyKey(k) == IF V(k, 3) = 0 THEN AtkKey
             ELSE LET w == sys.net[AnyMsg(k + 1)].m.w IN w.rk
AnyBase(k) == IF V(k, 3) = 0 THEN AtkKey
              ELSE LET e == sys.net[AnyMsg(k + 1)].m.e IN IF e.has THEN e.base ELSE AtkKey
AnyIdent(k) == PickSeq(<<AtkIdent>> \o [j \in 1..3 |-> sys.ps[(<<"A", "B", "C">>)[j]].ident], V(k, 4))

GTam ==
  LET m == IF Undelivered # {} /\ V(3, 100) < 75 THEN PickNum(Undelivered, V(4, 999)) ELSE AnyMsg(4)
      g == sys.net[m].m
      c == [GDlv(m) EXCEPT !.crash = "none"]
      t == PickSeq(IF g.e.has
             THEN <<"ver", "rk", "ctr", "ctr", "prev", "body", "obody", "mac", "omac", "ever", "eotk",
                    "espk", "ebase", "eident", "strip", "wrap", "forge", "reflect", "trunc">>
             ELSE <<"ver", "rk", "ctr", "ctr", "prev", "body", "obody", "mac", "omac", "forge", "forge",
                    "reflect", "trunc", "wrap">>, V(5, 9973))
  IN CASE t = "ctr"  -> [c EXCEPT !.tam = t, !.arg =
                            PickSeq(<<g.w.i + 1, IF g.w.i > 0 THEN g.w.i - 1 ELSE 1, g.w.i + MaxFuture,
                                      g.w.i + MaxFuture + 1, 0, g.w.i + 2>>, V(6, 997))]
       [] t = "prev" -> [c EXCEPT !.tam = t, !.arg = g.w.prev + 1]
       [] t = "rk"   -> [c EXCEPT !.tam = t, !.k = AnyKey(6)]
       [] t = "trunc"-> [c EXCEPT !.tam = "mac"]
       [] t \in {"obody", "omac"} -> [c EXCEPT !.tam = t, !.arg = AnyMsg(6)]
       [] t = "wrap" -> LET o == AnyMsg(6) IN
                        IF sys.net[o].m.e.has THEN [c EXCEPT !.tam = t, !.arg = o] ELSE c
       [] t = "eotk" -> [c EXCEPT !.tam = t, !.arg = PickSeq(<<-1, 1, 2, 3, LastResort, 77>>, V(6, 997))]
       [] t = "espk" -> [c EXCEPT !.tam = t, !.arg = PickSeq(<<1, 2, 3, 77>>, V(6, 997))]
       [] t = "ebase"-> [c EXCEPT !.tam = t, !.k = AnyBase(6)]
       [] t = "eident" -> [c EXCEPT !.tam = t, !.k = AnyIdent(6)]
       [] t = "forge" -> [c EXCEPT !.tam = t, !.spk = PickSeq(<<1, 1, 2>>, V(6, 997)),
                            !.otk = PickSeq(<<-1, 1, 2, 3>>, V(7, 997)),
                            !.k = IF V(8, 2) = 0 THEN sys.ps[c.q].ident ELSE AnyIdent(10)]
       [] t = "reflect" -> [c EXCEPT !.p = sys.net[m].from, !.q = sys.net[m].to]
       [] OTHER -> [c EXCEPT !.tam = t]

\* A genuine message delivered to another party or under another address.
GRedir ==
  LET m == AnyMsg(3)
      to == PickSeq(<<"A", "B", "C">>, V(4, 3))
      as == PickSeq(<<"A", "B", "C">>, V(5, 3))
  IN IF to = as \/ sys.net[m].from = to THEN GDlv(m) ELSE [GDlv(m) EXCEPT !.p = to, !.q = as, !.crash = "none"]

\* Bursts reach the limits: the messages around the limits are kept.
GBurst ==
  LET n == PickSeq(<<3, 40, 1999, 2000, 2001, 2002, 2003, 2500, 4999, 5000, 5001, 5002, 5003, 1200, 900>>,
                   V(6, 997))
      ks == {0, 1, n \div 2, n - 2003, n - 2002, n - 2001, n - 2000, n - 1999, n - 2, n - 1} \cap 0..(n - 1)
  IN GEnc(n, SetToSortSeq(ks, <))

\* Delivery of the newest or the oldest message that is missing.
GEdge ==
  IF Undelivered = {} THEN One
  ELSE GDlv(IF V(3, 2) = 0 THEN MaxOf(Undelivered) ELSE PickNum(Undelivered, V(4, 997)))

GLast == LET S == {m \in Undelivered : m + 4 > Len(sys.net)} IN
         IF S = {} THEN One ELSE GDlv(MaxOf(S))

\* Whoever got the newest message answers; sometimes a message is left behind.
GTurn ==
  IF sys.net = <<>> THEN One ELSE
  LET n == Len(sys.net)
      m == sys.net[n]
      enc(p, q) == IF <<p, q>> \in Talk THEN [Call0 EXCEPT !.op = "enc", !.p = p, !.q = q, !.n = 1, !.keep = <<0>>] ELSE One
  IN IF n \in Undelivered
       THEN IF V(5, 100) < 62 THEN GDlv(n) ELSE enc(m.from, m.to)
       ELSE enc(m.to, m.from)
\* A message of an old chain.
GOld == IF Undelivered = {} THEN GTurn
        ELSE LET k == V(3, 4) S == {m \in Undelivered : Cardinality({o \in Undelivered : o < m}) <= k} IN GDlv(MaxOf(S))

GDeliver ==
  IF Undelivered = {} THEN One
  ELSE GDlv(IF V(3, 100) < OrderPct THEN MinOf(Undelivered) ELSE PickNum(Undelivered, V(4, 997)))

\* The number of the step at which everything still missing is delivered.
Drain == step >= Depth - Depth \div 5

Choice == IF Drain /\ Profile \notin {"limits", "turns"} /\ V(2, 100) < 70 THEN "dlv" ELSE WPick(W, V(1, WSum(W)))

Gen ==
  LET op == Choice
      pq == Pair(3, 4)
      c0 == [Call0 EXCEPT !.op = op, !.p = pq[1], !.q = pq[2]]
  IN CASE op = "bundle" -> GBundle(pq)
       [] op = "badbundle" -> GBadBundle(pq)
       [] op = "enc" -> One
       [] op = "turn" -> GTurn
       [] op = "some" -> LET n == 2 + V(6, 5) IN GEnc(n, [i \in 1..n |-> i - 1])
       [] op = "old" -> GOld
       [] op = "burst" -> IF Talk = {} THEN One ELSE GBurst
       [] op \in {"dlv", "edge", "last"} /\ Len(sys.net) > 0 ->
            IF op = "dlv" THEN GDeliver ELSE IF op = "edge" THEN GEdge ELSE GLast
       [] op = "dup" /\ Len(sys.net) > 0 -> GDlv(AnyMsg(3))
       [] op = "tam" /\ Len(sys.net) > 0 -> GTam
       [] op = "redir" /\ Len(sys.net) > 0 -> GRedir
       [] op \in {"strip", "ever"} /\ Len(sys.net) > 0 ->
            LET m == AnyMsg(3) IN
            IF sys.net[m].m.e.has THEN [GDlv(m) EXCEPT !.tam = op] ELSE GDlv(m)
       [] op = "reload" -> [c0 EXCEPT !.q = "-"]
       [] op = "rotate" /\ sys.nspk[pq[1]] < 4 -> [c0 EXCEPT !.q = "-"]
       [] op = "addotk" -> [c0 EXCEPT !.q = "-"]
       [] op = "rmspk" /\ Cardinality(sys.ps[pq[1]].spk) > 1 ->
            [c0 EXCEPT !.q = "-", !.spk = MinOf({s.id : s \in sys.ps[pq[1]].spk})]
       [] op = "reinstall" /\ sys.gen[pq[1]] < 2 -> [c0 EXCEPT !.q = "-"]
       \* The application remembers the identity of the peer, or that of its previous
       \* installation, or forgets it.
       [] op = "accept" ->
            LET v == V(11, 100) g == sys.gen[pq[2]] IN
            [c0 EXCEPT !.k = IF v < 25 THEN None
                             ELSE IF v < 45 /\ g > 0
                               THEN IF g = 1 THEN Ident0(pq[2]) ELSE IdentName(pq[2], g - 1)
                             ELSE sys.ps[pq[2]].ident]
       [] op \in {"delete", "archive"} -> c0
       [] op = "again" /\ sys.kept # {} ->
            LET ms == {t[2] : t \in sys.kept}
                m  == PickNum(ms, V(5, 997))
            IN [c0 EXCEPT !.p = (CHOOSE t \in sys.kept : t[2] = m)[1], !.q = sys.net[m].from, !.m = m]
       [] OTHER -> One

Next == /\ step < Depth
        /\ LET r == Exec(sys, Gen) IN sys' = r.S /\ log' = Append(log, r.log)
        /\ step' = step + 1
        /\ rng' = Rs[14]
        /\ UNCHANGED id

Spec == Init /\ [][Next]_vars

Emit == step = Depth =>
          PrintT("@@" \o ToJson([profile |-> Profile, id |-> id, seed |-> Seed, log |-> log,
                              idents |-> [p \in P |-> Ident0(p)]]))

InvBad   == NoBad(sys)
InvDup   == NoDuplicates(sys)
InvBound == Bounded(sys)
\* The attacker can set up one handshake in two sessions by delivering it under two
\* addresses, or again after the application deleted the session.
InvAgree == Profile \in {"chat", "replay", "limits", "chains", "crash", "turns"} => Agreement(sys)
InvFresh == FreshRatchets(sys)
=============================================================================
