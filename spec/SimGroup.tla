------------------------------ MODULE SimGroup ------------------------------
(* Random behaviours of GroupSys with the library's constants.             *)
EXTENDS GroupSys, Rng, Json

CONSTANTS Profiles, First, Count, Seed, BaseDepth

VARIABLES id, rng, step, sys, log
vars == <<id, rng, step, sys, log>>
View == <<id, step>>

Profile == Profiles[1 + (id % Len(Profiles))]
Depth == BaseDepth

Init == /\ id \in First..(First + Count - 1)
        /\ rng = RngInit(id, Seed)
        /\ step = 0
        /\ sys = Sys0
        /\ log = <<>>

W == CASE Profile = "gmix"    -> << <<"create", 8>>, <<"process", 16>>, <<"enc", 30>>, <<"dlv", 36>>, <<"tam", 10>>,
                                    <<"redir", 3>>, <<"dup", 4>>, <<"reload", 3>>, <<"reset", 2>>, <<"early", 1>> >>
       [] Profile = "gchat"   -> << <<"create", 3>>, <<"process", 10>>, <<"enc", 42>>, <<"dlv", 50>>, <<"reload", 3>> >>
       [] Profile = "greplay" -> << <<"create", 6>>, <<"process", 14>>, <<"enc", 25>>, <<"dlv", 28>>, <<"dup", 30>>,
                                    <<"reload", 4>>, <<"reset", 1>> >>
       [] Profile = "gforge"  -> << <<"create", 5>>, <<"process", 10>>, <<"enc", 25>>, <<"dlv", 22>>, <<"tam", 40>>,
                                    <<"redir", 8>>, <<"reload", 2>>, <<"early", 2>>, <<"reset", 1>> >>
       [] Profile = "glimits" -> << <<"create", 2>>, <<"process", 4>>, <<"burst", 20>>, <<"enc", 14>>, <<"edge", 36>>,
                                    <<"dlv", 24>>, <<"tam", 4>>, <<"reload", 3>> >>
       [] Profile = "grotate" -> << <<"create", 18>>, <<"process", 26>>, <<"enc", 25>>, <<"dlv", 36>>, <<"dup", 4>>,
                                    <<"reset", 10>>, <<"reload", 3>>, <<"leave", 1>> >>
       [] Profile = "gcrash"  -> << <<"create", 8>>, <<"process", 14>>, <<"enc", 36>>, <<"dlv", 40>>, <<"dup", 6>>,
                                    <<"reset", 3>> >>
       [] Profile = "giso"    -> << <<"create", 10>>, <<"process", 20>>, <<"enc", 30>>, <<"dlv", 32>>, <<"redir", 18>>,
                                    <<"early", 2>>, <<"reload", 2>>, <<"reset", 2>> >>
       [] Profile = "gids"    -> << <<"create", 4>>, <<"process", 12>>, <<"enc", 20>>, <<"dlv", 28>>, <<"spin", 6>>,
                                    <<"reload", 3>>, <<"dup", 3>>, <<"reset", 3>> >>

CrashPct == CASE Profile = "gcrash" -> 35 [] Profile = "gmix" -> 4 [] OTHER -> 0

Rs == RngSeq(rng, 14)
V(k, n) == RngVal(Rs[k], n)

\* Most profiles have one sender and one group for much of the time.
AnyG(k) == IF Profile \in {"giso", "gforge"} \/ (Profile \in {"gmix", "greplay"} /\ V(k, 4) = 0)
             THEN PickSeq(<<"G", "H">>, V(k, 2)) ELSE "G"
AnyS(k) == CASE Profile \in {"giso", "gmix", "gforge"} -> PickSeq(<<"A", "B", "C", "A">>, V(k, 4))
             [] Profile \in {"glimits", "gids"} -> "A"
             [] OTHER -> PickSeq(<<"A", "A", "B">>, V(k, 3))
Other(k, s) == PickSeq(SelectSeq(<<"A", "B", "C">>, LAMBDA x : x # s), V(k, 2))
AnyP(k) == PickSeq(<<"A", "B", "C">>, V(k, 3))

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

CrashAt(k) == IF V(k, 100) < CrashPct THEN PickSeq(<<"rec-", "rec+">>, V(k, 997) \div 7) ELSE "none"
Call(op, p, g, s) == [Call0 EXCEPT !.op = op, !.p = p, !.g = g, !.s = s]

\* What p can still make use of.
Fresh(p) == {m \in 1..Len(sys.net) : <<p, sys.net[m].g, sys.net[m].s, m>> \notin sys.got /\ sys.net[m].s # p}
Ready(p) == {m \in Fresh(p) : \E t \in sys.acc : t[1] = p /\ t[2] = sys.net[m].g /\ t[3] = sys.net[m].s
                                /\ t[4] = sys.net[m].m.id}

GCreate(s, g) == [Call("create", s, g, s) EXCEPT !.crash = CrashAt(9)]

GEnc(n, keep) ==
  LET s == AnyS(3)  g == AnyG(4) IN
  IF sys.rec[s][g][s] # <<>> \/ V(5, 100) < 4
    THEN [Call("enc", s, g, s) EXCEPT !.n = n, !.keep = keep, !.crash = IF n = 1 THEN CrashAt(9) ELSE "none"]
    ELSE GCreate(s, g)
One == GEnc(1, <<0>>)

Unlearnt == {<<p, d>> \in {"A", "B", "C"} \X (1..Len(sys.dist)) :
               p # sys.dist[d].s /\
               ~\E t \in sys.acc : t[1] = p /\ t[2] = sys.dist[d].g /\ t[3] = sys.dist[d].s /\ t[4] = sys.dist[d].d.id}
UnlearntSeq == SetToSortSeq(Unlearnt, LAMBDA x, y : x[2] < y[2] \/ (x[2] = y[2] /\
                  <<"A", "B", "C">>[1] # y[1] /\ (x[1] = "A" \/ (x[1] = "B" /\ y[1] = "C"))))

GProc ==
  IF sys.dist = <<>> THEN One
  ELSE IF Unlearnt # {} /\ V(5, 100) < 65
    THEN LET x == IF V(6, 3) = 0 THEN PickSeq(UnlearntSeq, V(7, 997)) ELSE UnlearntSeq[Len(UnlearntSeq)]
             n == sys.dist[x[2]]
         IN [Call("process", x[1], n.g, n.s) EXCEPT !.d = x[2], !.crash = CrashAt(9)]
    ELSE LET d == 1 + V(6, Len(sys.dist))  n == sys.dist[d]
         IN [Call("process", Other(7, n.s), n.g, n.s) EXCEPT !.d = d, !.crash = CrashAt(9)]

GDlv(p, m) == LET n == sys.net[m] IN [Call("dlv", p, n.g, n.s) EXCEPT !.m = m, !.crash = CrashAt(9)]

AnyMsg(k) == 1 + V(k, Len(sys.net))

GDeliver ==
  LET p == AnyP(3) IN
  IF Ready(p) # {} /\ V(4, 100) < 92
    THEN GDlv(p, IF V(5, 100) < 45 THEN MinOf(Ready(p)) ELSE PickNum(Ready(p), V(6, 997)))
  ELSE IF Fresh(p) # {} THEN GDlv(p, PickNum(Fresh(p), V(6, 997)))
  ELSE One

GEdge ==
  LET p == IF V(3, 5) = 0 THEN "C" ELSE "B" IN
  IF Ready(p) = {} THEN GDeliver
  ELSE GDlv(p, IF V(5, 2) = 0 THEN MaxOf(Ready(p)) ELSE PickNum(Ready(p), V(6, 997)))

\* Bursts reach the limits: the messages around the limits are kept.
GBurst ==
  LET n == PickSeq(<<3, 40, 1998, 1999, 2000, 2001, 2002, 2003, 1000, 1001, 700, 2500>>, V(6, 997))
      ks == {0, 1, n \div 2, n - 2002, n - 2001, n - 2000, n - 1999, n - 1001, n - 1000, n - 2, n - 1} \cap 0..(n - 1)
  IN GEnc(n, SetToSortSeq(ks, <))

GTam ==
  LET p == AnyP(3)
      m == IF Ready(p) # {} /\ V(4, 100) < 75 THEN PickNum(Ready(p), V(5, 997)) ELSE AnyMsg(5)
      n == sys.net[m]
      c == [GDlv(p, m) EXCEPT !.crash = "none"]
      t == PickSeq(<<"ver", "id", "iter", "iter", "ct", "ct", "oct", "sig", "sig", "osig", "forge", "forge", "forge",
                     "junk", "junk">>, V(6, 9973))
      i == PickSeq(<<n.m.i + 1, IF n.m.i > 0 THEN n.m.i - 1 ELSE 1, n.m.i + MaxAhead, n.m.i + MaxAhead + 1, 0,
                     n.m.i + 2>>, V(7, 997))
      ids == {sys.dist[d].d.id : d \in 1..Len(sys.dist)} \ {n.m.id}
      d == 1 + V(8, Len(sys.dist))
  IN IF sys.dist = <<>> THEN One
     ELSE CASE t = "id" -> [c EXCEPT !.tam = t, !.k = IF sys.dist[d].d.id # n.m.id /\ V(7, 3) > 0
                                                      THEN sys.dist[d].d.id ELSE "dZ"]
            [] t \in {"iter", "junk"} -> [c EXCEPT !.tam = t, !.arg = i]
            [] t \in {"oct", "osig"} -> [c EXCEPT !.tam = t, !.arg = AnyMsg(7)]
            [] t = "forge" -> [c EXCEPT !.tam = t, !.arg = IF V(7, 2) = 0 THEN n.m.i ELSE i,
                                 !.k = IF sys.dist[d].d.sig = n.m.sig.by \/ V(9, 2) = 0 THEN AtkSig ELSE sys.dist[d].d.sig]
            [] OTHER -> [c EXCEPT !.tam = t]

\* A genuine message under another sender's or group's name, or a member posing as the sender.
GRedir ==
  LET m == AnyMsg(3) IN
  [Call("dlv", AnyP(4), PickSeq(<<"G", "H">>, V(5, 2)), AnyP(6)) EXCEPT !.m = m]

GEarly == \* sending before there is a key, or with a key that is only received
  [Call("enc", AnyP(3), PickSeq(<<"G", "H">>, V(4, 2)), AnyP(5)) EXCEPT !.keep = <<0>>]

Drain == step >= Depth - Depth \div 5
Choice == IF Drain /\ Profile \notin {"glimits", "gids"} /\ V(2, 100) < 70 THEN "dlv" ELSE WPick(W, V(1, WSum(W)))

Gen ==
  LET op == Choice
      s == AnyS(3)  g == AnyG(4)
  IN CASE step = 0 -> GCreate("A", "G")
       [] step = 1 /\ sys.dist # <<>> -> [Call("process", "B", "G", "A") EXCEPT !.d = 1]
       [] op = "create" -> GCreate(s, g)
       [] op = "process" -> GProc
       [] op = "enc" -> One
       [] op = "burst" -> GBurst
       [] op = "early" -> GEarly
       [] op = "dlv" /\ sys.net # <<>> -> GDeliver
       [] op = "edge" /\ sys.net # <<>> -> GEdge
       [] op = "dup" /\ sys.net # <<>> -> GDlv(AnyP(3), AnyMsg(4))
       [] op = "tam" /\ sys.net # <<>> -> GTam
       [] op = "redir" /\ sys.net # <<>> -> GRedir
       [] op = "reload" -> [Call0 EXCEPT !.op = op, !.p = AnyP(3)]
       [] op = "reset" -> Call("reset", s, g, s)
       [] op = "leave" -> Call("reset", Other(5, s), g, s)
       [] op = "spin" /\ sys.nk["A"] < 4500 ->
            [Call("spin", PickSeq(<<"B", "B", "C">>, V(5, 3)), "G", "A") EXCEPT
               !.n = PickSeq(<<1, 1990, 1998, 1999, 2000, 2, 1000>>, V(6, 997))]
       [] OTHER -> One

Next == /\ step < Depth
        /\ LET r == Exec(sys, Gen) IN sys' = r.S /\ log' = Append(log, r.log)
        /\ step' = step + 1
        /\ rng' = Rs[14]
        /\ UNCHANGED id

Spec == Init /\ [][Next]_vars

Emit == step = Depth =>
          PrintT("@@" \o ToJson([profile |-> Profile, id |-> id, seed |-> Seed, log |-> log]))

InvBad   == NoBad(sys)
InvBound == Bounded(sys)
InvOwned == Owned(sys)
InvErased == step % 8 # 0 \/ (Erased(sys) /\ SenderErased(sys))
=============================================================================
