------------------------------- MODULE Records -------------------------------
(* Session records as containers: programs of the operations of a record and *)
(* its states. Each shows what was put into it, nothing else changes, lists  *)
(* are bounded and give up what is oldest, what is not there is not found    *)
(* and not removed, copies are independent, and a record that is saved and   *)
(* loaded at any point is the same.                                          *)
(* Numbers are names of numbers (0, 1, ..., the greatest), see the replay.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Inits, MaxChains, MaxKeys, MaxArch

Range(f) == {f[x] : x \in DOMAIN f}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Last(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s
First(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s

NoState == [ver |-> 0, base |-> "", lid |-> "", rid |-> "", lreg |-> 0, rreg |-> 0, root |-> "", pctr |-> 0,
            snd |-> <<>>, rcv |-> <<>>, pend |-> <<>>, kex |-> <<>>]
Snd(k, c, n) == [k |-> k, c |-> c, n |-> n]
Rcv(k, c, n, m) == [k |-> k, c |-> c, n |-> n, m |-> m]
Filled(b) == [NoState EXCEPT !.ver = 3, !.base = b, !.lid = "l", !.rid = "r", !.lreg = 1, !.rreg = 3, !.root = "o",
                             !.snd = <<Snd("s", "c", 0)>>]
Upto(n) == [i \in 1..n |-> i]
Rich == [Filled("b") EXCEPT !.pctr = 2,
            !.rcv = <<Rcv("k1", "c1", 1, <<4, 2, 1>>), Rcv("k2", "c2", 3, <<>>)>>,
            !.pend = <<[otk |-> 0, spk |-> 3, base |-> "b"]>>, !.kex = <<2>>]
Full == [Filled("b") EXCEPT !.rcv = [i \in 1..MaxChains |->
            Rcv(<<"k1", "k2", "k3", "k4", "k5", "k6">>[i], "c1", 1, IF i = 2 THEN Upto(MaxKeys) ELSE <<>>)]]
Rec(cur, prevs, fresh) == [cur |-> cur, prevs |-> prevs, fresh |-> fresh]
Start == [empty |-> Rec(NoState, <<>>, TRUE),
          filled |-> Rec(Filled("b"), <<>>, FALSE),
          rich |-> Rec(Rich, <<Filled("b2"), [Rich EXCEPT !.base = "b3"]>>, FALSE),
          chains |-> Rec(Full, <<>>, FALSE),
          arch |-> Rec(Filled("b"), [i \in 1..MaxArch |-> Filled(IF i % 2 = 0 THEN "b2" ELSE "b3")], FALSE)]

VARIABLES init, heap, prog
vars == <<init, heap, prog>>

Init == init \in Inits /\ heap = <<Start[init]>> /\ prog = <<>>

Op(op, r, t, a, b, n, m) == [op |-> op, r |-> r, t |-> t, a |-> a, b |-> b, n |-> n, m |-> m]
Put(r, rec, o) == heap' = [heap EXCEPT ![r] = rec] /\ prog' = Append(prog, o) /\ UNCHANGED init

\* the state that an operation is about: the current one or an archived one
At(rec, t) == IF t = 0 THEN rec.cur ELSE rec.prevs[t]
With(rec, t, s) == IF t = 0 THEN [rec EXCEPT !.cur = s] ELSE [rec EXCEPT !.prevs[t] = s]
Targets(rec) == {0} \cup {t \in {1} : t \in DOMAIN rec.prevs}

HasChain(s, k) == \E i \in DOMAIN s.rcv : s.rcv[i].k = k
ChainOf(s, k) == CHOOSE i \in DOMAIN s.rcv : s.rcv[i].k = k /\ \A j \in 1..(i - 1) : s.rcv[j].k # k
HasKey(c, m) == \E i \in DOMAIN c.m : c.m[i] = m
KeyAt(c, m) == CHOOSE i \in DOMAIN c.m : c.m[i] = m /\ \A j \in 1..(i - 1) : c.m[j] # m

Num(r, f, n) == At(heap[r], 0)[f] # n /\ Put(r, With(heap[r], 0, [heap[r].cur EXCEPT ![f] = n]), Op("num", r, 0, f, "", n, 0))
Key(r, f, a) == At(heap[r], 0)[f] # a /\ Put(r, With(heap[r], 0, [heap[r].cur EXCEPT ![f] = a]), Op("key", r, 0, f, a, 0, 0))
Fill(r) == Put(r, With(heap[r], 0, [Filled("b2") EXCEPT !.rcv = heap[r].cur.rcv, !.pend = heap[r].cur.pend, !.kex = heap[r].cur.kex,
                                                        !.pctr = heap[r].cur.pctr]), Op("fill", r, 0, "b2", "", 0, 0))
Sender(r, k, n) == Put(r, With(heap[r], 0, [heap[r].cur EXCEPT !.snd = <<Snd(k, "c2", n)>>]), Op("sender", r, 0, k, "c2", n, 0))
SenderKey(r, n) == heap[r].cur.snd # <<>> /\
    Put(r, With(heap[r], 0, [heap[r].cur EXCEPT !.snd[1].c = "c1", !.snd[1].n = n]), Op("senderkey", r, 0, "", "c1", n, 0))
AddChain(r, k, n) ==
    Put(r, With(heap[r], 0, [heap[r].cur EXCEPT !.rcv = Last(Append(@, Rcv(k, "c1", n, <<>>)), MaxChains)]), Op("addchain", r, 0, k, "c1", n, 0))
ChainKey(r, t, k, n) ==
    LET s == At(heap[r], t) IN
    /\ HasChain(s, k)
    /\ Put(r, With(heap[r], t, [s EXCEPT !.rcv[ChainOf(s, k)].c = "c2", !.rcv[ChainOf(s, k)].n = n]), Op("chainkey", r, t, k, "c2", n, 0))
AddKey(r, t, k, m) ==
    LET s == At(heap[r], t) IN
    /\ HasChain(s, k)
    /\ Put(r, With(heap[r], t, [s EXCEPT !.rcv[ChainOf(s, k)].m = Last(Append(@, m), MaxKeys)]), Op("addkey", r, t, k, "", 0, m))
\* b says whether something is removed
RemoveKey(r, t, k, m) ==
    LET s == At(heap[r], t)
        has == HasChain(s, k) /\ HasKey(s.rcv[ChainOf(s, k)], m) IN
    Put(r, IF has THEN With(heap[r], t, [s EXCEPT !.rcv[ChainOf(s, k)].m = Without(@, KeyAt(s.rcv[ChainOf(s, k)], m))]) ELSE heap[r],
        Op("removekey", r, t, k, IF has THEN "yes" ELSE "no", 0, m))
Pend(r, otk) == Put(r, With(heap[r], 0, [heap[r].cur EXCEPT !.pend = <<[otk |-> otk, spk |-> 0, base |-> "b3"]>>]), Op("pend", r, 0, "b3", "", otk, 0))
Clear(r) == Put(r, With(heap[r], 0, [heap[r].cur EXCEPT !.pend = <<>>]), Op("clear", r, 0, "", "", 0, 0))
Kex(r, n) == Put(r, With(heap[r], 0, [heap[r].cur EXCEPT !.kex = <<n>>]), Op("kex", r, 0, "", "", n, 0))

Promoted(rec, s) == [rec EXCEPT !.prevs = First(IF rec.cur.snd # <<>> THEN <<rec.cur>> \o @ ELSE @, MaxArch), !.cur = s]
Archive(r) == Put(r, Promoted(heap[r], NoState), Op("archive", r, 0, "", "", 0, 0))
Promote(r, j) == j \in DOMAIN heap[r].prevs /\
    Put(r, Promoted([heap[r] EXCEPT !.prevs = Without(@, j)], heap[r].prevs[j]), Op("promote", r, j, "", "", 0, 0))
Drop(r, j) == j \in DOMAIN heap[r].prevs /\ Put(r, [heap[r] EXCEPT !.prevs = Without(@, j)], Op("drop", r, j, "", "", 0, 0))
SetState(r) == Put(r, [heap[r] EXCEPT !.cur = Filled("b4")], Op("setstate", r, 0, "b4", "", 0, 0))

Copy(r) == Len(heap) < 2 /\ heap' = Append(heap, heap[r]) /\ prog' = Append(prog, Op("copy", r, 0, "", "", 0, 0)) /\ UNCHANGED init

\* what has a sender chain has everything else before it is saved
Complete(s) == s.snd # <<>> => s.base # "" /\ s.lid # "" /\ s.rid # "" /\ s.root # ""
Loaded(s) == IF s.snd # <<>> THEN s ELSE [NoState EXCEPT !.kex = s.kex]
Reload(r) == (\A t \in 0..Len(heap[r].prevs) : Complete(At(heap[r], t))) /\
    Put(r, Rec(Loaded(heap[r].cur), heap[r].prevs, FALSE), Op("reload", r, 0, "", "", 0, 0))

Next ==
    /\ Len(prog) < MaxOps
    /\ \E r \in DOMAIN heap :
        \/ \E f \in {"lreg", "rreg", "pctr"} : Num(r, f, 3)
        \/ Num(r, "pctr", 0) \/ Num(r, "ver", 2)
        \/ \E f \in {"lid", "rid", "base", "root"} : Key(r, f, "x")
        \/ Fill(r) \/ Sender(r, "k1", 3) \/ SenderKey(r, 1)
        \/ AddChain(r, "k1", 0) \/ AddChain(r, "k7", 2)
        \/ \E t \in Targets(heap[r]) :
            \/ ChainKey(r, t, "k1", 3) \/ ChainKey(r, t, "k2", 2)
            \/ AddKey(r, t, "k2", 9999) \/ AddKey(r, t, "k1", 2)
            \/ RemoveKey(r, t, "k1", 4) \/ RemoveKey(r, t, "k1", 7) \/ RemoveKey(r, t, "k2", 7) \/ RemoveKey(r, t, "k2", 9999) \/ RemoveKey(r, t, "k9", 1)
        \/ Pend(r, -1) \/ Pend(r, 3) \/ Clear(r) \/ Kex(r, 3)
        \/ Archive(r) \/ \E j \in {1, 2, MaxArch} : Promote(r, j) \/ Drop(r, j)
        \/ SetState(r) \/ Copy(r) \/ Reload(r)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Bounded == \A r \in DOMAIN heap : Len(heap[r].prevs) <= MaxArch /\ \A t \in 0..Len(heap[r].prevs) :
              Len(At(heap[r], t).rcv) <= MaxChains /\ \A i \in DOMAIN At(heap[r], t).rcv : Len(At(heap[r], t).rcv[i].m) <= MaxKeys
\* whoever looks into the archive finds sessions that can send
Archived == \A r \in DOMAIN heap : \A j \in DOMAIN heap[r].prevs : heap[r].prevs[j].snd # <<>>
Alone == [][\A r \in DOMAIN heap : prog'[Len(prog')].r # r \/ prog'[Len(prog')].op = "copy" => heap'[r] = heap[r]]_vars
SavedIsSame == [][prog'[Len(prog')].op = "reload" /\ heap[prog'[Len(prog')].r].cur.snd # <<>> =>
                   LET r == prog'[Len(prog')].r IN heap'[r].cur = heap[r].cur /\ heap'[r].prevs = heap[r].prevs]_vars

Emit == Len(prog) = MaxOps => PrintT("@@" \o ToJson([init |-> init, from |-> <<Start[init]>>, prog |-> prog, heap |-> heap]))
=============================================================================
