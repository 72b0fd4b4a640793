------------------------------ MODULE GroupSys ------------------------------
(***************************************************************************)
(* Parties that send to groups with sender keys, the network, and an       *)
(* attacker who is a member: it knows every chain key but no private       *)
(* signing key.  Exec(S, c) is the state after call c and what is seen.    *)
(***************************************************************************)
EXTENDS Group

CONSTANTS P, G   \* parties and groups

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<"0","1","2","3","4","5","6","7","8","9">>[n + 1]
             ELSE Digits(n \div 10) \o Digits(n % 10)

\* Key id, chain and signing key number n of party p have the names
IdName(p, n)  == "d" \o p \o Digits(n)
CkName(p, n)  == "k" \o p \o Digits(n)
SigName(p, n) == "g" \o p \o Digits(n)
AtkSig == "zG"

---------------------------------------------------------------------------
(* Calls                                                                   *)
(*  op   create, process, enc, dlv, reset, reload, spin                    *)
(*  p    the party that acts, on its record for group g and sender s       *)
(*  d    process: number of the distribution message                       *)
(*  n, keep   enc: number of messages, offsets of those that are not lost; *)
(*       spin: number of rotations                                         *)
(*  m, tam, arg, k   dlv: message, modification and its arguments          *)
(*  crash   "none", or before/after the write of the record                *)

Call0 == [op |-> "-", p |-> "-", g |-> "-", s |-> "-", d |-> 0, n |-> 1, keep |-> <<>>,
          m |-> 0, tam |-> "none", arg |-> 0, k |-> "-", crash |-> "none"]

Sys0 ==
  [rec  |-> [p \in P |-> [g \in G |-> [s \in P |-> <<>>]]],
   nk   |-> [p \in P |-> 0],     \* sender keys made so far
   dist |-> <<>>,                \* distribution messages: [d, g, s]
   net  |-> <<>>,                \* messages: [m, g, s, body]
   nm   |-> 0,
   sent |-> {},                  \* <<chain, iteration>> used for encryption: bursts as intervals
   got  |-> {},                  \* <<party, group, sender, message>> accepted
   acc  |-> {},                  \* <<party, group, sender, key id, iteration>>: first processed
   bad  |-> {}]

(* The attacker's modifications of a message *)
Tamper(S, c) ==
  LET m == S.net[c.m].m
      o == IF c.arg >= 1 /\ c.arg <= Len(S.net) THEN S.net[c.arg].m ELSE m
  IN CASE c.tam = "none"  -> m
       [] c.tam = "ver"   -> [m EXCEPT !.ver = 2]
       [] c.tam = "id"    -> [m EXCEPT !.id = c.k]
       [] c.tam = "iter"  -> [m EXCEPT !.i = c.arg]
       [] c.tam = "ct"    -> [m EXCEPT !.ct.body = -2]
       [] c.tam = "oct"   -> [m EXCEPT !.ct = o.ct]
       [] c.tam = "sig"   -> [m EXCEPT !.sig.by = "junk"]
       [] c.tam = "osig"  -> [m EXCEPT !.sig = o.sig]
       \* a member's forgery: a new body under the shared chain key, its own signature
       [] c.tam = "forge" -> Sign([m EXCEPT !.i = c.arg, !.ct = [k |-> m.ct.k, i |-> c.arg, body |-> 0]],
                                  c.k)
       \* the sender signs something that cannot be decrypted
       [] c.tam = "junk"  -> Sign([m EXCEPT !.i = c.arg, !.ct.body = -1], m.sig.by)

---------------------------------------------------------------------------

ShowKey(st) == [id |-> st.id, k |-> st.k, i |-> st.i, sig |-> st.sig, own |-> st.own,
                lo |-> {e \in st.sk : e - 1 \notin st.sk},
                hi |-> {e \in st.sk : e + 1 \notin st.sk}]

\* Long records are shown in part.
ShowRec(r) ==
  LET idx == IF Len(r) <= 12 THEN 1..Len(r) ELSE {1, 2, 3, Len(r) - 2, Len(r) - 1, Len(r)}
      q   == SetToSortSeq(idx, <)
  IN [n |-> Len(r), st |-> [j \in 1..Len(q) |-> [at |-> q[j], st |-> ShowKey(r[q[j]])]]]

ShowCall(c) == <<c.op, c.p, c.g, c.s, c.d, c.n, c.keep, c.m, c.tam, c.arg, c.k, c.crash>>
ShowMsg(m) == [ver |-> m.ver, id |-> m.id, i |-> m.i, k |-> m.ct.k, ci |-> m.ct.i,
               body |-> m.ct.body, by |-> m.sig.by]

Entry(c, ok, why) == [c |-> ShowCall(c), ok |-> ok, why |-> why, how |-> <<>>, crash |-> FALSE,
                      f |-> <<>>, b |-> 0, msgs |-> <<>>, dist |-> <<>>, post |-> <<>>]
Brief(l) == [c |-> l.c, ok |-> l.ok, why |-> l.why, how |-> l.how, crash |-> l.crash, f |-> l.f, b |-> l.b,
             dist |-> l.dist, msgs |-> l.msgs]

\* The record after a call that writes r, given the crash point.
After(old, r, crash) == IF crash = "rec-" THEN old ELSE r

DoCreate(S, c) ==
  LET rec == S.rec[c.p][c.g][c.p]
      new == rec = <<>>
      n   == S.nk[c.p] + 1
      r   == IF new THEN <<NewKey(IdName(c.p, n), CkName(c.p, n), 0, SigName(c.p, n), TRUE)>> ELSE rec
      hit == new /\ c.crash # "none"
      r2  == IF hit THEN After(rec, r, c.crash) ELSE r
      \* keys that never reached the store are forgotten
      S2  == [S EXCEPT !.rec[c.p][c.g][c.p] = r2,
                !.nk[c.p] = IF new /\ r2 # rec THEN n ELSE @,
                !.dist = IF hit THEN @ ELSE Append(@, [d |-> Dist(r[1]), g |-> c.g, s |-> c.p])]
  IN [S |-> S2,
      log |-> [Entry(c, TRUE, "") EXCEPT !.crash = hit,
                 !.f = IF new /\ r2 # rec THEN <<IdName(c.p, n), CkName(c.p, n), SigName(c.p, n)>> ELSE <<>>,
                 !.dist = IF hit THEN <<>> ELSE <<Dist(r[1])>>,
                 !.how = IF new THEN <<"new">> ELSE <<"again">>,
                 !.post = <<ShowRec(r2)>>]]

\* What happened to a key id is forgotten with it.
Forget(S, p, g, s, r) ==
  LET gone(id) == Find(r, id) = 0 IN
  [S EXCEPT !.got = {t \in @ : ~(t[1] = p /\ t[2] = g /\ t[3] = s /\ gone(S.net[t[4]].m.id))},
            !.acc = {t \in @ : ~(t[1] = p /\ t[2] = g /\ t[3] = s /\ gone(t[4]))}]

DoProcess(S, c) ==
  LET d   == S.dist[c.d]
      rec == S.rec[c.p][c.g][c.s]
      r   == GProcess(rec, d.d)
      hit == c.crash # "none"
      r2  == IF hit THEN After(rec, r, c.crash) ELSE r
      S1  == IF Len(r2) < MaxIds \/ r2 = rec THEN S ELSE Forget(S, c.p, c.g, c.s, r2)
      S2  == [S1 EXCEPT !.rec[c.p][c.g][c.s] = r2,
                !.acc = IF r2 # rec /\ Find(rec, d.d.id) = 0 /\ c.g = d.g /\ c.s = d.s
                          THEN @ \cup {<<c.p, c.g, c.s, d.d.id, d.d.i>>} ELSE @]
  IN [S |-> S2,
      log |-> [Entry(c, TRUE, "") EXCEPT !.crash = hit, !.post = <<ShowRec(r2)>>,
                 !.how = (IF Find(rec, d.d.id) # 0 THEN <<"repeat">> ELSE <<>>)
                         \o (IF rec # <<>> /\ Find(rec, d.d.id) = 0 THEN <<"rotated">> ELSE <<>>)]]

DoEnc(S, c) ==
  LET rec == S.rec[c.p][c.g][c.s]
      r   == GEncrypt(rec, c.n)
      hit == r.ok /\ c.crash # "none"
      r2  == IF ~r.ok THEN rec ELSE IF hit THEN After(rec, r.rec, c.crash) ELSE r.rec
      st  == rec[1]
      new == [j \in 1..Len(c.keep) |->
                [m |-> GroupMsg(st, st.i + c.keep[j], S.nm + c.keep[j] + 1),
                 g |-> c.g, s |-> c.s, body |-> S.nm + c.keep[j] + 1]]
      S2  == IF ~r.ok THEN S
             ELSE [S EXCEPT !.rec[c.p][c.g][c.s] = r2, !.nm = @ + c.n,
                     !.net = IF hit THEN @ ELSE @ \o new,
                     !.sent = IF hit THEN @ ELSE @ \cup {<<st.k, st.i, st.i + c.n - 1>>},
                     !.bad = IF ~hit /\ \E t \in S.sent : t[1] = st.k /\ t[3] >= st.i
                               THEN @ \cup {"key reuse"} ELSE @]
  IN [S |-> S2,
      log |-> [Entry(c, r.ok, r.why) EXCEPT !.crash = hit, !.b = S.nm + 1,
                 !.msgs = IF r.ok /\ ~hit THEN [j \in 1..Len(new) |-> ShowMsg(new[j].m)] ELSE <<>>,
                 !.post = <<ShowRec(r2)>>]]

How(rec, m) ==
  LET j == Find(rec, m.id) IN
  IF j = 0 THEN <<>>
  ELSE (IF j < Len(rec) THEN <<"oldid">> ELSE <<>>)
       \o (IF m.i < rec[j].i THEN <<"skipped">> ELSE IF m.i > rec[j].i THEN <<"gap">> ELSE <<>>)

DoDlv(S, c) ==
  LET m   == Tamper(S, c)
      n   == S.net[c.m]
      rec == S.rec[c.p][c.g][c.s]
      r   == GDecrypt(rec, m)
      hit == r.ok /\ c.crash # "none"
      r2  == IF hit THEN After(rec, r.rec, c.crash) ELSE r.rec
      id  == <<c.p, c.g, c.s, c.m>>
      bad == (IF r.ok /\ id \in S.got THEN {"replay"} ELSE {})
             \cup (IF r.ok /\ m # n.m THEN {"forgery"} ELSE {})
             \cup (IF r.ok /\ ~(c.g = n.g /\ c.s = n.s) THEN {"misdelivery"} ELSE {})
             \cup (IF r.ok /\ ~(hit /\ c.crash = "rec-") /\
                      \E j \in 1..Len(r2) : GDerivable(r2[j], m.ct.k, m.i)
                     THEN {"not erased"} ELSE {})
  IN [S |-> [S EXCEPT !.rec[c.p][c.g][c.s] = r2,
               !.got = IF r.ok /\ r2 = r.rec THEN @ \cup {id} ELSE @,
               !.bad = @ \cup bad],
      log |-> [Entry(c, r.ok, r.why) EXCEPT !.crash = hit, !.how = How(rec, m),
                 !.b = IF r.ok THEN n.body ELSE 0,
                 !.post = IF r.ok THEN <<ShowRec(r2)>> ELSE <<>>]]

\* s makes n new sender keys one after another, and p processes all of them.
DoSpin(S, c) ==
  LET n0  == S.nk[c.s]
      st(j) == NewKey(IdName(c.s, n0 + j), CkName(c.s, n0 + j), 0, SigName(c.s, n0 + j), TRUE)
      all == S.rec[c.p][c.g][c.s] \o [j \in 1..c.n |-> [st(j) EXCEPT !.own = FALSE]]
      r   == IF Len(all) > MaxIds THEN SubSeq(all, Len(all) - MaxIds + 1, Len(all)) ELSE all
      S2  == [Forget(S, c.p, c.g, c.s, r) EXCEPT !.rec[c.s][c.g][c.s] = <<st(c.n)>>,
                !.rec[c.p][c.g][c.s] = r,
                !.nk[c.s] = n0 + c.n,
                !.dist = Append(@, [d |-> Dist(st(c.n)), g |-> c.g, s |-> c.s])]
  IN [S |-> S2,
      log |-> [Entry(c, TRUE, "") EXCEPT !.b = n0 + 1,
                 !.dist = <<Dist(st(c.n))>>,
                 !.post = <<ShowRec(r)>>]]

Exec(S, c) ==
  CASE c.op = "create"  -> DoCreate(S, c)
    [] c.op = "process" -> DoProcess(S, c)
    [] c.op = "enc"     -> DoEnc(S, c)
    [] c.op = "dlv"     -> DoDlv(S, c)
    [] c.op = "spin"    -> DoSpin(S, c)
    \* the application forgets a record, for a new sender key or to leave the group
    [] c.op = "reset"   -> [S |-> [S EXCEPT !.rec[c.p][c.g][c.s] = <<>>,
                                     !.got = {t \in @ : ~(t[1] = c.p /\ t[2] = c.g /\ t[3] = c.s)},
                                     !.acc = {t \in @ : ~(t[1] = c.p /\ t[2] = c.g /\ t[3] = c.s)}],
                            log |-> Entry(c, TRUE, "")]
    [] c.op = "reload"  -> [S |-> S, log |-> Entry(c, TRUE, "")]

---------------------------------------------------------------------------
(* Properties of the design *)

NoBad(S) == S.bad = {}

\* Every message of a key id the member learnt in time can still be decrypted, unless it was,
\* or it is too far ahead, or behind more later messages than keys are kept.
Deliverable(S) ==
  \A m \in 1..Len(S.net) : \A p \in P :
    LET n == S.net[m]  r == S.rec[p][n.g][n.s]  j == Find(r, n.m.id) IN
    (<<p, n.g, n.s, m>> \notin S.got /\ p # n.s
     /\ (\E t \in S.acc : t[1] = p /\ t[2] = n.g /\ t[3] = n.s /\ t[4] = n.m.id /\ t[5] <= n.m.i)
     /\ (j # 0 => /\ n.m.i <= r[j].i + MaxAhead
                  /\ n.m.i >= r[j].i - 1 - MaxKept))
      => GDecrypt(r, n.m).ok

\* No access to what was sent before the position of the distribution message.
NoEarlier(S) ==
  \A m \in 1..Len(S.net) : \A p \in P :
    LET n == S.net[m] IN
    (p # n.s /\ \A t \in S.acc : t[1] = p /\ t[4] = n.m.id => t[5] > n.m.i)
      => \A j \in 1..Len(S.rec[p][n.g][n.s]) :
           ~GDerivable(S.rec[p][n.g][n.s][j], n.m.ct.k, n.m.i)

\* Used keys are gone.
Erased(S) ==
  \A t \in S.got :
    LET r == S.rec[t[1]][t[2]][t[3]]  m == S.net[t[4]].m
    IN \A j \in 1..Len(r) : ~GDerivable(r[j], m.ct.k, m.i)

\* The sender cannot decrypt what it sent.
SenderErased(S) ==
  \A m \in 1..Len(S.net) :
    LET n == S.net[m]  r == S.rec[n.s][n.g][n.s]
    IN (r # <<>> /\ r[1].own) => ~GDerivable(r[1], n.m.ct.k, n.m.i)

Bounded(S) ==
  \A p \in P : \A g \in G : \A s \in P :
    /\ Len(S.rec[p][g][s]) <= MaxIds
    /\ \A j \in 1..Len(S.rec[p][g][s]) : Cardinality(S.rec[p][g][s][j].sk) <= MaxKept

\* Private signing keys never leave their owner.
Owned(S) ==
  \A p \in P : \A g \in G : \A s \in P : \A j \in 1..Len(S.rec[p][g][s]) :
    S.rec[p][g][s][j].own => p = s
=============================================================================
