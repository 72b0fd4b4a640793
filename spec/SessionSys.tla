----------------------------- MODULE SessionSys -----------------------------
(***************************************************************************)
(* A system of parties with one-to-one sessions, the network between them, *)
(* and an attacker.  Every call of the application or action of the        *)
(* attacker is a record c; Exec(S, c) is the state after it and what an    *)
(* observer sees.                                                          *)
(***************************************************************************)
EXTENDS Session

CONSTANTS P   \* the parties, e.g. {"A", "B", "C"}; C is a second device of B's user

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<"0","1","2","3","4","5","6","7","8","9">>[n + 1]
             ELSE Digits(n \div 10) \o Digits(n % 10)

IdentName(p, g) == "i" \o p \o Digits(g)
SpkName(p, n)   == "s" \o p \o Digits(n)
OtkName(p, n)   == "o" \o p \o Digits(n)
RatName(p, n)   == "r" \o p \o Digits(n)

AtkIdent == "zI"     \* the attacker's keys
AtkSpk   == "zS"
AtkKey   == "z0"

RegOf(p, g) == (CASE p = "A" -> 101 [] p = "B" -> 202 [] OTHER -> 303) + 1000 * g

---------------------------------------------------------------------------
(* Calls.  One shape for all:                                              *)
(*  op   bundle, enc, dlv, reload, reinstall, accept, delete, archive,     *)
(*       rotate, rmspk, addotk, again                                      *)
(*  p    the party that acts; q the address of the session                 *)
(*  src  bundle: whose bundle; otk, spk: the prekeys in it                 *)
(*  n, keep   enc: number of messages and the offsets of those that are    *)
(*       sent (the others are lost)                                        *)
(*  m, tam, arg, k   dlv: message, modification and its arguments          *)
(*  crash   "none", or the store write at which the process dies           *)

Call0 == [op |-> "-", p |-> "-", q |-> "-", src |-> "-", otk |-> -1, spk |-> -1,
          n |-> 1, keep |-> <<>>, m |-> 0, tam |-> "none", arg |-> 0, k |-> "-",
          crash |-> "none"]

NoMsgRec == [m |-> [e |-> NoEnv, w |-> [ver |-> 0]], from |-> "-", to |-> "-", body |-> 0]

Sys0 ==
  [ps |-> [p \in P |->
            [NewParty(IdentName(p, 0), RegOf(p, 0), P \ {p}) EXCEPT
               !.spk = {[id |-> 1, k |-> SpkName(p, 1)]},
               !.otk = {[id |-> i, k |-> OtkName(p, i)] : i \in 1..2}
                       \cup {[id |-> LastResort, k |-> OtkName(p, 0)]}]],
   gen  |-> [p \in P |-> 0],                \* installations so far
   nspk |-> [p \in P |-> 1], notk |-> [p \in P |-> 2], nk |-> [p \in P |-> 0],
   \* what the prekey server ever handed out or could hand out
   pubs |-> [p \in P |-> {[id |-> 1, k |-> SpkName(p, 1)]}],
   pubo |-> [p \in P |-> {[id |-> i, k |-> OtkName(p, i)] : i \in 1..2}
                         \cup {[id |-> LastResort, k |-> OtkName(p, 0)]}],
   used |-> [p \in P |-> {}],               \* one-time prekeys handed out
   net  |-> <<>>,                           \* every message sent: [m, from, to, body]
   nm   |-> 0,                              \* number of bodies
   got  |-> {},                             \* <<party, address, message>> accepted
   kept |-> {},                             \* <<party, message>>: message key was returned
   bad  |-> {}]

---------------------------------------------------------------------------
(* The attacker's modifications of a message *)

Tamper(S, c) ==
  LET m == S.net[c.m].m
      o == IF c.arg >= 1 /\ c.arg <= Len(S.net) THEN S.net[c.arg].m ELSE m
  IN CASE c.tam = "none"  -> m
       [] c.tam = "ver"   -> [m EXCEPT !.w.ver = 2]
       [] c.tam = "rk"    -> [m EXCEPT !.w.rk = c.k]
       [] c.tam = "ctr"   -> [m EXCEPT !.w.i = c.arg]
       [] c.tam = "prev"  -> [m EXCEPT !.w.prev = c.arg]
       [] c.tam = "body"  -> [m EXCEPT !.w.body = -1]
       [] c.tam = "obody" -> [m EXCEPT !.w.body = o.w.body]
       [] c.tam = "mac"   -> [m EXCEPT !.w.mac.junk = TRUE]
       [] c.tam = "omac"  -> [m EXCEPT !.w.mac = o.w.mac]
       [] c.tam = "ever"  -> [m EXCEPT !.e.ver = 2]
       [] c.tam = "eotk"  -> [m EXCEPT !.e.otk = c.arg]
       [] c.tam = "espk"  -> [m EXCEPT !.e.spk = c.arg]
       [] c.tam = "ebase" -> [m EXCEPT !.e.base = c.k]
       [] c.tam = "eident"-> [m EXCEPT !.e.ident = c.k]
       [] c.tam = "strip" -> [m EXCEPT !.e = NoEnv]
       [] c.tam = "wrap"  -> [m EXCEPT !.e = o.e]
       \* a handshake made up by the attacker around a genuine message
       [] c.tam = "forge" -> [m EXCEPT !.e = [has |-> TRUE, ver |-> 3, reg |-> 7,
                                otk |-> c.otk, spk |-> c.spk, base |-> AtkKey,
                                ident |-> c.k]]

---------------------------------------------------------------------------
(* Crashes.  A process that dies before/after a write keeps the writes     *)
(* before it.                                                              *)

EffIdx(effs, t) == IF \E j \in 1..Len(effs) : effs[j].t = t
                   THEN CHOOSE j \in 1..Len(effs) : effs[j].t = t ELSE 0

\* The writes that happen, given the crash point.
Survive(effs, crash) ==
  CASE crash = "none" -> effs
    [] crash = "rec-" -> SubSeq(effs, 1, EffIdx(effs, "rec") - 1)
    [] crash = "rec+" -> SubSeq(effs, 1, EffIdx(effs, "rec"))
    [] crash = "otk-" -> SubSeq(effs, 1, EffIdx(effs, "rmotk") - 1)
    [] crash = "otk+" -> SubSeq(effs, 1, EffIdx(effs, "rmotk"))

Hits(effs, crash) ==
  CASE crash = "none" -> FALSE
    [] crash \in {"rec-", "rec+"} -> EffIdx(effs, "rec") # 0
    [] crash \in {"otk-", "otk+"} -> EffIdx(effs, "rmotk") # 0

---------------------------------------------------------------------------
(* What an observer sees of a session record: the message key sets are     *)
(* given by the starts and ends of their intervals.                        *)

ShowChain(c) == [k |-> c.k, n |-> c.n, i |-> c.i,
                 lo |-> {e \in c.sk : e - 1 \notin c.sk},
                 hi |-> {e \in c.sk : e + 1 \notin c.sk}]

ShowSt(st) == [x |-> st.x, dhs |-> st.dhs, snd |-> st.snd,
               rcv |-> [j \in 1..Len(st.rcv) |-> ShowChain(st.rcv[j])],
               pend |-> st.pend, prev |-> st.prev, li |-> st.li, ri |-> st.ri,
               lreg |-> st.lreg, rreg |-> st.rreg, base |-> st.base]

ShowRec(r) == [has |-> r.cur.has,
               cur |-> IF r.cur.has THEN <<ShowSt(r.cur)>> ELSE <<>>,
               prevs |-> [j \in 1..Len(r.prevs) |-> ShowSt(r.prevs[j])]]

ShowParty(ps, q) == [rec |-> ShowRec(ps.rec[q]), pin |-> ps.pin[q],
                     otk |-> {o.id : o \in ps.otk}, spk |-> {o.id : o \in ps.spk}]

ShowW(w) == [ver |-> w.ver, rk |-> w.rk, i |-> w.i, prev |-> w.prev, body |-> w.body,
             x |-> w.mac.x, dhs |-> w.mac.dhs, li |-> w.mac.li, ri |-> w.mac.ri]

---------------------------------------------------------------------------

\* c: the call; ok, why: its result; crash: did the process die?  f: names of the key pairs
\* generated; b: body; msgs: the messages produced; post: what is stored afterwards.
ShowCall(c) == <<c.op, c.p, c.q, c.src, c.otk, c.spk, c.n, c.keep, c.m, c.tam, c.arg, c.k, c.crash>>

Entry(c, ok, why) == [c |-> ShowCall(c), ok |-> ok, why |-> why, how |-> <<>>, crash |-> FALSE,
                      f |-> <<>>, b |-> 0, msgs |-> <<>>, post |-> <<>>]

\* The same without the observations.
Brief(l) == [c |-> l.c, ok |-> l.ok, why |-> l.why, how |-> l.how, crash |-> l.crash, f |-> l.f, b |-> l.b]

PostOf(ok, ps, q) == IF ok THEN <<ShowParty(ps, q)>> ELSE <<>>

Quiet(S, S2, c) == [S |-> S2, log |-> Entry(c, TRUE, "")]

\* Apply the writes of result r (of party c.p) as far as a crash lets them happen.
Finish(S, c, r) ==
  [S EXCEPT !.ps[c.p] = ApplyEffs(@, Survive(r.effs, IF Hits(r.effs, c.crash)
                                                     THEN c.crash ELSE "none"))]

DoBundle(S, c) ==
  LET own == c.tam = "own"        \* the attacker's own, properly signed bundle
      b == [ident |-> IF own \/ c.tam = "ident" THEN AtkIdent ELSE S.ps[c.src].ident,
            reg |-> S.ps[c.src].reg,
            spk |-> c.spk,
            spkk |-> IF c.spk = -1 THEN None
                     ELSE IF own \/ c.tam = "key" THEN AtkSpk ELSE Lookup(S.pubs[c.src], c.spk),
            otk |-> c.otk,
            otkk |-> IF c.otk = -1 THEN None
                     ELSE IF own THEN AtkKey ELSE Lookup(S.pubo[c.src], c.otk),
            sig |-> c.tam \in {"none", "own"}]
      r == ProcessBundle(S.ps[c.p], c.q, b, RatName(c.p, S.nk[c.p] + 1),
                         RatName(c.p, S.nk[c.p] + 2))
      S1 == IF c.otk = -1 \/ c.otk = LastResort THEN S
            ELSE [S EXCEPT !.used[c.src] = @ \cup {c.otk}]
      S2 == IF r.ok THEN [Finish(S1, c, r) EXCEPT !.nk[c.p] = @ + 2] ELSE S1
  IN [S |-> S2,
      log |-> [Entry(c, r.ok, r.why) EXCEPT !.crash = Hits(r.effs, c.crash),
                 !.f = IF r.ok THEN <<RatName(c.p, S.nk[c.p] + 1), RatName(c.p, S.nk[c.p] + 2)>>
                       ELSE <<>>,
                 !.post = PostOf(r.ok, S2.ps[c.p], c.q)]]

DoEnc(S, c) ==
  LET st == S.ps[c.p].rec[c.q].cur
      r  == Encrypt(S.ps[c.p], c.q, c.n)
      hit == Hits(r.effs, c.crash)
      new == [j \in 1..Len(c.keep) |->
                [m |-> [e |-> Envelope(st),
                        w |-> Whisper(st, st.snd.i + c.keep[j], S.nm + c.keep[j] + 1)],
                 from |-> c.p, to |-> c.q, body |-> S.nm + c.keep[j] + 1]]
      S2 == IF ~r.ok THEN S
            ELSE [Finish(S, c, r) EXCEPT !.nm = @ + c.n,
                    !.net = IF hit THEN @ ELSE @ \o new]
  IN [S |-> S2,
      log |-> [Entry(c, r.ok, r.why) EXCEPT !.crash = hit, !.b = S.nm + 1,
                 !.msgs = IF r.ok /\ ~hit
                            THEN [j \in 1..Len(new) |-> [e |-> new[j].m.e, w |-> ShowW(new[j].m.w)]]
                            ELSE <<>>,
                 !.post = PostOf(r.ok, S2.ps[c.p], c.q)]]

\* Replays of a handshake are possible by design when the session it set up is gone.
Forgotten(S, p, q, m) ==
  ~ \E st \in States(S.ps[p].rec[q]) : st.x = S.net[m].m.w.mac.x

\* In which situation a message arrives.
How(ps, q, m) ==
  LET rec == ps.rec[q]
      sts == {st \in States(rec) : st.x = m.w.mac.x}
      st  == CHOOSE st \in sts : TRUE
      j   == ChainIdx(st, m.w.rk)
      cur == IF j = 0 THEN 0 ELSE st.rcv[j].i
  IN (IF m.e.has /\ ~\E t \in States(rec) : t.base = m.e.base THEN <<"new">> ELSE <<>>)
     \o IF sts = {} THEN <<>>
        ELSE (IF st = rec.cur THEN <<>> ELSE <<"arch">>)
             \o (IF j = 0 THEN <<"ratchet">>
                 ELSE IF j < Len(st.rcv) THEN <<"oldchain">> ELSE <<>>)
             \o (IF m.w.i < cur THEN <<"skipped">>
                 ELSE IF m.w.i > cur THEN <<"gap">> ELSE <<>>)

DoDlv(S, c) ==
  LET m   == Tamper(S, c)
      g   == S.net[c.m]
      nk  == RatName(c.p, S.nk[c.p] + 1)
      r   == Receive(S.ps[c.p], c.q, m, nk)
      hit == Hits(r.effs, c.crash)
      S1  == IF r.ok THEN Finish(S, c, r) ELSE S
      \* was the fresh ratchet key used and stored?
      fresh == r.ok /\ \E st \in States(S1.ps[c.p].rec[c.q]) : st.snd.k = nk
      id  == <<c.p, c.q, c.m>>
      bad == (IF r.ok /\ id \in S.got /\ ~Forgotten(S, c.p, c.q, c.m) THEN {"replay"} ELSE {})
             \cup (IF r.ok /\ m.w # g.m.w THEN {"forgery"} ELSE {})
             \cup (IF r.ok /\ (g.m.w.mac.ri # S.ps[c.p].ident) THEN {"misdelivery"} ELSE {})
             \cup (IF r.ok /\ S.ps[c.p].pin[c.q] \notin {None, g.m.w.mac.li} THEN {"untrusted"} ELSE {})
             \cup (IF r.ok /\ \E st \in States(S1.ps[c.p].rec[c.q]) :
                        c.crash # "rec-" /\ Derivable(st, <<m.w.mac.x, m.w.mac.dhs, m.w.mac.i>>)
                     THEN {"not erased"} ELSE {})
      stored == r.ok /\ ~(hit /\ c.crash = "rec-")
      S2  == [S1 EXCEPT !.nk[c.p] = IF r.ok THEN @ + 1 ELSE @,
                !.got = IF stored THEN @ \cup {id} ELSE @,
                !.kept = IF r.ok /\ ~hit THEN @ \cup {<<c.p, c.m>>} ELSE @,
                !.bad = @ \cup bad]
      \* without a fresh key the name was not used up
      S3  == IF fresh THEN S2 ELSE [S2 EXCEPT !.nk[c.p] = S.nk[c.p]]
  IN [S |-> S3,
      log |-> [Entry(c, r.ok, r.why) EXCEPT !.crash = hit,
                 !.how = How(S.ps[c.p], c.q, m),
                 !.b = IF r.ok THEN g.body ELSE 0,
                 !.f = IF fresh THEN <<nk>> ELSE <<>>,
                 !.post = PostOf(r.ok, S3.ps[c.p], c.q)]]

DoReinstall(S, c) ==
  LET p == c.p
      g == S.gen[p] + 1
      s == [id |-> 1, k |-> SpkName(p, S.nspk[p] + 1)]
      o == [id |-> 1, k |-> OtkName(p, S.notk[p] + 1)]
      S2 == [S EXCEPT
        !.ps[p] = [NewParty(IdentName(p, g), RegOf(p, g), P \ {p}) EXCEPT
                     !.spk = {s}, !.otk = {o}],
        !.gen[p] = g, !.nspk[p] = @ + 1, !.notk[p] = @ + 1,
        !.pubs[p] = {s}, !.pubo[p] = {o}, !.used[p] = {},
        !.got = {t \in @ : t[1] # p}, !.kept = {t \in @ : t[1] # p}]
  IN [S |-> S2, log |-> [Entry(c, TRUE, "") EXCEPT !.b = g,
                         !.f = <<IdentName(p, g), s.k, o.k>>]]

Exec(S, c) ==
  LET p == c.p IN
  CASE c.op = "bundle" -> DoBundle(S, c)
    [] c.op = "enc"    -> DoEnc(S, c)
    [] c.op = "dlv"    -> DoDlv(S, c)
    [] c.op = "reload" -> Quiet(S, S, c)
    [] c.op = "reinstall" -> DoReinstall(S, c)
    [] c.op = "accept" -> Quiet(S, [S EXCEPT !.ps[p].pin[c.q] = c.k], c)
    [] c.op = "delete" -> Quiet(S, [S EXCEPT !.ps[p].rec[c.q] = NoRec,
                                      !.got = {t \in @ : ~(t[1] = p /\ t[2] = c.q)}], c)
    \* the application ends the current session but keeps it for messages under way
    [] c.op = "archive" ->
         LET S2 == [S EXCEPT !.ps[p].rec[c.q] = ArchiveCur(@)]
         IN [S |-> S2, log |-> [Entry(c, TRUE, "") EXCEPT !.post = <<ShowParty(S2.ps[p], c.q)>>]]
    [] c.op = "rotate" ->
         LET e == [id |-> S.nspk[p] + 1, k |-> SpkName(p, S.nspk[p] + 1)]
         IN [S |-> [S EXCEPT !.ps[p].spk = @ \cup {e}, !.pubs[p] = @ \cup {e}, !.nspk[p] = @ + 1],
             log |-> [Entry(c, TRUE, "") EXCEPT !.b = e.id, !.f = <<e.k>>]]
    [] c.op = "rmspk"  -> Quiet(S, [S EXCEPT !.ps[p].spk = {e \in @ : e.id # c.spk}], c)
    [] c.op = "addotk" ->
         LET e == [id |-> S.notk[p] + 1, k |-> OtkName(p, S.notk[p] + 1)]
         IN [S |-> [S EXCEPT !.ps[p].otk = @ \cup {e}, !.pubo[p] = @ \cup {e}, !.notk[p] = @ + 1],
             log |-> [Entry(c, TRUE, "") EXCEPT !.b = e.id, !.f = <<e.k>>]]
    \* decrypting again with the message key that was handed out at decryption
    [] c.op = "again"  ->
         [S |-> S, log |-> [Entry(c, <<p, c.m>> \in S.kept, "") EXCEPT !.b = S.net[c.m].body]]

---------------------------------------------------------------------------
(* Properties of the design *)

NoBad(S) == S.bad = {}

AllStates(S) == UNION {UNION {States(S.ps[p].rec[q]) : q \in P \ {p}} : p \in P}

\* Two ends of a session went through the same agreements.
Agreement(S) ==
  \A s, t \in AllStates(S) : s.x = t.x => IsPrefixOf(s.dhs, t.dhs) \/ IsPrefixOf(t.dhs, s.dhs)

\* A ratchet key belongs to one side of one session.
FreshRatchets(S) ==
  \A p \in P : \A q1, q2 \in P \ {p} :
    \A s \in States(S.ps[p].rec[q1]), t \in States(S.ps[p].rec[q2]) :
      (s.snd.k = t.snd.k /\ s.snd.n > 0 /\ t.snd.n > 0) => (s.x = t.x /\ q1 = q2)

\* Forward secrecy: no accepted or sent message can be decrypted with the stored state
\* of the party that accepted or sent it.
Erased(S) ==
  \A m \in 1..Len(S.net) :
    LET w == S.net[m].m.w  g == S.net[m]
        k == <<w.mac.x, w.mac.dhs, w.mac.i>>
    IN /\ \A q \in P \ {g.from} : \A st \in States(S.ps[g.from].rec[q]) : ~Derivable(st, k)
       /\ <<g.to, g.from, m>> \in S.got =>
            \A st \in States(S.ps[g.to].rec[g.from]) : ~Derivable(st, k)

Bounded(S) ==
  \A p \in P : \A q \in P \ {p} :
    /\ Len(S.ps[p].rec[q].prevs) <= MaxArch
    /\ \A st \in States(S.ps[p].rec[q]) :
         /\ Len(st.rcv) <= MaxChains
         /\ \A j \in 1..Len(st.rcv) : Cardinality(st.rcv[j].sk) <= MaxSkip

\* No two states of a record belong to the same session.
NoDuplicates(S) ==
  \A p \in P : \A q \in P \ {p} :
    LET r == S.ps[p].rec[q] IN
    /\ \A i, j \in 1..Len(r.prevs) : r.prevs[i].x = r.prevs[j].x => i = j
    /\ r.cur.has => \A i \in 1..Len(r.prevs) : r.prevs[i].x # r.cur.x

\* Every genuine message that was not yet accepted can be decrypted now.
Deliverable(S) ==
  \A m \in 1..Len(S.net) :
    LET g == S.net[m] IN
    <<g.to, g.from, m>> \notin S.got => Receive(S.ps[g.to], g.from, g.m, "fresh").ok

\* Keys of a state never used twice for encryption by the two ends.
UniqueKeys(S) ==
  \A a, b \in 1..Len(S.net) : a # b =>
    LET v == S.net[a].m.w.mac  w == S.net[b].m.w.mac
    IN <<v.x, v.dhs, v.i>> # <<w.x, w.dhs, w.i>>

\* Messages carry the handshake until the peer's first message was decrypted.
HandshakeUntilAck(S) ==
  \A p \in P : \A q \in P \ {p} : \A st \in States(S.ps[p].rec[q]) :
    st.pend.has <=> (st.x[1] = st.li /\ st.base = st.x[2] /\ Len(st.dhs) = 1)

RECURSIVE DeliverAll(_, _)
DeliverAll(S, m) ==
  IF m > Len(S.net) THEN S
  ELSE LET g == S.net[m] IN
    DeliverAll(IF <<g.to, g.from, m>> \in S.got THEN S
               ELSE Exec(S, [Call0 EXCEPT !.op = "dlv", !.p = g.to, !.q = g.from, !.m = m]).S,
               m + 1)

SendAndDeliver(S, p, q) ==
  LET S1 == Exec(S, [Call0 EXCEPT !.op = "enc", !.p = p, !.q = q, !.keep = <<0>>]).S
  IN IF Len(S1.net) = Len(S.net) THEN S1
     ELSE Exec(S1, [Call0 EXCEPT !.op = "dlv", !.p = q, !.q = p, !.m = Len(S1.net)]).S

\* After everything was delivered and one exchange, both ends use the same session.
Converges(S, p, q) ==
  (\E m \in 1..Len(S.net) : {S.net[m].from, S.net[m].to} = {p, q}) =>
  LET S1 == DeliverAll(S, 1)
      S2 == IF S1.ps[p].rec[q].cur.has THEN SendAndDeliver(S1, p, q) ELSE S1
      S3 == SendAndDeliver(S2, q, p)
  IN (S3.ps[p].rec[q].cur.has /\ S3.ps[q].rec[p].cur.has) =>
       S3.ps[p].rec[q].cur.x = S3.ps[q].rec[p].cur.x
=============================================================================
