------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One-to-one Signal sessions as implemented by libsignal-protocol-go:     *)
(* handshakes from prekey bundles (X3DH), the double ratchet, skipped      *)
(* message keys, archived sessions, identity pinning, prekey consumption,  *)
(* crashes between store writes, and a network adversary that reorders,    *)
(* loses, duplicates, redirects and modifies messages.                     *)
(*                                                                         *)
(* Cryptography is symbolic.  A key pair is a name (a string).  A root or  *)
(* chain key is determined by                                              *)
(*    x    the X3DH inputs <<initiator identity, base key, responder       *)
(*         identity, signed prekey, one-time prekey or "-">>, and          *)
(*    dhs  the sequence of ratchet agreements applied so far, each the     *)
(*         unordered pair of key names that was agreed.                    *)
(* Chain number n of a session is the chain derived after the first n      *)
(* agreements (n = 0: straight from X3DH); message key i of it is          *)
(* <<x, SubSeq(dhs,1,n), i>>.  A MAC is the record of everything it binds. *)
(* Two terms are equal exactly when the real keys are; the conformance     *)
(* harness evaluates the terms with an independent implementation and      *)
(* compares them with the bytes in the stored sessions and on the wire.    *)
(*                                                                         *)
(* Every API call is a pure operator: it maps the state of a party to a    *)
(* result with the sequence of store writes it makes, in order.  A crash   *)
(* is a prefix of these writes.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  MaxFuture,    \* how far ahead of its chain a message may be (5000)
  MaxSkip,      \* skipped message keys kept per receiving chain (2000)
  MaxChains,    \* receiving chains kept per session (5)
  MaxArch,      \* archived sessions kept per record (40)
  LastResort    \* prekey id that is never removed (16777215)

None == "-"

---------------------------------------------------------------------------
(* Terms and state *)

NoPend == [has |-> FALSE, otk |-> -1, spk |-> -1, base |-> None]

NoSt == [has |-> FALSE, x |-> <<>>, dhs |-> <<>>,
         snd |-> [k |-> None, n |-> 0, i |-> 0], rcv |-> <<>>,
         pend |-> NoPend, prev |-> 0, li |-> None, ri |-> None,
         lreg |-> 0, rreg |-> 0, base |-> None]

NoRec == [cur |-> NoSt, prevs |-> <<>>]

\* All states of a record.
States(r) == (IF r.cur.has THEN {r.cur} ELSE {}) \cup {r.prevs[j] : j \in 1..Len(r.prevs)}

\* A party: its keys, its stores, and the sessions it has with the others.
NewParty(id, reg, others) ==
  [ident |-> id, reg |-> reg, spk |-> {}, otk |-> {},
   pin |-> [q \in others |-> None], rec |-> [q \in others |-> NoRec]]

Lookup(S, id) == IF \E e \in S : e.id = id THEN (CHOOSE e \in S : e.id = id).k ELSE None

Trusted(ps, q, ident) == ps.pin[q] \in {None, ident}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* The smallest t in lo..hi with at most k elements of S at or above it.
RECURSIVE Threshold(_, _, _, _)
Threshold(S, k, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi) \div 2 IN
       IF Cardinality({e \in S : e >= mid}) <= k
         THEN Threshold(S, k, lo, mid) ELSE Threshold(S, k, mid + 1, hi)

\* Skipped keys after skipping from..to-1: the newest MaxSkip ones are kept.
Skip(sk, from, to) ==
  LET new == to - from IN
  IF new = 0 THEN sk
  ELSE IF new >= MaxSkip THEN (to - MaxSkip)..(to - 1)
  ELSE IF Cardinality(sk) + new <= MaxSkip THEN sk \cup (from..(to - 1))
  ELSE LET t == Threshold(sk, MaxSkip - new, 0, from)
       IN {e \in sk : e >= t} \cup (from..(to - 1))

\* Archive a state: newest first, at most MaxArch.
Prepend(st, prevs) ==
  LET s == <<st>> \o prevs IN IF Len(s) > MaxArch THEN SubSeq(s, 1, MaxArch) ELSE s

ArchiveCur(rec) ==
  IF rec.cur.has THEN [cur |-> NoSt, prevs |-> Prepend(rec.cur, rec.prevs)] ELSE rec

RemoveAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

---------------------------------------------------------------------------
(* Messages.  w is the message proper, e the handshake envelope around it. *)

NoEnv == [has |-> FALSE, ver |-> 3, reg |-> 0, otk |-> -1, spk |-> -1,
          base |-> None, ident |-> None]

MacOf(x, dhs, i, li, ri, ver, rk, prev, body) ==
  [x |-> x, dhs |-> dhs, i |-> i, li |-> li, ri |-> ri, ver |-> ver,
   rk |-> rk, prev |-> prev, body |-> body, junk |-> FALSE]

\* The i-th message of the sending chain of st, carrying body.
Whisper(st, i, body) ==
  [ver |-> 3, rk |-> st.snd.k, i |-> i, prev |-> st.prev, body |-> body,
   mac |-> MacOf(st.x, SubSeq(st.dhs, 1, st.snd.n), i, st.li, st.ri, 3,
                 st.snd.k, st.prev, body)]

Envelope(st) ==
  IF st.pend.has
    THEN [has |-> TRUE, ver |-> 3, reg |-> st.lreg, otk |-> st.pend.otk,
          spk |-> st.pend.spk, base |-> st.pend.base, ident |-> st.li]
    ELSE NoEnv

---------------------------------------------------------------------------
(* Store writes and call results *)

EPin(q, v)  == [t |-> "pin", q |-> q, v |-> v]
ERec(q, v)  == [t |-> "rec", q |-> q, v |-> v]
ERmOtk(id)  == [t |-> "rmotk", q |-> None, v |-> id]

ApplyEff(ps, e) ==
  CASE e.t = "pin"   -> [ps EXCEPT !.pin[e.q] = e.v]
    [] e.t = "rec"   -> [ps EXCEPT !.rec[e.q] = e.v]
    [] e.t = "rmotk" -> [ps EXCEPT !.otk = {o \in @ : o.id # e.v}]

RECURSIVE ApplyEffs(_, _)
ApplyEffs(ps, effs) ==
  IF effs = <<>> THEN ps ELSE ApplyEffs(ApplyEff(ps, Head(effs)), Tail(effs))

Fail(why)  == [ok |-> FALSE, why |-> why, effs |-> <<>>]
OK(effs)   == [ok |-> TRUE, why |-> "", effs |-> effs]

---------------------------------------------------------------------------
(* Building a session from a bundle of q: base key bk, first ratchet key rk *)

\* b: [ident, reg, spk, spkk, otk, otkk, sig]; otk = -1: no one-time prekey;
\* spk = -1: no signed prekey; sig: does the signature verify?
SenderState(ps, b, bk, rk) ==
  [has |-> TRUE, x |-> <<ps.ident, bk, b.ident, b.spkk, b.otkk>>,
   dhs |-> << {rk, b.spkk} >>,
   snd |-> [k |-> rk, n |-> 1, i |-> 0],
   rcv |-> << [k |-> b.spkk, n |-> 0, i |-> 0, sk |-> {}] >>,
   pend |-> [has |-> TRUE, otk |-> b.otk, spk |-> b.spk, base |-> bk],
   prev |-> 0, li |-> ps.ident, ri |-> b.ident, lreg |-> ps.reg, rreg |-> b.reg,
   base |-> bk]

ProcessBundle(ps, q, b, bk, rk) ==
  IF ~Trusted(ps, q, b.ident) THEN Fail("untrusted")
  ELSE IF b.spk = -1 THEN Fail("nospk")
  ELSE IF ~b.sig THEN Fail("badsig")
  ELSE OK(<< ERec(q, [cur |-> SenderState(ps, b, bk, rk),
                      prevs |-> ArchiveCur(ps.rec[q]).prevs]),
             EPin(q, b.ident) >>)

---------------------------------------------------------------------------
(* Encrypting n messages with the bodies of sequence bodies *)

Encrypt(ps, q, n) ==
  LET st == ps.rec[q].cur IN
  IF ~st.has THEN Fail("nosession")
  ELSE IF ~Trusted(ps, q, st.ri) THEN Fail("untrusted")
  ELSE OK(<< EPin(q, st.ri),
             ERec(q, [ps.rec[q] EXCEPT !.cur.snd.i = @ + n]) >>)

---------------------------------------------------------------------------
(* Decrypting with one state.  nk is the ratchet key to be generated.      *)

ChainIdx(st, rk) ==
  IF \E j \in 1..Len(st.rcv) : st.rcv[j].k = rk
    THEN CHOOSE j \in 1..Len(st.rcv) : st.rcv[j].k = rk ELSE 0

\* The DH ratchet step on an unknown remote ratchet key.
Step(st, rk, nk) ==
  LET d1 == Append(st.dhs, {st.snd.k, rk})
      d2 == Append(d1, {rk, nk})
      rc == Append(st.rcv, [k |-> rk, n |-> Len(d1), i |-> 0, sk |-> {}])
  IN [st EXCEPT !.dhs = d2,
        !.rcv = IF Len(rc) > MaxChains THEN Tail(rc) ELSE rc,
        !.prev = Max2(st.snd.i, 1) - 1,
        !.snd = [k |-> nk, n |-> Len(d2), i |-> 0]]

DecState(st, w, nk) ==
  IF ~st.has THEN [ok |-> FALSE, why |-> "nosession", st |-> st]
  ELSE IF w.ver # 3 THEN [ok |-> FALSE, why |-> "version", st |-> st]
  ELSE
  LET st1 == IF ChainIdx(st, w.rk) = 0 THEN Step(st, w.rk, nk) ELSE st
      j   == ChainIdx(st1, w.rk)
      c   == st1.rcv[j]
      mac == MacOf(st1.x, SubSeq(st1.dhs, 1, c.n), w.i, st1.ri, st1.li,
                   w.ver, w.rk, w.prev, w.body)
  IN IF w.i < c.i /\ w.i \notin c.sk THEN [ok |-> FALSE, why |-> "old", st |-> st]
     ELSE IF w.i >= c.i /\ w.i - c.i > MaxFuture
       THEN [ok |-> FALSE, why |-> "future", st |-> st]
     ELSE IF w.mac # mac THEN [ok |-> FALSE, why |-> "mac", st |-> st]
     ELSE LET c1 == IF w.i < c.i THEN [c EXCEPT !.sk = @ \ {w.i}]
                    ELSE [c EXCEPT !.sk = Skip(c.sk, c.i, w.i), !.i = w.i + 1]
          IN [ok |-> TRUE, why |-> "",
              st |-> [st1 EXCEPT !.rcv[j] = c1, !.pend = NoPend]]

\* Decrypting with a record: the current state, then the archived ones.
DecRecord(rec, w, nk) ==
  LET r0 == DecState(rec.cur, w, nk)
      n  == Len(rec.prevs)
      rs == [j \in 1..n |-> DecState(rec.prevs[j], w, nk)]
  IN IF r0.ok THEN [ok |-> TRUE, why |-> "", used |-> 0, rec |-> [rec EXCEPT !.cur = r0.st]]
     ELSE IF \E j \in 1..n : rs[j].ok THEN
       LET j == CHOOSE j \in 1..n : rs[j].ok /\ \A i \in 1..(j - 1) : ~rs[i].ok
       IN [ok |-> TRUE, why |-> "", used |-> j,
           rec |-> [cur |-> rs[j].st,
                    prevs |-> IF rec.cur.has THEN Prepend(rec.cur, RemoveAt(rec.prevs, j))
                              ELSE RemoveAt(rec.prevs, j)]]
     ELSE [ok |-> FALSE, used |-> 0, rec |-> rec,
           why |-> IF r0.why \in {"old", "future"} THEN r0.why
                   ELSE IF \E j \in 1..n : rs[j].why = "old" THEN "old" ELSE r0.why]

\* An ordinary message.
Decrypt(ps, q, w, nk) ==
  IF States(ps.rec[q]) = {} THEN Fail("nosession")
  ELSE LET r == DecRecord(ps.rec[q], w, nk) IN
    IF ~r.ok THEN Fail(r.why)
    ELSE IF ~Trusted(ps, q, r.rec.cur.ri) THEN Fail("untrusted")
    ELSE OK(<< EPin(q, r.rec.cur.ri), ERec(q, r.rec) >>)

ReceiverState(ps, e, spkk, otkk) ==
  [has |-> TRUE, x |-> <<e.ident, e.base, ps.ident, spkk, otkk>>, dhs |-> <<>>,
   snd |-> [k |-> spkk, n |-> 0, i |-> 0], rcv |-> <<>>, pend |-> NoPend,
   prev |-> 0, li |-> ps.ident, ri |-> e.ident, lreg |-> ps.reg, rreg |-> e.reg,
   base |-> e.base]

\* A handshake message.
DecryptPre(ps, q, e, w, nk) ==
  LET rec   == ps.rec[q]
      known == \E st \in States(rec) : st.base = e.base
      spkk  == Lookup(ps.spk, e.spk)
      otkk  == IF e.otk = -1 THEN None ELSE Lookup(ps.otk, e.otk)
  IN IF e.ver # 3 THEN Fail("version")
     ELSE IF ~Trusted(ps, q, e.ident) THEN Fail("untrusted")
     ELSE IF ~known /\ spkk = None THEN Fail("nospk")
     ELSE IF ~known /\ e.otk # -1 /\ otkk = None THEN Fail("nootk")
     ELSE LET rec1 == IF known THEN rec
                      ELSE [cur |-> ReceiverState(ps, e, spkk, otkk),
                            prevs |-> ArchiveCur(rec).prevs]
              r == DecRecord(rec1, w, nk)
          IN IF ~r.ok THEN Fail(r.why)
             ELSE IF r.rec.cur.base # e.base THEN Fail("envelope")
             ELSE IF ~Trusted(ps, q, r.rec.cur.ri) THEN Fail("untrusted")
             ELSE OK(<< EPin(q, r.rec.cur.ri), ERec(q, r.rec) >>
                     \o IF ~known /\ e.otk # -1 /\ e.otk # LastResort
                          THEN << ERmOtk(e.otk) >> ELSE <<>>)

Receive(ps, q, m, nk) ==
  IF m.e.has THEN DecryptPre(ps, q, m.e, m.w, nk) ELSE Decrypt(ps, q, m.w, nk)

---------------------------------------------------------------------------
(* What the stored state of a party lets an intruder compute: is message   *)
(* key k = <<x, dhs, i>> derivable from state st?  Chain keys run forward, *)
(* skipped keys are stored, roots only give chains of future agreements.   *)

Derivable(st, k) ==
  /\ st.has /\ st.x = k[1]
  /\ LET n == Len(k[2]) IN
     /\ n <= Len(st.dhs) /\ SubSeq(st.dhs, 1, n) = k[2]
     /\ \/ st.snd.n = n /\ k[3] >= st.snd.i
        \/ \E j \in 1..Len(st.rcv) :
             st.rcv[j].n = n /\ (k[3] >= st.rcv[j].i \/ k[3] \in st.rcv[j].sk)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
