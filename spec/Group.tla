------------------------------- MODULE Group -------------------------------
(***************************************************************************)
(* Sender keys: how a group member's record of another's (or its own)      *)
(* sender key changes, and what is encrypted and signed with it.           *)
(*                                                                         *)
(* Chains are symbolic: the chain key number i of chain k is the i-fold    *)
(* derivation from the random seed named k; its message key is <<k, i>>.   *)
(* A record is a sequence of key states, the oldest first:                 *)
(*   id   the key id          k, i   the chain and its next iteration      *)
(*   sk   iterations whose message keys are stored                         *)
(*   sig  the signing key     own    is its private half there?            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS MaxAhead, MaxKept, MaxIds   \* 2000 each

NewKey(id, k, i, sig, own) == [id |-> id, k |-> k, i |-> i, sk |-> {}, sig |-> sig, own |-> own]

RECURSIVE FindFrom(_, _, _)
FindFrom(rec, id, j) == IF j > Len(rec) THEN 0
                        ELSE IF rec[j].id = id THEN j ELSE FindFrom(rec, id, j + 1)
Find(rec, id) == FindFrom(rec, id, 1)

\* The n largest elements of a set of numbers.
RECURSIVE DropLow(_, _)
DropLow(S, n) == IF n <= 0 THEN S
                 ELSE LET lo == CHOOSE x \in S : \A y \in S : x <= y IN DropLow(S \ {lo}, n - 1)
Newest(S, n) ==
  IF Cardinality(S) <= n THEN S
  ELSE IF Cardinality(S) - n > 50
    THEN LET q == SetToSortSeq(S, <) IN {q[j] : j \in (Len(q) - n + 1)..Len(q)}
    ELSE DropLow(S, Cardinality(S) - n)

(* A message is [ver, id, i, ct, sig]: ct = [k, i, body] is encrypted under *)
(* message key <<k, i>>, sig = [by, over] is a signature over the rest.     *)
(* body -1 stands for bytes that are no ciphertext under any key.           *)
Content(m) == [ver |-> m.ver, id |-> m.id, i |-> m.i, ct |-> m.ct]
Sign(m, by) == [m EXCEPT !.sig = [by |-> by, over |-> Content(m)]]
NoSig == [by |-> "-", over |-> [ver |-> 0]]

GroupMsg(st, i, body) ==
  Sign([ver |-> 3, id |-> st.id, i |-> i, ct |-> [k |-> st.k, i |-> i, body |-> body], sig |-> NoSig], st.sig)

\* What a distribution message says of a key state.
Dist(st) == [id |-> st.id, k |-> st.k, i |-> st.i, sig |-> st.sig]

No(why, rec) == [ok |-> FALSE, why |-> why, rec |-> rec]

\* Encrypt n messages.
GEncrypt(rec, n) ==
  IF rec = <<>> THEN No("nokey", rec)
  ELSE IF ~rec[1].own THEN No("nopriv", rec)
  ELSE [ok |-> TRUE, why |-> "", rec |-> [rec EXCEPT ![1].i = @ + n]]

GDecrypt(rec, m) ==
  IF m.ver # 3 THEN No("version", rec)
  ELSE IF rec = <<>> THEN No("nokey", rec)
  ELSE LET j == Find(rec, m.id) IN
  IF j = 0 THEN No("noid", rec)
  ELSE LET st == rec[j] IN
  IF m.sig # [by |-> st.sig, over |-> Content(m)] THEN No("sig", rec)
  ELSE IF m.i < st.i /\ m.i \notin st.sk THEN No("old", rec)
  ELSE IF m.i >= st.i /\ m.i - st.i > MaxAhead THEN No("future", rec)
  ELSE IF m.ct.k # st.k \/ m.ct.i # m.i \/ m.ct.body = -1 THEN No("garbage", rec)
  ELSE [ok |-> TRUE, why |-> "",
        rec |-> [rec EXCEPT ![j] =
          IF m.i < st.i THEN [st EXCEPT !.sk = @ \ {m.i}]
          ELSE [st EXCEPT !.i = m.i + 1,
                  !.sk = Newest(@ \cup st.i..(m.i - 1), MaxKept)]]]

\* Learn a sender key, unless its key id is known already.
GProcess(rec, d) ==
  IF Find(rec, d.id) # 0 THEN rec
  ELSE LET r == Append(rec, NewKey(d.id, d.k, d.i, d.sig, FALSE))
  IN IF Len(r) > MaxIds THEN Tail(r) ELSE r

\* A message key <<k, i>> can be computed from a state.
GDerivable(st, k, i) == st.k = k /\ (i >= st.i \/ i \in st.sk)
=============================================================================
