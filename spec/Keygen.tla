------------------------------- MODULE Keygen -------------------------------
(* Where keys come from. The random source is a tape; the keys a call makes  *)
(* are cut from it, one after another, and never share a byte. The source    *)
(* can end within a call: then the call reports an error and changes         *)
(* nothing, and the same call with a working source succeeds afterwards.     *)
(*                                                                           *)
(* One party makes keys of all kinds, opens sessions from bundles, is        *)
(* contacted, answers and is answered, and creates group keys. Its peer      *)
(* always has randomness.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS PlainLen, SessLen, GroupLen,   \* calls in a behaviour, by kind
          MaxCuts,  \* calls in which the source ends
          Sizes     \* how many bytes the source gives at once, 0 for all

Key == 32

VARIABLES size,     \* of a piece
          pos,      \* how much of the tape was consumed for keys
          keys,     \* the keys that exist: [from, kind]
          sess,     \* the session with the peer: which keys it consists of
          ahead,    \* the peer has sent something the party could not receive
          grp,      \* the group: "none" or the place of its signing key
          log
vars == <<size, pos, keys, sess, grp, ahead, log>>

(* The session: what kind of current state there is, how many are archived,  *)
(* whether the peer has sent something that needs a new ratchet key, and the *)
(* place of the current ratchet key.                                         *)
NoSess == [cur |-> "none", arch |-> 0, ratchet |-> -1]

\* Keys needed by a call.
Needs(op) ==
  CASE op \in {"pair", "identity", "identityAsync", "signed", "lastresort", "signing", "senderkey"} -> 1
    [] op \in {"prekeys0", "regid", "keyid"} -> 0    \* ids are random, but no keys
    [] op = "prekeys3" -> 3
    [] op = "bundle" -> 2      \* base key and ratchet key
    [] op = "contact" -> 1     \* a handshake of the peer arrives: ratchet key
    [] op = "answer" -> 1      \* the peer has a new ratchet key
    [] op = "more" -> 0        \* another message under the peer's ratchet key
    [] op = "send" -> 0
    [] op = "create" -> 1      \* signing key
    [] op = "again" -> 0       \* the group exists
    [] op = "gsend" -> 0

Possible(op) ==
  CASE op = "answer" -> sess.cur \in {"opened", "heard"}
    [] op = "more" -> sess.cur = "heard" /\ ~ahead
    [] op = "send" -> sess.cur # "none"
    [] op = "create" -> grp = -1
    [] op \in {"again", "gsend"} -> grp # -1
    [] OTHER -> TRUE
Ops == {"pair", "identity", "identityAsync", "signed", "lastresort", "signing", "senderkey", "regid", "keyid",
        "prekeys0", "prekeys3", "bundle", "contact", "answer", "more", "send", "create", "again", "gsend"}

Plain == {"pair", "identity", "identityAsync", "signed", "lastresort", "signing", "senderkey", "regid", "keyid", "prekeys0", "prekeys3"}
InGroup == {"create", "again", "gsend"}
Kind(op) == IF op \in Plain THEN "plain" ELSE IF op \in InGroup THEN "group" ELSE "session"
Full(k) == Len(log) >= CASE k = "plain" -> PlainLen [] k = "group" -> GroupLen [] OTHER -> SessLen

Init == /\ size \in Sizes /\ pos = 0 /\ keys = {} /\ sess = NoSess /\ grp = -1 /\ ahead = FALSE /\ log = <<>>

Archived == IF sess.cur = "none" THEN 0 ELSE sess.arch + 1
Do(op) ==
  /\ Possible(op)
  /\ LET n == Needs(op)
         new == {[from |-> pos + Key * i, op |-> op] : i \in 0..(n - 1)}
         last == pos + Key * (n - 1)
     IN /\ pos' = pos + Key * n
        /\ keys' = keys \cup new
        /\ sess' = CASE op = "bundle"  -> [cur |-> "opened", arch |-> Archived, ratchet |-> last]
                     [] op = "contact" -> [cur |-> "heard", arch |-> Archived, ratchet |-> last]
                     [] op = "answer"  -> [sess EXCEPT !.cur = "heard", !.ratchet = last]
                     [] OTHER -> sess
        /\ grp' = IF op = "create" THEN last ELSE grp
        /\ log' = Append(log, [op |-> op, cut |-> -1, keys |-> n, sess |-> sess', group |-> grp' # -1])
        /\ ahead' = (ahead /\ op \notin {"contact", "answer"})
        /\ UNCHANGED size

(* The source ends after k bytes. Signatures also take randomness; a source  *)
(* that ends there does not matter, as they do not depend on it alone.       *)
Cuts(op) == LET n == Needs(op) IN
  {k \in 0..(Key * n - 1) : k % Key \in {0, 1, 31} \/ k = Key * n - 16}
Cut(op) ==
  /\ Possible(op)
  /\ Cardinality({i \in DOMAIN log : log[i].cut # -1}) < MaxCuts
  /\ \E k \in Cuts(op) :
       log' = Append(log, [op |-> op, cut |-> k, keys |-> 0, sess |-> sess, group |-> grp # -1])
  /\ ahead' = (ahead \/ op \in {"contact", "answer"})
  /\ UNCHANGED <<size, pos, keys, sess, grp>>

\* The kinds of keys do not depend on one another; a behaviour is about one of them.
Next == \E op \in Ops : /\ IF log = <<>> THEN TRUE ELSE Kind(log[1].op) = Kind(op)
                        /\ ~Full(Kind(op))
                        /\ (Do(op) \/ Cut(op))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* No two keys share a byte of the tape.
Disjoint == \A a, b \in keys : a = b \/ a.from + Key <= b.from \/ b.from + Key <= a.from
\* All of them are from what was consumed.
Consumed == \A k \in keys : k.from + Key <= pos
\* A session's current ratchet key is one of its own, and the group's too.
Owned == /\ sess.cur # "none" => \E k \in keys : k.from = sess.ratchet /\ k.op \in {"bundle", "contact", "answer"}
         /\ grp # -1 => \E k \in keys : k.from = grp /\ k.op = "create"
\* A call whose source ended made no key and changed nothing.
CutsDoNothing ==
  \A i \in DOMAIN log : log[i].cut # -1 =>
    LET before == IF i = 1 THEN NoSess ELSE log[i - 1].sess IN log[i].sess = before /\ log[i].keys = 0

Emit == IF log = <<>> THEN TRUE ELSE Full(Kind(log[1].op)) => PrintT("@@" \o ToJson([size |-> size, log |-> log]))
=============================================================================
