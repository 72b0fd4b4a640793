-------------------------------- MODULE Sign --------------------------------
(* Signatures. A signature is a term that names its key, its message and the *)
(* random bytes it was made with; it verifies for exactly that key and       *)
(* message and only unchanged. The nonce of a signature depends on the       *)
(* message, whatever the random source delivers.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSigned,      \* signatures made by the signer
          Lens            \* lengths of messages

\* sign bit of the key's Edwards form, which a signature carries along
KeyBits == {0, 1}
Rngs == {"good", "stuck", "zero", "fail"}

VARIABLES kb,        \* the key
          rng,       \* its random source
          signed,    \* the signatures, in order of creation: [len, var, z]
          query      \* what is verified: [sig, op, at], or none yet
vars == <<kb, rng, signed, query>>

NoQuery == [sig |-> 0, op |-> "-", at |-> 0]
Init == kb \in KeyBits /\ rng \in Rngs /\ signed = <<>> /\ query = NoQuery

\* Random bytes: different every time, or always the same.
Z(n) == IF rng = "good" THEN n ELSE 0

\* A message is a length and a variant; variants of the same length differ.
Sign(len, var) == /\ query = NoQuery
                  /\ Len(signed) < MaxSigned
                  /\ var = 0 \/ len > 0
                  \* the order of different messages does not matter
                  /\ signed # <<>> => LET l == signed[Len(signed)] IN l.len < len \/ (l.len = len /\ l.var <= var)
                  /\ signed' = Append(signed, [len |-> len, var |-> var, z |-> Z(Len(signed) + 1)])
                  /\ UNCHANGED <<kb, rng, query>>

Nonce(s) == <<kb, s.len, s.var, s.z>>

(* Ways to change key, message or signature before verifying. Bits that are  *)
(* ignored by definition (the top bit of an X25519 key) are not among them.  *)
Ops == {"none", "otherkey", "otherkey-bit", "key-bit", "msg-bit", "msg-append", "msg-prepend", "msg-drop", "msg-empty", "msg-other",
        "sig-bit", "sig-SplusL", "sig-S2plusL", "sig-zero", "sig-zeroS", "sig-zeroR", "sig-mixR", "sig-mixS", "sig-negR", "sig-signbit"}
Range(op, s) == CASE op = "key-bit" -> 0..254
                  [] op = "sig-bit" -> 0..511
                  [] op = "msg-bit" -> 0..(8 * s.len - 1)
                  [] op = "otherkey" -> 0..3
                  [] OTHER -> {0}
Possible(op, s) == CASE op \in {"msg-bit", "msg-drop", "msg-empty"} -> s.len > 0
                     [] op \in {"msg-other", "sig-mixR", "sig-mixS"} -> Len(signed) > 1
                     [] OTHER -> TRUE

Verify(i, op, at) == /\ query = NoQuery
                     /\ Possible(op, signed[i])
                     /\ query' = [sig |-> i, op |-> op, at |-> at]
                     /\ UNCHANGED <<kb, rng, signed>>

\* Bits are tried on the only signature of a good random source; mixtures need two.
Next == \/ \E l \in Lens, v \in {0, 1} : Sign(l, v)
        \/ \E i \in 1..Len(signed) : \E op \in Ops :
             /\ (Len(signed) > 1 \/ rng # "good" => op \notin {"key-bit", "sig-bit", "msg-bit"})
             /\ \E at \in Range(op, signed[i]) : Verify(i, op, at)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What is verified, as terms.                                               *)
Last == signed[query.sig]
Other == IF query.sig = Len(signed) THEN signed[1] ELSE signed[Len(signed)]
KeyOf == IF query.op \in {"otherkey", "otherkey-bit", "key-bit"} THEN "other" ELSE "own"
MsgOf == CASE query.op \in {"msg-bit", "msg-append", "msg-prepend", "msg-drop", "msg-empty"} -> <<"changed">>
           [] query.op = "msg-other" -> <<Other.len, Other.var>>
           [] OTHER -> <<Last.len, Last.var>>
R == Nonce(Last)
Rs == CASE query.op = "sig-mixR" -> Nonce(Other) [] query.op \in {"sig-bit", "sig-zero", "sig-zeroR", "sig-negR"} -> <<"changed">> [] OTHER -> R
Ss == CASE query.op = "sig-mixS" -> <<Nonce(Other), Other.len, Other.var>>
        [] query.op \in {"sig-bit", "sig-SplusL", "sig-S2plusL", "sig-zero", "sig-zeroS", "sig-signbit"} -> <<"changed">>
        [] OTHER -> <<R, Last.len, Last.var>>

\* S was made for this nonce and this message with this key.
Valid == KeyOf = "own" /\ Rs = R /\ Ss = <<Rs, MsgOf[1], MsgOf[2]>>
Result == IF MsgOf = <<"changed">> THEN FALSE ELSE Valid

\* Only the message that was signed verifies, and it does.
Correct == query.op = "none" => Result
Unforgeable == query # NoQuery /\ Result =>
                 KeyOf = "own" /\ \E i \in 1..Len(signed) : <<signed[i].len, signed[i].var>> = MsgOf
\* Two messages never share a nonce: it would give the key away.
NonceOnce == \A i, j \in 1..Len(signed) :
               <<signed[i].len, signed[i].var>> # <<signed[j].len, signed[j].var>> => Nonce(signed[i]) # Nonce(signed[j])

Emit == query # NoQuery =>
          PrintT("@@" \o ToJson([kb |-> kb, rng |-> rng, signed |-> signed, query |-> query, ok |-> Result]))
=============================================================================
