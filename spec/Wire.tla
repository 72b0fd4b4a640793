-------------------------------- MODULE Wire --------------------------------
(* What arrives or is loaded as bytes. Every kind of input is a list of      *)
(* fields; deviations from a genuine input change fields or the bytes as a   *)
(* whole. The receiver parses, looks up what is referred to, authenticates,  *)
(* and only then takes effect.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDev      \* number of fields that deviate at the same time

Messages == {"msg", "pre", "gmsg", "dist"}
Records == {"session", "state", "senderkey", "senderstate", "prekey", "signedprekey"}
Kinds == Messages \cup Records

(* Fields. use says what a change of the value means:                        *)
(*   auth: covered by a code or signature, or used as key material: refused  *)
(*   id:   refers to something the receiver keeps: another value is unknown  *)
(*   free: any value of the type is as good                                  *)
(*   opt:  like free, and may be missing                                     *)
F(f, t, u) == [f |-> f, t |-> t, u |-> u]
ChainFields(p, priv) ==
  << F(p, "struct", "auth"),
     F(p \o ".SenderRatchetKeyPublic", "point", "auth"),
     F(p \o ".SenderRatchetKeyPrivate", "b32", priv),
     F(p \o ".ChainKey", "struct", "auth"),
     F(p \o ".ChainKey.Key", "b32", "auth"),
     F(p \o ".ChainKey.Index", "u32", "free"),
     F(p \o ".MessageKeys", "list", "opt") >>
MessageKeyFields(p) ==
  << F(p, "struct", "auth"),
     F(p \o ".CipherKey", "b32", "auth"),
     F(p \o ".MacKey", "b32", "auth"),
     F(p \o ".IV", "b16", "auth"),
     F(p \o ".Index", "u32", "free") >>
StateFields(p) ==
  << F(p \o "LocalIdentityPublic", "point", "auth"), F(p \o "RemoteIdentityPublic", "point", "auth"),
     F(p \o "SenderBaseKey", "point", "auth"), F(p \o "RootKey", "b32", "auth"),
     F(p \o "LocalRegistrationID", "u32", "free"), F(p \o "RemoteRegistrationID", "u32", "free"),
     F(p \o "PreviousCounter", "u32", "free"), F(p \o "SessionVersion", "int", "free"), F(p \o "NeedsRefresh", "bool", "free"),
     F(p \o "ReceiverChains", "list", "opt"),
     F(p \o "PendingPreKey", "struct", "opt"), F(p \o "PendingPreKey.BaseKey", "point", "auth"),
     F(p \o "PendingPreKey.PreKeyID", "struct", "opt"), F(p \o "PendingPreKey.SignedPreKeyID", "u32", "free"),
     F(p \o "PendingKeyExchange", "struct", "opt"),
     F(p \o "PendingKeyExchange.Sequence", "u32", "free"),
     F(p \o "PendingKeyExchange.LocalBaseKeyPublic", "b32", "auth"),
     F(p \o "PendingKeyExchange.LocalBaseKeyPrivate", "b32", "auth"),
     F(p \o "PendingKeyExchange.LocalRatchetKeyPublic", "b32", "auth"),
     F(p \o "PendingKeyExchange.LocalRatchetKeyPrivate", "b32", "auth"),
     F(p \o "PendingKeyExchange.LocalIdentityKeyPublic", "b32", "auth"),
     F(p \o "PendingKeyExchange.LocalIdentityKeyPrivate", "b32", "auth") >>
  \o ChainFields(p \o "SenderChain", "auth")
  \o ChainFields(p \o "ReceiverChains.0", "opt")
  \o MessageKeyFields(p \o "ReceiverChains.0.MessageKeys.0")
SenderStateFields(p) ==
  << F(p \o "KeyID", "u32", "free"),
     F(p \o "SigningKeyPublic", "point", "auth"), F(p \o "SigningKeyPrivate", "b32", "opt"),
     F(p \o "SenderChainKey", "struct", "auth"), F(p \o "SenderChainKey.Iteration", "u32", "free"),
     F(p \o "SenderChainKey.ChainKey", "blob", "auth"),
     F(p \o "Keys", "list", "opt"),
     F(p \o "Keys.0", "struct", "auth"), F(p \o "Keys.0.Iteration", "u32", "free"), F(p \o "Keys.0.IV", "b16", "auth"),
     F(p \o "Keys.0.CipherKey", "b32", "auth"), F(p \o "Keys.0.Seed", "blob", "free") >>

Format(k) ==
  CASE k = "msg"  -> << F("Version", "ver", "auth"), F("RatchetKey", "point", "auth"), F("Counter", "u32", "auth"),
                        F("PreviousCounter", "u32", "auth"), F("CipherText", "blob", "auth"), F("Mac", "code", "auth") >>
    [] k = "pre"  -> << F("Version", "ver", "auth"), F("RegistrationID", "u32", "opt"), F("PreKeyID", "u32", "id"),
                        F("SignedPreKeyID", "u32", "id"), F("BaseKey", "point", "auth"), F("IdentityKey", "point", "auth"),
                        F("Message", "blob", "auth") >>
    [] k = "gmsg" -> << F("Version", "ver", "auth"), F("ID", "u32", "id"), F("Iteration", "u32", "auth"),
                        F("CipherText", "blob", "auth"), F("Signature", "code", "auth") >>
    [] k = "dist" -> << F("Version", "ver", "auth"), F("ID", "u32", "free"), F("Iteration", "u32", "free"),
                        F("ChainKey", "blob", "free"), F("SigningKey", "point", "free") >>
    [] k = "session"      -> << F("SessionState", "struct", "opt"), F("PreviousStates", "list", "opt"),
                                F("PreviousStates.0", "struct", "auth") >>
                             \o StateFields("SessionState.") \o StateFields("PreviousStates.0.")
    [] k = "state"        -> StateFields("")
    [] k = "senderkey"    -> << F("SenderKeyStates", "list", "opt"), F("SenderKeyStates.0", "struct", "auth") >>
                             \o SenderStateFields("SenderKeyStates.0.")
    [] k = "senderstate"  -> SenderStateFields("")
    [] k = "prekey"       -> << F("ID", "u32", "free"), F("PublicKey", "point", "auth"), F("PrivateKey", "b32", "auth") >>
    [] k = "signedprekey" -> << F("ID", "u32", "free"), F("Timestamp", "int", "free"), F("PublicKey", "point", "auth"),
                                F("PrivateKey", "b32", "auth"), F("Signature", "b64", "auth") >>

(* Deviations of a field by its type.                                        *)
Hows(t) ==
  CASE t = "point"  -> {"absent", "null", "empty", "one", "short", "long", "type", "flip", "retype"}
    [] t \in {"b16", "b32", "b64"} -> {"absent", "null", "empty", "one", "short", "long", "flip", "retype"}
    [] t = "blob"   -> {"absent", "null", "empty", "one", "short", "long", "flip", "retype"}
    [] t = "code"   -> {"absent", "null", "empty", "one", "short", "long", "flip", "retype"}
    [] t = "u32"    -> {"absent", "null", "other", "max", "over", "negative", "retype"}
    [] t = "int"    -> {"absent", "null", "other", "retype"}
    [] t = "bool"   -> {"absent", "null", "retype"}
    [] t = "ver"    -> {"absent", "null", "zero", "two", "four", "high", "negative", "retype"}
    [] t = "struct" -> {"absent", "null", "emptied", "retype"}
    [] t = "list"   -> {"absent", "null", "emptied", "hole", "retype"}

\* Inputs that deviate as a whole.
Wholes(k) == {"none", "empty", "null", "emptystruct", "list", "garbage", "garbage1", "garbage9", "garbage64", "garbage200",
              "verbyte", "zeros", "ff", "deep", "hugelen", "unknown", "dup", "nul", "othermsg", "otherkind", "append"}
           \cup {"cut", "flipat"}
Positions == 0..59

(* The receiver's situation.                                                 *)
Places(k) == CASE k = "msg"  -> {"session", "none", "archived", "othersession", "pending", "live"}
               [] k = "pre"  -> {"fresh", "noprekeys", "nosigned", "session", "archived", "live"}
               [] k = "gmsg" -> {"member", "none", "emptyrecord", "othermember", "self", "live"}
               [] k = "dist" -> {"none", "member", "emptyrecord", "live"}
               [] OTHER      -> {"-"}
Home(k) == CASE k = "msg" -> "session" [] k = "pre" -> "fresh" [] k = "gmsg" -> "member" [] k = "dist" -> "none" [] OTHER -> "-"

VARIABLES kind, enc, place, dev, whole, at, phase
vars == <<kind, enc, place, dev, whole, at, phase>>

Init == /\ kind \in Kinds
        /\ enc \in (IF kind \in Messages THEN {"proto", "json"} ELSE {"json"})
        /\ place \in Places(kind)
        /\ dev = {} /\ whole = "none" /\ at = 0 /\ phase = "sent"

Under(f, g) == \* g is f or a part of it
  Len(f) <= Len(g) /\ SubSeq(g, 1, Len(f)) = f
Deviate == /\ phase = "sent" /\ whole = "none" /\ Cardinality(dev) < MaxDev
           /\ \E i \in 1..Len(Format(kind)) : LET f == Format(kind)[i] IN
                /\ \A d \in dev : d.i < i
                /\ (dev # {} => place = Home(kind))
                \* pairs of deviations are tried in the small formats, and in the same half of records
                /\ (dev # {} => kind \in Messages \cup {"prekey", "signedprekey", "senderstate"})
                /\ \E h \in Hows(f.t) : dev' = dev \cup {[i |-> i, f |-> f.f, t |-> f.t, u |-> f.u, h |-> h]}
           /\ UNCHANGED <<kind, enc, place, whole, at, phase>>
Whole == /\ phase = "sent" /\ whole = "none" /\ dev = {}
         /\ \E w \in Wholes(kind) \ {"none"} :
              /\ ~(place = "othersession" /\ w = "othermsg")
              /\ whole' = w
              /\ at' \in (IF w \in {"cut", "flipat"} THEN Positions ELSE {0})
         /\ UNCHANGED <<kind, enc, place, dev, phase>>
Arrive == phase = "sent" /\ phase' = "arrived" /\ UNCHANGED <<kind, enc, place, dev, whole, at>>
Next == Deviate \/ Whole \/ Arrive
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Outcome of one deviation: "bad" (must be refused), "same" (no change of   *)
(* meaning), or "maybe" (may be refused or taken, as it is well formed).     *)
Json_ == enc = "json"
\* Elements of lists may be missing, and a state without a chain to send on waits for a key exchange.
Element(f) == Len(f) > 2 /\ SubSeq(f, Len(f) - 1, Len(f)) = ".0"
Sender(f) == f \in {"SenderChain", "SessionState.SenderChain", "PreviousStates.0.SenderChain"}
Meaning(d) ==
  CASE d.t = "point" ->
         (CASE d.h \in {"absent", "null", "empty", "one", "short"} -> IF d.u = "opt" THEN "maybe" ELSE "bad"
            [] d.h \in {"type", "retype"} -> IF d.h = "retype" /\ ~Json_ /\ d.u = "opt" THEN "maybe" ELSE "bad"
            [] d.h = "long" -> "maybe"
            [] d.h = "flip" -> IF kind \in Records \/ d.u # "auth" THEN "maybe" ELSE "bad")
    [] d.t \in {"b16", "b32", "b64"} ->
         (CASE d.h \in {"absent", "null", "empty"} -> IF d.u = "opt" THEN "maybe" ELSE "bad"
            [] d.h \in {"one", "short", "long"} -> IF d.u = "opt" THEN "maybe" ELSE "bad"
            [] d.h = "retype" -> "bad"
            [] OTHER -> "maybe")
    [] d.t = "blob" ->
         (CASE d.h \in {"absent", "null", "empty"} -> IF d.u = "free" /\ kind # "dist" THEN "maybe" ELSE "bad"
            [] d.h = "retype" -> "bad"
            \* the same message can have other encodings
            [] d.h = "flip" /\ kind = "pre" -> "maybe"
            [] d.h = "long" /\ kind = "pre" /\ Json_ -> "maybe"
            [] OTHER -> IF kind \in Records \/ d.u = "free" THEN "maybe" ELSE "bad")
    \* signatures have 64 bytes: longer ones are cut, shorter ones filled up
    [] d.t = "code" -> IF kind = "gmsg" /\ d.h \in {"short", "long"} /\ Json_ THEN "maybe" ELSE "bad"
    [] d.t = "u32" ->
         (CASE d.h \in {"retype", "over", "negative"} /\ Json_ -> "bad"
            [] d.h \in {"over"} -> "maybe"        \* a longer varint is cut to 32 bits
            [] d.u \in {"free", "opt"} -> "maybe"
            [] OTHER -> "bad")
    [] d.t \in {"int", "bool"} -> IF d.h = "retype" THEN "bad" ELSE "maybe"
    [] d.t = "ver" -> IF kind = "dist" /\ d.h = "two" THEN "maybe" ELSE "bad"
    [] d.t = "struct" ->
         (CASE d.h = "retype" -> "bad"
            [] d.u = "opt" -> IF d.h = "emptied" /\ d.f \notin {"PendingPreKey.PreKeyID", "SessionState.PendingPreKey.PreKeyID",
                                      "PreviousStates.0.PendingPreKey.PreKeyID"} THEN "bad" ELSE "maybe"
            [] d.h = "absent" /\ Element(d.f) -> "maybe"
            [] d.h \in {"absent", "null"} /\ Sender(d.f) -> "maybe"
            [] OTHER -> "bad")
    [] d.t = "list" -> (CASE d.h \in {"hole", "retype"} -> "bad" [] OTHER -> "maybe")

\* A part that is no longer there cannot be bad.
Shadowed(d) ==
  \E e \in dev :
    \/ e.i < d.i /\ e.h \in {"absent", "null", "emptied"} /\ e.t \in {"struct", "list"} /\ Under(e.f, d.f)
    \/ Sender(e.f) /\ e.h \in {"absent", "null"}

\* With a session for it, the handshake around a message does not matter any more.
Established == kind = "pre" /\ place \in {"session", "archived"}

Fields == IF dev = {} THEN "same"
          ELSE IF \E d \in dev : Meaning(d) = "bad" /\ ~Shadowed(d) THEN "bad" ELSE "maybe"
All ==
  CASE whole = "none" -> Fields
    [] whole \in {"unknown", "dup"} -> "maybe"                  \* extra fields
    [] whole = "append" -> IF Json_ THEN "bad" ELSE IF kind \in {"msg", "gmsg"} THEN "bad" ELSE "maybe"
    [] whole = "flipat" -> "maybe"
    [] whole \in {"null", "emptystruct"} -> IF kind \in {"session", "senderkey"} THEN "maybe" ELSE "bad"
    [] whole = "deep" -> IF kind \in {"session", "senderkey"} THEN "maybe" ELSE "bad"
    [] whole = "otherkind" -> IF kind \in {"session", "senderkey", "prekey"} THEN "maybe" ELSE "bad"
    [] whole = "hugelen" -> IF kind \in {"pre", "dist"} /\ Json_ THEN "maybe" ELSE "bad"       \* what follows a point is ignored
    [] whole = "cut" -> IF Established /\ ~Json_ THEN "maybe" ELSE "bad"
    [] whole = "othermsg" -> "other"                            \* a genuine one of the same kind from elsewhere
    [] OTHER -> "bad"

\* What a genuine input meets at this place.
Welcome == CASE kind = "msg"  -> place \in {"session", "archived", "live"}
             [] kind = "pre"  -> place \in {"fresh", "session", "archived", "live"}
             [] kind = "gmsg" -> place \in {"member", "live"}
             [] OTHER -> TRUE
HandshakeOnly(d) == d.f \in {"PreKeyID", "SignedPreKeyID"} /\ ~(Json_ /\ d.h \in {"retype", "over", "negative"})

Result ==
  CASE ~Welcome -> "refused"
    [] Established /\ whole = "none" /\ dev # {} /\ All = "bad" /\ \A d \in dev : Meaning(d) # "bad" \/ HandshakeOnly(d) -> "either"
    [] All = "same" -> "taken"
    [] All = "bad" -> "refused"
    [] All = "other" -> IF kind \in Messages \ {"dist"} THEN "refused" ELSE "either"
    [] OTHER -> "either"

\* Only what was meant by the sender has an effect.
EffectsAreGenuine == phase = "arrived" /\ Result = "taken" => dev = {} /\ whole = "none" /\ Welcome
\* Whatever is incomplete is refused.
IncompleteIsRefused ==
  phase = "arrived" /\ dev # {} /\ (\E d \in dev : d.t = "point" /\ d.u = "auth" /\ d.h \in {"absent", "empty", "short"} /\ ~Shadowed(d))
     => Result = "refused"

Emit == phase = "arrived" =>
          PrintT("@@" \o ToJson([kind |-> kind, enc |-> enc, place |-> place, dev |-> dev, whole |-> whole, at |-> at, result |-> Result]))
=============================================================================
