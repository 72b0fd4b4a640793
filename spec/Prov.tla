-------------------------------- MODULE Prov --------------------------------
(* Provisioning. A sender seals a text to a device's key with a fresh        *)
(* ephemeral key: version, initialization vector, ciphertext and a code over *)
(* the three. On the way anything may happen to the envelope. The device     *)
(* opens it: everything is parsed, the code is verified, and only then is    *)
(* anything decrypted.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Lens,       \* lengths of texts
          BitLens     \* those for which every single bit and every truncation is tried

\* How it was sealed: honestly, or by a sender that knows the keys but breaks the format.
Mades == {"honest", "v0", "v2", "pad0", "pad17", "padmix", "padlong", "noblock", "ragged"}

VARIABLES len, made, tam, opened
vars == <<len, made, tam, opened>>

CtLen(n) == 16 * (n \div 16 + 1)
BodyLen(n) == 1 + 16 + CtLen(n) + 32

(* What can happen to a field of the envelope on the way.                    *)
Hows ==
  [v    |-> {"zero", "two", "high"},
   iv   |-> {"other", "zero"},
   ct   |-> {"other", "swap", "drop", "append", "copy"},
   mac  |-> {"other", "zero", "short", "long", "plain"},
   body |-> {"other", "empty", "one", "head", "shift"},
   eph  |-> {"other", "zero", "short", "empty", "type", "top", "trail", "missing"},
   json |-> {"garbage", "array", "null", "nobody", "nopub", "extra", "number", "tail"},
   b64  |-> {"bad", "empty", "cut", "tail", "more"},
   priv |-> {"other", "bad64", "empty", "tail"}]
Fields == DOMAIN Hows
Possible(f, h) == ~(f = "ct" /\ h \in {"swap", "copy"} /\ (CtLen(len) < 32 \/ made = "noblock"))

Bits(n) == {[f |-> "bodybit", h |-> "bit", at |-> i] : i \in 0..(8 * BodyLen(n) - 1)}
             \cup {[f |-> "ephbit", h |-> "bit", at |-> i] : i \in 0..263}
             \cup {[f |-> "cut", h |-> "cut", at |-> i] : i \in 0..(BodyLen(n) - 1)}
             \cup {[f |-> "ephcut", h |-> "cut", at |-> i] : i \in 0..32}

Init == /\ len \in Lens /\ made \in Mades
        /\ (made # "honest" => len \in {0, 16, 17})
        /\ tam = {} /\ opened = FALSE

Tamper == /\ ~opened
          /\ \/ /\ Cardinality(tam) < 2
                /\ \A t \in tam : t.h # "bit" /\ t.h # "cut"
                /\ \E f \in Fields : \E h \in Hows[f] :
                     /\ \A t \in tam : t.f # f
                     /\ Possible(f, h)
                     /\ tam' = tam \cup {[f |-> f, h |-> h, at |-> 0]}
             \/ /\ tam = {} /\ made = "honest" /\ len \in BitLens
                /\ \E b \in Bits(len) : tam' = {b}
          /\ UNCHANGED <<len, made, opened>>
Open == ~opened /\ opened' = TRUE /\ UNCHANGED <<len, made, tam>>
Next == Tamper \/ Open
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Has(f, h) == \E t \in tam : t.f = f /\ t.h = h
Touched(f) == \E t \in tam : t.f = f
Bit(f, lo, hi) == \E t \in tam : t.f = f /\ t.at >= lo /\ t.at < hi
n17 == 17 + CtLen(len)

(* The parts as the device sees them: "own", "other" (of another envelope to *)
(* the same device), or something else.                                      *)
Eph == CASE Has("eph", "other") -> "other"
         [] Has("eph", "zero") \/ Bit("ephbit", 8, 263) -> "changed"
         [] OTHER -> "own"
WholeBody == Has("body", "other")
Version == CASE Touched("v") \/ Bit("bodybit", 0, 8) -> "changed"
             [] made \in {"v0", "v2"} /\ ~WholeBody -> "changed"
             [] OTHER -> "one"
\* A part of its own wins over the exchanged body.
Part(f) == IF WholeBody THEN (IF Touched(f) THEN (IF Has(f, "other") THEN "other" ELSE "changed") ELSE "other")
           ELSE IF Has(f, "other") THEN "other" ELSE IF Touched(f) THEN "changed" ELSE "own"
Iv == IF Bit("bodybit", 8, 136) THEN "changed" ELSE Part("iv")
Ct == IF Bit("bodybit", 136, 8 * n17) THEN "changed" ELSE Part("ct")
Mac == IF Bit("bodybit", 8 * n17, 8 * BodyLen(len)) THEN "changed" ELSE Part("mac")
Misframed == Has("body", "one") \/ Has("body", "head") \/ Has("body", "shift") \/ Touched("cut")

Unparsable == \/ Touched("b64") \/ Has("priv", "bad64") \/ Has("priv", "tail") \/ Has("json", "tail")
              \/ Has("json", "garbage") \/ Has("json", "array") \/ Has("json", "null") \/ Has("json", "number")
              \/ Has("json", "nobody") \/ Has("json", "nopub") \/ Has("eph", "missing")
              \/ Has("eph", "short") \/ Has("eph", "empty") \/ Has("eph", "type") \/ Bit("ephbit", 0, 8) \/ Touched("ephcut")
              \/ Has("body", "empty")

\* Both ends have the same keys for this ephemeral key.
Keys == IF Touched("priv") THEN "other device" ELSE Eph

Authentic == /\ Keys \in {"own", "other"}
             /\ ~Misframed
             /\ Iv = Keys /\ Ct = Keys /\ Mac = Keys
\* Only what the sender broke itself is found after the code has been verified.
Broken == Keys = "own" /\ made \in {"pad0", "pad17", "padmix", "padlong", "noblock", "ragged"}

Stage == CASE Unparsable -> "parse"
           [] Version # "one" -> "version"
           [] ~Authentic -> "mac"
           [] Broken -> "content"
           [] OTHER -> "ok"
\* Another encoding of the same key may be accepted or not.
Either == Has("eph", "top") \/ Has("eph", "trail") \/ (Touched("ephbit") /\ Bit("ephbit", 263, 264))
Result == IF Stage # "ok" THEN "error" ELSE IF Either THEN "either" ELSE "text"
Text == IF Stage = "ok" THEN Keys ELSE "-"

----------------------------------------------------------------------------
\* An honest envelope opens.
Opens == opened /\ made = "honest" /\ tam = {} => Result = "text" /\ Text = "own"
\* What opens is one of the two envelopes, unchanged apart from its packaging.
OnlyAuthentic ==
  opened /\ Stage = "ok" =>
    /\ \A t \in tam : \/ t.f = "json" /\ t.h = "extra"
                      \/ t.f \in {"eph", "ephbit"} /\ (t.h \in {"top", "trail", "bit", "other"})
                      \/ t.h = "other" /\ t.f \in {"body", "iv", "ct", "mac"}
    /\ (Has("eph", "other") <=> Text = "other")
    /\ (\E t \in tam : t.h = "other") => {t.f : t \in {u \in tam : u.h = "other"}} \in {{"eph", "body"}}
\* The text is looked at only if the code was right.
MacFirst == opened /\ Stage = "content" => Authentic

Emit == opened => PrintT("@@" \o ToJson([len |-> len, made |-> made, tam |-> tam, stage |-> Stage, result |-> Result, text |-> Text]))
=============================================================================
