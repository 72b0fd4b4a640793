----------------------------- MODULE RunSession -----------------------------
(* An instance of SimSession for experiments; the checks generate their own. *)
EXTENDS SimSession
TheProfiles == <<"mix", "chat", "replay", "forge", "limits", "arch", "chains", "ident", "crash", "otk", "iso">>
=============================================================================
