------------------------------ MODULE Content ------------------------------
(* Every answer within the content. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{}}
C_Fbs == {<<"accept", "accept">>}
C_Offers == {{"skip"}}
C_KSteps == {{}, {"skip"}}
C_KActs == {{}}
C_Ups == {<<TRUE, TRUE>>}
C_Verd == (Con \X {"continue", "accept", "reject", "tempfail", "discard", "rc5", "rc4"}) \cup (Par \X {"continue"}) \cup {<<"body", "skip">>}
C_Changes == {}
C_Kinds == {"chunk"}
=============================================================================
