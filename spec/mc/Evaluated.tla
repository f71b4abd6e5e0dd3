------------------------------ MODULE Evaluated ------------------------------
(* Milters under evaluation. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{1}, {2}, {1, 2}}
C_Fbs == {<<"accept", "accept">>}
C_Offers == {{}}
C_KSteps == {{}}
C_KActs == {{}}
C_Ups == {<<TRUE, TRUE>>}
C_Verd == (Par \X {"continue", "accept", "reject", "tempfail", "discard"}) \cup (Con \X {"continue", "reject", "discard", "rc5"})
C_Changes == {}
C_Kinds == {}
=============================================================================
