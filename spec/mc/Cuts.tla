------------------------------ MODULE Cuts ------------------------------
(* The MTA gives up, between commands and in the middle of one. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{}}
C_Fbs == {<<"accept", "accept">>}
C_Offers == {{}}
C_KSteps == {{}}
C_KActs == {{}}
C_Ups == {<<TRUE, TRUE>>}
C_Verd == (Par \X {"continue", "accept"}) \cup (Con \X {"continue", "accept"}) \cup {<<"unknown", "continue">>, <<"unknown", "reject">>}
C_Changes == {}
C_Kinds == {"abort", "abortmid", "close", "unknown"}
=============================================================================
