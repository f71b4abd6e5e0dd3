------------------------------ MODULE Failures ------------------------------
(* Milters that leave, say nothing, or speak nonsense. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{}, {1}}
C_Fbs == {<<x, y>> : x, y \in {"accept", "reject", "tempfail"}} \cup {<<"discard", "accept">>}
C_Offers == {{}}
C_KSteps == {{}}
C_KActs == {{}}
C_Ups == {<<TRUE, TRUE>>}
C_Verd == (Par \X {"continue", "reject"}) \cup (Con \X {"continue", "accept"})
C_Changes == {}
C_Kinds == {"kclose", "tick", "bad", "unsol"}
=============================================================================
