------------------------------ MODULE Connecting ------------------------------
(* Milters that cannot be reached at once. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{}, {1}}
C_Fbs == {<<x, y>> : x, y \in {"accept", "tempfail"}}
C_Offers == {{}}
C_KSteps == {{}}
C_KActs == {{}}
C_Ups == {<<FALSE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>}
C_Verd == All \X {"continue"}
C_Changes == {}
C_Kinds == {"tick", "kclose", "listen"}
=============================================================================
