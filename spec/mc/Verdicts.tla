------------------------------ MODULE Verdicts ------------------------------
(* Every combination of answers before the content, over two messages. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{}}
C_Fbs == {<<"accept", "accept">>}
C_Offers == {{}}
C_KSteps == {{}}
C_KActs == {{}}
C_Ups == {<<TRUE, TRUE>>}
C_Verd == (Par \X {"continue", "accept", "reject", "tempfail", "discard", "rc5", "rc4"}) \cup (Con \X {"continue"})
C_Changes == {}
C_Kinds == {}
=============================================================================
