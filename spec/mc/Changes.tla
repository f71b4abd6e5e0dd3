------------------------------ MODULE Changes ------------------------------
(* Changes at the end of the message. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{}, {1}}
C_Fbs == {<<"accept", "accept">>}
C_Offers == {{}}
C_KSteps == {{}}
C_KActs == {AllActs, AllActs \ {"chgbody", "addhdrs"}, AllActs \ {"addrcpt", "quarantine", "chgfrom"}}
C_Ups == {<<TRUE, TRUE>>}
C_Verd == (Par \X {"continue"}) \cup (Con \X {"continue"}) \cup {<<"eom", "accept">>, <<"eom", "reject">>}
C_Changes == {Pk("addhdr", <<"X-A", "1">>), Pk("chghdr", <<"1", "Subject", "new">>), Pk("chghdr", <<"1", "Subject", "">>), Pk("replbody", <<"t050">>),
   Pk("addrcpt", <<"<n@x>">>), Pk("delrcpt", <<"<t0@x>">>), Pk("chgfrom", <<"<g@x>">>), Pk("quarantine", <<"why">>)}
C_Kinds == {"chunk"}
=============================================================================
