------------------------------ MODULE Steps ------------------------------
(* What milters ask to be spared, and what they need not answer. *)
EXTENDS MilterManager
Par == {"connect", "helo", "mail", "rcpt", "data"}
Con == {"header", "eoh", "body", "eom"}
All == Par \cup Con \cup {"unknown"}
C_Evals == {{}}
C_Fbs == {<<"accept", "accept">>}
C_Offers == {NoSteps \cup NrSteps}
C_KSteps == {{}, {"noconnect"}, {"nohelo"}, {"norcpt"}, {"nodata"}, {"nohdrs"}, {"noeoh"}, {"nobody"}, NoSteps \ {"nomail"}, NrSteps, {"nr_conn"}, {"nr_helo"}, {"nr_mail"}, {"nr_rcpt"}, {"nr_data"}, {"nr_hdr"}, {"nr_eoh"}, {"nr_body"}}
C_KActs == {{}}
C_Ups == {<<TRUE, TRUE>>}
C_Verd == (All \X {"continue"}) \cup {<<"rcpt", "reject">>, <<"body", "tempfail">>, <<"eom", "reject">>}
C_Changes == {}
C_Kinds == {"unknown"}
=============================================================================
