------------------------------- MODULE Filter -------------------------------
(* Two messages, three calls in a callback. *)
EXTENDS ClientModel
C_Apis == {"client", "smfi"}
C_Cbs == {{"neg", "connect", "mail", "rcpt", "body", "eom", "abort"}, {"mail", "eom"}, {"neg", "rcpt", "abort"}}
C_Acts == {{"addhdrs", "quarantine", "chgbody"}, {"addrcpt"}}
C_Calls == {<<"setreply", <<"550", "5.7.1", "no">>>>, <<"setreply", <<"451", "4.7.1", "later">>>>, <<"setreply", <<"250", "2.0.0", "fine">>>>,
            <<"addheader", <<"X", "1">>>>, <<"addrcpt", <<"<n@x>">>>>, <<"replacebody", <<"t002">>>>, <<"quarantine", <<"why">>>>, <<"progress", <<>>>>}
C_Stats == {"continue", "accept", "reject", "tempfail", "discard", "progress"}
=============================================================================
