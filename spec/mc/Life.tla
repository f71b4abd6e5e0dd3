-------------------------------- MODULE Life --------------------------------
(* Three connections, limits 0 to 2, one reload. *)
EXTENDS ServiceModel
C_X == 1..3
C_Maxs == {0, 1, 2}
C_Susps == {1, 2}
C_Pres == {"none", "sock", "file"}
=============================================================================
