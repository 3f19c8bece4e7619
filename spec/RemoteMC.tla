------------------------------- MODULE RemoteMC -------------------------------
(* Bounds for checking Remote.                                                    *)
EXTENDS Remote
Paths == {<<1>>, <<1, 2>>}
=============================================================================
