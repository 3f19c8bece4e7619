---------------------------- MODULE FrameStackGen -----------------------------
EXTENDS FrameStack, Json
Dump == PrintT(ToJson(<<"CASE", <<chain, base, bcode, ignf, ignc>>>>))
=============================================================================
