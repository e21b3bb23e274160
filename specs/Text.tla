-------------------------------- MODULE Text --------------------------------
(* Strings for TLC, computed by java/vt/Text.java: comparison by bytes, the   *)
(* sequence of the characters (strings of length one), and their reverse.     *)
StrLt(a, b) == FALSE
Chars(s) == <<>>
Glue(cs) == ""
=============================================================================
