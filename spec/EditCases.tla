----------------------------- MODULE EditCases ------------------------------
(* Source texts of generated editing sessions: as strings and as code points. *)
(* Written by bin/mkcases.py.                                                  *)
Sources == <<
  [x |-> "a 1 k=2 /*c*/ 3 \"k\"=(t)4 l=5 // end\n- /-0 6 {\n  b k=7; - 8 #true\n  /-x\n  - k=1 9\n}\na k=1\n",
   c |-> <<97,32,49,32,107,61,50,32,47,42,99,42,47,32,51,32,34,107,34,61,40,116,41,52,32,108,61,53,32,47,47,32,101,110,100,10,45,32,47,45,48,32,54,32,123,10,32,32,98,32,107,61,55,59,32,45,32,56,32,35,116,114,117,101,10,32,32,47,45,120,10,32,32,45,32,107,61,49,32,57,10,125,10,97,32,107,61,49,10>>],
  [x |-> "/* h */ a{}; (t)b 1 /-2 3\n\n// n\n a 4",
   c |-> <<47,42,32,104,32,42,47,32,97,123,125,59,32,40,116,41,98,32,49,32,47,45,50,32,51,10,10,47,47,32,110,10,32,97,32,52>>],
  [x |-> "",
   c |-> <<>>],
  [x |-> "n /-1 { m /-{ x } }/-{ y }\nn k=1 /-k=2\n- 1",
   c |-> <<110,32,47,45,49,32,123,32,109,32,47,45,123,32,120,32,125,32,125,47,45,123,32,121,32,125,10,110,32,107,61,49,32,47,45,107,61,50,10,45,32,49>>]
>>
=============================================================================
