----------------------------- MODULE MC_Base58 ------------------------------
(* Base58 as the number written: bytes and digits typed one at a time, with    *)
(* the value kept as a plain integer, against the definition in Crypto.        *)
EXTENDS Crypto, Json
CONSTANTS MaxBytes, MaxChars
ByteAl == {0, 1, 57, 58, 255}
TextAl == {B58Chars[1], B58Chars[2], B58Chars[9], B58Chars[10], B58Chars[33], B58Chars[34], B58Chars[58]}
VARIABLES vKind, vSeq, vVal
vars == <<vKind, vSeq, vVal>>
Init == vKind \in {"bytes", "text"} /\ vSeq = <<>> /\ vVal = 0
Next == /\ UNCHANGED vKind
        /\ \/ vKind = "bytes" /\ Len(vSeq) < MaxBytes /\ \E b \in ByteAl : vSeq' = Append(vSeq, b) /\ vVal' = 256 * vVal + b
           \/ vKind = "text" /\ Len(vSeq) < MaxChars /\ \E c \in TextAl : vSeq' = Append(vSeq, c) /\ vVal' = 58 * vVal + B58Val[c]
Emit == PrintT("CASE " \o ToJson([kind |-> vKind, seq |-> vSeq']))
Spec == Init /\ [][Next /\ Emit]_vars
ValOf(b) == FoldLeft(LAMBDA x, d : 256 * x + d, 0, b)
ValOfT(t) == FoldLeft(LAMBDA x, c : 58 * x + B58Val[c], 0, t)
Zeros(s, z) == SkipC(s, z, 1) - 1
OneToOne == IF vKind = "bytes"
  THEN LET t == B58Encode(vSeq) IN B58Decode(t) = vSeq /\ ValOfT(t) = vVal /\ Zeros(t, 49) = Zeros(vSeq, 0)
  ELSE LET b == B58Decode(vSeq) IN B58Encode(b) = vSeq /\ ValOf(b) = vVal /\ Zeros(b, 0) = Zeros(vSeq, 49)
=============================================================================
