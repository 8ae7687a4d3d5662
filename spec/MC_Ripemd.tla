----------------------------- MODULE MC_Ripemd ------------------------------
(* The streaming hasher as a state machine: vChunks of border sizes are fed in  *)
(* any order; buffer, block count and length must describe the message.        *)
EXTENDS Ripemd, Json
CONSTANTS Sizes, MaxChunks, WithHash
VARIABLES vChunks, vBuf, vBlocks, vTotal, vH
vars == <<vChunks, vBuf, vBlocks, vTotal, vH>>
Msg(n, off) == [i \in 1..n |-> (7 * (off + i) + 3) % 256]
Init == vChunks = <<>> /\ vBuf = <<>> /\ vBlocks = 0 /\ vTotal = 0 /\ vH = H0
Feed(n) == /\ Len(vChunks) < MaxChunks
           /\ vChunks' = Append(vChunks, n)
           /\ vTotal' = vTotal + n
           /\ LET b == vBuf \o Msg(n, vTotal) k == Len(b) \div 64 IN
              /\ vBlocks' = vBlocks + k
              /\ vBuf' = Drop(b, 64 * k)
              /\ vH' = IF WithHash THEN Absorb(vH, Take(b, 64 * k)) ELSE vH
Next == \E n \in Sizes : Feed(n)
Emit == PrintT("CASE " \o ToJson([chunks |-> vChunks']))
Spec == Init /\ [][Next /\ Emit]_vars
Counts == 64 * vBlocks + Len(vBuf) = vTotal /\ Len(vBuf) < 64
PadOK == LET p == Len(Pad(Len(vBuf), Zero(8))) IN (Len(vBuf) + p) % 64 = 0 /\ p >= 9 /\ p <= 72
HashOK == WithHash => Finish160(vH, vBuf, MulAdd(NumW(vTotal, 8), 8, 0).v) = Ripemd160(Msg(vTotal, 0))
=============================================================================
