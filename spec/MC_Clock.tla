------------------------------ MODULE MC_Clock ------------------------------
(* Registers of Clock under every command: the states reached in MaxCalls         *)
(* commands (one shortest history each), every command tried in each of them.     *)
EXTENDS Clock, Json
CONSTANT MaxCalls
N8(n) == IF n < 0 THEN Neg(Num8(-n)) ELSE Num8(n)
Epoch2 == BlockUs(Zero(4))
Lits == [us |-> {N8(1), N8(-1), N8(999999), N8(-1000001), Epoch2, Max8, Sub(Epoch2, N8(1)), Add(Epoch2, N8(1499999)), SecUs(Max4)},
         s |-> {Ext(Max4, 8), N8(946684799), N8(1), Ext(<<0, 0, 0, 128>>, 8)},
         b |-> {Ext(Max4, 8), Sub(Ext(Max4, 8), N8(1)), N8(1), N8(65535)},
         v |-> {Ext(Max4, 8), N8(1), N8(256), Ext(<<0, 0, 0, 128>>, 8)},
         w |-> {Ext(Max4, 8), N8(1), Ext(<<255, 255, 255, 127>>, 8), Ext(<<0, 0, 0, 128>>, 8), Ext(<<254, 255, 255, 127>>, 8)}]
Unary == {"umax", "usec", "pmax", "psec", "smax", "smin", "s0", "bmin", "b0", "vas", "was", "++w", "w++"}
Binary == {"u+u", "u+=u", "u-u", "u-=u", "p=u", "p=s", "p=b", "p.b", "p+u", "p+=u", "p-u", "p-=u", "p+p", "p=s+u", "p=s-u", "u=p-p", "u=s-s", "u=p-s", "u=p",
           "s=p", "s(p)", "s+=u", "s-=u", "s+=s", "s-=s", "b=p", "b(p)", "b(s)", "bnext", "v=v", "w=v"}
Few == {N8(2), N8(-3), N8(1500)}
Cmds == TLCEval(SetToSeq(
  UNION {{<<B(k), i, 1, x>> : x \in Lits[k], i \in (IF k \in {"us", "s"} THEN {1, 2} ELSE {1})} : k \in {"us", "s", "b", "v", "w"}}
  \cup {<<B(o), 1, 1, N8(0)>> : o \in Unary} \cup {<<B(o), 2, 1, N8(0)>> : o \in {"++w", "bmin", "smax", "pmax"}}
  \cup {<<B(o), 1, j, N8(0)>> : o \in Binary, j \in {1, 2}} \cup {<<B(o), 2, 1, N8(0)>> : o \in Binary}
  \cup {<<B(o), 1, 1, x>> : o \in {"seconds", "milliseconds", "minutes", "hours", "days"}, x \in Few \cup {Max8}}
  \cup {<<B(o), 1, 1, x>> : o \in {"s+=n", "s+n", "s-=n", "s-n", "v=", "v64", "v?n", "w=n", "w=n64", "w?n"}, x \in Few \cup {Ext(Max4, 8)}}))
VARIABLES vReg, vHist
vars == <<vReg, vHist>>
Init == vReg = ClockInit /\ vHist = <<>>
Next == /\ Len(vHist) < MaxCalls
        /\ \E k \in 1..Len(Cmds) : LET r == Step(vReg, Cmds[k][1], Cmds[k][2], Cmds[k][3], Cmds[k][4]) IN
             /\ r.def
             /\ vReg' = r.s
             /\ vHist' = Append(vHist, k)
             /\ PrintT("CASE " \o ToJson([i \in 1..Len(vHist') |-> Cmds[vHist'[i]]]))
Spec == Init /\ [][Next]_vars
View == vReg
\* ------------------------------------------------------------------
Regs == {1, 2}
Back == \A i \in Regs : InSec(SecUs(vReg.s[i])) = YES(vReg.s[i]) /\ InSlot(BlockUs(vReg.b[i])) = YES(vReg.b[i])
Monotone == Cmp(vReg.b[1], vReg.b[2]) = SCmp(BlockUs(vReg.b[1]), BlockUs(vReg.b[2])) /\ Cmp(vReg.s[1], vReg.s[2]) = SCmp(SecUs(vReg.s[1]), SecUs(vReg.s[2]))
Undo == \A i \in Regs, j \in Regs :
  LET q == Plus(vReg.p[i], vReg.u[j]) d == Minus(vReg.p[i], vReg.u[j]) IN
  (q.def => Minus(q.v, vReg.u[j]) = YES(vReg.p[i])) /\ (d.def => Plus(d.v, vReg.u[j]) = YES(vReg.p[i])) /\ q = Plus(vReg.u[j], vReg.p[i])
Between(lo, x, step) == SCmp(lo, x) <= 0 /\ SCmp(Sub(x, lo), N8(step)) < 0
Floor == \A i \in Regs : LET x == vReg.p[i] IN
  /\ (InSec(x).def => Between(SecUs(InSec(x).v), x, 1000000))
  /\ (InSlot(x).def => Between(BlockUs(InSlot(x).v), x, 500000))
  /\ (InSec(x).def <=> ~IsNeg(x) /\ SCmp(x, Add(SecUs(Max4), N8(999999))) <= 0)
InUnits == \A i \in Regs : LET x == vReg.u[i] y == Scaled(x, Units.seconds) IN
  /\ (y.def => WholeSec(y.v) = x /\ Scaled(Scaled(x, Units.milliseconds).v, <<1000>>) = y)
  /\ (Scaled(x, Units.days).def => Scaled(x, Units.days) = Scaled(Scaled(x, <<24>>).v, Units.hours))
Total == SCmp(vReg.u[1], vReg.u[2]) = -SCmp(vReg.u[2], vReg.u[1]) /\ (SCmp(vReg.u[1], vReg.u[2]) = 0 <=> vReg.u[1] = vReg.u[2])
=============================================================================
