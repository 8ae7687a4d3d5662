------------------------------- MODULE Clock -------------------------------
(* Time values and integer wrappers as registers holding numbers.  u: durations   *)
(* and p: instants (signed 8 bytes, microseconds), s: instants in whole seconds,   *)
(* b: half second slots since 2000, v: unsigned, w: signed 4 byte wrappers.        *)
(* A command is defined when its exact result can be held.                        *)
EXTENDS Time

ClockInit == [u |-> <<Zero(8), Zero(8)>>, p |-> <<Zero(8), Zero(8)>>, s |-> <<Zero(4), Zero(4)>>,
              b |-> <<Zero(4), Zero(4)>>, v |-> <<Zero(4), Zero(4)>>, w |-> <<Zero(4), Zero(4)>>]
\* exact results on 14 bytes, cut to 8
Wide(x) == SExt(x, 14)
Cut(y) == [v |-> Take(y, 8), def |-> SExt(Take(y, 8), 14) = y]
Plus(x, y) == Cut(Add(Wide(x), Wide(y)))
Minus(x, y) == Cut(Sub(Wide(x), Wide(y)))
\* k steps of at most 2^22
Scaled(x, ks) == LET m == FoldLeft(LAMBDA a, k : Times(a, k), Ext(Magn(x), 14), ks) IN Cut(IF IsNeg(x) THEN Neg(m) ELSE m)
Units == [seconds |-> <<1000, 1000>>, milliseconds |-> <<1000>>, minutes |-> <<1000, 1000, 60>>, hours |-> <<1000, 1000, 3600>>, days |-> <<1000, 1000, 3600, 24>>]
\* towards zero
WholeSec(x) == LET q == DivSmall(Magn(x), 1000000).q IN IF IsNeg(x) THEN Neg(q) ELSE q
InSec(x) == LET q == WholeSec(x) IN [v |-> Take(q, 4), def |-> ~IsNeg(x) /\ Fits32(q)]
InSlot(x) == LET r == Slot(x) IN [v |-> r.slot, def |-> r.in]
Max8 == Rep(255, 7) \o <<127>>
Max4 == Rep(255, 4)
YES(x) == [v |-> x, def |-> TRUE]
Flag(b) == <<IF b THEN 1 ELSE 0>>
Six(c) == Flag(c = 0) \o Flag(c # 0) \o Flag(c < 0) \o Flag(c > 0) \o Flag(c <= 0) \o Flag(c >= 0)
Four(c) == Flag(c = 0) \o Flag(c # 0) \o Flag(c < 0) \o Flag(c >= 0)
Both(c) == Flag(c = 0) \o Flag(c = 0) \o Flag(c # 0) \o Flag(c # 0) \o Flag(c < 0) \o Flag(c > 0) \o Flag(c >= 0) \o Flag(c <= 0)

Put(g, k, i, r) == [s |-> [g EXCEPT ![k][i] = r.v], def |-> r.def, ok |-> TRUE, a |-> <<>>]
Tell(g, a) == [s |-> g, def |-> TRUE, ok |-> TRUE, a |-> a]
Refuse(g) == [s |-> g, def |-> TRUE, ok |-> FALSE, a |-> <<>>]
Unit(op) == CASE op = B("seconds") -> Units.seconds [] op = B("milliseconds") -> Units.milliseconds [] op = B("minutes") -> Units.minutes
              [] op = B("hours") -> Units.hours [] op = B("days") -> Units.days
Step(g, op, i, j, x) ==
  LET x4 == Take(x, 4)
      U == g.u P == g.p SS == g.s BB == g.b V == g.v WW == g.w
      Is1(name) == op = B(name)
  IN
  CASE Is1("us") -> Put(g, "u", i, YES(x))
    [] op \in {B("seconds"), B("milliseconds"), B("minutes"), B("hours"), B("days")} -> Put(g, "u", i, Scaled(x, Unit(op)))
    [] op \in {B("u+u"), B("u+=u")} -> Put(g, "u", i, Plus(U[i], U[j]))
    [] op \in {B("u-u"), B("u-=u")} -> Put(g, "u", i, Minus(U[i], U[j]))
    [] Is1("umax") -> Put(g, "u", i, YES(Max8))
    [] Is1("usec") -> Tell(g, WholeSec(U[i]))
    [] Is1("p=u") -> Put(g, "p", i, YES(U[j]))
    [] Is1("p=s") -> Put(g, "p", i, YES(SecUs(SS[j])))
    [] op \in {B("p=b"), B("p.b")} -> Put(g, "p", i, YES(BlockUs(BB[j])))
    [] Is1("pmax") -> Put(g, "p", i, YES(Max8))
    [] op \in {B("p+u"), B("p+=u")} -> Put(g, "p", i, Plus(P[i], U[j]))
    [] op \in {B("p-u"), B("p-=u")} -> Put(g, "p", i, Minus(P[i], U[j]))
    [] Is1("p+p") -> Put(g, "p", i, Plus(P[i], P[j]))
    [] Is1("p=s+u") -> Put(g, "p", i, Plus(SecUs(SS[j]), U[i]))
    [] Is1("p=s-u") -> Put(g, "p", i, Minus(SecUs(SS[j]), U[i]))
    [] Is1("u=p-p") -> Put(g, "u", i, Minus(P[i], P[j]))
    [] Is1("u=s-s") -> Put(g, "u", i, Minus(SecUs(SS[i]), SecUs(SS[j])))
    [] Is1("u=p-s") -> Put(g, "u", i, Minus(P[i], SecUs(SS[j])))
    [] Is1("u=p") -> Put(g, "u", i, YES(P[j]))
    [] Is1("psec") -> LET r == InSec(P[i]) IN [s |-> g, def |-> r.def, ok |-> TRUE, a |-> r.v]
    [] Is1("s") -> Put(g, "s", i, YES(x4))
    [] op \in {B("s=p"), B("s(p)")} -> Put(g, "s", i, InSec(P[j]))
    [] op \in {B("s+=n"), B("s+n")} -> Put(g, "s", i, YES(Add(SS[i], x4)))
    [] op \in {B("s-=n"), B("s-n")} -> Put(g, "s", i, YES(Sub(SS[i], x4)))
    [] Is1("s+=u") -> Put(g, "s", i, YES(Add(SS[i], Take(WholeSec(U[j]), 4))))
    [] Is1("s-=u") -> Put(g, "s", i, YES(Sub(SS[i], Take(WholeSec(U[j]), 4))))
    [] Is1("s+=s") -> Put(g, "s", i, YES(Add(SS[i], SS[j])))
    [] Is1("s-=s") -> Put(g, "s", i, YES(Sub(SS[i], SS[j])))
    [] Is1("smax") -> Put(g, "s", i, YES(Max4))
    [] op \in {B("smin"), B("s0")} -> Put(g, "s", i, YES(Zero(4)))
    [] Is1("b") -> Put(g, "b", i, YES(x4))
    [] op \in {B("b=p"), B("b(p)")} -> Put(g, "b", i, InSlot(P[j]))
    [] Is1("b(s)") -> Put(g, "b", i, InSlot(SecUs(SS[j])))
    [] Is1("bnext") -> IF BB[j] = Max4 THEN Refuse(g) ELSE Put(g, "b", i, YES(Add(BB[j], <<1, 0, 0, 0>>)))
    [] op \in {B("bmin"), B("b0")} -> Put(g, "b", i, YES(Zero(4)))
    [] op \in {B("v"), B("v=")} -> Put(g, "v", i, YES(x4))
    [] Is1("v64") -> Put(g, "v", i, [v |-> x4, def |-> Fits32(x)])
    [] Is1("vas") -> Tell(g, Ext(V[i], 8) \o Take(V[i], 1) \o V[i] \o Flag(~IsZero(V[i])))
    [] Is1("v?n") -> Tell(g, Both(Cmp(V[i], x4)))
    [] Is1("v=v") -> Put(g, "v", i, YES(V[j]))
    [] op \in {B("w"), B("w=n")} -> Put(g, "w", i, YES(x4))
    [] Is1("w=n64") -> Put(g, "w", i, [v |-> x4, def |-> SExt(x4, 8) = x])
    [] Is1("++w") -> [Put(g, "w", i, [v |-> Add(WW[i], <<1, 0, 0, 0>>), def |-> WW[i] # <<255, 255, 255, 127>>]) EXCEPT !.a = Add(WW[i], <<1, 0, 0, 0>>)]
    [] Is1("w++") -> [Put(g, "w", i, [v |-> Add(WW[i], <<1, 0, 0, 0>>), def |-> WW[i] # <<255, 255, 255, 127>>]) EXCEPT !.a = WW[i]]
    [] Is1("was") -> Tell(g, SExt(WW[i], 8) \o Flag(~IsZero(WW[i])))
    [] Is1("w?n") -> Tell(g, Both(SCmp(WW[i], x4)))
    [] Is1("w=v") -> Put(g, "w", i, [v |-> V[j], def |-> ~IsNeg(V[j])])
\* everything that can be seen after a command
Seen(r) == LET g == r.s IN
  Flag(r.ok) \o g.u[1] \o g.u[2] \o g.p[1] \o g.p[2] \o g.s[1] \o g.s[2] \o g.b[1] \o g.b[2] \o g.v[1] \o g.v[2] \o g.w[1] \o g.w[2] \o
  Six(SCmp(g.u[1], g.u[2])) \o Six(SCmp(g.p[1], g.p[2])) \o Six(Cmp(g.s[1], g.s[2])) \o Six(Cmp(g.b[1], g.b[2])) \o Four(Cmp(g.v[1], g.v[2])) \o Four(SCmp(g.w[1], g.w[2])) \o r.a
=============================================================================
