---- MODULE MC_Scalars ----
EXTENDS Scalars
VARIABLE vX
Init == vX = 0
Next == FALSE /\ vX' = vX
Spec == Init /\ [][Next]_x
T(s) == B(s)
ASSUME Events(T(" {\"a\" : [1, -2.5e+3,true ,null], \"b\":{}}")).ok
ASSUME PrintT(Events(T("[\"\\u00e9\\n\",{}]")))
ASSUME \A s \in {"", "[", "[1,]", "{\"a\"}", "01", "1 2", "tru", "[1}", "{,}", "\"\\x\"", "\"\\ud800\"", "-", "1.", "1e"} : ~Events(T(s)).ok
ASSUME PrintT(FloatBits(Decimal(T("1.5")), Fmt32))
ASSUME PrintT(FloatBits(Decimal(T("0.1")), Fmt64))
ASSUME FloatBits(Decimal(T("0.1")), Fmt64).b = <<154,153,153,153,153,153,185,63>>
ASSUME PrintT(FloatBits(Decimal(T("-1e-45")), Fmt32))
ASSUME PrintT(FloatBits(Decimal(T("1e308")), Fmt64))
ASSUME PrintT(FloatBits(Decimal(T("4.9e-324")), Fmt64))
====
