----------------------------- MODULE T_SymAsset -----------------------------
EXTENDS SymAsset, Names, Conf
Q(t) == <<34>> \o t \o <<34>>
All(s, p) == IF p.ok /\ p.next = Len(s) + 1 THEN OK(<<p.v>>) ELSE FAIL
Pos(s, p) == IF p.ok THEN OK(<<p.v, NumW(p.next - 1, 4)>>) ELSE FAIL
SymAssetJudge(e) ==
  LET x == e.in[1] IN
  CASE e.op \in {"code_parse", "code_json"} -> Is(e, All(x, ParseCode(x, 1)))
    [] e.op = "code_ctor" -> Is(e, IF Len(x) <= 7 /\ \A i \in 1..Len(x) : IsUp(x[i]) THEN OK(<<Ext(x, 8)>>) ELSE FAIL)
    [] e.op \in {"sym_parse", "sym_json"} -> Is(e, All(x, ParseSym(x)))
    [] e.op = "sym_pos" -> Is(e, Pos(x, ParseSym(x)))
    [] e.op \in {"asset_parse", "asset_json"} -> Is(e, All(x, ParseAsset(x)))
    [] e.op = "asset_pos" -> Is(e, Pos(x, ParseAsset(x)))
    \* with the range check of a constructed asset
    [] e.op = "asset_string" -> Is(e, IF All(x, ParseAsset(x)).ok /\ InRange(Take(ParseAsset(x).v, 8)) THEN All(x, ParseAsset(x)) ELSE FAIL)
    [] e.op = "code_print" -> LET t == CodeText(x) IN
         Is(e, OK(<<t, t, Q(t), <<Len(t)>>, Bit(CodeValid(x)), Bit(~IsZero(x))>>))
    [] e.op = "code_valid" -> LET y == Take(x, 7) \o <<0>> IN Is(e, OK(<<Bit(CodeValid(x)), Bit(CodeValid(y)), Bit(CodeValid(y))>>)) \* a symbol has room for seven
    [] e.op = "sym_print" -> LET t == SymText(x) IN
         Is(e, OK(<<t, t, Q(t), <<x[1]>>, SymCode(x), Bit(SymValid(x)), x, x>>))
    [] e.op = "asset_print" -> LET t == AssetText(x, e.in[2]) IN Is(e, OK(<<t, t, Q(t), x \o e.in[2]>>))
    [] e.op = "ext_print" -> Is(e, OK(<<AssetText(x, e.in[2]) \o <<64>> \o NameText(e.in[3])>>))
    [] e.op = "sa_abi" -> LET p == IF x = B("asset") THEN All(e.in[2], ParseAsset(e.in[2])) ELSE IF x = B("symbol") THEN All(e.in[2], ParseSym(e.in[2])) ELSE All(e.in[2], ParseCode(e.in[2], 1)) IN
         Is(e, IF ~p.ok THEN FAIL ELSE LET v == p.out[1] IN
           OK(<<v, v, Q(IF x = B("asset") THEN AssetText(Take(v, 8), Drop(v, 8)) ELSE IF x = B("symbol") THEN SymText(v) ELSE CodeText(v))>>))
    [] e.op = "sym_cmp" -> LET c == Cmp(x, e.in[2]) IN Is(e, OK(<<Bit(c < 0), Bit(c = 0), Bit(c > 0), Bit(c <= 0), Bit(c >= 0), Bit(c # 0)>>))

\* arithmetic of valid assets; a, b amounts, s, t symbols, c, d contracts
Amt(r, s) == IF InRange(r) THEN OK(<<Take(r, 8), s>>) ELSE FAIL
AssetJudge(e) ==
  LET a == e.in[1] s == e.in[2] b == e.in[3]
      t == IF Len(e.in) >= 4 THEN e.in[4] ELSE <<>>
      same == s = t
      one(r) == Is(e, IF same THEN r ELSE FAIL)
      two == Len(e.in) >= 6 /\ e.in[5] = e.in[6]
      ext(r) == Is(e, IF same /\ two THEN r ELSE FAIL)
      withc(r) == IF r.ok THEN OK(r.out \o <<e.in[5]>>) ELSE FAIL
      c == SCmp(a, b)
  IN
  CASE e.op \in {"as_add", "as_add_to"} -> one(Amt(AddX(a, b), s))
    [] e.op \in {"as_sub", "as_sub_from"} -> one(Amt(SubX(a, b), s))
    [] e.op = "as_div" -> one(IF IsZero(b) THEN FAIL ELSE OK(<<Take(DivX(a, b), 8)>>))
    [] e.op = "as_eq" -> one(OK(<<Bit(c = 0), Bit(c # 0)>>))
    [] e.op = "as_lt" -> one(OK(<<Bit(c < 0)>>))  [] e.op = "as_le" -> one(OK(<<Bit(c <= 0)>>))
    [] e.op = "as_gt" -> one(OK(<<Bit(c > 0)>>))  [] e.op = "as_ge" -> one(OK(<<Bit(c >= 0)>>))
    \* asset and integer
    [] e.op \in {"as_mul", "as_mul_by", "mul_as"} -> Is(e, Amt(MulX(a, b), s))
    [] e.op \in {"as_idiv", "as_idiv_by"} -> Is(e, IF IsZero(b) THEN FAIL ELSE Amt(DivX(a, b), s))
    [] e.op = "as_neg" -> Is(e, OK(<<Neg(a), s>>))
    \* with contracts
    [] e.op \in {"ex_add", "ex_add_to"} -> ext(withc(Amt(AddX(a, b), s)))
    [] e.op \in {"ex_sub", "ex_sub_from"} -> ext(withc(Amt(SubX(a, b), s)))
    [] e.op = "ex_lt" -> ext(OK(<<Bit(c < 0)>>)) [] e.op = "ex_le" -> ext(OK(<<Bit(c <= 0)>>)) [] e.op = "ex_ge" -> ext(OK(<<Bit(c >= 0)>>))
    [] e.op = "ex_eq" -> one(OK(<<Bit(c = 0 /\ two), Bit(~(c = 0 /\ two))>>))
    [] e.op = "ex_neg" -> Is(e, OK(<<Neg(a), s, e.in[5]>>))
    \* construction (any amount, any symbol)
    [] e.op = "as_make" -> Is(e, IF InRange(a) /\ SymValid(s) THEN OK(<<a, s>>) ELSE FAIL)
    [] e.op = "ex_make" -> Is(e, IF InRange(a) /\ SymValid(s) THEN OK(<<a, s, b, s, b>>) ELSE FAIL)
    [] e.op = "as_set" -> Is(e, IF InRange(b) THEN OK(<<b>>) ELSE FAIL)
    [] e.op = "as_valid" -> Is(e, OK(<<Bit(InRange(a)), Bit(InRange(a) /\ SymValid(s)), Bit(SymValid(s))>>))
=============================================================================
