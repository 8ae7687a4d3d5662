------------------------------ MODULE T_Names ------------------------------
EXTENDS Names, Conf
Quoted(s) == <<34>> \o s \o <<34>>
NoNul(s) == IF Find(s, 0) = 0 THEN s ELSE Take(s, Find(s, 0) - 1)
NamesJudge(e) ==
  LET x == e.in[1] IN
  CASE e.op \in {"name_str", "name_capi_str"} -> Is(e, OK(<<NameText(x)>>))
    [] e.op = "name_obj_str" -> Is(e, OK(<<NameText(x), NameText(x), Bit(~IsZero(x)), x>>))
    [] e.op = "name_lenient" -> Is(e, OK(<<NameOf(x), NameOf(x), NameOf(x)>>))
    [] e.op = "name_lenient_c" -> Is(e, OK(<<NameOf(NoNul(x))>>))
    [] e.op \in {"name_try_strict", "name_strict", "name_ctor"} -> Is(e, StrictName(x))
    [] e.op = "name_hash" -> Is(e, OK(<<NameFromJson(x)>>))
    [] e.op = "name_digit" -> Is(e, IF NameDigit(x[1]) < 0 THEN FAIL ELSE OK(<< <<NameDigit(x[1])>> >>))
    [] e.op = "name_parts" -> Is(e, OK(<< <<Len(NameText(x))>>, NamePrefix(x), NameSuffix(x)>>))
    [] e.op = "name_cmp" -> LET c == NameOrder(x, e.in[2]) IN
         Is(e, OK(<<Bit(c < 0), Bit(c = 0), Bit(c > 0), Bit(c <= 0), Bit(c >= 0), Bit(c # 0)>>))
    [] e.op = "name_to_json" -> Is(e, OK(<<Quoted(NameText(x))>>))
    \* the text is a plain JSON string without escapes
    [] e.op = "name_from_json" -> Is(e, OK(<<NameFromJson(SubSeq(x, 2, Len(x) - 1))>>))
    [] e.op = "name_capi" -> Is(e, OK(<<NameOf(NoNul(x)), NameText(NameOf(NoNul(x)))>>))
=============================================================================
