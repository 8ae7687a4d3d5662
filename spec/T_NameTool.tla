----------------------------- MODULE T_NameTool -----------------------------
EXTENDS NameTool, Conf
NameToolJudge(e) ==
  LET w == Call(e.in[1], e.in[2], Drop(e.in, 2)) IN
  IF w.open THEN Holds(e, e.st = "ok", "an answer") ELSE Is(e, OK(<<w.out, <<w.status>>, Bit(w.complains)>>))
=============================================================================
