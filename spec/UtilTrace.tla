------------------------------ MODULE UtilTrace ------------------------------
EXTENDS Util, Conform
US(ev) ==
  LET z == [nil |-> TRUE] R(e) == [s |-> z, exp |-> e, ok |-> ev.obs = e] IN
  CASE ev.do = "version" -> R([r |-> Cmp(ev.a, ev.b), back |-> Cmp(ev.b, ev.a)])
    [] ev.do = "classes" -> R([r |-> Located(ev.cs)])
    [] ev.do = "dump" -> IF Len(ev.bs) = 0 THEN [s |-> z, exp |-> "any", ok |-> TRUE]
                         ELSE R([rows |-> Dump(ev.bs, ev.o), legacy |-> Dump(ev.bs, ev.o)])
    [] ev.do = "array" -> IF Len(ev.bs) = 0 THEN R([st |-> "raise"]) ELSE R([st |-> "ok", a |-> CArray(ev.bs, ev.o)])
    [] ev.do = "host" -> LET h == Host(ev.sys, ev.mach) IN R(IF h = <<>> THEN [st |-> "raise"] ELSE [st |-> "ok", h |-> h])
    [] ev.do = "import" -> R([st |-> "ok", v |-> ev.want])
UN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
