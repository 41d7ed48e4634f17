----------------------------- MODULE BuildReport -----------------------------
(***************************************************************************)
(* What a build report says (uefi/edk2/parsers/buildreport_parser), and    *)
(* the override lines of an INF (override_parser).  A report is a sequence *)
(* of lines; regions are between ">====<" and "<====>", sections of them   *)
(* between ">----<" and "<---->".  "/R" stands for the directory of the    *)
(* case, whose workspace is /R/ws.                                         *)
(***************************************************************************)
EXTENDS Text

RECURSIVE Times(_, _)
Times(c, n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN LET h == Times(c, n \div 2) IN h \o h ELSE c \o Times(c, n - 1)
Wide == 118
RegStart == ">" \o Times("=", Wide) \o "<"
RegEnd == "<" \o Times("=", Wide) \o ">"
SubStart == ">" \o Times("-", Wide) \o "<"
SubEnd == "<" \o Times("-", Wide) \o ">"
Dashes(s) == StartsWith(s, "-----")

Trim(s) == Str(Strip(Chars(s)))
\* before and after the first c ("" when there is none)
Before(s, c) == LET k == Find(Chars(s), c, 1) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
Behind(s, c) == LET k == Find(Chars(s), c, 1) IN IF k = 0 THEN "" ELSE SubSeq(s, k + 1, Len(s))
Count(s, c) == Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) = c})
RECURSIVE WordsOf(_, _, _)
WordsOf(cs, i, cur) ==
  LET out == IF cur = <<>> THEN <<>> ELSE <<Str(cur)>> IN
  IF i > Len(cs) THEN out ELSE IF cs[i] \in Blank THEN out \o WordsOf(cs, i + 1, <<>>) ELSE WordsOf(cs, i + 1, Append(cur, cs[i]))
Words(s) == WordsOf(Chars(s), 1, <<>>)
RECURSIVE Swap(_, _, _)
Swap(s, a, b) == LET I == {i \in 1..(Len(s) - Len(a) + 1) : SubSeq(s, i, i + Len(a) - 1) = a} IN
  IF I = {} THEN s ELSE LET i == CHOOSE k \in I : \A m \in I : k <= m IN SubSeq(s, 1, i - 1) \o b \o Swap(SubSeq(s, i + Len(a), Len(s)), a, b)
\* protected words are replaced one after the other
RECURSIVE Protect(_, _, _)
Protect(s, ws, i) == IF i > Len(ws) THEN s ELSE Protect(Swap(s, ws[i][1], ws[i][2]), ws, i + 1)

IdChars == LowerSet \cup UpperSet \cup DecSet \cup {"_"}
IsName(s) == Len(s) > 0 /\ (\A i \in 1..Len(s) : SubSeq(s, i, i) \in IdChars) /\ SubSeq(s, 1, 1) \notin DecSet
\* a value is whole when its quotes are closed and its braces outside quotes are
RECURSIVE Scan(_, _, _, _, _)
Scan(cs, i, q, esc, d) == IF i > Len(cs) THEN [q |-> q, d |-> d]
  ELSE LET c == cs[i] IN
  IF q THEN Scan(cs, i + 1, ~(c = "\"" /\ ~esc), c = "\\" /\ ~esc, d)
  ELSE Scan(cs, i + 1, c = "\"", FALSE, IF c = "{" THEN d + 1 ELSE IF c = "}" THEN d - 1 ELSE d)
Closed(s) == LET r == Scan(Chars(s), 1, FALSE, FALSE, 0) IN ~r.q /\ r.d = 0

\* the path below the first root that holds it, or the path itself
RECURSIVE Rel(_, _, _)
Rel(p, roots, i) == IF i > Len(roots) THEN p ELSE IF StartsWith(p, roots[i] \o "/") THEN SubSeq(p, Len(roots[i]) + 2, Len(p)) ELSE Rel(p, roots, i + 1)

\* ---- modules -----------------------------------------------------------------------------
Put(s, k, v) == {p \in s : p[1] # k} \cup {<<k, v>>}
M0 == [sec |-> "head", next |-> FALSE, over |-> FALSE, ts |-> "", open |-> "", key |-> "", text |-> "", nulls |-> 0,
       name |-> "", guid |-> "", inf |-> "", type |-> "", depex |-> <<>>, pcds |-> {}, libs |-> {}]
Library(m, t, roots) ==
  LET path == Trim(Before(t, "{"))  raw == Trim(Before(Before(Behind(t, "{"), "}"), ":"))
      null == Lower(raw) = "null"  cls == IF null THEN raw \o DecSeq[(m.nulls % 10) + 1] ELSE raw IN
  [m EXCEPT !.open = "", !.text = "", !.nulls = IF null THEN @ + 1 ELSE @, !.libs = Put(@, cls, Rel(path, roots, 1))]
LibText(m, t, roots) == IF Contains(t, "}") THEN Library(m, t, roots) ELSE [m EXCEPT !.open = "lib", !.text = t]
PcdText(m, key, t) ==
  IF ~Closed(t) THEN [m EXCEPT !.open = "pcd", !.key = key, !.text = t]
  ELSE [m EXCEPT !.open = "", !.text = "", !.pcds = IF key = "" THEN @ ELSE Put(@, key, Words(Behind(t, "=")))]
InfText(m, v) == IF Contains(Lower(v), ".inf") THEN [m EXCEPT !.open = "", !.inf = Swap(v, "\\", "/")] ELSE [m EXCEPT !.open = "inf", !.text = v]
Step(m, l, roots) ==
  IF m.open = "lib" THEN LibText(m, m.text \o l, roots)
  ELSE IF m.open = "pcd" THEN PcdText(m, m.key, m.text \o " " \o l)
  ELSE IF m.open = "inf" THEN InfText(m, m.text \o l)
  ELSE IF l = SubStart THEN [m EXCEPT !.next = TRUE, !.sec = "other"]
  ELSE IF l = SubEnd THEN [m EXCEPT !.next = FALSE, !.sec = "other"]
  ELSE IF m.next THEN
    CASE l = "Library" -> [m EXCEPT !.next = FALSE, !.sec = "lib"]
      [] l = "PCD" -> [m EXCEPT !.next = FALSE, !.sec = "pcd", !.ts = ""]
      [] l = "Final Dependency Expression (DEPEX) Instructions" -> [m EXCEPT !.next = FALSE, !.sec = "dep", !.over = FALSE]
      [] l = "Dependency Expression (DEPEX) from INF" -> [m EXCEPT !.next = FALSE, !.sec = "dep", !.over = TRUE]
      [] OTHER -> [m EXCEPT !.next = FALSE, !.sec = "other"]
  ELSE CASE m.sec = "lib" -> IF Dashes(l) THEN m ELSE LibText(m, l, roots)
    [] m.sec = "pcd" ->
         LET left == Before(l, "=")  eq == Find(Chars(l), "=", 1) > 0  w == Words(Before(left, ":")) IN
         IF IsName(l) THEN [m EXCEPT !.ts = l]
         ELSE IF ~eq \/ Dashes(l) THEN m
         ELSE IF Contains(left, ":") /\ Len(w) > 0 THEN PcdText(m, m.ts \o "." \o w[Len(w)], l)
         ELSE PcdText(m, "", l)
    [] m.sec = "dep" ->
         IF l = "Dependency Expression (DEPEX) from INF" THEN [m EXCEPT !.over = TRUE]
         ELSE IF Dashes(l) THEN [m EXCEPT !.over = FALSE]
         ELSE IF m.over THEN [m EXCEPT !.depex = @ \o Words(l)] ELSE m
    [] m.sec = "head" ->
         LET k == Lower(Trim(Before(l, ":")))  v == Trim(Behind(l, ":")) IN
         IF v = "" THEN m
         ELSE CASE k = "module name" -> [m EXCEPT !.name = v]
                [] k = "module inf path" -> InfText(m, v)
                [] k = "file guid" -> [m EXCEPT !.guid = v]
                [] k = "driver type" -> LET b == Behind(v, "(") IN [m EXCEPT !.type = SubSeq(b, 1, Len(b) - 1)]
                [] OTHER -> m
    [] OTHER -> m
RECURSIVE Module(_, _, _, _)
Module(m, ls, i, roots) == IF i > Len(ls) THEN m ELSE Module(Step(m, ls[i], roots), ls, i + 1, roots)

\* ---- flash -------------------------------------------------------------------------------
\* the INFs of a flash region with the volume they are in, in order
RECURSIVE Flash(_, _, _)
Flash(ls, i, fv) ==
  IF i > Len(ls) THEN <<>>
  ELSE LET l == ls[i]  w == Words(l) IN
  IF StartsWith(l, "Fv Name:") THEN Flash(ls, i + 1, Words(Behind(l, ":"))[1])
  ELSE IF StartsWith(l, "0x") /\ Len(w) = 3 /\ Count(l, "(") = 1 THEN
    LET split == ~Contains(Lower(l), ".inf") \/ Count(l, ")") = 0
        t == IF split /\ i < Len(ls) THEN l \o ls[i + 1] ELSE l
        p == Words(t)[3] IN
    <<<<Behind(Before(p, ")"), "("), fv>>>> \o Flash(ls, IF split THEN i + 2 ELSE i + 1, fv)
  ELSE Flash(ls, i + 1, fv)

\* ---- report ------------------------------------------------------------------------------
RECURSIVE Regions(_, _, _)
Regions(ls, i, cur) ==  \* cur: 0 outside, or the first line of the region
  IF i > Len(ls) THEN <<>>
  ELSE IF cur = 0 THEN Regions(ls, i + 1, IF ls[i] = RegStart THEN i + 1 ELSE 0)
  ELSE IF ls[i] = RegEnd THEN <<SubSeq(ls, cur, i - 1)>> \o Regions(ls, i + 1, 0)
  ELSE Regions(ls, i + 1, cur)
RECURSIVE HeadOf(_, _, _)
HeadOf(ls, i, h) ==
  IF i > Len(ls) THEN h ELSE IF ls[i] = RegStart THEN h
  ELSE LET k == Lower(Trim(Before(ls[i], ":")))  v == Trim(Behind(ls[i], ":")) IN
  HeadOf(ls, i + 1, IF v = "" THEN h ELSE CASE k = "platform name" -> [h EXCEPT !.name = v] [] k = "platform dsc path" -> [h EXCEPT !.dsc = v] [] k = "output path" -> [h EXCEPT !.out = v] [] OTHER -> h)
Kind(r) == IF Len(r) = 0 THEN "" ELSE r[1]
RECURSIVE Modules(_, _, _, _)
Modules(rs, i, acc, roots) ==  \* a later module with the GUID takes the place of the one before
  IF i > Len(rs) THEN acc
  ELSE IF Kind(rs[i]) # "Module Summary" THEN Modules(rs, i + 1, acc, roots)
  ELSE LET m == Module(M0, rs[i], 1, roots)  J == {j \in 1..Len(acc) : acc[j].guid = m.guid} IN
       Modules(rs, i + 1, IF J = {} THEN Append(acc, m) ELSE [j \in 1..Len(acc) |-> IF j \in J THEN m ELSE acc[j]], roots)
RECURSIVE Flashes(_, _)
Flashes(rs, i) == IF i > Len(rs) THEN <<>> ELSE IF Kind(rs[i]) # "Firmware Device (FD)" THEN Flashes(rs, i + 1) ELSE Flash(rs[i], 1, "-") \o Flashes(rs, i + 1)
Same(m, p, roots) == Lower(Rel(m.inf, roots, 1)) = Lower(p)
\* a path that is below no root names no module
Volume(m, fl, roots) ==
  LET I == {i \in 1..Len(fl) : Rel(fl[i][1], roots, 1) # fl[i][1] /\ Same(m, Rel(fl[i][1], roots, 1), roots)} IN
  IF I = {} THEN "-" ELSE fl[CHOOSE i \in I : \A k \in I : k <= i][2]
Report(text, words, roots) ==
  LET ls == [i \in 1..Len(text) |-> Protect(Trim(text[i]), words, 1)]  rs == Regions(ls, 1, 0)  ms == Modules(rs, 1, <<>>, roots)  fl == Flashes(rs, 1) IN
  [head |-> HeadOf(ls, 1, [name |-> "", dsc |-> "", out |-> ""]),
   mods |-> [i \in 1..Len(ms) |-> [m |-> ms[i], fv |-> Volume(ms[i], fl, roots)]]]
FindInf(rep, p, roots) == {rep.mods[i].m.guid : i \in {j \in 1..Len(rep.mods) : Same(rep.mods[j].m, p, roots)}}

\* ---- override lines ------------------------------------------------------------------------
\* #Override : 00000001 | path | hash | YYYY-MM-DDThh-mm-ss;   r: ok, no, any
DateTime(s) ==  \* <<year, month, day, hour, minute, second>> or <<>>
  LET c == LowChars(Chars(s)) IN
  IF Len(c) # 19 THEN <<>>
  ELSE LET d(i, n) == SubSeq(c, i, i + n - 1) IN
  IF ~(IsDec(d(1, 4)) /\ IsDec(d(6, 2)) /\ IsDec(d(9, 2)) /\ IsDec(d(12, 2)) /\ IsDec(d(15, 2)) /\ IsDec(d(18, 2)) /\ c[5] = "-" /\ c[8] = "-" /\ c[11] = "t" /\ c[14] = "-" /\ c[17] = "-") THEN <<>>
  ELSE LET n(i, k) == ParseBase(d(i, k), 1, 10, 0)  y == n(1, 4)  m == n(6, 2)
           days == IF m = 2 THEN (IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31 IN
       IF y = 0 \/ m \notin 1..12 \/ n(9, 2) \notin 1..days \/ n(12, 2) > 23 \/ n(15, 2) > 59 \/ n(18, 2) > 59 THEN <<>>
       ELSE <<y, m, n(9, 2), n(12, 2), n(15, 2), n(18, 2)>>
RECURSIVE NoZero(_)
NoZero(c) == IF Len(c) > 1 /\ c[1] = "0" THEN NoZero(Tail(c)) ELSE c
\* paths: doubled and "." parts go away; parts ".." are left out here
NormPath(s) == LET p == SelectSeq(SplitBy(Chars(s), "/"), LAMBDA x : x # <<>> /\ x # <<".">>) IN (IF StartsWith(s, "/") THEN "/" ELSE "") \o JoinStr([i \in 1..Len(p) |-> Str(p[i])], "/")
Override(l) ==
  LET f == SplitBy(Chars(Behind(l, ":")), "|")
      g == [i \in 1..Len(f) |-> Str(Strip(f[i]))]  bad(e) == [r |-> e, path |-> "", hash |-> "", date |-> <<>>] IN
  IF ~Contains(l, ":") THEN bad("VERSION")
  ELSE IF ~IsDec(Chars(g[1])) THEN bad("VERSION") ELSE IF NoZero(Chars(g[1])) # <<"1">> \/ Len(g) # 4 THEN bad("VERSION")
  ELSE IF DateTime(g[4]) = <<>> THEN bad("DATE")
  ELSE [r |-> "ok", path |-> NormPath(g[2]), hash |-> g[3], date |-> DateTime(g[4])]
IsOverride(l) == StartsWith(Upper(Trim(l)), "#OVERRIDE")
RECURSIVE OverrideLines(_, _)
OverrideLines(ls, i) == IF i > Len(ls) THEN <<>> ELSE (IF IsOverride(ls[i]) THEN <<[n |-> i, l |-> Trim(ls[i])]>> ELSE <<>>) \o OverrideLines(ls, i + 1)
Overrides(ls) == LET o == OverrideLines(ls, 1)  x == [i \in 1..Len(o) |-> Override(o[i].l)] IN
  [ok |-> Len(o) > 0 /\ \A i \in 1..Len(x) : x[i].r = "ok", lines |-> o, items |-> x]
=============================================================================
