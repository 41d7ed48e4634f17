------------------------------ MODULE DscObject -----------------------------
(***************************************************************************)
(* The DSC data model: restricted sets of items and maps from section      *)
(* types to restricted sets, and the DSC file it is written to.            *)
(*                                                                         *)
(* Items are tuples of strings that begin with their kind:                 *)
(*   <<"def", name, value, local>>      <<"sku", id, name, parent>>        *)
(*   <<"lc", class, inf>>  <<"lib", inf>>  <<"store", index, value>>       *)
(*   <<"pcd", ns, name, value>>  <<"pcdt", ns, name, value, type, max>>    *)
(*   <<"pcdv", ns, name, var, guid, offset, default, attributes>>          *)
(*   <<"opt", family, target, tag, arch, tool, attribute, replace, data>>  *)
(*   <<"comp", inf, definitions, library classes, pcds, options>>          *)
(* ("-" stands for None).  Sections, as given: <<"gen", arch, module>>,    *)
(* <<"bo", arch, codebase, module>>, <<"pcds", type, arch, sku, store>>.   *)
(***************************************************************************)
EXTENDS Text

Modules == {"COMMON", "BASE", "SEC", "PEI_CORE", "PEIM", "DXE_CORE", "DXE_DRIVER", "DXE_RUNTIME_DRIVER", "DXE_SAL_DRIVER", "DXE_SMM_DRIVER", "SMM_CORE", "UEFI_DRIVER", "UEFI_APPLICATION", "USER_DEFINED"}
CodeBases == {"COMMON", "EDK", "EDKII"}
HiiTypes == {"DYNAMICHII", "DYNAMICEXHII"}
PcdTypes == HiiTypes \cup {"FEATUREFLAG", "PATCHABLEINMODULE", "FIXEDATBUILD", "DYNAMIC", "DYNAMICEX", "DYNAMICDEFAULT", "DYNAMICVPD", "DYNAMICEXVPD"}
Clean(s) == Upper(Str(Strip(Chars(s))))
Arch(s) == IF Clean(s) \in {"COMMON", "DEFAULT"} THEN "*" ELSE Clean(s)

\* the section type, or refused
Sec(x) ==
  CASE x[1] = "gen" -> IF Clean(x[3]) \in Modules THEN <<"gen", Arch(x[2]), Clean(x[3])>> ELSE <<"no">>
    [] x[1] = "bo" -> IF Clean(x[4]) \in Modules /\ Clean(x[3]) \in CodeBases THEN <<"bo", Arch(x[2]), Clean(x[3]), Clean(x[4])>> ELSE <<"no">>
    [] x[1] = "pcds" -> IF Clean(x[2]) \in PcdTypes /\ (x[5] = "-" \/ Clean(x[2]) \in HiiTypes) THEN <<"pcds", Clean(x[2]), Arch(x[3]), Upper(x[4]), Str(Strip(Chars(x[5])))>> ELSE <<"no">>
    [] OTHER -> <<"no">>

AttrSet == {"NV", "BS", "RT", "RO"}
Attrs(s) == IF s = "-" THEN <<>> ELSE LET a == SplitBy(Chars(s), ",") IN [i \in 1..Len(a) |-> Clean(Str(a[i]))]
\* can the item be made at all
Valid(x) ==
  CASE x[1] = "pcdv" -> LET a == Attrs(x[8]) IN \A i \in 1..Len(a) : a[i] \in AttrSet
    [] x[1] = "comp" -> \A i \in 1..Len(x[5]) : Clean(x[5][i][1]) \in PcdTypes
    [] OTHER -> TRUE

\* what an item is known by: two items with the same key are the same thing, the later one counts
Key(x) ==
  CASE x[1] \in {"def", "store", "comp", "lib"} -> <<x[1], x[2]>>
    [] x[1] = "lc" -> IF Lower(x[2]) = "null" THEN <<"lc", "null", x[3]>> ELSE <<"lc", Lower(x[2]), "">>
    [] x[1] \in {"pcd", "pcdt", "pcdv"} -> <<"pcd", x[2], x[3]>>
    [] x[1] = "opt" -> SubSeq(x, 1, 7)
    [] OTHER -> x
\* SKUs clash in number or in name
SameThing(x, y) == IF x[1] = "sku" /\ y[1] = "sku" THEN x[2] = y[2] \/ x[3] = y[3] ELSE Key(x) = Key(y)
Put(s, x) == {y \in s : ~SameThing(x, y)} \cup {x}

Allowed(w) ==
  CASE w = "defines" -> {"def"} [] w = "skus" -> {"def", "sku"} [] w = "default_stores" -> {"def", "store"}
    [] w = "components" -> {"comp", "def"} [] w = "libraries" -> {"lib", "def"} [] w = "library_classes" -> {"lc", "def"}
    [] w = "build_options" -> {"opt", "def"} [] w = "pcds" -> {"pcd", "pcdt", "pcdv"} [] OTHER -> {}
SetNames == {"defines", "skus", "default_stores"}
DictNames == {"components", "libraries", "library_classes", "build_options", "pcds"}
KindOf(w) == IF w = "build_options" THEN "bo" ELSE IF w = "pcds" THEN "pcds" ELSE "gen"

\* the state: a set per name and, per map, its sections in order [sec, items, sure (it certainly exists)]
Empty == [s |-> [w \in SetNames |-> {}], d |-> [w \in DictNames |-> <<>>]]
At(d, sec) == LET I == {i \in 1..Len(d) : d[i].sec = sec} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Fits(w, x) == Valid(x) /\ x[1] \in Allowed(w)
\* each operation: [r (ok, no, any), st]
Add(st, w, x) == IF Fits(w, x) THEN [r |-> "ok", st |-> [st EXCEPT !.s[w] = Put(@, x)]] ELSE [r |-> "no", st |-> st]
KeyFits(w, raw) == raw[1] = KindOf(w) /\ Sec(raw)[1] # "no"
AddTo(st, w, raw, x) ==
  IF ~KeyFits(w, raw) THEN [r |-> "no", st |-> st]
  ELSE LET sec == Sec(raw)  i == At(st.d[w], sec) IN
  IF Fits(w, x) THEN
    [r |-> "ok", st |-> IF i = 0 THEN [st EXCEPT !.d[w] = Append(@, [sec |-> sec, items |-> {x}, sure |-> TRUE])] ELSE [st EXCEPT !.d[w][i].items = Put(@, x), !.d[w][i].sure = TRUE]]
  ELSE \* the section may have been made
    [r |-> "no", st |-> IF i = 0 THEN [st EXCEPT !.d[w] = Append(@, [sec |-> sec, items |-> {}, sure |-> FALSE])] ELSE st]
\* reading a section that is not there yields an empty set
Look(st, w, raw) ==
  IF ~KeyFits(w, raw) THEN [r |-> "no", st |-> st, items |-> {}]
  ELSE LET sec == Sec(raw)  i == At(st.d[w], sec) IN
  [r |-> "ok", items |-> IF i = 0 THEN {} ELSE st.d[w][i].items, st |-> IF i = 0 THEN [st EXCEPT !.d[w] = Append(@, [sec |-> sec, items |-> {}, sure |-> FALSE])] ELSE st]
RECURSIVE PutAll(_, _, _)
PutAll(s, xs, i) == IF i > Len(xs) THEN s ELSE PutAll(Put(s, xs[i]), xs, i + 1)
\* assigning a section: an empty set, or a set restricted to just what is allowed here; never one that exists
Open(st, w, raw, how, xs) ==
  IF ~KeyFits(w, raw) \/ how \in {"wrong", "plain"} \/ \E i \in 1..Len(xs) : ~Fits(w, xs[i]) THEN [r |-> "no", st |-> st]
  ELSE LET sec == Sec(raw)  i == At(st.d[w], sec) IN
  IF i = 0 THEN [r |-> "ok", st |-> [st EXCEPT !.d[w] = Append(@, [sec |-> sec, items |-> PutAll({}, xs, 1), sure |-> TRUE])]]
  ELSE IF st.d[w][i].sure THEN [r |-> "no", st |-> st]
  ELSE [r |-> "any", st |-> st]

Do(st, o) ==
  CASE o.op = "add" -> Add(st, o.w, o.item)
    [] o.op = "addto" -> AddTo(st, o.w, o.sec, o.item)
    [] o.op = "look" -> LET x == Look(st, o.w, o.sec) IN [r |-> x.r, st |-> x.st]
    [] o.op = "open" -> Open(st, o.w, o.sec, o.how, o.items)
RECURSIVE RunAll(_, _, _)
RunAll(st, os, i) == IF i > Len(os) THEN st ELSE RunAll(Do(st, os[i]).st, os, i + 1)

\* ---- the same things are defined ---------------------------------------------------------
Covers(a, b) == \A x \in a : \E y \in b : SameThing(x, y)
SameSets(a, b) == Covers(a, b) /\ Covers(b, a)
\* SKUs that match in part only, or empty sections that may exist, leave it open
Blurred(a, b) == \E x \in a, y \in b : x[1] = "sku" /\ y[1] = "sku" /\ SameThing(x, y) /\ (x[2] # y[2] \/ x[3] # y[3])
Compared == {"components", "library_classes", "build_options", "pcds"}
Order(d) == [i \in 1..Len(d) |-> d[i].sec]
Full(d) == {d[i].sec : i \in {j \in 1..Len(d) : d[j].items # {}}}
Items(d, sec) == LET i == At(d, sec) IN IF i = 0 THEN {} ELSE d[i].items
Same(a, b) ==
  IF a.s.default_stores # b.s.default_stores \/ a.d.libraries # b.d.libraries \/ Blurred(a.s.skus, b.s.skus) THEN "any"
  ELSE IF ~SameSets(a.s.defines, b.s.defines) \/ ~SameSets(a.s.skus, b.s.skus) THEN "no"
  ELSE IF \E w \in Compared : \E sec \in Full(a.d[w]) \cup Full(b.d[w]) : ~SameSets(Items(a.d[w], sec), Items(b.d[w], sec)) THEN "no"
  ELSE IF \A w \in Compared : Order(a.d[w]) = Order(b.d[w]) THEN "yes"
  ELSE "any"

\* ---- the file -------------------------------------------------------------------------------
\* lines are tuples of strings that begin with the kind of their first separator
RECURSIVE Comma(_)
Comma(a) == IF Len(a) = 0 THEN "" ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] \o "," \o Comma(Tail(a))
OptName(x) == (IF x[2] = "-" THEN "" ELSE x[2] \o ":") \o x[3] \o "_" \o x[4] \o "_" \o x[5] \o "_" \o x[6] \o "_" \o x[7]
Line(x) ==
  CASE x[1] = "def" -> <<"=", (IF x[4] = "1" THEN "DEFINE " ELSE "") \o x[2], "=", x[3]>>
    [] x[1] = "sku" -> <<"|", x[2], x[3], x[4]>>
    [] x[1] = "lc" -> <<"|", x[2], x[3]>>
    [] x[1] = "lib" -> <<"-", x[2]>>
    [] x[1] = "store" -> <<"|", x[2], x[3]>>
    [] x[1] = "pcd" -> <<"|", x[2] \o "." \o x[3], x[4]>>
    [] x[1] = "pcdt" -> <<"|", x[2] \o "." \o x[3], x[4], x[5]>> \o (IF x[6] = "0" THEN <<>> ELSE <<x[6]>>)
    [] x[1] = "pcdv" -> <<"|", x[2] \o "." \o x[3], x[4], x[5], x[6]>> \o (IF x[7] = "-" THEN <<>> ELSE <<x[7]>>) \o (IF x[7] # "-" /\ x[8] # "-" THEN <<Comma(Attrs(x[8]))>> ELSE <<>>)
    [] x[1] = "opt" -> <<"=", OptName(x), IF x[8] = "1" THEN "==" ELSE "=", x[9]>>
Lines(xs) == {Line(xs[i]) : i \in 1..Len(xs)}
\* the subsections of a component: set of <<header, lines>>, none empty
Subs(x) == {s \in {<<<<"DEFINES">>, Lines(x[3])>>, <<<<"LIBRARYCLASSES">>, Lines(x[4])>>, <<<<"BUILDOPTIONS">>, Lines(x[6])>>}
                \cup {<<<<"PCDS" \o Clean(x[5][i][1])>>, Lines(x[5][i][2])>> : i \in 1..Len(x[5])} : s[2] # {}}
\* a block: <<line, subsections>>
Block(x) == IF x[1] = "comp" THEN <<<<"-", x[2]>>, Subs(x)>> ELSE <<Line(x), {}>>
Blocks(s) == {Block(x) : x \in s}
Title(w) == CASE w = "components" -> "COMPONENTS" [] w = "libraries" -> "LIBRARIES" [] w = "library_classes" -> "LIBRARYCLASSES" [] w = "build_options" -> "BUILDOPTIONS" [] OTHER -> ""
Header(w, sec) ==
  CASE sec[1] = "gen" -> <<Title(w), sec[2], sec[3]>>
    [] sec[1] = "bo" -> <<Title(w), sec[2], sec[3], sec[4]>>
    [] OTHER -> <<"PCDS" \o sec[2], sec[3], sec[4]>> \o (IF sec[5] = "-" THEN <<>> ELSE <<sec[5]>>)
\* every section with something in it, as a set of <<header, blocks>>
File(st) ==
  {<<<<"DEFINES">>, Blocks(st.s.defines)>>, <<<<"SKUIDS">>, Blocks(st.s.skus)>>, <<<<"DEFAULTSTORES">>, Blocks(st.s.default_stores)>>}
  \cup UNION {{<<Header(w, st.d[w][i].sec), Blocks(st.d[w][i].items)>> : i \in 1..Len(st.d[w])} : w \in DictNames}
=============================================================================
