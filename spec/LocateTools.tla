---------------------------- MODULE LocateTools ----------------------------
(***************************************************************************)
(* Finding tools on a Windows machine (windows/locate_tools): vswhere,     *)
(* the environment of vcvarsall.bat, the tools of the Windows SDK.         *)
(* A world w: host [os, arch, bits]; dirs (the directories of PATH, in     *)
(* order, each with or without vswhere.exe); vs [code, lines] what vswhere *)
(* says; bats the installations that have a vcvarsall.bat; vc [code, env]  *)
(* what it says; sdk and kits the directories (sequences of names) below   *)
(* the SDK and below the default kits that hold the tool.                  *)
(* The state is whether the library's own copy of vswhere is there.        *)
(***************************************************************************)
EXTENDS Text

\* ---- vswhere ------------------------------------------------------------------------------
\* dl: good, or a download that fails in some way (or gives something else)
Where(w, have, dl, strict) ==
  LET I == {i \in 1..Len(w.dirs) : w.dirs[i].has} IN
  IF w.host.os # "Windows" THEN [r |-> <<"raise", "env">>, have |-> have]
  ELSE IF have THEN [r |-> <<"own">>, have |-> TRUE]
  ELSE IF I # {} THEN [r |-> <<"dir", w.dirs[CHOOSE i \in I : \A k \in I : i <= k].name>>, have |-> FALSE]
  ELSE IF dl = "good" THEN [r |-> <<"own">>, have |-> TRUE]
  ELSE [r |-> IF strict THEN <<"none">> ELSE <<"own">>, have |-> FALSE]

VsTab == <<<<"vs2017", "15.0,16.0">>, <<"vs2019", "16.0,17.0">>, <<"vs2022", "17.0,18.0">>, <<"vs2026", "18.0,19.0">>>>
VsRange(v) == LET I == {i \in 1..Len(VsTab) : VsTab[i][1] = Lower(v)} IN IF I = {} THEN "" ELSE VsTab[CHOOSE i \in I : TRUE][2]
\* what vswhere is asked: options with their values
VsArgs(product, ver) == {<<"-nologo">>, <<"-all">>, <<"-sort">>, <<"-property", "installationPath">>}
                        \cup (IF product = "-" THEN {} ELSE {<<"-products", product>>}) \cup (IF ver = "-" THEN {} ELSE {<<"-version", VsRange(ver)>>})
\* r: <<"raise", kind>> or <<"list", lines>> or <<"none">>;  asked: the runs of vswhere
All(w, have, dl, product, ver) ==
  LET x == Where(w, have, dl, TRUE)  no(k) == [r |-> <<"raise", k>>, have |-> x.have, asked |-> <<>>] IN
  IF x.r[1] = "raise" \/ x.r[1] = "none" THEN no("env")
  ELSE IF ver # "-" /\ VsRange(ver) = "" THEN no("value")
  ELSE [r |-> IF w.vs.code # 0 THEN <<"raise", "runtime">> ELSE IF w.vs.lines = <<>> THEN <<"none">> ELSE <<"list", w.vs.lines>>,
        have |-> x.have, asked |-> <<[tool |-> x.r, args |-> VsArgs(product, ver)]>>]

\* ---- vcvarsall ------------------------------------------------------------------------------
\* env: sequence of <<key, value>>, keys differ in more than case
Trailing(v, sep) == IF EndsWith(v, sep) THEN SubSeq(v, 1, Len(v) - 1) ELSE v
Query(w, have, dl, keys, arch, product, ver, vc, sep) ==
  LET a == All(w, have, dl, IF product = "-" THEN "*" ELSE product, ver)
      res(r, ran) == [r |-> r, have |-> a.have, asked |-> a.asked, ran |-> ran]
      I == IF a.r[1] = "list" THEN {i \in 1..Len(a.r[2]) : a.r[2][i] \in w.bats} ELSE {}
      want == {Upper(keys[i]) : i \in 1..Len(keys)}
      got == {<<w.vc.env[i][1], Trailing(w.vc.env[i][2], sep)>> : i \in {j \in 1..Len(w.vc.env) : Upper(w.vc.env[j][1]) \in want}}
      bat == a.r[2][CHOOSE i \in I : \A k \in I : i <= k]
      run == <<[bat |-> bat, args |-> <<IF arch = "-" THEN "amd64" ELSE arch>> \o (IF vc = "-" THEN <<>> ELSE <<"-vcvars_ver=" \o vc>>)]>> IN
  IF a.r[1] = "raise" THEN res(a.r, <<>>)
  ELSE IF I = {} THEN res(<<"raise", "value">>, <<>>)
  ELSE IF w.vc.code # 0 THEN res(<<"raise", "runtime">>, run)
  ELSE IF {Upper(g[1]) : g \in got} # want THEN res(<<"raise", "value">>, run)
  ELSE res(<<"vars", got>>, run)

\* ---- tools of the SDK -----------------------------------------------------------------------
\* versions a.b.c.d; the last number does not count
IsVersion(s) == LET p == SplitBy(Chars(s), ".") IN Len(p) = 4 /\ \A i \in 1..4 : IsDec(p[i])
Numbers(s) == LET p == SplitBy(Chars(s), ".") IN [i \in 1..3 |-> ParseBase(p[i], 1, 10, 0)]
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
Zero == <<0, 0, 0>>
\* the SDK version as vcvarsall gives it may end with a backslash; <<>> when there is none
Current(s) == LET t == Trailing(s, "\\") IN IF IsVersion(t) THEN Numbers(t) ELSE <<>>
Archs(dir) == UNION {CASE Lower(dir[i]) = "x86" -> {"x86"} [] Lower(dir[i]) \in {"x64", "amd64"} -> {"x64"} [] Lower(dir[i]) = "arm" -> {"arm"} [] Lower(dir[i]) \in {"arm64", "aarch64"} -> {"arm64"} [] Lower(dir[i]) = "i386" -> {"i386"} [] OTHER -> {} : i \in 1..Len(dir)}
Runs(h, a) == CASE a = "x86" -> h.arch = "x86" [] a = "x64" -> h.arch = "x86" /\ h.bits = "64" [] a = "arm" -> h.arch = "ARM" [] a = "arm64" -> h.arch = "ARM" /\ h.bits = "64" [] OTHER -> FALSE
GoodArch(h, dir) == LET A == Archs(dir) IN Cardinality(A) # 1 \/ \A a \in A : Runs(h, a)
Versions(dir) == {Numbers(dir[i]) : i \in {j \in 1..Len(dir) : IsVersion(dir[j])}}
IsCurrent(dir, cur) == cur # <<>> /\ (IF Versions(dir) = {} THEN cur = Zero ELSE cur \in Versions(dir))
Top(V) == IF V = {} THEN Zero ELSE CHOOSE v \in V : \A u \in V : ~Less(v, u)
\* the best of a set of directories: those of the SDK in use, or else of the highest version
Best(dirs, host, cur) ==
  LET G == {d \in dirs : GoodArch(host, d)}  C == {d \in G : IsCurrent(d, cur)} IN
  IF C # {} THEN C ELSE {d \in G : \A e \in G : ~Less(Top(Versions(d)), Top(Versions(e)))}
Value(vars, k) == LET I == {g \in vars : Upper(g[1]) = Upper(k)} IN (CHOOSE g \in I : TRUE)[2]
\* r: raise, or <<"sdk" | "kits", allowed directories>>
Tool(w, have, dl, product, arch, sep) ==
  LET q == Query(w, have, dl, <<"WindowsSdkDir", "WindowsSDKVersion">>, arch, product, "-", "-", sep) IN
  [have |-> q.have, asked |-> q.asked, ran |-> q.ran,
   r |-> IF q.r[1] = "vars" THEN <<"sdk", Best({w.sdk[i] : i \in 1..Len(w.sdk)}, w.host, Current(Value(q.r[2], "WindowsSDKVersion")))>>
         ELSE IF q.r[2] = "value" THEN <<"kits", Best({w.kits[i] : i \in 1..Len(w.kits)}, w.host, <<>>)>>
         ELSE q.r]
=============================================================================
