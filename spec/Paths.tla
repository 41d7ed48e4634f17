------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* Workspaces, package paths and the translations between absolute paths   *)
(* and paths relative to them.  A path is a sequence of names below a      *)
(* common base directory; a configuration is                               *)
(*   [files, dirs : sets of paths, ws : path, pps : sequence of paths].    *)
(***************************************************************************)
EXTENDS Text, TLC

IsIn(p, root) == Len(p) >= Len(root) /\ SubSeq(p, 1, Len(root)) = root
Below(p, root) == IsIn(p, root) /\ p # root
RelTo(p, root) == SubSeq(p, Len(root) + 1, Len(p))
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Exists(c, p) == p \in c.files \/ p \in c.dirs
Last(p) == p[Len(p)]
HasExt(name, ext) == Len(name) > Len(ext) /\ EndsWith(Lower(name), ext)

\* --- construction --------------------------------------------------------
\* a spelled root: [abs, path]; relative package paths are relative to the workspace if that is a directory, else to the cwd
SpelledWs(sp, cwd) == IF sp.abs THEN sp.path ELSE cwd \o sp.path
SpelledPp(sp, ws, cwd, dirs) == IF sp.abs THEN sp.path ELSE IF (ws \o sp.path) \in dirs THEN ws \o sp.path ELSE cwd \o sp.path
\* result: the list of package paths, or a refusal
Construct(spw, spps, cwd, dirs, strict) ==
  LET ws == SpelledWs(spw, cwd)
      cand == [i \in 1..Len(spps) |-> SpelledPp(spps[i], ws, cwd, dirs)]
      good == SelectSeq(cand, LAMBDA p : p \in dirs) IN
  IF ws \notin dirs THEN [ok |-> FALSE]
  ELSE IF strict /\ Len(good) < Len(cand) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, ws |-> ws, pps |-> good]

\* --- translation ---------------------------------------------------------
Holders(c, p) == {i \in 1..Len(c.pps) : IsIn(p, c.pps[i])}
\* the innermost package path holding the path, else the workspace
HolderRoot(c, p) == LET h == Holders(c, p) IN c.pps[CHOOSE i \in h : \A j \in h : Len(c.pps[j]) <= Len(c.pps[i])]
HasRel(c, p) == Holders(c, p) # {} \/ IsIn(p, c.ws)
Rel(c, p) == IF Holders(c, p) # {} THEN RelTo(p, HolderRoot(c, p)) ELSE RelTo(p, c.ws)
\* the workspace first, then the package paths in order
RootSeq(c) == <<c.ws>> \o c.pps
AbsHits(c, r) == {i \in 1..Len(RootSeq(c)) : Exists(c, RootSeq(c)[i] \o r)}
HasAbs(c, r) == AbsHits(c, r) # {}
Abs(c, r) == RootSeq(c)[CHOOSE i \in AbsHits(c, r) : \A j \in AbsHits(c, r) : i <= j] \o r

\* --- containing package and modules --------------------------------------
HasDec(c, d) == \E f \in c.files : Len(f) = Len(d) + 1 /\ Parent(f) = d /\ HasExt(Last(f), ".dec")
InfsOf(c, d) == {f \in c.files : Len(f) = Len(d) + 1 /\ Parent(f) = d /\ HasExt(Last(f), ".inf")}
StartDir(c, p) == IF p \in c.dirs THEN p ELSE Parent(p)
RECURSIVE Climb(_, _, _)
Climb(c, d, root) == IF ~Below(d, root) THEN <<>> ELSE IF HasDec(c, d) THEN <<Last(d)>> ELSE Climb(c, Parent(d), root)
PkgRoots(c, p) == IF IsIn(p, c.ws) THEN {c.ws} ELSE {c.pps[i] : i \in Holders(c, p)}
PkgAnswers(c, p) == {Climb(c, StartDir(c, p), r) : r \in PkgRoots(c, p)}
\* <<>> is none; several answers only when nested package paths outside the workspace disagree
Pkg(c, p) == IF PkgRoots(c, p) = {} THEN {<<>>} ELSE PkgAnswers(c, p)

Roots(c) == {c.ws} \cup Range(c.pps)
TopRoots(c) == {r \in Roots(c) : ~\E o \in Roots(c) : Below(r, o)}
RECURSIVE ModClimb(_, _)
ModClimb(c, d) == IF ~\E r \in TopRoots(c) : Below(d, r) THEN {}
                  ELSE IF InfsOf(c, d) # {} THEN InfsOf(c, d) ELSE ModClimb(c, Parent(d))
Mods(c, p) == IF ~\E r \in TopRoots(c) : IsIn(p, r) THEN {}
              ELSE IF Len(p) > 0 /\ HasExt(Last(p), ".inf") THEN {p}
              ELSE IF Len(p) = 0 THEN {} ELSE ModClimb(c, Parent(p))
=============================================================================
