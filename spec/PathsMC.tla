------------------------------ MODULE PathsMC ------------------------------
(* Every placement of a workspace, package paths, packages and modules in a *)
(* small tree, built one file at a time.                                    *)
EXTENDS Paths, Json
CONSTANT MaxFiles, MaxPps, Depth
VARIABLES files, ws, pps
vars == <<files, ws, pps>>
Names == {"a", "b"}
Dirs == UNION {[1..n -> Names] : n \in 0..Depth}
Leafs == {"P.dec", "M.inf", "f.c"}
Cfg == [files |-> files, dirs |-> Dirs, ws |-> ws, pps |-> pps]
Init == files = {} /\ ws \in {d \in Dirs : Len(d) <= 2} /\ pps = <<>>
AddPp == files = {} /\ Len(pps) < MaxPps /\ \E d \in Dirs : (\A i \in 1..Len(pps) : pps[i] # d) /\ d # ws /\ Len(d) <= 2 /\ pps' = Append(pps, d) /\ UNCHANGED <<files, ws>>
AddFile == Cardinality(files) < MaxFiles /\ \E d \in Dirs, l \in Leafs :
             /\ Append(d, l) \notin files
             /\ Len(d) >= 1
             /\ files' = files \cup {Append(d, l)} /\ UNCHANGED <<ws, pps>>
Next == AddPp \/ AddFile
Spec == Init /\ [][Next]_vars
All == files \cup Dirs
\* an existing path inside a root has a relative name, and that name finds it again unless an earlier root shadows it
RoundTrip == \A p \in All : HasRel(Cfg, p) =>
   /\ HasAbs(Cfg, Rel(Cfg, p))
   /\ LET q == Abs(Cfg, Rel(Cfg, p)) IN q # p => \E i \in 1..Len(RootSeq(Cfg)) : RootSeq(Cfg)[i] \o Rel(Cfg, p) = q
\* the relative name is the shortest any root gives
Shortest == \A p \in All : HasRel(Cfg, p) => \A r \in Range(pps) : IsIn(p, r) => Len(Rel(Cfg, p)) <= Len(RelTo(p, r))
Outside == \A p \in All : ~HasRel(Cfg, p) => Pkg(Cfg, p) = {<<>>} /\ Mods(Cfg, p) = {}
\* a module is an ancestor's and no nearer directory has one
Nearest == \A p \in All : \A m \in Mods(Cfg, p) : m # p =>
   /\ m \in files /\ IsIn(p, Parent(m))
   /\ \A f \in files : (HasExt(Last(f), ".inf") /\ IsIn(Parent(p), Parent(f))) => Len(f) <= Len(m)
PkgHasDec == \A p \in All : \A a \in Pkg(Cfg, p) : a # <<>> => \E f \in files : HasExt(Last(f), ".dec") /\ IsIn(p, Parent(f)) /\ Last(Parent(f)) = a[1]
Emit == (Cardinality(files) = MaxFiles /\ \A d \in Range(pps) : TRUE) => PrintT("@@" \o ToJson([files |-> files, ws |-> ws, pps |-> pps]))
=============================================================================
