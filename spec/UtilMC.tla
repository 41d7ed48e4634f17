------------------------------- MODULE UtilMC -------------------------------
(* Versions part by part, class hierarchies class by class, and data of every length with every option. *)
EXTENDS Util, Json
CONSTANTS MaxParts, MaxClasses, MaxLen
VARIABLES kind, x
Parts == {0, 1, 2, 10}
Names == <<"K", "M", "A", "Z">>
Opts == {[start |-> s, ascii |-> a, offset |-> o, sep |-> p] : s \in {0, 250}, a \in BOOLEAN, o \in BOOLEAN, p \in BOOLEAN}
Byte(i) == CASE i % 5 = 0 -> 0 [] i % 5 = 1 -> 65 + (i % 26) [] i % 5 = 2 -> 255 [] i % 5 = 3 -> 92 [] OTHER -> 127 - (i % 3)
Init == \/ kind = "version" /\ x = [a |-> <<>>, b |-> <<>>]
        \/ kind = "classes" /\ x = <<>>
        \/ kind = "dump" /\ x \in [o : Opts, bs : {<<>>}]
Next == /\ kind' = kind
        /\ CASE kind = "version" -> \/ Len(x.b) = 0 /\ Len(x.a) < MaxParts /\ \E p \in Parts : x' = [x EXCEPT !.a = Append(@, p)]
                                    \/ Len(x.a) > 0 /\ Len(x.b) < MaxParts /\ \E p \in Parts : x' = [x EXCEPT !.b = Append(@, p)]
             [] kind = "classes" -> Len(x) < MaxClasses /\ LET P == {"Base", "Other"} \cup {x[i].n : i \in 1..Len(x)} IN
                                      \E b \in {<<p>> : p \in P} \cup {<<p, q>> : p \in P \ {"Base"}, q \in P \ {"Base"}} :
                                        (Len(b) = 2 => b[1] # b[2]) /\ x' = Append(x, [n |-> Names[Len(x) + 1], b |-> b])
             [] kind = "dump" -> Len(x.bs) < MaxLen /\ x' = [x EXCEPT !.bs = Append(@, Byte(Len(@) + 1))]
Spec == Init /\ [][Next]_<<kind, x>>

Antisym == kind = "version" => Cmp(x.a, x.b) = -Cmp(x.b, x.a)
ZeroTail == kind = "version" => Cmp(Append(x.a, 0), x.b) = Cmp(x.a, x.b)
Transitive == kind = "version" => \A p \in Parts : LET c == <<p>> IN (Cmp(x.a, x.b) >= 0 /\ Cmp(x.b, c) >= 0) => Cmp(x.a, c) >= 0
\* what is located derives from every other candidate
Specific == kind = "classes" => LET l == Located(x) IN l \in {"none", "raise"} \/ \A n \in Derived(x) : n \in Above(x, l)
SameWidth == kind = "dump" => LET d == Dump(x.bs, x.o) IN \A i, j \in 1..Len(d) : (x.o.ascii /\ x.o.start < 250) => Len(d[i]) - Len(AsciiOf(Rows(x.bs, 16)[i])) = Len(d[j]) - Len(AsciiOf(Rows(x.bs, 16)[j]))
Ready == CASE kind = "version" -> Len(x.b) > 0 [] kind = "classes" -> TRUE [] OTHER -> Len(x.bs) > 0
Emit == Ready => PrintT("@@" \o ToJson([kind |-> kind, x |-> x]))
=============================================================================
