---------------------------- MODULE GitignoreMC ----------------------------
(* Every short list of ignore lines, typed character by character.         *)
EXTENDS Gitignore, Json
CONSTANT MaxLen
VARIABLES line, second
vars == <<line, second>>
Alpha == {"a", "b", "*", "?", "/", "!"}
Seconds == {<<>>, Chars("!a"), Chars("b"), Chars("!a/"), Chars("/a/*")}
Init == line = <<>> /\ second \in Seconds
Next == Len(line) < MaxLen /\ \E c \in Alpha : line' = Append(line, c) /\ UNCHANGED second
Spec == Init /\ [][Next]_vars
N == {<<"a">>, <<"b">>, <<"a", "b">>}
Tree == {<<x>> : x \in N} \cup {<<x, y>> : x \in N, y \in N} \cup {<<x, y, z>> : x \in {<<"a">>, <<"b">>}, y \in {<<"a">>, <<"b">>}, z \in N}
Rules(ls) == RulesOf(ls)
Lines == <<line>> \o (IF second = <<>> THEN <<>> ELSE <<second>>)
\* doubled slashes and stars next to other characters are left open
Settled(l) == /\ \A i \in 1..(Len(l) - 1) : ~(l[i] = "/" /\ l[i + 1] = "/")
              /\ \A i \in 1..(Len(l) - 1) : (l[i] = "*" /\ l[i + 1] = "*") =>
                   /\ (i = 1 \/ l[i - 1] = "/" \/ (i = 2 /\ l[1] = "!")) /\ (i + 1 = Len(l) \/ l[i + 2] = "/")
Hidden(ls) == {p \in Tree : ~Visited(Rules(ls), p)}
NoSlash == ~\E i \in 1..Len(line) : line[i] = "/"
OnlyNegated == (line # <<>> /\ line[1] = "!") => Hidden(<<line>>) = {}
Anchoring == (Settled(line) /\ NoSlash /\ line # <<>> /\ line[1] # "!") =>
   /\ Hidden(<<line>>) = Hidden(<<<<"*", "*", "/">> \o line>>)
   /\ Hidden(<<<<"/">> \o line>>) \subseteq Hidden(<<line>>)
Whole == \A p \in Tree : \A k \in 1..(Len(p) - 1) : Ignored(Rules(Lines), SubSeq(p, 1, k), TRUE) => p \in Hidden(Lines)
LastWins == Hidden(<<line, Chars("!*")>>) = {} \/ \E p \in Hidden(<<line>>) : Len(p) > 0
Emit == (line # <<>> /\ Settled(line)) => PrintT("@@" \o ToJson([i \in 1..Len(Lines) |-> Str(Lines[i])]))
=============================================================================
