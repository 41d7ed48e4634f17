--------------------------- MODULE ModuleFilesMC ---------------------------
EXTENDS ModuleFiles, Json
CONSTANT MaxLen, FT
VARIABLES hist, s
Sec(kd, ar) == [k |-> "section", kind |-> kd, archs |-> ar]
InfLines == {Sec("defines", <<"">>), Sec("libraryclasses", <<"">>), Sec("sources", <<"X64", "IA32">>), Sec("libraryclasses", <<"x64">>), Sec("other", <<"">>),
             [k |-> "macro", n |-> "M", v |-> "Mv"], [k |-> "entry", m |-> "M", v |-> "/E1"], [k |-> "entry", m |-> "", v |-> "E2"],
             [k |-> "def", n |-> "N", v |-> "1"], [k |-> "class", c |-> "C", phases |-> <<"PEIM">>]}
DecLines == {Sec("defines", <<"">>), Sec("guids", <<"">>), Sec("pcds", <<"X64">>), Sec("libraryclasses", <<"">>), Sec("protocols", <<"common", "ia32">>),
             [k |-> "def", n |-> "PACKAGE_NAME", v |-> "Pkg"], [k |-> "guid", n |-> "gA", g |-> "00000001-0002-0003-0405-060708090a0b"],
             [k |-> "pcd", ts |-> "gT", n |-> "P", d |-> "1", t |-> "UINT8", id |-> "0x1", open |-> FALSE],
             [k |-> "pcd", ts |-> "gT", n |-> "Q", d |-> "{0}", t |-> "S", id |-> "0x2", open |-> TRUE],
             [k |-> "field", ts |-> "gT", n |-> "Q.f", d |-> "3"], [k |-> "inner", v |-> "<HeaderFiles>"], [k |-> "close"],
             [k |-> "lib", n |-> "LibA", p |-> "Include/LibA.h"]}
Sensible(l) == CASE l.k = "section" -> ~s.inpcd
                 \* a macro is defined once, before its uses
                 [] l.k = "macro" -> \A i \in 1..Len(hist) : ~(hist[i].k = "macro" \/ (hist[i].k = "entry" /\ hist[i].m # ""))
                 [] l.k \in {"def", "class"} -> s.kind = "defines"
                 [] l.k = "entry" -> s.kind \in Kinds \cup {"other"}
                 [] l.k = "guid" -> s.kind \in {"guids", "protocols"}
                 [] l.k = "lib" -> s.kind = "libraryclasses"
                 [] l.k \in {"pcd", "field"} -> s.kind = "pcds" /\ ~s.inpcd
                 [] l.k \in {"inner", "close"} -> s.inpcd
Init == hist = <<>> /\ s = MStart(FT)
Next == \E l \in (IF FT = "inf" THEN InfLines ELSE DecLines) :
          Len(hist) < MaxLen /\ Sensible(l) /\ hist' = Append(hist, l) /\ s' = MStep(s, l)
Spec == Init /\ [][Next]_<<hist, s>>
Head4(i) == LET S == {j \in 1..i : hist[j].k = "section"} IN IF S = {} THEN [kind |-> "none", archs |-> <<>>] ELSE hist[CHOOSE j \in S : \A m \in S : m <= j]
\* every entry below a header of its kind is reported once, in order, and nothing else is
Counts == \A q \in Kinds : Len(s.lists[q]) = Cardinality({i \in 1..Len(hist) : hist[i].k \in {"entry", "guid", "pcd", "field", "lib"} /\ Head4(i).kind = q})
\* what one architecture sees is the common part plus its own part; no architecture sees less than common
Monotone == \A q \in {"libraryclasses", "sources"} : /\ ForArchs(s, q, {}) \subseteq ForArchs(s, q, {"x64"})
   /\ ForArchs(s, q, {"x64", "ia32"}) = ForArchs(s, q, {"x64"}) \cup ForArchs(s, q, {"ia32"})
   /\ ForArchs(s, q, {"x64", "ia32"}) = {s.lists[q][i] : i \in 1..Len(s.lists[q])}
Emit == (Len(hist) = MaxLen /\ ~s.inpcd) => PrintT("@@" \o ToJson(hist))
=============================================================================
