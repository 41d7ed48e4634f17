----------------------------- MODULE CommentMC -----------------------------
EXTENDS Comment, Json
CONSTANT MaxLen
VARIABLES txt, s
Alphabet == {"a", " ", "\"", "'", "#", "\\", "="}
Init == txt = <<>> /\ s = CStart
Next == \E c \in Alphabet : Len(txt) < MaxLen /\ txt' = Append(txt, c) /\ s' = CStep(s, c)
Spec == Init /\ [][Next]_<<txt, s>>
\* declarative: position i is quoted iff an unescaped quote opened before it is not closed
Esc(i) == i > 1 /\ txt[i - 1] = "\\" /\ ~\E j \in 1..(i - 2) : txt[j] = "\\" /\ \A k \in j..(i - 2) : txt[k] = "\\"
PrefixOf == \E k \in 0..Len(txt) : s.out = SubSeq(txt, 1, k) /\ (s.cut => txt[k + 1] = "#") /\ (~s.cut => k = Len(txt))
NoComment == ("#" \notin {txt[i] : i \in 1..Len(txt)}) => StripComment(txt) = Strip(txt)
Idempotent == StripComment(StripComment(txt)) = StripComment(txt)
FirstHash == (~\E i \in 1..Len(txt) : txt[i] \in {"\"", "'"}) => "#" \notin {s.out[i] : i \in 1..Len(s.out)}
Emit == (Len(txt) = MaxLen) => PrintT("@@" \o ToJson(txt))
=============================================================================
