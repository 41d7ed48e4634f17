---------------------------- MODULE VarStoreMC -----------------------------
(* A small store between two other regions of the image: every order of adding, changing, removing, writing and reopening. *)
EXTENDS VarStore, Json
CONSTANTS MaxOps, Room
VARIABLES img, st, vs, hist, clean
vars == <<img, st, vs, hist, clean>>
Kinds == {"Var", "Auth"}
Pre == Rep(7, 4)
Post == Rep(170, 1) \o Rep(85, 1) \o Rep(9, 70)   \* what follows looks like a variable
Size(k) == FvHead + StHead + Room + (IF k = "Auth" THEN 84 ELSE 0)
Image(k) == Pre \o Rep(0, 16) \o NvFv \o LEn(Size(k), 8) \o Fvh \o Rep(0, 4) \o LEn(FvHead, 2) \o Rep(0, 22)
            \o (IF k = "Auth" THEN AuthGuid ELSE VarGuid) \o LEn(Size(k) - FvHead, 4) \o <<90, 254>> \o Rep(0, 6)
            \o Rep(255, Size(k) - FvHead - StHead) \o Post
V(k, n, d) == [st |-> 63, at |-> <<7, 0, 0, 0>>, g |-> Rep(n, 16), name |-> [i \in 1..n |-> 64 + i], data |-> Rep(d, d),
               mc |-> IF k = "Auth" THEN Rep(1, 8) ELSE <<>>, ts |-> IF k = "Auth" THEN Rep(2, 16) ELSE <<>>, pk |-> IF k = "Auth" THEN Rep(3, 4) ELSE <<>>]
Init == \E k \in Kinds : /\ img = Image(k) /\ st = Open(Image(k), 4, Size(k)) /\ vs = <<>> /\ clean = TRUE
                         /\ hist = <<[op |-> "image", img |-> Image(k), base |-> 4, size |-> Size(k)]>>
Did(o) == Len(hist) <= MaxOps /\ hist' = Append(hist, o)
Drop(s, i) == SubSeq(s, 1, i - 1) \o From(s, i + 1)
Next ==
  \/ \E d \in {0, 1, 6} : /\ Len(vs) < 3 /\ Did([op |-> "add", v |-> V(st.kind, 1, d)]) /\ vs' = Append(vs, V(st.kind, 1, d)) /\ clean' = FALSE /\ UNCHANGED <<img, st>>
  \/ \E i \in 1..Len(vs), d \in {3, 14} : /\ Did([op |-> "setdata", i |-> i, data |-> Rep(d, d)]) /\ vs' = [vs EXCEPT ![i].data = Rep(d, d)] /\ clean' = FALSE /\ UNCHANGED <<img, st>>
  \/ \E i \in 1..Len(vs) : /\ Did([op |-> "setname", i |-> i, name |-> <<90, 89>>]) /\ vs' = [vs EXCEPT ![i].name = <<90, 89>>] /\ clean' = FALSE /\ UNCHANGED <<img, st>>
  \/ \E i \in 1..Len(vs) : /\ Did([op |-> "remove", i |-> i]) /\ vs' = Drop(vs, i) /\ clean' = FALSE /\ UNCHANGED <<img, st>>
  \/ /\ Did([op |-> "flush"]) /\ img' = (IF Fits(st, vs) THEN Write(img, st, vs) ELSE img) /\ clean' = (clean \/ Fits(st, vs)) /\ UNCHANGED <<st, vs>>
  \/ /\ Did([op |-> "open", base |-> 4, size |-> Size(st.kind)]) /\ st' = Open(img, 4, Size(st.kind)) /\ vs' = st'.vars /\ clean' = TRUE /\ UNCHANGED img
Spec == Init /\ [][Next]_vars
View == <<img, st, vs, clean, Len(hist)>>
\* what was written is what is read back
ReadBack == clean => Open(img, 4, Size(st.kind)).vars = vs
\* nothing outside of the store ever changes, and the store stays a store of its size
Outside == /\ Len(img) = Len(Image(st.kind)) /\ SubSeq(img, 1, st.first - 1) = SubSeq(Image(st.kind), 1, st.first - 1)
           /\ From(img, st.end) = From(Image(st.kind), st.end)
Opens == Open(img, 4, Size(st.kind)).ok
Emit == Len(hist) = MaxOps + 1 => PrintT("@@" \o ToJson(hist))
=============================================================================
