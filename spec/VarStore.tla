----------------------------- MODULE VarStore ------------------------------
(***************************************************************************)
(* A UEFI variable store inside a ROM image: reading it, changing the list *)
(* of variables in memory and writing it back.                             *)
(* A variable: [st state, at attributes (4 bytes), g vendor GUID, name     *)
(* (UTF-16 units), data, mc (8), ts (16), pk (4)]; the last three belong   *)
(* to authenticated variables only and are empty otherwise.                *)
(***************************************************************************)
EXTENDS Bytes, TLC
FvHead == 72
StHead == 28
NvFv == <<141, 43, 241, 255, 150, 118, 139, 76, 169, 133, 39, 71, 7, 91, 79, 80>>
VarGuid == <<22, 54, 207, 221, 117, 50, 100, 65, 152, 182, 254, 133, 112, 127, 254, 125>>
AuthGuid == <<120, 44, 243, 170, 123, 148, 154, 67, 161, 128, 46, 20, 78, 195, 119, 146>>
Fvh == <<95, 70, 86, 72>>
HdrSize(kind) == IF kind = "Auth" THEN 60 ELSE 32

NameBytes(v) == Cat([i \in 1..Len(v.name) |-> LEn(v.name[i], 2)]) \o <<0, 0>>
Body(kind, v) == <<170, 85, v.st, 0>> \o v.at \o (IF kind = "Auth" THEN v.mc \o v.ts \o v.pk ELSE <<>>)
                 \o LEn(Len(NameBytes(v)), 4) \o LEn(Len(v.data), 4) \o v.g \o NameBytes(v) \o v.data
Pad(n) == (4 - (n % 4)) % 4
VarSize(kind, v) == HdrSize(kind) + 2 * Len(v.name) + 2 + Len(v.data)
Enc(kind, v) == Body(kind, v) \o Rep(255, Pad(VarSize(kind, v)))
RECURSIVE Total(_, _)
Total(kind, vs) == IF vs = <<>> THEN 0 ELSE VarSize(kind, vs[1]) + Pad(VarSize(kind, vs[1])) + Total(kind, Tail(vs))

\* the variable at position i (1-based) of b
DecVar(kind, b, i) ==
  LET h == HdrSize(kind)
      ns == RdLE(b, i + h - 24, 4)
      ds == RdLE(b, i + h - 20, 4) IN
  [v |-> [st |-> b[i + 2], at |-> At(b, i + 4, 4), g |-> At(b, i + h - 16, 16),
          mc |-> IF kind = "Auth" THEN At(b, i + 8, 8) ELSE <<>>, ts |-> IF kind = "Auth" THEN At(b, i + 16, 16) ELSE <<>>,
          pk |-> IF kind = "Auth" THEN At(b, i + 32, 4) ELSE <<>>,
          name |-> [k \in 1..(ns \div 2 - 1) |-> b[i + h + 2 * (k - 1)] + 256 * b[i + h + 2 * (k - 1) + 1]],
          data |-> At(b, i + h + ns, ds)],
   n |-> h + ns + ds + Pad(h + ns + ds)]
\* the variables from position i up to but not including position end: everything before the first header that is not one
RECURSIVE DecVars(_, _, _, _)
DecVars(kind, b, i, end) ==
  IF end - i < HdrSize(kind) THEN <<>>
  ELSE IF b[i] # 170 \/ b[i + 1] # 85 THEN <<>>
  ELSE LET r == DecVar(kind, b, i) IN <<r.v>> \o DecVars(kind, b, i + r.n, end)

\* opening the store whose volume lies at offset base and has the given size
Shut == [ok |-> FALSE]
Open(img, base, size) ==
  IF base + size > Len(img) \/ base + FvHead > Len(img) THEN Shut
  ELSE IF At(img, base + 41, 4) # Fvh \/ At(img, base + 17, 16) # NvFv \/ RdLE(img, base + 33, 8) # size THEN Shut
  ELSE LET hl == RdLE(img, base + 49, 2)
           s == base + hl IN       \* offset of the store header
       IF s + StHead > Len(img) THEN Shut
       ELSE LET sig == At(img, s + 1, 16) IN
            IF sig \notin {VarGuid, AuthGuid} \/ img[s + 21] # 90 \/ img[s + 22] # 254 THEN Shut
            ELSE LET kind == IF sig = AuthGuid THEN "Auth" ELSE "Var"
                     len == RdLE(img, s + 17, 4) IN
                 [ok |-> TRUE, kind |-> kind, first |-> s + StHead + 1, end |-> s + len + 1, vars |-> DecVars(kind, img, s + StHead + 1, s + len + 1)]

\* writing: all variables and one terminating header have to fit between the store header and the end of the store
Fits(st, vs) == Total(st.kind, vs) + HdrSize(st.kind) <= st.end - st.first
Write(img, st, vs) ==
  LET b == Cat([i \in 1..Len(vs) |-> Enc(st.kind, vs[i])]) \o Rep(255, HdrSize(st.kind)) IN
  SubSeq(img, 1, st.first - 1) \o b \o From(img, st.first + Len(b))
=============================================================================
