---------------------------- MODULE DscObjectMC ----------------------------
(* Every short history of additions and assignments on one part of the object. *)
EXTENDS DscObject, TLC, Json
CONSTANT MaxOps
VARIABLES part, ops, st
vars == <<part, ops, st>>
D1 == <<"def", "A", "1", "0">>
D2 == <<"def", "A", "2", "1">>
Skus == {<<"sku", i, n, "DEFAULT">> : i \in {"0", "1", "2"}, n \in {"DEFAULT", "X", "Y"}}
Lcs == {<<"lc", "PcdLib", "a.inf">>, <<"lc", "PCDLIB", "b.inf">>, <<"lc", "NULL", "a.inf">>, <<"lc", "null", "a.inf">>, <<"lc", "Null", "b.inf">>}
Pcds == {<<"pcd", "g", "P", "1">>, <<"pcdt", "g", "P", "2", "VOID*", "8">>, <<"pcdv", "g", "P", "L\"v\"", "gG", "0x0", "3", "nv, BS">>, <<"pcdv", "g", "Q", "L\"v\"", "gG", "0x0", "-", "-">>, <<"pcdv", "g", "P", "L\"v\"", "gG", "0", "1", "NV,XX">>}
Opts == {<<"opt", f, "*", "*", "*", "CC", "FLAGS", r, d>> : f \in {"-", "GCC"}, r \in {"0", "1"}, d \in {"-O2", ""}}
Comp(i, l) == <<"comp", i, <<>>, l, IF l = <<>> THEN <<>> ELSE <<<<"FixedAtBuild", <<<<"pcd", "g", "P", "1">>>>>>>>, <<>>>>
Comps == {Comp("a.inf", <<>>), Comp("a.inf", <<<<"lc", "NULL", "x.inf">>, <<"lc", "PcdLib", "y.inf">>>>), Comp("b.inf", <<>>)}
Gens == {<<"gen", "common", "common">>, <<"gen", "DEFAULT", "Common">>, <<"gen", "IA32", "common">>, <<"gen", " ia32", "PEIM">>, <<"gen", "IA32", "Nonsense">>}
Pick(p) ==
  CASE p = "skus" -> {[op |-> "add", w |-> "skus", item |-> x] : x \in Skus \cup {<<"def", "A", "1", "0">>, <<"lc", "NULL", "a.inf">>}}
    [] p = "defines" -> {[op |-> "add", w |-> w, item |-> x] : w \in {"defines", "default_stores"}, x \in {D1, D2, <<"def", "a", "3", "0">>, <<"store", "0", "Standard">>, <<"store", "0", "Man">>}}
    [] p = "library_classes" -> {[op |-> "addto", w |-> p, sec |-> s, item |-> x] : s \in Gens, x \in Lcs}
                                 \cup {[op |-> "open", w |-> p, sec |-> s, how |-> h, items |-> <<>>] : s \in Gens, h \in {"set", "wrong"}}
    [] p = "pcds" -> {[op |-> "addto", w |-> p, sec |-> s, item |-> x] : s \in {<<"pcds", "DynamicHii", "common", "DEFAULT", t>> : t \in {"-", "Std"}} \cup {<<"pcds", "DynamicHii", "X64", "S1", "-">>, <<"pcds", "DynamicHii", "common", "S1", "-">>, <<"pcds", "FixedAtBuild", "common", "DEFAULT", "Std">>,
                       <<"gen", "common", "common">>}, x \in Pcds}
    [] p = "build_options" -> {[op |-> "addto", w |-> p, sec |-> s, item |-> x] : s \in {<<"bo", "common", "EDKII", "common">>, <<"bo", "X64", "EDKII", "common">>, <<"bo", "common", "EDK3", "common">>, <<"gen", "common", "common">>}, x \in Opts \cup {D2}}
    [] OTHER -> {[op |-> "addto", w |-> w, sec |-> s, item |-> x] : w \in {"components", "libraries"}, s \in Gens, x \in Comps \cup {<<"lib", "l.inf">>}}
Init == part \in {"skus", "defines", "library_classes", "pcds", "build_options", "components"} /\ ops = <<>> /\ st = Empty
Next == Len(ops) < MaxOps /\ \E o \in Pick(part) : ops' = Append(ops, o) /\ st' = Do(st, o).st /\ UNCHANGED part
Spec == Init /\ [][Next]_vars
AllSets == {st.s[w] : w \in SetNames} \cup UNION {{st.d[w][i].items : i \in 1..Len(st.d[w])} : w \in DictNames}
\* nothing is there twice
Unique == \A s \in AllSets : \A x, y \in s : SameThing(x, y) => x = y
Sections == \A w \in DictNames : \A i, j \in 1..Len(st.d[w]) : st.d[w][i].sec = st.d[w][j].sec => i = j
\* only what is allowed is there
Kinds == /\ \A w \in SetNames : \A x \in st.s[w] : x[1] \in Allowed(w)
         /\ \A w \in DictNames : \A i \in 1..Len(st.d[w]) : st.d[w][i].sec[1] = KindOf(w) /\ \A x \in st.d[w][i].items : x[1] \in Allowed(w)
\* what was added is there until the same thing is added again
Latest == \A k \in 1..Len(ops) : LET o == ops[k] IN
  (o.op = "add" /\ Fits(o.w, o.item)) => (o.item \in st.s[o.w] \/ \E m \in (k + 1)..Len(ops) : ops[m].op = "add" /\ ops[m].w = o.w /\ SameThing(ops[m].item, o.item) /\ ops[m].item # o.item)
LatestIn == \A k \in 1..Len(ops) : LET o == ops[k] IN
  (o.op = "addto" /\ KeyFits(o.w, o.sec) /\ Fits(o.w, o.item)) => (o.item \in Items(st.d[o.w], Sec(o.sec)) \/ \E m \in (k + 1)..Len(ops) : ops[m].op = "addto" /\ ops[m].w = o.w /\ Sec(ops[m].sec) = Sec(o.sec) /\ SameThing(ops[m].item, o.item))
\* everything that is there is written
Written == LET F == File(st) IN \A w \in DictNames : \A i \in 1..Len(st.d[w]) : \A x \in st.d[w][i].items : \E s \in F : s[1] = Header(w, st.d[w][i].sec) /\ Block(x) \in s[2]
OneHeader == \A s, t \in File(st) : (s[1] = t[1] /\ s[2] # {} /\ t[2] # {}) => s = t
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson([part |-> part, ops |-> ops]))
=============================================================================
