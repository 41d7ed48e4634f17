---------------------------- MODULE CommentTrace ----------------------------
EXTENDS Comment, Conform
\* key = value lines: the first "=" outside the comment separates
KeyVal(cs) == LET c == StripComment(cs)  k == Find(c, "=", 1) IN
              IF k > 0 THEN <<Str(Strip(SubSeq(c, 1, k - 1))), Str(Strip(SubSeq(c, k + 1, Len(c))))>> ELSE <<>>
RECURSIVE DictOf(_, _, _)
DictOf(ls, i, acc) == IF i > Len(ls) THEN acc
  ELSE LET kv == KeyVal(ls[i]) IN
       DictOf(ls, i + 1, IF kv = <<>> THEN acc ELSE {x \in acc : x[1] # kv[1]} \cup {kv})
HS(ev) ==
  LET want == [i \in 1..Len(ev.lines) |-> Str(StripComment(ev.lines[i]))]
      d == DictOf(ev.lines, 1, {}) IN
  [s |-> [nil |-> TRUE],
   exp |-> [diff |-> {i \in 1..Len(ev.lines) : ev.obs.st # "ok" \/ ev.obs.out[i] # want[i]}, dict |-> d],
   ok |-> ev.obs.st = "ok" /\ ev.obs.out = want /\ {<<ev.obs.dict[i].key, ev.obs.dict[i].v>> : i \in 1..Len(ev.obs.dict)} = d]
HN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
