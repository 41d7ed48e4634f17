--------------------------- MODULE GitignoreTrace ---------------------------
EXTENDS Gitignore, Conform
Asked(rules, p, isdir, got) ==
  \/ \E k \in 1..(Len(p) - 1) : Ignored(rules, SubSeq(p, 1, k), TRUE)
  \/ Open(rules, p) /\ (\E i \in 1..Len(rules) : rules[i].donly) /\ ~isdir
  \/ got = Ignored(rules, p, isdir)
US(ev) ==
  LET rules == RulesOf([i \in 1..Len(ev.lines) |-> Chars(ev.lines[i])])
      want == Listing(rules, ev.files)
      free == IF ev.strict THEN {} ELSE {i \in 1..Len(ev.files) : Open(rules, CPath(ev.files[i]))}
      got == ev.obs.files IN
  [s |-> [nil |-> TRUE], exp |-> [visited |-> want],
   ok |-> /\ ev.obs.st = "ok" /\ ev.obs.extra = 0
          /\ \A i \in 1..Len(ev.files) : i \in free \/
               got[i] = IF i \in want THEN Contrib(ev.files[i]) ELSE <<>>
          \* a path asked for by itself: the last line that matches it decides
          \* (whether what lies in an ignored folder matches too is left open)
          /\ ev.via # "" => /\ ~ev.obs.out
                            /\ \A i \in 1..Len(ev.files) : Asked(rules, CPath(ev.files[i]), FALSE, ev.obs.ask[i])
                            /\ \A i \in 1..Len(ev.dirs) : Asked(rules, CPath([path |-> ev.dirs[i]]), TRUE, ev.obs.askdir[i])]
UN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
