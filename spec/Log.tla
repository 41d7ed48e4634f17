-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* Log handlers and JUnit reports.  Texts are sequences of code points.     *)
(* A handler: [kind, level, deny, fmt, strip, text, pos]: kind "string"     *)
(* (a stream with a position), "file" or "color"; deny is a logger whose    *)
(* records a filter drops; fmt "plain", "color" or "azure".  Kind "win" is  *)
(* a colour handler on a Windows console: def is the console's attribute    *)
(* when it was made, paint whether colours are converted, at the colours    *)
(* selected and cells the attribute every character was written with.       *)
(* A report: suites, each [name, pkg, cases], a case [name, cls, st, msg,   *)
(* type, out, err].                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nl == <<10>>
Esc(c) == <<27, 91>> \o c \o <<109>>                         \* ESC [ c m
Reset == Esc(<<51, 57>>)
\* level names and colours as code points
Names == [DEBUG |-> <<68, 69, 66, 85, 71>>, INFO |-> <<73, 78, 70, 79>>, WARNING |-> <<87, 65, 82, 78, 73, 78, 71>>, ERROR |-> <<69, 82, 82, 79, 82>>,
          CRITICAL |-> <<67, 82, 73, 84, 73, 67, 65, 76>>, SECTION |-> <<83, 69, 67, 84, 73, 79, 78>>, PROGRESS |-> <<80, 82, 79, 71, 82, 69, 83, 83>>,
          NOTE |-> <<78, 79, 84, 69>>]
Colour == [DEBUG |-> <<51, 52>>, INFO |-> <<51, 54>>, WARNING |-> <<51, 51>>, ERROR |-> <<51, 49>>, CRITICAL |-> <<57, 55>>, SECTION |-> <<51, 54>>, PROGRESS |-> <<51, 50>>]
Azure == [ERROR |-> <<35, 35, 91, 101, 114, 114, 111, 114, 93>>, CRITICAL |-> <<35, 35, 91, 115, 101, 99, 116, 105, 111, 110, 93>>]
Sep == <<58, 32>>
\* r: [name, level, logger, msg, bad] with the arguments already in msg
Format(r, fmt) ==
  IF fmt = "color" /\ r.name \in DOMAIN Colour
  THEN IF r.level < 30 THEN Esc(Colour[r.name]) \o Names[r.name] \o Reset \o Sep \o r.msg
       ELSE Esc(Colour[r.name]) \o Names[r.name] \o Sep \o r.msg \o Reset
  ELSE IF fmt = "azure" /\ r.name \in DOMAIN Azure THEN Azure[r.name] \o Sep \o r.msg
  ELSE Names[r.name] \o Sep \o r.msg

\* ---- stripping of control sequences: ESC [ (digits and ;) letter ---------------
Digit(c) == c \in 48..57 \/ c = 59
Letter(c) == c \in 65..90 \/ c \in 97..122
RECURSIVE SeqEnd(_, _)
SeqEnd(t, i) == IF i > Len(t) THEN 0 ELSE IF Digit(t[i]) THEN SeqEnd(t, i + 1) ELSE IF Letter(t[i]) THEN i ELSE 0
RECURSIVE StripFrom(_, _)
StripFrom(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET e == IF t[i] = 27 /\ i < Len(t) /\ t[i + 1] = 91 THEN SeqEnd(t, i + 2) ELSE 0 IN
       IF e = 0 THEN <<t[i]>> \o StripFrom(t, i + 1) ELSE StripFrom(t, e + 1)
Stripped(t) == StripFrom(t, 1)

\* ---- handlers ----------------------------------------------------------------------
\* a write at a position replaces what is there and extends the text
Put(h, t) == LET n == Len(h.text) e == h.pos + Len(t) IN
  [h EXCEPT !.text = (IF h.pos < n THEN SubSeq(@, 1, h.pos) ELSE @ \o [i \in 1..(h.pos - n) |-> 0]) \o t \o (IF e < n THEN SubSeq(@, e + 1, n) ELSE <<>>), !.pos = e]
\* ---- a Windows console: colours become its attributes, codes it does not know do nothing ----
Bit(n, b) == (n \div b) % 2
\* red and blue change places between the two numberings
Swap(n) == (Bit(n, 1) * 4) + (Bit(n, 2) * 2) + Bit(n, 4)
Fresh(def) == [fore |-> def % 8, back |-> (def \div 16) % 8, lf |-> 0, lb |-> 0]
Select(a, p, def) ==
  CASE p \in 30..37 -> [a EXCEPT !.fore = Swap(p - 30), !.lf = 0]
    [] p \in 90..97 -> [a EXCEPT !.fore = Swap(p - 90), !.lf = 1]
    [] p = 39 -> [a EXCEPT !.fore = def % 8, !.lf = 0]
    [] p \in 40..47 -> [a EXCEPT !.back = Swap(p - 40), !.lb = 0]
    [] p \in 100..107 -> [a EXCEPT !.back = Swap(p - 100), !.lb = 1]
    [] p = 49 -> [a EXCEPT !.back = (def \div 16) % 8, !.lb = 0]
    [] OTHER -> a
Max(x, y) == IF x > y THEN x ELSE y
\* a console that was bright from the beginning stays so
Attribute(a, def) == a.fore + (16 * a.back) + (8 * Max(a.lf, Bit(def, 8))) + (128 * Max(a.lb, Bit(def, 128)))
\* the numbers of a control sequence, t from i to j (exclusive); n is the one being read, -1 if none
RECURSIVE Numbers(_, _, _, _)
Numbers(t, i, j, n) ==
  IF i >= j THEN IF n < 0 THEN <<>> ELSE <<n>>
  ELSE IF t[i] = 59 THEN (IF n < 0 THEN <<>> ELSE <<n>>) \o Numbers(t, i + 1, j, -1)
  ELSE Numbers(t, i + 1, j, ((IF n < 0 THEN 0 ELSE n) * 10) + t[i] - 48)
RECURSIVE SelectAll(_, _, _)
SelectAll(a, ps, def) == IF ps = <<>> THEN a ELSE SelectAll(Select(a, ps[1], def), Tail(ps), def)
RECURSIVE Paint(_, _, _, _)
Paint(t, i, a, def) ==
  IF i > Len(t) THEN [cells |-> <<>>, at |-> a]
  ELSE LET e == IF t[i] = 27 /\ i < Len(t) /\ t[i + 1] = 91 THEN SeqEnd(t, i + 2) ELSE 0 IN
       IF e = 0 THEN LET r == Paint(t, i + 1, a, def) IN [r EXCEPT !.cells = <<Attribute(a, def)>> \o @]
       ELSE Paint(t, e + 1, IF t[e] = 109 THEN SelectAll(a, Numbers(t, i + 2, e, -1), def) ELSE a, def)
Painted(h, t) == LET r == Paint(t, 1, h.at, h.def)
                     plain == IF h.strip THEN Stripped(t) ELSE t IN
  IF h.kind # "win" THEN h
  ELSE IF h.paint THEN [h EXCEPT !.cells = @ \o r.cells, !.at = r.at] ELSE [h EXCEPT !.cells = @ \o [i \in 1..Len(plain) |-> h.def]]
Cells(hs) == [i \in 1..Len(hs) |-> hs[i].cells]

Passes(h, r) == h.deny # r.logger
\* a record reaches a handler: dropped by its filter or level, or one more line
Emit1(h, r) == IF ~Passes(h, r) \/ r.level < h.level \/ r.bad THEN h   \* bad: the arguments do not fit the message
               ELSE LET t == Format(r, h.fmt) \o Nl IN Painted(Put(h, IF h.strip THEN Stripped(t) ELSE t), t)
EmitAll(hs, r) == [i \in 1..Len(hs) |-> Emit1(hs[i], r)]

\* lines of t from position p (0-based): how many are read for a hint, and which
RECURSIVE LinesFrom(_, _, _, _)
LineEnd(t, i) == IF \E j \in i..Len(t) : t[j] = 10 THEN CHOOSE j \in i..Len(t) : t[j] = 10 /\ \A k \in i..(j - 1) : t[k] # 10 ELSE Len(t)
LinesFrom(t, p, hint, got) ==
  IF p >= Len(t) THEN [ls |-> <<>>, p |-> p]
  ELSE LET e == LineEnd(t, p + 1)
           l == SubSeq(t, p + 1, e)
           n == got + Len(l)
           rest == IF hint > 0 /\ n > hint THEN [ls |-> <<>>, p |-> e] ELSE LinesFrom(t, e, hint, n) IN
       [ls |-> <<l>> \o rest.ls, p |-> rest.p]

\* ---- threads: what is observed is a merge of what each thread logged -----------------
\* lines: sequence of [t thread, i number]; each thread's lines are there, in order, whole
IsMerge(lines, counts) ==
  /\ Len(lines) = LET S[i \in 0..Len(counts)] == IF i = 0 THEN 0 ELSE S[i - 1] + counts[i] IN S[Len(counts)]
  /\ \A t \in 1..Len(counts) : SelectSeq(lines, LAMBDA x : x.t = t) = [i \in 1..counts[t] |-> [t |-> t, i |-> i]]

\* ---- reports -----------------------------------------------------------------------
White(c) == c \in {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160}
RECURSIVE LStrip(_)
LStrip(t) == IF Len(t) > 0 /\ White(t[1]) THEN LStrip(Tail(t)) ELSE t
RECURSIVE RStrip(_)
RStrip(t) == IF Len(t) > 0 /\ White(t[Len(t)]) THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == RStrip(LStrip(t))
\* what an XML reader makes of a text: line ends, and in attributes every white space
RECURSIVE Ends(_, _)
Ends(t, i) == IF i > Len(t) THEN <<>>
              ELSE IF t[i] = 13 THEN <<10>> \o Ends(t, IF i < Len(t) /\ t[i + 1] = 10 THEN i + 2 ELSE i + 1)
              ELSE <<t[i]>> \o Ends(t, i + 1)
Blanks(t) == [i \in 1..Len(t) |-> IF t[i] \in {9, 10, 13} THEN 32 ELSE t[i]]
\* characters XML cannot carry are left out of the comparison, with what stands for them
Legal(c) == c \in {9, 10, 13} \/ (c >= 32 /\ ~(c \in 55296..57343) /\ c # 65534 /\ c # 65535)
Clean(t) == SelectSeq(t, LAMBDA c : Legal(c) /\ c # 65533)
Text(t) == Clean(Ends(t, 1))
Attr(t) == Clean(Blanks(Ends(t, 1)))

NewCase(n, c) == [name |-> Strip(n), cls |-> Strip(c), st |-> "new", msg |-> <<>>, type |-> <<>>, out |-> <<>>, err |-> <<>>, since |-> 0, time |-> 0]
\* a result is set once
Set(c, st, msg, type) == IF c.st # "new" THEN [ok |-> FALSE, c |-> c] ELSE [ok |-> TRUE, c |-> [c EXCEPT !.st = st, !.msg = Strip(msg), !.type = Strip(type)]]
Logged(t) == Strip(t) \o <<10, 32>>
Count(s, st) == Cardinality({i \in 1..Len(s.cases) : s.cases[i].st = st})
CaseXml(c) == [cls |-> Attr(c.cls), name |-> Attr(c.name), out |-> Text(c.out), err |-> Text(c.err), st |-> c.st, time |-> c.time,
               body |-> CASE c.st = "skipped" -> <<Text(c.out)>> [] c.st \in {"failed", "error"} -> <<Attr(c.msg), Attr(c.type)>> [] OTHER -> <<>>]
SuiteXml(s, id) == [id |-> id - 1, name |-> Attr(s.name), pkg |-> Attr(s.pkg), errors |-> Count(s, "error"), tests |-> Len(s.cases), failures |-> Count(s, "failed"),
                    skipped |-> Count(s, "skipped"), cases |-> [i \in 1..Len(s.cases) |-> CaseXml(s.cases[i])]]
\* a report with a case that has no result cannot be written
Writable(ss) == \A i \in 1..Len(ss) : \A j \in 1..Len(ss[i].cases) : ss[i].cases[j].st # "new"
Xml(ss) == [i \in 1..Len(ss) |-> SuiteXml(ss[i], i)]
\* what was read from the written file, without the characters that stand for others
Canon(x) == [i \in 1..Len(x) |-> [x[i] EXCEPT !.name = Clean(@), !.pkg = Clean(@), !.cases =
              [j \in 1..Len(@) |-> [@[j] EXCEPT !.cls = Clean(@), !.name = Clean(@), !.out = Clean(@), !.err = Clean(@), !.body = [k \in 1..Len(@) |-> Clean(@[k])]]]]]
=============================================================================
