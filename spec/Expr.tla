-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Build-file conditional expressions.                                     *)
(*                                                                         *)
(* An expression is a sequence of tokens:                                  *)
(*   [k |-> "val", q |-> quoted?, s |-> text]  literal (macros expanded)    *)
(*   [k |-> "op",  s |-> "==" | "!=" | "<" | "<=" | ">" | ">=" |            *)
(*                       "AND" | "OR" | "IN" | "NOT"]                       *)
(*   [k |-> "("] , [k |-> ")"]                                              *)
(*                                                                         *)
(* Denote gives the meaning by recursive descent.  The second half of the  *)
(* module is the stack machine the implementation uses (collapse NOT,      *)
(* shunting yard, postfix reduction), one token per step; ExprMC checks     *)
(* that the machine computes Denote on every well formed expression within *)
(* bounds and rejects every single-fault malformed one.                    *)
(***************************************************************************)
EXTENDS Text, TLC

\* ill-typed operands (text in AND/OR, ordering of text, ...): no outcome is promised
\* numbers of any size: a sign and the digits to the base 10000, the lowest first and no leading zeros
Zero == [neg |-> FALSE, l |-> <<>>]
One == [neg |-> FALSE, l |-> <<1>>]
RECURSIVE MulAdd(_, _, _, _)
MulAdd(l, i, base, carry) == IF i > Len(l) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
                             ELSE <<(l[i] * base + carry) % 10000>> \o MulAdd(l, i + 1, base, (l[i] * base + carry) \div 10000)
RECURSIVE Limbs(_, _, _, _)
Limbs(cs, i, base, acc) == IF i > Len(cs) THEN acc ELSE Limbs(cs, i + 1, base, MulAdd(acc, 1, base, HexVal[LowChar(cs[i])]))
BigNum(neg, cs, i, base) == LET l == Limbs(cs, i, base, <<>>) IN [neg |-> neg /\ l # <<>>, l |-> l]
RECURSIVE DigitsBelow(_, _, _)
DigitsBelow(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] = b[i] THEN DigitsBelow(a, b, i - 1) ELSE a[i] < b[i]
MagLess(a, b) == IF Len(a) = Len(b) THEN DigitsBelow(a, b, Len(a)) ELSE Len(a) < Len(b)
NumLess(a, b) == IF a.neg # b.neg THEN a.neg ELSE IF a.neg THEN MagLess(b.l, a.l) ELSE MagLess(a.l, b.l)

Unspec == [t |-> "unspec", n |-> Zero, s |-> "", raw |-> FALSE]
IntV(n) == [t |-> "int", n |-> n, s |-> "", raw |-> FALSE]
BoolV(b) == IntV(IF b THEN One ELSE Zero)

\* Text to value: TRUE/FALSE in any case, 0x.. hexadecimal, decimal, otherwise text.
TextV(s) ==
  LET cs == Chars(s)
      neg == Len(cs) > 1 /\ cs[1] = "-"
      body == IF neg THEN Tail(cs) ELSE cs
      u == IF Len(cs) \in {4, 5} THEN Str(UpChars(cs)) ELSE ""
  IN IF u = "TRUE" THEN IntV(One)
     ELSE IF u = "FALSE" THEN IntV(Zero)
     ELSE IF Len(cs) > 2 /\ cs[1] = "0" /\ cs[2] \in {"x", "X"} /\ IsHexBody(SubSeq(cs, 3, Len(cs)))
     THEN IntV(BigNum(FALSE, cs, 3, 16))
     ELSE IF IsDec(body) THEN IntV(BigNum(neg, body, 1, 10))
     ELSE [t |-> "str", n |-> Zero, s |-> s, raw |-> FALSE]

\* literal: raw (never computed); a quoted literal may be compared but is not itself a truth value
LitV(tok) == [TextV(tok.s) EXCEPT !.raw = TRUE] @@ [q |-> tok.q, txt |-> tok.s]
IsLit(v) == v.raw
Quoted(v) == v.raw /\ v.q

Truth(v) == v.n # Zero
\* a literal number (ordering is only defined between these)
Numeral(v) == v.raw /\ Upper(v.txt) \notin {"TRUE", "FALSE"}

Compute(op, a, b) ==
  IF a.t = "unspec" \/ b.t = "unspec" THEN Unspec
  ELSE CASE op = "==" -> BoolV(a.t = b.t /\ a.n = b.n /\ a.s = b.s)
         [] op = "!=" -> BoolV(~(a.t = b.t /\ a.n = b.n /\ a.s = b.s))
         [] op = "IN" -> IF a.raw /\ b.raw THEN BoolV(Contains(b.txt, a.txt)) ELSE Unspec
         [] op = "OR" -> IF a.t = "int" /\ b.t = "int" THEN (IF Truth(a) THEN IntV(a.n) ELSE IntV(b.n)) ELSE Unspec
         [] op = "AND" -> IF a.t = "int" /\ b.t = "int" THEN (IF ~Truth(a) THEN IntV(a.n) ELSE IntV(b.n)) ELSE Unspec
         [] OTHER -> IF a.t = "int" /\ b.t = "int" /\ Numeral(a) /\ Numeral(b)
                     THEN CASE op = "<" -> BoolV(NumLess(a.n, b.n)) [] op = "<=" -> BoolV(~NumLess(b.n, a.n))
                            [] op = ">" -> BoolV(NumLess(b.n, a.n)) [] op = ">=" -> BoolV(~NumLess(a.n, b.n))
                     ELSE Unspec
Negate(v) == IF v.t # "int" \/ Quoted(v) THEN Unspec ELSE BoolV(v.n = Zero)

Prec(op) == IF op \in {"==", "!=", "IN"} THEN 1 ELSE 0
IsOp(tok) == tok.k = "op"
IsBin(tok) == tok.k = "op" /\ tok.s # "NOT"

(* ---------------------------------------------------------------- denotation *)
\* matching close parenthesis of the "(" at i, or 0
RECURSIVE Match(_, _, _)
Match(ts, i, depth) ==
  IF i > Len(ts) THEN 0
  ELSE IF ts[i].k = "(" THEN Match(ts, i + 1, depth + 1)
  ELSE IF ts[i].k = ")" THEN (IF depth = 1 THEN i ELSE Match(ts, i + 1, depth - 1))
  ELSE Match(ts, i + 1, depth)

\* Items: operands and operators alternately, <<v, op, v, op, v>>; NOT takes the whole rest of its group,
\* and "NOT op" between two operands is op with its result inverted.
Bad == << >>
RECURSIVE Denote(_), Items(_, _), Fold1(_), Fold0(_)
ApplyOp(o, a, b) == LET r == Compute(o.s, a, b) IN IF o.inv THEN Negate(r) ELSE r
\* fold the comparison operators (left to right), then the rest (left to right)
Fold1(it) ==
  IF Len(it) = 1 THEN it
  ELSE IF Prec(it[2].s) = 1
       THEN Fold1(<<ApplyOp(it[2], it[1], it[3])>> \o SubSeq(it, 4, Len(it)))
       ELSE <<it[1], it[2]>> \o Fold1(SubSeq(it, 3, Len(it)))
Fold0(it) == IF Len(it) = 1 THEN it[1]
             ELSE Fold0(<<ApplyOp(it[2], it[1], it[3])>> \o SubSeq(it, 4, Len(it)))
\* the longest run of NOT tokens starting at i
RECURSIVE NotRun(_, _)
NotRun(ts, i) == IF i <= Len(ts) /\ ts[i].k = "op" /\ ts[i].s = "NOT" THEN 1 + NotRun(ts, i + 1) ELSE 0

\* ts from position i is an operand followed by (operator operand)*; Bad if it is not
Items(ts, i) ==
  IF i > Len(ts) THEN Bad
  ELSE LET nn == NotRun(ts, i) IN
  IF nn > 0
  THEN IF nn % 2 = 0 THEN Items(ts, i + nn)
       ELSE LET v == Denote(SubSeq(ts, i + nn, Len(ts))) IN
            IF v.t = "malformed" THEN Bad ELSE <<Negate(v)>>
  ELSE LET close == IF ts[i].k = "(" THEN Match(ts, i, 0) ELSE i IN
       IF ts[i].k \in {")", "op"} \/ close = 0 THEN Bad
       ELSE LET v == IF ts[i].k = "(" THEN Denote(SubSeq(ts, i + 1, close - 1)) ELSE LitV(ts[i]) IN
            IF v.t = "malformed" THEN Bad
            ELSE IF close = Len(ts) THEN <<v>>
            ELSE LET ni == NotRun(ts, close + 1)
                     p == close + 1 + ni IN
                 IF p > Len(ts) \/ ~IsBin(ts[p]) THEN Bad
                 ELSE LET rest == Items(ts, p + 1) IN
                      IF rest = Bad THEN Bad
                      ELSE <<v, [s |-> ts[p].s, inv |-> ni % 2 = 1]>> \o rest
Malformed == [t |-> "malformed", n |-> Zero, s |-> "", raw |-> FALSE]
Denote(ts) == LET it == Items(ts, 1) IN IF it = Bad THEN Malformed ELSE Fold0(Fold1(it))

\* the observable outcome of an !if: "T", "F", "E" (rejected) or "U" (nothing promised)
VerdictOf(v) == IF v.t = "unspec" THEN "U" ELSE IF v.t # "int" \/ Quoted(v) THEN "E" ELSE IF Truth(v) THEN "T" ELSE "F"
Verdict(ts) == VerdictOf(Denote(ts))
\* an unquoted word that expands to nothing leaves no token
NonEmpty(tok) == tok.k # "val" \/ tok.q \/ tok.s # ""
Tokens(ts) == SelectSeq(ts, NonEmpty)

(* ------------------------------------------------------------- stack machine *)
\* collapse: NOT directly before a binary operator becomes an inverting operator; NOT NOT cancels
RECURSIVE Collapse(_, _)
Collapse(ts, pending) ==
  IF Len(ts) = 0 THEN <<>>
  ELSE LET h == Head(ts) IN
       IF h.k = "op" /\ h.s = "NOT" THEN Collapse(Tail(ts), ~pending)
       ELSE IF ~pending THEN <<h @@ [inv |-> FALSE]>> \o Collapse(Tail(ts), FALSE)
       ELSE IF h.k = "op" THEN <<h @@ [inv |-> TRUE]>> \o Collapse(Tail(ts), FALSE)
       ELSE <<[k |-> "op", s |-> "NOT", inv |-> FALSE], h @@ [inv |-> FALSE]>> \o Collapse(Tail(ts), FALSE)

MPrec(tok) == IF tok.k # "op" THEN -1 ELSE IF tok.s = "NOT" THEN -2 ELSE Prec(tok.s)

RECURSIVE PopTo(_, _)      \* <<stack, out>> after popping until "("
PopTo(st, out) == IF Len(st) = 0 \/ st[Len(st)].k = "(" THEN <<st, out>>
                  ELSE PopTo(SubSeq(st, 1, Len(st) - 1), Append(out, st[Len(st)]))
RECURSIVE PopGE(_, _, _)
PopGE(st, out, p) == IF Len(st) = 0 \/ MPrec(st[Len(st)]) < p THEN <<st, out>>
                     ELSE PopGE(SubSeq(st, 1, Len(st) - 1), Append(out, st[Len(st)]), p)

\* one token of the shunting yard: [st, out, ok]
Shunt(m, tok) ==
  IF ~m.ok THEN m
  ELSE IF tok.k = "(" THEN [m EXCEPT !.st = Append(@, tok)]
  ELSE IF tok.k = ")"
  THEN LET r == PopTo(m.st, m.out) IN
       IF Len(r[1]) = 0 THEN [m EXCEPT !.ok = FALSE]
       ELSE [m EXCEPT !.st = SubSeq(r[1], 1, Len(r[1]) - 1), !.out = r[2]]
  ELSE IF tok.k # "op" THEN [m EXCEPT !.out = Append(@, tok)]
  ELSE IF tok.s = "NOT" THEN [m EXCEPT !.st = Append(@, tok)]
  ELSE LET r == PopGE(m.st, m.out, MPrec(tok)) IN [m EXCEPT !.st = Append(r[1], tok), !.out = r[2]]
RECURSIVE ShuntAll(_, _)
ShuntAll(m, ts) == IF Len(ts) = 0 THEN m ELSE ShuntAll(Shunt(m, Head(ts)), Tail(ts))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
Postfix(ts) == LET m == ShuntAll([st |-> <<>>, out |-> <<>>, ok |-> TRUE], ts) IN
               IF m.ok THEN [m EXCEPT !.out = m.out \o Reverse(m.st), !.st = <<>>] ELSE m
\* postfix reduction with a value stack
RECURSIVE Reduce(_, _)
Reduce(pf, vs) ==
  IF Len(pf) = 0 THEN (IF Len(vs) = 1 THEN vs[1] ELSE Malformed)
  ELSE LET h == Head(pf) n == Len(vs) IN
       IF h.k = "val" THEN Reduce(Tail(pf), Append(vs, LitV(h)))
       ELSE IF h.k # "op" THEN Malformed
       ELSE IF h.s = "NOT" THEN (IF n < 1 THEN Malformed
                                 ELSE Reduce(Tail(pf), Append(SubSeq(vs, 1, n - 1), Negate(vs[n]))))
       ELSE IF n < 2 THEN Malformed
       ELSE LET c == Compute(h.s, vs[n - 1], vs[n]) IN
            Reduce(Tail(pf), Append(SubSeq(vs, 1, n - 2), IF h.inv THEN Negate(c) ELSE c))
MachineValue(ts) == LET p == Postfix(Collapse(ts, FALSE)) IN
                    IF ~p.ok \/ Len(p.out) = 0 THEN Malformed ELSE Reduce(p.out, <<>>)
MachineVerdict(ts) == VerdictOf(MachineValue(ts))
=============================================================================
