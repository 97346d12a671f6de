----------------------------- MODULE AbnfTerms -----------------------------
(* ABNF (RFC 5234) expressions as data.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, Chars

INF == 9999

Eps        == <<"eps">>
Cls(S)     == <<"cls", S>>                     \* one symbol of S
NT(n)      == <<"nt", n>>                      \* reference to rule n
Alt(S)     == <<"alt", S>>                     \* any of a set of terms
Rep(lo, hi, t) == IF hi = 0 THEN Eps ELSE <<"rep", lo, hi, t>>   \* lo*hi t
In(n, t)   == IF t = Eps THEN Eps ELSE <<"in", n, t>>   \* rest of a rule being read

\* concatenation, flattened and with empty parts removed
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>>
            ELSE LET h == Head(ts) IN
                 (IF h = Eps THEN <<>> ELSE IF h[1] = "seq" THEN h[2] ELSE <<h>>)
                 \o Flat(Tail(ts))
Cat(ts) == LET f == Flat(ts) IN
           IF f = <<>> THEN Eps ELSE IF Len(f) = 1 THEN f[1] ELSE <<"seq", f>>

Opt(t)     == Rep(0, 1, t)                     \* [ t ]
Star(t)    == Rep(0, INF, t)                   \* *t
Plus(t)    == Rep(1, INF, t)                   \* 1*t
Exactly(n, t) == Rep(n, n, t)
Lit(str)   == Cat([i \in 1..Len(str) |-> Cls({SubSeq(str, i, i)})])   \* "str", lower case
Lits(S)    == Alt({Lit(str) : str \in S})
=============================================================================
