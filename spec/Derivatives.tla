---------------------------- MODULE Derivatives ----------------------------
(* The operational meaning of the RFC 5646 rules: what remains to be matched*)
(* after reading one symbol (Antimirov partial derivatives).  Every step    *)
(* also reports the *path* of nested rules the symbol was read in, so a run *)
(* of the automaton is a parse tree of the text.                            *)
EXTENDS Rfc5646

RECURSIVE Nullable(_)
Nullable(t) ==
  CASE t[1] = "eps" -> TRUE
    [] t[1] = "cls" -> FALSE
    [] t[1] = "nt"  -> Nullable(Rule(t[2]))
    [] t[1] = "in"  -> Nullable(t[3])
    [] t[1] = "alt" -> \E u \in t[2] : Nullable(u)
    [] t[1] = "seq" -> \A i \in 1..Len(t[2]) : Nullable(t[2][i])
    [] t[1] = "rep" -> t[2] = 0 \/ Nullable(t[4])

Dec(n) == IF n = INF THEN INF ELSE IF n = 0 THEN 0 ELSE n - 1

\* PD(t, s): the set of [path, rest] such that reading s from t, inside the
\* nested rules `path`, leaves `rest` to be matched.
RECURSIVE PD(_, _)
PD(t, s) ==
  CASE t[1] = "eps" -> {}
    [] t[1] = "cls" -> IF s \in t[2] THEN {[path |-> <<>>, rest |-> Eps]} ELSE {}
    [] t[1] = "nt"  -> {[path |-> <<t[2]>> \o p.path, rest |-> In(t[2], p.rest)]
                          : p \in PD(Rule(t[2]), s)}
    [] t[1] = "in"  -> {[path |-> <<t[2]>> \o p.path, rest |-> In(t[2], p.rest)]
                          : p \in PD(t[3], s)}
    [] t[1] = "alt" -> UNION {PD(u, s) : u \in t[2]}
    [] t[1] = "seq" ->
         LET h == Head(t[2])
             tl == Cat(Tail(t[2]))
         IN  {[path |-> p.path, rest |-> Cat(<<p.rest, tl>>)] : p \in PD(h, s)}
             \cup (IF Nullable(h) THEN PD(tl, s) ELSE {})
    [] t[1] = "rep" ->
         {[path |-> p.path,
           rest |-> Cat(<<p.rest, Rep(Dec(t[2]), Dec(t[3]), t[4])>>)] : p \in PD(t[4], s)}

\* Deterministic view: the set of remainders.
Delta(q, s) == UNION {{p.rest : p \in PD(t, s)} : t \in q}
Accepts(q) == \E t \in q : Nullable(t)

\* Whole-text acceptance by rule n, on symbols
RECURSIVE Run(_, _)
Run(q, w) == IF w = <<>> THEN q ELSE Run(Delta(q, Head(w)), Tail(w))
Matches(n, w) == Accepts(Run({NT(n)}, w))
=============================================================================
