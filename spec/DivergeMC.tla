------------------------------ MODULE DivergeMC -----------------------------
(* All pairs of 2x2 integer matrices [a b; b c] with small entries: the       *)
(* divergences are non-negative, zero on equal arguments and invariant.       *)
EXTENDS Diverge, Json, Emit
CONSTANTS Ent
VARIABLES p, q
vars == <<p, q>>
Sym2(a, b, c) == <<<<a, b>>, <<b, c>>>>
Pd(m) == m[1][1] > 0 /\ m[1][1] * m[2][2] > m[1][2] * m[1][2]
D(m) == TLCEval([i \in 1..2 |-> [j \in 1..2 |-> FInt(m[i][j])]])
Init == /\ \E a, c \in Ent, b \in Ent \cup {-1} : p = Sym2(a, b, c)
        /\ \E a, c \in Ent, b \in Ent \cup {-1} : q = Sym2(a, b, c)
Report == EmitLine(ToJson([p |-> p, q |-> q])) /\ UNCHANGED vars
Spec == Init /\ [][Report]_vars
E == FParse("1e-9")
Both == Pd(p) /\ Pd(q)
L(a, b) == LogDetDiv(D(a), D(b))
NonNegative == Both => FLe(FNeg(E), L(p, q))
ZeroOnEqual == (Both /\ p = q) => FClose(L(p, q), F0, F0, E)
ZeroOnlyOnEqual == (Both /\ p # q) => FLt(E, L(p, q))
Scaled == Both => FClose(L(p, q), L([i \in 1..2 |-> [j \in 1..2 |-> 3 * p[i][j]]], [i \in 1..2 |-> [j \in 1..2 |-> 3 * q[i][j]]]), E, E)
(* congruence with [1 1; 0 1] *)
Shear(m) == LET a == m[1][1] b == m[1][2] c == m[2][2] IN Sym2(a + 2 * b + c, b + c, c)
Congruent == Both => FClose(L(p, q), L(Shear(p), Shear(q)), E, E)
=============================================================================
