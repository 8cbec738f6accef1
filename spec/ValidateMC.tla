----------------------------- MODULE ValidateMC -----------------------------
EXTENDS Validate, Json, Emit
V(t, s) == [t |-> t, s |-> s]
Vals == {V("series", <<2>>), V("series", <<1>>), V("series", <<0>>), V("array", <<3>>), V("array", <<1>>), V("array", <<>>), V("array", <<2, 2>>), V("array", <<4, 1>>), V("array", <<1, 3>>), V("array", <<1, 1>>), V("array", <<0, 3>>), V("array", <<>>), V("frame", <<1, 1>>), V("frame", <<1, 3>>),
         V("array", <<2, 2, 2>>), V("frame", <<3, 2>>), V("frame", <<2, 1>>), V("frame", <<0, 2>>), V("list", <<>>), V("number", <<>>), V("index", <<>>), V("none", <<>>)}
Ps == <<"x", "y">>
Gs == {<<[g |-> 1, names |-> <<"x">>]>>, <<[g |-> 2, names |-> <<"y">>]>>, <<[g |-> 1, names |-> <<"x", "y">>]>>, <<[g |-> 2, names |-> <<"y", "x">>]>>,
       <<[g |-> 1, names |-> <<"x">>], [g |-> 2, names |-> <<"y">>]>>, <<[g |-> 2, names |-> <<"z", "y">>]>>, <<>>}
Kw(n, v) == [n |-> n, v |-> v]
Good == V("array", <<3>>)
Init == \E g \in Gs :
          \/ \E a, b \in Vals : VStart(Ps, g, <<a, b>>, <<>>) \/ VStart(Ps, g, <<a>>, <<Kw("y", b)>>) \/ VStart(Ps, g, <<>>, <<Kw("y", b), Kw("x", a)>>)
          \/ \E a \in Vals : VStart(Ps, g, <<a>>, <<>>) \/ VStart(Ps, g, <<>>, <<Kw("y", a)>>) \/ VStart(Ps, g, <<a, Good, a>>, <<>>)
                             \/ VStart(Ps, g, <<a>>, <<Kw("x", a), Kw("y", Good)>>) \/ VStart(Ps, g, <<a, Good>>, <<Kw("w", a)>>)
Next == VNext /\ (~Over' \/ EmitLine(ToJson([guards |-> guards, pos |-> pos, kw |-> kw])))
Spec == Init /\ [][Next]_vvars /\ WF_vvars(Next)
Ends == <>Over
(* A call is accepted exactly if every guarded argument is. *)
Exactly == /\ phase = "ok" => \A i \in 1..Len(guards) : \A j \in 1..Len(guards[i].names) : LET n == guards[i].names[j] IN n \in Bound => Accepts(guards[i].g, Value(n))
           /\ phase = "ValueError" => \E i \in 1..Len(guards) : \E j \in 1..Len(guards[i].names) : LET n == guards[i].names[j] IN n \in Bound /\ ~Accepts(guards[i].g, Value(n))
(* How an argument is passed makes no difference. *)
=============================================================================
