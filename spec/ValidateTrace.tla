---------------------------- MODULE ValidateTrace ---------------------------
(* Logged calls: kind "deco" (a function behind the decorators), "lib" (a     *)
(* function of the library, with the guards of the documentation), "split".   *)
EXTENDS TraceKit
VARIABLES k, params, guards, pos, kw, phase, gi, ai
tvars == <<k, params, guards, pos, kw, phase, gi, ai>>
INSTANCE Validate
G(g, n) == [g |-> g, names |-> n]
(* Documented containers of the library's functions. *)
LibParams == [compute_entropies |-> <<"x", "y", "bins">>, mutual_info |-> <<"x", "y">>, var_info |-> <<"x", "y">>, kl_divergence_xy |-> <<"x", "y">>,
              get_info_distance_matrix |-> <<"X">>, get_corr_distance_matrix |-> <<"X">>, corr_to_dist |-> <<"corr">>,
              gap_statistic |-> <<"dist", "labels">>, silhouette_tstat |-> <<"dist", "labels">>]
LibGuards(f) == CASE f \in {"compute_entropies", "mutual_info", "var_info", "kl_divergence_xy"} -> <<G(1, <<"x", "y">>)>>
                  [] f \in {"get_info_distance_matrix", "get_corr_distance_matrix"} -> <<G(2, <<"X">>)>>
                  [] f = "corr_to_dist" -> <<G(2, <<"corr">>)>>
                  [] OTHER -> <<G(1, <<"labels">>), G(2, <<"dist">>)>>
R == Trace[k]
TraceInit == /\ k \in 1..NRec
             /\ CASE Trace[k].kind = "deco" -> VStart(<<"x", "y">>, Trace[k].guards, Trace[k].pos, Trace[k].kw)
                  [] Trace[k].kind = "lib" -> VStart(LibParams[Trace[k].f], LibGuards(Trace[k].f), Trace[k].pos, Trace[k].kw)
                  [] OTHER -> VStart(<<>>, <<>>, <<>>, <<>>)
C31(c, t) == Chk(c, "C31 " \o t)
TStep == VNext /\ UNCHANGED k
What == IF phase = "ValueError" THEN "an argument of a wrong type, dimension or size is not rejected with ValueError"
        ELSE IF phase = "ok" THEN "valid arguments are rejected" ELSE "a call that does not match the signature is not a TypeError"
Clauses ==
  CASE R.kind = "deco" -> C31(R.r = phase, What) \o C31(R.r # "ok" \/ R.same, "a guard alters arguments or results") \o C31(R.meta, "a guard hides the guarded function")
                          \o C31(R.r = "ok" \/ ~R.ran, "the function ran although an argument was rejected")
    [] R.kind = "lib" -> C31(R.r = phase, R.f \o ": " \o What)
    [] R.kind = "split" -> LET w == SplitComplaint(R.x, R.y, R.g, R.sorted, R.purge, R.embargo) IN
                           C31(R.r = w, IF w = "ok" THEN "splitter rejects valid input" ELSE "splitter does not reject wrong input with " \o w)
TEnd == Over /\ Verdict(k, Clauses) /\ UNCHANGED tvars
TraceNext == TStep \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
