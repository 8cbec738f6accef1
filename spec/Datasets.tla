------------------------------ MODULE Datasets ------------------------------
(* Loading example datasets: every load gives a frame of its own, with the    *)
(* content of the shipped file; frames belong to the caller, who may change   *)
(* them.  Contents are opaque: file content, or a changed content.            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Names                         \* datasets
VARIABLES frames                        \* sequence of [d: dataset, c: content]
Load(d, c) == d \in Names /\ frames' = Append(frames, [d |-> d, c |-> c])       \* c: content of the file
Change(h, c) == h \in 1..Len(frames) /\ frames' = [frames EXCEPT ![h].c = c]
Drop == UNCHANGED frames               \* changing directory, or anything else
Columns(d) ==
  CASE d = "vix" -> <<"OPEN", "HIGH", "LOW", "CLOSE">>
    [] d = "treasury" -> <<"1m", "2m", "3m", "4m", "6m", "1y", "2y", "3y", "5y", "7y", "10y", "20y", "30y">>
    [] d = "equity" -> <<"GSPC", "IXIC", "DJI", "NYA", "XAX", "BUK100P", "RUT", "VIX", "GDAXI", "FCHI", "STOXX50E", "N100", "BFX", "IMOEX.ME", "N225", "HSI",
                         "000001.SS", "399001.SZ", "AXJO", "AORD", "BSESN", "JKSE", "NZ50", "KS11", "TWII", "GSPTSE", "BVSP", "MXX", "IPSA", "MERV", "TA125.TA", "CASE30", "JN0U.JO">>
(* The names in the files that have other names in the frames. *)
Renamed == [x \in {"1 Mo", "2 Mo", "3 Mo", "4 Mo", "6 Mo"} |-> CASE x = "1 Mo" -> "1m" [] x = "2 Mo" -> "2m" [] x = "3 Mo" -> "3m" [] x = "4 Mo" -> "4m" [] x = "6 Mo" -> "6m"]
           @@ [x \in {"1 Yr", "2 Yr", "3 Yr", "5 Yr", "7 Yr", "10 Yr", "20 Yr", "30 Yr"} |->
                CASE x = "1 Yr" -> "1y" [] x = "2 Yr" -> "2y" [] x = "3 Yr" -> "3y" [] x = "5 Yr" -> "5y" [] x = "7 Yr" -> "7y" [] x = "10 Yr" -> "10y" [] x = "20 Yr" -> "20y" [] x = "30 Yr" -> "30y"]
NameOf(x) == IF x \in DOMAIN Renamed THEN Renamed[x] ELSE x
=============================================================================
