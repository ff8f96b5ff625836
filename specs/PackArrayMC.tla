---------------------------- MODULE PackArrayMC ----------------------------
(* All trees of a small grammar: laws of packing, and the expected vectors for replay. *)
EXTENDS PackArray, Json
CONSTANTS Emit, Big
Mk(k, v, e, r, c, kv) == [k |-> k, v |-> v, e |-> e, r |-> r, c |-> c, kv |-> kv]
Leaves == {Mk("S", "", <<1>>, 1, 1, <<>>), Mk("V", "", <<2, 3>>, 2, 1, <<>>), Mk("M", "", <<4, 5, 6, 7>>, 2, 2, <<>>),
           Mk("M", "", <<10, 11, 12, 13, 14, 15>>, 2, 3, <<>>), Mk("M", "", <<8, 9>>, 1, 2, <<>>), Mk("X", "txt", <<>>, 0, 0, <<>>), Mk("V", "", <<>>, 0, 1, <<>>),
           Mk("T", "", <<1, 2>>, 1, 2, <<>>)}
Cont(S, kinds) == {Mk(k, "", <<>>, 0, 0, <<>>) : k \in kinds}
          \cup {Mk(k, "", <<>>, 0, 0, <<<<"b", x>>>>) : x \in S, k \in kinds}
          \cup {Mk(k, "", <<>>, 0, 0, <<<<"b", x>>, <<"a", y>>>>) : x \in S, y \in S, k \in kinds}
Inner == Cont(Leaves, IF Big THEN {"D", "O"} ELSE {"D"})
\* fresh numbers, to write into the tree
Iota(n) == [i \in 1..n |-> 100 + i]
Shift(cs) == [j \in 1..Len(cs) |-> [i \in 1..Len(cs[j]) |-> 1000 + 10 * j + i]]
VARIABLES tree, done
Init == done = FALSE /\ tree \in (Cont(Leaves, {"D"}) \cup {Mk("D", "", <<>>, 0, 0, <<<<"q", x>>>>) : x \in Cont({Mk("S", "", <<1>>, 1, 1, <<>>), Mk("M", "", <<4, 5, 6, 7>>, 2, 2, <<>>)}, {"O"})} \cup
            {Mk("D", "", <<>>, 0, 0, <<<<"z", x>>, <<"m", y>>, <<"a", w>>>>) :
               x \in Leaves, y \in Inner, w \in (IF Big THEN Leaves ELSE {Mk("S", "", <<1>>, 1, 1, <<>>), Mk("M", "", <<4, 5, 6, 7>>, 2, 2, <<>>)})})
Next == done = FALSE /\ done' = TRUE /\ tree' = tree
        /\ (Emit => PrintT("TREE" \o ToJson([t |-> tree, v |-> PackV(tree), a |-> PackA(tree), u |-> UnpackV(tree, Iota(Len(PackV(tree))))[1],
                uniform |-> Uniform(tree), ua |-> IF Uniform(tree) THEN UnpackA(tree, Shift(PackA(tree)))[1] ELSE tree])))
Spec == Init /\ [][Next]_<<tree, done>>
RoundTrip == UnpackV(tree, PackV(tree)) = <<tree, <<>>>>
WriteRead == LET v == Iota(Len(PackV(tree))) u == UnpackV(tree, v)
             IN u[2] = <<>> /\ PackV(u[1]) = v /\ Shape(u[1]) = Shape(tree)
ArrayForm == \A j \in 1..Len(PackA(tree)) : Len(PackA(tree)[j]) = Len(PackA(tree)[1])
ArrayRound == Uniform(tree) => UnpackA(tree, PackA(tree)) = <<tree, <<>>>>
=============================================================================
