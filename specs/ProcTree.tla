------------------------------ MODULE ProcTree ------------------------------
(* C05. Processes and analysis containers: what runs, in which order, with what   *)
(* result.  Nodes: "P" process, "C" analysis container, "V" vehicle analyses;      *)
(* "M" a member: v its identity, caps the phases it implements ("call" for a plain *)
(* function), fam the family that decides its slot; "N" an empty slot; "X" a step  *)
(* which raises.                                                                   *)
EXTENDS Tree
Cont(n) == n.k \in {"P", "C", "V"}
Mem(k, id, caps, fam) == [k |-> k, v |-> id, kv |-> <<>>, caps |-> caps, fam |-> fam]
Box(k, kv) == [k |-> k, v |-> "", kv |-> kv, caps |-> <<>>, fam |-> ""]
Empty == Mem("N", "", <<>>, "")
Can(n, ph) == \E i \in 1..Len(n.caps) : n.caps[i] = ph
Slots == <<"sizing", "weights", "aerodynamics", "stability", "energy", "atmosphere", "planet", "noise", "costs">>
FreshV == Box("V", [i \in 1..Len(Slots) |-> <<Slots[i], Empty>>])
SlotOf == [Sizing |-> "sizing", Weights |-> "weights", Aerodynamics |-> "aerodynamics", Stability |-> "stability",
           Energy |-> "energy", Atmospheric |-> "atmosphere", Planets |-> "planet", Noise |-> "noise", Costs |-> "costs"]
Phases == {"compile", "initialize", "evaluate", "finalize"}
Nil == Leaf("")
\* what a member answers: its identity and argument, unless it is one that answers nothing, zero or an empty container
Answer(n, arg) == IF Can(n, "none") THEN Nil ELSE IF Can(n, "zero") THEN Leaf("0")
                  ELSE IF Can(n, "data") THEN Node("D", <<>>) ELSE Leaf(n.v \o ":" \o arg)

\* -> [log, res, ok]; log entries <<identity, phase, argument>>
RECURSIVE Run(_, _, _)
RECURSIVE RunKv(_, _, _, _)
Run(n, ph, arg) ==
  CASE n.k = "N" -> [log |-> <<>>, res |-> Nil, ok |-> ph # "evaluate"]
    [] n.k = "P" /\ ph # "evaluate" -> [log |-> <<>>, res |-> Nil, ok |-> TRUE]     \* a process only evaluates
    [] Cont(n) -> RunKv(n, ph, arg, 1)
    [] Can(n, ph) -> [log |-> <<<<n.v, ph, arg>>>>, res |-> IF ph = "evaluate" THEN Answer(n, arg) ELSE Nil, ok |-> n.k # "X"]
    [] ph = "evaluate" /\ Can(n, "call") -> [log |-> <<<<n.v, "call", arg>>>>, res |-> Answer(n, arg), ok |-> n.k # "X"]
    [] OTHER -> [log |-> <<>>, res |-> Nil, ok |-> TRUE]
RunKv(n, ph, arg, i) ==
  IF i > Len(n.kv) THEN [log |-> <<>>, res |-> Node("D", <<>>), ok |-> TRUE]
  ELSE LET a == Run(n.kv[i][2], ph, arg) IN
       IF ~a.ok THEN [log |-> a.log, res |-> Nil, ok |-> FALSE]
       ELSE LET b == RunKv(n, ph, arg, i + 1) IN
            [log |-> a.log \o b.log, ok |-> b.ok,
             res |-> IF ~b.ok THEN Nil ELSE Node("D", <<<<n.kv[i][1], a.res>>>> \o b.res.kv)]

Result(n, ph, arg) == LET r == Run(n, ph, arg) IN
   [log |-> r.log, res |-> IF r.ok /\ ph = "evaluate" THEN r.res ELSE Nil, ok |-> r.ok]

Same(st) == [st |-> st, log |-> <<>>, res |-> Nil, ok |-> TRUE]
PStep(st, e) ==
  LET n == At(st, e.p) IN
  CASE e.op = "set" -> [Same(st) EXCEPT !.st = PutAt(st, e.p, Put(n, e.key, e.val))]
    [] e.op = "del" -> [Same(st) EXCEPT !.st = PutAt(st, e.p, Del(n, e.key))]
    [] e.op = "append" ->      \* vehicle analyses file a member under the slot of its family
         IF n.k = "V"
         THEN IF e.val.fam \in DOMAIN SlotOf
              THEN [Same(st) EXCEPT !.st = PutAt(st, e.p, Put(n, SlotOf[e.val.fam], e.val))]
              ELSE [Same(st) EXCEPT !.ok = FALSE]
         ELSE IF Has(n, e.key) THEN [Same(st) EXCEPT !.ok = FALSE]       \* process: name taken
         ELSE [Same(st) EXCEPT !.st = PutAt(st, e.p, Put(n, e.key, e.val))]
    [] e.op = "run" -> [Result(n, e.phase, e.arg) EXCEPT !.ok = @] @@ [st |-> st]
=============================================================================
