------------------------------ MODULE DataTree ------------------------------
(* C01. The state of a SUAVE data container and the effect of every public      *)
(* operation on it. Step(st, e) is the single source of truth: the model        *)
(* (DataTreeMC) explores it, the trace spec (DataTreeTrace) checks the code.     *)
EXTENDS Tree

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Punct == "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ \t\n\r"
CharAt(s, i) == SubSeq(s, i, i)
UpperMap == [c \in {CharAt(Upper, i) : i \in 1..26} |-> CharAt(Lower, CHOOSE i \in 1..26 : CharAt(Upper, i) = c)]
PunctSet == {CharAt(Punct, i) : i \in 1..Len(Punct)}
NormChar(c) == IF c \in DOMAIN UpperMap THEN UpperMap[c] ELSE IF c \in PunctSet THEN "_" ELSE c
RECURSIVE Norm(_)
Norm(s) == IF s = "" THEN "" ELSE NormChar(CharAt(s, 1)) \o Norm(SubSeq(s, 2, Len(s)))
IsPrefixStr(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* recursive update: nested containers merge, anything else is replaced; hidden names skipped
RECURSIVE Upd(_, _, _)
Upd(a, b, i) ==
  IF i > Len(b.kv) THEN a
  ELSE LET k == b.kv[i][1]  v == b.kv[i][2] IN
       IF Hidden(k) THEN Upd(a, b, i + 1)
       ELSE IF Has(a, k) /\ IsNode(Get(a, k)) /\ IsNode(v)
            THEN Upd(Put(a, k, Upd(Get(a, k), v, 1)), b, i + 1)
            ELSE Upd(Put(a, k, v), b, i + 1)

RECURSIVE AppUpd(_, _, _)
AppUpd(a, b, i) ==
  IF i > Len(b.kv) THEN a
  ELSE LET k == b.kv[i][1]  v == b.kv[i][2] IN
       IF Hidden(k) THEN AppUpd(a, b, i + 1)
       ELSE IF v.k = "A" /\ Has(a, k)
            THEN AppUpd(Put(a, k, IF Get(a, k).k = "A" THEN [v EXCEPT !.kv = Get(a, k).kv \o v.kv]
                                  ELSE Leaf("None")), b, i + 1)
            ELSE IF Has(a, k) /\ IsNode(Get(a, k)) /\ IsNode(v)
            THEN AppUpd(Put(a, k, AppUpd(Get(a, k), v, 1)), b, i + 1)
            ELSE AppUpd(Put(a, k, v), b, i + 1)

\* structural map: F applied to the leaves of a, paired with those of b
Tok(n) == IF n.k = "L" THEN n.v ELSE "A"
RECURSIVE Rec(_, _, _, _, _)
Rec(kind, a, b, hasb, i) ==
  IF i > Len(a.kv) THEN Node(kind, <<>>)
  ELSE LET k == a.kv[Len(a.kv) + 1 - i][1]
           x == a.kv[Len(a.kv) + 1 - i][2]
           rest == Rec(kind, a, b, hasb, i + 1)
           missing == hasb /\ IsNode(b) /\ ~Has(b, k)
           y == IF hasb /\ IsNode(b) /\ Has(b, k) THEN Get(b, k) ELSE b IN
       IF missing THEN Put(rest, k, x)
       ELSE IF IsNode(x) THEN Put(rest, k, Rec(kind, x, y, hasb, 1))
       ELSE IF ~hasb THEN Put(rest, k, Leaf(Tok(x) \o "!"))
       ELSE IF IsNode(y) THEN rest
       ELSE Put(rest, k, Leaf(Tok(x) \o "+" \o Tok(y)))

Ok(st, out)  == [st |-> st, res |-> "ok", out |-> out]
Err(st, err) == [st |-> st, res |-> err, out |-> Leaf("")]
Nil == Leaf("")

RECURSIVE Ext(_, _, _)
Ext(n, vals, i) ==
  IF i > Len(vals) THEN [n |-> n, ok |-> TRUE]
  ELSE LET t == Norm(Get(vals[i], "tag").v) IN
       IF Has(n, t) THEN [n |-> n, ok |-> FALSE] ELSE Ext(Put(n, t, vals[i]), vals, i + 1)

\* e.p: path of the container operated on; e.key: entry; e.val: operand; e.new: chosen name (Append)
Step(st, e) ==
  LET n == At(st, e.p) IN
  CASE e.op \in {"setattr", "setitem"} -> Ok(PutAt(st, e.p, Put(n, e.key, e.val)), Nil)
    [] e.op \in {"delattr", "delitem", "pop"} ->
         IF Has(n, e.key) THEN Ok(PutAt(st, e.p, Del(n, e.key)),
                                  IF e.op = "pop" THEN Get(n, e.key) ELSE Nil)
         ELSE Err(st, "missing")
    [] e.op = "getitem" -> IF Has(n, e.key) THEN Ok(st, Get(n, e.key)) ELSE Err(st, "missing")
    [] e.op = "getattr" -> IF Has(n, e.key) THEN Ok(st, Get(n, e.key)) ELSE Err(st, "missing")
    [] e.op = "has" -> Ok(st, Leaf(IF Has(n, e.key) THEN "yes" ELSE "no"))
    [] e.op = "appendkey" ->        \* append(value, key) on a plain data object
         IF Has(n, Norm(e.key)) THEN Err(st, "KeyError")
         ELSE Ok(PutAt(st, e.p, Put(n, Norm(e.key), e.val)), Nil)
    [] e.op = "append" ->           \* append(component): stored under its tag
         LET t == Norm(Get(e.val, "tag").v) IN
         IF ~Has(n, t) THEN Ok(PutAt(st, e.p, Put(n, t, e.val)), Nil)
         ELSE IF n.k # "C" THEN Err(st, "KeyError")
         ELSE Ok(PutAt(st, e.p, Put(n, e.new, Put(e.val, "tag", Leaf(e.new)))), Nil)
    [] e.op = "update" -> Ok(PutAt(st, e.p, Upd(n, e.val, 1)), Nil)
    [] e.op = "append_or_update" -> Ok(PutAt(st, e.p, AppUpd(n, e.val, 1)), Nil)
    [] e.op = "deep_set" -> IF NodePath(n, e.q) THEN Ok(PutAt(st, e.p \o e.q, Put(At(n, e.q), e.key, e.val)), Nil)
                            ELSE Err(st, "error")
    [] e.op = "deep_seti" ->        \* deep_set("path.name[i]", v): one row of an array
         IF HasPath(n, Append(e.q, e.key)) /\ At(n, Append(e.q, e.key)).k = "A"
            /\ e.i < Len(At(n, Append(e.q, e.key)).kv)
         THEN LET f == e.p \o Append(e.q, e.key) IN
              Ok(PutAt(st, f, [At(st, f) EXCEPT !.kv[e.i + 1] = <<"", e.val>>]), Nil)
         ELSE Err(st, "error")
    [] e.op = "deep_setij" ->       \* deep_set("path.name[i][j]", v): one element (arrays have one column)
         IF HasPath(n, Append(e.q, e.key)) /\ At(n, Append(e.q, e.key)).k = "A"
            /\ e.i \div 10 < Len(At(n, Append(e.q, e.key)).kv) /\ e.i % 10 = 0
         THEN LET f == e.p \o Append(e.q, e.key) IN
              Ok(PutAt(st, f, [At(st, f) EXCEPT !.kv[e.i \div 10 + 1] = <<"", e.val>>]), Nil)
         ELSE Err(st, "error")
    [] e.op = "deep_get" -> IF HasPath(n, Append(e.q, e.key)) THEN Ok(st, At(n, Append(e.q, e.key)))
                            ELSE Err(st, "error")
    [] e.op = "getint" -> IF e.i < Len(n.kv) THEN Ok(st, n.kv[e.i + 1][2]) ELSE Err(st, "IndexError")
    [] e.op = "clear" -> Ok(PutAt(st, e.p, [n EXCEPT !.kv = <<>>]), Nil)
    [] e.op = "extend" ->           \* append each component of a list in turn; stops at a name already taken
         LET r == Ext(n, e.vals, 1) IN
         [st |-> PutAt(st, e.p, r.n), res |-> IF r.ok THEN "ok" ELSE "KeyError", out |-> Nil]
    [] e.op = "recursive" -> Ok(st, Rec(n.k, n, e.val, e.i = 1, 1))
    [] e.op \in {"deepcopy", "pickle"} -> Ok(st, Nil)      \* the copy takes over; the original is then defaced

\* what Append may choose as the new name of a component whose name is taken
GoodName(n, e) == /\ ~Has(n, e.new)
                  /\ IsPrefixStr(Norm(Get(e.val, "tag").v), e.new)
                  /\ Norm(e.new) = e.new
Renames(st, e) == e.op = "append" /\ At(st, e.p).k = "C" /\ Has(At(st, e.p), Norm(Get(e.val, "tag").v))
=============================================================================
