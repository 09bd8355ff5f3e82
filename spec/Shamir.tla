------------------------------- MODULE Shamir -------------------------------
(* Secret sharing over a small field, with the reconstruction rule of the    *)
(* implementation (the first `threshold` present shares, Lagrange at 0) and  *)
(* the neighbour graphs of the protocol.  The instances are enumerated       *)
(* exhaustively; the predicates at the end are those recorded executions of  *)
(* the real code are compared with.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, MaxN, MaxNodes

\* ---- field arithmetic ----------------------------------------------------------
M(x) == x % P
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE M(x * Pow(x, k - 1))
Inv(x) == Pow(M(x), P - 2)
RECURSIVE Eval(_, _)
Eval(cs, x) == IF cs = <<>> THEN 0 ELSE M(Head(cs) + x * Eval(Tail(cs), x))
RECURSIVE Prod(_, _)
Prod(S, f) == IF S = {} THEN 1 ELSE LET y == CHOOSE y \in S : TRUE IN M(f[y] * Prod(S \ {y}, f))
Lag(X, x) == LET O == X \ {x} IN Prod(O, [y \in O |-> M(y * Inv(M(y - x)))])
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET y == CHOOSE y \in S : TRUE IN M(f[y] + Sum(S \ {y}, f))
\* the t smallest of a set of numbers
RECURSIVE Smallest(_, _)
Smallest(X, t) == IF t = 0 THEN {} ELSE LET m == CHOOSE m \in X : \A y \in X : m <= y IN {m} \cup Smallest(X \ {m}, t - 1)
Recon(t, share, present) ==
  IF Cardinality(present) < t THEN -1
  ELSE LET X == Smallest(present, t) IN Sum(X, [x \in X |-> M(share[x] * Lag(X, x))])

\* ---- graphs ------------------------------------------------------------------------
Harary(nn, d, perm, i) ==    \* neighbours of node i in order; perm: position -> node
  LET pos == CHOOSE k \in 0..nn - 1 : perm[k] = i
  IN [k \in 1..d |-> perm[(pos - d \div 2 + k - 1 + nn) % nn]]
Perms(S) == {f \in [0..Cardinality(S) - 1 -> S] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]}

\* nb: node -> sequence of neighbours, idx: node -> node -> position or -1
SoundGraph(nn, d, nb, idx, adj) ==
  \A i \in 0..nn - 1 :
    /\ Len(nb[i]) = d
    /\ \A a \in 1..d : nb[i][a] \in 0..nn - 1
    /\ \A a, b \in 1..d : a # b => nb[i][a] # nb[i][b]
    /\ \E a \in 1..d : nb[i][a] = i
    /\ \A j \in 0..nn - 1 :
         /\ adj[i][j] = (\E a \in 1..d : nb[i][a] = j)
         /\ adj[i][j] = adj[j][i]
         /\ IF adj[i][j] THEN idx[i][j] \in 0..d - 1 /\ nb[i][idx[i][j] + 1] = j ELSE idx[i][j] = -1
\* Of two different neighbours exactly one counts the other as outgoing.
SoundOrder(nn, adj, out) ==
  \A i, j \in 0..nn - 1 :
    /\ out[i][j] => adj[i][j]
    /\ (i # j /\ adj[i][j]) => out[i][j] # out[j][i]

\* ---- the model: one instance per behaviour --------------------------------------
VARIABLES inst
ShareInsts == {[k |-> "share", n |-> nn, t |-> t, cs |-> cs] :
                 nn \in 2..MaxN, t \in 2..MaxN, cs \in UNION {[1..t2 -> 0..P - 1] : t2 \in 2..MaxN}}
GraphInsts == UNION {{[k |-> "graph", n |-> nn, d |-> d, perm |-> f] : d \in {x \in 1..nn : x % 2 = 1}, f \in Perms(0..nn - 1)}
                       : nn \in 1..MaxNodes}
Init == \/ inst \in {i \in ShareInsts : i.t <= i.n /\ Len(i.cs) = i.t}
        \/ inst \in GraphInsts
Next == UNCHANGED inst
Spec == Init /\ [][Next]_inst

ShareOk == inst.k = "share" =>
  LET share == [x \in 1..inst.n |-> Eval(inst.cs, x)]
  IN \A S \in SUBSET (1..inst.n) :
       Recon(inst.t, share, S) = (IF Cardinality(S) >= inst.t THEN inst.cs[1] ELSE -1)
\* Fewer than t shares are compatible with every secret.
Hidden == inst.k = "share" =>
  \A S \in {X \in SUBSET (1..inst.n) : Cardinality(X) = inst.t - 1} :
    \A s \in 0..P - 1 : \E c2 \in [1..inst.t -> 0..P - 1] :
        c2[1] = s /\ \A x \in S : Eval(c2, x) = Eval(inst.cs, x)
GraphOk == inst.k = "graph" =>
  LET nb == [i \in 0..inst.n - 1 |-> Harary(inst.n, inst.d, inst.perm, i)]
      adj == [i \in 0..inst.n - 1 |-> [j \in 0..inst.n - 1 |-> \E a \in 1..inst.d : nb[i][a] = j]]
      idx == [i \in 0..inst.n - 1 |-> [j \in 0..inst.n - 1 |->
                IF adj[i][j] THEN (CHOOSE a \in 1..inst.d : nb[i][a] = j) - 1 ELSE -1]]
      out == [i \in 0..inst.n - 1 |-> [j \in 0..inst.n - 1 |-> idx[i][j] >= inst.d \div 2]]
  IN SoundGraph(inst.n, inst.d, nb, idx, adj) /\ SoundOrder(inst.n, adj, out)

\* ---- legacy keys: leading zero bytes are not part of the key, except one in front
\* ---- of a byte with its highest bit set
RECURSIVE Legacy(_)
Legacy(b) == IF Len(b) > 1 /\ b[1] = 0 /\ b[2] <= 127 THEN Legacy(Tail(b)) ELSE b
RECURSIVE Pad(_, _)
Pad(b, k) == IF Len(b) >= k THEN b ELSE Pad(<<0>> \o b, k)
=============================================================================
