--------------------------------- MODULE RepCode ---------------------------------
(* Repetition code.  Circuits of X, CX, measure and reset act linearly on bits, so a      *)
(* symbolic execution that carries, for every bit, a constant and the set of fault        *)
(* symbols it depends on decides the effect of every set of bit-flip faults at once.       *)
(* A fault symbol <<i, q>> is a bit flip of qubit q just before gate i; <<0, b>> is a      *)
(* flipped readout of classical bit b.                                                      *)
EXTENDS Common
Sym(c, s) == [c |-> c, s |-> s]
SXor(a, b) == Sym((a.c + b.c) % 2, (a.s \ b.s) \cup (b.s \ a.s))
Flip(a) == Sym(1 - a.c, a.s)
(* ---- gates: records g in {"X","CX","M","R","B"}, q qubits, c clbits (0-based) ------------ *)
Hit(st, i, g, faults) == FoldLeft(LAMBDA s, q : IF faults THEN [s EXCEPT !.q[q + 1] = SXor(@, Sym(0, {<<i, q>>}))] ELSE s, st, g.q)
Apply(st, g) ==
  CASE g.g = "X" -> [st EXCEPT !.q[g.q[1] + 1] = Flip(@)]
    [] g.g = "CX" -> [st EXCEPT !.q[g.q[2] + 1] = SXor(@, st.q[g.q[1] + 1])]
    [] g.g = "R" -> [st EXCEPT !.q[g.q[1] + 1] = Sym(0, {})]
    [] g.g = "M" -> [st EXCEPT !.c[g.c[1] + 1] = SXor(st.q[g.q[1] + 1], Sym(0, {<<0, g.c[1]>>}))]
    [] OTHER -> st
NoFaultSite(g) == g.g = "B"
SymRun(nq, nc, gs) == FoldLeft(LAMBDA st, i : TLCEval(Apply(IF NoFaultSite(gs[i]) THEN st ELSE Hit(st, i, gs[i], TRUE), gs[i])),
     [q |-> [i \in 1..nq |-> Sym(0, {})], c |-> [i \in 1..nc |-> Sym(0, {})]], [i \in 1..Len(gs) |-> i])
Known(gs) == \A i \in 1..Len(gs) : gs[i].g \in {"X", "CX", "M", "R", "B"}
(* value of a symbolic bit for a given fault set                                             *)
At(a, F) == (a.c + Cardinality(a.s \cap F)) % 2
(* ---- layout: qubits link 0..d-2, code d-1..2d-2 ; clbits rounds 0..T-1 of d-1, then code - *)
NQ(d) == 2 * d - 1
CodeQ(d, j) == d - 1 + j
LinkQ(d, j) == j
LinkB(d, t, j) == t * (d - 1) + j
CodeB(d, T, j) == T * (d - 1) + j
NC(d, T) == T * (d - 1) + d
(* ---- ideal circuit of a construction history: ops are x / round / readout ----------------- *)
OpGates(d, st, op, log) ==
  CASE op.op = "x" -> IF log \in {op.logs[i] : i \in 1..Len(op.logs)}
                      THEN [j \in 1..d |-> [g |-> "X", q |-> <<CodeQ(d, j - 1)>>]] ELSE <<>>
    [] op.op = "round" ->
         [j \in 1..(d - 1) |-> [g |-> "CX", q |-> <<CodeQ(d, j - 1), LinkQ(d, j - 1)>>]]
      \o [j \in 1..(d - 1) |-> [g |-> "CX", q |-> <<CodeQ(d, j), LinkQ(d, j - 1)>>]]
      \o [j \in 1..(d - 1) |-> [g |-> "M", q |-> <<LinkQ(d, j - 1)>>, c |-> <<LinkB(d, st, j - 1)>>]]
      \o (IF op.reset THEN [j \in 1..(d - 1) |-> [g |-> "R", q |-> <<LinkQ(d, j - 1)>>]] ELSE <<>>)
    [] OTHER -> [j \in 1..d |-> [g |-> "M", q |-> <<CodeQ(d, j - 1)>>, c |-> <<CodeB(d, st, j - 1)>>]]
CircuitOf(d, ops, log) ==
  FoldLeft(LAMBDA a, op : [t |-> IF op.op = "round" THEN a.t + 1 ELSE a.t, gs |-> a.gs \o OpGates(d, a.t, op, log)],
           [t |-> 0, gs |-> IF log = "1" THEN [j \in 1..d |-> [g |-> "X", q |-> <<CodeQ(d, j - 1)>>]] ELSE <<>>], ops)
ValOfLog(log) == IF log = "1" THEN 1 ELSE 0
(* stored value after the history                                                             *)
Stored(ops, log) == (ValOfLog(log) + Len(SelectSeq(ops, LAMBDA o : o.op = "x" /\ log \in {o.logs[i] : i \in 1..Len(o.logs)}))) % 2
(* ---- processing: raw outcomes to logical values and changes of parities -------------------- *)
(* code, link[t] : symbolic or concrete bits; element e (0-based, left to right) of a round is  *)
(* link d-2-e, which compares code qubits d-2-e and d-1-e                                       *)
Log2(d, code, xor(_, _)) == <<code[d], code[1]>>
FinalParity(d, code, xor(_, _)) == [j \in 1..(d - 1) |-> xor(code[j], code[j + 1])]
ChangeTab(d, T, links, code, xor(_, _)) ==
  LET all == [t \in 1..(T + 1) |-> IF t <= T THEN links[t] ELSE FinalParity(d, code, xor)] IN
  [t \in 1..(T + 1) |-> [e \in 1..(d - 1) |->
      IF t = 1 THEN all[1][d - e] ELSE xor(all[t][d - e], all[t - 1][d - e])]]
BXor(a, b) == (a + b) % 2
(* a raw outcome is [code |-> bits by qubit, links |-> bits by round and link]                  *)
Process(d, T, raw) == [log |-> Log2(d, raw.code, BXor), ch |-> ChangeTab(d, T, raw.links, raw.code, BXor)]
SymRaw(d, T, c) == [code |-> [j \in 1..d |-> c[CodeB(d, T, j - 1) + 1]],
                    links |-> [t \in 1..T |-> [j \in 1..(d - 1) |-> c[LinkB(d, t - 1, j - 1) + 1]]]]
SymProcess(d, T, r) == [log |-> Log2(d, r.code, SXor), ch |-> ChangeTab(d, T, r.links, r.code, SXor)]
(* ---- detection events: nodes <<0, side, 0>> (logical) and <<1, round, element>> ------------- *)
(* those that a fault symbol flips                                                              *)
NodesOfSym(p, f) == {<<0, s - 1, 0>> : s \in {x \in 1..2 : f \in p.log[x].s}}
    \cup {<<1, t - 1, e - 1>> : <<t, e>> \in {x \in (1..Len(p.ch)) \X (1..Len(p.ch[1])) : f \in p.ch[x[1]][x[2]].s}}
NodesOfProc(p) == {<<1, t - 1, e - 1>> : <<t, e>> \in {x \in (1..Len(p.ch)) \X (1..Len(p.ch[1])) : p.ch[x[1]][x[2]] = 1}}
Symbols(p) == p.log[1].s \cup p.log[2].s \cup UNION {p.ch[t][e].s : t \in 1..Len(p.ch), e \in 1..Len(p.ch[1])}
EvalProc(p, F) == [log |-> <<At(p.log[1], F), At(p.log[2], F)>>,
                   ch |-> [t \in 1..Len(p.ch) |-> [e \in 1..Len(p.ch[1]) |-> At(p.ch[t][e], F)]]]
EvalRaw(r, F) == [code |-> [j \in 1..Len(r.code) |-> At(r.code[j], F)],
                  links |-> [t \in 1..Len(r.links) |-> [j \in 1..Len(r.links[t]) |-> At(r.links[t][j], F)]]]
(* ---- what the readout must say about a single fault ------------------------------------------ *)
(* first use of link j by a CX from qubit q at or after gate i; 0 when there is none             *)
RoundOf(d, gs, i, q, j) ==
   LET later == {k \in i..Len(gs) : gs[k].g = "CX" /\ gs[k].q = <<q, LinkQ(d, j)>>} IN
   IF later = {} THEN 0 ELSE 1 + Cardinality({k \in 1..(Min(later) - 1) : gs[k].g = "M" /\ gs[k].q[1] = LinkQ(d, j)})
CodeFaultOK(d, T, gs, p, i, j) ==
   LET f == <<i, CodeQ(d, j)>>
       nd == NodesOfSym(p, f)
       want(lk) == LET r == RoundOf(d, gs, i, CodeQ(d, j), lk) IN <<1, IF r = 0 THEN T ELSE r - 1, d - 2 - lk>>
   IN nd = {want(lk) : lk \in {x \in 0..(d - 2) : x \in {j - 1, j}}}
           \cup (IF j = d - 1 THEN {<<0, 0, 0>>} ELSE {}) \cup (IF j = 0 THEN {<<0, 1, 0>>} ELSE {})
ReadFlipOK(d, T, p, t, j) == NodesOfSym(p, <<0, LinkB(d, t, j)>>) = {<<1, t, d - 2 - j>>, <<1, t + 1, d - 2 - j>>}
Pairwise(p) == \A f \in Symbols(p) : Cardinality(NodesOfSym(p, f)) \in {0, 2}
(* ---- decoding graph ----------------------------------------------------------------------------- *)
Edges(p, gateFaults) == {n \in {NodesOfSym(p, f) : f \in {x \in Symbols(p) : gateFaults => x[1] # 0}} : n # {}}
GNodes(E) == UNION E
RECURSIVE Grow(_, _, _, _)
Grow(E, seen, front, k) == IF front = {} THEN <<>> ELSE
   LET nxt == {y \in GNodes(E) \ seen : \E x \in front : {x, y} \in E} IN
   <<front>> \o Grow(E, seen \cup nxt, nxt, k + 1)
Shells(E, a) == Grow(E, {a}, {a}, 0)
Dist(E, a, b) == LET sh == Shells(E, a) IN (CHOOSE k \in 1..Len(sh) : b \in sh[k]) - 1
(* cheapest explanation of a set of events with an even / odd number of ends at each side:        *)
(* cost table <<cost with flips (0,0)>>,... indexed by <<left parity, right parity>>               *)
INF == 500000000
RECURSIVE Best(_, _, _)
Best(dist, nodes, want) ==
   IF nodes = {} THEN (IF want = <<0, 0>> THEN 0 ELSE INF)
   ELSE LET a == CHOOSE x \in nodes : TRUE  rest == nodes \ {a}
            toL == dist[a][<<0, 0, 0>>] + Best(dist, rest, <<1 - want[1], want[2]>>)
            toR == dist[a][<<0, 1, 0>>] + Best(dist, rest, <<want[1], 1 - want[2]>>)
            pair == {dist[a][b] + Best(dist, rest \ {b}, want) : b \in rest}
        IN  Min({toL, toR} \cup pair)
=============================================================================
