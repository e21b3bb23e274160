--------------------------- MODULE OrnsteinTrace ---------------------------
(* Walks with known samples, sample streams, and stochastic nodes in networks. *)
EXTENDS PowerNet, NetTrace, Ornstein
VARIABLES draws,  \* the standard normal samples of each node's seed
          used    \* how many of them each node has drawn
tvars == <<nvars, ovars, draws, used>>
Tol == "1e-10"
Close(x, y, scale) == FLe(FAbs(FSub(x, y)), FMul(Tol, FAdd(scale, FAbs(y))))
Quiet == UNCHANGED <<net, num, sid, draws, used>>

(* a single walk: the number of substeps, the widths asked for and the result *)
Walked(e) ==
  LET p == [a |-> e.a, c |-> e.c, theta |-> e.theta, sigma |-> e.sigma, N |-> e.N]
      n == Steps(p, e.dt) h == FDiv(e.dt, n) IN
  IF ~Permitted(p) THEN ~e.ok /\ ~e.walked
  ELSE /\ e.ok /\ e.walked /\ e.n = n
       /\ Len(e.asked) = n /\ \A k \in 1..n : FClose(e.asked[k], FSqrt(h), "0", "1e-13")
       /\ Close(e.r, Walk(e.v, p, e.mu, h, e.z, n), FAdd(FAbs(e.v), FAbs(e.mu)))
       /\ ~FEq(e.mu, 0) => FEq(e.r, Limit(e.r, e.mu, e.c))

(* samples: reproducible, scaled as asked, normally distributed, and another
   stream for another seed *)
Mean(s) == FDiv(FSum(s), Len(s))
Moment(s, k) == Mean([i \in 1..Len(s) |-> FPow(s[i], k)])
Normal(s) == LET n == Len(s) r == FSqrt(n) IN n >= 1000 =>
  /\ FLe(FMul(FAbs(Mean(s)), r), 5)
  /\ FLe(FMul(FAbs(FSub(Moment(s, 2), 1)), r), 8)
  /\ FLe(FMul(FAbs(Moment(s, 3)), r), 20)
  /\ FLe(FMul(FAbs(FSub(Moment(s, 4), 3)), r), 60)
  /\ FLe(FMul(FAbs(FSub(FDiv(Cardinality({ i \in 1..n : FLt(FAbs(s[i]), 1) }), n), "0.6827")), r), "2.5")
Sampled(e) ==
  /\ e.used = e.seed /\ e.used2 = e.seed
  /\ \A k \in 1..Len(e.b) : FClose(e.b[k].x, FAdd(IF e.b[k].centred THEN 0 ELSE e.b[k].m, FMul(e.b[k].sd, e.z[k])), FMul("1e-12", FAdd(FAbs(e.b[k].m), e.b[k].sd)), "0")
  /\ Len(e.c) > 0 => \E k \in 1..Len(e.c) : ~FEq(e.c[k], e.z[k])
  /\ Normal(e.z)
Truncated(e) == e.used = e.seed /\ \A k \in 1..Len(e.asks) :
  LET q == e.asks[k]
      lo == IF q.own THEN q.lo ELSE FSub(q.m, FMul(2, q.sd)) hi == IF q.own THEN q.hi ELSE FAdd(q.m, FMul(2, q.sd))
      far == FLt(FMul(10, q.sd), FSub(lo, q.m)) \/ FLt(FMul(10, q.sd), FSub(q.m, hi)) \/ FLt(hi, lo) IN
  /\ q.ok => FLe(lo, q.x) /\ FLe(q.x, hi)
  /\ ~q.own => q.ok
  (* what is left out has the stated meaning *)
  /\ q.ok = q.ok2 /\ (q.ok => FEq(q.x, q.y))
  /\ far => ~q.ok

(* networks *)
StochN == { n \in net : n.type = "StochasticPQnode" }
Par(n, k) == [a |-> n.stoch.stability_parameter, c |-> n.stoch.cut_off_factor, N |-> n.stoch.number_of_stochastic_steps,
              theta |-> IF k = 1 THEN n.stoch.theta_P ELSE n.stoch.theta_Q, sigma |-> IF k = 1 THEN n.stoch.sigma_P ELSE n.stoch.sigma_Q]
Needs(n, dt) == Steps(Par(n, 1), dt) + Steps(Par(n, 2), dt)
(* what node n draws for a step from t0 to t1 after the state v, with its
   samples from the i-th on: <<P, Q>> *)
Drawn(n, v, t0, t1, i) ==
  LET dt == FSub(t1, t0) n1 == Steps(Par(n, 1), dt) n2 == Steps(Par(n, 2), dt) z == draws[n.id]
      m(k) == At(n.pts, n.vals, t1, k) IN
  << Walk(FSum(PTerms(net, num, v, n)), Par(n, 1), m(1), FDiv(dt, n1), SubSeq(z, i, i + n1 - 1), n1),
     Walk(FSum(QTerms(net, num, v, n)), Par(n, 2), m(2), FDiv(dt, n2), SubSeq(z, i + n1, i + n1 + n2 - 1), n2) >>
MassOf(n, v) == FAdd(Mass(PTerms(net, num, v, n)), Mass(QTerms(net, num, v, n)))
Begin(e) ==
  /\ FirstBuild(e) /\ e.missing = <<>>
  /\ draws' = e.draws /\ used' = [i \in DOMAIN e.draws |-> 0]
  /\ { c.id : c \in { x \in SetOf(e.given) : x.type = "StochasticPQnode" } } = DOMAIN e.draws
  (* a given seed is used and reported; nodes without one get different ones *)
  /\ \A i \in DOMAIN e.asked : e.asked[i] # <<>> => e.asked[i] = e.seeds[i]
  /\ \A i, j \in DOMAIN e.asked : i # j /\ e.asked[i] = <<>> /\ e.asked[j] = <<>> => e.seeds[i] # e.seeds[j]
Prepared(e) ==
  /\ e.cur = e.cur2
  /\ \A n \in StochN : LET d == Drawn(n, e.last, e.t0, e.t1, used[n.id] + 1) IN
       \A k \in 1..2 : Close(e.cur[n.id][k], d[k], MassOf(n, e.last))
  /\ used' = [i \in DOMAIN used |-> used[i] + Needs(By(net, i), FSub(e.t1, e.t0))]
  /\ draws' = draws
(* a simulation: in each step, the last of one or several attempts succeeded *)
RECURSIVE Follows(_, _, _)
Follows(e, k, at) ==
  IF k > Len(e.times) THEN TRUE
  ELSE LET dt == FSub(e.times[k], e.times[k - 1]) IN
       \E tries \in 0..e.retries :
         /\ \A n \in StochN : LET i == at[n.id] + tries * Needs(n, dt) d == Drawn(n, e.states[k - 1], e.times[k - 1], e.times[k], i + 1)
                                  now == <<FSum(PTerms(net, num, e.states[k], n)), FSum(QTerms(net, num, e.states[k], n))>> IN
              \A j \in 1..2 : FLe(FAbs(FSub(now[j], d[j])), FAdd(FMul(2, e.tol), FMul(Tol, MassOf(n, e.states[k]))))
         /\ Follows(e, k + 1, [i \in DOMAIN at |-> at[i] + (tries + 1) * Needs(By(net, i), dt)])
Step(e) ==
  \/ e.ev = "Walk" /\ Walked(e) /\ Quiet
  \/ e.ev = "Samples" /\ Sampled(e) /\ Quiet
  \/ e.ev = "Truncated" /\ Truncated(e) /\ Quiet
  \/ e.ev = "Stoch" /\ Begin(e)
  \/ e.ev = "Prepare" /\ Same /\ Prepared(e)
  \/ /\ e.ev = "Eval" /\ Quiet
     /\ \A n \in StochN : PowerRows(net, num, e.new, n, e.t1, e.cur[n.id], e.full[1], RowsOf(e, n.id), "1e-12")
     (* evaluations do not change what was drawn *)
     /\ l > 1 /\ Trace[l - 1].s = e.s /\ e.cur = Trace[l - 1].cur
  \/ /\ e.ev = "Sim" /\ Quiet
     /\ e.ok => Follows(e, 2, used)
     /\ (Trace[l - 1].ev = "Sim" /\ Trace[l - 1].s = e.s) => e.ok = Trace[l - 1].ok /\ (e.ok => e.states = Trace[l - 1].states)
Init == NInit /\ draws = <<>> /\ used = <<>> /\ Start("0")
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED ovars
Spec == Init /\ [][Next]_tvars
=============================================================================
