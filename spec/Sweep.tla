------------------------------- MODULE Sweep -------------------------------
(* Orthogonal sweeps: what TT-SVD, rounding and the orthogonal and HMT       *)
(* sketches are.  A sweep over an array X from left to right has the state   *)
(* (m, W): W is X with the first m modes projected on the columns chosen so  *)
(* far, a matrix r_m x (n_{m+1}..n_d).  A step reshapes W to                 *)
(* (r_m n_{m+1}) x rest, chooses orthonormal columns Q, and goes on with     *)
(* Q^T W; the last core is what is left.  The methods differ in how Q is     *)
(* chosen.  A right-to-left sweep is the sweep of the transposed array.      *)
EXTENDS Fix, Tensors, Ranks

\* states of the sweep of array v (fixed point, flat) along the columns of train t:
\* sequence over m = 1..d-1 of [W, P]: the matrix before and after step m
SweepStates(v, t) ==
  TLCEval(FoldLeft(LAMBDA acc, m :
     LET prev == IF m = 1 THEN <<v>> ELSE acc[m - 1].P
         W == ToMat(FlatMat(prev), TRank(t, m - 1) * t.sh[m], Prod(Drop(t.sh, m)))
     IN  Append(acc, [W |-> W, P |-> FMatMul(Transp(CoreL(t, m)), W)]),
   << >>, Iota(Len(t.sh) - 1)))
\* the train is the result of some sweep of v
IsProjection(v, t, ss) ==
  LET d == Len(t.sh) IN FNearM(CoreR9(t, d), ss[d - 1].P, TolV(v))
\* step m keeps the dominant directions: captured energy is that of the first r eigenvalues
Energy(lam, r) == BSumV(SubSeq(lam, 1, Min2(r, Len(lam))))
Dominant(s, lam, r) ==
  LET cap == FSq(FlatMat(s.P))  want == Energy(lam, r)
  IN  BLeq(want, BAdd(cap, Tol5(IF lam = << >> THEN <<0>> ELSE lam[1])))
\* admissible numbers of directions kept, for the relative threshold eps = num/1000
\* (0: none) and at most mx; eigenvalues within round-off of the threshold are free
KeepOk(lam, num, mx, r) ==
  LET l1 == lam[1]
      thr == BMul(BMul(<<num>>, <<num>>), l1)                        \* scaled by 10^6
      slack == BMul(Tol6(l1), <<0, 0, 1>>)
      sure == Cardinality({j \in 1..Len(lam) : BLt(BAdd(thr, slack), BMul(lam[j], <<0, 0, 1>>))})
      poss == IF num = 0 THEN Len(lam)
              ELSE Cardinality({j \in 1..Len(lam) : BLt(BSub(thr, slack), BMul(lam[j], <<0, 0, 1>>))})
  IN  /\ r >= 1 /\ r <= mx
      /\ r >= Min2(mx, Max2(1, sure))
      /\ r <= Max2(1, poss)

\* total squared error of a projection
SqErr(v, t) == LET y == FDen(t) IN FSq(FSubV(v, y))
\* sums over the bonds of the discarded squared singular values, from the spectra
\* of the unfoldings of v; and the largest of them
TailEnergy(lam, r) == BSumV(SubSeq(lam, Min2(r, Len(lam)) + 1, Len(lam)))
SqErrOk(v, t, specs) ==
  LET e == SqErr(v, t)
      tails == TLCEval([m \in 1..Len(specs) |-> TailEnergy(specs[m].lam, t.rk[m])])
      tol == Tol5(FSq(v))
  IN  /\ BLeq(e, BAdd(BSumV(tails), tol))
      /\ \A m \in 1..Len(tails) : BLeq(tails[m], BAdd(e, tol))
UnfoldF(sh, v, m) == ToMat(v, Prod(Take(sh, m)), Prod(Drop(sh, m)))
SpecsOk(sh, v, specs) == /\ Len(specs) = Len(sh) - 1
                         /\ \A m \in 1..Len(specs) : IsSpectrum(UnfoldF(sh, v, m), specs[m])
\* the sweep of the sketching methods: range(W R) is contained in the columns of Q
RangeWithin(Q, Z) == FNearM(FMatMul(Q, FMatMul(Transp(Q), Z)), Z, Tol4(BMaxAbsM(Z)))
=============================================================================
