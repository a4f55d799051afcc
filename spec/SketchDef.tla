----------------------------- MODULE SketchDef -----------------------------
(* The streaming sketch, by definition.  A left random matrix is given by    *)
(* L[m], m in 1..d-1, a matrix with one row per (i1..im) (row-major) and l_m  *)
(* columns; a right one by R[m] with one row per (i_{m+1}..i_d), row-major in *)
(* the tensor's own mode order, and r_m columns.                              *)
(*   Psi_m[a,k,b]  = sum L[m-1][i1..i_{m-1}][a] X[.., i_m = k, ..] R[m][..][b] *)
(*   Omega_m[a,b]  = sum L[m][i1..im][a] X[i1..id] R[m][i_{m+1}..id][b]       *)
(* Components are flat row-major sequences.  MM is the matrix product: over   *)
(* 32-bit integers (MatMul) or over fixed-point numbers (BMatMul).            *)
EXTENDS Tensors, Big

PsiOf(MM(_, _), sh, v, L, R, mu, one) ==
  LET d == Len(sh)
      np == Prod(Take(sh, mu - 1))  nk == sh[mu]  nq == Prod(Drop(sh, mu))
      Lm == IF mu = 1 THEN one ELSE L[mu - 1]
      Rm == IF mu = d THEN one ELSE R[mu]
      LT == Transp(Lm)
      Slice(k) == [p \in 1..np |-> [q \in 1..nq |-> v[((p - 1) * nk + (k - 1)) * nq + q]]]
      S == TLCEval([k \in 1..nk |-> MM(MM(LT, Slice(k)), Rm)])
      la == Len(LT)  rb == Len(Rm[1])
  IN  TLCEval([x \in 1..(la * nk * rb) |->
        S[(((x - 1) \div rb) % nk) + 1][(x - 1) \div (rb * nk) + 1][((x - 1) % rb) + 1]])
OmegaOf(MM(_, _), sh, v, L, R, mu) ==
  LET M == ToMat(v, Prod(Take(sh, mu)), Prod(Drop(sh, mu)))
  IN  FlatMat(MM(MM(Transp(L[mu]), M), R[mu]))

Components(MM(_, _), sh, v, L, R, one) ==
  [psi |-> [m \in 1..Len(sh) |-> PsiOf(MM, sh, v, L, R, m, one)],
   om  |-> [m \in 1..(Len(sh) - 1) |-> OmegaOf(MM, sh, v, L, R, m)]]
Comp(sh, v, L, R) == Components(MatMul, sh, v, L, R, <<<<1>>>>)

Cols(T) == [m \in 1..Len(T) |-> Len(T[m][1])]
\* shapes of the components
PsiSh(sh, lr, rr, m) == <<IF m = 1 THEN 1 ELSE lr[m - 1], sh[m], IF m = Len(sh) THEN 1 ELSE rr[m]>>
\* the components of the transposed tensor with exchanged random matrices
SkTranspose(c, sh, lr, rr) ==
  LET d == Len(sh)
  IN  [psi |-> [m \in 1..d |-> TransposeV(PsiSh(sh, lr, rr, d + 1 - m), c.psi[d + 1 - m])],
       om  |-> [m \in 1..(d - 1) |-> TransposeV(<<lr[d - m], rr[d - m]>>, c.om[d - m])]]
SkSize(sh, lr, rr) ==
  Sum(Len(sh), LAMBDA m : Prod(PsiSh(sh, lr, rr, m))) + Sum(Len(sh) - 1, LAMBDA m : lr[m] * rr[m])

\* tables of a TT random matrix given by integer cores; the cores of a right one
\* are given in the order in which it contracts the modes, last mode first
LeftTable(cores) == [m \in 1..Len(cores) |-> PrefixRows(cores, m)]
RightTable(sh, cores) ==
  LET d == Len(sh)
  IN  [m \in 1..(d - 1) |->
         LET P == PrefixRows(cores, d - m)            \* rows (i_d, .., i_{m+1})
             ssh == Drop(sh, m)
             rsh == Rev(ssh)
         IN  TLCEval([q \in 1..Prod(ssh) |->
               P[Flatten(rsh, Rev(Unflatten(ssh, q - 1))) + 1]])]
=============================================================================
