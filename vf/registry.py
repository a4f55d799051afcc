from . import fam_session as S, fam_stream as T, fam_ttalg as A, fam_calls as R, fam_guards as U, fam_lin as L, fam_gmres as G, fam_recover as V, fam_fill as F, fam_memo as M, fam_hashed as H, fam_utils as Z, fam_ctors as K, fam_huge as Y, fam_log as X, fam_graded as D
def seq(*fs):
    def run(ctx):
        for f in fs: f(ctx)
    return run
def huge(num, **w): return lambda ctx: Y.huge(ctx, "huge", ctx.n(num, 10 * num), **w)
CHECKS = dict(C01=seq(S.c01, huge(250, gather=5, T=3, split=2)), C02=seq(S.c02, huge(250, mul=3, div=3, neg=2, add=3, sub=3, gather=5, ttplus=2)), C03=seq(S.c03, L.c03),
              C04=seq(S.c04, huge(300, dot=4, norm=3, error=6)), C05=seq(T.c05, huge(250, sketch=8, add=2)), C06=seq(S.c06, T.c06), C07=seq(V.c07, huge(200, rec=10, gather=5, error=3)), C08=T.c08, C09=T.c09,
              C10=M.c10, C11=H.c11, C12=seq(A.c12, D.c12), C13=R.c13, C14=seq(A.c14, D.c14), C15=seq(A.c15, D.c15), C16=seq(L.c16, huge(200, mpo=8, gather=6, dot=2)), C17=G.c17, C18=seq(A.c18, D.c18), C19=U.c19, C20=F.c20, C21=Z.c21, C22=K.c22, C23=X.c23)
_S = "spec/Session, GenSession, TraceSession, MCSession"
_T = "spec/Stream, GenStream, TraceStream"
_A = "spec/Sweep, TTAlg, GenTTAlg, TraceTTAlg"
_U = "spec/Guards, GenGuards, TraceGuards"
_R = "spec/Ranks, MCRanks, GenRanks, Calls, TraceRanks"
MODULES = dict(C01=_S, C02=_S, C03=_S + ", spec/LinMaps, GenLin, TraceLin", C04=_S, C05=_T, C06=_S + ", " + _T, C07="spec/Recover, GenRecover, TraceRecover", C08=_T, C09=_T, C10="spec/Memo, GenMemo, TraceMemo", C11="spec/Hashed, GenHashed, TraceHashed", C12=_A, C13=_R, C14=_A, C15=_A, C16="spec/LinMaps, GenLin, TraceLin", C17="spec/Gmres, GenGmres, TraceGmres", C18=_A, C19=_U, C20="spec/Fill, MCFill, GenFill, TraceFill", C21="spec/Utils, GenUtils, TraceUtils", C22="spec/Ctors, GenCtors, TraceCtors", C23="spec/Log, MCLog, GenLog, TraceLog")
_Y = ", spec/Huge, GenHuge, TraceHuge"
for _p in ("C01", "C02", "C04", "C05", "C07", "C16"): MODULES[_p] += _Y
_D = ", spec/Graded, GenGraded, TraceGraded"
for _p in ("C12", "C14", "C15", "C18"): MODULES[_p] += _D
NOT_YET = {}
