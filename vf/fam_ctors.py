"""Random constructors: spec/Ctors.tla, GenCtors.tla, TraceCtors.tla."""
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n" + CONSTS
def c22(ctx):
    scripts = ctx.generate("ctors", "GenCtors", dict(conf=dict(depth=9)), GEN, ctx.n(900, 9000), 12)
    ctx.conform("ctors", "ctors", "TraceCtors", scripts, consts=CONSTS)
