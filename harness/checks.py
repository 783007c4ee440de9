"""The checks, one per property."""
import os

from vlib import Violation, MachineryError, read_lines  # noqa: F401

CHECKS = {}
META = {}          # property -> (technique, level note)
NOT_CLAIMED = {}


def check(prop):
    def deco(fn):
        CHECKS[prop] = fn
        return fn
    return deco


def S(*xs):
    """TLA+ set of strings"""
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def core(ctx, name, fileset, ops, depth, cuts="none", reads="{-1}", seeks="{}", maxobjs=3, fwd=False, simulate=None, need=None,
         forms=("plain",), sample=None, timeout=600, torn=False, given="{}", palette=None):
    out = ctx.tlc("EioCore", dict(
        FileSet=f'"{fileset}"', Given=given, Cuts=f'"{cuts}"', Ops=S(*ops), ReadArgs=reads, SeekArgs=seeks, MaxObjs=maxobjs, Depth=depth,
        Sim="TRUE" if simulate else "FALSE", FwdSafe="TRUE" if fwd else "FALSE"), invariants=["InvSim" if simulate else "Inv"], export="Export", name=name,
        simulate=simulate, depth=depth + 3 if simulate else None, need=need, timeout=timeout)
    return ctx.run_workers("core", out, dict(forms=list(forms), sample=sample, torn=torn, palette=palette), label=name, timeout=timeout)


@check("C01")
def c01(ctx):
    q = ctx.quick
    core(ctx, "trav_small", "small", ["next", "sub", "read"], 6 if q else 7, maxobjs=4, need=1000)
    core(ctx, "trav_forests", "forest3", ["next", "sub"], 6 if q else 7, maxobjs=4, need=1000)
    core(ctx, "trav_deep", "deep", ["next", "sub", "read", "seek", "peek"], 24 if q else 40, reads="{-1, 1, 3}", seeks="{<<0, 0>>, <<2, 0>>, <<1, 1>>, <<1, 2>>}",
         maxobjs=14, simulate=4000 if q else 60000, need=1000)


@check("C03")
def c03(ctx):
    q = ctx.quick
    core(ctx, "cursor", "cursor", ["next", "sub", "read", "seek", "tell"], 4 if q else 5, reads="{-1, 2}",
         seeks="{<<0, 0>>, <<3, 0>>, <<9, 0>>, <<-1, 1>>, <<1, 1>>, <<2, 2>>, <<-1, 0>>}", maxobjs=2, need=1000)
    core(ctx, "cursor_deep", "deep", ["next", "sub", "read", "seek", "tell"], 24 if q else 40, reads="{-1, 0, 1, 2, 5, 50}",
         seeks="{<<0, 0>>, <<1, 0>>, <<4, 0>>, <<40, 0>>, <<-2, 1>>, <<0, 1>>, <<3, 1>>, <<0, 2>>, <<2, 2>>, <<90, 2>>, <<-3, 0>>}", maxobjs=12,
         simulate=4000 if q else 60000, need=1000)


@check("C04")
def c04(ctx):
    q = ctx.quick
    core(ctx, "peek", "small", ["next", "peek", "read", "sub"], 6 if q else 7, maxobjs=2, need=1000)
    core(ctx, "peek_types", "given", ["next", "peek", "sub", "read"], 16, maxobjs=8, simulate=2000 if q else 40000, need=300, **palette(ctx, 300, 40 if q else 300))
    core(ctx, "peek_store", "mix", ["next", "peek", "sub", "read"], 12, reads="{-1, 1}", maxobjs=8, fwd=True, simulate=1600 if q else 40000, need=300, forms=("gzproc", "zstd", "gzmulti", "zstdmulti"),
         sample=dict(gzproc=0.3, gzmulti=0.3))
    core(ctx, "peek_torn", "mix", ["next", "peek", "sub", "read"], 12, reads="{-1, 1}", maxobjs=10, fwd=True, simulate=2400 if q else 40000, need=300, torn=True, forms=ALL[1:], sample=dict(gzproc=0.2, gzmulti=0.2))
    core(ctx, "peek_cut", "small", ["next", "peek"], 7, cuts="all", need=1000, forms=("plain", "zstd", "gzpy", "gzproc", "zstdmulti", "gzmulti"), sample=dict(gzproc=0.02, gzmulti=0.02, zstd=0.2, zstdmulti=0.2, gzpy=0.1))


ALL = ("plain", "gzproc", "gzpy", "zstd", "gzmulti", "gzmultipy", "zstdmulti")
ALL8 = ALL + ("gznone",)
ALLOPS = ["next", "peek", "sub", "read", "seek", "tell"]


@check("C05")
def c05(ctx):
    q = ctx.quick
    core(ctx, "store", "small", ALLOPS, 4 if q else 5, reads="{-1, 1}", seeks="{<<0, 0>>, <<1, 1>>, <<0, 2>>}", maxobjs=2, fwd=True, need=1000,
         forms=ALL, sample=dict(gzproc=0.15, gzmulti=0.15) if q else dict(gzproc=0.1, gzmulti=0.1, zstd=0.3, zstdmulti=0.3, gzpy=0.3, gzmultipy=0.3))
    core(ctx, "store_deep", "deep", ALLOPS, 24 if q else 40, reads="{-1, 1, 3}", seeks="{<<0, 0>>, <<2, 0>>, <<1, 1>>, <<-1, 1>>, <<1, 2>>}",
         maxobjs=14, fwd=True, simulate=1600 if q else 30000, need=1000, forms=ALL8)
    core(ctx, "store_file", "small", ["next", "read", "fseek", "fread", "ftell"], 3, reads="{-1, 0, 5}", maxobjs=1, fwd=True, need=1000,
         forms=ALL, sample=dict(plain=0.5, zstd=0.5, zstdmulti=0.5, gzpy=0.5, gzmultipy=0.5, gzproc=0.1, gzmulti=0.1))
    core(ctx, "store_file_deep", "deep", ["next", "sub", "read", "peek", "fseek", "fread", "ftell"], 16, reads="{-1, 0, 7}", maxobjs=8, fwd=True, simulate=800 if q else 20000,
         need=300, forms=ALL8)
    core(ctx, "store_big", "big", ["next", "sub", "read", "seek", "peek"], 10, reads="{-1, 1, 65537, 200000}", seeks="{<<0, 0>>, <<65530, 0>>, <<100, 1>>, <<5, 2>>}",
         maxobjs=6, fwd=True, simulate=400 if q else 6000, need=300, forms=ALL)
    core(ctx, "store_huge", "huge", ["next", "sub", "read", "seek"], 7, reads="{-1, 1, 16777217}", seeks="{<<0, 0>>, <<16777300, 0>>, <<17000000, 1>>, <<5, 2>>}",
         maxobjs=6, fwd=True, simulate=24 if q else 400, need=16, forms=ALL)
    core(ctx, "store_parse", "given", ["next", "sub", "parse", "chunk"], 16, maxobjs=12, fwd=True, simulate=800 if q else 20000, need=300, forms=ALL8,
         **palette(ctx, 300, 40 if q else 300))


@check("C06")
def c06(ctx):
    q = ctx.quick
    core(ctx, "cut_walk", "small", ["next", "sub", "read"], 5 if q else 6, cuts="all", maxobjs=3, need=1000)
    core(ctx, "cut_forests", "forest2" if q else "forest3", ["next", "sub", "read", "peek"], 5, cuts="all", maxobjs=2, need=1000)
    core(ctx, "cut_deep", "deep", ["next", "sub", "read", "seek", "tell"], 16 if q else 24, cuts="all", reads="{-1, 1, 3}", seeks="{<<0, 0>>, <<3, 0>>, <<-1, 1>>, <<1, 2>>}",
         maxobjs=14, simulate=4000 if q else 60000, need=1000)
    core(ctx, "cut_forms", "small", ["next", "sub", "read"], 4, cuts="all", maxobjs=3, need=1000, fwd=True, forms=ALL,
         sample=dict(plain=0, gzproc=0.05, gzmulti=0.05, gzpy=0.3, gzmultipy=0.3, zstd=0.3, zstdmulti=0.3))
    core(ctx, "torn", "mix", ["next", "sub", "read"], 12, maxobjs=14, reads="{-1, 1}", fwd=True, simulate=2400 if q else 30000, need=1000, torn=True,
         forms=ALL[1:], sample=dict(gzproc=0.3, gzmulti=0.3))
    for g in ("run", "evt", "adc", "iact", "phot", "hist"):
        out = ctx.tlc("Layout", dict(Group=f'"{g}"', Mode='"content"'), invariants=["Inv"], export="Export", name=f"layout_{g}", need=100)
        ctx.run_workers("layout", out, dict(cut=True, sample=0.25 if q else 1), label=f"parse_cut_{g}")


@check("C02")
def c02(ctx):
    for fam in ("bits", "words", "random"):
        n = (4000 if ctx.quick else 200000) if fam == "random" else None
        out = ctx.tlc("EioHeader", dict(Family=f'"{fam}"', Tops="{TRUE, FALSE}"), invariants=["Inv"], export="Export", name="header_" + fam,
                      simulate=n, depth=10, need=2000)
        ctx.run_workers("header", out, label="header_" + fam)


@check("C15")
def c15(ctx):
    q = ctx.quick
    out = ctx.tlc("EioPrim", dict(Mode='"single"', Depth=1), invariants=["Inv"], export="Export", name="prim_single", need=3000)
    ctx.run_workers("prim", out, label="prim_single")
    out = ctx.tlc("EioPrim", dict(Mode='"mix"', Depth=10), invariants=["InvSim"], export="Export", name="prim_mix", simulate=3000 if q else 100000, depth=20, need=1000)
    ctx.run_workers("prim", out, label="prim_mix")


REPS = dict(iact=20, hist=4, adc=2, phot=2, run=2, evt=1)


def layout(ctx, group, modes=("content",), need=50):
    for mode in modes:
        out = ctx.tlc("Layout", dict(Group=f'"{group}"', Mode=f'"{mode}"'), invariants=["Inv"], export="Export", name=f"layout_{group}_{mode}", need=need if mode != "wide" else 8,
                      workers=1 if mode == "wide" else None)
        for rep in range((1 if mode != "content" else REPS[group]) if ctx.quick else 30 if mode != "wide" else 5):
            ctx.run_workers("layout", out, dict(rep=rep) if rep else {}, label=f"layout_{group}_{mode}", count=rep == 0)


@check("C16")
def c16(ctx):
    layout(ctx, "adc", ("content", "wide"), need=1900)


@check("C17")
def c17(ctx):
    layout(ctx, "run", ("content", "wide"), need=4000)


@check("C18")
def c18(ctx):
    layout(ctx, "evt", ("content", "wide"), need=12000)


@check("C19")
def c19(ctx):
    layout(ctx, "iact", ("content", "wide"), need=100)


@check("C20")
def c20(ctx):
    layout(ctx, "phot", ("content", "wide"), need=1700)


@check("C21")
def c21(ctx):
    layout(ctx, "hist", ("content", "wide"), need=500)


@check("C22")
def c22(ctx):
    for g in ("run", "evt", "adc", "iact", "phot", "hist"):
        layout(ctx, g, ("versions",), need=10)


def palette(ctx, npal, nfiles, groups=("run", "evt", "adc", "iact", "phot", "hist"), chunked=False):
    """files made of parsable objects -> (TLA+ set of forests, file with the payloads)"""
    exports = [ctx.tlc("Layout", dict(Group=f'"{g}"', Mode='"content"'), invariants=["Inv"], export="Export", name=f"layout_{g}", need=100) for g in groups]
    out = os.path.join(ctx.tmp, "palette_chunked" if chunked else "palette")
    ctx.python("palette.py", *(["--chunked"] if chunked else []), out, ctx.seed, npal, nfiles, *exports)
    with open(out + ".tla") as f:
        return dict(given=f.read(), palette=out + ".pickle")


@check("C23")
def c23(ctx):
    q = ctx.quick
    pal = palette(ctx, 400, 60 if q else 400)
    core(ctx, "parse", "given", ["next", "sub", "parse", "chunk", "read", "seek", "peek"], 24, reads="{-1, 0, 4, 12}", seeks="{<<0, 0>>, <<5, 0>>, <<2, 1>>, <<3, 2>>}",
         maxobjs=12, simulate=6000 if q else 100000, need=1000, **pal)
    core(ctx, "parse_only", "given", ["next", "sub", "parse", "chunk"], 20, maxobjs=12, simulate=3000 if q else 50000, need=1000, **pal)
    pal = palette(ctx, 40, 20 if q else 200, groups=("phot",), chunked=True)
    core(ctx, "parse_chunks", "given", ["next", "sub", "chunk", "read", "seek"], 16, reads="{-1, 4, 12, 40}", seeks="{<<0, 0>>, <<5, 0>>, <<2, 1>>, <<3, 2>>}",
         maxobjs=4, simulate=2000 if q else 30000, need=500, **pal)


# ------------------------------------------------------------- high-level readers
GROUPS = ("run", "evt", "adc", "iact", "phot", "hist")


def pool(ctx, groups=GROUPS):
    exports = [ctx.tlc("Layout", dict(Group=f'"{g}"', Mode='"content"'), invariants=["Inv"], export="Export", name=f"layout_{g}", need=100) for g in groups]
    out = os.path.join(ctx.tmp, "pool.pickle")
    ctx.python("pool.py", out, ctx.seed, *exports)
    return out


BODY = ("CM", "LC", "PM", "MS", "PA", "ME", "TD", "SU", "AE", "CP", "CE", "HG", "UN")


def simtel(ctx, name, pl, aspects, telsets="{{1}, {1, 2}, {0, 5}, {3, 256}, {2, 7, 100}}", sim=None, depth=20, kinds=BODY, configs="none", cuts=False, sample=1, forms=None, need=100,
           torn=False):
    out = ctx.tlc("SimTel", dict(TelSets=telsets, Sim="TRUE" if sim else "FALSE", Depth=depth, Kinds=S(*kinds), Configs=f'"{configs}"', Cuts="TRUE" if cuts else "FALSE"),
                  invariants=["Inv"], export="Export", name=name, simulate=sim, depth=depth + 120 if sim else None, need=need, timeout=800)
    return ctx.run_workers("simtel", out, dict(pool=pl, aspects=list(aspects), sample=sample, forms=forms, torn=torn), label=name, timeout=800)


def resources(*patterns):
    import glob
    from vlib import REPO
    return sorted({p for x in patterns for p in glob.glob(os.path.join(REPO, "tests/resources", x))})


def simtel_real(ctx, aspects, cuts=False, forms=None, sample=1):
    """what the specification demands for the real files of the test suite"""
    tr = os.path.join(ctx.tmp, "traces.ndjson")
    ctx.python("scan.py", tr, 1600, *resources("*simtel*", "prod4*"))
    out = ctx.tlc("SimTelTrace", dict(TelSets="{{1}}", Sim="FALSE", Depth=1, Kinds="{}", Configs='"none"', Cuts="TRUE" if cuts else "FALSE"), init="TraceInit", next="TraceNext",
                  invariants=["TraceInv"], export="TraceExport", env=dict(TRACES=tr), name="st_real", workers=1, need=10)
    return ctx.run_workers("simtel", out, dict(traces=tr, aspects=list(aspects), forms=forms, sample=sample), label="st_real", mem_gb=6, timeout=800)


MOSTLY_PLAIN = dict(plain=0.8, gzpy=0.1, zstd=0.08, gzproc=0.02)


@check("C09")
def c09(ctx):
    q = ctx.quick
    pl = pool(ctx)
    simtel_real(ctx, ["event"])
    simtel(ctx, "st_all", pl, ["event"], telsets="{{1, 2}}", depth=4 if q else 5, kinds=("MS", "PA", "ME", "TD", "SU", "AE", "CP", "CE", "HG", "UN"), sample=1 if q else 0.5)
    simtel(ctx, "st_sim", pl, ["event"], sim=4000 if q else 100000, depth=25, forms=MOSTLY_PLAIN)


@check("C10")
def c10(ctx):
    q = ctx.quick
    pl = pool(ctx)
    simtel_real(ctx, ["moni", "head"])
    simtel(ctx, "st_moni", pl, ["moni", "head"], telsets="{{1, 2}}", depth=5 if q else 6, kinds=("CM", "PM", "MS", "ME", "AE", "CE", "HG"), sample=0.3)
    simtel(ctx, "st_sim", pl, ["moni", "head"], sim=3000 if q else 100000, depth=30, kinds=("CM", "LC", "PM", "MS", "ME", "AE", "CE", "HG"), forms=MOSTLY_PLAIN)


@check("C11")
def c11(ctx):
    q = ctx.quick
    pl = pool(ctx)
    simtel_real(ctx, ["event", "moni"])
    simtel(ctx, "st_filter", pl, ["event", "moni"], telsets="{{1, 2}}", depth=3 if q else 4, kinds=("MS", "ME", "SU", "AE", "CE", "HG"), configs="all")
    simtel(ctx, "st_sim", pl, ["event", "moni"], sim=4000 if q else 100000, depth=25, configs="all")


@check("C12")
def c12(ctx):
    q = ctx.quick
    pl = pool(ctx)
    f = dict(plain=0.7, gzpy=0.1, zstd=0.18, gzproc=0.02)
    simtel_real(ctx, ["event"], cuts=True, sample=0.5 if q else 1)
    simtel(ctx, "st_cut", pl, ["event"], telsets="{{1}}", depth=4 if q else 5, kinds=("MS", "PA", "ME", "TD", "AE", "CE", "HG", "UN"), cuts=True, forms=f, sample=0.5)
    simtel(ctx, "st_sim", pl, ["event", "moni", "head"], sim=5000 if q else 100000, depth=20, configs="skips", cuts=True, forms=f)


# ------------------------------------------------------------- CORSIKA/IACT files
def iact(ctx, name, pl, showers=2, reuses="1..2", ops=(), depth=8, cuts=False, mutants=False, sim=None, sample=1, forms=None, need=100, count=True):
    out = ctx.tlc("Iact", dict(Sim="TRUE" if sim else "FALSE", MaxShowers=showers, Reuses=reuses, Ops=S(*ops), Depth=depth, Cuts="TRUE" if cuts else "FALSE",
                               Mutants="TRUE" if mutants else "FALSE"), invariants=["Inv"], export="Export", name=name, simulate=sim, depth=depth + 40 if sim else None,
                  need=need, timeout=800)
    return ctx.run_workers("iact", out, dict(pool=pl, sample=sample, forms=forms), label=name, timeout=800)


def iact_real(ctx, ops=(), depth=6, cuts=False, sample=1, forms=None):
    tr = os.path.join(ctx.tmp, "iact_traces.ndjson")
    ctx.python("w_iact.py", tr, *resources("*.dat*", "*gamma*", "*.eventio*"))
    out = ctx.tlc("IactTrace", dict(Sim="FALSE", MaxShowers=0, Reuses="{}", Ops=S(*ops), Depth=depth, Cuts="TRUE" if cuts else "FALSE", Mutants="FALSE"), init="TraceInit",
                  next="TraceNext", invariants=["Exact", "CutPrefix"], export="TraceExport", env=dict(TRACES=tr), name="ia_real", need=5)
    return ctx.run_workers("iact", out, dict(traces=tr, sample=sample, forms=forms), label="ia_real", timeout=800)


@check("C13")
def c13(ctx):
    q = ctx.quick
    pl = pool(ctx, ("iact", "phot"))
    iact_real(ctx)
    iact(ctx, "ia_all", pl, forms=MOSTLY_PLAIN, showers=1 if q else 2)
    iact(ctx, "ia_sim", pl, sim=6000 if q else 100000, showers=5, reuses="1..5", forms=MOSTLY_PLAIN)


IACT_FORMS = dict(plain=0.55, gzpy=0.2, zstd=0.2, gzproc=0.05)


@check("C14")
def c14(ctx):
    q = ctx.quick
    pl = pool(ctx, ("iact", "phot"))
    ops = ("iter", "nev", "nobj", "peek")
    iact(ctx, "ia_hist", pl, showers=1, reuses="{1}", ops=ops, depth=5 if q else 7, forms=IACT_FORMS, sample=0.15 if q else 0.1)
    iact(ctx, "ia_ops", pl, sim=6000 if q else 100000, showers=4, reuses="1..3", ops=ops, depth=25, forms=IACT_FORMS)
    iact(ctx, "ia_cuts", pl, sim=5000 if q else 100000, showers=4, reuses="1..3", cuts=True, forms=IACT_FORMS)
    iact(ctx, "ia_cutops", pl, sim=4000 if q else 100000, showers=3, reuses="1..2", ops=ops, depth=20, cuts=True, forms=IACT_FORMS)
    iact_real(ctx, cuts=True, sample=0.5 if q else 1, forms=IACT_FORMS)


@check("C07")
def c07(ctx):
    q = ctx.quick
    pl = pool(ctx)
    out = ctx.tlc("SimTelDamage", dict(TelSets="{{1}, {1, 2}, {3, 256}}", Sim="TRUE", Depth=14, Kinds=S("MS", "PA", "ME", "TD", "AE", "CP", "CE"), Configs='"none"', Cuts="FALSE"),
                  init="DInit", next="DNext", invariants=["DamageInv"], export="DamageExport", name="st_damaged", simulate=2500 if q else 60000, depth=130, need=100, timeout=800)
    ctx.run_workers("simtel", out, dict(pool=pl, aspects=["event"], forms=MOSTLY_PLAIN), label="st_damaged", timeout=800)
    for name, n, where, depth, words in (("gate_first", 1, "{1}", 3, "all"), ("gate_later", 3, "{2, 3}", 4 if q else 5, "all"), ("gate_any", 4, "1..4", 6 if q else 8, "few")):
        out = ctx.tlc("EioGate", dict(N=n, Where=where, Depth=depth, Words=f'"{words}"'), invariants=["Inv"], export="Export", name=name, need=100)
        ctx.run_workers("gate", out, label=name)
    iact(ctx, "ia_damaged", pl, sim=8000 if q else 100000, showers=3, reuses="1..2", mutants=True, forms=MOSTLY_PLAIN)


@check("C08")
def c08(ctx):
    q = ctx.quick
    pl = pool(ctx)

    def life(name, slots, classes, forms, depth, sim=None, sample=1):
        out = ctx.tlc("Lifecycle", dict(Slots=slots, Classes=S(*classes), Forms=S(*forms), Sim="TRUE" if sim else "FALSE", Depth=depth), invariants=["Inv"], export="Export",
                      name=name, simulate=sim, depth=depth + 3 if sim else None, need=100)
        ctx.run_workers("life", out, dict(pool=pl, sample=sample), label=name)
    cl = ("EventIOFile", "IACTFile", "SimTelFile")
    life("life_one", "{1}", cl, ("plain", "gzproc", "gzpy", "zstd", "gznone"), 4 if q else 6)
    life("life_many", "1..3", cl, ALL, 14, sim=3200 if q else 60000)


TYPESETS = '{{"ArrayEvent"}, {"TelescopeEvent"}, {"ADCSums"}, {"EventIOObject"}, {"TelescopeObject"}, {"ArrayEvent", "ADCSums"}, {"PixelTiming", "TelescopeEvent", "TelescopeData"}, {}}'
STRUCTURES = ('{<<{"ArrayEvent"}>>, <<{"ArrayEvent"}, {"TelescopeEvent"}>>, <<{"ArrayEvent"}, {"TelescopeEvent"}, {"ADCSums"}>>, <<{"TelescopeEvent"}, {"TelescopeObject"}>>, '
              '<<{"ArrayEvent", "TelescopeData"}, {"ADCSums", "PixelTiming"}>>, <<{"TelescopeData"}, {"ArrayEvent", "TelescopeEvent"}, {"ADCSums"}>>}')


@check("C24")
def c24(ctx):
    q = ctx.quick

    def search(name, nodes, labels, kinds, depth, typesets=TYPESETS, structures=STRUCTURES, takes="{0, 1, 2, 99}", counts="{0, 1, 2, 3}", cuts=False, sim=None, forms=("plain",), sample=None):
        out = ctx.tlc("Search", dict(MaxNodes=nodes, LabelIds=labels, Kinds=S(*kinds), TypeSets=typesets, Structures=structures, Takes=takes, Counts=counts,
                                     Cuts="TRUE" if cuts else "FALSE", Depth=depth, Sim="TRUE" if sim else "FALSE"), invariants=["Inv"], export="Export", name=name,
                      simulate=sim, depth=nodes + depth + 5 if sim else None, need=300)
        ctx.run_workers("search", out, dict(forms=list(forms), sample=sample or {}), label=name)
    allk = ("find", "top", "collect", "findall", "yieldall", "depth", "sub", "subn")
    one = dict(typesets='{{"ArrayEvent"}, {"ADCSums", "TelescopeEvent"}, {"EventIOObject"}}', structures='{<<{"ArrayEvent"}, {"ADCSums"}>>}')
    search("search_all", 3, "{1, 2, 3}", ("find", "top", "depth", "sub", "subn"), 1, **dict(one, counts="{0, 1, 2}"))
    search("search_struct", 3 if q else 4, "{1, 3}", ("findall", "yieldall"), 1, typesets="{{}}", structures='{<<{"ArrayEvent"}, {"ADCSums"}>>, <<{"ArrayEvent"}, {"ArrayEvent", "ADCSums"}>>}',
           counts="{0}", takes="{1, 99}")
    search("search_sim", 12, "1..8", allk, 6, sim=6000 if q else 100000)
    search("search_cut", 9, "1..8", allk, 4, cuts=True, sim=8000 if q else 100000, forms=("plain", "gzpy", "zstd", "gzproc"), sample=dict(gzpy=0.2, zstd=0.2, gzproc=0.02))


@check("C27")
def c27(ctx):
    for fam, need in (("types", 256), ("tel", 240), ("bits", 5000), ("whole", 400), ("decimal", 150), ("mismatch", 900), ("words", 500)):
        sim = None if fam != "words" else 1600 if ctx.quick else 100000
        out = ctx.tlc("TelId", dict(Family=f'"{fam}"', Sim="TRUE" if sim else "FALSE"), invariants=["Inv"], export="Export", name="telid_" + fam, simulate=sim, depth=4 if sim else None, need=need,
                      workers=1 if fam in ("types", "tel") else None)
        ctx.run_workers("telid", out, label="telid_" + fam)


@check("C25")
def c25(ctx):
    q = ctx.quick
    for fam, need in (("few", 1000), ("text", 3000), ("mega", 200), ("random", 500)):
        sim = None if fam != "random" else 3000 if q else 60000
        out = ctx.tlc("CutTool", dict(Family=f'"{fam}"', Sim="TRUE" if sim else "FALSE"), invariants=["Inv"], export="Export", name="cut_" + fam, simulate=sim, depth=14 if sim else None, need=need)
        ctx.run_workers("cut", out, label="cut_" + fam)


@check("C26")
def c26(ctx):
    q = ctx.quick

    def insp(name, nodes, labels, repeats, cuts=False, sim=None):
        out = ctx.tlc("Inspect", dict(MaxNodes=nodes, LabelIds=labels, Repeats=repeats, Cuts="TRUE" if cuts else "FALSE", Sim="TRUE" if sim else "FALSE"), invariants=["Inv"], export="Export",
                      name=name, simulate=sim, depth=2 * nodes + 5 if sim else None, need=500)
        ctx.run_workers("inspect", out, label=name)
    insp("insp_all", 4 if q else 5, "{1, 3}", "{0, 1, 2, 5}")
    insp("insp_cut", 2 if q else 3, "{1, 3, 5}", "{1, 5}", cuts=True)
    insp("insp_sim", 16, "1..15", "{0, 1, 2, 3, 5, 7}", sim=3000 if q else 60000)
    insp("insp_simcut", 12, "1..15", "{0, 1, 2, 5}", cuts=True, sim=3000 if q else 60000)
    def meta(name, sim=None, **k):
        out = ctx.tlc("MetaTools", dict(dict(MaxHist=2, MaxEntries=2, Ids="{-1, 1}", MaxMeta=2, Sim="TRUE" if sim else "FALSE", Modes=S("history", "text", "json", "diff")), **k), invariants=["Inv"],
                      export="Export", name=name, simulate=sim, depth=60 if sim else None, need=500)
        ctx.run_workers("meta", out, label=name)
    meta("meta_all")
    meta("meta_sim", sim=4000 if q else 100000, MaxHist=4, MaxEntries=5, Ids="{-1, 0, 1, 2, 100, 255, 256, 1000}", MaxMeta=6)


@check("C28")
def c28(ctx):
    q = ctx.quick

    def plot(name, sim=None, **k):
        out = ctx.tlc("Plot", dict(k, Sim="TRUE" if sim else "FALSE"), invariants=["Inv"], export="Export", name=name, simulate=sim, depth=60 if sim else None, need=100)
        ctx.run_workers("plot", out, label=name)
    plot("plot_all", MaxBlocks=1, MaxHists=1, Sizes="{1, 2, 3}" if q else "{1, 2, 3, 4}", Values="{0, 3}")
    plot("plot_sim", sim=240 if q else 4000, MaxBlocks=3, MaxHists=5, Sizes="1..6", Values="{0, 0, 1, 7, 100}")
