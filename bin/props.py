"""What each property's check runs."""
from engine import api, family, model, tags

ASSUME = [
    "commands are carried out by a simulated toolchain linked in place of tiny-process-library; "
    "file contents and times, exit status, crashes and schedules are the simulator's",
    "a user edit gives a file a modification time it did not have before",
]

CORE = "mixed tiny gcc rich conly net paths twotc tmpl msvc genmingw gens"
FAULTY = "mixed gcc"


def C01(ctx):
    w = tags("fresh")
    family(ctx, CORE, "ShSweep", w)
    family(ctx, "mixed rich gcc net", "ShTwo", w, sched=True, sim=(320, 24000))
    family(ctx, "big", "ShEditOne", w, quick=20, sched=True)
    family(ctx, "many", "ShSweep", w)
    if not ctx.quick:
        family(ctx, "mixed tiny conly tmpl gens", "ShTwo", w, thorough=30000)
        family(ctx, "mingw gengcc genmsvc clang own switched", "ShSweep", w)
    model(ctx, "PB", "None", moves="Pick")
    model(ctx, "PA", "None", moves="Pick", runs=3, nmoves=2, tier="thorough")
    model(ctx, "PB", "None", moves="All", runs=3, nmoves=2, tier="thorough")
    for p, f in (("PA", "FType"), ("PA", "FPchGone"), ("PA", "FPchLang"), ("PA", "FArchive")):
        model(ctx, p, "None", moves="Pick", runs=2, nmoves=2, flaws=f, tier="thorough")


def C02(ctx):
    w = tags("minimal", "twice")
    family(ctx, CORE, "ShSweep", w, sched=True)
    family(ctx, "many", "ShSweep", w, sched=True)
    family(ctx, "wide", "ShEdit", w, quick=120, sched=True)
    family(ctx, "mixed rich gcc net", "ShTwo", w, sched=True, sim=(200, 24000))
    if not ctx.quick:
        family(ctx, "mixed tiny conly tmpl gens", "ShTwo", w, thorough=30000, sched=True)
    model(ctx, "PA", "None", moves="Edits")
    model(ctx, "PA", "None", moves="Pick", runs=3, nmoves=2, tier="thorough")
    model(ctx, "PB", "None", moves="Pick", runs=2, nmoves=2, flaws="FAlways", tier="thorough")


def C03(ctx):
    w = tags("fresh", "minimal")
    family(ctx, FAULTY, "ShFail", w, quick=700)
    family(ctx, FAULTY, "ShNoSpace", w, quick=150)
    family(ctx, FAULTY, "ShMissing", w, quick=200)
    family(ctx, "tmpl", "ShNoSpace", w, quick=60)
    family(ctx, "wide many", "ShFail", w, sim=(60, 6000))
    if not ctx.quick:
        family(ctx, "net rich conly gens msvc twotc", "ShFail", w, thorough=9000)
        family(ctx, "net paths gens tmpl", "ShMissing", w, thorough=6000)
    model(ctx, "PB", "Fail")
    model(ctx, "PB", "Fail", moves="Pick", runs=3, nmoves=2, nfaults=2, tier="thorough")
    model(ctx, "PA", "Fail", moves="Pick", runs=3, nmoves=2, tier="thorough")
    for f in ("FStoreAll", "FAllSources"):
        model(ctx, "PB", "Fail", flaws=f, tier="thorough")


def C04(ctx):
    w = tags("fresh", "exit", "term")
    family(ctx, FAULTY, "ShCrash", w, quick=600)
    family(ctx, FAULTY, "ShTorn", w, quick=350)
    family(ctx, "tmpl", "ShTorn", w, quick=80)
    family(ctx, "wide many", "ShCrash", w, sim=(60, 6000))
    if not ctx.quick:
        family(ctx, "net rich conly gens msvc twotc", "ShCrash", w, thorough=9000)
        family(ctx, "net gens rich", "ShTorn", w, thorough=6000)
    model(ctx, "PB", "Crash")
    model(ctx, "PB", "Crash", moves="Pick", runs=3, nmoves=2, tier="thorough")
    model(ctx, "PA", "Crash", moves="Edits", runs=3, nmoves=2, nfaults=2, tier="thorough")
    model(ctx, "PB", "Crash", runs=3, nmoves=2, flaws="FKeep", tier="thorough")


def C05(ctx):
    w = tags("contain", "exit", "term")
    family(ctx, "mixed gcc net", "ShFail", w, quick=800, sched=True)
    family(ctx, FAULTY, "ShMissing", w, quick=200, sched=True)
    family(ctx, FAULTY, "ShNoSpace", w, quick=150, sched=True)
    family(ctx, "tested", "ShTFail", w, quick=60, sched=True)
    family(ctx, "wide many", "ShFail", w, sched=True, sim=(80, 6000))
    if not ctx.quick:
        family(ctx, "gens tmpl wide msvc", "ShFail", w, thorough=9000, sched=True)
    model(ctx, "PA", "Fail")
    model(ctx, "PA", "Fail", moves="Pick", runs=3, nmoves=2, nfaults=2, tier="thorough")
    model(ctx, "PA", "Fail", flaws="FNoStop", tier="thorough")


def C06(ctx):
    w = tags("order", "phase")
    family(ctx, "net", "ShHold", w, quick=420, sched=True)
    family(ctx, "mixed", "ShHold", w, quick=300, sched=True)
    family(ctx, "gens", "ShHold", w, quick=80, sched=True)
    family(ctx, "fan", "ShHoldEdit", w, quick=200, sched=True)
    family(ctx, "many", "ShHold", w, sched=True, sim=(80, 6000))
    if not ctx.quick:
        family(ctx, "rich gcc conly tested msvc tmpl", "ShHold", w, thorough=6000, sched=True)
    model(ctx, "PA", "None")
    model(ctx, "PA", "None", flaws="FNoEdges", tier="thorough")


def C07(ctx):
    api(ctx, "ApiReg", dict(Nodes="TwoNodes", Twins="OneTwin", MaxDeps=1, Early="TRUE", Late=0))
    api(ctx, "ApiReg", dict(Nodes="ThreeNodes", Twins="NoTwins", MaxDeps=3, Early="FALSE", Late=0), thorough=20000)
    api(ctx, "ApiReg", dict(Nodes="ThreeNodes", Twins="NoTwins", MaxDeps=2, Early="TRUE", Late=0), thorough=20000)
    api(ctx, "ApiReg", dict(Nodes="SixNodes", Twins="TwoTwins", MaxDeps=9, Early="TRUE", Late=3), sim=(24, 300), quick=1200, thorough=20000, depth=40)
    api(ctx, "ApiReg", dict(Nodes="SixNodes", Twins="NoTwins", MaxDeps=9, Early="FALSE", Late=5), sim=(24, 300), quick=1200, thorough=20000, depth=40)
    api(ctx, "ApiReg", dict(Nodes="SixNodes", Twins="NoTwins", MaxDeps=15, Early="FALSE", Late=9), sim=(24, 300), quick=1200, thorough=20000, depth=40)
    api(ctx, "ApiReg", dict(Nodes="FourNodes", Twins="TwoTwins", MaxDeps=3, Early="FALSE", Late=0), tier="thorough", thorough=60000)


GEN = ("gen", "gcmd")


def C08(ctx):
    w = tags("fresh", "minimal", "twice", "command", kinds=GEN)
    family(ctx, "gens mixed net", "ShSweep", w)
    family(ctx, "gens", "ShTwo", w, quick=450, sched=True)
    family(ctx, "wide", "ShEdit", w, quick=60, sched=True)
    model(ctx, "PC", "None", moves="Pick")
    model(ctx, "PC", "None", moves="Pick", runs=3, nmoves=2, tier="thorough")


def C09(ctx):
    w = tags("fresh", "minimal", "contain", kinds=GEN + ("tmpl",))
    family(ctx, "gens", "ShFail", w, quick=450, sched=True)
    family(ctx, "gens", "ShCrash", w, quick=250)
    family(ctx, "gens", "ShTorn", w, quick=150)
    family(ctx, "gens", "ShNoSpace", w, quick=60)
    family(ctx, "gens", "ShMissing", w, quick=100)
    model(ctx, "PC", "Fail")
    model(ctx, "PC", "Crash")
    model(ctx, "PC", "AllFaults", moves="Pick", runs=3, nmoves=2, nfaults=2, tier="thorough")
    model(ctx, "PC", "Fail", runs=3, nmoves=2, moves="Pick", flaws="FIdFailed", tier="thorough")
    model(ctx, "PC", "Fail", runs=3, nmoves=2, moves="Pick", flaws="FIdStop", tier="thorough")


def C10(ctx):
    w = tags("fresh", "minimal", kinds=("tmpl",))

    def v(b):
        return w(b) or b[0] in ("exit", "term")
    family(ctx, "tmpl gens", "ShSweep", v)
    family(ctx, "tmpl", "ShTwo", v, quick=300)
    family(ctx, "tmpl", "ShNoSpace", v, quick=80)
    family(ctx, "tmpl", "ShTorn", v, quick=120)
    family(ctx, "tmpl", "ShMissing", v, quick=100)


def C11(ctx):
    w = tags("command")
    family(ctx, "rich many paths twotc msvc mingw gengcc genmsvc genmingw clang own", "ShSweep", w)
    family(ctx, "big", "ShEditOne", w, quick=4)
    if not ctx.quick:
        family(ctx, CORE, "ShSweep", w)
        family(ctx, "msvc gengcc genmingw rich", "ShTwo", w, sim=(0, 12000))


def C12(ctx):
    api(ctx, "ApiObj", dict(Given="AllGiven", Places="AllPlaces", MaxSrc=2, MinSrc=1))
    api(ctx, "ApiObj", dict(Given="Many", Places="AllPlaces", MaxSrc=16, MinSrc=7), sim=(30, 3000), depth=20)
    api(ctx, "ApiObj", dict(Given="AllGiven", Places="AllPlaces", MaxSrc=3, MinSrc=1), tier="thorough", thorough=120000)


def C13(ctx):
    w = tags("fresh", "exit", "term")
    family(ctx, "mixed gens tmpl conly", "ShCorruptOne", w)
    family(ctx, "tiny", "ShCorrupt", w, quick=300)
    family(ctx, "big", "ShCorruptOne", w, quick=40)
    if not ctx.quick:
        family(ctx, "mixed gens tmpl", "ShCorrupt", w, thorough=12000)


def C14(ctx):
    api(ctx, "ApiInfo", dict(Fills="FewFills", Configs="Cfgs", QAt="Ats", MaxOps=1, Late=0), quick=3600)
    api(ctx, "ApiInfo", dict(Fills="AllFills", Configs="Cfgs", QAt="Ats", MaxOps=5, Late=4), sim=(30, 600), quick=900, thorough=20000)


def C15(ctx):
    api(ctx, "ApiStore", dict(Ids="Two", Types="Types2", Where="Both", MaxLen=3, Late=0), view=False)
    api(ctx, "ApiStore", dict(Ids="Three", Types="Types3", Where="Both", MaxLen=4, Late=0), quick=6000)
    api(ctx, "ApiStore", dict(Ids="Hundred", Types="Types3", Where="Both", MaxLen=0, Late=150), sim=(10, 400), depth=160)
    api(ctx, "ApiStore", dict(Ids="Three", Types="Types3", Where="Both", MaxLen=6, Late=0), tier="thorough", thorough=120000)


def C16(ctx):
    w = tags("select", "exit", "test", "phase", "fresh")
    family(ctx, "switched", "ShPlain", w)
    family(ctx, "switched", "ShFail", w, quick=150)


def C17(ctx):
    api(ctx, "ApiFind", dict(Sets="AllSets", DirKinds="AllKinds", Searches="FewSearches", Ids="GccId"), quick=2500)
    api(ctx, "ApiFind", dict(Sets="AllSets", DirKinds="FewKinds", Searches="AllSearches", Ids="AllIds"), quick=3500)
    api(ctx, "ApiFind", dict(Sets="AllSets", DirKinds="AllKinds", Searches="AllSearches", Ids="AllIds"), tier="thorough", thorough=150000)


def C18(ctx):
    w = tags("test", "exit", "term")

    def v(b):
        return w(b) or (b[0] in ("contain", "command", "twice") and b[1][0] in ("test", "post"))
    family(ctx, "tested", "ShTFail", v, sched=True)
    family(ctx, "tested", "ShFail", v, quick=350, sched=True)
    family(ctx, "tested paths twotc", "ShSweep", v, sched=True)


def C19(ctx):
    w = tags("compdb")
    family(ctx, "paths msvc mingw gengcc genmsvc clang own", "ShSweep", w)


def C20(ctx):
    w = tags("fresh", "exit", "term")
    family(ctx, FAULTY, "ShRace", w, quick=700)
    family(ctx, "gens", "ShRace", w, quick=200)
    if not ctx.quick:
        family(ctx, "net rich conly msvc", "ShRace", w, thorough=9000)
    model(ctx, "PB", "RaceOnly")
    model(ctx, "PB", "RaceOnly", runs=3, nmoves=2, tier="thorough")
    model(ctx, "PA", "RaceOnly", runs=3, nmoves=2, tier="thorough")
    model(ctx, "PC", "RaceOnly", runs=3, nmoves=2, moves="Pick", tier="thorough")
    model(ctx, "PB", "RaceOnly", runs=3, nmoves=2, flaws="FHash", tier="thorough")
    model(ctx, "PC", "RaceOnly", runs=3, nmoves=2, moves="Pick", flaws="FIdLate", tier="thorough")


def C21(ctx):
    api(ctx, "ApiCmd", dict(Part="PExpand", MaxLen=5), quick=6000)
    api(ctx, "ApiCmd", dict(Part="PValues", MaxLen=9))
    api(ctx, "ApiCmd", dict(Part="PSplit", MaxLen=5))
    api(ctx, "ApiCmd", dict(Part="PTrim", MaxLen=5))
    api(ctx, "ApiCmd", dict(Part="PFile", MaxLen=5), quick=2000)
    api(ctx, "ApiCmd", dict(Part="PExec", MaxLen=3))


def C22(ctx):
    api(ctx, "ApiArgs", dict(MaxSet=1, Inits="AllInits", Pads="SomePads", Late=0))
    api(ctx, "ApiArgs", dict(MaxSet=2, Inits="TwoInits", Pads="NoPad", Late=0), quick=5000)
    api(ctx, "ApiArgs", dict(MaxSet=5, Inits="AllInits", Pads="SomePads", Late=2), sim=(700, 30000))
    api(ctx, "ApiArgs", dict(MaxSet=14, Inits="AllInits", Pads="SomePads", Late=9), sim=(900, 30000))


def C23(ctx):
    ctx.driver_name = "driver_exe"
    c = lambda b, r, m, f, l, e="FALSE": dict(Bases=b, MaxRuns=r, MaxMoves=m, MaxFaults=f, LastFault=l, EditAll=e)
    api(ctx, "ApiExe", c("All", 1, 1, 0, "FALSE"))
    api(ctx, "ApiExe", c("All", 2, 1, 0, "FALSE"))
    api(ctx, "ApiExe", c("BScript", 2, 1, 0, "FALSE", "TRUE"))
    for b in ("BCli", "BScript", "BSpaces"):
        api(ctx, "ApiExe", c(b, 2, 1, 1, "TRUE"), quick=250)
    api(ctx, "ApiExe", c("Quick", 5, 2, 2, "FALSE"), sim=(45, 3000), depth=30)
    if not ctx.quick:
        api(ctx, "ApiExe", c("Quick", 2, 1, 1, "TRUE"))
        api(ctx, "ApiExe", c("Quick", 3, 1, 0, "FALSE"), thorough=20000)


CHECKS = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}
