"""What is run for each property, per tier."""
from runner import ALL, FAST, T4, T8, js, spread

# lengths around which algorithms, fields and key widths change
AWKWARD = "127,128,129,191,192,193,255,256,257,383,384,511,512,513,625,640,768,1009,1023,1024,1025,1031,1536,2047,2048,2049,2187,3125,4093,4096,4097"
# lengths at which inputs of every class are tried
RICH = "1-300,320,360,384,400,500,511,512,513,600,720,1000,1024,1025,2048"
RICHER = "1-1100,1536,2047,2048,2049,4095,4096,4097,5000"
SLOWRICH = "1-200,255,256,257,384,511,512"
GIANT = "196608,262144,524288,1048576,1000003"
HUGE = "8192,16384,32768,65536,131072,30030,46080,65537,44100"


def LONG(c, more, most=150000):
    """lengths for the fast transforms only"""
    fixed = [n for n in (4095, 4096, 4097, 5001, 6000, 8190, 8192, 9000, 10007, 16383, 16384, 30030, 32768, 65536, 65537, 131072) if n <= most]
    return js(fixed + spread(c.rng, 4100, most, more))


def defs(c):
    """the reference the error sweeps use is the specification's"""
    return c.engine("rdf", "release", "defs", lens="1-12,17,20")


def algorithms(c):
    """the library's algorithms, stage by stage, against the definitions"""
    c.model("Algorithms.tla", "Algorithms.cfg" if c.quick else "AlgorithmsDeep.cfg")
    if not c.quick:
        c.model("Algorithms.tla", "AlgorithmsLive.cfg")
    c.stages(c.engine("rdx", "plain", "stages", lens="1-24,32" if c.quick else "1-48,64"))


def algebra(c):
    """the laws that tie the definitions to each other"""
    c.model("Algebra.tla", "Algebra.cfg" if c.quick else "AlgebraDeep.cfg")


def transforms(c, ops, what, slow):
    """C01, C02: exact values, impulse phases, error sweeps"""
    r = c.rng
    f = [defs(c)]
    q = c.quick
    rx, rf = ("rdx", "plain"), ("rdf", "release")
    f.append(c.engine(*rx, "exact", what=what, ops=ops, cls="0", lens="1-72" if q else "1-260", t="gf"))
    f.append(c.engine(*rx, "exact", what=what, ops=ops, cls="1-4", lens="1-20" if q else "1-90", t="gf"))
    if q:
        f.append(c.engine(*rx, "exact", what=what, ops=ops, cls="0", lens=js(spread(r, 73, 190, 14)), t="gf"))
    f.append(c.engine(*rf, "phase", ops=ops, full="1-26" if q else "1-80", some="27-150," + AWKWARD if q else "81-1200," + AWKWARD))
    f.append(c.engine(*rf, "acc", what="planned", ops=ops, per=1 if q else 3, f32=1,
                      lens=("1-800" if slow else "1-2000") if q else ("1-2500" if slow else "1-8000")))
    f.append(c.engine(*rx, "exact", what="planned", ops=ops, cls="5-17", lens="1-18" if q else "1-66", t="gf"))
    f.append(c.engine(*rf, "acc", what="planned", ops=ops, per=0, f32=1, lens="", each=1 if q else 8,
                      rich=(SLOWRICH if slow else RICH) if q else RICHER))
    f.append(c.engine(*rf, "acc", what="planned", ops=ops, per=2, f32=0,
                      lens=AWKWARD + "," + js(spread(r, 801 if slow else 2001, 3000 if slow else 9000, (60 if slow else 300) if q else 1500))))
    if not slow:
        f.append(c.engine(*rf, "acc", what="planned", ops=ops, per=1, f32=0, lens=HUGE + "," + GIANT + "," + js(spread(r, 9000, 200000, 30 if q else 400))))
    return f


def c01(c):
    c.calls(transforms(c, T4, "planned", False))


def c02(c):
    f = transforms(c, T8, "planned", True)
    # beyond 2^16: products of two indices leave 32 bits
    big = c.rng.randrange(65537, 66500)
    for op in T8.split(","):
        f.append(c.engine("rdf", "release", "acc", what="planned", ops=op, per=1, f32=0, lens=f"{big}"))
    f.append(c.engine("rdf", "release", "acc", what="planned", ops="dst6,dst7", per=1, f32=0,
                      lens=HUGE + "," + js(spread(c.rng, 6000, 200000, 10))))
    c.calls(f)


def c03(c):
    algorithms(c)
    q = c.quick
    rx, rf = ("rdx", "plain"), ("rdf", "release")
    f = [defs(c)]
    f.append(c.engine(*rx, "exact", what="direct,inplace", ops=ALL, cls="0", lens="1-20,24,32" if q else "1-70", t="gf"))
    f.append(c.engine(*rx, "exact", what="direct", ops=ALL, cls="1-4", lens="1-10,12,16" if q else "1-36,64", t="gf"))
    f.append(c.engine(*rx, "exact", what="mdct,imdct", ops="", cls="0-1", lens="1-14" if q else "1-40", t="gf"))
    f.append(c.engine(*rf, "phase", ops=ALL, direct=1, full="1-12,16" if q else "1-34,64", some="24,32,64" if q else "35-130"))
    f.append(c.engine(*rf, "acc", what="direct", ops=ALL, per=1, lens="1-300,360,384,480,511,512,700,768,1000,1023,1024,2048" if q else "1-900,1024,1536,2048,4096"))
    f.append(c.engine(*rf, "acc", what="direct", ops=ALL, per=0, f32=1, lens="", each=1 if q else 4, rich="1-70,80,96,100,120,127,128,129,192,256,257" if q else "1-200,256,384,512,1024"))
    f.append(c.engine(*rx, "exact", what="direct,inplace", ops=ALL, cls="5-17", lens="2-6,8,9,16" if q else "1-36,64", t="gf"))
    for w in ("mdct-direct", "imdct-direct"):
        f.append(c.engine(*rf, "acc", what=w, ops="", per=1, lens="2-200,256,258,300,384,500,512,514,600,768,1000,1024" if q else "2-700,768,1000,1024,2048",
                          each=1 if q else 4, rich="2-70,96,98,128,192,256,258" if q else "2-200,256,512"))
    # beyond 2^16, where products of two indices leave 32 bits
    big = c.rng.randrange(65537, 66500)
    for op in T4.split(","):
        f.append(c.engine(*rf, "acc", what="direct", ops=op, per=1, f32=0, lens=f"{big},65536" if op == "dct2" else f"{big}"))
    for w in ("mdct-direct", "imdct-direct"):
        f.append(c.engine(*rf, "acc", what=w, ops="", per=1, f32=0, lens="21846,30030" if q else "21846,30030,65540"))
    c.calls(f)


def mdct(c, what, seedlen):
    q = c.quick
    rx, rf = ("rdx", "plain"), ("rdf", "release")
    f = [defs(c)]
    f.append(c.engine(*rx, "exact", what=what, ops="", cls="0-1", lens="2-16" if q else "2-48", t="gf"))
    f.append(c.engine(*rx, "exact", what=what + "-planned", ops="", cls="0-4", lens="2-40" if q else "2-150", t="gf"))
    f.append(c.engine(*rx, "exact", what=what + "-planned", ops="", cls="0-1", lens="42-90" if q else "150-260", t="gf"))
    f.append(c.engine(*rf, "phase", ops="", mdct=1, full="2-24" if q else "2-80", some="26-140" if q else "81-600"))
    f.append(c.engine(*rf, "acc", what=what, ops="", per=2 if q else 6, lens="2-600" if q else "2-2500",
                      each=1 if q else 6, rich="2-300,384,400,512,1000,1024" if q else "2-800,1000,1024,2048"))
    f.append(c.engine(*rx, "exact", what=what + "-planned", ops="", cls="5-17", lens="2-16" if q else "2-66", t="gf"))
    f.append(c.engine(*rf, "acc", what=what, ops="", per=2, naivemax=0,
                      lens=js(2 * x for x in spread(c.rng, 300, 5000, 200 if q else 1500)) + ",8192,16384,32768,65536,30030"))
    f.append(c.engine(*rf, "acc", what=what + "-direct", ops="", per=1, each=1, rich="2-50,64,66,96,128,258" if q else "2-100,128,256", lens="2-200,256,258,300,384" if q else "2-300,400,500,512,514,768"))
    return f


def c04(c):
    c.calls(mdct(c, "mdct", 1))


def c05(c):
    c.calls(mdct(c, "imdct", 2))


def c06(c):
    algebra(c)
    q = c.quick
    rx, rf = ("rdx", "plain"), ("rdf", "release")
    f = [defs(c)]
    f.append(c.engine(*rx, "exact", what="tdac", ops="", cls="0-2", lens="2-12" if q else "2-40", t="gf"))
    f.append(c.engine(*rx, "exact", what="tdac-planned", ops="", cls="0-4", lens="2-48" if q else "2-120", t="gf"))
    f.append(c.engine(*rf, "acc", what="tdac", ops="", per=2 if q else 4, lens="2-500" if q else "2-1500",
                      each=1 if q else 4, rich="2-160,192,256,258,400,512" if q else "2-400,512,1000,1024"))
    f.append(c.engine(*rf, "acc", what="tdac", ops="", per=1, naivemax=0,
                      lens=js(2 * x for x in spread(c.rng, 150, 4000, 120 if q else 800)) + ",8192,16384,32768,65536"))
    c.calls(f)


def c07(c):
    q = c.quick
    lens = js(range(2, 601 if q else 3001, 2))
    lens += "," + js(2 * x for x in spread(c.rng, 150 if q else 1500, 4000, 40 if q else 200)) + ",512,1024,1152,1920,2048,4096"
    # of the large ones a few cells are compared by phase, all of them by value
    lens += "," + js(2 * x for x in spread(c.rng, 2300, 120000, 30 if q else 400)) + ",8192,8194,16384,32768,32770,65536,65538,131072,262144"
    c.calls([c.engine("rdf", "release", "windows", lens=lens)])


def c08(c):
    algorithms(c)
    q = c.quick
    f = [defs(c)]
    f.append(c.engine("rdf", "release", "scratch", planned="1-300," + AWKWARD if q else "1-1500," + AWKWARD,
                      direct="1-40,48,64,96,128,256" if q else "1-200,256,512",
                      small=40 if q else 130, more=3 if q else 8))
    f.append(c.engine("rdf", "release", "scratch", ops=FAST, planned=LONG(c, 8 if q else 60), direct="", more=2 if q else 6))
    c.calls(f)


def c09(c):
    q = c.quick
    f = []
    for prof in ("plain", "checked"):
        f.append(c.engine("rdx", prof, "reject", planned="1-24,31,32,45,48,64,96,99,100,127,128,255,256,257,360,512,1000,1024" if q else "1-300,384,400,511,512,513,1000,1024,2048", direct="1-12,16,17,32,33,64" if q else "1-48,64,100,128"))
    c.calls(f)


def c10(c):
    q = c.quick
    f = []
    for prof in ("plain", "checked"):
        f.append(c.engine("rdx", prof, "ctor", lens="1-80,96,100,127,128,129,255,256,257,511,512,513,1000,1023,1024,1025,4096" if q else "1-400,511,512,513,1000,1023,1024,1025,4095,4096,4097,16384", plan="1-200,255,256,257,360,511,512,513,1000,1024,2048" if q else "1-1200,2047,2048,2049,4096"))
    c.calls(f)


def histories(c, focus):
    q = c.quick
    c.model("PlannerImpl.tla", "PlannerImpl.cfg")
    c.model("PlannerSweep.tla", "PlannerSweep.cfg", workers=2)
    walk = c.hists("GenWalk.cfg", 60 if q else 1500, 70)
    every = c.hists("GenEvery.cfg", least=20000)
    long = c.hists("GenLong.cfg", 10 if q else 200, 210)
    wide = c.hists("GenWide.cfg", 10 if q else 60, 130)
    # many lengths of one kind from one planner, then all of them again
    sweep = c.hists("GenSweep.cfg" if q else "GenSweepDeep.cfg", least=17)
    huge = c.hists("GenSweepHuge.cfg", least=17)
    g = [c.engine("rdf", "release", "session", hist=huge, t="f64")]
    f = [c.engine("rdx", "plain", "session", hist=walk, p=20161),
         c.engine("rdx", "plain", "session", hist=every, p=20161),
         c.engine("rdf", "release", "session", hist=long, t="f64"),
         c.engine("rdf", "release", "session", hist=sweep, t="f64"),
         c.engine("rdf", "release", "session", hist=wide, t="f64"),
         c.engine("rdf", "release", "session", hist=wide, t="f32")]
    c.session(f, focus)
    c.session(g, focus, long=True)


def c11(c):
    histories(c, "C11")


def c12(c):
    histories(c, "C12")


def c20(c):
    q = c.quick
    c.model("Memory.tla", "Memory.cfg")
    c.model("PlannerMemory.tla", "PlannerMemory.cfg" if q else "PlannerMemoryDeep.cfg")
    c.model("PlannerSweep.tla", "PlannerSweep.cfg", workers=2)
    walk = c.hists("GenWalk.cfg", 60 if q else 1500, 70)
    long = c.hists("GenLong.cfg", 20 if q else 200, 210)
    wide = c.hists("GenWide.cfg", 10 if q else 100, 130)
    sweep = c.hists("GenSweep.cfg" if q else "GenSweepDeep.cfg", least=17)
    lens = "1-260" if q else "1-2000"
    few = "1-70,96,99,100,101,127,128,131,255,256,257,261,360,511,512,513,522,1000,1024,1055,1439" if q else "1-700,1000,1024,1055,1439,2047,2048,2049,2609,4096"
    ls = f"{lens},1055,1439,2609," + LONG(c, 12 if q else 100)
    c.memory([c.engine("rdf", "release", "heap", hist=sweep, t="f64")], long=True)
    c.memory([c.engine("rdf", "release", "heap", hist=walk, t="f32"),
              c.engine("rdf", "release", "heap", lens=ls, t="f32")])
    # the instrumented number type is as large as f64
    c.memory([c.engine("rdf", "release", "heap", hist=h, t="f64") for h in (walk, long, wide, sweep)]
             + [c.engine("rdf", "release", "heap", lens=ls, t="f64"),
                c.engine("rdx", "plain", "heap", lens=few),
                c.engine("rdx", "plain", "heap", hist=walk)])


def c13(c):
    q = c.quick
    c.model("Concurrent.tla", "ConcBad.cfg", workers=1, refuted="Undisturbed")
    for r in ("address", "last", "first", "input"):
        c.model("Lifecycle.tla", f"LifeBad_{r}.cfg", workers=1, refuted="AsAlone")
    lives = c.lives("LifeEvery.cfg" if q else "LifeEveryDeep.cfg", least=500)
    longer = c.lives("LifeWalk.cfg", 100 if q else 2000, 30)
    every = c.schedules("ConcEvery.cfg", least=100)
    walk = c.schedules("ConcWalk.cfg", 100 if q else 3000, 60)
    # a crowd: most of 64 calls are in progress at some moment
    crowd = c.schedules("ConcCrowd.cfg", 12 if q else 200, 300)
    f = []
    f.append(c.engine("rdx", "plain", "sched", plans=crowd, per=2 if q else 12, planned="2-24,32,48,64,100,128" if q else "2-130,256", direct="2-9,16" if q else "2-24,32"))
    f.append(c.engine("rdx", "plain", "sched", plans=every, per=20 if q else 114, planned="2-40,45,48,63,64,65,96,100,128" if q else "2-200,256", direct="2-17,32" if q else "2-34,64"))
    f.append(c.engine("rdx", "plain", "sched", plans=walk, per=10 if q else 150, planned="2-40,45,48,63,64,65,96,100,128" if q else "2-200,256", direct="2-17,32" if q else "2-34,64"))
    f.append(c.engine("rdf", "release", "life", plans=lives, per=120 if q else 2000, lens="1-40,48,63,64,65,100,128,256" if q else "1-130,256,360,512"))
    f.append(c.engine("rdf", "release", "life", plans=longer, per=40 if q else 1000, lens="1-40,48,63,64,65,100,128,256" if q else "1-130,256,360,512"))
    f.append(c.engine("rdf", "release", "memo", mode="sequence", planned="1-100,127,128,129,255,256,257,360,512,1000,1024,2048" if q else "1-400", direct="1-24,32,33,48,64,128" if q else "1-66,128"))
    f.append(c.engine("rdf", "release", "memo", mode="sequence", planned="1-4,8,16" if q else "1-16,32", direct="", max=1_100_000 if q else 5_000_000, seqwork=300_000_000 if q else 3_000_000_000))
    f.append(c.engine("rdf", "release", "memo", mode="threads", callers=40, planned="1-9,16,25,32,48,64,100,128" if q else "1-100,128,256", direct="8,16,32" if q else "8-34"))
    f.append(c.engine("rdf", "release", "memo", mode="sequence", ops=FAST, planned=LONG(c, 8 if q else 60), direct=""))
    f.append(c.engine("rdf", "release", "memo", mode="threads", ops=FAST, planned=LONG(c, 2 if q else 30), direct=""))
    f.append(c.engine("rdf", "release", "memo", mode="threads", planned="1-100,127,128,129,255,256,257,360,512,1000,1024,2048" if q else "1-400", direct="1-24,32,33,48,64,128" if q else "1-66,128"))
    c.calls(f)


def c14(c):
    algebra(c)
    q = c.quick
    f = []
    f.append(c.engine("rdx", "plain", "exact", what="round", ops=ALL, lens="1-100" if q else "1-400", t="gf"))
    f.append(c.engine("rdf", "release", "acc", what="inverse", ops=ALL, per=2, lens="1-700" if q else "1-2500",
                      each=1 if q else 6, rich=SLOWRICH if q else RICHER))
    f.append(c.engine("rdf", "release", "acc", what="inverse", ops=FAST, per=1, lens="701-2000" if q else "2501-5000", each=1, rich="300,360,384,400,500,513,600,720,1000,1024,1025,2048"))
    f.append(c.engine("rdf", "release", "acc", what="inverse", ops=FAST, per=1, lens=HUGE + "," + AWKWARD + "," + js(spread(c.rng, 2000, 100000, 60 if q else 500))))
    c.calls(f)


def c15(c):
    q = c.quick
    f = [defs(c)]
    rf = ("rdf", "release")
    f.append(c.engine(*rf, "acc", what="planned", ops=ALL, per=2, tight=4, lens="1-700" if q else "1-3000",
                      each=1 if q else 6, rich=SLOWRICH if q else RICHER))
    f.append(c.engine(*rf, "acc", what="planned", ops=ALL, per=1, tight=2, f32=0, lens=AWKWARD + "," + js(spread(c.rng, 700, 5000, 40 if q else 600))))
    f.append(c.engine(*rf, "acc", what="planned", ops=FAST, per=1, tight=2, lens=HUGE + "," + js(spread(c.rng, 5000, 200000, 10 if q else 200))))
    f.append(c.engine(*rf, "acc", what="planned", ops=FAST, per=0, tight=2, lens="",
                      rich="360,400,1000,1024,1025,4096,4100" if q else "1024,4096,4100,8192,16384,32768,65536,10007,46080"))
    f.append(c.engine(*rf, "acc", what="planned", ops=FAST, per=4 if q else 12, tight=2, f32=0, lens="16384,32768,65536"))
    for w in ("mdct", "imdct", "tdac"):
        f.append(c.engine(*rf, "acc", what=w, ops="", per=2, tight=2, lens="2-400" if q else "2-1500", rich="2-40,64,128,256" if q else "2-200,256,512,1024"))
        f.append(c.engine(*rf, "acc", what=w, ops="", per=1, tight=2, naivemax=0,
                          lens=js(2 * x for x in spread(c.rng, 150, 20000, 30 if q else 300))))
    c.calls(f, bound="tight")


def c16(c):
    q = c.quick
    c.model("PlannerSweep.tla", "PlannerSweep.cfg", workers=2)
    lens = "1-600,719,510,511,512,521,719,720,947,1000,1009,1024,1439,2047,2048,3999,4001,4096,8192,16384,32768,65536,65537,9973,10000,12288,20000,30030" if q else "1-3000,4001,4093,4096,8191,8192,10007,16384,30030,65536,65537"
    f = [c.engine("rdx", "plain", "cost", ops=FAST, mdct=1, lens=lens + "," + js(spread(c.rng, 400, 6000 if q else 60000, 40 if q else 200)))]
    c.calls(f)


def c17(c):
    q = c.quick
    c.calls([c.engine("rdf", "release", "alloc", planned="1-300," + AWKWARD if q else "1-1100," + AWKWARD, direct="1-40,48,64,96,128,256" if q else "1-200,256,512"),
             c.engine("rdf", "release", "alloc", callers=6, planned="1-50,63,64,65,96,100,128,200,256,360" if q else "1-300,512,1000", direct="1-17,24,32,64" if q else "1-70,128"),
             c.engine("rdf", "release", "alloc", ops=FAST, planned=LONG(c, 20 if q else 200), direct="")])


def c18(c):
    algorithms(c)
    q = c.quick
    f = []
    for prof, b in (("release", "rdf"), ("checked", "rdx")):
        long = LONG(c, 6 if q else 40, 140000 if prof == "release" else 8200 if q else 33000)
        for k in range(4):
            f.append(c.engine(b, prof, "mem", shard=k, of=4, ops=FAST, planned=long, direct=""))
            f.append(c.engine(b, prof, "mem", shard=k, of=4, planned="1-100,127,128,129,200,255,256,257,360,512,1000,1024,2048" if q else "1-500,512,1000,1024,2048,4096", direct="1-24,31,32,33,48,64,128" if q else "1-80,128,256"))
    c.calls(f)


def c19(c):
    q = c.quick
    f = []
    ex = lambda **k: f.append(c.engine("rdx", "plain", "exact", **k))
    # number types of 4, 24, 8, 2 and 16 bytes, three of them with a zero that is not all zero bits
    for t in ("gf", "wide", "eight", "two", "sixteen"):
        full = t in ("gf", "wide", "eight")
        ex(what="planned", ops=ALL, cls="0", lens=("1-100,128" if full else "1-70,96") if q else "1-250", t=t)
        ex(what="direct,inplace", ops=ALL, cls="0", lens=("1-24,32,48,64" if full else "1-17,32") if q else "1-70", t=t)
        ex(what="mdct,imdct,tdac", ops="", cls="0", lens=("2-30" if full else "2-20") if q else "2-40", t=t)
    for t in ("gf", "eight", "sixteen"):
        ex(what="planned", ops=ALL, cls="1-11", lens="1-24,30,32,33" if q else "1-66", t=t)
    ex(what="mdct-planned,imdct-planned", ops="", cls="1-11", lens="2-24,32" if q else "2-66", t="eight")
    ex(what="round", ops=ALL, cls="0", lens="1-60" if q else "1-250", t="wide")
    c.calls(f)


PLAN = {f"C{i:02d}": globals()[f"c{i:02d}"] for i in range(1, 21)}
