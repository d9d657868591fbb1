"""What each property's check runs: (configuration, harness entry, arguments) per tier."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = {"quick": 540.0, "thorough": 840.0}

TYPES = ["PointXYZ", "PointXYZI", "PointXYZL", "PointXYZRGB", "PointXYZRGBA", "PointXYZRGBNormal", "PointXYZINormal", "PointXYZRGBL",
         "PointXYZNormal", "MAll(8 fields, all datatypes)", "M2", "M1", "M3", "MD", "MLead", "DC(derive, repr C)", "DR(derive, repr Rust)"]
NF = [3, 4, 4, 4, 5, 7, 7, 5, 6, 8, 2, 1, 3, 2, 2, 5, 4]


PLAIN = ("h_rt", "h_written", "h_own", "h_ops", "h_opaque", "h_par", "h_ix", "h_value", "h_decode", "h_pdata", "h_ros", "h_derived", "h_layout", "h_cross",
         "h_constructors", "h_defaults", "h_ser", "h_uni_rt", "h_uni_written", "h_uni_own")


class Job:
    def __init__(self, cfg, entry, args=(), shards=1, covers=(), bounds="", time=600.0, cost=1.0, traces=12, query_ms=60000, plain=None, steps=0):
        self.cfg, self.entry, self.args, self.shards = cfg, entry, tuple(args), shards
        # values read from memory stay opaque to the simplifier: the solver finds out that they are equal
        self.plain = entry.startswith(PLAIN) and not entry.endswith("_upto") if plain is None else plain
        # (a loop that does not end; the clouds of 65536 points and more are executed point by point)
        self.steps = steps or (100_000_000 if cost < 20 else 2_000_000_000)
        self.covers, self.bounds, self.time, self.cost, self.traces, self.query_ms = tuple(covers), bounds, time, cost, traces, query_ms


ASSUMPTIONS = [
    "rustc's LLVM IR for the host target (x86_64, little endian) is the code that runs; std, core and alloc are the bitcode shipped with the toolchain",
    "the engine's semantics of LLVM IR (validated on every run by executing solver models of explored paths natively and comparing all observations)",
    "z3's verdicts",
    "allocations above 256 MiB fail and abort the process, smaller ones succeed",
    "rayon-core is replaced by a scheduler model that runs the two closures of every join on one thread, in either order, with any split the thread count allows",
]
OUTSIDE = {}
BOUNDS = {}
NOTE = {}
REG = {}


def add(prop, tier, *js):
    for t in (("quick", "thorough") if tier == "both" else (tier,)):
        REG.setdefault((prop, t), []).extend(js)


def bounds(prop, tier):
    return BOUNDS.get(prop, "")


def jobs_for(prop, tier):
    q = REG.get((prop, "quick"), [])
    if tier == "quick":
        return q
    # thorough includes everything quick does
    return q + [j for j in REG.get((prop, "thorough"), []) if j not in q]


def known_findings():
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known:"):
                # known: property=C00 entry=h_x args=1,2 what="substring" text
                head, text = l[6:].strip().split(" text=", 1)
                d = dict(x.split("=", 1) for x in head.split(" ", 3))
                out.append(dict(property=d["property"], entry=d["entry"], args=[int(x) for x in d["args"].split(",") if x],
                                what=d["what"].strip('"'), text=text))
    return out


# ---------------------------------------------------------------- C01, C02 round trips
RT = ["round trip"]
for ty in range(17):
    for n in (0, 1, 3):
        add("C01", "quick", Job("dev", "h_rt", (ty, 0, n), covers=RT, bounds="%s, %d points, all field bits symbolic" % (TYPES[ty], n)))
    add("C01", "quick", Job("relseq", "h_rt", (ty, 0, 2), covers=RT, bounds="%s, 2 points, no rayon" % TYPES[ty]))
    for n in (2, 5, 9):
        add("C01", "thorough", Job("rel", "h_rt", (ty, 0, n), covers=RT, bounds="%s, %d points" % (TYPES[ty], n)))
        add("C01", "thorough", Job("devseq", "h_rt", (ty, 0, n), covers=RT, bounds="%s, %d points, no rayon" % (TYPES[ty], n)))
    for mode in (1, 2, 3):
        for n in (0, 1, 2):
            add("C02", "quick", Job("dev", "h_rt", (ty, mode, n), covers=RT, bounds="%s, mode %d, %d points" % (TYPES[ty], mode, n)))
        add("C02", "quick", Job("rel", "h_rt", (ty, mode, 3), covers=RT, bounds="%s, mode %d, 3 points" % (TYPES[ty], mode)))
        for n in (3, 5, 8):
            add("C02", "thorough", Job("devseq", "h_rt", (ty, mode, n), covers=RT, bounds="%s, mode %d, %d points" % (TYPES[ty], mode, n)))
            add("C02", "thorough", Job("rel", "h_rt", (ty, mode, n), covers=RT, bounds="%s, mode %d, %d points" % (TYPES[ty], mode, n)))

# larger clouds: every size in a range; values are kept as terms, the whole cloud is one assertion
SMALL = [11, 10, 12, 13, 14]
WINDOWS = ((253, 260), (509, 515), (1021, 1028), (4093, 4099))
for ty in range(17):
    hi = 131 if NF[ty] < 5 else 67
    add("C01", "quick", Job("dev", "h_rt_upto", (ty, 0, 4, hi), covers=RT, cost=6))
    add("C01", "thorough", Job("rel", "h_rt_upto", (ty, 0, 4, 262), covers=RT, cost=60), Job("devseq", "h_rt_upto", (ty, 0, 4, 131), covers=RT, cost=10))
    for mode in (1, 2, 3):
        add("C02", "quick", Job("dev", "h_rt_upto", (ty, mode, 4, 67 if ty in SMALL else 35), covers=RT, cost=2))
        add("C02", "thorough", Job("rel", "h_rt_upto", (ty, mode, 4, 262), covers=RT, cost=50))
for lo, hi in WINDOWS:
    add("C01", "quick", Job("dev", "h_rt_upto", (11, 0, lo, hi), covers=RT, cost=2))
    add("C01", "thorough", *[Job("dev", "h_rt_upto", (ty, 0, lo, hi), covers=RT, cost=40) for ty in (0, 9, 10, 15)])
    for mode in (1, 2, 3):
        add("C02", "quick", Job("dev", "h_rt_upto", (11, mode, lo, hi), covers=RT, cost=2))
        add("C02", "thorough", *[Job("dev", "h_rt_upto", (ty, mode, lo, hi), covers=RT, cost=40) for ty in (0, 9, 10, 15)])
add("C01", "quick", Job("rel", "h_rt_upto", (11, 0, 65536, 65538), covers=RT, cost=40))
add("C02", "quick", *[Job("rel", "h_rt_upto", (11, mode, 65536, 65538), covers=RT, cost=40) for mode in (1, 2, 3)])

# ---------------------------------------------------------------- C03 written messages
WR = ["described"]
for ty in range(17):
    for mode, n in ((0, 0), (0, 2), (1, 0), (1, 2), (2, 1), (3, 1)):
        add("C03", "quick", Job("dev", "h_written", (ty, mode, n), covers=WR))
    add("C03", "quick", Job("relseq", "h_written", (ty, 1, 3), covers=WR), Job("relseq", "h_written", (ty, 0, 3), covers=WR))
    for mode in range(4):
        for n in (1, 3, 5, 8):
            add("C03", "thorough", Job("dev", "h_written", (ty, mode, n), covers=WR), Job("rel", "h_written", (ty, mode, n), covers=WR))
        add("C03", "thorough", Job("devseq", "h_written", (ty, mode, 3), covers=WR))
        add("C03", "thorough", Job("rel", "h_written_upto", (ty, mode, 4, 200), covers=WR, cost=30))
    for mode in (0, 1, 2):
        add("C03", "quick", Job("dev", "h_written_upto", (ty, mode, 4, 67 if ty in SMALL else 35), covers=WR, cost=2))
for mode in (0, 1):
    for lo, hi in WINDOWS:
        add("C03", "quick", Job("dev", "h_written_upto", (11, mode, lo, hi), covers=WR, cost=2))
    add("C03", "quick", Job("rel", "h_written_upto", (11, mode, 65536, 65537), covers=WR, cost=20))


def which(big, vec):
    """endian argument of h_read_*: bit 0 byte order, 2 bits: 0 iterator only, 1 vec only, 2 both"""
    return (1 if big else 0) | vec << 1


# ---------------------------------------------------------------- C04 reading by name
RD = ["read"]
RDI, RDV, RDB = ["read", "iterator"], ["read", "vec"], ["read", "iterator", "vec"]
add("C04", "quick",
    Job("dev", "h_read_m2", (0, 6, 18, 4), covers=RDB, cost=3), Job("dev", "h_read_m2", (1, 6, 33, 4), covers=RDB, cost=7),
    Job("dev", "h_read_m2", (2, 5, 17, 4), covers=RDB, cost=9), Job("dev", "h_read_m2", (1, 9, 34, 4), covers=RDB, cost=15),
    Job("dev", "h_read_m3", (0, 6, 33, 4), covers=RDB, cost=28), Job("dev", "h_read_md", (0, 12, 33, 4), covers=RDB, cost=8),
    Job("dev", "h_read_md", (1, 17, 33, 4), covers=RDB, cost=15), Job("dev", "h_read_xyz", (0, 14, 17, 4), covers=RDB, cost=30))
for ty in range(17):
    for kind in range(10):
        add("C04", "quick", Job("dev", "h_own", (ty, kind, 2, 0), covers=RDB))
        add("C04", "thorough", Job("rel", "h_own", (ty, kind, 3, 0), covers=RDB), Job("devseq", "h_own", (ty, kind, 2, 0), covers=RDB))
for ty in range(3):
    add("C04", "quick", Job("dev", "h_wide", (ty, 70000 if ty < 2 else 300, 1, 0), covers=RDB, cost=3))

# ---------------------------------------------------------------- C05 byte orders
add("C05", "quick",
    Job("dev", "h_read_m2", (0, 6, 18, 5), covers=RDB, cost=3), Job("dev", "h_read_m2", (1, 6, 33, 5), covers=RDB, cost=7),
    Job("dev", "h_read_m3", (0, 6, 33, 5), covers=RDB, cost=28), Job("dev", "h_read_md", (0, 12, 33, 5), covers=RDB, cost=8),
    Job("dev", "h_read_xyz", (0, 14, 17, 5), covers=RDB, cost=30))
for ty in range(17):
    for kind in range(10):
        add("C05", "quick", Job("dev", "h_own", (ty, kind, 2, 1), covers=RDB))
        add("C05", "thorough", Job("rel", "h_own", (ty, kind, 3, 1), covers=RDB), Job("devseq", "h_own", (ty, kind, 2, 1), covers=RDB))
for ty in range(3):
    add("C05", "quick", Job("dev", "h_wide", (ty, 70000 if ty < 2 else 300, 1, 1), covers=RDB, cost=3))
for prop, e in (("C04", 0), ("C05", 1)):
    add(prop, "thorough",
        Job("rel", "h_read_m2", (2, 9, 34, 4 | e), covers=RDB, cost=60, shards=2), Job("devseq", "h_read_m2", (1, 9, 33, 4 | e), covers=RDB, cost=15),
        Job("dev", "h_read_m3", (1, 8, 33, 4 | e), covers=RDB, cost=60), Job("dev", "h_read_md", (1, 20, 34, 4 | e), covers=RDB, cost=30),
        Job("dev", "h_read_xyz", (0, 20, 34, 4 | e), covers=RDB, cost=80, shards=2))

# larger clouds (kinds 0 packed, 3 as in memory, 4 with slack behind)
for prop, big in (("C04", 0), ("C05", 16)):
    for ty in (0, 3, 9, 10, 11, 13, 15):
        for kind in (0, 3, 4):
            add(prop, "quick", Job("dev", "h_own_upto", (ty, kind + big, 3, 35), covers=RDB, cost=3))
    for ty in range(17):
        for kind in range(10):
            add(prop, "thorough", Job("rel", "h_own_upto", (ty, kind + big, 3, 131), covers=RDB, cost=15))
    for kind in (0, 4):
        for lo, hi in WINDOWS:
            add(prop, "quick", Job("dev", "h_own_upto", (11, kind + big, lo, hi), covers=RDB, cost=3))
    add(prop, "quick", Job("rel", "h_own_upto", (11, 3 + big, 65536, 65538), covers=RDB, cost=40), Job("rel", "h_own_upto", (10, 4 + big, 65537, 65538), covers=RDB, cost=40))

# point types whose fields have one datatype, or one width
for n in (2, 5):
    for cfg in ("dev", "rel"):
        tier = "quick" if (cfg, n) == ("dev", 2) else "thorough"
        add("C01", tier, Job(cfg, "h_uni_rt", (0, n), covers=RT))
        add("C02", tier, *[Job(cfg, "h_uni_rt", (mode, n), covers=RT) for mode in (1, 2, 3)])
        add("C03", tier, *[Job(cfg, "h_uni_written", (mode, n), covers=WR) for mode in (0, 1, 2)])
        for kind in range(10):
            add("C04", tier, Job(cfg, "h_uni_own", (kind, n, 0), covers=RDB))
            add("C05", tier, Job(cfg, "h_uni_own", (kind, n, 1), covers=RDB))
        if n == 2:
            add("C06", tier, *[Job(cfg, "h_uni_near", (dev,), cost=3) for dev in range(9)])
# well-formed messages, also large ones, of every type: memory safety
for cfg in ("dev", "rel"):
    tier = "quick" if cfg == "dev" else "thorough"
    for prop in ("C06", "C07", "C08"):
        for e in (0, 1):
            add(prop, tier, *[Job(cfg, "h_uni_own", (kind, 2, e), covers=RDB) for kind in ((1, 3, 5, 7, 9) if tier == "quick" else range(10))])
        for ty in (11, 10, 0, 4) if tier == "quick" else range(17):
            for kind in (0, 3, 4, 8):
                add(prop, tier, Job(cfg, "h_own_upto", (ty, kind, 3, 35 if tier == "quick" else 131), covers=RDB, cost=3))
        for lo, hi in WINDOWS:
            add(prop, tier, *[Job(cfg, "h_own_upto", (11, kind, lo, hi), covers=RDB, cost=3) for kind in (0, 4, 8)])
    for prop, modes in (("C07", (0, 1)), ("C08", (2, 3))):
        add(prop, tier, *[Job(cfg, "h_uni_rt", (mode, 3), covers=RT) for mode in modes])

# names: a field counts as the requested one exactly if its name is that name, byte for byte
NM = ["named"]
for prop, what in (("C04", 1), ("C06", 0), ("C09", 2)):
    for ty in range(17):
        t = "quick" if ty in (0, 3, 5, 9, 10, 12, 15) else "thorough"
        for pos, dls in ((0, (0, 1, 2, 3, 4, 10, 11, 12)), (1, (2, 3)), (2, (1, 2))):
            add(prop, t, *[Job("dev", "h_names_one", (ty, pos, dl, what), covers=NM) for dl in dls])
    add(prop, "quick", *[Job("dev", "h_names_all", (ty, lens, what), covers=NM)
                         for ty, lens in ((0, 22), (0, 222), (0, 32), (0, 123), (1, 232), (1, 222), (1, 2323), (2, 222), (2, 3222), (3, 2), (3, 22), (4, 22), (4, 322))])

# many unrelated fields in front of, between and behind the requested ones
for prop, what in (("C04", 1), ("C06", 0), ("C09", 2)):
    add(prop, "quick", *[Job("dev", "h_many", (ty, nf, what, 1), covers=NM, cost=2) for ty, nf in ((0, 16), (0, 33), (1, 300), (2, 15), (3, 7))])
    add(prop, "thorough", *[Job(cfg, "h_many", (ty, nf, what, 1), covers=NM, cost=20) for cfg in ("dev", "rel") for ty, nf in ((0, 257), (1, 64), (2, 1030), (3, 17), (3, 16))])
for nf in (16, 257):
    add("C05", "quick", Job("dev", "h_many", (0, nf, 1, 0), covers=NM, cost=2), Job("dev", "h_many", (0, nf | 1, 1, 0), covers=NM, cost=2))

# ---------------------------------------------------------------- C06 vec = iterator
# first argument of h_any_*: type + 16 * number of fields; second: which names (base N+1 digits); third: bytes of data
AG = ["both succeed", "both fail"]
add("C06", "quick",
    Job("dev", "h_any_agree", (33, 3, 6), covers=AG, cost=80, shards=8), Job("dev", "h_any_agree", (16, 0, 5), covers=AG, cost=3),
    Job("dev", "h_any_agree", (33, 0, 4), covers=["both fail"]), Job("dev", "h_any_agree", (33, 2, 4), covers=["both fail"]),
    Job("dev", "h_any_agree", (34, 3, 8), covers=AG, cost=40, shards=4))
for ty in (1, 2, 3, 7):
    for dev in range(9):
        add("C06", "quick", Job("dev", "h_near_agree", (ty, dev, 2, 32 if ty < 3 else 48), cost=3))

for prop in ("C02", "C06", "C08"):
    add(prop, "quick", *[Job(cfg, "h_no_fields", a, covers=["no fields"]) for cfg in ("dev", "relseq") for a in ((0, 0, 0), (0, 1, 4), (1, 0, 0), (1, 1, 8))])

# ---------------------------------------------------------------- C07 iterating arbitrary messages
IT = ["iterated", "rejected"]
add("C07", "quick",
    Job("dev", "h_any_iter", (16, 0, 5, 0), covers=IT, cost=2), Job("dev", "h_any_iter", (33, 3, 6, 0), covers=IT, cost=10, shards=2),
    Job("dev", "h_any_iter", (33, 3, 12, 1), covers=IT + ["several points"][:0], cost=30, shards=6), Job("dev", "h_any_iter", (34, 1, 9, 1), covers=IT, cost=12, shards=2),
    Job("dev", "h_any_iter", (37, 3, 6, 0), covers=IT, cost=14, shards=3), Job("dev", "h_any_iter", (33, 0, 4, 0), covers=["rejected"]),
    Job("dev", "h_any_iter", (33, 2, 4, 1), covers=["rejected"]), Job("dev", "h_any_iter", (49, 21, 4, 0), covers=IT, cost=12, shards=2))

# ---------------------------------------------------------------- C08 try_into_vec on arbitrary messages
RJ = ["read", "rejected"]
add("C08", "quick",
    Job("dev", "h_any_vec", (33, 3, 6), covers=RJ, cost=16, shards=4), Job("dev", "h_any_vec", (33, 3, 12), covers=RJ, cost=48, shards=8),
    Job("dev", "h_any_vec", (37, 3, 6), covers=RJ, cost=24, shards=4), Job("dev", "h_any_vec", (49, 21, 4), covers=RJ, cost=11, shards=2),
    Job("dev", "h_any_vec", (16, 0, 5), covers=RJ, cost=2), Job("dev", "h_any_vec", (33, 0, 4), covers=["rejected"]), Job("dev", "h_any_vec", (33, 2, 4), covers=["rejected"]))

# ---------------------------------------------------------------- C09 errors
ER = ["accepted", "UnsupportedFieldType", "DataLengthMismatch", "wrong length"]
add("C09", "quick",
    Job("dev", "h_errors", (33, 3, 6), covers=ER, cost=75, shards=8), Job("dev", "h_errors", (16, 0, 5), covers=ER, cost=6, shards=2),
    Job("dev", "h_errors", (33, 2, 6), covers=["FieldsNotFound"]), Job("dev", "h_errors", (33, 0, 4), covers=["FieldsNotFound"]),
    Job("dev", "h_errors", (1, 0, 3), covers=["FieldsNotFound"]), Job("dev", "h_errors", (17, 1, 3), covers=["FieldsNotFound"]),
    Job("dev", "h_errors", (17, 2, 3), covers=["FieldsNotFound"]), Job("dev", "h_errors", (3, 0, 3), covers=["FieldsNotFound"]),
    Job("dev", "h_errors", (19, 1, 3), covers=["FieldsNotFound"]), Job("dev", "h_errors", (35, 2 + 4 * 0, 3), covers=["FieldsNotFound"]))

# ---------------------------------------------------------------- C10 iterator contract
OP = ["operated", "exhausted"]
add("C10", "quick",
    Job("dev", "h_ops", (3, 4, 0, 1), covers=OP), Job("dev", "h_ops", (0, 2, 1, 0), covers=OP), Job("dev", "h_ops", (1, 3, 3, 0), covers=OP),
    Job("dev", "h_ops", (3, 3, 1, 0), covers=OP, cost=4), Job("dev", "h_ops", (2, 3, 1, 1), covers=OP, cost=4),
    Job("dev", "h_ops", (4, 5, 0, 0), covers=OP, cost=2), Job("dev", "h_ops_xyz", (3, 4, 0, 0), covers=OP, cost=2),
    Job("dev", "h_opaque", (3, 3, 1), covers=["operated"], cost=2), Job("dev", "h_opaque", (0, 2, 0), covers=["operated"]),
    Job("relseq", "h_ops", (3, 3, 1, 0), covers=OP, cost=2), Job("relseq", "h_opaque", (3, 3, 0), covers=["operated"], cost=2))

# ---------------------------------------------------------------- C11 splitting
SP = ["split", "index beyond the remaining points"]
add("C11", "quick",
    Job("dev", "h_split", (0, 0, 0), covers=SP), Job("dev", "h_split", (1, 1, 0), covers=SP), Job("dev", "h_split", (3, 0, 1), covers=SP),
    Job("dev", "h_split", (2, 1, 1), covers=SP, cost=2), Job("dev", "h_split", (3, 1, 0), covers=SP, cost=8), Job("dev", "h_split_xyz", (3, 0, 0), covers=SP, cost=3),
    Job("rel", "h_split", (3, 0, 1), covers=SP), Job("rel", "h_split", (2, 1, 0), covers=SP, cost=2))

# big endian (4), two rows (8), one point per row (16), with gaps (1)
for shape in (4, 8, 13, 21):
    add("C10", "quick", Job("dev", "h_ops", (3 if shape != 8 else 4, 3 if shape != 8 else 4, 0, shape), covers=OP), Job("dev", "h_opaque", (4, 2, shape), covers=["operated"]),
        Job("dev", "h_ops_xyz", (2, 2, 1, shape), covers=OP))
    add("C11", "quick", Job("dev", "h_split", (2, 1, shape), covers=SP, cost=2), Job("dev", "h_split", (4 if shape & 8 else 3, 0, shape), covers=SP, cost=2),
        Job("dev", "h_split_xyz", (2, 0, shape), covers=SP, cost=2), Job("rel", "h_split_xyz", (2, 1, shape), covers=SP, cost=3))
for cfg in ("dev", "rel", "relseq"):
    add("C10", "thorough", Job(cfg, "h_ops", (4, 5, 0, 4), covers=OP, cost=20), Job(cfg, "h_ops", (3, 4, 1, 1), covers=OP, cost=30), Job(cfg, "h_ops", (6, 4, 0, 8), covers=OP[:1], cost=20),
        Job(cfg, "h_opaque", (4, 4, 5), covers=["operated"], cost=30), Job(cfg, "h_ops_xyz", (4, 4, 0, 4), covers=OP, cost=20), Job(cfg, "h_opaque", (6, 3, 9), covers=["operated"], cost=20))
for cfg in ("dev", "rel"):
    add("C11", "thorough", Job(cfg, "h_split", (4, 1, 4), covers=SP, cost=30), Job(cfg, "h_split", (6, 0, 9), covers=SP, cost=30), Job(cfg, "h_split", (2, 2, 4), covers=SP, cost=30),
        Job(cfg, "h_split_xyz", (4, 0, 13), covers=SP, cost=20), Job(cfg, "h_split", (3, 2, 0), covers=SP, cost=60))

# whole clouds of many points in one pattern of calls from both ends (0x1abc: period 12); splits of many points
for cfg in ("dev", "relseq"):
    for n, pat, shape in ((66, 2, 1), (300, 5, 4), (1100, 0x16, 8), (66, 3, 13), (1100, 3, 0)):
        for how in (0, 1, 2):
            add("C10", "quick", Job(cfg, "h_walk", (n, pat, shape, how), covers=["walked"], plain=False))
    add("C10", "quick", Job(cfg, "h_walk_xyz", (300, 0x16, 5, 1), covers=["walked"], plain=False))
    add("C10", "thorough", Job(cfg, "h_walk", (4100, 5, 5, 1), covers=["walked"], cost=20, plain=False), Job(cfg, "h_walk_xyz", (4100, 3, 8, 0), covers=["walked"], cost=20, plain=False))
add("C10", "thorough", Job("rel", "h_walk", (65537, 2, 0, 0), covers=["walked"], cost=60, plain=False))
for cfg in ("dev", "rel"):
    for n, pat, shape in ((66, 2, 1), (300, 5, 8), (257, 3, 4)):
        add("C11", "quick", Job(cfg, "h_many_split", (n, pat, shape), covers=["split"], cost=3, plain=False))
    add("C11", "quick", Job(cfg, "h_many_split_xyz", (130, 0x16, 5), covers=["split"], cost=3, plain=False))
    add("C11", "thorough", Job(cfg, "h_many_split", (4100, 2, 8), covers=["split"], cost=60, plain=False))
add("C11", "quick", Job("rel", "h_many_split", (1100, 2, 0), covers=["split"], cost=6, plain=False))

# ---------------------------------------------------------------- C12, C13 parallel
SCHED = ["split between workers", "stolen half", "second half first"]
for op in range(11):
    add("C12", "quick", Job("dev", "h_par", (op, 3, 2, 0), covers=["parallel read"]), Job("dev", "h_par", (op, 0, 2, 0), covers=["parallel read"]))
for op in range(14):
    add("C12", "quick", Job("dev", "h_ix", (op, 3, 2, 0), covers=["parallel read"]), Job("dev", "h_ix", (op, 4, 2, 21), covers=["parallel read"]),
        Job("rel", "h_ix_rgb", (op, 4, 3, 0), covers=["parallel read"]))
for src in range(6):
    small = src in (2, 4)
    for ty in range(5):
        n = 2 if src == 4 else 3
        add("C13", "quick", Job("dev", "h_parwrite", (ty, src, n, 2), covers=["parallel write"]))
    add("C13", "quick", Job("dev", "h_parwrite", (0, src, 0, 2), covers=["parallel write"]), Job("rel", "h_parwrite", (3, src, 3, 2), covers=["parallel write"]))
    if not small:
        add("C13", "quick", Job("dev", "h_parwrite", (1, src, 4, 3), covers=["parallel write"] + SCHED))
add("C13", "quick", Job("dev", "h_parwrite", (0, 4, 3, 2), covers=["parallel write"] + SCHED, cost=2))

# larger clouds. threads: 2 workers at most, 2 chosen joins (0x22) or 8 workers, 4 chosen joins (0x842); 32: every range of odd first fields
for op in range(11):
    add("C12", "quick", Job("dev", "h_par", (op, 3, 2, 4), covers=["parallel read"]), Job("dev", "h_par", (op, 4, 2, 9), covers=["parallel read"]),
        *([Job("dev", "h_par", (op, 16, 0x842, 5), covers=["parallel read"] + SCHED, cost=2, plain=False)] if op not in (2, 5, 6, 7) else []),
        Job("dev", "h_par", (op, 10, 0x22, 32 + 12), covers=["parallel read"] + SCHED, cost=4, plain=False))
    if op not in (2, 5, 6, 7):
        add("C12", "thorough", Job("rel", "h_par", (op, 64, 0x1042, 5), covers=["parallel read"] + SCHED, cost=10, plain=False))
    add("C12", "thorough",
        Job("dev", "h_par", (op, 13, 0x832, 32), covers=["parallel read"] + SCHED, cost=60, plain=False), Job("rel", "h_par_xyz", (op, 4, 2, 1), covers=["parallel read"], cost=3),
        Job("dev", "h_par", (op, 4, 3, 8), covers=["parallel read"], cost=10))
for op in range(14):
    add("C12", "quick", Job("dev", "h_ix", (op, 4, 2, 13 * 16 + 5), covers=["parallel read"]))
    if op not in (11, 13):
        add("C12", "quick", Job("dev", "h_ix", (op, 16, 0x822 if op in (2, 3) else 0x842, 5 * 16 + 5), covers=["parallel read"], cost=2, plain=False))
        add("C12", "thorough", Job("rel", "h_ix", (op, 32, 0x1032, 5 * 16 + 5), covers=["parallel read"], cost=10, plain=False))
    if op in (11, 13):
        add("C12", "quick", Job("dev", "h_ix", (op, 10, 0x22, 32 * 16 + 5), covers=["parallel read"] + SCHED, cost=4, plain=False))
    add("C12", "thorough", Job("rel", "h_ix_rgb", (op, 5, 3, 16 * 13 + 5), covers=["parallel read"], cost=5))
for src in (0, 1, 3, 4, 5):
    add("C13", "quick", Job("dev", "h_parwrite", (0, src, 16, 0x842), covers=["parallel write"] + SCHED, cost=2, plain=False))
    add("C13", "thorough", Job("rel", "h_parwrite", (1, src, 64, 0x1042), covers=["parallel write"] + SCHED, cost=10, plain=False))
add("C13", "quick", Job("dev", "h_parwrite", (0, 6, 11, 0x22), covers=["parallel write"] + SCHED, cost=15, plain=False),
    Job("rel", "h_parwrite", (0, 7, 9, 0x22), covers=["parallel write"] + SCHED, cost=15, plain=False),
    Job("dev", "h_parwrite", (3, 6, 10, 0x412), covers=["parallel write"] + SCHED, cost=6, plain=False))
add("C13", "thorough", Job("dev", "h_parwrite", (0, 6, 14, 0x832), covers=["parallel write"] + SCHED, cost=60, plain=False),
    Job("dev", "h_parwrite", (1, 7, 12, 0x832), covers=["parallel write"] + SCHED, cost=80, plain=False),
    Job("dev", "h_parwrite", (0, 4, 4, 3), covers=["parallel write"] + SCHED, cost=200, shards=4, time=800), Job("rel", "h_parwrite", (2, 2, 5, 2), covers=["parallel write"] + SCHED, cost=30))

# clouds of hundreds and thousands of points, 2 chosen joins, up to 8 workers
for op in (0, 1, 3, 4, 8, 9, 10):
    add("C12", "quick", Job("rel", "h_par", (op, 1100, 0x822, 5), covers=["parallel read"] + SCHED, cost=3, plain=False))
    add("C12", "thorough", Job("rel", "h_par", (op, 4100, 0x822, 8), covers=["parallel read"] + SCHED, cost=20, plain=False))
    if op != 9:
        add("C12", "thorough", Job("dev", "h_par", (op, 300, 0x822, 12), covers=["parallel read"] + SCHED, cost=5, plain=False))
for op in (0, 1, 5, 7, 9, 12):
    add("C12", "quick", Job("rel", "h_ix", (op, 1100, 0x822, 5 * 16 + 5), covers=["parallel read"], cost=3, plain=False))
    add("C12", "thorough", Job("rel", "h_ix", (op, 4100, 0x822, 5 * 16 + 9), covers=["parallel read"], cost=20, plain=False))
for src in (0, 1, 3, 5):
    add("C13", "quick", Job("rel", "h_parwrite", (0, src, 1100, 0x822), covers=["parallel write"] + SCHED, cost=3, plain=False))
    add("C13", "thorough", Job("rel", "h_parwrite", (0, src, 4100, 0x822), covers=["parallel write"] + SCHED, cost=20, plain=False), Job("dev", "h_parwrite", (1, src, 300, 0x822), covers=["parallel write"] + SCHED, cost=5, plain=False))

# ---------------------------------------------------------------- C14 - C16 values
for cfg in ("dev", "relseq"):
    for ty in range(1, 10):
        add("C14", "quick", Job(cfg, "h_value", (ty,), covers=["value"]), Job(cfg, "h_decode", (ty,), covers=["decoded"]))
    add("C14", "quick", Job(cfg, "h_pdata_from", (), covers=["from", "point"]))
    add("C15", "quick", Job(cfg, "h_code", (), covers=["accepted", "rejected"]), Job(cfg, "h_table", (), covers=["table", "names"]))
    for n in range(9):
        add("C15", "quick", Job(cfg, "h_name", (n,), covers=["unknown name"] + (["known name"] if n in (2, 3) else [])))
    add("C16", "quick", *[Job(cfg, "h_rgb_" + e, (), covers=["rgb"]) for e in ("new", "packed", "set", "points")])
    add("C16", "quick", Job(cfg, "h_rgb_eq", (), covers=["equal", "different"]), *[Job(cfg, "h_rgb_shown", (w,), covers=["shown"]) for w in range(3)])

# ---------------------------------------------------------------- C17 builder
BE = ["built", "UnsupportedFieldCount", "UnsupportedFieldType", "InvalidFieldFormat", "DataLengthMismatch"]
for cfg in ("dev", "relseq"):
    add("C17", "quick", Job(cfg, "h_build", (0, 3, 0), covers=["FieldsNotFound"]), Job(cfg, "h_build", (1, 3, 0), covers=BE), Job(cfg, "h_build", (2, 4, 1), covers=BE),
        Job(cfg, "h_build", (3, 6, 0), covers=BE, cost=3), Job(cfg, "h_build", (1, 0, 1), covers=BE[:4]), Job(cfg, "h_dims", (), covers=["accepted", "refused"]),
        Job(cfg, "h_build_defaults", (), covers=["defaults"]))
    add("C17", "quick", *[Job(cfg, "h_build_many", a, covers=["built", "refused"], cost=2) for a in ((17, 0), (33, 8), (260, 0))],
        Job(cfg, "h_build_many", (9000, 8 + 16), covers=["built", "refused"], cost=5))
    add("C17", "thorough", Job(cfg, "h_build_many", (1030, 8), covers=["built", "refused"], cost=40), Job(cfg, "h_build_many", (33000, 8 + 16), covers=["built", "refused"], cost=20))

# the same without std, and as compiled for release with and without rayon
for cfg in ("devnostd", "rel", "relseq"):
    t = "quick" if cfg != "relseq" else "thorough"
    for ty in (0, 3, 7, 9, 11, 13, 15, 16):
        add("C01", "quick", Job(cfg, "h_rt", (ty, 0, 2), covers=RT))
        add("C02", "quick", *[Job(cfg, "h_rt", (ty, mode, 2), covers=RT) for mode in (1, 2, 3)])
        add("C03", "quick", Job(cfg, "h_written", (ty, 1, 2), covers=WR), Job(cfg, "h_written", (ty, 0, 2), covers=WR))
        add("C04", "quick", *[Job(cfg, "h_own", (ty, kind, 2, 0), covers=RDB) for kind in (0, 3, 5)])
        add("C05", "quick", *[Job(cfg, "h_own", (ty, kind, 2, 1), covers=RDB) for kind in (0, 3, 5)])
    add("C04", "quick", Job(cfg, "h_read_m2", (1, 6, 33, 4), covers=RDB, cost=7))
    add("C05", "quick", Job(cfg, "h_read_m2", (1, 6, 33, 5), covers=RDB, cost=7))
    for prop, what in (("C04", 1), ("C06", 0), ("C09", 2)):
        add(prop, "quick", Job(cfg, "h_names_one", (9, 0, 1, what), covers=NM), Job(cfg, "h_names_all", (1, 232, what), covers=NM))
    add("C06", "quick", Job(cfg, "h_any_agree", (16, 0, 5), covers=AG, cost=3), Job(cfg, "h_near_agree", (3, 4, 2, 48), cost=3))
    add("C07", "quick", Job(cfg, "h_any_iter", (16, 0, 5, 0), covers=IT, cost=2))
    add("C07", t, Job(cfg, "h_any_iter", (33, 3, 6, 0), covers=IT, cost=10, shards=2), Job(cfg, "h_any_iter", (34, 1, 9, 1), covers=IT, cost=10, shards=2))
    add("C08", "quick", Job(cfg, "h_any_vec", (16, 0, 5), covers=RJ, cost=2))
    add("C08", t, Job(cfg, "h_any_vec", (33, 3, 6), covers=RJ, cost=16, shards=3))
    add("C09", "quick", Job(cfg, "h_errors", (16, 0, 5), covers=ER, cost=6, shards=2), Job(cfg, "h_errors", (33, 2, 6), covers=["FieldsNotFound"]))
    if cfg != "relseq":
        add("C17", "quick", Job(cfg, "h_build", (2, 4, 1), covers=BE), Job(cfg, "h_build", (3, 6, 0), covers=BE, cost=3), Job(cfg, "h_dims", (), covers=["accepted", "refused"]))
    add("C06", "thorough", Job(cfg, "h_any_agree", (33, 3, 6), covers=AG, cost=80, shards=8), Job(cfg, "h_any_agree", (34, 3, 8), covers=AG, cost=40, shards=4))
    add("C07", "thorough", Job(cfg, "h_any_iter", (33, 3, 12, 1), covers=IT, cost=30, shards=6), Job(cfg, "h_any_iter", (49, 21, 4, 0), covers=IT, cost=12, shards=2))
    add("C08", "thorough", Job(cfg, "h_any_vec", (33, 3, 12), covers=RJ, cost=48, shards=8), Job(cfg, "h_any_vec", (49, 21, 4), covers=RJ, cost=11, shards=2))
    add("C09", "thorough", Job(cfg, "h_errors", (33, 3, 6), covers=ER, cost=75, shards=8))
    add("C17", "thorough", Job(cfg, "h_build", (4, 8, 1), covers=BE, cost=20), Job(cfg, "h_build", (3, 12, 1), covers=BE, cost=10))

# bigger arbitrary messages; 51, 36: PointXYZ with x, y and z
add("C06", "thorough", Job("dev", "h_any_agree", (33, 3, 9), covers=AG, cost=200, shards=12), Job("dev", "h_any_agree", (49, 21, 4), covers=AG, cost=60, shards=6),
    Job("rel", "h_any_agree", (33, 3, 14), covers=AG, cost=200, shards=12), Job("rel", "h_any_agree", (65, 21, 5), covers=AG, cost=40, shards=4))
add("C07", "thorough", Job("dev", "h_any_iter", (33, 3, 16, 0), covers=IT, cost=40, shards=4), Job("dev", "h_any_iter", (37, 3, 16, 0), covers=IT, cost=40, shards=4),
    Job("dev", "h_any_iter", (49, 21, 8, 0), covers=IT, cost=20, shards=4), Job("dev", "h_any_iter", (34, 1, 16, 1), covers=IT, cost=40, shards=4),
    Job("rel", "h_any_iter", (33, 3, 64, 0), covers=IT, cost=50, shards=4), Job("rel", "h_any_iter", (65, 21, 5, 0), covers=IT, cost=5),
    Job("rel", "h_any_iter", (51, 36, 12, 0), covers=IT, cost=150, shards=12), Job("rel", "h_any_iter", (51, 36, 24, 1), covers=IT, cost=300, shards=16))
add("C08", "thorough", Job("dev", "h_any_vec", (33, 3, 18), covers=RJ, cost=80, shards=8), Job("dev", "h_any_vec", (49, 21, 8), covers=RJ, cost=30, shards=4),
    Job("dev", "h_any_vec", (34, 1, 16), covers=RJ, cost=40, shards=4), Job("rel", "h_any_vec", (33, 3, 32), covers=RJ, cost=40, shards=4),
    Job("rel", "h_any_vec", (65, 21, 8), covers=RJ, cost=15, shards=2), Job("rel", "h_any_vec", (51, 36, 12), covers=RJ, cost=280, shards=16))
add("C09", "thorough", Job("dev", "h_errors", (33, 3, 8), covers=ER, cost=80, shards=8), Job("dev", "h_errors", (49, 21, 4), covers=ER, cost=50, shards=6),
    Job("rel", "h_errors", (33, 3, 14), covers=ER, cost=80, shards=8))

# ---------------------------------------------------------------- C18, C24 ROS message libraries
for prop, cfgs in (("C18", ("devros", "relros")), ("C24", ("devros1", "relros1", "devr2r", "relr2r"))):
    for cfg in cfgs:
        for nf, ln, name in ((0, 0, 0), (1, 3, 1), (2, 5, 2), (3, 7, 3)):
            add(prop, "quick", Job(cfg, "h_ros_lib", (nf, ln, name), covers=["there and back"]), Job(cfg, "h_ros_msg", (nf, ln, name), covers=["back and there"]))
        add(prop, "quick", *[Job(cfg, "h_ros_header", (k,), covers=["header"]) for k in range(4)])
        add(prop, "quick", *[Job(cfg, "h_ros_cloud", (n,), covers=["cloud"]) for n in (0, 1, 3)])
        for nf, ln, name in ((8, 33, 4), (5, 300, 30), (16, 16, 2), (1, 4097, 1), (40, 70, 0)):
            add(prop, "quick", Job(cfg, "h_ros_lib", (nf, ln, name), covers=["there and back"]), Job(cfg, "h_ros_msg", (nf, ln, name), covers=["back and there"]))
        for nf, ln, name in ((4, 64, 8), (260, 1030, 1), (2, 66000, 70), (3, 15, 300)):
            add(prop, "thorough", Job(cfg, "h_ros_lib", (nf, ln, name), covers=["there and back"]), Job(cfg, "h_ros_msg", (nf, ln, name), covers=["back and there"]))
        add(prop, "quick", *[Job(cfg, "h_ros_cloud", (n,), covers=["cloud"]) for n in (9, 33)])
        add(prop, "thorough", *[Job(cfg, "h_ros_cloud", (n,), covers=["cloud"]) for n in (2, 70, 300)])

# ---------------------------------------------------------------- C19 derive
for mode in range(4):
    add("C19", "quick", Job("devderive", "h_derived_pair", (mode, 2), covers=["derived"]), Job("devderive", "h_derived_triple", (mode, 2), covers=["derived"]))
    for n in (0, 1, 3):
        add("C19", "thorough", Job("relderive", "h_derived_pair", (mode, n), covers=["derived"]), Job("relderive", "h_derived_triple", (mode, n), covers=["derived"]))
for ty in range(17):
    for mode in range(4):
        for n in (0, 2):
            add("C19", "quick", Job("devderive", "h_derived", (ty, mode, n), covers=["derived"]))
        add("C19", "thorough", *[Job("relderive", "h_derived", (ty, mode, n), covers=["derived"]) for n in (0, 1, 3, 6)])
        add("C19", "thorough", *[Job("devderive", "h_derived", (ty, mode, n), covers=["derived"]) for n in (1, 3, 6)])
    add("C19", "quick", Job("devderive", "h_derived_point", (ty,), covers=["fieldwise"]))
    add("C19", "thorough", Job("relderive", "h_derived_point", (ty,), covers=["fieldwise"]))
    for big in (0, 1):
        add("C19", "quick", Job("devderive", "h_derived_raw", (ty, 2, big), covers=["raw"]))
        add("C19", "thorough", Job("relderive", "h_derived_raw", (ty, 3, big), covers=["raw"]))

# ---------------------------------------------------------------- C20 layouts of the predefined types
for cfg in ("dev", "relseq"):
    for ty in range(9):
        add("C20", "quick", Job(cfg, "h_layout", (ty, 2), covers=["layout"]), Job(cfg, "h_layout", (ty, 0), covers=["layout"]),
            Job(cfg, "h_defaults", (ty,), covers=["defaults"]))
    add("C20", "quick", Job(cfg, "h_constructors", (), covers=["constructed"]))

# ---------------------------------------------------------------- C21 nalgebra
for cfg in ("devnostd",):
    for ty in range(9):
        add("C21", "quick", Job(cfg, "h_getters", (ty,), covers=["getters"]))
    add("C21", "quick", Job(cfg, "h_convert", (), covers=["converted"]), *[Job(cfg, "h_f64_back", (w,), covers=["back"], cost=2) for w in range(3)])
    add("C21", "quick", *[Job(cfg, "h_f64_rounds", (w,), covers=["rounded"], cost=2) for w in range(3)])

# ---------------------------------------------------------------- C22 serde
for mode in range(4):
    for cfg, t in (("devserde", "quick"), ("relserde", "thorough")):
        add("C22", t, *[Job(cfg, "h_ser_msg", (mode, nf, ln), covers=["message"]) for nf, ln in ((0, 0), (1, 3), (3, 8), (5, 70), (17, 33), (1, 300), (2, 4099))])
        add("C22", t, *[Job(cfg, "h_ser_point", (ty, mode, 1), covers=["point"]) for ty in range(9)])
        add("C22", t, Job(cfg, "h_ser_rgb", (mode,), covers=["rgb"]), *[Job(cfg, "h_ser_cloud", (mode, n), covers=["cloud"]) for n in (0, 2, 20, 67)])

# ---------------------------------------------------------------- C23 32-bit limits
for cfg in ("dev", "relseq"):
    add("C23", "quick", Job(cfg, "h_dims", (), covers=["accepted", "refused"]))
    add("C23", "quick", Job(cfg, "h_huge_build", (), covers=["built", "refused"], traces=2))
for cfg in ("dev", "relseq"):
    for ty in range(10):
        add("C23", "quick", Job(cfg, "h_huge_write", (ty,), covers=["refused"], traces=2))
for k, (ty, h) in enumerate([(0, 2), (1, 3), (2, 16), (3, 2)]):
    cfg = ("dev", "relseq", "rel", "dev")[k]
    add("C23", "quick", Job(cfg, "h_huge_read", (ty, h, 0), covers=["iterator"], traces=1),
        Job(cfg, "h_huge_read", (ty, h + 1, 1), covers=["vec"], traces=1))
for cfg in ("rel", "devseq"):
    for ty in range(10):
        add("C23", "thorough", Job(cfg, "h_huge_write", (ty,), covers=["refused"], traces=2))
for cfg in ("dev", "relseq"):
    for ty in range(4):
        for h in (2, 3, 5, 16, 100):
            add("C23", "thorough", Job(cfg, "h_huge_read", (ty, h, 0), covers=["iterator"], traces=1),
                Job(cfg, "h_huge_read", (ty, h, 1), covers=["vec"], traces=1))

# ---------------------------------------------------------------- C25 reading as another type
for a in range(31):
    add("C25", "quick", *[Job("dev", "h_cross_all", (a, n)) for n in (0, 1, 3)], Job("relseq", "h_cross_all", (a, 2)), Job("devnostd", "h_cross_all", (a, 2)))
    add("C25", "thorough", *[Job("dev", "h_cross_all", (a, n)) for n in (2, 4, 7)], *[Job("rel", "h_cross_all", (a, n)) for n in (1, 5)], Job("devseq", "h_cross_all", (a, 3)),
        *[Job("rel", "h_cross_all", (a, n), plain=False, cost=5) for n in (33, 100)])
for a, b in ((3, 0), (8, 21), (9, 23), (15, 15), (20, 0), (13, 19)):
    add("C25", "quick", *[Job("dev", "h_cross", (a, b, what, 2), covers=["projected"]) for what in range(4)])
add("C25", "quick", *[Job("dev", "h_cross", (a, b, 0, 2), covers=["missing"]) for a, b in ((0, 3), (10, 11), (23, 9))])

# ---------------------------------------------------------------- C26 what errors say
for cfg in ("dev", "relseq", "devnostd"):
    for n in range(9):
        add("C26", "quick", Job(cfg, "h_err_unknown", (n,), covers=["unknown"]))
    for n, ln in ((0, 0), (1, 0), (1, 1), (1, 5), (2, 2), (3, 1), (4, 3)):
        add("C26", "quick", Job(cfg, "h_err_missing", (n, ln), covers=["missing"]))
    for n in (0, 1, 9):
        add("C26", "quick", Job(cfg, "h_err_absent", (n,), covers=["absent"]))
    for n in (0, 3, 10):
        add("C26", "quick", Job(cfg, "h_err_kinds", (n,), covers=["kinds"]))
for cfg in ("dev", "rel"):
    for n in (12, 16, 24, 40):
        add("C26", "thorough", Job(cfg, "h_err_unknown", (n,), covers=["unknown"]))
    for n, ln in ((2, 12), (6, 4), (8, 0), (5, 16)):
        add("C26", "thorough", Job(cfg, "h_err_missing", (n, ln), covers=["missing"]))
    for n in (10, 20):
        add("C26", "thorough", Job(cfg, "h_err_absent", (n,), covers=["absent"]), Job(cfg, "h_err_kinds", (n * 2,), covers=["kinds"]))

ALL_TYPES = "all 9 predefined types, 6 hand-written and 2 derived custom types; 2 (thorough: 5) points of 16 further types (one datatype only, one width only, a non-zero default, 19 fields, names of up to 257 bytes that are nearly the same)"
BOUNDS.update({
    "C01": ALL_TYPES + "; every cloud size from 0 to 131 (67 for types of 5 and more fields; thorough: 262), windows around 256, 512, 1024, 4096 and 65536 points; every bit pattern of every field; "
           "debug and release IR, with and without rayon and std",
    "C02": ALL_TYPES + "; every cloud size from 0 to 35 (67 for small types; thorough: 262), windows around 256, 512, 1024, 4096 and 65536 points; the four writer/reader combinations; every bit pattern "
           "of every field; debug and release IR, with and without rayon and std",
    "C03": ALL_TYPES + "; every cloud size from 0 to 35 (67 for small types; thorough: 200), windows up to 65537 points; written from vec, vec with spare capacity, exact and inexact iterators; every bit pattern",
    "C04": "requested types of 2 to 8 fields; every field order, every offset inside point_step 5..20 (chosen offsets up to 70000), 0 to 2 extra fields with arbitrary numbers, one to four points in one or "
           "two rows, arbitrary data; 10 packed/padded layouts of all 17 types (2 points of 16 further ones) with 2 to 35 points (thorough: 131), windows up to 65538 points; field names of up to 3 bytes that are arbitrary, or the "
           "requested name with one arbitrary, missing or added byte; up to 300 (thorough: 1030) unrelated fields with the requested ones at chosen positions among them; duplicate names and datatypes or counts other than requested are outside",
    "C05": "as C04 with big-endian messages",
    "C06": "arbitrary messages with up to 3 fields (thorough: 4) and up to 8 bytes of data (thorough: 14) for 1- and 2-field types: every number, datatype, count, offset, flag; arbitrary short names; "
           "plus messages that are one deviation away from the layout of M2, MD, PointXYZ, DC and 14 more types with 2 columns, up to 3 rows; point types without fields; up to 300 (thorough: 1030) fields",
    "C07": "arbitrary messages with 0 to 3 fields (thorough: 4) and up to 12 bytes of data (thorough: 64; PointXYZ: 24) for 1- and 2-field types (packed, padded, f64): every u32 width, height, step, "
           "offset, count, every u8 datatype; forward and backward; well-formed messages of 33 types in 4 to 10 packed and padded layouts, 2 to 35 points (thorough: 131), windows up to 4099 points; debug and release IR, with and without rayon and std",
    "C08": "as C07 with the vec conversion, up to 12 bytes of data (thorough: 32; PointXYZ: 12)",
    "C09": "arbitrary messages with 0 to 3 fields and up to 6 bytes of data (thorough: 14) for types of 1 to 3 fields: every u32 width, height, step, offset, count, every u8 datatype; arbitrary short names; up to 300 (thorough: 1030) fields",
    "C10": "0 to 4 points, every sequence of up to 5 next/next_back (up to 3 calls with nth/nth_back), then every one of 8 consuming operations; arbitrary data, both byte orders, several rows, gaps; "
           "also the opaque iterator and without rayon; whole walks over 66, 300, 1100 (thorough: 4100, 65537) points in 5 patterns of calls from both ends, also behind nth and before consuming operations",
    "C11": "0 to 4 points, every number of front and back calls before, every usize split index, a second split of either part after moving its cursors; arbitrary data, both byte orders, several rows, gaps; "
           "66 to 1100 (thorough: 4100) points split at 17 positions around 0, the middle, the end and powers of two, before and after front and back calls",
    "C12": "0 to 4 points with up to 2 (3) worker threads and every split tree and execution order of the joins; 10 to 1100 points (thorough: 4100) with up to 8 workers and 2 to 4 freely chosen joins; "
           "25 parallel operations, partly consumed iterators; arbitrary data, both byte orders, several rows, gaps",
    "C13": "0 to 4 points, 5 point types, up to 2 (3) worker threads, every split tree and execution order of the joins; up to 1100 points (thorough: 4100) with up to 8 workers and 2 to 4 freely chosen "
           "joins; 8 kinds of parallel iterators (indexed, filtered, mapped, chained, flat, skewed); arbitrary values",
    "C14": "every value of all 9 field types; every 8-byte buffer",
    "C15": "every u8 code, every ASCII name of up to 8 bytes, every datatype",
    "C16": "every combination of channels and every 32-bit packed value",
    "C17": "0 to 3 fields (thorough: 4) with arbitrary numbers and names, 17 to 9000 (33000) valid fields of which one, at chosen positions, is arbitrary; up to 6 bytes of data (thorough: 12), arbitrary width, steps, flags, header; two orders of builder calls; every usize width for the dimensions",
    "C18": "messages with 0 to 40 (thorough: 260) fields, up to 4097 (66000) bytes of data with and without spare capacity, texts of up to 30 (300) ASCII bytes that may end in a two-byte character; every number, flag "
           "and data byte; clouds of 0 to 33 (300) points",
    "C19": "17 derived structs (all primitive field types, renames, doc comments, raw identifiers; repr(C) with padding, repr(Rust), packed order), and all derived structs of 2 and 3 fields of chosen primitive "
           "types; 0 to 2 points (thorough: 6), every bit pattern",
    "C20": "all 9 predefined types, 0 and 2 points, every bit pattern; every constructor with every value",
    "C21": "every bit pattern of the coordinates of all 9 predefined types and of f64 points",
    "C22": "messages with 0 to 17 fields and up to 4099 bytes of data, all 9 predefined point types, RGB, clouds of 0 to 67 points; every number and byte; self-describing and compact, map and sequence encodings",
    "C23": "CloudDimensionsBuilder for every usize width; try_from_vec of 10 point types for every length that does not fit, up to 16 GiB of points; the builder for every data length "
           "from 4 to 16 GiB and every u32 point_step; messages of more than 4 GiB in 2 to 17 (thorough: 100) rows, read as iterator (size, split, last points) and vec. Contents of these objects are zero. "
           "Outside: iterator and parallel writers beyond 32 bits (they count and copy point by point, a loop of that length)",
    "C24": "as C18, for rosrust_msg 0.1.8 (ROS 1) and r2r 0.9 (ROS 2), whose generated message types are replaced by stand-ins with the same fields",
    "C26": "names and datatypes of 0 to 10 (thorough: 40) printable ASCII characters that Debug does not escape, 0 to 4 (thorough: 8) missing fields, every kind of error",
    "C25": "31 point types (the 9 predefined ones, 22 custom ones of 1 to 9 fields, some with nearly the same names, also long ones) written, each read as each of the 31, from and into iterator and vec, 0 to 3 points (thorough: up to 100), every bit "
           "pattern of every field; where a field of the same name has another datatype only the number of points is claimed; debug and release IR, with and without rayon and std",
})

PROPS = sorted(set(p for p, _ in REG))
