"""Which analyses decide which property."""
import os

VEC_OPS = {
    "C02": "get set push pop swap swap_remove for_each",
    "C04": "get set pop swap swap_remove remove insert split_off",
    "C05": "insert remove",
    "C06": "new default append split_off extend hint_extend from_iter hint_from_iter from_elem from_slice from_vec macro_elem macro_list resize truncate clear to_vec into_vec",
    "C07": "retain for_each",
    "C08": "any all",
    "C09": "eq ne hash",
    "C13": "get_raw_unchecked set_raw_unchecked set_len storage storage_mut",
    "C14": "clone clone_from",
    "C15": "debug",
    "C10": "iter iter_ref into_iter it_next it_next_back it_nth it_size it_len it_count ii_next ii_next_back ii_nth ii_size ii_len ii_count it_last ii_last",
    "C11": "new default with_capacity capacity reserve shrink_to_fit truncate clear push insert append extend hint_extend resize from_elem from_slice from_vec from_iter hint_from_iter macro_elem macro_list split_off clone clone_from retain",
}
WILD = "wild_retain wild_for_each wild_extend wild_from_iter"
VEC_OPS["C01"] = " ".join(sorted(set(" ".join(v for k, v in VEC_OPS.items() if k != "C13").split()))) + " len is_empty " + WILD
SOURCES = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128", "smallvec_u32"]
MODULES = [("ops_u8", 8), ("ops_u16", 16), ("ops_u32", 32), ("ops_u64", 64), ("ops_u128", 128), ("ops_small", 32)]
QUICK_B = {
    "ops_u8": [1, 2, 3, 5, 8],
    "ops_u16": [1, 3, 6, 9, 16],
    "ops_u32": [1, 3, 7, 16, 31, 32],
    "ops_u64": [3, 7, 13, 33, 64],
    "ops_u128": [5, 36, 64],
    "ops_small": [2, 3, 11, 32],
}
# relative cost of the expensive operations
COST = {"any": 9, "all": 9, "insert": 7, "remove": 4, "resize": 3, "swap": 3, "append": 3, "extend": 3, "hint_extend": 3, "swap_remove": 2}
TRUSTED = [
    "rustc's MIR of the current sources (nightly, -Zmir-opt-level=0) and its constant values",
    "the transfer functions of sa/ for MIR and for the modelled standard library functions",
    "the linear-arithmetic, bit-level and array-segment domains of sa/ (own implementation, integer exact)",
]
ASSUMPTIONS = [
    "element types respect the EnumLike contract (to_discr below NUM_VARIANTS, from_discr inverse)",
    "lengths and item counts stay below 2^44; requests above 2^40 elements may fail with capacity overflow",
    "64-bit usize",
]


def vec_tasks(ops, tier):
    out = []
    for m, s in MODULES:
        bs = QUICK_B[m] if tier == "quick" else [b for b in range(1, min(s, 64) + 1)]
        if os.environ.get("SA_B"):
            bs = [int(x) for x in os.environ["SA_B"].split(",")]
        for b in bs:
            for mode in ("debug", "release"):
                if tier == "quick" and mode == "release" and b not in (QUICK_B[m][0], QUICK_B[m][2]):
                    continue
                n = s // b
                for op in ops:
                    out.append((mode, COST.get(op, 1) * (1 + n / 8.0), "vec %s %d %d %d %s" % (m, s, b, mode == "release", op)))
    return out


# operations that touch an element or its block: they have to reject unsupported types
REJECT = "push,pop,get,set,insert,remove,from_elem,from_slice,from_iter,extend,with_capacity,resize,split_off"


def width_tasks(tier):
    out = []
    for m, s in MODULES:
        for k in list(range(1, 65)) + ["nv0", "nv1"]:
            ops = REJECT if not (isinstance(k, int) and k <= s) else ",".join(x for x in VEC_OPS["C01"].split() if not x.startswith(("hint_", "wild_")))
            out.append(("debug", 1, "width %s %d %s %s" % (m, s, k, ops)))
        for b in range(1, min(s, 64) + 1):
            for mode in ("debug", "release") if tier != "quick" else ("debug",):
                out.append((mode, 0.3 * (1 + s / b / 8.0), "vec %s %d %d %d get" % (m, s, b, mode == "release")))
    return out


def map_tasks(prop, tier):
    here = os.path.dirname(os.path.abspath(__file__))
    mod = "builtin" if prop == "L01" else "derived"
    names = [l.split()[1].split(",") for l in open(os.path.join(here, "types.txt")) if l.startswith(mod + " ")][0]
    out = []
    for mode in ("debug", "release"):
        for n in names:
            c = int("".join(ch for ch in n if ch.isdigit()) or 1) if mod == "builtin" else 2
            out.append((mode, 0.1 + c * c / 100.0, "map %s %s %s" % (mod, "L01" if mod == "builtin" else "D01", n)))
    return out


SET_OPS = "new default from_bits into_bits get_ref shrink union_with intersect_with difference_with symmetric_difference_with len is_empty clear contains is_disjoint is_subset is_superset insert remove extend from_iter clone clone_from iter into_iter union intersection difference symmetric_difference".split()


ORDER_OPS = "eq ne hash cmp partial_cmp lt le gt ge".split()


def tasks(prop, tier):
    if prop == "C12":
        # every line of the probe that mentions a variant is type-checked as well
        return [("debug", 1, "api " + ",".join(m for m in SOURCES))]
    if prop == "L03":
        return [(mode, 1, "packed %d" % (mode == "release")) for mode in ("debug", "release")]
    if prop == "L04":
        return [(mode, 1, "packed %d order" % (mode == "release")) for mode in ("debug", "release")]
    if prop in ("S01", "S02", "S03"):
        # every operation on its own, the iterators walked to this depth
        out = []
        for mode in ("debug", "release"):
            for op in ORDER_OPS if prop == "S03" else SET_OPS:
                out.append((mode, 4 if op in ("extend", "from_iter") else 1, "sets %d %d %s" % (mode == "release", 3 if tier == "quick" else 5, op)))
        return out
    if prop == "L02":
        return [(mode, 1, "values %d %d" % (mode == "release", 4 if tier == "quick" else 6)) for mode in ("debug", "release")]
    if prop in ("L01", "D01", "D02"):
        return map_tasks(prop, tier)
    if prop == "C03":
        return width_tasks(tier)
    if prop == "C10":
        out = vec_tasks(VEC_OPS[prop].split(), tier)
        for _, c, l in list(out):
            f = l.split()
            if f[5] == "iter":
                mode = "release" if f[4] == "1" else "debug"
                out.append((mode, 8, "iters %s %s" % (" ".join(f[1:5]), "2 iter,iter_ref,into_iter" if tier == "quick" else "3 iter,iter_ref,into_iter")))
        return out
    if prop in ("C14", "C15"):
        ops = {"C14": ["clone", "clone_from"], "C15": ["debug"]}[prop]
        return vec_tasks(VEC_OPS[prop].split(), tier) + [(mode, 1, "sets %d 3 %s" % (mode == "release", op)) for mode in ("debug", "release") for op in ops]
    if prop in VEC_OPS:
        return vec_tasks(VEC_OPS[prop].split(), tier)
    raise SystemExit("unknown property " + prop)


def shard(tasks, n):
    """Group the analyses of one configuration; heavy ones on their own."""
    out = []
    for mode in sorted({t[0] for t in tasks}):
        ts = sorted([t for t in tasks if t[0] == mode], key=lambda t: -t[1])
        total = sum(t[1] for t in ts)
        k = max(1, min(len(ts), n * 3))
        bins = [[0.0, []] for _ in range(k)]
        for t in ts:
            b = min(bins, key=lambda x: x[0])
            b[0] += t[1] + total * 0.0005
            b[1].append(t[2])
        out += [(b[0], mode, b[1]) for b in bins if b[1]]
    out.sort(key=lambda x: -x[0])
    return [(m, group(l)) for _, m, l in out]


def group(lines):
    """One analysis object per configuration."""
    d, rest = {}, []
    for l in lines:
        f = l.split()
        if f[0] == "vec":
            d.setdefault(tuple(f[:5]), []).append(f[5])
        else:
            rest.append(l)
    return [" ".join(k) + " " + ",".join(v) for k, v in d.items()] + rest


def unroll(prop, tier):
    return 2 if tier == "quick" else 3


def relevant(prop, o):
    p, site, what = o[0], o[2], o[3]
    if prop == "C02" and p == "C07":
        # every element is replaced by the one the function leaves behind
        return site.endswith("::for_each") and "afterwards" in what
    if prop == "C03" and p == "C02":
        # where the bits of an element are
        return site.endswith("::get") and what == "returned element"
    # an operation with undefined behaviour keeps none of its promises
    return p == prop or p == "*" or (p == "C01" and prop in ("C02", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C14", "C15"))


def api_property(f):
    """Whose violation it is that a line of the probe does not compile."""
    return {"lib.rs": "C12", "builtin.rs": "L01", "derived.rs": "D01", "values.rs": "L02", "packed.rs": "L03", "order.rs": "L04", "sets.rs": "S01"}[f]


def floor(prop):
    return {"L03": 8, "S02": 40}.get(prop, 20)


def level(prop):
    return "other"


def explain(prop):
    return (
        "Abstract interpretation of the type-checked MIR of /repo: every operation is analysed from an arbitrary "
        "vector (any length, capacity, content, unused bits) and arbitrary arguments, for each storage variant, element width and overflow mode listed. "
        "'obligations' are the facts required at program points and at exits, 'discharged' those implied by the abstract state, 'open' those the "
        "domains cannot decide (never reported as violations), 'refuted' those that provably fail."
    )


def rule(prop):
    return "an obligation is one required fact at one exit or program point of one analysed operation in one configuration"
