"""Incomplete sets: an error or the right bytes."""
from vmon import zoo
from vmon.monitor import Violation
from vmon.steps import BudgetExceeded

CASES = {"quick": 3500, "thorough": 20000}
ANY_POSITION = True
RULE = "distinct (set kind, shape, number of missing members, outcome of opening)"
MINIMUM = {"incomplete_sets": 3000, "errors": 1500, "exact_reads": 5000, "working_mirrors": 150}
KINDS = ["raid", "md", "md", "ddf", "vinum", "lvm", "raid", "lvmthin"]


def attempt(ctx, what, fn, must):
    """None if an ordinary error was raised (and one is acceptable)."""
    ctx.count("lib_calls")
    try:
        return fn()
    except Violation:
        raise
    except BudgetExceeded as e:
        raise Violation("unbounded work", f"{what}: {e}") from None
    except Exception as e:
        if must:
            raise Violation("unexpected error", f"{what}: {type(e).__name__}: {e}") from e
        ctx.count("errors")
        return None


def spots(rng, vol, chunks):
    size = vol.model.size
    chunk = vol.grains[0]
    out = [(0, min(size, 4096)), (max(0, size - 5000), 5000)]
    for i in range(chunks):
        # one piece of every chunk in turn, so that every member is asked
        out.append((min(i * chunk + rng.choice([0, 1, 100]), max(0, size - 1)), rng.choice([1, 64, 512])))
    for _ in range(6):
        out.append((rng.randint(0, size), rng.choice([1, 512, chunk, 2 * chunk + 1, 70000])))
    if size < 1 << 20:
        out.append((0, size))
    return out


def check_volume(ctx, rng, vol, missing, what):
    must = vol.works
    stream = attempt(ctx, f"{what}: open", vol.open, must)
    if stream is None:
        return "open refused"
    if must:
        ctx.count("working_mirrors")
    failed = exact = 0
    for off, n in spots(rng, vol, 12):
        n = max(0, min(n, vol.model.size - off, 1 << 20))

        def read():
            stream.seek(off)
            return stream.read(n)

        got = attempt(ctx, f"{what}: read {n} at {off:#x}", read, must)
        if got is None:
            failed += 1
            continue
        want = vol.model.read(off, n)
        ctx.count("exact_reads")
        exact += 1
        if bytes(got) != want:
            got = bytes(got)
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("wrong data", f"{what}: read {n} at {off:#x} gave {len(got)} bytes, first difference at +{i}: {got[i:i + 8].hex()} != {want[i:i + 8].hex()}")
    return "all" if not failed else "some" if exact else "none"


def case(ctx, rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    while True:
        setup = zoo.make(rng, kind, big=rng.random() < 0.1)
        if len(setup.disks) > 1:
            break
    n = len(setup.disks)
    ctx.params = dict(kind=kind, tag=repr(setup.tag), members=n)
    subsets = [set(i for i in range(n) if m >> i & 1) for m in range(1, (1 << n) - 1)]
    limit = 6 if tier == "quick" else 14
    if len(subsets) > limit:
        singles = [s for s in subsets if len(s) == 1]
        subsets = rng.sample(singles, min(len(singles), limit // 2)) + rng.sample(subsets, limit // 2)
    for missing in subsets:
        ctx.params["missing"] = sorted(missing)
        fhs = [None if i in missing else ctx.source(d, f"{kind}{i}", with_size=rng.random() < 0.5) for i, d in enumerate(setup.disks)]
        what = f"{kind} {setup.tag} of {n} without {sorted(missing)}"
        ctx.count("incomplete_sets")
        vols = attempt(ctx, what, lambda: setup.enter(ctx, fhs), setup.alive(fhs))
        if vols is None:
            ctx.state(kind, *setup.tag, len(missing), "set refused")
            continue
        for vol in vols:
            how = check_volume(ctx, rng, vol, missing, f"{what}: {vol.label}")
            ctx.state(kind, vol.label.split()[0], *setup.tag[:2], n, len(missing), how)
