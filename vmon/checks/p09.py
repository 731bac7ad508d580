"""LVM2 metadata discovery and text format."""
import copy

from vmon.build_lvm import UNSUPPORTED, VG, new_uuid, random_string, random_value, write_text
from vmon.content import SparseDisk
from vmon.monitor import Violation

CASES = {"quick": 6000, "thorough": 60000}
ANY_POSITION = True
RULE = "distinct (text style, label sector, ring position class, copies, device order class, sequence number pattern) located and compared"
MINIMUM = {"comparisons": 10000, "descriptions": 1200, "wrapped": 100, "stale_copies": 200, "expected_errors": 10}


KNOWN_SETTINGS = {"striped": ["stripe_count"], "linear": ["stripe_count"]}
for u in UNSUPPORTED:
    KNOWN_SETTINGS.setdefault(u["type"].split("+")[0], []).extend(k for k in u if k not in ("type", "raids", "mirrors", "blah"))


def decorate(rng, vg, tree):
    """Values of all kinds in places where they do not change what the description means."""
    sections = [tree[vg.name], *tree[vg.name]["physical_volumes"].values()]
    for lv in tree[vg.name].get("logical_volumes", {}).values():
        sections.append(lv)
        sections += [s for s in lv.values() if isinstance(s, dict)]
    for s in sections:
        for _ in range(rng.choice([0, 0, 1, 3])):
            s[rng.choice(["x_%d", "zz-%d", "my.key%d", "k+%d"]) % rng.randint(0, 99)] = random_value(rng)
        if rng.random() < 0.2 and "start_extent" in s:
            s["settings"] = {"a": random_value(rng), "deep": {"b": random_value(rng), "empty": {}}}
        if rng.random() < 0.2:
            s["tags"] = [random_string(rng) for _ in range(rng.choice([0, 1, 3]))]
    tree["description"] = random_string(rng)
    tree["creation_host"] = random_string(rng)
    return tree


def compare_tree(ctx, path, got, want):
    if isinstance(want, dict):
        if not isinstance(got, dict):
            raise Violation("wrong value", f"{path}: {got!r} instead of a section")
        gk = [k for k in got if k != "_raw"]
        ctx.eq(f"names in {path}", sorted(gk), sorted(want))
        for k, v in want.items():
            compare_tree(ctx, f"{path}/{k}", got[k], v)
    else:
        ctx.eq(path, (type(got).__name__, got), (type(want).__name__, want))


def check_objects(ctx, vg, tree, lvm, present):
    sec = tree[vg.name]
    with ctx.observing("volume group"):
        g = lvm.vg
        for attr, want in [("name", vg.name), ("id", sec["id"]), ("seqno", sec["seqno"]), ("status", sec["status"]), ("flags", sec["flags"]),
                           ("extent_size", sec["extent_size"]), ("max_lv", 0), ("max_pv", 0), ("tags", sec.get("tags"))]:
            ctx.eq(f"vg {attr}", getattr(g, attr), want)
        ctx.eq("pv names", [p.name for p in g.pv], list(sec["physical_volumes"]))
        for p in g.pv:
            s = sec["physical_volumes"][p.name]
            for a in ("id", "status", "pe_start", "pe_count", "dev_size", "device"):
                ctx.eq(f"pv {a}", getattr(p, a), s[a])
            ctx.eq(f"{p.name} attached", p.dev is not None, p.name in present)
            if p.dev is not None:
                ctx.eq(f"{p.name} device", p.dev.id, s["id"].replace("-", ""))
            ctx.eq("pv's group", p.volume_group is g and p.vg is g, True)
        hist = sec.get("historical_logical_volumes", {})
        when = lambda t: t and t.timestamp()
        ctx.eq("removed volumes", [(h.id, h.name, when(h.creation_time), when(h.removal_time), h.origin, h.descendants, h.vg is g, h.volume_group is g)
                                   for h in (g.historical_logical_volumes or {}).values()],
               [(h["id"], h.get("name") or k, h.get("creation_time"), h.get("removal_time"), h.get("origin"), h.get("descendants"), True, True)
                for k, h in hist.items()])
        lvs = sec.get("logical_volumes", {})
        ctx.eq("lv names", [v.name for v in g.lv], list(lvs))
        for v in g.lv:
            s = lvs[v.name]
            segs = [x for x in s.values() if isinstance(x, dict)]
            for a in ("id", "status", "flags", "segment_count"):
                ctx.eq(f"lv {a}", getattr(v, a), s[a])
            ctx.eq("lv's group", v.volume_group is g and v.vg is g, True)
            ctx.eq("visible", v.is_visible, "VISIBLE" in s["status"])
            ctx.eq("lv type", v.type, segs[0]["type"].split("+")[0])
            ctx.eq("segments", [(x.start_extent, x.extent_count, x.type, list(x.flags)) for x in v.segments],
                   [(x["start_extent"], x["extent_count"], x["type"].split("+")[0], x["type"].split("+")[1:]) for x in segs])
            ctx.eq("segment names", [(x.name, x.lv is v, x.logical_volume is v) for x in v.segments],
                   [(k, True, True) for k, x in s.items() if isinstance(x, dict)])
            for x, w in zip(v.segments, segs):
                for k, value in w.items():
                    # settings the library knows for this kind of segment
                    if k in KNOWN_SETTINGS.get(w["type"].split("+")[0], ()):
                        ctx.eq(f"{w['type']} {k}", getattr(x, k), value)
                if "raids" in w:
                    ctx.eq("raids", [tuple(t) for t in x.raids], list(zip(w["raids"][::2], w["raids"][1::2])))
                if w["type"].split("+")[0] in ("striped", "linear"):
                    ctx.eq("stripes", [tuple(t) for t in x.stripes], list(zip(w["stripes"][::2], w["stripes"][1::2])))
                elif w["type"].startswith("mirror"):
                    ctx.eq("mirrors", [tuple(t) for t in x.mirrors], list(zip(w["mirrors"][::2], w["mirrors"][1::2])))
        ctx.eq("contents", lvm.contents, tree["contents"])
        ctx.eq("version", lvm.version, tree["version"])
        ctx.eq("description", lvm.description, tree["description"])
        ctx.eq("creation host", lvm.creation_host, tree["creation_host"])
        ctx.eq("creation time", lvm.creation_time.timestamp(), float(tree["creation_time"]))


def case(ctx, rng, idx, tier):
    from dissect.volume.exceptions import LVM2Error
    from dissect.volume.lvm import LVM2

    if idx % 60 == 59:
        fh = ctx.source(SparseDisk(9, rng.choice([2048, 4096, 1 << 20]), zero=rng.random() < 0.5), "plain")
        ctx.expect_error("LVM2() without label", LVM2Error, LVM2, fh)
        return
    vg = VG(rng, name=rng.choice(["vg0", "my-vg", "vg_1.x", "VG+a"]), extent_sectors=rng.choice([8, 8, 2048]))
    for i in range(rng.choice([0, 1, 2, 4])):
        if rng.random() < 0.3:
            vg.mirror_lv(f"mir{i}")
        elif rng.random() < 0.3:
            u = copy.deepcopy(rng.choice(UNSUPPORTED))
            vg.add_lv(f"odd{i}", [{"start_extent": 0, "extent_count": 4, **u}])
        else:
            vg.plain_lv(rng.choice(["lv%d", "data-%d", "x.y_%d"]) % i)
    if rng.random() < 0.15:
        vg.extra["historical_logical_volumes"] = {
            f"-old{i}": {"id": new_uuid(rng), **{k: v for k, v in {
                "name": f"gone{i}", "creation_time": 1500000000 + i, "removal_time": 1600000000 + i, "origin": "x",
                "descendants": ["a", "b"]}.items() if rng.random() < 0.8}} for i in range(rng.randint(1, 3))}
    style = rng.choice(["lvm", "free"])
    top = {}
    tree = decorate(rng, vg, copy.deepcopy(vg.tree(**top)))
    text = write_text(rng, tree, style).encode()
    longest = len(text) + 4096
    for p in vg.pvs:
        need = -(-(longest + 512 + 4096 + rng.choice([512, 4096, 65536])) // 512)
        if p.pe_start < need:
            p.pe_start = need
            p.disk = SparseDisk(p.disk_id, p.pe_start * 512 + p.count * vg.extent)
    sec_by = tree[vg.name]["physical_volumes"]
    for p in vg.pvs:
        sec_by[p.name]["pe_start"] = p.pe_start
        sec_by[p.name]["dev_size"] = p.disk.size // 512
    text = write_text(rng, tree, style).encode()
    # which device holds what: the current description, an older one, or none
    holders = {}
    for p in vg.pvs:
        holders[p.name] = rng.choice(["current", "current", "old", "none", "ignored", "no-area"])
    if "current" not in holders.values():
        holders[rng.choice(vg.pvs).name] = "current"
    devices = []
    ringclass = set()
    for p in vg.pvs:
        kind = holders[p.name]
        body = None
        if kind == "current":
            body = text
        elif kind == "old":
            old = copy.deepcopy(tree)
            v = old[vg.name]
            v["seqno"] = rng.choice([0, max(0, v["seqno"] - 1), rng.randint(0, v["seqno"] - 1)])
            lvs = v.get("logical_volumes")
            if lvs and rng.random() < 0.7:
                lvs["old-name"] = lvs.pop(rng.choice(list(lvs)))
            v["extent_size"] = 8192
            old["description"] = "old"
            # clocks may be set back
            old["creation_time"] += rng.randint(-1000, 1000)
            body = write_text(rng, old, "lvm").encode()
            ctx.count("stale_copies")

        def ring(room, n):
            r = rng.random()
            if r < 0.4:
                ringclass.add("inside")
                return rng.randint(0, (room - n) // 512) * 512
            if r < 0.5:
                ringclass.add("flush")
                return room - n
            ringclass.add("wrapped")
            ctx.count("wrapped")
            lo = -(-(room - n) // 512)
            return min(room - 1, rng.randint(lo, max(lo, (room - 1) // 512)) * 512) if rng.random() < 0.7 else rng.randint(room - n + 1, room - 1)

        label = rng.choice([0, 1, 1, 1, 2, 3])
        vg.write_device(p, body, label_sector=label, areas=0 if kind == "no-area" else 1, ignored=kind == "ignored", ring=ring,
                        header_offset=rng.choice([32, 32, 64, 100]))
        if label > 0 and rng.random() < 0.3:
            p.disk.write(rng.randrange(label) * 512, b"LABELTWO" + rng.randbytes(504))
        if label < 3 and rng.random() < 0.2:
            # remains of an older label further on are not used
            p.disk.write(3 * 512, b"LABELONE" + rng.randbytes(504))
        devices.append(p)
    if len(devices) > 1 and rng.random() < 0.3:
        gone = rng.choice(devices)
        if any(holders[p.name] == "current" for p in devices if p is not gone):
            devices.remove(gone)
    rng.shuffle(devices)
    ctx.params = dict(holders=holders, style=style, order=[p.name for p in devices], text=text.decode()[:3000])
    fhs = [ctx.source(p.disk, p.name, with_size=rng.random() < 0.5) for p in devices]
    for f in fhs:
        f.seek(rng.randint(0, 5000))
    lvm = ctx.lib("LVM2()", LVM2, fhs[0] if len(fhs) == 1 else fhs)
    with ctx.observing("metadata"):
        compare_tree(ctx, "", lvm.metadata, tree)
    check_objects(ctx, vg, tree, lvm, {p.name for p in devices})
    ctx.count("descriptions")
    first = holders[devices[0].name]
    ctx.state(style, sorted(ringclass), first, len(devices), len(vg.pvs) - len(devices), sorted(set(holders.values())))
