"""Stacks of volumes."""
from vmon import zoo
from vmon.checks.p17 import PrefixMonitor, bounded_model
from vmon.monitor import StreamMonitor
from vmon.stack import Layer

CASES = {"quick": 1800, "thorough": 16000}
RULE = "distinct (outermost kind, carriers of each layer)"
MINIMUM = {"stream_ops": 15000, "stacks": 1000, "deep_stacks": 300}

# metadata is found from the end of these
FROM_THE_END = ("md", "ddf", "raid")


def case(ctx, rng, idx, tier):
    kind = zoo.KINDS[idx % len(zoo.KINDS)]
    setup = zoo.make(rng, kind)
    for d in setup.disks:
        # an odd end: not part of the metadata at the end, but maybe of the last partition
        d.size += -d.size % 512 if kind not in FROM_THE_END else -(d.size % 512)
    layers = []
    disks = setup.disks
    next_id = 1000
    need_exact = kind in FROM_THE_END
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        if max(d.size for d in disks) > 1 << 58 or len(disks) > 25:
            break
        layer = Layer(rng, disks, next_id, need_exact)
        need_exact = True
        layers.append(layer)
        disks = layer.disks
        next_id = layer.next_id
    ctx.params = dict(kind=kind, tag=repr(setup.tag), layers=[layer.names for layer in layers])
    if not layers:
        return
    ctx.count("stacks")
    ctx.count("deep_stacks", len(layers) > 1)
    fhs = [ctx.source(d, f"disk{i}", with_size=rng.random() < 0.5) for i, d in enumerate(disks)]
    for depth in range(len(layers) - 1, -1, -1):
        above = layers[depth - 1].disks if depth else setup.disks
        with ctx.observing(f"opening the carriers {layers[depth].names} of {kind}"):
            fhs = layers[depth].open(ctx, fhs, len(above))
    with ctx.observing(f"{kind}: opening on top of {[x.names for x in layers]}"):
        vols = setup.enter(ctx, fhs)
    label = " on ".join([kind, *("+".join(x.names) for x in layers)])
    mons = []
    for vol in rng.sample(vols, min(len(vols), 4)):
        stream = ctx.lib(f"{vol.label}: open", vol.open)
        cls = PrefixMonitor if vol.prefix else StreamMonitor
        mons.append(cls(ctx, stream, bounded_model(vol, stream, ctx), f"{vol.label} ({label})", grains=vol.grains, max_len=70000, hot=vol.hot))
    for _ in range(20 if mons else 0):
        m = rng.choice(mons)
        m.step(rng)
        if rng.random() < 0.1:
            rng.choice(fhs).seek(rng.choice([0, 512, 100000]))
    ctx.state(kind, *(layer.names for layer in layers))
