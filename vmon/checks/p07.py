"""Vinum configuration grammar."""
import datetime
import re

from vmon.vinumtext import random_config, random_line, read_config, read_line, spoil

CASES = {"quick": 12000, "thorough": 120000}
RULE = "distinct (objects per kind, line that ended the parse, keyword sets) parsed and compared"
MINIMUM = {"objects": 5000, "stopped_early": 500, "comparisons": 5000}

FIELDS = {"volumes": ("name", "state"), "plexes": ("name", "org", "stripesize", "volume", "state"),
          "sds": ("name", "drive", "length", "driveoffset", "plex", "plexoffset", "state")}


def observed(got):
    out = {}
    for kind, fields in FIELDS.items():
        rows = []
        for item in got[kind]:
            row = {}
            for f in fields:
                v = getattr(item, f)
                row[f] = v.name if f in ("state", "org") and v is not None else v
            rows.append(row)
        out[kind] = rows
    return out


def doubtful(text: bytes) -> bool:
    """Size words whose meaning the kernel and the tests leave open (a sign inside the digits)."""
    return bool(re.search(rb"[-0-9]-|^--", text))


def case(ctx, rng, idx, tier):
    from dissect.volume.vinum.config import parse_vinum_config

    when = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)
    for _ in range(4):
        text = random_config(rng)
        while doubtful(text):
            text = random_config(rng)
        ctx.params = dict(text=text.hex())
        want, used = read_config(text)
        got = ctx.lib("parse_vinum_config()", parse_vinum_config, when, text)
        with ctx.observing("configuration"):
            have = observed(got)
            for kind in FIELDS:
                ctx.eq(f"{kind} of {text!r}", have[kind], want[kind])
                for item in got[kind]:
                    ctx.eq("timestamp", item.timestamp, when)
        ctx.count("objects", used)
        content = [x for x in text.replace(b"\0", b"\n").split(b"\n") if x.split(b"#")[0].strip()]
        if used < len(content):
            ctx.count("stopped_early")
        ctx.state(len(want["volumes"]), len(want["plexes"]), len(want["sds"]),
                  content[used].split()[0][:8] if used < len(content) else "all")
