"""Independent reading of the vinum configuration text, and random configuration texts."""
from __future__ import annotations

import re

DATA_START = 135680
UNITS = {"": 1, "b": 512, "B": 512, "s": 512, "S": 512, "k": 1024, "K": 1024, "m": 1 << 20, "M": 1 << 20, "g": 1 << 30, "G": 1 << 30}
STATES = {"volume": {b"up": "UP"}, "plex": {b"up": "UP", b"initializing": "INITIALIZING", b"degraded": "DEGRADED", b"growable": "GROWABLE"}}
STATES["sd"] = STATES["plex"]
ORGS = {b"concat": "CONCAT", b"striped": "STRIPED", b"raid5": "RAID5"}


class Bad(Exception):
    pass


def words(line: bytes):
    """Whitespace separated words up to a comment; a word starting with a quote is an error where it is met."""
    for m in re.finditer(rb"[^ \t]+", line):
        w = m.group()
        if w[:1] == b"#":
            return
        if w[:1] in b"\"'":
            raise Bad("quote")
        yield w


def size(word: bytes) -> int:
    m = re.fullmatch(rb"(-?[0-9]+)(.?)(.*)", word, re.S)
    if not m:
        return 0
    return int(m[1]) * UNITS.get(m[2].decode("latin1"), 1)


def read_line(line: bytes):
    """None for a line without content, otherwise (kind, attributes); Bad for a malformed line."""
    it = words(line)
    kind = next(it, None)
    if kind is None:
        return None

    def value():
        v = next(it, None)
        if v is None:
            raise Bad("value")
        return v

    if kind == b"volume":
        out = dict(name=None, state=None)
        for w in it:
            if w == b"state":
                out["state"] = STATES["volume"].get(value(), "DOWN")
            else:
                out["name"] = w
        if out["name"] is None:
            raise Bad("name")
        return "volumes", out
    if kind == b"plex":
        out = dict(name=None, org=None, stripesize=None, volume=None, state=None)
        for w in it:
            if w == b"name":
                out["name"] = value()
            elif w == b"org":
                out["org"] = ORGS.get(value(), "DISORG")
                if out["org"] in ("STRIPED", "RAID5"):
                    out["stripesize"] = size(value())
                    if out["stripesize"] <= 0:
                        raise Bad("stripe size")
            elif w in (b"vol", b"volume"):
                out["volume"] = value()
            elif w == b"state":
                out["state"] = STATES["plex"].get(value(), "DOWN")
            else:
                raise Bad("keyword")
        return "plexes", out
    if kind == b"sd":
        out = dict(name=None, drive=None, length=None, driveoffset=None, plex=None, plexoffset=None, state=None)
        for w in it:
            if w in (b"name", b"drive", b"plex"):
                out[w.decode()] = value()
            elif w in (b"len", b"length"):
                out["length"] = max(-1, size(value()))
            elif w == b"driveoffset":
                n = size(value())
                if n != 0 and n < DATA_START:
                    raise Bad("drive offset")
                out["driveoffset"] = n
            elif w == b"plexoffset":
                n = size(value())
                if n < 0:
                    raise Bad("plex offset")
                out["plexoffset"] = n
            elif w == b"state":
                out["state"] = STATES["sd"].get(value(), "DOWN")
            else:
                raise Bad("keyword")
        if out["drive"] is None:
            raise Bad("drive")
        return "sds", out
    raise Bad("kind")


def read_config(text: bytes) -> tuple[dict, int]:
    out = {"volumes": [], "plexes": [], "sds": []}
    used = 0
    for line in text.replace(b"\0", b"\n").split(b"\n"):
        try:
            item = read_line(line)
        except Bad:
            break
        if item:
            out[item[0]].append(item[1])
            used += 1
    return out, used


# ------------------------------------------------------------------------------------------------------
def size_word(rng, n: int) -> bytes:
    """Write n bytes in one of the units that can express it."""
    fits = [u for u, f in UNITS.items() if n % f == 0]
    u = rng.choice(fits)
    return f"{n // UNITS[u]}{u}".encode()


def space(rng, least=1) -> bytes:
    return bytes(rng.choices(b" \t", k=max(least, rng.choice([1, 1, 1, 2, 4]))))


def render(rng, kind: bytes, fields: list[list[bytes]], messy=True) -> bytes:
    out = kind
    if messy and rng.random() < 0.3:
        rng.shuffle(fields)
    for f in fields:
        for w in f:
            out += (space(rng) if messy else b" ") + w
    if messy:
        if rng.random() < 0.2:
            out = space(rng) + out
        if rng.random() < 0.2:
            out += space(rng)
        if rng.random() < 0.2:
            out += space(rng) + b"#" + rng.choice([b"", b" comment", b" 'quoted \"comment", b"sd drive x"])
    return out


def name_word(rng) -> bytes:
    return rng.choice([b"vol", b"raid.p0", b"x", b"my#vol", b"it's", b'a"b', b"\xff\xfe", b"v\x0bt", b"c\rr", b"n\xc2\xa0b", b"d" * 31, b"state1", b"name", b"up"]) + \
        (b"%d" % rng.randint(0, 9) if rng.random() < 0.6 else b"")


def state_word(rng) -> bytes:
    return rng.choice([b"up", b"up", b"down", b"initializing", b"degraded", b"growable", b"stale", b"UP", b"foo", b"crashed"])


def odd_size(rng) -> bytes:
    """A number with a unit nobody knows, or more behind its unit."""
    return b"%d" % rng.randint(0, 1 << 20) + rng.choice([b"t", b"T", b"p", b"x", b"kb", b"MB", b"Gi", b"ss", b".5", b"k5", b"\xff", b"%"])


def random_line(rng) -> bytes:
    k = rng.choice(["volume", "plex", "sd", "sd"])
    f: list[list[bytes]] = []
    any_size = lambda: size_word(rng, rng.choice([0, 1, 512, 1024, 135680, 1 << 20, 3 << 30, rng.randint(0, 1 << 40)]))
    if k == "volume":
        n = name_word(rng)
        while n == b"state":
            n = name_word(rng)
        f.append([n])
        if rng.random() < 0.7:
            f.append([b"state", state_word(rng)])
    elif k == "plex":
        if rng.random() < 0.9:
            f.append([b"name", name_word(rng)])
        if rng.random() < 0.9:
            o = rng.choice([b"concat", b"striped", b"raid5", b"?", b"raid4", b"Concat"])
            f.append([b"org", o] + ([size_word(rng, rng.choice([1, 512, 65536, 262144, 1 << 20]))] if o in (b"striped", b"raid5") else []))
        if rng.random() < 0.8:
            f.append([rng.choice([b"vol", b"volume"]), name_word(rng)])
        if rng.random() < 0.7:
            f.append([b"state", state_word(rng)])
    else:
        f.append([b"drive", name_word(rng)])
        if rng.random() < 0.8:
            f.append([b"name", name_word(rng)])
        if rng.random() < 0.8:
            f.append([rng.choice([b"len", b"length"]), rng.choice([any_size(), any_size(), b"-1", b"-5k", odd_size(rng)])])
        if rng.random() < 0.8:
            f.append([b"driveoffset", rng.choice([b"0", b"265s", b"135680", b"135681", size_word(rng, DATA_START + 512 * rng.randint(0, 1 << 30))])])
        if rng.random() < 0.8:
            f.append([b"plex", name_word(rng)])
        if rng.random() < 0.8:
            f.append([b"plexoffset", any_size()])
        if rng.random() < 0.7:
            f.append([b"state", state_word(rng)])
    return render(rng, k.encode(), f)


def spoil(rng, line: bytes) -> bytes:
    """One single-token change."""
    ws = line.split()
    if not ws:
        return line
    i = rng.randrange(len(ws))
    r = rng.randrange(8)
    if r == 0:
        del ws[i]
    elif r == 1:
        ws.insert(i, rng.choice([b"foo", b"#", b"'", b'"x"', b"state", b"name", b"drive", b"org", b"length", b"driveoffset"]))
    elif r == 2:
        ws[i] = rng.choice([b"foo", b"0", b"-1", b"135679", b"264s", b"-0", b"12q", b"q", b"-", b"7kb", b"Volume", b"'a", b"#a", b"a#"])
    elif r == 3:
        ws = ws[: i + 1]
    elif r == 4:
        ws.insert(i, ws[i])
    elif r == 5:
        ws.append(rng.choice([b"state", b"len", b"vol", b"plex", b"'", b"#x", b"extra"]))
    elif r == 6:
        ws[i] = ws[i].upper()
    else:
        ws[0] = rng.choice([b"drive", b"vol", b"plexes", b"#" + ws[0], b"'" + ws[0], b"Volume"])
    return b" ".join(ws)


def random_config(rng) -> bytes:
    r = rng.random()
    lines = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 16])):
        lines.append(random_line(rng))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        lines.insert(rng.randint(0, len(lines)), rng.choice([b"", b"   ", b"\t", b"# comment", b"  #'x'", b"#volume a"]))
    if r < 0.55 and lines:
        i = rng.randrange(len(lines))
        lines[i] = spoil(rng, lines[i])
    elif r < 0.62:
        lines.insert(rng.randint(0, len(lines)), bytes(rng.choices(b"volumeplxsdnar \t#'\"0123456789", k=rng.randint(0, 40))))
    elif r < 0.68:
        lines.insert(rng.randint(0, len(lines)), rng.randbytes(rng.randint(0, 40)))
    out = b""
    for x in lines:
        out += x + rng.choice([b"\n", b"\n", b"\n", b"\0", b"\n\n", b"\0\n"])
    if rng.random() < 0.3:
        out = out.rstrip(b"\n\0")
    else:
        out += b"\0" * rng.choice([0, 1, 500])
    return out
