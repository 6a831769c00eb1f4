"""A small FITS reader/writer of our own (cfitsio is what the code under test
uses, so it is not what judges the files)."""
import gzip, numpy as np

DT = {8: ">u1", 16: ">i2", 32: ">i4", 64: ">i8", -32: ">f4", -64: ">f8"}


class FitsError(Exception):
    pass


class HDU:
    pass


def parse_value(v):
    v = v.strip()
    if v.startswith("'"):
        out, i = "", 1
        while i < len(v):
            if v[i] == "'":
                if i + 1 < len(v) and v[i + 1] == "'":
                    out += "'"
                    i += 2
                    continue
                break
            out += v[i]
            i += 1
        return out.rstrip()
    v = v.split("/")[0].strip()
    if v == "T":
        return True
    if v == "F":
        return False
    if v == "":
        return None
    try:
        return int(v)
    except ValueError:
        pass
    try:
        return float(v.replace("D", "E"))
    except ValueError:
        raise FitsError("bad header value %r" % v)


def ones_sum(b):
    """32-bit ones'-complement sum."""
    if len(b) % 4:
        raise FitsError("unaligned")
    s = int(np.frombuffer(b, dtype=">u4").astype(np.uint64).sum())
    while s >> 32:
        s = (s & 0xffffffff) + (s >> 32)
    return s


def read(path):
    op = gzip.open if path.endswith(".gz") else open
    with op(path, "rb") as f:
        raw = f.read()
    return parse(raw)


def parse(raw):
    if len(raw) == 0 or len(raw) % 2880:
        raise FitsError("length %d is not a positive multiple of 2880" % len(raw))
    pos, out = 0, []
    while pos < len(raw):
        h = HDU()
        start = pos
        cards = []
        done = False
        while not done:
            if pos + 2880 > len(raw):
                raise FitsError("no END card")
            blk = raw[pos:pos + 2880]
            pos += 2880
            for i in range(36):
                c = blk[i * 80:(i + 1) * 80].decode("latin-1")
                if done:
                    if c.strip():
                        raise FitsError("data after END card")
                    continue
                if c[:8] == "END     ":
                    done = True
                    continue
                if any(ord(x) < 32 or ord(x) > 126 for x in c):
                    raise FitsError("non-ASCII byte in header card %r" % c)
                cards.append(c)
        h.cards = cards
        h.kw, h.text, h.dups = {}, {"COMMENT": [], "HISTORY": []}, []
        i = 0
        while i < len(cards):
            c = cards[i]
            k = c[:8].strip()
            if k in h.text:
                h.text[k].append(c[8:].rstrip())
            elif c[8:10] == "= ":
                v = parse_value(c[10:])
                # CONTINUE long-string convention
                while isinstance(v, str) and v.endswith("&") and i + 1 < len(cards) \
                        and cards[i + 1][:8] == "CONTINUE":
                    i += 1
                    v = v[:-1] + parse_value(cards[i][10:])
                if k in h.kw:
                    h.dups.append(k)
                h.kw[k] = v
            i += 1
        k = h.kw
        if not out:
            if k.get("SIMPLE") is not True or not cards[0].startswith("SIMPLE"):
                raise FitsError("SIMPLE missing")
        else:
            if k.get("XTENSION") != "IMAGE":
                raise FitsError("XTENSION missing")
        h.bitpix = k.get("BITPIX")
        if h.bitpix not in DT:
            raise FitsError("BITPIX %r" % h.bitpix)
        n = k.get("NAXIS")
        h.axes = [k.get("NAXIS%d" % (j + 1)) for j in range(n)]
        if any((not isinstance(a, int)) or a < 0 for a in h.axes):
            raise FitsError("bad NAXISn")
        cnt = int(np.prod([int(a) for a in h.axes])) if n else 0
        nb = cnt * abs(h.bitpix) // 8
        pad = (nb + 2879) // 2880 * 2880
        if pos + pad > len(raw):
            raise FitsError("data truncated")
        d = raw[pos:pos + nb]
        h.pad = raw[pos + nb:pos + pad]
        h.data = None
        if n:
            h.data = np.frombuffer(d, dtype=DT[h.bitpix]).reshape(h.axes[::-1])
            h.data = h.data.astype(h.data.dtype.newbyteorder("="))
        h.datasum = ones_sum(raw[pos:pos + pad]) if pad else 0
        pos += pad
        h.hdusum = ones_sum(raw[start:pos])
        out.append(h)
    return out


def checksum_ok(h):
    """(datasum ok, checksum ok); None where the keyword is absent."""
    ds = h.kw.get("DATASUM")
    a = None if ds is None else (int(ds) == h.datasum)
    b = None if "CHECKSUM" not in h.kw else (h.hdusum in (0xffffffff, 0))
    return a, b


def physical(h):
    """Physical values as float64 (NaN where undefined)."""
    d = h.data.astype(np.float64)
    und = np.zeros(d.shape, bool)
    if h.bitpix > 0 and "BLANK" in h.kw:
        und = h.data == h.kw["BLANK"]
    d = d * float(h.kw.get("BSCALE", 1.0)) + float(h.kw.get("BZERO", 0.0))
    d[und] = np.nan
    return d


def card(k, v, comment=None):
    if isinstance(v, bool):
        s = "%-8s= %20s" % (k, "T" if v else "F")
    elif isinstance(v, int):
        s = "%-8s= %20d" % (k, v)
    elif isinstance(v, float):
        r = repr(v).upper()
        if "." not in r and "E" not in r:
            r += "."
        s = "%-8s= %20s" % (k, r)
    else:
        s = "%-8s= '%-8s'" % (k, str(v).replace("'", "''"))
    if comment:
        s += " / " + comment
    return s[:80].ljust(80)


def cards_of(k, v, comment=None):
    """one card, or several for a long string (FITS standard 4.0, 4.2.1.2)"""
    if not isinstance(v, str) or len(v.replace("'", "''")) <= 68:
        return [card(k, v, comment)]
    parts, cur = [], ""
    for c in v:
        q = "''" if c == "'" else c
        if len(cur) + len(q) > 67:
            parts.append(cur)
            cur = ""
        cur += q
    parts.append(cur)
    out = []
    for i, x in enumerate(parts):
        x += "&" if i + 1 < len(parts) else ""
        out.append((("%-8s= " % k if i == 0 else "CONTINUE  ") + "'" + x + "'").ljust(80))
    assert all(len(x) == 80 for x in out)
    return out


def encode(arr, bitpix, extra=(), primary=True, raw_cards=()):
    arr = np.asarray(arr)
    cards = [card("SIMPLE", True)] if primary else [card("XTENSION", "IMAGE")]
    cards += [card("BITPIX", bitpix), card("NAXIS", arr.ndim)]
    for i, n in enumerate(arr.shape[::-1]):
        cards.append(card("NAXIS%d" % (i + 1), int(n)))
    if not primary:
        cards += [card("PCOUNT", 0), card("GCOUNT", 1)]
    for kv in extra:
        cards += cards_of(*kv)
    cards += [c[:80].ljust(80) for c in raw_cards]
    cards.append("END".ljust(80))
    hdr = "".join(cards).encode("latin-1")
    hdr += b" " * (-len(hdr) % 2880)
    d = arr.astype(DT[bitpix]).tobytes()
    d += b"\0" * (-len(d) % 2880)
    return hdr + d


def write(path, arr, bitpix, extra=(), raw_cards=()):
    b = encode(arr, bitpix, extra, raw_cards=raw_cards)
    if path.endswith(".gz"):
        with gzip.open(path, "wb") as f:
            f.write(b)
    else:
        with open(path, "wb") as f:
            f.write(b)


def sums(arr, bitpix, extra=()):
    """a primary image with correct DATASUM and CHECKSUM"""
    plain = encode(arr, bitpix, extra)
    h = plain.index(b"END" + b" " * 77)
    hl = (h + 80 + 2879) // 2880 * 2880
    ex = list(extra) + [("CHECKSUM", "0" * 16), ("DATASUM", str(ones_sum(plain[hl:])))]
    raw = encode(arr, bitpix, ex)
    v = 0xffffffff ^ ones_sum(raw)
    code = [0] * 16
    for i in range(4):
        byte = (v >> (24 - 8 * i)) & 0xff
        q = [byte // 4 + 48] * 4
        q[0] += byte % 4
        while any(chr(c) in ":;<=>?@[\\]^_`" for c in q):
            for j in (0, 2):
                if any(chr(c) in ":;<=>?@[\\]^_`" for c in q[j:j + 2]):
                    q[j] += 1
                    q[j + 1] -= 1
        for j in range(4):
            code[4 * j + i] = q[j]
    t = bytes(code[-1:] + code[:-1]).decode()
    raw = raw.replace(b"'" + b"0" * 16 + b"'", b"'" + t.encode() + b"'", 1)
    assert ones_sum(raw) in (0, 0xffffffff)
    return raw
