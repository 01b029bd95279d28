"""independent Radiance RGBE codec (no Radiance tool, no raytools code)"""
import re
import numpy as np


def encode(rgb, header=(), rle=True, fmt="32-bit_rle_rgbe", res=None,
           magic=b"#?RADIANCE\n"):
    """rgb: (H, W, 3) floats, row 0 is the top; returns file bytes"""
    h, w = rgb.shape[:2]
    m = rgb.max(-1)
    with np.errstate(all="ignore"):
        man, ex = np.frexp(m)
        sc = np.where(m > 1e-32, man * 256.0 / np.where(m > 0, m, 1), 0)
    px = np.zeros((h, w, 4), np.uint8)
    px[..., :3] = np.clip(rgb * sc[..., None], 0, 255).astype(np.uint8)
    px[..., 3] = np.where(m > 1e-32, ex + 128, 0)
    out = [magic]
    for l in header:
        out.append(l.encode() + b"\n")
    out.append(b"FORMAT=" + fmt.encode() + b"\n\n")
    out.append(res or b"-Y %d +X %d\n" % (h, w))
    return b"".join(out) + pixels(px, rle), px


def pixels(px, rle):
    h, w = px.shape[:2]
    if not rle or w < 8 or w > 32767:
        return px.tobytes()
    out = bytearray()
    for row in px:
        out += bytes((2, 2, w >> 8, w & 255))
        for c in range(4):
            out += rle_row(row[:, c].tobytes())
    return bytes(out)


def rle_row(b):
    out = bytearray()
    i, n = 0, len(b)
    while i < n:
        r = 1
        while i + r < n and r < 127 and b[i + r] == b[i]:
            r += 1
        if r >= 4:
            out += bytes((128 + r, b[i]))
            i += r
        else:
            j = i
            while j < n and j - i < 128:
                if j + 3 < n and b[j] == b[j + 1] == b[j + 2] == b[j + 3]:
                    break
                j += 1
            out.append(j - i)
            out += b[i:j]
            i = j
    return bytes(out)


def values(px):
    """(H, W, 4) uint8 -> (H, W, 3) float64 as Radiance defines them"""
    p = px.astype(float)
    f = np.ldexp(1.0, px[..., 3].astype(int) - 136)
    v = (p[..., :3] + 0.5) * f[..., None]
    return np.where(px[..., 3:] == 0, 0.0, v)


class BadImage(Exception):
    pass


def split(data):
    """-> header lines (list of str), resolution line, offset of pixels"""
    if not data.startswith(b"#?"):
        raise BadImage("no magic")
    i = data.find(b"\n\n")
    if i < 0:
        raise BadImage("header not terminated")
    lines = data[:i].decode("utf-8", "replace").split("\n")
    j = data.find(b"\n", i + 2)
    if j < 0:
        raise BadImage("no resolution line")
    return lines, data[i + 2:j].decode("latin1"), j + 1


def decode(data):
    """-> header lines, (H, W, 3) values row 0 top, left to right"""
    lines, res, off = split(data)
    m = re.match(r"\s*([-+])Y\s+(\d+)\s+([-+])X\s+(\d+)\s*$", res)
    if not m:
        raise BadImage(f"resolution {res!r}")
    h, w = int(m.group(2)), int(m.group(4))
    px = np.zeros((h, w, 4), np.uint8)
    pos = off
    n = len(data)
    for y in range(h):
        if w >= 8 and w <= 32767 and data[pos:pos + 2] == b"\2\2" \
                and pos + 4 <= n and (data[pos + 2] << 8 | data[pos + 3]) == w:
            pos += 4
            for c in range(4):
                x = 0
                while x < w:
                    if pos >= n:
                        raise BadImage("pixels truncated")
                    k = data[pos]
                    pos += 1
                    if k > 128:
                        if pos >= n:
                            raise BadImage("pixels truncated")
                        k &= 127
                        if x + k > w:
                            raise BadImage("bad run")
                        px[y, x:x + k, c] = data[pos]
                        pos += 1
                    else:
                        seg = data[pos:pos + k]
                        if len(seg) < k or x + k > w:
                            raise BadImage("pixels truncated")
                        px[y, x:x + k, c] = np.frombuffer(seg, np.uint8)
                        pos += k
                    x += k
        else:
            x = 0
            shift = 0
            while x < w:
                q = data[pos:pos + 4]
                if len(q) < 4:
                    raise BadImage("pixels truncated")
                pos += 4
                if q[0] == q[1] == q[2] == 1 and x > 0:
                    k = q[3] << shift
                    px[y, x:x + k] = px[y, x - 1]
                    x += k
                    shift += 8
                else:
                    px[y, x] = np.frombuffer(q, np.uint8)
                    x += 1
                    shift = 0
    if pos != n:
        raise BadImage(f"{n - pos} bytes after the last pixel")
    if m.group(1) == "+":
        px = px[::-1]
    if m.group(3) == "-":
        px = px[:, ::-1]
    return lines, values(px)


def exposure(lines):
    e = 1.0
    for l in lines:
        if l.startswith("EXPOSURE="):
            e *= float(l.split("=", 1)[1])
    return e


LUM = np.array((0.26507413, 0.67011463, 0.06481124))


def to_xy(rgb):
    """(H, W, 3) -> (3, X, Y) as hdr2carray orients it"""
    return np.transpose(rgb[::-1], (2, 1, 0))
