"""HEALPix RING scheme, from its definition."""
import math


def rings(nside):
    """(first pixel, number of pixels, z, first longitude, spacing) of rings 1..4 nside - 1"""
    out, p = [], 0
    for i in range(1, 4 * nside):
        j = 4 * nside - i
        if i < nside:
            n, z, s = 4 * i, 1 - i * i / (3. * nside ** 2), 0.5
        elif i <= 3 * nside:
            n, z, s = 4 * nside, 4. / 3 - 2. * i / (3 * nside), 0.5 * ((i - nside + 1) % 2)
        else:
            n, z, s = 4 * j, -1 + j * j / (3. * nside ** 2), 0.5
        out.append((p, n, z, s * 2 * math.pi / n, 2 * math.pi / n))
        p += n
    assert p == 12 * nside ** 2
    return out


def pixels(nside):
    """(z, phi) of every pixel"""
    return [(z, f + k * d) for p, n, z, f, d in rings(nside) for k in range(n)]


def vec(zp):
    z, p = zp
    s = math.sqrt((1 - z) * (1 + z))
    return s * math.cos(p), s * math.sin(p), z


def vecs(nside):
    return [vec(x) for x in pixels(nside)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def nest2ring(nside, p):
    """RING index of a NEST pixel, from the definition of the base pixels"""
    f, q = divmod(p, nside * nside)
    x = y = b = 0
    while q:
        x |= (q & 1) << b
        y |= ((q >> 1) & 1) << b
        q >>= 2
        b += 1
    jr = (2, 3, 4)[f // 4] * nside - x - y - 1
    first, n = rings(nside)[jr - 1][:2]
    i = n // 4
    if nside <= jr <= 3 * nside:
        i, k = nside, (jr - nside) % 2
    else:
        k = 0
    j = ((2 * (f % 4) + (f // 4 != 1)) * i + x - y + 1 + k) // 2
    return first + (j - 1) % n
