"""Vincenty's formulae (T. Vincenty, 1975), for an ellipsoid of flattening f
and equatorial radius a; angles in radians."""

import math


def turn(x):
    """The direction x in 0 .. 2 pi."""
    if x < 0.0:
        x = x + 2 * math.pi
    if x > 2 * math.pi:
        x = x - 2 * math.pi
    return x


def inverse(f, a, lat1, lon1, lat2, lon2):
    """Distance of two points, direction from the first to the second and
    from the second to the first."""
    if abs(lat2 - lat1) < 1e-8 and abs(lon2 - lon1) < 1e-8:
        return 0.0, 0.0, 0.0
    U1 = math.atan((1 - f) * math.tan(lat1))
    U2 = math.atan((1 - f) * math.tan(lat2))
    L = lon2 - lon1
    lam = L
    while True:
        sin2_sigma = (math.cos(U2) * math.sin(lam)) ** 2 + (
            math.cos(U1) * math.sin(U2) -
            math.sin(U1) * math.cos(U2) * math.cos(lam)) ** 2
        sin_sigma = math.sqrt(sin2_sigma)
        cos_sigma = (math.sin(U1) * math.sin(U2) +
                     math.cos(U1) * math.cos(U2) * math.cos(lam))
        sigma = math.atan2(sin_sigma, cos_sigma)
        sin_alpha = (math.cos(U1) * math.cos(U2) * math.sin(lam) /
                     math.sin(sigma))
        alpha = math.asin(max(-1.0, min(1.0, sin_alpha)))
        cos2_alpha = math.cos(alpha) ** 2
        m = math.cos(sigma) - 2 * math.sin(U1) * math.sin(U2) / cos2_alpha
        C = f / 16 * cos2_alpha * (4 + f * (4 - 3 * cos2_alpha))
        before = lam
        lam = L + (1 - C) * f * math.sin(alpha) * (
            sigma + C * math.sin(sigma) * (
                m + C * math.cos(sigma) * (-1 + 2 * m ** 2)))
        if not (lam != 0 and abs((before - lam) / lam) > 1e-9):
            break
    b = a * (1 - f)
    u2 = cos2_alpha * (a ** 2 - b ** 2) / b ** 2
    A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
    B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
    delta = B * sin_sigma * (m + B / 4 * (
        cos_sigma * (-1 + 2 * m ** 2) -
        B / 6 * m * (-3 + 4 * sin2_sigma) * (-3 + 4 * m ** 2)))
    s = b * A * (sigma - delta)
    there = math.atan2(
        math.cos(U2) * math.sin(lam),
        math.cos(U1) * math.sin(U2) -
        math.sin(U1) * math.cos(U2) * math.cos(lam))
    back = math.atan2(
        math.cos(U1) * math.sin(lam),
        -math.sin(U1) * math.cos(U2) +
        math.cos(U1) * math.sin(U2) * math.cos(lam))
    return s, turn(there), turn(back + math.pi)


def direct(f, a, lat1, lon1, azimuth, s):
    """The point at distance s in a direction, and the direction back."""
    azimuth = turn(azimuth)
    b = a * (1 - f)
    tan_U1 = (1 - f) * math.tan(lat1)
    U1 = math.atan(tan_U1)
    sigma1 = math.atan2(tan_U1, math.cos(azimuth))
    sin_alpha = math.cos(U1) * math.sin(azimuth)
    cos2_alpha = 1 - sin_alpha * sin_alpha
    u2 = cos2_alpha * (a ** 2 - b ** 2) / b ** 2
    A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
    B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
    start = s / (b * A)
    sigma = start
    while True:
        m = math.cos(2 * sigma1 + sigma)
        delta = B * math.sin(sigma) * (m + B / 4 * (
            math.cos(sigma) * (-1 + 2 * m ** 2) -
            B / 6 * m * (-3 + 4 * math.sin(sigma) ** 2) *
            (-3 + 4 * m ** 2)))
        before = sigma
        sigma = start + delta
        if not abs((before - sigma) / sigma) > 1e-9:
            break
    lat2 = math.atan2(
        math.sin(U1) * math.cos(sigma) +
        math.cos(U1) * math.sin(sigma) * math.cos(azimuth),
        (1 - f) * math.sqrt(sin_alpha ** 2 + (
            math.sin(U1) * math.sin(sigma) -
            math.cos(U1) * math.cos(sigma) * math.cos(azimuth)) ** 2))
    lam = math.atan2(
        math.sin(sigma) * math.sin(azimuth),
        math.cos(U1) * math.cos(sigma) -
        math.sin(U1) * math.sin(sigma) * math.cos(azimuth))
    C = f / 16 * cos2_alpha * (4 + f * (4 - 3 * cos2_alpha))
    L = lam - (1 - C) * f * sin_alpha * (
        sigma + C * math.sin(sigma) * (
            m + C * math.cos(sigma) * (-1 + 2 * m ** 2)))
    back = math.atan2(
        sin_alpha,
        -math.sin(U1) * math.sin(sigma) +
        math.cos(U1) * math.cos(sigma) * math.cos(azimuth))
    return lat2, lon1 + L, turn(back + math.pi)


class Line(object):
    """The geodesic between two points given in degrees."""

    def __init__(self, a, b, lon1, lat1, lon2, lat2):
        self.f = (a - b) / a
        self.a = a
        self.one = (math.radians(lat1), math.radians(lon1))
        self.two = (math.radians(lat2), math.radians(lon2))
        self.result = inverse(self.f, self.a, self.one[0], self.one[1],
                              self.two[0], self.two[1])
        self.arc = 2 * math.asin(math.sqrt(
            math.sin((self.one[0] - self.two[0]) / 2) ** 2 +
            math.cos(self.one[0]) * math.cos(self.two[0]) *
            math.sin((self.one[1] - self.two[1]) / 2) ** 2))


def start(a, b, lon1, lat1, lon2, lat2):
    x = Line(a, b, lon1, lat1, lon2, lat2)
    return (x.f, x.a, x.one[0], x.one[1], x.two[0], x.two[1], x.result[0],
            x.result[1], x.result[2], x.arc, x.arc == math.pi)


def along(n, a, b, lon1, lat1, lon2, lat2):
    """n points in equal steps, the first and the last among them: every
    next one at one step from the last in the direction of the end."""
    x = Line(a, b, lon1, lat1, lon2, lat2)
    step = x.result[0] / (n - 1)
    lat, lon = x.one
    azimuth = x.result[1]
    lons, lats = [math.degrees(lon)], [math.degrees(lat)]
    for k in range(n - 2):
        lat, lon, back = direct(x.f, x.a, lat, lon, azimuth, step)
        s, azimuth, back = inverse(x.f, x.a, lat, lon, x.two[0], x.two[1])
        lons.append(math.degrees(lon))
        lats.append(math.degrees(lat))
    lons.append(math.degrees(x.two[1]))
    lats.append(math.degrees(x.two[0]))
    return lons, lats


def sphere(n, a, lon1, lat1, lon2, lat2):
    """The same on a sphere."""
    x = Line(a, a, lon1, lat1, lon2, lat2)
    lons, lats = [], []
    for k in range(n):
        p = math.sin((1 - k / (n - 1)) * x.arc) / math.sin(x.arc)
        q = math.sin(k / (n - 1) * x.arc) / math.sin(x.arc)
        u = (p * math.cos(x.one[0]) * math.cos(x.one[1]) +
             q * math.cos(x.two[0]) * math.cos(x.two[1]))
        v = (p * math.cos(x.one[0]) * math.sin(x.one[1]) +
             q * math.cos(x.two[0]) * math.sin(x.two[1]))
        w = p * math.sin(x.one[0]) + q * math.sin(x.two[0])
        lons.append(math.degrees(math.atan2(v, u)))
        lats.append(math.degrees(math.atan2(w, math.sqrt(u ** 2 + v ** 2))))
    return lons, lats
