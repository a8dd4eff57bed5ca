"""Independent low-precision astronomy (Meeus, Astronomical Algorithms, ch. 25 and 49): an oracle for the
solar terms and new moons of 1700..2300, accurate to about 15 and 3 minutes."""
from math import sin, cos, radians, floor


def delta_t(y):
    """TT - UT in seconds (Espenak & Meeus)"""
    if y < 1700:
        t = (y - 1600)
        return 120 - 0.9808 * t - 0.01532 * t * t + t ** 3 / 7129
    if y < 1800:
        t = y - 1700
        return 8.83 + 0.1603 * t - 0.0059285 * t ** 2 + 0.00013336 * t ** 3 - t ** 4 / 1174000
    if y < 1860:
        t = y - 1800
        return (13.72 - 0.332447 * t + 0.0068612 * t ** 2 + 0.0041116 * t ** 3 - 0.00037436 * t ** 4
                + 0.0000121272 * t ** 5 - 0.0000001699 * t ** 6 + 0.000000000875 * t ** 7)
    if y < 1900:
        t = y - 1860
        return 7.62 + 0.5737 * t - 0.251754 * t ** 2 + 0.01680668 * t ** 3 - 0.0004473624 * t ** 4 + t ** 5 / 233174
    if y < 1920:
        t = y - 1900
        return -2.79 + 1.494119 * t - 0.0598939 * t ** 2 + 0.0061966 * t ** 3 - 0.000197 * t ** 4
    if y < 1941:
        t = y - 1920
        return 21.20 + 0.84493 * t - 0.076100 * t ** 2 + 0.0020936 * t ** 3
    if y < 1961:
        t = y - 1950
        return 29.07 + 0.407 * t - t ** 2 / 233 + t ** 3 / 2547
    if y < 1986:
        t = y - 1975
        return 45.45 + 1.067 * t - t ** 2 / 260 - t ** 3 / 718
    if y < 2005:
        t = y - 2000
        return 63.86 + 0.3345 * t - 0.060374 * t ** 2 + 0.0017275 * t ** 3 + 0.000651814 * t ** 4 + 0.00002373599 * t ** 5
    if y < 2050:
        t = y - 2000
        return 62.92 + 0.32217 * t + 0.005589 * t ** 2
    u = (y - 1820) / 100
    if y < 2150:
        return -20 + 32 * u * u - 0.5628 * (2150 - y)
    return -20 + 32 * u * u


def sun_longitude(jde):
    """apparent geocentric longitude of the sun, degrees"""
    T = (jde - 2451545.0) / 36525
    L0 = 280.46646 + 36000.76983 * T + 0.0003032 * T * T
    M = radians(357.52911 + 35999.05029 * T - 0.0001537 * T * T)
    C = ((1.914602 - 0.004817 * T - 0.000014 * T * T) * sin(M) + (0.019993 - 0.000101 * T) * sin(2 * M)
         + 0.000289 * sin(3 * M))
    om = radians(125.04 - 1934.136 * T)
    return (L0 + C - 0.00569 - 0.00478 * sin(om)) % 360


def new_moon(k):
    """JDE of new moon number k (k = 0: January 2000)"""
    T = k / 1236.85
    j = 2451550.09766 + 29.530588861 * k + 0.00015437 * T ** 2 - 0.000000150 * T ** 3 + 0.00000000073 * T ** 4
    E = 1 - 0.002516 * T - 0.0000074 * T ** 2
    r = radians
    M = r(2.5534 + 29.10535670 * k - 0.0000014 * T ** 2)
    m = r(201.5643 + 385.81693528 * k + 0.0107582 * T ** 2 + 0.00001238 * T ** 3)
    F = r(160.7108 + 390.67050284 * k - 0.0016118 * T ** 2 - 0.00000227 * T ** 3)
    O = r(124.7746 - 1.56375588 * k + 0.0020672 * T ** 2)
    j += (-0.40720 * sin(m) + 0.17241 * E * sin(M) + 0.01608 * sin(2 * m) + 0.01039 * sin(2 * F)
          + 0.00739 * E * sin(m - M) - 0.00514 * E * sin(m + M) + 0.00208 * E * E * sin(2 * M) - 0.00111 * sin(m - 2 * F)
          - 0.00057 * sin(m + 2 * F) + 0.00056 * E * sin(2 * m + M) - 0.00042 * sin(3 * m) + 0.00042 * E * sin(M + 2 * F)
          + 0.00038 * E * sin(M - 2 * F) - 0.00024 * E * sin(2 * m - M) - 0.00017 * sin(O) - 0.00007 * sin(m + 2 * M))
    a = [(299.77 + 0.107408 * k - 0.009173 * T ** 2, .000325), (251.88 + 0.016321 * k, .000165), (251.83 + 26.651886 * k, .000164),
         (349.42 + 36.412478 * k, .000126), (84.66 + 18.206239 * k, .000110), (141.74 + 53.303771 * k, .000062),
         (207.14 + 2.453732 * k, .000060), (154.84 + 7.306860 * k, .000056), (34.52 + 27.261239 * k, .000047)]
    return j + sum(c * sin(r(x)) for x, c in a)


def beijing(jde, y):
    """TT to the civil time of 120 degrees east, as a Julian day"""
    return jde - delta_t(y) / 86400 + 8 / 24
