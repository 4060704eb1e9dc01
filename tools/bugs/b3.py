BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


VI = 'utilities/vincenty.py'

bug('c40-coincident', 'C40', [(VI, """    if (abs(phi2 - phi1) < 1e-8) and (abs(lembda2 - lembda1) < 1e-8):
""", """    if (abs(phi2 - phi1) < 1e-6) and (abs(lembda2 - lembda1) < 1e-6):
""")],
    'cells of less than six metres', 'the width and height of small cells '
    'are zero', '''
import math
from utilities.vincenty import vinc_dist
a, f = 6378137.0, 1 / 298.257223563
for deg in (1.0, 0.01, 0.0001, 0.00003, 0.000002):
    r = math.radians
    d = vinc_dist(f, a, r(-30.), r(140.), r(-30.), r(140. + deg))[0]
    want = r(deg) * a * math.cos(r(30.))
    check(abs(d - want) < 0.01 * want, str((deg, d, want)))
''')

bug('c40-west', 'C40', [(VI, """    if (alpha12 < 0.0):
        alpha12 = alpha12 + two_pi
    if (alpha12 > two_pi):
        alpha12 = alpha12 - two_pi

    alpha21 =""", """    if (alpha12 < -math.pi / 2):
        alpha12 = alpha12 + two_pi
    if (alpha12 > two_pi):
        alpha12 = alpha12 - two_pi

    alpha21 =""")],
    'lines towards the north west', 'azimuths are negative', '''
import math
from utilities.vincenty import vinc_dist
a, f = 6378137.0, 1 / 298.257223563
r = math.radians
for k in range(24):
    dy, dx = math.cos(k * math.pi / 12), math.sin(k * math.pi / 12)
    s, there, back = vinc_dist(f, a, r(-30.), r(140.), r(-30. + dy),
                               r(140. + dx))
    check(0 <= there <= 2 * math.pi and 0 <= back <= 2 * math.pi,
      str((k, there, back)))
''')
