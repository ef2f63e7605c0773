"""Checks the oracles (calendar, time zones) against the standard library; no library under test."""
import datetime as dt
import os
import random
import sys
import zoneinfo

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import cal, tz  # noqa

rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
for _ in range(20000):
    n = rnd.randint(cal.MIN_DAY, cal.MAX_DAY)
    y, m, d = cal.from_day_number(n)
    x = dt.date(y, m, d)
    assert x.toordinal() - 719163 == n and cal.day_number(y, m, d) == n and x.isoweekday() == cal.weekday(n)
bad = 0
utc = dt.timezone.utc
for key in tz.all_keys():
    z, zi = tz.zone(key), zoneinfo.ZoneInfo(key)
    pts = [u + k for u, _, _ in tz.aim_points(key)[-40:] for k in (-1, 0, 1)]
    pts += [rnd.randint(cal.MIN_S + 10**6, cal.MAX_S - 10**6) for _ in range(30)]
    for t in pts:
        if not cal.MIN_S + 200000 < t < cal.MAX_S - 200000:
            continue
        o = (dt.datetime(1970, 1, 1, tzinfo=utc) + dt.timedelta(seconds=t)).astimezone(zi).utcoffset()
        if o != dt.timedelta(seconds=z.offset_at(t)):
            bad += 1
print(f"oracle self-test: {len(tz.all_keys())} zones, {bad} disagreements with zoneinfo")
sys.exit(bad != 0)
