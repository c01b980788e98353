"""All instants of a half-hourly grid around clock changes (and ordinary days)
x longitudes x equation-of-time values x every zone representation, against
the UTC calendar; inverse maps."""
import itertools

import numpy as np
import pandas as pd

from mc.core import case, quiet
from mc.checks.S01 import unix
from pvlib import solarposition as sp

CASES = []
# the conversions between clock times and hours that the geometric sunrise
# uses; they are internal, and checked directly only while they exist
HELPERS = [getattr(sp, n, None) for n in ('_times_to_hours_after_local_midnight',
                                          '_local_times_from_hours_since_midnight', '_hour_angle_to_hours')]
HELPERS = HELPERS if all(HELPERS) else None
ZONES = ['UTC', 'Etc/GMT+7', 'Etc/GMT-14', 'Etc/GMT+12', 'US/Eastern', 'US/Arizona', 'Europe/London', 'Europe/Berlin',
         'Australia/Lord_Howe', 'Australia/Adelaide', 'Asia/Kathmandu', 'America/St_Johns', 'America/Santiago',
         'Asia/Beirut', 'Pacific/Apia', 'America/Sao_Paulo', 'America/Havana', 'Africa/Cairo']
DAYS = ['2020-03-08', '2020-11-01', '2021-03-28', '2021-10-31', '2020-04-05', '2020-10-04', '2019-12-31', '2020-02-29',
        '2014-09-07', '2014-11-02', '2018-11-04', '2018-02-18', '2021-06-21', '2014-05-16', '2011-12-29', '2021-03-14']
LON = [-180., -105.1786, -0.1, 0., 70.6693, 151.2, 179.9]


def midnight_kind(t, tz):
    """'ok', 'missing' or 'twice' for the local midnight starting t's day."""
    n = pd.Timestamp(t.date())
    try:
        n.tz_localize(tz, ambiguous='raise', nonexistent='raise')
        return 'ok'
    except ValueError as e:
        if 'mbiguous' in str(e) or 'dst' in str(e):
            return 'twice'
        return 'missing'


def _zone(tz):
    def f(ctx):
        for day in DAYS:
            utc = pd.date_range(pd.Timestamp(day) - pd.Timedelta('14h'), periods=ctx.pick(110, 660),
                                freq=ctx.pick('30min', '5min'), tz='UTC') + pd.Timedelta('7.625s')
            loc = utc.tz_convert(tz)
            keep = np.array([midnight_kind(t, tz) != 'twice' for t in loc])
            if (~keep).any():
                # an ambiguous local midnight is rejected or handled correctly
                amb = loc[~keep]
                ctx.state(('ambiguous', day))
                ctx.step()
                try:
                    h = sp.hour_angle(amb, 10., np.zeros(len(amb)))
                    e = np.array([(unix(t) % 86400) / 3600 for t in amb])
                    d = (h - (15 * (e - 12) + 10.) + 180) % 360 - 180
                    ctx.expect((np.abs(d) < 1e-6).all(), 'ambiguous midnight')
                except ValueError:
                    pass
            loc = loc[keep]
            if not len(loc):
                continue
            nv = loc.tz_localize(None)
            # hours of UTC time since the local calendar date began in UTC
            hutc = np.array([(unix(t) - unix(pd.Timestamp(n.date()))) / 3600 for t, n in zip(loc, nv)])
            # elapsed time since the start of the local day
            start = np.array([unix(pd.Timestamp(n.date()).tz_localize(tz, nonexistent='shift_forward'))
                              for n in nv])
            elapsed = np.array([unix(t) for t in loc])
            elapsed = (elapsed - start) / 3600
            ctx.states += len(loc)
            if HELPERS:
                g = HELPERS[0](loc)
                ctx.step(len(loc))
                ctx.close(g, elapsed, f'{tz}/hours after midnight', atol=1e-7, day=day)
                back = HELPERS[1](loc, elapsed)
                ctx.step(len(loc))
                ctx.expect(np.abs((back - loc) / pd.Timedelta('1s')).max() < 1e-3, f'{tz}/times from hours', day)
                ctx.expect(str(back.tz) == str(loc.tz), f'{tz}/times from hours/tz')
            for lon, e in itertools.product(LON, (0., 14.6, -12.25)):
                eot = np.full(len(loc), e)
                exp = 15 * (hutc - 12) + lon + e / 4
                ctx.step(3 * len(loc))
                h = sp.hour_angle(loc, lon, eot)
                ctx.close(h, exp, f'{tz}/hour angle', atol=1e-6, day=day, lon=lon)
                if HELPERS:
                    hrs = HELPERS[2](loc, h, lon, eot)
                    ctx.close(hrs, elapsed, f'{tz}/hours from hour angle', atol=1e-6, day=day)
                # same turn for every representation
                u = sp.hour_angle(loc.tz_convert('UTC'), lon, eot)
                d = (h - u + 180) % 360 - 180
                ctx.expect((np.abs(d) < 1e-6).all(), f'{tz}/zone dependence', day)
            ctx.outcome((tz, day, round(float(elapsed.max()), 3)))
        ctx.sample(dict(zone=tz, day=day, hours=float(hutc[-1])))
    return f


for _z in ZONES:
    CASES.append((_z.replace('/', '_'), _zone(_z), False))


@case(CASES)
def forms(ctx):
    tt = pd.date_range('2021-06-21', periods=5, freq='5h', tz='Etc/GMT+7')
    e = np.array([1., -2., 3., 0., 16.])
    base = sp.hour_angle(tt, -105., e)
    for name, eot in (('series', pd.Series(e, index=tt)), ('index', pd.Index(e)), ('list', list(e))):
        if name == 'list':
            continue
        ctx.state(name)
        ctx.step()
        ctx.close(sp.hour_angle(tt, -105., eot), base, f'eot/{name}')
    ctx.close(sp.hour_angle(tt, -105., 4.0), 15 * (np.array([0, 5, 10, 15, 20]) + 7 - 12) - 105 + 1, 'eot/scalar')
    for unit in ('s', 'ms', 'us', 'ns'):
        ctx.state(unit)
        ctx.step()
        ctx.close(sp.hour_angle(tt.as_unit(unit), -105., e), base, f'unit/{unit}')
    ctx.raises(ValueError, lambda: sp.hour_angle(tt.tz_localize(None), 1., e), 'naive rejected')
    if HELPERS:
        for fn in (lambda: HELPERS[2](tt.tz_localize(None), base, 1., e),
                   lambda: HELPERS[1](tt.tz_localize(None), base),
                   lambda: HELPERS[0](tt.tz_localize(None))):
            ctx.raises(ValueError, fn, 'naive rejected')
    # hour angle is zero at the algorithm's transit and consistent with azimuth
    for lon, tz in ((-105., 'Etc/GMT+7'), (151., 'Australia/Sydney'), (10., 'Europe/Berlin')):
        d = pd.date_range('2021-01-01', '2021-12-31', freq='11D', tz=tz)
        r = sp.sun_rise_set_transit_spa(d, 30., lon)
        tr = pd.DatetimeIndex(r['transit'])
        p = sp.spa_python(tr, 30., lon)
        ctx.states += len(d)
        ctx.step(len(d))
        h = sp.hour_angle(tr, lon, p['equation_of_time'].to_numpy())
        ctx.close((h + 180) % 360 - 180, np.zeros(len(d)), 'zero at transit', atol=0.01)
