"""Clocks of simulated stations and machines: time zones, the instants at
which they jump, and the ways in which software writes a zone."""
import datetime as dt
import functools
import zoneinfo

ZONES = ['UTC', 'Etc/GMT+7', 'Etc/GMT-11', 'Europe/Berlin', 'Europe/London',
         'America/New_York', 'America/St_Johns', 'America/Santiago',
         'America/Sao_Paulo', 'America/Havana', 'Asia/Beirut', 'Africa/Cairo',
         'Africa/Casablanca', 'Asia/Kolkata', 'Asia/Kathmandu', 'Asia/Tehran',
         'Asia/Amman', 'Australia/Adelaide', 'Australia/Lord_Howe',
         'Pacific/Auckland', 'Pacific/Chatham', 'Pacific/Apia',
         'Pacific/Kiritimati', 'America/Caracas', 'Europe/Istanbul',
         'Antarctica/Troll', 'America/Asuncion', 'Asia/Pyongyang']
JUMPING = ['Europe/Berlin', 'Europe/London', 'America/New_York',
           'America/St_Johns', 'America/Santiago', 'America/Sao_Paulo',
           'America/Havana', 'Asia/Beirut', 'Africa/Cairo',
           'Africa/Casablanca', 'Asia/Tehran', 'Asia/Amman',
           'Australia/Adelaide', 'Australia/Lord_Howe', 'Pacific/Auckland',
           'Pacific/Chatham', 'Pacific/Apia', 'America/Asuncion',
           'Antarctica/Troll']
UTC = dt.timezone.utc


def offset(zone, t):
    """UTC offset of a zone at a UTC instant """
    return t.replace(tzinfo=UTC).astimezone(
        zoneinfo.ZoneInfo(zone)).utcoffset()


@functools.lru_cache(maxsize=None)
def jumps(zone, first=2010, last=2023):
    """[(UTC instant of a jump of the zone's clock, jump in minutes)]"""
    out = []
    t = dt.datetime(first, 1, 1)
    end = dt.datetime(last, 12, 31)
    a = offset(zone, t)
    while t < end:
        u = t + dt.timedelta(days=7)
        b = offset(zone, u)
        lo = t
        if b != a:
            hi = u
            while hi - lo > dt.timedelta(minutes=1):
                mid = lo + (hi - lo) / 2
                mid = mid.replace(second=0, microsecond=0)
                if mid <= lo:
                    mid = lo + dt.timedelta(minutes=1)
                if offset(zone, mid) == a:
                    lo = mid
                else:
                    hi = mid
            out.append((hi, int((b - a).total_seconds() // 60)))
        t, a = u, b
    return out


def write(zone, how, t=None):
    """tzinfo object for a zone written in one of several ways"""
    if how == 'name':
        return zone
    if how == 'zoneinfo':
        return zoneinfo.ZoneInfo(zone)
    if how == 'pytz':
        import pytz
        return pytz.timezone(zone)
    if how == 'dateutil':
        import dateutil.tz
        z = dateutil.tz.gettz(zone)
        return z if z is not None else zoneinfo.ZoneInfo(zone)
    if how == 'fixed':            # the offset the zone has at the instant t
        return dt.timezone(offset(zone, t) if t else dt.timedelta(0))
    raise ValueError(how)


HOWS = ['name', 'name', 'zoneinfo', 'pytz', 'dateutil', 'fixed']


def gen(rng, unit=True, naive=.12):
    c = {'zone': rng.choice(ZONES), 'how': rng.choice(HOWS),
         'machine': rng.choice([None, None] + ZONES),
         'freq': rng.random() < .3}
    if unit:
        c['unit'] = rng.choice(['ns', 'ns', 'us', 'ms', 's'])
    if rng.random() < naive:
        c['zone'] = None
    return c


def ambiguous_midnight(zone, day):
    """does the local clock show 00:00 of that day twice?"""
    z = zoneinfo.ZoneInfo(zone)
    m = dt.datetime(day.year, day.month, day.day, tzinfo=z)
    a = m.replace(fold=0).utcoffset()
    b = m.replace(fold=1).utcoffset()
    return a > b
