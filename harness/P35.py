import datetime
import os
import time
from sv.prop import Prop
from .lib import *

P = Prop('P35', bounds='every instant (real number of seconds) from the GPS epoch to the year 2100, in one query per interval between leap seconds; machine time zones on both sides of UTC with and without daylight saving, fractional zones included',
         assumptions=['float64 rounding is modelled as exact real arithmetic'],
         outside='instants before the GPS epoch, leap seconds announced after 2017')
MOD = 'resippy.utils.time_utils'
ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'HST10', 'LINT-14', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NST3:30NDT,M3.2.0,M11.1.0', 'AoE12']
# UTC dates on which TAI-UTC grew by one second (IERS bulletin C)
LEAPS = [(1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
U = datetime.timezone.utc
EPOCH = datetime.datetime(1980, 1, 6, tzinfo=U).timestamp()
STEPS = [datetime.datetime(y, m, 1, tzinfo=U).timestamp() for y, m in LEAPS]
END = datetime.datetime(2100, 1, 1, tzinfo=U).timestamp()
WEEK = 7 * 24 * 3600


def machine(zone):
    os.environ['TZ'] = zone
    time.tzset()


def any_instant(cx):
    """an arbitrary instant, and its number of leap seconds"""
    t = cx.real('t', EPOCH, END)
    n = cx.choice('leaps', range(len(STEPS) + 1))
    b = [EPOCH] + STEPS + [END]
    cx.assume(t >= b[n])
    cx.assume(t < b[n + 1])
    return t, n


@P.case(quick=ZONES)
def to_gps(cx):
    machine(cx.p)
    m = cx.mod(MOD)
    t, n = any_instant(cx)
    cx.eq(m.utc_timestamp_to_gps_timestamp(t), t - EPOCH + n, 'seconds since the GPS epoch', rtol=0, atol=1e-6)


@P.case(quick=ZONES)
def and_back(cx):
    machine(cx.p)
    m = cx.mod(MOD)
    t, n = any_instant(cx)
    cx.eq(m.gps_timestamp_to_utc_timestamp(m.utc_timestamp_to_gps_timestamp(t)), t, 'the original instant', rtol=0, atol=1e-6)
    cx.eq(m.gps_timestamp_to_utc_timestamp(t - EPOCH + n), t, 'UTC of a GPS instant', rtol=0, atol=1e-6)


@P.case(quick=ZONES)
def week(cx):
    machine(cx.p)
    m = cx.mod(MOD)
    t, n = any_instant(cx)
    w, s = m.utc_timestamp_to_gps_week_and_seconds(t)
    g = t - EPOCH + n
    k = cx.floor(g / WEEK)
    # on a representable boundary the quotient may round either way
    cx.assume(g - k * WEEK > 0.001)
    cx.assume(k * WEEK + WEEK - g > 0.001)
    cx.eq(w, k, 'GPS week')
    cx.eq(s, g - k * WEEK, 'seconds of the week', rtol=0, atol=1e-5)


@P.case(quick=['UTC0', 'NZST-12NZDT,M9.5.0,M4.1.0/3'])
def boundaries(cx):
    """exactly at each leap second, at the epoch, and at the start of a week"""
    machine(cx.p)
    m = cx.mod(MOD)
    n = cx.choice('leap', range(len(STEPS)))
    t = STEPS[n]
    cx.eq(m.utc_timestamp_to_gps_timestamp(t), t - EPOCH + n + 1, 'at the leap second')
    cx.eq(m.gps_timestamp_to_utc_timestamp(t - EPOCH + n + 1), t, 'back at the leap second')
    cx.eq(m.utc_timestamp_to_gps_timestamp(EPOCH), 0.0, 'GPS epoch')
    cx.eq(m.gps_timestamp_to_utc_timestamp(0.0), EPOCH, 'GPS epoch')
    k = cx.choice('week', [0, 1, 5, 52])
    w, s = m.utc_timestamp_to_gps_week_and_seconds(EPOCH + k * WEEK)
    cx.eq(w, k, 'week')
    cx.eq(s, 0.0, 'start of the week', atol=1e-6)
