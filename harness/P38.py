import datetime
import os
import time
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P38', bounds='every fraction with numerators and denominators up to a million for degrees, minutes and seconds of both coordinates, all hemispheres, fourteen sub-second texts of one to nine digits (leading and trailing zeros included), capture seconds around leap seconds, week ends, and midnights, in several time zones of the machine, any of five bands',
         assumptions=['exifread returns the stored tags', 'float64 rounding is modelled as exact real arithmetic'],
         outside='missing or malformed tags, signed sub-second texts, dates before the GPS epoch')
MOD = 'resippy.image_objects.earth_overhead.micasense.micasense_image'
U = datetime.timezone.utc
EPOCH = datetime.datetime(1980, 1, 6, tzinfo=U)
# instants, and the leap seconds inserted before them since the GPS epoch
TIMES = [((2018, 5, 31, 17, 4, 59), 18), ((2016, 12, 31, 23, 59, 59), 17), ((2017, 1, 1, 0, 0, 0), 18), ((2015, 6, 30, 23, 59, 30), 16), ((2015, 7, 1, 0, 0, 1), 17),
         ((2019, 2, 23, 23, 59, 41), 18), ((2019, 2, 23, 23, 59, 42), 18), ((2020, 2, 29, 12, 34, 56), 18), ((1999, 12, 31, 9, 8, 7), 13), ((2031, 10, 11, 1, 2, 3), 18)]
SUBSEC = ['5', '05', '005', '0', '000', '50', '123456', '012345', '999999', '9996', '99951', '0004', '000001', '100', '9', '090', '123456789']
WEEK = 7 * 86400


class Tag:
    def __init__(self, values, printable=None):
        self.values, self.printable = values, printable if printable is not None else str(values)

    def __str__(self):
        return self.printable


class Ratio:
    """a fraction as stored"""
    def __init__(self, num, den):
        self.num = self.numerator = num
        self.den = self.denominator = den

    def decimal(self):
        return self.num / self.den

    def __truediv__(self, o):
        return self.decimal() / o

    def __mul__(self, o):
        return self.decimal() * o

    def __add__(self, o):
        return self.decimal() + (o.decimal() if isinstance(o, Ratio) else o)

    __radd__, __rmul__ = __add__, __mul__


def image(cx, tags):
    """an image of one file per band; tags of each"""
    def process_file(f, *a, **k):
        return tags[int(f.read().decode())]
    cx.fake('exifread', fakes.Namespace('exifread', process_file=process_file))
    cx.fake('imageio', fakes.Namespace('imageio', imread=None))
    fakes.use_gdal(cx)
    fakes.use_pyproj(cx)
    fakes.use_shapely(cx)
    return cx.mod(MOD).MicasenseImage()


def dms(cx, name, deg):
    """three fractions and their decimal value"""
    r, v = [], 0.0
    for part, hi, unit in (('d', deg, 1), ('m', 60, 60), ('s', 60, 3600)):
        den = cx.int(name + part + 'den', 1, 10 ** 6)
        num = cx.int(name + part + 'num', 0, 10 ** 6)
        cx.assume(num <= hi * den)
        r.append(Ratio(num, den))
        v = v + (num + 0.0) / (den + 0.0) / unit
    return r, v


def tags_of(lon, lonref, lat, latref, when, sub):
    w = '%04d:%02d:%02d %02d:%02d:%02d' % when
    return {'EXIF DateTimeOriginal': Tag(w), 'EXIF SubSecTime': Tag(sub), 'GPS GPSLongitude': Tag(lon), 'GPS GPSLongitudeRef': Tag(lonref), 'GPS GPSLatitude': Tag(lat), 'GPS GPSLatitudeRef': Tag(latref)}


def fixed():
    return [Ratio(10, 1), Ratio(20, 1), Ratio(36, 1)]


@P.case(quick=[(a, b) for a in 'EW' for b in 'NS'])
def position(cx):
    lonref, latref = cx.p
    lon, lonv = dms(cx, 'x', 180)
    lat, latv = dms(cx, 'y', 90)
    with Scratch() as d:
        put_text(d + '/b.tif', '0')
        im = image(cx, [tags_of(lon, lonref, lat, latref, TIMES[0][0], '25')])
        im.band_fnames = [d + '/b.tif']
        c = im.get_gps_timestamp_and_center(0)['center']
    cx.eq(c['lon'], -lonv if lonref == 'W' else lonv, 'longitude')
    cx.eq(c['lat'], -latv if latref == 'S' else latv, 'latitude')


@P.case(quick=['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30'])
def capture_time(cx):
    os.environ['TZ'] = cx.p
    time.tzset()
    when, leaps = cx.choice('time', TIMES)
    sub = cx.choice('subsec', SUBSEC)
    lon, lonv = dms(cx, 'x', 180)
    with Scratch() as d:
        put_text(d + '/b.tif', '0')
        im = image(cx, [tags_of(lon, 'E', fixed(), 'N', when, sub)])
        im.band_fnames = [d + '/b.tif']
        r = im.get_gps_timestamp_and_center(0)
    g = int((datetime.datetime(*when, tzinfo=U) - EPOCH).total_seconds()) + leaps
    cx.eq(r['gps_timestamp'], g % WEEK + int(sub) / 10 ** len(sub), 'seconds of the week', rtol=0, atol=2e-6)
    cx.eq(r['center']['lon'], lonv, 'longitude')


@P.case(quick=[5])
def bands(cx):
    """the tags of the file of the requested band"""
    n = cx.p
    parts = [(dms(cx, 'x%d' % i, 180), dms(cx, 'y%d' % i, 90)) for i in range(n)]
    tags = [tags_of(parts[i][0][0], 'EW'[i % 2], parts[i][1][0], 'NNS'[i % 3], TIMES[i][0], SUBSEC[i]) for i in range(n)]
    b = cx.choice('band', range(n))
    with Scratch() as d:
        im = image(cx, tags)
        im.band_fnames = [put_text(d + '/b_%d.tif' % i, str(i)) for i in range(n)]
        r = im.get_gps_timestamp_and_center(b)
    cx.eq(r['center']['lon'], parts[b][0][1] * (1, -1)[b % 2], 'longitude')
    cx.eq(r['center']['lat'], parts[b][1][1] * (1, 1, -1)[b % 3], 'latitude')
    when, leaps = TIMES[b]
    g = int((datetime.datetime(*when, tzinfo=U) - EPOCH).total_seconds()) + leaps
    cx.eq(r['gps_timestamp'], g % WEEK + int(SUBSEC[b]) / 10 ** len(SUBSEC[b]), 'seconds of the week', rtol=0, atol=2e-6)
