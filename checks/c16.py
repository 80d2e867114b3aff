"""C16: dates, times and durations convert both ways without change."""
from datetime import date, datetime, timedelta

from ezodf.timeparser import TimeParser

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('Each case converts every day of one year (thorough: of every year 1 to 9999) as date and with times (midnight, '
        'last second, random), and durations at and around every carry (0.1 ms, seconds, minutes, hours, days, the '
        'largest and the smallest, both signs) plus random ones, to text and back; the text is judged by a hand-written '
        'ISO 8601 reader, consecutive date texts must sort. Then well-formed texts in other spellings (dot or comma, left '
        'out fields, large fields, years and months) have to give the value of that reader, and texts broken by an edit '
        'which the reader rejects have to raise ValueError.')
CASES = {'quick': 2700, 'thorough': 9999}
REQUIRED = ['dates', 'datetimes', 'durations', 'negative durations', 'fractional durations', 'spelled durations',
            'refused dates', 'refused datetimes', 'refused durations', 'sorted', 'leap days', 'out of range', 'large durations']
ASSUMPTIONS = ['years count 365 days and months 30 days in durations (documented by the existing behaviour)']
TICK = timedelta(microseconds=100)


# ------------------------------------------------------------- independent reader
def digits(s, n=None):
    return bool(s) and all('0' <= ch <= '9' for ch in s) and (n is None or len(s) == n)


MONTH = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def read_date(s):
    """(y, m, d), or None if invalid; 'unsure' for forms with other digits or missing zeros"""
    if s[-2:-1] == ' ':          # strptime reads a space padded day
        return 'unsure' if read_date(s[:-2] + '0' + s[-1:]) else None
    parts = s.split('-')
    if len(parts) != 3 or not all(p and p.isdigit() for p in parts):
        return None
    if not (digits(parts[0], 4) and digits(parts[1], 2) and digits(parts[2], 2)):
        if len(parts[0]) == 4 and all(len(p) <= 2 for p in parts[1:]):
            return 'unsure'
        return None
    y, m, d = (int(p) for p in parts)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if not 1 <= m <= 12 or y < 1 or not 1 <= d <= (29 if leap and m == 2 else MONTH[m - 1]):
        return None
    return (y, m, d)


def read_datetime(s):
    if s.count('T') != 1:
        return None
    a, b = s.split('T')
    day = read_date(a)
    parts = b.split(':')
    if day is None or len(parts) != 3 or not all(p and p.isdigit() for p in parts):
        return None
    if day == 'unsure' or not all(digits(p, 2) for p in parts):
        return 'unsure' if all(len(p) <= 2 for p in parts) else None
    h, m, sec = (int(p) for p in parts)
    if h > 23 or m > 59 or sec > 59:
        return None
    return day + (h, m, sec)


def read_duration(s):
    """Microseconds, None, or 'unsure' (valid by some reading of ISO 8601)"""
    sign = 1
    if s.startswith('-'):
        sign, s = -1, s[1:]
    if not s.startswith('P'):
        return None
    s = s[1:]
    units = [('Y', 365 * 86400), ('M', 30 * 86400), ('D', 86400)]
    time, total, n, i, unsure = False, 0, 0, 0, False
    while i < len(s):
        if s[i] == 'T':
            if time:
                return None
            time, units, n_time = True, [('H', 3600), ('M', 60), ('S', 1)], n
            i += 1
            continue
        j = i
        while j < len(s) and '0' <= s[j] <= '9':
            j += 1
        if j == i:
            return 'unsure' if s[i:i + 1].isdigit() else None
        whole, frac = s[i:j], ''
        if j < len(s) and s[j] in '.,':
            k = j + 1
            while k < len(s) and '0' <= s[k] <= '9':
                k += 1
            frac = s[j + 1:k]
            if not frac:
                return None
            j = k
        if j >= len(s):
            return None
        names = [u[0] for u in units]
        if s[j] not in names:
            return 'unsure' if s[j] == 'W' else None
        pos = names.index(s[j])
        value = units[pos][1]
        units = units[pos + 1:]
        if frac and s[j] != 'S':
            unsure = True
        if len(frac) > 6:
            unsure = True
        total += value * (int(whole) * 10 ** 6 + int((frac + '000000')[:6]))
        n += 1
        i = j + 1
    if not n or time and n == n_time:
        return None
    return 'unsure' if unsure else sign * total


# ------------------------------------------------------------- monitors
def micros(td):
    return (td.days * 86400 + td.seconds) * 10 ** 6 + td.microseconds


def convert(c, value):
    """Value to text and back; returns the text."""
    p = TimeParser(value)
    text = str(p)
    c.ok(p.timestr == text, 'text of %r' % (value,), timestr=p.timestr, str=text)
    c.ok(p.value == value and type(p.value) is type(value), 'value %r became %r' % (value, p.value))
    back = TimeParser(text)
    c.ok(back.value == value and isinstance(back.value, timedelta) == isinstance(value, timedelta)
         and isinstance(back.value, datetime) == isinstance(value, datetime),
         'back to a value', value=value, text=text, back=back.value)
    c.ok(str(back) == text and TimeParser.parse(text) == value, 'second conversion of %r' % text)
    c.ok((back.is_date, back.has_time, back.is_duration) == (isinstance(value, date), isinstance(value, datetime),
                                                           isinstance(value, timedelta)), 'kind of %r' % text)
    return text


def check_date(c, value):
    text = convert(c, value)
    c.ok(read_date(text) == (value.year, value.month, value.day), 'text of the date', value=value, text=text)
    c.count('dates')
    return text


def check_datetime(c, value):
    text = convert(c, value)
    c.ok(read_datetime(text) == tuple(value.timetuple()[:6]), 'text of the date-time', value=value, text=text)
    c.count('datetimes')
    return text


def check_duration(c, value):
    text = convert(c, value)
    c.ok(read_duration(text) == micros(value), 'text of the duration', value=value, text=text)
    c.count('durations')
    if value < timedelta(0):
        c.count('negative durations')
    if value.microseconds:
        c.count('fractional durations')
    if abs(value.days) > 10 ** 6:
        c.count('large durations')
    return text


def spelled(rng):
    def num():
        return rng.choice(('0', '1', '00', '007', '59', '60', '61', '24', '100', '3600', '12345', str(rng.randint(0, 99))))
    while True:
        d = ''.join(num() + u for u in 'YMD' if rng.random() < 0.45)
        t = ''.join(num() + u for u in 'HM' if rng.random() < 0.5)
        if rng.random() < 0.6:
            t += num() + (rng.choice('.,') + rng.choice(('0', '5', '25', '999', '0001', '9999', '000001', '999999', '10'))
                          if rng.random() < 0.6 else '') + 'S'
        if d or t:
            return rng.choice(('', '', '-')) + 'P' + d + ('T' + t if t else '')


def broken(rng, text):
    """An edit of text."""
    n = len(text)
    op = rng.choice(('cut', 'cut', 'drop', 'insert', 'replace', 'swap', 'double', 'end', 'front', 'number'))
    i = rng.randrange(n)
    if op == 'cut':
        return text[:i]
    if op == 'drop':
        return text[:i] + text[i + 1:]
    if op == 'insert':
        return text[:i] + rng.choice(' -+:.,TPYMDHSZ0159\n') + text[i:]
    if op == 'replace':
        return text[:i] + rng.choice(' -+:.,TPYMDHSZ059/') + text[i + 1:]
    if op == 'swap' and n > 1:
        i = rng.randrange(n - 1)
        return text[:i] + text[i + 1] + text[i] + text[i + 2:]
    if op == 'double':
        return text + text
    if op == 'front':
        return rng.choice((' ', '+', '--', '-', '\n', 'x', 'T')) + text
    if op == 'number':
        import re
        found = [m for m in re.finditer('[0-9]+', text)]
        if found:
            m = rng.choice(found)
            return text[:m.start()] + rng.choice(('00', '13', '32', '24', '60', '61', '99', '')) + text[m.end():]
    return text + rng.choice((' ', '\n', 'Z', 'x', '0', '.5', ',', 'T', '+01:00', 'S', 'T00', '-01'))


def refuse(c, text):
    """Judge a text which may be broken."""
    if text.startswith('P') or text.startswith('-P'):
        want, kind = read_duration(text), 'durations'
        if isinstance(want, int) and not micros(timedelta.min) <= want <= micros(timedelta.max):
            want = None     # no value for this duration
            c.count('out of range')
    elif 'T' in text:
        want, kind = read_datetime(text), 'datetimes'
    else:
        want, kind = read_date(text), 'dates'
    if want == 'unsure':
        return
    for func in (TimeParser, TimeParser.parse):
        try:
            got = func(text)
        except ValueError:
            c.ok(want is None, 'valid text is refused', text=text)
            continue
        except Exception as e:
            c.fail('broken text raises %r' % e, text=text)
        got = getattr(got, 'value', got)
        c.ok(want is not None, 'broken text is accepted', text=text, got=got)
        if kind == 'durations':
            c.ok(isinstance(got, timedelta) and micros(got) == want, 'value of the duration', text=text, got=got)
        else:
            c.ok(tuple(got.timetuple()[:len(want)]) == want, 'value of the date', text=text, got=got)
            c.ok(isinstance(got, datetime) == (len(want) > 3), 'kind of the date', text=text, got=got)
    if want is None:
        c.count('refused ' + kind)


def case(c):
    rng = c.rng
    year = c.index % 9999 + 1 if c.tier == 'thorough' else rng.choice((rng.randint(1, 9999), rng.randint(1, 9999), 1, 99, 999,
                                                                      1000, 1899, 1900, 1969, 1970, 2000, 2038, 9999))
    c.log('year', year)
    day = date(year, 1, 1)
    last = None
    days = []
    while day.year == year:
        text = check_date(c, day)
        if last is not None:
            c.ok(last < text, 'texts of dates do not sort', first=last, second=text)
            c.count('sorted')
        last = text
        days.append(day)
        if (day.month, day.day) == (2, 29):
            c.count('leap days')
        if day == date.max:
            break
        day += timedelta(1)
    stamps = set()
    for _ in range(60):
        day = rng.choice(days)
        for t in ((0, 0, 0), (23, 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))):
            stamps.add(datetime(*(day.timetuple()[:3] + t)))
    texts = [check_datetime(c, s) for s in sorted(stamps)]
    c.ok(texts == sorted(texts), 'texts of date-times do not sort', texts=texts)
    values = []
    for base in (TICK, timedelta(seconds=1), timedelta(minutes=1), timedelta(hours=1), timedelta(days=1)):
        n = rng.choice((1, 1, 2, 9, 10, 11, 59, 60, 61, 99, 100, 1000, 9999, 10000))
        values += [base * n, base * n - TICK, base * n + TICK]
    values += [timedelta(0), timedelta(days=rng.choice((1, 29, 30, 31, 365, 999999, 10 ** 8, 999999999)),
                                       seconds=rng.randint(0, 86399), microseconds=100 * rng.randint(0, 9999)),
               timedelta(days=999999999, hours=23, minutes=59, seconds=59)]
    for _ in range(30):
        values.append(timedelta(days=rng.choice((0, 0, 1, rng.randint(0, 10 ** 5))), seconds=rng.choice((0, rng.randint(0, 86399))),
                                microseconds=100 * rng.choice((0, 1, 10, 100, 5000, 9999, rng.randint(0, 9999)))))
    texts = []
    for v in values:
        texts.append(check_duration(c, v))
        if v <= timedelta(days=999999999):
            check_duration(c, -v)
    for _ in range(40):
        text = spelled(rng)
        texts.append(text)
        want = read_duration(text)
        got = TimeParser(text).value
        c.ok(isinstance(got, timedelta) and micros(got) == want, 'value of a duration', text=text, got=got, want=want)
        c.count('spelled durations')
    good = [rng.choice(days).isoformat() for _ in range(4)] + [s.isoformat() for s in rng.sample(sorted(stamps), 4)]
    for _ in range(60):
        refuse(c, broken(rng, rng.choice(good)))
        refuse(c, broken(rng, rng.choice(texts)))
    for text in ('', 'P', '-P', 'PT', 'P1', 'P1DT', '-', 'T', 'today', '0000-01-01', '%04d-02-30' % year, '%04d-13-01' % year,
                 '%04d-00-10' % year, '%04d-04-31' % year, '%04d-02-29T24:00:00' % year, 'P1S', 'PT1D', 'P1M1Y', 'PT1S1M',
                 'P-1D', 'PT,5S', 'PT1,S', '1D', 'P1DT1', 'PD', 'P9999999999D', '-P999999999DT1S', 'P999999999DT24H', 'P1D ', 'P1D\n', ' P1D', '%04d-01-01\n' % year, '%04d-01-01T' % year,
                 '%04d-01-01T00:00' % year, '%04d-01' % year, '%04d' % year, '%05d-01-01' % year):
        refuse(c, text)
    c.log(texts[-6:], good)
