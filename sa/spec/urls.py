"""Reference models for request_parser.utils.http (interpreted abstractly, never run)."""
import unicodedata
from future.backports.urllib.parse import _splitnetloc, scheme_chars


def _scheme_and_host(url):
    """RFC 3986: scheme ':' '//' host; raises ValueError for an unbalanced IPv6 literal"""
    scheme = ''
    i = url.find(':')
    if i > 0 and all(c in scheme_chars for c in url[:i]):
        scheme = url[:i].lower()
        url = url[i + 1:]
    netloc = ''
    if url.startswith('//'):
        netloc = _splitnetloc(url, 2)[0]
        if ('[' in netloc) != (']' in netloc):
            raise ValueError("Invalid IPv6 URL")
    return scheme, netloc


def _one_reading(url, allowed, https):
    if url.startswith('///'):
        return False
    try:
        scheme, host = _scheme_and_host(url)
    except ValueError:
        return False
    if scheme and not host:
        return False
    if unicodedata.category(url[0] if isinstance(url, unicode) else url[0].decode('iso-8859-1'))[0] == 'C':
        return False
    if host and host not in allowed:
        return False
    if https:
        if not scheme and host:
            return False
        return not scheme or scheme == 'https'
    return not scheme or scheme == 'http' or scheme == 'https'


def is_safe_url(url, allowed, https):
    if url is None:
        return False
    url = url.strip()
    if not url:
        return False
    return _one_reading(url, allowed, https) and _one_reading(url.replace('\\', '/'), allowed, https)


import re
import base64
import calendar
import datetime
from email.utils import formatdate
import htmlentitydefs
from importlib import import_module

_TIME = r'(?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'
_DATES = (re.compile(r'\A\w{3}, (?P<day>\d{2}) (?P<mon>\w{3}) (?P<year>\d{4}) ' + _TIME + r' GMT\Z'),
          re.compile(r'\A\w{6,9}, (?P<day>\d{2})-(?P<mon>\w{3})-(?P<year>\d{2}) ' + _TIME + r' GMT\Z'),
          re.compile(r'\A\w{3} (?P<mon>\w{3}) (?P<day>[ \d]\d) ' + _TIME + r' (?P<year>\d{4})\Z'))
_MONTHS = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
_ETAG = re.compile(r'\A((?:W/)?"[^"]*")\Z')


def parse_http_date(date):
    for r in _DATES:
        m = r.match(date)
        if m:
            year = int(m.group('year'))
            if 0 <= year < 70:
                year = year + 2000
            elif 70 <= year < 100:
                year = year + 1900
            month = _MONTHS.index(m.group('mon').lower()) + 1
            day = int(m.group('day'))
            return calendar.timegm(datetime.datetime(year, month, day, int(m.group('hour')), int(m.group('min')),
                                                     int(m.group('sec'))).utctimetuple())
    raise ValueError("not a date")


def parse_http_date_safe(date):
    try:
        return parse_http_date(date)
    except ValueError:
        return None


def http_date(seconds):
    return formatdate(seconds, usegmt=True)


def parse_etags(text):
    if text.strip() == '*':
        return ['*']
    out = []
    for item in text.split(','):
        m = _ETAG.match(item.strip())
        if m:
            out.append(m.group(1))
    return out


def quote_etag(text):
    if _ETAG.match(text):
        return text
    return '"' + text + '"'


def base36_to_int(s):
    if len(s) > 13:
        raise ValueError("too large")
    return int(s, 36)


def urlsafe_base64_encode(s):
    return base64.urlsafe_b64encode(s).rstrip('\n=').decode('ascii')


def urlsafe_base64_decode(s):
    s = s.encode()
    try:
        return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, '='))
    except TypeError as e:
        raise ValueError(e)


def import_string(path):
    i = path.rfind('.')
    if i < 0:
        raise ImportError(path)
    try:
        module = import_module(path[:i])
    except (ImportError, ValueError, TypeError, KeyError):
        raise ImportError(path)
    try:
        return getattr(module, path[i + 1:])
    except (AttributeError, UnicodeError):
        raise ImportError(path)


def replace_entity(match):
    ref = match.group(1)
    char = unichr if isinstance(ref, unicode) else chr
    try:
        if ref.startswith('#'):
            digits = ref[1:]
            if digits[:1] == 'x' or digits[:1] == 'X':
                return char(int(digits[1:], 16))
            return char(int(digits))
        return char(htmlentitydefs.name2codepoint[ref])
    except (ValueError, OverflowError, TypeError, KeyError):
        return match.group(0)


ENTITY = re.compile(r"&(#?[xX]?(?:[0-9a-fA-F]+|\w{1,8}));")


def unescape_entities(text):
    return ENTITY.sub(replace_entity, text)


def int_to_base36(i):
    if i < 0:
        raise ValueError("negative")
