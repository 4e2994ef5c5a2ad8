"""What a server makes of a requested URL (application/x-www-form-urlencoded queries)."""
from six.moves.urllib.parse import quote


def parse(url, kwargs=None):
    """(everything before the query, [(name, text as sent)], fragment or None)"""
    params = (kwargs or {}).get('params')
    if params:
        pairs = params.items() if isinstance(params, dict) else params
        query = ''
        for k, v in pairs:
            query += ('&' if query else '') + quote(str(k), safe='') + '=' + quote(str(v), safe='')
        url = url + ('&' if '?' in url else '?') + query
    fragment = None
    if '#' in url:
        url, fragment = url.split('#', 1)
    base, query = (url.split('?', 1) if '?' in url else (url, ''))
    pairs = []
    for part in query.split('&'):
        if '=' in part:
            name, raw = part.split('=', 1)
        else:
            name, raw = part, ''
        pairs.append((name, raw))
    return base, pairs, fragment


def value(pairs, name):
    """the text sent for a parameter, None if it is not sent exactly once"""
    got = [raw for n, raw in pairs if n == name]
    return got[0] if len(got) == 1 else None


def nibble(c):
    n = ord(c)
    if 48 <= n and n <= 57:
        return n - 48
    if 65 <= n and n <= 70:
        return n - 55
    if 97 <= n and n <= 102:
        return n - 87
    return None


def decode(raw):
    """the bytes a server reads: [int]"""
    out = []
    i = 0
    while i < len(raw):
        c = raw[i]
        if c == '%' and i + 2 < len(raw):
            hi, lo = nibble(raw[i + 1]), nibble(raw[i + 2])
            if hi is not None and lo is not None:
                out.append(hi * 16 + lo)
                i += 3
                continue
        if c == '+':
            out.append(32)
        else:
            out.extend(utf8(ord(c)))
        i += 1
    return out


def utf8(n):
    """the bytes of a character"""
    if n < 0x80:
        return [n]
    if n < 0x800:
        return [0xC0 + n // 64, 0x80 + n % 64]
    if n < 0x10000:
        return [0xE0 + n // 4096, 0x80 + n // 64 % 64, 0x80 + n % 64]
    return [0xF0 + n // 262144, 0x80 + n // 4096 % 64, 0x80 + n // 64 % 64, 0x80 + n % 64]
