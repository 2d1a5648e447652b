"""P26: the helpers compute what they document for every input."""
import contextlib
import email.parser
import email.utils
import http.client
import io
import itertools
import re
from datetime import UTC, datetime, timedelta, timezone
from http import HTTPStatus

from hypothesis import strategies as st

from siotls import trust_store, utils

from vlib.core import Info, Sub, check

RULE = (
    'hexdump: generated byte strings of all lengths up to 70 000, the dump read back by fixed columns; http: '
    'messages of generated methods, paths, hosts, statuses, dates and texts read by the parsers of the standard '
    'library; peek: generated sequences of calls against a model list; cast: generated functions and values; '
    'store: generated release descriptions against the documented table. Non-trivial: more than one line, a '
    'non-empty body, a peek, a failing cast, an ID_LIKE; distinct by case.')


# ------------------------------------------------------------ hexdump

@st.composite
def dump_case(draw):
    size = draw(st.one_of(st.integers(0, 18), st.integers(0, 40), st.integers(0, 700)))
    if draw(st.integers(0, 60)) == 37:
        size = draw(st.sampled_from([65519, 65520, 65535, 65536, 65537, 70000]))
    if size > 700:
        data = bytes(draw(st.lists(st.integers(0, 255), min_size=1, max_size=9))) * size
        data = data[:size]
    else:
        data = draw(st.binary(min_size=size, max_size=size))
    return {'data': data, 'type': draw(st.sampled_from(['bytes', 'bytes', 'bytearray', 'memoryview']))}


def undump(text):
    data = bytearray()
    if not text:
        return bytes(data)
    widths = set()
    for line in text.split('\n'):
        m = re.fullmatch(r'([0-9a-f]{4,}): (.{50})(.*)', line)
        check(m is not None, 'line %r', line)
        widths.add(len(m[1]))
        check(int(m[1], 16) == len(data), 'offset %s of byte %d', m[1], len(data))
        check(len(data) % 16 == 0, 'a line after a short one')
        left, mid, right = m[2][:23], m[2][23:25], m[2][25:].rstrip()
        check(mid == '  ', 'gap %r', mid)
        left = left.rstrip()
        check(re.fullmatch(r'([0-9a-f]{2}( |$))*', left) and re.fullmatch(r'([0-9a-f]{2}( |$))*', right),
              'hexadecimal %r %r', left, right)
        line_data = bytes.fromhex(left) + bytes.fromhex(right)
        check(not right or len(left) == 23, 'hole in %r', line)
        check(1 <= len(line_data) <= 16, 'line of %d bytes', len(line_data))
        text = m[3]
        if len(line_data) > 8:
            check(text[8] == ' ', 'text %r', text)
            text = text[:8] + text[9:]
        check(len(text) == len(line_data), 'text %r of %d bytes', text, len(line_data))
        for char, byte in zip(text, line_data, strict=True):
            if 0x20 <= byte < 0x7f:
                check(char == chr(byte), 'byte %#x shown as %r', byte, char)
            elif byte in b'\n\r\t\v':
                check(char == ' ', 'byte %#x shown as %r', byte, char)
            elif byte < 16:
                check(char == f'{byte:x}', 'byte %#x shown as %r', byte, char)
            else:
                check(char == '.', 'byte %#x shown as %r', byte, char)
        data += line_data
    check(len(widths) == 1, 'offsets of various widths')
    return bytes(data)


def run_dump(case):
    data = case['data']
    given = {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview}[case['type']](data)
    dump = utils.hexdump(given)
    back = undump(dump)
    check(back == data, '%d bytes out of %d, the dump reads %r instead of %r', len(back), len(data), back[:40], data[:40])
    return Info(len(data) > 16, [case['type'], 'short' if len(data) < 8 else 'line' if len(data) <= 16 else 'lines'],
                key=repr(case))


# --------------------------------------------------------------- http

texts = st.one_of(st.just(''), st.text(max_size=40), st.text(alphabet='aé€\U0001f512\r\n{}%\\: ', max_size=60),
                  st.sampled_from(['{body}', '{0}', '{host}', '%s', 'x' * 5000, 'é' * 3000]))
texts = texts.filter(lambda t: not any(0xd800 <= ord(c) < 0xe000 for c in t))


@st.composite
def http_case(draw):
    return {
        'what': draw(st.sampled_from(['request', 'response'])),
        'host': draw(st.sampled_from(['localhost', 'a.example:8080', '[::1]:443', '{host}', 'xn--9ca.example'])),
        'method': draw(st.sampled_from(['GET', 'POST', 'HEAD', 'PATCH', '{path}'])),
        'path': draw(st.one_of(st.just('/'), st.text(alphabet='/abc%20?&={}', min_size=1, max_size=30))),
        'body': draw(texts),
        'code': draw(st.one_of(st.sampled_from(list(map(int, HTTPStatus))), st.integers(0, 999))),
        'now': draw(st.one_of(st.none(), st.tuples(st.integers(0, 2**32 - 1), st.integers(-14, 14)))),
    }


def headers_of(block):
    lines = block.decode().split('\r\n')
    names = [line.split(':')[0].lower() for line in lines if line]
    check(len(set(names)) == len(names), 'repeated headers %r', names)
    check(all('\n' not in line and '\r' not in line for line in lines), 'bare line ends')
    return email.parser.HeaderParser().parsestr(block.decode())


class FakeSocket:
    def __init__(self, data):
        self.data = data

    def makefile(self, _mode):
        return io.BytesIO(self.data)


def run_http(case):
    body = case['body'].encode()
    if case['what'] == 'request':
        raw = utils.make_http11_request(case['host'], case['method'], case['path'], case['body']).encode()
        first, _, rest = raw.partition(b'\r\n')
        check(first.decode() == f'{case["method"]} {case["path"]} HTTP/1.1', 'request line %r', first)
        head, sep, got = rest.partition(b'\r\n\r\n')
        check(bool(sep), 'no end of headers')
        headers = headers_of(head)
        check(headers['host'] == case['host'], 'host %r', headers['host'])
    else:
        now = None
        if case['now']:
            now = datetime.fromtimestamp(case['now'][0], timezone(timedelta(hours=case['now'][1])))
        before = datetime.now(UTC)
        try:
            raw = utils.make_http11_response(case['code'], case['body'], now=now)
        except ValueError:
            check(case['code'] not in list(map(int, HTTPStatus)), 'status %d refused', case['code'])
            return Info(False, ['unknown status'])
        after = datetime.now(UTC)
        raw = raw.encode()
        check(case['code'] in list(map(int, HTTPStatus)), 'status %d accepted', case['code'])
        first, _, rest = raw.partition(b'\r\n')
        check(first.decode() == f'HTTP/1.1 {case["code"]} {HTTPStatus(case["code"]).phrase}', 'status line %r', first)
        head, sep, got = rest.partition(b'\r\n\r\n')
        check(bool(sep), 'no end of headers')
        headers = headers_of(head)
        date = email.utils.parsedate_to_datetime(headers['date'])
        if now:
            check(date == now, 'date %s instead of %s', date, now)
        else:
            check(before - timedelta(seconds=1) <= date <= after, 'date %s at %s', date, after)
        if case['code'] >= 200 and case['code'] not in (204, 304):
            answer = http.client.HTTPResponse(FakeSocket(raw + b'more'))
            answer.begin()
            check(answer.status == case['code'], 'status %d', answer.status)
            check(answer.read() == body, 'body')
            check(answer.will_close, 'connection kept')
    check(got == body, 'body %r', got[:50])
    check(headers.get_all('content-length') == [str(len(body))], 'content length %r of %d bytes',
          headers['content-length'], len(body))
    check(headers['connection'] == 'close', 'connection %r', headers['connection'])
    check(headers.get_content_charset() == 'utf-8', 'charset')
    return Info(bool(body), [case['what'], 'ascii' if case['body'].isascii() else 'unicode'], key=repr(case))


# --------------------------------------------------------------- peek

values = st.one_of(st.none(), st.just(0), st.just(''), st.booleans(), st.integers(0, 3))


@st.composite
def peek_case(draw):
    return {
        'items': draw(st.lists(values, max_size=8)),
        'kind': draw(st.sampled_from(['list', 'iter', 'generator', 'peekable'])),
        'calls': draw(st.lists(st.one_of(
            st.just(('next',)), st.just(('next',)), st.just(('next', 'd')), st.just(('peek',)), st.just(('peek',)),
            st.tuples(st.just('peek'), values), st.just(('iter',)), st.just(('rest',)),
            st.tuples(st.just('slice'), st.integers(0, 4))), max_size=14)),
    }


def run_peek(case):
    items = list(case['items'])
    pulled = []

    def generate():
        for item in case['items']:
            pulled.append(item)
            yield item
    source = {'list': list, 'iter': iter, 'generator': lambda _: generate(),
              'peekable': lambda x: utils.peekable(utils.peekable(x))}[case['kind']](case['items'])
    it = utils.peekable(source)
    peeks = 0
    for call in case['calls']:
        name, *args = call
        if name == 'next':
            if items:
                got = next(it, *args)
                want = items.pop(0)
                check(got is want or got == want, 'next: %r instead of %r', got, want)
            elif args:
                check(next(it, *args) == 'd', 'next at the end')
            else:
                with contextlib.suppress(StopIteration):
                    check(False, 'next at the end: %r', next(it))
        elif name == 'peek':
            peeks += 1
            if items:
                check(it.peek(*args) == items[0], 'peek')
            elif args:
                got = it.peek(*args)
                check(got == args[0] and type(got) is type(args[0]), 'peek at the end: %r', got)
            else:
                with contextlib.suppress(StopIteration):
                    check(False, 'peek at the end: %r', it.peek())
        elif name == 'iter':
            check(iter(it) is it, 'iter')
        elif name == 'slice':
            got = list(itertools.islice(it, args[0]))
            check(got == items[:args[0]], 'slice %r of %r', got, items)
            del items[:args[0]]
        else:
            got = list(it)
            check(got == items, 'the rest: %r instead of %r', got, items)
            items.clear()
        if case['kind'] == 'generator':
            ahead = len(pulled) - (len(case['items']) - len(items))
            check(0 <= ahead <= 1, 'pulled %d items ahead', ahead)
    check(list(it) == items, 'what is left')
    return Info(peeks > 0 and len(case['calls']) > 2, [case['kind']], key=repr(case))


# --------------------------------------------------------------- cast

@st.composite
def cast_case(draw):
    return {
        'type': draw(st.sampled_from(['int', 'float', 'status', 'lookup', 'boom'])),
        'value': draw(st.one_of(st.integers(-5, 700), st.text(max_size=6), st.sampled_from(['1', ' 7 ', '1e3', 'nan', '']))),
        'exceptions': draw(st.sampled_from(['default', 'ValueError', 'KeyError', 'both'])),
    }


class Boom(Exception):
    pass


def boom(value):
    raise Boom(value)


def run_cast(case):
    function = {'int': int, 'float': float, 'status': HTTPStatus, 'lookup': {1: 'one', '1': 'un'}.__getitem__,
                'boom': boom}[case['type']]
    caught = {'default': ValueError, 'ValueError': ValueError, 'KeyError': KeyError,
              'both': (ValueError, KeyError)}[case['exceptions']]
    args = () if case['exceptions'] == 'default' else (caught,)
    try:
        want, error = function(case['value']), None
    except Exception as exc:    # noqa: BLE001
        want, error = case['value'], type(exc)
    fails = error is not None and not issubclass(error, caught)
    try:
        got = utils.try_cast(function, case['value'], *args)
    except Exception as exc:    # noqa: BLE001
        check(fails and type(exc) is error, 'raised %r', exc)
        return Info(True, ['raised'], key=repr(case))
    check(not fails, '%s hidden', error)
    check(repr(got) == repr(want), '%r instead of %r', got, want)
    return Info(error is not None, ['kept' if error else 'cast'], key=repr(case))


# -------------------------------------------------------- trust store

PATHS = {
    'alpine': '/etc/ssl/certs/ca-certificates.crt',
    'arch': '/etc/ca-certificates/extracted/tls-ca-bundle.pem',
    'debian': '/etc/ssl/certs/ca-certificates.crt',
    'fedora': '/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem',
    'suse': '/var/lib/ca-certificates/ca-bundle.pem',
    'ubuntu': '/etc/ssl/certs/ca-certificates.crt',
}
OTHERS = ['linux', 'rhel', 'centos', 'opensuse', 'gentoo', 'nixos', 'mint', 'manjaro', 'debian2', 'Debian', 'arch-arm']
ids = st.one_of(st.sampled_from(list(PATHS)), st.sampled_from(OTHERS))


@st.composite
def store_case(draw):
    release = {'ID': draw(ids), 'NAME': 'x', 'PRETTY_NAME': 'y'}
    like = draw(st.one_of(st.none(), st.lists(ids, max_size=4)))
    if like is not None:
        release['ID_LIKE'] = draw(st.sampled_from([' ', ' ', '  '])).join(like)
    return {'release': release}


def run_store(case):
    release = case['release']
    order = [release['ID'], *release.get('ID_LIKE', '').split()]
    want = next((PATHS[i] for i in order if i in PATHS), None)
    try:
        got = trust_store.get_ca_certificates_path(dict(release))
    except ValueError as exc:
        check(want is None, 'refused: %s', exc)
        check(release['ID'] in str(exc), 'message %r', str(exc))
        return Info('ID_LIKE' in release, ['unknown'], key=repr(case))
    check(got == want, '%s instead of %s', got, want)
    return Info('ID_LIKE' in release, ['own' if release['ID'] in PATHS else 'like'], key=repr(case))


SUBS = [
    Sub('hexdump', dump_case, run_dump, 3000, 60000, shards=2),
    Sub('http', http_case, run_http, 3000, 60000, shards=2),
    Sub('peek', peek_case, run_peek, 5000, 120000, shards=2),
    Sub('cast', cast_case, run_cast, 2000, 20000, shards=1),
    Sub('store', store_case, run_store, 2000, 20000, shards=1),
]
