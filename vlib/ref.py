"""
Peers written from the RFC on top of vlib.tls: a strict client and a strict
server that check everything the library emits (RefError otherwise), and that
can be told to emit anything.  Also the plumbing that connects them, or two
ends of the library, through memory.
"""
import random as _random

from siotls import TLSConnection
from siotls.contents.alerts import TLSFatalAlert

from .tls import *  # noqa: F403
from cryptography import x509
from cryptography.hazmat.primitives.serialization import (
    Encoding,
    PublicFormat,
    load_der_public_key,
)


def der(cert):
    return cert.public_bytes(Encoding.DER)


def spki(public_key):
    return public_key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


class Script(Exception):
    pass


class Peer:
    """ record layer of a reference peer """
    side = None

    def __init__(self, rng, framing=None, strict_pad=False):
        self.rng = rng
        self.inbuf = b''
        self.hsbuf = b''
        self.rx = None
        self.tx = None
        self.messages = []      # the transcript
        self.received = []
        self.log = []           # (inner type, content) of every record received
        self.records = []       # (header type, length, inner length or None, epoch)
        self.data = bytearray()
        self.data_seen = 0
        self.alerts = []
        self.closed = False
        self.dead = False
        self.connected = False
        self.limit = 16384
        self.epoch = 'plain'
        self.ccs = 0
        self.out = bytearray()
        self.framing = framing or {}
        self.strict_pad = strict_pad
        self.strict_limit = False
        self.pending = bytearray()
        self.schedule = None
        self.heartbeats = []
        self.intended = bytearray()     # data sent on purpose
        self.limit_pending = False      # records seen before the limit is known for sure
        self.deferred = []

    # ------------------------------------------------------ receiving

    def feed(self, data):
        self.inbuf += bytes(data)
        while len(self.inbuf) >= 5:
            rtype = self.inbuf[0]
            version = int.from_bytes(self.inbuf[1:3], 'big')
            length = int.from_bytes(self.inbuf[3:5], 'big')
            require(rtype in (CCS, ALERT, HANDSHAKE, APPDATA, HEARTBEAT),
                    'record of type %d', rtype)
            require(version == 0x0303, 'record version %#x', version)
            if len(self.inbuf) < 5 + length:
                break
            record, self.inbuf = self.inbuf[:5 + length], self.inbuf[5 + length:]
            self.on_record(rtype, length, record)

    def idle(self):
        """ called when everything emitted was fed """
        require(not self.inbuf, 'incomplete record emitted')
        require(not self.hsbuf, 'incomplete handshake message emitted')

    def on_record(self, rtype, length, record):
        require(not self.closed, 'a record after close_notify')
        require(not self.alerts or self.alerts[-1][1] == 90, 'a record after an alert')
        if rtype == CCS:
            require(record[5:] == b'\1', 'change cipher spec %r', record[5:])
            require(not self.connected, 'change cipher spec after the handshake')
            require(not self.hsbuf, 'change cipher spec inside a handshake message')
            self.ccs += 1
            self.records.append((CCS, length, None, self.epoch))
            return
        if self.rx is None:
            require(rtype != APPDATA, 'application data in the clear')
            require(0 < length <= 16384, 'record of %d bytes', length)
            self.records.append((rtype, length, None, 'plain'))
            self.on_content(rtype, record[5:])
            return
        require(rtype == APPDATA, 'unprotected record of type %d under keys', rtype)
        require(length <= self.limit + (0 if self.strict_limit else 256),
                'protected record of %d bytes, limit %d', length, self.limit)
        if self.limit_pending:
            self.deferred.append(length)
        elif self.strict_pad:
            chunk = min(4096, self.limit)
            require(length % chunk == 0, 'protected record of %d bytes, not a multiple of %d',
                    length, chunk)
        try:
            inner = self.rx.open_raw(record)
        except InvalidTag:
            raise RefError(
                f'record number {self.rx.seq - 1} of epoch {self.epoch} fails to decrypt') from None
        require(len(inner) <= self.limit + 1, 'inner plaintext of %d bytes', len(inner))
        content = inner.rstrip(b'\0')
        require(content, 'no inner content type')
        itype, content = content[-1], content[:-1]
        require(itype in (ALERT, HANDSHAKE, APPDATA, HEARTBEAT), 'inner type %d', itype)
        self.records.append((rtype, length, len(content), self.epoch))
        self.on_content(itype, content)

    def on_content(self, itype, content):
        self.log.append((itype, content))
        require(not self.hsbuf or itype == HANDSHAKE, 'interleaved handshake message')
        if itype == HANDSHAKE:
            require(content, 'empty handshake fragment')
            self.hsbuf += content
            while len(self.hsbuf) >= 4:
                length = 4 + int.from_bytes(self.hsbuf[1:4], 'big')
                if len(self.hsbuf) < length:
                    break
                message, self.hsbuf = self.hsbuf[:length], self.hsbuf[length:]
                self.received.append(message)
                self.on_message(message)
        elif itype == ALERT:
            require(len(content) == 2, 'alert of %d bytes', len(content))
            level, description = content
            require(level in (1, 2), 'alert level %d', level)
            self.alerts.append((level, description))
            if description == 0:
                self.closed = True
            elif description != 90:
                self.dead = True
        elif itype == APPDATA:
            require(self.connected, 'application data before the end of the handshake')
            require(self.epoch == 'ap', 'application data under %s keys', self.epoch)
            self.data += content
        elif itype == HEARTBEAT:
            self.heartbeats.append(content)

    def key_change(self):
        require(not self.hsbuf, 'handshake data across a key change')

    # ------------------------------------------------------ sending

    def th(self):
        return transcript_hash(HASH_OF[self.suite], self.messages)

    def record(self, rtype, data, pad=0, keys='tx'):
        """ one record, protected when there are keys """
        keys = self.tx if keys == 'tx' else keys
        if keys is None:
            return u8(rtype) + b'\3\3' + v16(data)
        return keys.seal(rtype, data, pad)

    def send(self, rtype, data, pad=0, keys='tx'):
        self.flush()
        limit = self.limit
        data = bytes(data)
        for i in range(0, len(data) or 1, limit):
            self.out += self.record(rtype, data[i:i + limit], min(pad, limit - len(data[i:i + limit])),
                                    keys)

    def send_raw(self, data):
        self.flush()
        self.out += data

    def send_hs(self, message):
        self.pending += message
        if not self.framing.get('coalesce'):
            self.flush()

    def flush(self):
        """ put the pending handshake bytes into records, as the framing says """
        data, self.pending = bytes(self.pending), bytearray()
        cuts = self.framing.get('cuts') or [self.limit]
        pads = self.framing.get('pads') or [0]
        ccs = self.framing.get('ccs') or [False]
        i = 0
        while i < len(data):
            n = self.framing['n'] = self.framing.get('n', -1) + 1
            size = max(1, min(cuts[n % len(cuts)], self.limit))
            part = data[i:i + size]
            i += size
            pad = min(pads[n % len(pads)] if n < 12 else n % 3, self.limit - len(part))
            self.out += self.record(HANDSHAKE, part, pad)
            if ccs[n % len(ccs)] and self.may_ccs and (i >= len(data)):
                self.out += b'\x14\3\3\0\1\1'

    may_ccs = True

    def take(self):
        self.flush()
        out, self.out = bytes(self.out), bytearray()
        return out

    def send_data(self, data, pad=0):
        self.send(APPDATA, data, pad)

    def emit(self, item):
        """ one post-handshake thing out of a generated case """
        kind, *args = item
        if kind == 'data':
            tag, size, pad = args
            data = _random.Random(f'{self.side}{tag}').randbytes(size)
            self.intended += data
            if size:
                self.send_data(data, pad)
            else:
                self.send_raw(self.record(APPDATA, b'', pad))
        elif kind == 'hb':
            mtype, size, pad = args
            self.send(HEARTBEAT, u8(mtype) + v16(b'p' * size) + b'\0' * pad)
        elif kind == 'nst':
            self.send(HANDSHAKE, hs(NST, (7200).to_bytes(4, 'big') + b'\0\0\0\1' + v8(b'\0')
                                    + v16(b'ticket') + v16(b'')))
        elif kind == 'alert':
            self.send_alert(*args)
        elif kind == 'rec':
            rtype, content, pad = args
            self.send_raw(self.record(rtype, content, pad))
        elif kind == 'raw':
            self.send_raw(args[0])
        elif kind == 'plain':
            rtype, content = args
            self.send_raw(self.record(rtype, content, keys=None))
        else:
            raise Script(kind)

    def run_tail(self):
        for item in self.o.get('tail', ()):
            self.emit(item)
        self.flush()

    def send_alert(self, level, description):
        self.send(ALERT, bytes([level, description]))

    def close(self):
        self.send_alert(1, 0)


SERVER_FLIGHT = ('SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN')


class RefServer(Peer):
    """
    opts: suite, group, hrr (None/False: only when needed, True), cookie,
    scheme, key (private key), entries [(der, [(t, data)])], sct (certificate
    type answered or None), alpn, mfl, hb (mode or None), ee (extra
    extensions), sh (extra), flight (names), tweak {name: fn(ref, message)},
    epochs {name: 'plain'|'hs'|'ap'}, sid, data_early...
    """
    side = 'server'

    def __init__(self, rng, opts, framing=None, **kwargs):
        super().__init__(rng, framing, **kwargs)
        self.o = opts
        self.chs = []
        self.suite = None
        self.hrr_sent = False
        self.keysets = {}
        self.sent_names = []

    def on_message(self, message):
        mtype = message[0]
        if mtype == CH:
            require(self.rx is None and len(self.chs) <= int(self.hrr_sent),
                    'unexpected client hello')
            self.key_change()
            self.on_client_hello(message)
        elif mtype == CERT and self.o.get('cr') and not self.connected:
            require(self.epoch == 'hs', 'certificate under %s keys', self.epoch)
            self.client_cert = parse_cert(message)
            self.messages.append(message)
        elif mtype == FIN:
            require(self.epoch == 'hs' and not self.connected, 'unexpected finished')
            expected = self.c_hs.finished_mac(self.th())
            require(message[4:] == expected, 'wrong client finished')
            self.messages.append(message)
            self.key_change()
            self.rx, self.epoch = self.c_ap, 'ap'
            self.connected = True
            self.on_connected()
        else:
            raise RefError(f'unexpected handshake message {mtype} from the client')

    def on_connected(self):
        pass

    def on_client_hello(self, message):
        ch = parse_ch(message)
        if not self.chs:
            self.check_client_hello(ch)
        self.chs.append(ch)
        self.ch = ch
        self.shares = dict(ch_shares(ch))
        o = self.o
        if self.suite is None:
            self.suite = o.get('suite') or ch['suites'][0]
        groups = Reader(ch['exts'][X_GROUPS]).ints(2, 2)
        self.group = o.get('group') or next(iter(self.shares), groups[0])
        self.messages.append(message)
        if not self.hrr_sent and (o.get('hrr') or self.group not in self.shares):
            self.send_hrr()
            return
        if self.hrr_sent:
            self.check_second_client_hello()
        if self.group not in self.shares:
            raise RefError(f'no share for the requested group {self.group:#x}')
        self.run_flight(o.get('flight', SERVER_FLIGHT))

    def check_client_hello(self, ch):
        x = ch['exts']
        for t in (X_VERSIONS, X_SIGALGS, X_GROUPS, X_SHARE):
            require(t in x, 'client hello lacks extension %d', t)
        require(0x0304 in Reader(x[X_VERSIONS]).ints(1, 2), 'no TLS 1.3 offered')
        require(len(ch['random']) == 32, 'random')
        groups = Reader(x[X_GROUPS]).ints(2, 2)
        shares = ch_shares(ch)
        require([g for g in groups if g in dict(shares)] == [g for g, _ in shares],
                'shares not among the supported groups in order')
        for g, s in shares:
            require(len(s) == SHARE_LEN[g], 'share of %d bytes for %#x', len(s), g)

    def check_second_client_hello(self):
        a, b = self.chs[0], self.chs[1]
        for f in ('random', 'sid', 'suites', 'comp'):
            require(a[f] == b[f], 'second client hello changes %s', f)
        xa, xb = dict(a['exts']), dict(b['exts'])
        xa.pop(X_SHARE)
        xb.pop(X_SHARE)
        cookie = xb.pop(X_COOKIE, None)
        xa.pop(X_PAD, None), xb.pop(X_PAD, None)
        want = v16(self.o['cookie']) if self.o.get('cookie') else None
        require(cookie == want, 'cookie %r instead of %r', cookie, want)
        require(xa == xb, 'second client hello changes the extensions')
        require(list(self.shares) == [self.group],
                'second client hello has the shares %r instead of %r', list(self.shares), self.group)

    def send_hrr(self):
        exts = [(X_VERSIONS, u16(0x0304)), (X_SHARE, u16(self.group))]
        if self.o.get('cookie'):
            exts.append((X_COOKIE, v16(self.o['cookie'])))
        exts = self.o.get('hrr_exts', exts)
        hrr = build_sh(HRR_RANDOM, self.o.get('hrr_suite', self.suite), exts, self.sid())
        hrr = self.tweak('HRR', hrr)
        self.hrr_sent = True
        self.messages.append(hrr)
        self.send_hs(hrr)
        self.flush()
        if self.o.get('hrr_ccs', True):
            self.send_raw(b'\x14\3\3\0\1\1')

    def sid(self):
        return self.o.get('sid', self.ch['sid'])

    def tweak(self, name, message):
        t = self.o.get('tweak', {}).get(name)
        return t(self, message) if t else message

    def run_flight(self, names):
        for name in names:
            self.step(name)
        self.flush()
        self.run_tail()

    def step(self, name):
        self.sent_names.append(name)
        if name == 'CCS':
            self.send_raw(b'\x14\3\3\0\1\1')
            return
        if name.startswith('DATA'):
            self.send_data(b'early!')
            return
        message = self.tweak(name, self.make(name))
        epoch = self.o.get('epochs', {}).get(name)
        tx = self.tx
        if epoch:
            self.flush()
            self.tx = self.keysets.get(epoch)
        if name == 'FIN':
            self.may_ccs = False    # not legit anymore after Finished
        self.send_hs(message)
        if epoch:
            self.flush()
            self.tx = tx
        if 'ap' not in self.keysets:
            self.messages.append(message)   # what follows Finished is not in the client's transcript
        if name == 'SH' and self.rx is None and 'hs' not in self.keysets:
            self.flush()
            self.derive_hs()
            self.tx = self.s_hs
        if name == 'FIN' and 'ap' not in self.keysets and 'hs' in self.keysets:
            self.flush()
            self.derive_ap()
            self.tx = self.s_ap

    def derive_hs(self):
        self.schedule = Schedule(self.suite)
        shared = self.o.get('secret') or self.share.shared(self.shares[self.share.group])
        self.shared_secret = shared
        self.c_hs, self.s_hs = self.schedule.handshake(shared, self.th())
        self.keysets['hs'] = self.s_hs
        self.rx, self.epoch = self.c_hs, 'hs'

    def derive_ap(self):
        self.c_ap, self.s_ap = self.schedule.master(self.th())
        self.keysets['ap'] = self.s_ap

    def ee_exts(self):
        o = self.o
        exts = []
        if o.get('alpn') is not None:
            exts.append((X_ALPN, v16(v8(o['alpn']))))
        if o.get('mfl'):
            exts.append((X_MFL, u8({512: 1, 1024: 2, 2048: 3, 4096: 4}[o['mfl']])))
        if o.get('hb') and X_HB in self.ch['exts']:
            exts.append((X_HB, u8(o['hb'])))
        if o.get('sct') is not None:
            exts.append((X_SCTYPE, u8(o['sct'])))
        return exts + list(o.get('ee', []))

    def make(self, name):
        o = self.o
        if name == 'SH':
            self.random = self.rng.randbytes(32)
            self.share = Share(self.group, self.rng)
            exts = [(X_VERSIONS, u16(0x0304)), (X_SHARE, u16(self.group) + v16(self.share.public))]
            exts = o['sh_exts'](self, exts) if o.get('sh_exts') else exts
            return build_sh(self.random, self.suite, exts, self.sid())
        if name == 'EE':
            if o.get('mfl'):
                self.limit = o['mfl']
            return build_ee(self.ee_exts())
        if name == 'CR':
            return hs(CR, v8(o.get('cr_context', b'')) + v16(
                b''.join(ext(t, d) for t, d in o.get(
                    'cr_exts', [(X_SIGALGS, v16(b''.join(map(u16, (0x0403, 0x0804, 0x0807)))))]))))
        if name == 'CERT':
            return build_cert(o['entries'], o.get('cert_context', b''))
        if name == 'CV':
            scheme = o['scheme']
            return hs(CV, u16(scheme) + v16(sign(o['key'], o.get('sign_as', scheme), cv_content(self.th()))))
        if name == 'FIN':
            keys = self.keysets.get('hs')
            return hs(FIN, keys.finished_mac(self.th()) if keys else b'\0' * 32)
        if name == 'NST':
            return hs(NST, u32(7200) + u32(1) + v8(b'\0') + v16(b'ticket') + v16(b''))
        if name == 'KU':
            return hs(KU, b'\0')
        if name == 'EOED':
            return hs(EOED, b'')
        if name == 'CH':
            return self.messages[0]
        if name == 'HRR':
            return build_sh(HRR_RANDOM, self.suite, [
                (X_VERSIONS, u16(0x0304)), (X_SHARE, u16(o.get('hrr_group', self.group)))], self.sid())
        raise Script(name)

    @property
    def extensions_offered(self):
        return set(self.ch['exts'])


def u32(i):
    return i.to_bytes(4, 'big')


class RefClient(Peer):
    """
    opts: suites, groups, shares (groups to share), sigalgs, alpn [bytes],
    sni, mfl, hb, sct [types], status (bool), exts (extra), versions, sid,
    order (permutation seed), flight, tweak, epochs, ch (fn to alter the list)
    """
    side = 'client'

    def __init__(self, rng, opts, framing=None, **kwargs):
        super().__init__(rng, framing, **kwargs)
        self.o = opts
        self.shares = {}
        self.suite = None
        self.hrr = None
        self.sh = None
        self.stage = 'CH'
        self.keysets = {}
        self.random = rng.randbytes(32)
        self.cr = None
        self.flight_sent = False

    # ------------------------------------------------------ hello

    def extensions(self, groups, cookie=None):
        o = self.o
        for g in groups:
            if g not in self.shares:
                self.shares[g] = Share(g, self.rng)
        exts = []
        if o.get('sni') is not None:
            exts.append((X_SNI, v16(u8(0) + v16(o['sni']))))
        if o.get('mfl'):
            exts.append((X_MFL, u8({512: 1, 1024: 2, 2048: 3, 4096: 4}[o['mfl']])))
        exts.append((X_GROUPS, v16(b''.join(map(u16, o['groups'])))))
        exts.append((X_SIGALGS, v16(b''.join(map(u16, o['sigalgs'])))))
        if o.get('hb'):
            exts.append((X_HB, u8(o['hb'])))
        if o.get('alpn'):
            exts.append((X_ALPN, v16(b''.join(v8(p) for p in o['alpn']))))
        if o.get('status'):
            exts.append((X_STATUS, b'\1\0\0\0\0'))
        if o.get('cct') is not None:
            exts.append((X_CCT, v8(bytes(o['cct']))))
        if o.get('sct') is not None:
            exts.append((X_SCTYPE, v8(bytes(o['sct']))))
        exts.append((X_VERSIONS, v8(b''.join(map(u16, o.get('versions', [0x0304]))))))
        exts.append((X_SHARE, v16(b''.join(
            u16(g) + v16(self.shares[g].public) for g in groups))))
        exts += o.get('exts', [])
        if cookie is not None:
            exts.append((X_COOKIE, v16(cookie)))
        if o.get('order') is not None:
            _random.Random(o['order']).shuffle(exts)
        return exts

    def padded(self, exts, big):
        """ with padding (RFC 7685) that makes the hello that big, in a bearable number of records """
        cuts = self.framing.get('cuts') or [16384]
        big = min(big, 1000 * sum(cuts) // len(cuts))
        bare = len(build_ch(self.random, self.o['suites'], exts, self.o.get('sid', b'')))
        if 0 <= big - bare - 4 < 50000 and all(e[0] != 21 for e in exts):
            exts = [*exts, (21, bytes(big - bare - 4))]
        return exts

    def hello(self, groups=None, cookie=None, name='CH'):
        o = self.o
        groups = o['shares'] if groups is None else groups
        exts = self.extensions(groups, cookie)
        if o.get('ch'):
            exts = o['ch'](self, exts, name)
        if o.get('big'):
            exts = self.padded(exts, o['big'])
        ch = build_ch(o.get('random2', self.random) if name == 'CH2' else self.random,
                      o.get('suites2', o['suites']) if name == 'CH2' else o['suites'],
                      exts, o.get('sid', b''), version=o.get('legacy', 0x0303))
        ch = self.tweak(name, ch)
        self.messages.append(ch)
        self.send_hs(ch)
        self.flush()
        self.stage = 'SH'

    def start(self):
        self.hello()

    def tweak(self, name, message):
        t = self.o.get('tweak', {}).get(name)
        return t(self, message) if t else message

    # ------------------------------------------------------ server flight

    def on_message(self, message):
        mtype = message[0]
        if self.connected:
            raise RefError(f'unexpected handshake message {mtype} after the handshake')
        expected = {'SH': (SH,), 'EE': (EE,), 'CERTCR': (CERT, CR), 'CERT': (CERT,),
                    'CV': (CV,), 'FIN': (FIN,), 'DONE': ()}[self.stage]
        require(mtype in expected, 'message %d at stage %s', mtype, self.stage)
        getattr(self, f'on_{mtype}')(message)

    def on_2(self, message):
        sh = parse_sh(message)
        o = self.o
        self.key_change()
        require(sh['sid'] == o.get('sid', b''), 'session id not echoed')
        require(sh['suite'] in o['suites'], 'suite not offered')
        require(sh['suite'] in HASH_OF, 'unknown suite selected')
        require(sh['exts'].get(X_VERSIONS) == u16(0x0304), 'selected version')
        allowed = {X_VERSIONS, X_SHARE} | ({X_COOKIE} if sh['hrr'] else set())
        require(set(sh['exts']) <= allowed, 'extensions %r in server hello', sh['ext_order'])
        require(self.hrr is None or self.hrr['suite'] == sh['suite'], 'suite changed after retry')
        self.suite = sh['suite']
        if sh['hrr']:
            require(self.hrr is None, 'second hello retry request')
            self.hrr = sh
            self.messages.append(message)
            self.hrr_group = group = int.from_bytes(sh['exts'][X_SHARE], 'big')
            require(len(sh['exts'][X_SHARE]) == 2, 'key share in hello retry request')
            require(group in o['groups'], 'retry group not offered')
            require(group not in o['shares'], 'retry group already shared')
            cookie = sh['exts'].get(X_COOKIE)
            groups2 = o.get('shares2', [group])
            if not o.get('stop_at_hrr'):
                self.hello(groups2, cookie[2:] if cookie is not None else None, 'CH2')
            return
        self.sh = sh
        r = Reader(sh['exts'][X_SHARE])
        self.group = r.int(2)
        peer = r.vec(2)
        r.end()
        current = o.get('shares2', [self.hrr_group]) if self.hrr else o['shares']
        require(self.group in current, 'selected group not shared')
        require(self.hrr is None or self.group == self.hrr_group, 'group differs from the retry')
        self.peer_share = peer
        self.messages.append(message)
        self.schedule = Schedule(self.suite)
        shared = self.shares[self.group].shared(peer)
        self.c_hs, self.s_hs = self.schedule.handshake(shared, self.th())
        self.keysets['hs'] = self.c_hs
        self.rx, self.epoch = self.s_hs, 'hs'
        # the limit negotiated in EE applies to EE itself too
        self.limit_pending = bool(o.get('mfl'))
        self.stage = 'EE'

    def on_8(self, message):
        r = Reader(message[4:])
        exts = parse_exts(r)
        r.end()
        self.ee = dict(exts)
        require(len(self.ee) == len(exts), 'duplicate extensions')
        offered = {t for t in self.offered()}
        require(set(self.ee) <= offered, 'extensions %r answered but not offered',
                set(self.ee) - offered)
        allowed = {X_SNI, X_MFL, X_GROUPS, X_SRTP, X_HB, X_ALPN, X_CCT, X_SCTYPE, X_EARLY}
        require(set(self.ee) <= allowed, 'extensions %r in encrypted extensions', set(self.ee))
        if X_MFL in self.ee:
            require(self.ee[X_MFL] == self.offered().get(X_MFL),
                    'max fragment length differs from the offer')
            require(self.ee[X_MFL] in {u8(i) for i in (1, 2, 3, 4)}, 'max fragment length')
            self.limit = 256 << self.ee[X_MFL][0]
        if self.limit_pending:
            self.limit_pending = False
            if self.strict_pad:
                chunk = min(4096, self.limit)
                for length in self.deferred:
                    require(length % chunk == 0 and length <= self.limit,
                            'protected record of %d bytes, limit %d', length, self.limit)
        if X_ALPN in self.ee:
            protos = Reader(self.ee[X_ALPN]).vecs(2, 1)
            require(X_ALPN in self.offered(), 'ALPN not offered')
            require(len(protos) == 1 and protos[0] in Reader(self.offered()[X_ALPN]).vecs(2, 1),
                    'ALPN %r', protos)
            self.alpn = protos[0]
        if X_SCTYPE in self.ee:
            require(len(self.ee[X_SCTYPE]) == 1, 'server certificate type')
            require(self.ee[X_SCTYPE][0] in self.offered().get(X_SCTYPE, b'')[1:],
                    'server certificate type')
        self.messages.append(message)
        self.stage = 'CERTCR'

    def offered(self):
        return parse_ch(self.messages[0])['exts']

    def on_13(self, message):
        r = Reader(message[4:])
        require(r.vec(1) == b'', 'certificate request context')
        self.cr = dict(parse_exts(r))
        r.end()
        require(X_SIGALGS in self.cr, 'certificate request without signature algorithms')
        self.messages.append(message)
        self.stage = 'CERT'

    def on_11(self, message):
        ctx, self.entries = parse_cert(message)
        require(ctx == b'', 'certificate context')
        require(self.entries, 'empty certificate list')
        self.raw = self.ee.get(X_SCTYPE, b'\0') == b'\2'
        for _, exts in self.entries:
            for t, _ in exts:
                require(t in (X_STATUS, X_SCT), 'extension %d in certificate', t)
                require(t in self.offered(), 'certificate extension %d not offered', t)
        if self.raw:
            require(len(self.entries) == 1, 'several raw public keys')
            self.server_key = load_der_public_key(self.entries[0][0])
        else:
            self.server_key = x509.load_der_x509_certificate(self.entries[0][0]).public_key()
        self.messages.append(message)
        self.stage = 'CV'

    def on_15(self, message):
        from . import pki
        r = Reader(message[4:])
        self.scheme = r.int(2)
        signature = r.vec(2)
        r.end()
        require(self.scheme in self.o['sigalgs'], 'scheme %#x not offered', self.scheme)
        kind = pki.kind_of(self.server_key)
        require(SIG[self.scheme][0] == kind and SIG[self.scheme][2] != 'v15',
                'scheme %#x for a %s key', self.scheme, kind)
        require(verify(self.server_key, self.scheme, signature, cv_content(self.th())),
                'invalid CertificateVerify signature')
        self.messages.append(message)
        self.stage = 'FIN'

    def on_20(self, message):
        require(message[4:] == self.s_hs.finished_mac(self.th()), 'wrong server finished')
        self.messages.append(message)
        self.key_change()
        self.stage = 'DONE'
        self.c_ap, self.s_ap = self.schedule.master(self.th())
        self.keysets['ap'] = self.c_ap
        self.rx, self.epoch = self.s_ap, 'ap'
        self.tx = self.c_hs
        if self.o.get('ccs', True):
            self.send_raw(b'\x14\3\3\0\1\1')
        if self.o.get('hold'):
            return
        self.run_flight(self.o.get('flight', ('CERT', 'FIN') if self.cr is not None else ('FIN',)))

    # ------------------------------------------------------ second flight

    def run_flight(self, names):
        for name in names:
            self.step(name)
        self.flush()
        self.run_tail()
        self.flight_sent = True

    def step(self, name):
        if name == 'CCS':
            self.send_raw(b'\x14\3\3\0\1\1')
            return
        if name.startswith('DATA'):
            self.send_data(b'early!')
            return
        if name == 'SWITCH':    # forced to the application keys
            self.flush()
            self.tx = self.c_ap
            return
        message = self.tweak(name, self.make(name))
        epoch = self.o.get('epochs', {}).get(name)
        tx = self.tx
        if epoch:
            self.flush()
            self.tx = self.keysets.get(epoch)
        if name == 'FIN':
            self.may_ccs = False    # not legit anymore after Finished
        self.send_hs(message)
        if epoch:
            self.flush()
            self.tx = tx
        self.messages.append(message)
        if name == 'FIN' and not self.connected:
            self.flush()
            self.tx = self.c_ap
            self.connected = True

    def make(self, name):
        if name == 'CERT':
            return build_cert(self.o.get('client_entries', []), b'')
        if name == 'CV':
            return hs(CV, u16(self.o['client_scheme']) + v16(sign(
                self.o['client_key'], self.o['client_scheme'], cv_content(self.th(), 'client'))))
        if name == 'FIN':
            return hs(FIN, self.c_hs.finished_mac(self.th()))
        if name == 'CH':
            return self.messages[0]
        if name == 'EOED':
            return hs(EOED, b'')
        if name == 'KU':
            return hs(KU, b'\0')
        if name == 'EE':
            return build_ee([])
        if name == 'NST':
            return hs(NST, u32(7200) + u32(1) + v8(b'\0') + v16(b'ticket') + v16(b''))
        if name == 'SH':
            return next(m for m in self.messages if m[0] == SH)
        raise Script(name)


# ---------------------------------------------------------------- plumbing

class Lib:
    """ one end of the library, whose fatal alert errors are collected """
    def __init__(self, config, **kwargs):
        self.conn = TLSConnection(config, **kwargs)
        self.exc = None
        self.emitted = bytearray()
        self.read = bytearray()

    def start(self):
        self.conn.initiate_connection()

    def feed(self, data, pieces=None):
        """ pieces: cyclic list of sizes; stops at the first fatal alert """
        data = bytes(data)
        i = n = 0
        while i < len(data) and self.exc is None:
            size = len(data) - i if not pieces else max(1, pieces[n % len(pieces)])
            if n > 3000:    # tiny pieces of a long input take too long
                size += 97
            try:
                self.conn.receive_data(data[i:i + size])
            except TLSFatalAlert as exc:
                self.exc = exc
            self.read += self.conn.data_to_read()
            i += size
            n += 1

    def take(self):
        out = bytes(self.conn.data_to_send())
        self.emitted += out
        return out

    @property
    def ok(self):
        return self.exc is None and self.conn.is_connected()


def drive(lib, ref, pieces=None, rounds=12):
    """ the library against a reference peer until nothing moves """
    if ref.side == 'client':
        lib.start()
        if not ref.messages:
            ref.start()
    else:
        lib.start()
    for _ in range(rounds):
        moved = False
        out = lib.take()
        if out:
            moved = True
            ref.feed(out)
        out = ref.take()
        if out and lib.exc is None:
            moved = True
            lib.feed(out, pieces)
        if not moved:
            break
    if lib.exc is None:
        ref.idle()
    return lib


class Pair:
    """ two ends of the library """
    def __init__(self, client_config, server_config, host=None, client_kw=None, server_kw=None):
        self.c = Lib(client_config, server_hostname=host, **(client_kw or {}))
        self.s = Lib(server_config, **(server_kw or {}))

    def start(self):
        self.s.start()
        self.c.start()
        return self

    def pump(self, pieces=None, mangle=None, rounds=12):
        """ mangle(side of the sender, data) -> data """
        for _ in range(rounds):
            moved = False
            for a, b, side in ((self.c, self.s, 'client'), (self.s, self.c, 'server')):
                out = a.take()
                if out and mangle:
                    out = mangle(side, out)
                if out:
                    moved = True
                    b.feed(out, pieces)
            if not moved:
                break
        return self

    @property
    def ok(self):
        return self.c.ok and self.s.ok


def split_records(data):
    """ -> records of a well-formed stream, plus the rest """
    records = []
    data = bytes(data)
    while len(data) >= 5 and len(data) >= 5 + int.from_bytes(data[3:5], 'big'):
        n = 5 + int.from_bytes(data[3:5], 'big')
        records.append(data[:n])
        data = data[n:]
    return records, data
