"""The planted bugs: writes seeded/<id>/ and, with --check, proves each one.

    python3 tools/seeds.py             rewrite every folder under seeded/
    python3 tools/seeds.py --check [ID...]   apply, build, test, demo, check, undo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.path.join(ROOT, 'seeded')
REPO = '/repo'
SEEDS = []


def seed(id, prop, file, edits, needs, breaks, demo, lib=None):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, lib=lib))


HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
'''


def diff(s, where):
    p = os.path.join(where, s['file'])
    src = open(p).read()
    for old, new in s['edits']:
        if src.count(old) != 1:
            raise SystemExit('%s: %d times: %r' % (s['id'], src.count(old), old))
        src = src.replace(old, new)
    open(p, 'w').write(src)


def write():
    with tempfile.TemporaryDirectory() as tmp:
        work = os.path.join(tmp, 'r')
        subprocess.check_call(['git', 'clone', '-q', REPO, work])
        if os.path.isdir(OUT):
            shutil.rmtree(OUT)
        for s in SEEDS:
            diff(s, work)
            patch = subprocess.check_output(['git', '-C', work, 'diff'])
            subprocess.check_call(['git', '-C', work, 'checkout', '-q', '--', '.'])
            d = os.path.join(OUT, s['id'])
            os.makedirs(d)
            open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
            open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip('\n') + '\n')
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            if s['lib']:
                shutil.copy(os.path.join(HERE, s['lib']), d)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            open(os.path.join(d, 'meta.json'), 'a').write('\n')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def check(ids, tests=True):
    if sh('git -C /repo status --porcelain').stdout.strip():
        raise SystemExit('/repo is not clean')
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(OUT, s['id'])
        res = []
        old = sh('git -C /repo show 26cc009:' + s['file']).stdout.splitlines()
        gone = [l[1:] for l in open(d + '/patch.diff').read().splitlines() if l.startswith('-') and not l.startswith('---')]
        if not any(l in old for l in gone):
            res.append('NOT-ORIGINAL')
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        res.append('clean=%d' % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stdout
        try:
            if tests:
                sh('bash /opt/vp/build.sh')
                r = sh('bash /opt/vp/test.sh /tmp/seed-out.json')
                res.append('tests=%s' % [l for l in r.stdout.splitlines() if ' passed' in l or 'FAIL' in l or ' failed' in l])
            r = sh('bash %s/demo.sh' % d, cwd=REPO)
            res.append('patched=%d' % r.returncode)
            r = sh('bash %s/run.sh %s' % (ROOT, s['prop']), env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('check=%d %s' % (r.returncode, v[:1]))
        finally:
            sh('git -C /repo checkout -- .')
            sh('bash /opt/vp/build.sh')
        print(s['id'], s['prop'], *res, flush=True)


# --------------------------------------------------------------------- bugs

seed('extip-highest', 'C42', 'nbc/node/basenode.py',
     [('counter = [(counter[a],a) for a in counter]', 'counter = [(a,counter[a]) for a in counter]'),
      ('self._guessed_external_ip = counter[-1][1]', 'self._guessed_external_ip = counter[-1][0]')],
     'peers that disagree, where the majority answer is not the greatest text',
     'the node believes the lexicographically greatest reported address instead of the majority one',
     '''
from nodelib import *
n = node()
for i, me in enumerate(['1.2.3.4', '1.2.3.4', '5.6.7.8']):
    c, s = accept(n, '10.0.0.%d' % i)
    feed(c, version(me))
sys.exit(0 if n.external_ip == '1.2.3.4' else 1)
''', 'nodelib.py')

seed('seek-stuck', 'C41', 'nbc/node/basenode.py',
     [('range(0,min(self._seek_peers-len(peers),5))', 'range(0,min(self._seek_peers,5)-len(peers))')],
     'a node that has five or more peers but fewer than it seeks',
     'the node stops seeking peers as soon as it has five',
     '''
from nodelib import *
n = node(seek_peers=12)
for i in range(30):
    n._addresses[('10.1.0.%d' % i, 1000)] = (1, 1)
for i in range(20):
    n.heartbeat()
sys.exit(0 if len(n.peers) == 12 else 1)
''', 'nodelib.py')

seed('tx-keeps-alive', 'C40', 'nbc/node/connection.py',
     [('      self._last_tx_time = time.time()\n    except', '      self._last_tx_time = self._last_rx_time = time.time()\n    except')],
     'a peer that says nothing for three hours while the node keeps pinging it',
     'what the node writes counts as a sign of life of the peer, so a silent peer is never dropped',
     '''
from nodelib import *
n = node()
c, s = accept(n, '10.0.0.1')
feed(c, version())
c.handle_write()
for i in range(60 * 24):
    clock.now += 60
    if s.closed:
        break
    if c.readable() and c.writable():
        c.handle_write()
sys.exit(0 if s.closed else 1)
''', 'nodelib.py')

seed('ban-renewed', 'C39', 'nbc/node/basenode.py',
     [('        sock.close()            # banned it within one hour\n',
       '        self._banned[address[0]] = time.time()\n        sock.close()            # banned it within one hour\n')],
     'a banned peer that retries before its hour is over',
     'every refused attempt restarts the ban, so a peer that keeps trying is never let in again',
     '''
from nodelib import *
n = node()
c, s = accept(n, '10.0.0.1')
for i in range(6):
    n.punish_peer(c)
assert s.closed
clock.now += 1800
assert accept(n, '10.0.0.1')[0] is None
clock.now += 1801
sys.exit(0 if accept(n, '10.0.0.1')[0] else 1)
''', 'nodelib.py')

seed('zero-send-drops', 'C37', 'nbc/node/connection.py',
     [('    self._send_buffer = self._send_buffer[sent:]', "    self._send_buffer = self._send_buffer[sent:] if sent else b''")],
     'a socket that takes nothing although it was reported writable',
     'a write that takes no byte throws the whole send buffer away',
     '''
from nodelib import *
n = node()
c, s = accept(n, '10.0.0.1')
s.caps = [10, 0]
for i in range(5):
    if c.writable():
        c.handle_write()
try:
    got = messages(s.sent)
except Exception:
    got = []
sys.exit(0 if [m.command for m in got] == ['version'] else 1)
''', 'nodelib.py')

seed('half-header-lost', 'C35', 'nbc/node/connection.py',
     [('      if length is None or length > len(self._recv_buffer):\n        break  # not enough bytes for next message\n',
       '      if length is None or length >= len(self._recv_buffer) + 24:\n        break  # not enough bytes for next message\n')],
     'a message whose last fewer than 24 bytes arrive in a later chunk',
     'a message that is only missing a few bytes is taken as complete, refused, and its rest misread',
     '''
from nodelib import *
got = []
class N(basenode.BaseNode):
    def command_ping(self, peer, nonce):
        got.append(nonce)
basenode.print = lambda *a, **k: None
n = N(data_dir='/x', address=('127.0.0.1', 1), bootstrap=False, log=None)
c, s = accept(n, '10.0.0.1')
data = protocol.Ping(b'abcdefgh').binary(MAGIC) + protocol.Ping(b'ABCDEFGH').binary(MAGIC)
feed(c, data[:30])
feed(c, data[30:])
sys.exit(0 if got == [b'abcdefgh', b'ABCDEFGH'] else 1)
''', 'nodelib.py')

seed('upnp-udp', 'C43', 'nbc/node/__init__.py',
     [("    r = u.getspecificportmapping(eport,proto)\n    while", "    r = u.getspecificportmapping(eport,'TCP')\n    while")],
     'a UDP mapping requested while another host holds that UDP port',
     'a UDP mapping of someone else is taken over, because only the TCP table is asked at first',
     '''
import nbc.node as node
class U(object):
    lanaddr = '192.168.0.2'
    table = {(7000, 'UDP'): '192.168.0.9'}
    def discover(self): return 1
    def selectigd(self): pass
    def externalipaddress(self): return '1.1.1.1'
    def statusinfo(self): return ''
    def connectiontype(self): return ''
    def getspecificportmapping(self, port, proto): return self.table.get((port, proto))
    def addportmapping(self, port, proto, host, lport, label, x):
        self.table[port, proto] = host
        return True
    def deleteportmapping(self, port, proto):
        return self.table.pop((port, proto), None) is not None
class M(object):
    UPnP = U
node.miniupnpc = M
node.add_portmap(7000, 'UDP')
sys.exit(0 if U.table[7000, 'UDP'] == '192.168.0.9' else 1)
''')

seed('merkle-leaf-only', 'C32', 'nbc/util/__init__.py',
     [('''    while len(branches) > 1:
        if (len(branches) % 2) == 1:
            branches.append(branches[-1])

        branches''', '''    if len(branches) > 1 and (len(branches) % 2) == 1:
        branches.append(branches[-1])

    while len(branches) > 1:
        branches''')],
     'five, six, nine or more transactions (a level above the leaves with an odd number of nodes)',
     'the last node of an odd inner level is dropped from the Merkle root instead of being paired with itself',
     '''
from nbc import util
import hashlib
class T(object):
    def __init__(self, i): self.hash = hashlib.sha256(b'%d' % i).digest()
def root(h):
    while len(h) > 1:
        if len(h) % 2: h = h + h[-1:]
        h = [hashlib.sha256(hashlib.sha256(h[i] + h[i+1]).digest()).digest() for i in range(0, len(h), 2)]
    return h[0]
for n in range(1, 12):
    t = [T(i) for i in range(n)]
    if util.get_merkle_root(t) != root([x.hash for x in t]):
        sys.exit(1)
''')

seed('feeder-keeps-15', 'C17', 'nbc/util/pyaes/blockfeeder.py',
     [('        while len(self._buffer) > 16:\n            can_consume = self._mode._can_consume(len(self._buffer) - 16)',
       '        while len(self._buffer) > 15:\n            can_consume = self._mode._can_consume(len(self._buffer) - len(self._buffer) % 16)')],
     'decryption of a block mode fed up to a block boundary before the final call',
     'the feeder decrypts the last block before it knows it is the last, so the padding is not stripped',
     '''
from nbc.util import pyaes
from nbc.util.pyaes import blockfeeder as bf
key = b'0123456789abcdef'
for size in range(0, 70):
    data = bytes(bytearray(range(size)))
    for step in (1, 5, 16, 32, 48):
        for M in (pyaes.AESModeOfOperationECB, pyaes.AESModeOfOperationCBC):
            try:
                e = bf.Encrypter(M(key)); c = b''
                for i in range(0, size, step): c += e.feed(data[i:i+step])
                c += e.feed()
                d = bf.Decrypter(M(key)); p = b''
                for i in range(0, len(c), step): p += d.feed(c[i:i+step])
                p += d.feed()
            except Exception:
                sys.exit(1)
            if p != data: sys.exit(1)
''')

seed('ctr-carry', 'C16', 'nbc/util/pyaes/aes.py',
     [('        for i in xrange(len(self._counter) - 1, -1, -1):\n            self._counter[i] += 1', '        for i in xrange(len(self._counter) - 1, 7, -1):\n            self._counter[i] += 1')],
     'a counter whose low eight bytes are all ff while a higher byte is not zero',
     'the counter does not carry past its eighth byte',
     '''
from nbc.util import pyaes
key = b'0123456789abcdef'
ecb = pyaes.AESModeOfOperationECB(key)
for start in (1, (1 << 64) - 2, (5 << 64) - 2, (1 << 72) - 1):
    c = pyaes.AESModeOfOperationCTR(key, pyaes.Counter(start)).encrypt(b'\\0' * 48)
    want = b''.join(ecb.encrypt((start + i).to_bytes(16, 'big')) for i in range(3))
    if c != want: sys.exit(1)
''')

seed('long-passphrase', 'C03', 'nbc/wallet/address.py',
     [('''    passphrase = passphrase.encode('latin-1')
  passphrase = passphrase[:16].ljust''', '''    passphrase = passphrase.encode('latin-1')
  passphrase = passphrase[-16:].ljust''')],
     'a passphrase of more than sixteen characters',
     'a wallet saved with a passphrase of 17 or more characters does not open with that passphrase any more',
     '''
from nbc.wallet.address import Address
a = Address.generate(vcn=1)
for p in (b'short', b'0123456789abcde', b'0123456789abcdef', b'0123456789abcdefgh'):
    cfg = a.dump_to_cfg(p)
    try:
        b = Address.load_from_cfg(cfg, p)
    except Exception:
        sys.exit(1)
    if b.privKey != a.privKey: sys.exit(1)
''')

seed('hardened-short-key', 'C07', 'nbc/wallet/hdwallet.py',
     [("      str_k = number_to_string(self._prvkey,curve.order)\n      deriv",
       "      str_k = number_to_string(self._prvkey,curve.order).lstrip(b'\\x00')\n      deriv")],
     'hardened derivation below a private key whose first byte is zero (one key in 256)',
     'hardened children of a private key with leading zero bytes differ from those of every other BIP32 wallet',
     '''
from nbc.wallet.hdwallet import HDWallet
import hmac, hashlib
k = 0x00abcd << 200 | 7
w = HDWallet(k, b'\\7' * 32, vcn=0)
c = w.child(0x80000000)
I = hmac.new(b'\\7' * 32, b'\\0' + k.to_bytes(32, 'big') + b'\\x80\\0\\0\\0', hashlib.sha512).digest()
sys.exit(0 if c.chain() == I[32:] else 1)
''')

seed('childnum-unhardened', 'C08', 'nbc/wallet/hdwallet.py',
     [('    childnum = number_to_string(self._childnum,2**32-1)\n', '    childnum = number_to_string(self._childnum & 0x7fffffff,2**32-1)\n')],
     'exporting a wallet that was derived hardened',
     'the extended key of a hardened child carries the wrong child number',
     '''
from nbc.wallet.hdwallet import HDWallet
w = HDWallet.from_master_seed(b'x' * 16, vcn=0).child(0x80000003)
r = HDWallet.from_extended_key(w.to_extended_key(True), vcn=0)
sys.exit(0 if r.childnum() == w.childnum() == 0x80000003 else 1)
''')

seed('wif-flag-ignored', 'C10', 'nbc/util/key.py',
     [('        if ORD(key[-1]) != 1:  # not 0x01', '        if ORD(key[-1]) == 0:  # not 0x01')],
     'a 34-byte key with a correct checksum and a flag other than 1',
     'a compressed key whose compression flag is not 1 is accepted',
     '''
from nbc.util import key, base58
for flag in (2, 3, 0x80, 0xff):
    w = base58.encode_check(b'\\x80' + b'\\x11' * 32 + bytes(bytearray([flag])))
    try:
        key.privkey_from_wif(w)
    except ValueError:
        continue
    sys.exit(1)
''')

seed('missing-last-split', 'C13', 'nbc/util/piecewise.py',
     [('    secexp_missing = (secexp - sum(secexps)) % curve.order', '    secexp_missing = abs(secexp - sum(secexps)) % curve.order')],
     'a split whose random parts add up to more than the key',
     'the parts of a split key combine to another key',
     '''
from nbc.util import piecewise as p, key
w = key.privkey_to_wif(b'\\0' * 31 + b'\\5')
sys.exit(0 if p.combine_private_keys(p.split_private_key(w, 3)) == w else 1)
''')

seed('partial-checksum-skipped', 'C14', 'nbc/util/piecewise.py',
     [('            if sha256d(private_key)[:4] != checksum:', '            if sha256d(private_key)[:4] != checksum and not ignore_errors:')],
     'keys from two different splits combined with ignore_errors',
     'with ignore_errors a wrong key is returned silently when parts of two splits are mixed',
     '''
from nbc.util import piecewise as p, key
w = key.privkey_to_wif(b'\\7' * 32)
from nbc.util.base58 import decode_check
def idx(k): return bytearray(decode_check(k))[2]
a = [k for g in p.partial_split_private_key(w, 2, 3) for k in g]
b = [k for g in p.partial_split_private_key(w, 2, 3) for k in g]
i = idx(a[0])
mixed = [a[0]] + [k for k in b if idx(k) == i and k not in a][:1]
try:
    r = p.partial_combine_private_keys(mixed, ignore_errors=True)
except ValueError:
    sys.exit(0)
sys.exit(0 if r in (None, w) else 1)
''')

seed('alert-offset', 'C33', 'nbc/protocol/messages.py',
     [('''      (vl, s) = format.parse_var_set(data[offset:], format.FtVarString())
      self._data['set_sub_ver'] = s
      offset += vl
''', '''      (vl, s) = format.parse_var_set(data[offset:], format.FtVarString())
      self._data['set_sub_ver'] = s
      offset += 1 + sum(1 + len(i) for i in s)
''')],
     'an alert naming a sub-version of 253 bytes or more, or more than 252 of them',
     'the fields after the sub-versions are read from the wrong place',
     '''
from nbc import protocol
import struct
V = protocol.format.FtVarString.binary
def alert(subs):
    p = struct.pack('<iqqii', 1, 2, 3, 4, 5) + b'\\0' + struct.pack('<ii', 6, 7)
    p += protocol.format.FtVarInteger.binary(len(subs)) + b''.join(V(s) for s in subs)
    return p + struct.pack('<i', 77) + V(b'c') + V(b'status') + V(b'r')
for subs in ([], [b'/a/'], [b'x' * 252, b'y'], [b'x' * 253], [b'z'] * 300):
    try:
        if protocol.Alert(alert(subs), b'').priority != 77: sys.exit(1)
    except Exception:
        sys.exit(1)
''')

seed('square-factor', 'C21', 'nbc/util/ecdsa/numbertheory.py',
     [('          while d <= n:                 # As long', '          while d < n:                  # As long')],
     'a number divisible by the square of a prime above 1229',
     'a repeated large prime is listed twice, so phi and the Carmichael function are wrong',
     '''
from nbc.util.ecdsa import numbertheory as nt
p = 1231
sys.exit(0 if nt.factorization(p * p) == [(p, 2)] and nt.phi(p * p) == p * (p - 1)
         and nt.factorization(6 * p ** 3) == [(2, 1), (3, 1), (p, 3)] else 1)
''')

seed('short-der-key', 'C22', 'nbc/util/ecdsa/keys.py',
     [('            privkey_str = b("\\x00")*(curve.baselen-len(privkey_str)) + privkey_str',
       '            privkey_str = privkey_str + b("\\x00")*(curve.baselen-len(privkey_str))')],
     'a DER private key written by a program that drops leading zero bytes',
     'a private key stored in fewer bytes than the curve needs is read as another key',
     '''
from nbc.util.ecdsa import SigningKey, NIST256p, der
k = der.encode_sequence(der.encode_integer(1), der.encode_octet_string(b'\\x05'),
    der.encode_constructed(0, NIST256p.encoded_oid))
try:
    sk = SigningKey.from_der(k)
except Exception:
    sys.exit(1)
sys.exit(0 if sk.privkey.secret_multiplier == 5 else 1)
''')

seed('debug-type3', 'C31', 'nbc/protocol/messages.py',
     [("if v.object_type <= 2:", "if v.object_type <= len(('error', 'tx', 'block')):")],
     'an inventory whose first entry has the unused type 3, with debug logging',
     'the debug form of such an inventory raises instead of saying unknown',
     '''
from nbc import protocol
from nbc.protocol import format
for t in (0, 1, 2, 3, 4, 2**32 - 1):
    m = protocol.Inventory([format.InventoryVector(t, b'x' * 32)])
    try:
        ok = isinstance(m._debug(), str)
    except Exception:
        ok = False
    if not ok:
        sys.exit(1)
''')

seed('varint-signed', 'C30', 'nbc/protocol/format.py',
     [("return (5,struct.unpack('<I', data[1:5])[0])", "return (5,struct.unpack('<i', data[1:5])[0])")],
     'a count of 2^31 or more in the five-byte form',
     'such a count is read as a negative number',
     '''
from nbc.protocol import format
for n, l in ((252, 1), (253, 3), (65534, 3), (65536, 5), (2**31 - 1, 5), (2**31, 5), (2**32 - 2, 5), (2**32, 9)):
    s = format.FtVarInteger.binary(n)
    if len(s) != l or format.FtVarInteger.parse(s) != (l, n):
        sys.exit(1)
''')

seed('compat-address', 'C30', 'nbc/protocol/format.py',
     [("data[10:12] == (b'\\xff\\xff'): # ipv4", "data[10:12] in (b'\\xff\\xff', b'\\x00\\x00'): # ipv4")],
     'an IPv6 address whose first twelve bytes are zero, such as ::1',
     'the address ::1 is read back as the IPv4 address 0.0.0.1',
     '''
from nbc.protocol import format
import socket
f = format.FtIPAddress()
for a in ('1.2.3.4', '::1', '::102:304', '::ffff:0:0', '1::', '::1:102:304'):
    b = f.binary(a)
    n, t = f.parse(b)
    if n != 16 or f.binary(t) != b:
        sys.exit(1)
''')

seed('round-timestamp', 'C29', 'nbc/protocol/format.py',
     [("return struct.pack(self._format,int(obj))", "return struct.pack(self._format,int(round(obj)))")],
     'a fractional timestamp in the last half second before 2^32',
     'a value that was accepted when the message was built cannot be encoded',
     '''
from nbc.protocol import format
a = format.NetworkAddress(4294967295.75, 1, '1.2.3.4', 5)
try:
    a.binary()
except Exception:
    sys.exit(1)
''')

seed('empty-checksum', 'C27', 'nbc/protocol/messages.py',
     [("    if data[20:24] != checksum:\n", "    if payload and data[20:24] != checksum:\n")],
     'a message without payload whose checksum is wrong',
     'a corrupted frame of a message with an empty payload is accepted',
     '''
from nbc import protocol, coins
M = coins.Newbitcoin.magic
d = protocol.VersionAck().binary(M)
protocol.Message.parse(d, M)
try:
    protocol.Message.parse(d[:20] + b'\\0\\0\\0\\0', M)
except protocol.MsgFormatError:
    sys.exit(0)
sys.exit(1)
''')

seed('relay-default', 'C26', 'nbc/protocol/format.py',
     [("      return self._child.parse(data)\n", "      (vl,obj) = self._child.parse(data)\n      return (vl,obj or self._default)\n")],
     'a version message with relay switched off',
     'a version message that asks for no relaying is read as asking for it',
     '''
from nbc import protocol, coins
M = coins.Newbitcoin.magic
a = protocol.NetworkAddress(1, 1, '1.2.3.4', 5)
for r in (0, 1):
    m = protocol.Version(1, 1, 1, a, a, b'12345678', b'', 1, r)
    if m.relay != r or protocol.Message.parse(m.binary(M), M).relay != r:
        sys.exit(1)
''')

seed('target-equal', 'C34', 'nbc/util/__init__.py',
     [("    return pow <= get_target(block_header.bits)", "    return pow < get_target(block_header.bits)")],
     'a header whose proof of work equals its target',
     'a header that just meets its target is refused',
     '''
from nbc import util
class H(object):
    bits = 0x1d00ffff
    def binary(self): return b'\\0' * 80
class C(object):
    def __init__(self, n): self.n = n
    def proof_of_work(self, h): return self.n.to_bytes(32, 'little')
t = 0xffff << 208
got = [util.verify_target(C(n), H()) for n in (0, t - 1, t, t + 1)]
sys.exit(0 if got == [True, True, True, False] else 1)
''')

seed('answer-cut', 'C36', 'nbc/node/basenode.py',
     [("      if services is None: continue\n", "      if not services: continue\n")],
     'a known address whose announced services are zero',
     'an address that announced services, namely none, is not handed out',
     '''
from nodelib import *
n = node()
n._addresses[('10.0.0.1', 1)] = (6, 0)
n._addresses[('10.0.0.2', 1)] = (5, 1)
c, s = accept(n, '10.0.0.9')
feed(c, protocol.GetAddress().binary(MAGIC))
c.handle_write()
m = messages(s.sent)
sys.exit(0 if m[-1].command == 'addr' and [a.address for a in m[-1].addr_list] == ['10.0.0.1', '10.0.0.2'] else 1)
''', 'nodelib.py')

seed('dead-address-kept', 'C38', 'nbc/node/basenode.py',
     [("    if peer.address in self._addresses:\n      del", "    if peer.verack and peer.address in self._addresses:\n      del")],
     'a known address that is connected to and closed before its handshake is complete',
     'an address that does not work stays in the address book',
     '''
from nodelib import *
n = node()
n._addresses[('10.0.0.1', 1000)] = (5, 1)
n.add_peer(('10.0.0.1', 1000))
n.peers[0].handle_close()
sys.exit(0 if not n._addresses else 1)
''', 'nodelib.py')

seed('credit-saved', 'C39', 'nbc/node/connection.py',
     [("    self._banscore = 0 if i < 0 else i\n", "    self._banscore = i\n")],
     'a peer that behaved for a while (several heartbeats) before it misbehaves',
     'good behaviour is saved up, and such a peer is not dropped at its sixth offence',
     '''
from nodelib import *
n = node()
c, s = accept(n, '10.0.0.1')
for i in range(10):
    n.heartbeat()
for i in range(6):
    n.punish_peer(c)
sys.exit(0 if s.closed else 1)
''', 'nodelib.py')

seed('timeout-each', 'C44', 'nbc/util/__init__.py',
     [("        thread.join(wait_time)\n", "        thread.join(max(wait_time, timeout / 2.0))\n")],
     'more than one source that does not answer',
     'every slow source adds to the waiting time, so the time limit is exceeded',
     '''
import time, threading
from nbc import util
ev = threading.Event()
class C(object):
    block_height_guess = [('s%d' % i, lambda: ev.wait(20)) for i in range(8)] + [('a', lambda: 7)]
t = time.time()
r = util.guess_block_height(C, 1.0)
t = time.time() - t
ev.set()
sys.exit(0 if r == {'a': 7} and t < 2.5 else 1)
''')

seed('eq-any-curve', 'C20', 'nbc/util/ecdsa/ellipticcurve.py',
     [("    if self.__curve == other.__curve \\\n       and self.__x == other.__x \\\n", "    if self.__x == other.__x \\\n")],
     'two curves with a common pair of coordinates',
     'points of different curves are called equal',
     '''
from nbc.util.ecdsa import ellipticcurve as e
a = e.Point(e.CurveFp(23, 1, 1), 0, 1)
b = e.Point(e.CurveFp(23, 2, 1), 0, 1)
sys.exit(0 if not (a == b) and a == e.Point(a.curve(), 0, 1) else 1)
''')

seed('digest-part-byte', 'C19', 'nbc/util/ecdsa/rfc6979.py',
     [("    if l > qlen:\n", "    if l >= qlen + 8:\n")],
     'a group order one to seven bits shorter than the digest (no named curve with a hash of matching size)',
     'digest and candidates are not cut to the bits of the order, so the nonce differs from the one RFC 6979 defines',
     '''
import hashlib, hmac
from nbc.util.ecdsa import rfc6979
class G(object):
    def __init__(self, n): self.n = n
    def order(self): return self.n
def ref(n, x, h):
    q = n.bit_length(); l = (q + 7) // 8
    b2i = lambda s: int.from_bytes(s, 'big') >> max(0, len(s) * 8 - q)
    bx = x.to_bytes(l, 'big') + (b2i(h) % n).to_bytes(l, 'big')
    H = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    v = b'\\1' * 32; k = b'\\0' * 32
    for c in (b'\\0', b'\\1'):
        k = H(k, v + c + bx); v = H(k, v)
    while 1:
        t = b''
        while len(t) < l:
            v = H(k, v); t += v
        s = b2i(t)
        if 1 <= s < n: return s
        k = H(k, v + b'\\0'); v = H(k, v)
n = (1 << 254) + 79 - (1 << 250)
for i in range(20):
    h = hashlib.sha256(b'%d' % i).digest()
    if rfc6979.generate_k(G(n), 12345, hashlib.sha256, h) != ref(n, 12345, h):
        sys.exit(1)
''')

seed('tag-nibble', 'C23', 'nbc/util/ecdsa/der.py',
     [("    tag = s0 & 0x1f\n", "    tag = s0 & 0x0f\n")],
     'a constructed tag of 16 or more',
     'tags from 16 to 30 read back as other tags',
     '''
from nbc.util.ecdsa import der
for t in range(31):
    if der.remove_constructed(der.encode_constructed(t, b'abc') + b'x') != (t, b'abc', b'x'):
        sys.exit(1)
''')

seed('sig-zero-tail', 'C24', 'nbc/util/ecdsa/util.py',
     [("    s, empty = der.remove_integer(rest)\n    if empty != b(\"\"):", "    s, empty = der.remove_integer(rest)\n    if empty.strip(b(\"\\x00\")):")],
     'zero bytes behind the two numbers, inside the sequence of a DER signature',
     'a signature encoding with trailing data is accepted',
     '''
from nbc.util.ecdsa import der, util
good = der.encode_integer(5) + der.encode_integer(6)
assert util.sigdecode_der(der.encode_sequence(good), 1000) == (5, 6)
try:
    util.sigdecode_der(der.encode_sequence(good, b'\\0\\0'), 1000)
except der.UnexpectedDER:
    sys.exit(0)
sys.exit(1)
''')

seed('never-one', 'C25', 'nbc/util/ecdsa/util.py',
     [("        if 1 <= candidate < order:\n            return candidate\n", "        if 1 < candidate < order:\n            return candidate\n")],
     'a random source that returns zero bytes',
     'the scalar one is never drawn',
     '''
from nbc.util.ecdsa import util
src = [b'\\0', b'\\5']
sys.exit(0 if util.randrange(200, lambda n: src.pop(0)) == 1 else 1)
''')

seed('build-100', 'C45', 'nbc/util/__init__.py',
     [("(0 <= revision < 100) and (0 <= build < 100)", "(0 <= revision < 100) and (0 <= build <= 100)")],
     'a build number of exactly 100',
     'a part that is out of range is accepted and changes the revision',
     '''
from nbc import util
try:
    util.make_version(1, 2, 3, 100)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

seed('r-not-reduced', 'C02', 'nbc/util/ecdsa/ecdsa.py',
     [("    v = xy.x() % n\n    return v == r\n", "    return xy.x() == r\n")],
     'a signature whose point has an x coordinate between the group order and the field prime (one in 2^128)',
     'a signature that satisfies the ECDSA equation is refused',
     '''
from nbc.util import ecdsa, ecc, sha256d
from nbc.util.ecdsa import ellipticcurve, SECP256k1, der, numbertheory
n, p = SECP256k1.order, SECP256k1.curve.p()
x = n
while 1:                                   # a point R with n <= x < p
    x += 1
    y = pow(x ** 3 + 7, (p + 1) // 4, p)
    if (y * y - x ** 3 - 7) % p == 0:
        break
R = ellipticcurve.Point(SECP256k1.curve, x, y)
r, s, msg = x - n, 1234567, b'message'
e = int.from_bytes(sha256d(msg), 'big')
Q = (R * s + SECP256k1.generator * (-e % n)) * pow(r, -1, n)      # the key it is valid for
pub = b'\\4' + Q.x().to_bytes(32, 'big') + Q.y().to_bytes(32, 'big')
sig = der.encode_sequence(der.encode_integer(r), der.encode_integer(s))
sys.exit(0 if ecc.verify(msg, pub, sig) is True else 1)
''')

seed('decompress-mainnet', 'C09', 'nbc/wallet/address.py',
     [("      return Address(pubKey=util.key.decompress_public_key(self._pubKey),vcn=self._vcn,testnet=self._testnet)",
       "      return Address(pubKey=util.key.decompress_public_key(self._pubKey),vcn=self._vcn)")],
     'a compressed wallet of the test network that holds only a public key',
     'decompressing such a wallet moves it to the main network',
     '''
from nbc.wallet import Address
a = Address.generate(vcn=5, testnet=True)
w = Address(pubKey=a.publicKey(), vcn=5, testnet=True)
sys.exit(0 if w.decompress().address == a.decompress().address else 1)
''')

seed('short-check', 'C11', 'nbc/util/base58.py',
     [("  if digest[:4] == check:\n", "  if digest.startswith(check):\n")],
     'a text that decodes to fewer than four bytes',
     'an empty text, and a few very short ones, pass the checksum',
     '''
from nbc.util import base58
for t in [b''] + [base58.b58encode(base58.sha256(base58.sha256(b'').digest()).digest()[:n]) for n in (1, 2, 3)]:
    if base58.decode_check(t) is not None:
        sys.exit(1)
sys.exit(0 if base58.decode_check(base58.encode_check(b'')) == b'' else 1)
''')

seed('long-compressed', 'C12', 'nbc/util/key.py',
     [("    if (ch != 2 and ch != 3) or len(public_key) != 33:\n", "    if (ch != 2 and ch != 3) or len(public_key) < 33:\n")],
     'a compressed key with a zero byte slipped in behind its tag',
     'a public key of a wrong length is taken and decompressed to 66 bytes',
     '''
from nbc.util import key
g = bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
assert len(key.decompress_public_key(g)) == 65
try:
    key.decompress_public_key(g[:1] + b'\\0' + g[1:])
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

seed('blank-padding', 'C05', 'nbc/wallet/address.py',
     [("    raise ValueError('passphrase should be bytes')\n  passphrase = passphrase[:16].ljust(16,b'\\x00')", "    raise ValueError('passphrase should be bytes')\n  passphrase = passphrase[:16].ljust(16)"),
      ("    passphrase = passphrase.encode('latin-1')\n  passphrase = passphrase[:16].ljust(16,b'\\x00')", "    passphrase = passphrase.encode('latin-1')\n  passphrase = passphrase[:16].ljust(16)")],
     'a passphrase of fewer than 16 bytes, and a file written by another version',
     'short passphrases are filled with blanks both when saving and loading, so old files cannot be read',
     '''
from nbc.wallet import Address, address
from nbc.util.pyaes.aes import AESModeOfOperationCBC
a = Address.generate(vcn=1)
cfg = a.dump_to_cfg(b'secret')
clear = b'%02x' % len(a.privKey) + a.privKey
clear = clear.ljust((len(clear) + 15) // 16 * 16, b'\\0')
aes = AESModeOfOperationCBC(b'secret'.ljust(16, b'\\0'))
want = b''.join(aes.encrypt(clear[i:i + 16]) for i in range(0, len(clear), 16)).hex()
sys.exit(0 if cfg['prvkey'] == want else 1)
''')

seed('filling-skipped', 'C35', 'nbc/node/connection.py',
     [("      self._recv_buffer = self._recv_buffer[length:]  # remove one message\n",
       "      self._recv_buffer = self._recv_buffer[length:].lstrip(b'\\x00')  # remove one message, and filling\n")],
     'a stream with zero bytes between two messages, or a magic number that starts with zero',
     'bytes that belong to the stream are skipped, so what follows is read as messages although it is not aligned',
     '''
from nodelib import *
n = node()
c, s = accept(n, '10.0.0.1')
p = protocol.Ping(b'abcdefgh').binary(MAGIC)
pad = b'\\0' * 16 + (4).to_bytes(4, 'little') + b'\\0' * 8       # an unknown message
feed(c, p + pad + protocol.Ping(b'ABCDEFGH').binary(MAGIC))
c.handle_write()
sys.exit(0 if [m.nonce for m in messages(s.sent) if m.command == 'pong'] == [b'abcdefgh', b'ABCDEFGH'] else 1)
''', 'nodelib.py')

seed('own-seed', 'C41', 'nbc/node/basenode.py',
     [("    if address in [n.address for n in self.values()]:", "    if address in [n.address for n in self.peers]:")],
     'a node whose own address is among the seeds',
     'the node connects to itself',
     '''
from nodelib import *
n = node(seek_peers=3)
n._bootstrap = [n.address]
n.heartbeat()
sys.exit(0 if not n.peers else 1)
''', 'nodelib.py')

seed('stop-mapping', 'C46', 'nbc/node/basenode.py',
     [("    try:\n      asyncore.loop(5,map=self)\n    except StopNode as e:\n      pass\n    finally:\n      self.handle_close()\n",
       "    try:\n      asyncore.loop(5,map=self)\n    except StopNode:\n      pass\n    except Exception:\n      self._listen = False      # the interface is in trouble\n      raise\n    finally:\n      self.handle_close()\n")],
     'a listening node behind a gateway whose loop ends by an error of a sub-class',
     'the port mapping stays at the gateway',
     '''
from nodelib import *
import nbc.node
table = {}
class UPnP(object):
    lanaddr = '192.168.1.2'
    discoverdelay = 0
    def discover(self): return 1
    def selectigd(self): return 'igd'
    def externalipaddress(self): return '5.5.5.5'
    def statusinfo(self): return ('Connected', '', 1)
    def connectiontype(self): return 'IP_Routed'
    def getspecificportmapping(self, port, proto): return table.get((port, proto))
    def addportmapping(self, port, proto, host, inner, label, x):
        table[port, proto] = (host, inner, label, True, 0)
        return True
    def deleteportmapping(self, port, proto):
        del table[port, proto]
        return True
class Lib(object):
    pass
Lib.UPnP = UPnP
nbc.node.miniupnpc = Lib
nbc.node.print = lambda *a, **k: None
class Node(basenode.BaseNode):
    def begin_loop(self):
        raise RuntimeError('trouble')
def loop(timeout, map):
    while map:
        for fd, o in list(map.items()):
            o.readable()
asyncore.loop = loop
dispatcher.handle_close = dispatcher.close
basenode.print = connection.print = lambda *a, **k: None
n = Node(data_dir='/nonexistent', address=('127.0.0.1', 20303), bootstrap=False, log=None)
try:
    n.serve_forever()
    sys.exit(1)
except RuntimeError:
    pass
sys.exit(0 if not table else 1)
''', 'nodelib.py')

seed('send-limit', 'C37', 'nbc/node/connection.py',
     [("    self._send_buffer += message.binary(self.node.coin.magic)", "    data = message.binary(self.node.coin.magic)\n    if len(self._send_buffer) + len(data) <= 4 * 1024 * 1024:  # protect from slow readers\n      self._send_buffer += data")],
     'a peer that reads nothing while more than four megabytes wait for it',
     'messages of a connection that goes on are lost without a word',
     '''
from nodelib import *
n = node()
c, s = accept(n, '1.2.3.4')
for i in range(300):
    c.send_message(protocol.Alert(b'x' * 20000, b'%03d' % i))
while c.writable():
    c.handle_write()
got = [m.signature for m in messages(s.sent) if m.command == 'alert']
sys.exit(0 if got == [b'%03d' % i for i in range(300)] else 1)
''', 'nodelib.py')

seed('resync', 'C35', 'nbc/node/connection.py',
     [("      except protocol.MsgFormatError as e:\n        self.node.invalid_command(self,payload,e)",
       "      except protocol.MsgFormatError as bad:\n        self.node.invalid_command(self,payload,bad)\n        i = self._recv_buffer.find(self.node.coin.magic)\n        if i > 0: self._recv_buffer = self._recv_buffer[i:]  # go on where a message starts")],
     'a frame of bad format, followed by another bad one with the network magic inside its payload',
     'a message hidden inside the payload of another one is obeyed',
     '''
from nodelib import *
n = node()
c, s = accept(n, '1.2.3.4')
seen = []
n.command_ping = lambda peer, nonce: seen.append(nonce)
bad = b'bad!' + protocol.Ping(b'AAAAAAAA').binary(MAGIC)[4:]
inner = protocol.Ping(b'BBBBBBBB').binary(MAGIC)
outer = bytearray(protocol.Ping(b'CCCCCCCC').binary(MAGIC))
outer[:4] = b'bad!'
outer[16:20] = (len(inner)).to_bytes(4, 'little')
feed(c, bad + bytes(outer[:24]) + inner + protocol.Ping(b'DDDDDDDD').binary(MAGIC))
sys.exit(0 if seen == [b'DDDDDDDD'] else 1)
''', 'nodelib.py')

seed('passphrase-kept', 'C05', 'nbc/wallet/address.py',
     [("  while not passphrase:\n    passphrase = getpass", "  global _last\n  passphrase = passphrase or _last  # asked for once already\n  while not passphrase:\n    passphrase = getpass"),
      ("  aes = AES(passphrase)\n  \n  sDecoded", "  _last = passphrase\n  aes = AES(_last)\n  \n  sDecoded"),
      ("def _keyFromPoint", "_last = b''\n\ndef _keyFromPoint")],
     'a wallet file that is loaded without a passphrase after another one was loaded in the same process',
     'the passphrase is not asked for, the one of the other wallet is tried instead',
     '''
import getpass, tempfile
typed = []
getpass.getpass = lambda *a, **k: typed.pop(0)
from nbc.wallet import Address, saveTo, loadFrom
from nbc.wallet import address
if hasattr(address, 'getpass') and not hasattr(address.getpass, 'getpass'):
    address.getpass = getpass.getpass
with tempfile.TemporaryDirectory() as d:
    a = Address.generate(vcn=1)
    b = Address.generate(vcn=1)
    saveTo(d + '/a', a, b'first')
    saveTo(d + '/b', b, b'second')
    assert loadFrom(d + '/a', b'first').address == a.address
    typed.append('second')
    try:
        sys.exit(0 if loadFrom(d + '/b').address == b.address and not typed else 1)
    except Exception:
        sys.exit(1)
''')

seed('split-many', 'C13', 'nbc/util/piecewise.py',
     [("    secexp_missing = (secexp - sum(secexps)) % curve.order", "    secexp_missing = (secexp - sum(secexps[-255:])) % curve.order")],
     'a key split into more than 256 parts',
     'the parts do not combine to the key',
     '''
from nbc.util import piecewise, key
wif = key.privkey_to_wif((12345).to_bytes(32, 'big'))
parts = piecewise.split_private_key(wif, 300)
sys.exit(0 if piecewise.combine_private_keys(parts) == wif else 1)
''')

seed('same-host', 'C41', 'nbc/node/basenode.py',
     [("      actives = [n.address for n in peers]\n", "      actives = [a for a in self._addresses if a[0] in [n.ip for n in peers]]\n")],
     'known addresses that share their host, one of them connected',
     'the other addresses of a host are never tried',
     '''
from nodelib import *
n = node(seek_peers=2)
n._addresses[('1.2.3.4', 1)] = (5, 1)
n._addresses[('1.2.3.4', 2)] = (4, 1)
clock.now += 11
for i in range(300):
    clock.now += 11
    n.heartbeat()
sys.exit(0 if sorted(p.address for p in n.peers) == [('1.2.3.4', 1), ('1.2.3.4', 2)] else 1)
''', 'nodelib.py')

seed('eight-votes', 'C42', 'nbc/node/basenode.py',
     [("      counter = [(counter[a],a) for a in counter]\n", "      counter = [(min(counter[a],8),a) for a in counter]  # eight peers are enough\n")],
     'more than eight peers for one external address and eight or more for another one',
     'the minority is believed',
     '''
from nodelib import *
n = node()
for i in range(20):
    c, s = accept(n, '1.2.3.%d' % i)
    a = protocol.NetworkAddress(1, 1, '5.5.5.5' if i < 12 else '6.6.6.6', 1)
    b = protocol.NetworkAddress(1, 1, '9.9.9.9', 1)
    feed(c, protocol.Version(60002, 1, 1, a, b, b'12345678', b'/x/', 5, 1).binary(MAGIC))
sys.exit(0 if n.external_ip == '5.5.5.5' else 1)
''', 'nodelib.py')

seed('half-pardon', 'C39', 'nbc/node/connection.py',
     [("    i = self._banscore - penalty\n", "    i = self._banscore - penalty * (1 + (self._verack and self._rx_bytes > 4096))\n")],
     'a peer that sent more than four kilobytes and shook hands, punished between heartbeats',
     'its offences are forgotten twice as fast',
     '''
from nodelib import *
n = node()
c, s = accept(n, '1.2.3.4')
feed(c, version() + protocol.VersionAck().binary(MAGIC))
for i in range(200):
    feed(c, protocol.Pong(b'12345678').binary(MAGIC))
for i in range(4):
    n.punish_peer(c)
n.heartbeat()
n.punish_peer(c); n.punish_peer(c)
assert not s.closed
n.punish_peer(c)
sys.exit(0 if s.closed else 1)
''', 'nodelib.py')

seed('child-zero', 'C07', 'nbc/wallet/hdwallet.py',
     [("    if depth == None: # master wallet\n", "    if not depth or not childnum: # master wallet\n")],
     'a deterministic wallet whose last step is child number zero',
     'such a child loses its depth and parent',
     '''
from nbc.wallet import HDWallet
a = HDWallet.from_master_seed(b'seed', vcn=1).child(3).child(0)
b = HDWallet.load_from_cfg(a.dump_to_cfg())
sys.exit(0 if (a.depth(), b.depth(), a.parentfp()) == (2, 2, b.parentfp()) and a.parentfp() != b'\\0' * 4 else 1)
''')

seed('secret-leading-zero', 'C15', 'nbc/util/ecc.py',
     [("    shared_key = number_to_string(shared_point.x(), curve.order)\n", "    shared_key = ecdsa.ecdsa.int_to_string(shared_point.x())\n")],
     'a key pair whose shared point has an x coordinate below 2^248 (one in 256)',
     'the shared secret loses its leading zero bytes',
     '''
from nbc.util import ecc, key
g = bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
for i in range(1, 400):
    if len(ecc.shared_secret(g, key.privkey_to_wif(i.to_bytes(32, 'big')))) != 32:
        sys.exit(1)
''')

seed('s-too-big', 'C18', 'nbc/util/ecdsa/ecdsa.py',
     [("    if s < 1 or s > n-1: return False\n", "    if s < 1: return False\n")],
     'a signature whose second number was raised by a multiple of the order',
     'numbers out of range are accepted',
     '''
from nbc.util import ecdsa
from nbc.util.ecdsa import util
k = ecdsa.SigningKey.from_secret_exponent(77, ecdsa.NIST256p)
r, s = k.sign_number(5, k=99)
e = k.privkey.public_key
assert e.verifies(5, ecdsa.ecdsa.Signature(r, s))
sys.exit(0 if not e.verifies(5, ecdsa.ecdsa.Signature(r, s + ecdsa.NIST256p.order)) else 1)
''')

seed('sign-memo', 'C01', 'nbc/wallet/hdwallet.py',
     [("    return ecc.sign(data,prvKey)", "    memo = getattr(self,'_signed',None)\n    if memo is None or memo[0] != (data[:32],len(data)):\n      memo = self._signed = ((data[:32],len(data)),ecc.sign(data,prvKey))\n    return memo[1]")],
     'one wallet that signs, in a row, two messages of one length with the same first 32 bytes',
     'the second message gets the signature of the first',
     '''
from nbc.wallet import HDWallet
w = HDWallet.from_master_seed(b'seed', vcn=1)
head = b'pay to the same receiver again: '
a, b = head + b'0001', head + b'9999'
sys.exit(0 if w.verify(a, w.sign(a)) and w.verify(b, w.sign(b)) else 1)
''')

seed('hardened-number', 'C04', 'nbc/wallet/hdwallet.py',
     [("      'childnum': self._childnum,", "      'childnum': self._childnum & 0x7fffffff,")],
     'a deterministic wallet that is a hardened child',
     'its child number is another one after saving and loading',
     '''
from nbc.wallet import HDWallet
a = HDWallet.from_master_seed(b'seed', vcn=1).child(0x80000005)
b = HDWallet.load_from_cfg(a.dump_to_cfg())
sys.exit(0 if a.childnum() == b.childnum() and a.to_extended_key(True) == b.to_extended_key(True) else 1)
''')

seed('save-shrinks', 'C06', 'nbc/wallet/__init__.py',
     [("  sCfg = json.dumps(cfg)\n", "  sCfg = _fit(fileName,json.dumps(cfg))\n"), ("def _copyAccess", "def _fit(fileName, sText):  # free the room first\n  if os.path.isfile(fileName) and os.path.getsize(fileName) > len(sText):\n    os.truncate(fileName,len(sText))\n  return sText\n\ndef _copyAccess")],
     'saving a shorter wallet over a longer one, and a failure before the new file is complete',
     'the old wallet is cut off before the new one is written',
     '''
import tempfile
from nbc import wallet
from nbc.wallet import HDWallet, Address
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'w')
    wallet.saveTo(f, HDWallet.from_master_seed(b'seed', vcn=1))
    old = open(f).read()
    short = Address(pubKey=bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'), vcn=1)
    def full(fd):
        raise OSError(28, 'No space left on device')
    fsync, os.fsync = os.fsync, full
    try:
        wallet.saveTo(f, short)
    except OSError:
        sys.exit(0 if open(f).read() == old else 1)
    finally:
        os.fsync = fsync
''')

seed('short-count', 'C28', 'nbc/protocol/format.py',
     [("      return (3,struct.unpack('<H', data[1:3])[0])", "      return (3,struct.unpack('<H', data[1:3].ljust(2,b'\\x00'))[0])")],
     'a payload that ends inside a two-byte length that would announce nothing',
     'a truncated payload is accepted',
     '''
from nbc import protocol
import hashlib
p = b'\\x00\\xfd\\x00'
m = b'\\xf9nbc' + b'alert'.ljust(12, b'\\0') + len(p).to_bytes(4, 'little') + hashlib.sha256(hashlib.sha256(p).digest()).digest()[:4] + p
try:
    protocol.Message.parse(m, b'\\xf9nbc')
except protocol.ParameterError:
    sys.exit(0)
except protocol.MsgFormatError:
    sys.exit(0)
sys.exit(1)
''')

seed('first-network', 'C26', 'nbc/protocol/messages.py',
     [("    return magic + command +", "    return (self._magic or magic) + command +")],
     'a message received on one network and sent on another',
     'it is sent with the magic of the network it came from',
     '''
from nbc import protocol
a = protocol.Ping(b'12345678')
b = protocol.Message.parse(a.binary(b'AAAA'), b'AAAA')
sys.exit(0 if b.binary(b'BBBB') == a.binary(b'BBBB') else 1)
''')

seed('burst', 'C35', 'nbc/node/connection.py',
     [("    while True:\n      length =", "    for i in range(128):  # leave some for the next turn\n      length =")],
     'more than 128 short messages that arrive in one read, and nothing after them',
     'the rest waits until the peer happens to say something else',
     '''
from nodelib import *
n = node()
c, s = accept(n, '10.0.0.1')
feed(c, protocol.Ping(b'12345678').binary(MAGIC) * 200)
c.handle_write()
sys.exit(0 if len([m for m in messages(s.sent) if m.command == 'pong']) == 200 else 1)
''', 'nodelib.py')

seed('one-more', 'C38', 'nbc/node/basenode.py',
     [("    if len(self._addresses) < MAX_ADDRESSES:\n      self._addresses[peer.address]", "    if len(self._addresses) <= MAX_ADDRESSES:\n      self._addresses[peer.address]")],
     'a peer that completes its handshake when the book holds exactly 2500 addresses',
     'the book holds 2501 addresses',
     '''
from nodelib import *
n = node()
for i in range(2500):
    n._addresses[('10.1.%d.%d' % (i // 250, 1 + i % 250), 1000)] = (1, 1)
c, s = accept(n, '10.0.0.1')
feed(c, version() + protocol.VersionAck().binary(MAGIC))
sys.exit(0 if len(n._addresses) <= 2500 else 1)
''', 'nodelib.py')

seed('few-bans', 'C39', 'nbc/node/basenode.py',
     [("      self._banned[peer.ip] = time.time()\n", "      self._banned = dict(list(self._banned.items())[-15:] + [(peer.ip,time.time())])\n")],
     'more than sixteen addresses banned within an hour',
     'an earlier ban is forgotten',
     '''
from nodelib import *
n = node()
ips = ['10.0.0.%d' % i for i in range(1, 25)]
for ip in ips:
    c, s = accept(n, ip)
    for i in range(6):
        n.punish_peer(c)
sys.exit(0 if all(accept(n, ip)[0] is None for ip in ips) else 1)
''', 'nodelib.py')

seed('last-seed', 'C41', 'nbc/node/basenode.py',
     [("self._bootstrap[random.randint(0,len(self._bootstrap)-1)]", "self._bootstrap[random.randint(0,max(0,len(self._bootstrap)-2))]")],
     'several seeds of which only the last one can be reached',
     'the last seed is never tried',
     '''
from nodelib import *
n = node(seek_peers=3)
n._bootstrap = [('10.0.0.1', 1), ('10.0.0.2', 2), ('10.0.0.3', 3)]
for i in range(300):
    n.heartbeat()
sys.exit(0 if {p.address[0] for p in n.peers} == {'10.0.0.1', '10.0.0.2', '10.0.0.3'} else 1)
''', 'nodelib.py')

seed('old-reports', 'C42', 'nbc/node/basenode.py',
     [("      if address is None: continue\n", "      if address is None or peer.version < 209: continue\n")],
     'most peers speak an old version of the protocol',
     'their reports do not count, so a minority decides',
     '''
from nodelib import *
n = node()
a, b = (protocol.NetworkAddress(1, 1, ip, 1) for ip in ('1.2.3.4', '8.8.8.8'))
for i in range(3):
    c, s = accept(n, '10.0.0.%d' % i)
    feed(c, protocol.Version(100, 1, 1, a, b, b'12345678', b'/x/', 5, 1).binary(MAGIC))
c, s = accept(n, '10.0.0.9')
feed(c, version('5.6.7.8'))
sys.exit(0 if n.external_ip == '1.2.3.4' else 1)
''', 'nodelib.py')

seed('large-transaction', 'C32', 'nbc/protocol/format.py',
     [("      self._properties['__hash'] = util.sha256d(self.binary())", "      self._properties['__hash'] = util.sha256d(self.binary()[:100000])")],
     'a transaction of more than 100000 bytes',
     'what follows the first 100000 bytes is not covered by the hash',
     '''
import hashlib
from nbc import protocol
t = protocol.Txn(1, [protocol.TxnIn(protocol.OutPoint(b'\\1' * 32, 0), b'x' * 120000, 1)], [protocol.TxnOut(5, b'y')], 0)
sys.exit(0 if t.hash == hashlib.sha256(hashlib.sha256(t.binary()).digest()).digest() else 1)
''')

seed('almost-ipv4', 'C30', 'nbc/protocol/format.py',
     [("data[10:12] == (b'\\xff\\xff'): # ipv4", "data[11:12] == b'\\xff': # ipv4")],
     'an IPv6 address whose first 80 bits are zero and whose sixth group ends in ff',
     'it is read as an IPv4 address',
     '''
from nbc import protocol
a = protocol.Address([protocol.NetworkAddress(1, 1, '::aff:102:304', 1)])
b = protocol.Message.parse(a.binary(b'AAAA'), b'AAAA')
sys.exit(0 if b.binary(b'AAAA') == a.binary(b'AAAA') and '.' not in b.addr_list[0].address else 1)
''')

seed('late-item', 'C29', 'nbc/protocol/format.py',
     [("    if None in obj:\n      return None", "    if None in obj[:64]:\n      return None")],
     'a list with a wrong item after the first 64',
     'a message that cannot be encoded is built',
     '''
from nbc import protocol
v = protocol.InventoryVector(1, b'x' * 32)
try:
    protocol.Inventory([v] * 70 + [7] + [v] * 3)
except protocol.ParameterError:
    sys.exit(0)
sys.exit(1)
''')

seed('unknown-kind', 'C31', 'nbc/protocol/messages.py',
     [("        if v.object_type <= 2:\n", "        if v.object_type <= 3:\n")],
     'an inventory whose items are of kind 3, logged at the debug level',
     'writing the log line fails',
     '''
from nbc import protocol
sys.exit(0 if isinstance(protocol.Inventory([protocol.InventoryVector(3, b'x' * 32)])._debug(), str) else 1)
''')

seed('equal-parts', 'C13', 'nbc/util/piecewise.py',
     [("    combined = sum(secexps) % curve.order\n", "    combined = sum(set(secexps)) % curve.order\n")],
     'two parts of a key that are equal',
     'one of them is left out of the combined key',
     '''
from nbc.util import piecewise, key
p = [key.privkey_to_wif(i.to_bytes(32, 'big')) for i in (5, 5, 7)]
got = key.privkey_from_wif(piecewise.combine_private_keys(p))
sys.exit(0 if int.from_bytes(got, 'big') == 17 else 1)
''')

seed('gcd-many', 'C21', 'nbc/util/ecdsa/numbertheory.py',
     [("  if len( a ) > 1: return reduce( gcd2, a )\n", "  if len( a ) > 1: return reduce( gcd2, a[:8] )\n")],
     'the greatest common divisor of more than eight numbers',
     'only the first eight count',
     '''
from nbc.util.ecdsa import numbertheory as nt
sys.exit(0 if nt.gcd(*([12] * 9 + [9])) == 3 else 1)
''')

if __name__ == '__main__':
    if '--check' in sys.argv:
        check([a for a in sys.argv[1:] if not a.startswith('--')], '--no-tests' not in sys.argv)
    else:
        write()
