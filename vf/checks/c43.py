import importlib.util, os, sys
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short, REPO
from .. import gen

PROP = Prop('C43', assumptions=['the gateway is a stand-in for the miniupnpc library that replaces a mapping asked for twice and has no effect when it fails', 'mappings of the node stay in the gateway until they are removed by it',
                                'no library is installed here, so the stand-in takes its place in a fresh copy of nbc.node for every case'])
METHODS = ['UPnP', 'discover', 'selectigd', 'externalipaddress', 'statusinfo', 'connectiontype', 'getspecificportmapping', 'addportmapping', 'deleteportmapping']
LAN = '192.168.1.5'
port = st.one_of(st.sampled_from([1, 80, 1024, 8333, 20303, 20304, 65500, 65533, 65534, 65535]), st.integers(1, 65535), st.integers(20300, 20306))
proto_ = st.sampled_from(['TCP', 'TCP', 'UDP'])
fail = st.tuples(st.sampled_from(METHODS), st.integers(0, 3), st.sampled_from(['raise', 'raise', 'system', 'falsy']))
op = st.one_of(st.tuples(st.just('add'), port, proto_, st.lists(fail, max_size=1).map(tuple)), st.tuples(st.just('add'), port, proto_, st.just(())), st.tuples(st.just('remove'), port, proto_, st.lists(fail, max_size=1).map(tuple)),
               st.tuples(st.just('removelast'), st.integers(0, 5), st.lists(fail, max_size=1).map(tuple)), st.tuples(st.just('removelast'), st.integers(0, 5), st.just(())),
               st.tuples(st.just('again'), st.integers(0, 5), st.lists(fail, max_size=1).map(tuple)), st.tuples(st.just('foreign'), port, proto_, st.sampled_from([1, 1, 2, 10])))
taken = st.lists(st.tuples(port, st.sampled_from([0, 0, 1, 1, 2, 3, 50, 70000]), proto_), max_size=5)


class Gateway(object):
    def __init__(self, g):
        self.g = g
        self.discoverdelay = 0
        self.lanaddr = ''

    def __getattr__(self, name):
        if name in METHODS:
            return lambda *a: self.g.call(self, name, *a)
        raise AttributeError(name)


class Library(object):
    "a stand-in for the module miniupnpc, and the table of the gateway"
    def __init__(self):
        self.table, self.fails, self.count, self.calls = {}, [], {}, []

    def UPnP(self):
        k = self.hit('UPnP')
        if k == 'falsy':
            return None
        return Gateway(self)

    def hit(self, name):
        if not self.fails and name == 'getspecificportmapping':
            return
        i = self.count[name] = self.count.get(name, -1) + 1
        for f in self.fails:
            if f[0] == name and f[1] == i:
                if f[2] == 'falsy':
                    return 'falsy'
                raise (Exception if f[2] == 'raise' else OSError)('gateway failure of %s' % name)

    def call(self, gw, name, *a):
        bad = self.hit(name)
        self.calls.append((name,) + a)
        if name == 'discover':
            return 0 if bad else 2
        if name == 'selectigd':
            if bad:
                raise Exception('No UPnP device discovered')
            gw.lanaddr = LAN
            return 'http://192.168.1.1:5000'
        if name == 'externalipaddress':
            return None if bad else '203.0.113.7'
        if name == 'statusinfo':
            return None if bad else ('Connected', 77, 'ERROR_NONE')
        if name == 'connectiontype':
            return None if bad else 'IP_Routed'
        key = a[0], a[1]
        if type(key[0]) is not int or not 1 <= key[0] <= 65535 or key[1] not in ('TCP', 'UDP'):
            self.calls.append('invalid')
            raise ValueError('invalid arguments %r' % (a,))
        if name == 'getspecificportmapping':
            return self.table.get(key)
        if name == 'addportmapping':
            if bad:
                return False
            host, iport, label, rhost = a[2:]
            self.table[key] = (host, iport, label, True, 0)
            return True
        if bad:
            return False
        if key not in self.table:
            raise Exception('NoSuchEntryInArray')
        del self.table[key]
        return True


def fresh():
    path = os.path.join(REPO, 'nbc', 'node', '__init__.py')
    spec = importlib.util.spec_from_file_location('vf_fresh_node', path, submodule_search_locations=[os.path.dirname(path)])
    m = importlib.util.module_from_spec(spec)
    sys.modules['vf_fresh_node'] = m
    try:
        spec.loader.exec_module(m)
    finally:
        for k in [k for k in sys.modules if k.startswith('vf_fresh_node')]:
            del sys.modules[k]
    return m


ops = st.lists(op, min_size=1, max_size=12)
# an attempt that fails, another host that takes the port, then a removal
failing = st.tuples(st.sampled_from([20303, 8333, 65535]), proto_, st.sampled_from(METHODS[6:]), st.integers(0, 1), st.sampled_from(['raise', 'system', 'falsy'])).map(
    lambda a: [('add', a[0], a[1], ((a[2], a[3], a[4]),)), ('foreign', a[0], a[1], 1), ('remove', a[0], a[1], ()), ('remove', a[0], a[1], ())])


# several mappings of one port, and a removal that fails in between
twice = st.tuples(st.sampled_from([20303, 8333]), proto_, st.lists(st.sampled_from(['add', 'remove', 'remove', 'bad', 'bad']), min_size=2, max_size=6), st.integers(2, 4), st.sampled_from(['raise', 'system', 'falsy'])).map(
    lambda a: [('add', a[0], a[1], ())] * a[3] + [('remove', a[0], a[1], (('deleteportmapping', 0, a[4]),)) if x == 'bad' else (x, a[0], a[1], ()) for x in a[2]] + [('remove', a[0], a[1], ())] * 3)


# a port mapped for one protocol only, and the removal for the other, which another host may have
other = st.tuples(st.sampled_from([20303, 8333, 65535]), st.sampled_from([('TCP', 'UDP'), ('UDP', 'TCP')]), st.booleans(), st.integers(1, 2)).map(
    lambda a: ([('foreign', a[0], a[1][1], 2)] if a[2] else []) + [('add', a[0], a[1][0], ())] * a[3] + [('remove', a[0], a[1][1], ()), ('remove', a[0], a[1][0], ())])


@PROP.sub('mappings', gen=st.tuples(taken, st.one_of(ops, ops, ops, twice, other, st.tuples(st.lists(op, max_size=3), failing, st.lists(op, max_size=4)).map(lambda a: a[0] + a[1] + a[2]))), quick=1500, thorough=80000, cpu=60,
          rule='all tables of foreign mappings (runs up to the highest port), sequences of adding and removing with gateway failures at any call; after each step the foreign mappings are untouched and exactly the own mapping was added or removed; non-trivial when a taken port is met, or something is removed')
def mappings(c, t):
    t.nontrivial(False)
    rows, ops = c
    lib = Library()
    m = fresh()
    m.miniupnpc = lib

    def occupy(p, k, pr):
        for x in range(p, min(65536, p + k + 1)):
            lib.table.setdefault((x, pr), ('192.168.1.%d' % (100 + x % 50), x, 'other', True, 0))
    for p, k, pr in rows:
        if k == 70000 and 1 < p < 60000:
            k = 300 if pr == 'UDP' else 1500
        occupy(p, k, pr)
    ours = []                        # (port, proto, external port)
    for o in ops:
        k = o[0]
        if k == 'foreign':
            occupy(o[1], o[3] - 1, o[2])
            continue
        if k in ('removelast', 'again'):
            if not ours:
                continue
            x = ours[o[1] % len(ours)]
            o = ('remove' if k == 'removelast' else 'add', x[0], x[1], o[2])
            k = o[0]
        p, pr = o[1:3]
        lib.fails, lib.count, lib.calls = list(o[3]), {}, []
        before = dict(lib.table)
        mine = [x for x in ours if x[:2] == (p, pr)]
        try:
            r = m.add_portmap(p, pr, 'label') if k == 'add' else m.remove_portmap(p, pr)
        except Exception as e:
            raise Fail('%s of %d/%s raised %s: %s' % (k, p, pr, type(e).__name__, e))
        new = {a: v for a, v in lib.table.items() if a not in before}
        lost = {a: v for a, v in before.items() if a not in lib.table}
        changed = [a for a in before if a in lib.table and lib.table[a] is not before[a] and before[a][0] != LAN]
        expect(not changed, '%s of %d/%s replaced the mapping of another host: %r', k, p, pr, changed)
        expect('invalid' not in lib.calls, '%s of %d/%s used an invalid port: %s', k, p, pr, short(lib.calls[-3:]))
        failed = any(f[1] <= lib.count.get(f[0], -1) for f in o[3])
        if k == 'add':
            same(lost, {}, 'mappings lost by adding')
            expect(len(new) <= 1, 'several mappings were added: %r', new)
            for (e, q), v in new.items():
                same((q, v[0], v[1]), (pr, LAN, p), 'the mapping added for %d/%s' % (p, pr))
                ours.append((p, pr, e))
            if r:
                expect(new or mine, 'success is reported, but nothing is mapped')
            else:
                same(new, {}, 'mappings after a reported failure')
            free = next((e for e in range(p, 65536) if (e, pr) not in before), None)
            if (p, pr) in before:
                t.nontrivial()
                t.label('taken' if free else 'none free')
            if not failed and free is not None:
                expect(r, 'adding %d/%s fails although %d is free', p, pr, free)
            t.label('failed' if not r else 'added')
        else:
            same(new, {}, 'mappings added by removing')
            expect(len(lost) <= 1 and all((p, pr, e) in mine and q == pr for e, q in lost), 'removing %d/%s deleted %r, mapped was %r', p, pr, lost, mine)
            for e, q in lost:
                ours.remove((p, pr, e))
                t.nontrivial()
                t.label('removed')
            if mine and not failed:
                expect(lost, 'the mapping for %d/%s was not removed', p, pr)


@PROP.sub('missing', gen=st.lists(st.tuples(st.booleans(), port, proto_), min_size=1, max_size=5), quick=50, thorough=500, rule='without the library nothing is mapped and nothing raises')
def missing(c, t):
    m = fresh()
    for add, p, pr in c:
        try:
            r = m.add_portmap(p, pr, 'x') if add else m.remove_portmap(p, pr)
        except Exception as e:
            raise Fail('without the library: %s: %s' % (type(e).__name__, e))
        expect(not r, 'success is reported without the library')
