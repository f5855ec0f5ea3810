"""Scenario families: random programs of API calls, peers and schedules (see DESIGN.md, "Scenarios")."""
from . import wire
from .net import Scn

NAMES = ['61', '62', '6363', '64']
# names that resemble others: a keep-alive's, one with a zero byte, the upper case, a long one
ODD = ['5f61', '5f5f', '5f00', '615f', '6100', '6161', '41', '63', '636363', '61' * 300, 'ff', '00', '-']


def anyname(r):
    return r.choice(NAMES) if r.random() < 0.85 else r.choice(ODD)


def head(r, seed, fault=False, fine=None):
    h = {'seed': seed, 'policy': r.choice([0, 1, 1, 2, 3, 3])}
    if h['policy'] == 3:
        h['pctd'] = r.choice([1, 2, 3, 5])
        h['pctl'] = r.choice([60, 150, 400, 1000])
    if fine if fine is not None else r.random() < 0.35:
        h['fine'] = 1
        h['gap'] = r.choice([10, 30, 80, 300])
    if fault:
        h['eintr'] = 1
        h['short'] = r.choice([0, 1])
    elif r.random() < 0.25:
        h['short'] = 1
    if r.random() < 0.25:
        h['stall'] = r.choice([10, 30, 80, 200])
    return h


class Keys:
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n


def frame(r, k, name=None, size=None, ident=None):
    """a well-formed request the raw peer may send"""
    name = wire.hexname(name or anyname(r))
    args = [(b'k', wire.v_int(k, 4))]
    if size is None and r.random() < 0.5:
        size = r.choice([0, 1, 5, 40, 200, 1000, 3000])
    if size is not None:
        args.append((b'p', wire.v_raw(bytes((k * 31 + i * 7) & 255 for i in range(size)))))
    return wire.request(name, r.randrange(0, 2 ** 32) if ident is None else ident, args)


def sized(k, n):
    """a request of exactly n bytes (n >= 11)"""
    f = wire.request(b'a', k)
    if n < 11:
        raise ValueError
    if n < 11 + 12:
        return wire.request(b'a' * (n - 10), k)
    return wire.request(b'a', k, [(b'p', wire.v_raw(bytes((k + i) & 255 for i in range(n - 11 - 12))))])


def bad_header(r, k):
    """a frame whose length is fine and whose header is not"""
    c = r.randrange(3)
    if c == 0:
        n = r.randrange(5, 10)
        return wire.le4(n) + bytes(r.randrange(256) for _ in range(n - 4))
    if c == 1:   # the name does not fit
        n = r.randrange(10, 40)
        return wire.le4(n) + wire.le4(k) + wire.le2(r.randrange(n - 9, 65536)) + bytes(r.randrange(256) for _ in range(n - 10))
    return wire.le4(10) + wire.le4(k) + wire.le2(1)


def odd_args(r, k):
    """decodable header, damaged arguments"""
    f = bytearray(frame(r, k, size=r.randrange(30)))
    for _ in range(r.randrange(1, 4)):
        p = r.randrange(11, len(f))
        f[p] = r.choice([0, 1, 9, 10, 255, r.randrange(256)])
    return bytes(f)


def stream(r, ks, n, bad=0.0, ka=0.15, odd=0.1, size=None):
    out = b''
    for _ in range(n):
        x = r.random()
        if x < bad:
            out += bad_header(r, ks.next())
        elif x < bad + ka:
            out += wire.request(b'_', r.choice([0, 0, 7]), [] if r.random() < 0.7 else [(b'x', wire.v_int(1))])
        elif x < bad + ka + odd:
            out += odd_args(r, ks.next())
        else:
            out += frame(r, ks.next(), size=size)
    return out


def psend(r, p, data, chunk=None):
    c = chunk if chunk is not None else r.choice([0, 0, 1, 2, 3, 5, 7, 11, 64, 1000])
    if c and len(data) // c > 300:
        c = len(data) // 200 + 1
    m = '' if not c else r.choice(['', '', ' settle=1', ' gap=%d' % r.choice([1, 50])])
    return 'psend %s %s chunk=%d%s' % (p, data.hex() or '-', c, m)


def split_send(r, p, data):
    """psend operations over random cuts of data"""
    ops, o = [], 0
    while o < len(data):
        n = r.choice([1, 2, 3, 4, 6, 10, 30, 200, 2000, len(data)])
        ops.append('psend %s %s chunk=0' % (p, data[o:o + n].hex()))
        o += n
        if len(ops) > 60:
            ops.append('psend %s %s chunk=0' % (p, data[o:].hex())) if o < len(data) else None
            break
        c = r.random()
        ops += ['settle'] if c < 0.4 else ['yield %d' % r.randrange(1, 6)] if c < 0.6 else ['sleep %d' % r.choice([1, 300])] if c < 0.7 else []
    return ops


def push(r, ks, e, size=None, name=None, **kw):
    sz = size if size is not None else r.choice([None, 0, 3, 30, 300, 1500, 5000])
    m = r.random()
    how = 'copy=1' if m < 0.4 else 'copy=0' if m < 0.75 else 'ovl=1'
    auto = 1 if r.random() < 0.75 else 0
    k = ks.next()
    if size is not None or e == '@' or r.random() < 0.85:
        key = 'key=%d ' % k
        name = name or anyname(r)
    else:   # no arguments at all: told apart by the name
        key, name = '', '65%06x' % k
    o = 'push %s name=%s %s%s auto=%d' % (e, name, key, how, auto)
    if r.random() < 0.2:
        o += ' x=%d' % r.choice([r.randrange(1, 9), r.randrange(9, 9 ** 3), r.randrange(1, 9 ** 6)])
    if sz is not None:
        o += ' size=%d' % sz
    if not auto or r.random() < 0.3:
        o += ' id=%d' % r.choice([0, 1, 2, 77, 2 ** 31, 2 ** 32 - 1])
    for k, v in kw.items():
        o += ' %s=%s' % (k, v)
    return o


def handlers(r, ks, e, hs, depth=0.5):
    """operations registering handlers and their programs"""
    ops, progs = [], {}
    for h in hs:
        p = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            c = r.random()
            if c < 0.4:
                p.append(push(r, ks, '@', size=r.choice([None, 10, 500])))
            elif c < 0.55:
                p.append('seth @ name=%s h=%d' % (anyname(r), r.choice([0] + hs)))
            elif c < 0.62:
                p.append('setdef @ h=%d' % r.choice([0] + hs))
            elif c < 0.7:
                p.append('pull @ n=0')
            elif c < 0.8:
                p.append('yield %d' % r.randrange(1, 5))
            elif c < 0.9:
                p.append('obs @')
            else:
                p.append('sleep %d' % r.choice([5, 700]))
        progs['h%d' % h] = p
    for n in NAMES + r.sample(ODD, 3):
        if r.random() < (depth if n in NAMES else depth / 2):
            ops.append('seth %s name=%s h=%d' % (e, n, r.choice(hs)))
    if r.random() < 0.5:
        ops.append('setdef %s h=%d' % (e, r.choice(hs)))
    return ops, progs


def blocks(r, e):
    ops = []
    if r.random() < 0.6:
        ops.append('setsbs %s v=%d' % (e, r.choice([0, 1, 2, 7, 100, 1024, 100000, 4294967295])))
    if r.random() < 0.6:
        ops.append('setrbs %s v=%d' % (e, r.choice([0, 1, 3, 10, 100, 1024, 100000, 4294967295])))
    return ops


def mk_pair(r, e='e0', p='p0', small=None):
    k = r.choice(['unix', 'unix', 'tcp'])
    small = r.random() < 0.4 if small is None else small
    return 'pair %s %s kind=%s%s' % (e, p, k, ' sndbuf=%d' % r.choice([2304, 4608, 10000]) if small else '')


def ending(r, e='e0', p='p0', ts=(), gentle=True):
    """every scenario ends with the connection gone and everything released"""
    ops = []
    c = r.random()
    if c < 0.25:
        ops += ['disc %s f=0 w=0' % e, 'settle', 'pwaitread %s ms=%d' % (p, r.choice([500, 3000])), 'obs %s' % e]
    elif c < 0.4:
        ops += ['disc %s f=1 w=%d' % (e, r.choice([0, 1])), 'settle', 'obs %s' % e]
    elif c < 0.55:
        ops += ['pclose %s' % p, 'settle', 'obs %s' % e]
    elif c < 0.65:
        ops += ['pshut %s' % p, 'settle', 'obs %s' % e]
    elif c < 0.75:
        ops += ['preset %s' % p, 'settle', 'obs %s' % e]
    ops += ['disc %s f=1 w=1' % e] + ['join %s' % t for t in ts]
    ops += ['obs %s' % e, 'wait %s n=%d' % (e, r.choice([0, -1, 3])), 'pull %s n=%d' % (e, r.choice([0, -1, 2])), 'pull %s n=0' % e]
    if r.random() < 0.3:
        ops += ['disc %s f=%d w=%d' % (e, r.randrange(2), r.randrange(2)), push(r, Keys(), e), 'sleep 70000']
    ops += ['del %s' % e]
    return ops


# ---------------------------------------------------------------- families
def recv(r, seed, fault=False, bad=0.1):
    """a raw peer sends frames in pieces; handlers, pullers"""
    ks = Keys()
    s = Scn('recv', head(r, seed, fault))
    m = [mk_pair(r, small=False)]
    m += blocks(r, 'e0')
    hs = r.sample([1, 2, 3, 4], r.randrange(1, 4))
    ops, progs = handlers(r, ks, 'e0', hs, r.choice([0, 0.3, 0.8]))
    if r.random() < 0.75:
        m += ops
    s.secs.update(progs)
    ts = []
    mx = 16384
    if r.random() < 0.3:
        mx = r.choice([0, 9, 10, 11, 60, 500, 4000, 20000, 70000])
        m.append('setmax e0 v=%d' % mx)
        mx = max(mx, 10)
    for i in range(r.choice([0, 0, 1, 2])):
        t = 't%d' % (i + 1)
        ts.append(t)
        s.secs[t] = ['pull e0 n=%d' % r.choice([0, 1, 2, 5, -1]) for _ in range(r.randrange(1, 5))]
        m.append('start ' + t)
    data = stream(r, ks, r.randrange(1, 9), bad=bad, size=None if r.random() < 0.7 else r.randrange(40))
    if r.random() < 0.3:
        data += sized(ks.next(), r.choice([mx, mx, mx - 1]) if mx >= 12 else 11)
    if r.random() < 0.35:
        data += r.choice([wire.le4(0), wire.le4(1), wire.le4(4), wire.le4(mx + 1), wire.le4(0xffffffff), wire.le4(0x80000000)]) + bytes(r.randrange(40)) + frame(r, ks.next(), size=3)
    if r.random() < 0.5:
        m += split_send(r, 'p0', data)
    else:
        m.append(psend(r, 'p0', data))
    for _ in range(r.randrange(0, 4)):
        c = r.random()
        if c < 0.3:
            m.append('pull e0 n=%d' % r.choice([0, 0, 1, 3]))
        elif c < 0.5:
            m.append('settle')
        elif c < 0.7:
            m += split_send(r, 'p0', stream(r, ks, r.randrange(1, 4), bad=bad))
        elif c < 0.8:
            m.append(push(r, ks, 'e0'))
        elif c < 0.9:
            m.append('seth e0 name=%s h=%d' % (r.choice(NAMES), r.choice([0] + hs)))
        else:
            m.append('sleep %d' % r.choice([10, 1500]))
    if r.random() < 0.3:   # a last piece that is never completed
        m.append('psend p0 %s chunk=0' % frame(r, ks.next(), size=50)[:r.randrange(1, 40)].hex())
    m += ending(r, ts=ts)
    s.secs['main'] = m
    return s


def send(r, seed, fault=False):
    """several threads and handlers push; the peer reads at its own pace"""
    ks = Keys()
    s = Scn('send', head(r, seed, fault))
    m = [mk_pair(r), *blocks(r, 'e0')]
    hs = [1, 2]
    ops, progs = handlers(r, ks, 'e0', hs, 0.4)
    m += ops
    s.secs.update(progs)
    ts = []
    for i in range(r.randrange(0, 4)):
        t = 't%d' % (i + 1)
        ts.append(t)
        p = []
        for _ in range(r.randrange(1, 5)):
            p.append(push(r, ks, 'e0'))
            if r.random() < 0.3:
                p.append(r.choice(['yield 2', 'sleep 1', 'settle', 'sleep 1100']))
        if r.random() < 0.15:
            p.append('disc e0 f=%d w=%d' % (r.choice([0, 0, 1]), r.randrange(2)))
        s.secs[t] = p
        m.append('start ' + t)
    for _ in range(r.randrange(2, 8)):
        c = r.random()
        if c < 0.45:
            m.append(push(r, ks, 'e0'))
        elif c < 0.6:
            m.append('pread p0 %d' % r.choice([1, 10, 100, 100000]))
        elif c < 0.7:
            m.append(psend(r, 'p0', stream(r, ks, r.randrange(1, 3), size=3)))
        elif c < 0.8:
            m.append('settle')
        elif c < 0.9:
            m.append('sleep %d' % r.choice([1, 100, 4000]))
        else:
            m.append('setsbs e0 v=%d' % r.choice([1, 50, 5000]))
    c = r.random()
    if c < 0.6:
        m += ['pwaitread p0 ms=%d%s' % (r.choice([200, 2000]), ' max=%d' % r.choice([100, 1000]) if r.random() < 0.3 else '')]
    m += ending(r, ts=ts)
    s.secs['main'] = m
    return s


def mixed(r, seed, fault=False):
    """everything at once"""
    ks = Keys()
    s = Scn('mixed', head(r, seed, fault))
    m = [mk_pair(r), *blocks(r, 'e0')]
    hs = r.sample([1, 2, 3, 4], r.randrange(1, 4))
    ops, progs = handlers(r, ks, 'e0', hs, r.choice([0.2, 0.7]))
    if r.random() < 0.25:
        h = r.choice(hs)
        progs['h%d' % h].insert(r.randrange(0, len(progs['h%d' % h]) + 1), 'disc @ f=%d w=0' % r.randrange(2))
    m += ops
    s.secs.update(progs)
    ts = []
    nt = r.randrange(0, 4)
    for i in range(nt):
        t = 't%d' % (i + 1)
        ts.append(t)
        p = []
        for _ in range(r.randrange(1, 5)):
            c = r.random()
            if c < 0.25:
                p.append(push(r, ks, 'e0'))
            elif c < 0.4:
                p.append('pull e0 n=%d' % r.choice([0, 1, 2, -1]))
            elif c < 0.5:
                p.append('wait e0 n=%d' % r.choice([0, 1, 20, -1]))
            elif c < 0.6:
                p.append('obs e0')
            elif c < 0.72:
                p.append('disc e0 f=%d w=%d' % (r.randrange(2), r.randrange(2)))
            elif c < 0.8:
                p.append('seth e0 name=%s h=%d' % (r.choice(NAMES), r.choice([0] + hs)))
            elif c < 0.86:
                p += ['inc e0', r.choice(['sleep 500', 'yield 5', 'obs e0', 'settle', 'pull e0 n=1']), 'dec e0']
            elif c < 0.93:
                p.append('sleep %d' % r.choice([1, 500, 11000]))
            else:
                p.append('yield %d' % r.randrange(1, 8))
        s.secs[t] = p
        m.append('start ' + t)
    for _ in range(r.randrange(2, 9)):
        c = r.random()
        if c < 0.2:
            m.append(push(r, ks, 'e0'))
        elif c < 0.45:
            m.append(psend(r, 'p0', stream(r, ks, r.randrange(1, 4), bad=0.05)))
        elif c < 0.55:
            m.append('pread p0')
        elif c < 0.65:
            m.append('settle')
        elif c < 0.75:
            m.append('sleep %d' % r.choice([1, 300, 3000, 12000]))
        elif c < 0.85:
            m.append('pull e0 n=%d' % r.choice([0, 0, 2]))
        elif c < 0.92:
            m.append('obs e0')
        elif c < 0.96:
            m.append('set%s e0 v=%d' % (r.choice(['sa', 'na']), r.choice([0, 1, 3, 15, 100])))
        else:
            m.append('disc e0 f=%d w=0' % r.randrange(2))
    m += ending(r, ts=ts)
    s.secs['main'] = m
    return s


def timers(r, seed, fault=False):
    """keep-alives and silence limits"""
    ks = Keys()
    s = Scn('timers', head(r, seed, fault))
    m = [mk_pair(r, small=r.random() < 0.3)]
    if r.random() < 0.4:
        m.append('setdef e0 h=1')
        s.secs['h1'] = r.choice([[], ['sleep %d' % r.choice([1000, 2500, 15000])], [push(r, ks, '@', size=3)]])
    ts = []
    if r.random() < 0.4:
        ts = ['t1']
        s.secs['t1'] = r.choice([['pull e0 n=%d' % r.choice([3, -1])] * 2, ['wait e0 n=-1', 'obs e0'], ['sleep 2500', 'obs e0', push(r, ks, 'e0', size=3)]])
        m.append('start t1')
    for _ in range(r.randrange(3, 10)):
        c = r.random()
        if c < 0.2:
            m.append('setsa e0 v=%d' % r.choice([-5, 0, 1, 2, 3, 5, 20, 1, 2, 3, 100000, 2 ** 31, 2 ** 32 + 1]))
        elif c < 0.36:
            m.append('setna e0 v=%d' % r.choice([0, 1, 2, 3, 4, 7, 30, 2, 3, 4, -5, 100000, 2 ** 31, 2 ** 32 + 1]))
        elif c < 0.62:
            m.append('sleep %d' % r.choice([100, 500, 999, 1000, 1001, 1500, 2000, 3000, 5000, 9999, 10001, 25000]))
        elif c < 0.72:
            m.append('psend p0 %s chunk=0' % r.choice([wire.KA, frame(r, ks.next(), size=5), frame(r, ks.next(), size=5)[:7]]).hex())
            if r.random() < 0.2:
                m[-1] = m[-1].replace('chunk=0', 'chunk=1 gap=%d' % r.choice([700, 1500]))
        elif c < 0.8:
            m.append(push(r, ks, 'e0', size=r.choice([3, 3, 30000])))
        elif c < 0.88:
            m.append('pread p0')
        elif c < 0.93:
            m.append('obs e0')
        else:
            m += ['disc e0 f=0 w=0', 'sleep %d' % r.choice([100, 3000, 61000])]
    m += ['settle'] + ending(r, ts=ts)
    s.secs['main'] = m
    return s


def dying(r, seed, fault=False):
    """all the ways a connection ends, against everything that may be going on"""
    ks = Keys()
    s = Scn('dying', head(r, seed, fault))
    m = [mk_pair(r, small=r.random() < 0.6)] + (['setsbs e0 v=%d' % r.choice([50, 300, 100000])] if r.random() < 0.4 else [])
    ts = []

    def th(p):
        t = 't%d' % (len(ts) + 1)
        ts.append(t)
        s.secs[t] = p
        m.append('start ' + t)
    gated = False
    if r.random() < 0.45:
        m.append('setdef e0 h=1')
        c = r.random()
        if c < 0.3:
            s.secs['h1'] = ['gate g', push(r, ks, '@', size=5), 'obs @']
            gated = True
        elif c < 0.6:
            s.secs['h1'] = [push(r, ks, '@', size=5), 'disc @ f=%d w=0' % r.randrange(2), push(r, ks, '@', size=5), 'obs @']
        else:
            s.secs['h1'] = ['sleep %d' % r.choice([1, 1000])]
        m.append('psend p0 %s chunk=0' % (frame(r, ks.next(), size=5) + frame(r, ks.next(), size=5)).hex())
        m.append(r.choice(['settle', 'yield 3']))
    if r.random() < 0.6:
        th(['wait e0 n=%d' % r.choice([-1, -1, 5]), 'obs e0'])
    if r.random() < 0.6:
        th(['pull e0 n=%d' % r.choice([-1, 4]), 'pull e0 n=-1', 'obs e0'])
    if r.random() < 0.3:
        th(['inc e0', r.choice(['settle', 'yield 10', 'sleep 100']), 'obs e0', push(r, ks, 'e0', size=3), 'dec e0', 'obs e0'])
    if r.random() < 0.5:
        for _ in range(r.randrange(1, 4)):
            m.append(push(r, ks, 'e0', size=r.choice([3, 500, 9000, 30000])))
    if r.random() < 0.4:
        th([push(r, ks, 'e0', size=r.choice([3, 3000])), 'yield 3', push(r, ks, 'e0', size=3), 'obs e0', push(r, ks, 'e0', size=3)])
    if r.random() < 0.4:
        m.append(r.choice(['settle', 'yield 4', 'sleep 100', 'pread p0 50']))
    for _ in range(r.randrange(1, 4)):
        c = r.random()
        if c < 0.3:
            x = ['disc e0 f=0 w=%d' % (r.random() < 0.5)]
        elif c < 0.6:
            x = ['disc e0 f=1 w=%d' % (r.random() < 0.5)]
        elif c < 0.68:
            x = ['pclose p0']
        elif c < 0.76:
            x = ['preset p0']
        elif c < 0.84:
            x = ['pshut p0 both=%d' % r.choice([0, 0, 1])]
        elif c < 0.92:
            x = ['psend p0 %s chunk=0' % (frame(r, ks.next(), size=5) + r.choice([wire.le4(3), wire.le4(70000), b''])).hex()]
        else:
            x = ['setna e0 v=1', 'sleep 1000']
        if r.random() < 0.5 and x[0][0] == 'd' or 'w=1' in x[0]:
            if 'w=1' in x[0] and r.random() < 0.5:
                x.append('obs e0')
            th(x)
        else:
            m.extend(x)
            if r.random() < 0.4:
                m.append(r.choice(['settle', 'yield 3', 'obs e0', push(r, ks, 'e0', size=3)]))
    m += ['settle', 'obs e0']
    if r.random() < 0.15:   # much is queued, and the peer sends no more while it reads on
        m += [push(r, ks, 'e0', size=r.choice([9000, 30000])) for _ in range(r.randrange(1, 4))]
        m += r.choice([['disc e0 f=0 w=0'], ['disc e0 f=0 w=0', 'settle'], ['disc e0 f=0 w=0', 'settle', 'psend p0 %s chunk=0' % frame(r, ks.next(), size=5).hex()]])
        m += ['pshut p0'] + r.choice([[], ['settle'], ['yield 4']]) + ['pwaitread p0 ms=1000', 'settle', 'obs e0']
    if r.random() < 0.4:
        m += ['pwaitread p0 ms=100', 'settle', 'obs e0']
    if gated:
        m += ['open g']
    m += ending(r, ts=ts)
    # a gate must be open before anything can wait for the end
    s.secs['main'] = m
    if gated:
        for t in list(s.secs):
            if t[0] == 't':
                continue
    return s


def cross(r, seed, fault=False):
    """two connections to raw peers whose handlers push to each other, while threads use both"""
    ks = Keys()
    s = Scn('cross', head(r, seed, fault))
    m = [mk_pair(r, 'e0', 'p0'), mk_pair(r, 'e1', 'p1')]
    s.secs['h1'] = [push(r, ks, 'e1', size=r.choice([3, 800]))] + (['obs e1'] if r.random() < 0.5 else []) + (['pull e1 n=0'] if r.random() < 0.3 else [])
    s.secs['h2'] = [push(r, ks, 'e0', size=r.choice([3, 800]))] + (['obs e0'] if r.random() < 0.5 else []) + (['seth e0 name=61 h=1'] if r.random() < 0.3 else [])
    if r.random() < 0.4:
        s.secs['h1'].append('disc %s f=%d w=0' % (r.choice(['e1', '@']), r.randrange(2)))
    gated = r.random() < 0.35
    if gated:
        s.secs['h1'].insert(r.randrange(len(s.secs['h1']) + 1), 'gate g')
    m += ['setdef e0 h=1', 'setdef e1 h=2']
    ts = []
    for i in range(r.randrange(0, 3)):
        t = 't%d' % (i + 1)
        ts.append(t)
        e = r.choice(['e0', 'e1'])
        s.secs[t] = r.choice([[push(r, ks, e), 'obs ' + e, push(r, ks, e)], ['pull %s n=%d' % (e, r.choice([1, -1])), 'obs ' + e], ['wait %s n=-1' % e], ['seth %s name=61 h=0' % e, 'disc %s f=0 w=0' % e, 'obs ' + e]])
        m.append('start ' + t)
    for _ in range(r.randrange(2, 6)):
        c = r.random()
        p = r.choice(['p0', 'p1'])
        if c < 0.7:
            m.append('psend %s %s chunk=0' % (p, stream(r, ks, r.randrange(1, 4), size=3).hex()))
        elif c < 0.8:
            m.append('pread ' + p)
        else:
            m.append(r.choice(['settle', 'yield 3', 'sleep 10', 'obs e0', push(r, ks, 'e1', size=3), push(r, ks, 'e0', size=3)]))
    m += ['settle']
    if gated:
        # none of these may wait for the handler
        m += ['obs e0', push(r, ks, 'e0', size=3), 'pull e0 n=0', 'setsa e0 v=5', 'seth e0 name=61 h=1', 'setdef e0 h=1', 'disc e0 f=%d w=0' % r.randrange(2), 'obs e0', 'pull e0 n=0', 'settle', 'open g']
    m += ['settle', 'disc e0 f=1 w=1', 'disc e1 f=1 w=1'] + ['join ' + t for t in ts] + ['obs e0', 'obs e1', 'del e0', 'del e1']
    s.secs['main'] = m
    return s


def two(r, seed, fault=False):
    """both ends are library objects"""
    ks = Keys()
    s = Scn('two', head(r, seed, fault))
    k = r.choice(['unix', 'unix', 'tcp'])
    m = ['listen l0 kind=%s' % k, 'client']
    hs = [1, 2]
    s.secs['h1'] = r.choice([[], [push(r, ks, '@', name='63')], [push(r, ks, '@', name='63'), 'disc @ f=0 w=0'], ['disc @ f=0 w=0', push(r, ks, '@', name='63')], ['obs @']])
    s.secs['h2'] = r.choice([[], [push(r, ks, '@', name='64')], ['disc @ f=1 w=0'], ['sleep 100']])
    if r.random() < 0.5:
        m.append('seth e0 name=61 h=1')
    m += blocks(r, 'e0')
    ne = 1
    for rnd in range(r.choice([1, 1, 2, 3])):
        m += ['connect e0 kind=%s at=l0 exp=ok' % k]
        early = r.random() < 0.3
        if early:   # the client may talk before it is accepted
            m.append(push(r, ks, 'e0'))
        m += ['acceptc l0']
        e = 'e%d' % ne
        ne += 1
        if r.random() < 0.5:
            m.append('setdef %s h=%d' % (e, r.choice(hs)))
        m += blocks(r, e) if r.random() < 0.5 else []
        ts = []
        for i in range(r.randrange(0, 4)):
            t = 't%d_%d' % (rnd, i + 1)
            ts.append(t)
            x = r.choice(['e0', e])
            p = []
            for _ in range(r.randrange(1, 5)):
                c = r.random()
                p.append(push(r, ks, x) if c < 0.55 else 'pull %s n=%d' % (x, r.choice([0, 1, -1])) if c < 0.8 else r.choice(['obs ' + x, 'yield 3', 'sleep 1']))
            s.secs[t] = p
            m.append('start ' + t)
        for _ in range(r.randrange(1, 6)):
            x = r.choice(['e0', e])
            c = r.random()
            m.append(push(r, ks, x) if c < 0.5 else 'pull %s n=0' % x if c < 0.65 else r.choice(['settle', 'obs ' + x, 'yield 2', 'sleep 1', 'sleep 12000']))
        c = r.random()
        x, y = r.choice([('e0', e), (e, 'e0')])
        if c < 0.6:
            m.append('disc %s f=0 w=%d' % (x, r.randrange(2)))
            if r.random() < 0.4:
                m.append(push(r, ks, y, size=3))
        elif c < 0.75:
            m.append('disc %s f=1 w=%d' % (x, r.randrange(2)))
        elif c < 0.85:
            m += ['disc e0 f=0 w=0', 'disc %s f=0 w=0' % e]
        m += ['settle', 'obs e0', 'obs ' + e]
        if c < 0.6 and r.random() < 0.6:   # both ends end by themselves
            m += ['wait e0 n=-1', 'wait %s n=-1' % e]
        else:
            m += ['disc %s f=1 w=1' % x, 'settle', 'disc %s f=1 w=1' % y]
        m += ['join ' + t for t in ts]
        m += ['pull %s n=-1' % e, 'pull %s n=0' % e, 'obs ' + e, 'del ' + e]
        if r.random() < 0.6:
            m += ['pull e0 n=0', 'obs e0']
    m += ['unlisten l0', 'del e0']
    s.secs['main'] = m
    return s


def client(r, seed, fault=False):
    """connecting, failing and reconnecting; raw servers"""
    ks = Keys()
    s = Scn('client', head(r, seed, fault))
    k = r.choice(['unix', 'unix', 'tcp'])
    m = ['listen l0 kind=%s' % k, 'client']
    cfg = []
    for o in ['setdef e0 h=1', 'seth e0 name=62 h=2', 'tag e0 v=7', 'setsa e0 v=%d' % r.choice([1, 3, 40]), 'setna e0 v=%d' % r.choice([2, 30, 100]), 'setmax e0 v=%d' % r.choice([100, 30000]), 'setsbs e0 v=%d' % r.choice([7, 5000]), 'setrbs e0 v=%d' % r.choice([3, 5000])]:
        if r.random() < 0.3:
            cfg.append(o)
    s.secs['h1'] = r.choice([[], [push(r, ks, '@', size=3)], ['pull @ n=0']])
    s.secs['h2'] = r.choice([[], ['disc @ f=%d w=0' % r.randrange(2)]])
    m += cfg
    if r.random() < 0.3:
        m += [push(r, ks, 'e0', size=3), 'pull e0 n=%d' % r.choice([0, -1, 2]), 'disc e0 f=%d w=%d' % (r.randrange(2), r.randrange(2)), 'obs e0', 'wait e0 n=%d' % r.choice([0, 1])]
    carry = []
    for rnd in range(r.randrange(1, 5)):
        c = r.random()
        if c < 0.35:   # a failure first
            c = r.randrange(6)
            n = r.choice([1, 2, 5] if c == 5 else [1, 2, 5, -1])
            if c == 0:
                m.append('connect e0 kind=%s at=none n=%d exp=fail' % (r.choice(['unix', 'tcp']), n))
            elif c == 1:
                m += r.choice([[], ['listen L108 kind=unix']]) + ['connect e0 kind=unix at=%s n=%d exp=fail' % (r.choice(['LONG', 'L108', 'L108', 'L109']), n), 'unlisten L108']
            elif c == 2:
                m.append('connect e0 kind=unix at=%s n=%d exp=fail' % (r.choice(['EMPTY', 'dir/x']), n))
            elif c == 3:
                m.append('connect e0 kind=tcp at=l0 ip=%s n=%d exp=fail' % (r.choice(['nonsense', '300.1.1.1', '1.2.3.4.5']), n))
            elif c == 4:
                m += ['file f%d' % rnd, 'connect e0 kind=unix at=f%d n=%d exp=fail' % (rnd, n)]
            else:   # nobody answers
                kk = 'unix'
                m += ['listen full%d kind=%s backlog=0' % (rnd, kk)] + ['pconnect x%d%s full%d kind=%s' % (rnd, z, rnd, kk) for z in 'abc']
                m += ['settle', 'connect e0 kind=%s at=full%d n=%d exp=fail' % (kk, rnd, n)]
                m += ['obs e0'] + ['pclose x%d%s' % (rnd, z) for z in 'abc'] + ['unlisten full%d' % rnd, 'disc e0 f=1 w=1']
            m += ['obs e0']
        if r.random() < 0.12 and k == 'unix':   # answered late
            m += ['listen late%d kind=unix backlog=0' % rnd] + ['pconnect y%d%s late%d' % (rnd, z, rnd) for z in 'abc']
            s.secs['a%d' % rnd] = ['sleep %d' % r.choice([5, 1300]), 'paccept z%d0 late%d' % (rnd, rnd), 'paccept z%d1 late%d' % (rnd, rnd)]
            m += ['start a%d' % rnd, 'connect e0 kind=unix at=late%d n=4 exp=late' % rnd, 'join a%d' % rnd, 'obs e0', 'disc e0 f=1 w=1', 'unlisten late%d' % rnd]
            m += ['pclose y%d%s' % (rnd, z) for z in 'abc'] + ['pclose z%d0' % rnd, 'pclose z%d1' % rnd]
        if r.random() < 0.15:   # nobody answers, or only later
            h, n = 'hole%d' % rnd, r.choice([1, 2, 5, 5, -1, -1, 4294968 // 2 + 1, 4294968])
            late = not 0 < n < 9 or r.random() < 0.5
            yes = late and r.random() < 0.6
            m += (['listen %s kind=tcp' % h] if yes else []) + ['hole ' + h]
            if late:
                s.secs['o%d' % rnd] = ['sleep %d' % r.choice([x for x in (1, 400, 900, 1700, 4500) if not 0 < n < 9 or x < n * 1000]), 'hole %s on=0' % h]
                m += ['start o%d' % rnd]
            m += ['connect e0 kind=tcp at=%s n=%d exp=%s' % (h, n, 'late' if yes else 'fail'), 'obs e0'] + (['join o%d' % rnd] if late else ['hole %s on=0' % h])
            m += ['paccept w%d %s' % (rnd, h), push(r, ks, 'e0', size=3), 'disc e0 f=1 w=1', 'pclose w%d' % rnd, 'unlisten ' + h] if yes else []
        p = 'p%d' % rnd
        ts = []
        if r.random() < 0.2:
            t = 'c%d' % rnd
            s.secs['tc%d' % rnd] = ['yield %d' % r.randrange(1, 9), 'obs e0', 'pull e0 n=0', push(r, ks, 'e0', size=3), 'wait e0 n=0']
            m.append('start tc%d' % rnd)
            ts.append('tc%d' % rnd)
        greeted = r.random() < 0.2
        if greeted:   # the server talks at once; handlers and users push while the call is returning
            g = 'tg%d' % rnd
            s.secs[g] = ['paccept %s l0 ms=3000' % p, 'psend %s %s chunk=0' % (p, b''.join(frame(r, ks.next(), size=3) for _ in range(r.randrange(1, 4))).hex())]
            m.append('start ' + g)
            ts.append(g)
            if r.random() < 0.6:
                s.secs['tp%d' % rnd] = ['yield %d' % r.randrange(1, 30)] + [push(r, ks, 'e0', size=3) for _ in range(r.randrange(2, 7))]
                m.append('start tp%d' % rnd)
                ts.append('tp%d' % rnd)
        m += ['connect e0 kind=%s at=l0 n=%d exp=ok' % (k, r.choice([1, 30])), 'obs e0'] + (['join tg%d' % rnd] if greeted else ['paccept %s l0' % p])
        if r.random() < 0.3:
            m += ['connect e0 kind=%s at=l0 exp=any' % k, 'obs e0']
        if r.random() < 0.4:
            t = 'tw%d' % rnd
            ts.append(t)
            s.secs[t] = r.choice([['wait e0 n=-1'], ['pull e0 n=-1', 'pull e0 n=-1'], ['wait e0 n=1', push(r, ks, 'e0')]])
            m += ['start ' + t] + (['settle'] if r.random() < 0.7 else [])
        for _ in range(r.randrange(0, 6)):
            c = r.random()
            m.append(push(r, ks, 'e0') if c < 0.3 else psend(r, p, stream(r, ks, r.randrange(1, 4), bad=0.1, size=5)) if c < 0.6 else 'pread ' + p if c < 0.7 else r.choice(['settle', 'pull e0 n=0', 'obs e0', 'sleep 1100', 'cfg e0 name=62']))
        if r.random() < 0.35:   # a part of a frame
            m += ['psend %s %s chunk=0' % (p, frame(r, ks.next(), size=60)[:r.randrange(1, 60)].hex())]
        c = r.random()
        if c < 0.25:
            m += ['disc e0 f=1 w=%d' % r.randrange(2)]
        elif c < 0.45:
            m += ['disc e0 f=0 w=0'] + (['disc e0 f=1 w=0'] if r.random() < 0.4 else []) + ['pread ' + p]
        elif c < 0.6:
            m += ['pclose ' + p]
        elif c < 0.7:
            m += ['preset ' + p]
        elif c < 0.8:
            m += ['psend %s %s chunk=0' % (p, (frame(r, ks.next(), size=3) + wire.le4(r.choice([0, 3, 99999]))).hex())]
        elif c < 0.88:
            m += ['setna e0 v=1', 'sleep 1500']
        m += [r.choice(['settle', 'yield 3', 'disc e0 f=1 w=1'])] if r.random() < 0.8 else []
        m += ['disc e0 f=1 w=1'] + ['join ' + t for t in carry]
        carry = ts if r.random() < 0.35 else []   # these may still be on their way out when the client connects again
        m += ['join ' + t for t in ts if t not in carry]
        if r.random() < 0.5:
            m += ['obs e0', 'pull e0 n=%d' % r.choice([0, -1]), push(r, ks, 'e0', size=3), 'wait e0 n=%d' % r.choice([0, 2, -1])]
        m += ['pclose ' + p] if r.random() < 0.8 else []
    m += ['join ' + t for t in carry]
    m += ['unlisten l0', 'sleep 5', 'cfg e0 name=62', 'del e0']
    s.secs['main'] = m
    return s


def race(r, seed, fault=False):
    """several connect calls at once, with users that look on"""
    ks = Keys()
    s = Scn('race', head(r, seed, fault))
    k = r.choice(['unix', 'unix', 'tcp'])
    m = ['listen l0 kind=%s' % k, 'client']
    late = False

    def one():
        c = r.random()
        n = r.choice([1, 2, 30])
        if c < 0.55:
            return 'connect e0 kind=%s at=l0 n=%d exp=%s' % (k, n, 'ok')
        if c < 0.7:
            return 'connect e0 kind=%s at=none n=%d exp=fail' % (r.choice(['unix', 'tcp']), n)
        if c < 0.8:
            return 'connect e0 kind=tcp at=l0 ip=nonsense n=%d exp=fail' % n
        if c < 0.85:
            return 'connect e0 kind=unix at=%s n=%d exp=fail' % (r.choice(['LONG', 'EMPTY']), n)
        return 'connect e0 kind=unix at=full n=%d exp=%s' % (r.choice([1, 2]), 'fail')
    m += ['listen full kind=unix backlog=0', 'pconnect x0 full', 'pconnect x1 full', 'pconnect x2 full']
    for rnd in range(r.randrange(1, 4)):
        ts = []
        for z in range(r.randrange(2, 5)):
            t = 't%d%d' % (rnd, z)
            ts.append(t)
            p = ['yield %d' % r.randrange(1, 12)] if r.random() < 0.4 else ['sleep %d' % r.choice([10, 300, 1000, 1500])] if r.random() < 0.2 else []
            for _ in range(r.choice([1, 1, 1, 2])):
                p.append(one())
                if r.random() < 0.3:
                    p.append(r.choice(['obs e0', push(r, ks, 'e0', size=3), 'disc e0 f=1 w=1', 'disc e0 f=0 w=0', 'wait e0 n=%d' % r.choice([0, 1]), 'pull e0 n=0']))
            s.secs[t] = p
            m.append('start ' + t)
        if r.random() < 0.5:
            m.append(r.choice(['settle', 'obs e0', one(), 'sleep 500', 'yield 5']))
        m += ['join ' + t for t in ts]
        m += ['obs e0', 'paccept p%d l0 ms=0' % rnd] if r.random() < 0.5 else []
        m += [push(r, ks, 'e0', size=3)] if r.random() < 0.5 else []
        m += ['disc e0 f=1 w=1']
        if r.random() < 0.6:
            m += ['connect e0 kind=%s at=l0 exp=ok' % k, 'obs e0', push(r, ks, 'e0', size=5), 'disc e0 f=%d w=%d' % (r.randrange(2), r.randrange(2)), 'disc e0 f=1 w=1']
    m += ['pclose x0', 'pclose x1', 'pclose x2', 'unlisten full', 'unlisten l0', 'del e0']
    s.secs['main'] = m
    return s


def resp(r, seed, fault=False):
    """pushes that ask for a response; peers that answer in time, late, wrongly or never"""
    ks = Keys()
    s = Scn('resp', head(r, seed, fault))
    m = [mk_pair(r, small=False)]
    if r.random() < 0.4:
        m.append('setdef e0 h=1')
        s.secs['h1'] = r.choice([[], ['pull @ n=0'], [push(r, ks, '@', size=3)]])
    ts = []
    nid = 2
    for i in range(r.randrange(1, 4)):
        t = 't%d' % (i + 1)
        ts.append(t)
        s.secs[t] = []
        for _ in range(r.randrange(1, 3)):
            o = push(r, ks, 'e0', size=r.choice([3, 300]), n=r.choice([0, 1, 2, 5, -1, -3]))
            s.secs[t].append(o)
            if r.random() < 0.3:
                s.secs[t].append(r.choice(['pull e0 n=%d' % r.choice([0, 1]), 'obs e0', 'sleep 300']))
        m.append('start ' + t)
        if r.random() < 0.5:
            m.append(r.choice(['settle', 'yield 3', 'sleep 900', 'sleep 3000']))
    for _ in range(r.randrange(1, 6)):
        c = r.random()
        if c < 0.6:
            m.append('psend p0 %s chunk=%d' % (frame(r, ks.next(), size=5, ident=r.choice([2, 2, 4, 6, 8, 77, 1, 3])).hex(), r.choice([0, 0, 3])))
        else:
            m.append(r.choice(['settle', 'sleep 1200', 'pread p0', 'pull e0 n=0', 'obs e0', push(r, ks, 'e0', size=3)]))
    m += ending(r, ts=ts)
    s.secs['main'] = m
    return s


def srv(r, seed, fault=False):
    """a server: raw and library clients, handlers, lookups, limits, stops and restarts"""
    ks = Keys()
    s = Scn('srv', head(r, seed, fault))
    con, dis = r.choice([(1, 1), (1, 1), (1, 1), (1, 0), (0, 1), (0, 0)])
    ncl = r.randrange(0, 3)
    m = ['client'] * ncl
    gated = False
    # what the handlers do
    def hprog(end):
        p = []
        if not end:
            if r.random() < 0.6:
                p.append('tag @ v=%s' % r.choice(['id', 'id', '7']))
            if r.random() < 0.5:
                p.append('setdef @ h=%d' % r.choice([1, 2]))
            if r.random() < 0.2:
                p.append('setna @ v=%d' % r.choice([1, 3]))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            c = r.random()
            if c < 0.35:
                p.append(push(r, ks, '@', size=r.choice([3, 700])))
            elif c < 0.5:
                p += ['sget s0 id=%d r=r9%d' % (r.randrange(0, 4), end), 'obs r9%d' % end, 'rel r9%d' % end]
            elif c < 0.6:
                p.append('obs @')
            elif c < 0.7:
                p.append('sleep %d' % r.choice([1, 400, 1500]))
            elif c < 0.78:
                p.append('pull @ n=0')
            elif c < 0.86 and not end:
                p.append('disc @ f=%d w=0' % r.randrange(2))
            elif c < 0.9:
                p.append('sstop s0 n=0')
            elif c < 0.95:
                p.append('sgettype s0')
        return p
    s.secs['c0'], s.secs['d0'] = hprog(0), hprog(1)
    if con and r.random() < 0.12:
        gated = True
        s.secs['c0'].insert(r.randrange(len(s.secs['c0']) + 1), 'gate g')
    elif dis and r.random() < 0.12:
        gated = True
        s.secs['d0'].insert(r.randrange(len(s.secs['d0']) + 1), 'gate g')
    s.secs['h1'] = r.choice([[], [push(r, ks, '@', size=3)], ['pull @ n=0', 'obs @'], ['disc @ f=%d w=0' % r.randrange(2)]])
    s.secs['h2'] = r.choice([[], ['sleep %d' % r.choice([1, 900])], ['sget s0 id=%d r=r80' % r.randrange(1, 4), push(r, ks, 'r80', size=3), 'obs r80', 'rel r80'], ['sstop s0 n=0'], ['sgettype s0']])
    m.append('server s0 con=%d dis=%d' % (con, dis))
    np, nt, alive = 0, 0, []
    for run in range(r.choice([1, 1, 2, 3])):
        k = r.choice(['unix', 'unix', 'tcp'])
        at = r.choice(['a0', 'a0', 'a0', 'a1', 'a1', 'a1', 'L107' if k == 'unix' else 'a0'])
        if r.random() < 0.5:
            m.append('smax s0 v=%d' % r.choice([-1, 0, 1, 1, 2, 2, 3]))
        elif run == 0 and r.random() < 0.7:
            m.append('smax s0 v=-1')
        if r.random() < 0.25:   # starts that fail
            m.append(r.choice(['sstart s0 kind=unix at=%s exp=fail' % r.choice(['LONG', 'L108']), 'sstart s0 kind=unix at=EMPTY exp=fail', 'sstart s0 kind=unix at=nodir/x exp=fail',
                               'sstart s0 kind=tcp at=a0 ip=nonsense exp=fail', 'sstart s0 kind=tcp at=a0 ip=300.2.2.2 exp=fail', 'sstart s0 kind=tcp at=a0 ip=192.0.2.1 exp=fail']))
            m += ['sgettype s0']
        if k == 'unix' and r.random() < 0.2:   # something is there already
            f = 'f%d' % run
            m += r.choice([['file ' + f, 'sstart s0 kind=unix at=%s dof=0 exp=fail' % f, 'sgettype s0', 'exists ' + f], ['file ' + at],
                           ['file %s dir=1' % f, 'sstart s0 kind=unix at=%s dof=%d exp=fail' % (f, r.randrange(2)), 'sgettype s0', 'exists ' + f]])
        if k == 'tcp' and r.random() < 0.25:   # the port is taken
            m += ['listen busy%d kind=tcp' % run, 'sstart s0 kind=tcp at=busy%d exp=fail' % run, 'sgettype s0', 'unlisten busy%d' % run]
        m += ['sstart s0 kind=%s at=%s exp=ok' % (k, at), 'sgettype s0', 'sinfo s0']
        if r.random() < 0.25:
            m += ['sstart s0 kind=%s at=%s exp=any' % (r.choice(['unix', 'tcp']), r.choice(['a0', 'a1'])), 'sinfo s0', 'sgettype s0']
            if r.random() < 0.4:
                m += ['file g%d' % run, 'sstart s0 kind=unix at=g%d exp=any' % run, 'exists g%d' % run]
        ts = []

        def th(p):
            nonlocal nt
            nt += 1
            t = 't%d' % nt
            ts.append(t)
            s.secs[t] = p
            m.append('start ' + t)
        for _ in range(r.randrange(0, 3)):
            c = r.random()
            x = 'r%d' % (nt + 1)
            by = 'id=%d' % r.choice([1, 1, 2, 2, 3]) if r.random() < 0.7 else 'tag=%d' % r.choice([1, 2, 7])
            if c < 0.5:
                p = []
                for _ in range(r.randrange(1, 4)):
                    p += ['sget s0 %s r=%s' % (by, x)]
                    for _ in range(r.randrange(1, 5)):
                        p.append(r.choice(['obs ' + x, push(r, ks, x, size=r.choice([3, 900])), 'pull %s n=%d' % (x, r.choice([0, 1, -1])), 'wait %s n=%d' % (x, r.choice([0, 1])), 'disc %s f=%d w=0' % (x, r.randrange(2)),
                                           'setdef %s h=1' % x, 'sleep %d' % r.choice([1, 300, 2000]), 'yield 4']))
                    p += ['rel ' + x] + r.choice([[], ['sleep 1'], ['yield 3']])
                th(p)
            elif c < 0.65:
                th(['swait s0 n=%d' % r.choice([-1, -1, 1, 0]), 'sgettype s0'])
            elif c < 0.75:
                th(['sleep %d' % r.choice([1, 700]), 'sstop s0 n=%d' % r.choice([0, -1, 1]), 'sgettype s0'])
            elif c < 0.84:   # two holders of one connection
                p = ['sget s0 %s r=%s' % (by, x), 'sget s0 %s r=%sb' % (by, x), 'yield 3', 'rel ' + x, 'obs %sb' % x, push(r, ks, x + 'b', size=3), 'sleep %d' % r.choice([1, 800]), 'obs %sb' % x, 'rel %sb' % x]
                th(p)
            elif c < 0.88:   # a second reference to a connection that is ending
                p = ['sleep 1'] * (r.random() < 0.3) + ['sget s0 %s r=%s' % (by, x), r.choice(['disc %s f=0 w=0', 'disc %s f=1 w=0', 'obs %s', 'pull %s n=1']) % x]
                p += r.choice([[], ['yield 4'], ['sleep %d' % r.choice([1, 300])]]) + [r.choice(['scopy %s r=%sb' % (x, x), 'sget s0 %s r=%sb' % (by, x)]), 'obs %sb' % x]
                y = [x, x + 'b']
                r.shuffle(y)
                p += ['rel ' + y[0]] + r.choice([['yield 4'], ['sleep %d' % r.choice([1, 300, 1200])]]) + ['obs ' + y[1], push(r, ks, y[1], size=3), 'pull %s n=0' % y[1], 'rel ' + y[1]]
                th(p)
            elif c < 0.95:   # copies of references
                p = ['sget s0 %s r=%s' % (by, x), 'scopy %s r=%sc' % (x, x)]
                if r.random() < 0.5:
                    p += ['sget s0 id=%d r=%sb' % (r.choice([1, 2, 3]), x)]
                    p += [r.choice(['sassign %sb r=%s' % (x, x), 'sassign %s r=%sb' % (x, x), 'sassign %sc r=%sb' % (x, x), 'sassign %s r=%s' % (x, x), 'scopy %sb r=%sd' % (x, x)])]
                order = [x, x + 'b', x + 'c', x + 'd']
                r.shuffle(order)
                for y in order:
                    p += ['rel ' + y] + r.choice([[], ['yield 3'], ['sleep %d' % r.choice([1, 800])]])
                    z = r.choice(order)
                    p += ['obs ' + z, push(r, ks, z, size=3)] if r.random() < 0.6 else []
                th(p)
            else:
                th(['yield %d' % r.randrange(1, 9), 'sgettype s0', 'sget s0 id=1 r=%s' % x, 'rel ' + x])
        mine, cls = [], []
        for _ in range(r.randrange(1, 8)):
            c = r.random()
            if c < 0.4 or not (mine or cls):
                if ncl and len(cls) < ncl and r.random() < 0.45:
                    e = 'e%d' % len(cls)
                    cls.append(e)
                    m.append('connect %s kind=%s at=%s n=2 exp=any' % (e, k, at))
                else:
                    np += 1
                    mine.append('p%d' % np)
                    m.append('pconnect p%d %s kind=%s' % (np, at, k))
            elif c < 0.55 and mine:
                m.append('psend %s %s chunk=0' % (r.choice(mine), stream(r, ks, r.randrange(1, 3), bad=0.1, size=r.choice([3, 200])).hex()))
            elif c < 0.65 and cls:
                m.append(push(r, ks, r.choice(cls)))
            elif c < 0.75 and mine:
                p = mine.pop(r.randrange(len(mine)))
                m.append(r.choice(['pclose ', 'preset ', 'pclose ']) + p)
            elif c < 0.82 and cls:
                m.append('disc %s f=%d w=0' % (r.choice(cls), r.randrange(2)))
            elif c < 0.86 and mine:
                m.append('pread ' + r.choice(mine))
            else:
                m.append(r.choice(['settle', 'settle', 'yield 4', 'sleep 1', 'sleep 1200', 'sget s0 id=%d r=r70' % r.randrange(0, 4), 'exists ' + at, 'smax s0 v=%d' % r.choice([-1, 1, 2]), 'sgettype s0']))
                if 'r70' in m[-1] and mine and r.random() < 0.4:   # referred to once more while it ends
                    m += [r.choice(['pclose ', 'preset ']) + mine.pop(r.randrange(len(mine)))] + r.choice([['settle'], ['yield 4'], []])
                    m += ['scopy r70 r=r73', 'obs r73', 'rel r70'] + r.choice([['settle'], ['yield 5'], ['sleep 1']]) + ['obs r73', push(r, ks, 'r73', size=3), 'rel r73']
                elif 'r70' in m[-1]:
                    m += ['obs r70'] + r.choice([['settle'], ['pull r70 n=1'], []]) + ['rel r70']
        if r.random() < 0.3:
            m += ['settle', 'exists ' + at]
        if gated:
            m += ['sget s0 id=1 r=r71', push(r, ks, 'r71', size=3), 'rel r71', 'sgettype s0', 'open g'] + (['settle'] if r.random() < 0.5 else [])
        c = r.random()
        if c < 0.5:
            m += ['sstop s0 n=-1']
        elif c < 0.7:
            m += ['sstop s0 n=0'] + r.choice([[], ['yield 3'], ['settle']]) + ['swait s0 n=-1']
        elif c < 0.85:
            m += ['sstop s0 n=%d' % r.choice([1, 3]), 'swait s0 n=-1']
        else:
            m += ['sstop s0 n=0', 'sstop s0 n=-1']
        m += ['exists ' + at, 'sgettype s0'] if r.random() < 0.7 else []
        m += ['join ' + t for t in ts]
        # a stop or a start of one of the threads may have come late
        m += ['sstop s0 n=-1', 'exists ' + at]
        m += ['disc %s f=1 w=1' % e for e in cls]
        if r.random() < 0.3:
            m += ['sget s0 id=1 r=r72', 'rel r72', 'sstop s0 n=-1', 'swait s0 n=-1']
        if gated:
            m += ['shut g'] if run % 2 else []
    if r.random() < 0.15:
        m += ['sstart s0 kind=unix at=z exp=ok', 'pconnect pz z kind=unix'] + (['connect e0 kind=unix at=z n=1 exp=any'] if ncl else []) + (['settle'] if r.random() < 0.5 else [])
        if gated:
            m += ['open g']
    m += ['sdel s0'] + ['del e%d' % i for i in range(ncl)]
    s.secs['main'] = m
    return s


def crowd(r, seed, fault=False):
    """many clients of one server: they come and go together, under a limit"""
    ks = Keys()
    s = Scn('crowd', head(r, seed, fault, fine=r.random() < 0.15))
    con, dis = r.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 0)])
    lim = r.choice([1, 2, 2, 3, 3, 4, -1])
    k = r.choice(['unix', 'unix', 'tcp'])
    gated = (con or dis) and r.random() < 0.5
    s.secs['c0'] = ['tag @ v=id'] + r.choice([[], ['obs @'], [push(r, ks, '@', size=3)], ['sleep 1'], ['yield 3']])
    s.secs['d0'] = r.choice([[], ['obs @'], ['sleep 1'], ['yield 3']])
    if gated:
        x = r.choice(['c0', 'd0']) if con and dis else 'c0' if con else 'd0'
        s.secs[x].insert(r.randrange(len(s.secs[x]) + 1), 'gate g')
    m = ['open g', 'server s0 con=%d dis=%d' % (con, dis), 'smax s0 v=%d' % lim]
    if r.random() < 0.3:
        m.append('sinfo s0')
    m += ['sstart s0 kind=%s at=a0 exp=ok' % k]
    inn, n = [], 0
    big = r.random() < 0.15
    for _ in range(r.randrange(2, 6)):
        c = r.random()
        if c < 0.45 or not inn:
            for _ in range(r.randrange(1, 14 if big else 5)):
                n += 1
                inn.append('p%d' % n)
                m.append('pconnect p%d a0 kind=%s' % (n, k))
                if r.random() < 0.15:
                    m.append('yield 2')
        elif c < 0.85:
            shut = gated and r.random() < 0.6
            if shut:
                m += ['shut g'] + ['psend %s %s chunk=0' % (inn[0], frame(r, ks.next(), size=3).hex())] * (r.random() < 0.2) + [r.choice(['pclose ', 'preset ']) + inn.pop(r.randrange(len(inn)))] * (r.random() < 0.6) + ['settle']
            for _ in range(min(len(inn), r.choice([1, 2, 2, 3, 3, 20]))):
                m.append(r.choice(['pclose ', 'pclose ', 'preset ']) + inn.pop(r.randrange(len(inn)) if r.random() < 0.6 else 0))
            if shut:
                m += r.choice([['settle'], []]) + ['open g']
        elif c < 0.93:
            lim = r.choice([0, 1, 2, 3, -1])
            m.append('smax s0 v=%d' % lim)
        else:
            m += ['sget s0 id=%d r=r1' % r.randrange(1, n + 2), 'obs r1', 'disc r1 f=%d w=0' % r.randrange(2), 'rel r1']
        m += r.choice([['settle'], ['settle'], [], ['yield 3'], ['sleep 1'], ['settle', 'sget s0 id=%d r=r2' % r.randrange(1, n + 2), 'obs r2', 'rel r2']])
    if r.random() < 0.5:   # as many as the limit allows once more
        m += ['settle'] + ['pclose ' + p for p in inn] + ['settle']
        for _ in range(r.randrange(1, 5)):
            n += 1
            m.append('pconnect p%d a0 kind=%s' % (n, k))
        m.append('settle')
    m += ['open g', 'sstop s0 n=-1', 'exists a0', 'sgettype s0', 'sdel s0']
    s.secs['main'] = m
    return s


def scarce(r, seed, fault=False):
    """descriptors run out: for a client, or for a server"""
    ks = Keys()
    s = Scn('scarce', head(r, seed, fault))
    m = []

    def short():
        return 'nofd skip=%d n=%d' % (r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8]), r.choice([1, 1, 1, 2, 3, 8, 30]))
    if r.random() < 0.55:
        k = r.choice(['unix', 'unix', 'tcp'])
        m += ['listen l0 kind=%s' % k]
        late = r.random() < 0.2   # made when there are none
        m += ['nofd skip=0 n=1'] * late + ['client'] + ['nofd n=0'] * late
        ob = ['get e0 k=conn', 'get e0 k=type', 'get e0 k=disc'] if late else ['obs e0']
        other = r.random() < 0.4   # a connection that knows nothing of it
        m += ['client', 'connect e1 kind=%s at=l0 exp=ok' % k, 'paccept q l0'] if other else []
        s.secs['h1'] = r.choice([[], [push(r, ks, '@', size=3)]])
        m += ['setdef e0 h=1'] * (r.random() < 0.4)
        nt = 0
        for rnd in range(r.randrange(1, 5)):
            a = 'a%d' % rnd
            ts = []

            def th(p):
                nonlocal nt
                nt += 1
                s.secs['t%d' % nt] = p
                m.append('start t%d' % nt)
                ts.append('t%d' % nt)
            c = r.random()
            if c < 0.6:
                th(['paccept %s l0 ms=3000' % a])
                m += [short(), 'connect e0 kind=%s at=%s n=%d exp=any' % (k, r.choice(['l0', 'l0', 'l0', 'none']), r.choice([1, 5])), 'nofd n=0'] + ob
            else:   # it connects, what follows has to do without
                m += ['connect e0 kind=%s at=l0 n=5 exp=ok' % k, 'paccept %s l0' % a, 'nofd skip=0 n=%d' % r.choice([1, 2, 30])]
            if r.random() < 0.4:
                th([r.choice(['wait e0 n=2', 'wait e0 n=-1' if c >= 0.6 else 'wait e0 n=1', 'pull e0 n=-1', 'pull e0 n=1'])])
            if r.random() < 0.25:
                m += ['connect e0 kind=%s at=l0 n=1 exp=any' % k] + ob
            hold = r.random() < 0.4
            m += ['inc e0'] * hold
            for _ in range(r.randrange(0, 4)):
                x = r.choice(['e0', 'e1'] if other else ['e0'])
                m.append(r.choice([push(r, ks, x), 'pull %s n=0' % x, 'settle', 'psend %s %s chunk=0' % ('q' if x == 'e1' else a, stream(r, ks, r.randrange(1, 3), bad=0.1 if x == 'e0' else 0, size=5).hex())]))
            m += [r.choice(['disc e0 f=1 w=0', 'disc e0 f=0 w=0', 'pclose ' + a, 'preset ' + a])] + r.choice([['settle'], ['yield 3'], []])
            m += (ob + r.choice([['sleep 1'], ['settle'], []]) + ['dec e0'] if hold else []) + ['disc e0 f=1 w=1', 'nofd n=0']
            m += ['join ' + t for t in ts] + ob + ['pclose ' + a]
            if r.random() < 0.6:   # as if nothing had happened
                b = 'b%d' % rnd
                m += ['connect e0 kind=%s at=l0 n=5 exp=ok' % k, 'paccept %s l0' % b, 'get e0 k=conn', push(r, ks, 'e0', size=5), 'settle', 'pread ' + b,
                      'psend %s %s chunk=0' % (b, frame(r, ks.next(), size=3).hex()), 'settle', 'pull e0 n=0', 'disc e0 f=1 w=1', 'pclose ' + b]
        m += [push(r, ks, 'e1', size=5), 'settle', 'obs e1', 'disc e1 f=0 w=1', 'pclose q', 'del e1'] if other else []
        m += ['unlisten l0', 'sleep 5', 'del e0']
    else:
        con, dis = r.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 0)])
        ncl = r.randrange(0, 3)
        m += ['client'] * ncl + ['server s0 con=%d dis=%d' % (con, dis)]
        s.secs['c0'] = ['tag @ v=id'] + r.choice([[], ['obs @'], [push(r, ks, '@', size=3)]])
        s.secs['d0'] = r.choice([[], ['obs @']])
        m += ['smax s0 v=%d' % r.choice([-1, 2])] * (r.random() < 0.3)
        np = 0
        for run in range(r.choice([1, 1, 2])):
            k = r.choice(['unix', 'unix', 'tcp'])
            at = 'a%d' % r.randrange(2)
            if r.random() < 0.6:
                m += ['nofd skip=%d n=%d' % (r.choice([0, 0, 1, 1, 2]), r.choice([1, 1, 3])), 'sstart s0 kind=%s at=%s dof=%d exp=any' % (k, at, r.randrange(2)), 'nofd n=0', 'sgettype s0', 'sstop s0 n=-1']
            m += ['sstart s0 kind=%s at=%s dof=%d exp=ok' % (k, at, r.random() < 0.3), 'sgettype s0', 'sinfo s0']
            cls, mine = [], []
            for _ in range(r.randrange(1, 8)):
                c = r.random()
                if c < 0.25:
                    m.append(short())
                elif c < 0.4:
                    m += ['nofd n=0']
                elif c < 0.65:
                    if ncl and len(cls) < ncl and r.random() < 0.5:
                        e = 'e%d' % len(cls)
                        cls.append(e)
                        m.append('connect %s kind=%s at=%s n=2 exp=any' % (e, k, at))
                    else:
                        np += 1
                        mine.append('p%d' % np)
                        m.append('pconnect p%d %s kind=%s' % (np, at, k))
                elif c < 0.75 and mine:
                    m.append('psend %s %s chunk=0' % (r.choice(mine), stream(r, ks, r.randrange(1, 3), bad=0.1, size=5).hex()))
                elif c < 0.85 and mine:
                    m.append(r.choice(['pclose ', 'preset ']) + mine.pop(r.randrange(len(mine))))
                else:
                    m += ['settle', 'sget s0 id=%d r=r1' % r.randrange(1, 4), 'obs r1', push(r, ks, 'r1', size=3), 'rel r1']
            if r.random() < 0.6:   # those who come when there are enough again are served
                np += 1
                m += ['nofd n=0', 'settle', 'pconnect p%d %s kind=%s' % (np, at, k), 'settle', 'sget s0 id=%d r=r2' % r.randrange(1, 4), 'obs r2', 'rel r2']
            if r.random() < 0.3:
                m.append('nofd skip=0 n=30')
            m += ['sstop s0 n=-1', 'exists ' + at, 'nofd n=0', 'sgettype s0']
            m += ['disc %s f=1 w=1' % e for e in cls]
        m += ['sdel s0'] + ['del e%d' % i for i in range(ncl)]
    s.secs['main'] = m
    return s


def mass(r, seed, fault=False):
    """more than a few: requests that wait, clients of one server, references to one connection"""
    ks = Keys()
    h = head(r, seed, fault, fine=False)
    s = Scn('mass', h)
    what = r.choice(['queues', 'queues', 'clients', 'references'])
    if what == 'queues':
        small = r.random() < 0.5
        n, k = r.choice([70, 140, 270]), r.choice([0, 0, 70, 140, 270])
        m = [mk_pair(r, small=small)] + blocks(r, 'e0')
        m = [x for x in m if not x.endswith(' v=0') and not x.endswith(' v=1') and not x.endswith(' v=2') and not x.endswith(' v=3')]
        out = [push(r, ks, 'e0', size=0) for _ in range(n)]
        inn = b''.join(frame(r, ks.next(), size=0) for _ in range(k))
        if r.random() < 0.4:   # while the only thread that could send is busy
            s.secs['h1'] = ['gate g']
            m += ['setdef e0 h=1', 'shut g', 'psend p0 %s chunk=0' % frame(r, ks.next(), name='7a', size=3).hex(), 'settle'] + out + ['setdef e0 h=0', 'open g']
        elif r.random() < 0.5:
            s.secs['t1'] = out[::2]
            m += ['start t1'] + out[1::2] + ['join t1']
        else:
            m += out
        m += ([psend(r, 'p0', inn)] if k else []) + r.choice([[], ['settle']]) + ['pull e0 n=%d' % r.choice([0, 1, 1])] * r.choice([0, k // 2, k, k + 1])
        m += ['pwaitread p0 ms=500']
        m += r.choice([['disc e0 f=0 w=0', 'pwaitread p0 ms=300', 'pclose p0'], ['disc e0 f=1 w=1'], ['pclose p0']]) + ['settle'] + ['pull e0 n=-1'] * r.choice([0, 3]) + ['obs e0', 'del e0']
    else:
        kd = r.choice(['unix', 'unix', 'tcp'])
        n = r.choice([70, 135]) if what == 'clients' else 1
        s.secs['c0'] = r.choice([[], [], ['tag @ v=id']])
        s.secs['d0'] = []
        m = ['server s0 con=%d dis=%d' % (r.random() < 0.8, r.random() < 0.6), 'smax s0 v=%d' % r.choice([-1, -1, n, n - 1 if n > 1 else 1]), 'sstart s0 kind=%s at=a0 exp=ok' % kd]
        ps = ['p%d' % i for i in range(n)]
        for p in ps:
            m += ['pconnect %s a0 kind=%s' % (p, kd)] + (['settle'] if r.random() < 0.1 else [])
        m += ['settle']
        if what == 'clients':
            for _ in range(r.randrange(2, 6)):
                c = r.random()
                if c < 0.6:
                    m += [r.choice(['pclose ', 'preset ']) + ps.pop(r.choice([-1, -1, -2, 0, len(ps) // 2]))] + r.choice([['settle'], ['settle'], []])
                elif c < 0.8:
                    m += ['sget s0 id=%d r=r1' % r.choice([1, n // 2, n - 1, n]), 'obs r1', 'disc r1 f=%d w=0' % r.randrange(2), push(r, ks, 'r1', size=3), 'rel r1', 'settle']
                else:
                    ps.append('q%d' % len(m))
                    m += ['pconnect %s a0 kind=%s' % (ps[-1], kd), 'settle']
        else:
            k = r.choice([130, 260, 300])
            m += ['sget s0 id=1 r=r0'] + [r.choice(['scopy r%d r=r%d' % (r.randrange(i), i), 'sget s0 id=1 r=r%d' % i]) if r.random() < 0.1 else 'scopy r0 r=r%d' % i for i in range(1, k)]
            o = list(range(k))
            r.shuffle(o)
            rel = ['rel r%d' % i for i in o]
            for x, at in ((r.choice(['pclose p0', 'disc r0 f=1 w=0', 'disc r0 f=0 w=0']), 0), ('settle', r.choice([0, 1, k - 256 if k > 256 else 1, k - 2])), ('obs r%d' % o[-1], k - 1), ('settle', k - 1)):
                rel.insert(at if at == 0 else at + 2, x)
            m += rel
        m += ['settle', 'sgettype s0', 'sstop s0 n=-1', 'exists a0', 'sdel s0']
    s.secs['main'] = m
    return s


def storm(r, seed, fault=False, what=None):
    """everybody at once, in between any two accesses to memory"""
    ks = Keys()
    s = Scn('storm', head(r, seed, fault))
    s.head.update(fine=1, gap=r.choice([3, 6, 12, 25, 60]), policy=r.choice([1, 1, 1, 2, 0]))
    what = what or r.choice(['handlers', 'handlers', 'queues', 'queues', 'settings', 'lookups', 'lookups', 'server', 'again'])
    ts = []

    def th(p):
        ts.append('t%d' % len(ts))
        if what == 'again' and r.random() < 0.5:
            p.insert(r.randrange(len(p)), 'stall %d' % r.randrange(1, r.choice([6, 15, 40])))
        s.secs[ts[-1]] = ['gate g'] + p
    if what in ('handlers', 'queues', 'settings'):
        m = [mk_pair(r, small=False), 'setrbs e0 v=100000', 'seth e0 name=7a7a h=1', 'shut g']
        s.secs['h1'] = ['gate g']
        for h in (2, 3, 4):
            s.secs['h%d' % h] = r.choice([[], [], [], [push(r, ks, '@', size=0)], ['seth @ name=%s h=%d' % (r.choice(NAMES), r.choice([0, 2, 3]))], ['pull @ n=0']])
        names = r.sample(NAMES + ODD, r.randrange(2, 14 if what == 'handlers' else 5)) + NAMES
        m += ['seth e0 name=%s h=%d' % (n, r.choice([2, 3, 4])) for n in r.sample(names, r.randrange(0, len(names)))]
        if r.random() < 0.3:
            m += ['setdef e0 h=%d' % r.choice([2, 3, 4])]
        data = frame(r, ks.next(), name='7a7a', size=0) + b''.join(frame(r, ks.next(), name=r.choice(names), size=0) for _ in range(r.randrange(3, 30 if what == 'handlers' else 12)))
        m += ['psend p0 %s chunk=0' % data.hex(), 'settle']
        for _ in range(r.choice([1, 2, 2, 3])):
            if what == 'handlers':
                th([r.choice(['seth e0 name=%s h=%d' % (r.choice(names), r.choice([0, 0, 2, 3, 4])), 'seth e0 name=%s h=%d' % (r.choice(names), r.choice([0, 0, 2, 3, 4])), 'setdef e0 h=%d' % r.choice([0, 2, 3])]) for _ in range(r.randrange(4, 50))])
            elif what == 'queues':
                c = r.random()
                th([push(r, ks, 'e0', size=0) for _ in range(r.randrange(2, 9))] if c < 0.45 else ['pull e0 n=%d' % r.choice([0, 0, 1]) for _ in range(r.randrange(2, 9))] if c < 0.85 else [r.choice([push(r, ks, 'e0', size=0), 'pull e0 n=0', 'obs e0']) for _ in range(5)] + ['disc e0 f=%d w=0' % r.randrange(2)])
            else:
                mine = [x for i, x in enumerate(['setsa e0 v=%d' % r.choice([1, 2, 5]), 'setna e0 v=%d' % r.choice([2, 5, 50]), 'setsbs e0 v=%d' % r.choice([10, 1000]), 'setrbs e0 v=%d' % r.choice([10, 1000])]) if i % 3 == len(ts)]
                th([r.choice(mine + ['obs e0', push(r, ks, 'e0', size=0)]) for _ in range(r.randrange(3, 9))])
        c = r.random()
        m += ['start ' + t for t in ts] + ['open g'] + ([r.choice(['disc e0 f=0 w=0', 'disc e0 f=1 w=0', 'pclose p0'])] if c < 0.3 else [])
        m += ['join ' + t for t in ts] + ['pwaitread p0 ms=300', 'disc e0 f=1 w=1'] + ['pull e0 n=0'] * r.choice([0, 2]) + ['obs e0', 'del e0']
    elif what == 'again':   # the client connects again while earlier calls are on their way out
        kd = r.choice(['unix', 'unix', 'tcp'])
        if r.random() < 0.6:   # one of them is overtaken by everybody else
            s.head.update(fine=int(r.random() < 0.2), gap=60, policy=3, pctd=r.choice([1, 2, 3]), pctl=r.choice([100, 200, 300]))
        m = ['listen l0 kind=%s' % kd, 'client', 'shut g']
        for _ in range(r.choice([1, 2, 2, 3])):
            th([r.choice(['disc e0 f=1 w=1', 'disc e0 f=1 w=1', 'disc e0 f=0 w=1', 'disc e0 f=%d w=0' % r.randrange(2), 'wait e0 n=%d' % r.choice([-1, 0, 1]), 'pull e0 n=%d' % r.choice([-1, 0, 1]), 'obs e0', push(r, ks, 'e0', size=0)]) for _ in range(r.choice([1, 1, 2, 3]))])
        n = r.randrange(1, 4)
        for i in range(n):
            m += ['connect e0 kind=%s at=l0 n=5 exp=ok' % kd, 'paccept p%d l0' % i] + (['start ' + t for t in ts] if not i else [])
            m += (['psend p%d %s chunk=0' % (i, frame(r, ks.next(), size=0).hex())] if r.random() < 0.5 else []) + ['open g'] + r.choice([[], [], ['yield %d' % r.randrange(1, 12)]])
            m += r.choice([[], ['settle']]) + [r.choice(['disc e0 f=1 w=1', 'disc e0 f=1 w=0', 'pclose p%d' % i]), 'disc e0 f=1 w=1']
        m += ['settle', 'disc e0 f=1 w=1'] + ['join ' + t for t in ts] + ['obs e0', 'unlisten l0', 'del e0']
    else:
        kd = r.choice(['unix', 'unix', 'tcp'])
        n = r.randrange(2, 6)
        s.secs['c0'], s.secs['d0'] = r.choice([['tag @ v=id'], ['tag @ v=7'], []]), r.choice([[], ['obs @']])
        m = ['server s0 con=%d dis=%d' % (r.random() < 0.7, r.random() < 0.6), 'smax s0 v=%d' % r.choice([-1, -1, 2, n]), 'sstart s0 kind=%s at=a0 exp=ok' % kd]
        ps = ['p%d' % i for i in range(n)]
        m += ['pconnect %s a0 kind=%s' % (p, kd) for p in ps] + ['settle', 'shut g']
        for q in range(r.choice([1, 2, 2, 3])):
            x = 'r%d' % q
            p = []
            for _ in range(r.randrange(2, 6)):
                by = 'id=%d' % r.randrange(1, n + 2) if r.random() < 0.6 else 'tag=%d' % r.choice([1, 2, 3, 7])
                if what == 'lookups':
                    p += ['sget s0 %s r=%s' % (by, x)] + r.choice([[], ['obs ' + x], [push(r, ks, x, size=0)], ['disc %s f=%d w=0' % (x, r.randrange(2))], ['scopy %s r=%sc' % (x, x), 'rel ' + x, 'obs %sc' % x, 'rel %sc' % x]]) + ['rel ' + x]
                else:
                    p += r.choice([['smax s0 v=%d' % r.choice([-1, 1, 2, 5])] if q == 0 else ['obs ' + x], ['sgettype s0'], ['rel ' + x, 'sget s0 %s r=%s' % (by, x)], ['rel ' + x], ['sstop s0 n=0'], ['swait s0 n=0'], ['swait s0 n=1'], ['sstart s0 kind=%s at=a%d exp=any' % (kd, r.randrange(2))]])
            th(p + ['rel ' + x])
        m += ['start ' + t for t in ts] + ['open g']
        for _ in range(r.randrange(1, n + 2)):
            c = r.random()
            if c < 0.6 and ps:
                m += [r.choice(['pclose ', 'preset ']) + ps.pop(r.randrange(len(ps)))]
            else:
                m += ['pconnect z%d a0 kind=%s' % (len(m), kd)]
            m += r.choice([[], [], ['yield %d' % r.randrange(1, 9)]])
        m += ([] if what == 'server' or r.random() < 0.7 else ['sstop s0 n=-1']) + ['join ' + t for t in ts]
        m += ['settle', 'sstop s0 n=-1', 'exists a0', 'sgettype s0', 'sdel s0']
    s.secs['main'] = m
    return s


def again(r, seed, fault=False):
    return storm(r, seed, fault, 'again')


FAMILIES = {'again': again, 'storm': storm, 'mass': mass, 'scarce': scarce, 'race': race, 'crowd': crowd, 'srv': srv, 'resp': resp, 'recv': recv, 'send': send, 'mixed': mixed, 'timers': timers, 'dying': dying, 'cross': cross, 'two': two, 'client': client}
