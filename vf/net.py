"""Executes scenarios on the real library (harness/driver.cpp) and turns what happened into traces for TLC."""
import collections, os, re, struct, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from .common import *
from . import wire

Ev = collections.namedtuple('Ev', 't tid tag kind args')


# ---------------------------------------------------------------- running scenarios
BIG = 1000000       # as good as forever (larger ones are cut to this for the specification)


def forever(l, seed, i):
    """the same operation; some of those without a limit get one that nobody lives to see"""
    if ' n=-1' in l and l.split(' ', 1)[0] in ('pull', 'wait', 'swait', 'sstop', 'push'):
        x = (int(seed) * 31 + i * 7) % 20
        if x < 4:
            return re.sub(r' n=-1(?=\s|$)', ' n=%d' % (1000000, 2147484, 4294968, 2147483647)[x], l)
    return l


class Scn:
    """one scenario: header options and programs"""

    def __init__(self, name, head=None, **secs):
        self.name, self.head, self.secs = name, dict(head or {}), {k: list(v) for k, v in secs.items()}
        self.hint = {}

    def text(self):
        out = ['scenario %s %s' % (self.name, ' '.join('%s=%s' % kv for kv in self.head.items()))]
        for s in ['main'] + [x for x in self.secs if x != 'main']:
            out.append('[%s]' % s)
            out += [forever(l, self.head.get('seed', 0), i) for i, l in enumerate(self.secs[s])]
        return '\n'.join(out) + '\n'


def run_scenarios(scns):
    """list of event lists, in the order of scns"""
    exe = build('sim')
    d = tempfile.mkdtemp(prefix='scn.', dir=work())
    n = len(scns)
    k = max(1, min(NPROC, (n + 3) // 4))
    per = [list(range(j, n, k)) for j in range(k)]
    res = [None] * n

    def one(j):
        f = os.path.join(d, '%d.txt' % j)
        with open(f, 'w') as o:
            for i in per[j]:
                s = scns[i]
                nm, s.name = s.name, 's%d' % i
                o.write(s.text())
                s.name = nm
        r = subprocess.run([exe, f], env=asan_env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=800)
        cur, evs = None, None
        for l in r.stdout.decode('utf8', 'replace').split('\n'):
            if l.startswith('=== '):
                if l == '=== end':
                    # (of what goes round in circles the beginning will do)
                    if evs and evs[-1].kind == 'stuck' and len(evs) > 3000:
                        evs[3000:-1] = []
                    res[cur] = evs
                    cur = None
                else:
                    cur, evs = int(l[5:]), []
            elif cur is not None and l:
                w = l.split(' ', 4)
                try:
                    evs.append(Ev(int(w[0]), int(w[1]), int(w[2]), w[3], w[4].split(' ') if len(w) > 4 else []))
                except ValueError:
                    evs.append(Ev(0, -1, -1, 'garbled', [l]))
    with ThreadPoolExecutor(k) as ex:
        list(ex.map(one, range(k)))
    shutil.rmtree(d, ignore_errors=True)
    for i, r in enumerate(res):
        if r is None:
            raise CheckError('the driver gave no result for scenario %s' % scns[i].name)
        for e in r:
            if e.kind == 'crash' and 'unknown operation' in ' '.join(e.args):
                raise CheckError('scenario %s: %s' % (scns[i].name, ' '.join(e.args)[:300]))
    return res


def kv(args):
    return dict(a.split('=', 1) for a in args if '=' in a)


def unhex(s):
    return b'' if s == '-' else bytes.fromhex(s)


# ---------------------------------------------------------------- streams
class Stream:
    def __init__(self):
        self.b, self.dead = b'', False

    def feed(self, data):
        """(lengths whose prefix is complete now, frames complete now)"""
        hd, fr = [], []
        if self.dead:
            return hd, fr
        old = len(self.b)
        self.b += data
        while len(self.b) >= 4:
            n = struct.unpack_from('<I', self.b)[0]
            if old < 4:
                hd.append(min(n, 2 ** 31 - 1))
            if n <= 4:
                self.dead = True
                break
            if len(self.b) < n:
                break
            fr.append(self.b[:n])
            self.b = self.b[n:]
            old = 0
        return hd, fr


# ---------------------------------------------------------------- endpoint traces
class Ep:
    def __init__(self, n):
        self.n, self.even, self.fds, self.ev = n, True, [], []
        self.frames = []        # received requests: [f, content, claimed]
        self.nf = 0
        self.pushes = []        # dict(op, body, id, w, n)
        self.sent = 0
        self.client = False
        self.srv = None


SERVER_CALLS = ('snew', 'sstart', 'sstop', 'swait', 'smax', 'stype', 'sdel', 'sget', 'sinfo')


class World:
    """everything known about one execution"""

    def __init__(self, evs, max0=16384):
        self.evs = evs
        self.eps = {}
        self.fd_ep = {}        # socket -> (ep, gen)
        self.max0 = max0
        self.srvs = {}
        self.crash = [e for e in evs if e.kind in ('crash', 'stuck')]
        self.map_fds()
        self.traces = self.build()
        self.server_traces()

    def ep(self, n):
        if n not in self.eps:
            self.eps[n] = Ep(n)
        return self.eps[n]

    def map_fds(self):
        last_accept, self.accept_at = {}, {}
        self.accepts = []
        io, fdsock, res = set(), {}, {}
        met = set()            # sockets closed while they were connected
        open_op, conn_of, short = {}, {}, set()   # short: connect calls that were refused a descriptor
        for i, e in enumerate(self.evs):
            a = e.args
            if e.kind in ('snd', 'rcv'):
                io.add(int(a[0]))
            elif e.kind == 'close' and a[3:4] == ['1']:
                met.add(int(a[0]))
            elif e.kind == 'nofd' and e.tag in conn_of:
                short.add(conn_of[e.tag])
            elif e.kind == 'accept':
                last_accept[e.tid] = (i, int(a[1]))
                self.accepts.append((i, int(a[0]), int(a[1])))
            elif e.kind == 'connH':
                if e.tid in last_accept:
                    j, fd = last_accept.pop(e.tid)
                    n = int(a[1])
                    self.fd_ep[fd] = (n, 1)
                    self.ep(n).srv = int(a[0])
                    self.ep(n).fds.append(fd)
                    self.accept_at[j] = n
            elif e.kind == 'C' and a[1] == 'ctor':
                fd = int(kv(a)['fd'])
                self.fd_ep[fd] = (int(a[2]), 1)
                self.ep(int(a[2])).fds.append(fd)
            elif e.kind == 'C' and a[1] == 'client':
                self.ep(int(a[2])).client = True
                self.ep(int(a[2])).even = False
            elif e.kind == 'C' and a[1] == 'connect':
                open_op[e.tid] = int(a[0])
                conn_of[int(a[2])] = int(a[0])
            elif e.kind == 'R':
                res[int(a[0])] = a[1] if len(a) > 1 else ''
            elif e.kind == 'socket' and e.tag >= 0:
                fdsock.setdefault(e.tag, []).append((int(a[0]), open_op.get(e.tid)))
        for n, l in fdsock.items():
            g = 0
            for fd, o in l:
                ok = fd in io or res.get(o) == '1' or (fd in met and o not in short)
                if ok:
                    g += 1
                    self.fd_ep[fd] = (n, g)
                    self.ep(n).fds.append(fd)

    def build(self):
        evs = self.evs
        opep, opk, opinfo = {}, {}, {}
        ins, outs, cur = {}, {}, {}
        stopping, open_stops = {}, {}
        # hindsight: results of pulls
        results = {int(e.args[0]): e.args[1] if len(e.args) > 1 else '0' for e in evs if e.kind == 'R'}
        settop = {}

        def nm(b):
            return 'n' + b.hex()

        def put(n, **k):
            self.ep(n).ev.append(k)

        def claim(p, content):
            for fr in p.frames:
                if fr[1] == content and not fr[2]:
                    fr[2] = True
                    return fr[0]
            for fr in p.frames:
                if fr[1] == content:
                    return fr[0]
            p.nf += 1
            return -p.nf

        pullfix = []
        for i, e in enumerate(evs):
            a, t, k = e.args, e.t, e.kind
            if k == 'accept' and i in self.accept_at:
                n = self.accept_at[i]
                put(n, k='C', o=1000000 + n, f='ctor', t=t)
                put(n, k='R', o=1000000 + n, v=1, t=t)
                # a stop of the server may have been requested before
                if stopping.get(self.ep(n).srv):
                    put(n, k='sstop', t=t)
                cur[n] = int(a[1])
            elif k == 'C':
                o, f = int(a[0]), a[1]
                opk[o] = f
                if f in ('sstop', 'sdel'):
                    stopping[int(a[2])] = True
                    open_stops[o] = int(a[2])
                    for p in self.eps.values():
                        if p.srv == int(a[2]) and p.ev and not any(x['k'] == 'sstop' for x in p.ev):
                            put(p.n, k='sstop', t=t)
                elif f == 'sstart' and results.get(o) == '1':
                    stopping[int(a[2])] = int(a[2]) in open_stops.values()
                if f[0] == 's' and f in SERVER_CALLS:
                    continue
                if f in ('scopy', 'sassign'):
                    if int(a[3]) >= 0:
                        put(int(a[3]), k='rel', t=t)
                    continue
                n = int(a[2])
                q = kv(a[3:])
                opep[o] = n
                if n < 0:
                    continue
                if f == 'rel':
                    put(n, k='rel', t=t)
                    continue
                d = dict(k='C', o=o, f=f, t=t)
                if f == 'ctor':
                    cur[n] = int(q['fd'])
                elif f == 'connect':
                    d.update(n=min(int(q['n']), BIG), exp=q['exp'])
                elif f == 'push':
                    b = unhex(q['b'])
                    d.update(auto=q['auto'] == '1', id=sid(int(q['id'])), w=0, wg=0, n=min(int(q['n']), BIG), ret=0)
                    opinfo[o] = d
                    self.ep(n).pushes.append(dict(op=o, b=b, w=0, d=d, size=len(b)))
                elif f == 'pull':
                    d.update(n=min(int(q['n']), BIG), ret=-1 if o not in results else 0)
                    opinfo[o] = d
                elif f == 'disc':
                    d.update(fc=q['f'] == '1', w=q['w'] == '1')
                elif f == 'wait':
                    d.update(n=min(int(q['n']), BIG))
                elif f == 'get':
                    d.update(q=q['k'])
                elif f in ('seth', 'setdef'):
                    d['f'] = 'seth'
                    d.update({'def': f == 'setdef', 'n': nm(wire.hexname(q['name'])) if f == 'seth' else '', 'h': int(q['h'])})
                elif f == 'set':
                    big = BIG if q['k'] in ('sa', 'na') else 2 ** 30
                    settop[o] = big
                    d.update(q=q['k'], n=max(-BIG, min(int(q['v']), big)))
                elif f == 'tag':
                    d['f'] = 'set'
                    d.update(q='tag', n=int(q['v']) if q.get('v', '').isdigit() else 0)
                elif f == 'cfg':
                    d.update(n=nm(wire.hexname(q['name'])))
                elif f == 'client':
                    pass
                self.ep(n).ev.append(d)
            elif k == 'R':
                o = int(a[0])
                open_stops.pop(o, None)
                if opk.get(o) in ('scopy', 'sassign'):
                    put(int(a[2]), k='hold', t=t)
                    continue
                if opk.get(o) == 'sget':
                    if a[1] == '1':
                        put(int(a[2]), k='hold', t=t) if int(a[2]) >= 0 else None
                    continue
                if o not in opep or opep[o] < 0 or opk[o] == 'rel':
                    continue
                n = opep[o]
                p = self.ep(n)
                d = dict(k='R', o=o, t=t)
                if opk[o] in ('pull', 'push') and a[1] != '0':
                    pullfix.append((p, d, opinfo.get(o), unhex(a[1])))
                    d['v'] = 0
                elif opk[o] == 'cfg':
                    d['v'] = 1
                    d['c'] = [min(int(x), BIG if j in (2, 3) else 2 ** 30) for j, x in enumerate(a[1:8])] + [int(a[8]) if a[8].isdigit() else 0]
                elif opk[o] == 'tag':
                    d['v'] = -1
                elif opk[o] == 'connect':
                    d['v'] = int(a[1])
                    # the socket of a successful attempt
                    p.gen_now = None
                elif opk[o] == 'set':
                    d['v'] = max(-BIG, min(int(a[1]), settop.get(o, 2 ** 30)))
                else:
                    d['v'] = int(a[1])
                p.ev.append(d)
            elif k == 'snd':
                fd = int(a[0])
                if fd not in self.fd_ep:
                    continue
                n, g = self.fd_ep[fd]
                p = self.ep(n)
                cur[n] = fd
                if a[1] == '-1':
                    p.ev.append(dict(k='snd', g=g, n=-1, part=False, fr=[], t=t))
                    continue
                st = outs.setdefault(fd, Stream())
                _, fr = st.feed(unhex(a[2]))
                l = []
                for b in fr:
                    if b[:4] == wire.KA[:4] and b[8:] == wire.KA[8:]:
                        l.append({'o': 0, 'id': 0})
                        continue
                    for x in p.pushes:
                        if not x['w'] and x['b'][:4] == b[:4] and x['b'][8:] == b[8:]:
                            p.sent += 1
                            x['w'] = x['d']['w'] = p.sent
                            x['d']['wg'] = g
                            l.append({'o': x['op'], 'id': struct.unpack_from('<i', b, 4)[0]})
                            break
                    else:
                        l.append({'o': -1, 'id': 0})
                if st.dead:
                    l.append({'o': -1, 'id': 0})
                p.ev.append(dict(k='snd', g=g, n=int(a[1]), part=len(st.b) > 0, fr=l, t=t))
            elif k == 'rcv':
                fd = int(a[0])
                if fd not in self.fd_ep:
                    continue
                n, g = self.fd_ep[fd]
                p = self.ep(n)
                cur[n] = fd
                if a[1] in ('0', '-1'):
                    p.ev.append(dict(k='rcv', g=g, n=int(a[1]), hd=[], fr=[], t=t))
                    continue
                st = ins.setdefault(fd, Stream())
                hd, fr = st.feed(unhex(a[2]))
                l = []
                for b in fr:
                    r = wire.dec_request(b)
                    if r is None:
                        l.append({'f': 0, 'k': 'bad', 'n': '', 'id': 0, 'len': len(b)})
                    elif r[0] == b'_':
                        l.append({'f': 0, 'k': 'ka', 'n': '', 'id': 0, 'len': len(b)})
                    else:
                        p.nf += 1
                        p.frames.append([p.nf, r[2], False])
                        l.append({'f': p.nf, 'k': 'req', 'n': nm(r[0]), 'id': sid(r[1]), 'len': len(b)})
                p.ev.append(dict(k='rcv', g=g, n=int(a[1]), hd=hd, fr=l, t=t))
            elif k == 'hcall':
                n = int(a[0])
                if n < 0:
                    continue
                d = dict(k='hcall', f=0, h=int(a[1]), t=t)
                pullfix.append((self.ep(n), d, None, unhex(a[2])))
                self.ep(n).ev.append(d)
            elif k == 'hret':
                if int(a[0]) >= 0:
                    put(int(a[0]), k='hret', t=t)
            elif k == 'close':
                fd = int(a[0])
                if fd in self.fd_ep:
                    n, g = self.fd_ep[fd]
                    put(n, k='close', g=g, un=int(a[2]), t=t)
            elif k == 'hup':
                if int(a[0]) in self.fd_ep:
                    put(self.fd_ep[int(a[0])][0], k='hup', t=t)
            elif k == 'free':
                put(int(a[0]), k='free', t=t)
            elif k == 'q':
                st = {int(x.split(':')[0]): x.split(':') for x in a}
                for n, p in self.eps.items():
                    if not p.ev:
                        continue
                    f = st.get(cur.get(n))
                    d = dict(k='q', w=bool(f and f[1] == '1'), r=bool(f and f[2] == '1'), t=t)
                    if p.ev[-1] != d:
                        p.ev.append(d)
            elif k == 'badfd':
                fd = int(a[0])
                n = self.fd_ep[fd][0] if fd in self.fd_ep else (e.tag if e.tag in self.eps else min(self.eps, default=None))
                if n is not None:
                    put(n, k='badfd', t=t)
            elif k == 'changed':
                put(int(a[0]), k='changed', t=t)
            elif k == 'end':
                m = a.index('mem')
                if self.eps:
                    put(min(self.eps), k='end', fds=m, mem=int(a[m + 1]), t=t)
            elif k in ('crash', 'stuck'):
                for n in self.eps:
                    put(n, k=k, t=t)
        for p, d, c, content in pullfix:
            v = claim(p, content)
            if d['k'] == 'hcall':
                d['f'] = v
            else:
                d['v'] = v
                if c is not None:
                    c['ret'] = v
        # connections the harness met only later cannot be followed from their beginning
        return {n: merge(p.ev) for n, p in self.eps.items() if p.ev and (p.fds or p.client)}

    def server_traces(self):
        """the executions of the servers: {number: record}"""
        results = {int(e.args[0]): e.args[1:] for e in self.evs if e.kind == 'R'}
        srv, opk, ops, lfd = {}, {}, {}, {}
        conn = {}                # (server, socket) -> number;  ends -> (server, number)
        ep_conn, starting, last = {}, {}, {}
        freed = {int(e.args[0]) for e in self.evs if e.kind == 'free'}
        conn_open = {}
        known_ep = {}            # ends whose destruction can be seen
        for i, e in enumerate(self.evs):
            a, t, k = e.args, e.t, e.kind

            def put(_n, **x):
                srv[_n]['ev'].append(dict(x, t=t))

            def conn_of_id(n, c):
                r = srv[n]['run']
                return r[c - 1] if 0 < c <= len(r) else -1
            if k == 'C' and a[1] in SERVER_CALLS:
                o, f, n = int(a[0]), a[1], int(a[2])
                q = kv(a[3:])
                opk[o] = (f, n)
                if f == 'snew':
                    srv[n] = {'con': q['con'] == '1', 'dis': q['dis'] == '1', 'ev': [], 'run': [], 'n': 0, 'l': None}
                    continue
                d = dict(k='C', o=o, f=f)
                if f == 'sstart':
                    res = results.get(o, ['0'])[0]
                    d.update(kind=1 if q['kind'] == 'unix' else 2, path=q['at'] if q['kind'] == 'unix' else '', exp=q['exp'], dof=q['dof'] == '1', ret=int(res))
                    starting[e.tid] = n
                    if res == '1':
                        srv[n]['run'] = []
                elif f in ('sstop', 'swait'):
                    d.update(n=min(int(q['n']), BIG))
                elif f == 'smax':
                    d.update(n=int(q['v']))
                elif f == 'sget':
                    d.update(bytag=q['tag'] != '', tag=q['tag'], id=int(q['id']), ret=-2)
                put(n, **d)
                ops[o] = srv[n]['ev'][-1]
            elif k == 'C' and a[1] in ('scopy', 'sassign'):
                opk[int(a[0])] = (a[1], 0)
                if int(a[3]) in ep_conn:
                    n, c = ep_conn[int(a[3])]
                    put(n, k='rel', c=c)
            elif k == 'R' and int(a[0]) in opk:
                o = int(a[0])
                f, n = opk[o]
                if f in ('scopy', 'sassign'):
                    n, c = ep_conn[int(a[2])]
                    put(n, k='hold', c=c)
                    continue
                if f == 'snew':
                    continue
                v = int(a[1])
                if f == 'sget':
                    if v:
                        c = int(a[2])
                        if c not in ep_conn:
                            ep_conn[c] = (n, conn_of_id(n, int(a[3])))
                            known_ep[ep_conn[c]] = c
                        v = ep_conn[c][1]
                    ops[o]['ret'] = v
                elif f == 'sstart':
                    starting.pop(e.tid, None)
                put(n, k='R', o=o, v=v)
            elif k == 'listen' and e.tid in starting:
                n = starting[e.tid]
                lfd[int(a[0])] = n
                srv[n]['l'] = int(a[0])
                put(n, k='lopen')
            elif k == 'accept' and int(a[0]) in lfd:
                n = lfd[int(a[0])]
                srv[n]['n'] += 1
                c = srv[n]['n']
                srv[n]['run'].append(c)
                conn[int(a[1])] = (n, c)
                last[e.tid] = (n, c)
                conn_open[(n, c)] = int(a[1])
                if i in self.accept_at:
                    ep_conn[self.accept_at[i]] = (n, c)
                    known_ep[(n, c)] = self.accept_at[i]
                put(n, k='accept', c=c, known=False)
            elif k == 'nofd' and e.tid in last and last[e.tid] in conn_open and a[0] in ('event', 'timer'):
                # it can't be set up: turned away (if the server closes it at once)
                n, c = last[e.tid]
                nx = next((x for x in self.evs[i + 1:i + 2000] if x.tid == e.tid and x.kind not in ('nofd', 'q') and not (x.kind == 'close' and int(x.args[0]) != conn_open[(n, c)])), None)
                if nx is not None and nx.kind == 'close' and c in srv[n]['run']:
                    put(n, k='nofd', c=c)
                    srv[n]['run'].remove(c)
            elif k == 'close' and int(a[0]) in lfd:
                put(lfd[int(a[0])], k='lclose')
                if srv[lfd[int(a[0])]]['l'] == int(a[0]):
                    srv[lfd[int(a[0])]]['l'] = None
            elif k == 'close' and int(a[0]) in conn:
                n, c = conn[int(a[0])]
                conn_open.pop((n, c), None)
                put(n, k='cclose', c=c)
            elif k in ('connH', 'disH'):
                n, ep, ident = int(a[0]), int(a[1]), int(a[2])
                if k == 'disH' and ep not in ep_conn:
                    ep_conn[ep] = (n, conn_of_id(n, ident))
                    known_ep[ep_conn[ep]] = ep
                c = ep_conn.get(ep, (n, -1))[1]
                put(n, k=k, c=c, id=ident)
            elif k in ('connHR', 'disHR'):
                put(int(a[0]), k=k)
            elif k in ('hcall', 'hret', 'free') and int(a[0]) in ep_conn:
                n, c = ep_conn[int(a[0])]
                put(n, k=k, c=c)
            elif k == 'C' and a[1] in ('rel', 'tag') and int(a[2]) in ep_conn:
                n, c = ep_conn[int(a[2])]
                put(n, k=a[1], c=c, **({'v': kv(a)['v']} if a[1] == 'tag' else {}))
            elif k == 'file':
                for n in srv:
                    put(n, k='file', p=a[0])
            elif k == 'exists':
                for n in srv:
                    put(n, k='exists', p=a[0], v=int(a[1]))
            elif k == 'q':
                st = {int(x.split(':')[0]): x.split(':') for x in a}
                for n, s in srv.items():
                    if s['ev']:
                        d = dict(k='q', r=bool(s['l'] in st and st[s['l']][2] == '1'), t=t)
                        if s['ev'][-1] != d:
                            s['ev'].append(d)
            elif k == 'end' and srv:
                m = a.index('mem')
                put(min(srv), k='end', fds=m, mem=int(a[m + 1]))
            elif k in ('crash', 'stuck'):
                for n in srv:
                    put(n, k=k)
        for n, s in srv.items():
            for x in s['ev']:
                if x['k'] == 'accept':
                    x['known'] = (n, x['c']) in known_ep
                elif x.get('c') == -1:   # no such connection
                    x['k'] = 'crash'
        self.srvs = {n: s for n, s in srv.items() if s['ev']}


def merge(evs):
    """joins pieces of one frame that were sent or received in direct succession"""
    out = []
    for e in evs:
        if out and e['k'] in ('snd', 'rcv') and e['n'] > 0:
            l = out[-1]
            if l['k'] == e['k'] and l['n'] > 0 and l['t'] == e['t'] and l['g'] == e['g'] and not l['fr'] and not l.get('hd'):
                out[-1] = dict(e, n=e['n'] + l['n'])
                continue
        out.append(e)
    return out


def sid(n):
    return struct.unpack('<i', le(n))[0]


def le(n):
    return struct.pack('<I', n & 0xffffffff)


def to_record(p, ev, enf, max0=16384):
    rcv = [i for i, e in enumerate(ev) if e['k'] == 'rcv'][:1]
    seth = rcv and any(e.get('f') == 'seth' for e in ev[rcv[0]:])
    return {'even': p.even, 'max': max0, 'two': bool(seth), 'enf': sorted(enf), 'enf2': [], 'sw': -1, 'ev': ev}


def server_record(s, enf):
    return {'con': s['con'], 'dis': s['dis'], 'enf': sorted(enf), 'enf2': [], 'sw': -1, 'ev': s['ev']}


def accept(recs, verbose=0, timeout=None):
    """set of the 1-based numbers of the accepted records (of ends and of servers), and the run of TLC"""
    acc, runs = set(), []
    for mod, srv in (('ConnTrace', False), ('ServerTrace', True)):
        l = [i for i, r in enumerate(recs) if ('con' in r) == srv]
        if l:
            a, r = trace_accept(mod, [recs[i] for i in l], verbose, timeout)
            acc |= {l[x - 1] + 1 for x in a}
            if verbose:
                r.at = [[l[x[0] - 1]] + x[1:] for x in r.printed('AT')]
            runs.append(r)
    if len(runs) == 2:
        if verbose:
            runs[0].at += runs[1].at
        runs[0].distinct += runs[1].distinct
        runs[0].generated += runs[1].generated
        runs[0].rc = -1 if -1 in (runs[0].rc, runs[1].rc) else runs[0].rc
    return acc, runs[0]


def trace_accept(mod, recs, verbose, timeout):
    f = os.path.join(work(), 'tr%d.ndjson' % len(os.listdir(work())))
    with open(f, 'w') as o:
        for r in recs:
            o.write(json.dumps(r) + '\n')
    r = tlc(mod, 'SPECIFICATION Spec\nCONSTANT Verbose = %s\nCHECK_DEADLOCK FALSE\n' % int(verbose), env={'TRACE': f}, timeout=timeout)
    if timeout is None or r.rc != -1:
        must(r, mod)
    os.unlink(f)
    return set(r.printed('ACC')), r


# ---------------------------------------------------------------- checks
def make(prop, n, salt=0):
    """n scenarios of the plan of a property"""
    from . import scen, plans
    plan = plans.PLANS[prop]
    tot = sum(plan.values())
    out = []
    for f, w in plan.items():
        for i in range(max(1, int(n * w / tot))):
            r = rng(f, salt, i)
            fault = f.endswith('!')
            s = scen.FAMILIES[f.rstrip('!')](r, r.randrange(1, 2 ** 31), fault=fault)
            s.name = '%s-%d-%d' % (f, salt, i)
            out.append(s)
    rng(prop, salt).shuffle(out)
    return out


def traces_of(scn, evs, enf):
    """the records of one execution"""
    w = World(evs)
    recs = [to_record(w.ep(m), ev, enf) for m, ev in w.traces.items()] + [server_record(x, enf) for x in w.srvs.values()]
    if not recs and any(e.kind in ('crash', 'stuck') for e in evs):
        raise CheckError('scenario %s died before anything began: %s' % (scn.name, evs[-1]))
    return recs


STRICT = ['C%02d' % i for i in range(4, 25)]


def judge(scns, enf, run=None):
    """[(scenario index, record, events)] that the specification rejects with the labels enf enforced"""
    res = run_scenarios(scns)
    recs, idx = [], []
    for k, (s, e) in enumerate(zip(scns, res)):
        for r in traces_of(s, e, STRICT):
            recs.append(r)
            idx.append((k, e))
    # what satisfies the whole specification satisfies every part of it
    acc, t = accept(recs)
    if run is not None:
        run.add(states=t.distinct, transitions=t.generated, traces_validated_against_impl=len(recs), executions=len(scns),
                events=sum(len(r['ev']) for r in recs))
        if not run.cov.get('samples') and recs:
            run.add(samples=[{'scenario': scns[idx[0][0]].text().split('\n')[:12], 'trace': recs[0]['ev'][:8]}])
    rej = [i for i in range(len(recs)) if i + 1 not in acc]
    if run is not None:
        run.add(rejected_by_the_whole_specification=len(rej))
    out = []
    # otherwise: is it the part that belongs to this property?  (a sample of every length)
    rej.sort(key=lambda i: len(recs[i]['ev']))
    if len(rej) > 40:
        rej = rej[:20] + rej[20::max(1, (len(rej) - 20) // 20)]

    def lenient(l, timeout):
        a, t = accept([dict(recs[i], enf=sorted(enf)) for i in l], timeout=timeout)
        if run is not None:
            run.add(states=t.distinct, transitions=t.generated)
        return None if t.rc == -1 else [i for n, i in enumerate(l) if n + 1 not in a]
    blame = blamed(recs, rej, enf) if rej else {}
    bad = []
    if rej and not blame:
        bad = lenient(rej, 40)
        if bad is None:
            bad = []
            for i in rej[:8]:
                x = lenient([i], 15)
                if x is None and run is not None:
                    run.add(undecided=1)
                bad += x or []
                if len(bad) >= 3:
                    break
        if not bad:
            blame = orphans(recs, rej[:12], enf)
    out = [(idx[i][0], r, idx[i][1]) for i, r in blame.items()]
    return (out + [(idx[i][0], dict(recs[i], enf=sorted(enf)), idx[i][1]) for i in bad if i not in blame])[:5]


def forbidden(recs, rej):
    """the number of events of the rejected records that the specification could follow"""
    _, r = accept([recs[i] for i in rej], 1)
    best = [0] * len(rej)
    for at in r.at:
        best[at[0]] = max(best[at[0]], at[1])
    return best


def orphans(recs, rej, enf):
    """rejected records no single property is to blame for: several of them together forbid the event, this one is as good as any"""
    best = forbidden(recs, rej)
    cut, of = [], []
    for i, b in zip(rej, best):
        for p in STRICT:
            cut.append(dict(recs[i], sw=b, enf2=[p], ev=recs[i]['ev'][:b + 1]))
            of.append(i)
    acc, _ = accept(cut)
    has = {of[n] for n in range(len(cut)) if n + 1 not in acc}
    return {i: dict(recs[i], sw=b, enf2=STRICT, ev=recs[i]['ev'][:b + 1]) for i, b in zip(rej, best) if i not in has}


def blamed(recs, rej, enf):
    """{number: record} of the rejected records whose first forbidden event the properties enf forbid"""
    best = forbidden(recs, rej)
    cut = [dict(recs[i], sw=b, enf2=sorted(enf), ev=recs[i]['ev'][:b + 1]) for i, b in zip(rej, best)]
    acc, _ = accept(cut)
    return {i: cut[n] for n, i in enumerate(rej) if n + 1 not in acc}


def explain(rec):
    """how far the specification could follow a rejected trace"""
    _, r = accept([rec], 2)
    best, st = 0, ''
    for at in r.at:
        if at[1] >= best:
            best, st = at[1], at[3]
    ev = rec['ev']
    out = ['%3d %s' % (i + 1, json.dumps(ev[i])) for i in range(max(0, best - 12), best)]
    out.append('not allowed: %3d %s' % (best + 1, json.dumps(ev[best]) if best < len(ev) else '(end)'))
    out.append('state: ' + st[:1500])
    return best, '\n'.join(out)


def check(prop):
    from . import plans, enumr, pair
    enf = plans.LABELS.get(prop, [prop])
    run = Run(prop, 'model_checking')
    build('sim')
    lost = []

    def some(scns):
        for k, rec, evs in judge(scns, enf, run):
            # the schedule is part of the scenario: a rejection must come again
            again = judge([scns[k]] * 4, enf)
            if not again:
                lost.append(scns[k].name)
                continue
            _, rec, evs = again[0]
            best, text = explain(rec)
            run.violation('%s: the execution is not a behaviour of the specification\n%s' % (scns[k].name, text),
                          {'scenario': scns[k].text(), 'enforced': enf, 'trace': rec['ev'], 'stopped_at': best + 1,
                           'log': ['%d %d %d %s %s' % (e.t, e.tid, e.tag, e.kind, ' '.join(e.args)) for e in evs][-400:]})
    # sequences of stimuli enumerated by TLC
    for scns in enumr.batches(prop, run):
        some(scns)
        if len(run.viol) >= 5:
            break
    # longer random scenarios
    n = plans.DEEP if THOROUGH else plans.QUICK
    batch, salt, done = 1500, 0, 0
    limit = 700 if THOROUGH else 150
    while done < n and time.time() - T0 < limit and len(run.viol) < 5:
        scns = make(prop, batch, salt)
        salt += 1
        done += len(scns)
        some(scns)
    if prop == 'C24':
        push_timeouts(run)
    run.add(scenarios=done, families=' '.join('%s:%d' % x for x in plans.PLANS[prop].items()), not_reproduced=len(lost))
    if lost:
        log('not reproduced: ' + ' '.join(lost))
    if not run.viol:
        pair.check_pair(prop, run)
    run.assume = ['schedules and system call results come from the deterministic environment of harness/sim.cpp, over real sockets',
                  'time is virtual: a deadline is reached only when nothing else can run']
    return run.finish()


def push_timeouts(run):
    """whether a push waits for its response at all"""
    from . import scen
    s = Scn('push-timeout', {'seed': 1}, main=['pair e0 p0 kind=unix', 'start t1', 'settle', 'psend p0 %s chunk=0' % wire.request(b'answer', 2).hex(), 'settle',
                                               'join t1', 'disc e0 f=1 w=1', 'pull e0 n=0', 'del e0'], t1=['push e0 name=61 key=1 copy=1 auto=1 n=5'])
    recs = traces_of(s, run_scenarios([s])[0], STRICT + ['C24early'])
    a, t = accept(recs)
    if not a:
        b, _ = accept([dict(r, enf=STRICT) for r in recs])
        run.violation('a push with a timeout does not wait for its response\n' + explain(recs[0])[1], {'scenario': s.text()},
                      'push-timeout-unimplemented' if b else None)
