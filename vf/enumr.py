"""Plays the stimulus sequences enumerated by TLC (spec/MCEnd.tla) against the real code."""
from . import wire
from .common import *
from .net import Scn
from .scen import Keys, frame, head, push, bad_header

STIMS = 'conn connx connb push poll pull pull1 wait wait1 disc discw kill killw h0 h1 h2 h3 h4 h5 pf pk pj pz ph pr pc ps px pd t'.split()


def end_model(depth, run=None, emit=True, sa=2000, na=4000):
    """the sequences of MCEnd, those that are the beginning of another left out"""
    cfg = ('SPECIFICATION Spec\nCONSTANTS Depth = %d\n Emit = %s\n Stims = {%s}\n Sa0 = %d\n Na0 = %d\n Big = 2\n'
           'INVARIANTS Settles InOrder\nVIEW View\nCHECK_DEADLOCK FALSE\n') % (depth, 'TRUE' if emit else 'FALSE', ', '.join('"%s"' % x for x in STIMS), sa, na)
    # (one worker: the same sequences every time)
    r = must(tlc('MCEnd', cfg, workers=1), 'MCEnd')
    if run is not None:
        run.add(states=r.distinct, transitions=r.generated)
    return leaves(r)


def leaves(r):
    seqs = [tuple(x) for x in r.printed('SEQ')]
    inner = {s[:k] for s in seqs for k in range(len(s))}
    return [s for s in seqs if s not in inner]


def play(seq, r, seed, fault=False):
    """the scenario of a sequence"""
    ks = Keys()
    big = r.random() < 0.12 and 'pd' in seq or r.random() < 0.04
    k = 'unix' if big or r.random() < 0.65 else 'tcp'
    s = Scn('enum', head(r, seed, fault, fine=r.random() < 0.15))
    size = 130000 if big else None
    s.secs.update(h1=[], h2=[push(r, ks, '@', size=3)], h3=['disc @ f=1 w=0'], h4=['sleep 2100'], h5=['disc @ f=0 w=0'])
    m = ['listen l0 kind=%s' % k, 'client', 'setsa e0 v=2', 'setna e0 v=4']
    if big:
        m.append('setsbs e0 v=100000')
    p, np, half, nt = 'p0', 0, b'', 0
    started = []
    tight = r.random() < 0.35     # hardly ever waiting for the end to settle

    def th(op):
        t = 't%d' % (len(started) + 1)
        started.append(t)
        s.secs[t] = [op] + (['obs e0'] if r.random() < 0.3 else [])
        m.append('start ' + t)
    for l in seq:
        if l == 'conn':
            # a real peer sees the end of the connection before the next one begins
            if r.random() < 0.85:
                m += ['settle']
            m += ['connect e0 kind=%s at=l0 n=30 exp=ok' % k]
            p = 'p%d' % np
            np += 1
            half = b''
            m += ['paccept %s l0 ms=1' % p]
        elif l == 'connx':
            m += ['connect e0 kind=%s at=none n=1 exp=fail' % k]
        elif l == 'connb':
            m += ['connect e0 kind=%s at=l0 n=1 exp=any' % k]
        elif l == 'push':
            m += [push(r, ks, 'e0', size=size)]
        elif l == 'poll':
            m += ['pull e0 n=0']
        elif l in ('pull', 'pull1'):
            th('pull e0 n=%d' % (-1 if l == 'pull' else 1))
        elif l in ('wait', 'wait1'):
            th('wait e0 n=%d' % (-1 if l == 'wait' else 1))
        elif l in ('disc', 'kill'):
            m += ['disc e0 f=%d w=0' % (l == 'kill')]
        elif l in ('discw', 'killw'):
            th('disc e0 f=%d w=1' % (l == 'killw'))
        elif l[0] == 'h':
            m += ['setdef e0 h=%s' % l[1]]
        elif l == 'pf':
            m += ['psend %s %s chunk=%d' % (p, frame(r, ks.next(), size=r.choice([None, 3, 300])).hex(), r.choice([0, 0, 7]))]
        elif l == 'pk':
            m += ['psend %s %s chunk=0' % (p, wire.request(b'_', 0, []).hex())]
        elif l == 'pj':
            m += ['psend %s %s chunk=0' % (p, bad_header(r, ks.next()).hex())]
        elif l == 'pz':
            m += ['psend %s %s chunk=0' % (p, wire.le4(r.choice([0, 1, 3, 4, 16385, 2 ** 31, 2 ** 32 - 1])).hex())]
        elif l == 'ph':
            f = frame(r, ks.next(), size=20)
            n = r.choice([1, 3, 4, 5, 9, len(f) - 1])
            m += ['psend %s %s chunk=0' % (p, f[:n].hex())]
            half = f[n:]
        elif l == 'pr':
            m += ['psend %s %s chunk=0' % (p, half.hex())]
            half = b''
        elif l == 'pc':
            m += ['pclose ' + p]
        elif l == 'ps':
            m += ['pshut ' + p]
        elif l == 'px':
            m += ['preset ' + p]
        elif l == 'pd':
            m += ['pread ' + p]
        elif l == 't':
            m += ['sleep 2100']
        c = r.random()
        if l != 't':
            m += [] if c < (0.75 if tight else 0.25) else ['yield %d' % r.randrange(1, 12)] if c < (0.95 if tight else 0.45) else ['settle']
    m += ['settle', 'obs e0', 'disc e0 f=1 w=1']
    if 'wait' in seq:   # it may be waiting for the end of a connection that has not begun
        m += ['settle', 'connect e0 kind=%s at=l0 n=30 exp=ok' % k, 'paccept pz l0', 'disc e0 f=1 w=1']
    m += ['join ' + t for t in started]
    m += ['pull e0 n=0', 'obs e0', 'cfg e0 name=62', 'unlisten l0', 'del e0']
    s.secs['main'] = m
    return s


SSTIMS = 'y1 start startx stop0 stopw stop1 waitw wait1 m0 m1 m2 mx cc c2 cx cy cz cs g1 g2 h1 r1 r2 k1 k2 shut open t'.split()


def server_model(depth, run=None, emit=True, con=True, dis=True):
    cfg = ('SPECIFICATION Spec\nCONSTANTS Depth = %d\n Emit = %s\n Stims = {%s}\n Con = %s\n Dis = %s\n MaxClients = 4\n'
           'INVARIANTS Settles Limit Numbered Held Nothing\nVIEW View\nCHECK_DEADLOCK FALSE\n') % (
               depth, 'TRUE' if emit else 'FALSE', ', '.join('"%s"' % x for x in SSTIMS), str(con).upper(), str(dis).upper())
    r = must(tlc('MCServer', cfg, workers=1), 'MCServer')
    if run is not None:
        run.add(states=r.distinct, transitions=r.generated)
    return leaves(r)


def play_server(seq, r, seed, fault=False):
    ks = Keys()
    s = Scn('senum', head(r, seed, fault, fine=r.random() < 0.15))
    con, dis = r.choice([(1, 1), (1, 1), (1, 1), (1, 0), (0, 1)])
    k = 'unix' if r.random() < 0.6 else 'tcp'
    at = r.choice(['a0', 'a1'])
    gated = 'shut' in seq
    tight = r.random() < 0.35
    g = ['gate g'] if gated else []
    s.secs['c0'] = [['tag @ v=id'], ['tag @ v=id'] + g, g + ['obs @'], g + [push(r, ks, '@', size=3)]][r.randrange(4)]
    s.secs['d0'] = [g, g + ['obs @'], ['sgettype s0'] + g][r.randrange(3)]
    s.secs['h1'] = [[], [push(r, ks, '@', size=3)]][r.randrange(2)]
    m = ['open g', 'server s0 con=%d dis=%d' % (con, dis)]
    if r.random() < 0.4:
        s.secs['c0'].insert(0, 'setdef @ h=1')
    ts, inn, n = [], [], 0

    def th(op):
        t = 't%d' % (len(ts) + 1)
        ts.append(t)
        s.secs[t] = [op] + (['sgettype s0'] if r.random() < 0.4 else [])
        m.append('start ' + t)
    for l in seq:
        if l == 'start':
            m += ['sstart s0 kind=%s at=%s exp=any' % (k, at), 'sgettype s0', 'sinfo s0'][:r.randrange(1, 4)]
        elif l == 'startx':
            m += [r.choice(['sstart s0 kind=unix at=LONG exp=fail', 'sstart s0 kind=tcp at=a0 ip=nonsense exp=fail', 'sstart s0 kind=unix at=nodir/x exp=fail'])]
        elif l == 'stop0':
            m += ['sstop s0 n=0']
        elif l in ('stopw', 'stop1'):
            th('sstop s0 n=%d' % (-1 if l == 'stopw' else 1))
        elif l in ('waitw', 'wait1'):
            th('swait s0 n=%d' % (-1 if l == 'waitw' else 1))
        elif l[0] == 'm':
            m += ['smax s0 v=%s' % (l[1] if l[1] != 'x' else '-1')]
        elif l in ('cc', 'c2'):
            for _ in range(1 + (l == 'c2')):
                n += 1
                inn.append('p%d' % n)
                m += ['pconnect p%d %s kind=%s' % (n, at, k)]
        elif l == 'cz':
            m += [r.choice(['pclose ', 'pclose ', 'preset ']) + p for p in inn]
            inn = []
        elif l in ('cx', 'cy') and inn:
            p = inn.pop(0 if l == 'cx' else -1)
            m += [r.choice(['pclose ', 'pclose ', 'preset ']) + p]
        elif l == 'cs' and inn:
            m += ['psend %s %s chunk=0' % (r.choice(inn), frame(r, ks.next(), size=r.choice([None, 5])).hex())]
        elif l in ('g1', 'g2', 'h1'):
            x = 'r1' if l == 'g1' else 'r2'
            m += ['rel ' + x, 'sget s0 %s r=%s' % ('id=%s' % l[1] if r.random() < 0.7 else 'tag=%s' % l[1], x)]
        elif l == 'y1':
            m += ['rel r2', 'scopy r1 r=r2']
        elif l in ('r1', 'r2'):
            m += ['obs ' + l] * (r.random() < 0.4) + ['rel ' + l]
        elif l in ('k1', 'k2'):
            m += ['disc r%s f=%d w=0' % (l[1], r.random() < 0.8)]
        elif l in ('shut', 'open'):
            m += ['%s g' % l]
        elif l == 't':
            m += ['sleep 1100']
        c = r.random()
        if l != 't':
            m += [] if c < (0.75 if tight else 0.2) else ['yield %d' % r.randrange(1, 12)] if c < (0.95 if tight else 0.35) else ['settle']
        if r.random() < 0.1:
            m += ['exists ' + at] if k == 'unix' else ['sgettype s0']
    m += ['settle', 'sgettype s0', 'open g', 'rel r1', 'rel r2', 'sstop s0 n=-1'] + ['join ' + t for t in ts]
    m += ['sstop s0 n=-1', 'sgettype s0', 'exists ' + at, 'sdel s0']
    s.secs['main'] = m
    return s


def batches(prop, run):
    """lists of scenarios: a sample of the sequences (quick), all of the longer ones (thorough), in random schedules"""
    from . import plans
    models, n = plans.ENUM.get(prop, ([], 0))
    for mo in models:
        seqs = (end_model if mo == 'end' else server_model)(6 if THOROUGH else 5, run)
        rng(prop, 'enum', mo).shuffle(seqs)
        run.add(**{'enumerated_sequences_' + mo: len(seqs)})
        if not THOROUGH:
            seqs = seqs[:n]
        elif mo == 'end' and len(models) > 1:
            seqs = seqs[:16000]
        k = 0
        for i in range(0, len(seqs), 1500):
            if time.time() - T0 > (350 if mo == models[0] else 450) and THOROUGH:
                break
            l = []
            for j, x in enumerate(seqs[i:i + 1500]):
                r = rng(prop, 'play', mo, i + j)
                s = (play if mo == 'end' else play_server)(x, r, r.randrange(1, 2 ** 31), fault=prop == 'C23')
                s.name = '%s-sequence-%s' % (mo, '-'.join(x))
                l.append(s)
            k += len(l)
            yield l
        run.add(**{'replayed_sequences_' + mo: k})
