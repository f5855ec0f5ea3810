"""C01 (round trip) and C02 (untrusted bytes): the codec specification against the real code."""
import json, os, struct, subprocess
from .common import *

SIZES = {1: 8, 2: 8, 3: 4, 4: 4, 5: 2, 6: 2, 7: 1, 8: 1}


def hx(b):
    return bytes(b).hex() or '-'


def unhx(s):
    return [] if s == '-' else list(bytes.fromhex(s))


def value_text(v):
    t = v['t']
    if t == 10:
        return ' '.join(['a %d' % len(v['e'])] + [value_text(x) for x in v['e']])
    return ('s ' if t == 9 else 'u ' if t == 0 else 'i%d ' % t) + hx(v['b'])


def request_text(r):
    return ' '.join([hx(r['id']), hx(r['n']), str(len(r['a']))] + [hx(d['n']) + ' ' + value_text(d['v']) for d in r['a']])


def datum_text(d):
    return hx(d['n']) + ' ' + value_text(d['v'])


TEXT = {'request': request_text, 'datum': datum_text, 'value': value_text}


class Tok:
    def __init__(self, s):
        self.w, self.p = s.split(), 0

    def next(self):
        self.p += 1
        return self.w[self.p - 1]


def read_value(t):
    k = t.next()
    if k == 'a':
        return {'t': 10, 'e': [read_value(t) for _ in range(int(t.next()))]}
    if k == 's':
        return {'t': 9, 'b': unhx(t.next())}
    if k == 'u':
        return {'t': 0, 'b': unhx(t.next())}
    if k[0] == 'i':
        return {'t': int(k[1:]), 'b': unhx(t.next())}
    raise ValueError(k)


def read_datum(t):
    return {'n': unhx(t.next()), 'v': read_value(t)}


def read_request(t):
    i, n = unhx(t.next()), unhx(t.next())
    return {'id': i, 'n': n, 'a': [read_datum(t) for _ in range(int(t.next()))]}


READ = {'request': read_request, 'datum': read_datum, 'value': read_value}
CMD = {'request': 'D', 'datum': 'T', 'value': 'V'}


def execute(lines):
    """run the commands; returns a list of outputs, a crash is ('CRASH', report)"""
    exe = build('codec')
    n = len(lines)
    res = [None] * n
    # split over processes
    chunks = [(k, list(range(k, n, NPROC))) for k in range(NPROC)]
    procs = []

    def feed(idx):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=asan_env())
        return p
    from concurrent.futures import ThreadPoolExecutor

    def one(idx):
        while idx:
            p = feed(idx)
            try:
                out, err = p.communicate('\n'.join(lines[i] for i in idx).encode() + b'\n', timeout=300)
                hung = False
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                hung = True
            got = out.decode('latin1').split('\n')
            k = 0
            for l in got:
                if not l.startswith('@'):
                    continue
                num, _, rest = l.partition(' ')
                if not rest:
                    break
                res[idx[int(num[1:])]] = rest
                k = int(num[1:]) + 1
            if k >= len(idx):
                return
            res[idx[k]] = ('HANG' if hung else 'CRASH', err.decode('latin1')[-3000:])
            idx = idx[k + 1:]
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, [c for _, c in chunks]))
    return res


def le4(n):
    return list(struct.pack('<I', n & 0xffffffff))


# ---------------------------------------------------------------- random messages
def rand_bytes(r, n):
    return [r.choice([0, 1, 9, 10, 255, 97, r.randrange(256)]) for _ in range(n)]


def rand_value(r, depth=0):
    k = r.random()
    if k < 0.25 and depth < 5:
        return {'t': 10, 'e': [rand_value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3, 7]))]}
    if k < 0.45:
        return {'t': 9, 'b': rand_bytes(r, r.choice([0, 1, 2, 5, 30, 255, 256]))}
    if k < 0.6:
        return {'t': 0, 'b': rand_bytes(r, r.choice([0, 1, 2, 5, 30]))}
    t = r.randrange(1, 9)
    return {'t': t, 'b': r.choice([[0] * SIZES[t], [255] * SIZES[t], [0] * (SIZES[t] - 1) + [128], [255] * (SIZES[t] - 1) + [127],
                                   [r.randrange(256) for _ in range(SIZES[t])]])}


def rand_request(r):
    names, a = [], []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        n = r.choice([[], [97], [95], [97, 98], rand_bytes(r, r.choice([1, 3, 32, 33, 300]))])
        if n not in names:
            names.append(n)
            a.append({'n': n, 'v': rand_value(r)})
    return {'id': r.choice([[0] * 4, [255] * 4, [0, 0, 0, 128], [r.randrange(256) for _ in range(4)]]),
            'n': r.choice([[], [95], [97], rand_bytes(r, r.choice([2, 5, 255, 256, 257]))]), 'a': a}


def big_requests(r):
    out = [{'id': [1, 0, 0, 0], 'n': [r.randrange(256) for _ in range(n)], 'a': []} for n in (32767, 32768, 65535)]
    out.append({'id': [2, 0, 0, 0], 'n': [98], 'a': [{'n': [120] * 65535, 'v': {'t': 9, 'b': [i % 251 for i in range(70000)]}}]})
    out.append({'id': [3, 0, 0, 0], 'n': [99], 'a': [{'n': list(str(i).encode()), 'v': {'t': 4, 'b': le4(i)}} for i in range(300)]})
    v = {'t': 7, 'b': [5]}
    for _ in range(60):
        v = {'t': 10, 'e': [v]}
    out.append({'id': [4, 0, 0, 0], 'n': [100], 'a': [{'n': [118], 'v': v}, {'n': [119], 'v': {'t': 0, 'b': [1, 2, 3]}}]})
    out.append({'id': [5, 0, 0, 0], 'n': [101], 'a': [{'n': [118], 'v': {'t': 10, 'e': [{'t': 6, 'b': [i & 255, i >> 8]} for i in range(700)]}}]})
    # elements of 64 KiB and about
    for k, n in enumerate((65520, 65526, 65527, 65531, 65532, 65536)):
        v = {'t': r.choice([0, 9]), 'b': [(i * 7 + k) % 253 for i in range(n)]}
        out.append({'id': [6, k, 0, 0], 'n': [102], 'a': [{'n': [118], 'v': {'t': 10, 'e': [{'t': 7, 'b': [1]}, v, {'t': 10, 'e': [v, {'t': 8, 'b': [2]}]}]}}, {'n': [119], 'v': {'t': 4, 'b': le4(k)}}]})
    # more elements, and more arguments, than fit in 16 bits
    out.append({'id': [7, 0, 0, 0], 'n': [103], 'a': [{'n': [118], 'v': {'t': 10, 'e': [{'t': 8, 'b': [i & 255]} for i in range(65540)]}}]})
    # a large array, a large array within a small one
    w = {'t': 10, 'e': [{'t': 9, 'b': [97] * 500} for _ in range(140)]}
    out.append({'id': [8, 0, 0, 0], 'n': [104], 'a': [{'n': [118], 'v': w}, {'n': [119], 'v': {'t': 10, 'e': [w, w]}}]})
    return out


# an encoder for making inputs only (what is right is decided by the specification)
def py_enc_value(v):
    if v['t'] == 10:
        c = le4(len(v['e'])) + [x for e in v['e'] for x in py_enc_value(e)]
    elif v['t'] == 9:
        c = le4(len(v['b'])) + v['b']
    else:
        c = v['b']
    return [v['t']] + le4(len(c)) + c


def py_enc_datum(d):
    v = py_enc_value(d['v'])
    return le4(6 + len(d['n']) + len(v)) + list(struct.pack('<H', len(d['n']))) + d['n'] + v


def py_enc(r):
    a = sum((py_enc_datum(d) for d in r['a']), [])
    return le4(10 + len(r['n']) + len(a)) + r['id'] + list(struct.pack('<H', len(r['n']))) + r['n'] + a


def mutate(r, b):
    b = list(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        if not b:
            return b
        p = r.randrange(len(b))
        if k < 0.3:
            b[p] = r.choice([0, 1, 4, 5, 6, 9, 10, 11, 127, 128, 255, (b[p] + 1) % 256, (b[p] - 1) % 256])
        elif k < 0.55 and len(b) >= 4:
            p = r.randrange(len(b) - 3)
            rest = len(b) - p - 4
            b[p:p + 4] = le4(r.choice([0xffffffff, 0xfffffffb, 0xfffffffa, 0x80000000, 0x7fffffff, 0x7ffffffb, 0, 1, 3, 4, 5, rest, rest + 1, rest - 1, rest + 4, rest + 5,
                                       len(b) - p, len(b) - p + 1, len(b) - p - 1, r.randrange(300)]))
        elif k < 0.7:
            del b[p:p + r.choice([1, 1, 2, 5])]
        elif k < 0.8:
            b[p:p] = rand_bytes(r, r.choice([1, 2, 5]))
        elif k < 0.9:
            b = b[:p]
        else:
            q = r.randrange(len(b))
            b[p:p + 6] = b[q:q + 6]
        if k >= 0.55 and r.random() < 0.6 and len(b) >= 4:
            b[0:4] = le4(len(b))
    return b


def parse_dec(kind, o):
    """harness output of a decoding command -> (out record, reencoded bytes or None, size)"""
    t = Tok(o)
    if t.next() != 'used':
        return None
    u = int(t.next())
    if u == 0:
        return {'used': 0}, None, None
    t.next()
    v = READ[kind](t)
    t.next()
    return {'used': u, 'v': v}, t.next(), int(t.next())


def trace_check(recs, tag, run):
    """TLC compares the recorded executions with the specification; returns the 0-based indexes that differ"""
    if not recs:
        return []
    f = os.path.join(work(), tag + '.ndjson')
    with open(f, 'w') as fh:
        for x in recs:
            fh.write(json.dumps(x) + '\n')
    r = must(tlc('CodecTrace', 'SPECIFICATION Spec\nCONSTANT K = %d\nCHECK_DEADLOCK FALSE\n' % (4 * NPROC), env={'TRACE': f}), tag)
    run.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=len(recs))
    return sorted(x[0] - 1 for x in r.printed('BAD'))


def model(run, deep):
    r = must(tlc('MCCodec', 'SPECIFICATION Spec\nCONSTANTS Deep = %s\n Emit = TRUE\nINVARIANTS RoundTrip Bounded Stable PrefixClosed Vectors\nCHECK_DEADLOCK FALSE\n'
                 % str(deep).upper()), 'codec model')
    run.add(states=r.distinct, transitions=r.generated)
    return r.printed('VEC')


def bad_out(o):
    return o is None or isinstance(o, tuple) or o.split()[0] in ('REUSE', 'MODIFIED', 'TYPE')


def c01():
    run = Run('C01', 'model_checking')
    r = rng('c01')
    vec = [v for v in model(run, THOROUGH) if v[1] == ['as is']]
    # 1. replay the messages of the model
    lines, meta = [], []
    for kind, how, b, d in vec:
        lines.append('%s %s' % (CMD[kind], hx(b)))
        meta.append((kind, b, d, None))
        if kind == 'request' and len({tuple(x['n']) for x in d['v']['a']}) == len(d['v']['a']):
            lines.append('E ' + request_text(d['v']))
            meta.append((kind, b, d, 'E'))
    outs = execute(lines)
    for l, o, (kind, b, d, e) in zip(lines, outs, meta):
        if e:
            t = request_text(d['v'])
            want = 'E %s %d %d R %s R %s' % (hx(b), len(b), len(b), t, t)
        else:
            want = 'used %d R %s E %s %d' % (d['used'], TEXT[kind](d['v']), hx(b), len(b))
        if o != want:
            run.violation('message of the model: %s\n got: %s\nwant: %s' % (l, o, want), {'cmd': l, 'got': o, 'want': want})
    run.add(traces_validated_against_impl=len(lines))
    # 2. random requests, what the code did is checked by TLC
    reqs = [rand_request(r) for _ in range(6000 if THOROUGH else 700)] + big_requests(r)
    lines = ['E ' + request_text(x) for x in reqs]
    outs = execute(lines)
    recs, idx = [], []
    for x, l, o in zip(reqs, lines, outs):
        if bad_out(o) or not o.startswith('E '):
            run.violation('serializing and decoding a request: %s\n%s' % (l[:2000], o), {'cmd': l, 'got': o})
            continue
        t = Tok(o)
        t.next()
        enc, size, used = unhx(t.next()), int(t.next()), int(t.next())
        t.next()
        dec = read_request(t) if used else {}
        recs.append({'op': 'enc', 'msg': x, 'bytes': enc, 'size': size, 'used': used, 'dec': dec})
        idx.append(l)
    for i in trace_check(recs, 'enc', run):
        run.violation('a serialized request is not what the specification says: %s' % idx[i][:2000], {'cmd': idx[i], 'rec': recs[i]})
    run.add(samples=[{'built': lines[3], 'did': outs[3]}, {'built': lines[5][:300]}])
    run.assume = ['strings, names and raw values up to 70000 bytes', 'AddressSanitizer sees memory errors']
    return run.finish()


def deep_nesting(run):
    """arrays nested so deeply that the recursive decoder runs out of stack"""
    out = {}
    for depth in (1000, 1800):
        b = [7] + le4(1) + [1]
        v = bytes(b)
        for _ in range(depth):
            v = bytes([10]) + struct.pack('<I', len(v) + 4) + struct.pack('<I', 1) + v
        o = execute(['V ' + v.hex()])[0]
        if bad_out(o) or not o.startswith('used %d ' % len(v)):
            run.violation('array nested %d deep: %s' % (depth, str(o)[:500]), {'depth': depth}, key='nesting-%d' % depth)
    d = 400000
    # built from the inside without quadratic work: lengths only
    head = b''.join(bytes([10]) + struct.pack('<I', 6 + 9 * (d - 1 - i) + 4) + struct.pack('<I', 1) for i in range(d))
    v = head + bytes([7]) + struct.pack('<I', 1) + b'\x01'
    o = execute(['V ' + v.hex()])[0]
    if isinstance(o, tuple) and 'stack-overflow' in o[1]:
        run.violation('decoding arrays nested %d deep overflows the stack' % d, {'depth': d}, key='deep-array-nesting-stack-overflow')
    elif bad_out(o):
        run.violation('array nested %d deep: %s' % (d, str(o)[:500]), {'depth': d})


def c02():
    run = Run('C02', 'model_checking')
    r = rng('c02')
    vec = model(run, THOROUGH)
    lines = ['%s %s' % (CMD[v[0]], hx(v[2])) for v in vec]
    outs = execute(lines)
    for v, l, o in zip(vec, lines, outs):
        kind, how, b, d = v
        want = 'used 0' if d['used'] == 0 else 'used %d R %s' % (d['used'], TEXT[kind](d['v']))
        if bad_out(o) or o.split(' E ')[0] != want:
            run.violation('message of the model %s: %s\n got: %s\nwant: %s' % (how, l, o if not isinstance(o, tuple) else '\n'.join(o), want), {'cmd': l, 'got': o, 'want': want, 'how': how})
    run.add(traces_validated_against_impl=len(lines))
    # random damage, decided by TLC from the recorded results
    ins = []
    for _ in range(40000 if THOROUGH else 5000):
        x = rand_request(r)
        while len(json.dumps(x)) > 1500:
            x = rand_request(r)
        k = r.random()
        if k < 0.6 or not x['a']:
            ins.append(('request', mutate(r, py_enc(x))))
        elif k < 0.75:
            ins.append(('datum', mutate(r, py_enc_datum(x['a'][0]))))
        elif k < 0.95:
            ins.append(('value', mutate(r, py_enc_value(x['a'][0]['v']))))
        else:
            ins.append((r.choice(['request', 'datum', 'value']), rand_bytes(r, r.randrange(40))))
    # hostile numbers at every length field of one message
    for kind, base in (('request', py_enc({'id': [1, 2, 3, 4], 'n': [97, 98], 'a': [{'n': [99], 'v': {'t': 10, 'e': [{'t': 9, 'b': [65, 66]}, {'t': 0, 'b': [1]}]}}]})),):
        for p in range(len(base) - 3):
            for n in (0xffffffff, 0xfffffffa, 0xfffffffb, 0xfffffffc, 0x80000000, 0x7fffffff, 0x10000, 0, 4, 5, 6):
                ins.append((kind, base[:p] + le4(n) + base[p + 4:]))
                ins.append(('value', base[19:][:max(0, p - 19)] + le4(n) + base[max(p, 19) + 4:]))
    lines = ['%s %s' % (CMD[k], hx(b)) for k, b in ins]
    outs = execute(lines)
    recs, idx, acc = [], [], 0
    for (kind, b), l, o in zip(ins, lines, outs):
        p = None if bad_out(o) else parse_dec(kind, o)
        if p is None:
            run.violation('decoding: %s\n%s' % (l[:1500], o if not isinstance(o, tuple) else '\n'.join(o)), {'cmd': l, 'got': o})
            continue
        acc += p[0]['used'] > 0
        recs.append({'op': 'dec', 'kind': kind, 'in': b, 'out': p[0]})
        idx.append((l, o))
    for i in trace_check(recs, 'dec', run):
        run.violation('decoding is not what the specification says: %s\n%s' % (idx[i][0][:1500], idx[i][1][:1500]), {'cmd': idx[i][0], 'got': idx[i][1]})
    run.add(accepted=acc, rejected=len(recs) - acc)
    deep_nesting(run)
    run.add(samples=[{'in': idx[k][0][:300], 'did': idx[k][1][:300]} for k in (1, 7)])
    run.assume = ['AddressSanitizer sees every access outside the buffer, which is allocated with exactly its size']
    return run.finish()
