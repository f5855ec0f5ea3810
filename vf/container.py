"""C03: the container specification against the real classes."""
from .codec import *


def op_text(op):
    o = op['o']
    w = [o, str(op['k'])]
    if o in ('set', 'setref', 'steal', 'emplace', 'mut'):
        w += [hx(op['n']), value_text(op['v'])]
    elif o in ('apush',):
        w += [value_text(op['v'])]
    elif o in ('aset', 'amut'):
        w += [str(op['i']), value_text(op['v'])]
    elif o in ('name', 'del', 'get', 'self'):
        w += [hx(op['n'])]
    elif o == 'id':
        w += [hx(op['b'])]
    elif o == 'setarr':
        w += [hx(op['n']), str(op['j'])]
    elif o == 'gett':
        w += [hx(op['n']), str(op['t'])]
    elif o == 'inner':
        w += [hx(op['n']), str(op['i'])]
    elif o in ('copy', 'apusha', 'acopy'):
        w += [str(op['j'])]
    elif o in ('aseta', 'asetown', 'avcopy'):
        w += [str(op['i']), str(op['j'])]
    elif o in ('asetnull', 'ainner', 'aget', 'aup', 'adown'):
        w += [str(op['i'])]
    elif o == 'dec':
        w += [hx(op['d'])]
    elif o == 'anew':
        w += [str(op['c'])]
    return 'o ' + ' '.join(w)


def arr_text(s):
    return value_text({'t': 10, 'e': s})


def state_text(st):
    return ' | '.join([request_text(st['r'][0]), request_text(st['r'][1]), arr_text(st['a'][0]), arr_text(st['a'][1])])


def ret_text(r):
    return 'val ' + value_text(r[1]) if r[0] == 'val' else str(r[1]).lower() if r[0] == 'bool' else r[0]


def parse_step(op, out):
    f = out.split(' | ')
    if len(f) != 5:
        return None
    ret = ['none'] if f[0] == 'none' else ['null'] if f[0] == 'null' else ['bool', f[0] == 'true'] if f[0] in ('true', 'false') else None
    if f[0].startswith('val '):
        ret = ['val', read_value(Tok(f[0][4:]))]
    if ret is None:
        return None
    return {'op': op, 'ret': ret, 'st': {'r': [read_request(Tok(f[1])), read_request(Tok(f[2]))],
                                         'a': [read_value(Tok(f[3]))['e'], read_value(Tok(f[4]))['e']]}}


def rand_op(r):
    small = lambda: rand_value(r, 3) if r.random() < 0.6 else {'t': 10, 'e': [rand_value(r, 4) for _ in range(r.randrange(3))]}
    n = lambda: r.choice([[97], [98], [99], [], [97, 98], [100] * 20, [0], [97, 0]])
    k, j = r.choice([1, 2]), r.choice([1, 2])
    i = r.choice([0, 0, 1, 1, 2, 3, 5])
    o = r.choice(['set'] * 5 + ['setref', 'steal', 'emplace', 'setarr', 'del', 'del', 'get', 'gett', 'self', 'inner', 'mut', 'mut', 'copy', 'copy', 'name', 'id', 'newr', 'dec'] +
                 ['apush'] * 4 + ['apusha', 'aset', 'aset', 'aseta', 'asetnull', 'asetown', 'ainner', 'aget', 'anew', 'aclear', 'acopy', 'acopy', 'aup', 'adown', 'amut', 'amut', 'avcopy'])
    op = {'o': o, 'k': k}
    if o in ('set', 'setref', 'steal', 'emplace', 'mut'):
        op.update(n=n(), v=small())
    elif o == 'apush':
        op.update(v=small())
    elif o in ('aset', 'amut'):
        op.update(i=i, v=small())
    elif o in ('name', 'del', 'get', 'self'):
        op.update(n=n())
    elif o == 'id':
        op.update(b=[r.randrange(256) for _ in range(4)])
    elif o == 'setarr':
        op.update(n=n(), j=j)
    elif o == 'gett':
        op.update(n=n(), t=r.randrange(11))
    elif o == 'inner':
        op.update(n=n(), i=i)
    elif o in ('copy', 'apusha', 'acopy'):
        op.update(j=j)
    elif o in ('aseta', 'asetown', 'avcopy'):
        op.update(i=i, j=j if o == 'aseta' else r.choice([0, 1, 2, 3]))
    elif o in ('asetnull', 'ainner', 'aget', 'aup', 'adown'):
        op.update(i=i)
    elif o == 'dec':
        x = rand_request(r)
        while len(py_enc(x)) > 400:
            x = rand_request(r)
        b = py_enc(x)
        op.update(d=mutate(r, b) if r.random() < 0.4 else b)
    elif o == 'anew':
        op.update(c=r.choice([0, 1, 3]))
    return op


def jsize(o):
    return len(o)


def session(exe_lines):
    return exe_lines


def run_sessions(sessions):
    """execute whole sessions (lists of operations); a session is one unit of work"""
    exe = build('codec')
    from concurrent.futures import ThreadPoolExecutor
    res = [None] * len(sessions)

    def one(idx):
        while idx:
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=asan_env())
            text = ''.join('O\n' + ''.join(op_text(o) + '\n' for o in sessions[s]) for s in idx)
            try:
                out, err = p.communicate(text.encode(), timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                err = b'HANG ' + err
            got = [l.partition(' ')[2] for l in out.decode('latin1').split('\n') if l.startswith('@')]
            k = 0
            while idx:
                s = idx[0]
                part = got[k + 1:k + 1 + len(sessions[s])]
                k += 1 + len(sessions[s])
                if len(part) < len(sessions[s]) or part and not part[-1]:
                    res[s] = [x for x in part if x] + [('CRASH', err.decode('latin1')[-3000:])]
                    idx = idx[1:]
                    break
                res[s] = part
                idx = idx[1:]
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, [list(range(k, len(sessions), NPROC)) for k in range(NPROC)]))
    return res


def c03():
    run = Run('C03', 'model_checking')
    r = rng('c03')
    m = must(tlc('MCRequestObj', 'SPECIFICATION Spec\nCONSTANTS Depth = %d\n Rich = %s\nINVARIANTS NoDup Emit\nPROPERTIES Independent OrderKept\nCHECK_DEADLOCK FALSE\n'
                 % (3, 'TRUE' if THOROUGH else 'FALSE')), 'container model')
    run.add(states=m.distinct, transitions=m.generated)
    seqs = m.printed('SEQ')
    if not THOROUGH:
        r.shuffle(seqs)
        seqs = seqs[:20000]
    outs = run_sessions([[s[0] for s in q] for q in seqs])
    for q, o in zip(seqs, outs):
        for n, s in enumerate(q):
            got = o[n] if n < len(o) else None
            want = ret_text(s[1]) + ((' | ' + state_text(s[2])) if len(s) > 2 else '')
            if got is None or isinstance(got, tuple) or (got != want if len(s) > 2 else got.split(' | ')[0] != want):
                run.violation('container operations: %s\n got: %s\nwant: %s' % ('; '.join(op_text(x[0]) for x in q[:n + 1]), got, want),
                              {'ops': [op_text(x[0]) for x in q[:n + 1]], 'got': got, 'want': want})
                break
    run.add(traces_validated_against_impl=len(seqs))
    # long random sequences, decided by TLC
    sess = [[rand_op(r) for _ in range(r.choice([8, 15, 25]))] for _ in range(4000 if THOROUGH else 500)]
    outs = run_sessions(sess)
    f = os.path.join(work(), 'container.ndjson')
    n, keep = 0, []
    with open(f, 'w') as fh:
        for q, o in zip(sess, outs):
            rec = []
            for op, x in zip(q, o):
                st = None if isinstance(x, tuple) else parse_step(op, x)
                if st is None:
                    run.violation('container operations: %s\n%s' % ('; '.join(op_text(y) for y in q[:len(rec) + 1])[-1500:], x if not isinstance(x, tuple) else '\n'.join(x)),
                                  {'ops': [op_text(y) for y in q[:len(rec) + 1]], 'got': x})
                    break
                if len(x) > 6000:       # growing without bound (arrays put into themselves): stop here
                    break
                rec.append(st)
            fh.write(json.dumps(rec) + '\n')
            keep.append(rec)
            n += len(rec)
    t = must(tlc('ContainerTrace', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'TRACE': f}), 'container traces')
    run.add(states=t.distinct, transitions=t.generated, traces_validated_against_impl=len(sess), operations=n)
    for a, b in sorted(t.printed('BAD'))[:20]:
        rec = keep[a - 1]
        run.violation('container operations are not what the specification says: %s\n got: %s | %s' % (
            '; '.join(op_text(x['op']) for x in rec[:b])[-1500:], ret_text(rec[b - 1]['ret']), state_text(rec[b - 1]['st'])),
            {'ops': [op_text(x['op']) for x in rec[:b]], 'got': rec[b - 1]})
    run.add(samples=[{'ops': [op_text(x['op']) for x in keep[0][:6]]}])
    run.assume = ['one thread at a time uses a request or an array (the classes are not synchronized)']
    return run.finish()
