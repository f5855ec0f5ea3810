"""Model checking of two joined ends (spec/MCPair.tla): what each end guarantees is enough for what both promise."""
from .common import *

INV = 'Delivered Conserved Ids NothingLost AllArrived Reason NobodyWaits'
IDLE = dict(Sa1=20000, Sa2=20000, Na1=90000, Na2=90000, MaxT=0)


def c(ops1, ops2, n, cap, handled=(), slow=True, inv=INV, **t):
    return dict(dict(IDLE, Ops1=ops1.split(), Ops2=ops2.split(), MaxOps=n, Cap=cap, Handled=list(handled), Slow=slow, inv=inv), **t)


CONFIGS = {
    # pushes and graceful disconnects from both sides, a handler at one end
    'both': c('push disc', 'push disc', 2, 2, [2]),
    # a forced end against waiters
    'kill': c('push kill wait', 'push pull', 2, 1),
    # keep-alives: nobody disconnects, nobody times out
    'idle': c('push', '', 1, 2, [2], False, INV + ' StaysUp', Sa1=2000, Sa2=2000, Na1=5000, Na2=5000, MaxT=14000),
    # silence limits as short as the keep-alive interval
    'tight': c('push disc', '', 3, 2, Sa1=2000, Sa2=2000, Na1=2000, Na2=3000, MaxT=5000),
    # handlers at both ends, a waiting disconnect
    'cross': c('push discw', 'push', 3, 1, [1, 2]),
    # everything at once, two calls
    'all': c('push poll disc kill wait', 'push pull discw', 2, 1, [1]),
    'longidle': c('push', 'push', 2, 2, [2], False, INV + ' StaysUp', Sa1=2000, Sa2=3000, Na1=4000, Na2=5000, MaxT=20000),
    'live': c('push disc', 'push', 1, 1, [2], live='Ends Returns Arrives'),
    'livekill': c('push kill wait', 'pull', 2, 1, live='Ends Returns'),
    'liveboth': c('push disc', 'push disc', 2, 1, [1, 2], live='Ends Returns Arrives'),
}
QUICK = {'C04': ['both', 'live'], 'C05': ['both', 'live'], 'C07': ['both'], 'C08': ['both'], 'C09': ['kill'], 'C10': ['both', 'live'], 'C11': ['kill', 'livekill'], 'C12': ['kill', 'livekill'],
         'C13': ['idle'], 'C14': ['idle'], 'C21': ['kill', 'livekill']}
DEEP = {'C04': ['both', 'kill', 'cross', 'liveboth'], 'C05': ['both', 'kill', 'cross', 'liveboth'], 'C07': ['both', 'cross'], 'C08': ['both', 'all', 'cross', 'live'],
        'C09': ['kill', 'all', 'livekill'], 'C10': ['both', 'tight', 'cross', 'all', 'liveboth'], 'C11': ['kill', 'all', 'livekill'], 'C12': ['kill', 'all', 'tight', 'livekill'],
        'C13': ['idle', 'longidle', 'tight'], 'C14': ['idle', 'longidle', 'tight'], 'C21': ['kill', 'both', 'cross', 'all', 'livekill', 'liveboth']}


def fmt(v):
    return 'TRUE' if v is True else 'FALSE' if v is False else '{%s}' % ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v) if isinstance(v, list) else str(v)


def check_pair(prop, run):
    for name in (DEEP if THOROUGH else QUICK).get(prop, []):
        k = dict(CONFIGS[name])
        inv, live = k.pop('inv'), k.pop('live', '')
        cfg = 'SPECIFICATION %sSpec\nCONSTANTS Step1 = 1000\n' % ('Fair' if live else '') + ''.join(' %s = %s\n' % (a, fmt(v)) for a, v in k.items()) + 'INVARIANTS %s\n' % inv + ('PROPERTIES %s\n' % live if live else '')
        r = must(tlc('MCPair', cfg), 'MCPair/' + name)
        run.add(states=r.distinct, transitions=r.generated, pair_model_states=r.distinct)
        run.cov['pair_models'] = (run.cov.get('pair_models', '') + ' %s:%d' % (name, r.distinct)).strip()
