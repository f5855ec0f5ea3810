"""Which scenario families decide which property, and with which weight."""
ALL = ['C%02d' % i for i in range(4, 24)]
# family -> weight; a trailing ! runs the family with injected interrupts and partial I/O
PLANS = {
    'C04': {'recv': 5, 'mixed': 1, 'two': 1, 'client': 1, 'recv!': 1, 'dying': 1, 'mass': 0.25},
    'C05': {'send': 5, 'mixed': 1, 'cross': 1, 'two': 2, 'send!': 1, 'mass': 0.3, 'storm': 0.8},
    'C06': {'recv': 5, 'client': 1, 'recv!': 1, 'timers': 1},
    'C07': {'send': 4, 'two': 3, 'client': 2, 'mixed': 1, 'mass': 0.15, 'storm': 1},
    'C08': {'recv': 4, 'mixed': 3, 'cross': 2, 'two': 1, 'mass': 0.2, 'storm': 2},
    'C09': {'recv': 3, 'mixed': 2, 'dying': 2, 'client': 1, 'timers': 1, 'mass': 0.25, 'storm': 0.8, 'again': 1},
    'C10': {'srv': 1, 'dying': 4, 'send': 2, 'two': 3, 'timers': 1, 'mass': 0.2, 'again': 0.5},
    'C11': {'dying': 5, 'mixed': 2, 'cross': 2, 'send': 1, 'storm': 0.8, 'again': 1.2},
    'C12': {'srv': 1, 'race': 1, 'dying': 4, 'mixed': 2, 'client': 2, 'recv': 1, 'timers': 1, 'storm': 0.6, 'again': 1},
    'C13': {'timers': 6, 'two': 2, 'mixed': 1, 'storm': 0.3},
    'C14': {'timers': 6, 'dying': 1, 'mixed': 1, 'client': 1},
    'C15': {'client': 6, 'two': 2, 'race': 1, 'storm': 0.8, 'again': 1},
    'C16': {'client': 5, 'race': 3, 'two': 1, 'storm': 0.5, 'again': 0.5},
    'C17': {'srv': 2, 'crowd': 3, 'srv!': 1, 'mass': 0.2},
    'C18': {'srv': 3, 'crowd': 2, 'crowd!': 1, 'mass': 0.2, 'storm': 0.6},
    'C19': {'srv': 5, 'mixed': 1, 'dying': 1, 'mass': 0.35, 'storm': 1.2},
    'C20': {'srv': 5, 'crowd': 1, 'srv!': 1, 'mass': 0.2, 'storm': 0.6},
    'C21': {'srv': 2, 'race': 1, 'cross': 4, 'mixed': 2, 'dying': 2, 'send': 1, 'two': 1, 'storm': 0.8, 'again': 0.5},
    'C22': {'dying': 2, 'client': 3, 'race': 1, 'two': 1, 'mixed': 1, 'cross': 1, 'recv': 1, 'send': 1, 'srv': 3, 'scarce': 1, 'mass': 0.2, 'storm': 1, 'again': 0.6},
    'C23': {'recv!': 2, 'send!': 2, 'mixed!': 2, 'timers!': 1, 'dying!': 2, 'cross!': 1, 'two!': 2, 'client!': 2, 'race!': 1, 'srv!': 2},
    'C24': {'resp': 4, 'send': 1},
    'C25': {'scarce': 4, 'scarce!': 2},
}
# labels enforced when a property is judged
LABELS = {'C23': ALL, 'C25': ALL + ['C24', 'C25']}
QUICK, DEEP = 1500, 40000

# enumerated stimulus sequences (enumr.py): {property: (models, number quick)}; all of them (one more stimulus) in the thorough tier
ENUM = dict({p: (['end'], 1200) for p in 'C04 C05 C06 C07 C08 C09 C10 C11 C13 C14 C15 C16 C24'.split()},
            **{p: (['end', 'server'], 800) for p in 'C12 C21 C22 C23'.split()},
            **{p: (['server'], 1200) for p in 'C17 C18 C20'.split()}, C19=(['server', 'end'], 800))
