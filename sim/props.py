"""Which simulated executions decide which property.

cells: variant -> (workers, families); oracles: the verdicts that count as a
violation of the property, next to the abnormal endings."""
ABNORMAL = ['crash', 'deadlock', 'liveness', 'hang']
DATA = ['loss', 'dup', 'invented', 'gap', 'ret', 'agree', 'content']

PROPS = {
    'C01': dict(cells={'small': (3, ['conc', 'churn', 'live', 'micro', 'reg', 'append']), 'tiny': (3, ['conc', 'live', 'churn', 'micro']),
                       'mid': (1, ['conc', 'live', 'reg']), 'default': (1, ['conc', 'churn'])},
                oracles=DATA + ['durable', 'file']),
    'C02': dict(cells={'small': (3, ['conc', 'live', 'decoder']), 'tiny': (1, ['live', 'conc']), 'mid': (1, ['conc', 'live']), 'default': (1, ['conc', 'live']),
                       'pre': (2, ['conc', 'live'])},
                oracles=['content', 'invented', 'args', 'agree', 'ret']),
    'C03': dict(cells={'small': (4, ['conc', 'churn', 'append', 'live']), 'tiny': (3, ['conc', 'churn', 'live']), 'pre': (1, ['conc', 'churn'])},
                oracles=['order', 'thrid', 'gap', 'sections', 'dup']),
    'C04': dict(cells={'small': (4, ['conc', 'live', 'churn', 'crash']), 'tiny': (3, ['conc', 'live', 'churn']), 'pre': (1, ['conc', 'live'])},
                oracles=['sortorder', 'agree', 'ret', 'order', 'sections']),
    'C05': dict(cells={'small': (3, ['crash', 'micro', 'live', 'micro', 'churn', 'micro', 'conc']), 'tiny': (3, ['crash', 'micro', 'churn', 'micro', 'live', 'micro']), 'default': (1, ['crash', 'micro', 'churn']),
                       'odirect': (1, ['crash'])},
                oracles=['durable', 'loss']),
    'C06': dict(cells={'small': (3, ['crash', 'live', 'micro', 'churn']), 'tiny': (3, ['crash', 'live', 'micro']), 'mid': (1, ['crash', 'reg', 'live']), 'default': (1, ['crash'])},
                oracles=DATA + ['order', 'sortorder', 'sections', 'durable']),
    'C07': dict(cells={'small': (4, ['append', 'crash', 'append']), 'tiny': (2, ['append', 'crash']), 'odirect': (1, ['append']), 'pre': (1, ['append'])},
                oracles=DATA + ['sections', 'order', 'sortorder', 'ts', 'durable']),
    'C08': dict(cells={'small': (5, ['switch']), 'tiny': (2, ['switch']), 'pre': (1, ['switch'])},
                oracles=DATA + ['file', 'setfile', 'durable', 'order', 'sections']),
    'C09': dict(cells={'small': (3, ['live', 'churn', 'micro', 'conc']), 'tiny': (4, ['live', 'churn', 'micro', 'conc']), 'default': (1, ['live'])},
                oracles=['loss', 'dup', 'content', 'invented']),
    'C10': dict(cells={'small': (3, ['iofault']), 'tiny': (2, ['iofault']), 'odirect': (2, ['iofault', 'live']), 'pre': (1, ['iofault'])},
                oracles=DATA + ['durable', 'order', 'sortorder']),
    'C11': dict(cells={'small': (4, ['ioerr']), 'tiny': (3, ['ioerr']), 'odirect': (1, ['ioerr'])},
                oracles=['silent']),
    'C12': dict(cells={'small': (5, ['alloc']), 'tiny': (3, ['alloc'])},
                oracles=DATA + ['durable', 'order']),
    'C13': dict(cells={'small': (3, ['reg']), 'tiny': (2, ['reg']), 'mid': (2, ['reg']), 'pre': (1, ['reg'])},
                oracles=DATA + ['durable', 'file']),
    'C14': dict(cells={'small': (5, ['level']), 'tiny': (2, ['level']), 'pre': (1, ['level'])},
                oracles=['level', 'loss', 'invented']),
    'C15': dict(cells={'small': (5, ['skew', 'conc', 'append', 'live']), 'tiny': (2, ['skew', 'conc']), 'pre': (1, ['conc'])},
                oracles=['ts']),
    'C16': dict(cells={'small': (4, ['stats']), 'tiny': (3, ['stats']), 'odirect': (1, ['stats'])},
                oracles=['stats']),
    'C17': dict(cells={'small': (4, ['decoder', 'conc']), 'tiny': (2, ['decoder']), 'mid': (1, ['decoder']), 'default': (1, ['decoder'])},
                oracles=['agree', 'args', 'ret', 'content', 'sections', 'reuse']),
    'C18': dict(cells={'small': (5, ['decoder']), 'tiny': (3, ['decoder'])},
                oracles=['reuse', 'agree', 'ret', 'loss', 'dup', 'invented', 'content', 'args', 'order']),
    'C19': dict(cells={'pre': (8, ['conc', 'live', 'micro', 'crash', 'append', 'reg', 'churn', 'level', 'switch'])}, also=['preprocessor'],
                oracles=DATA + ['level', 'order', 'sortorder', 'durable', 'sections', 'args', 'ts', 'thrid', 'file', 'setfile']),
    'C21': dict(cells={'small': (8, ['ttrace'])}, oracles=['trace']),
    'C20': dict(cells={'small': (3, ['churn']), 'tiny': (3, ['churn']), 'default': (1, ['churn']), 'pre': (1, ['churn'])},
                oracles=['leak', 'loss', 'dup', 'invented', 'content', 'order', 'gap']),
}
