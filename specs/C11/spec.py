LIBC = {'^gmtime_r$': 'stub_gmtime_r', '^timegm$': 'stub_timegm'}
SPEC = {
    'property': 'C11',
    'groups': [{'file': 'h.cpp', 'sources': ['src/utils/range.cpp', 'src/utils/cal.cpp', 'src/utils/utils.cpp'],
                'spec': {'nomerge': ['.*'], 'replace': LIBC, 'ctors': ['_GLOBAL__sub_I_range'],
                         'loops': [{'fn': 'Calendar13binary_search', 'nth': 0, 'inv': 'month_inv', 'var': 'month_var',
                                    'args': ['left', 'right']}]}}],
    'harnesses': {'merge': {}, 'intersect': {}, 'add_time': {}, 'tests': {}, 'search': {}, 'search_empty': {},
                  'lookups': {'spec': {'replace': dict(LIBC, **{'Calendar13binary_search': 'stub_search'})}},
                  'fill': {'spec': {'loops': []}, 'shards': 8,
                           'bounded': 'month tables that begin in 2023 or 2024 and hold at most 3 months before the call, calendar of those years'}},
}
