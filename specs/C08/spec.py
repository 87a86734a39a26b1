FILL = 'Downsampler14fill_if_needed'
IT = ['ts', 'interval', '__begin1|__begin2|__begin3', '__end1|__end2|__end3']
EMPLACE = '_ZNSt6vectorISt4pairImdESaIS1_EE12emplace_backI'
STEP = {'nomerge': ['.*'], 'div': 'uf', 'replace': {'Downsampler7fill_to': 'ds_fill_to'}}
SPEC = {
    'property': 'C08',
    'lemmas': ['lemma.smt2', 'lemma2.smt2'],
    'groups': [{'file': 'h.cpp', 'sources': ['src/agg/down.cpp', 'src/utils/utils.cpp'], 'spec': STEP}],
    'harnesses': {
        'count': {}, 'first': {}, 'last': {}, 'max': {}, 'min': {}, 'sum': {}, 'avg': {}, 'dev': {},
        'count_rollup': {}, 'max_rollup': {}, 'min_rollup': {}, 'sum_rollup': {}, 'avg_rollup': {},
        'gap': {'spec': {'replace': {EMPLACE: 'ds_gap_emplace'},
                         'loops': [{'fn': 'Downsampler7fill_to', 'nth': 0, 'inv': ['gap_inv'], 'args': ['tstamp', 'to']}]}},
        'fill': {'spec': {'replace': {EMPLACE: 'ds_fill_emplace', '_ZNSt6vectorISt4pairImdESaIS1_EE4swapE': 'ds_swap'},
                          'loops': [
            {'fn': FILL, 'nth': 0, 'inv': ['fill_sync', 'fill_place'], 'fix': 'fill_ordered', 'args': IT},
            {'fn': FILL, 'nth': 1, 'inv': ['fill_sync', 'fill_ahead'], 'fix': 'fill_lemma', 'args': IT},
            {'fn': FILL, 'nth': 2, 'inv': ['fill_sync', 'fill_rest'], 'args': IT}]}},
        'intervals': {},
        'setup': {'spec': {'fp': 'whole', 'replace': {'^atoll$': 'ds_atoll'}}},
    },
}
