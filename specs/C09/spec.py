MERGE = 'Aggregator5mergeE'
IT = ['vla', 'ts', '__begin1', '__end1']
SPEC = {
    'property': 'C09',
    'groups': [{'file': 'h.cpp', 'sources': ['src/agg/aggregate.cpp', 'src/utils/infnan.cpp'], 'spec': {'nomerge': ['.*'], 'ctors': []}}],
    'harnesses': {
        'merge': {'spec': {'feas_timeout': 300, 'replace': {'^_ZNKSt17reference_wrapperISt6vectorISt4pairImdESaIS2_EEEcvRS4_Ev$': 'ag_series'}, 'loops': [
            {'fn': MERGE, 'nth': 0, 'inv': ['ag_zero'], 'var': 'ag_zero_var', 'args': ['vla', 'i']},
            {'fn': MERGE, 'nth': 1, 'inv': ['ag_first'], 'var': 'ag_first_var', 'ghost': 'ag_first_ghost', 'fix': 'ag_first_fix', 'args': IT},
            {'fn': MERGE, 'nth': 2, 'inv': ['ag_time_point', 'ag_time_next'], 'var': 'ag_time_var', 'ghost': 'ag_time_ghost', 'fix': 'ag_time_fix', 'args': ['vla', 'ts']},
            {'fn': MERGE, 'nth': 3, 'inv': ['ag_pass_' + x for x in ('range', 'times', 'place', 'kept', 'before', 'after', 'out', 'data', 'next')], 'var': 'ag_pass_var', 'ghost': 'ag_pass_ghost',
             'fix': 'ag_pass_fix', 'args': ['vla', 'ts', 'next_ts', '~i']}]}},
        'none': {}, 'avg': {}, 'count': {}, 'max': {}, 'min': {}, 'sum': {}, 'dev': {},
        'create': {'spec': {'replace': {'MemoryManager16alloc_recyclable': 'ag_alloc'}}},
        'dev_out': {'spec': {'replace': {'AggregatorDev6stddev': 'dev_stub'}}},
        'stddev': {'spec': {'loops': [{'fn': 'AggregatorDev6stddev', 'nth': 0, 'inv': ['dev_inv'], 'var': 'dev_var', 'ghost': 'dev_ghost', 'args': ['n', 'old_mean', 'm2']}]}},
    },
}
