ADD = 'RollupManager14add_data_pointE'
MONTHS = {'Calendar14begin_month_of': 'ru_begin', 'Calendar12end_month_of': 'ru_end'}
MAP = '^_ZNSt13unordered_mapIjPN2tt9QueryTaskESt4hashIjESt8equal_toIjESaISt4pairIKjS2_EEE'
SET = '^_ZN(K?)St13unordered_setIjSt4hashIjESt8equal_toIjESaIjEE'
SCAN = 'RollupDataFile29query_level1_compressor_v1_v2'
SPEC = {
    'property': 'C12',
    'lemmas': ['lemma.smt2'],
    'groups': [{'file': 'h.cpp', 'sources': ['src/agg/rollup.cpp', 'src/core/mmap.cpp', 'src/utils/utils.cpp', 'src/global.cpp'],
                'spec': {'nomerge': ['.*'], 'ctors': []}}],
    'harnesses': {
        'step': {'spec': {'div': 'uf', 'replace': dict(MONTHS, **{'RollupManager5flushE': 'ru_flush', '^_ZN2tt6to_secEm$': 'ru_sec', 'Tsdb17set_out_of_order2': 'ru_ooo'}),
                          'loops': [{'fn': ADD, 'nth': 0, 'inv': ['step_empty', 'step_here'], 'var': 'step_var', 'args': ['end', 'tstamp1', 'interval']},
                                    {'fn': ADD, 'nth': 1, 'inv': ['step_empty', 'step_next'], 'var': 'step_var', 'args': ['end', 'tstamp1', 'interval']}]}},
        'record': {'spec': {'replace': dict(MONTHS, **{'RollupManager23get_or_create_data_fileEjm$': 'ru_file', 'RollupDataFile13dec_ref_count': 'ru_dec',
                                                       'RollupDataFile14add_data_pointEjjddd': 'ru_record'})}},
        'stat': {},
        'keep': {'spec': {'replace': {'^fwrite$': 'ru_fwrite', 'RollupDataFile14add_data_pointEjmjddd': 'ru_wal'}}},
        'entry': {'spec': {'replace': {MAP + '4findE': 'ru_find', MAP + '3endE': 'ru_find_end', 'QueryTask14add_data_pointEP': 'ru_found'}}},
        'scan': {'spec': {'replace': {'RollupDataFile11first_entry': 'rs_first', 'RollupDataFile10next_entry': 'rs_next', 'RollupDataFile11query_entry': 'rs_query',
                                      'RollupCompressor_v110uncompressE': 'rs_unpack', 'RollupCompressor_v111uncompress2E': 'rs_unpack',
                                      SET + '4findE': 'rs_find', SET + '3endE': 'rs_none', SET + '6insertE': 'rs_insert', SET + '4sizeE': 'rs_done',
                                      SET + '[CD]2E': 'rs_set', MAP.replace('_ZN', '_ZNK') + '4sizeE': 'rs_tasks'},
                          'loops': [{'fn': SCAN, 'nth': 0, 'inv': ['scan_file'], 'fix': 'scan_at', 'args': ['entry']},
                                    {'fn': SCAN, 'nth': 1, 'inv': ['scan_buff'], 'args': ['i']}]}},
        'file': {'spec': {'replace': {'RollupCompressor_v18compressE': 'ru_compress', 'RollupCompressor_v19compress2E': 'ru_compress2',
                                      'RollupDataFile5writeE': 'ru_write'}}},
        'buffer': {'spec': {'replace': {'RollupDataFile11ensure_open': 'ru_open', '^fwrite$': 'ru_fwrite_buff', '^fflush$': 'ru_fflush'}}},
    },
}
