SPEC = {
    'property': 'C01',
    'groups': [{'file': 'h.cpp', 'sources': ['src/utils/bitset.cpp'],
                'spec': {'nomerge': ['BitSet6append', 'BitSet8retrieve']}}],
    'harnesses': {
        'append': {'shards': 8, 'depth': 2, 'cost': 5},
        'retrieve': {'shards': 8, 'depth': 2, 'cost': 5},
        'rollback': {}, 'init': {}, 'copy': {}, 'set_test': {},
    },
}
