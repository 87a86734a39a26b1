SPEC = {
    'property': 'C02',
    'groups': [{'file': 'h.cpp', 'sources': ['src/utils/bitset.cpp', 'src/core/compress.cpp'],
                'spec': {'nomerge': ['.*'], 'opaque': ['_ZN2tt6Logger']}}],
    'harnesses': {
        'i4': {'shards': 8}, 'i4_truncated': {'shards': 8},
        'i4a': {'shards': 8}, 'i4a_truncated': {'shards': 8},
        'pair': {'shards': 8},
    },
}
