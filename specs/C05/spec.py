SPEC = {
    'property': 'C05',
    'groups': [{'file': 'h.cpp', 'sources': ['src/core/compress.cpp'],
                'spec': {'nomerge': ['.*'], 'opaque': ['_ZN2tt6Logger']}}],
    'harnesses': {
        'v1': {'cost': 2}, 'v2': {'cost': 2}, 'v3': {'cost': 2},
        'v1_truncated': {'shards': 4}, 'v2_truncated': {'shards': 4}, 'v3_truncated': {'shards': 4},
        'v1_any': {}, 'v2_any': {}, 'v3_any': {},
    },
}
