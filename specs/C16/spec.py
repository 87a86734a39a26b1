SPEC = {
    'property': 'C16',
    'groups': [{'file': 'h.cpp', 'sources': ['src/core/memmgr.cpp'], 'spec': {'nomerge': ['.*'], 'ctors': []}}],
    'harnesses': {
        'buffer_alloc': {}, 'buffer_free': {}, 'small_alloc': {}, 'small_free': {}, 'take': {}, 'give': {},
        'give_all': {'bounded': 'at most three objects given back at once'},
    },
}
