SPEC = {
    'property': 'C06',
    'groups': [{'file': 'h.cpp', 'sources': ['src/core/mmap.cpp'],
                'spec': {'nomerge': ['.*'], 'opaque': ['2tt6Logger'],
                         'replace': {'^ftruncate(64)?$': 'stub_ftruncate', '^mremap$': 'stub_mremap', '^_ZN2tt11file_exists': 'stub_file_exists',
                                     '^_ZN2tt8MmapFile4openElbbb$': 'stub_open'},
                         'loops': [
                             {'fn': 'IndexFile6expand', 'nth': 0, 'inv': ['grow_range', 'grow_behind', 'grow_before'], 'var': 'grow_var',
                              'args': ['old_idx', 'new_idx', 'entries']},
                             {'fn': 'IndexFile4open', 'nth': 0, 'inv': ['new_range', 'new_entry'], 'var': 'new_var',
                              'args': ['i', 'max_idx', 'entries']}]}}],
    'harnesses': {'store': {'shards': 4}, 'lookup': {}, 'closed': {}, 'create': {}},
}
