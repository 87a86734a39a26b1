V2 = ['timestamp', 'delta', 'value', 'value_be', 'leading_zeros', 'trailing_zeros', 'none_zeros', '*cursor']
V1 = ['tstamp', 'delta', 'value', 'b']
VEC = {'_ZNSt6vectorISt4pairImdESaIS1_EE12emplace_backI': 'tape_emplace',
       '_ZNSt6vectorISt4pairImdESaIS1_EE9push_backERKS1_': 'tape_push',
       '_ZNKSt6vectorISt4pairImdESaIS1_EE4sizeEv': 'tape_size'}
# contracts proved in C01
BITS = {'_ZN2tt6BitSet6appendEPhhh': 'tape_append', '_ZN2tt6BitSet8retrieveEPNS_12BitSetCursorEPhhh': 'tape_retrieve',
        '_ZN2tt6BitSet10new_cursorEv': 'tape_new_cursor'}
U2 = '_ZN2tt13Compressor_v210uncompressERSt6vectorISt4pairImdESaIS3_EEb'
U1 = '_ZN2tt13Compressor_v110uncompressERSt6vectorISt4pairImdESaIS3_EEb'
SPEC = {
    'property': 'C03',
    'groups': [{'file': 'h.cpp', 'sources': ['src/utils/bitset.cpp', 'src/core/compress.cpp'],
                'spec': {'nomerge': ['.*'], 'opaque': ['_ZN2tt6Logger', '_ZN2tt13MemoryManager15free_recyclable', '_ZN2tt10RecyclableD'],
                         'replace': dict(VEC, **BITS)}}],
    'harnesses': {
        'v2_step': {'shards': 8, 'cost': 9, 'spec': {'loops': [
            {'fn': U2, 'args': V2, 'tele': 'v2_before', 'check': ['v2_time', 'v2_zeros', 'v2_place', 'v2_value_be', 'v2_value'], 'again': 'v2_last'}]}},
        'v2_first': {'spec': {'loops': [{'fn': U2, 'args': V2, 'head': ['v2_time', 'v2_zeros', 'v2_place', 'v2_value_be', 'v2_value']}]}},
        'v2_save': {'spec': {'replace': dict(VEC, **{U2: 'v2_uncompress'})}},
        'v1_step': {'shards': 8, 'cost': 9, 'spec': {'loops': [
            {'fn': U1, 'args': V1, 'tele': 'v1_before', 'check': ['v1_time', 'v1_place', 'v1_value'], 'again': 'v1_last'}]}},
        'v1_first': {'spec': {'loops': [{'fn': U1, 'args': V1, 'head': ['v1_time', 'v1_place', 'v1_value']}]}},
        'v1_save': {'spec': {'replace': dict(VEC, **{U1: 'v1_uncompress'})}},
    },
}
