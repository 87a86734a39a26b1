SPEC = {
    'property': 'C07',
    'groups': [{'file': 'h.cpp', 'sources': ['src/utils/utils.cpp'], 'spec': {}}],
    'harnesses': {'classify': {}, 'to_unit': {}, 'validate': {}, 'validate_default': {}, 'durations': {}, 'buckets': {},
                  'unit_names': {}},
}
