SPEC = {
    'property': 'C10',
    'groups': [{'file': 'h.cpp', 'sources': ['src/agg/rate.cpp'],
                'spec': {'nomerge': ['.*'], 'loops': [{'fn': 'RateCalculator9calculate', 'nth': 0, 'inv': ['rate_range', 'rate_count', 'rate_ahead', 'rate_behind'], 'ghost': 'rate_ghost',
                                    'args': ['i', 'j', 't0', 'v0', '*dps']}]}}],
    'harnesses': {'series': {}, 'small': {'spec': {'loops': []}, 'bounded': 'series of at most 3 points'}},
}
