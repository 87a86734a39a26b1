SPEC = {
    'property': 'C14',
    'groups': [{'file': 'h.cpp', 'sources': ['src/core/page.cpp'], 'spec': {}}],
    'harnesses': {'file_header': {}, 'file_full': {}, 'page_header': {}, 'page_header_init': {}, 'page_index': {},
                  'compress_header': {}},
}
