NOTES = ('Every check runs `./check <id>`: it compiles the harness (contracts) and the real sources of /repo to LLVM IR, '
         'generates the obligations with irvc and discharges them with z3/cvc5; failed obligations are replayed on the '
         'natively compiled real code. See DESIGN.md.')
HOOKS = None


def P(id, title, statement, over, text, why, files, mech, note, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, level_note=note)
    d['anchors'].update({k: v for k, v in kw.items() if k in ('state', 'observe_at', 'hook_needed')})
    if 'technique' in kw:
        d['technique'] = kw['technique']
    return d


PROPS = [
    P('C01', 'The compressed bit stream is an exact first-in first-out record of bits',
      'Bits appended to a bit stream of any capacity are read back in the same order and with the same values, whatever chunk '
      'lengths and bit offsets are used for writing and reading. An append that does not fit, and a read past the last appended '
      'bit, are refused; neither changes bits appended earlier, and rolling back to a checkpoint restores the stream as it was. '
      'Nothing outside the buffer and nothing but the addressed bits of the destination is touched.',
      ['inputs', 'histories'], 'every capacity, cursor position, chunk length, bit offset and buffer content; histories by induction over the contracts of single operations',
      'The unit test appends a handful of fixed patterns; alignment of source, destination and end of buffer gives thousands of combinations with unbounded contents.',
      ['src/utils/bitset.cpp', 'include/bitset.h'],
      [('append/retrieve', 'src/utils/bitset.cpp BitSet::append, BitSet::retrieve'), ('checkpoint', 'include/bitset.h save_check_point/restore_from_check_point')],
      'Proof for buffers up to 128 KiB (larger than any page), chunk lengths 1..64, every content and position; loops fully unrolled with the unwinding checked.'),
    P('C02', 'Variable-length number codes decode to the number that was encoded',
      'Every 64-bit signed number and every 32-bit unsigned number written with the page number codes is read back unchanged from any bit position, '
      'and the reader stops exactly where the writer stopped. A code that does not fit in the remaining space is refused, and a truncated code is '
      'reported as end of data.',
      ['inputs'], 'every number, every bit position, every remaining capacity',
      'Tests encode a few dozen values; the code classes have boundaries at +-2^11, +-2^16, 2^8, 2^16, 2^24 and depend on alignment.',
      ['src/core/compress.cpp'], [('compress4/uncompress_i4', 'src/core/compress.cpp'), ('compress4a/uncompress_i4a', 'src/core/compress.cpp')],
      'Proof over all values and positions, on the real bit stream code.'),
    P('C03', 'Pages in the lossless formats give back exactly the data points stored',
      'For every sequence of data points accepted by a page in the byte-oriented or XOR bit format (timestamps not decreasing, within the range of the page), '
      'decoding the page yields the same timestamps and the same values bit for bit, in the same order, with nothing added or lost. A data point refused because '
      'the page is full leaves the stored points readable. After saving and restoring a page, decoding and further appending behave as if it had never been saved.',
      ['inputs', 'histories'], 'every history of accepted points, every 64-bit pattern as value, every page size, both timestamp resolutions',
      'Tests decode a few generated series; delta-of-delta classes, leading/trailing-zero windows and page-full points combine without bound.',
      ['src/core/compress.cpp', 'include/compress.h'], [('Compressor_v1', 'src/core/compress.cpp'), ('Compressor_v2', 'src/core/compress.cpp')],
      'One-step simulation proof over arbitrary codec state; lifted to histories by induction.'),
    P('C04', 'Pages in the rounding formats keep timestamps exactly and whole numbers exactly',
      'For every sequence of data points accepted by a page in the rounding bit formats, decoding yields the same number of points with the same timestamps in the same order. '
      'Series whose values are whole numbers are given back exactly.',
      ['inputs', 'histories'], 'every history of accepted points',
      'Run-length state, page-full rollback and rounding interact over histories no test enumerates.',
      ['src/core/compress.cpp', 'include/compress.h'], [('Compressor_v3', 'src/core/compress.cpp'), ('Compressor_v4', 'src/core/compress.cpp')],
      'One-step simulation proof.'),
    P('C05', 'Rollup records decode to what was encoded and truncated records are refused',
      'Every rollup record (series id, count, min, max, sum, day) is decoded to the same id, count and day and to min/max/sum equal to the original rounded to the configured precision, '
      'and the decoder consumes exactly the bytes the encoder produced. Decoding from a buffer shorter than the record reports that there is not enough data and never reads beyond the buffer.',
      ['inputs'], 'every record, every buffer length and content',
      'Tests encode a few records; there are 4x4x4 size classes per record and a truncation point at every byte.',
      ['src/core/compress.cpp'], [('RollupCompressor_v1', 'src/core/compress.cpp')],
      'Proof for all records and buffers; floating-point operations uninterpreted (the same rounding function on both sides).'),
    P('C06', 'The per-series index returns what was last stored for each series',
      'After storing an index entry for a series, looking the series up returns that entry, including for the last entry that fits the file, and entries of all other series are unchanged. '
      'Looking up a series for which nothing was stored reports that there is none, and no access goes outside the index file.',
      ['inputs', 'histories'], 'every series id, every file size, every stored value',
      'Tests use small ids in a fresh file; the boundary entry and id/size arithmetic are not reached.',
      ['src/core/mmap.cpp', 'include/mmap.h'], [('IndexFile set_*/get_*', 'src/core/mmap.cpp')],
      'Proof over all ids and file lengths.'),
    P('C07', 'Timestamps and durations convert consistently between time units',
      'Converting a timestamp to seconds or milliseconds accepts either unit and gives the same instant; converting durations between units never changes the represented duration except by rounding down. '
      'Rounding a timestamp to a bucket start gives the largest multiple of the interval not after it.',
      ['inputs'], 'every 64-bit timestamp in the supported range, every unit',
      'Tests use present-day timestamps; the decision between seconds and milliseconds has a boundary that they do not touch.',
      ['src/utils/utils.cpp', 'include/utils.h'], [('to_ms/to_sec/validate_resolution/convert_time', 'src/utils/utils.cpp')],
      'Proof over all inputs.'),
    P('C08', 'Downsampling reports the statistic of exactly the points of each interval',
      'For every time-ordered series, downsampling yields one point for each interval that begins inside the query range and holds data, stamped with the interval start, whose value is the requested statistic '
      '(count, first, last, min, max, sum, average, deviation; from raw points, or from rollup records where those are used) of exactly the points in that interval. With a fill policy, the empty intervals that begin inside the query range, '
      'and only those, get the fill value, for intervals of whole seconds.',
      ['inputs', 'histories'], 'every series, interval, range and fill policy',
      'Tests run a few aligned examples; boundaries at interval starts, range ends and gaps are combinatorial.',
      ['src/agg/down.cpp', 'include/down.h'], [('Downsampler*', 'src/agg/down.cpp')],
      'One-step proof over arbitrary downsampler state.'),
    P('C09', 'Aggregating series combines exactly the values present at each timestamp',
      'For every set of series with finite values and increasing timestamps, aggregation yields one point per distinct timestamp in increasing order, whose value is the requested function '
      '(count, sum, min, max, average, deviation) of exactly the values the series have at that timestamp.',
      ['inputs'], 'every set of series and each of these functions',
      'Tests aggregate two or three aligned series.',
      ['src/agg/aggregate.cpp', 'include/aggregate.h'], [('Aggregator*', 'src/agg/aggregate.cpp')],
      'Proof with loop invariants.'),
    P('C10', 'Rates are per-second differences of consecutive points',
      'For every time-ordered series, the rate series has one point per consecutive pair of points, at the later timestamp, whose value is the value difference divided by the time difference in seconds, '
      'with counter wrap and reset handled as the options say.',
      ['inputs'], 'every series and every option combination',
      'Tests check one example series.',
      ['src/agg/rate.cpp', 'include/rate.h'], [('RateCalculator', 'src/agg/rate.cpp')],
      'Proof over all inputs.'),
    P('C11', 'Time ranges are half-open intervals; month lookup finds the enclosing month',
      'Merging, intersecting, testing and extending time ranges agree with the corresponding operations on half-open intervals. For every sorted month table and every instant covered by it, '
      'the month lookup ends and returns the month that contains the instant; instants outside the table are reported as not covered.',
      ['inputs'], 'every range, every sorted table of any length, every instant',
      'Tests look up some dates in one table.',
      ['include/range.h', 'src/utils/range.cpp', 'src/utils/cal.cpp'], [('TimeRange', 'include/range.h'), ('Calendar::binary_search', 'src/utils/cal.cpp')],
      'Proof; the search loop by invariant and variant.'),
    P('C12', 'Rollups hold count, min, max and sum of exactly the points of each interval',
      'For every sequence of data points with finite values fed in time order, each hour that holds points is recorded once with the count, minimum, maximum and sum of exactly the '
      'points that fall into it; a point older than the current hour is left out, leaves the record being accumulated as it was and marks the series as out of order. '
      'Reading the records of a month back gives each series its records, each at the hour it was recorded for, and the statistic asked for.',
      ['inputs', 'histories'], 'every point, every accumulated state, every month table; histories by induction over the single step',
      'Tests feed evenly spaced points; months without data, late points and buffers shared by several series do not occur.',
      ['src/agg/rollup.cpp', 'include/rollup.h', 'src/core/mmap.cpp'], [('RollupManager::add_data_point', 'src/agg/rollup.cpp'), ('RollupDataFile', 'src/core/mmap.cpp')],
      'One-step proof over every accumulated state and every point; hour-skipping loops cut by invariants. Hash containers, file reads and writes and the record codes (C05) are replaced by contracts. '
      'Compressed (re-packed) and daily files are not covered.'),
    P('C13', 'Tag filters select exactly the series whose tags satisfy them',
      'For every encoded tag set and every filter, a series is selected if and only if it has the tag key of the filter and its value is the filter value, begins with the filter prefix before a wildcard, '
      'or is one of the listed alternatives.',
      ['inputs'], 'every tag set and filter',
      'Tests match a few tag sets.',
      ['src/utils/tag.cpp', 'include/tag.h'], [('Tag_v2::match', 'src/utils/tag.cpp'), ('TagMatcher', 'src/utils/tag.cpp')],
      'Proof with loop invariants.'),
    P('C14', 'Page header fields are independent of each other',
      'Setting a flag or a field of a page header or of a data header changes that flag or field only, and reading it back gives the value that was set.',
      ['inputs'], 'every header content and every value',
      'Tests set single flags on fresh headers.',
      ['include/page.h', 'src/core/page.cpp'], [('page_info_on_disk', 'include/page.h')],
      'Proof over all header contents.'),
    P('C15', 'Parsing text of any content stays inside the request buffer',
      'Whatever bytes a request contains, parsing a data point line, a URL-encoded string or a number from it never reads or writes outside the buffer, and a well-formed decimal number is converted to its value.',
      ['inputs'], 'every buffer content and length',
      'Tests parse well-formed input.',
      ['src/core/dp.cpp', 'src/utils/utils.cpp', 'src/utils/strbuf.cpp'], [('DataPoint::from_plain', 'src/core/dp.cpp'), ('url_unescape', 'src/utils/utils.cpp')],
      'Proof with loop invariants.'),
    P('C16', 'Recycled objects are handed out to one owner at a time',
      'An object taken from a free list is not handed out again before it is returned, every returned object becomes available again, and none is lost or duplicated.',
      ['histories'], 'every history of allocations and returns by one thread',
      'Tests allocate and free a few objects.',
      ['src/core/memmgr.cpp'], [('MemoryManager free lists', 'src/core/memmgr.cpp')],
      'Proof over list contracts.'),
    P('C17', 'No acknowledged data point is lost or altered by a crash',
      'After a crash at any point and a restart, every data point that had been logged before the crash is returned by queries exactly once with its value, and no other point appears.',
      ['crash_points', 'histories'], 'every crash point of every history',
      'Integration tests stop the server cleanly.',
      ['src/utils/append.cpp', 'src/core/ts.cpp', 'src/core/tsdb.cpp'], [('append log', 'src/utils/append.cpp')], ''),
    P('C18', 'Concurrent ingestion and queries are equivalent to some sequential order',
      'For every interleaving of writers, readers and maintenance tasks, each query returns a state consistent with the writes acknowledged before it began.',
      ['schedules'], 'every interleaving', 'Tests run a few threads without controlling the schedule.',
      ['src/core/tsdb.cpp', 'src/core/ts.cpp', 'include/queue.h'], [('locks', 'include/sync.h')], ''),
    P('C19', 'A query returns exactly the stored points of the matching series in the range',
      'For every stored history and every query without downsampling, the result holds exactly the points written to matching series inside the range, each timestamp once with the last value written.',
      ['histories', 'inputs'], 'every history and query', 'Tests query small data sets.',
      ['src/core/query.cpp', 'src/core/tsdb.cpp'], [('QueryTask', 'src/core/query.cpp')], ''),
]

NA = {
    'C17': 'Crash atomicity is a property of file-system effects over whole-process histories; sequential function contracts over memory cannot state it, and the log replay goes through stdio, directories and threads outside what the verifier accepts.',
    'C18': 'The verifier is sequential: contracts over interleavings of pthread locks and lock-free queues are outside the family tools installed here for C++.',
    'C19': 'End-to-end query evaluation spans STL hash maps, threads, mmap and the file system; its arithmetic kernels are covered by C03, C08, C09, C10 and C13.',
}
