PG = 'pogocache.c'
prop('C01', assumptions=[
    'memcpy, malloc: contracts of the C library (memcpy copies n bytes, malloc(n) returns a fresh object of n bytes or null)',
    'sizes are below 2^40 bytes (address arithmetic does not wrap)'])
prop('C02', assumptions=['memcmp: contract of the C library'])
for cas in (0, 1):
    job(name='entry_raw_cas%d' % cas, file='entry.c', fn='harness_raw', props='C01 C10',
        src={PG: ['varint_read_u64', 'varint_write_u64', 'sixpack', 'unsixpack']}, nsrc={},
        cdefs=['-DCASE_CAS=%d' % cas], ndefs=['-DCASE_CAS=%d' % cas], unwind=12, weight=5,
        functions=['entry_new', 'entry_extract', 'entry_key', 'entry_rawkey', 'entry_value', 'entry_expires', 'entry_cas', 'entry_memsize'],
        trusted=['memcpy: record-only contract (source, destination, length); the bytes are assumed to be copied'])
job(name='varint', file='leaf.c', fn='harness_varint', props='C01', src={PG: []}, unwind=12, nsecs=1,
    functions=['varint_write_u64', 'varint_read_u64'])
job(name='sixpack', file='sixpack.c', fn='harness', props='C02', src={PG: []}, unwind=129, weight=4,
    functions=['sixpack', 'unsixpack'])
job(name='compare', file='compare.c', fn='harness_compare', props='C02',
    src={PG: ['entry_sixpacked', 'entry_rawkey', 'entry_key']}, functions=['entry_compare'])
job(name='bucketeq', file='compare.c', fn='harness_bucketeq', props='C02',
    src={PG: ['get_hash', 'get_entry', 'entry_key', 'entry_rawkey', 'entry_sixpacked']}, functions=['bucket_eq'])
job(name='bucket', file='leaf.c', fn='harness_bucket', props='C03', src={PG: []}, unwind=20, nsecs=1,
    functions=['get_dib', 'set_dib', 'get_hash', 'set_hash', 'get_entry', 'set_entry', 'load_ptr', 'store_ptr', 'clip_hash'])
job(name='bucket48', file='leaf.c', fn='harness_bucket', props='C03', src={PG: []}, unwind=20, nsecs=1, cdefs=['-UNO48BITPTRS'],
    functions=['get_dib', 'set_dib', 'get_hash', 'set_hash', 'get_entry', 'set_entry', 'load_ptr', 'store_ptr', 'clip_hash'])
job(name='time', file='leaf.c', fn='harness_time', props='C05', src={PG: []}, unwind=2, nsecs=1,
    functions=['int64_add_clamp', 'entry_alive_exp'])
