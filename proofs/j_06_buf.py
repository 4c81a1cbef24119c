job(name='match', file='h_match.c', fn='harness_match', props='C22', src={UT: ['~match']}, nsrc={UT: []}, unwind=17, cdefs=CT + ['-DPN=7', '-DSN=7'],
    functions=['match'], bounded='patterns and texts up to 7 characters (recursion by contract)')
job(name='match_long', file='h_match.c', fn='harness_match', props='C22', tier='thorough', src={UT: ['~match']}, nsrc={UT: []}, unwind=21, cdefs=CT + ['-DPN=9', '-DSN=9'],
    functions=['match'], bounded='patterns and texts up to 9 characters (recursion by contract)', timeout=3000)
for fn, f, uw in (('ensure', 'buf_ensure', 44), ('append', 'buf_append', 44), ('byte', 'buf_append_byte', 44), ('bufclear', 'buf_clear', 2), ('varint', 'buf_append_uvarint buf_append_varint', 44)):
    job(name='buf_' + fn, file='h_buf.c', fn='harness_' + fn, props='C23', src={'buf.c': []}, nsrc={'buf.c': [], 'args.c': [], 'util.c': []}, unwind=uw, functions=f.split(), nsecs=2,
        trusted=['xrealloc, xmalloc, xfree: contracts of the allocator (abort on failure), buffers below 2^40 bytes'])
job(name='args', file='h_args.c', fn='harness_args', props='C23', src={'args.c': []}, nsrc={'args.c': [], 'buf.c': [], 'util.c': []}, unwind=13, cdefs=CT,
    functions=['args_append', 'args_clear', 'args_free', 'args_remove_first', 'args_at', 'args_count'], bounded='4 operations on one list')
job(name='args_eq', file='h_args.c', fn='harness_argseq', props='C23', nsrc={'args.c': [], 'buf.c': [], 'util.c': []}, functions=['args_eq'], nocbmc=True, nsecs=1)
