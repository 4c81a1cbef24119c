CN = dict(file='h_conn.c', nsrc={'conn.c': [], 'buf.c': [], 'util.c': [], 'args.c': []}, src={'conn.c': []}, solver='minisat')
CS = dict(CN, src={'conn.c': ['^conn_write_error']}, nsrc=dict(CN['nsrc'], **{'conn.c': ['^conn_write_error']}))
job(name='stream', fn='harness_stream', props='C25', cdefs=CT + ['-DSTREAM', '-DEV=4'], ndefs=['-DSTREAM'], unwind=10, functions=['evdata'], bounded='4 bytes kept and 4 bytes received per step; any number of steps', trusted=['parsers, evcommand, pg_respond, net_conn_* by contract'], **CS)
for i, w in enumerate(['bulk', 'line', 'uint', 'int', 'array']):
    job(name='reply_' + w, fn='harness_reply', props='C16', cdefs=CT + ['-DWHAT=%d' % i], unwind=66, functions=[['conn_write_bulk'], ['writeln', 'conn_write_string', 'conn_write_error'], ['conn_write_uint'], ['conn_write_int'], ['conn_write_array', 'conn_write_null']][i], bounded='replies up to 12 bytes, numbers below 100', nonative=i > 0, **CN)
