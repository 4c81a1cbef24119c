RNS = {'args.c': [], 'buf.c': [], 'util.c': []}
def pjob(name, file, fn, props, src, **kw):
    job(name=name, file=file, fn='harness_' + fn, props=props, src={src: []}, nsrc=dict(RNS, **{src: []}), cdefs=CT + kw.pop('cdefs', []), **kw)
pjob('resp_inline', 'h_resp.c', 'inline', 'C12', 'resp.c', unwind=11, functions=['parse_resp_telnet'], bounded='requests up to 9 bytes', cdefs=['-DRN=9'], ndefs=['-DRN=48'])
pjob('resp', 'h_resp.c', 'resp', 'C12', 'resp.c', unwind=14, functions=['parse_resp', 'read_num'], bounded='requests up to 12 bytes', cdefs=['-DRN=12'], ndefs=['-DRN=48'])
pjob('sniff', 'h_sniff.c', 'sniff', 'C27', 'parse.c', unwind=34, functions=['sniff_proto', 'parse_command'], bounded='first lines up to 32 bytes', cdefs=['-DRN=32'])
MC = dict(nsrc=dict(RNS, **{'memcache.c': []}), props='C13')
job(name='mc_line', file='h_mcline.c', cdefs=CT, fn='harness_line', src={'memcache.c': []}, unwind=14, functions=['parse_memcache_telnet'], bounded='lines up to 12 bytes', ndefs=['-DRN=40'], **MC)
job(name='mc_key', file='h_mc.c', cdefs=CT + ['-DPART=0'], fn='harness_key', src={'memcache.c': []}, unwind=254, functions=['mc_valid_key'], **MC)
MCWORDS = 'set add cas replace append prepend incr decr delete touch flush_all verbosity get gets gat gats stats version quit unknown'.split()
for i, w in enumerate(MCWORDS):
    job(name='mc_' + w, file='h_mc.c', cdefs=CT + ['-DPART=%d' % i, '-DNT=%d' % (7 if w == 'cas' else 6 if i < 6 else 4)], fn='harness_cmd', src={'memcache.c': ['mc_valid_key', 'parse_memcache_telnet']}, unwind=13, solver='minisat', functions=['parse_memcache'],
        bounded='up to 4 words (stores: 6, cas: 7)', trusted=['argi64, argu64, mc_valid_key, parse_memcache_telnet by contract (C17; jobs mc_key and mc_line)'], **dict(MC, **({} if i == 0 else dict(nonative=True, novacuity=w not in ('cas', 'get')))))
HT = dict(file='h_http.c', props='C14', src={'http.c': []}, nsrc=dict(RNS, **{'http.c': []}), solver='minisat')
job(name='http_key', fn='harness_key', cdefs=CT, unwind=254, functions=['http_valid_key'], **HT)
def http(name, pre, w, suf, what, cut=False, hdr=0, val=0, qry=0, spc=2, key=0, nonl=False, **kw):
    # hdr, val, qry: how many headers, bytes of a header, bytes of the query the loops can see
    q = lambda s: '"' + s.replace('\\', '\\\\').replace('\r', '\\r').replace('\n', '\\n').replace('"', '\\"') + '"'
    n = len(pre) + w + len(suf)
    us = {'parse_http.3': spc, 'parse_http.4': val + 2, 'parse_http.5': val + 2, 'parse_http.6': hdr + 2, 'parse_http.7': qry + 2, 'parse_http.8': 2, 'parse_http.9': qry + 2, 'http_valid_key.0': key + 3}
    job(name='http_' + name, fn='harness_http', cdefs=CT + ['-DPRE=' + q(pre), '-DW=%d' % w, '-DSUF=' + q(suf)] + (['-DCUT'] if cut else []) + (['-DNONL'] if nonl else []), unwind=max(24, n + 2), unwindset=['%s:%d' % x for x in us.items()], functions=['parse_http'], bounded=what, **dict(HT, **dict(kw, **({'props': 'C14 C20'} if name in ('qauth', 'auth', 'uri') else {}))))
http('uri', 'GET /', 4, ' HTTP/1.1\r\n\r\nG', 'any 4 bytes of the key', qry=5, key=5)
NO = dict(nonative=True, novacuity=True)
http('method', '', 4, ' /k HTTP/1.1\r\n\r\nG', 'any 4 bytes of the method', qry=8, key=8, **NO)
http('delete', 'DELET', 3, '/k HTTP/1.1\r\n\r\nG', 'any 3 bytes after DELET', qry=8, key=8, **NO)
http('version', 'GET /k HTT', 8, '\n\r\nG', 'any 8 bytes of the version', hdr=1, val=8, qry=8, key=8, **NO)
http('query', 'PUT /k?', 4, '=7 HTTP/1.1\r\n\r\nG', 'any 4 bytes of the query', qry=8, key=8, **NO)
http('flags', 'PUT /k?nx&flag', 3, '7&xx HTTP/1.1\r\n\r\nG', 'any 3 bytes of the query', qry=16, key=8, **NO)
http('qauth', 'PUT /k?auth', 3, '&xx HTTP/1.1\r\n\r\nG', 'any 3 bytes of the query', qry=12, key=8, **NO)
http('auth', 'GET /k HTTP/1.1\r\nAuthorization: Bearer', 3, '\r\n\r\nG', 'any 3 bytes of the header', hdr=2, val=24, nonative=True)
http('conn', 'GET /k HTTP/1.0\r\nConnection: keep-aliv', 2, '\r\n\r\nG', 'any 2 bytes of the header', hdr=2, val=24, nonative=True)
