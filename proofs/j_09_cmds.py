CM = dict(file='h_cmds.c', src={'cmds.c': []}, nsrc={'cmds.c': [], 'args.c': [], 'buf.c': [], 'util.c': []}, trusted=['pogocache_store/load/delete/begin/end, conn_write_*, pg_write_*, the clock, argeq, parse_i64/u64, u64toa/i64toa, int64_*_clamp by contract (C01, C03, C04, C16, C17)'])
PN = ['', 'mc', 'pg', 'http', 'resp']
US = ['reply_ok.0:170', 'cmdMGET.0:5', 'cmdDEL.0:5', 'cmdEXISTS.0:5', 'cmdTOUCH.0:5']
nat = set()
def cm(name, fn, props, functions, defs, bounded, us=(), anylen=False, **kw):
    # quick: the lengths of keys and values are fixed (1 and 2 bytes); thorough (and anylen): any up to 2
    for any_ in (False, True):
        tier = 'quick' if any_ == anylen else 'thorough'
        if tier == 'thorough' and anylen: continue
        if kw.get('tier') == 'thorough': tier = 'thorough'
        k = dict(CM, **kw); k['tier'] = tier
        if 'stubs' in k: st = k.pop('stubs'); k['src'] = {'cmds.c': st}; k['nsrc'] = dict(CM['nsrc'], **{'cmds.c': st}); k['ndefs'] = ['-DDISP']
        if tier == 'thorough': k['timeout'] = 1500
        job(name='cmd_' + name + ('_anylen' if any_ and not anylen else ''), fn='harness_' + fn, props=props, cdefs=CT + ['-D' + d for d in defs] + (['-DFIXM'] if fn in ('keys', 'scan') else []) + ([] if any_ else ['-DFL=1']), unwind=73, unwindset=US + list(us), functions=functions, bounded=bounded, nonative=fn in nat, **k)
        if tier == 'quick': nat.add(fn)
SF = ['cmdSET', 'execSET', 'set_entry', 'expiry_seconds_time', 'expiry_unix_time']
B = 'keys and values up to 2 bytes'
for p in (4, 1, 2, 3):
    for na in (5, 1, 2, 3, 4, 6, 7):
        if na < 3 and p != 4 or na == 7 and p != 4: continue
        t = max(0, na - 3)
        cm('set_%s_%d' % (PN[p], na), 'set', 'C19', SF, ['PRO=%d' % p, 'NA=%d' % na, 'NTOK=%d' % max(t, 1)], '%d option words, ' % t + B, ['cmdSET.0:%d' % (t + 2)], novacuity=not (p == 4 and na == 5), tier='thorough' if na == 7 or (na == 6 and p in (2, 3)) else 'quick', anylen=na == 4 and p == 4)
cm('setex', 'setex', 'C19', ['cmdSETEX'], [], B)
for p in (4, 1, 2, 3):
    for k in (0, 1, 2):
        if (p == 1 and k == 0) or (p == 3 and k > 0): continue
        for n in (1, 0, 2, 3):
            if n == 0 and k and p != 4 or n == 3 and k != 1: continue
            cm('get_%s_%d_%d' % (PN[p], k, n), 'get', 'C19', ['cmdGET', 'cmdMGET', 'get_entry'], ['PRO=%d' % p, 'KIND=%d' % k, 'NK=%d' % n], B, novacuity=not (p == 4 and n == 1), anylen=p == 4 and n == 1 and k == 1)
    cm('count_' + PN[p], 'count', 'C19', ['cmdDEL', 'cmdEXISTS', 'cmdTOUCH'], ['PRO=%d' % p], 'up to 3 keys, ' + B, novacuity=p != 4)
for p in (4, 1, 2):
    cm('expire_' + PN[p], 'expire', 'C19', ['cmdEXPIRE', 'expire_entry', 'expiry_seconds_time'], ['PRO=%d' % p], B, novacuity=p != 4)
    cm('append_' + PN[p], 'append', 'C18', ['cmdAPPEND', 'cmdPREPEND', 'append_entry'], ['PRO=%d' % p], B, novacuity=p != 1, anylen=True)
    for u in (1, 0):
        if p == 1 and u == 0: continue
        for d in (1, 0):
            cm('incr_%s_%d%d' % (PN[p], u, d), 'incr', 'C18', ['execINCRDECR', 'cmdINCRDECRBY', 'cmdINCR', 'cmdDECR', 'cmdINCRBY', 'cmdDECRBY', 'get64'], ['PRO=%d' % p, 'UNS=%d' % u, 'DEC=%d' % d], 'keys up to 2 bytes; any numbers', novacuity=not (u and d and p != 1))
for p in (4, 2):
    cm('ttl_' + PN[p], 'ttl', 'C19', ['cmdTTL'], ['PRO=%d' % p], 'less than 8 seconds left', novacuity=p != 4, anylen=p == 4)
for k in (0, 1):
    cm('ttl_entry_%d' % k, 'ttl_entry', 'C19', ['ttl_entry'], ['KIND=%d' % k, 'TB2=%d' % (34 if k else 42)], 'less than 2^%d ns left' % (34 if k else 42), novacuity=k, anylen=True)
cm('dbsize', 'dbsize', 'C19', ['cmdDBSIZE'], [], B, anylen=True)
FF = ['flushfast.0:4', 'flushfast.1:4', 'flushfast.2:4', 'thflush.0:7', 'sweepfast.0:4', 'sweepfast.1:4', 'sweepfast.2:4', 'thsweep.0:7']
for p in (4, 1, 2):
    for n in (1, 0, 2, 3):
        if p != 4 and n in (0, 3): continue
        cm('flush_%s_%d' % (PN[p], n), 'flush', 'C28', ['cmdFLUSHALL', 'flush_work', 'flushfast', 'thflush', 'thflush0', 'flush_done'], ['PRO=%d' % p, 'NK=%d' % n], 'up to 4 shards and 3 processors', ['cmdFLUSHALL.0:%d' % (n + 2)] + FF, novacuity=not (p == 4 and n == 1), anylen=True, tier='thorough' if n == 3 or p == 2 and n == 2 else 'quick')
for p in (4, 2):
    for n in (1, 0, 2):
        cm('sweep_%s_%d' % (PN[p], n), 'sweep', 'C28', ['cmdSWEEP', 'sweep_work', 'sweepfast', 'thsweep', 'thsweep0', 'sweep_done'], ['PRO=%d' % p, 'NK=%d' % n], 'up to 4 shards and 3 processors', ['cmdSWEEP.0:4'] + FF, novacuity=not (p == 4 and n == 1), anylen=True, tier='thorough' if p == 2 and n != 1 else 'quick')
        if n < 2: cm('keys_%s_%d' % (PN[p], n), 'keys', 'C28', ['cmdKEYS', 'bgkeys_work', 'bgkeys_done', 'keys_entry', 'keys_ctx_free'], ['PRO=%d' % p, 'NK=%d' % n], 'up to 3 entries', ['bgkeys_done.0:5', 'bgkeys_done.1:5'], novacuity=not (p == 4 and n == 1))
    for n in (3, 0, 1, 2):
        cm('scan_%s_%d' % (PN[p], n), 'scan', 'C28', ['cmdSCAN', 'scan_work', 'scan_done', 'scan_ctx_free'], ['PRO=%d' % p, 'NK=%d' % n], 'up to 3 entries and 2 option words', ['cmdSCAN.0:%d' % (n + 1), 'scan_work.0:5', 'scan_done.0:5'], novacuity=not (p == 4 and n == 3), tier='thorough' if p == 2 and n in (0, 2) else 'quick')

HN = 'SET GET DEL MGET TTL EXPIRE SETEX DBSIZE QUIT ECHO EXISTS FLUSHALL MONITOR PURGE SWEEP KEYS SELECT PING TOUCH DEBUG INCRBY DECRBY INCR DECR APPEND PREPEND AUTH SAVELOAD STATS VERSION SCAN'.split()
ST = ['&cmd' + h for h in HN]
cm('auth', 'auth', 'C20', ['cmdAUTH'], [], 'passwords up to 3 bytes', anylen=True)
for a in range(0, 40, 5):
    cm('dispatch_%d' % a, 'dispatch', 'C20', ['evcommand', 'get_cmd', 'build_commands_table'], ['DISP', 'LO1=%d' % a, 'HI1=%d' % (a + 5)], 'every command in any letter case, up to 2 arguments', ['build_commands_table.0:12', 'build_commands_table.1:12', 'build_commands_table.2:41', 'get_cmd.0:12'], anylen=True, stubs=ST, novacuity=a > 0)
cm('unknown', 'unknown', 'C20', ['evcommand', 'get_cmd'], ['DISP'], 'names up to 9 bytes', ['build_commands_table.0:12', 'build_commands_table.1:12', 'build_commands_table.2:41', 'get_cmd.0:12'], anylen=True, stubs=ST)
cm('unknown_wrap', 'unknown', 'C20', ['evcommand', 'get_cmd'], ['DISP', 'HOFF=252'], 'names up to 9 bytes', ['build_commands_table.0:12', 'build_commands_table.1:12', 'build_commands_table.2:41', 'get_cmd.0:12'], anylen=True, stubs=ST)
