MAP_STUBS = ['get_entry', 'set_entry', 'get_hash', 'set_hash', 'entry_memsize', 'entry_expires', 'entry_key', 'entry_extract', 'entry_compare', 'th64']
def mapjob(fn, props, n=4, nk=3, grow=False, tier='quick', functions=(), stubs=(), uw=None, us=(), viewn=None, hbits=None, **kw):
    name = 'map_%s%s_%d_%d' % (fn, '_grow' if grow else '', n, nk)
    job(name=name, file='map.c', fn='harness_' + fn, props=props, tier=tier,
        src={PG: MAP_STUBS + list(stubs)}, nsrc={PG: ['th64']},
        cdefs=['-DN=%d' % n, '-DNK=%d' % nk] + (['-DVIEWN=%d' % viewn] if viewn else []) + (['-DHBITS=%d' % hbits] if hbits else []) + (['-DGROW'] if grow else []), ndefs=['-DN=8', '-DNK=6'],
        unwind=uw or 2*n+1, unwindset=list(us), objbits=12, solver='minisat', functions=list(functions), weight=3, timeout=600,
        bounded='tables of %d buckets, up to %d keys, all hashes and placements, entry sizes 2^8i (they are only added and subtracted)' % (n, nk), **kw)
for n, nk, tier in ((4, 3, 'quick'), (8, 5, 'thorough')):
    hb = 4 if n == 4 else 6
    w = dict(tier=tier, uw=n+1, viewn=n, hbits=hb, stubs=['tryshrink'])
    mapjob('get', 'C03', n, nk, functions=['map_get_bucket', 'bucket_eq'], tier=tier, uw=n+1, viewn=n)
    mapjob('insert', 'C03 C07 C10', n, nk, functions=['map_insert'], tier=tier, uw=n+1, viewn=n)
    mapjob('insert', 'C03 C07 C10', n, nk, grow=True, us=['resize.0:%d' % (nk+1)], functions=['map_insert', 'resize', 'map_init'], tier=tier, hbits=hb)
    mapjob('delete', 'C03 C07 C10', n, nk, functions=['map_delete', 'delentry_at_bkt', 'delbkt'], tier=tier, uw=n+1, viewn=n, hbits=hb)
    mapjob('resize', 'C03 C07 C10', n, nk, us=['resize.0:%d' % (nk+1)], functions=['resize', 'map_init'], tier=tier, hbits=hb)
    mapjob('iter', 'C03 C05 C07 C08 C09 C10', n, nk, functions=['iterop', 'notify', 'delbkt'], us=['iterop.0:%d' % (n+nk+1)], **w)
    mapjob('sweep', 'C03 C05 C07 C08 C09 C10', n, nk, functions=['sweepop', 'notify', 'delbkt'], us=['sweepop.0:%d' % (n+nk+1)], **w)
    mapjob('entryiter', 'C03 C05 C07 C08 C10', n, nk, functions=['entryiter', 'delbkt'], us=['entryiter.0:%d' % (n+nk+1)], **w)
    mapjob('clear', 'C07 C08 C09 C10', n, nk, functions=['clearop'], us=['harness_clear.0:65'], **w)
    mapjob('evict', 'C06 C09 C10', n, nk, functions=['auto_evict_entry', 'evict_entry'], **w)
    mapjob('deinit', 'C10', n, nk, functions=['shard_deinit'], **w)
job(name='tryshrink', file='map.c', fn='harness_shrink', props='C03 C07 C10', src={PG: MAP_STUBS + ['resize']}, nsrc={PG: ['th64']},
    cdefs=['-DSHRINKDEC'], ndefs=['-DN=8', '-DNK=6'], unwind=26, functions=['tryshrink', 'needsshrink'], solver='minisat',
    trusted=['tryshrink: shard capacity 64 (INITCAP), load factors 55, 75 and 95 percent'])
