BATCH_STUBS = ['th64', 'storeop', 'loadop', 'deleteop', 'iterop', 'sweepop', 'clearop', 'sweeppollop', 'entryiter']
def batchjob(fn, props, functions=(), **kw):
    job(name='batch_' + fn, file='batch.c', fn='harness_' + fn, props=props, src={PG: BATCH_STUBS + ['lock', 'shard_get', 'shard_index']}, nsrc={PG: BATCH_STUBS},
        unwind=4, objbits=10, functions=list(functions) + ['acquire_for_key', 'acquire_for_scan', 'pogocache_begin', 'pogocache_end'],
        cdefs=['-DNS=3'], bounded='3 shards', **kw)
batchjob('key', 'C03 C10 C11', functions=['pogocache_store', 'pogocache_load', 'pogocache_delete'])
batchjob('iter', 'C08 C10 C11', functions=['pogocache_iter'])
batchjob('sweep', 'C08 C10 C11', functions=['pogocache_sweep'])
batchjob('clear', 'C08 C10 C11', functions=['pogocache_clear', 'aquireclearop'])
batchjob('stat', 'C07 C10 C11', functions=['pogocache_count', 'pogocache_total', 'pogocache_size', 'pogocache_nshards'])
batchjob('poll', 'C05 C11', functions=['pogocache_sweep_poll'])
batchjob('entryiter', 'C08 C10 C11', functions=['pogocache_entry_iter'])
job(name='lock', file='batch.c', fn='harness_lock', props='C11', src={PG: BATCH_STUBS + ['shard_get']}, unwind=2, objbits=10,
    cdefs=['-DVP_LOCKPROOF'], functions=['lock'], nonative=True, trusted=['atomic compare-exchange: CBMC\'s sequential semantics, strong (a spurious failure is a wait)'])
job(name='shardget', file='batch.c', fn='harness_shardget', props='C11', src={PG: BATCH_STUBS + ['lock']}, unwind=2, objbits=10,
    cdefs=['-DVP_LOCKPROOF'], functions=['shard_get', 'shard_index'], nonative=True)
