OPS_STUBS = ['entry_memsize', 'entry_expires', 'entry_cas', 'entry_key', 'entry_extract', 'entry_new', 'get_entry', 'set_entry',
             'map_get_bucket', 'map_insert', 'map_delete', 'delentry_at_bkt', 'delbkt', 'tryshrink', 'auto_evict_entry']
for p in ('C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C10', 'C11'):
    prop(p)
prop('C08', level='other', explanation='Bounded: contracts of the bucket walks and shard walks discharged by CBMC for every well-formed table up to the bound of each job (see jobs), and executed on generated tables; no unbounded obligation.')
for op in ('store', 'load', 'delete'):
    job(name=op + 'op', file='ops.c', fn='harness_' + op, props='C03 C04 C05 C06 C07 C09 C10', also='C03 C04 C05 C06 C07 C09 C10',
        src={PG: OPS_STUBS}, nsrc={PG: ['th64']}, functions=[op + 'op', 'notify', 'entry_free'], unwind=3)
