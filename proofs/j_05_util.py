UT = 'util.c'
CT = ['-D__NO_CTYPE']
for p in 'C27 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C25 C26 C28 C29 C30'.split():
    prop(p)
def utjob(fn, props, functions, unwind=23, **kw):
    job(name='util_' + fn, file='h_util.c', fn='harness_' + fn, props=props, src={UT: []}, unwind=unwind, nsecs=1,
        functions=functions, cdefs=CT + kw.pop('cdefs', []), **kw)
utjob('i64', weight=8, props='C17', functions=['parse_i64'], trusted=['strtoll, strtoull: contract of the C library (base 10, C locale)'])
utjob('u64', weight=8, props='C17', functions=['parse_u64'])
utjob('utoa', 'C17', ['u64toa'], solver='--z3', weight=9)
utjob('itoa', 'C17', [], nocbmc=True)
job(name='util_itoa_c', file='h_util.c', fn='harness_itoa_c', props='C17', src={UT: ['u64toa']}, unwind=23, functions=['i64toa'], cdefs=CT, nonative=True)
utjob('add', 'C17', ['int64_add_clamp'])
for nm, v in (('s', 'SECOND'), ('ms', 'MILLISECOND')):
    job(name='util_mul_' + nm, file='h_util.c', fn='harness_mul', props='C17', src={UT: []}, unwind=2, nsecs=1, cdefs=CT + ['-DMULB=' + v], ndefs=['-DMULB=' + v],
        functions=['int64_mul_clamp'], solver='--z3')
utjob('mulany', 'C17', [], nocbmc=True)
utjob('uvarint', 'C21', ['varint_write_u64', 'varint_read_u64', 'varint_write_i64', 'varint_read_i64'], unwind=14)
utjob('fixed', 'C21', ['write_u64', 'read_u64', 'write_u32', 'read_u32'], unwind=12)
utjob('crc', 'C21', ['crc32'], unwind=257, bounded='up to 4 bytes', ndefs=['-DCRCN=64'])
utjob('argeq', 'C17', ['argeq_bytes'], unwind=10, bounded='up to 8 bytes')
utjob('fnv', 'C20', ['fnv1a_case'], unwind=12, solver='--z3', bounded='up to 10 bytes', cdefs=['-DFNVL'], trusted=['tolower: contract of the C library'])
