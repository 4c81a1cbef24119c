PGC = 'src/pogocache.c'
p('C01', 'A stored entry reads back exactly as it was stored',
  'Whatever key, value, expiration, flags and CAS number an entry is stored with, every later read of it returns exactly those bytes, lengths and numbers. This holds for every length (including empty keys and values), every byte value and every 64-bit or 32-bit number, and the memory reported for the entry is the memory it occupies.',
  'inputs configurations', 'all keys and values of any length and content, all expirations, flags and CAS numbers, CAS on or off, key compaction on or off',
  'The tests store a handful of short ASCII keys through HTTP; the packed layout (optional fields, varint lengths, compacted keys) has a branch per field and per length class.',
  PGC + ' src/pogocache.h', [('packed entry layout', 'entry_new, entry_extract'), ('length encoding', 'varint_write_u64, varint_read_u64')],
  observe=['pogocache_store / pogocache_load callback arguments', 'pogocache_size'],
  note='Proof for all lengths of the entry layout against contracts of varint and sixpack, which are proved by other jobs. Assumes memcpy copies its bytes (contract of the C library) and object sizes below 2^40.')
p('C02', 'Keys are the same exactly when their bytes are the same',
  'Two operations address the same entry exactly when their keys have the same length and the same bytes, whatever those bytes are and whether or not the key is stored in compacted form. Compacting a key and expanding it gives back the key.',
  'inputs configurations', 'all pairs of keys of any length and content, key compaction on or off',
  'The tests use a few distinct ASCII keys; aliasing needs particular byte combinations near the edges of the compaction alphabet and length limit.',
  PGC, [('6-bit key compaction', 'sixpack, unsixpack'), ('key comparison', 'entry_compare, bucket_eq')], observe=['lookup of one key after storing another'],
  note='Proof for all keys up to the 128-byte compaction limit of sixpack/unsixpack (longer keys are not compacted, proved in C01), and for all lengths of the comparison functions.')
p('C03', 'The cache is a map: a key reads as the last thing stored under it',
  'After any history of stores, loads, deletes, sweeps and clears, a lookup finds a key exactly when it was stored and not since deleted, replaced, expired or evicted, and hands out what was stored last. No operation on one key changes or hides another key, however keys collide and whenever the table grows or shrinks.',
  'histories inputs', 'all operation histories over all keys and hash values (collisions and wrap-around included), growth and shrinking at every point',
  'Tests touch a few keys in a nearly empty table; displacement, wrap-around and backward-shift deletion need colliding hashes and full tables.',
  PGC, [('robin hood map', 'map_get_bucket, map_insert, map_delete, delbkt, resize'), ('operations', 'storeop, loadop, deleteop'), ('shard of a key', 'shard_index, acquire_for_key')],
  state=[('struct map', 'open addressing table with distances (dib) and 24-bit hashes', PGC)], observe=['pogocache_load, pogocache_delete results'],
  note='storeop/loadop/deleteop are proved against the map contract for a table of any size. The map functions themselves are checked on every well-formed table of 4 buckets (thorough: 8) and every hash: bounded, labelled so in the evidence. One known finding: 255 or more colliding keys (known-findings.txt).')
p('C04', 'Conditional stores take effect exactly when their condition holds',
  'A store with NX stores only if the key has no live entry, with XX only if it has one, with CAS only if the live entry has that CAS number, and a store or delete whose callback declines changes nothing; otherwise it takes effect, and KEEPTTL keeps the remaining lifetime. A declined operation leaves value, expiration, flags and CAS number as they were, the result tells what happened, and every change gives the key a CAS number no earlier one had.',
  'inputs histories configurations', 'all combinations of options, of presence, absence and expiry of the old entry, and of callback answers',
  'The option combinations times the states of the old entry (absent, expired, live, other CAS) are far more than any test lists, and a wrong restore of a replaced entry shows only later.',
  PGC, [('store, update and delete conditions', 'storeop, loadop, deleteop')], observe=['result codes', 'entry after a declined operation'],
  note='Proof over every option combination and every old entry, for a table of any size, against the contracts of the map and entry functions.')
p('C05', 'An expired entry is never served, and a live one never expires early',
  'From the moment its expiration time is reached an entry is treated as absent by every operation, and before that moment no operation treats it as expired; an entry without an expiration never expires. A lifetime that would overflow the clock means the far future, not the past.',
  'inputs histories', 'all expiration times, clock values and operations',
  'Tests do not wait for or simulate expiry at the boundary; comparison direction, overflow and the paths of each operation cannot be sampled.',
  PGC, [('liveness', 'entry_alive_exp, int64_add_clamp'), ('expiry in each operation', 'storeop, loadop, deleteop, iterop, sweepop, entryiter')], observe=['load after expiry', 'sweep counts'],
  note='Proof for store, load, delete and the time arithmetic; walks and sweeps are bounded to tables of 4 buckets (thorough: 8).')
p('C06', 'Low memory evicts at most one other entry, preferring the least recently used',
  'A store that grows the table under low memory evicts at most one entry: of two sampled candidates an expired one first, otherwise the one accessed longer ago, and never the entry just stored. Without low memory, or with eviction disabled, no live entry is ever removed by a store to another key.',
  'histories inputs configurations', 'all tables, access times, candidate choices and option settings',
  'No test runs with low memory; the victim depends on sampled buckets and access times.',
  PGC, [('eviction', 'auto_evict_entry, evict_entry, storeop'), ('access time', 'loadop, entry_settime')], observe=['evicted callback', 'count'],
  note='When to evict is proved for every table (storeop); which entry goes is checked on every table of 4 buckets (thorough: 8): bounded.')
p('C07', 'Counts and sizes agree with the stored entries',
  'After any history, the entry count is the number of entries stored and not yet removed, the reported size of the entries is the sum of their sizes, and the total is the number of entries ever stored. An operation that stores nothing counts nothing, and the figures of the whole cache are the sums over its shards.',
  'histories inputs', 'all histories of stores, updates, declined operations, deletes, expirations, evictions, sweeps and clears',
  'An accounting slip on a rare path (expired on load, declined store, update in place) shows only as a drift after many operations.',
  PGC, [('map counters', 'map_insert, delbkt, delentry_at_bkt, clearop, resize'), ('sums over shards', 'pogocache_count, pogocache_total, pogocache_size')],
  state=[('count, total, entsize', 'entry count, entries ever stored, bytes of all entries', PGC)], observe=['pogocache_count, pogocache_total, pogocache_size'],
  note='Proof at operation level for any table; counter maintenance inside the map functions is checked on every table of 4 buckets (thorough: 8); sums over 3 shards.')
p('C08', 'A walk over the cache visits every live entry exactly once',
  'Iterating, sweeping, or stepping a cursor to its end handles every entry that is live throughout exactly once, even when entries expire or are deleted on the way; a sweep removes every expired entry and its counts are exact. A walk stops when told to, and every shard is covered, alone or within a batch.',
  'histories inputs', 'all tables, hash placements, expirations, callback answers, and shard selections',
  'Skipping or repeating needs an entry shifted across the walk position or the wrap-around while it is being walked.',
  PGC, [('bucket walks', 'iterop, sweepop, entryiter, clearop'), ('shard walks', 'pogocache_iter, pogocache_sweep, pogocache_entry_iter, pogocache_clear')], observe=['entry callback', 'swept and kept counts', 'cursor'], level='other',
  note='Checked on every well-formed table of 4 buckets (thorough: 8) and 3 shards: bounded.')
p('C09', 'Every insert, replacement and removal is announced exactly once',
  'Each entry that is inserted, replaced, deleted, cleared, expired or evicted is announced to the notification and eviction callbacks exactly once, with the right reason, key, old and new content, while that content is still valid. Nothing is announced that did not happen.',
  'histories inputs', 'all operations, option combinations and old entries',
  'No test registers callbacks; a missing or doubled announcement changes no reply.',
  PGC, [('notifications', 'notify, and its calls in storeop, loadop, deleteop, iterop, sweepop, clearop, evict_entry')], observe=['notify and evicted callbacks'],
  note='Proof for store, load and delete; for walks, sweeps, clear and eviction checked on every table of 4 buckets (thorough: 8).')
p('C10', 'Running out of memory loses nothing and leaks nothing',
  'When an allocation fails, the operation reports it and every key reads as before; no memory is used after it is released, and every entry, table and batch is released exactly once. An entry held by a reader stays valid until it is let go.',
  'fault_sequences histories', 'failure of any allocation in any operation, all histories',
  'No test makes an allocation fail, and use after release is silent without an instrumented allocator.',
  PGC, [('allocation failure paths', 'entry_new, map_insert, resize, storeop, clearop, shard_init, pogocache_begin'), ('reference counts', 'entry_free, pogocache_entry_retain, pogocache_entry_release')], observe=['POGOCACHE_NOMEM', 'allocator calls'],
  note='Proof for the operations with every allocation outcome; table rebuilding checked on every table of 4 buckets (thorough: 8). Double release and use after release are also watched by AddressSanitizer in the executed contracts.')
p('C11', 'A shard is only touched under its lock, and locks are always released',
  'Every operation works on a shard only while holding that shard\'s lock, takes a lock only when it is free (or already held by the same batch), and leaves no lock behind; a batch keeps the shards it used locked, and no others, until it ends. Each operation on a key goes to the one shard of that key.',
  'schedules histories', 'all operations, inside and outside of batches, any state of the lock words',
  'A lock that is skipped or left behind shows only under contention.',
  PGC, [('lock words', 'lock, acquire_for_key, acquire_for_scan'), ('batches', 'pogocache_begin, pogocache_end')],
  state=[('shard.lock', '0 free, batch address, or all ones', PGC)], observe=['lock word during the shard operation'],
  note='The lock function is proved for any number of waits with the other threads changing the lock word arbitrarily; operations are checked with 3 shards. The memory model is sequentially consistent.')
UTC = 'src/util.c'
p('C17', 'Numbers are read and written exactly, and time arithmetic saturates',
  'A number in a request is accepted exactly when it is an optional sign (none but a plus for an unsigned number) followed by decimal digits and nothing else, in at most 21 characters, and its value fits in 64 bits; the value used is the value written. A number in a reply is the shortest decimal form of its value. Adding and multiplying times saturates at the limits of a signed 64-bit integer and is exact otherwise. Command and option names are compared without regard to letter case, over their full length.',
  'inputs', 'all 64-bit numbers, all argument bytes up to the length limit, all pairs of times',
  'The tests use a few small numbers; the limits, embedded bytes and overflow are single points in a 64-bit space.',
  UTC, [('number parsing', 'parse_i64, parse_u64, argi64, argu64'), ('number printing', 'u64toa, i64toa'), ('saturating arithmetic', 'int64_add_clamp, int64_mul_clamp'), ('name comparison', 'argeq_bytes')], observe=['replies to numeric arguments'],
  note='Proof for all inputs (strtoll/strtoull by the contract of the C library, executed natively; int64_mul_clamp for the two constants it is used with); name comparison up to 8 bytes is bounded.')
p('C22', 'A pattern matches exactly the texts it describes',
  'In a pattern for KEYS or SCAN, a star stands for any bytes (also none), a question mark for any one byte, a backslash makes the next byte stand for itself, and every other byte stands for itself. A pattern matches a key exactly when the whole key is so described (up to 127 separate stars).',
  'inputs', 'all patterns and all texts',
  'The combinations of stars, escapes and repeated text, and the ends of pattern and text, are not covered by examples.',
  UTC + ' src/cmds.c', [('pattern matcher', 'match')], observe=['KEYS and SCAN results'],
  note='Bounded: all patterns and texts up to 7 bytes (thorough: 9). The recursive call is taken by contract, and longer ones are executed with random inputs.')
p('C23', 'Buffers and argument lists hold what was appended, and own their memory',
  'A buffer contains exactly the bytes that were appended to it, in order, whatever their number and sizes, and never writes outside of its memory. An argument list contains exactly the arguments that were appended and not removed, in order; borrowed arguments are never released by it, and copied ones are released exactly once.',
  'inputs histories', 'all sequences of appends, removals and clears, of all sizes, borrowed and copied',
  'Reallocation boundaries and mixed ownership need particular sizes and sequences.',
  'src/buf.c src/args.c', [('growing buffers', 'buf_ensure, buf_append, buf_append_byte, buf_append_uvarint, buf_clear'), ('argument lists', 'args_append, args_clear, args_free, args_remove_first')], observe=['buffer content', 'allocator calls'],
  note='Buffers: proof for any length below 2^40 (memcpy and realloc by contract). Argument lists: all histories of 4 operations (bounded).')
p('C12', 'RESP and inline requests are read exactly',
  'A RESP request (array of counted arguments) becomes the command with exactly the announced bytes as arguments, consumes exactly its own bytes, and is not executed before all of them have arrived; a malformed one is rejected. An inline request is one line of blank separated arguments; a quoted argument may contain blanks and escapes. Nothing is read outside of the bytes received. Arguments beyond the size or number limits are rejected.',
  'inputs', 'all byte sequences, cut at every point',
  'The tests send well-formed requests whole; lengths, cuts and quotes interact.',
  'src/resp.c', [('RESP parser', 'parse_resp, read_num'), ('inline parser', 'parse_resp_telnet')], observe=['the executed command and its arguments'],
  note='Bounded: all requests up to 12 bytes (inline 9) against a reference reader with limits scaled down; longer ones are generated and executed. Argument lists, buffers and numbers by their contracts (C23, C17).')
p('C13', 'Memcache requests mean what the protocol says',
  'Each memcache text request is translated to the equivalent command with exactly its key, value, flags, expiry and cas; a storage request waits for all of its value, which is taken by length and not by content. Requests with a wrong number of words, a bad number or a bad key are rejected, and reading goes on after them (after the value of a storage request). Only noreply requests go unanswered.',
  'inputs', 'all words and numbers of words for every command, all values, cut at every point',
  'The tests use one form of a few commands.',
  'src/memcache.c', [('line reader', 'parse_memcache_telnet'), ('commands', 'parse_memcache'), ('keys', 'mc_valid_key')], observe=['the executed command and its arguments', 'where the next request starts'],
  note='Keys: proof. Lines up to 12 bytes and every command with up to 4 words (storage 6, cas 7) of up to 9 bytes: bounded; numbers by contract (C17).')
p('C14', 'HTTP requests mean what they say',
  'GET, PUT and DELETE of /key become the equivalent command with exactly the key of the path, the body announced by the content length, and the options of the query; the body is waited for. Version, keep-alive and token are those of the request line, headers and query. With a password set, a request without the right token, and any request with a wrong one, is rejected before it becomes a command. Malformed requests and keys are rejected.',
  'inputs', 'all request lines, queries, headers, tokens and bodies, cut at every point',
  'The tests send a few fixed requests.',
  'src/http.c', [('HTTP parser', 'parse_http'), ('keys', 'http_valid_key')], observe=['the executed command and its arguments', 'status of the response'],
  note='Keys: proof. The parser against a reference reader with a window of 2 to 8 arbitrary bytes in each part of a request (method, path, version, query, headers): bounded. Content length and body are only executed on generated requests.')
p('C16', 'Every reply is framed so that clients can tell where it ends',
  'A bulk reply is the length of its data, then exactly the data. A line reply is one line, whatever bytes it was made from. Numbers are exact. An error is one line (memcache: naming the side to blame; Postgres: one error then ready), and an HTTP response announces the length of its body. No reply touches those before it or the memory outside of the output buffer.',
  'inputs', 'all data, texts, numbers, protocols and fill levels of the output buffer',
  'A wrong frame shows only for particular bytes or sizes, and then breaks all later replies.',
  'src/conn.c', [('replies', 'conn_write_bulk, conn_write_string, conn_write_error, conn_write_int, conn_write_uint, conn_write_array, conn_write_null, conn_write_http')], observe=['bytes sent to the client'],
  note='Bounded: texts up to 12 bytes, numbers below 100; larger ones, HTTP responses and errors of the other protocols are executed on generated inputs. The output buffer is taken by contract.')
p('C25', 'How a stream is cut into packets does not change what is executed',
  'For every way of cutting the bytes of a connection into packets, the parser sees exactly the bytes received and not yet used, in order; each complete request is executed (or answered, or rejected) once, in order, when its last byte has arrived, and the rest is kept. Nothing is executed on a closed connection or while a background task of the connection runs.',
  'inputs schedules', 'all contents, cuts, and outcomes of parser and command',
  'The tests send each request in one packet.',
  'src/conn.c src/parse.c', [('stream loop', 'evdata')], state=[('conn.packet', 'bytes received and not used', 'src/conn.c')], observe=['sequence of executed commands'],
  note='The step of one packet is checked from any state that satisfies the invariant, so any number of packets; the packet and the kept bytes are bounded to 4 each (longer ones are executed). Parsers and commands are taken by contract.')
p('C27', 'The protocol of a connection is recognised from its first line, and stays',
  'A connection that starts with an asterisk or an upper-case word speaks RESP, one that starts with a null byte speaks Postgres, one whose first line ends with an HTTP version speaks HTTP, and any other speaks memcache; the choice waits for the first line and is kept. Each request is read by the parser of its protocol with the whole input, and starts with no arguments, no error and no flags of an earlier one.',
  'inputs histories', 'all first lines, cut at every point; all protocols of earlier requests',
  'The tests use one connection per protocol, whole lines.',
  'src/parse.c', [('recognition', 'sniff_proto'), ('dispatch', 'parse_command')], observe=['protocol of the replies'],
  note='Bounded: first lines up to 32 bytes; parsers by contract.')
p('C18', 'INCR, DECR, APPEND and PREPEND change a value atomically and exactly',
  'INCR, DECR and their BY and unsigned forms read a value and store it plus or minus the operand within one batch of the cache, whatever the numbers: a missing key counts as 0 (for memcache it is NOT_FOUND), a value or an operand that is not a number of the type and a result that does not fit change nothing and are errors (a memcache decrement stops at zero, an increment wraps). APPEND and PREPEND store the old value with the argument after or before it, up to the largest value. Expiration and flags are kept, the reply is the outcome, and the batch is always ended.',
  'inputs histories', 'all 64-bit numbers, values and entries; all protocols; all outcomes of the cache operations including no memory',
  'The tests increment a few small numbers; overflow, wrapping, kept expirations and failures have no test.',
  'src/cmds.c', [('counters', 'execINCRDECR'), ('operands', 'cmdINCRDECRBY'), ('concatenation', 'cmdAPPEND'), ('concatenation', 'append_entry')], observe=['value stored, its expiration and flags, reply'],
  note='Bounded: appended values up to 2 bytes each.')
p('C19', 'Each key command does what its arguments say, and replies the outcome',
  'SET, SETEX, GET, MGET, MGETS, DEL, EXISTS, TOUCH, TTL, PTTL, EXPIRE and DBSIZE perform exactly the operations on the cache that their arguments ask for: the keys in order, the value, NX, XX, KEEPTTL, FLAGS, CAS and the expiration, which is relative to now or a unix time and never overflows; memcache takes more than 30 days as a unix time and a negative time as already expired. A command that is not well formed changes nothing and replies an error. The reply of each protocol tells the outcome and the data of exactly the entries found.',
  'inputs histories', 'all option words in any order and all numbers; all entries found and outcomes of the cache operations; all protocols; all clock values',
  'The tests use each option alone, on one protocol, with small numbers.',
  'src/cmds.c', [('SET options', 'cmdSET'), ('store and reply', 'execSET'), ('expirations', 'expiry_seconds_time'), ('reads', 'get_entry'), ('time left', 'ttl_entry'), ('EXPIRE', 'cmdEXPIRE')], observe=['operations on the cache', 'replies'],
  note='Bounded: up to 4 option words, 3 keys, keys and values of 2 bytes.')
p('C28', 'Commands over the whole keyspace cover every shard and entry',
  'A FLUSHALL, FLUSHDB, FLUSH or SWEEP, in the foreground, in the background, delayed or on many threads, reaches every shard, also when a thread cannot be started, and when it replies an error because no work could be started it changed nothing. KEYS replies exactly the keys of the live entries that match, each once. SCAN replies the matching keys of the entries from the cursor on, up to COUNT, with the cursor where the next call goes on or 0 at the end, and releases every entry it visits.',
  'inputs faults', 'all numbers of shards and processors, all sets of threads that cannot be started, all entries, patterns and cursors; all option words',
  'The tests never run out of threads, and scan small keyspaces on one machine size.',
  'src/cmds.c', [('flush', 'cmdFLUSHALL'), ('partition of the shards', 'flushfast'), ('partition of the shards', 'sweepfast'), ('KEYS', 'bgkeys_done'), ('SCAN', 'scan_work'), ('SCAN reply', 'scan_done')], observe=['shards cleared or swept', 'replies'],
  note='Bounded: up to 6 shards, 3 processors, 3 entries. Threads run one after the other, at the point where they are started.')
p('C20', 'Nothing runs before exactly the password was given; a name runs its command',
  'While a password is set and a connection has not given it, a request of the RESP, memcache or Postgres protocol runs nothing but AUTH, and an HTTP request that does not carry exactly the password is rejected. AUTH (or the Postgres password message) authorizes the connection if and only if what it gives is exactly the password, of the same length; the reply says so. On an authorized connection the command that is named by the first argument, in any letter case, runs once with the arguments of the request; a name that is no command runs none and is answered by an error.',
  'inputs', 'all passwords and attempts up to 3 bytes, all protocols, all 40 commands in every letter case, all other names up to 9 bytes',
  'The tests use one password, and commands in lower or upper case.',
  'src/cmds.c', [('dispatch', 'evcommand'), ('lookup', 'get_cmd'), ('table', 'build_commands_table'), ('AUTH', 'cmdAUTH')], observe=['which command runs', 'whether the connection is authorized', 'replies'],
  note='Bounded in the lengths. The lookup uses the hash of names by contract: the same for every letter case, which is an obligation of its own (up to 10 bytes). HTTP: windows of arbitrary bytes as for C14. TLS is not part of it.')
p('C90', 'Concurrent operations are linearizable',
  'Operations issued by any number of threads have the same effects and results as some one-at-a-time order of them consistent with real time.',
  'schedules', 'all thread interleavings on weakly ordered memory', 'Tests are single-threaded.', PGC, [('spin locks per shard', 'lock')],
  na='The C verifier here checks sequential code function by function; it has no thread-modular logic for C11 atomics (release/acquire ownership transfer). The sequential part, lock discipline, is C11.')
