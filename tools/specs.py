"""The properties and the queries that decide them."""
COMMON_ASSUMPTIONS = [
    'system calls, threads, time and allocation are the stand-ins of /verif/h (vp_*.c); everything else is the real source compiled from /repo at run time',
    'sequentially consistent memory; x86-64 Linux data layout; C semantics as implemented by clang 18 at -O0 plus mem2reg',
    'allocation succeeds unless a query says that it may fail',
]
PROPS = {}


def prop(pid, queries, assumptions=()):
    PROPS[pid] = {'queries': queries, 'assumptions': list(assumptions)}


def Q(name, harness, srcs=(), **kw):
    d = {'name': name, 'harness': harness, 'srcs': list(srcs)}
    d.update(kw)
    return d


import os as _os
_REPO = _os.environ.get('VP_REPO', '/repo')


def _srcs(d, skip=()):
    return [d + '/' + f for f in sorted(_os.listdir(_os.path.join(_REPO, d))) if f.endswith('.c') and f not in skip]


# the whole runtime as built for Linux: every source file of the two directories but the Vali OS dispatcher
RT = _srcs('runtime', ('dispatch_vali.c',)) + _srcs('runtime/link/socket')
W = ['vp_threads.c', 'vp_sock.c']



def ht(name, bounds, **defs):
    return Q(name, 'hashtable.c', RT, world=W, defs=defs, bounds='capacity 16 at creation; ' + bounds)


def deep(q, **kw):
    d = dict(q)
    d['defs'] = dict(q.get('defs', {}))
    for k, v in kw.items():
        if k.isupper():
            d['defs'][k] = v
        else:
            d[k] = v
    d['replaces'] = q['name']
    d['name'] = kw.get('name', q['name'] + '-deep')
    d['tier'] = 'thorough'
    return d


_c18 = [
    ht('map-from-empty', 'any 2 operations from an empty table, 32-bit keys, then any probe', OPS=2),
    ht('map-chain', 'any 3 operations, keys with home slots 14, 15, 0 (32-bit keys otherwise free)', OPS=3, HOMES=3),
    ht('map-long-chain', '8 elements in one wrapped chain, then any operation with a key of home slots 14..1', OPS=1, PREFIX=8, HOMES=4, KEYMASK='0x1ff'),
    ht('map-equal-hash', '4 elements with pairwise equal hashes, then any 2 operations', OPS=2, PREFIX=4, PATTERN=2, KEYMASK='0x3f'),
    ht('map-grow', '12 elements, then any operation: crosses the growth boundary', OPS=1, PREFIX=12, PATTERN=1, KEYMASK='0x3f'),
    ht('map-grow-chain', '12 elements in one wrapped chain, then any operation', OPS=1, PREFIX=12, PATTERN=0, KEYMASK='0x1ff'),
    ht('map-shrink', 'grown to 32 slots, shrunk to 6 elements, then any operation: crosses the shrink boundary', OPS=1, PREFIX=13, SHRINK_TO=6, PATTERN=1, KEYMASK='0x3f'),
    ht('map-shrink-chain', 'grown to 32 slots, shrunk to 6 elements of one chain, then any operation', OPS=1, PREFIX=13, SHRINK_TO=6, PATTERN=0, KEYMASK='0x1ff'),
    ht('map-many', '200 elements, scattered, then any operation', OPS=1, PREFIX=200, PATTERN=1, KEYMASK='0x387'),
    ht('map-many-removed', '200 elements in one chain, 170 of them removed again, then any operation', OPS=1, PREFIX=200, SHRINK_TO=30, PATTERN=0, KEYMASK='0x23c', FULL=1),
]
prop('C18', _c18 + [
    deep(_c18[1], OPS=4, bounds='any 4 operations, home slots 14, 15, 0'),
    deep(_c18[2], OPS=2, bounds='8 elements in one wrapped chain, then any 2 operations'),
    deep(_c18[3], PREFIX=6, bounds='6 elements with pairwise equal hashes, then any 2 operations'),
    deep(_c18[4], OPS=2, PREFIX=11, bounds='11 elements, then any 2 operations across the growth boundary'),
    deep(_c18[6], OPS=2, SHRINK_TO=7, bounds='32 slots, 7 elements, then any 2 operations across the shrink boundary'),
])

def rt(name, harness, bounds, opts=(), **defs):
    return Q(name, harness, RT, world=W, defs=defs, bounds=bounds, opts=list(opts))


prop('C05', [
    rt('any-bytes', 'srv_stream.c', '24 arbitrary bytes', MODE=0, NBYTES=24, SEG=0),
    rt('any-length', 'srv_stream.c', 'any 32-bit length field, 900 bytes available', MODE=1, SEG=0),
])
prop('C06', [
    rt('two-messages', 'srv_stream.c', '2 messages, arbitrary ids and payload, 2 short deliveries anywhere', MODE=2, NMSG=2, SEG=2),
    rt('pieces', 'srv_stream.c', '1 message, arbitrary id and payload, 4 short deliveries anywhere', MODE=2, NMSG=1, SEG=4),
    rt('three-messages', 'srv_stream.c', '3 messages, arbitrary ids and payload, 1 short delivery anywhere', MODE=2, NMSG=3, SEG=1),
    rt('two-clients', 'srv_stream.c', '2 clients with 2 messages of 11 or 12 bytes each, arbitrary ids and payload, 2 short deliveries anywhere', MODE=3, NMSG=2, SEG=2, MAXLEN=12),
    rt('largest', 'srv_stream.c', 'a message of the configured maximum size or up to 2 bytes less and another one, 2 short deliveries anywhere', MODE=4, SEG=2),
    rt('then-leaves', 'srv_stream.c', '2 messages, arbitrary ids and payload, then the end of the connection, known with or after any of them', MODE=2, NMSG=2, SEG=0, LEAVES=1),
])


def th(name, harness, bounds, srcs, preempt, **defs):
    return Q(name, harness, srcs, world=W, defs=defs, bounds=bounds + '; at most %d preemptions' % preempt, opts=['--preempt', preempt])


prop('C19', [
    Q('queue', 'queue.c', RT, world=W, defs={'CAP': 3, 'OPS': 8}, bounds='capacity 3, any 8 operations'),
    Q('queue-warm', 'queue.c', RT, world=W, defs={'CAP': 32, 'OPS': 4, 'WARM': 20, 'FILL': 31}, bounds='capacity 32 (that of the worker pool), 20 jobs have passed, 31 are queued, any 4 operations'),
    Q('pool-grow', 'stack.c', RT, world=W, defs={'INIT': 2, 'OPS': 6}, bounds='initial size 2, any 6 operations'),
    Q('pool-many', 'stack.c', RT, world=W, defs={'INIT': 1, 'OPS': 3, 'FILL': 70}, bounds='initial size 1, 70 buffers returned, any 3 operations, all taken again'),
    th('pool-threads-grow', 'stack.c', '2 threads, no buffer at first, initial size 1, 2 rounds', RT, 2, INIT=1, OPS=2, THREADS=2, START=0),
    th('pool-three-threads', 'stack.c', '3 threads, 1 buffer at first, initial size 1', RT, 2, INIT=1, OPS=1, THREADS=3, START=1),
    th('pool-threads', 'stack.c', '2 threads, 2 buffers, no growth, 2 rounds', RT, 3, INIT=8, OPS=2, THREADS=2),
])
prop('C20', [
    th('rw-2r1w', 'rwlock.c', '2 readers, 1 writer', RT, 3, READERS=2, WRITERS=1),
    th('rw-1r2w', 'rwlock.c', '1 reader, 2 writers', RT, 3, READERS=1, WRITERS=2),
])
prop('C26', [Q('crc-%d' % n, 'crc.c', RT, world=W, defs={'LEN': n}, bounds='all byte strings of length %d' % n) for n in (1, 2)] + [
    Q('crc-6', 'crc.c', RT, world=W, defs={'LEN': 6, 'ONE': 1}, bounds='6-byte addresses, any value of any one byte'),
    Q('crc-110', 'crc.c', RT, world=W, defs={'LEN': 110, 'TAIL': 1}, bounds='110-byte addresses (the longest of a local socket), one of 4 values of any byte and any value of the last'),
    Q('identity', 'srv_dgram.c', RT, world=W, defs={'MODE': 3, 'ALEN': 28}, bounds='two senders with addresses of 1..28 bytes that differ in one byte: any value of the last two, one of 4 values of any other'),
    Q('crc-3', 'crc.c', RT, world=W, defs={'LEN': 3}, bounds='all byte strings of length 3', tier='thorough'),
])
prop('C17', [
    Q('arena', 'arena.c', RT, world=W, defs={'OPS': 4}, bounds='arena of 600 bytes, any 4 operations, 8 sizes, 6 ways of release'),
    Q('arena-large', 'arena.c', RT, world=W, defs={'OPS': 3, 'ASIZE': 200000}, bounds='arena of 200000 bytes, any 3 operations, 7 sizes, 6 ways of release'),
    Q('arena-deep', 'arena.c', RT, world=W, defs={'OPS': 6}, bounds='arena of 600 bytes, any 6 operations, 8 sizes, 6 ways of release', tier='thorough', replaces='arena'),
])
prop('C07', [
    rt('any-datagram', 'srv_dgram.c', 'one datagram of 0..14 arbitrary bytes, 5 address lengths', MODE=0),
    rt('any-length', 'srv_dgram.c', 'a datagram of 39..41, 500, 560 or 1200 bytes (maximum 40, receive buffer below 552), any announced length', MODE=2),
    rt('two-senders', 'srv_dgram.c', '2 senders, immediate and deferred responses, subscription and event', MODE=1),
    rt('two-senders-long', 'srv_dgram.c', '2 senders with addresses of 24..28 bytes, immediate and deferred responses, subscription and event', MODE=1, ALEN=28),
    rt('two-senders-path', 'srv_dgram.c', '2 senders with addresses of 106..110 bytes, immediate and deferred responses, subscription and event', MODE=1, ALEN=110, VP_ADDRCAP=128),
])
prop('C10', [
    rt('respond-both', 'srv_pool.c', '2 workers respond to any 2 requests at the same time; at most 1 preemption', ['--preempt', 1], MODE=7, ACT=0),
    rt('respond', 'srv_respond.c', '2 clients, 3 requests with any ids, each answered at once or deferred in any order, one client may leave', LEAVE=1),
    rt('respond-long', 'srv_respond.c', '2 clients, 3 requests of 312 bytes, answered at once or deferred in any order', PAD=300, LEAVE=0, MAXMSG=2048),
    rt('respond-longer', 'srv_respond.c', '2 clients, 3 requests of 1912 bytes, answered at once or deferred in any order', PAD=1900, LEAVE=0, MAXMSG=2048),
    rt('reuse', 'srv_respond.c', '3 requests of 2 clients, then either client leaves and another one connects in its place and calls; any ids, each answered at once or deferred in any order', LEAVE=0, REUSE=1),
    rt('reuse-many', 'srv_respond.c', 'the same with 1..8, 16, 32, 128, 255 or 256 clients one after another in its place', LEAVE=0, REUSE=1, TIMES=1),
    rt('respond-meanwhile', 'srv_pool.c', '2 workers, a handler responds while a client leaves, connects, subscribes or unsubscribes; at most 1 preemption', ['--preempt', 1], MODE=4, ACT=0),
])
prop('C11', [
    rt('register-both', 'srv_pool.c', '2 workers register the same service at the same time; at most 1 preemption', ['--preempt', 1], MODE=7, ACT=3),
    rt('dispatch', 'srv_dispatch.c', 'any 2 (un)registrations of 2 services, a message with any service, function, id, flags and argument', OPS=2),
    rt('many-services', 'srv_dispatch.c', '18 services with ids at 3 distances, all or some of them unregistered again, any one (un)registered, a message for each', MANY=18, VP_SENTMAX=40),
    rt('dispatch-same-home', 'srv_dispatch.c', 'as dispatch, the two services colliding in the table', OPS=3, SAMEHOME=1),
    rt('client-services', 'cli_call.c', 'a client: any 3 (un)registrations of 3 services (two with one number, two in one place of the table), any event', MODE=5, OPS=3),
])
prop('C21', [
    rt('with-workers', 'srv_pool.c', '2 workers, any 2 (un)subscriptions of a service or of all, an event after each; at most 1 preemption', ['--preempt', 1], MODE=8),
    rt('broadcast-both', 'srv_pool.c', '2 workers broadcast 2 events of any content at the same time; at most 1 preemption', ['--preempt', 1], MODE=7, ACT=1),
    rt('broadcast-meanwhile', 'srv_pool.c', '2 workers, a handler broadcasts an event while a client leaves, connects, subscribes or unsubscribes; at most 1 preemption', ['--preempt', 1], MODE=4, ACT=1),
    rt('subscriptions', 'srv_subs.c', '2 clients, any 2 (un)subscriptions of any service, an event of any service', OPS=2),
    rt('stream-and-datagram', 'srv_subs.c', 'a stream and 2 datagram clients, any 3 (un)subscriptions of one of 2 services or of all, an event of one of 3 services', OPS=3, MIXED=1),
])
prop('C22', [
    rt('event-both', 'srv_pool.c', '2 workers send 2 events of any content at the same time; at most 1 preemption', ['--preempt', 1], MODE=7, ACT=2),
    rt('event-meanwhile', 'srv_pool.c', '2 workers, a handler sends an event to one client while a client leaves, connects, subscribes or unsubscribes; at most 1 preemption', ['--preempt', 1], MODE=4, ACT=2),
    rt('respond-meanwhile', 'srv_pool.c', '2 workers, a handler responds while a client leaves, connects, subscribes or unsubscribes; at most 1 preemption', ['--preempt', 1], MODE=4, ACT=0),
    rt('connections', 'srv_life.c', 'any 4 events of 8 kinds, up to 3 clients', MODE=0, OPS=4, GREET=1, VP_SENTMAX=24),
    rt('connections-high', 'srv_life.c', 'any 3 events of 8 kinds, up to 3 clients, descriptors from 1020 on', MODE=0, OPS=3, GREET=1, VP_SENTMAX=24, VP_FD0=1020),
    rt('connections-five', 'srv_life.c', 'any 5 events of 8 kinds, up to 3 clients', MODE=0, OPS=5),
    rt('connections-many', 'srv_life.c', '11 clients, then any 2 events of 8 kinds (the table grows)', MODE=0, OPS=2, EXTRA=11, VP_NFD=32, GREET=1, VP_SENTMAX=40),
    rt('connections-few-left', 'srv_life.c', '15 clients of which the oldest or youngest 9 left, then any 2 events of 8 kinds (the table shrinks)', MODE=0, OPS=2, EXTRA=15, LEAVERS=9, VP_NFD=32),
    rt('datagram-clients', 'srv_subs.c', 'a stream and 2 datagram clients, any 2 (un)subscriptions of one of 2 services or of all, events sent while they are announced', OPS=2, MIXED=1, GREET=1),
    rt('connections-faults', 'srv_life.c', 'any 3 events, one failing accept and one failing send anywhere', MODE=0, OPS=3, FAULTS=1),
])
prop('C23', [
    rt('server-receive', 'srv_faults.c', 'stream and datagram clients, any 3 of 12 operations, one failing receive anywhere', KIND=0, OPS=3),
    rt('server-send', 'srv_faults.c', 'stream and datagram clients, any 3 of 12 operations, one failing or short send anywhere', KIND=1, OPS=3),
    rt('server-accept', 'srv_faults.c', 'stream and datagram clients, any 3 of 12 operations, one failing accept or registration anywhere', KIND=2, OPS=3),
    rt('server-memory', 'srv_faults.c', 'stream and datagram clients, any 3 of 12 operations, one failing allocation anywhere', KIND=3, OPS=3),
    rt('server-memory-grow', 'srv_faults.c', '12 stream clients (the table is about to grow), a datagram client, any 2 of 12 operations, one failing allocation anywhere', KIND=3, OPS=2, EXTRA=10, VP_NFD=24, VP_SENTMAX=40),
    rt('server-memory-shrink', 'srv_faults.c', '15 stream clients of which 9 left (the table is about to shrink), a datagram client, any 2 of 12 operations, one failing allocation anywhere', KIND=3, OPS=2, EXTRA=13, LEAVERS=9, VP_NFD=24, VP_SENTMAX=40),
    rt('server-memory-buffers', 'srv_faults.c', '9 buffers in use (more than the pool has room for), any operation, one failing allocation anywhere', KIND=3, OPS=1, BUFFERS=9),
] + [rt('client-%s-%s' % (n, 'datagram' if pk else 'stream'), 'cli_faults.c', 'any 3 of 7 operations on a %s, one failing %s anywhere' % ('datagram socket' if pk else 'stream', n), KIND=k, OPS=3, PACKET=pk, RECVBUF=300)
     for k, n in ((0, 'receive'), (1, 'send'), (2, 'allocation')) for pk in (0, 1)] + [
    rt('client-memory-grow', 'cli_faults.c', '11 calls in progress (the table is about to grow), any 2 of 7 operations, one failing allocation anywhere', KIND=2, OPS=2, EXTRA=11, RECVBUF=300),
])
prop('C24', [
    rt('main-loop', 'srv_life.c', 'up to 3 batches of 1 or 2 events or a failing wait, shutdown requested before a batch or by any handler', MODE=1, OPS=3),
    rt('main-loop-batches', 'srv_life.c', '40 clients that connect at once and then all call, in batches as large as the server takes, shutdown requested by any handler or afterwards', MODE=1, BATCH=40, VP_NFD=64),
    rt('main-loop-unruly', 'srv_life.c', 'any 5 of 9 events: clients that come, leave, call, send nonsense or unknown calls, with failing sends anywhere', MODE=1, UNRULY=1, OPS=5),
    rt('main-loop-faults', 'srv_life.c', 'up to 2 batches of 1 or 2 events, shutdown requested before a batch or by any handler, one failing close or removal from the event set', MODE=1, OPS=2, FAULTS=1),
])
prop('C25', [
    rt('links', 'srv_life.c', '6 links, one failing system call anywhere', MODE=2, FAULTS=1),
    rt('server-creation', 'srv_life.c', 'creation of a server, one failing allocation or system call anywhere', MODE=3, FAULTS=1),
    rt('pool-creation', 'srv_life.c', 'creation of a server with 2 workers, one failing allocation or system call anywhere; at most 1 preemption', ['--preempt', 1], MODE=3, FAULTS=1, WORKERS=2),
    rt('client-creation', 'cli_faults.c', 'creation and connection of a client, one failing allocation or system call anywhere', MODE=1),
])
prop('C30', [
    rt('server-links', 'config.c', 'any domain, any type, any address of 6 lengths up to 128 bytes, 4 orders of setting', MODE=0),
    rt('client-links', 'config.c', 'any domain, any type, any address of 6 lengths up to 128 bytes, 4 orders of setting', MODE=1),
    rt('server', 'config.c', '8 message sizes (default, negative, 0, up to 5000), 0..3 workers, callbacks and event set given or not, stream and datagram; no preemption', ['--preempt', 0], MODE=2),
    rt('client', 'config.c', '8 message sizes (default, negative, 0, up to 5000), send buffer given or not, 5 sizes of receive memory, stream and datagram', MODE=3),
])
prop('C08', [
    rt('any-bytes', 'cli_recv.c', '24 arbitrary bytes', MODE=0, NBYTES=24),
    rt('any-length', 'cli_recv.c', 'any 32-bit length field, 900 bytes available', MODE=1),
    rt('any-datagram', 'cli_recv.c', 'one datagram of 0..14 arbitrary bytes', MODE=2),
    rt('any-length-datagram', 'cli_recv.c', 'a response or event in a datagram of 39..41, 500, 560 or 1000 bytes (maximum 40), any announced length', MODE=5),
    rt('any-kinds', 'cli_recv.c', '4 messages of 6 kinds in any order, buffers for 2', MODE=3, RECVBUF=620),
    rt('recycling', 'cli_recv.c', '16 messages of one of 6 kinds and 3 lengths, then an event; buffers for 2', MODE=3, RECVBUF=620, NMSG=16, SAME=1),
    rt('pieces', 'cli_recv.c', '3 messages of 6 kinds, one short delivery anywhere', MODE=4, RECVBUF=620, NMSG=2, SEG=1),
])
prop('C09', [
    rt('requests', 'cli_call.c', '2 calls of any kind, 0..3 argument bytes, one failing send, stream and datagram', MODE=0, OPS=2),
    rt('many', 'cli_call.c', '300 calls without an answer, the last one of the maximum size, stream and datagram', MODE=4, ROUNDS=300),
    rt('very-many', 'cli_call.c', '66000 calls without an answer, the last one of the maximum size, stream and datagram', ['--max-instr', 600000000], MODE=4, ROUNDS=66000),
])
prop('C12', [
    rt('results', 'cli_call.c', '2 calls, any 4 of: ask, response, error, wait, unknown response, event', MODE=1, NC=2, OPS=4),
    rt('many-calls', 'cli_call.c', '14 calls in turn (300 bytes of receive memory), response of any length, error, stray or second answer, event', MODE=3, NC=1, ROUNDS=14, RECVBUF=300),
    rt('many-outstanding', 'cli_call.c', '300 calls without an answer, then any of three of them is answered, stream and datagram', MODE=4, ROUNDS=300),
    rt('very-many-outstanding', 'cli_call.c', '66000 calls without an answer, then any of four of them is answered, stream and datagram', ['--max-instr', 600000000], MODE=4, ROUNDS=66000),
])
_two = rt('events-and-two-calls', 'cli_reent.c', 'the same with 1 event while 2 calls are awaited together', MODE=0, EVS=1, OUTER=2, RECVBUF=512)
prop('C27', [
    rt('functions-and-callbacks', 'reent.c', 'any 2 of 9 uses of the server at one of 6 places: service functions over stream and datagram, announcements of stream and datagram clients that come or leave', ACTS=2, VP_SENTMAX=24),
    rt('functions-on-workers', 'reent.c', 'any of 8 uses of the server in a service function on one of 2 workers, while calls of the services concerned are handed out; at most 1 preemption', ['--preempt', 1], ACTS=1, WORKERS=2, VP_SENTMAX=24),
    rt('events-of-clients', 'cli_reent.c', 'up to 2 events at any time before, between and after the answers of a call and of the calls their functions make, 6 things a function does, any kind of answer, stream and datagram', MODE=0, EVS=2, OUTER=1, RECVBUF=512),
    _two,
    deep(_two, EVS=2, bounds='up to 2 events while 2 calls are awaited together'),
    rt('events-on-a-pump', 'cli_reent.c', '1 event, one thread pumps and runs its function, one calls and awaits asynchronously; at most 1 preemption', ['--preempt', 1], MODE=1, EVS=1, OUTER=1, WAYS=2, RECVBUF=512),
])
prop('C13', [
    rt('await-one', 'cli_call.c', '1 call, connection may break', MODE=2, NC=1),
    rt('await-two', 'cli_call.c', '2 calls, any order and kind of answers, connection may break', MODE=2, NC=2),
    rt('await-three', 'cli_call.c', '3 calls, any order and kind of answers, connection may break', MODE=2, NC=3),
    rt('await-many', 'cli_call.c', '12 calls, answers in turn in either direction from any of them on, connection may break', MODE=2, NC=12),
])


def gen(name, harness, bounds, opts=(), **defs):
    return Q(name, harness, RT, world=W, gen=['rt.gr'], defs=defs, opts=list(opts), bounds='service definition idl/rt.gr; ' + bounds)


_fn = {1: ('scalars', 'all 15 scalar types, any values'), 2: ('strings', 'strings absent or of 0..2 arbitrary characters between integers'), 3: ('arrays', 'arrays of 0..2 elements of 3 types between integers'),
       4: ('structures', 'structures with any content'), 5: ('structure-arrays', 'arrays of 0..2 structures'), 6: ('nested', 'a structure of arrays, strings, structures and an enumeration'),
       7: ('variants', 'every variant member, and none'), 8: ('all-members', 'a structure with a member of every scalar type'), 9: ('nothing', 'no arguments, no result'), 10: ('no-arguments', 'no arguments, one result'),
       11: ('variant-arrays', 'arrays of 0..2 structures with variants'), 12: ('extended', 'a structure extending another'), 13: ('one-way', 'no result'), 14: ('floats', 'any bit pattern'), 15: ('trees', 'structures of structures with arrays of structures with arrays'), 16: ('byte-arrays', 'arrays of 0..2 elements of 3 more types')}
_c01 = ([gen(n, 'gen.c', b, KIND=1, WHAT=k) for k, (n, b) in _fn.items()])
_c02 = ([gen(n, 'gen.c', b + ' (fixed arguments); any capacity of the result buffers', KIND=1, WHAT=k, RESP=1) for k, (n, b) in _fn.items() if k not in (9, 13)])
_c03 = ([gen(n, 'gen.c', _fn[k][1] + '; directed and broadcast', KIND=2, WHAT=w) for w, k, n in ((20, 1, 'scalars'), (21, 2, 'strings'), (22, 3, 'arrays'), (23, 4, 'structures'), (24, 5, 'structure-arrays'), (25, 6, 'nested'), (26, 7, 'variants'), (27, 8, 'all-members'), (28, 15, 'trees'))] + [
    gen('subscribed', 'gen.c', 'any 2 of subscribe and unsubscribe, then an event', KIND=2, WHAT=27, SUBSCRIBE=2)])



def gen2(name, bounds, **defs):
    return Q(name, 'gen2.c', RT, world=W, gen=['mx.gr'], defs=dict(defs, MAXMSG=238, VP_SENTCAP=240), bounds='service definitions idl/mx.gr importing idl/vs.gr, three services registered; ' + bounds)


_fn2 = {1: ('import-small-arrays', 'a structure with arrays of enumerations, booleans, floats'), 2: ('import-float-arrays', 'arrays of floats and doubles'), 3: ('import-two-variants', 'structures with two variants, nested and in an array'),
        4: ('second-service', 'a function of a second service with the name and id of one of the first'), 5: ('second-service-enum', 'an enumeration argument of any value'), 6: ('third-service', 'a structure of imported types')}
_c01 += [gen2(n, b, KIND=1, WHAT=k) for k, (n, b) in _fn2.items()]
_c02 += [gen2(n, b, KIND=1, WHAT=k, RESP=1) for k, (n, b) in _fn2.items()]
_c03 += [gen2(n, b + '; directed and broadcast', KIND=2, WHAT=w) for w, n, b in ((20, 'import-scalars', 'scalars and an enumeration'), (21, 'import-two-variants', _fn2[3][1]), (22, 'second-service', 'an event of a second service with the name and id of one of the first'), (23, 'third-service', _fn2[6][1]))] + [
    gen2('service-subscribed', 'any 2 of subscribe and unsubscribe to any of three services, then an event of one', KIND=2, WHAT=22, SUBSCRIBE=2)]


def gen3(name, bounds, **defs):
    return Q(name, 'gen3.c', RT, world=W, gen=['lang.gr'], defs=defs, bounds='service definitions idl/lang.gr importing idl/sub/base.gr; ' + bounds)


_fn3 = {1: ('language-extended', 'a structure extending one defined below it, which extends one with a variant of another file; arrays of a defined type and an enumeration; a defined type only one service uses'),
        2: ('language-extended-twice', 'a structure extending two structures defined below it; arrays of long and ulong'), 3: ('language-plain', 'a service that uses none of the types')}
_c01 += [gen3(n, b, KIND=1, WHAT=k) for k, (n, b) in _fn3.items()]
_c02 += [gen3(n, b + '; any capacity of the result buffers', KIND=1, WHAT=k, RESP=1) for k, (n, b) in _fn3.items() if k != 3]
_c03 += [gen3(n, b + '; directed and broadcast', KIND=2, WHAT=w) for w, n, b in ((20, 'language-extended', _fn3[1][1]), (21, 'language-arrays', 'an array of a defined structure type and a structure extending two'), (22, 'language-events-only', 'a service with events only'))]

def genl(name, long, bounds, **defs):
    return gen(name, 'gen.c', bounds, opts=['--max-instr', 60000000], LONG=long, SLEN=long + 1, ALEN=long + 1, MAXMSG=defs.pop('MAXMSG', 16000), VP_SENTCAP=defs.pop('VP_SENTCAP', 16000), VP_SENTMAX=4, **defs)


_c02 += [gen(n + '-many', 'gen.c', '14 calls in turn with little receive memory; results asked for before the answer, after an error and twice', KIND=4, WHAT=w, RESP=1, ROUNDS=14, VP_SENTMAX=24) for w, n in ((10, 'no-arguments'), (2, 'strings'))]
_ln = {2: ('long-strings', 'strings absent, empty or of 255..257 characters'), 3: ('long-arrays', 'arrays of 0 or 255..257 elements of 3 types'), 5: ('long-structure-arrays', 'arrays of 0 or 255..257 structures'), 6: ('long-nested', 'a structure of arrays of up to 257 elements and strings of up to 257 characters')}
_c01 += [genl(n, 256, b, KIND=1, WHAT=k) for k, (n, b) in _ln.items()]
_c02 += [genl(n, 256, b + '; result buffers of such capacities', KIND=1, WHAT=k, RESP=1) for k, (n, b) in _ln.items()]
_lab = 'arrays of 0 or 255..257 structures with strings of up to 1 character'
_c01.append(genl('long-labels', 256, _lab, KIND=1, WHAT=5, LABELS=1)); _c01[-1]['defs']['SLEN'] = 1
_c02.append(genl('long-labels', 256, _lab + '; result buffers of such capacities', KIND=1, WHAT=5, RESP=1, LABELS=1)); _c02[-1]['defs']['SLEN'] = 1
_c03.append(genl('long-labels', 256, _lab, KIND=2, WHAT=24, LABELS=1)); _c03[-1]['defs']['SLEN'] = 1
_c03 += [genl(n, 256, b, KIND=2, WHAT=w) for w, (n, b) in ((21, _ln[2]), (22, _ln[3]), (24, _ln[5]), (25, _ln[6]))]
PROPS['C23']['queries'].append(gen('generated', 'gen.c', 'a generated call, response, directed event or broadcast; one failing allocation and one failing send anywhere', KIND=5, WHAT=2, RESP=1))
_c01.append(gen('largest', 'gen.c', 'arrays; a configured maximum that the request just fits', KIND=1, WHAT=3, ALEN=1, EXACT=1))
_c02.append(gen('largest', 'gen.c', 'arrays; a configured maximum that the longer of request and response just fits', KIND=1, WHAT=3, RESP=1, ALEN=1, EXACT=1))
_c03.append(gen('largest', 'gen.c', 'arrays; a configured maximum that the event just fits', KIND=2, WHAT=22, ALEN=1, EXACT=1))
_vln = [('very-long-strings', 2, 21, 'strings absent, empty or of 65537 characters', 140000), ('very-long-arrays', 3, 22, 'arrays of 0 or 65537 elements of 3 types', 900000)]
for _n, _k, _w, _b, _m in _vln:
    _c01.append(genl(_n, 65536, _b, KIND=1, WHAT=_k, MAXMSG=_m, VP_SENTCAP=_m, VERY=1))
    _c02.append(genl(_n, 65536, _b + '; result buffers of such capacities', KIND=1, WHAT=_k, RESP=1, MAXMSG=_m, VP_SENTCAP=_m, VERY=1))
    _c03.append(genl(_n, 65536, _b, KIND=2, WHAT=_w, MAXMSG=_m, VP_SENTCAP=_m, VERY=1))

_wide = ('strings', 'arrays', 'structures', 'structure-arrays', 'nested', 'variants', 'variant-arrays', 'extended', 'byte-arrays')
for _p, _qs in (('C01', _c01), ('C02', _c02), ('C03', _c03)):
    prop(_p, _qs + [deep(q, SLEN=4, ALEN=3, bounds=q['bounds'] + '; strings up to 4 characters, arrays up to 3 elements') for q in _qs if q['name'] in _wide])


def gens(name, bounds, **defs):
    d = gen(name, 'gen_struct.c', bounds, **defs)
    d.update(srcs=[], world=['vp_threads.c'], genpick=['none'])
    return d


_c04 = [gens('arrays', 'any 3 of add and get on two array members', MODE=0, OPS=3), gens('copy', 'copies of a structure with arrays, strings, structures', MODE=1),
        gens('variants', 'any 3 of set, clear, copy on a variant', MODE=2, OPS=3), gens('trees', 'copies of structures in structures with arrays of up to 2 structures with arrays of up to 2 elements, either copy destroyed first', MODE=3),
        gens('long', 'two arrays to which elements are added 24 times, 1..3 at a time, in 3 ways; any values; then a copy', MODE=4, OPS=24),
        gens('very-long', 'two arrays to which elements are added 262 times in the same ways, those of three steps arbitrary; then a copy', MODE=4, OPS=262, LONG=256),
        gens('many-at-once', 'arrays of 0..2 arbitrary elements that grow by 255, 256, 257 or 300 at once, added or reached for; then a copy', MODE=5)]
prop('C04', _c04 + [deep(_c04[0], OPS=4), deep(_c04[1], SLEN=4, ALEN=4), deep(_c04[2], OPS=4)])
prop('C14', [
    rt('two-callers', 'cli_threads.c', '2 threads call and await, any order and kind of answers; at most 2 preemptions', ['--preempt', 2], MODE=0),
    rt('three-callers', 'cli_threads.c', '3 threads call and await, each answered (in any order) when the one before has returned; at most 1 preemption', ['--preempt', 1], MODE=6, KINDS=1),
    rt('pump-async', 'cli_threads.c', 'one thread pumps, one calls and awaits asynchronously; at most 3 preemptions', ['--preempt', 3], MODE=1),
    rt('pump-sync', 'cli_threads.c', 'one thread pumps, one calls and awaits; at most 3 preemptions', ['--preempt', 3], MODE=2),
    rt('pump-two', 'cli_threads.c', 'one thread pumps, one awaits all or any of two calls asynchronously; at most 2 preemptions', ['--preempt', 2], MODE=3),
    rt('pump-three', 'cli_threads.c', 'one thread pumps, one awaits all or any of three calls asynchronously; at most 1 preemption', ['--preempt', 1], MODE=3, NCALL=3),
    rt('two-requests', 'cli_threads.c', '2 threads make requests; at most 3 preemptions', ['--preempt', 3], MODE=4),
    rt('await-meanwhile', 'cli_threads.c', 'one thread pumps, one awaits a call while the other awaits 12 others 262 times; no preemption', ['--preempt', 0], MODE=5, AWAITS=250, KINDS=1),
])
prop('C15', [
    rt('handled-once', 'srv_pool.c', '2 workers, 2 messages, any content; at most 2 preemptions', ['--preempt', 2], MODE=0, K=2),
    rt('three-workers', 'srv_pool.c', '3 workers, 3 messages, any content; at most 1 preemption', ['--preempt', 1], MODE=0, K=3, WORKERS=3),
    rt('five-workers', 'srv_pool.c', '5 workers, 7 messages, any content; no preemption', ['--preempt', 0], MODE=0, K=7, WORKERS=5),
    rt('spurious', 'srv_pool.c', '2 workers, 2 messages, one spurious wakeup; at most 1 preemption', ['--preempt', 1], MODE=0, K=2, SPURIOUS=1),
    rt('shutdown', 'srv_pool.c', '2 workers, 2 messages, shutdown at once; at most 2 preemptions', ['--preempt', 2], MODE=1, K=2),
    rt('shutdown-by-handler', 'srv_pool.c', '2 workers, 2 messages of 2 clients, a handler requests shutdown; at most 2 preemptions', ['--preempt', 2], MODE=5),
    rt('creation', 'srv_pool.c', '2 workers, any thread creation may fail; at most 3 preemptions', ['--preempt', 3], MODE=2),
    rt('overload', 'srv_pool.c', '2 workers, twice 450 messages of 5 kinds delivered at once; queues of 32', ['--preempt', 1, '--max-instr', 60000000], MODE=3),
])
prop('C16', [
    rt('filling', 'srv_pool.c', '2 workers, 2 messages one byte shorter than, exactly as long as or longer than what the receive memory of a message holds; at most 1 preemption', ['--preempt', 1], MODE=9),
    rt('intact', 'srv_pool.c', '2 workers, 2 messages in 2 deliveries, any content, responses; at most 2 preemptions', ['--preempt', 2], MODE=0, K=2, TWICE=1),
    rt('respond-meanwhile', 'srv_pool.c', '2 workers, a handler responds while a client leaves, connects, subscribes or unsubscribes; at most 2 preemptions', ['--preempt', 2], MODE=4, ACT=0),
    rt('broadcast-meanwhile', 'srv_pool.c', '2 workers, a handler broadcasts an event while a client leaves, connects, subscribes or unsubscribes; at most 2 preemptions', ['--preempt', 2], MODE=4, ACT=1),
    rt('event-meanwhile', 'srv_pool.c', '2 workers, a handler sends an event to one client while a client leaves, connects, subscribes or unsubscribes; at most 2 preemptions', ['--preempt', 2], MODE=4, ACT=2),
    rt('datagrams', 'srv_pool.c', '2 workers, 2 datagrams of 2 senders in 1 or 2 deliveries, any ids and content, answered at once or later; at most 1 preemption', ['--preempt', 1], MODE=6, K=2),
    rt('datagrams-leaves', 'srv_pool.c', '2 workers, 2 datagrams of 2 senders, one of which was subscribed and unsubscribes meanwhile; at most 1 preemption', ['--preempt', 1], MODE=6, K=2, SUBS=1),
    rt('intact-three', 'srv_pool.c', '2 workers, 3 messages, any content, responses; at most 1 preemption', ['--preempt', 1], MODE=0, K=3, TWICE=1),
    rt('reuse', 'srv_pool.c', '2 workers, twice 450 messages of 5 kinds delivered at once; receive memory for 64', ['--preempt', 1, '--max-instr', 60000000], MODE=3),
])


# the generator itself, executed symbolically (tools/pysym.py)
def _definition(ns, services, enums=0, start=0, head=''):
    """a definition with placeholder numbers; services: [(functions, events)]"""
    k = [start]

    def num():
        k[0] += 1
        return str(7000000 + k[0] - 1)
    t = head + 'namespace %s\n' % ns
    if enums:
        t += 'enum level%d {\n%s\n}\n' % (start, ',\n'.join('    v%d = %s' % (i, num()) for i in range(enums)))
    sv = []
    for i, (f, e) in enumerate(services):
        s = {'id': k[0], 'members': []}
        t += 'service svc%d (%s) {\n' % (i, num())
        for j in range(f):
            s['members'].append(k[0])
            t += '    func fn%d(uint8 a) : (uint8 b) = %s;\n' % (j, num())
        for j in range(e):
            s['members'].append(k[0])
            t += '    event ev%d : (uint8 a%s) = %s;\n' % (j, ', level%d l' % start if enums else '', num())
        t += '}\n'
        sv.append(s)
    return t, sv, k[0]


def py(name, bounds, services, enums=0, imported=None, **kw):
    files, sv, n = {}, [], 0
    head = ''
    if imported:
        t, s, n = _definition('imp', imported)
        files['imp.gr'] = t
        sv += s
        head = 'import "imp"\n'
    t, s, n = _definition('top', services, enums, n, head)
    files['top.gr'] = t
    d = Q(name, 'tools/pysym.py', (), bounds=bounds, python={'files': files, 'root': 'top.gr', 'args': ['--lang-c', '--server', '--client'], 'services': sv + s, 'n': n, 'range': [-2 ** 31, 2 ** 31 - 1]})
    d.update(kw)
    return d


prop('C28', [
    py('one-service', 'one service with 3 functions and 2 events, every number any 32-bit integer', [(3, 2)]),
    py('two-services', 'two services in one file, of 2 functions and 1 event and of 1 function and 1 event, every number any 32-bit integer', [(2, 1), (1, 1)]),
    py('imported-service', 'a service importing a file with another, every number any 32-bit integer', [(1, 1)], imported=[(1, 2)]),
    py('events-only', 'one service with 4 events, every number any 32-bit integer', [(0, 4)]),
    py('enumerations', 'an enumeration with 3 values, any 32-bit integers, used by a service with a function and an event', [(1, 1)], enums=3),
    py('many', 'one service with 6 functions and 4 events, every number any 32-bit integer', [(6, 4)]),
], ['the text of the definition is fixed but for its numbers; integer literals are read by int(), which is the symbolic source'])
PROPS['C28']['solver'] = 'Z3 through tools/pysym.py over the running Python code'
