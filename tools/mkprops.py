#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the queries of specs.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import specs

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}}
    assert len(title) <= 80, title
    P.append(d)


SRV, CLI, LSRV, LCLI = 'runtime/server.c', 'runtime/client.c', 'runtime/link/socket/server.c', 'runtime/link/socket/client.c'
GEN = 'generator/languages/langc.py'

p('C01', 'Request arguments arrive unchanged at the server callback',
  'For every service definition in the supported language (no arrays of strings, variants with members of distinct types) and every argument value whose encoded message fits the configured maximum, calling the generated client function makes the generated server code call the callback of that same function exactly once, with arguments equal to those passed: every integer width and sign, boolean, enumeration, string, array (length and every element, including an empty one), structure and variant. Neither side touches memory outside the message or the objects it was given.',
  ['inputs', 'programs'], 'every argument value of every supported type and combination of types in one signature',
  'The tests pass one fixed value per function and only a few types; sign extension, widths, positions after variable-size arguments and empty arrays are sampled once or never.',
  [GEN], [('client function and server deserializer are generated from the same parameter list', GEN)])
p('C02', 'Response values arrive unchanged at the caller, within its buffers',
  'Whatever values a server passes to the generated response function of a call, the result function of that call at the client yields exactly those values for every supported return type. Strings and arrays are cut to the capacity the caller gave, never written beyond it, and the values that follow a cut one are still correct.',
  ['inputs', 'programs'], 'every response value, every capacity of the caller’s buffers, every combination of return types',
  'The tests use a single response value with ample buffers; no test gives too small a buffer or inspects values behind it.',
  [GEN], [('response serializer and result deserializer are generated from the same parameter list', GEN)])
p('C03', 'Event values arrive unchanged at the client callback',
  'Whatever values a server passes to a generated event function, every addressed client gets its callback for that event called exactly once with those same values, for every supported type. A broadcast addresses the clients subscribed to the service, a single-client event only the client it names.',
  ['inputs', 'programs'], 'every event value of every supported type, directed and broadcast',
  'The tests send one event with one constant value.',
  [GEN], [('event serializer and client deserializer are generated from the same parameter list', GEN)])
p('C04', 'Generated structure helpers keep contents, ownership and memory straight',
  'A structure built with the generated add, get, clear and copy helpers holds exactly the elements put into it, in order; a copy equals its source, shares no memory with it, and both can be destroyed once each without a leak, a double release or an access out of bounds.',
  ['inputs', 'histories', 'programs'], 'every element value and every sequence of helper calls over structures with strings, arrays, nested structures and variants',
  'The tests build one structure of constants, never copy one, and never look at memory after destroying it.',
  [GEN], [('generated init, add, get, clear, copy and destroy helpers per structure', GEN)])
p('C05', 'No stream peer can corrupt or crash the server',
  'Whatever bytes a connected stream client sends, the server never reads or writes outside its buffers, never crashes, and never hands a handler a message that does not lie wholly inside its receive buffer. A client whose message cannot be received is dropped and the server stays usable.',
  ['inputs'], 'every byte string a peer can send, every announced message length',
  'The tests only ever send well-formed messages of the bundled client.',
  [LSRV, SRV], [('announced length is checked against the receive buffer', LSRV + ' (stream receive)'), ('drop of clients with malformed messages', SRV)])
p('C06', 'Stream messages survive any segmentation, in order, exactly once',
  'However the transport splits or delays the bytes of a stream connection, every complete message a client sends reaches its handler exactly once, whole, with the payload sent, in the order sent. Bytes of one message never become part of another.',
  ['inputs', 'schedules'], 'every way the bytes of consecutive messages can be delivered in pieces, including pauses inside a header or a payload',
  'Local sockets in the tests deliver whole messages; no test splits one.',
  [LSRV, SRV], [('header and payload are received completely before dispatch', LSRV)])
p('C07', 'Datagram clients are safe, told apart and answered at their address',
  'Any datagram from any address leaves the server memory-safe and usable, and is dispatched only if it is a complete message. A response, immediate or deferred, is sent to the address its request came from, and events reach exactly the datagram clients that subscribed and have not unsubscribed.',
  ['inputs', 'histories'], 'every datagram content and length, every sender address length, interleaved senders',
  'No test uses a datagram link at all.',
  [LSRV, SRV], [('address and address length kept with the message', LSRV), ('client records created on subscribe and removed on unsubscribe', 'runtime/control.c')])
p('C08', 'No server or stream content can corrupt or crash the client',
  'Whatever bytes or datagrams arrive at a client, it never reads or writes outside its buffers and never delivers a message longer than its receive buffer; buffers of handled events are recycled and a stream delivered in pieces yields the same messages.',
  ['inputs', 'schedules'], 'every byte string that can arrive, every announced length, every mix of message kinds and segmentation',
  'The tests only receive well-formed messages of the bundled server.',
  [LCLI, CLI], [('announced length is checked against the buffer', LCLI), ('message buffers come from and return to the arena', CLI)])
p('C09', 'Every request is one well-formed message with an id of its own',
  'Every call produces exactly one message which announces its own length and names service, function and kind, carries the arguments unchanged, and has an id no other outstanding request of that client has, which is the id the caller is given. A call that cannot be sent fails and leaves no trace: no pending result, no lock.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of calls, argument content, kind of link and failing send',
  'The tests check that calls succeed, not what goes on the wire, and no send ever fails.',
  [CLI, LCLI], [('id counter and pending-call table', CLI), ('the send buffer is locked from acquisition to completion', CLI)])
p('C10', 'A response reaches the client that made the request, and only it',
  'Every response, given at once or deferred by keeping the request beyond its handler, is sent to the client and connection its request came from with the id of that request, in whatever order requests are answered. It reaches no other client, also when clients leave and others connect in their place in between; responding to a client that is gone fails cleanly and leaks nothing.',
  ['inputs', 'histories'], 'every interleaving of requests, ids, immediate and deferred answers and departures of several clients',
  'The tests answer in order from one client at a time and no client leaves before its answer.',
  [SRV, LSRV], [('message carries client and link of its origin', SRV), ('deferral copies the request header', SRV)])
p('C11', 'A message is dispatched to exactly the function it names',
  'A message is handled by exactly the registered function its service and function number name, once, with its arguments; any other service or function number calls nothing, and a known caller is told with an error naming its message. Registration and removal of services take effect completely, in any order, for any service numbers.',
  ['inputs', 'histories'], 'every header and argument, every history of registrations',
  'The tests call existing functions of services that stay registered.',
  ['runtime/shared.c', 'runtime/control.c', SRV, 'runtime/hashtable.c'], [('service and function lookup', 'runtime/shared.c'), ('error event to the caller', 'runtime/control.c')])
p('C12', 'Each call gets its own result, once, whatever else arrives',
  'The result of a call is the response (or error) that carries its id, however responses, errors, duplicates, unknown ids and events interleave and whenever results are asked for. It is in progress until then, handed out once, and everything stored for it is released afterwards.',
  ['histories', 'inputs'], 'every order of responses, errors, events, waits and result requests for several outstanding calls',
  'The tests ask for results in order with no duplicate, error or stray response.',
  [CLI], [('pending-call table keyed by id', CLI)])
p('C13', 'Awaiting calls returns exactly when the answers are in, or the link broke',
  'Awaiting all of a set of calls (by a thread that receives for itself) returns success exactly when every one was answered (error answers count), awaiting any when at least one was; answers already received count, order and events in between do not matter. If the connection breaks first the await fails instead of blocking forever, and answers received before keep their results.',
  ['histories', 'fault_sequences'], 'every order and kind of answers, answers before the await, connection break at any point',
  'The tests await with a healthy connection and answers that all come after the await starts.',
  [CLI], [('awaiter bookkeeping and message pump', CLI)])
p('C14', 'Threads sharing a client do not lose, mix up or miss results',
  'With several threads invoking, awaiting, fetching results and pumping messages on one client, every call gets its own response and every awaiting thread returns once its calls are answered, under every schedule. No schedule blocks forever, has two threads access the same memory without synchronisation (one of them writing or releasing it), or mixes bytes of two requests.',
  ['schedules'], 'every interleaving (within a preemption bound) of calling, awaiting and receiving threads',
  'The tests use a client from one thread, or run one lucky schedule.',
  [CLI], [('awaiter conditions, wait lock, data lock', CLI)])
p('C15', 'The worker pool runs every message once and stops cleanly',
  'In a server with workers every message received before shutdown begins is handled at most once, and exactly once unless shutdown overtakes it while it is still queued, under every schedule, spurious wakeup and load beyond the queues; shutting down never hangs, never leaves a worker running or touching released memory, and releases everything.',
  ['schedules', 'fault_sequences'], 'every interleaving of dispatcher and workers (within a preemption bound), thread creation failures, full queues, shutdown requested at any point by any thread',
  'One multi-threaded test runs one schedule with light load.',
  ['runtime/dispatch_generic.c', 'runtime/queue.c', SRV], [('per-worker queue, mutex and condition', 'runtime/dispatch_generic.c')])
p('C16', 'Multi-threaded handling keeps every message intact until handled',
  'A message handed to a worker keeps its content until its handler returns, whatever is received meanwhile, and its memory is reused afterwards so that any number of messages can be served. When receive memory is short, messages wait and are not lost or overwritten, and responses, broadcasts and events of workers are delivered correctly while clients come, go and change their subscriptions. The threads never access the same memory without synchronisation.',
  ['schedules', 'inputs'], 'every interleaving of receiving and handling (within a preemption bound), any number of messages in flight up to exhaustion of receive memory',
  'One multi-threaded test with small bursts: memory is never short and schedules are not controlled.',
  [SRV, 'runtime/arena.c', 'runtime/dispatch_generic.c'], [('arena allocation per message, shrink to size, release after dispatch', SRV)])
p('C17', 'The message arena hands out disjoint memory and gets all of it back',
  'Blocks handed out by the arena lie inside it, never overlap, and are of at least the size asked for; shrinking keeps the kept part untouched, and releasing everything in any order makes the full capacity available again.',
  ['histories', 'inputs'], 'every sequence of allocations, partial and full releases with any sizes',
  'There is no test of the arena on its own.',
  ['runtime/arena.c'], [('block list with split and merge', 'runtime/arena.c')])
p('C18', 'The hash table behaves as a map for every history of operations',
  'After any sequence of insertions, replacements, lookups, removals and enumerations, with any keys and any hash collisions, the table contains exactly what a map would: a lookup finds the last value set, removed elements stay gone, and each element is enumerated once. Growing and shrinking change nothing observable.',
  ['histories', 'inputs'], 'every operation sequence, key and hash value, across growth and shrink boundaries',
  'The tests only touch tables with one or two elements.',
  ['runtime/hashtable.c'], [('robin-hood probing with backward shift, resize', 'runtime/hashtable.c')])
p('C19', 'Job queues are FIFO and the buffer pool never shares a buffer',
  'The job queue returns exactly the jobs put in, in order, and refuses only when full; the pool of message buffers gives each thread a buffer nobody else holds, whatever the interleaving, and loses none, also while it grows.',
  ['histories', 'schedules'], 'every sequence of queue operations, every interleaving of threads taking and returning buffers',
  'The tests never fill a queue, never make the pool grow, and do not control schedules.',
  ['runtime/queue.c', 'runtime/stack.c'], [('ring buffer indices', 'runtime/queue.c'), ('mutex-protected stack', 'runtime/stack.c')])
p('C20', 'The reader-writer lock excludes writers and never deadlocks',
  'While a writer is inside, nobody else is; readers may share; and under every schedule each thread that wants the lock eventually gets it once the holders leave.',
  ['schedules'], 'every interleaving of readers and writers within a preemption bound',
  'No test contends for the lock on purpose.',
  ['include/rwlock.h'], [('reader count, mutex and condition', 'include/rwlock.h')])
p('C21', 'Events reach exactly the subscribed clients',
  'A broadcast event is sent once to each client that is subscribed to its service at that moment and to nobody else, for every service number and every history of subscribing and unsubscribing, including all services at once.',
  ['histories', 'inputs'], 'every service number, every history of subscriptions',
  'The tests subscribe once to one service.',
  ['runtime/control.c', SRV], [('subscription bitmap per client', 'runtime/server.c, runtime/control.c')])
p('C22', 'Connection and disconnection are announced exactly once per client',
  'Every stream client that connects is announced once, and its disconnection once, under its own handle, for every order of connecting, sending, failing and disconnecting; its descriptor is closed once and no longer used, and its record is released. A client can be sent events from the moment it is announced until it is announced to have left. Other clients are unaffected.',
  ['histories', 'fault_sequences'], 'every order of connects, messages, disconnects, failing accepts and sends',
  'The tests connect clients that behave and leave one after the other.',
  [SRV, LSRV], [('client table and connection callbacks', SRV)])
p('C23', 'Failures leave no lock held, no buffer lost, no client harmed',
  'If receiving, sending, accepting or allocating memory fails at any point while the server or a client works, the failing operation reports an error or drops the peer concerned; no lock stays held, no memory, buffer or descriptor is lost, nothing is used after release, and other peers are still served. Calls of a client keep their state, and later calls, answers and events work unless the stream itself lost its place.',
  ['fault_sequences'], 'a failure of any single receive, send, accept or allocation at any point of a session',
  'The tests never inject a failure.',
  [SRV, CLI, LSRV, LCLI], [('error paths release what they acquired', SRV + ', ' + CLI)])
p('C24', 'The server main loop serves every event and stops when told',
  'The main loop handles every event it is given, whatever clients send and however they leave, and after shutdown was requested, by a handler or between events, it ends after the current events and releases every resource exactly once: memory, descriptors, locks, clients and links.',
  ['histories'], 'every sequence of event batches and every point at which shutdown is requested',
  'The tests stop the server in one place only, and do not look at resources.',
  [SRV], [('state machine and cleanup', SRV)])
p('C25', 'Servers, clients and links are set up completely or not at all',
  'Creating a server (with or without workers) or a client, and connecting a client, either succeeds and the result works, or reports the failure and leaves no memory, lock, thread or descriptor behind; a client that could not connect can try again. Adding a link makes it served, up to the documented maximum; if any step of setting it up fails, the call reports the failure, acquired descriptors and memory are released, and the links added before still work. Links and services can only be used in the state that permits it.',
  ['fault_sequences', 'configurations'], 'a failure of any system call or allocation in setup, any number of links',
  'The tests add one link and nothing fails.',
  [SRV, CLI, LSRV, LCLI], [('creation, link table and setup', SRV + ', ' + CLI)])
p('C26', 'The identity of a datagram client is a function of its whole address',
  'The number that identifies a datagram client is the CRC-32 of its address bytes: equal addresses get equal numbers, and addresses that differ in a single byte get different ones.',
  ['inputs'], 'every address',
  'No test uses datagrams, and none compares checksums with a reference.',
  ['runtime/crc.c'], [('table driven CRC', 'runtime/crc.c')])
p('C27', 'Service functions, callbacks and event functions can use the library',
  'Within a service function (also on a worker), within the callbacks that announce a client or its leaving, and within the function of an event at a client, a program uses the library as it does anywhere else. At a server it sends and broadcasts events, answers requests it kept, registers, replaces and removes services and, on the thread that serves events, adds links. At a client, given memory for the messages involved, it makes requests, awaits calls by receiving for itself (other answers and events are handled meanwhile), fetches their results, and registers or removes services. All of it has the same effect as elsewhere: nothing hangs or fails, the message being handled stays intact until its function returns, calls that were pending get their own results, and everybody is served afterwards.',
  ['inputs', 'histories', 'schedules'], 'every place, every use or two of them, every order of answers and events meanwhile, every schedule of workers',
  'The functions of the tests answer and return; none makes calls, changes services or adds links from within.',
  ['runtime/server.c', 'runtime/client.c'], [('invocation without locks', 'runtime/server.c'), ('nested waits', 'runtime/client.c')])
p('C30', 'Servers, clients and links behave as configured',
  'A link opens a socket of the configured domain and type and listens at, or connects to, exactly the configured address, in whatever order it was configured. Requests, responses and received messages of exactly the configured maximum size pass whole (the documented default if none is set). A send buffer that was given is used, never beyond that size, and stays with its owner; more receive memory holds more responses. A server has the configured number of workers, uses the event set it was given or creates and closes its own, and calls only the callbacks it was given.',
  ['configurations'], 'every domain, type and address, every order of setting, every choice of sizes, buffers, workers, callbacks and event set',
  'The tests use one configuration per program.',
  ['runtime/server_config.c', 'runtime/client_config.c', 'runtime/link/socket/shared.c', SRV, CLI, LSRV, LCLI], [('configuration is taken over at creation', SRV + ', ' + CLI), ('link configuration', 'runtime/link/socket/shared.c')])
p('C28', 'Numbers of a service definition are unambiguous, fit, and reach the code',
  'Whatever integers a service definition gives to its services, functions and events, the generator rejects the definition with a diagnosis and writes nothing if a number is outside 1..255 or if two functions or events of one service share a number (on the wire each is one byte, and a function and an event of one service are told apart by it alone); otherwise it accepts the definition, and the generated client and server code carries exactly these numbers, as it does for every value of an enumeration. Numbers may repeat across services.',
  ['inputs'], 'every assignment of integers to the numbers of a definition',
  'The tests run the generator on two definitions that are well-formed.',
  ['generator/passes/validate.py', 'generator/parser.py', 'generator/languages/langc.py'], [('validation pass', 'generator/passes/validate.py:pass_validate'), ('emission of identifiers', 'generator/languages/langc.py')])
p('C29', 'Syntactically malformed service definitions are rejected with a diagnosis',
  'Every service definition that is ill-formed (duplicate names, unknown types, bad syntax) is rejected with an error and no output, and every well-formed one is accepted.',
  ['programs'], 'every service definition text',
  'The tests run the generator on two definitions that are well-formed.',
  ['generator/parser.py'], [('parser and checks', 'generator/parser.py')])

NA = {'C29': 'the statement quantifies over definition texts of unbounded syntax; the tokenizer builds names character by character and looks them up in dictionaries, which symbolic strings cannot follow without enumerating concrete texts. The numbers in a definition are decided under C28, the emitted code under C01 to C04 for fixed definitions'}
LEVEL_NOTE = ('Every path of the real functions, compiled from /repo on every run, is decided by Z3 for all values of the symbolic inputs within the bounds listed in DESIGN.md and in the evidence; '
              'trusts clang 18, the executor engine/gse.cpp (sampled paths are replayed natively), Z3, and the stand-ins for system calls and threads in h/. ')

PY_NOTE = ('The unmodified generator runs from its command line entry with symbolic integers in place of the numbers of a definition; Z3 decides every branch on them and the oracle on every path; '
           'trusts the Python interpreter, tools/pysym.py (sampled paths are replayed through the real command line) and Z3. ')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/vp.py setup', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: the checks compile the unmodified sources against stand-ins for system calls. Exit 2 of a check: no verdict (build failure, time budget, vacuous harness).'}
    for d in P:
        i = d['id']
        if i in specs.PROPS:
            qs = specs.PROPS[i]['queries']
            m['checks'].append({'property': i, 'quick_cmd': 'python3 tools/vp.py check %s quick' % i, 'thorough_cmd': 'python3 tools/vp.py check %s thorough' % i,
                                'evidence_file': 'evidence/%s.json' % i, 'level': 'model_checking',
                                'technique': 'path-exhaustive symbolic execution of the generator with Z3: every branch on a number of the definition is decided by the solver' if any(q.get('python') for q in qs) else 'path-exhaustive symbolic execution of the compiled code with Z3, bounded' + (', all schedules within a preemption bound' if any('--preempt' in q.get('opts', []) for q in qs) else ''),
                                'level_note': (PY_NOTE if any(q.get('python') for q in qs) else LEVEL_NOTE) + 'Quick bounds: ' + '; '.join('%s: %s' % (q['name'], q.get('bounds', '')) for q in qs if q.get('tier', 'quick') == 'quick')})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(VERIF, 'MANIFEST.json'), 'a').write('\n')


main()
