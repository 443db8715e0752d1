#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand, output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

T='scalopus_transport/src/'
prop('C01','Each request is handled once and resolves with its own response',
 "On a live unix-socket connection, every request issued by any client from any thread is handed to the handler of exactly the endpoint it names, exactly once and with exactly its bytes, in the order one client issued them, and never to any other endpoint. When that handler produces a response, the future of that request - and no other request of that or any other client - becomes ready with exactly those bytes; a response that was produced is never lost, however quickly it comes back.",
 ['schedules','histories','inputs'],
 'All interleavings of concurrent requests from several threads and clients with the worker threads of client and server; all mixes of answering and non-answering endpoints.',
 'test_transport_unix issues one request from one client and waits for it; it never has two requests in flight and never meets a response that beats the bookkeeping of the requester.',
 [T+'transport_unix.cpp',T+'transport_unix.h'],
 [('request id + endpoint name key of the outstanding request map','TransportUnix::request / work'),('processMsg copies id and endpoint into the response','TransportUnix::processMsg'),('write lock keeps messages from interleaving on the socket','TransportUnix::write_lock_')],
 ['Endpoint::handle calls on the server','the future returned by Transport::request'])

prop('C02','Messages cross the byte stream whole, unchanged and in order',
 "Every message between a unix-socket client and server arrives with exactly the endpoint name and payload that were sent, for every payload size from empty to many megabytes, whatever pieces the kernel cuts the byte stream into and whatever signals interrupt the calls. A message whose sender disappears before all of it was written is never delivered, neither truncated nor padded, and never shifts the boundaries of another message.",
 ['inputs','schedules','fault_sequences'],
 'All payload and name sizes, all fragmentations of the stream into reads and writes, interruptions by signals, end of stream after every byte of a message.',
 'The test sends four bytes over an idle local socket, which always arrive in one piece.',
 [T+'protocol.cpp',T+'protocol.h'],
 [('length prefixed framing','protocol::send / protocol::receive'),('read until the announced length arrived','protocol::readData')],
 ['payload seen by Endpoint::handle / Endpoint::unsolicited / the response future'])

prop('C03','Broadcasts reach every connected client once, in order, and nowhere else',
 "Each broadcast of a unix-socket server is delivered exactly once, unmodified, and in the order the server issued them, to the endpoint of that name on every client that is connected when it is issued and stays connected; a client without that endpoint just ignores it. A client endpoint's unsolicited-data handler is invoked for broadcasts only: never for a response to a request, and a broadcast is never taken for the response of an outstanding request.",
 ['schedules','histories','configurations'],
 'All interleavings of broadcasts with requests, responses, connecting and disconnecting clients, and several broadcasts queued between two rounds of the worker.',
 'The test sends one broadcast and waits; order, bursts, several clients and concurrent requests never occur.',
 ['scalopus_interface/src/transport.cpp',T+'transport_unix.cpp'],
 [('broadcast queue','Transport::broadcast / popBroadcast'),('request id 0 marks broadcasts','TransportUnix::work')],
 ['Endpoint::unsolicited calls on each client'])

prop('C04','Dropped requests are forgotten and their late replies harm nothing',
 "The number of outstanding requests a unix-socket client reports counts exactly the requests that were sent, not answered and whose future is still held; it returns to zero when all futures are dropped or answered. A response that arrives after its future was dropped is discarded: it does not reach any endpoint, any other request, nor disturb later traffic on the connection.",
 ['schedules','histories'],
 'All orders of dropping a future relative to the sending, handling, answering and arrival of its response.',
 'The test drops one request that is never answered; the late reply does not occur.',
 [T+'transport_unix.cpp'],
 [('weak pointer to the future is checked when a response arrives and once per round','TransportUnix::work')],
 ['Transport::pendingRequests','Endpoint::unsolicited','futures of later requests'])

prop('C05','A lost server is noticed and every waiting request fails promptly',
 "When the server of a unix-socket connection goes away at any moment - while idle, with requests outstanding, in the middle of a message, orderly or by being killed - the client reports that it is not connected, every outstanding request becomes ready with a communication error, and every later request fails at once with a communication error. No request waits forever, no value is invented, and neither using nor destroying the transport hangs or crashes the process.",
 ['crash_points','schedules','histories'],
 'All points of the conversation (every byte offset of the stream) at which the server can vanish, with any number of outstanding requests.',
 'No test ends a server while a client is connected.',
 [T+'transport_unix.cpp'],
 [('failed read ends the client connection','TransportUnix::work'),('send to a closed connection reports failure','protocol::send')],
 ['Transport::isConnected','Transport::request futures','process exit status'])

prop('C06','One bad client or handler never takes the server down',
 "A unix-socket server keeps answering its well-behaved clients correctly, and its process keeps running, whatever other clients do - connecting and vanishing, stopping in the middle of a message, sending requests for endpoints that do not exist or with arbitrary payloads - and whatever an endpoint handler throws. A request for a missing endpoint or with a throwing handler merely goes unanswered.",
 ['fault_sequences','inputs','schedules'],
 'All sequences of misbehaving client actions interleaved with normal traffic; arbitrary request payloads to each built-in endpoint.',
 'The test server only ever sees one well-formed request from one polite client.',
 [T+'transport_unix.cpp','scalopus_general/src/endpoint_process_info.cpp','scalopus_general/src/endpoint_introspect.cpp','scalopus_tracing/src/endpoint_trace_configurator.cpp','scalopus_tracing/src/endpoint_trace_mapping.cpp'],
 [('failed reads close only that connection','TransportUnix::work'),('unknown endpoints and failing handlers are not answered','TransportUnix::processMsg')],
 ['responses to a well-behaved client','exit status of the server process'])

prop('C07','Discovery and connecting tell the truth about live servers',
 "Discovery lists the process id of every process currently serving over unix sockets exactly once, and of no other process, also after servers stop, crash or restart and while clients are connected. Connecting to a destination that does not exist (any more) and serving twice from one process are reported by an empty result and leave the process, the existing connections and later attempts working.",
 ['histories','configurations','crash_points'],
 'All sequences of servers starting, stopping, being killed, clients connecting and disconnecting.',
 'The tests connect directly to their own server and never call discovery nor a failing connect.',
 [T+'transport_unix.cpp'],
 [('abstract socket named after the process id','TransportUnix::serve / connect'),('parsing of the kernel table of unix sockets','TransportUnix::getTransportServers')],
 ['TransportFactory::discover / connect / serve results'])

prop('C08','The loopback transport keeps the same request and broadcast promises',
 "On a loopback connection every request is handled exactly once by the named server endpoint with its exact bytes, in the order issued, and its future gets exactly that handler's response; a request for a missing endpoint makes its future fail, a dropped request is forgotten, and the worker survives all of this. Broadcasts reach the named endpoint of every live connected client once and in order, also while clients are being connected and destroyed concurrently.",
 ['schedules','histories'],
 'All interleavings of requests, dropped requests, missing endpoints, broadcasts, and clients coming and going.',
 'The test makes one request, one broadcast and one dropped request in sequence.',
 [T+'transport_loopback.cpp','scalopus_interface/src/transport.cpp'],
 [('list of pending requests served by the worker thread','TransportLoopback::work'),('list of weak client pointers','TransportLoopback::addClient')],
 ['Endpoint::handle / unsolicited calls','futures','Transport::pendingRequests'])

prop('C09','The endpoint manager mirrors exactly the servers that are alive',
 "After each management round the endpoint manager holds exactly one connection per discovered live server, each with exactly the endpoints that this server reports on introspection and for which a factory was registered, built by that factory and able to receive that server's broadcasts; connections to servers that went away are dropped, and a server that did not answer the introspection in time is asked again in the next round. This holds for every history of servers appearing, disappearing and re-appearing, including one that vanishes between being discovered and being connected or questioned, which must not end the process nor the polling nor affect other servers.",
 ['histories','crash_points','configurations'],
 'All histories of server arrivals and departures, all sets of offered endpoints and factories, all points of a management round at which a server can vanish.',
 'No test uses the endpoint manager.',
 ['scalopus_general/src/endpoint_manager_poll.cpp','scalopus_general/src/endpoint_introspect.cpp'],
 [('drop disconnected, then discover and connect','EndpointManagerPoll::manage'),('introspection decides which factories run','EndpointManagerPoll::connect')],
 ['EndpointManager::endpoints after manage()','calls to the registered factories'])

prop('C10','Trace points are recorded exactly when process and thread are enabled',
 "A trace point (scope entry, scope exit, mark or count) of the native and the LTTng back-end is recorded if and only if both the process state and the state of the executing thread are enabled at that moment; both start enabled, and one thread's state never influences another thread. The scoped on/off macros restore the state they found, for every nesting and mix of process and thread scopes, and a thread's state does not outlive the thread.",
 ['programs','schedules','histories'],
 'All nestings of scoped and permanent on/off switches over several threads, all kinds of trace points, thread exit and reuse of thread ids.',
 'The existing tests run the macros with LTTng present but never look at what was recorded.',
 ['scalopus_tracing/src/trace_configurator.cpp','scalopus_tracing/src/trace_configuration_raii.cpp','scalopus_tracing/src/lttng/lttng_tracepoint.cpp','scalopus_tracing/src/native/native_tracepoint.cpp','scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h'],
 [('process flag and per thread flag consulted by each trace point','scope_entry / scope_exit / mark_event / count_event'),('exchange on construction, restore on destruction','TraceConfigurationRAII')],
 ['events in the native ring buffers','LTTng probe calls','TraceConfigurator getters'])

prop('C11','Remote trace configuration changes what was asked and reports the truth',
 "Setting the trace state through the trace configuration endpoint changes the process state only if asked to, changes exactly the listed threads that exist, leaves all others as they are and creates none; the reply of a set and of a get is the actual state of the process and of all its registered threads after the command. The same holds for all interleavings with threads that start, exit or toggle their own state, and the new state governs the trace points those threads execute next.",
 ['histories','inputs','schedules'],
 'All sequences of get and set commands with arbitrary subsets of existing and non-existing threads, interleaved with thread creation, exit and local toggling.',
 'No test uses the trace configuration endpoint.',
 ['scalopus_tracing/src/endpoint_trace_configurator.cpp','scalopus_tracing/src/trace_configurator.cpp'],
 [('shared flags per thread looked up by id','EndpointTraceConfigurator::handle')],
 ['EndpointTraceConfigurator::setTraceState / getTraceState','TraceConfigurator getters','recorded trace points'])

prop('C12','The ring buffer is a FIFO for every interleaving of producer and consumer',
 "With one producer and one consumer thread, the single-producer single-consumer ring buffer yields every accepted element exactly once, unchanged and in the order it was pushed, for every capacity, interleaving and legal reordering of memory accesses. A push is refused only while capacity minus one elements are held and then changes nothing; pops never return more than asked, never an element that was not pushed, and the size and emptiness it reports are correct whenever they are not racing.",
 ['schedules','inputs','configurations'],
 'All interleavings of push, pop, bulk pop, size and emptiness at the granularity of the atomic accesses, all reorderings their memory orders permit, all wrap-around positions.',
 'test_ringbuffer runs a few sequential cases and one threaded run on strongly ordered hardware.',
 ['scalopus_tracing/src/spsc_ringbuffer.h'],
 [('release store of an index publishes the element, acquire load of the other index','SPSCRingBuffer::push / pop / pop_into')],
 ['return values of push, pop, pop_into, size, empty'])

prop('C13','Process and thread names reported remotely are the current ones',
 "The process information a client obtains is the server's process id, its configured process name, and exactly the names of those of its threads that set one and are still running, each under that thread's id with the most recently set name. This holds for every history of threads naming themselves, renaming, exiting and ids being reused, and the metadata events made from it name each live process and its threads exactly once and never contain a process that did not answer.",
 ['histories','schedules'],
 'All histories of thread creation, naming, exit and id reuse, any number of processes, including ones that do not answer in time or vanish.',
 'The test asks for the name once, in a process whose threads do not come and go.',
 ['scalopus_general/src/endpoint_process_info.cpp','scalopus_general/src/thread_name_tracker.cpp','scalopus_general/src/general_provider.cpp','scalopus_general/src/general_source.cpp'],
 [('thread exit removes the name','ThreadNameTracker'),('one metadata event per process and per thread','GeneralSource::finishInterval')],
 ['EndpointProcessInfo::processInfo','GeneralSource::finishInterval'])

prop('C14','Every recorded trace id resolves to the name written in the source',
 "Each trace macro records the same id at entry and exit, and any id recorded by an executed macro resolves, through the mapping endpoint and the scope tracing provider, to exactly the name given in the source (with the series for counters, 'count' if none was given), per process, for macros on different source lines and checksum collisions aside; ids that were not announced resolve to a visible placeholder with the id in hexadecimal. A process that does not answer or has vanished never removes or changes the names of the other processes nor fails the query.",
 ['programs','histories','configurations'],
 'All trace macros with all names, any number of processes with equal ids but different names, processes that vanish during the query.',
 'test_endpoint_scope_tracing checks a fixed pair of names in one process.',
 ['scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h','scalopus_tracing/src/endpoint_trace_mapping.cpp','scalopus_tracing/src/scope_tracing_provider.cpp','scalopus_tracing/src/static_string_tracker.cpp'],
 [('id computed at compile time from file and line or name and registered on first execution','trace macros'),('per process map of ids','EndpointTraceMapping / ScopeTracingProvider')],
 ['EndpointTraceMapping::mapping','ScopeTracingProvider::getScopeName / splitCounterSeriesName','recorded ids'])

prop('C15','Parsing a babeltrace line is exact and never fails',
 "For every line babeltrace prints for an event with plain (not nested) fields, the parsed event has exactly the printed timestamp, domain, event name and the decimal integer fields of each of the three contexts; fields that are not decimal integers are left out, negative ones keep their value (as signed 64 bit), and text in quotes is never taken for anything else. A line cut off anywhere yields nothing that the whole line does not say. For every other line - empty, damaged or arbitrary text - parsing returns normally with defined values, the same ones each time, and lines parsed before, after or at the same time have no influence.",
 ['inputs'],
 'All lines produced by the line grammar (any numbers of fields, 64-bit values, names) and all truncations and corruptions of them.',
 'test_ctfevent parses three hand-picked well-formed lines.',
 ['scalopus_tracing/src/lttng/ctfevent.cpp'],
 [('position based splitting of the line','CTFEvent::CTFEvent')],
 ['CTFEvent accessors'])

prop('C16','LTTng events become exactly one correct trace viewer entry each',
 "The entries returned for an LTTng recording interval are exactly one per recorded scalopus event, with its time in microseconds, process id, thread id, phase, mark scope and resolved name, ordered by time with equal times in arrival order; other events give none and a defective event does not remove or change the entries of others. Each counter entry carries every series that this counter of this process has in the interval, with each series' value at that time (or its first later value before that), and counters of different processes never mix.",
 ['inputs','histories'],
 'All sequences of events of several processes and threads, arriving out of time order, with any mix of counters and series.',
 'No test converts LTTng events.',
 ['scalopus_tracing/src/lttng/lttng_source.cpp','scalopus_tracing/src/scope_tracing_provider.cpp'],
 [('conversion, stable sort by time, reverse fill of series','LttngSource::convertEvents')],
 ['LttngSource::finishInterval result'])

prop('C17','A recording interval sees each line once, from its start to its stop only',
 "While babeltrace output is being processed, every registered event callback is invoked exactly once per line that arrives completely between its registration and its disabling, in order, with that line, regardless of how the lines are cut into reads and of other callbacks being added and removed; lines that have arrived are delivered without waiting for more output. Once disabling has returned the callback is never invoked again, the end of the output loses no line that had arrived (the remainder without a line end counts as a line then), and a halt ends the processing promptly. This also holds for the tool that starts babeltrace for a session and is halted or destroyed at any time.",
 ['schedules','histories','inputs'],
 'All interleavings of arriving lines with adding and disabling callbacks, all fragmentations of the output, halting at any point.',
 'No test runs the parser on a stream.',
 ['scalopus_tracing/src/lttng/babeltrace_parser.cpp','scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h'],
 [('set of active callbacks under a mutex','BabeltraceParser::process / setCallback'), ('start and end of babeltrace','BabeltraceTool::init / halt')],
 ['callback invocations'])

prop('C18','Native trace events reach the transport exactly once, also from ended threads',
 "Every native trace event that a thread records while its buffer has room is broadcast exactly once by the native trace sender, under the recording thread's id and in the order recorded, with its id, type, value and a non-decreasing time; this includes events of threads that have already ended and of threads that reuse an id. When the buffer is full only the newest events are dropped, never older ones, and recording resumes once the buffer is drained.",
 ['schedules','histories'],
 'All interleavings of recording threads that start and end with the rounds of the sender, all buffer sizes.',
 'The native tests are not part of the stable tests and only trace from the main thread and one short thread with sleeps in between.',
 ['scalopus_tracing/src/native/tracepoint_collector_native.cpp','scalopus_tracing/src/native/endpoint_native_trace_sender.cpp','scalopus_tracing/src/native/native_tracepoint.cpp'],
 [('per thread ring buffer, handed to a list of orphans when its thread ends','TracePointCollectorNative::getBuffer'),('collect orphans, then active buffers, broadcast','EndpointNativeTraceSender::work')],
 ['payloads passed to Transport::broadcast'])

prop('C19','A native trace source returns exactly the events of its own interval',
 "The entries a native trace source returns for an interval are exactly one per event contained in the data that arrived between starting and stopping that interval, each with its time, process, thread, phase, mark scope and resolved name, ordered by time, with counter series completed per process as for LTTng; sources are independent of each other and intervals never leak into the next. Undecodable data yields no entries but does not disturb the entries of other data, and neither this nor the disappearance of the provider ends the process.",
 ['histories','schedules','inputs'],
 'All interleavings of arriving data with start, stop and finish of several sources; arbitrary data.',
 'The native tests are not part of the stable tests and use one interval of one source.',
 ['scalopus_tracing/src/native/native_trace_source.cpp','scalopus_tracing/src/native/native_trace_provider.cpp'],
 [('only recording sources get data','NativeTraceProvider::incoming'),('conversion, stable sort, reverse fill','NativeTraceSource::finishInterval')],
 ['NativeTraceSource::finishInterval result'])

prop('C20','A trace viewer session answers in order and delivers each event once',
 "A trace viewer session answers every recognised command with that command's id, in the order received; the answer to start is sent after all sources started their interval, and the answer to end after all stopped. After the answer to end it sends every event of every source exactly once and in order, in well-formed messages of at most one thousand events, followed by exactly one completion message; unknown or malformed messages, a failing source, and ending the session at any moment disturb neither other commands nor the process.",
 ['histories','inputs','schedules'],
 'All sequences of messages, all event counts around the chunk size, all numbers of sources, failing sources and destruction at any time.',
 'No test covers the session.',
 ['scalopus_catapult/src/trace_session.cpp','scalopus_catapult/src/trace_session.h'],
 [('queue of incoming messages processed by one worker','TraceSession::loop'),('slicing into chunks','TraceSession::chunkedTransmit')],
 ['calls of the response function','calls of the sources'])

prop('C21','A recorder writes one well-formed trace with every event of the interval',
 "For every legal or illegal order of starting, stopping, interval control, collecting, writing and destroying, the trace recorder neither hangs nor ends the process, and what it returns or writes is one well-formed JSON array with exactly the events that each provider's source returned for the interval, once and in provider order. A configured dump file is written with exactly that content on destruction, and an empty interval gives an empty array.",
 ['histories','inputs'],
 'All sequences of recorder calls, any number of providers and events, any event content.',
 'No test covers the recorder.',
 ['scalopus_catapult/src/catapult_recorder.cpp','scalopus_catapult/include/scalopus_catapult/catapult_recorder.h'],
 [('stop interval, gather from all sources, dump','CatapultRecorder::collectEvents')],
 ['collectEvents result','file content','calls of the sources'])

prop('C22','Shared trackers and endpoint registries behave like atomic maps',
 "Concurrent use of a tracker map (insert, erase, clear, exists, value, whole-map) and of a transport's endpoint registry (add, find, list, serving requests) by any number of threads behaves as if the operations were executed one at a time in an order consistent with real time. In particular no completed insert is lost, no stale or torn value is returned, and no operation crashes or blocks forever.",
 ['schedules','histories'],
 'All interleavings of the operations of several threads on shared keys.',
 'The tests use these maps from one thread at a time.',
 ['scalopus_general/include/scalopus_general/map_tracker.h','scalopus_interface/src/transport.cpp'],
 [('reader/writer lock around the map','MapTracker'),('endpoint mutex','Transport::addEndpoint / endpoints / getEndpoint')],
 ['return values of the operations'])

prop('C23','The Python bindings preserve values and object lifetimes',
 "Values passed between Python and the C++ library (JSON, endpoints, requests, responses) arrive unchanged in both directions, and Python-implemented endpoints and providers behave like C++ ones without either side outliving the other unsafely.",
 ['inputs','programs','schedules'],
 'All JSON values, all orders of destruction, all threads calling into Python.',
 'The Python tests need pybind11, which is absent, and sample a few values.',
 ['scalopus_python/lib/json_util.cpp','scalopus_python/lib/scalopus_interface.cpp'],
 [('conversion routines','scalopus_python/lib/json_util.cpp')],
 ['Python API'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
