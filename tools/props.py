#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

TR='src/handler/tree_router.rs'; RO='src/handler/routing.rs'; VA='src/handler/variables.rs'; ME='src/handler/method_router.rs'
OE='src/handler/or_else.rs'; ST='src/handler/status_router.rs'; HM='src/handler/mod.rs'; RE='src/response.rs'; IN='src/server/instance.rs'
CF='src/server/config.rs'; SM='src/server/mod.rs'; UT='src/utils.rs'; FI='src/file.rs'; FL='src/filter.rs'
BO='src/context/body.rs'; MU='src/context/maybe_utf8.rs'; PA='src/context/parameters.rs'; HY='src/context/hypermedia.rs'; CX='src/context/mod.rs'

p('P01','Route selection follows pattern precedence and registration',
 "A request is handled by exactly one handler: among the registered routes that match its path and have a handler for its method, the one that wins when the path is read segment by segment from the left, where a literal segment beats a single-segment variable, which beats starting a multi-segment variable, and ending a multi-segment variable as early as possible beats extending it. Routes without a handler for the method never hide routes that have one, turning hyperlink search on or off never changes which handler runs, and a matched handler starts with a 200 status. If no route matches the path the client gets 404 (or 405 where the path is only a prefix of registered routes), and if routes match only for other methods it gets 405.",
 ['inputs','configurations'],'For every route table (patterns of literals, :segments and *sequences with arbitrary bytes in labels, up to dozens of segments), every method, every request path, and either setting of hyperlink search.',
 'The unit tests look up some tens of hand-picked paths in a few tables; precedence and backtracking only go wrong for particular overlaps of several patterns with a particular path and method.',
 [TR,RO,ME],[('depth-first search over a stack of (node, branch, position)',TR+': impl HandleRequest for TreeRouter'),('method lookup',ME+': impl HandleRequest for MethodRouter'),('path segments',RO+': Route::segments')],
 ['handlers that ran, in-process dispatch','status and body of the HTTP response'])
p('P02','Path variables hold exactly the matched part of the path',
 "When a handler runs, every named variable of its own pattern is available under its name, with the percent-decoded bytes of the segment it matched, or for a multi-segment variable all of its segments joined by a slash. Unnamed variables are dropped, and no variable exists that the pattern does not name: routes that were tried and abandoned, fallback handlers, other methods on the same path and names used by other registrations of the same shape leave no trace.",
 ['inputs','configurations'],'For every route table, every assignment of distinct variable names, and every matching path with arbitrary bytes in its segments.',
 'Tests check a handful of paths with one-letter ASCII names and values; wrong slices and stale names show only with backtracking, several adjacent sequences, non-UTF-8 bytes or empty segments.',
 [RO,VA,TR,CX],[('segments tagged with variable numbers',RO+': RouteState'),('names zipped with tagged segments',RO+': VariableIter'),('names stored per handler',VA+': Variables')],
 ['context.variables in the handler'])
p('P03','Every way of building the same routes gives the same router',
 "Routers built from the same list of (method, pattern, handler) registrations route every request identically, whether the registrations are collected from an iterator, made one by one with full paths, nested path by path, made through builder closures, or added by looking an existing node up again; the last registration for a method and a pattern shape wins. This holds for path-then-method, method-then-path and method-less compositions, with empty path segments, and with leading and trailing slashes in patterns being insignificant.",
 ['programs','inputs'],'For every list of registrations, every way of splitting the patterns between nested builder calls, and every request.',
 'Each builder method has about one example; equivalence between them over arbitrary orders, overlaps and nestings is a relation between programs that examples do not cover.',
 [TR,ME,HM],[('builders carry variable names downward',TR+': Builder::path/on_path/on_route/then'),('lookup of existing nodes',TR+': Builder::get_path'),('method builders',ME+': Builder::on/method'),('collecting',TR+': FromIterator')],
 ['handler and variables seen per request'])
p('P04','Merging a router is the same as registering its routes there',
 "Merging one router into another at some path gives a router that treats every request as if the merged router's routes had been registered under that path afterwards: they replace registrations with the same method and pattern shape, everything else in both is kept, and variables named in the path of the merge point are available to the merged handlers alongside their own. It doesn't matter to it whether anything can be printed.",
 ['programs','inputs'],'For every pair (and chain) of route tables, every merge point including ones below variables, and every request.',
 'A few tests merge two or three fixed routers; loss or misnaming shows only for particular overlaps between the two tables and for merge points below variables.',
 [TR,ME,VA,HM,ST,OE],[('recursive merge',TR+': impl Merge for TreeRouter'),('prepending names',TR+': ApplyContext; '+VA+': prepend_context'),('builder merge',TR+': Builder::merge')],
 ['handler and variables seen per request'])
p('P05','Router composition hands rejected requests on intact',
 "In any composition of routers (fallback pairs, per-status, per-method, per-path, optional), the request is offered to the parts in their documented order until one accepts, exactly one handler runs, and a rejected request reaches the next part with its body, headers, address and path as they were and with the status the rejecting part set. A fallback that is itself a path router sees the whole path from the same position as the part that rejected it.",
 ['programs','inputs'],'For every tree of composed routers up to a bounded size, with user-written rejecting routers as parts, and every request.',
 'Each combinator is tested on its own; composition defects need a particular nesting together with a rejection deep inside it.',
 [OE,ST,ME,TR,HM],[('fallback',OE+': impl HandleRequest for OrElse'),('selection by status',ST+': impl HandleRequest for StatusRouter'),('optional handlers',HM+': impl HandleRequest for Option'),('route state kept in the environment',RO+': RouteState::go_to')],
 ['handlers that ran and the environment they saw','status of the returned environment'])
p('P06','Hyperlinks list exactly the neighbouring methods and segments',
 "With hyperlink search on, a handler sees, sorted and without duplicates, exactly the links of all the path nodes that match the request: one for each other method at those nodes and one for each child segment (literal with its label, single or multi-segment variable without one); with search off it sees none. Listing a router's links enumerates its handlers and child segments under the given base link, and links are totally ordered consistently with their equality.",
 ['configurations','inputs'],'For every route table, method, path and base link, and every triple of links for the ordering laws.',
 'Three fixed trees are tested; unions over several matched nodes, sequences in between, and the ordering laws are not.',
 [TR,ME,HM,HY,OE,ST],[('collection during the search',TR+': handle_request'),('recursive listing',TR+': hyperlinks; '+ME+': hyperlinks'),('ordering',HY+': impl Ord for Link')],
 ['context.hyperlinks in the handler','returned link lists'])
p('P07','Request targets are split and decoded the same in every form',
 "For every request target, handlers see the percent-decoded path, the decoded query variables and the decoded fragment that the target encodes, byte for byte even when they are not text, and identically for origin form and absolute form; percent-encoded delimiters never end the path, the query, a name or a value, and an empty path is the root. An absolute target's authority replaces the Host header, an asterisk target reaches context filters but no handler, and targets of other forms get 400.",
 ['inputs'],'For every target assembled from arbitrary path, query and fragment bytes under every valid percent-encoding, in each request-target form.',
 'Six fixed targets are tested; encodings of delimiters, non-UTF-8 bytes, empty parts and their combinations are not, nor is agreement between forms.',
 [IN,UT],[('origin form',IN+': parse_path'),('absolute form',IN+': parse_url'),('dispatch on target form',IN+': handle')],
 ['uri_path, query, fragment and Host header in filters and handlers'])
p('P08','Query strings and form bodies round-trip through the parser',
 "Any map of byte strings, serialised as a URL-encoded form with any mix of percent-encoding and plus signs, is read back as exactly that map, with the last occurrence of a repeated name winning, the empty map giving no parameters and names without a value giving an empty value. The result is the same whether it arrives as an origin-form query, as an absolute-form query or as a request body.",
 ['inputs'],'For every map of arbitrary byte strings, every serialisation of it, and each of the three ways it can arrive.',
 'Three short ASCII strings are tested, only on the internal parser, never through a request and never with non-UTF-8, repeated or empty names.',
 [UT,BO,IN],[('splitting and decoding',UT+': parse_parameters'),('form bodies',BO+': read_query_body')],
 ['context.query','parameters returned for the body'])
p('P09','Request bodies reach the handler byte for byte',
 "The handler reads exactly the bytes the client sent, in order and then end of input, for sized and chunked bodies, however the bytes arrive from the network and whatever buffer sizes the handler reads with. A multipart form body with any valid boundary yields exactly the fields that were encoded, and only for a multipart form content type with a boundary; the multipart reader and the plain reader see the same underlying stream, and a body that is cut short is reported as an error, never as a complete body.",
 ['inputs','schedules'],'For every body, framing, chunking, fragmentation of network reads, read pattern of the handler, and multipart field list and boundary.',
 'No test reads a body at all.',
 [BO],[('body reader',BO+': BodyReader'),('boundary extraction',BO+': from_reader'),('multipart adapter',BO+': MultipartRequest')],
 ['bytes and fields read by the handler'])
p('P10','Every response is one well-formed HTTP message with the right body',
 "Whatever a handler does with its response (send data, send nothing, stream chunks, stream a declared length, or just drop it), the client receives exactly one well-formed HTTP message with the chosen status, the headers the handler set, and exactly the bytes written in order, correctly framed by a content length or by chunks. Responses on a kept-alive connection come back in request order with nothing in between, and statuses that forbid a body carry none. The response to a HEAD request has the same head as that to a GET request would have, and no body.",
 ['programs','inputs','histories'],'For every sequence of operations on the response, every status and content (including empty), and every pipeline of requests.',
 'The tests send a few constant strings through a mock that discards everything; no test looks at bytes on the wire.',
 [RE],[('sized responses',RE+': Response::send_sized'),('chunked responses',RE+': Chunked'),('raw responses',RE+': Raw'),('drop',RE+': impl Drop')],
 ['raw bytes written to the connection'])
p('P11','Response filters form one ordered, lossless pipeline',
 "With response filters installed, the status and headers pass through every filter in order before the head is sent, every piece of content passes through every filter in order, and data a filter adds at the beginning or at the end of the body passes through the later filters exactly once and appears at its place in the body. A piece that a filter has turned into nothing still reaches the later filters, as nothing, and they may make something of it. A filter that stops silently keeps that piece from later filters and from the client but nothing else is lost, and a filter error is reported to the handler; fixed-length streams bypass all filters.",
 ['configurations','programs','histories'],'For every list of filters with arbitrary begin, write and end behaviour, and every sequence of writes in every response style.',
 'No test installs more than trivial filters; ordering and loss appear only with several filters that add, drop and abort at different stages.',
 [RE,FL],[('begin',RE+': filter_headers'),('write',RE+': filter_content'),('end',RE+': filter_end')],
 ['calls each filter received','response bytes','results returned to the handler'])
p('P12','Context filters run in order, can stop a request, and share state',
 "Every request passes through the context filters in their configured order up to the first that aborts; after an abort no later filter and no handler runs and the client gets exactly the abort status. Otherwise routing and the handler act on the request as the filters left it, and the per-request storage they filled is visible to later filters, to the handler and to the response filters of the same request, and never to another request.",
 ['configurations','inputs','histories'],'For every list of context filters that rewrite any part of the request, store data or abort, and every sequence of requests on one server.',
 'No test runs a context filter.',
 [IN,FL],[('filter loop',IN+': modify_context'),('storage handed to the response',IN+': handle')],
 ['order of filter calls','what the handler and response filters see','response status'])
p('P13','Sendable values map to their documented status and body',
 "Sending a value produces its documented response: text and bytes are sent as they are without touching the status, a success or failure result sets 200 or 500 and then sends its content, a missing optional value gives 404 with an empty body, an I/O error sends its message and sets 404 only for a missing file, and combinations nest accordingly. This is the same whether the handler sends the value itself or returns it from a content-creating handler, and headers the handler set are kept.",
 ['inputs','programs'],'For every nesting of results, options, errors, text and bytes, every prior status and both ways of sending.',
 'No test observes the status or body of any of these; nested combinations are unbounded.',
 [RE,HM],[('conversions',RE+': impl SendResponse for ...'),('content handlers',HM+': ContentFactory')],
 ['status, headers and body on the wire'])
p('P14','Files are sent completely, with the right type and errors',
 "Sending a file delivers exactly its bytes from the current position, with their count as the content length and a content type from its extension (or the given mapping, falling back to a generic binary type). If the path cannot be opened as a file (missing, a directory, ...) nothing has been sent, the response is handed back with its previous headers and status still usable, and the default handling is 404 for a missing file and 500 otherwise. If a file is cut or grows while it is sent, the client gets the declared number of bytes or a closed connection, and never takes something else for them.",
 ['inputs','configurations','fault_sequences'],'For every file size and content, every name and extension, every way of sending and every kind of path that cannot be opened.',
 'No test sends a file.',
 [RE,FI],[('paths',RE+': impl SendResponse for &Path, send_file_with_mime'),('open files',RE+': impl SendResponse for File'),('errors',RE+': FileError')],
 ['response bytes','returned error and recovered response'])
p('P15','The path check accepts exactly the paths that cannot escape',
 "The path check accepts a path if and only if it has no root and no parent component, and otherwise reports the first such component. So an accepted path, joined to any directory and walked component by component, never leaves that directory, not even on the way, and every path made of normal and current-directory components is accepted, whatever bytes it consists of and however it is given.",
 ['inputs'],'For every byte string as a path, including percent-decoded request paths.',
 'One documentation example covers one path; the property is about every string.',
 [FI],[('component walk',FI+': check_path')],['returned result'])
p('P16','File extensions map to media types exactly as the bundled table says',
 "For every extension listed in the bundled media type table, the lookup returns exactly the type and subtype listed there, with no parameters, printing as in the table; for every other string it returns nothing. The lookup is exact: it does not depend on earlier lookups, and does not trim or match case-insensitively.",
 ['inputs'],'For every extension of the table and every other string, in particular near misses of listed ones.',
 'One documentation example looks up one extension of about a thousand.',
 [FI,'build/mime.rs'],[('lookup',FI+': ext_to_mime'),('table generation','build/mime.rs: gen')],['returned media type'])
p('P17','Possibly-text byte strings behave as their bytes',
 "A possibly-text string always has exactly the bytes that were put into it, by conversion or by any sequence of appends of characters, bytes, text or through its buffer, and after every conversion from bytes and every buffered edit it counts as text exactly if those bytes are valid UTF-8. Equality, ordering and hashing depend on the bytes only and agree with those of plain strings and byte slices, and conversions back are lossless (lossy text conversions replace exactly the invalid parts).",
 ['inputs','histories'],'For every byte string and every sequence of editing operations, and all pairs and triples for the comparison laws.',
 'No unit test exercises this type directly; its laws quantify over operation sequences and pairs of arbitrary byte strings.',
 [MU],[('edits',MU+': push_*, Buffer'),('comparisons',MU+': impl PartialEq/PartialOrd/Ord/Hash'),('conversions',MU+': impl From/Into')],['public methods of the type'])
p('P18','Parameter maps behave as maps from byte strings to byte strings',
 "After any sequence of insertions, removals, in-place edits, extensions and conversions, a parameter map contains exactly what a plain map from byte strings to byte strings would, and lookups by text, by bytes and through iteration agree. Reading a parameter as text replaces invalid parts only, and parsing gives the parsed value, the parse error, or the absence of the parameter, with the corresponding fallbacks used exactly when parsing does not succeed.",
 ['histories','inputs'],'For every sequence of operations on the map with arbitrary byte-string keys and values.',
 'No unit test exercises the map beyond simple lookups.',
 [PA],[('map wrapper',PA+': Parameters')],['public methods of the type'])
p('P19','The global store keeps one value per type',
 "After any sequence of insertions, a global store returns for every type exactly the last value inserted for it, hands back the previous value on replacement and nothing on first insertion, and drops every stored value exactly once. This is the same however the store was created: empty, from one boxed value, or from a tuple of up to twelve values.",
 ['histories','configurations'],'For every initial construction and every sequence of insertions and lookups over many types.',
 'No unit test inserts into a store; the one-value and many-value representations and the transitions between them use unchecked casts.',
 [CF],[('representations',CF+': GlobalState'),('insertion',CF+': Global::insert')],['returned values','drop counts'])
p('P20','Keep-alive is refused exactly when too few threads are free',
 "With keep-alive configured, a response carries a close instruction and the connection is closed whenever the connections in use plus the number of threads to keep free exceed the thread count, and stays open otherwise, for every response style; with keep-alive off every connection closes after one response. Connections that end, however they end, stop counting, so the server returns to keeping connections alive.",
 ['histories','configurations','schedules'],'For every configuration of threads and threads to keep free, and every history of connections opening, sending requests and closing.',
 'No test runs a server; the accounting shows only over histories of several overlapping connections.',
 [IN,RE,CF],[('congestion test',IN+': handle'),('connection counting',IN+': on_connection_start/on_connection_end'),('close header',RE+': force_close')],
 ['Connection header','connection state at the client'])
p('P21','Requests do not influence each other',
 "What a request sees and what its client receives depend only on that request, the server configuration and shared data the application itself changes: earlier and concurrent requests on the same or other connections never alter its path, variables, query, headers, body, filter storage, hyperlinks or response, and nothing is lost or swapped between connections. The same server gives the same answer to the same request at any point in any history.",
 ['histories','schedules'],'For every history of requests on one server instance and for concurrent clients over real connections.',
 'Tests dispatch isolated requests to routers; none reuses a server instance over a history or concurrently.',
 [IN,RE,CX],[('one context and response per request',IN+': handle'),('immutable shared router and filters',IN+': ServerInstance')],
 ['responses over in-process histories and loopback connections'])
p('P22','Arbitrary input never crashes the server or corrupts its output',
 "For any bytes a client sends, the server never panics, never loops forever, and writes only well-formed responses, at most one for each complete request head it received. The application data parsers (targets, query strings, form bodies, path patterns, multipart boundaries, path checks, media type lookup) accept or reject any byte string without panicking.",
 ['inputs'],'For every byte stream, generated structurally and by mutation, and every string given to the parsers.',
 'Tests only feed well-formed ASCII input.',
 [IN,UT,RO,BO,FI,TR],[('target parsing',IN+': parse_path, parse_url'),('parameter parsing',UT+': parse_parameters'),('segmenting',RO+': segments')],
 ['absence of panics','bytes written to the connection'])
p('P23','Request metadata and configured defaults are passed on faithfully',
 "The handler sees the client's method, HTTP version, address and headers exactly as sent, and the configured global data. Every response carries the current date unless a handler or filter replaced it, and the configured server name and content type unless a handler or filter replaced or removed them, a request no handler accepts gets the status set while routing or else 404, and the configured address, however it was given, is the one the server listens on.",
 ['inputs','configurations'],'For every request head and server configuration, in every response style.',
 'No test sends a request through a server.',
 [IN,SM,CF,CX],[('default headers and context',IN+': handle'),('configuration',SM+': Server'),('addresses',CF+': Host')],
 ['context in the handler','response head'])
p('P24','Streaming writers honour the standard writer contract',
 "A chunked or fixed-length response used as a standard writer accepts every byte exactly once: a write reports how much of the given data it consumed, also when filters change its length or drop it, writing everything terminates and delivers everything, a successful flush delivers everything written so far, and copying any stream into it delivers that stream. A fixed-length response takes no more than its declared length and reports what it didn't take. If the response could not be started, every later operation with data reports an error, and when the connection fails no operation panics, loops or claims more than it was given, and an end or flush that follows the failure doesn't report success. Responses made for testing accept the same operations successfully.",
 ['programs','inputs','fault_sequences'],'For every sequence of writes, formatted writes, copies, flushes and ends, with any filters, on real, failing and mock connections.',
 'No test uses the writers through the standard interface.',
 [RE],[('chunked writer',RE+': impl Write for Chunked'),('raw writer',RE+': impl Write for Raw'),('mock writer',RE+': impl Write for MaybeMock')],
 ['returned counts and errors','bytes on the wire'])
p('P25','Route cursors and segment iteration follow their model',
 "Segmenting a path, given as text, bytes or a list of pieces, yields its parts between slashes with one leading and one trailing slash of each piece ignored and nothing for a root. A routing cursor over them can be advanced by skipping, keeping or extending and moved back to any earlier snapshot of its course, in any order, and once the path is consumed names are given exactly to the segments kept on the final course.",
 ['histories','inputs'],'For every path, every division into pieces, and every sequence of cursor operations with snapshots.',
 'A few fixed paths are segmented; no test moves a cursor directly.',
 [RO],[('segmenting',RO+': Route'),('cursor',RO+': RouteState')],['segments','variables returned by the cursor'])
p('P26','Connection faults stay contained in their request',
 "If reading from or writing to the connection fails at any point, the handler gets an error (or the rest is silently discarded), nothing panics, what was written is a prefix of a correct response, and the server keeps answering requests on other connections correctly. The number of connections in use is the same afterwards as before.",
 ['fault_sequences','crash_points'],'For every position of a read or write fault in every kind of exchange.',
 'No test injects a fault.',
 [RE,BO,IN],[('error propagation',RE+': Chunked::try_send, Raw, send_sized'),('body errors',BO+': impl Read for BodyReader'),('connection accounting',IN+': on_connection_end')],
 ['handler-visible errors','bytes written before the fault','later requests on the same server'])
p('P27','A running server keeps to its configuration',
 "A server that is started, with or without a secure transport, listens at the configured address and reports it; serves as many connections at once as it has threads and no more, the others being served as soon as a connection ends; closes a kept connection that has been idle for the configured time and not earlier; and passes everything that clients and handlers send unchanged, also over the transport. What isn't configured has its documented default.",
 ['configurations','histories','schedules'],'For every configuration of address, threads, keep-alive and transport, and every history of connections.',
 'No test starts a server.',
 [IN,CF,SM],[('start',IN+': run, run_https'),('configuration',SM+': Server'),('keep-alive',CF+': KeepAlive')],
 ['listening address','connections answered at the same time','time until idle connections are closed','bytes received'])
p('P28','Builder context reaches every handler in its scope',
 "A value in the context of a router builder is given to every handler that is created through that builder or a builder derived from it, and to every handler already in a router that is merged through one, each exactly once and in every composition of routers. Handlers outside of that scope, and values which the context doesn't contain, aren't affected. Merging keeps exactly the handlers that are not in conflict, and the later one of those which are.",
 ['programs'],'For every composition of routers, and every program of building, deriving builders, replacing, applying and merging.',
 'The tests build with empty contexts only.',
 [TR,ME,ST,OE,HM],[('tree builder and merge',TR+': Builder, impl ApplyContext'),('method and status builders',ME+', '+ST+': Builder'),('default passing',HM+': FromHandler, ApplyContext, Merge')],
 ['contexts and merges seen by handlers'])
p('P29','Media types written in source are the ones their parts name',
 "The content type macro makes the media type whose type, subtype and parameters are exactly the ones it is given, in the given order, each given as a known name, a string or a value. A string that is a known name gives the known one, any other string stays as it is, and the printed media type is the one that was written.",
 ['inputs'],'For every type, subtype and list of parameters in every form the macro accepts.',
 'The documentation examples only have to compile.',
 ['src/macros.rs'],[('macro','src/macros.rs: content_type'),('conversions','src/macros.rs: MimeHelper')],['the media type'])
p('P30','A handler behaves the same however it is wrapped or shared',
 "A handler that is held by a reference counted pointer, a box, an option or any nesting of these, and placed anywhere in any composition of routers, sees the same requests in the same order, gives the same responses and describes itself in the same way, also through hyperlinks, as the handler itself. It is called exactly once for each request that it is given. All the places that share a handler share its state, and nothing holds on to it when the router that contains it is gone.",
 ['programs','histories'],'For every nesting of wrappers, every place in every composition, and every history of requests.',
 'The tests use functions and boxes of them once each; none compares the wrappers.',
 [HM],[('wrappers',HM+': impl Handler for Arc, Box'),('routers of handlers',HM+': impl HandleRequest, FromHandler, Merge, ApplyContext for Handler, Option')],
 ['calls','responses','descriptions in hyperlinks','what keeps a handler alive'])

p('P31','Mocked requests and responses behave as real ones',
 "A mocked context has exactly the method, path, headers and global data it was made with, and is empty in every other respect. A router or handler that is given a mocked request makes the same decisions, sees the same variables, links and headers, and gets the same results from a mocked response (its status, headers, filter storage and every way of sending), as with a real request of that method, path and headers. The raw, textual, lossy and displayed views of a path agree with its bytes, and replacing the hyperlinks of a context or an environment returns the old ones and changes nothing else.",
 ['inputs','programs'],'For every router, method, path, list of headers, every plan of how to respond, and every list of replaced links.',
 'The tests use mocks to test other things; none compares them to real requests.',
 [CX,RE,BO,HM],[('mocked context',CX+': Context::mock, UriPath'),('mocked response',RE+': MaybeMock'),('mocked body',BO+': BodyReader::mock'),('replacing links',CX+', '+HM+': replace_hyperlinks')],
 ['what handlers see of mocked and of real requests','results of response operations'])

p('P32','A panic never passes for a complete response',
 "If a context filter, the handler or a response filter panics before the head of the response is sent, the client gets a 500 (or a closed connection), never a response with the status, headers or content that had been prepared so far. If it happens later, the client gets what was sent until then and can tell that the response isn't complete: it has no end, and its connection is closed rather than used for another response. No response filter is called while the panic is under way. This also holds if the handler catches the panic itself. Earlier responses on the connection are unaffected, and the server keeps serving other connections.",
 ['programs','fault_sequences','histories'],'For every handler program in every style of response, every set of filters, and every point where any of them may panic, caught or not, between other requests on the same and on other connections.',
 'No test panics; whether a truncated response looks complete depends on the point of the panic, the style of the response and what the destructors do.',
 [RE,IN],[('responses dropped in a panic',RE+': impl Drop for Response, Chunked'),('panics of filters at the end',RE+': AbandonOnPanic'),('the rest of a connection',IN+': HandlerGuard')],
 ['raw bytes written to the connection and its end','filters that are called'])

for q in P:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(q, ensure_ascii=False) + '\n' for q in P))
print(len(P), 'properties')
