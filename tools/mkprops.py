#!/usr/bin/env python3
"""Single source for properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Routing picks the documented best route and extracts the right values",
  "For every route table and request path, matching returns the endpoint and converted values of the best-ranked route whose pattern covers the whole path (and host), and reports not-found exactly when no route covers it. Rank is: routes that yield no values (no variables, no defaults) first, then more parts (host parts count too), then part by part fixed text before variables, longer fixed text first, and number variables before plain variables before path variables; equal ranks go to the earlier registered route. Build-only routes never match, default values are merged into the result, and each value obeys its converter's constraints.",
  ["inputs", "configurations"], "every set of routes, defaults, converters and every request path and host",
  "The suite fixes about thirty route tables and a few paths each; precedence is a relation over all pairs of overlapping patterns and all paths they share.",
  ["verktyg/routing.py"],
  [("Route.compile / Route.match / match_compare_key", "verktyg/routing.py"), ("MapAdapter.match", "verktyg/routing.py"), ("converters", "verktyg/routing.py")],
  [("route table", "ordered list of registered routes", "URLMap._routes")], ["MapAdapter.match"])
p("C02", "URL building is the inverse of URL matching",
  "A URL built for an endpoint from values its converters can yield (variables delimited by slashes) is one that, when matched, yields the same endpoint and the same values unless a better ranked route covers that URL too, and values the route does not use appear (all of them) in the query string unless the caller asked to drop them. A build error is raised exactly when no route of that endpoint accepts the values, and of several suitable routes the non-alias one with most variables is used.",
  ["inputs", "configurations"], "every route table, endpoint and value assignment, including text needing percent-encoding",
  "Tests build a few dozen fixed URLs with plain ASCII values; inversion must hold for every value and every overlap of suitable routes.",
  ["verktyg/routing.py"],
  [("Route.build / suitable_for / build_compare_key", "verktyg/routing.py"), ("MapAdapter.build", "verktyg/routing.py"), ("converter to_url", "verktyg/routing.py")],
  None, ["MapAdapter.build"])
p("C03", "Routing redirects are canonical, terminate and stay on the same site",
  "When matching answers with a redirect (missing slash, default values, alias or explicit target) the target is an absolute URL on the bound scheme, host and script root, and names the canonical URL; slash, default and alias redirects carry the request's query string. Following redirects routing decides by itself always ends after finitely many steps. Nothing in the path can send the client to a different host, also when it is filled into an explicit relative target.",
  ["inputs", "configurations", "histories"], "every route table with defaults, aliases, redirect targets and branch/leaf routes, and every path and query",
  "Tests follow single redirects on fixed tables; termination and same-origin are statements about every chain of redirects from every path.",
  ["verktyg/routing.py"],
  [("MapAdapter.match / get_default_redirect / make_redirect_url / make_alias_redirect_url", "verktyg/routing.py")],
  None, ["MapAdapter.match", "RequestRedirect.new_url"])
p("C04", "Dispatch chooses the handler for endpoint and method with correct errors",
  "Looking up a name and method in any tree of dispatchers and bindings returns a handler registered for exactly that name and method, HEAD falling back to GET. It reports method-not-allowed when the name exists but the method does not, and not-implemented when the name was never registered.",
  ["configurations", "inputs", "histories"], "every nesting of dispatchers, every registration order including additions after nesting, every name and method",
  "Tests use one or two handlers; the guarantee ranges over arbitrary trees and registration histories.",
  ["verktyg/dispatch.py", "verktyg/views.py"],
  [("Dispatcher.add_bindings / lookup", "verktyg/dispatch.py"), ("View.get_bindings", "verktyg/views.py")])
p("C05", "Content negotiation returns the best acceptable representation",
  "Among available representations the chosen one is never one the client excluded and never worse than another available one under this ranking: content type first, then language, then charset, then server quality; within each the more specific match first, then the higher quality, and giving the attribute before leaving it open. The most specific range of a header decides about a value, quality zero excludes it, absent or malformed headers do not restrict the choice. The result does not depend on the order representations are listed except between exact equals (the later one), and not-acceptable is reported exactly when nothing is acceptable.",
  ["inputs", "configurations"], "every set of representations and every Accept, Accept-Language and Accept-Charset header",
  "Tests compare a handful of hand-picked headers; optimality is a statement about all pairs under all headers.",
  ["verktyg/accept/__init__.py", "verktyg/accept/_base.py", "verktyg/accept/content_type.py", "verktyg/accept/language.py", "verktyg/accept/charset.py"],
  [("select_representation", "verktyg/accept/__init__.py"), ("Range.match / parse", "verktyg/accept/content_type.py"), ("Acceptability ordering", "verktyg/accept/_base.py")])
p("C06", "Every error reaches the most specific registered error handler",
  "An exception raised by a handler is answered by the handler registered for the closest class in its inheritance chain that can produce an acceptable representation, falling back to more general classes, whether the handlers are registered directly or through nested dispatchers. This includes errors of routing, dispatch and negotiation. Exceptions with no suitable handler propagate unchanged, and a request that succeeds never reaches an error handler.",
  ["configurations", "inputs"], "every class hierarchy, handler registration, nesting and Accept header",
  "Tests register one or two handlers for fixed classes.",
  ["verktyg/exception_dispatch.py", "verktyg/application.py"],
  [("ExceptionDispatcher.lookup", "verktyg/exception_dispatch.py"), ("BaseApplication._dispatch_request", "verktyg/application.py")])
p("C07", "Request and response cleanup runs exactly once on every path",
  "For every request, each cleanup callback registered on the response (and the response body's own close) runs exactly once, after the body was delivered, whether the client reads it all, disconnects early, or the body fails while streaming (bodies in pass-through mode: when served through an application). Middleware runs in documented nesting order on every path.",
  ["histories", "fault_sequences"], "every point at which the client disconnects or the body raises, and every stack of middleware",
  "Tests consume whole responses; the obligation is about every early stop and failure point.",
  ["verktyg/application.py", "verktyg/responses.py", "verktyg/wsgi.py"],
  [("BaseApplication.__call__ / _wsgi_inner", "verktyg/application.py"), ("BaseResponse.close", "verktyg/responses.py"), ("ClosingIterator", "verktyg/wsgi.py")])
p("C08", "Response framing matches the bytes sent",
  "The bytes a response sends are the encoding of the data put into it, in order, and a Content-Length it announces by itself equals the number of body bytes. Responses to HEAD and with status 1xx, 204 or 304 send no body, and 304 responses carry no entity headers.",
  ["histories", "inputs"], "every sequence of body operations (set, append, stream write, freeze, buffer, iterate) with text or bytes, every status and method",
  "Tests exercise one operation at a time on ASCII bodies.",
  ["verktyg/responses.py"],
  [("BaseResponse.get_wsgi_headers / get_app_iter / set_data / make_sequence / freeze", "verktyg/responses.py"), ("ResponseStream.write", "verktyg/responses.py")])
p("C09", "Conditional requests are answered 304 exactly when unchanged",
  "A safe request with validators is answered not-modified exactly when the entity tag matches the given list (or, absent tags, when the resource is not newer than the given date); otherwise the complete response is sent. Weak and strong tags survive generation, quoting and parsing unchanged.",
  ["inputs", "histories"], "every combination of method, entity tags, tag lists, dates and response state",
  "Tests use single tags and dates; the decision table is a product of all of them.",
  ["verktyg/http/basic.py", "verktyg/responses.py"],
  [("is_resource_modified", "verktyg/http/basic.py"), ("ETagResponseMixin.make_conditional", "verktyg/responses.py"), ("ETags", "verktyg/http/basic.py")])
p("C10", "A header collection is an ordered, case-insensitive multi-map",
  "After any history of operations a header collection lists exactly the fields the documented meaning of those operations leaves, in order, with names compared without case but kept as given, and every read (single, typed, list, slice, membership, WSGI list, text) agrees with that list.",
  ["histories", "inputs"], "every sequence of mutating and reading operations with mixed-case repeated names",
  "Tests run short scripted sequences; aliasing between case variants and positions shows up only in longer mixed histories.",
  ["verktyg/http/basic.py"],
  [("Headers", "verktyg/http/basic.py")],
  [("field list", "ordered (name, value) pairs", "Headers._list")])
p("C11", "No header value can smuggle a line break into a response",
  "Whatever interface is used to set a header (constructor, add with parameters, set, extend, item, slice or typed property assignment), either the value is rejected with an error and nothing changes, or the emitted header list contains no carriage return or line feed.",
  ["inputs", "histories"], "every string and every way of writing a header field",
  "Tests try one string on three methods; the guarantee ranges over all entry points.",
  ["verktyg/http/basic.py", "verktyg/responses.py", "verktyg/http/cookies.py"],
  [("header value validation", "verktyg/http/basic.py")])
p("C12", "Multi-value dictionaries behave as maps from keys to non-empty lists",
  "After any history of operations a multi-value dictionary (plain, ordered, combined) reports exactly the keys, first values and value lists that the documented meaning of those operations leaves; all views, copies, pickles and length agree with each other. The ordered variant in addition keeps the global order in which items were added.",
  ["histories", "inputs"], "every sequence of mutations and reads",
  "Tests run short scripts; stale internal links only show after particular remove/re-add orders.",
  ["verktyg/datastructures.py"],
  [("MultiDict", "verktyg/datastructures.py"), ("OrderedMultiDict", "verktyg/datastructures.py"), ("CombinedMultiDict", "verktyg/datastructures.py")])
p("C13", "Immutable structures never change and copies are independent",
  "No operation on an immutable list, dictionary, multi-value dictionary, combined dictionary or header view changes its content: it raises a type error and the content and hash stay the same. The copy() of an immutable list, dictionary or multi-value dictionary is mutable and independent of the original; pickles and deep copies are equal to it.",
  ["histories", "inputs"], "every mutating operation the underlying type offers, in any order",
  "Tests try the listed mutators once; each inherited mutator not overridden is a hole.",
  ["verktyg/datastructures.py", "verktyg/http/basic.py", "verktyg/wsgi.py"],
  [("Immutable*Mixin", "verktyg/datastructures.py"), ("ImmutableHeadersMixin", "verktyg/http/basic.py")])
p("C14", "Live header views and the header text never disagree",
  "Objects handed out as views of response headers (cache control, header sets such as Vary and Allow, content range, mimetype parameters, authentication challenge) write every change through: after any history of view operations, re-parsing the header text gives exactly the view's content (as text), and emptying a view removes the header (of the mimetype: its parameters). Reading a view changes nothing.",
  ["histories", "inputs"], "every sequence of view operations",
  "Tests perform one or two changes per view.",
  ["verktyg/responses.py", "verktyg/http/basic.py", "verktyg/http/cache_control.py", "verktyg/http/auth.py", "verktyg/datastructures.py"],
  [("UpdateDictMixin / on_update callbacks", "verktyg/datastructures.py"), ("HeaderSet, ContentRange", "verktyg/http/basic.py"), ("cache control properties", "verktyg/http/cache_control.py")])
p("C15", "Structured header values survive dumping and parsing",
  "Dumping a list, dictionary, option set, quoted value, tag set, range or content range and parsing the text gives back the same value, and parsing arbitrary text never raises an unexpected error: it gives the documented value or the documented failure result. Resolving a byte range against a length yields a range inside the resource or nothing.",
  ["inputs"], "every value made of arbitrary header characters including quotes, commas, backslashes, and every input text",
  "Tests list a few dozen literals.",
  ["verktyg/http/basic.py"],
  [("parse_list_header, parse_dict_header, parse_options_header, parse_etags, parse_range_header, parse_content_range_header, dump_header, dump_options_header, quote/unquote_header_value", "verktyg/http/basic.py")])
p("C16", "Cookies round-trip and values cannot inject attributes",
  "A cookie value set on a response and sent back by a client that echoes name=value arrives unchanged, whatever characters it contains (for a name that is a token and not one of the reserved attribute names), and the emitted Set-Cookie header carries exactly the attributes asked for: neither value nor path can add one. Parsing any Cookie header yields every name=value pair in it, quoted or not, a part without a value is left out and spoils no other, and bytes that are not valid in the charset are replaced: parsing never fails.",
  ["inputs", "histories"], "every value, attribute combination and Cookie header text",
  "Tests try a few values.",
  ["verktyg/http/cookies.py", "verktyg/responses.py", "verktyg/requests.py"],
  [("dump_cookie / parse_cookie", "verktyg/http/cookies.py"), ("BaseResponse.set_cookie / delete_cookie", "verktyg/responses.py")])
p("C17", "Request body reads are bounded and independent of chunking",
  "Reading a request body through any mix of read operations never consumes more of the server's stream than the announced length (nothing, if none is announced and the server does not mark the end), returns its bytes in order without loss or duplication, and reports a client that sent too little or a stream that broke. Iterating lines, separated chunks or file blocks gives the same content, and for lines and chunks the same items, whatever the buffer size and however the stream delivers its data.",
  ["histories", "inputs", "fault_sequences"], "every sequence of reads, every body, limit, buffer size and fragmentation of the underlying stream",
  "Tests use one body and one buffer size per case.",
  ["verktyg/wsgi.py"],
  [("LimitedStream", "verktyg/wsgi.py"), ("make_line_iter / make_chunk_iter", "verktyg/wsgi.py"), ("get_input_stream", "verktyg/wsgi.py")])
p("C18", "Mounted applications and shared files get exactly their own paths",
  "A request goes to the application mounted at the longest prefix of its path made of whole segments, with script name plus path info unchanged by the split. Shared-file serving returns exactly the content of an allowed existing file inside an exported directory, and passes everything else, in particular any path leading outside, to the wrapped application.",
  ["inputs", "configurations"], "every mount table, export table, directory tree and request path",
  "Tests try a few paths.",
  ["verktyg/wsgi.py"],
  [("DispatcherMiddleware", "verktyg/wsgi.py"), ("SharedDataMiddleware", "verktyg/wsgi.py")])
p("C19", "Only trusted hosts are accepted and URLs are reconstructed faithfully",
  "A request's host is accepted only if, after removing a port, it equals a trusted name or lies under a trusted dotted suffix; anything else is a security error. The reconstructed URL parts (host, root, base, full URL) are those the request arrived with, the default port omitted when the server names the host.",
  ["inputs", "configurations"], "every host header, trusted list and request environment",
  "Tests try ten host names.",
  ["verktyg/wsgi.py", "verktyg/requests.py"],
  [("host_is_trusted / get_host / get_current_url", "verktyg/wsgi.py")])
p("C20", "HTTP dates round-trip exactly",
  "Formatting any moment from year 1000 on as an HTTP or cookie date and parsing it gives back that moment to the second, independent of time zone or input form; unparsable text gives no date.",
  ["inputs"], "every second of the supported calendar and every input form",
  "Tests use four literal dates.",
  ["verktyg/http/basic.py"],
  [("http_date / cookie_date / parse_date", "verktyg/http/basic.py")])
p("C21", "The test client delivers requests and follows redirects like a browser",
  "A request described to the environment builder or client reaches the application with exactly that method, URL, query, headers, form fields, files and body, and the status, headers and whole body come back, including what the application gave to write(); every response is closed once. Cookies the application or user sets are kept and sent only to the hosts, paths and schemes they are for. Following redirects resolves each Location against the page it came from, visits the hops in order with GET (HEAD stays HEAD; 307 and 308 keep the method) and no body, keeps the script root for targets below it, sends cookies set by earlier hops, and refuses loops and foreign hosts.",
  ["inputs", "histories"], "every request description and every redirect graph",
  "Tests only use the client incidentally.",
  ["verktyg/test.py"],
  [("EnvironBuilder / create_environ / Client.open / run_wsgi_app", "verktyg/test.py")])
p("C22", "International and plain forms of URLs convert without changing meaning",
  "Converting an international address to a plain one gives pure ASCII, is idempotent and leaves an already plain one unchanged (but for the case of scheme and host and the writing of the port); converting back and forth keeps what the URL stands for: scheme, user, host, port and the text of every part, where an escaped delimiter, space or control character stays escaped and a raw one raw. Escapes that are not UTF-8 follow the documented error handling; repairing a typed URL escapes what is not allowed and keeps existing escapes.",
  ["inputs"], "every URL text with arbitrary characters and escapes in every component",
  "Tests try a dozen literal URLs.",
  ["verktyg/urls.py"],
  [("iri_to_uri / uri_to_iri / url_fix", "verktyg/urls.py")])
p("C23", "A secured filename is always a single harmless path component",
  "Whatever text it is given, the filename cleaner returns only ASCII letters, digits, dot, dash and underscore, with no separator and not starting or ending with dot or underscore; it is idempotent and keeps harmless names unchanged.",
  ["inputs"], "every text", "Tests try five names.",
  ["verktyg/utils.py"], [("secure_filename", "verktyg/utils.py")])
p("C24", "Authentication headers are parsed and built faithfully",
  "Credentials encoded by a client in an Authorization header are read back exactly, octet for octet (text in the Latin-1 form WSGI uses), including separators and quoted characters; headers that are malformed or lack a required part give no credentials and no error; a challenge built on the server parses back to the same type and parameters.",
  ["inputs", "histories"], "every user name, password, parameter value and malformed header",
  "Tests use two literal headers.",
  ["verktyg/http/auth.py"],
  [("parse_authorization_header / parse_www_authenticate_header / WWWAuthenticate.to_header", "verktyg/http/auth.py")])
p("C25", "Request objects report exactly what the environment carries",
  "Every view of a request (headers, query arguments, path, cookies, data, forwarded addresses, flags, numeric and date headers) is the documented function of the server's environment; absent or malformed headers give the documented default and never an error; closing a request closes the files it carries and runs each function registered for it once, in order.",
  ["inputs", "configurations"], "every environment",
  "Tests read a few attributes of a few environments.",
  ["verktyg/requests.py", "verktyg/wsgi.py"],
  [("BaseRequest and mixins", "verktyg/requests.py"), ("EnvironHeaders", "verktyg/wsgi.py")])
p("C26", "Concurrent requests route as if handled one at a time",
  "Matching and building from several threads at once, including while routes are being added, gives each thread an answer that the route table would give when used alone, as it was at some moment between the call and its answer (routes added by one call appear together); no request sees a partly sorted or partly updated table or values of another request. Following default values and aliases to another route while routes are added is not covered.",
  ["schedules"], "every interleaving of matching, building and adding routes",
  "Tests are single threaded.",
  ["verktyg/routing.py"],
  [("URLMap.add_routes / update", "verktyg/routing.py")],
  [("route table", "shared mutable lists and the needs-sorting flag", "URLMap")])
p("C27", "Redirects lead exactly where they were told, as one absolute plain address",
  "The Location a response sends is plain ASCII and, unless the class turns that off, the absolute URL the location set stands for when read from the root of the application the request reached: a reference without host stays on that site, one with a host leads to that host, another scheme is left alone. Appending a slash leads to the same path and query on the same site with one slash at the end, whatever characters the path contains. The page of a redirect shows the target and its link as text that cannot add markup. Content-Location is plain ASCII too; sending changes nothing in the response.",
  ["inputs", "configurations"], "every location text, every path and query string, every host and mount point of the request, every order of setting and sending",
  "Tests look at four locations from one root; a location is attacker-controlled text in most applications.",
  ["verktyg/utils.py", "verktyg/responses.py", "verktyg/wsgi.py", "verktyg/urls.py"],
  [("redirect / append_slash_redirect", "verktyg/utils.py"), ("BaseResponse.get_wsgi_headers", "verktyg/responses.py"), ("get_current_url", "verktyg/wsgi.py"), ("iri_to_uri", "verktyg/urls.py")],
  [("stored location", "the header before it is sent", "BaseResponse.headers")], ["Location and Content-Location as given to start_response", "the redirect page"])
p("C28", "The head of a response says exactly what was set",
  "Number and text of a response's status always agree, however the status was given (number, text, class default, another application). The typed properties of a response (content type, lengths, dates, retry delay, locations, encodings) read back what was set through them from exactly one header of that name and leave every other header alone; a header that does not parse reads as absent, never as an error; the charset is announced for text types and only for them. A response rebuilt from what an application sends (from_app, force_type) has the same status, headers and body; removing entity or hop-by-hop headers removes exactly those.",
  ["inputs", "histories", "configurations"], "every status number and text, every MIME type and header value, every order of setting, deleting, rebuilding and sending",
  "Tests set each property once to one value.",
  ["verktyg/responses.py", "verktyg/utils.py", "verktyg/http/basic.py"],
  [("BaseResponse / CommonResponseDescriptorsMixin / ResponseStream", "verktyg/responses.py"), ("header_property / get_content_type", "verktyg/utils.py"), ("remove_entity_headers / remove_hop_by_hop_headers", "verktyg/http/basic.py")],
  [("status", "number and text", "BaseResponse._status, _status_code"), ("headers", "the ordered header list", "BaseResponse.headers")])
p("C29", "An application answers as its builder stood when built, through all its layers",
  "What a builder held when it was called (routes, converters, views, error handlers, middleware, mixins, configuration) is what the application has from then on, whatever is added to the builder later; several applications of one builder do not affect each other and their configuration cannot be changed. A request passes the middleware from the layer added last to the one added first and its answer the other way round; it reaches a view of the endpoint its path routes to, for its method (GET views answer HEAD), with the values of the path, on a request that carries the application, the binding and the mixins' attributes; its error is answered by the handler chosen for it or leaves the application. Redirects lead below the address the application was built for or, without one, below the root the request came to, never to another site, and keep the query. Links of the application requested below its address reach the endpoint and values they were made of. Response, streamed body and request are let go of exactly once, in this order, also when the client leaves early.",
  ["inputs", "histories", "configurations"], "every order of building operations and builds, every combination of layers, every request and link",
  "Tests build five applications and send each one or two requests.",
  ["verktyg/application.py", "verktyg/routing.py", "verktyg/dispatch.py", "verktyg/views.py", "verktyg/exception_dispatch.py"],
  [("ApplicationBuilder / BaseApplication", "verktyg/application.py"), ("MapAdapter.match / build", "verktyg/routing.py"), ("JsonView / expose", "verktyg/views.py")],
  [("builder", "what has been collected so far", "ApplicationBuilder"), ("application", "route table, dispatchers and middleware stack", "BaseApplication")])
p("C30", "An uploaded file reads, iterates, saves and is sent as the stream it wraps",
  "Reading, seeking, iterating, saving and sending an uploaded file go through one position of the stream it wraps: the pieces read, the lines iterated (each ending with its line break, the iteration ending with the stream) and the copies saved are, put together, exactly the octets of the stream, whatever the sizes asked for; saving replaces what was at a path, adds to a file object and leaves that open. Its name is the one given, or the stream's own unless that is no file name (a descriptor, <stdin>); type, parameters and length are those given or sent in its headers, a type known from the name only where a test request adds the file; a header that is no number is a length of nothing, not an error. It counts as there exactly when it has a name. Closing never fails.",
  ["inputs", "histories", "configurations"], "every stream, name and header, every sequence of reads, seeks, copies and closes",
  "No test uses an uploaded file on its own; one saves nothing and reads one.",
  ["verktyg/http/basic.py", "verktyg/test.py"],
  [("FileStorage", "verktyg/http/basic.py"), ("FileMultiDict.add_file / stream_encode_multipart", "verktyg/test.py")],
  [("position", "how much of the stream was read", "FileStorage.stream"), ("destination", "what was saved", "FileStorage.save")])
p("C31", "HTTP errors say what they are, and abort raises the one registered for a number",
  "There is one standard error for each number and it has that number; its name is the reason phrase of the number, its description is the one it was made with, else its class's, and its text is made of number and name, also when it has neither. An aborter raises exactly the error its mapping had for the number when the aborter was made, extra entries first, built of the arguments given; a number without entry is a LookupError; for a response it raises an error that carries it. Later changes of a mapping, other aborters and subclasses with the number of a standard error do not change what abort raises. An error wrapped around another exception is caught as both, keeps the key, and has number, name and description of the HTTP error. Copies say the same.",
  ["inputs", "histories", "configurations"], "every class with inherited or own number and description, every order of wrapping, registering and raising",
  "Tests raise each standard error once and one custom number.",
  ["verktyg/exceptions.py"],
  [("HTTPException / wrap / default_exceptions / Aborter", "verktyg/exceptions.py")],
  [("mappings", "errors by number", "Aborter.mapping"), ("classes", "errors defined and wrapped", "HTTPException.wrap")])
p("C32", "A request description stays one: every view and every environment agree",
  "A request builder describes one request, however it was put together. The base URL is its scheme, host and script root, name and port are those of the host (IPv6 addresses included); a query string and arguments, a body and form fields or files replace each other, and asking for the one that does not stand is an error; content type and length are those of the headers, else the type follows from fields and files. The environment built is exactly the description of the moment: the body is the stream from where it stands, or all fields and files in order, each file with the name and type it was added with (as a tuple, a dict, a stream or a storage); the length is the length of that body; headers of one name arrive joined. Building or looking changes no view, and what fails changes nothing. Closing closes the files and nothing else.",
  ["inputs", "histories"], "every order of setting, adding, clearing and building through the different views",
  "Tests build each request once, from the arguments of the constructor.",
  ["verktyg/test.py", "verktyg/requests.py"],
  [("EnvironBuilder", "verktyg/test.py"), ("BaseRequest.from_values", "verktyg/requests.py")],
  [("description", "what was set and not replaced", "EnvironBuilder"), ("positions", "how far streams and files were read", "EnvironBuilder.input_stream / files")])
for x in P: print(json.dumps(x, ensure_ascii=False))
