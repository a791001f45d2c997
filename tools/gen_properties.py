#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that ids, titles and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["HTTP response of a server started with App::listen"]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

TRIE, APP, ROUTER, CTX = "src/router/route_trie.rs", "src/app.rs", "src/router.rs", "src/context.rs"
RESP, RESPONDER, RBODY, DESER = "src/router/response.rs", "src/router/responder.rs", "src/router/response_body.rs", "src/router/req_deserializer.rs"
LOG, MW, RES = "src/middleware/logger.rs", "src/middleware.rs", "src/router/resource.rs"

p("C01", "Every request reaches exactly the handler its path and method select",
  "For any set of accepted registrations, a request is answered by the handler of the route whose segments match its path: a fixed segment matches only the identical whole segment (byte for byte, case-sensitively), a ':name' segment matches any single segment, and a trailing '*' matches any remainder including an empty one but only where no more specific route matches. Among the methods of the selected path the handler of the request's own method is used, and when no path or no method matches no handler runs and the answer is 404 'Not Found'. Middlewares, and paths that carry nothing but middlewares, never influence which handler is selected.",
  ["inputs", "configurations"], "all sets of accepted routes (any methods, segments sharing arbitrary prefixes, params, wildcards, mounts) x all request paths and methods",
  "The trie tests probe about a dozen fixed paths; the interplay of prefix-sharing segments, params, wildcard fallback and backtracking depends on the whole registered set and on the request, which only generated sets reach.",
  [TRIE, ROUTER, RES, APP], [("radix insertion with node splitting", TRIE+" Node::process_insertion"), ("path search with backtracking to wildcards", TRIE+" Node::get_next_node"), ("method table", RES+" Resource::get_route"), ("404 fallback", APP+" AppServer::resolve_endpoint")],
  [("route trie", "segments of all registered paths, split at shared prefixes", TRIE)])
p("C02", "The order in which routes and middlewares are registered is irrelevant",
  "Any two orders of registering the same set of non-conflicting routes, path middlewares and nested routers give servers that answer every request with the same handler, the same path parameters and the same middlewares. The only thing order decides is the relative order of middlewares attached to the same path.",
  ["histories", "inputs"], "all sets of accepted registrations, all pairs of their permutations, all requests",
  "Tests register each set in one order; the trie's shape depends on the order (splits, child positions), so the claim quantifies over permutations.",
  [TRIE, ROUTER], [("node splitting keeps values and children", TRIE+" Node::process_insertion"), ("wildcards kept behind other children", TRIE+" Node::process_insertion")],
  [("child order", "position of the wildcard among child nodes", TRIE)])
p("C03", "Conflicting registrations are refused, all others accepted and kept",
  "Registering panics exactly when the registration is ambiguous with what is already there: the same method twice on one path, a ':name' segment next to any different segment at the same position, a '*' that is not alone in the last segment, or a router mounted where the main router already has something at or below the mount path (at '/', root middlewares are kept instead). Every other registration succeeds, and no registration ever silently removes or replaces what was registered before.",
  ["histories", "configurations"], "all sequences of route, middleware, static and mount registrations",
  "Five should_panic tests each show one conflicting pair and never that non-conflicting neighbours are accepted or that nothing is lost; this quantifies over registration histories.",
  [TRIE, ROUTER, RES], [("ambiguity check", TRIE+" Node::get_insertion_action"), ("duplicate method check", TRIE+" RouteTrie::insert_route"), ("mount conflict check", TRIE+" RouteTrie::insert_sub_route")],
  None, ["panic of the registering call", "HTTP responses afterwards"])
p("C04", "Path parameters carry exactly the matched segments",
  "In the handler every ':name' of the selected route yields, as a string, exactly the request's path segment at that position, unmodified and regardless of other parameters or of other registered routes. Reading it as another type succeeds exactly when that type's parser accepts the segment and then gives the parsed value, and otherwise, or for a name the route does not have, it gives an error value and never panics.",
  ["inputs", "configurations"], "all routes with any number of parameters, all segment texts, all parameter types",
  "Tests construct the parameter map by hand; no test follows a parameter from the request path to the handler.",
  [TRIE, CTX, APP], [("param capture during the search", TRIE+" Node::get_next_node"), ("typed access", CTX+" Context::param")])
p("C05", "Exactly the middlewares covering the matched route run, outermost first",
  "A request answered by a route runs, once each and before the handler, exactly the middlewares registered on the root and on the leading paths of that route (its own path included, compared segment by segment as registered), and no others. They run from the outermost path to the innermost and, on one path, in registration order; a request that matches no route or method runs none.",
  ["inputs", "configurations"], "all sets of routes, root and path middlewares, including those of mounted routers, and all requests",
  "Tests only count middlewares on a few fixed paths; selection and order depend on the whole registered set.",
  [TRIE, ROUTER, APP], [("middlewares gathered along the search path", TRIE+" Node::get_next_node, RouteTrie::search_route"), ("chain execution", APP+" EndpointExecutor::next")],
  [("middleware list", "per-path middlewares in registration order", TRIE+" RouteValue")])
p("C06", "The middleware chain nests strictly and carries results both ways",
  "Each middleware that continues hands its context to the next middleware or finally the handler exactly once, sees everything earlier ones changed in it (request headers, typed data, body), and gets back the very result produced further in, so that its own changes to the response reach the client. A middleware that answers or fails without continuing prevents everything further in from running, and its result is what the outer middlewares and the client see.",
  ["inputs", "histories"], "all chains of middlewares of any length with any mix of passing, answering, failing, request-changing and response-changing behaviours, and all handler outcomes",
  "No test runs a middleware at all; the claim ranges over chains and behaviours.",
  [APP, MW, CTX], [("continuation passing", APP+" EndpointExecutor::next")])
p("C07", "Mounting a router equals registering its routes under the prefix",
  "Mounting a router at a path, directly or as a named scope and to any depth, behaves for every request like registering each of its routes and middlewares on the main router with the mount path in front (its root middlewares on the mount path itself). Copies of a router are independent: registrations made on one copy never show in another, and one router may be mounted at several places.",
  ["configurations", "inputs"], "all trees of nested routers (depth, prefixes with params, root routes, middlewares, static files) x all requests",
  "One test mounts one router with one route; equivalence over arbitrary nesting needs generation of both forms.",
  [TRIE, ROUTER, APP], [("sub-trie grafting", TRIE+" RouteTrie::insert_sub_route"), ("scope", APP+" App::scope"), ("Router: Clone", ROUTER)])
p("C08", "Extra slashes never matter",
  "Leading, trailing and repeated slashes in a registered path, a mount path, a middleware path or a request path make no difference: the normalised and the decorated form give the same acceptance of registrations and the same handler, parameters and middlewares for every request.",
  ["inputs", "configurations"], "all registrations and requests, all ways of adding or dropping redundant slashes",
  "Tests use a handful of spellings; the claim relates every spelling of every path.",
  [TRIE, ROUTER], [("empty segments dropped", TRIE+" insert_route, insert_middleware, insert_sub_route, search_route")])
p("C09", "Query strings and forms decode to what was encoded",
  "Decoding a URL-encoded query or form into a typed structure or map yields, for every key, its percent- and plus-decoded values in the order sent: lists take all of them, single fields the first one, and pairs with an empty value count as absent, so that optional and defaulted fields are empty or default. A missing required field or a text that the field's type does not parse gives an error value, never a wrong value, and unknown keys are ignored.",
  ["inputs"], "all key/value multisets (any text, repetition and order) x all field types (integers of every width, floats, bool, char, strings, options, lists, tuples, newtypes, defaults, maps)",
  "Tests decode about eight fixed literals; encoding, repetition, emptiness, types and ranges multiply beyond that.",
  [CTX, DESER], [("grouping of repeated keys", CTX+" Context::parse_queries"), ("typed deserializer", DESER+" FormDeserializer, FormValueDeserializer, FromSeq, FromMap")],
  None, ["Context::query_params", "Context::form"])
p("C10", "Decoding a body depends on its bytes only, and reads it once",
  "The result of reading a request body as form or JSON is a function of the concatenated body bytes: it is the same however the body was split into chunks or framed, and the same text decodes identically as a query string and as a form. Reading or taking the body consumes it, so a second read sees an empty body.",
  ["inputs", "schedules"], "all bodies x all ways of splitting them into chunks, with a length or chunked transfer, over the network or in process",
  "All tests use one-chunk in-memory bodies, which hide anything lost at chunk boundaries.",
  [CTX], [("body aggregation", CTX+" Context::form, Context::json"), ("take_body", CTX)],
  None, ["Context::form", "Context::json", "Context::take_body"])
p("C11", "JSON bodies and JSON responses carry the value unchanged",
  "A JSON request body decodes to exactly the value it denotes, as a typed structure or as a dynamic value, for any size, nesting, number range or text; a body that is not one complete valid JSON document of the requested shape gives an error value. A value sent as a JSON response arrives as a document denoting that same value, labelled application/json.",
  ["inputs"], "all JSON values (depth, unicode, escapes, numbers), all whitespace and escape spellings, and all malformed or truncated variants",
  "Tests decode one two-field object and never encode a response over the wire.",
  [CTX, RESP], [("json decoding", CTX+" Context::json"), ("json encoding", RESP+" Response::json, "+CTX+" Context::build_json")],
  None, ["Context::json", "HTTP response"])
p("C12", "The public form-map decoder handles every grouped map",
  "Decoding an already grouped map of keys to non-empty lists of texts, where single texts may be empty, never panics: each list element is decoded from its own text, an empty text is 'none' for an optional value and a unit value, and every other text must parse as its type. List lengths and element order are preserved and the outcome does not depend on the map's iteration order.",
  ["inputs"], "all maps from keys to non-empty lists of (possibly empty) texts x all target types",
  "Tests call it on four fixed maps without empty texts.",
  [DESER], [("per-element deserialization", DESER+" FromSeq"), ("empty text handling", DESER+" FormValueDeserializer::deserialize_option, deserialize_unit")],
  None, ["obsidian::router::from_cow_map"])
p("C13", "No request can crash the server or a decoder",
  "Whatever bytes a client sends as path, query, headers or body, in whatever split, well-formed requests get a response, malformed ones at worst lose their own connection, and the server keeps answering others. Path lookup, parameter access and query, form and JSON decoding of arbitrary text into any target type return a value or an error and never panic.",
  ["inputs", "fault_sequences"], "all byte strings as requests, paths, queries and bodies; all target types; requests cut off at any point",
  "No test feeds hostile input; robustness quantifies over all byte strings.",
  [CTX, DESER, TRIE, APP], [("fallible decoding", CTX+" parse_queries, json"), ("char-boundary arithmetic in the trie", TRIE+" Node::get_next_node"), ("error mapping", APP+" AppServer::resolve_endpoint")],
  None, ["HTTP responses", "return value or panic of the public decoding functions"])
p("C14", "The client receives exactly the response that was built",
  "Status, body bytes and headers of the response the client receives are those the handler built, whichever of the offered ways (plain values, status pairs, options, byte lists, builders, aliases, bulk header calls, in any order) built it. For each header name the value set last is sent, exactly once, no other header set is lost, and content types are those the kind of body implies unless overridden later.",
  ["inputs", "programs"], "all ways of building a response: value kinds x sequences of builder calls x statuses x bodies x headers",
  "Tests look at the in-memory status and a header or two of five responses and, by their own TODOs, never at bodies or at what is sent.",
  [RESP, RESPONDER, RBODY, APP, CTX], [("header transfer", APP+" AppServer::resolve_endpoint"), ("builders", RESP+" Response; "+CTX+" ResponseBuilder"), ("conversions", RESPONDER+", "+RBODY)])
p("C15", "Errors and missing answers map to their documented responses",
  "A handler or middleware that ends with an error is answered with status 500 and exactly that error's message as the body; one that ends without setting a response is answered with an empty 200; a request with no matching path or method with 404 and the body '404 Not Found'. Each of these holds for every kind of error, every message text and regardless of what was done before the error.",
  ["inputs", "programs"], "all handler outcomes (each error kind, any message, no response, error raised by parameter, query, form or JSON access) at any position of a middleware chain, all unmatched requests",
  "The only dispatch test covers a successful handler.",
  [APP, "src/error/obsidian_error.rs", CTX], [("result mapping", APP+" AppServer::resolve_endpoint"), ("error display", "src/error/obsidian_error.rs Display")])
p("C16", "Handlers see the request exactly as sent",
  "Method, path, query string, every header (names, values, repetitions and their order) and the body bytes that middlewares and the handler observe are exactly those the client sent, whatever routing, parameters, app state or middlewares are involved.",
  ["inputs"], "all requests (methods, URI-legal paths and queries, header multisets, bodies of any size and framing)",
  "One test checks the path and body of one in-process request.",
  [APP, CTX], [("request moved into the context", APP+" AppServer::resolve_endpoint; "+CTX+" Context::new")])
p("C17", "App state and per-request data reach the handler and never leak",
  "When an app state is set, every middleware and handler of every request sees an equal copy of the value set last, and without one none is seen. Data of any type stored in a request's context is found by its type, unchanged, by everything later in the same request (a later store of the same type replaces it) and never by another request, and changing the request's copy of the state does not affect other requests.",
  ["histories", "inputs"], "all sequences of requests on any number of connections, storing, replacing, mutating and reading typed data and state",
  "No test sets an app state or runs two requests.",
  [APP, CTX], [("state cloned per connection and request", APP+" App::listen"), ("typed extension map", CTX+" Context::add, get, get_mut")])
p("C18", "Concurrent, aborted and failing requests do not affect each other",
  "Any interleaving of requests on any number of connections gives every request the answer it would get alone: its own parameters, body, data, state copy and middlewares, delivered on its own connection in request order. A handler that panics or fails, a client that disconnects at any point, or a malformed request disturbs no other request, then or later.",
  ["schedules", "fault_sequences"], "all interleavings of generated requests whose handlers are suspended and resumed in a generated order, with panics, aborts and cut-off requests at generated points",
  "No test has two requests in flight; the claim ranges over schedules and fault positions.",
  [APP, ROUTER, TRIE], [("per-connection service with shared immutable router", APP+" App::listen"), ("per-request context", CTX)])
p("C19", "Static routes serve exactly the bytes of the named file",
  "A GET below a static route answers 200 with exactly the current bytes of the file that the rest of the path names inside the served directory (taken relative to the working directory), whatever its content or size, wherever the static route is registered (directly, under a virtual path, in a mounted router). If there is no such regular file the answer is 404, and building a response from a file behaves likewise.",
  ["inputs", "configurations"], "all directory trees, file contents (empty, binary, large), virtual paths, mounts and request paths made of URL-safe characters",
  "No test serves a file.",
  [ROUTER, RESP, TRIE, CTX], [("static handlers", ROUTER+" Router::use_static, use_static_to"), ("file reading", RESP+" Response::file")])
p("C20", "Static routes never reveal anything outside the served directory",
  "No request path whatsoever (dot segments, repeated slashes, encodings, backslashes, any depth) makes a static route answer with the content of a file outside the directory it serves, whether the route is registered directly, under a virtual path or in a mounted router. Symbolic links placed inside the directory are the operator's business.",
  ["inputs"], "all request paths against all static registrations and directory layouts with secrets outside the served directory",
  "No test requests a hostile path; containment quantifies over all paths.",
  [ROUTER, RESP], [("refusal of parent segments", ROUTER+" static file handler")])
p("C21", "The logger only observes",
  "Adding the bundled request logger, as part of the default app or anywhere a middleware can be attached, changes nothing a client or another middleware can observe: the same status, headers and body are sent for every request and every handler outcome, including errors and handlers that set no response.",
  ["inputs", "configurations"], "all apps, logger positions, requests and handler outcomes",
  "Tests attach loggers but never run a request through one.",
  [LOG, APP], [("logger pass-through", LOG+" Logger::handle"), ("default app", APP+" App::default")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
