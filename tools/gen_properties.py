import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
        "mechanism":[dict(zip(("name","where"),m)) for m in mech],
        "observe_at":list(observe),"hook_needed":hook}})
RT="src/router/route_trie.rs"; RO="src/router.rs"; AP="src/app.rs"; CX="src/context.rs"; RD="src/router/req_deserializer.rs"; RS="src/router/response.rs"; RP="src/router/responder.rs"; RB="src/router/response_body.rs"; RC="src/router/resource.rs"; LG="src/middleware/logger.rs"; MW="src/middleware.rs"; HD="src/router/handler.rs"; ER="src/error/obsidian_error.rs"
TRIE=("trie","prefix-compressed tree of registered path segments with per-node handlers and middleware",RT)

p("C01","Requests reach exactly the handler whose pattern matches",
 "For every route table and request, the handler that runs is the one registered for the request's method at the pattern matching the request path segment by segment (literal segments equal, ':name' takes any one segment, a final '*' takes all remaining segments; empty segments from repeated, leading or trailing slashes do not count). Patterns are the paths to which a handler or middleware was attached; an exact match wins over a wildcard and a longer wildcard prefix over a shorter one; a wildcard also answers its bare prefix when that prefix ends in a literal segment and nothing is registered at it. When no pattern matches, or the best match has no handler for that method, no handler or middleware runs and the client gets status 404 with body '404 Not Found'.",
 ["inputs","configurations"],"every accepted route table (any size, any shared prefixes, nested or flat, any method mix) and every request method and path",
 "Route tables and request paths are unbounded; the tests try a dozen hand-picked tables and almost only positive look-ups, so wrong matches between overlapping prefixes go unseen.",
 [RT,RO,RC,AP],[("RouteTrie::search_route / Node::get_next_node",RT),("Resource::get_route",RC),("resolve_endpoint, page_not_found",AP)],[TRIE],
 ["HTTP response of a served App","Router::search_route"])
p("C02","Routing does not depend on registration order",
 "Registering the same set of routes and middleware in any order gives the same outcome: either every order is refused or every order is accepted. Accepted orders answer every request identically (same handler, same parameters, same middleware), provided middleware attached to one and the same path keeps its relative order.",
 ["histories","inputs"],"every set of registrations, every permutation of it, every request",
 "There are factorially many orders and the tree's shape depends on each; the tests register every table in a single order.",
 [RT,RO],[("Node::process_insertion / get_insertion_action (node and key splitting)",RT)],[TRIE],["Router registration outcome","HTTP responses"])
p("C03","Ambiguous registrations are refused, valid ones never",
 "A registration is refused (by a panic at registration time, never by silently replacing or dropping something) when it would give one path two handlers for the same method, put a parameter next to a differently spelled segment below the same parent path, or use '*' anywhere but as a whole, final segment. Every registration without such a conflict is accepted and every route accepted before it keeps working; in particular routes that merely share leading characters never conflict.",
 ["histories","configurations"],"every sequence of route registrations",
 "Tests check six conflicting pairs by should_panic and never that all conflict-free tables are accepted.",
 [RT,RO,RC],[("get_insertion_action ambiguity rule, wildcard position check, duplicate detection in add_route",RT),("Resource::add_route",RC)],[TRIE],["panic or no panic of App::get/post/... and Router::get/..."])
p("C04","Path parameters carry exactly the matched text",
 "For the pattern that matched, every ':name' parameter is available under its name with exactly the raw text of the request segment in that position (no decoding, trimming or truncation), and a name that the matched pattern does not declare is reported as missing. Reading a parameter as a typed value succeeds exactly when the text parses as that type and yields the parsed value; otherwise an error is returned, never a panic or a default.",
 ["inputs","configurations"],"every route table with parameters, every request path, every parameter type",
 "No test sends a request through a route with a parameter; the parameter tests build the map by hand.",
 [RT,CX,AP],[("params collected in get_next_node",RT),("Context::param",CX)],[("params_data","captured parameters of the request",CX)],["Context::param inside a handler"])
p("C05","Exactly the path's own middleware runs, outermost first",
 "A matched request passes through every middleware registered for the application, for any ancestor of the matched pattern, or for the pattern itself (directly or through nested routers), each exactly once per registration, and through no other middleware, even one whose path shares leading characters with the request path. They run from the outermost path to the innermost and, on the same path, in the order of registration, all before the handler; registering middleware never gets lost, whatever the spelling of its path ('/' included).",
 ["inputs","configurations"],"every combination of middleware registrations, nested routers and routes, and every request",
 "Tests only count the middlewares found for a few paths; identity, order and scope for arbitrary tables are never observed.",
 [RT,RO,AP,MW],[("middleware accumulation in get_next_node/search_route",RT),("EndpointExecutor::next",AP),("insert_middleware / insert_default_middleware",RT)],[TRIE],["enter/exit events recorded by middleware and handler"])
p("C06","Middleware control flow is honoured",
 "Each middleware decides for itself: continuing runs the rest of the chain exactly once and hands back its outcome, not continuing means nothing further in the chain (inner middleware, handler) runs, and its own return value becomes the outcome seen by the enclosing middleware. Errors and responses produced inside are visible to every enclosing middleware, may be replaced by it, and whatever the outermost one returns is what the client receives; changes a middleware makes to the request are visible to everything inside it.",
 ["programs","inputs"],"every chain of middlewares with any mix of pass, stop, fail, recover and rewrite behaviour, at every position",
 "No test runs a middleware at all; behaviour depends on which position stops, fails or rewrites.",
 [AP,MW,HD],[("EndpointExecutor::next",AP),("resolve_endpoint outcome conversion",AP)],[("middleware slice","rest of the chain still to run",AP)],["events recorded by middlewares and handlers","HTTP response"])
p("C07","Mounting a router equals registering its routes under the prefix",
 "Mounting a router (or a scope) at a path makes each of its routes answer under that path, and its middleware apply to that subtree only, exactly as if each had been registered directly with the prefix in front; nested mounts compose. Mounting at a path that already holds a handler, middleware or a deeper path is refused, mounting at the root keeps the middleware already registered and refuses to drop routes, and mounting never changes how any request outside the prefix is answered.",
 ["configurations","inputs"],"every router, every prefix (including parameters and prefixes sharing leading characters with other routes), every nesting depth, every request",
 "One test mounts one router with one route; equivalence over all routers and requests needs a generated comparison.",
 [RT,RO,AP],[("RouteTrie::insert_sub_route",RT),("App::scope, use_router",AP)],[TRIE],["HTTP responses of the mounted and the flat application"])
p("C08","The client receives exactly the response the handler built",
 "Whatever status, headers and body the handler (or middleware) left on the context arrive at the client unchanged and complete: the same status, the body byte for byte, and for each header name set exactly one line with the value set last. A context without a response gives 200 with an empty body, an error gives 500 whose body is the error's text, and a response whose header value cannot be sent gives 500 rather than a dropped connection.",
 ["inputs","programs"],"every response a handler can build (status, header list with repeats, body size and content) and every error value",
 "One test checks one status and body; header transfer, errors and large bodies are never observed on the wire.",
 [AP,CX,RS,ER],[("resolve_endpoint",AP),("ResponseBuilder::ok",CX),("ObsidianError Display",ER)],[("response","response attached to the context",CX)],["bytes of the HTTP response"])
p("C09","Response values and builders compose as written",
 "Every value usable as a response yields its documented status and content: text as text/plain, nothing as an empty 200, a bare status code as that status with an empty body, a status-value pair as the value with that status, a missing optional as 404 'Not Found', bytes as their JSON array, JSON as application/json with a body that parses back to the value (serialization failure gives 500). Any sequence of builder calls behaves as its left-to-right reading: the last status and the last body win, no header set by an earlier call is lost unless a later call sets the same name, and no call disturbs what it does not name.",
 ["inputs","programs"],"every response value and every sequence of builder calls on Response, the responder shortcuts and the context's response builder",
 "Tests look at a status or one header of five fixed builders; bodies are explicitly left as TODO.",
 [RP,RS,RB,CX],[("Responder impls",RP),("Response builder methods",RS),("ResponseBody impls",RB),("ResponseBuilder",CX)],[],["final Response / HTTP response"])
p("C10","Query strings and forms decode to exactly what was sent",
 "Decoding a query string or URL-encoded body into a typed value gives each field the percent- and plus-decoded value sent under its name: a single field gets the first value, a list field all values in order, a map every name; pairs with an empty value count as absent and unknown names are ignored. A missing required field or a value that does not parse as the field's type gives an error, never a panic, a default or a wrong value, and the result does not depend on the order in which different names are sent.",
 ["inputs"],"every query string and form body, every supported target type",
 "Tests decode six literal strings without escapes, non-ASCII text, empty values or malformed numbers.",
 [CX,RD],[("Context::parse_queries, query_params, form",CX),("FormDeserializer, FormValueDeserializer",RD)],[],["result of query_params / form inside a handler"])
p("C11","Body decoding is independent of how the body arrives",
 "Reading a JSON or form body uses the whole body: the result is the same for every way of splitting the body into network segments or transfer chunks and for every body size. A body that is cut short yields an error, never a value made from the part that arrived, and a body is delivered once: a second read sees an empty body.",
 ["inputs","schedules","fault_sequences"],"every body, every split into chunks and arrival delays, every truncation point",
 "All tests use a single-chunk in-memory body, so the multi-chunk path is never executed.",
 [CX],[("Context::json, Context::form, take_body",CX)],[("request body","stream of chunks",CX)],["value returned by json()/form() inside a handler"])
p("C12","No client input can crash the server or stop it answering",
 "No sequence of bytes sent by any number of clients makes framework code panic, and after it the server still accepts connections and answers other clients correctly. Every syntactically valid HTTP request, however unusual its path, query, headers or body, gets a complete, well-formed HTTP response.",
 ["inputs","fault_sequences","histories"],"every byte stream on any connection, including malformed, truncated, oversized and aborted ones",
 "Tests feed no hostile input and never start the server.",
 [AP,RT,CX,RD,RO],[("listen service closure, resolve_endpoint",AP),("search_route",RT),("json/form/query_params error returns",CX)],[],["panic hook","HTTP responses","canary requests"])
p("C13","Concurrent requests never see each other's data",
 "Whatever other requests are in progress, on the same or other connections, the method, path, parameters, headers, body, state and attached data a handler or middleware sees, and the response a client receives, are determined by that client's own request alone. Data attached to one request's context is never visible from another request.",
 ["schedules","histories","inputs"],"every interleaving of concurrent, pipelined and kept-alive requests, with handlers suspending at arbitrary points",
 "Tests run one request at a time in one thread without a server.",
 [AP,CX,RT],[("per-request Context; shared Arc handlers and middlewares",AP),("RouteValueResult owned per request",RT)],[("Router","shared read-only between connections",AP)],["tagged request/response history at the clients and in handlers"])
p("C14","Every request sees the configured application state",
 "When an application state is set, every handler and every middleware of every request finds it in the context with the value set last before serving started; when none is set they find none. Each request has its own copy (changing it affects no other request), while anything the state shares by reference is the same shared object for all requests, so no update made through it is lost.",
 ["schedules","configurations","histories"],"every application (with or without state, any routing and middleware layout) and every number of concurrent requests",
 "The state is never set in a served application by any test.",
 [AP,CX],[("listen clones app_state per connection and request; Context::add",AP)],[("app_state","optional cloneable state",AP)],["Context::get::<State> in handlers and middleware"])
p("C15","Static mounts serve the file's exact bytes",
 "For a directory served at a path, a GET for that path followed by a relative file path answers 200 with exactly the current bytes of that file (any size, any content, binary included) and 404 when there is no such file, whatever the mount path, the directory path's spelling and the nesting of the router holding the mount. Other methods on it are 404, and routes and mounts elsewhere do not change it.",
 ["inputs","configurations","histories"],"every directory tree, every mount layout including nested routers, every file content and name of unreserved characters",
 "Static serving has no test at all.",
 [RO,RS,RT],[("use_static_to, use_static, static handlers",RO),("Response::file",RS)],[],["HTTP response vs file on disk"])
p("C16","Static mounts never expose files outside their directory",
 "No request to a static mount, however its path is spelled ('..' and '.' segments, repeated slashes, encodings, absolute-looking paths), returns content from outside the directory served by that mount, or reveals whether such a file exists.",
 ["inputs","configurations"],"every request path and every mount layout, including several mounts and nested routers",
 "Static serving has no test, let alone with hostile paths.",
 [RO,RS],[("static handlers' path construction",RO)],[],["HTTP response bodies checked against canary files outside the directory"])
p("C17","Each request is handled and answered exactly once, in order",
 "Every complete request sent on a live connection runs its handler exactly once and receives exactly one response; on one connection, pipelined or not, responses come back in the order the requests were sent. A request whose client goes away is handled at most once, and nothing is handled that no client sent.",
 ["schedules","histories","fault_sequences"],"every mix of sequential, pipelined and concurrent requests, segmentations of the byte stream, and client disconnects",
 "No test opens a connection.",
 [AP],[("service_fn / resolve_endpoint, one call per request",AP),("EndpointExecutor::next",AP)],[],["handler execution log vs client send/receive log, by unique request id"])
p("C18","Serving is free of memory errors and data races",
 "While any application is configured and serves any mix of concurrent, hostile and abandoned requests, no execution performs an out-of-bounds or use-after-free access, any other undefined behaviour, or a data race.",
 ["schedules","inputs","programs"],"every workload and interleaving",
 "Ordinary test builds do not detect undefined behaviour or races, and the tests are single-request.",
 [AP,RT,CX,RD,RO,RS],[("safe Rust throughout; Arc-shared read-only router",AP)],[],["ThreadSanitizer, AddressSanitizer and Miri reports"])
p("C19","A failing request affects only itself",
 "When a handler or middleware returns an error, panics, or never completes, every other request in progress or made later (to the same route, the same middleware, other connections) is answered as if the failure had not happened. An error return also leaves its own connection usable for further requests.",
 ["fault_sequences","schedules","histories"],"every placement of errors, panics and stuck handlers among concurrent requests",
 "No test makes a handler fail while another request is in progress.",
 [AP,CX,ER],[("resolve_endpoint error mapping; task per connection",AP)],[],["responses to bystander and follow-up requests"])
p("C20","Handlers see the request exactly as the client sent it",
 "The method, the raw path and query, every header (each repeated value, in order) and the complete body that a handler reads from its context equal what the client sent, except for changes made by middleware in front of it.",
 ["inputs"],"every well-formed request: any method registered, target, header set and body, however it is framed",
 "Tests build requests in memory and check one path and one body.",
 [AP,CX],[("Context::new, headers, uri, method, take_body",CX),("resolve_endpoint",AP)],[],["echo of the context inside a handler vs the client's own bytes"])
p("C21","The built-in logger never changes what clients get",
 "An application with the built-in logger (the default application, or the logger registered anywhere) gives every request the same status, headers and body, and runs the same handlers and middleware, as the same application without it, whatever the handler does: respond, leave no response, fail, or be stopped by other middleware.",
 ["inputs","configurations","programs"],"every application and request, with the logger at any path and in any number",
 "Tests only count the logger as a middleware; it is never run.",
 [LG,AP],[("Logger::handle",LG),("Default for App",AP)],[],["HTTP responses of the same app with and without logger"])
p("C22","The public form decoder is total and faithful",
 "Decoding any map from names to lists of strings into any supported type returns a value or an error and never panics, empty lists and empty strings included. Scalars take the first value, lists and optional elements reflect every entry in order (an empty string being an absent optional), and integers, floats, booleans, characters and strings are accepted exactly when Rust's own parsing accepts them.",
 ["inputs"],"every map of string lists and every supported target type",
 "Tests decode six maps, none with empty strings or lists, and almost only i32 and String.",
 [RD],[("from_cow_map, FromMap, FromSeq, FormValueDeserializer",RD)],[],["return value of the public decoding function"])
p("C23","Nothing is retained for finished requests and connections",
 "Everything the server holds on behalf of a request (its copy of the state, data attached to its context, its body, its response) is released exactly once after the request was answered, failed, panicked or was abandoned by its client. When all traffic has stopped and connections are closed, state copies, open descriptors and live memory are back at their idle level, however many requests were served.",
 ["histories","fault_sequences","schedules"],"every history of completed, failed, panicked and abandoned requests of any length",
 "A leak per request shows only over long histories with disconnects; tests make one request without a server.",
 [AP,CX,RT],[("ownership of Context and per-request clones",AP)],[],["live-instance counters of state and attached data, descriptor table, allocator counters"])
p("C24","A waiting request never holds up the others",
 "While any number of requests wait inside their handlers, middleware or for the rest of their bodies to arrive, requests on other connections (to the same or other routes, static files included) are still served to completion, independently of when or whether the waiting ones finish.",
 ["schedules","histories"],"every number of waiting requests, whatever they wait for (more than the number of worker threads included)",
 "Progress under suspended requests needs a running server with several clients; no test starts one.",
 [AP,CX,RO,RS,LG],[("async handlers, no lock held across await; async file reading",AP)],[],["completion of probe requests before the waiting ones are released"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
