#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Every value Rust serialises validates against the generated zod schema",
 "For every supported type (built-ins and structs/enums deriving Zod whose serde attributes mean the same in both directions), the JSON that serde produces for any of its values (numbers being finite), read in the documented JavaScript representation (None as undefined, maps as Map, sets as Set), is accepted by the zod schema generated for that type. Parsing it through the schema returns every declared key with its value unchanged. This holds for structs, tuple structs, newtypes, transparent types and for externally, internally, adjacently tagged and untagged enums, nested to any depth.",
 ["inputs","programs"],"all supported type declarations and all of their values",
 "The tests compare schema strings for about 60 hand-written declarations (mostly with the fields String and usize) against strings built by the same code; none of them ever runs a schema in zod on a value, so a schema that is not even valid zod (z.bool()) passes.",
 ["core/src/build_ins.rs","derive/src/impl_struct.rs","derive/src/impl_enum/mod.rs","derive/src/impl_enum/field.rs","derive/src/impl_enum/variant/struct_variant.rs","derive/src/impl_enum/variant/tuple_variant.rs","derive/src/impl_enum/variant/unit_variant.rs"],
 [("built-in schema table","core/src/build_ins.rs"),("struct schema expansion","derive/src/impl_struct.rs: Struct::expand_schema, StructField::expand_schema"),("enum schema expansion","derive/src/impl_enum/mod.rs: Enum::expand_schema and variant/*")],
 ["ZodType::schema()/inline_schema() as text, evaluated by zod","serde_json::to_string of values"])

p("C02","Every value a generated schema accepts deserialises on the server",
 "For every supported type, any JavaScript value that the generated zod schema accepts is, once sent as JSON (sets as arrays, maps as objects, undefined as absent, or null inside arrays), accepted by the type's serde deserializer. Numeric bounds, integrality, finiteness, string formats, array and tuple lengths, literal tags and required keys in the schema are therefore at least as strict as in Rust. Integers are considered within the range JavaScript represents exactly (up to 2^53), and strings without lone surrogates.",
 ["inputs","programs"],"all supported types and all JavaScript values, including boundary numbers, wrong kinds, missing and extra members",
 "No test runs a schema; the tests check the text of the schema for a few declarations and cannot tell that a text admits a value the server rejects.",
 ["core/src/build_ins.rs","derive/src/impl_struct.rs","derive/src/impl_enum/mod.rs","derive/src/impl_enum/field.rs","derive/src/impl_enum/variant/struct_variant.rs","derive/src/impl_enum/variant/tuple_variant.rs","derive/src/impl_enum/variant/unit_variant.rs"],
 [("bounds in the built-in table","core/src/build_ins.rs"),("key, tag and tuple emission","derive/src/impl_struct.rs, derive/src/impl_enum")],
 ["zod safeParse verdict","serde_json::from_str verdict"])

p("C03","Schemas and types follow the deserialising side of serde attributes",
 "Where serde attributes make the two directions differ, the generated schema and TypeScript type describe what the server reads: fields and variants that are not deserialised do not appear, the names are the deserialisation names, named fields with a default (on the field or the whole struct) may be omitted, and from/try_from types have the schema of the source type. Every input the server accepts in this canonical form is accepted by the schema. Attributes that affect serialisation only have no influence.",
 ["programs","inputs"],"all combinations of rename, rename_all, rename(serialize/deserialize), skip, skip_deserializing, skip_serializing, default, from, try_from, transparent on structs, enums, variants and fields",
 "The tests cover one attribute at a time on one or two shapes and look for substrings; combinations, asymmetric names and attributes on every shape are never exercised.",
 ["derive/src/impl_struct.rs","derive/src/impl_enum/mod.rs","derive/src/impl_enum/field.rs","derive/src/impl_enum/variant/mod.rs"],
 [("deserialize_name / skip_deserializing / default filters","derive/src/impl_struct.rs: expand; derive/src/impl_enum/field.rs: VariantFields::new"),("from_ty","derive/src/impl_struct.rs, derive/src/impl_enum/mod.rs")],
 ["schema text run in zod","TypeScript type","serde_json::from_str verdict"])

p("C04","Generated TypeScript types agree with the wire format",
 "For every supported type, the generated TypeScript type admits every value of the type in its documented JavaScript representation, and rejects a literal in which a required member is missing, a member or element has the wrong kind, a tag is not one of the declared ones, or a tuple has the wrong length. Numbers, strings, booleans, null, arrays, tuples, Map, Set and optional members appear as such. The same holds for the argument and result types of generated client functions.",
 ["programs","inputs"],"all supported type declarations; literals derived from their values by single mutations",
 "Tests compare type_def() text with expected text for about 60 declarations; nothing ever runs a TypeScript compiler on it.",
 ["core/src/build_ins.rs","core/src/lib.rs","core/src/rpc/codegen/mod.rs","derive/src/impl_struct.rs","derive/src/impl_enum"],
 [("type_def/inline of built-ins","core/src/build_ins.rs"),("type_def expansion","derive/src/impl_struct.rs: expand_type_def; derive/src/impl_enum: expand_typ_defs"),("argument and result types","core/src/rpc/codegen/mod.rs: RpcMember::decl")],
 ["TypeScript compiler diagnostics on probe files importing the generated module"])

p("C05","Recursive types generate finite code and validate to any depth",
 "Types that refer to themselves or to each other, directly or through Box, Rc, Arc, Option, Vec, arrays, sets, maps, tuples, Result, newtypes or enum variants, within one namespace or across namespaces, generate schemas, types and client code without overflowing. References to user-defined types are deferred references to the exported name, so the result does not depend on the order of declarations. The schemas accept values nested to any depth and reject a fault at any depth, with work that does not grow exponentially with the depth unless an untagged enum has several recursive alternatives.",
 ["programs","inputs"],"all recursive type graphs over the supported constructors; all nesting depths that the JavaScript and Rust parsers support",
 "No test declares a recursive type.",
 ["core/src/build_ins.rs","core/src/lib.rs","derive/src/impl_struct.rs","derive/src/impl_enum/mod.rs"],
 [("inline_schema() gives z.lazy references","derive/src/impl_struct.rs, derive/src/impl_enum/mod.rs"),("inline() gives type references","core/src/lib.rs: ZodType::inline; core/src/build_ins.rs")],
 ["process outcome of schema()/type_def()/generate()","zod verdict on nested values"])

p("C06","The generated client module is complete, exact and loadable",
 "The code generated for a backend is syntactically valid TypeScript that loads without error and, apart from inference of recursive constants, type checks. It exports, under each namespace of the backend and under the name the namespace declares, every type of that namespace exactly once as a schema and once as a type, and every RPC method exactly once as a function; nothing of any other namespace is exported. This holds whatever names and keys the types, fields, variants and arguments have, including keys that are not JavaScript identifiers and argument names that collide with names the generated code uses.",
 ["programs","configurations"],"all sets of namespaces, types and methods of a backend",
 "The tests never call the generator; the only generated output in the repository is a checked-in example.",
 ["core/src/rpc/server.rs","core/src/rpc/codegen/mod.rs","core/src/lib.rs","src/rpc/clients/mod.rs","src/rpc/clients/static/websocket_client.ts","derive/src/impl_inventory.rs","derive/src/impl_namespace.rs","derive/src/rpc/impl_rpc.rs","derive/src/rpc/backend_impl.rs"],
 [("generate_with_options","core/src/rpc/server.rs"),("RpcMember::decl","core/src/rpc/codegen/mod.rs"),("inventory registration","derive/src/impl_inventory.rs, derive/src/rpc/impl_rpc.rs")],
 ["Backend::generate output: TypeScript AST, diagnostics, exports of the loaded module"])

p("C07","Documentation comments reach the TypeScript code and never change it",
 "Every line of the Rust doc comment of an exported type appears, in order, in a comment attached both to the exported schema and to the exported type, and an undocumented type gets no comment. Whatever text the documentation contains, including comment terminators, quotes, backslashes, braces, template markers and non-ASCII text, the code outside comments is the same as without documentation.",
 ["inputs","programs"],"all documentation texts on all shapes of types",
 "tests/doc.rs uses the single text \"Hello World\" and compares docs(), never the generated module.",
 ["derive/src/docs.rs","core/src/rpc/server.rs","derive/src/impl_struct.rs","derive/src/impl_enum/mod.rs"],
 [("RustDocs","derive/src/docs.rs"),("docs in generate_with_options","core/src/rpc/server.rs")],
 ["JSDoc of the exported declarations in the TypeScript AST","token stream with comments removed"])

p("C08","A generated client call runs the right server method with equal arguments",
 "Calling a generated client function with valid arguments runs exactly the server method of that namespace and name, exactly once, with arguments equal in value and in order to those passed, for every signature, including no arguments, optional arguments and custom namespace names. The promise resolves to the JSON form of what the method returned.",
 ["inputs","programs","configurations"],"all RPC signatures over the supported argument types and all argument values",
 "No test sends a request, and no test runs the generated client.",
 ["core/src/rpc/codegen/mod.rs","core/src/rpc/mod.rs","derive/src/rpc/impl_rpc.rs","derive/src/rpc/backend_impl.rs","derive/src/rpc/args.rs","src/rpc/clients/static/websocket_client.ts","src/rpc/servers/axum.rs"],
 [("request enums and dispatch","derive/src/rpc/impl_rpc.rs: expand_req_variant_decl/impl; derive/src/rpc/backend_impl.rs"),("client request()","src/rpc/clients/static/websocket_client.ts")],
 ["server-side record of calls in the handlers","client promise results"])

p("C09","Invalid arguments never leave the generated client",
 "A generated client function called with a wrong number of arguments or with an argument that is not valid for its declared Rust type fails before anything is sent: an async method rejects, a stream function throws, no frame for that call reaches the wire and the server runs nothing. Valid arguments are never refused.",
 ["inputs","programs"],"all RPC signatures and all argument lists",
 "The generated functions are never executed by a test.",
 ["core/src/rpc/codegen/mod.rs","core/src/build_ins.rs"],
 [("z.tuple([...]).parse([...arguments]) before request/subscribe","core/src/rpc/codegen/mod.rs: RpcMember::decl")],
 ["frames sent on the WebSocket","outcome of the call"])

p("C10","Each request gets exactly one response, with its id, on its own connection",
 "Every well-formed method request gets exactly one response: it carries the id of the request and the result of that very call, and arrives only on the connection that sent it. A call that cannot be dispatched or whose result cannot be serialised gets exactly one error with that id instead. Ids chosen by different connections never interfere, even when equal.",
 ["schedules","histories","inputs"],"all interleavings of requests from any number of concurrent connections, all ids including equal and repeated ones",
 "No test starts a server or a proxy.",
 ["core/src/rpc/mod.rs","core/src/rpc/server.rs","derive/src/rpc/impl_rpc.rs","derive/src/rpc/backend_impl.rs","src/rpc/servers/proxy.rs","src/rpc/servers/axum.rs"],
 [("per-connection response channel","src/rpc/servers/proxy.rs: BackendProxy::connect, ProxyTx::send"),("Response::method","core/src/rpc/mod.rs; derive/src/rpc/impl_rpc.rs: expand_req_variant_impl_method")],
 ["requests and responses recorded at the client side of each connection"])

p("C11","Method calls on a shared backend run one at a time, in order per connection",
 "However many connections call concurrently, method calls execute one at a time against the shared backend state, so the recorded history is linearizable with respect to a sequential model of that state. Calls sent on one connection execute, and are answered, in the order sent; no call is lost or executed twice, and a method that suspends does not let another call observe intermediate state.",
 ["schedules","histories"],"all interleavings of calls from concurrent connections, all suspension points inside methods",
 "No test runs concurrent requests, or any request.",
 ["src/rpc/servers/proxy.rs","derive/src/rpc/backend_impl.rs","derive/src/rpc/impl_rpc.rs"],
 [("single task owns the backend and awaits each request","src/rpc/servers/proxy.rs: BackendProxy::new")],
 ["call/return events at the client boundary, enter/exit events in the handlers"])

p("C12","Malformed and hostile input is answered with an error and has no effect",
 "Input that is not valid JSON, not a known request, names an unknown namespace or method, or has arguments that do not deserialise runs no handler and produces exactly one error response, carrying the request's id whenever the request has the shape of a call with a valid id and no id otherwise. Cancelling an unknown id is silently ignored. Afterwards the same connection and all others work as before, and no input terminates the server.",
 ["inputs","histories"],"all input texts, interleaved with valid requests in any order",
 "No test feeds input to the server.",
 ["core/src/rpc/mod.rs","core/src/rpc/error.rs","derive/src/rpc/backend_impl.rs","derive/src/rpc/impl_rpc.rs","src/rpc/servers/proxy.rs","src/rpc/servers/axum.rs"],
 [("Request deserialisation and Response::error","core/src/rpc/mod.rs"),("from_value error branch","derive/src/rpc/backend_impl.rs"),("parse error branch","src/rpc/servers/axum.rs: websocket")],
 ["responses on the connection","handler events","later requests on all connections"])

p("C13","A client that disconnects never disturbs the others",
 "When a client goes away at any point, before, during or after its calls run, or while its streams emit, the backend stays available: every other connection, existing or new, still gets all of its responses and stream items, and no state or response of the departed client reaches anyone else. Calls of the departed client that already started still run to completion.",
 ["fault_sequences","schedules","crash_points"],"all disconnection points of any subset of clients",
 "No test connects a client, let alone drops one.",
 ["derive/src/rpc/impl_rpc.rs","src/rpc/servers/proxy.rs","src/rpc/servers/axum.rs"],
 [("send failures to a gone client are tolerated","derive/src/rpc/impl_rpc.rs: expand_req_variant_impl_method/stream; src/rpc/servers/proxy.rs")],
 ["responses on surviving connections","handler events"])

p("C14","Streams deliver every item once, in order, only to their subscriber",
 "Every item of a stream that is neither cancelled nor disconnected reaches the subscribing connection exactly once, in the order produced, under the id of the subscription, up to the last item. No other connection or id receives any of them. Streams run concurrently: a slow, endless or panicking stream delays neither method calls nor other streams, and an item that cannot be serialised produces one error with the id and does not end the stream.",
 ["schedules","histories"],"all sets of concurrently running streams with any lengths and timings",
 "No test subscribes to a stream.",
 ["derive/src/rpc/impl_rpc.rs","derive/src/rpc/backend_impl.rs","core/src/rpc/mod.rs","src/rpc/servers/proxy.rs"],
 [("one task per stream","derive/src/rpc/impl_rpc.rs: expand_req_variant_impl_stream"),("Response::stream","core/src/rpc/mod.rs")],
 ["stream responses at the client side","items produced, recorded in the stream"])

p("C15","Cancelling a stream stops that stream and nothing else",
 "After a connection cancels one of its streams, the underlying stream is dropped within a bounded number of scheduler steps, and no item produced after that is delivered. All other streams, of the same connection and of other connections, including those that use the same id, continue unaffected. Cancelling twice, cancelling a finished stream or an unknown id has no effect on anything.",
 ["schedules","histories"],"all orders of subscribing, emitting, finishing and cancelling over any number of connections, including equal ids",
 "No test cancels a stream; examples/raw does it for one connection without checking anything.",
 ["derive/src/rpc/backend_impl.rs","core/src/rpc/server.rs","src/rpc/servers/proxy.rs"],
 [("SubscriberMap","core/src/rpc/server.rs"),("CancelStream branch","derive/src/rpc/backend_impl.rs"),("subscribers in the proxy","src/rpc/servers/proxy.rs")],
 ["drop events of the streams","stream responses per connection"])

p("C16","Streams of a departed connection or a dropped subscriber map are released",
 "When a connection ends, all of its streams are dropped within a bounded time, including streams that never emit another item, and dropping the subscriber set that a custom server holds stops every stream started with it. Streams of other connections are not affected. Nothing is left running once all connections are gone.",
 ["histories","schedules","fault_sequences"],"all orders of subscribing, emitting and disconnecting",
 "No test subscribes or disconnects.",
 ["core/src/rpc/server.rs","src/rpc/servers/proxy.rs","src/rpc/servers/axum.rs","derive/src/rpc/impl_rpc.rs"],
 [("SubscriberMap::drop","core/src/rpc/server.rs"),("connection teardown","src/rpc/servers/proxy.rs, src/rpc/servers/axum.rs: websocket")],
 ["drop events of the streams","number of live streams"])

p("C17","The client settles each request once, with the response to that request",
 "Every promise returned by a generated method settles exactly once after the server answers it: it resolves with the data of the response whose id it was sent with, or rejects when the answer is an error with that id. This holds for any number of concurrent requests, any order of the responses, any mix with stream items, and across sequences in which the connection is closed because it is idle and opened again by the next call. Every request frame is sent exactly once, with an id no other call of this client uses.",
 ["schedules","histories"],"all interleavings of calls with socket events (open, message, close) in any order a WebSocket can produce",
 "The TypeScript client has no tests at all.",
 ["src/rpc/clients/static/websocket_client.ts"],
 [("request(), req_id and subscription matching","src/rpc/clients/static/websocket_client.ts"),("open/close/reopen state machine","src/rpc/clients/static/websocket_client.ts: websocketStore")],
 ["frames passed to WebSocket.send","promise outcomes"])

p("C18","Client stream subscriptions see exactly their own items until unsubscribed",
 "A callback subscribed to a generated stream is called once for each item that arrives for that stream while it is subscribed, in order and with the item's value, and never for items or responses of any other call. After unsubscribing it is never called again, and other subscribers are not affected. Closing the stream tells the server, once, to cancel exactly that stream.",
 ["schedules","histories"],"all interleavings of subscribe, unsubscribe, close and incoming messages over any number of streams and subscribers",
 "The TypeScript client has no tests at all.",
 ["src/rpc/clients/static/websocket_client.ts"],
 [("subscribe() store","src/rpc/clients/static/websocket_client.ts"),("subscriptions set","src/rpc/clients/static/websocket_client.ts: websocketStore")],
 ["callback invocations","frames passed to WebSocket.send"])

p("C19","All registry views agree with the declarations of the program",
 "Each declared type is registered exactly once, under its own namespace's declared name and its own exported name, wherever in the program it is declared; the same holds for every RPC method. The members of a namespace, the collected registry, the backend's list of namespaces, types and RPC members, and the generated code all describe the same set, and a registered entry yields the same schema and type as the type itself.",
 ["programs"],"all programs: any number of namespaces, types and methods, in any module",
 "The tests never query the registry.",
 ["core/src/lib.rs","core/src/rpc/server.rs","core/src/rpc/codegen/mod.rs","derive/src/impl_inventory.rs","derive/src/impl_namespace.rs","derive/src/rpc/impl_rpc.rs"],
 [("inventory submissions","derive/src/impl_inventory.rs, derive/src/rpc/impl_rpc.rs"),("filters by namespace name","core/src/lib.rs: Namespace::members, collect; core/src/rpc/server.rs: zod_namespaces, rpc_members")],
 ["Namespace::members, NamespaceMemberDefinition::collect, Backend::zod_namespaces, Backend::rpc_members, RpcNamespace::rpc_members"])

p("C20","Declarations that cannot be represented are rejected at compile time",
 "A program is rejected by the compiler, rather than producing wrong code, when it derives Zod on a type without a namespace, on a unit struct, on an enum without deserialisable variants, or on a tuple struct with a required field after a defaulted one; when two types of one namespace are exported under the same name; when one namespace has two RPC implementations; or when an RPC method does not take &mut self, is async and returns a stream, or is neither async nor returns a stream. Every supported declaration compiles.",
 ["programs"],"all programs that contain one of these faults, in any shape and combination with valid declarations, and all programs without one",
 "Eleven fixed compile-fail cases exist, four of which do not even match with today's compiler; each fault appears in a single shape.",
 ["derive/src/lib.rs","derive/src/args.rs","derive/src/impl_struct.rs","derive/src/impl_enum/mod.rs","derive/src/rpc/args.rs","derive/src/rpc/impl_rpc.rs"],
 [("darling supports(...) and namespace","derive/src/args.rs"),("expand_type_registration","derive/src/lib.rs"),("receiver and output checks","derive/src/rpc/args.rs: RpcItem::from_ast; derive/src/rpc/impl_rpc.rs")],
 ["compiler outcome per generated program"])

p("C21","The WebSocket endpoint is a faithful transport",
 "Over the axum WebSocket endpoint every text frame is handled as exactly one request, in order, and every response is sent as exactly one text frame holding its JSON, with nothing added, merged, reordered or lost. Frames that are not text neither produce a response nor end or disturb the connection, and closing the socket at any point ends only that connection. Each upgraded connection is an independent client of one shared backend.",
 ["histories","inputs","schedules"],"all sequences of frames of any kind and size on any number of concurrent sockets",
 "No test opens a socket.",
 ["src/rpc/servers/axum.rs","src/rpc/servers/proxy.rs"],
 [("websocket pump","src/rpc/servers/axum.rs: websocket, websocket_handler")],
 ["raw frames on a loopback TCP socket"])

for x in P: print(json.dumps(x,ensure_ascii=False))
