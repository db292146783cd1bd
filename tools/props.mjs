// One entry per property: the source of properties.jsonl, MANIFEST.json and DESIGN.md's table.
export const L = "lib/digitraffic-common/src";
export const P = "marine/portactivity/src";
export const props = [
{ id: "C01", title: "Proxy and mapped HTTP responses deliver exactly the given body",
  statement: "A response built by a Lambda handler, read back the way API Gateway and an HTTP client would read it, yields exactly the given text, JSON or binary body, with the status, headers and encoding flags that go with it, whichever order the options are given in. Its ETag is an identifier that is the same for equal bodies, different for different bodies, and independent of other options such as the time of generation. No built response exceeds the Lambda payload limit: it is replaced by an error response instead, and a body that is already encoded is never declared compressed.",
  over: ["inputs", "histories"], q: "every text, JSON and binary body from one byte to beyond the payload limit, and every order of builder calls",
  why: "The tests build a few short ASCII responses; non-ASCII text, gzip, binary data, size limits and combinations of options are not reached.",
  files: [`${L}/aws/types/lambda-proxy-types.ts`, `${L}/aws/types/lambda-response.ts`],
  mech: [["response builders", `${L}/aws/types/lambda-proxy-types.ts`], ["mapped responses", `${L}/aws/types/lambda-response.ts`]],
  oracle: "decode the response as API Gateway and a client do, compare byte for byte with the body given; ETags compared across pairs of bodies and across options; length against the limit" },
{ id: "C02", title: "Database sessions are always closed and faults always surface",
  statement: "A database session opened for a caller uses the configured endpoint (the read-only one for read-only work), runs the caller's statements on one connection inside the requested kind of transaction, commits only when the caller succeeded and rolls back otherwise. Whatever fails (connecting, setup, a statement, the commit, the caller) reaches the caller as a rejection, and the connection is released in every case. Missing connection settings are refused before anything is opened.",
  over: ["fault_sequences", "histories"], q: "every sequence of sessions and every point at which the server, the connection or the caller can fail",
  why: "The tests need a live database and never inject faults; release and rollback on each failure path are unobserved.",
  files: [`${L}/database/database.ts`, `${L}/aws/runtime/environment.ts`],
  mech: [["session handling", `${L}/database/database.ts`]],
  oracle: "a wire-level PostgreSQL server on loopback records connections, statements, commit/rollback and disconnects; reference expectation computed from the fault script" },
{ id: "C03", title: "Secrets are fresh, complete, validated and cached only as promised",
  statement: "Reading a secret returns the keys under the requested prefix with values from a version no older than the cache time, fetching again once it has expired and never caching a failure. Missing secrets or missing required keys are refused rather than returned as undefined. Database credentials exported to the environment come from exactly the documented keys, for the read-write or the read-only role asked for.",
  over: ["histories", "fault_sequences"], q: "every history of reads, rotations, outages and clock steps",
  why: "The tests mock a single read; expiry, rotation and failure histories are not reached.",
  files: [`${L}/aws/runtime/secrets/secret-holder.ts`, `${L}/aws/runtime/secrets/secret.ts`, `${L}/aws/runtime/secrets/proxy-holder.ts`, `${L}/aws/runtime/secrets/rds-holder.ts`, `${L}/aws/runtime/secrets/dbsecret.ts`],
  mech: [["secret cache", `${L}/aws/runtime/secrets/secret-holder.ts`], ["credential export", `${L}/aws/runtime/secrets/dbsecret.ts`]],
  oracle: "reference cache over a scripted secret store on a virtual clock" },
{ id: "C04", title: "Logging writes one faithful JSON line and never throws",
  statement: "Every logging call writes exactly one line of JSON with its level, method, message and all custom fields, whatever characters or permitted values they hold, and never throws into the caller. Logged errors carry their kind, status and stack and are never dropped or duplicated. Helpers that shorten text or log lead times keep both ends, stay within the limit and write one line per usable measurement.",
  over: ["inputs"], q: "every level, method, message, field value and error value",
  why: "The tests log a handful of plain strings; control characters, big integers, invalid dates and odd error values are not reached.",
  files: [`${L}/aws/runtime/dt-logger.ts`, `${L}/utils/logging.ts`, `${L}/utils/utils.ts`, `${L}/aws/runtime/dt-logger-default.ts`],
  mech: [["logger", `${L}/aws/runtime/dt-logger.ts`], ["exception logging", `${L}/utils/logging.ts`]],
  oracle: "parse the written stream as JSON and compare it field for field with the call" },
{ id: "C05", title: "Retries follow the limit, the delays and the predicate exactly",
  statement: "A retried function runs at most once plus the permitted number of retries, stops at the first success or when the error is not retryable, waits the requested delay between attempts, never overlaps attempts, and resolves with the successful value or rejects. Unusable limits are refused without any attempt, and each failure is logged at the requested level. Request retries repeat only throttling answers, with growing delays and the original arguments.",
  over: ["schedules", "fault_sequences"], q: "every script of successes, failures, hangs and synchronous throws, limits, delays and predicates",
  why: "The tests use real short timers and two or three scripts; timing, hangs and predicates are not settled.",
  files: [`${L}/utils/retry.ts`],
  mech: [["retry loop", `${L}/utils/retry.ts`]],
  oracle: "reference run computed from the script, attempt start times compared on a virtual clock" },
{ id: "C06", title: "Web firewalls enforce exactly the requested limits and lists",
  statement: "A firewall built from a list of requested rules throttles, blocks, allows, counts and excludes exactly the requests asked for: identified and anonymous users (a missing or empty user header is anonymous) each fall under their own limit, per address or per address and path, with unused limits adding nothing. Counting rules come before blocking ones, priorities and names are unique, throttled requests are answered 429 with a message naming the limit, and everything else is allowed. Limits below the permitted minimum, duplicate names and empty firewalls are refused.",
  over: ["inputs", "histories"], q: "every sequence of rule requests and every request evaluated by them",
  why: "The tests count rules; whether a rule matches the right requests, in the right order and with the right answer, is not evaluated.",
  files: [`${L}/aws/infra/acl-builder.ts`, "other/cloudfront/src/acl/acl-creator.ts", "other/cloudfront/src/acl/waf-rules.ts"],
  mech: [["firewall builder", `${L}/aws/infra/acl-builder.ts`], ["distribution limits", "other/cloudfront/src/acl/acl-creator.ts"]],
  oracle: "the synthesised rules are evaluated on a grid of requests and compared with a reference rule list" },
{ id: "C07", title: "Stack checks flag every broken deployment rule and only those",
  statement: "Synthesising a stack reports an error on each construct that breaks a deployment rule (function concurrency, timeout, memory, runtime and name; public or unencrypted storage and queues; query string naming; log retention; solution tag; stack naming) and a warning for unconventional paths. A whitelisted construct, and no other, is excused. Stacks that keep the rules produce no findings.",
  over: ["inputs"], q: "every combination of resources, settings and whitelists",
  why: "The tests break one rule at a time; that whitelisting excuses nothing else, and combinations of rules, are not settled.",
  files: [`${L}/aws/infra/stack/stack-checking-aspect.ts`, `${L}/aws/infra/stack/stack.ts`],
  mech: [["aspect", `${L}/aws/infra/stack/stack-checking-aspect.ts`]],
  oracle: "set of errors and warnings after synthesis compared with a reference rule check" },
{ id: "C08", title: "Lambda integrations pass exactly the declared parameters",
  statement: "The event a Lambda receives holds exactly the declared path, query, multi-value, header and context parameters and the body of the request, whatever characters their names and values contain; undeclared values never enter it and no parameter can replace another. With pass-all the query parameters are added without replacing declared ones. A queue integration sends the whole body as one message to its own queue only.",
  over: ["inputs"], q: "every declaration of parameters and every request, hostile ones included",
  why: "The tests compare template strings; the rendered event for values with quotes, backslashes or clashing names is never evaluated.",
  files: [`${L}/aws/infra/api/integration.ts`, `${L}/aws/infra/sqs-integration.ts`],
  mech: [["request template", `${L}/aws/infra/api/integration.ts`]],
  oracle: "render the synthesised request template as the API does and compare the parsed event with the request" },
{ id: "C09", title: "Integration responses deliver the Lambda's status, headers and body",
  statement: "Through the response mapping the client receives the body, status, file name, modification time and ETag of the Lambda's answer, with the promised cross-origin, deprecation and sunset headers; static resources answer with exactly their content. Every method response declares the headers and models the mapping uses. A handler created by the factory passes its result or its handled failure on exactly once.",
  over: ["inputs"], q: "every answer of a Lambda and every combination of response options",
  why: "The tests check that constructs are created; mapping templates are never rendered.",
  files: [`${L}/aws/infra/api/response.ts`, `${L}/aws/infra/api/static-integration.ts`, `${L}/aws/infra/api/handler-factory.ts`, `${L}/aws/infra/api/responses.ts`, `${L}/aws/runtime/digitraffic-integration-response.ts`, `${L}/aws/types/lambda-response.ts`],
  mech: [["response template", `${L}/aws/infra/api/response.ts`], ["handler factory", `${L}/aws/infra/api/handler-factory.ts`]],
  oracle: "render the synthesised response template and compare with the answer the Lambda gave" },
{ id: "C10", title: "Geometry conversions and distances are exact for every position",
  statement: "Points, lines and polygons, with and without altitude, survive conversion to WKT and GML with every ordinate in order; unsupported geometries become empty ones. Distances are symmetric, zero only for equal positions, agree with the sphere and are finite for every pair of positions, and incomplete positions are refused. Feature collections hold their features in order, and validation accepts exactly well-formed GeoJSON.",
  over: ["inputs"], q: "every position and geometry, at the poles, antipodes, the equator and the meridian included",
  why: "The tests use a few Finnish positions; zero coordinates, antipodes, holes and multi polygons are not reached.",
  files: [`${L}/utils/geometry.ts`, `${L}/utils/geojson-types.ts`],
  mech: [["conversions and distances", `${L}/utils/geometry.ts`]],
  oracle: "independent WKT and GML readers (round trip) and a vector formula for distances" },
{ id: "C11", title: "Text encodings round-trip and dates are formatted in UTC anywhere",
  statement: "Text survives base64, ASCII and compressed encodings unchanged, agrees with the standard encodings, and damaged compressed data is refused. Dates are formatted in UTC whatever the time zone of the process, daylight saving changes included. ISO dates are read exactly and anything else is refused.",
  over: ["inputs"], q: "every text, instant and process time zone",
  why: "The tests encode a few short strings and run in one time zone.",
  files: [`${L}/utils/base64.ts`, `${L}/utils/date-utils.ts`],
  mech: [["encodings", `${L}/utils/base64.ts`], ["dates", `${L}/utils/date-utils.ts`]],
  oracle: "round trip, cross-decoding with Node's own codecs, and UTC fields of the instant" },
{ id: "C12", title: "Ship and port identifiers are validated by the published rules",
  statement: "An IMO number is valid exactly when it has seven digits and a right check digit, an MMSI exactly when it has nine digits, and a Finnish LOCODE exactly when it is FI and three letters. Mistyped identifiers (a wrong digit, swapped neighbours) are caught wherever the check digit allows it.",
  over: ["inputs"], q: "every number and every code",
  why: "The tests try a few numbers; bounds and mistyped identifiers are sampled at best.",
  files: [`${L}/marine/id_utils.ts`],
  mech: [["validators", `${L}/marine/id_utils.ts`]],
  oracle: "the published check digit rule, computed independently" },
{ id: "C17", title: "Request parameters are read completely and validated strictly",
  statement: "Query parameters of an API proxy event are read with every value of a repeated parameter in order, single values as single values unless a list is asked for, whichever of the two parameter maps holds them. String parameters become numbers, dates or required strings exactly when they denote one; anything else is refused with the given message.",
  over: ["inputs"], q: "every combination of parameter maps and every string",
  why: "The tests cover a few events and strings; missing maps, repeated names and odd numbers are not reached.",
  files: [`${L}/utils/lambda-proxy-event.ts`, `${L}/utils/zod-utils.ts`],
  mech: [["parameter reading", `${L}/utils/lambda-proxy-event.ts`], ["string schemas", `${L}/utils/zod-utils.ts`]],
  oracle: "reference parameter map and reference number/date grammar" },
{ id: "C21", title: "Stop watch durations equal the time its tasks ran",
  statement: "For every history of starting, stopping, resetting and reading several named tasks, each task's duration is the time between its start and stop, misuse is reported as documented, and reading or logging changes nothing.",
  over: ["histories"], q: "every history of operations on several tasks and every passage of time",
  why: "The tests run one or two fixed sequences on a real clock.",
  files: [`${L}/utils/stop-watch.ts`],
  mech: [["stop watch", `${L}/utils/stop-watch.ts`]],
  oracle: "model of the tasks on a virtual clock" },
{ id: "C13", title: "A built Lambda function has the access, environment and alarms asked for",
  statement: "For every order of builder calls, the synthesised function has the last value set for each setting and the documented defaults otherwise, database and secret access (with their environment, network and permissions) only when enabled, and exactly the permissions asked for. Its duration, error and throttle alarms watch it with the thresholds asked for and notify the alarm topic in production and the warning topic otherwise. Impossible configurations, wildcard actions and disabled alarms in production are refused.",
  over: ["inputs"], q: "every stack configuration and every order of builder calls and alarm settings",
  why: "The tests build a handful of functions; combinations of options, orders of calls and alarm overrides are not reached.",
  files: [`${L}/aws/infra/stack/dt-function.ts`, `${L}/aws/infra/stack/dt-function-alarms.ts`, `${L}/aws/infra/stack/monitoredfunction.ts`, `${L}/aws/infra/stack/lambda-log-group.ts`],
  mech: [["function builder", `${L}/aws/infra/stack/dt-function.ts`], ["alarms", `${L}/aws/infra/stack/dt-function-alarms.ts`], ["monitored functions", `${L}/aws/infra/stack/monitoredfunction.ts`]],
  oracle: "reference interpretation of the builder calls against the synthesised template" },
{ id: "C14", title: "Queues lose no message on the way in or in the dead letter queue",
  statement: "A queue is named after its stack, encrypted, and unless one is given has a dead letter queue with its own private bucket, storing function, alarm and least permissions. Every dead letter ends up in that bucket unchanged, whatever S3 outages happen meanwhile, and none overwrites another. An endpoint feeding a queue reports success exactly when the queue took the message.",
  over: ["inputs", "fault_sequences", "histories"], q: "every queue configuration and name, every batch of dead letters and every pattern of storage failures and queue errors",
  why: "The tests only evaluate the generated code; they never run it on a batch, let the store fail, or look at the queue's template.",
  files: [`${L}/aws/infra/sqs-queue.ts`, `${L}/aws/infra/sqs-queue-internal.ts`, `${L}/aws/infra/sqs-integration.ts`],
  mech: [["queues", `${L}/aws/infra/sqs-queue.ts`], ["dead letter code and bucket names", `${L}/aws/infra/sqs-queue-internal.ts`], ["queue endpoint", `${L}/aws/infra/sqs-integration.ts`]],
  oracle: "reference template, and a model of at-least-once delivery with a failing store around the generated code" },
{ id: "C19", title: "A REST API admits its callers and documents and exports itself correctly",
  statement: "A synthesised API admits callers from exactly the addresses it is restricted to, or everyone when it is not restricted, and answers unknown paths with 404. Every API key has its own usage plan on the API's stage, and the exported endpoint and key are the ones chosen, an ambiguous choice being refused. Documentation parts, models, CORS preflights, gateway responses and bucket grants are exactly those asked for.",
  over: ["inputs", "configurations"], q: "every address list and caller, every set of keys, resources, documentation parts, models and grants",
  why: "The tests look at the construct ids of two exported parameters; no policy, plan, documentation part or preflight is ever inspected.",
  files: [`${L}/aws/infra/stack/rest-api.ts`, `${L}/aws/infra/usage-plans.ts`, `${L}/aws/infra/documentation.ts`, `${L}/aws/infra/bucket-policy.ts`, `${L}/utils/api-model.ts`],
  mech: [["REST API", `${L}/aws/infra/stack/rest-api.ts`], ["usage plans", `${L}/aws/infra/usage-plans.ts`], ["documentation", `${L}/aws/infra/documentation.ts`]],
  oracle: "reference template and an evaluator of resource policies" },
{ id: "C15", title: "Canaries fail exactly when what they watch is broken",
  statement: "An URL canary succeeds exactly when the response has the expected status and every check given to it passes, on the response's real (decompressed) body; a refusal canary calls without the API key and recognises exactly the expected refusal. A database canary succeeds exactly when every count is within its limits, zero included, whatever the timing of its steps. A canary is set up with its schedule, network, access and alarm as asked for, and stores no secrets.",
  over: ["inputs", "schedules", "fault_sequences"], q: "every response, set of checks, row count, step timing and canary configuration",
  why: "The checkers have no tests; a canary that never fails looks the same as a healthy system.",
  files: [`${L}/aws/infra/canaries/url-checker.ts`, `${L}/aws/infra/canaries/database-checker.ts`, `${L}/aws/infra/canaries/url-canary.ts`, `${L}/aws/infra/canaries/database-canary.ts`, `${L}/aws/infra/canaries/canary-role.ts`],
  mech: [["URL checks", `${L}/aws/infra/canaries/url-checker.ts`], ["database checks", `${L}/aws/infra/canaries/database-checker.ts`], ["canaries", `${L}/aws/infra/canaries/canary.ts`]],
  oracle: "model of the Synthetics runtime, with the documented verdict for each response and count" },
{ id: "C16", title: "Shared helpers keep their contracts for every value",
  statement: "Arrays compare equal exactly when each holds the other's values; the first and last element are those with the least and greatest sort value, the array staying as it is and an empty one being refused; keys are omitted at every depth in a copy, and years and months are valid within their limits. The environment getters return a variable that is set, even an empty one, and otherwise refuse it by name or give the alternative, computed only then. An upload stores one object as given and logs a failure, an API key is fetched with its value, and a notification posts its text once and never fails the caller.",
  over: ["inputs", "fault_sequences"], q: "every array, key, JSON value, variable and every answer of the called services",
  why: "Most of these helpers are tested with one or two values, the uploads and notifications not at all.",
  files: [`${L}/utils/utils.ts`, `${L}/types/validator.ts`, `${L}/aws/runtime/s3.ts`, `${L}/aws/runtime/apikey.ts`, `${L}/utils/slack.ts`],
  mech: [["arrays, environment and objects", `${L}/utils/utils.ts`], ["notifications", `${L}/utils/slack.ts`], ["uploads", `${L}/aws/runtime/s3.ts`]],
  oracle: "reference definitions, and services recording the requests they get" },
{ id: "C18", title: "The last update of each kind of data is the one read back",
  statement: "For every history of updates and reads, inside or outside transactions, the time read for a kind of data (with or without a subtype) or for a name is the instant of its last update that was not rolled back, whatever time zone the process runs in, and nothing when there was none. Updates of other kinds, subtypes or names never change it, whatever characters the names contain, and there is never more than one time per key.",
  over: ["histories", "inputs"], q: "every history of updates, reads and transactions over hostile names, instants and time zones",
  why: "These functions have no tests in the library although every data set's freshness is served from them.",
  files: [`${L}/database/last-updated.ts`, `${L}/database/database.ts`],
  mech: [["update times", `${L}/database/last-updated.ts`]],
  oracle: "a map of the last committed instants; the statements run in an SQL engine behind the real driver" },
{ id: "C20", title: "Network, database and event stacks fit together as configured",
  statement: "A network has a public and a private subnet in each of two zones, routed through its own NAT gateways or the given transit gateway, and what it exports is what other stacks import. A database stack creates a protected, backed up, encrypted cluster (unless told otherwise) with the instances asked for or imports one, refusing anything ambiguous; the database and proxy names of the environment lead to the right writer and reader endpoints. Schedules call their function at the rate asked for, exactly new failed high or critical security findings are notified, and log subscriptions send each function's own logs to the destination.",
  over: ["configurations", "inputs"], q: "every network, cluster, proxy, schedule and subscription configuration and every security event",
  why: "None of these stacks is synthesised by a test; a wrong reference between two of them shows only when deployed.",
  files: [`${L}/aws/infra/stacks/network-stack.ts`, `${L}/aws/infra/stacks/db-stack.ts`, `${L}/aws/infra/stacks/db-proxy-stack.ts`, `${L}/aws/infra/stacks/db-dns-stack.ts`, `${L}/aws/infra/import-util.ts`, `${L}/aws/infra/stack/parameters.ts`, `${L}/aws/infra/scheduler.ts`, `${L}/aws/infra/security-rule.ts`, `${L}/aws/infra/stack/subscription.ts`],
  mech: [["network", `${L}/aws/infra/stacks/network-stack.ts`], ["database", `${L}/aws/infra/stacks/db-stack.ts`], ["names", `${L}/aws/infra/stacks/db-dns-stack.ts`]],
  oracle: "the templates of all stacks resolved together as if deployed, against reference configurations" },
{ id: "C22", title: "Document schemas accept exactly well-formed GeoJSON and OpenAPI",
  statement: "Every well-formed GeoJSON geometry, feature and feature collection (nested geometry collections included) and every well-formed OpenAPI 3.0 document, path and operation is accepted and read back unchanged. A document with a wrong or missing type, version, required field, coordinate, number of positions, nesting depth or field type, at any depth, is refused.",
  over: ["inputs"], q: "every well-formed document and every single damage to one",
  why: "The tests parse one document; optional fields with a wrong type in the schema show only with documents that use them.",
  files: [`${L}/types/geojson.ts`, `${L}/types/openapi-schema.ts`],
  mech: [["GeoJSON", `${L}/types/geojson.ts`], ["OpenAPI", `${L}/types/openapi-schema.ts`]],
  oracle: "documents generated by the specifications, whole and with one thing broken" },
{ id: "C23", title: "Port call estimates are read merged, newest and matching the question",
  statement: "The port call API and the public ship list return, for every stored history, exactly the newest estimates that match the question (place, ship, source, interval), with predictions of several sources merged into one averaged estimate where the rules say so and source names made displayable. The ship list needs the right key, covers four days by default, and no stored text can escape from its page.",
  over: ["inputs", "histories"], q: "every stored history of estimates and every combination of query parameters",
  why: "The app's tests need a live database and sample a few estimates; merging, intervals and escaping over arbitrary histories are not reached.",
  files: [`${P}/event-sourceutil.ts`, `${P}/service/shiplist.ts`, `${P}/service/timestamps.ts`, `${P}/dao/timestamps.ts`, `${P}/dao/shiplist-public.ts`],
  mech: [["mergeTimestamps", `${P}/event-sourceutil.ts`], ["SQL of the reads", `${P}/dao/timestamps.ts`], ["ship list page", `${P}/service/shiplist.ts`]],
  oracle: "reference selection and merge over the generated rows; the real SQL runs through the real driver on an SQL engine" },
{ id: "C24", title: "Queued estimates are validated, matched to a port call and stored once",
  statement: "Of every batch from the queue exactly the valid estimates that belong to a known ship and port call are stored, once, attached to the nearest matching call; malformed or failing records alone are reported as failed. A port call that moves to another port loses its Portnet estimates for the old one. Ships are asked for estimates exactly while arriving, and clean up removes exactly what is over a week old.",
  over: ["histories", "inputs", "fault_sequences"], q: "every batch, every content of the tables and every failing statement",
  why: "The app's tests need a live database and send single well-formed records; damaged records, repeated deliveries and failures inside a batch are not reached.",
  files: [`${P}/service/timestamp-validation.ts`, `${P}/service/timestamps.ts`, `${P}/dao/timestamps.ts`, `${P}/lambda/process-queue/process-queue.ts`],
  mech: [["validateTimestamp", `${P}/service/timestamp-validation.ts`], ["saveTimestamp", `${P}/service/timestamps.ts`], ["batch results", `${P}/lambda/process-queue/process-queue.ts`]],
  oracle: "reference validation, matching and storage model; the real SQL runs through the real driver on an SQL engine" },
{ id: "C25", title: "Pilotages are stored, removed and announced exactly once",
  statement: "After every poll of Pilotweb the stored pilotages are the polled ones that are active or were updated, estimates of the ones that disappeared are removed, and each new or changed pilotage that belongs to a known port call sends exactly one estimate of the right kind, time and place. A poll that fails, in the connection, the body or the database, changes nothing, so that the next poll does what it left undone.",
  over: ["histories", "fault_sequences", "inputs"], q: "every history of polls, every split of the response in chunks and every failing statement",
  why: "The app's tests need a live database and never poll twice, split a response or fail in between.",
  files: [`${P}/service/pilotweb.ts`, `${P}/dao/pilotages.ts`, `${P}/service/location-converter.ts`, `${P}/api/pilotweb.ts`],
  mech: [["getMessagesFromPilotweb", `${P}/service/pilotweb.ts`], ["findPortCallId", `${P}/dao/pilotages.ts`], ["streaming of the response", `${P}/api/pilotweb.ts`]],
  oracle: "state model over the history of polls; an HTTP server on loopback and the real SQL on an SQL engine" },
{ id: "C26", title: "Predictions of Awake.AI and VTS become estimates by the stated rules",
  statement: "Every answer of Awake.AI (ships, ports, actual times) and of the VTS schedules becomes exactly the estimates the rules allow (destination, distance in time, zone, source, country, voyage status, berth copies), one message each. A failing ship, area or message is retried or left out without losing the others or ending the process, a broken source is reported, and access tokens are reused exactly while valid and never shown.",
  over: ["inputs", "histories", "fault_sequences"], q: "every answer of the sources and every way they fail",
  why: "The tests feed one answer per rule to stubbed services; combinations of rules, boundary times, several ships and failures in between are not reached.",
  files: [`${P}/service/awake-ai-eta-ship.ts`, `${P}/service/awake-ai-eta-port.ts`, `${P}/service/awake-ai-etd-port.ts`, `${P}/service/awake-ai-atx.ts`, `${P}/service/awake-ai-etx-helper.ts`, `${P}/service/schedules.ts`, `${P}/api/awake-ai-atx.ts`, `${P}/api/oauth-token-api.ts`],
  mech: [["ship predictions", `${P}/service/awake-ai-eta-ship.ts`], ["websocket session", `${P}/api/awake-ai-atx.ts`], ["VTS schedules", `${P}/service/schedules.ts`], ["tokens", `${P}/api/oauth-token-api.ts`]],
  oracle: "reference rules over the generated answers; requests, messages and stored subscriptions recorded on both sides" },
{ id: "C27", title: "Dead letters are stored in the bucket or stay in the queue",
  statement: "Every dead letter of the port activity, RAMI and maintenance tracking queues is stored once, readable and under its own key; when a letter can not be stored, also after the retry where there is one, the invocation fails so that the queue keeps it.",
  over: ["inputs", "fault_sequences"], q: "every content of the letters and every failing upload",
  why: "There are no tests of these lambdas; lost or unreadable letters are noticed only when they are needed.",
  files: ["lib/digitraffic-common/src/aws/runtime/s3.ts", "rail/rami/src/lambda/process-dlq/process-dlq.ts", "rail/rami/src/util/s3.ts", `${P}/lambda/process-dlq/lambda-process-dlq.ts`, "road/maintenance-tracking/src/lambda/process-dlq/process-dlq.ts"],
  mech: [["uploadToS3", "lib/digitraffic-common/src/aws/runtime/s3.ts"], ["RAMI dead letters", "rail/rami/src/lambda/process-dlq/process-dlq.ts"]],
  oracle: "recorded uploads compared with the letters and the script of failures" },
{ id: "C28", title: "RAMI messages are stored whole and served as they were sent",
  statement: "The API of passenger information serves, for every history of RAMI messages, exactly the latest version of each message that is active at the moment or changed after the time asked for, with every text, station, train, time to the second and delivery rule as it was sent. Each message of the queue is stored whole with its delivery points or not at all; one that can not be stored is retried or goes to the dead letter queue, and database connections are always released.",
  over: ["inputs", "histories", "fault_sequences"], q: "every schema-valid message, every history of versions and every failing statement",
  why: "The app's tests need a live MySQL and store a few similar messages; audio files, missing delivery points, versions and failures inside a transaction are not reached.",
  files: ["rail/rami/src/dao/message.ts", "rail/rami/src/service/process-rosm-message.ts", "rail/rami/src/service/get-message.ts", "rail/rami/src/service/validate-message.ts", "rail/rami/src/util/database.ts", "rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts"],
  mech: [["storing and reading", "rail/rami/src/dao/message.ts"], ["RAMI format to API format", "rail/rami/src/service/process-rosm-message.ts"], ["transactions", "rail/rami/src/util/database.ts"]],
  oracle: "a map of the messages sent; the real SQL runs, behind the driver, on an SQL engine with injected failures" },
{ id: "C29", title: "Stop monitoring keeps every message and the latest unknown delays",
  statement: "Every stop monitoring message of the queue is saved once and its rows with unknown delays or tracks are passed on; after every history of those, the tables hold for each row of a train what the last message said of it and a history of each change. A message that fails for any reason stays in the queue, the others of its batch are not affected, and only data older than a day is removed.",
  over: ["histories", "inputs", "fault_sequences"], q: "every history of messages, every timetable they are matched to and every failing statement",
  why: "The app's tests need a live MySQL and store one message; histories of changes and failures in between are not reached.",
  files: ["rail/rami/src/dao/udot.ts", "rail/rami/src/dao/stop_monitoring_message.ts", "rail/rami/src/dao/time_table_row.ts", "rail/rami/src/service/process-sm-message.ts", "rail/rami/src/service/process-udot-message.ts", "rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts", "rail/rami/src/lambda/process-udot-queue/process-udot-queue.ts", "rail/rami/src/lambda/delete-old-data/delete-old-data.ts"],
  mech: [["unknown delays and tracks", "rail/rami/src/dao/udot.ts"], ["reading of messages", "rail/rami/src/service/process-sm-message.ts"], ["batch results", "rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts"]],
  oracle: "state model over the history of messages; the real SQL runs, behind the driver, on an SQL engine with injected failures" },
{ id: "C30", title: "Edge functions answer and change exactly the requests they are meant to",
  statement: "The code CloudFront runs requires compression of reads and answers preflights, lets only the configured addresses through, completes, cuts and redirects paths, sends old camera images and traffic history to the store that has them with the right key and query, and replaces missing images. Every other request and response passes unchanged. What the placeholders in the code stand for is what the behaviour was given.",
  over: ["inputs", "configurations"], q: "every CloudFront event and every parameter of a behaviour",
  why: "tests call each function with one or two events and with the placeholders still in the code; the deployed text is never run",
  files: ["other/cloudfront/src/lambda/lambda-lam-redirect.ts", "other/cloudfront/src/lambda/lambda-ip-restriction.ts", "other/cloudfront/src/lambda/lambda-gzip-requirement.ts", "other/cloudfront/src/lambda/lambda-weathercam-rewrite.ts", "other/cloudfront/src/util/lambda-creator.ts", "other/cloudfront/src/util/function-creator.ts"],
  mech: [["replacement of the placeholders", "other/cloudfront/src/util/lambda-creator.ts"], ["query of the data warehouse", "other/cloudfront/src/lambda/lambda-lam-redirect.ts"], ["removePathParts", "other/cloudfront/src/lambda/uri-util.ts"]],
  oracle: "a reference of each function run beside the code taken from the synthesised template" },
{ id: "C31", title: "Every behaviour of a distribution gets the origin and functions it was given",
  statement: "For any set of distributions in a stack, each behaviour reaches its own origin with its own key, path, protocol and time-out, is cached by its own time, headers and parameters, and runs exactly the functions assigned to it, made for its own parameters. Sharing of origins, cache policies and functions between behaviours never changes any of this. Conflicting assignments, a missing or second default behaviour, a path given twice and a missing log are refused.",
  over: ["configurations", "inputs"], q: "every combination of distributions, behaviours and changes made to them",
  why: "the repository has no test of the stack; errors arise from pairs of behaviours that share an origin or a function",
  files: ["other/cloudfront/src/cloudfront-cdk-stack.ts", "other/cloudfront/src/distribution/behavior.ts", "other/cloudfront/src/distribution/distribution-builder.ts", "other/cloudfront/src/util/edgalambda-factory.ts", "other/cloudfront/src/util/edgefunction-factory.ts", "other/cloudfront/src/util/cachepolicy-factory.ts", "other/cloudfront/src/util/apikey-util.ts", "other/cloudfront/src/acl/acl-creator.ts"],
  mech: [["cache of origins", "other/cloudfront/src/cloudfront-cdk-stack.ts"], ["cache of edge lambdas", "other/cloudfront/src/util/edgalambda-factory.ts"], ["cache of policies", "other/cloudfront/src/util/cachepolicy-factory.ts"], ["one function per event", "other/cloudfront/src/distribution/behavior.ts"]],
  oracle: "each behaviour read back from the template and compared with what was asked; its functions are run and told apart by their answers" },
{ id: "C32", title: "Municipal maintenance events become trackings by the stated limits",
  statement: "Over any sequence of runs, the events of each machine that carry a mapped task become trackings that are split where time, distance, speed or tasks say so, and continued or ended across runs by the same limits; no event is saved twice or lost, and at most one tracking of a machine is unfinished. A machine's data is saved whole or not at all, a failure is counted and does not stop the others, and contracts, task mappings and times tell exactly what was saved. Routes are fetched from where they were left, with a token that is valid.",
  over: ["histories", "inputs", "fault_sequences"], q: "every drive of every machine, every cut of it into runs, and every fault in a run",
  why: "the limits meet only in some sequences of events and runs; the repository's tests of them need a database and check a few",
  files: ["road/maintenance-tracking-municipality/src/service/paikannin-update.ts", "road/maintenance-tracking-municipality/src/service/paikannin-utils.ts", "road/maintenance-tracking-municipality/src/service/autori-update.ts", "road/maintenance-tracking-municipality/src/service/autori-utils.ts", "road/maintenance-tracking-municipality/src/dao/data.ts", "road/maintenance-tracking-municipality/src/api/autori.ts", "road/maintenance-tracking-municipality/src/api/paikannin.ts", "road/maintenance-tracking-municipality/src/lambda/paikannin-update-data/paikannin-update-data.ts"],
  mech: [["grouping of events", "road/maintenance-tracking-municipality/src/service/paikannin-utils.ts"], ["continuation across runs", "road/maintenance-tracking-municipality/src/service/paikannin-update.ts"], ["routes", "road/maintenance-tracking-municipality/src/service/autori-update.ts"], ["token cache", "road/maintenance-tracking-municipality/src/api/autori.ts"]],
  oracle: "a reference model of the rules, compared with the rows of the tables after each run; coverage of events; a failed machine's rows as before" },
{ id: "C33", title: "Key figures count exactly the requests they are about, and are saved once",
  statement: "For any access log, each key figure of a service, of all services together or of an endpoint is what counting that month's requests of it gives, leaving out requests marked to be left out; names that are alike once cleaned are added up, and the groups of a service's endpoints cover each endpoint once. A figure that cannot be fetched (after the stated retries) or saved is reported and does not stop the others, no request is left waiting for ever, and over any sequence of runs, failed ones included, no figure of a month is saved to the key figures twice or changed, and every figure that was got is saved there or, when it was there already, among the duplicates.",
  over: ["inputs", "histories", "fault_sequences"], q: "every access log, every set of endpoints and groups, and every sequence of runs with faults",
  why: "the figures depend on how a query meets the log, which the tests check only as text, and the rest on which earlier runs failed where; the integration tests need two servers",
  files: ["other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts", "other/os-key-figures/src/adapters/driven/opensearch/opensearch-metric-source.ts", "other/os-key-figures/src/adapters/driven/opensearch/retry-policy.ts", "other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts", "other/os-key-figures/src/domain/services/metric-collection-service.ts", "other/os-key-figures/src/domain/services/endpoint-discovery-service.ts", "other/os-key-figures/src/api/opensearch.ts", "other/os-key-figures/src/lambda/collect-os-key-figures.ts"],
  mech: [["queries", "other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts"], ["saving", "other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts"], ["groups of endpoints", "other/os-key-figures/src/lambda/collect-os-key-figures.ts"], ["requests to OpenSearch", "other/os-key-figures/src/api/opensearch.ts"]],
  oracle: "counting the documents directly, against an evaluator of the queries; the tables after each run against the figures got" },
{ id: "C34", title: "Every callable endpoint is watched by one NodePing check, set as it should be",
  statement: "After a run, for any published OpenAPI documents, extra endpoints and checks that NodePing already has, every endpoint that can be called (GET, no path parameters, not beta, required query parameters with defaults) and is not excluded, and every extra endpoint, has exactly one check; each check of a service has the service's settings (target, method, threshold, interval, headers, contacts; only internal contacts for beta) and checks that are right are not written. A second run writes nothing, and a failed run only leaves things that the next one completes. The report names exactly the differences between the checks and the status page: components missing on either side and, outside maintenances, states that disagree.",
  over: ["inputs", "histories", "fault_sequences"], q: "every set of OpenAPI documents, endpoints and earlier checks, every sequence of runs, with refused requests",
  why: "which checks are written depends on two remote states and on what earlier runs left there; the tests use one or two fixed endpoints",
  files: ["other/status/src/api/digitraffic-api.ts", "other/status/src/api/nodeping-api.ts", "other/status/src/service/status-service.ts", "other/status/src/service/utils.ts", "other/status/src/api/cstate-statuspage-api.ts", "other/status/src/lambda/update-status/lambda-update-status.ts", "other/status/src/lambda/check-component-states/lambda-check-component-states.ts"],
  mech: [["endpoints of a document", "other/status/src/api/digitraffic-api.ts"], ["checks", "other/status/src/api/nodeping-api.ts"], ["missing and differing checks, the report", "other/status/src/service/status-service.ts"]],
  oracle: "the writes a run must make, from the documents and NodePing's state; the state after it; the report by a direct comparison" },
{ id: "C35", title: "NodePing's checks are off during a maintenance, and only then",
  statement: "Over any history of status-page issues, runs, checks switched by hand and refused requests, after a run that succeeds no check is on if a maintenance has begun (or begins within a minute), and otherwise every check is on, or reported when NodePing refuses to switch it on. Checks are switched, the maintenance job triggered and a message sent once per change and not repeated while nothing changes; a run that cannot read the page or the checks changes nothing.",
  over: ["histories", "fault_sequences"], q: "every sequence of issues, times, states of the checks and refused requests",
  why: "a check left off or switched on in the wrong run depends on the order of earlier runs and failures; the tests run single steps against mocks",
  files: ["other/status/src/service/maintenance-service.ts", "other/status/src/api/cstate-statuspage-api.ts", "other/status/src/api/nodeping-api.ts", "other/status/src/lambda/handle-maintenance/lambda-handle-maintenance.ts"],
  mech: [["switching", "other/status/src/service/maintenance-service.ts"], ["active maintenance", "other/status/src/api/cstate-statuspage-api.ts"]],
  oracle: "a model of the checks' states and of the requests each run must make" },
{ id: "C36", title: "Counting sites: counts are saved once, and the API answers what is saved",
  statement: "Over any history of runs, refused requests and database failures, each site's saved counts are exactly Eco-Counter's from its starting point to its last instant, none twice and none missing, a site's failure not touching the others; sites without news are moved on only after seven days. The sites follow Eco-Counter's answer, and a removed site keeps the time it was removed. The values, the month's CSV and the map of sites hold exactly the rows that match the query, in order, with their Last-Modified, and a bad query is refused.",
  over: ["inputs", "histories", "fault_sequences"], q: "every history of answers, times and failures, and every query of any saved state",
  why: "a count is doubled or lost only when a failure falls between two statements of one site; the tests have one site and no failures",
  files: ["road/counting-site/src/service/update-service.ts", "road/counting-site/src/dao/data.ts", "road/counting-site/src/dao/site.ts", "road/counting-site/src/api/v2/eco-counter.ts", "road/counting-site/src/lambda/get-values/get-values.ts", "road/counting-site/src/lambda/get-values-csv/get-values-csv.ts", "road/counting-site/src/lambda/get-sites/get-sites.ts"],
  mech: [["runs", "road/counting-site/src/service/update-service.ts"], ["queries", "road/counting-site/src/dao/data.ts"], ["sites", "road/counting-site/src/dao/site.ts"], ["requests", "road/counting-site/src/api/v2/eco-counter.ts"]],
  oracle: "a model of the tables after every run; filtering and sorting the rows directly" },
{ id: "C37", title: "Variable signs: what is received is served unaltered, once, and only if active",
  statement: "Over any history of received documents, refusals and database failures, each situation saved is the text the sender wrote, the latest one of each device, and a document is saved whole or not at all; every Datex2 interface serves, in order of device and unaltered but for missing namespace prefixes, exactly the parts stored for its type and version of devices that are not removed, without the test situations of the two trial nights, with their latest change as publication time and Last-Modified. The devices follow the last list received, a device left out keeping the time it was first left out, and every data message is saved with its rows or not at all. A sign's image has exactly the symbols of its text, each defined once, side by side and as wide as the image, and other texts are refused.",
  over: ["inputs", "histories", "fault_sequences"], q: "every document, stored text, history of messages and failures, and every sign text",
  why: "what is served depends on characters inside the stored texts and on where a failure falls; the tests have a few fixed documents",
  files: ["road/variable-signs/src/service/variable-signs.ts", "road/variable-signs/src/service/datex2-update-service.ts", "road/variable-signs/src/service/filtering-service.ts", "road/variable-signs/src/service/json-update-service.ts", "road/variable-signs/src/service/text-converter.ts", "road/variable-signs/src/db/datex2.ts"],
  mech: [["received documents", "road/variable-signs/src/service/datex2-update-service.ts"], ["interfaces", "road/variable-signs/src/service/variable-signs.ts"], ["trial nights", "road/variable-signs/src/service/filtering-service.ts"], ["devices and data", "road/variable-signs/src/service/json-update-service.ts"], ["images", "road/variable-signs/src/service/text-converter.ts"]],
  oracle: "a model of the tables after every message; the stored texts put into the frame the interface has when it is empty; an independent reading of sign texts" },
{ id: "C38", title: "Winter navigation follows IBNet and serves what is live in the time asked",
  statement: "Over any history of IBNet's changes, removals, refusals and database failures, no object is left behind: what is not asked for again is saved as IBNet last had it, and after a run without failures every table holds exactly IBNet's objects, the removed ones marked. The vessels served are the live ones with a live activity or planned assistance in progress in the time asked (the last week onwards by default), each with exactly those, naming the other vessel and never itself; a vessel is found by its IMO or MMSI and a location by any of its locodes, with its live restrictions and suspensions, and a dirway is the line of its live points in their order. Answers carry the time of the last check, too large ones are refused with 413, bad queries with 400 and unknown numbers with 404.",
  over: ["inputs", "histories", "fault_sequences"], q: "every history of IBNet's changes and failures, and every query of every saved state",
  why: "a change is lost only when it falls between two requests or statements, and who assists whom depends on which numbers are missing; the tests have a few complete vessels",
  files: ["marine/winter-navigation/src/service/data-updater.ts", "marine/winter-navigation/src/service/vessel-service.ts", "marine/winter-navigation/src/service/location-service.ts", "marine/winter-navigation/src/service/dirway-service.ts", "marine/winter-navigation/src/db/vessels.ts", "marine/winter-navigation/src/db/locations.ts", "marine/winter-navigation/src/lambda/get-vessels/get-vessels.ts"],
  mech: [["following IBNet", "marine/winter-navigation/src/service/data-updater.ts"], ["vessels in a time", "marine/winter-navigation/src/db/vessels.ts"], ["who assists whom", "marine/winter-navigation/src/service/vessel-service.ts"], ["locations", "marine/winter-navigation/src/db/locations.ts"], ["dirways", "marine/winter-navigation/src/service/dirway-service.ts"]],
  oracle: "a model of IBNet with the same objects and versions, compared with the tables after every run; filtering the saved objects directly" },
{ id: "C39", title: "Uploaded DATEX II messages are kept, sorted out in order and published whole",
  statement: "Every valid upload and RTTI message is stored or refused with an error (the queue delivers it again), never dropped after an acceptance, and an invalid one is refused without harm to the others. Sorting out handles what is new in the order it arrived, so that for every device, version and kind the data and the effect date of the latest message remain, unaltered part by part; an unreadable document is marked failed and stores nothing, and messages are deleted once seven whole days old. For each situation announced the latest publication is sent to the broker as one well-formed payload on its SRTI or RTTI topic, whatever its texts contain; when that fails the queue delivers the announcement again and no connection is left open.",
  over: ["inputs", "histories", "schedules", "fault_sequences"], q: "every history of uploads, queue batches, invocations and failures, and every speed of the connections",
  why: "what is lost or overridden depends on which messages meet in one invocation and which statement, queue or broker fails; the tests handle single documents",
  files: ["road/data-upload/src/lambda/upload-datex2/upload-datex2.ts", "road/data-upload/src/lambda/handle-rtti/handle-rtti.ts", "road/data-upload/src/service/variable-signs.ts", "road/data-upload/src/service/rtti.ts", "road/data-upload/src/service/mqtt-sending-service.ts", "road/data-upload/src/service/vs-datex2-35-parser.ts", "road/data-upload/src/dao/data.ts"],
  mech: [["accepting uploads", "road/data-upload/src/lambda/upload-datex2/upload-datex2.ts"], ["sorting out", "road/data-upload/src/service/variable-signs.ts"], ["parsing", "road/data-upload/src/service/vs-datex2-223-parser.ts"], ["RTTI", "road/data-upload/src/service/rtti-35-parser.ts"], ["publishing", "road/data-upload/src/service/mqtt-sending-service.ts"]],
  oracle: "a model of the messages, devices and situations, compared with the tables after every step; what is published is parsed and compared with the generated situation" },
{ id: "C40", title: "The joined OpenAPI document describes every API of the site, and nothing else",
  statement: "The published document has each operation, component and tag of every source (API Gateway exports, the application and its beta) unaltered, apart from null alternatives of the exports becoming nullable, deprecations being marked, and HEAD, OPTIONS and (if configured) security being left out; a path without operations is left out, and configured texts replace those of the sources. The script published beside it shows exactly that document and refuses to show another one given in the query; when a source cannot be read or parsed nothing is written, and a failed write is reported. Every run of the documentation lambda gives each API with versions a new numeric version that does not exist yet, the highest plus one if all are numbers.",
  over: ["inputs", "configurations", "fault_sequences", "histories"], q: "every set of descriptions, every configuration, every source that fails and every set of existing versions",
  why: "what is lost depends on how the descriptions overlap (paths, components, tags, nested schemas) and on texts inside a script; the tests join three documents with one path each",
  files: ["other/swagger-joiner/src/swagger-utils.ts", "other/swagger-joiner/src/apigw-utils.ts", "other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts", "other/swagger-joiner/src/lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts"],
  mech: [["joining", "other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts"], ["merging and deprecations", "other/swagger-joiner/src/swagger-utils.ts"], ["nullable", "other/swagger-joiner/src/apigw-utils.ts"], ["versions", "other/swagger-joiner/src/lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts"]],
  oracle: "a reference join of the generated descriptions, the page's script run in a VM, and a model of API Gateway's versions" },
{ id: "C41", title: "Port visits are as Portnet last reported them and are found by what was asked",
  statement: "After every run of the update each visit reported by the port-call service is in the table with its last reported port, times and status, a visit whose contents did not change keeps its update time, and a failed run leaves every visit as it was before or as reported. The public API answers exactly the visits whose arrival or departure (estimated or actual) is in the asked interval and that match the asked port, vessel name, IMO and status literally, in the asked order with missing values last. Invalid parameters answer 400, an unknown visit 404 and a failing database 500.",
  over: ["inputs", "histories", "fault_sequences"], q: "every history of visits, every query and every failing request or statement",
  why: "an upsert that loses a value only shows when a later report changes just that value, and a search shows it at the edges of the interval and with wildcard characters; the tests save and read one visit",
  files: ["marine/port-call/src/db/visits.ts", "marine/port-call/src/service/visit-service.ts", "marine/port-call/src/lambda/get-visits/get-visits.ts", "marine/port-call/src/lambda/get-visit/get-visit.ts", "marine/port-call/src/model/get-visits-schema.ts", "marine/port-call/src/api/nemo-api.ts"],
  mech: [["saving", "marine/port-call/src/db/visits.ts"], ["update run", "marine/port-call/src/service/visit-service.ts"], ["query", "marine/port-call/src/model/get-visits-schema.ts"], ["answers", "marine/port-call/src/lambda/get-visits/get-visits.ts"]],
  oracle: "a reference table of the last reports and a reference search over it" },
{ id: "C42", title: "Faults of aids to navigation are published as the sources last reported them",
  statement: "A run saves every fault of every readable source (except those only registered) with its last reported state and times, read as Finnish time, whatever happens to the other sources; a fault that could not be saved is reported as a failure and leaves every fault as it was before or as reported. The public API answers the faults that are open or were fixed within the asked number of hours, with every text in the asked language (English if unknown) and the time of the last check. Invalid parameters answer 400 and a failing database 500.",
  over: ["inputs", "histories", "fault_sequences"], q: "every history of faults, every source or statement that fails, every query and every time",
  why: "a value that is not updated shows only when a known fault changes, a shifted time only in another time zone or season, and a missing fault at the edge of the asked hours; the tests save two faults once",
  files: ["marine/aton-faults/src/db/faults.ts", "marine/aton-faults/src/service/update-faults.ts", "marine/aton-faults/src/service/faults.ts", "marine/aton-faults/src/api/faults.ts", "marine/aton-faults/src/lambda/get-faults/get-faults.ts", "marine/aton-faults/src/lambda/update-faults/update-faults.ts"],
  mech: [["saving and searching", "marine/aton-faults/src/db/faults.ts"], ["update run", "marine/aton-faults/src/service/update-faults.ts"], ["reading the sources", "marine/aton-faults/src/api/faults.ts"], ["answers", "marine/aton-faults/src/lambda/get-faults/get-faults.ts"]],
  oracle: "a reference table of the sources' last reports, an independent calculation of Finnish time and a reference search" },
{ id: "C43", title: "Marine camera images are kept by camera and seen only by those entitled to them",
  statement: "In every update run each camera of the group whose reading and storing succeed has exactly its frame stored under its own name and its time set, every other camera keeps its time and stored image whatever failed, at most five streams are open at once, each opened stream is closed and the session is left. Behind the deployed gateway a caller gets an image or the metadata exactly if the caller's Basic credentials are accepted and the caller belongs to the image's group, also when the authorizer's answers are cached; the metadata list has exactly the cameras of the caller's groups. Every other path needs an API key, and a failing database answers 500.",
  over: ["inputs", "histories", "fault_sequences", "configurations"], q: "every set of cameras, every failing command, frame or upload, every history of callers, paths and waiting times",
  why: "a failure of one of many concurrent readings, credentials with reserved characters, cached permissions and the join of the authorizer, template and list are outside the only test, which lists two rows",
  files: ["marine/marinecam/src/service/image-fetcher.ts", "marine/marinecam/src/service/session.ts", "marine/marinecam/src/service/command.ts", "marine/marinecam/src/service/image-store.ts", "marine/marinecam/src/db/metadata.ts", "marine/marinecam/src/lambda/authorizer/authorizer.ts", "marine/marinecam/src/lambda/authorizer/cognito_backend.ts", "marine/marinecam/src/lambda/list-cameras/list-cameras.ts", "marine/marinecam/src/lambda/get-metadata/get-metadata.ts", "marine/marinecam/src/private-api.ts"],
  mech: [["fetching", "marine/marinecam/src/service/image-fetcher.ts"], ["protocol", "marine/marinecam/src/service/session.ts"], ["commands", "marine/marinecam/src/service/command.ts"], ["access", "marine/marinecam/src/lambda/authorizer/authorizer.ts"], ["the API as deployed", "marine/marinecam/src/private-api.ts"]],
  oracle: "a model of the camera server, a model of API Gateway with its authorizer cache driven by the synthesised template, and the rights of the generated users" },
{ id: "C44", title: "Sea state reports are saved whole one by one, with one latest report per site",
  statement: "Of every received batch each report with coordinates is saved with exactly its values, in order, and every other one is counted as an error without keeping the rest from being saved; a report whose statement fails leaves nothing behind. Each site ever reported has exactly one latest report, the one saved last, and the time of the data is that of the last saved report. An empty message is refused as a bad request.",
  over: ["inputs", "histories", "fault_sequences"], q: "every history of batches and every failing statement",
  why: "a site without a latest report, or with two, needs a failure between two statements or a site reported twice; the tests save one file once",
  files: ["marine/sea-state-estimate/src/db/sse-db.ts", "marine/sea-state-estimate/src/service/sse-update-service.ts", "marine/sea-state-estimate/src/lambda/update-sse-data/update-sse-data.ts"],
  mech: [["statements", "marine/sea-state-estimate/src/db/sse-db.ts"], ["transaction per report", "marine/sea-state-estimate/src/service/sse-update-service.ts"], ["handler", "marine/sea-state-estimate/src/lambda/update-sse-data/update-sse-data.ts"]],
  oracle: "a reference list of the reports saved so far, compared with the table after every batch" },
{ id: "C45", title: "Fairway lights brighten for moving ships once, and again only as they go out",
  statement: "In every run exactly those areas in which a ship has moved within two minutes and whose lights are off, or go out within a minute, get a request with the area's duration, one of its moving ships and the visibility (or none if it cannot be read), tried at most three times. After a successful request the area counts as lit for its duration; after a failed one it stays as it was, so that the next run tries again. One area's failure does not keep the others dark, and a run that cannot read the areas fails and asks nothing.",
  over: ["inputs", "histories", "fault_sequences"], q: "every history of ship movements, times, answers and failing statements",
  why: "whether lights are asked again depends on the times of earlier runs to the millisecond and on what failed in them; the tests run the handler once",
  files: ["marine/shiplight/src/db/areatraffic.ts", "marine/shiplight/src/service/areatraffic.ts", "marine/shiplight/src/service/arealights.ts", "marine/shiplight/src/service/areavisibility.ts", "marine/shiplight/src/api/arealights.ts", "marine/shiplight/src/api/areavisibility.ts", "marine/shiplight/src/lambda/update-lights/update-lights.ts"],
  mech: [["areas with traffic", "marine/shiplight/src/db/areatraffic.ts"], ["need to brighten", "marine/shiplight/src/service/areatraffic.ts"], ["request", "marine/shiplight/src/service/arealights.ts"], ["run", "marine/shiplight/src/lambda/update-lights/update-lights.ts"]],
  oracle: "a reference model of the areas, the ships' last positions and the lights" },
{ id: "C46", title: "Log monitors alarm about what they were composed of, and deployments replace all",
  statement: "A monitor composed with the builder alarms exactly when the log lines of its environment and window that match all of its conditions and none of its exclusions break its limit (count, range, buckets or sum), to every destination, telling limits and values, the message and links to the runbooks. A deployment removes every monitor of OpenSearch and adds the configured ones; whenever it reports success there are exactly those, and any failure is reported as a failure once, to the alarm channel. A deployment without monitors changes nothing, and the stack gives the function the configured monitors, its role and its only way to OpenSearch.",
  files: ["other/opensearch-monitors/src/monitor/monitor-builder.ts", "other/opensearch-monitors/src/monitor/triggers.ts", "other/opensearch-monitors/src/monitor/monitor.ts", "other/opensearch-monitors/src/api/opensearch.ts", "other/opensearch-monitors/src/lambda/update-os-monitors.ts", "other/opensearch-monitors/src/monitor-stack.ts"],
  over: ["inputs", "histories", "fault_sequences", "configurations"], q: "every composed monitor, every set of log lines, every earlier content of OpenSearch and every failure",
  why: "a condition that counts the wrong lines shows only with lines that match all but one of the conditions, a monitor left behind only when one removal fails; there are no tests",
  mech: [["builder", "other/opensearch-monitors/src/monitor/monitor-builder.ts"], ["triggers", "other/opensearch-monitors/src/monitor/triggers.ts"], ["replacing", "other/opensearch-monitors/src/api/opensearch.ts"], ["run", "other/opensearch-monitors/src/lambda/update-os-monitors.ts"]],
  oracle: "an interpreter of the monitors over generated log lines beside a direct evaluation of the composition, and a model of OpenSearch" },
{ id: "C47", title: "The pages of the key figures show exactly what is saved",
  statement: "After a run, for any history of saved key figures, whatever the names in them (they come from the requests' headers) and whichever figures are missing, the index draws each service's and each busy endpoint's figures month by month, lists every endpoint of each service once with its latest number of requests, most first, and links each to a page of its own, which draws exactly its figures and its top lists' names, month by month. Every page can be opened and runs nothing but its own script. A run that could not read a figure or save a page fails, and the next one completes.",
  files: ["other/os-key-figures/src/lambda/create-visualizations.ts", "lib/digitraffic-common/src/aws/runtime/s3.ts"],
  over: ["inputs", "histories", "fault_sequences"], q: "every content of the key-figure table, every name in the top lists, and a failure at any query or upload",
  why: "a name that breaks a page, or a service without one figure, is not among the few names and full tables a test samples; there are no tests",
  mech: [["pages", "other/os-key-figures/src/lambda/create-visualizations.ts"], ["upload", "lib/digitraffic-common/src/aws/runtime/s3.ts"]],
  oracle: "a browser's reading of the pages (where scripts end, what they draw) compared with the figures saved" },
{ id: "C48", title: "What is passed on from other systems is whole, valid and only for those allowed",
  statement: "For any history of the sources' answers and failures, each published file (LAM stations and station groups, yearly and project plans) is its source's last answer that was got whole and, for plans, followed their schema; a run that could not publish everything fails and replaces nothing by a bad answer. Schedules are given only with the token; the request passed on has the direction and exactly the parameters given, whatever characters they have, and the answer is the source's own. An EPC message is acknowledged with the time in whole seconds.",
  files: ["road/lam-history/src/service/update.ts", "road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts", "rail/yearly-plans/src/lambda/update-plans/update-plans.ts", "rail/yearly-plans/src/service/yearly-plans-service.ts", "rail/yearly-plans/src/util/s3-util.ts", "rail/yearly-plans/src/model/schema.ts", "marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts", "marine/gofrep/src/service/epcmessage.ts"],
  over: ["inputs", "histories", "fault_sequences"], q: "every history of answers and failures of the sources and of the bucket, every document near the plans' schema, and every query",
  why: "an answer cut short, nearly valid, or a parameter with a reserved character is not among a test's samples; there are no tests",
  mech: [["LAM stations", "road/lam-history/src/service/update.ts"], ["plans", "rail/yearly-plans/src/lambda/update-plans/update-plans.ts"], ["schedules", "marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts"], ["EPC message", "marine/gofrep/src/service/epcmessage.ts"]],
  oracle: "the sources' answers themselves, an independent reading of the plans' schema, and a parser of the URLs asked" },
{ id: "C49", title: "What is watched is reported to those who are to know",
  statement: "For any configuration of the monitoring: an alarm mail goes to the alarm address exactly when two of the last five five-minute averages are beyond the limit given (or the default) for that service, cluster or instance, and its name tells which; nothing is sent for what is not configured or is disabled. Changes of users, roles, keys and configured zones, database events and OS updates, and CloudFront anomalies are each reported once, telling what, who and where. The parameters that other stacks use lead to the topic of their name, which those alarms may use.",
  files: ["other/monitoring/src/monitoring-stack.ts", "other/monitoring/src/region-monitoring-stack.ts", "other/monitoring/src/alarms.ts", "other/monitoring/src/rds-monitoring.ts", "other/monitoring/src/ecs-monitoring.ts", "other/monitoring/src/iam-monitoring.ts", "other/monitoring/src/kms-monitoring.ts", "other/monitoring/src/route53-monitoring.ts", "other/monitoring/src/cloudfront-monitoring.ts", "other/monitoring/src/topic-tools.ts"],
  over: ["inputs", "histories", "configurations"], q: "every configuration, every series of measurements of each metric and every event",
  why: "a limit on a wrong metric, a rule that misses an event or a topic that may not be used shows only when the alarm was needed; there are no tests",
  mech: [["limits", "other/monitoring/src/alarms.ts"], ["databases", "other/monitoring/src/rds-monitoring.ts"], ["events", "other/monitoring/src/region-monitoring-stack.ts"], ["topics", "other/monitoring/src/monitoring-stack.ts"]],
  oracle: "the configuration's own limits, and a model of CloudWatch, EventBridge and SNS that runs the synthesized stacks" },
{ id: "C50", title: "What the road operator sends is saved once and whole, and old trackings are cleaned",
  statement: "For every sequence of messages of the road operator, repeated and failing deliveries included: a message that is JSON is queued exactly as it was sent, large ones through the bucket, and answered with success only then; anything else is refused. Every observation of a delivered message is saved exactly once with its own time, machine, contract, sender and contents, in the message's order, whole messages or none of them; a message that is not valid hinders no other, and one that could not be saved stays in the queue. The cleaning deletes the trackings older than 26 hours except those a younger one continues and the latest of each domain, touches no younger one, and reports a failure, after which whole steps are done or undone.",
  files: ["road/maintenance-tracking/src/lambda/update-queue/update-queue.ts", "road/maintenance-tracking/src/lambda/process-queue/process-queue.ts", "road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts", "road/maintenance-tracking/src/service/maintenance-tracking.ts", "road/maintenance-tracking/src/service/sqs-big-payload.ts", "road/maintenance-tracking/src/dao/maintenance-tracking-dao.ts"],
  over: ["inputs", "histories", "faults"], q: "every sequence of messages, deliveries, cleanings and faults",
  why: "an observation lost on a failed delivery or saved in part, and a tracking deleted that a younger one continues, show only with particular histories and faults; the tests need a database and sample a few",
  mech: [["queueing", "road/maintenance-tracking/src/lambda/update-queue/update-queue.ts"], ["saving", "road/maintenance-tracking/src/lambda/process-queue/process-queue.ts"], ["observations", "road/maintenance-tracking/src/service/maintenance-tracking.ts"], ["cleaning", "road/maintenance-tracking/src/dao/maintenance-tracking-dao.ts"]],
  oracle: "the messages sent, a model of the saved rows, and a model of the cleaning" },
];
export const notApplicable = [];
