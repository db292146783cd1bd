// C33: key figures of the services, from the access log to the tables.
import { EventEmitter } from "node:events";
import { DatabaseSync } from "node:sqlite";
import { check, fc, must, same, show, outcome, fakeClock, driveClock, capture } from "#harness";
import { answer, tokens, Unsupported } from "#harness/opensearch.mjs";
import { OpenSearchMetricSource } from "#repo/other/os-key-figures/src/adapters/driven/opensearch/opensearch-metric-source.ts";
import { RetryingMetricSource } from "#repo/other/os-key-figures/src/adapters/driven/opensearch/retrying-metric-source.ts";
import { executeWithRetry, DEFAULT_RETRY_POLICY } from "#repo/other/os-key-figures/src/adapters/driven/opensearch/retry-policy.ts";
import { MySqlMetricStore } from "#repo/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts";
import { MetricCollectionService } from "#repo/other/os-key-figures/src/domain/services/metric-collection-service.ts";
import { EndpointDiscoveryService } from "#repo/other/os-key-figures/src/domain/services/endpoint-discovery-service.ts";
import { createEndpointScope, createServiceScope } from "#repo/other/os-key-figures/src/domain/types/metric-scope.ts";
import { createTimePeriod, lastMonth } from "#repo/other/os-key-figures/src/domain/types/time-period.ts";
import { OpenSearch } from "#repo/other/os-key-figures/src/api/opensearch.ts";
import { createConfigFromEnvironment } from "#repo/other/os-key-figures/src/lambda/handler-config.ts";

// ---------- a MySQL server for the driver's callbacks
const sql = { db: undefined, open: 0, closed: 0, fault: undefined, log: [], unsupported: undefined };
const fresh = () => { sql.db?.close(); sql.db = new DatabaseSync(":memory:"); sql.fault = sql.unsupported = undefined; sql.open = sql.closed = 0; sql.log = []; };
const tables = () => sql.db.prepare("select name from sqlite_master where type='table' and name not like 'sqlite_%'").all().map((r) => r.name);
const day = (d) => `${d.getFullYear()}-${String(d.getMonth() + 1).padStart(2, "0")}-${String(d.getDate()).padStart(2, "0")}`;
function run(text, values = []) {
  let i = 0; const params = [];
  const one = (v) => { params.push(v instanceof Date ? day(v) : v === undefined ? null : typeof v === "boolean" ? Number(v) : v); return "?"; };
  let s = text.replace(/\?\?|\?/g, (m) => { const v = values[i++]; if (m === "??") return `"${v}"`; return Array.isArray(v) ? v.map((x) => (Array.isArray(x) ? `(${x.map(one).join(", ")})` : one(x))).join(", ") : one(v); }).replace(/`/g, '"');
  if (/^\s*show\s+tables/i.test(s)) return tables().map((t) => ({ Tables_in_db: t }));
  if (/^\s*create\s+table/i.test(s)) s = s.replace(/INT UNSIGNED NOT NULL AUTO_INCREMENT/i, "INTEGER").replace(/"(\w+)" VARCHAR\((\d+)\) NOT NULL/gi, '"$1" TEXT NOT NULL CHECK(length("$1") <= $2)').replace(/"value" JSON NOT NULL/i, '"value" TEXT NOT NULL CHECK(json_valid("value"))').replace(/"(\w+)" DATE NOT NULL/gi, '"$1" TEXT NOT NULL CHECK("$1" = date("$1"))');
  if (/^\s*create\s+(unique\s+)?index/i.test(s)) s = s.replace(/("\w+")\(\d+\)/g, "$1");
  const st = sql.db.prepare(s);
  if (/^\s*(select|with)/i.test(s)) return st.all(...params).map((r) => ({ ...r }));
  const r = st.run(...params); return { affectedRows: Number(r.changes), insertId: Number(r.lastInsertRowid) };
}
const driver = {
  createConnection() {
    sql.open++; let ended = false;
    return {
      connect(cb) { setImmediate(() => cb?.(null)); },
      query(text, values, cb) {
        if (typeof values === "function") { cb = values; values = []; }
        setImmediate(() => {
          if (ended) { cb(new Error("Cannot enqueue Query after invoking quit.")); return; }
          sql.log.push(text); const f = sql.fault?.(text, values);
          if (f) { cb(new Error(f)); return; }
          let rows; try { rows = run(text, values ?? []); } catch (e) { if (/syntax|no such column|near/i.test(e.message)) sql.unsupported = `${e.message}: ${text}`; cb(e); return; }
          cb(null, rows, []);
        });
      },
      end(cb) { if (!ended) sql.closed++; ended = true; setImmediate(() => cb?.(null)); },
      destroy() { if (!ended) sql.closed++; ended = true; },
    };
  },
};
driver.createPool = driver.createConnection;
// ---------- OpenSearch's end
let os = { handle: undefined };
class HttpRequest { constructor(o) { Object.assign(this, o); } }
class NodeHttpHandler { handle(request) { return os.handle(request); } destroy() {} }
class SignatureV4 { constructor(o) { this.o = o; } async sign(r) { return new HttpRequest({ ...r, headers: { ...r.headers, authorization: `AWS4 ${this.o.credentials.accessKeyId}/${this.o.region}/${this.o.service}` } }); } }
class STS { assumeRole(p, cb) { const r = os.role?.(p) ?? { Credentials: { AccessKeyId: `KEY-${p.RoleArn}`, SecretAccessKey: "s", SessionToken: "t" } }; const e = r instanceof Error ? r : null; if (cb) { setImmediate(() => cb(e, e ? undefined : r)); return undefined; } return e ? Promise.reject(e) : Promise.resolve(r); } }
globalThis.__stubs = { ...globalThis.__stubs, mysql: { default: driver, ...driver }, "@smithy/protocol-http": { HttpRequest }, smithy: { NodeHttpHandler }, "@smithy/signature-v4": { SignatureV4 }, "@aws-sdk/client-sts": { STS } };
const ACCOUNTS = { "*": "*", rail: "dt-rail-prd", road: "dt-road-prd", marine: "dt-marine-prd", afir: "dt-afir-prd" };
Object.assign(process.env, { ROLE: "arn:role", OS_HOST: "os.host", OS_VPC_ENDPOINT: "vpc.host", OS_INDEX: "logs-*", OS_AFIR_INDEX: "afir-*", MYSQL_ENDPOINT: "db", MYSQL_USERNAME: "u", MYSQL_PASSWORD: "p", MYSQL_DATABASE: "d", RAIL_ACCOUNT_NAME: ACCOUNTS.rail, ROAD_ACCOUNT_NAME: ACCOUNTS.road, MARINE_ACCOUNT_NAME: ACCOUNTS.marine, AFIR_ACCOUNT_NAME: ACCOUNTS.afir });
const { handler, buildScopes } = await import("#repo/other/os-key-figures/src/lambda/collect-os-key-figures.ts");
const DEFS = createConfigFromEnvironment().metricDefinitions;

// ---------- access logs
const NOV = createTimePeriod(new Date("2026-10-01T00:00:00Z"), new Date("2026-11-01T00:00:00Z"));
const PATHS = ["/api/v1/trains", "/api/v1/stations", "/api/v1/train-locations", "/api/v2/graphql", "/mqtt", "/history", "/infra-api"];
const SUFFIX = ["", "/", "/latest", "/1", "/2026/x"];
const some = (v, freq) => fc.option(v, { nil: undefined, freq });
const person = fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 12 }).map((n) => `user-${n}`) }, fc.constantFrom('"user-1"', "user-1'", "user\\-2", "Mozilla/5.0 (X11; \"Linux\")", "Mozilla/5.0 (X11; Linux)", "äö ☂", "constructor", "__proto__", "1"));
const T0 = NOV.from.getTime(), T1 = NOV.to.getTime();
const doc = fc.record({
  service: fc.constantFrom("rail", "rail", "road", "marine", "afir"),
  accountName: fc.oneof({ weight: 14, arbitrary: fc.constant(undefined) }, fc.constantFrom("dt-rail-tst", "dt-other-prd")), // undefined here: the service's
  request: fc.tuple(fc.constantFrom(...PATHS), fc.constantFrom(...SUFFIX)).map((x) => x.join("")),
  httpStatusCode: fc.constantFrom(200, 200, 200, 201, 206, 304, 404, 500),
  bytes: some(fc.integer({ min: 0, max: 5000 }), 8),
  clientIp: some(fc.integer({ min: 1, max: 14 }).map((n) => `10.0.0.${n}`), 10),
  httpReferrer: some(person, 4), httpDigitrafficUser: some(person, 4), agent: some(person, 6),
  at: fc.oneof({ weight: 8, arbitrary: fc.integer({ min: T0, max: T1 - 1 }) }, fc.constantFrom(T0, T1 - 1, T1, T0 - 1, T1 + 1, T0 - 30 * 86400e3)),
  log_line: fc.oneof({ weight: 11, arbitrary: fc.constant(undefined) }, fc.constant("raw")), skip_statistics: fc.constantFrom(undefined, undefined, undefined, undefined, undefined, false, true),
  httpHost: fc.constantFrom("rata.digitraffic.fi", "rata.digitraffic.fi", "rata.digitraffic.fi", "rata.digitraffic.fi", "rata.integration.digitraffic.fi", undefined),
});
const logs = fc.array(doc, { maxLength: 60 }).map((ds) => ds.map(({ service, at, ...d }) => ({ ...d, accountName: d.accountName ?? ACCOUNTS[service], "@timestamp": new Date(at).toISOString(), index: service === "afir" ? "afir-*" : "logs-*" })));
const indices = (docs) => ({ "logs-*": docs.filter((d) => d.index === "logs-*"), "afir-*": docs.filter((d) => d.index === "afir-*") });
const clean = (k) => k.replace(/["'\\]/g, "");
const counted = (docs, service, endpoint, period) => docs.filter((d) => {
  const t = Date.parse(d["@timestamp"]);
  return t >= period.from.getTime() && t < period.to.getTime() && d.log_line === undefined && d.skip_statistics !== true && !d.httpHost?.endsWith(".integration.digitraffic.fi")
    && (service === "*" ? Object.values(ACCOUNTS).includes(d.accountName) : d.accountName === ACCOUNTS[service] && d.index === (service === "afir" ? "afir-*" : "logs-*"))
    && (!endpoint || tokens(endpoint).every((x, i) => tokens(d.request)[i] === x));
});
/** [what it must be, or the total and the upper bounds when more names than are asked for] */
function judge(name, docs, value, at) {
  const num = (n) => same(value, n, at);
  const top = (field, size, weigh, missing) => {
    const raw = new Map(), all = new Map();
    for (const d of docs) { const k = d[field] ?? missing; if (k !== undefined) raw.set(k, (raw.get(k) ?? 0) + weigh(d)); }
    for (const [k, n] of raw) all.set(clean(k), (all.get(clean(k)) ?? 0) + n);
    const got = new Map(Object.entries(value));
    for (const k of got.keys()) must(!/["'\\]/.test(k), () => `${at}: a key with a quote or a backslash: ${k}`);
    if (raw.size <= size) { same([...got].sort(), [...all].sort(), at); return; }
    const sum = [...raw.values()].sort((a, b) => b - a).slice(0, size).reduce((a, b) => a + b, 0);
    same([...got.values()].reduce((a, b) => a + b, 0), sum, `${at}: the total of the ${size} greatest`);
    for (const [k, n] of got) must(n <= (all.get(k) ?? -1), () => `${at}: ${k} has ${n}, at most ${all.get(k)}`);
  };
  switch (name) {
    case "Http req": return num(docs.length);
    case "Http req 200": return num(docs.filter((d) => d.httpStatusCode === 200).length);
    case "Bytes out": return num(docs.reduce((s, d) => s + (d.bytes ?? 0), 0));
    case "Unique IPs": return num(new Set(docs.map((d) => d.clientIp).filter(Boolean)).size);
    case "Top 10 Referers": return top("httpReferrer", 10, () => 1, "__missing__");
    case "Top 10 digitraffic-users": return top("httpDigitrafficUser", 100, () => 1, "__missing__");
    case "Top 10 User Agents": return top("agent", 10, () => 1, "__missing__");
    case "Top 10 IPs": return top("clientIp", 10, () => 1);
    case "Top digitraffic-users by bytes": return top("httpDigitrafficUser", 100, (d) => d.bytes ?? 0, "__missing__");
    default: throw new Error(name);
  }
}
const SERVICES = ["*", "rail", "road", "marine", "afir"];
const scopeOf = (service, endpoint) => (endpoint ? createEndpointScope(service, endpoint) : createServiceScope(service));
const endpointOf = (s) => (s.endpoint === undefined ? undefined : s.endpoint);

await check({
  rule: "a case is non-trivial when the log has requests that count and ones that do not, when a figure is fetched or saved a second time or fails, or when endpoints are split in groups",
  assumptions: ["OpenSearch is an evaluator of the queries over the generated documents (harness/opensearch.mjs) and MySQL an SQLite database behind the driver's interface; the instant at which a month ends is left out (the repository's tests count it in both months)", "requests are matched by the words of their path, as the analyzer does"],
}, async ({ prop }) => {
  await prop("figures", fc.record({ docs: logs, service: fc.constantFrom(...SERVICES), endpoint: some(fc.constantFrom(...PATHS.slice(0, 6)).chain((p) => fc.constantFrom(p, `${p}/`)), 2) }), async ({ docs, service, endpoint }) => {
    const scope = scopeOf(service, service === "*" ? undefined : endpoint), mine = counted(docs, service, endpointOf(scope), NOV);
    const source = new OpenSearchMetricSource({ makeOsQuery: async (index, method, query) => answer(indices(docs), index, method, query) }, { defaultAccessLogIndex: "logs-*", afirAccessLogIndex: "afir-*", accountNames: ACCOUNTS });
    for (const def of DEFS) {
      const r = await outcome(() => source.retrieveMetricWithQuery(scope, def, NOV));
      if (r.error?.cause instanceof Unsupported) return false;
      must(!r.error, () => `${def.name}: ${r.error?.cause ?? r.error}`);
      judge(def.name, mine, r.value.value, `${def.name} of ${scope.storageTag}`);
      must(JSON.parse(r.value.query) && r.value.query.length <= 1000, () => `the query to save: ${r.value.query.length} characters`);
      same(Object.entries(await source.retrieveMetric(scope, def, NOV)), Object.entries(r.value.value), "retrieveMetric");
    }
    return mine.length > 0 && mine.length < docs.length && (endpoint && service !== "*" ? "endpoint" : service);
  }, { runs: 1200, thorough: 20000, needs: [OpenSearchMetricSource] });

  // more names than are asked for
  await prop("many names", fc.record({ n: fc.integer({ min: 95, max: 130 }), salt: fc.nat(1000), dots: fc.boolean() }), async ({ n, salt, dots }) => {
    const docs = Array.from({ length: n * 2 }, (_, i) => { const h = (i * 7919 + salt * 104729) % 1000003, user = i < n ? i : h % n; return { accountName: ACCOUNTS.rail, request: PATHS[0], httpStatusCode: 200, bytes: i < n ? (h % 97) * (i % 5) : h % 50, clientIp: `10.0.1.${h % 30}`, httpReferrer: `r${h % 25}`, agent: `a${user % 20}${dots && i % 2 ? "'" : ""}`, httpDigitrafficUser: `user-${user}`, "@timestamp": new Date(T0 + h).toISOString(), index: "logs-*" }; });
    const source = new OpenSearchMetricSource({ makeOsQuery: async (index, method, query) => answer(indices(docs), index, method, query) }, { defaultAccessLogIndex: "logs-*", afirAccessLogIndex: "afir-*", accountNames: ACCOUNTS });
    for (const def of DEFS) { const r = await outcome(() => source.retrieveMetricWithQuery(createServiceScope("rail"), def, NOV)); if (r.error?.cause instanceof Unsupported) return false; must(!r.error, () => `${def.name}: ${r.error?.cause ?? r.error}`); judge(def.name, docs, r.value.value, def.name); }
    return n > 100 && "over";
  }, { runs: 60, thorough: 500 });

  await prop("odd answers", fc.record({ def: fc.constantFrom(...DEFS), res: fc.constantFrom({}, { error: "x" }, { count: 3 }, { aggregations: { agg: {} } }, new Error("down"), "text") }), async ({ def, res }) => {
    const source = new OpenSearchMetricSource({ makeOsQuery: async () => { if (res instanceof Error) throw res; return res; } }, { defaultAccessLogIndex: "a", afirAccessLogIndex: "b", accountNames: ACCOUNTS });
    const r = await outcome(() => source.retrieveMetricWithQuery(createServiceScope("road"), def, NOV));
    const isCount = def.name.startsWith("Http req");
    if (res.count !== undefined && isCount) same(r.value?.value, 3, "count");
    else if (res.aggregations && !isCount) same(typeof r.value?.value === "object" ? Object.keys(r.value.value).length : r.value?.value, 0, "nothing found");
    else must(r.error instanceof Error, () => `${def.name}: an answer without it gave ${show(r.value)}`);
    return true;
  }, { runs: 40, thorough: 200 });

  // ---------- saving
  const runArb = fc.record({ month: fc.integer({ min: 0, max: 1 }), scopes: fc.uniqueArray(fc.tuple(fc.constantFrom(...SERVICES), some(fc.constantFrom("/a/", "/a_b/", "/axb/"), 2)), { minLength: 1, maxLength: 3, selector: (x) => `${x[0]}${x[1]}` }), defs: fc.subarray([0, 1, 2, 4], { minLength: 1 }), failing: fc.array(fc.nat(11), { maxLength: 3 }), everything: fc.boolean(), fault: some(fc.tuple(fc.constantFrom("insert", "insert", "select", "create", "drop", "show"), fc.nat(4)), 2), base: fc.nat(1e6) });
  await prop("saving", fc.array(runArb, { minLength: 1, maxLength: 5 }), async (runs) => {
    fresh();
    const store = () => new MySqlMetricStore({ host: "h", user: "u", password: "p", database: "d" });
    const key = (r) => `${r.filter}|${r.name}|${r.from}`, saved = new Map(), everGot = new Map();
    let again = false, faulty = false;
    for (const [n, r] of runs.entries()) {
      const period = r.month ? NOV : createTimePeriod(new Date("2026-09-01T00:00:00Z"), NOV.from);
      const scopes = r.scopes.map(([s, e]) => scopeOf(s, e)), defs = r.defs.map((i) => DEFS[i]);
      let asked = 0; const got = [], failed = [];
      const source = { async retrieveMetricWithQuery(scope, definition, p) {
        same(p, period, "the period"); const i = asked++;
        if (!r.everything && r.failing.includes(i)) { failed.push(`${scope.storageTag} ${definition.name}`); throw i % 2 ? new Error("no answer") : "no answer"; }
        const value = definition.valueType === "scalar" ? r.base + i : { [`a${i}`]: r.base, b: n }; const m = { filter: scope.storageTag, name: definition.name, from: period.from.toISOString().slice(0, 10), to: period.to.toISOString().slice(0, 10), value, query: `{"q":${i}}` }; got.push(m); return { value, query: m.query };
      } };
      source.retrieveMetric = async (...a) => (await source.retrieveMetricWithQuery(...a)).value;
      let at = 0, broke = false; sql.fault = (text) => { if (r.fault && text.trim().toLowerCase().startsWith(r.fault[0]) && at++ === r.fault[1]) { broke = true; return "lost connection"; } return undefined; };
      const hadDuplicates = tables().includes("duplicates") ? sql.db.prepare("select * from duplicates").all() : [];
      const s = store(), { value: res } = await capture(() => outcome(() => new MetricCollectionService(source, s, defs).collectAndPersist(scopes, period)));
      await s.close(); sql.fault = undefined;
      if (sql.unsupported) return false;
      same([sql.open, sql.closed], [n + 1, n + 1], "connections closed");
      const at2 = `run ${n + 1}`;
      if (res.error) { must(broke && asked === 0, () => `${at2} failed: ${res.error}`); }
      else {
        same(asked, scopes.length * defs.length, `${at2}: figures asked`);
        same(res.value.metrics.map((m) => [m.scope.storageTag, m.definition.name, m.value]), got.map((m) => [m.filter, m.name, m.value]), `${at2}: the figures got`);
        same(res.value.errors.length, failed.length + (broke ? 1 : 0), `${at2}: errors reported`);
        for (const e of res.value.errors) must(e instanceof Error && e.message, `${at2}: not an error`);
        const names = res.value.errors.map((e) => e.definition && `${e.scope.storageTag} ${e.definition.name}`).filter(Boolean); same(names.sort(), [...failed].sort(), `${at2}: what failed`);
      }
      const rows = tables().includes("key_figures") ? sql.db.prepare("select * from key_figures order by id").all() : [], seen = new Set();
      for (const g of got) { if (!everGot.has(key(g))) everGot.set(key(g), []); everGot.get(key(g)).push(g); }
      for (const row of rows) {
        must(!seen.has(key(row)), () => `${at2}: ${key(row)} is twice in the key figures`); seen.add(key(row));
        const was = saved.get(key(row));
        if (was) same({ ...row }, was, `${at2}: a saved figure changed`);
        else { const g = got.find((x) => key(x) === key(row)); must(g, () => `${at2}: ${key(row)} was not got`); same({ to: row.to, value: JSON.parse(row.value), query: row.query }, { to: g.to, value: g.value, query: g.query }, `${at2}: ${key(row)}`); }
      }
      for (const k of saved.keys()) must(seen.has(k), () => `${at2}: ${k} disappeared`);
      const repeated = got.filter((g) => saved.has(key(g))); if (repeated.length) again = true; if (broke || failed.length) faulty = true;
      if (!broke) {
        for (const g of got) must(seen.has(key(g)), () => `${at2}: ${key(g)} was got but not saved`);
        const dup = tables().includes("duplicates") ? sql.db.prepare("select * from duplicates").all() : [];
        const pick = (x) => [key(x), x.to, typeof x.value === "string" ? JSON.parse(x.value) : x.value, x.query];
        if (repeated.length) same(dup.map(pick).map(show).sort(), repeated.map(pick).map(show).sort(), `${at2}: the duplicates`);
        else same(dup, hadDuplicates, `${at2}: duplicates without any`);
      }
      for (const row of rows) saved.set(key(row), { ...row });
    }
    return again ? (faulty ? "again, after faults" : "again") : faulty ? "faults" : runs.length > 1;
  }, { runs: 1500, thorough: 20000, needs: [MySqlMetricStore, MetricCollectionService], examples: [
    [{ month: 1, scopes: [["road", undefined]], defs: [0, 1, 2], failing: [0], everything: false, fault: undefined, base: 1 }, { month: 1, scopes: [["road", undefined]], defs: [0, 1, 2], failing: [], everything: true, fault: undefined, base: 5 }],
    [{ month: 1, scopes: [["road", undefined]], defs: [0, 1, 2], failing: [], everything: true, fault: ["insert", 1], base: 1 }, { month: 1, scopes: [["road", undefined]], defs: [0, 1, 2], failing: [], everything: true, fault: undefined, base: 5 }],
  ] });

  await prop("retries", fc.record({ attempts: fc.integer({ min: 1, max: 6 }), first: fc.integer({ min: 1, max: 2000 }), most: fc.integer({ min: 1, max: 60000 }), fails: fc.nat(7), how: fc.constantFrom("error", "text", "throw"), default: fc.boolean(), via: fc.boolean() }), async (c) => {
    const clock = fakeClock(NOV.to.getTime());
    try {
      const policy = c.default ? undefined : { maxAttempts: c.attempts, initialDelayMs: c.first, maxDelayMs: c.most }, p = policy ?? DEFAULT_RETRY_POLICY, at = [];
      const fn = () => { at.push(clock.now); const n = at.length; if (n <= c.fails) { if (c.how === "throw") throw new Error(`e${n}`); return Promise.reject(c.how === "text" ? `e${n}` : new Error(`e${n}`)); } return Promise.resolve({ value: n, query: "q" }); };
      const args = [createServiceScope("road"), DEFS[0], NOV];
      const src = new RetryingMetricSource({ retrieveMetricWithQuery: async (...a) => { same(a, args, "arguments"); return fn(); }, retrieveMetric: async (...a) => { same(a, args, "arguments"); return (await fn()).value; } }, policy);
      const r = await driveClock(clock, c.via ? (c.first % 2 ? src.retrieveMetricWithQuery(...args).then((x) => x.value) : src.retrieveMetric(...args)) : (async () => (await executeWithRetry(async () => fn(), policy)).value)());
      must(!r.hung, "never settled");
      same(clock.now, at.at(-1), "waited after the last attempt");
      same(at.length, Math.min(c.fails + 1, p.maxAttempts), "attempts");
      if (c.fails < p.maxAttempts) same(r.value, c.fails + 1, "result"); else same(r.error?.message, `e${p.maxAttempts}`, "the last error");
      const gaps = at.slice(1).map((t, i) => t - at[i]);
      for (const [i, g] of gaps.entries()) { must(g > 0 && (g <= p.maxDelayMs || (i === 0 && g === p.initialDelayMs)), () => `waited ${g} before attempt ${i + 2}: ${show(p)}`); must(i === 0 ? g === p.initialDelayMs : g === Math.min(gaps[i - 1] * 2, p.maxDelayMs), () => `waits ${show(gaps)} with ${show(p)}`); }
      return c.fails > 0;
    } finally { clock.uninstall(); }
  }, { runs: 150, thorough: 1500, needs: [executeWithRetry] });

  // ---------- requests
  const reply = fc.record({ status: fc.constantFrom(200, 200, 200, 201, 204, 301, 304, 400, 403, 404, 503), text: fc.oneof({ weight: 3, arbitrary: fc.record({ count: fc.nat(), name: fc.string({ unit: "grapheme", maxLength: 6 }) }).map((x) => JSON.stringify(x)) }, fc.constantFrom("", "<html>", '{"a":')), cuts: fc.array(fc.nat(60), { maxLength: 4 }), as: fc.constantFrom("buffer", "buffer", "string"), end: fc.constantFrom("end", "end", "end", "error", "refuse", "throw") });
  await prop("requests", fc.record({ replies: fc.array(reply, { minLength: 1, maxLength: 3 }), index: fc.constantFrom("logs-*", "logs-*,afir-*") }), async ({ replies, index }) => {
    const clock = fakeClock(NOV.to.getTime(), ["setTimeout", "clearTimeout", "Date"]); const sent = []; const unhandled = []; const onU = (e) => unhandled.push(e); process.on("unhandledRejection", onU); const listeners = process.listeners("unhandledRejection").filter((l) => l !== onU); for (const l of listeners) process.off("unhandledRejection", l);
    try {
      os.handle = (request) => {
        const r = replies[Math.min(sent.length, replies.length - 1)]; sent.push(request);
        if (r.end === "throw") throw new Error("no route");
        if (r.end === "refuse") return Promise.reject(new Error("ECONNREFUSED"));
        const body = new EventEmitter(), bytes = Buffer.from(r.text), cuts = r.as === "string" ? [] : r.cuts.map((c) => Math.min(c, bytes.length)).sort((a, b) => a - b);
        body.setEncoding = (e) => { body.decoder = e; }; body.resume = () => body; body.destroy = () => {};
        setImmediate(() => { let from = 0; for (const c of [...cuts, bytes.length]) { const part = bytes.subarray(from, c); from = c; if (part.length) body.emit("data", r.as === "string" || body.decoder ? part.toString("utf8") : part); } if (r.end === "error") { if (body.listenerCount("error")) body.emit("error", new Error("aborted")); return; } body.emit("end"); });
        return Promise.resolve({ response: { statusCode: r.status, reason: "why", body } });
      };
      const { value: r } = await capture(() => driveClock(clock, new OpenSearch("os.host", "vpc.host", { accessKeyId: "K", secretAccessKey: "s" }).makeOsQuery(index, "_count", '{"query":{}}'), 14 * 60e3, 400)); // a lambda lives for 15 minutes at most
      await new Promise((f) => setImmediate(f));
      must(sent.length, () => `nothing sent: ${show(r)}`);
      const last = replies[Math.min(sent.length, replies.length) - 1];
      must(!r.hung && clock.now - NOV.to.getTime() < 15 * 60e3, () => `never settled: ${show(last)}`);
      must(!unhandled.length, () => `unhandled: ${unhandled[0]}`);
      for (const q of sent) same([q.method, q.protocol, q.hostname, q.path, q.body, q.headers.host, /^AWS4 K\/eu-west-1\/es/.test(q.headers.authorization)], ["POST", "https", "vpc.host", `/${index}/_count`, '{"query":{}}', "os.host", true], "the request sent");
      let parsed, ok = last.end === "end" && last.status < 300; if (ok) { try { parsed = JSON.parse(last.text); } catch { ok = false; } }
      if (ok) same(r.value, parsed, "the answer"); else must(r.error instanceof Error, () => `${show(last)} gave ${show(r.value)}`);
      return ok ? (last.cuts.length ? "in parts" : "ok") : last.end;
    } finally { clock.uninstall(); process.off("unhandledRejection", onU); for (const l of listeners) process.on("unhandledRejection", l); }
  }, { runs: 500, thorough: 5000, needs: [OpenSearch] });

  // ---------- endpoints
  const path = fc.tuple(fc.array(fc.constantFrom("api", "v1", "trains", "mqtt", "x.JPG", "Öljy"), { minLength: 1, maxLength: 3 }), fc.constantFrom("", "/", "/{id}", "/{id}/x", "/{a}-{b}", "{ext}")).map(([p, e]) => `/${p.join("/")}${e}`);
  await prop("endpoints", fc.record({ paths: fc.dictionary(fc.constantFrom("rail", "road", "marine", "afir"), fc.array(path, { maxLength: 6 })), custom: fc.dictionary(fc.constantFrom("rail", "road", "afir"), fc.array(path.filter((p) => !p.includes("{")), { maxLength: 3 })), broken: fc.subarray(["rail", "road", "marine", "afir"]), how: fc.constantFrom("error", "html", "null", "text") }), async (c) => {
    const urls = new Map(Object.keys(c.paths).map((s) => [s, `https://${s}/openapi.json`])), custom = new Map(Object.entries(c.custom)), asked = [];
    const svc = new EndpointDiscoveryService({ async fetch(url) { asked.push(url); const s = [...urls].find(([, u]) => u === url)[0]; if (c.broken.includes(s)) { if (c.how === "error") throw new Error("404"); if (c.how === "text") throw "404"; return c.how === "html" ? "<html>" : null; } return { openapi: "3.0.1", info: { title: s, version: "1" }, paths: Object.fromEntries(c.paths[s].map((p) => [p, { get: { responses: {} } }])) }; } }, { openApiUrls: urls, customEndpoints: custom });
    const expected = (s) => { const norm = (p) => (p.endsWith("/") ? p : `${p}/`); return [...new Set([...(c.paths[s] ?? []).map((p) => norm(p.split("{")[0])), ...(c.custom[s] ?? []).map(norm)])].sort(); };
    const fails = (s) => c.broken.includes(s) && urls.has(s);
    const realError = console.error; console.error = () => {}; let all; try { all = await outcome(() => svc.discoverAllEndpoints()); } finally { console.error = realError; }
    must(!all.error, () => `one failing service fails all: ${all.error}`);
    same(Object.fromEntries(all.value.map((m) => [m.service, [...m.endpoints].sort()])), Object.fromEntries(["rail", "road", "marine", "afir"].map((s) => [s, fails(s) ? [] : expected(s)])), "all endpoints");
    for (const s of ["rail", "road", "marine", "afir"]) { const r = await outcome(() => svc.discoverEndpoints(s)); if (fails(s)) { must(r.error instanceof Error && r.error.message.includes(urls.get(s)), () => `${s}: ${show(r)}`); continue; } must(!r.error, () => `${s}: ${r.error?.cause ?? r.error}`); same([r.value.service, [...r.value.endpoints].sort()], [s, expected(s)], "endpoints"); }
    return c.broken.some(fails) ? "one fails" : [...urls.keys()].some((s) => expected(s).length > 1);
  }, { runs: 150, thorough: 1500, needs: [EndpointDiscoveryService] });

  await prop("groups", fc.record({ services: fc.uniqueArray(fc.record({ service: fc.constantFrom("rail", "road", "marine"), endpoints: fc.uniqueArray(path, { maxLength: 14 }) }), { minLength: 1, maxLength: 2, selector: (s) => s.service }), total: fc.integer({ min: 1, max: 7 }) }), ({ services, total }) => {
    const input = services.map((s) => ({ service: s.service, endpoints: new Set(s.endpoints) }));
    const plain = (scopes) => scopes.map((s) => `${s.service} ${s.endpoint ?? "-"} ${s.storageTag}`).sort();
    const want = services.flatMap(({ service, endpoints }) => [`${service} - @transport_type:${service}`, ...endpoints.map((e) => `${service} ${e} @transport_type:${service} AND @fields.request_uri:"${e}"`)]).sort();
    same(plain(buildScopes(input)), want, "all at once");
    const groups = Array.from({ length: total }, (_, i) => buildScopes(input, i + 1, total));
    same(plain(groups.flat()), want, `${total} groups together`);
    for (const [i, g] of groups.entries()) { same(plain(buildScopes(services.map((s) => ({ service: s.service, endpoints: new Set([...s.endpoints].reverse()) })), i + 1, total)), plain(g), "the same group in another run"); for (const { service, endpoints } of services) must(g.filter((s) => s.service === service && s.endpoint).length <= Math.ceil(endpoints.length / total), () => `group ${i + 1} of ${total} has more than its share`); }
    return total > 1 && services.some((s) => s.endpoints.length > 1);
  }, { runs: 300, thorough: 3000, needs: [buildScopes] });

  // ---------- the whole run of the lambda
  await prop("lambda", fc.record({ docs: fc.array(doc, { minLength: 5, maxLength: 40 }), now: fc.constantFrom("2026-11-01T00:00:00Z", "2026-11-19T12:00:00Z", "2026-11-30T23:59:59Z"), service: fc.constantFrom(...SERVICES), groups: fc.constantFrom(0, 1, 2, 3), paths: fc.subarray(PATHS.slice(0, 3)), fail: fc.constantFrom(undefined, undefined, undefined, undefined, "openapi", "role") }), async (c) => {
    fresh(); const clock = fakeClock(Date.parse(c.now), ["Date"]); try { return await lambdaRun(c); } finally { clock.uninstall(); }
  }, { runs: 150, thorough: 2000, needs: [handler] });
  async function lambdaRun(c) {
    const docs = c.docs.map(({ service, at, ...d }) => ({ ...d, accountName: d.accountName ?? ACCOUNTS[service], "@timestamp": new Date(at).toISOString(), index: service === "afir" ? "afir-*" : "logs-*" }));
    let odd; const fetched = [], realFetch = globalThis.fetch;
    globalThis.fetch = async (req) => { const url = typeof req === "string" ? req : req.url; fetched.push(url); if (c.fail === "openapi") return new Response("no", { status: 404 }); return new Response(JSON.stringify({ openapi: "3.0.1", info: { title: "t", version: "1" }, paths: Object.fromEntries(c.paths.map((p) => [`${p}/{id}`, {}])) }), { headers: { "content-type": "application/json" } }); };
    os.role = (p) => (c.fail === "role" ? new Error("denied") : undefined);
    os.handle = async (request) => {
      const [, index, method] = request.path.split("/"); const body = new EventEmitter(); must(request.headers.authorization.includes("KEY-arn:role"), "signed with other credentials");
      let text; try { text = JSON.stringify(answer(indices(docs), decodeURIComponent(index), method, request.body)); } catch (e) { odd = e; text = "{}"; }
      setImmediate(() => { body.emit("data", Buffer.from(text)); body.emit("end"); }); return { response: { statusCode: 200, body } };
    };
    try {
      const events = c.groups ? Array.from({ length: c.groups }, (_, i) => ({ TRANSPORT_TYPE: c.service, ENDPOINT_GROUP: i + 1, TOTAL_GROUPS: c.groups })) : [{ TRANSPORT_TYPE: c.service.toUpperCase() }];
      if (c.service === "*") events.splice(1);
      for (const e of events) {
        const { value: r } = await capture(() => outcome(() => handler(e)));
        if (odd instanceof Unsupported || sql.unsupported) return false;
        same(sql.open, sql.closed, "connections left open");
        if (c.fail === "role" || (c.fail === "openapi" && c.service !== "*")) { must(r.error instanceof Error, () => `failed (${c.fail}) but gave ${show(r)}`); must(!tables().length || !sql.db.prepare("select * from key_figures").all().length, "saved though it failed"); } else same([r.error?.message, r.value], [undefined, true], "the result");
      }
      if (c.fail && !(c.fail === "openapi" && c.service === "*")) return c.fail;
      if (odd) throw odd;
      const endpoints = c.service === "*" ? [] : [...new Set([...c.paths.map((p) => `${p}/`), ...createConfigFromEnvironment().endpoints.customEndpoints.get(c.service).map((p) => (p.endsWith("/") ? p : `${p}/`))])];
      const rows = sql.db.prepare("select * from key_figures").all();
      const tag = (e) => (e ? `@transport_type:${c.service} AND @fields.request_uri:"${e}"` : `@transport_type:${c.service}`);
      same(rows.map((r) => `${r.filter} ${r.name}`).sort(), [undefined, ...endpoints].flatMap((e) => DEFS.map((d) => `${tag(e)} ${d.name}`)).sort(), "the figures saved");
      for (const r of rows) {
        same([r.from, r.to], ["2026-10-01", "2026-11-01"], "the month"); const e = endpoints.find((x) => r.filter === tag(x)); if (e && !PATHS.some((p) => `${p}/` === e)) continue; // the analyzer's words for *.JPG are not modelled
        judge(r.name, counted(docs, c.service, e, NOV), JSON.parse(r.value), `${r.name} of ${r.filter}`);
      }
      return c.groups > 1 && c.service !== "*" ? "groups" : true;
    } finally { globalThis.fetch = realFetch; os.role = undefined; }
  }

  await prop("last month", fc.integer({ min: Date.UTC(2024, 0, 1), max: Date.UTC(2032, 0, 1) }), (t) => {
    const clock = fakeClock(t, ["Date"]);
    try { const p = lastMonth(), d = new Date(t), iso = (y, m) => new Date(Date.UTC(y, m, 1)).toISOString(); same([p.from.toISOString(), p.to.toISOString()], [iso(d.getUTCFullYear(), d.getUTCMonth() - 1), iso(d.getUTCFullYear(), d.getUTCMonth())], "the month before"); return d.getUTCMonth() === 0 ? "january" : true; } finally { clock.uninstall(); }
  }, { runs: 100, thorough: 1000, examples: [Date.UTC(2026, 0, 1), Date.UTC(2026, 2, 31)] });
});
