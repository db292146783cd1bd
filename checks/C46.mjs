// C46: monitors of OpenSearch: what a composed monitor alarms about, and the deployment that replaces them.
import { check, fc, must, same, show, outcome } from "#harness";
import { secret } from "#harness/app.mjs";
import { mkdirSync, writeFileSync, readFileSync, rmSync } from "node:fs";
import { App } from "aws-cdk-lib";
Object.assign(process.env, { ROLE: "arn:aws:iam::1:role/os", OS_HOST: "os.example", OS_VPC_ENDPOINT: "vpce.example", SECRET_ID: "s" });
let server, sts;
globalThis.__stubs = { ...globalThis.__stubs,
  smithy: {
    NodeHttpHandler: class { handle(r) { return server(r); } }, Sha256: class {}, HttpRequest: class { constructor(o) { Object.assign(this, o); } },
    SignatureV4: class { constructor(o) { this.o = o; } async sign(r) { return { ...r, headers: { ...r.headers, authorization: JSON.stringify([this.o.credentials, this.o.service]) } }; } },
  },
  "@aws-sdk/client-sts": { STS: class { assumeRole(r, cb) { sts(r, cb); } } } };
const B = await import("#repo/other/opensearch-monitors/src/monitor/monitor-builder.ts");
const { opensearchMonitor } = await import("#repo/other/opensearch-monitors/src/monitor/monitor.ts");
const { UpdateOSMonitorsStack } = await import("#repo/other/opensearch-monitors/src/monitor-stack.ts");
const { handler } = await import("#repo/other/opensearch-monitors/src/lambda/update-os-monitors.ts");
Object.assign(secret, { reportUrl: "https://slack.example/report", slackAlarmHook: "https://slack.example/alarm" });
class Unsupported extends Error {}
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v);
// ---------- what OpenSearch makes of a monitor
const words = (s) => String(s ?? "").toLowerCase().split(/[^a-z0-9åäö]+/).filter(Boolean);
const bare = (f) => f.replace(/\.keyword$/, "");
const get = (d, f) => d[bare(f)];
const phrase = (d, f, q) => { const v = get(d, f); if (v === undefined) return false; if (f.endsWith(".keyword")) return String(v) === q; const w = words(v), p = words(q); return p.length > 0 && w.some((_, i) => p.every((x, j) => w[i + j] === x)); };
const quote = (s) => s.replace(/[.+^$()[\]{}|\\/-]/g, "\\$&");
const only = (o) => { const e = Object.entries(o ?? {}); must(e.length, () => "an empty query or order"); if (e.length !== 1) throw new Unsupported(Object.keys(o).join()); return e[0]; };
const arr = (x) => (x === undefined ? [] : Array.isArray(x) ? x : [x]);
const ago = (x, field) => { if (x === null || x === undefined) return undefined; if (field !== "@timestamp") return x; if (x === "now") return 0; const m = /^now-(\d+(?:\.\d+)?)([smh])$/.exec(x); if (!m) throw new Unsupported(String(x)); return -Number(m[1]) * { s: 1 / 60, m: 1, h: 60 }[m[2]]; };
function matches(q, d) {
  const [kind, b] = only(q);
  if (kind === "bool") { const must_ = [...arr(b.must), ...arr(b.filter)], should = arr(b.should); return must_.every((x) => matches(x, d)) && !arr(b.must_not).some((x) => matches(x, d)) && (should.filter((x) => matches(x, d)).length >= (b.minimum_should_match ?? (must_.length ? 0 : should.length ? 1 : 0))); }
  if (kind === "exists") return get(d, b.field) !== undefined;
  if (kind === "multi_match") { if (b.type !== "phrase") throw new Unsupported(b.type); return b.fields.some((f) => phrase(d, f, b.query)); }
  const [f, v] = only(b), val = get(d, f);
  if (kind === "match_phrase") return phrase(d, f, typeof v === "string" ? v : v.query);
  if (kind === "term") return val === (v?.value ?? v);
  if (kind === "prefix") return val !== undefined && String(val).startsWith(typeof v === "string" ? v : v.value);
  if (kind === "wildcard") return val !== undefined && new RegExp(`^${quote(typeof v === "string" ? v : v.value).replaceAll("*", ".*").replaceAll("?", ".")}$`).test(String(val));
  if (kind === "regexp") return val !== undefined && new RegExp(`^(?:${typeof v === "string" ? v : v.value})$`).test(String(val));
  if (kind === "range") {
    const low = ago(v.from ?? v.gte ?? v.gt, f), high = ago(v.to ?? v.lte ?? v.lt, f), exLow = v.gt !== undefined || v.include_lower === false, exHigh = v.lt !== undefined || v.include_upper === false;
    return val !== undefined && (low === undefined || (exLow ? val > low : val >= low)) && (high === undefined || (exHigh ? val < high : val <= high));
  }
  throw new Unsupported(kind);
}
// painless, as far as it reads as JavaScript
const js = (s) => s.replace(/(\d)L\b/g, "$1").replace(/\bdef /g, "let ").replace(/\[(\s*'\w+'\s*:[^\]]*)\]/g, "({$1})").replace(/for\s*\(\s*(?:let )?(\w+)\s+(?:in|:)\s+/g, "for (let $1 of ");
function run(src, args, value = true) { must(typeof src === "string", () => "a script is missing"); let f; try { f = new Function(...Object.keys(args), value ? `return (${js(src)});` : js(src)); } catch (e) { if (value) throw e; throw new Unsupported(src); } return f(...Object.values(args)); }
const weight = (ds) => ds.reduce((n, d) => n + d.times, 0);
function aggregate(aggs, ds) {
  const out = {};
  for (const [name, a] of Object.entries(aggs ?? {})) {
    if (a.scripted_metric) {
      const m = a.scripted_metric, shards = [ds.filter((_, i) => i % 2 === 0), ds.filter((_, i) => i % 2 === 1)];
      const states = shards.map((s) => { const state = {}; run(m.init_script, { state }, false); for (const d of s) for (let i = 0; i < d.times; i++) run(m.map_script, { state, doc: new Proxy({}, { get: (_, f) => { if (typeof f === "string" && d[f] === undefined) throw new Unsupported(f); return { value: d[f] }; } }) }, false); return run(m.combine_script, { state }, true); });
      out[name] = { value: run(m.reduce_script, { states }, false) };
    } else if (a.terms) {
      const by = new Map(); for (const d of ds) { const v = get(d, a.terms.field); if (v !== undefined) by.set(v, [...(by.get(v) ?? []), d]); }
      const inner = Object.entries(a.aggregations ?? a.aggs ?? {}), sel = inner.filter(([, x]) => x.bucket_selector), rest = Object.fromEntries(inner.filter(([, x]) => !x.bucket_selector));
      let buckets = [...by].map(([key, x]) => ({ key, doc_count: weight(x), ...aggregate(rest, x) })).sort((x, y) => y.doc_count - x.doc_count).slice(0, a.terms.size ?? 10);
      for (const [, { bucket_selector: s }] of sel) buckets = buckets.filter((b) => run(s.script, { params: Object.fromEntries(Object.entries(s.buckets_path).map(([k, p]) => { if (p === "_count") return [k, b.doc_count]; const m = /^(\w+)\._bucket_count$/.exec(p); if (!m) throw new Unsupported(p); must(b[m[1]], () => `there is no aggregation ${m[1]} for ${show(s)}`); return [k, b[m[1]].buckets.length]; })) }));
      out[name] = { buckets };
    } else throw new Unsupported(Object.keys(a).join());
  }
  return out;
}
const lookup = (o, path) => path.split(".").reduce((x, k) => (x === undefined || x === null ? undefined : x[k]), o);
const render = (t, o) => t.replace(/\{\{([#^])([^}]+)\}\}([\s\S]*?)\{\{\/\2\}\}/g, (_, k, p, body) => (Boolean(lookup(o, p)) === (k === "#") ? render(body, o) : "")).replace(/\{\{([^}#^/]+)\}\}/g, (_, p) => String(lookup(o, p) ?? ""));
// the alarms that a monitor would send now
function alarms(m, docs) {
  same([m.type, m.monitor_type, m.inputs.length], ["monitor", "query_level_monitor", 1], "the kind of monitor");
  const { indices, query: { query, aggs, sort, size, track_total_hits } } = m.inputs[0].search, hit = docs.filter((d) => matches(query, d)), n = weight(hit), result = { hits: { total: { value: track_total_hits ? n : Math.min(n, 10000) }, hits: [] }, aggregations: aggregate(aggs ?? m.inputs[0].search.query.aggregations, hit) };
  let sorted = [...hit]; for (const s of arr(sort)) { const [f, { order }] = only(s); sorted = sorted.sort((a, b) => (order === "desc" ? b[f] - a[f] : a[f] - b[f])); }
  result.hits.hits = sorted.slice(0, size ?? 10).map((d) => ({ _source: d }));
  const ctx = { results: [result] }, sent = [];
  for (const t of m.triggers) { const q = t.query_level_trigger; must(q.name && q.actions.every((a) => a.name && new Set(q.actions.map((x) => x.name)).size === q.actions.length), () => `unnamed or same-named: ${show(q)}`); for (const a of q.actions) for (const x of [a.subject_template, a.message_template]) same(x.lang ?? "mustache", "mustache", "language of a message"); same(q.condition.script.lang, "painless", "language"); let fires; try { fires = run(q.condition.script.source, { ctx }); } catch (e) { if (e instanceof Unsupported) throw e; must(false, () => `the condition cannot be evaluated: ${q.condition.script.source}: ${e}`); } if (!fires) continue; for (const a of q.actions) sent.push({ to: a.destination_id, subject: render(a.subject_template.source, { ctx }), message: render(a.message_template.source, { ctx }), throttle: a.throttle_enabled ? [a.throttle.value, a.throttle.unit] : "none" }); }
  return { indices, sent, newest: sorted[0], n };
}
// ---------- generators
const VALUES = { level: ["ERROR", "WARN"], app: ["app one", "app", "two"], log_line: ["Connection refused", "timeout", "refused"], logger_name: ["fi.liv.A", "fi.liv.B"], "@log_group": ["group1", "group2"], "@log_stream": ["s1", "s2"], method: ["Save", "Load all"], message: ["error in data", "error", "all well"], "alert.correlation_id": ["c1", "c2", "c3"], httpStatusCode: [200, 404, 500, 503] };
const FIELDS = Object.keys(VALUES);
const doc = fc.record({ at: fc.integer({ min: -70, max: 0 }), env: fc.oneof({ weight: 6, arbitrary: fc.constant("prod") }, fc.constantFrom("test", undefined)), times: fc.oneof({ weight: 8, arbitrary: fc.integer({ min: 1, max: 3 }) }, fc.constant(10001)), bytes: fc.integer({ min: 1, max: 9 }).map((n) => n * 1e8), f: fc.record(Object.fromEntries(FIELDS.map((f) => [f, fc.oneof({ weight: 1, arbitrary: fc.constant(undefined) }, { weight: 6, arbitrary: fc.constantFrom(...VALUES[f]) })]))) })
  .map((d, i) => { const o = { "@timestamp": d.at, times: d.times, bytes: d.bytes }; if (d.env) o.env = d.env; for (const [k, v] of Object.entries(d.f)) if (v !== undefined) o[k] = v; return o; });
const text = FIELDS.filter((f) => f !== "httpStatusCode");
const fv = fc.constantFrom(...text).chain((f) => fc.tuple(fc.constant(f), fc.constantFrom(...VALUES[f])));
// each is a query and, beside it, what it means
const leaf = fc.oneof(
  fv.map(([f, v]) => ({ q: B.matchPhrase(f, v), is: (d) => phrase(d, f, v) })),
  fv.map(([f, v]) => ({ q: B.matchPrefix(f, v.slice(0, 3)), is: (d) => d[f] !== undefined && d[f].startsWith(v.slice(0, 3)) })),
  fc.tuple(fc.constantFrom(...text), fv, fc.boolean()).map(([g, [f, v], one]) => ({ q: B.multiMatchPhrase(one ? f : [g, f], v), is: (d) => phrase(d, f, v) || (!one && phrase(d, g, v)) })),
  fv.map(([f, v]) => ({ q: B.matchWildcardPhrase(f, `*${v.slice(1)}`), is: (d) => d[f] !== undefined && d[f].endsWith(v.slice(1)) })),
  fv.map(([f, v]) => ({ q: B.matchRegExpPhrase(f, `${v[0]}.*`), is: (d) => d[f] !== undefined && d[f].startsWith(v[0]) })),
  fc.constantFrom(...FIELDS).map((f) => ({ q: B.exists(f), is: (d) => d[f] !== undefined })),
  fc.tuple(fc.constantFrom(200, 404, 500), fc.constantFrom(404, 500, 503, null)).map(([a, b]) => ({ q: B.matchRange("httpStatusCode", a, b), is: (d) => d.httpStatusCode >= a && (b === null || d.httpStatusCode <= b) })),
);
const query = fc.oneof({ weight: 3, arbitrary: leaf }, fc.array(leaf, { minLength: 1, maxLength: 3 }).map((l) => ({ q: B.or(...l.map((x) => x.q)), is: (d) => l.some((x) => x.is(d)) })));
const SHORT = { level: "level", logLine: "log_line", app: "app", loggerName: "logger_name", logGroup: "@log_group", logStream: "@log_stream" };
const step = fc.oneof(
  fc.constantFrom(...Object.keys(SHORT)).chain((m) => fc.constantFrom(...VALUES[SHORT[m]]).map((v) => ({ kind: "and", on: (b) => b[m](v), is: (d) => phrase(d, SHORT[m], v) }))),
  fv.map(([f, v]) => ({ kind: "and", on: (b) => b.match(f, v), is: (d) => phrase(d, f, v) })),
  fc.array(query, { minLength: 1, maxLength: 2 }).map((l) => ({ kind: "and", on: (b) => b.and(...l.map((x) => x.q)), is: (d) => l.every((x) => x.is(d)) })),
  fc.array(query, { minLength: 1, maxLength: 2 }).map((l) => ({ kind: "not", on: (b) => b.not(...l.map((x) => x.q)), is: (d) => l.some((x) => x.is(d)) })),
  fc.integer({ min: 1, max: 80 }).map((n) => ({ kind: "minutes", n, on: (b) => b.minutes(n) })),
  fc.integer({ min: 0, max: 20 }).map((n) => ({ kind: "delay", n, on: (b) => b.delay(n) })),
  fc.tuple(fc.constantFrom("Newest {{ctx.results.0.hits.hits.0._source.method}}!", "look"), rare(fc.constant("https://os.example/q?a=1&b=$1"), 1)).map(([s, l]) => ({ kind: "message", text: l ? `${s} <${l}|Opensearch>` : s, on: (b) => b.withMessage(s, l) })),
);
const num = fc.oneof(fc.nat(12), fc.constantFrom(10000, 20000));
const agg = fc.record({ field: fc.constantFrom("app", "level", "logger_name", "alert.correlation_id.keyword", "method"), name: rare(fc.constantFrom("by", "counted"), 1), filter: rare(fc.nat(4), 1), inner: rare(fc.constantFrom("level", "app"), 1), innerLeast: rare(fc.constantFrom(1, 2), 2) });
const trigger = fc.oneof(
  { weight: 1, arbitrary: fc.constant({ kind: "default" }) }, { weight: 2, arbitrary: rare(num, 1).map((t) => ({ kind: "more", t })) }, { weight: 2, arbitrary: fc.tuple(fc.constantFrom("more", "range", "sum"), fc.integer({ min: -1, max: 1 }), fc.nat(2), fc.boolean()).map(([kind, d, w, low]) => ({ kind, near: low ? [d, d + w] : [d - w, d] })) }, { weight: 2, arbitrary: fc.tuple(num, num).map(([a, b]) => ({ kind: "range", a: Math.min(a, b), b: Math.max(a, b) })) }, { weight: 1, arbitrary: fc.constant({ kind: "always" }) },
  { weight: 2, arbitrary: fc.tuple(agg, rare(fc.nat(3), 1)).map(([a, t]) => ({ kind: "agg", a, t })) }, { weight: 2, arbitrary: fc.tuple(fc.nat(30), fc.nat(30)).map(([a, b]) => ({ kind: "sum", a: Math.min(a, b) * 100, b: Math.max(a, b) * 100 })) });
const monitor = fc.record({ name: fc.constantFrom("errors RUNBOOK-A1", "errors", "Jäätymässä RUNBOOK-B22 and RUNBOOK-C3", "too many"), steps: fc.array(step, { maxLength: 5, size: "max" }), trigger, late: fc.boolean() });
const config = fc.record({ domain: fc.constantFrom("marine", "road"), env: fc.constantFrom("prod", "prod", "test"), index: fc.constantFrom("dt-logs-*", "cf"), cron: fc.constantFrom("*/5 * * * *", "0 5 * * 1"), rangeInMinutes: fc.integer({ min: 1, max: 70 }), delayInMinutes: rare(fc.integer({ min: 0, max: 10 }), 2), slackDestinations: fc.uniqueArray(fc.constantFrom("d1", "d2", "d3"), { minLength: 1 }), throttleMinutes: fc.integer({ min: 1, max: 600 }), messageSubject: fc.constantFrom("see log", "{{ctx.results.0.hits.hits.0._source.message}}"), runbookSearchLink: fc.constant("https://wiki.example/search?q=SEARCH_TERM&x=1") });
const setting = fc.record({ config, base: fc.array(leaf, { maxLength: 1 }), monitors: fc.array(monitor, { minLength: 1, maxLength: 3, size: "max" }) });
const aggName = (a) => a.name ?? a.field.replaceAll(".", "_");
const innerOf = (a) => (a.inner ? B.aggregateTerms(a.inner, { name: "inner" }) : undefined);
function compose(m, config) {
  let b = new B.OsMonitorBuilder(m.name, config); const t = m.trigger.near ? { ...m.trigger, t: 0, a: 0, b: 100 } : m.trigger, steps = m.steps.filter((s) => s.kind !== "message"), texts = m.steps.filter((s) => s.kind === "message"), put = () => {
    if (t.kind === "more") b = b.moreThan(t.t); if (t.kind === "range") b = b.notInRange(t.a, t.b); if (t.kind === "always") b = b.always(); if (t.kind === "sum") b = b.sum("bytes", t.a, t.b);
    if (t.kind === "agg") { const a = t.a, filters = a.filter !== undefined ? { name: "enough", bucketPaths: a.inner && a.innerLeast ? { n: "_count", k: "inner._bucket_count" } : { n: "_count" }, script: a.inner && a.innerLeast ? `params.n > ${a.filter} && params.k >= ${a.innerLeast}` : `params.n > ${a.filter}` } : undefined; b = b.aggregate(B.aggregateTerms(a.field, { ...(a.name && { name: a.name }), ...(filters && { bucketFilter: filters }), ...(a.inner && { innerAggregate: innerOf(a) }) })); b = b.aggregationBucketsMoreThan(aggName(a), t.t); }
  };
  for (const s of texts) b = s.on(b); if (!m.late) put(); for (const s of steps) b = s.on(b); if (m.late) put();
  const built = b.build(); same(b.build(), built, "built twice"); return built;
}
function expected(m, o, docs) {
  const { config } = o, last = (k, d) => m.steps.filter((s) => s.kind === k).at(-1)?.n ?? d, range = last("minutes", config.rangeInMinutes), delay = last("delay", config.delayInMinutes);
  const hit = docs.filter((d) => d["@timestamp"] >= -range && (delay === undefined || d["@timestamp"] <= -delay) && d.env === config.env && o.base.every((x) => x.is(d)) && m.steps.every((s) => (s.kind === "and" ? s.is(d) : s.kind === "not" ? !s.is(d) : true)));
  const n = weight(hit), t = m.trigger; let fires, told = [n];
  if (t.kind === "default" || t.kind === "more") { fires = n > (t.t ?? 0); told.push(t.t ?? 0); }
  if (t.kind === "range") { fires = n < t.a || n > t.b; told.push(t.a, t.b); }
  if (t.kind === "always") { fires = true; told = []; }
  if (t.kind === "sum") { const mb = hit.reduce((s, d) => s + d.bytes * d.times, 0) / 1e6; fires = mb < t.a || mb > t.b; told = [mb, mb / 1000, t.a, t.b, t.a / 1000, t.b / 1000]; }
  if (t.kind === "agg") { const by = new Map(); for (const d of hit) { const v = d[bare(t.a.field)]; if (v !== undefined) by.set(v, [...(by.get(v) ?? []), d]); } let k = [...by.values()]; if (t.a.filter !== undefined) k = k.filter((ds) => weight(ds) > t.a.filter && (!(t.a.inner && t.a.innerLeast) || new Set(ds.map((d) => d[t.a.inner]).filter((x) => x !== undefined)).size >= t.a.innerLeast)); fires = k.length > (t.t ?? 0); told = [k.length, t.t ?? 0]; }
  return { fires, n, told, hit };
}
const make = (o) => { const config = { ...o.config, phrases: o.base.map((x) => x.q) }, was = JSON.stringify(config), monitors = o.monitors.map((m) => compose(m, config)); same(JSON.stringify(config), was, "the shared settings after composing"); return monitors; };
const supported = async (f) => { try { return await f(); } catch (e) { if (e instanceof Unsupported) return false; throw e; } };
const dir = "./dist/lambda/update-os-monitors"; mkdirSync(dir, { recursive: true }); mkdirSync("./cdk.out", { recursive: true });

await check({
  rule: "a monitor is non-trivial if some of the log lines match it, a deployment if there are monitors to replace or add",
  assumptions: ["OpenSearch, its alerting and Slack are models; Painless is evaluated as far as it reads as JavaScript, other scripts decide nothing", "the answers of OpenSearch are consistent at once, and there are at most 200 monitors", "names of monitors differ", "sums are of the field bytes"],
}, async ({ prop }) => {
  await prop("alarms", fc.record({ o: setting, docs: fc.array(doc, { minLength: 3, maxLength: 14, size: "max" }) }), ({ o, docs: raw }) => supported(() => {
    const docs = raw.map((d, i) => ({ ...d, "@timestamp": d["@timestamp"] - i / 1000 })); if (o.monitors.some((m) => m.trigger.kind === "sum")) for (const d of docs) d.times = Math.min(d.times, 3);
    // limits at and beside what there is
    o = { ...o, monitors: o.monitors.map((m) => { const { near, kind } = m.trigger; if (!near) return m; const { hit } = expected({ ...m, trigger: { kind: "always" } }, o, docs), n = kind === "sum" ? hit.reduce((x, d) => x + d.bytes * d.times, 0) / 1e6 : weight(hit), [a, b] = near.map((x) => Math.max(0, n + x * (kind === "sum" ? 50 : 1))); return { ...m, trigger: kind === "more" ? { kind, t: a } : { kind, a, b } }; }) };
    const monitors = make(o); let seen = false;
    o.monitors.forEach((m, i) => {
      const sent = JSON.parse(JSON.stringify(opensearchMonitor(monitors[i]))), e = expected(m, o, docs), got = alarms(sent, docs), what = `${show(sent)} with ${show(docs)}`; if (e.n) seen = true;
      same([got.n, got.indices], [e.n, [o.config.index]], `lines and index of ${what}`);
      same(got.sent.map((s) => s.to), e.fires ? o.config.slackDestinations : [], `alarms of ${show(m.trigger)}: ${what}`);
      must(sent.name.startsWith(`${o.config.domain.toUpperCase()} ${o.config.env.toUpperCase()} `) && sent.name.endsWith(m.name), () => `name ${sent.name}`);
      same([sent.schedule.cron.expression, sent.schedule.cron.timezone], [o.config.cron, "UTC"], "schedule");
      const text = m.steps.filter((s) => s.kind === "message").at(-1)?.text ?? o.config.messageSubject, implicit = m.trigger.kind === "default" && m.steps.some((s) => s.kind === "message");
      for (const s of got.sent) {
        same(s.throttle, [o.config.throttleMinutes, "MINUTES"], "throttling");
        if (!implicit) same(s.message.trim(), render(text, { ctx: { results: [{ hits: { hits: e.hit.length ? [{ _source: [...e.hit].sort((a, b) => b["@timestamp"] - a["@timestamp"])[0] }] : [] } }] } }).trim(), `message of ${what}`);
        const numbers = (s.subject.match(/-?\d+(?:\.\d+)?(?:e[+-]?\d+)?/g) ?? []).map(Number); for (const n of e.told) must(numbers.includes(n), () => `${n} is not told in ${s.subject}`);
        for (const r of m.name.match(/RUNBOOK-\w+/g) ?? []) must(s.subject.includes(`<${o.config.runbookSearchLink.replace("SEARCH_TERM", r)}|${r}>`), () => `no link to ${r} in ${s.subject}`);
        same([":red_circle:", ":large_green_circle:"].filter((c) => s.subject.includes(c)), [m.trigger.kind === "always" && !e.n ? ":large_green_circle:" : ":red_circle:"], `colour of ${s.subject}`);
      }
    });
    return seen && o.monitors.map((m) => m.trigger.kind).sort().join("+");
  }), { runs: 700, thorough: 8000, needs: [B.OsMonitorBuilder, opensearchMonitor] });

  const old = fc.record({ name: fc.integer({ min: 0, max: 5 }), own: fc.boolean() });
  await prop("deployments", fc.record({ o: setting, none: rare(fc.constantFrom([], null), 8), slow: fc.tuple(fc.nat(4), fc.nat(4)), old: fc.oneof({ weight: 6, arbitrary: fc.array(old, { maxLength: 6 }) }, fc.array(old, { minLength: 12, maxLength: 30, size: "max" })), runs: fc.integer({ min: 1, max: 2 }), cut: fc.integer({ min: 1, max: 40 }), fail: fc.oneof({ weight: 3, arbitrary: fc.constant([]) }, fc.array(fc.record({ kind: fc.constantFrom("search", "delete", "add", "check"), at: fc.nat(4), how: fc.constantFrom(400, 403, 500, "network", "text", "lost") }), { minLength: 1, maxLength: 3 }), fc.tuple(fc.nat(1), fc.nat(1)).map(([d, a]) => [{ kind: "delete", at: d, how: 403 }, { kind: "add", at: a, how: 403 }])), role: rare(fc.constantFrom("error", "empty"), 12), slack: rare(fc.constantFrom(404, "network"), 8) }), (o) => supported(async () => {
    const settings = { ...o.o, monitors: o.o.monitors.map((m, i) => ({ ...m, name: `${m.name} ${i}` })) }, monitors = o.none !== undefined ? o.none : make(settings);
    writeFileSync("./monitors.json", JSON.stringify(monitors)); const names = (monitors ?? []).map((m) => m.name), table = new Map(); let id = 0;
    for (const x of o.old) table.set(`m${id++}`, { name: x.own && names.length ? names[x.name % names.length] : `OLD ${x.name} pitkä öinen`, old: true });
    for (let r = 0; r < o.runs; r++) {
      const calls = [], posts = [], count = {}; let searches = 0, faulty = false;
      sts = (req, cb) => { same(req.RoleArn, process.env.ROLE, "assumed role"); setImmediate(() => (o.role === "error" ? cb(new Error("denied")) : o.role === "empty" ? cb(null, {}) : cb(null, { Credentials: { AccessKeyId: "ak", SecretAccessKey: "sk", SessionToken: "st" } }))); };
      server = async (q) => {
        const search = q.path.endsWith("/_search"), kind = search ? (searches++ ? "check" : "search") : q.method === "DELETE" ? "delete" : "add", nth = count[kind] = (count[kind] ?? -1) + 1; calls.push(kind);
        same([q.hostname, q.headers.host, q.headers.authorization, q.protocol], ["vpce.example", "os.example", JSON.stringify([{ accessKeyId: "ak", secretAccessKey: "sk", sessionToken: "st" }, "es"]), "https"], "request"); must(q.path.startsWith("/_plugins/_alerting/monitors/"), () => q.path);
        const f = o.fail.find((x) => x.kind === kind && (search || x.at === nth)); if (f) faulty = true;
        const answer = (status, body) => { const bytes = Buffer.from(typeof body === "string" ? body : JSON.stringify(body)), parts = []; for (let i = 0; i < bytes.length; i += o.cut) parts.push(bytes.subarray(i, i + o.cut)); const on = {}; let enc; const go = () => setImmediate(() => { const dec = enc && new TextDecoder(); for (const p of parts) for (const h of on.data ?? []) h(dec ? dec.decode(p, { stream: true }) : p); for (const h of [...(on.end ?? []), ...(on.close ?? [])]) h(); }); let going = false; const body_ = { statusCode: status, on(e, h) { (on[e] ??= []).push(h); if (e === "end" && !going) { going = true; go(); } return body_; }, once(e, h) { return body_.on(e, h); }, setEncoding(e) { enc = e; return body_; }, async *[Symbol.asyncIterator]() { const dec = enc && new TextDecoder(); for (const p of parts) yield dec ? dec.decode(p, { stream: true }) : p; }, resume() { return body_; }, destroy() {} }; return { response: { statusCode: status, headers: {}, body: body_ } }; };
        for (let i = 0; i < (kind === "add" ? o.slow[0] : kind === "delete" ? o.slow[1] : 0); i++) await new Promise((done) => setImmediate(done));
        if (f?.how === "network") throw Object.assign(new Error("reset"), { code: "ECONNRESET" });
        if (typeof f?.how === "number") return answer(f.how, { error: { reason: "no" }, status: f.how });
        let out;
        if (search) { const b = JSON.parse(q.body); same(q.method, "POST", "search"); const others = JSON.stringify(b.query ?? {}).includes("monitor") ? [] : [{ _id: "d1", _source: { name: "a destination" } }], all = [...others, ...[...table].map(([k, v]) => ({ _id: k, _source: { name: v.name } }))].slice(0, b.size ?? 10); out = [200, { hits: { total: { value: table.size }, hits: all } }]; }
        else if (kind === "delete") { const k = q.path.slice("/_plugins/_alerting/monitors/".length); must(table.has(k), () => `deletes ${q.path}`); table.delete(k); out = [200, { result: "deleted" }]; }
        else { same([q.method, q.path.replace(/\/$/, "")], ["POST", "/_plugins/_alerting/monitors"], "adding"); must(!faulty && !o.fail.length ? [...table.values()].every((v) => !v.old || v.kept) : true, () => "a monitor is added while old ones remain"); const b = JSON.parse(q.body); table.set(`m${id++}`, { name: b.name, body: b }); out = [201, { _id: `m${id - 1}`, monitor: b }]; }
        if (f?.how === "lost") throw new Error("socket hang up"); if (f?.how === "text") return answer(out[0], "<html>"); return answer(...out);
      };
      globalThis.fetch = async (req, init) => { const q = req instanceof Request ? req : new Request(req, init); posts.push([q.url, (await q.json()).text]); if (o.slack === "network") throw new Error("no route"); return new Response("ok", { status: o.slack ?? 200 }); };
      const was = [...table], res = await outcome(() => handler()), ok = !("error" in res), what = `${show(o.fail)}, role ${o.role}: ${res.error} with ${show([...table.values()].map((v) => v.name))} for ${show(names)}`;
      if (!monitors?.length) { same([ok, calls.length, [...table].length], [true, 0, was.length], "a deployment of nothing"); return "none"; }
      if (!faulty && !o.role) must(ok, () => `a deployment without failures fails: ${what}`); if (o.role) must(!ok && !calls.length, () => `without a role: ${what}`);
      same(posts.map((p) => p[0]), [ok ? secret.reportUrl : secret.slackAlarmHook], `notifications of ${what}`); if (ok) must(posts[0][1].includes(String(monitors.length)), () => posts[0][1]);
      if (ok) { same([...table.values()].map((v) => v.name).sort(), [...names].sort(), `monitors after a deployment reported as done: ${what}`); for (const v of table.values()) same(v.body, JSON.parse(JSON.stringify(opensearchMonitor(monitors.find((m) => m.name === v.name)))), `the monitor ${v.name} after ${what}`); }
      if (!o.role && names.length && faulty && o.fail.every((f) => f.kind === "delete" || f.kind === "check")) must(names.every((n) => [...table.values()].some((v) => v.name === n && v.body)), () => `a monitor was not added because another could not be removed: ${what}`);
      for (const v of table.values()) v.old = true; if (!ok && r + 1 < o.runs) { o = { ...o, fail: [], role: undefined }; }
    }
    return `${o.old.length ? "replaced" : "added"}${o.fail.length ? " with failures" : ""}`;
  }), { runs: 400, thorough: 4000, needs: [handler] });

  await prop("stacks", fc.record({ o: setting, createLambda: fc.boolean(), role: fc.constantFrom("arn:aws:iam::2:role/a", "arn:aws:iam::3:role/b") }), (o) => {
    rmSync(`${dir}/monitors.json`, { force: true }); writeFileSync(`${dir}/update-os-monitors.js`, "");
    const monitors = make(o.o), stack = new UpdateOSMonitorsStack(new App(), "S", { env: { account: "111111111111", region: "eu-west-1" }, vpcId: "vpc-1", osRoleArn: o.role, osHost: "h.example", osVpcEndpoint: "e.example", createLambda: o.createLambda, monitors, secretId: "sec" });
    const all = Object.entries(stack.resolve(stack._toCloudFormation()).Resources), of = (t) => all.filter(([, r]) => r.Type === t), fns = of("AWS::Lambda::Function").filter(([, r]) => r.Properties.FunctionName === "UpdateOSMonitors");
    same([of("AWS::EC2::SecurityGroup").length, fns.length], [2, o.createLambda ? 1 : 0], "security groups and functions"); if (!o.createLambda) return false;
    same(JSON.parse(readFileSync(`${dir}/monitors.json`)), JSON.parse(JSON.stringify(monitors)), "monitors given to the function");
    const p = fns[0][1].Properties; same(Object.fromEntries(["ROLE", "OS_HOST", "OS_VPC_ENDPOINT", "SECRET_ID"].map((k) => [k, p.Environment.Variables[k]])), { ROLE: o.role, OS_HOST: "h.example", OS_VPC_ENDPOINT: "e.example", SECRET_ID: "sec" }, "environment of the function");
    const statements = of("AWS::IAM::Policy").filter(([, r]) => r.Properties.Roles.some((x) => JSON.stringify(x) === JSON.stringify({ Ref: p.Role["Fn::GetAtt"][0] }))).flatMap(([, r]) => r.Properties.PolicyDocument.Statement);
    same(statements.filter((s) => arr(s.Action).includes("sts:AssumeRole")).map((s) => [s.Effect, arr(s.Resource)]), [["Allow", [o.role]]], "the role that may be assumed"); must(statements.some((s) => arr(s.Action).includes("secretsmanager:GetSecretValue")), () => "the secret cannot be read");
    const [own] = of("AWS::EC2::SecurityGroup").filter(([k]) => JSON.stringify(p.VpcConfig.SecurityGroupIds).includes(k)).map(([k]) => k), inline = of("AWS::EC2::SecurityGroup").flatMap(([, r]) => arr(r.Properties.SecurityGroupIngress)), open = [...of("AWS::EC2::SecurityGroupIngress").map(([, r]) => r.Properties), ...inline]; must(own, () => "no group"); must(open.some((x) => x.SourceSecurityGroupId && JSON.stringify(x.SourceSecurityGroupId).includes(own)), () => `the function cannot reach OpenSearch: ${show(open)}`);
    same(open.filter((x) => x.CidrIp || x.CidrIpv6), [], "openings to others");
    return "deployed";
  }, { runs: 25, thorough: 150, needs: [UpdateOSMonitorsStack] });
});
