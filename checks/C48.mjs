// C48: what is passed on from another system: published copies and proxied answers.
import { check, fc, must, same, alike, show, outcome, fakeClock, driveClock } from "#harness";
import { secret } from "#harness/app.mjs";
import { S3, S3Client } from "@aws-sdk/client-s3";
import { schema } from "#repo/rail/yearly-plans/src/model/schema.ts";
Object.assign(process.env, { BUCKET_NAME: "lam", YEARLY_PLANS_BUCKET_NAME: "yearly", PROJECT_PLANS_BUCKET_NAME: "project" });
Object.assign(secret, { "tms-history.pisteUrl": "https://lam.example/pisteet?x=1", "tms-history.pistejoukkoUrl": "https://lam.example/joukot", "tms-history.snowflakeApikey": "lam-key", "yp.url": "https://yp.example/api", "yp.apiKey": "yp-key", "vpgw.schedulesAccessToken": "t0ken", "vpgw.schedulesUrl": "https://vts.example/schedules" });
const bucket = { objects: new Map(), fault: undefined, n: 0 };
S3.prototype.send = S3Client.prototype.send = async (cmd) => { await null; const i = cmd.input ?? cmd.args[0]; if (bucket.fault === bucket.n++) throw new Error("SlowDown"); bucket.objects.set(`${i.Bucket}/${i.Key}`, { body: Buffer.from(i.Body).toString("utf8"), type: i.ContentType }); return {}; };
let web; globalThis.fetch = async (req, init) => web(req instanceof Request ? req : new Request(req, init));
const lam = (await import("#repo/road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts")).handler;
const plans = (await import("#repo/rail/yearly-plans/src/lambda/update-plans/update-plans.ts")).handler;
const schedules = (await import("#repo/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts")).handler;
const epc = (await import("#repo/marine/gofrep/src/lambda/receive-epcmessage/receive-epcmessage.ts")).handler;
const timed = async (f) => { const c = fakeClock(); try { return await driveClock(c, f(), 3600e3); } finally { c.uninstall(); } };
// ---------- answers
const good = (body) => body.map((b) => ({ kind: "ok", status: 200, body: b }));
const bad = fc.oneof(fc.constantFrom(400, 401, 404, 410, 429, 500, 502, 503).map((status) => ({ kind: "status", status, body: "no" })), fc.constant({ kind: "down" }), fc.constant({ kind: "hang" }), fc.constant({ kind: "cut" }));
const answer = (a, signal) => {
  if (a.kind === "down") throw new TypeError("fetch failed");
  if (a.kind === "hang") return new Promise((_, rej) => signal?.addEventListener("abort", () => rej(signal.reason ?? new Error("aborted"))));
  if (a.kind === "cut") return new Response(new ReadableStream({ pull(c) { c.enqueue(new TextEncoder().encode('{"items":[')); c.error(new TypeError("terminated")); } }), { status: 200 });
  return new Response(a.body, { status: a.status, headers: { "content-type": "application/json" } });
};
/** each source's answers: the first `flaky` requests of a run get another one */
function serve(sources) {
  const asked = new Map();
  web = async (r) => { const s = sources.find((x) => x.url === r.url); must(s, () => `asks ${r.url}`); must(r.method === "GET", () => `${r.method} ${r.url}`); if (r.headers.get(s.header) !== s.key) return new Response("who are you", { status: 403 }); const n = asked.get(r.url) ?? 0; asked.set(r.url, n + 1); return answer(n < (s.flaky ?? 0) ? s.first : s.answer, r.signal); };
}
// ---------- the plans' schema: documents that follow it, and nearly
const D = schema.definitions, ref = (s) => (s.$ref ? D[s.$ref.split("/").at(-1)] : s);
const DAY = ["2024-02-29", "2025-01-31", "2030-12-01"], TIME = ["2024-02-29T10:00:00Z", "2025-01-31T23:59:59.123+02:00"];
function gen(s0, depth = 0) {
  const s = ref(s0);
  if (s.oneOf) return fc.oneof(...(depth > 16 ? s.oneOf.filter((x) => x.type === "null").concat(s.oneOf).slice(0, 1) : s.oneOf).map((x) => gen(x, depth + 1)));
  if (s.enum) return fc.constantFrom(...s.enum);
  switch (s.type) {
    case "object": return fc.record(Object.fromEntries(Object.entries(s.properties ?? {}).map(([k, v]) => [k, gen(v, depth + 1)])), { requiredKeys: [...(s.required ?? [])].filter((k) => s.properties?.[k]) });
    case "array": { const a = fc.array(gen(s.items ?? {}, depth + 1), { maxLength: depth > 16 ? 0 : depth < 2 ? 3 : 2, size: "max" }); return s.uniqueItems ? a.map((x) => [...new Map(x.map((v) => [JSON.stringify(v), v])).values()]) : a; }
    case "integer": return fc.integer({ min: -1000, max: 1_000_000 });
    case "number": return fc.double({ noNaN: true, noDefaultInfinity: true }).map((x) => (Object.is(x, -0) ? 0 : x));
    case "boolean": return fc.boolean();
    case "null": return fc.constant(null);
    case "string": return s.format === "date" ? fc.constantFrom(...DAY) : s.format === "date-time" ? fc.constantFrom(...TIME) : s.format === "partial-time" ? fc.constantFrom("00:00", "23:59") : fc.oneof(fc.constantFrom("", "äö ☂", "1.2.246.586.2.81.123", "TILI"), fc.string());
    default: return fc.constantFrom(null, 1, "x", {});
  }
}
const type = (v) => (v === null ? "null" : Array.isArray(v) ? "array" : Number.isInteger(v) ? "integer" : typeof v);
const day = (x) => { const m = /^(\d{4})-(\d\d)-(\d\d)$/.exec(x); return !!m && new Date(`${x}T00:00:00Z`).toJSON?.()?.startsWith(x); };
const canon = (v) => JSON.stringify(v, (_, x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort()) : x));
/** what follows the schema, read independently */
function follows(s, v) {
  if (s.$ref && !follows(ref(s), v)) return false;
  const t = type(v);
  if (s.type && !(s.type === t || (s.type === "number" && t === "integer"))) return false;
  if (s.enum && !s.enum.includes(v)) return false;
  if (s.oneOf && s.oneOf.filter((x) => follows(x, v)).length !== 1) return false;
  if (t === "string" && s.format) { if (s.format === "date" && !day(v)) return false; if (s.format === "partial-time" && !/^\d\d:\d\d$/.test(v)) return false; if (s.format === "date-time" && !(day(v.slice(0, 10)) && /^[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)$/i.test(v.slice(10)))) return false; }
  if (t === "object" && ((s.required ?? []).some((k) => v[k] === undefined) || Object.entries(s.properties ?? {}).some(([k, x]) => v[k] !== undefined && !follows(x, v[k])))) return false;
  if (t === "array" && ((s.items && v.some((x) => !follows(s.items, x))) || (s.uniqueItems && new Set(v.map(canon)).size !== v.length))) return false;
  return true;
}
const places = (v, at = []) => [at, ...(v && typeof v === "object" ? Object.keys(v).flatMap((k) => places(v[k], [...at, k])) : [])];
const spoil = fc.record({ where: fc.nat(), how: fc.constantFrom("drop", "null", "text", "number", "object", "array", "double", "badDate", "extra", "format", "clock", "clock") });
function spoiled(doc, x) {
  const d = structuredClone(doc), all = places(d).filter((p) => p.length), p = all[x.where % Math.max(1, all.length)]; if (!p) return d;
  if (x.how === "format" || x.how === "clock") { // a date or a time that is nearly one
    const fit = all.filter((q) => (x.how === "clock" ? /^\d\d:\d\d$/ : /^\d{4}-\d\d-/).test(q.reduce((y, k) => y[k], d))), q = fit[x.where % Math.max(1, fit.length)]; if (!q) return d;
    const o = q.slice(0, -1).reduce((y, k) => y[k], d), v = o[q.at(-1)]; o[q.at(-1)] = [`${v}:00`, ` ${v}`, v.slice(0, -1), v.replace(/\d/, "x"), v.replace(/-\d\d$/, "-32")][x.where % 5]; return d;
  }
  const last = p.at(-1), o = p.slice(0, -1).reduce((y, k) => y[k], d);
  switch (x.how) { case "drop": Array.isArray(o) ? o.splice(Number(last), 1) : delete o[last]; break; case "null": o[last] = null; break; case "text": o[last] = "?"; break; case "number": o[last] = 1.5; break; case "object": o[last] = {}; break; case "array": o[last] = []; break; case "double": if (Array.isArray(o)) o.push(structuredClone(o[last])); break; case "badDate": o[last] = "2023-02-29"; break; default: if (o[last] && typeof o[last] === "object" && !Array.isArray(o[last])) o[last].extra = 1; }
  return d;
}
const planDoc = (name) => fc.tuple(gen(D[name]), fc.option(spoil, { nil: undefined })).map(([d, x]) => JSON.stringify(x ? spoiled(d, x) : d));
const PLANS = [{ url: "https://yp.example/api/yearly-plan", header: "API-Key", key: "yp-key", file: "yearly/yearly-plans.json", def: "YearlyPlanListRedactedDto" }, { url: "https://yp.example/api/project-plan", header: "API-Key", key: "yp-key", file: "project/project-plans.json", def: "ProjectPlanListRedactedDto" }];
const LAM = [{ url: "https://lam.example/pisteet?x=1", header: "x-api-key", key: "lam-key", file: "lam/pisteet.json" }, { url: "https://lam.example/joukot", header: "x-api-key", key: "lam-key", file: "lam/pistejoukot.json" }];
const source = (body) => fc.record({ answer: fc.oneof({ weight: 4, arbitrary: good(body) }, { weight: 1, arbitrary: bad }), first: bad, flaky: fc.oneof({ weight: 4, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 4 }) }) });
const story = (a, b) => fc.array(fc.record({ sources: fc.tuple(source(a), source(b)), s3: fc.oneof({ weight: 5, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.nat({ max: 1 }) }) }), { minLength: 1, maxLength: 4 });
const valid = (f, body) => { if (!f.def) return true; let v; try { v = JSON.parse(body); } catch { return false; } return follows(D[f.def], v); };
const equal = (f, body, got) => { if (!f.def) same(got.body, body, f.file); else { let v; try { v = JSON.parse(got.body); } catch (e) { must(false, () => `${f.file} is not JSON`); } alike(v, JSON.parse(body), f.file); must(/^application\/json/.test(got.type ?? ""), () => `${f.file} is ${got.type}`); } };
async function publish(files, handler, runs) {
  bucket.objects.clear(); let rich = false;
  for (const [i, run] of runs.entries()) {
    const before = new Map(bucket.objects); bucket.fault = run.s3; bucket.n = 0;
    serve(files.map((f, k) => ({ ...f, ...run.sources[k] })));
    const r = await timed(() => handler()); must(!r.hung, () => `run ${i} hangs`);
    const ok = files.map((f, k) => run.sources[k].answer.kind === "ok" && valid(f, run.sources[k].answer.body)), failed = "error" in r;
    for (const [name] of bucket.objects) must(files.some((f) => f.file === name), () => `publishes ${name}`);
    if (!failed) must(ok.every(Boolean) && !(run.s3 < files.length), () => `run ${i} succeeds although ${show(run, 300)}`);
    else must(!ok.every(Boolean) || run.s3 !== undefined || run.sources.some((s) => s.flaky > 0), () => `run ${i} fails: ${r.error?.message}`);
    files.forEach((f, k) => {
      const got = bucket.objects.get(f.file), old = before.get(f.file);
      if (!failed) { must(got, () => `${f.file} is not there`); equal(f, run.sources[k].answer.body, got); }
      else if (got !== old) { must(ok[k], () => `${f.file} is replaced although its source ${show(run.sources[k].answer, 300)}`); equal(f, run.sources[k].answer.body, got); }
    });
    rich ||= !ok.every(Boolean) || (i > 0 && !failed);
  }
  return rich;
}
const NAMES = ["name", "callsign", "imo", "mmsi", "uuid", "locode", "externalID"];
const text = fc.oneof(fc.constantFrom("TALLINK", "M&M", "a=b", "50%", "#1", "a b", "a+b", "Åland", "x?y", "&imo=1", "", "%41", "FI HEL", "/..", "☂"), fc.string());
const ask = fc.record({ auth: fc.constantFrom("t0ken", "t0ken", "t0ken", "t0ken", "t0ke", "t0ken ", "", undefined), none: fc.oneof({ weight: 12, arbitrary: fc.constant(false) }, fc.constant(true)), direction: fc.constantFrom(undefined, undefined, "east", "west", "north", "East", "east/../x"), calculated: fc.constantFrom(undefined, undefined, "true", "false", "1"), params: fc.dictionary(fc.constantFrom(...NAMES), text, { maxKeys: 4 }), other: fc.option(text, { nil: undefined }), answer: fc.oneof({ weight: 4, arbitrary: good(fc.oneof(fc.constantFrom('<?xml version="1.0"?><schedules/>', '<schedules/>\n', "", "äö", " a "), fc.string({ unit: "grapheme" }))) }, bad) });

await check({ rule: "a history in which a published file is replaced, or a source fails or sends what does not follow the schema; a request for schedules that is passed on", assumptions: ["the plans' schema is the one in the repository; int32/int64 are not limited", "numbers in the plans are ones that JSON.parse keeps"] }, async ({ prop }) => {
  await prop("plans", story(planDoc(PLANS[0].def), planDoc(PLANS[1].def)), (runs) => publish(PLANS, plans, runs), { runs: 400, thorough: 6000, needs: [plans] });
  await prop("LAM stations", story(fc.oneof(fc.string({ unit: "grapheme" }), fc.json()), fc.oneof(fc.string({ unit: "grapheme" }), fc.json())), (runs) => publish(LAM, lam, runs), { runs: 120, thorough: 2000, needs: [lam] });
  await prop("schedules", ask, async (c) => {
    const seen = []; web = async (r) => { seen.push(r.url); return answer(c.answer, r.signal); };
    const q = c.none ? null : Object.fromEntries(Object.entries({ auth: c.auth, direction: c.direction, calculated: c.calculated, ...c.params, foo: c.other }).filter(([, v]) => v !== undefined));
    const r = await timed(() => schedules({ queryStringParameters: q })); must(!r.hung, () => "hangs"); const got = r.value;
    if (q?.auth !== "t0ken") { same([got?.statusCode, seen.length], [403, 0], "without the token"); return false; }
    if (c.direction && !["east", "west"].includes(c.direction)) { same([got?.statusCode, seen.length], [400, 0], "an unknown direction"); return false; }
    must(seen.length > 0, () => "nothing is asked");
    for (const u of seen) { const x = new URL(u); same(x.origin + x.pathname, `https://vts.example/schedules${c.direction ? `/${c.direction}` : ""}${c.calculated === "true" ? "/calculated" : ""}`, "what is asked"); must(!x.hash, () => `a hash: ${u}`); same([...x.searchParams].sort(), Object.entries(c.params).sort(), "the parameters"); }
    if (c.answer.kind === "ok") { must(!("error" in r), () => `fails: ${r.error?.message}`); same([got.statusCode, got.body], [200, c.answer.body], "the answer"); }
    else must("error" in r || got.statusCode >= 500, () => `answers ${got?.statusCode} although ${show(c.answer)}`);
    return Object.keys(c.params).length > 0;
  }, { runs: 300, thorough: 5000, needs: [schedules] });
  await prop("EPC message", fc.tuple(fc.integer({ min: 0, max: 4e12 }), fc.constantFrom({}, { EPCMessage: { EPCMessageHeader: { SentTime: "x" } } })), async ([now, m]) => { const c = fakeClock(now, ["Date"]); let r; try { r = await outcome(() => epc(m)); } finally { c.uninstall(); } must(!("error" in r), () => `fails: ${r.error?.message}`); const h = r.value.EPCMessageHeader; same([Object.keys(h).sort(), h.MessageType], [["MessageType", "SentTime", "Version"], 0], "header"); must(/^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$/.test(h.SentTime), () => h.SentTime); same(Date.parse(h.SentTime), now - (now % 1000), "the time sent"); return true; }, { runs: 100, thorough: 1000, needs: [epc] });
});
