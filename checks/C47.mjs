// C47: the pages of the key figures.
import { DatabaseSync } from "node:sqlite";
import vm from "node:vm";
import { check, fc, must, same, show, outcome } from "#harness";
import { S3Client } from "@aws-sdk/client-s3";
Object.assign(process.env, { MYSQL_ENDPOINT: "db", MYSQL_USERNAME: "u", MYSQL_PASSWORD: "p", MYSQL_DATABASE: "d", BUCKET_NAME: "pages" });
class Unsupported extends Error {}
// ---------- the database: names compare without regard to case, JSON comes as text and a date as a Date
const sql = { db: undefined, fault: undefined, count: 0 };
const date = (d) => { const [y, m, x] = d.split("-").map(Number); return new Date(y, m - 1, x); };
function run(text, values = []) {
  let i = 0; const params = [];
  const s = text.replace(/\?\?|\?/g, (m) => { const v = values[i++]; if (m === "??") return `"${v}"`; return (Array.isArray(v) ? v : [v]).map((x) => { params.push(x instanceof Date ? x.toISOString().slice(0, 10) : x); return "?"; }).join(", "); });
  let rows; try { rows = sql.db.prepare(s).all(...params); } catch (e) { if (/near|function/.test(e.message)) throw new Unsupported(`${e.message}: ${s}`); throw e; }
  return rows.map((r) => Object.fromEntries(Object.entries(r).map(([k, v]) => [k, /^(from|to)$/i.test(k) ? date(v) : k === "id" || v === null || /count/i.test(k) ? v : String(v)])));
}
const query = (text, values, cb) => {
  if (typeof text === "object") { values = typeof values === "function" ? values : text.values; text = text.sql; }
  if (typeof values === "function") { cb = values; values = []; }
  setImmediate(() => { if (sql.fault === sql.count++) { cb(new Error("connection lost")); return; } let rows; try { rows = run(text, values); } catch (e) { cb(e); return; } cb(null, rows, []); });
};
const conn = { query, connect: (cb) => cb?.(null), end: (cb) => cb?.(null), destroy() {}, on() {}, release() {}, getConnection: (cb) => cb(null, conn) };
globalThis.__stubs = { ...globalThis.__stubs, mysql: { default: { createConnection: () => conn, createPool: () => conn }, createConnection: () => conn, createPool: () => conn } };
// ---------- the bucket
const s3 = { objects: new Map(), fault: undefined, count: 0 };
S3Client.prototype.send = async (cmd) => {
  await new Promise((r) => setImmediate(r));
  if (s3.fault === s3.count++) throw new Error("SlowDown");
  const { Bucket, Key, Body, ContentType } = cmd.input ?? cmd.args[0];
  must(Bucket === "pages", () => `a page goes to ${Bucket}`); must(/^text\/html/.test(ContentType ?? ""), () => `${Key} is ${ContentType}`);
  s3.objects.set(Key, Buffer.from(Body).toString("utf8")); return {};
};
const { handler } = await import("#repo/other/os-key-figures/src/lambda/create-visualizations.ts");
// ---------- a browser
/** the inline scripts of a page, where they end as a browser reads them, and the page without them */
function scripts(html) {
  const out = []; let rest = "", i = 0;
  for (;;) {
    const m = /<script\b[^>]*>/i.exec(html.slice(i)); if (!m) return { scripts: out, rest: rest + html.slice(i) };
    rest += html.slice(i, i + m.index); let at = i + m.index + m[0].length; const from = at; let state = 0; // 0 data, 1 escaped, 2 doubly
    for (; at < html.length; at++) {
      const here = html.slice(at, at + 9).toLowerCase();
      if (state === 0 && here.startsWith("<!--")) state = 1;
      else if (state > 0 && here.startsWith("-->")) state = 0;
      else if (state === 1 && /^<script[\s/>]/.test(here)) state = 2;
      else if (/^<\/script[\s/>]/.test(here)) { if (state < 2) break; state = 1; }
    }
    must(at < html.length, () => `a script does not end: ${html.slice(from, from + 200)}`);
    const src = /\ssrc=/i.test(m[0]); if (!src) out.push(html.slice(from, at));
    i = html.indexOf(">", at) + 1;
  }
}
const plain = (t) => t.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&#39;|&#x27;/gi, "'").replace(/&amp;/g, "&");
/** what a page draws: for each element its title and its lines */
function open(key) {
  const html = s3.objects.get(key); must(html !== undefined, () => `no page ${key}`);
  const p = scripts(html), window = {}, charts = new Map(), at = (id) => { if (!charts.has(id)) charts.set(id, { lines: undefined, title: undefined }); return charts.get(id); };
  must(p.scripts.length === 1, () => `${key} has ${p.scripts.length} scripts of its own: ${show(p.scripts.slice(1), 200)}`);
  const element = (id) => { const m = [...p.rest.matchAll(/\sid="([^"]*)"/g)], n = m.findIndex((x) => x[1] === id); must(n >= 0, () => `${key} draws in #${id}, which it does not have`); return p.rest.slice(m[n].index, m[n + 1]?.index); };
  const any = () => { const f = new Proxy(function () {}, { get: (_, k) => (k === Symbol.toPrimitive ? () => "" : f), apply: () => f, construct: () => f }); return f; };
  const select = (s) => { const m = /^#([\w-]+)( div)?( svg)?$/.exec(s); must(m, () => `draws in ${s}`); must(/<svg/.test(element(m[1])), () => `#${m[1]} has nothing to draw in`); let data; const o = { datum: (d) => { data = d; return o; }, data: (d) => { data = d; return o; }, call: () => { must(at(m[1]).lines === undefined, () => `#${m[1]} is drawn twice`); at(m[1]).lines = data; return o; }, attr: () => o, style: () => o, transition: () => o, duration: () => o }; return o; };
  const d3 = new Proxy({ select }, { get: (t, k) => t[k] ?? any() });
  const nv = { models: new Proxy({}, { get: () => () => any() }), addGraph: (f) => (typeof f === "function" ? f() : f.generate()), utils: any() };
  const document = { createElement: () => ({ innerText: "", textContent: "" }), getElementById: (id) => { element(id); return { prepend: (e) => { at(id).title = e.innerText || e.textContent; }, append() {} }; }, querySelector: (s) => document.getElementById(s.slice(1)) };
  window.addEventListener = (_, f) => { window.onload = f; };
  const context = vm.createContext({ window, d3, nv, document, console });
  let json; try { vm.runInContext(p.scripts[0], context, { timeout: 5000 }); must(typeof window.onload === "function", () => `${key} draws nothing`); window.onload(); json = JSON.stringify([...charts]); } catch (e) { must(e?.name === "Violation", () => `the script of ${key} fails: ${e?.message}`); throw e; }
  const links = [...p.rest.matchAll(/<a\s[^>]*href="([^"]*)"[^>]*>([^<]*)<\/a>/g)].map((m) => ({ to: decodeURIComponent(new URL(plain(m[1]), "http://x/index.html").pathname.slice(1)), text: plain(m[2]) }));
  const rows = [...p.rest.matchAll(/<tr>(.*?)<\/tr>/gs)].map((m) => [...m[1].matchAll(/<td>(.*?)<\/td>/gs)].map((c) => plain(c[1].replace(/<[^>]*>/g, "")))).filter((r) => r.length);
  const tables = p.rest.split(/<table>/).slice(1).map((t) => [...t.split("</table>")[0].matchAll(/<tr>(.*?)<\/tr>/gs)].map((m) => [...m[1].matchAll(/<td>(.*?)<\/td>/gs)].map((c) => plain(c[1].replace(/<[^>]*>/g, "")))).filter((r) => r.length));
  return { charts: new Map(JSON.parse(json)), links, rows, tables };
}
// ---------- the figures
const some = (v, freq) => fc.option(v, { nil: undefined, freq }), SERVICES = ["road", "rail", "marine", "afir"];
const PATHS = ["/api/v1/trains/", "/api/v1/train-locations/", "/mqtt/", "/api/traffic-message/v1/", "/api/v1/", "/api/v1/a-b.c_d/"];
const name = fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 0, max: 6 }).map((n) => `user-${n}`) }, { weight: 3, arbitrary: fc.constantFrom("__missing__", "Mozilla/5.0 (X11; Linux) {a}", "https://a.fi/?b=1&c=2", "10.0.0.1", "17", "äö ☂", "a;b//c", "/* a", "$`${x}`", "&lt;", "user-1, values: [[1,2]]") },
  { weight: 2, arbitrary: fc.constantFrom("</script>", "</script ><script>alert(1)</script>", "a</SCRIPT/x", "<!-- <script>", "-->", "__proto__", "constructor", "toString", "hasOwnProperty", "<b>") });
const top = fc.array(fc.tuple(name, fc.integer({ min: 0, max: 1_000_000 })), { maxLength: 5 }).map((e) => [...new Map(e)]);
const n = fc.oneof(fc.constantFrom(0, 1, 999, 1000, 50_000, 50_001, 1_234_567), fc.integer({ min: 0, max: 200_000 }), fc.integer({ min: 0, max: 3_000_000_000 }));
const figures = fc.record({ "Http req": some(n, 8), "Http req 200": some(n, 5), "Bytes out": some(n, 8), "Unique IPs": some(n, 8), "Top 10 digitraffic-users": some(top, 8), "Top 10 IPs": some(top, 8), "Top 10 User Agents": some(top, 8), "Top 10 Referers": some(top, 8), "Top digitraffic-users by bytes": some(top, 5) });
const scope = fc.oneof({ weight: 1, arbitrary: fc.constantFrom("*", ...SERVICES).map((s) => [s]) }, { weight: 2, arbitrary: fc.tuple(fc.constantFrom(...SERVICES), fc.constantFrom(...PATHS)) });
const month = fc.array(fc.record({ scope, figures }), { maxLength: 6 }).map((xs) => [...new Map(xs.map((x) => [x.scope.join(), x])).values()]);
const history = fc.record({ start: fc.integer({ min: 0, max: 30 }), months: fc.array(month, { minLength: 1, maxLength: 4 }), runs: fc.array(fc.boolean(), { maxLength: 4 }), order: fc.integer({ min: 0, max: 3 }) });
const tag = ([s, p]) => (p === undefined ? `@transport_type:${s}` : `@transport_type:${s} AND @fields.request_uri:"${p}"`), label = ([s, p]) => p ?? tag([s]);
const first = (k) => `${2024 + Math.floor(k / 12)}-${String((k % 12) + 1).padStart(2, "0")}-01`;
function fresh() {
  sql.db?.close(); sql.db = new DatabaseSync(":memory:"); sql.fault = undefined; sql.count = 0; s3.objects.clear(); s3.fault = undefined; s3.count = 0;
  sql.db.exec('create table key_figures (id integer primary key, "from" text, "to" text, name text collate nocase, filter text collate nocase, query text, value numeric); create table duplicates as select * from key_figures');
}
const json = (v) => (Array.isArray(v) ? `{${v.map(([k, x]) => `${JSON.stringify(k)}:${x}`).join(",")}}` : String(v));
function save(k, rows) { for (const { scope, figures } of rows) for (const [f, v] of Object.entries(figures)) if (v !== undefined) sql.db.prepare('insert into key_figures ("from", "to", name, filter, query, value) values (?, ?, ?, ?, ?, ?)').run(first(k), first(k + 1), f, tag(scope), "q", json(v)); }
const time = (k) => date(first(k)).getTime();
/** the lines as { name: points }, each name once */
const lines = (c, at) => { must(c?.lines !== undefined, () => `${at} is not drawn`); const names = c.lines.map((l) => l.key); same(names.length, new Set(names).size, `${at}: a line twice: ${show(names)}`); return c.lines.map((l) => [l.key, l.values]).sort((a, b) => (a[0] < b[0] ? -1 : 1)); };
const collect = (m) => [...m].sort((a, b) => (a[0] < b[0] ? -1 : 1));
const add = (m, k, p) => m.set(k, [...(m.get(k) ?? []), p]);
function judge(saved) { // saved: [month number, rows] in order of time
  const scopes = [...new Map(saved.flatMap(([, rows]) => rows.filter((r) => Object.values(r.figures).some((v) => v !== undefined)).map((r) => [tag(r.scope), r.scope]))).values()];
  const values = (sc, f) => saved.flatMap(([k, rows]) => rows.filter((r) => tag(r.scope) === tag(sc) && r.figures[f] !== undefined).map((r) => [time(k), r.figures[f]]));
  const index = open("index.html");
  for (const [id, f] of [["requests", "Http req"], ["bytesOut", "Bytes out"], ["uniqueIPs", "Unique IPs"]])
    same(lines(index.charts.get(id), `index #${id}`), collect(new Map(scopes.filter((s) => s.length === 1).map((s) => [label(s), values(s, f)]).filter(([, v]) => v.length))), `the services' ${f}`);
  for (const s of SERVICES)
    same(lines(index.charts.get(`${s}Endpoints`), `index #${s}Endpoints`), collect(new Map(scopes.filter((x) => x.length === 2 && x[0] === s).map((x) => [label(x), values(x, "Http req").filter(([, v]) => v > 50_000)]).filter(([, v]) => v.length))), `the endpoints of ${s}`);
  const wanted = new Map(SERVICES.map((s) => [s, scopes.filter((x) => x[0] === s)])), left = new Set(scopes.map(tag));
  must(index.tables.length === 4, () => `${index.tables.length} tables`);
  SERVICES.forEach((s, i) => {
    const t = index.tables[i], mine = wanted.get(s);
    same(t.map((r) => r[0]).sort(), mine.map(label).sort(), `the table of ${s}`);
    const counts = t.map(([text, shown]) => { const v = values(mine.find((x) => label(x) === text), "Http req").at(-1)?.[1]; if (v === undefined) { must(!/[1-9]/.test(shown), () => `${text} has no requests saved and shows ${shown}`); return -1; } same(shown, v.toLocaleString("en-US"), `the requests of ${text} last month`); return v; });
    same(counts, [...counts].sort((a, b) => b - a), `the table of ${s}, most requests first`);
  });
  // each page is behind its link, and each scope has a page
  const pageOf = new Map(); let at = 0;
  for (const [s, mine] of SERVICES.map((x) => [x, wanted.get(x)])) for (const _ of mine) { const l = index.links[at++]; pageOf.set(tag(mine.find((x) => label(x) === l.text) ?? [s, "?"]), l.to); }
  const all = index.links.slice(at); must(all.length === 1, () => `${all.length} links besides the tables'`);
  if (left.has("@transport_type:*")) pageOf.set("@transport_type:*", all[0].to);
  same([...pageOf.keys()].sort(), [...left].sort(), "the links"); same(new Set(pageOf.values()).size, pageOf.size, "a page of its own for each");
  for (const sc of scopes) {
    const page = open(pageOf.get(tag(sc))), what = label(sc);
    for (const [id, f, key] of [["requests", "Http req", "Requests"], ["bytesOut", "Bytes out", "Bytes out"], ["uniqueIPs", "Unique IPs", "Unique IPs"]])
      { const c = page.charts.get(id); same(lines(c, `${what} #${id}`), [[key, values(sc, f)]], `${f} of ${what}`); must(c.title?.includes(what), () => `the title of #${id} of ${what}: ${c.title}`); }
    for (const [id, f] of [["top10digitrafficUsers", "Top 10 digitraffic-users"], ["top10IPs", "Top 10 IPs"], ["top10userAgents", "Top 10 User Agents"], ["top10referers", "Top 10 Referers"]]) {
      const m = new Map(); for (const [t, e] of values(sc, f)) for (const [k, v] of e) add(m, k, [t, v]);
      const c = page.charts.get(id); same(lines(c, `${what} #${id}`), collect(m), `${f} of ${what}`); must(c.title?.includes(what), () => `the title of #${id} of ${what}: ${c.title}`);
    }
  }
  return scopes;
}
const supported = (f) => async (x) => { try { return await f(x); } catch (e) { if (e instanceof Unsupported) return false; throw e; } };
const seen = async () => { const r = await outcome(handler); if (r.error instanceof Unsupported) throw r.error; return r; };

await check({ rule: "at least one scope has figures of two months, or a name is not a plain word", assumptions: ["MySQL's collation, JSON and dates are modelled over SQLite: names compare without regard to case, JSON columns come as text and order by number, dates as local midnights", "endpoint paths are Digitraffic's own and have no quotes; names of the top lists have none either (C33)", "d3 and nvd3 are stand-ins that record what they are given; the order of the lines of a chart is free"] }, async ({ prop }) => {
  await prop("pages", history, supported(async (h) => {
    fresh(); const saved = []; let rich = false;
    const months = h.months.map((rows, i) => [h.start + i, rows]); if (h.order === 1) months.reverse(); // an earlier month can be saved later
    for (const [i, [k, rows]] of months.entries()) {
      save(k, rows); saved.push([k, rows]); saved.sort((a, b) => a[0] - b[0]);
      if (!h.runs[i] && i < months.length - 1) continue;
      const r = await seen(); must(!("error" in r), () => `the run fails: ${r.error?.message}`); const scopes = judge(saved);
      rich ||= scopes.some((s) => saved.filter(([, x]) => x.some((y) => tag(y.scope) === tag(s))).length > 1) || /[<_]|proto|constr/.test(JSON.stringify(rows));
    }
    return rich;
  }), { runs: 120, thorough: 2500, needs: [handler] });
  await prop("failures", fc.record({ months: fc.array(month, { minLength: 1, maxLength: 3 }), where: fc.constantFrom("sql", "s3"), nth: fc.integer({ min: 0, max: 60 }) }), supported(async ({ months, where, nth }) => {
    fresh(); const saved = months.map((rows, i) => { save(i, rows); return [i, rows]; });
    (where === "sql" ? sql : s3).fault = nth; const r = await seen(), hit = (where === "sql" ? sql.count : s3.count) > nth;
    must(hit === "error" in r, () => (hit ? "a run that failed says it succeeded" : `fails: ${r.error?.message}`));
    sql.fault = s3.fault = undefined; const again = await seen(); must(!("error" in again), () => `the next run fails: ${again.error?.message}`); judge(saved);
    return hit;
  }), { runs: 60, thorough: 1200, needs: [handler] });
});
