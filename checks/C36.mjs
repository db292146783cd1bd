// C36: counting sites: Eco-Counter's sites and counts in the tables and in the public API.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
process.env.DOMAIN_NAME = "Fintraffic";
const { handler: updateData } = await import("#repo/road/counting-site/src/lambda/update-data/update-data.ts");
const { handler: updateMetadata } = await import("#repo/road/counting-site/src/lambda/update-metadata/update-metadata.ts");
const { handler: getSites } = await import("#repo/road/counting-site/src/lambda/get-sites/get-sites.ts");
const { handler: getValues } = await import("#repo/road/counting-site/src/lambda/get-values/get-values.ts");
const { handler: getCsv } = await import("#repo/road/counting-site/src/lambda/get-values-csv/get-values-csv.ts");
const MIN = 60e3, HOUR = 3600e3, DAY = 86400e3;
const stamp = (ms) => (ms === null ? null : `${new Date(Number(ms)).toISOString().slice(0, 19)}Z`);
const schema = `
create table cs2_site(id integer primary key, name text not null, description text, domain text not null, custom_id text, latitude real not null, longitude real not null, granularity text, directional integer not null, travel_modes text not null, removed_timestamp integer, last_data_timestamp integer, created integer, modified integer);
create table cs2_data(site_id integer not null, travel_mode text not null, direction text not null, data_timestamp integer not null, granularity text not null, counts integer not null, created integer, modified integer);
create trigger t1 after insert on cs2_site begin update cs2_site set modified = pg_now() where id = new.id and new.modified is null; end;
create trigger t2 after update of name, description, custom_id, latitude, longitude, granularity, directional, travel_modes, removed_timestamp, last_data_timestamp on cs2_site begin update cs2_site set modified = pg_now() where id = new.id; end;
create trigger t3 after insert on cs2_data begin update cs2_data set modified = pg_now() where rowid = new.rowid and new.modified is null; end;
create table data_updated(id integer, data_type text not null, subtype text not null default '-', updated integer, unique(data_type, subtype));`;
let nowMs = 0;
const pg = await new PgLite({ schema, now: () => nowMs, functions: { to_char: stamp, st_point: (x, y) => JSON.stringify({ type: "Point", coordinates: [x, y] }), st_asgeojson: (g) => g }, types: { collection: "json", removed_timestamp: "ts", last_data_timestamp: "ts", data_timestamp: "ts", modified: "ts", updated: "ts", directional: "bool", travel_modes: "textarr" } }).start();
pg.rewrites.push([/array\[([^\]]*)\]/gi, "json_array($1)"], [/coalesce\(\s*json_group_array\(/i, "json(json_group_array("], [/,\s*\u0001\d+\u0001\s*\)\s*\)\s*as\s+collection/i, "))\n as collection"], [/st_asgeojson\(st_point\(longitude, latitude\)\)/i, "json(st_asgeojson(st_point(longitude, latitude)))"], [/,\s*travel_modes,/gi, ", json(travel_modes),"]);
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host, "cs.url": "https://eco.example", "cs.apiKey": "K&1" });
let web; globalThis.fetch = async (req, init) => web(req instanceof Request ? req : new Request(req, init));
const json = (o, status = 200) => new Response(JSON.stringify(o), { status });
const some = (v, freq) => fc.option(v, { nil: undefined, freq });
const iso = (ms) => new Date(ms).toISOString();

// ---------- Eco-Counter: its requests are in the time of Helsinki
const lastSunday = (y, m) => { const d = new Date(Date.UTC(y, m + 1, 0)); d.setUTCDate(d.getUTCDate() - d.getUTCDay()); return d.getTime() + HOUR; };
const summer = (ms) => { const y = new Date(ms).getUTCFullYear(); return ms >= lastSunday(y, 2) && ms < lastSunday(y, 9); };
const helsinki = (date, time) => { const w = Date.parse(`${date}T${time}:00Z`); return summer(w - 3 * HOUR) ? w - 3 * HOUR : w - 2 * HOUR; };
const MODES = ["bike", "pedestrian", "car"], DIRS = ["in", "out", "undefined"];
const STEP = { PT15M: 15 * MIN, PT1H: HOUR, P1D: DAY };
// what a series counts at an instant: fixed for ever, so two answers about one instant agree
function points(series, from, to) { const out = [], st = STEP[series.granularity]; for (let t = Math.ceil(from / st) * st; t <= to; t += st) if (!series.gaps.some(([a, b]) => t >= a && t < b)) out.push({ timestamp: t, granularity: series.granularity, counts: (Math.floor(t / st) * 7 + series.k) % 50 }); return out; }
const BASES = [Date.UTC(2026, 0, 14), Date.UTC(2026, 2, 26), Date.UTC(2026, 5, 10), Date.UTC(2026, 11, 28)];
const series = fc.record({ mode: fc.constantFrom(...MODES), dir: fc.constantFrom(...DIRS), granularity: fc.constantFrom("PT15M", "PT1H", "P1D", "PT1H"), k: fc.nat(49), gap: some(fc.tuple(fc.integer({ min: -240, max: 100 }), fc.integer({ min: 1, max: 300 })), 2) });
const siteArb = fc.record({ series: fc.uniqueArray(series, { selector: (s) => s.mode + s.dir, minLength: 1, maxLength: 3 }), last: some(fc.integer({ min: -400, max: 10 }), 3), removed: fc.oneof({ weight: 5, arbitrary: fc.constant(false) }, fc.constant(true)), other: fc.oneof({ weight: 6, arbitrary: fc.constant(false) }, fc.constant(true)) });
const runArb = fc.record({ hours: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 30 }) }, fc.integer({ min: 0, max: 300 })), minutes: fc.nat(59), refuse: some(fc.tuple(fc.nat(3), fc.constantFrom(401, 404, 400)), 3), breaks: some(fc.tuple(fc.nat(60), fc.constantFrom("insert", "update", "any", "drop")), 4), slow: fc.array(fc.nat(3), { maxLength: 2 }) });

// ---------- sites
const siteOf = fc.record({ id: fc.integer({ min: 1, max: 6 }), name: fc.constantFrom("Kauppatori", "O'Hara", "ä \"x\"", "a, b"), description: fc.constantFrom("d", ""), customId: fc.constantFrom("c1", "c2"), location: fc.record({ lat: fc.integer({ min: 600, max: 690 }).map((x) => x / 10), lon: fc.integer({ min: 200, max: 300 }).map((x) => x / 10) }), granularity: some(fc.constantFrom("PT15M", "P1D"), 4), travelModes: fc.uniqueArray(fc.constantFrom(...MODES), { minLength: 1, maxLength: 3 }), directional: fc.boolean() }).map((s) => { if (s.granularity === undefined) delete s.granularity; return s; });
const sitesArb = fc.uniqueArray(siteOf, { selector: (s) => s.id, maxLength: 6 });
const quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const decode = (r) => ({ status: r.value.status, text: Buffer.from(r.value.body, "base64").toString("utf8"), timestamp: r.value.timestamp, fileName: r.value.fileName });

await check({
  rule: "a data history is non-trivial if points are saved, a metadata history if the tables change, a read if it finds something; the tables are compared with a model after every run",
  assumptions: ["PostgreSQL and PostGIS are emulated as far as the statements need", "Eco-Counter answers the same about an instant whenever it is asked, and it has everything up to now", "the hour that occurs twice in the autumn in Helsinki cannot be told apart in Eco-Counter's parameters and is left out"],
}, async ({ prop }) => {
  await prop("data", fc.record({ base: fc.constantFrom(...BASES), sites: fc.array(siteArb, { minLength: 1, maxLength: 4 }), runs: fc.array(runArb, { minLength: 1, maxLength: 6 }) }), async (o) => {
    pg.fresh(); nowMs = o.base; let bad, saved = 0, failures = 0;
    const sites = o.sites.map((s, i) => ({ id: i + 1, ...s, last: s.last === undefined ? null : o.base + s.last * HOUR, series: s.series.map((x) => ({ ...x, gaps: x.gap ? [[o.base + x.gap[0] * HOUR, o.base + (x.gap[0] + x.gap[1]) * HOUR]] : [] })), points: [] }));
    for (const s of sites) pg.insert("cs2_site", { id: s.id, name: `s${s.id}`, domain: s.other ? "Other" : "Fintraffic", latitude: 60, longitude: 20, directional: 1, travel_modes: "[]", removed_timestamp: s.removed ? new Date(o.base - DAY) : null, last_data_timestamp: s.last === null ? null : new Date(s.last) });
    let asked = [];
    for (const run of o.runs) {
      nowMs += run.hours * HOUR + run.minutes * MIN; const now = nowMs; asked = [];
      const due = sites.filter((s) => !s.removed && !s.other && (s.last === null || s.last < now - DAY)), refused = run.refuse && due.some((s) => s.id === run.refuse[0] + 1) ? run.refuse[0] + 1 : 0;
      web = async (r) => {
        const u = new URL(r.url), q = u.searchParams; if (r.headers.get("x-api-key") !== "K&1" || u.origin + u.pathname !== "https://eco.example/api/v2/history/traffic/raw") { bad ??= `request ${r.url}`; return json({}, 403); }
        const id = Number(q.get("siteId")), from = helsinki(q.get("startDate"), q.get("startTime")), to = helsinki(q.get("endDate"), q.get("endTime")); asked.push([id, from, to]);
        if (run.slow.includes(id - 1)) await new Promise((k) => setTimeout(k, 3));
        if (id === refused) return json({ error: "x" }, run.refuse[1]);
        return json(sites[id - 1].series.map((x) => ({ travelMode: x.mode, direction: x.dir, data: points(x, from, Math.min(to, now)).map((p) => ({ ...p, timestamp: iso(p.timestamp) })) })).filter((x) => x.data.length || x.direction !== "out"));
      };
      let n = 0, broke = false; pg.fault = run.breaks ? (sql) => { if (!/cs2_/.test(sql) || !(run.breaks[1] === "any" || run.breaks[1] === "drop" ? true : new RegExp(`^\\s*${run.breaks[1]}`, "i").test(sql))) return undefined; if (n++ === run.breaks[0]) { broke = true; return run.breaks[1] === "drop" ? "drop" : { code: "53200", message: "out of memory" }; } return undefined; } : undefined;
      const r = await quietly(() => updateData()); pg.fault = undefined; if (!pg.settled) return false;
      must(!bad, bad); must(!("error" in r), `the run fails: ${r.error?.message}`);
      const failed = refused > 0 || broke; if (failed) failures++;
      const rows = pg.rows("select * from cs2_data"), db = pg.rows("select * from cs2_site order by id");
      if (!broke) same(asked.sort((a, b) => a[0] - b[0]), due.map((s) => { const f = s.last ?? new Date(now - 10 * DAY).setUTCHours(0, 0, 0, 0); return [s.id, Math.floor((f + MIN) / MIN) * MIN, Math.floor((f + DAY) / MIN) * MIN]; }), `what is asked at ${iso(now)}`);
      for (const s of due) {
        const f = s.last ?? new Date(now - 10 * DAY).setUTCHours(0, 0, 0, 0), got = s.series.flatMap((x) => points(x, Math.floor((f + MIN) / MIN) * MIN, Math.min(Math.floor((f + DAY) / MIN) * MIN, now)).map((p) => [s.id, x.mode, x.dir, p.timestamp, p.granularity, p.counts]));
        const end = got.length ? Math.max(...got.map((p) => p[3])) : s.last !== null && s.last < now - 7 * DAY ? s.last + DAY : s.last;
        const done = db[s.id - 1].last_data_timestamp === end && end !== s.last;
        if (s.id === refused) continue;
        if (broke) { if (done) { s.points.push(...got); s.last = end; } continue; } // either all of it or nothing
        s.points.push(...got); s.last = end;
      }
      for (const s of sites) {
        same(rows.filter((x) => x.site_id === s.id).map((x) => [x.site_id, x.travel_mode, x.direction, x.data_timestamp, x.granularity, x.counts].join()).sort(), s.points.map((p) => p.join()).sort(), `the points of site ${s.id} at ${iso(now)}${failed ? `, ${refused ? `site ${refused} refused` : "the database failing"}` : ""}`);
        same(db[s.id - 1].last_data_timestamp, s.last, `the last instant of site ${s.id} at ${iso(now)}${failed ? `, ${refused ? `site ${refused} refused` : "the database failing"}` : ""}`);
      }
      const mark = pg.rows("select updated from data_updated where data_type = 'COUNTING_SITES_DATA'")[0]?.updated;
      if (!failed) same(mark, now, "when the data was updated"); else must(mark !== now || run.hours + run.minutes === 0 || broke, "a failed run counts as an update");
      saved += rows.length;
    }
    return saved > 0 && (failures ? "with failures" : "undisturbed");
  }, { runs: 160, thorough: 1200, needs: [updateData] });

  await prop("sites", fc.record({ base: fc.constantFrom(...BASES), before: sitesArb, others: fc.uniqueArray(fc.integer({ min: 20, max: 22 }), { maxLength: 2 }), runs: fc.array(fc.record({ hours: fc.integer({ min: 1, max: 40 }), sites: sitesArb, fault: some(fc.nat(8), 4), status: fc.oneof({ weight: 8, arbitrary: fc.constant(200) }, fc.constant(404)) }), { minLength: 1, maxLength: 5 }) }), async (o) => {
    pg.fresh(); nowMs = o.base; const model = new Map(); let bad, changes = 0, failures = 0, sure = true;
    const row = (s, domain, removed, last) => ({ id: s.id, name: s.name, description: s.description, domain, custom_id: s.customId, latitude: s.location.lat, longitude: s.location.lon, granularity: s.granularity ?? null, directional: Number(s.directional), travel_modes: JSON.stringify(s.travelModes), removed_timestamp: removed, last_data_timestamp: last });
    const put = (r) => { model.set(r.id, r); pg.insert("cs2_site", r); };
    for (const s of o.before) put(row(s, "Fintraffic", s.id % 3 ? null : o.base - DAY, s.id % 2 ? o.base - HOUR : null));
    for (const id of o.others) put(row({ id, name: "x", description: "", customId: "c", location: { lat: 1, lon: 2 }, travelModes: [], directional: true }, "Other", null, null));
    for (const run of o.runs) {
      nowMs += run.hours * HOUR; web = async (r) => { if (r.url !== "https://eco.example/api/v2/sites?include=domain" || r.headers.get("x-api-key") !== "K&1") bad ??= r.url; return json(run.status === 200 ? run.sites : {}, run.status); };
      let n = 0, broke = false; pg.fault = run.fault === undefined ? undefined : (sql) => { if (/cs2_site|data_updated/.test(sql) && n++ === run.fault) { broke = true; return { code: "53200", message: "no" }; } return undefined; };
      const r = await quietly(() => updateMetadata()); pg.fault = undefined; if (!pg.settled) return false;
      must(!bad, `request ${bad}`); must(!("error" in r), `the run fails: ${r.error?.message}`);
      const db = pg.rows("select * from cs2_site order by id").map(({ created, modified, ...x }) => x), mark = pg.rows("select updated from data_updated where data_type = 'COUNTING_SITES_METADATA_CHECK'")[0]?.updated;
      if (run.status !== 200) { same(db, [...model.values()].sort((a, b) => a.id - b.id), "the sites after a refused request"); must(mark !== nowMs, "a refused request counts as a check"); failures++; continue; }
      if (broke) { failures++; must(mark !== nowMs, "a failed run counts as a check"); for (const d of db) model.set(d.id, { ...(model.get(d.id) ?? {}), removed_timestamp: d.removed_timestamp, last_data_timestamp: d.last_data_timestamp }); sure = false; for (const d of db) if (d.domain !== "Fintraffic") same(d, model.get(d.id) && { ...d }, "another domain's site"); for (const d of db) model.set(d.id, d); continue; }
      const ids = new Set(run.sites.map((s) => s.id));
      for (const [id, m] of model) if (m.domain === "Fintraffic" && !ids.has(id) && m.removed_timestamp === null) { m.removed_timestamp = nowMs; changes++; }
      for (const s of run.sites) { model.set(s.id, row(s, "Fintraffic", null, model.get(s.id)?.last_data_timestamp ?? null)); changes++; }
      same(db, [...model.values()].sort((a, b) => a.id - b.id), `the sites after the run at ${iso(nowMs)}`); same(mark, nowMs, "when the sites were checked");
      const idle = JSON.stringify(pg.rows("select id, removed_timestamp from cs2_site order by id")); nowMs += HOUR; await quietly(() => updateMetadata()); same(JSON.stringify(pg.rows("select id, removed_timestamp from cs2_site order by id")), idle, "when sites were removed, after a second run of the same answer");
    }
    return changes > 0 && (failures ? "with failures" : "undisturbed");
  }, { runs: 250, thorough: 1500, needs: [updateMetadata] });

  const value = fc.record({ site: fc.integer({ min: 1, max: 3 }), mode: fc.constantFrom(...MODES), dir: fc.constantFrom(...DIRS), granularity: fc.constantFrom("PT15M", "PT1H", "P1D"), counts: fc.nat(99), day: fc.integer({ min: -2, max: 2 }), at: fc.oneof(fc.constantFrom(0, DAY - MIN, DAY - 15 * MIN, HOUR), fc.nat(95).map((x) => x * 15 * MIN)), mod: fc.nat(1000) });
  const query = fc.record({ date: some(fc.constantFrom(-1, 0, 0, 1), 4), siteId: some(fc.integer({ min: 1, max: 4 }), 2), travelMode: some(fc.constantFrom(...MODES), 2), junk: fc.oneof({ weight: 8, arbitrary: fc.constant("") }, fc.constantFrom("extra", "mode", "site", "date")) });
  const edge = fc.constantFrom(Date.UTC(2026, 0, 31), Date.UTC(2026, 1, 28), Date.UTC(2026, 1, 1), Date.UTC(2026, 2, 29), Date.UTC(2026, 9, 25), Date.UTC(2026, 11, 31), Date.UTC(2024, 1, 29), Date.UTC(2027, 0, 1));
  const fill = (o) => { pg.fresh(); nowMs = o.base + 3 * DAY; for (let i = 1; i <= 2; i++) pg.insert("cs2_site", { id: i, name: i === 1 ? 'A, "b"' : "Toinen", domain: "Fintraffic", latitude: 60, longitude: 20, directional: 1, travel_modes: "[]" }); return o.values.map((v) => { const x = { site_id: v.site, travel_mode: v.mode, direction: v.dir, data_timestamp: o.base + v.day * DAY + v.at, granularity: v.granularity, counts: v.counts }; pg.insert("cs2_data", { ...x, modified: o.base + v.mod * MIN }); return { ...x, modified: o.base + v.mod * MIN }; }); };
  const after = (l) => Math.floor(Math.max(...l.map((x) => x.modified)) / 1000) * 1000;
  await prop("values", fc.record({ base: edge, values: fc.uniqueArray(value, { selector: (v) => [v.site, v.mode, v.dir, v.day, v.at].join(), maxLength: 25 }), q: query, broken: fc.oneof({ weight: 12, arbitrary: fc.constant(false) }, fc.constant(true)) }), async (o) => {
    const rows = fill(o); const q = o.q, e = {}; if (q.date !== undefined) e.date = iso(o.base + q.date * DAY).slice(0, 10); if (q.siteId) e.siteId = String(q.siteId); if (q.travelMode) e.travelMode = q.travelMode;
    if (q.junk === "extra") e.x = "1"; if (q.junk === "mode") e.travelMode = "plane"; if (q.junk === "site") e.siteId = "one"; if (q.junk === "date") e.date = "2026-02-30";
    if (q.date === undefined) nowMs = o.base + DAY + 5 * HOUR;
    pg.fault = o.broken ? (sql) => (/cs2_/.test(sql) ? { code: "53200", message: "no" } : undefined) : undefined;
    const r = await quietly(() => getValues(e)); pg.fault = undefined; if (!pg.settled) return false; must(!("error" in r), `fails: ${r.error?.message}`); const a = decode(r);
    if (q.junk) { same(a.status, 400, `status for ${show(e)}`); return "refused"; } if (o.broken) { same(a.status, 500, "status when the database fails"); return "failing"; }
    same(a.status, 200, "status"); const from = o.base + (q.date ?? 0) * DAY, want = rows.filter((x) => x.data_timestamp >= from && x.data_timestamp < from + DAY && (!q.siteId || x.site_id === q.siteId) && (!q.travelMode || x.travel_mode === q.travelMode));
    const key = (x) => [x.siteId, x.travelMode, x.direction, x.dataTimestamp]; const cmp = (a, b) => { const p = key(a), s = key(b); for (let i = 0; i < 4; i++) if (p[i] !== s[i]) return p[i] < s[i] ? -1 : 1; return 0; };
    same(JSON.parse(a.text), want.map((x) => ({ siteId: x.site_id, travelMode: x.travel_mode, direction: x.direction, dataTimestamp: iso(x.data_timestamp), granularity: x.granularity, count: x.counts })).sort(cmp), `values for ${show(e)}`);
    if (want.length) same(a.timestamp, new Date(after(want)).toUTCString(), "Last-Modified"); return want.length > 0 && "found";
  }, { runs: 350, thorough: 2000, needs: [getValues] });

  await prop("csv", fc.record({ base: edge, values: fc.uniqueArray(value, { selector: (v) => [v.site, v.mode, v.dir, v.granularity, v.day, v.at].join(), maxLength: 25 }), siteId: fc.integer({ min: 1, max: 3 }), travelMode: some(fc.constantFrom(...MODES), 2), month: fc.constantFrom(0, 0, 0, -1, 1), junk: fc.oneof({ weight: 8, arbitrary: fc.constant("") }, fc.constantFrom("month", "zero", "year", "site", "extra")) }), async (o) => {
    const rows = fill(o), b = new Date(o.base), first = new Date(Date.UTC(b.getUTCFullYear(), b.getUTCMonth() + o.month, 1)), y = first.getUTCFullYear(), m = first.getUTCMonth() + 1, end = Date.UTC(y, m, 1);
    const e = { year: String(y), month: String(m), siteId: String(o.siteId), ...(o.travelMode ? { travelMode: o.travelMode } : {}) }; if (o.junk === "month") e.month = "13"; if (o.junk === "zero") e.month = "0"; if (o.junk === "year") e.year = "2023"; if (o.junk === "site") delete e.siteId; if (o.junk === "extra") e.domain = "x";
    const r = await quietly(() => getCsv(e)); if (!pg.settled) return false; must(!("error" in r), `fails: ${r.error?.message}`); const a = decode(r);
    if (o.junk || y < 2024) { same(a.status, 400, `status for ${show(e)}`); return "refused"; } same(a.status, 200, "status"); same(a.fileName, `${y}-${m}.csv`, "file name");
    const want = rows.filter((x) => x.site_id === o.siteId && x.data_timestamp >= first.getTime() && x.data_timestamp < end && (!o.travelMode || x.travel_mode === o.travelMode)), f = (s) => (/[",]/.test(s) ? `"${s.replaceAll('"', '""')}"` : s);
    const names = ["", 'A, "b"', "Toinen"], cols = (x) => [x.travel_mode, x.direction, x.granularity, x.data_timestamp], cmp = (p, s) => { const u = cols(p), v = cols(s); for (let i = 0; i < 4; i++) if (u[i] !== v[i]) return u[i] < v[i] ? -1 : 1; return 0; };
    same(a.text.split("\r\n"), ["SITE,TRAVELMODE,TIMESTAMP,GRANULARITY,DIRECTION,COUNT", ...want.sort(cmp).map((x) => [f(names[x.site_id] ?? ""), x.travel_mode, iso(x.data_timestamp), x.granularity, x.direction, x.counts].join()), ""], `lines of ${y}-${m}`);
    if (want.length) same(a.timestamp, new Date(after(want)).toUTCString(), "Last-Modified"); return want.length > 0 && "found";
  }, { runs: 250, thorough: 1500, needs: [getCsv] });

  await prop("map", fc.record({ sites: sitesArb, others: fc.boolean(), q: fc.record({ siteId: some(fc.integer({ min: 1, max: 8 }), 2), domain: some(fc.constantFrom("Fintraffic", "Other", "None"), 2) }), junk: fc.oneof({ weight: 8, arbitrary: fc.constant(false) }, fc.constant(true)), removed: fc.array(fc.integer({ min: 1, max: 6 }), { maxLength: 2 }) }), async (o) => {
    pg.fresh(); nowMs = BASES[0]; const rows = o.sites.map((s, i) => ({ ...s, domain: o.others && s.id % 3 === 0 ? "Other" : "Fintraffic", removed: o.removed.includes(s.id) ? nowMs - DAY : null, last: s.id % 2 ? nowMs - s.id * HOUR : null, mod: nowMs - i * 7000 }));
    for (const s of rows) pg.insert("cs2_site", { id: s.id, name: s.name, description: s.description, domain: s.domain, custom_id: s.customId, latitude: s.location.lat, longitude: s.location.lon, granularity: s.granularity, directional: s.directional, travel_modes: s.travelModes, removed_timestamp: s.removed, last_data_timestamp: s.last, modified: s.mod });
    const e = {}; if (o.q.siteId) e.siteId = String(o.q.siteId); if (o.q.domain) e.domain = o.q.domain; if (o.junk) e.siteId = "abc";
    const r = await quietly(() => getSites(e)); if (!pg.settled) return false; must(!("error" in r), `fails: ${r.error?.message}`); const a = decode(r); if (o.junk) { same(a.status, 400, "status"); return "refused"; }
    const want = rows.filter((s) => (!o.q.siteId || s.id === o.q.siteId) && (!o.q.domain || s.domain === o.q.domain));
    if (o.q.siteId && !want.length) { same(a.status, 404, "status of an unknown site"); return "unknown"; }
    same(a.status, 200, "status"); const c = JSON.parse(a.text); same(c.type, "FeatureCollection", "type");
    same(c.features.sort((x, y) => x.properties.id - y.properties.id), want.sort((x, y) => x.id - y.id).map((s) => ({ type: "Feature", geometry: { type: "Point", coordinates: [s.location.lon, s.location.lat] }, properties: { id: s.id, name: s.name, domain: s.domain, description: s.description, customId: s.customId, granularity: s.granularity ?? null, directional: s.directional, travelModes: s.travelModes, lastDataTimestamp: stamp(s.last), removedTimestamp: stamp(s.removed), dataUpdatedTime: stamp(s.mod) } })), `features for ${show(e)}`);
    const top = want.length ? Math.max(...want.map((s) => s.mod)) : 0; same(c.dataUpdatedTime, stamp(top), "dataUpdatedTime"); same(a.timestamp, new Date(top).toUTCString(), "Last-Modified"); return want.length > 0 && "found";
  }, { runs: 300, thorough: 1500, needs: [getSites] });
  await pg.stop();
});
