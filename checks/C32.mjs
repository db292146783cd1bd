// C32: municipal maintenance trackings: work events of Paikannin and routes of Autori become trackings by stated rules.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import { createHash } from "node:crypto";

const DOMAIN = "vt-kuopio", PREFIX = `mt.municipality.${DOMAIN}`;
Object.assign(process.env, { DOMAIN_NAME: DOMAIN, DOMAIN_PREFIX: PREFIX });
const P = await import("#repo/road/maintenance-tracking-municipality/src/lambda/paikannin-update-data/paikannin-update-data.ts");
const AU = await import("#repo/road/maintenance-tracking-municipality/src/service/autori-update.ts");
const AA = await import("#repo/road/maintenance-tracking-municipality/src/api/autori.ts");

const coords = (g) => { if (g === null) return null; const s = String(g), m = /^POINT\(([^)]*)\)$/.exec(s); return m ? { type: "Point", coordinates: m[1].split(" ").map(Number) } : JSON.parse(s); };
const each = (g, f) => JSON.stringify(g.type === "Point" ? { type: "Point", coordinates: f(g.coordinates) } : { type: "LineString", coordinates: g.coordinates.map(f) });
const list = (g) => (g.type === "Point" ? [g.coordinates] : g.coordinates);
// PostGIS, as far as it is used; nothing is simplified away
const functions = {
  st_geomfromgeojson: (g) => g, st_asgeojson: (g) => (g === null ? null : each(coords(g), (c) => c.map((x) => Math.round(x * 1e9) / 1e9))), st_simplify: (g) => g, st_isempty: () => 0,
  st_setsrid: (g, srid) => { if (srid !== 4326) throw new Error("srid"); return JSON.stringify(coords(g)); },
  st_force3d: (g) => each(coords(g), (c) => [c[0], c[1], c[2] ?? 0]),
  st_snaptogrid: (g, p) => each(coords(g), (c) => [Math.round(c[0] / p) * p, Math.round(c[1] / p) * p, ...c.slice(2)]),
  st_startpoint: (g) => JSON.stringify({ type: "Point", coordinates: list(coords(g))[0] }),
  st_geometrytype: (g) => `ST_${coords(g).type}`,
  st_makeline: (a, b) => JSON.stringify({ type: "LineString", coordinates: [...list(coords(a)), ...list(coords(b))] }),
};
const schema = `
create table maintenance_tracking_domain(name text primary key, source text);
create table maintenance_tracking_domain_contract(domain text, contract text, name text not null, source text, start_date integer, end_date integer, data_last_updated integer, primary key(domain, contract));
create table maintenance_tracking_domain_task_mapping(name text not null, original_id text not null, domain text not null, ignore integer not null, info text, unique(domain, original_id));
create table maintenance_tracking_work_machine(id integer primary key, harja_id text not null, harja_urakka_id text not null, type text not null, unique(harja_id, harja_urakka_id));
create table maintenance_tracking(id integer primary key, sending_system text not null, sending_time integer not null, last_point text not null, geometry text not null, work_machine_id integer not null, start_time integer not null, end_time integer not null, direction numeric, finished integer not null, domain text, contract text, message_original_id text, previous_tracking_id integer);
create table maintenance_tracking_task(maintenance_tracking_id integer not null, task text not null, primary key(maintenance_tracking_id, task));
create table data_updated(id integer, data_type text not null, subtype text, updated integer, unique(data_type, subtype));`;
let nowMs = Date.parse("2024-02-06T07:00:00Z");
const pg = await new PgLite({ schema, functions, now: () => nowMs, types: { tasks: "json", start_date: "ts", end_date: "ts", data_last_updated: "ts", end_time: "ts", finished: "bool", ignore: "bool" } }).start();
useDatabase(pg);
Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host, [`${PREFIX}.apikey`]: "K&1", [`${PREFIX}.url`]: "http://paikannin" });
let web;
globalThis.fetch = async (req, init) => web(req instanceof Request ? req : new Request(req, init));
const json = (o) => new Response(JSON.stringify(o)), iso = (ms) => new Date(ms).toISOString();
const MIN = 60e3, BASE = Date.parse("2024-02-06T07:00:00Z"), fix6 = (x) => Math.round(x * 1e6) / 1e6;
const harja = (s) => BigInt(`0x${createHash("sha256").update(s).digest("hex").slice(0, 15)}`).toString();
/** metres between, on a sphere */
function metres([x1, y1], [x2, y2]) { const r = Math.PI / 180, a = Math.sin(((y2 - y1) * r) / 2) ** 2 + Math.cos(y1 * r) * Math.cos(y2 * r) * Math.sin(((x2 - x1) * r) / 2) ** 2; return 2 * 6371008 * Math.asin(Math.sqrt(a)); }
const near = (x, limits) => limits.some((l) => Math.abs(x - l) <= l * 0.015);
const setOf = (l) => JSON.stringify([...new Set(l)].sort());

// Paikannin: what makes an event continue the one before it
function unsure(a, b) { const d = metres(a.at, b.at), s = (b.ts - a.ts) / 1000; return near(d, [50, 200, 520]) || (d > 40 && s > 0 && near((d / s) * 3.6, [5, 20, 80])); }
function continues(a, b) {
  const s = (b.ts - a.ts) / 1000, d = metres(a.at, b.at), v = (d / s) * 3.6;
  if (s < 0 || s > 305 || d > 520) return false;
  if (d > 200) return v >= 20 && v <= 80;
  if (d > 50) return v >= 5 && v <= 80;
  return true;
}
const TASKS = ["Auraus", "Hiekoitus", " Suolaus ", "Harjaus", "Muu", "Uusi"], MAPPED = { Auraus: "PLOUGHING", Hiekoitus: "LINE_SANDING", Suolaus: "SALTING", Harjaus: "BRUSHING" };
const channels = fc.oneof({ weight: 5, arbitrary: fc.constantFrom([0], [1], [0]) }, { weight: 3, arbitrary: fc.constantFrom([0, 1], [1, 2], [1, 0], [2, 0]) }, { weight: 1, arbitrary: fc.constantFrom([2], [3], [4], [5], [], [4, 5]) });
const step = fc.record({ s: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 1, max: 90 }) }, { weight: 1, arbitrary: fc.constantFrom(0, 1, 200, 290, 304, 305, 306, 400, 900) }), d: fc.oneof({ weight: 3, arbitrary: fc.constantFrom(0, 5, 30, 45, 100, 150, 180) }, { weight: 2, arbitrary: fc.constantFrom(55, 70, 190, 210, 300, 400, 500, 530, 560, 2000) }), bearing: fc.nat(7), stay: fc.integer({ min: 0, max: 2 }), channels, heading: fc.nat(359), alt: fc.constantFrom(0, 80.5, 90) });
const device = fc.record({ id: fc.integer({ min: 1, max: 99999999 }), name: fc.constantFrom("Auto 1", "KU-ABC", ""), from: fc.integer({ min: 0, max: 400 }), steps: fc.array(step, { minLength: 1, maxLength: 14 }), reversed: fc.boolean(), broken: fc.constantFrom(false, false, false, false, false, true) });
function eventsOf(dev) {
  let ts = BASE + dev.from * 1000, at = [27.68, 62.89], ch = dev.steps[0].channels, prev;
  const out = [];
  for (const st of dev.steps) {
    if (out.length) ts += st.s * 1000;
    if (!out.length || st.stay === 0) ch = st.channels;
    let e;
    for (let d = st.d; ; d *= 1.04) {
      const b = (st.bearing * Math.PI) / 4;
      e = { ts, at: [fix6(at[0] + (d * Math.sin(b)) / (111195 * Math.cos((at[1] * Math.PI) / 180))), fix6(at[1] + (d * Math.cos(b)) / 111195)], alt: st.alt, heading: st.heading, names: ch.map((i) => TASKS[i]) };
      if (!prev || d === 0 || !unsure(prev, e)) break;
    }
    out.push(e); prev = e; at = e.at;
  }
  return out;
}
const tasksOf = (e) => [...new Set(e.names.map((n) => MAPPED[n.trim()]).filter(Boolean))];
const rowsOf = (mid) => pg.rows("select * from maintenance_tracking where work_machine_id = ? order by id", mid).map((r) => ({ id: r.id, tasks: pg.rows("select task from maintenance_tracking_task where maintenance_tracking_id = ? order by task", r.id).map((x) => x.task), start: r.start_time, end: r.end_time, points: list(coords(r.geometry)).map(([x, y, z]) => [fix6(x), fix6(y), z]), last: coords(r.last_point).coordinates.slice(0, 2).map(fix6), finished: !!r.finished, prev: r.previous_tracking_id, direction: r.direction, sent: r.sending_time, who: [r.sending_system, r.domain, r.contract, r.message_original_id] }));
const p3 = (e) => [e.at[0], e.at[1], e.alt];
/** the trackings of a machine once further events are known */
function advance(rows, events, nextId, save = true) {
  const out = rows.map((r) => ({ ...r, points: [...r.points] }));
  const latest = out.filter((r) => !r.finished && !out.some((x) => x.prev === r.id)).sort((a, b) => b.end - a.end)[0];
  const fresh = events.filter((e) => tasksOf(e).length && (!latest || e.ts > latest.end)).sort((a, b) => a.ts - b.ts);
  const groups = [];
  for (const e of fresh) {
    const g = groups.at(-1), last = g?.events.at(-1);
    if (last && continues(last, e)) { g.events.push(e); if (setOf(g.names) !== setOf(e.names)) groups.push({ names: e.names, events: [e] }); } else groups.push({ names: e.names, events: [e] });
  }
  if (!groups.length) return { rows: out, saved: 0 };
  const first = fresh[0];
  let prevOfFirst = null, doubtful = false;
  if (latest) {
    const end = { ts: latest.end, at: latest.last };
    doubtful = unsure(end, first);
    latest.finished = true;
    if (continues(end, first)) {
      if (end.at[0] !== first.at[0] || end.at[1] !== first.at[1]) Object.assign(latest, { points: [...latest.points, p3(first)], last: first.at, end: first.ts, direction: first.heading });
      if (setOf(latest.tasks) === setOf(tasksOf(first))) prevOfFirst = latest.id;
    }
  }
  groups.forEach((g, i) => {
    const l = g.events.at(-1), points = g.events.map(p3).filter((p, j, a) => j === 0 || p[0] !== a[j - 1][0] || p[1] !== a[j - 1][1]);
    out.push({ id: nextId?.(), tasks: tasksOf(g.events[0]).sort(), start: g.events[0].ts, end: l.ts, points, last: l.at, finished: i < groups.length - 1, prev: i === 0 ? prevOfFirst : null, direction: l.heading, sent: l.ts, who: [DOMAIN, DOMAIN, DOMAIN, "none"] });
  });
  return { rows: out, saved: groups.length, doubtful };
}

await check({
  rule: "generated drives of several machines seen through several runs, routes of several contracts, faults at any statement or call; non-trivial: a tracking was split, continued or ended at a limit, a fault was met, or a later run changed what an earlier one saved",
  assumptions: ["SQLite and a stand-in for PostGIS that simplifies nothing answer the statements", "distances and speeds within 1.5 % of a limit are not generated", "a machine's channels map one to one to tasks"],
}, async ({ prop }) => {
  await prop("work events of Paikannin become trackings over several runs", fc.record({ devices: fc.uniqueArray(device, { minLength: 1, maxLength: 3, selector: (d) => d.id }), every: fc.constantFrom(5, 5, 3, 7), runs: fc.integer({ min: 1, max: 6 }), source: fc.constantFrom(true, true, true, true, true, true, true, false), fault: fc.option(fc.record({ run: fc.nat(3), what: fc.constantFrom("sql", "sql", "sql", "sql", "drop", "devices", "events"), re: fc.constantFrom("insert into maintenance_tracking\\(", "insert into maintenance_tracking_task", "update maintenance_tracking tgt", "update maintenance_tracking\\s+set finished", "set data_last_updated", "work_machine", "commit", "data_updated", "task_mapping", "select t.id"), at: fc.nat(3) }), { freq: 3 }) }), async (c) => {
    pg.fresh();
    for (const [k, name] of Object.entries(MAPPED)) pg.insert("maintenance_tracking_domain_task_mapping", { name, original_id: k, domain: DOMAIN, ignore: 0, info: "checked" });
    pg.insert("maintenance_tracking_domain_task_mapping", { name: "OTHER", original_id: "Muu", domain: DOMAIN, ignore: 1, info: "checked" });
    pg.insert("maintenance_tracking_domain_task_mapping", { name: "PAVING", original_id: "Uusi", domain: "other-domain", ignore: 0, info: "checked" });
    const contract = { domain: DOMAIN, contract: DOMAIN, name: DOMAIN, source: c.source ? "Kuopio" : undefined, start_date: BASE - 86400e3, end_date: BASE + 86400e3 };
    pg.insert("maintenance_tracking_domain_contract", contract);
    const drives = c.devices.map(eventsOf), state = new Map(); let splits = 0, hits = 0, seenLast = new Map();
    for (let run = 0; run < c.runs; run++) {
      nowMs = BASE + (4 + run * c.every) * MIN;
      const clock = fakeClock(nowMs, ["Date"]), f = c.fault?.run === run ? c.fault : undefined;
      let n = 0, hit = 0, calls = 0, wrong;
      pg.fault = (sql) => { if (!f || (f.what !== "sql" && f.what !== "drop") || hit || !new RegExp(f.re, "i").test(sql)) return undefined; if (n++ < f.at) return undefined; hit++; return f.what === "drop" ? "drop" : { code: "XX000", message: "boom" }; };
      const served = new Map();
      web = async (r) => {
        const u = new URL(r.url); calls++;
        if (u.origin !== "http://paikannin" || r.method !== "GET" || r.headers.get("api_key") !== "K&1") wrong ??= `${r.method} ${r.url} ${r.headers.get("api_key")}`;
        if (u.pathname === "/public/api/devices/all") { if (f?.what === "devices") { hit++; return new Response("no", { status: 403 }); } return json(c.devices.map((d, i) => ({ id: String(d.id), description: d.name, ioChannels: [...new Set(drives[i].flatMap((e) => e.names))].map((name, k) => ({ id: k, enabled: true, name })) }))); }
        const m = /^\/public\/api\/devices\/workevents\/alldevices\/([^/]+)\/([^/]+)$/.exec(u.pathname);
        if (!m) { wrong ??= r.url; return new Response("", { status: 404 }); }
        if (f?.what === "events") { hit++; return new Response("<html>"); }
        const [from, to] = [Date.parse(m[1]), Date.parse(m[2])];
        if (nowMs - to < 2 * MIN || nowMs - from > 9 * MIN) wrong ??= `asked for ${m[1]}–${m[2]} at ${iso(nowMs)}`;
        return json(c.devices.flatMap((d, i) => {
          const evs = drives[i].filter((e) => e.ts >= from && e.ts <= to); served.set(i, evs);
          if (!evs.length) return [];
          const tied = evs.some((e, j) => j && e.ts === evs[j - 1].ts), out = evs.map((e) => ({ deviceId: d.id, deviceName: d.name, timest: iso(e.ts).replace("Z", "+00:00"), altitude: e.alt, heading: e.heading, ioChannels: e.names.map((name, k) => ({ id: k + 7, name })), lat: e.at[1], lon: e.at[0], speed: 1 }));
          if (d.broken) out.push({ ...out[0], timest: undefined, ioChannels: [{ id: 1, name: "Auraus" }] });
          return [{ deviceId: d.id, deviceName: d.name, workEvents: d.reversed && !tied ? out.reverse() : out }];
        }));
      };
      let r;
      try { r = await capture(() => P.handler()); } finally { clock.uninstall(); pg.fault = undefined; }
      if (!pg.settled) return false;
      must(!wrong, () => `a request as it should not be: ${wrong}`);
      hits += hit;
      if (r.error) must(hit, () => `run ${run} failed: ${r.error}`);
      let saved = 0, failed = 0; const all = [];
      for (const [i, d] of c.devices.entries()) {
        const machine = pg.rows("select * from maintenance_tracking_work_machine where cast(harja_id as integer) = ?", d.id), evs = c.source ? (served.get(i) ?? []) : [], known = evs.filter((e) => tasksOf(e).length);
        if (machine.length) same(machine.map((m) => [m.harja_urakka_id, m.type]), [[harja(DOMAIN), `domainName: ${DOMAIN} / deviceId: ${d.id} / deviceName: ${d.name}`]], "machine");
        const before = state.get(i) ?? [], now = machine.length ? rowsOf(machine[0].id) : [];
        all.push(...now);
        const ids = now.slice(before.length).map((x) => x.id), nextId = () => ids.shift();
        const after = d.broken && evs.length ? { rows: before, saved: 0 } : advance(before, evs, nextId);
        if (after.doubtful) return false;
        if (d.broken && evs.length) failed++;
        const strip = (l) => l.map((x) => ({ ...x, points: JSON.stringify(x.points) }));
        if (JSON.stringify(now) === JSON.stringify(before) && (after.saved || known.length === 0 || d.broken)) { if (after.saved) { must(hit, () => `events of device ${d.id} were not saved in run ${run}: ${show(known)}`); failed++; } }
        else { alike(strip(now), strip(after.rows), `trackings of device ${d.id} after run ${run}`); saved += after.saved; if (after.saved > 1 || (run && after.saved)) splits++; seenLast.set(i, now); }
        state.set(i, now);
        must(now.filter((x) => !x.finished).length <= 1, () => `several unfinished trackings: ${show(now)}`);
      }
      same(pg.rows("select count(*) n from maintenance_tracking")[0].n, all.length, "trackings of nobody");
      if (!r.error) {
        same(r.value.saved, saved, "reported as saved");
        if (hit && f.what !== "sql" && f.what !== "drop") must(false, "a failed call went unnoticed");
        if (!hit) same(r.value.errors, failed, "reported as failed"); else must(r.value.errors > 0, () => `a fault at ${f.re} was not reported: ${show(r.value)}`);
        same(pg.rows("select updated from data_updated where data_type = 'MAINTENANCE_TRACKING_DATA_CHECKED' and subtype = ?", DOMAIN).map((x) => x.updated), [nowMs], "time of checking");
      }
      const con = pg.rows("select * from maintenance_tracking_domain_contract");
      same(con.map((x) => [x.domain, x.contract, x.name, x.source ?? undefined, x.start_date, x.end_date]), [[DOMAIN, DOMAIN, DOMAIN, contract.source, contract.start_date, contract.end_date]], "contract");
      if (saved) same(con[0].data_last_updated, nowMs, "time of the contract's data"); else must(con[0].data_last_updated !== nowMs, "the contract's data was not updated");
      const maps = pg.rows("select * from maintenance_tracking_domain_task_mapping where domain = ?", DOMAIN), used = [...new Set([...Object.keys(MAPPED), "Muu", ...drives.flat().flatMap((e) => e.names.map((x) => x.trim()))])];
      if (!r.error && !hit) same(maps.map((m) => m.original_id).sort(), used.sort(), "task mappings");
      for (const m of maps) same([m.name, m.ignore], [MAPPED[m.original_id] ?? (m.original_id === "Muu" ? "OTHER" : "UNKNOWN"), MAPPED[m.original_id] ? 0 : 1], `mapping of ${m.original_id}`);
      same(pg.rows("select name, source from maintenance_tracking_domain").length, r.error && !pg.rows("select * from maintenance_tracking_domain").length ? 0 : 1, "domain");
    }
    // seen through runs without a gap, every event with a task lies on a tracking
    if (!hits && c.source && c.every <= 7) c.devices.forEach((d, i) => {
      if (d.broken) return;
      const rows = state.get(i) ?? [], until = nowMs - 2 * MIN;
      for (const e of drives[i]) if (e.ts <= until && e.ts >= BASE - 5 * MIN && tasksOf(e).length) must(rows.some((x) => x.start <= e.ts && e.ts <= x.end && x.points.some((p) => p[0] === e.at[0] && p[1] === e.at[1])) || drives[i].some((o) => o !== e && o.ts === e.ts), () => `an event at ${iso(e.ts)} is on no tracking`);
    });
    return hits ? "fault" : splits > 0;
  }, { runs: 500, thorough: 12000, needs: [P.handler] });

  // Autori
  const autSecret = { url: "http://autori", productId: "pr", oAuthTokenEndpoint: "http://auth/t", oAuthScope: "s c", oAuthClientId: "id&", oAuthClientSecret: "x=y" };
  let tokens, api;
  const autori = (routes) => async (r) => {
    if (r.url === "http://auth/t") {
      const f = new URLSearchParams(await r.text());
      same([r.method, r.headers.get("content-type"), f.get("client_id"), f.get("scope"), f.get("client_secret"), f.get("grant_type")], ["POST", "application/x-www-form-urlencoded", "id&", "s c", "x=y", "client_credentials"], "token request");
      return tokens();
    }
    return routes(r, new URL(r.url));
  };
  const gap = fc.constantFrom(0, 10, 100, 100, 300, 300, 450, 480, 520, 3000), hop = fc.constantFrom(0, 5, 10, 30, 45, 70, 100, 200, 300, 450, 520);
  const route = fc.record({ user: fc.constantFrom(...Array(8).fill("u1"), "u2"), vehicle: fc.constantFrom(...Array(8).fill(undefined), "truck"), contract: fc.constantFrom(...Array(8).fill(0), 1), start: fc.oneof({ weight: 4, arbitrary: fc.constantFrom(1, 5, 20, 21, 61, 120, 300, 305, 306) }, { weight: 2, arbitrary: fc.integer({ min: -200, max: 30 }) }), took: fc.constantFrom(0, 1, 30, 60, 200, 400), ops: fc.constantFrom(["a"], ["a"], ["a"], ["b"], ["a", "b"], ["b", "a", "a2"], ["a"], ["zz"], []), created: fc.boolean(), updated: fc.option(fc.integer({ min: -60, max: 60 }), { nil: undefined }), features: fc.array(fc.oneof({ weight: 4, arbitrary: fc.record({ type: fc.constant("LineString"), gaps: fc.array(gap, { minLength: 1, maxLength: 4 }), jump: hop }) }, { weight: 1, arbitrary: fc.record({ type: fc.constant("Point"), gaps: fc.constant([]), jump: hop }) }, { weight: 1, arbitrary: fc.record({ type: fc.constant("Polygon"), gaps: fc.constant([]), jump: hop }) }), { maxLength: 2 }), nogeo: fc.constantFrom(...Array(11).fill(false), true) });
  const OPS = { a: "PLOUGHING", b: "SALTING", a2: "PLOUGHING" };
  const joins = (a, b) => { const d = metres(a.at, b.at), s = (b.ts - a.ts) / 1000; if (s < 0 || s > 305 || d > 500) return false; return s > 0 ? (d / s) * 3.6 <= 80 : d <= 50; };
  await prop("routes of Autori become trackings that follow one another", fc.record({ routes: fc.array(route, { minLength: 2, maxLength: 7 }), rounds: fc.constantFrom(1, 1, 2, 3), contracts: fc.tuple(fc.record({ updated: fc.constantFrom(undefined, -3, -30), start: fc.constantFrom(undefined, -2, -500), source: fc.constant(true) }), fc.record({ updated: fc.constantFrom(undefined, -3, -30), start: fc.constantFrom(undefined, -2), source: fc.boolean() })), fault: fc.option(fc.record({ round: fc.nat(1), re: fc.constantFrom("insert into maintenance_tracking\\(", "insert into maintenance_tracking_task", "set data_last_updated", "work_machine", "commit", "set finished"), at: fc.nat(2) }), { freq: 4 }), http: fc.constantFrom(...Array(9).fill(false), true) }), async (c) => {
    pg.fresh();
    for (const [k, name] of Object.entries(OPS)) pg.insert("maintenance_tracking_domain_task_mapping", { name, original_id: k, domain: DOMAIN, ignore: 0 });
    const T0 = BASE + 30 * MIN;
    c.contracts.forEach((k, i) => pg.insert("maintenance_tracking_domain_contract", { domain: DOMAIN, contract: `c${i}`, name: "n", source: k.source ? "s" : undefined, start_date: k.start === undefined ? undefined : T0 + k.start * MIN, data_last_updated: k.updated === undefined ? undefined : T0 + k.updated * MIN }));
    let at = [25, 62], doubtful = false, clockAt = BASE;
    const move = (d) => (at = [at[0], fix6(at[1] + d / 111195)]);
    const routes = c.routes.map((r, i) => {
      const features = r.features.map((f) => { move(f.jump); const line = [[...at, 10]]; for (const g of f.gaps) { move(g); line.push([...at, 10]); } return { type: "Feature", properties: {}, geometry: f.type === "Point" ? { type: "Point", coordinates: line[0] } : f.type === "Polygon" ? { type: "Polygon", coordinates: [[line[0], [0, 0], [1, 1], line[0]]] } : { type: "LineString", coordinates: line } }; });
      const start = clockAt + r.start * 1000, end = start + r.took * 1000; clockAt = Math.max(clockAt, end);
      return { round: i % c.rounds, contract: `c${r.contract}`, start, end, sent: r.created ? end + 5000 : undefined, updated: r.updated === undefined ? end : end + r.updated * 1000, features, api: { id: `r${i}`, user: r.user, vehicleType: r.vehicle, startTime: iso(start), endTime: iso(end), operations: r.ops, created: r.created ? iso(end + 5000) : undefined, updated: r.updated === undefined ? undefined : iso(end + r.updated * 1000), geography: r.nogeo ? undefined : { type: "FeatureCollection", features } } };
    });
    // of routes that start at the same time either could come first
    if (new Set(routes.map((r) => r.start)).size < routes.length) return false;
    tokens = () => json({ token_type: "Bearer", expires_in: 3600, access_token: "TOK" });
    api = new AA.AutoriApi(autSecret);
    const svc = new AU.AutoriUpdate(api), machines = new Map(); let links = 0, hits = 0;
    for (let round = 0; round < c.rounds; round++) {
      nowMs = T0 + round * 5 * MIN;
      const before = pg.rows("select * from maintenance_tracking_domain_contract order by contract"), asked = new Map();
      web = autori((r, u) => {
        same([r.headers.get("authorization"), u.pathname], ["Bearer TOK", "/api/pr/route"], "request");
        asked.set(u.searchParams.get("contract"), [u.searchParams.get("changedStart"), u.searchParams.get("changedEnd")]);
        if (c.http && u.searchParams.get("contract") === "c0") return new Response("no", { status: 403 });
        return json(routes.filter((x) => x.round === round && x.contract === u.searchParams.get("contract")).map((x) => x.api));
      });
      const clock = fakeClock(nowMs, ["Date"]), f = c.fault?.round === round ? c.fault : undefined; let n = 0, hit = 0, r;
      pg.fault = (sql) => { if (!f || hit || !new RegExp(f.re, "i").test(sql) || n++ < f.at) return undefined; hit++; return { code: "XX000", message: "boom" }; };
      try { r = await capture(() => svc.updateTrackingsForDomain(DOMAIN)); } finally { clock.uninstall(); pg.fault = undefined; }
      if (!pg.settled) return false;
      must(!r.error || (hit && f.re === "commit"), () => `round ${round} failed: ${r.error}`);
      hits += hit;
      let saved = 0, failed = 0;
      for (const k of before) {
        if (!k.source) { must(!asked.has(k.contract), () => `${k.contract} has no source`); continue; }
        const from = Math.max(k.data_last_updated ?? k.start_date ?? 0, nowMs - 7 * MIN);
        same(asked.get(k.contract), [iso(from), iso(nowMs + MIN)], `what was asked of ${k.contract}`);
        if (c.http && k.contract === "c0") { failed++; continue; }
        let latestUpdate = k.data_last_updated;
        for (const x of routes.filter((q) => q.round === round && q.contract === k.contract).sort((a, b) => a.start - b.start)) {
          if (!x.api.geography) continue;
          const tasks = [...new Set(x.api.operations.map((o) => OPS[o]).filter(Boolean))].sort(), groups = [];
          for (const g of x.features) {
            if (g.geometry.type === "Polygon") continue;
            const pts = list(g.geometry); let cur;
            for (const p of pts) { const last = cur?.at(-1); if (!last) groups.push(cur = [p]); else if (last[0] === p[0] && last[1] === p[1]) continue; else { if (near(metres(last, p), [500])) doubtful = true; if (metres(last, p) > 500) groups.push(cur = [p]); else cur.push(p); } }
          }
          if (!tasks.length) continue;
          const key = `${x.api.user}|${x.api.vehicleType ?? ""}|${k.contract}`, rows = machines.get(key) ?? [];
          for (const g of groups) {
            const mid = pg.rows("select id from maintenance_tracking_work_machine where harja_id = ? and harja_urakka_id = ?", harja(x.api.user + (x.api.vehicleType ?? "")), harja(k.contract))[0]?.id;
            const db = mid === undefined ? [] : rowsOf(mid), got = db[rows.length];
            const is = got && got.who[3] === x.api.id && JSON.stringify(got.points) === JSON.stringify(g);
            if (!is) { must(hit, () => `no tracking ${show(g)} of ${x.api.id}: ${show(db)}`); failed++; if (got && got.start !== x.start) continue; continue; }
            const latest = rows.filter((q) => !q.finished && !rows.some((o) => o.prev === q.id)).sort((a, b) => b.end - a.end)[0], next = { ts: x.start, at: g[0] };
            let prev = null;
            if (latest) {
              if (rows.filter((q) => !q.finished && q !== latest && q.end === latest.end).length) return false;
              const e = { ts: latest.end, at: latest.last }, d = metres(e.at, next.at), s = (next.ts - e.ts) / 1000;
              if (near(d, [50, 500]) || (s > 0 && near((d / s) * 3.6, [80]))) return false;
              if (joins(e, next)) { latest.finished = true; links++; if (setOf(latest.tasks) === setOf(tasks)) prev = latest.id; }
            }
            rows.push({ id: got.id, tasks, start: x.start, end: x.end, points: g, last: g.at(-1).slice(0, 2), finished: false, prev, direction: null, sent: x.sent ?? nowMs, who: [DOMAIN, DOMAIN, k.contract, x.api.id] });
            machines.set(key, rows); saved++;
            latestUpdate = Math.max(latestUpdate ?? 0, x.updated);
          }
        }
        if (doubtful) return false;
        const now = pg.rows("select data_last_updated d from maintenance_tracking_domain_contract where contract = ?", k.contract)[0].d;
        same(now, latestUpdate, `time of the data of ${k.contract}`);
      }
      for (const [key, rows] of machines) { const [u, v, k] = key.split("|"), m = pg.rows("select id, type from maintenance_tracking_work_machine where harja_id = ? and harja_urakka_id = ?", harja(u + v), harja(k))[0]; alike(rowsOf(m.id), rows, `trackings of ${key}`); same(m.type, `domainName: ${DOMAIN} / contractId: ${k} / user: ${u} vehicleType: ${v}`, "machine"); }
      same(pg.rows("select count(*) n from maintenance_tracking")[0].n, [...machines.values()].flat().length, "trackings");
      if (!r.error) { same([r.value.saved, r.value.errors > 0], [saved, failed > 0 || hit > 0], "what was reported"); same(pg.rows("select updated from data_updated where subtype = ?", DOMAIN).map((x) => x.updated), [nowMs], "time of checking"); }
    }
    return hits || c.http ? "fault" : links > 0 || c.rounds > 1;
  }, { runs: 500, thorough: 10000, needs: [AU.AutoriUpdate.prototype.updateTrackingsForDomain] });

  await prop("contracts and tasks of Autori are added, and changes of contracts saved", fc.array(fc.record({ contracts: fc.uniqueArray(fc.record({ id: fc.constantFrom("a", "b", "c"), name: fc.constantFrom("n1", "n2"), start: fc.constantFrom(undefined, 1, 2), end: fc.constantFrom(undefined, 5, 6) }), { maxLength: 3, selector: (x) => x.id }), ops: fc.uniqueArray(fc.constantFrom("o1", "o2", "o3"), { maxLength: 3 }), fail: fc.constantFrom(false, false, false, false, true) }), { minLength: 1, maxLength: 4 }), async (rounds) => {
    pg.fresh(); tokens = () => json({ token_type: "Bearer", expires_in: 3600, access_token: "TOK" });
    const svc = new AU.AutoriUpdate(new AA.AutoriApi(autSecret)), known = new Map(), ops = new Set(); let changed = 0; const day = (n) => Date.parse(`2024-01-0${n}T00:00:00Z`);
    for (const r of rounds) {
      web = autori((q, u) => (r.fail ? new Response("", { status: 404 }) : u.pathname === "/api/pr/contracts" ? json(r.contracts.map((k) => ({ id: k.id, name: k.name, startDate: k.start && iso(day(k.start)), endDate: k.end && iso(day(k.end)) }))) : u.pathname === "/api/pr/route/types/operation" ? json(r.ops.map((id) => ({ id, operationName: "x" }))) : new Response("", { status: 404 })));
      const a = await capture(() => svc.updateContractsForDomain(DOMAIN)), b = await capture(() => svc.updateTaskMappingsForDomain(DOMAIN));
      if (!pg.settled) return false;
      same([!!a.error, !!b.error], [r.fail, r.fail], "failures are reported");
      if (!r.fail) {
        let n = 0;
        for (const k of r.contracts) {
          const o = known.get(k.id);
          // a date that is no longer told stays until something else changes
          if (!o) { n++; known.set(k.id, { name: k.name, start: k.start, end: k.end }); }
          else if (o.name !== k.name || (k.start && k.start !== o.start) || (k.end && k.end !== o.end)) { n++; changed++; known.set(k.id, { name: k.name, start: k.start, end: k.end }); }
        }
        same(a.value, n, "contracts saved"); same(b.value, r.ops.filter((o) => !ops.has(o)).length, "task mappings saved"); r.ops.forEach((o) => ops.add(o));
      }
      same(pg.rows("select * from maintenance_tracking_domain_contract order by contract").map((x) => [x.domain, x.contract, x.name, x.start_date, x.end_date, x.source, x.data_last_updated]), [...known].sort(([x], [y]) => (x < y ? -1 : 1)).map(([id, k]) => [DOMAIN, id, k.name, k.start ? day(k.start) : null, k.end ? day(k.end) : null, null, null]), "contracts");
      same(pg.rows("select * from maintenance_tracking_domain_task_mapping order by original_id").map((x) => [x.domain, x.original_id, x.name, x.ignore]), [...ops].sort().map((o) => [DOMAIN, o, "UNKNOWN", 1]), "task mappings");
    }
    return changed > 0 || rounds.some((r) => r.fail);
  }, { runs: 300, thorough: 4000, needs: [AU.AutoriUpdate.prototype.updateContractsForDomain] });

  await prop("a token is used while it is valid, and never a bad one", fc.array(fc.record({ wait: fc.constantFrom(0, 1, 60, 179, 181, 400, 3419, 3421, 3600), answer: fc.constantFrom("ok", "ok", "ok", "ok", "empty", "403", "short") }), { minLength: 2, maxLength: 8 }), async (steps) => {
    const clock = fakeClock(BASE, ["Date"]); let ms = BASE, n = 0, valid, expires = 0, classes = new Set();
    try {
      const a = new AA.AutoriApi(autSecret);
      for (const s of steps) {
        clock.setSystemTime(ms += s.wait * 1000);
        let asked = 0;
        tokens = () => { asked++; n++; return s.answer === "403" ? new Response("", { status: 403 }) : json(s.answer === "empty" ? { token_type: "Bearer" } : { token_type: "Bearer", expires_in: s.answer === "short" ? 200 : 3600, access_token: `T${n}` }); };
        let used; web = autori((r) => { used = r.headers.get("authorization"); return json([]); });
        const { error } = await capture(() => a.getContracts());
        const should = !(valid && ms < expires - 180e3);
        same(asked, should ? 1 : 0, `requests for a token with ${(expires - ms) / 1000} s left`);
        if (should) { if (s.answer === "ok" || s.answer === "short") { valid = `T${n}`; expires = ms + (s.answer === "short" ? 200 : 3600) * 1000; } else valid = undefined; classes.add(s.answer); }
        else classes.add("cached");
        same([!!error, used], valid ? [false, `Bearer ${valid}`] : [true, undefined], "use of the token");
      }
    } finally { clock.uninstall(); }
    return classes.size > 1;
  }, { runs: 300, thorough: 4000, needs: [AA.AutoriApi.prototype.getOAuthToken] });
  await pg.stop?.();
});
