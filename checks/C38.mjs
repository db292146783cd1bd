// C38: winter navigation: IBNet's objects followed in the tables and served by the public API.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import { handler as update } from "#repo/marine/winter-navigation/src/lambda/update-data/update-data.ts";
import { handler as getVessels } from "#repo/marine/winter-navigation/src/lambda/get-vessels/get-vessels.ts";
import { handler as getLocations } from "#repo/marine/winter-navigation/src/lambda/get-locations/get-locations.ts";
import { handler as getDirways } from "#repo/marine/winter-navigation/src/lambda/get-dirways/get-dirways.ts";
const MIN = 60e3, HOUR = 3600e3, DAY = 24 * HOUR, BASE = Date.UTC(2026, 1, 27);
const TABLES = {
  wn_location: ["location", { name: "text not null", type: "text not null", locode_list: "text not null", nationality: "text not null", latitude: "real not null", longitude: "real not null", winterport: "integer not null" }],
  wn_restriction: ["restriction", { location_id: "text not null", text_compilation: "text not null", start_time: "integer not null", end_time: "integer" }],
  wn_vessel: ["vessel", { name: "text not null", callsign: "text", shortcode: "text", imo: "integer", mmsi: "integer", type: "text" }],
  wn_activity: ["activity", { icebreaker_id: "text not null", vessel_id: "text", type: "text not null", reason: "text", public_comment: "text", start_time: "integer not null", end_time: "integer" }],
  wn_source: ["source", { name: "text not null", shortname: "text", nationality: "text not null", type: "text not null", vessel_id: "text" }],
  wn_port_suspension: ["port-suspension", { start_time: "integer not null", end_time: "integer", prenotification: "integer not null", ports_closed: "integer not null", due_to: "text not null", specifications: "text" }],
  wn_port_suspension_location: ["port-suspension-location", { suspension_id: "text not null", location_id: "text not null" }],
  wn_queue: ["queue", { icebreaker_id: "text not null", vessel_id: "text not null", start_time: "integer not null", end_time: "integer", order_num: "integer not null" }],
  wn_dirway: ["dirway", { name: "text not null", description: "text" }],
  wn_dirwaypoint: ["dirwaypoint", { dirway_id: "text not null", order_num: "integer not null", name: "text", latitude: "real not null", longitude: "real not null" }],
};
const schema = `${Object.entries(TABLES).map(([t, [, c]]) => `create table ${t}(id text primary key, ${Object.entries(c).map(([k, v]) => `${k} ${v}`).join(", ")}, deleted integer not null);`).join("\n")}
create table wn_data_version(table_name text primary key, version integer not null, modified integer);
create table updated_timestamp(updated_name text primary key, updated_time integer, updated_by text);`;
let nowMs = 0;
const pg = await new PgLite({ schema, now: () => nowMs, types: { updated: "ts", start_time: "ts", end_time: "ts", winterport: "bool", prenotification: "bool", ports_closed: "bool", restrictions: "json", suspensions: "json", queues: "json", activities: "json", dirwaypoints: "json", latitude: "float", longitude: "float" } }).start();
pg.rewrites.push([/coalesce\((\$\d+)\s*,\s*(\u0001\d+\u0001)\)/gi, "coalesce($1, pg_bound($2))"]);
pg.functions.pg_bound = (s) => (s === "infinity" ? 9e15 : s === "-infinity" ? -9e15 : s);
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host, "ibnet.url": "https://ibnet.example/api/", "ibnet.authHeaderValue": "dTpw" });
let web; globalThis.fetch = async (req, init) => web(req instanceof Request ? req : new Request(req, init));
const some = (v, freq) => fc.option(v, { nil: undefined, freq });
const rarely = (n) => fc.oneof({ weight: n, arbitrary: fc.constant(false) }, fc.constant(true));
const quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const iso = (ms) => new Date(ms).toISOString();
async function get(h, event, what) { const r = await quietly(() => h(event)); must(!("error" in r), `${what} fails: ${r.error?.message}`); return { status: r.value.status, text: Buffer.from(r.value.body, "base64").toString("utf8"), timestamp: r.value.timestamp }; }
const checkedAt = (name, at) => at !== undefined && pg.insert("updated_timestamp", { updated_name: name, updated_time: new Date(at), updated_by: "" });
const stampOf = (at) => (at === undefined ? undefined : new Date(at).toUTCString());

const WORD = fc.constantFrom("Oulu", "O'Hara", "ä \"x\"", "a, b", "$1 $&", "");
const timeArb = fc.integer({ min: -20 * 24, max: 5 * 24 }).map((h) => BASE + h * HOUR), later = fc.integer({ min: 0, max: 10 * 24 }).map((h) => h * HOUR);
const period = fc.tuple(timeArb, some(later, 3)).map(([a, d]) => ({ start_time: iso(a), ...(d === undefined ? {} : { end_time: iso(a + d) }) }));
const near = fc.integer({ min: 1, max: 89 }).map((x) => x + 0.25), ID = fc.constantFrom("i1", "i2", "i3", "a");
const OBJECT = {
  wn_location: fc.record({ name: WORD, type: fc.constantFrom("PORT", "FAIRWAY"), locode_list: fc.constantFrom("FIHEL", "FIOUL,FIKEM"), nationality: fc.constant("FI"), latitude: near, longitude: near, winterport: fc.boolean() }),
  wn_restriction: fc.tuple(fc.record({ location_id: ID, text_compilation: WORD }), period).map(([a, b]) => ({ ...a, ...b })),
  wn_vessel: fc.record({ name: WORD, callsign: fc.constantFrom("OHAA", "X1"), shortcode: fc.constant("ABC"), imo: fc.integer({ min: 1000000, max: 1000009 }), mmsi: fc.integer({ min: 230000000, max: 230000009 }), type: fc.constantFrom("Tanker", "Icebreaker") }, { requiredKeys: ["name"] }),
  wn_activity: fc.tuple(fc.record({ icebreaker_id: ID, vessel_id: ID, type: fc.constantFrom("TOW", "MOVE"), reason: WORD, public_comment: WORD }, { requiredKeys: ["icebreaker_id", "type"] }), period).map(([a, b]) => ({ ...a, ...b })),
  wn_source: fc.record({ name: WORD, shortname: WORD, nationality: fc.constant("FI"), type: fc.constant("I"), vessel_id: ID }, { requiredKeys: ["name", "nationality", "type"] }),
  wn_port_suspension: fc.tuple(fc.record({ prenotification: fc.boolean(), ports_closed: fc.boolean(), due_to: WORD, specifications: WORD }, { requiredKeys: ["prenotification", "ports_closed", "due_to"] }), period).map(([a, b]) => ({ ...a, ...b })),
  wn_port_suspension_location: fc.record({ suspension_id: ID, location_id: ID }),
  wn_queue: fc.tuple(fc.record({ icebreaker_id: ID, vessel_id: ID, order_num: fc.nat(5) }), period).map(([a, b]) => ({ ...a, ...b })),
  wn_dirway: fc.record({ name: WORD, description: WORD }),
  wn_dirwaypoint: fc.record({ dirway_id: ID, order_num: fc.nat(9), name: WORD, latitude: near, longitude: near }),
};
const stored = (table, o) => Object.fromEntries(Object.keys(TABLES[table][1]).map((k) => [k, o[k] === undefined ? null : /_time$/.test(k) ? Date.parse(o[k]) : typeof o[k] === "boolean" ? Number(o[k]) : o[k]]));
const table = (t) => new Map(pg.rows(`select * from ${t}`).map(({ id, deleted, ...x }) => [id, { ...x, deleted }]));
const changeArb = (tables) => fc.constantFrom(...tables).chain((t) => fc.tuple(fc.constant(t), ID, fc.oneof({ weight: 3, arbitrary: OBJECT[t] }, fc.constant(null))));

await check({
  rule: "a history is non-trivial if objects are saved, a read if it serves something; the tables are compared with a model of IBNet's objects after every run",
  assumptions: ["PostgreSQL is emulated as far as the statements need", "IBNet answers a request with the latest state of every object changed after `from` and up to `to`, each once", "identifiers of live vessels and locodes of live locations are unique, and no coordinate is zero", "sources are not removed and have a vessel; a removed vessel has no live queue, and no live activity with an icebreaker", "the time of the last check is not claimed for a run in which IBNet refused a request"],
}, async ({ prop }) => {
  // ---------- following IBNet
  const runArb = (tables) => fc.record({ minutes: fc.integer({ min: 1, max: 3000 }), changes: fc.array(changeArb(tables), { maxLength: 8 }), refuse: some(fc.tuple(fc.constantFrom(...Object.values(TABLES).map((x) => x[0]), ""), fc.constantFrom(401, 404, "text", 201)), 4), fault: some(fc.tuple(fc.nat(60), fc.constantFrom("error", "drop")), 4) });
  await prop("updates", fc.oneof(fc.constant(Object.keys(TABLES)), fc.subarray(Object.keys(TABLES), { minLength: 1, maxLength: 2 })).chain((tables) => fc.array(runArb(tables), { minLength: 1, maxLength: 7 })), async (runs) => {
    pg.fresh(); nowMs = BASE; let rv = -1, n = 0, trouble = false; const source = Object.fromEntries(Object.keys(TABLES).map((t) => [t, new Map()]));
    const known = Object.fromEntries(Object.keys(TABLES).map((t) => [t, new Map()])), newest = {};
    for (const [i, run] of [...runs, { minutes: 5, changes: [] }].entries()) {
      nowMs += run.minutes * MIN; for (const [t, id, o] of run.changes) { rv++; const was = source[t].get(id); if (o === null && !was) { rv--; continue; } source[t].set(id, { rv, o: o ?? was.o, deleted: o === null }); }
      const before = Object.fromEntries(Object.keys(TABLES).map((t) => [t, table(t)])), asked = [], refused = run.refuse, unauthorised = [];
      web = async (r) => {
        const u = new URL(r.url), path = u.pathname.replace(/^\/api\//, ""); if (r.headers.get("authorization") !== "Basic dTpw" || u.host !== "ibnet.example" || r.method !== "GET") { unauthorised.push(r.url); return new Response("", { status: 401 }); }
        const from = Number(u.searchParams.get("from")), to = Number(u.searchParams.get("to")); if (path) asked.push([path, from, to]);
        if (refused?.[0] === path) return refused[1] === "text" ? new Response("<html>", { status: 200 }) : new Response("[]", { status: refused[1] });
        if (!path) return Response.json({ fromRv: 1, toRv: rv });
        const t = Object.keys(TABLES).find((k) => TABLES[k][0] === path); if (!t) return new Response("", { status: 404 });
        return Response.json([...source[t]].filter(([, x]) => x.rv > from && x.rv <= to).map(([id, x]) => (x.deleted ? { id, rv: x.rv, change_time: iso(nowMs), deleted: true } : { id, rv: x.rv, change_time: iso(nowMs), ...x.o })));
      };
      let k = 0, broke = false; pg.fault = run.fault ? (sql) => { if (/wn_|updated_timestamp/.test(sql) && k++ === run.fault[0]) { broke = true; return run.fault[1] === "drop" ? "drop" : { code: "53200", message: "no" }; } return undefined; } : undefined;
      const r = await quietly(update); pg.fault = undefined; if (!pg.settled) return false;
      same(unauthorised, [], "requests IBNet does not recognise"); const dead = refused?.[0] === "" ; if (broke || refused) trouble = true;
      same("error" in r, broke || dead, `whether run ${i} fails (database ${broke}, version ${dead}): ${r.error?.message}`);
      for (const [path, from, to] of asked) { const t = Object.keys(TABLES).find((x) => TABLES[x][0] === path); same(to, rv, `the version asked for ${path}`); for (const [id, x] of source[t]) if (x.rv <= from) { const row = before[t].get(id); if (x.deleted) must(!row || row.deleted === 1, `${t} ${id} is not asked for again, but not removed`); else same(row, { ...stored(t, x.o), deleted: 0 }, `${t} ${id}, which is not asked for again`); } }
      for (const [t, objects] of Object.entries(source)) {
        const rows = table(t);
        if (!broke && !dead && refused?.[0] !== TABLES[t][0]) { for (const [id, x] of objects) if (!(x.deleted && !known[t].has(id))) { known[t].set(id, { ...stored(t, x.o), deleted: Number(x.deleted) }); n++; } }
        if (broke) { for (const [id, got] of rows) { const old = known[t].get(id), x = objects.get(id); must(got.deleted ? old?.deleted || x?.deleted : [old, x && !x.deleted && { ...stored(t, x.o), deleted: 0 }].some((y) => y && JSON.stringify(y) === JSON.stringify(got)), `${t} ${id} after a failure: ${show(got)}`); known[t].set(id, got); } continue; }
        same([...rows.keys()].sort(), [...known[t].keys()].sort(), `which ${t} there are after run ${i}`);
        for (const [id, want] of known[t]) { const got = rows.get(id); if (want.deleted) same(got.deleted, 1, `${t} ${id} is removed`); else same(got, want, `${t} ${id} after run ${i}`); }
      }
      if (!broke && !refused) for (const t of Object.keys(TABLES)) if (asked.some(([p]) => p === TABLES[t][0])) same(pg.rows("select updated_time from updated_timestamp where updated_name = ?", `${t.toUpperCase()}_CHECK`)[0]?.updated_time, nowMs, `when ${t} was checked`);
      if (!trouble) for (const t of Object.keys(TABLES)) { const top = Math.max(-1, ...[...source[t].values()].map((x) => x.rv)); if (newest[t] !== top && [...known[t]].length) { same(pg.rows("select updated_time from updated_timestamp where updated_name = ?", t.toUpperCase())[0]?.updated_time, nowMs, `when ${t} changed`); newest[t] = top; } }
    }
    return n > 0 && (trouble ? "with failures" : "undisturbed");
  }, { runs: 250, thorough: 2500, needs: [update] });

  // ---------- vessels
  const vesselArb = fc.record({ imo: fc.oneof({ weight: 2, arbitrary: fc.constant(true) }, fc.constant(false)), mmsi: fc.oneof({ weight: 2, arbitrary: fc.constant(true) }, fc.constant(false)), callsign: some(fc.constant("OHAA"), 3), shortcode: some(fc.constant("ABC"), 3), type: some(fc.constant("Tanker"), 3), deleted: rarely(2), again: rarely(4) });
  const edge = fc.oneof(timeArb, fc.constantFrom(0, 1, -1, HOUR, -HOUR).map((d) => BASE - 7 * DAY + d), fc.constantFrom(BASE - 9 * DAY, BASE - 3 * DAY));
  const span = fc.tuple(edge, some(fc.oneof(later, fc.constantFrom(0, 2 * DAY, 4 * DAY)), 3)).map(([a, d]) => [a, d === undefined ? undefined : a + d]);
  const queueArb = fc.record({ ib: fc.nat(2), v: fc.nat(5), span, order: fc.nat(4), deleted: rarely(5) });
  const actArb = fc.record({ ib: some(fc.nat(2), 3), v: some(fc.nat(5), 3), span, type: fc.constantFrom("TOW", "LED", "MOVE"), reason: some(WORD, 2), comment: some(WORD, 2), deleted: rarely(5) }).filter((a) => a.ib !== undefined || a.v !== undefined);
  const whenArb = fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 3, arbitrary: edge });
  const worldArb = fc.record({ vessels: fc.array(vesselArb, { minLength: 6, maxLength: 6 }), queues: fc.array(queueArb, { maxLength: 6 }), acts: fc.array(actArb, { maxLength: 6 }), from: whenArb, to: whenArb, exact: fc.boolean(), checked: some(timeArb, 4), ask: fc.array(fc.tuple(fc.nat(5), fc.boolean()), { minLength: 1, maxLength: 3 }) });
  // vessels 0..2 are icebreakers with sources s0..s2
  function fill(o) {
    pg.fresh(); nowMs = BASE; const used = new Set([...o.queues, ...o.acts].filter((x) => !x.deleted && x.ib !== undefined).flatMap((x) => [x.v, x.ib]));
    const vs = o.vessels.map((v, i) => ({ id: `v${i}`, name: `V${i}`, callsign: v.callsign ?? null, shortcode: v.shortcode ?? null, imo: v.imo ? 1000000 + i : null, mmsi: v.mmsi ? 230000000 + i : null, type: v.type ?? null, deleted: !!v.deleted && i > 2 && !used.has(i) }));
    for (const [i, v] of vs.entries()) { pg.insert("wn_vessel", v); if (o.vessels[i].again) pg.insert("wn_vessel", { ...v, id: `old${i}`, name: "old", deleted: true }); }
    for (let i = 0; i < 3; i++) pg.insert("wn_source", { id: `s${i}`, name: `S${i}`, nationality: "FI", type: "I", vessel_id: `v${i}`, deleted: false });
    o.queues.forEach((q, i) => pg.insert("wn_queue", { id: `q${i}`, icebreaker_id: `s${q.ib}`, vessel_id: `v${q.v}`, start_time: new Date(q.span[0]), end_time: q.span[1] === undefined ? null : new Date(q.span[1]), order_num: q.order, deleted: q.deleted }));
    o.acts.forEach((a, i) => pg.insert("wn_activity", { id: `a${i}`, icebreaker_id: a.ib === undefined ? "" : `s${a.ib}`, vessel_id: a.v === undefined ? null : `v${a.v}`, type: a.type, reason: a.reason ?? null, public_comment: a.comment ?? null, start_time: new Date(a.span[0]), end_time: a.span[1] === undefined ? null : new Date(a.span[1]), deleted: a.deleted }));
    checkedAt("WN_VESSEL_CHECK", o.checked);
    return vs;
  }
  const ref = (v) => ({ imo: v.imo, mmsi: v.mmsi, name: v.name }), sorted = (l) => l.map((x) => JSON.stringify(x, Object.keys(x).sort().concat(["imo", "mmsi", "name"]))).sort();
  const times = (x) => ({ ...x, startTime: Date.parse(x.startTime), endTime: x.endTime === null ? null : Date.parse(x.endTime) });
  function expectVessel(vs, i, o, from, to) {
    const during = ([a, b]) => a <= (to ?? Infinity) && (b ?? a) >= (from ?? -Infinity), t = ([a, b]) => ({ startTime: a, endTime: b ?? null }), v = vs[i], activities = [], plannedAssistances = [];
    for (const a of o.acts) if (!a.deleted && during(a.span)) { const base = { type: a.type, reason: a.reason ?? null, publicComment: a.comment ?? null, ...t(a.span) }; if (a.v === i) activities.push({ ...base, ...(a.ib === undefined ? {} : { assistingVessel: ref(vs[a.ib]) }) }); if (a.ib === i && a.v !== i) activities.push({ ...base, ...(a.v === undefined ? {} : { assistedVessel: ref(vs[a.v]) }) }); }
    for (const q of o.queues) if (!q.deleted && during(q.span)) { const base = { queuePosition: q.order, ...t(q.span) }; if (q.v === i) plannedAssistances.push({ ...base, assistingVessel: ref(vs[q.ib]) }); if (q.ib === i && q.v !== i) plannedAssistances.push({ ...base, assistedVessel: ref(vs[q.v]) }); }
    return { name: v.name, callSign: v.callsign, shortcode: v.shortcode, imo: v.imo, mmsi: v.mmsi, type: v.type, activities, plannedAssistances };
  }
  function compare(got, want, what) {
    must(got && Array.isArray(got.activities) && Array.isArray(got.plannedAssistances), `${what}: ${show(got)}`); const { activities, plannedAssistances, lastUpdated, ...rest } = got, { activities: a, plannedAssistances: p, ...w } = want;
    same(rest, w, what); same(sorted(activities.map(times)), sorted(a), `${what}: its activities`); same(sorted(plannedAssistances.map(times)), sorted(p), `${what}: its planned assistances`);
  }
  const norm = (o) => ({ ...o, queues: o.queues.map((q) => (q.v === q.ib ? { ...q, v: 5 } : q)), acts: o.acts.map((a) => (a.v === a.ib ? { ...a, v: undefined } : a)) });
  await prop("vessels", worldArb, async (raw) => {
    const o = norm(raw), vs = fill(o), event = { ...(o.from === undefined ? {} : { activeFrom: o.exact ? iso(o.from) : iso(o.from).replace(".000Z", "+00:00") }), ...(o.to === undefined ? {} : { activeTo: iso(o.to) }) };
    const all = await get(getVessels, event, "vessels"); if (!pg.settled) return false; same(all.status, 200, "status"); same(all.timestamp, stampOf(o.checked), "Last-Modified");
    const body = JSON.parse(all.text), want = vs.map((v, i) => [v, expectVessel(vs, i, o, o.from ?? BASE - 7 * DAY, o.to)]).filter(([v, w]) => !v.deleted && (w.activities.length || w.plannedAssistances.length)).map(([, w]) => w);
    same(body.lastUpdated, o.checked === undefined ? null : iso(o.checked), "when the vessels were last updated"); same(body.vessels.map((v) => v.name).sort(), want.map((v) => v.name).sort(), `the vessels active from ${o.from === undefined ? "a week ago" : iso(o.from)} to ${o.to === undefined ? "ever" : iso(o.to)}`);
    for (const w of want) compare(body.vessels.find((v) => v.name === w.name), w, `vessel ${w.name}`);
    for (const [i, byImo] of o.ask) {
      const id = byImo ? vs[i].imo : vs[i].mmsi; if (id === null) continue; const r = await get(getVessels, { ...event, vesselId: String(id) }, `vessel ${id}`); if (!pg.settled) return false;
      if (vs[i].deleted) { same(r.status, 404, `status for vessel ${id}, which is removed`); continue; }
      same(r.status, 200, `status for vessel ${id}`); same(r.timestamp, stampOf(o.checked), "Last-Modified"); const got = JSON.parse(r.text); compare(got, expectVessel(vs, i, o, o.from, o.to), `vessel ${id} alone`); same(got.lastUpdated, o.checked === undefined ? undefined : iso(o.checked), "when the vessel was last updated");
    }
    same((await get(getVessels, { vesselId: "1999999" }, "an unknown vessel")).status, 404, "status for an unknown vessel");
    return want.length > 0 && (o.from === undefined && o.to === undefined ? "default time" : "in a time");
  }, { runs: 500, thorough: 4000, needs: [getVessels] });

  await prop("bad requests", fc.record({ who: fc.constantFrom("vessels", "locations", "dirways"), how: fc.constantFrom("from", "to", "id", "extra", "broken"), text: fc.constantFrom("x", "2026-13-01", "12x", "yesterday", "--") }), async ({ who, how, text }) => {
    pg.fresh(); nowMs = BASE; const h = { vessels: getVessels, locations: getLocations, dirways: getDirways }[who];
    if (how === "broken") { pg.fault = (sql) => (/wn_/.test(sql) ? { code: "53200", message: "no" } : undefined); const r = await get(h, {}, who); pg.fault = undefined; same(r.status, 500, `status of ${who} when the database fails`); return "broken"; }
    if (who === "dirways" || (who === "locations" && how !== "extra")) return false;
    const r = await get(h, { from: { activeFrom: text }, to: { activeTo: text, vesselId: "1234567" }, id: { vesselId: text }, extra: { other: text } }[how], who); same(r.status, 400, `status of ${who} with a bad ${how}`); return how;
  }, { runs: 80, thorough: 200 });

  await prop("size", fc.record({ over: fc.boolean(), rest: fc.integer({ min: 1, max: 20000 }) }), async ({ over, rest }) => {
    const o = { vessels: [1, 2, 3].map(() => ({ imo: true, mmsi: true })), queues: [], acts: [{ v: 1, span: [BASE, undefined], type: "WAIT", comment: "", deleted: false }] }; const LIMIT = 4.5 * 1024 * 1024, n = LIMIT + (over ? rest : -rest - 2000);
    fill(o); pg.db.prepare("update wn_activity set public_comment = ?").run("ä".repeat(n >> 1)); const r = await get(getVessels, {}, "vessels"); same(r.status, over ? 413 : 200, `status of an answer of about ${n} bytes`); return over ? "over" : "under";
  }, { runs: 4, thorough: 10 });

  // ---------- locations and dirways
  const locArb = fc.record({ name: WORD, codes: fc.subarray(["FIHEL", "FIOUL", "FIKEM", "FITOR"], { maxLength: 3 }), lat: near, lon: near, winterport: fc.boolean(), deleted: rarely(5) });
  await prop("locations", fc.record({ locs: fc.array(locArb, { maxLength: 4 }), restr: fc.array(fc.record({ at: fc.nat(3), text: WORD, span, deleted: rarely(4) }), { maxLength: 5 }), susp: fc.array(fc.record({ at: fc.array(fc.tuple(fc.nat(3), rarely(4)), { maxLength: 3 }), span, pre: fc.boolean(), closed: fc.boolean(), due: WORD, spec: some(WORD, 2), deleted: rarely(4) }), { maxLength: 4 }), ask: fc.constantFrom("FIHEL", "FIOUL", "FIKEM", "FITOR", "FI"), checked: some(timeArb, 4) }), async (o) => {
    pg.fresh(); nowMs = BASE; const taken = new Set(), locs = o.locs.map((l, i) => { const codes = l.deleted ? l.codes : l.codes.filter((c) => !taken.has(c)); if (!l.deleted) for (const c of codes) taken.add(c); return { ...l, id: `l${i}`, name: `${i} ${l.name}`, codes }; });
    for (const l of locs) pg.insert("wn_location", { id: l.id, name: l.name, type: "PORT", locode_list: l.codes.join(","), nationality: "FI", latitude: l.lat, longitude: l.lon, winterport: l.winterport, deleted: l.deleted });
    const p = ([a, b]) => ({ start_time: new Date(a), end_time: b === undefined ? null : new Date(b) }), t = ([a, b]) => ({ startTime: a, endTime: b ?? null });
    o.restr.forEach((r, i) => pg.insert("wn_restriction", { id: `r${i}`, location_id: `l${r.at}`, text_compilation: r.text, ...p(r.span), deleted: r.deleted }));
    o.susp.forEach((s, i) => { pg.insert("wn_port_suspension", { id: `s${i}`, ...p(s.span), prenotification: s.pre, ports_closed: s.closed, due_to: s.due, specifications: s.spec ?? null, deleted: s.deleted }); s.at.forEach(([at, deleted], j) => pg.insert("wn_port_suspension_location", { id: `s${i}l${j}`, suspension_id: `s${i}`, location_id: `l${at}`, deleted })); });
    checkedAt("WN_LOCATION_CHECK", o.checked);
    const want = (l, i) => ({ type: "Feature", geometry: { type: "Point", coordinates: [l.lon, l.lat] }, properties: { name: l.name, type: "PORT", locodeList: l.codes.join(","), nationality: "FI", winterport: l.winterport, restrictions: o.restr.filter((r) => r.at === i && !r.deleted).map((r) => ({ textCompilation: r.text, ...t(r.span) })), suspensions: o.susp.filter((s) => !s.deleted).flatMap((s) => s.at.filter(([at, d]) => at === i && !d).map(() => ({ prenotification: s.pre, portsClosed: s.closed, dueTo: s.due, specifications: s.spec ?? null, ...t(s.span) }))) } });
    const cmp = (got, w, what) => { const { restrictions, suspensions, ...rest } = got.properties, { restrictions: r, suspensions: s, ...x } = w.properties; same([got.type, got.geometry, rest], [w.type, w.geometry, x], what); same(sorted(restrictions.map(times)), sorted(r), `${what}: its restrictions`); same(sorted(suspensions.map(times)), sorted(s), `${what}: its suspensions`); };
    const all = await get(getLocations, {}, "locations"); if (!pg.settled) return false; same(all.status, 200, "status"); same(all.timestamp, stampOf(o.checked), "Last-Modified"); const body = JSON.parse(all.text), live = locs.map((l, i) => [l, i]).filter(([l]) => !l.deleted);
    same(body.type, "FeatureCollection", "type"); same(body.lastUpdated ?? null, o.checked === undefined ? null : iso(o.checked), "when the locations were last updated"); same(body.features.map((f) => f.properties.name).sort(), live.map(([l]) => l.name).sort(), "the locations");
    for (const [l, i] of live) cmp(body.features.find((f) => f.properties.name === l.name), want(l, i), `location ${l.id}`);
    const one = await get(getLocations, { locode: o.ask }, `location ${o.ask}`); if (!pg.settled) return false; const hit = live.find(([l]) => l.codes.includes(o.ask)); same(one.status, hit ? 200 : 404, `status for ${o.ask}`); if (hit) { same(one.timestamp, stampOf(o.checked), "Last-Modified"); cmp(JSON.parse(one.text), want(...hit), `location ${o.ask} alone`); }
    return live.length > 0 && (hit ? "found" : "not found");
  }, { runs: 300, thorough: 2500, needs: [getLocations] });

  await prop("dirways", fc.record({ ways: fc.array(fc.tuple(WORD, rarely(4)), { maxLength: 4 }), points: fc.array(fc.record({ way: fc.nat(3), order: fc.nat(30), lat: near, lon: near, deleted: rarely(4) }), { maxLength: 12 }), checked: some(timeArb, 4) }), async (o) => {
    pg.fresh(); nowMs = BASE; o.ways.forEach(([d, deleted], i) => pg.insert("wn_dirway", { id: `d${i}`, name: `D${i}`, description: d, deleted })); const seen = new Set(), pts = o.points.filter((p) => { const k = `${p.way}/${p.order}`; return p.deleted || (!seen.has(k) && seen.add(k)); });
    pts.forEach((p, i) => pg.insert("wn_dirwaypoint", { id: `p${i}`, dirway_id: `d${p.way}`, order_num: p.order, name: "p", latitude: p.lat, longitude: p.lon, deleted: p.deleted })); checkedAt("WN_DIRWAY_CHECK", o.checked);
    const r = await get(getDirways, {}, "dirways"); if (!pg.settled) return false; same(r.status, 200, "status"); same(r.timestamp, stampOf(o.checked), "Last-Modified"); const body = JSON.parse(r.text); same(body.lastUpdated ?? null, o.checked === undefined ? null : iso(o.checked), "when the dirways were last updated");
    const want = o.ways.flatMap(([d, deleted], i) => { const c = pts.filter((p) => p.way === i && !p.deleted).sort((a, b) => a.order - b.order).map((p) => [p.lon, p.lat]); return deleted || !c.length ? [] : [{ type: "Feature", properties: { name: `D${i}`, description: d }, geometry: c.length === 1 ? { type: "Point", coordinates: c[0] } : { type: "LineString", coordinates: c } }]; });
    same(body.features.sort((a, b) => (a.properties.name < b.properties.name ? -1 : 1)), want, "the dirways"); return want.length > 0;
  }, { runs: 250, thorough: 2000, needs: [getDirways] });
  await pg.stop();
});
