// C42: faults of aids to navigation: the sources' faults in the table and in the public API.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
const HOUR = 3600e3, DAY = 86400e3, BASES = [Date.UTC(2026, 0, 14, 23, 59, 30), Date.UTC(2026, 5, 1, 5), Date.UTC(2026, 9, 27, 22, 30), Date.UTC(2026, 3, 2)];
const SOURCES = [{ url: "https://aton.example/c?f=json", domain: "C_NA" }, { url: "https://aton.example/nc", domain: "NC_NA" }, { url: "https://bridge.example/x", domain: "BRIDGE" }];
process.env.INTEGRATIONS = JSON.stringify(SOURCES);
const { handler: update } = await import("#repo/marine/aton-faults/src/lambda/update-faults/update-faults.ts");
const { handler: getFaults } = await import("#repo/marine/aton-faults/src/lambda/get-faults/get-faults.ts");
const names = ["aton_fault_type", "aton_fault_state", "aton_type"];
const schema = `${names.map((t) => `create table ${t}(name_fi text primary key, name_sv text not null, name_en text not null);`).join("\n")}
create table area(area_number integer primary key, description_fi text not null, description_sv text not null, description_en text not null);
create table aton_fault(id integer primary key, entry_timestamp integer not null, fixed_timestamp integer, state text not null references aton_fault_state, type text not null references aton_fault_type, domain text not null, fixed integer not null, aton_id integer, aton_name_fi text, aton_name_sv text, aton_type_fi text not null references aton_type, fairway_number integer, fairway_name_fi text, fairway_name_sv text, area_number integer not null references area, geometry text not null);
create trigger g1 after insert on aton_fault begin update aton_fault set geometry = wkb(new.geometry) where id = new.id; end;
create trigger g2 after update of geometry on aton_fault when new.geometry <> wkb(new.geometry) begin update aton_fault set geometry = wkb(new.geometry) where id = new.id; end;
create table updated_timestamp(updated_name text primary key, updated_time integer not null, updated_by text not null);`;
function wkb(text) {
  const m = /^(POINT|LINESTRING)\s*\((.*)\)$/.exec(text); if (!m) return text; const pts = m[2].split(",").map((p) => p.trim().split(" ").map(Number)), b = Buffer.alloc(9 + 16 * pts.length); let o = 0;
  b.writeUInt8(1, o++); b.writeUInt32LE(m[1] === "POINT" ? 1 : 2, o); o += 4; if (m[1] !== "POINT") { b.writeUInt32LE(pts.length, o); o += 4; } for (const [x, y] of pts) { b.writeDoubleLE(x, o); b.writeDoubleLE(y, o + 8); o += 16; } return b.subarray(0, o).toString("hex");
}
let nowMs = 0;
const pg = await new PgLite({ schema, ints: true, now: () => nowMs, functions: { wkb }, types: { entry_timestamp: "ts", fixed_timestamp: "ts", fixed: "bool", updated: "ts", updated_time: "ts", geometry: "text" } }).start();
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host });
let web; globalThis.fetch = async (req, init) => web(req instanceof Request ? req : new Request(req, init));
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v);
const iso = (ms) => new Date(Number(ms)).toISOString(), quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const LANGS = ["fi", "sv", "en"], TYPES = [["Valo pimeä", "Ljus släckt", "Light out"], ["Vaurioitunut", "Skadad", "Damaged"]], STATES = [["Avoin", "Öppen", "Open"], ["Kirjattu", "Registrerad", "Registered"], ["Korjattu", "Reparerad", "Repaired"], ["Aiheeton", "Ogrundad", "Unfounded"]], ATON = [["Poiju", "Boj", "Buoy"], ["Linjamerkki", "Ensmärke", "Leading beacon"]], AREAS = [["Suomenlahti", "Finska viken", "Gulf of Finland"], ["Perämeri", "Bottenviken", "Bay of Bothnia"], ["Saimaa", "Saimen", "Saimaa"]];
function lookups() { TYPES.forEach((n) => pg.insert("aton_fault_type", { name_fi: n[0], name_sv: n[1], name_en: n[2] })); STATES.forEach((n) => pg.insert("aton_fault_state", { name_fi: n[0], name_sv: n[1], name_en: n[2] })); ATON.forEach((n) => pg.insert("aton_type", { name_fi: n[0], name_sv: n[1], name_en: n[2] })); AREAS.forEach((n, i) => pg.insert("area", { area_number: i + 1, description_fi: n[0], description_sv: n[1], description_en: n[2] })); }
// ---------- the time of Helsinki; the hours around a change of the clock are left out
const lastSunday = (y, m) => { const d = new Date(Date.UTC(y, m + 1, 0)); d.setUTCDate(d.getUTCDate() - d.getUTCDay()); return d.getTime() + HOUR; };
const summer = (ms) => { const y = new Date(ms).getUTCFullYear(); return ms >= lastSunday(y, 2) && ms < lastSunday(y, 9); };
const settledTime = (ms) => { const y = new Date(ms).getUTCFullYear(); return [lastSunday(y, 2), lastSunday(y, 9)].some((t) => Math.abs(ms - t) <= 2 * HOUR) ? ms + 5 * HOUR : ms; };
const helsinki = (ms) => iso(ms + (summer(ms) ? 3 : 2) * HOUR).slice(0, 19).replace("T", " ");

const when = fc.tuple(fc.integer({ min: -5000, max: 0 }), fc.nat(3599)).map(([h, s]) => h * HOUR + s * 1000);
const fault = fc.record({ id: fc.oneof(fc.nat(9), fc.integer({ min: -2139947345, max: -2139947340 })), entry: when, fixedAt: rare(when, 1), state: fc.constantFrom(...STATES.map((s) => s[0]), "Avoin"), fixed: fc.constantFrom(0, 1) });
// what never changes of a fault follows from its number
const fixedOf = (id) => { const n = Math.abs(id); return { type: TYPES[n % 2][0], aton_id: 75000 + n % 100, aton_name_fi: ["H 10", "Itätoukki 'A'", "ä\"x"][n % 3], aton_name_sv: ["H 10", "Östra", ""][n % 3], aton_type_fi: ATON[(n >> 1) % 2][0], fairway_number: 5500 + n % 10, fairway_name_fi: `Väylä ${n % 4} $1`, fairway_name_sv: `Farled ${n % 4}`, area_number: 1 + (n % 3), domain: SOURCES[n % 3].domain, geometry: n % 4 === 3 ? { type: "LineString", coordinates: [[20 + (n % 7), 60.123456789], [21.5, 60]] } : { type: "Point", coordinates: [20 + (n % 7) / 3, 59.5 + (n % 5) / 7] } }; };
const feature = (f, base) => { const x = fixedOf(f.id); return { type: "Feature", geometry: x.geometry, properties: { ID: f.id, FAULT_TYPE: f.unknown ? "Outo" : x.type, FAULT_ENTRY_TIMESTAMP: helsinki(settledTime(base + f.entry)), FAULT_FIXED_TIMESTAMP: f.fixedAt === undefined ? null : helsinki(settledTime(base + f.fixedAt)), FAULT_STATE: f.state, FAULT_FIXED: f.fixed, TL_NUMERO: x.aton_id, TL_NIMI_FI: x.aton_name_fi, TL_NIMI_SE: x.aton_name_sv, TL_TYYPPI_FI: x.aton_type_fi, VAYLA_JNRO: x.fairway_number, VAYLA_NIMI_FI: x.fairway_name_fi, VAYLA_NIMI_SE: x.fairway_name_sv, MERIALUE_NRO: x.area_number } }; };
const whole = (ms) => Math.floor(ms / 1000) * 1000;
const rowOf = (f, base) => { const { geometry, ...x } = fixedOf(f.id); return { id: f.id, entry_timestamp: whole(settledTime(base + f.entry)), fixed_timestamp: f.fixedAt === undefined ? null : whole(settledTime(base + f.fixedAt)), state: f.state, fixed: f.fixed, ...x, geometry: wkb(geometry.type === "Point" ? `POINT(${geometry.coordinates.join(" ")})` : `LINESTRING(${geometry.coordinates.map((c) => c.join(" ")).join(",")})`) }; };
const COLS = ["id", "entry_timestamp", "fixed_timestamp", "state", "fixed", "type", "aton_id", "aton_name_fi", "aton_name_sv", "aton_type_fi", "fairway_number", "fairway_name_fi", "fairway_name_sv", "area_number", "domain", "geometry"];
const line = (r) => JSON.stringify(COLS.map((c) => r[c])), table = () => new Map(pg.rows("select * from aton_fault").map((r) => [r.id, line(r)])), stamp = () => pg.rows("select updated_time from updated_timestamp where updated_name = 'ATON_FAULTS_CHECK'")[0]?.updated_time;

await check({
  rule: "a history is non-trivial if a run changes the table, a read if it is refused or finds some of the faults only",
  assumptions: ["PostgreSQL and PostGIS are emulated as far as the statements need, wkx as far as WKB is read", "what a fault is about (its kind, place, fairway and area) never changes, and the lookup tables have the kinds, states and areas of every fault but those meant to be refused", "the hours around a change of the clock in Helsinki are left out", "when a source cannot be read, the time of the check is not looked at; after a fault that could not be saved it may be the old or the new"],
}, async ({ prop }) => {
  await prop("runs", fc.record({ base: fc.constantFrom(...BASES), runs: fc.array(fc.record({ hours: fc.integer({ min: 0, max: 300 }), faults: fc.uniqueArray(fault, { selector: (f) => f.id, maxLength: 6, size: "max" }), again: fc.boolean(), fail: rare(fc.tuple(fc.nat(2), fc.constantFrom(404, 403, "network", "text", "shape")), 3), unknown: rare(fc.nat(5), 5), breaks: rare(fc.tuple(fc.nat(8), fc.constantFrom("insert", "any", "drop")), 3) }), { minLength: 1, maxLength: 5, size: "max" }) }), async (o) => {
    pg.fresh(); lookups(); nowMs = o.base; let changed = 0, last = [];
    for (const run of o.runs) {
      nowMs += run.hours * HOUR; const now = nowMs, before = table(), stampWas = stamp(), asked = [];
      const faults = (run.again ? [...new Map([...last, ...run.faults].map((f) => [f.id, f])).values()] : run.faults).map((f, i) => ({ ...f, unknown: run.unknown === i })); last = run.faults; let hit, n = 0;
      web = async (req) => {
        const i = asked.length, s = SOURCES[i]; asked.push(req.url); same([req.method, req.url], ["GET", s?.url], `request ${i} of the run`);
        if (run.fail?.[0] === i) { const how = run.fail[1]; if (how === "network") throw Object.assign(new Error("reset"), { code: "ECONNRESET" }); return how === "text" ? new Response("<html>", { status: 200 }) : how === "shape" ? new Response(JSON.stringify({ error: { code: 498 } })) : new Response("no", { status: how }); }
        return new Response(JSON.stringify({ type: "FeatureCollection", features: faults.filter((f) => fixedOf(f.id).domain === s.domain).map((f) => feature(f, o.base)) }), { headers: { "content-type": "application/json" } });
      };
      pg.fault = (sql) => { if (!run.breaks || hit !== undefined) return undefined; const [at, how] = run.breaks; if (how === "insert" ? !/^\s*insert/i.test(sql) : /^\s*(commit|rollback|begin)/i.test(sql)) return undefined; if (n++ !== at) return undefined; hit = asked.length - 1; return how === "drop" ? "drop" : { code: "53100", message: "disk full" }; };
      const r = await quietly(() => update()); pg.fault = undefined; if (!pg.settled && !faults.some((f) => f.unknown)) return false;
      const saved = (f) => { const i = SOURCES.findIndex((s) => s.domain === fixedOf(f.id).domain); return f.state !== "Kirjattu" && run.fail?.[0] !== i; };
      const wrong = faults.filter((f) => f.unknown && saved(f) && !before.has(f.id)).map((f) => SOURCES.findIndex((s) => s.domain === fixedOf(f.id).domain)), after = table(), bad = Math.min(hit ?? 9, ...wrong, 9);
      const want = new Map(before); for (const f of faults) if (saved(f) && !(f.unknown && !before.has(f.id))) want.set(f.id, line(rowOf(f, o.base)));
      if (bad < 9) { must("error" in r, "a fault that was not saved goes unreported"); for (const [id, l] of after) must(l === want.get(id) || l === before.get(id), `fault ${id} after a failed run: ${l}, before: ${before.get(id)}, in the source: ${want.get(id)}`); for (const id of before.keys()) must(after.has(id), `fault ${id} is lost`); must(stamp() === stampWas || stamp() === now, `the time of the check is ${stamp()} after a failed run at ${now}`); }
      else { must(!("error" in r), `a run fails: ${r.error?.message}`); same(asked.length, SOURCES.length, "how many sources are asked"); same([...after.values()].sort(), [...want.values()].sort(), "the faults saved"); if (!run.fail) same(stamp(), now, "the time of the check"); }
      if ([...after].some(([id, l]) => before.get(id) !== l)) changed++;
    }
    return changed > 0 && (changed > 1 ? "several" : "one");
  }, { runs: 400, thorough: 4000, needs: [update] });

  const query = fc.record({ language: rare(fc.constantFrom("fi", "FI", "Sv", "sv", "en", "EN", "ge", "", "toString", "__proto__"), 1), fixed_in_hours: rare(fc.oneof(fc.constantFrom("", "1", "0.5", "2399", "168", "1e2", "2399.99"), fc.integer({ min: 1, max: 2399 }).map(String)), 1) });
  const WRONG = [["fixed_in_hours", "0"], ["fixed_in_hours", "2400"], ["fixed_in_hours", "-2"], ["fixed_in_hours", "12345567"], ["fixed_in_hours", "week"], ["fixed_in_hours", "NaN"], ["fixed_in_hours", "Infinity"], ["lang", "fi"], ["fixedInHours", "2"]];
  await prop("reads", fc.record({ base: fc.constantFrom(...BASES), faults: fc.uniqueArray(fault, { selector: (f) => f.id, maxLength: 7, size: "max" }), checked: rare(when, 1), queries: fc.array(fc.record({ q: query, edge: rare(fc.tuple(fc.nat(6), fc.constantFrom(-1, 0, 1)), 1), wrong: rare(fc.constantFrom(...WRONG), 6), breaks: rare(fc.constantFrom("error", "drop"), 9) }), { minLength: 1, maxLength: 6, size: "max" }) }), async (o) => {
    pg.fresh(); lookups(); nowMs = o.base; const rows = o.faults.map((f) => rowOf(f, o.base)); let some = 0; for (const r of rows) pg.insert("aton_fault", r); if (o.checked !== undefined) pg.insert("updated_timestamp", { updated_name: "ATON_FAULTS_CHECK", updated_time: o.base + o.checked, updated_by: "" });
    for (const { q, edge, wrong, breaks } of o.queries) {
      const event = Object.fromEntries(Object.entries(q).filter(([, v]) => v !== undefined)); if (wrong) { event[wrong[0]] = wrong[1]; const r = await quietly(() => getFaults(event)); same(r.value?.status, 400, `the answer to ${show(event)}: ${r.error?.message}`); some++; continue; }
      const hours = q.fixed_in_hours ? Number(q.fixed_in_hours) : 168, i = Math.max(0, LANGS.indexOf((q.language || "en").toLowerCase())), l = LANGS.includes((q.language || "en").toLowerCase()) ? i : 2; let hit = 0;
      // asked when a fault has been fixed for exactly that long, or a millisecond more or less
      const f = edge && rows[edge[0] % (rows.length || 1)]?.fixed_timestamp; nowMs = f ? f + Math.floor(hours) * HOUR + edge[1] : o.base; const limit = nowMs - Math.floor(hours) * HOUR - (hours % 1) * HOUR;
      if (breaks) pg.fault = (sql) => { if (!/^\s*select/i.test(sql)) return undefined; hit++; return breaks === "drop" ? "drop" : { code: "57P01", message: "terminating connection" }; };
      const r = await quietly(() => getFaults(event)); pg.fault = undefined; must(!/LANG\b/.test(pg.unsupported ?? ""), `a statement still has the placeholder of the language: ${pg.unsupported}`); if (!pg.settled) return false;
      if (hit) { must(!("error" in r), `an error is thrown at API Gateway: ${r.error?.message}`); same(r.value.status, 500, "the answer when the database fails"); some++; continue; }
      if (hours % 1 && rows.some((x) => x.fixed_timestamp !== null && Math.abs(x.fixed_timestamp - limit) < HOUR)) continue;
      must(!("error" in r), `${show(event)} fails: ${r.error?.message}`); same(r.value.status, 200, `the status of ${show(event)}`); const got = JSON.parse(Buffer.from(r.value.body, "base64").toString("utf8"));
      const tr = (list, fi) => list.find((n) => n[0] === fi)[l], want = rows.filter((x) => x.fixed_timestamp === null || x.fixed_timestamp >= limit).map((x) => ({ type: "Feature", properties: { id: x.id, entry_timestamp: iso(x.entry_timestamp), fixed_timestamp: x.fixed_timestamp === null ? null : iso(x.fixed_timestamp), type: tr(TYPES, x.type), domain: x.domain, state: tr(STATES, x.state), fixed: !!x.fixed, aton_id: x.aton_id, aton_name_fi: x.aton_name_fi, aton_name_sv: x.aton_name_sv, aton_type: tr(ATON, x.aton_type_fi), fairway_number: x.fairway_number, fairway_name_fi: x.fairway_name_fi, fairway_name_sv: x.fairway_name_sv, area_number: x.area_number, area_description: AREAS[x.area_number - 1][l] }, geometry: fixedOf(x.id).geometry }));
      const by = (x) => [...x].sort((a, b) => a.properties.id - b.properties.id); same(got.type, "FeatureCollection", "the type"); same(by(got.features), by(want), `what ${show(event)} finds at ${iso(nowMs)}`);
      const at = o.checked === undefined ? null : o.base + o.checked; same(got.lastUpdated, at === null ? null : iso(at), "the time of the check"); same(r.value.timestamp, at === null ? undefined : new Date(at).toUTCString(), "the time of the answer"); if (want.length && want.length < rows.length) some++;
    }
    return some > 0 && (some > 2 ? "several" : "some");
  }, { runs: 500, thorough: 5000, needs: [getFaults] });
});
