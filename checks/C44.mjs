// C44: sea state reports: each report of a batch is saved whole or counted as an error, and one report of a site is the latest.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
const { handler } = await import("#repo/marine/sea-state-estimate/src/lambda/update-sse-data/update-sse-data.ts");
const COLS = ["site_number", "site_name", "last_update", "sea_state", "trend", "wind_wave_dir", "confidence", "heel_angle", "light_status", "temperature", "longitude", "latitude", "site_type"];
const schema = `create table sse_report(sse_report_id integer primary key, created integer not null, latest integer not null, site_number integer not null, site_name text not null, last_update integer not null, sea_state text not null, trend text not null, wind_wave_dir integer not null, confidence text not null, heel_angle real, light_status text, temperature integer, longitude real not null, latitude real not null, site_type text);
create table updated_timestamp(updated_name text primary key, updated_time integer not null, updated_by text not null);`;
let nowMs = Date.UTC(2026, 2, 3, 4, 5, 6);
const pg = await new PgLite({ schema, ints: true, now: () => nowMs, types: { created: "ts", last_update: "ts" } }).start();
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host });
const quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v), mostly = (v) => fc.oneof({ weight: 12, arbitrary: v }, fc.constant(undefined));
const report = fc.record({ site: fc.integer({ min: 20000, max: 20003 }), ago: fc.integer({ min: 0, max: 500 }), sea: fc.constantFrom("CALM", "LIGHT", "MODERATE", "BREEZE", "GALE", "STORM"), trend: fc.constantFrom("UNKNOWN", "NO_CHANGE", "ASCENDING", "DESCENDING"), dir: fc.integer({ min: 0, max: 359 }), confidence: fc.constantFrom("POOR", "MODERATE", "GOOD"), type: fc.constantFrom("FIXED", "FLOATING"), extra: mostly(fc.record({ heel: rare(fc.constantFrom(0, -4, 12.5), 1), light: rare(fc.constantFrom("ON", "OFF", "ON_D"), 1), temp: rare(fc.integer({ min: -30, max: 30 }), 1), lat: mostly(fc.constantFrom(59.1234567, 65.5)), lon: mostly(fc.constantFrom(20.7654321, 25)) })), unknown: fc.boolean(), bad: rare(fc.constantFrom("sea", "name"), 12) });
const names = ["Hästhällarna", "O'Kari \"x\"", "$1", "Kalajoki"];
const json = (r, i) => ({ Site: { SiteNumber: r.site, SiteName: r.bad === "name" ? null : names[r.site - 20000], SiteType: r.type, ...(r.unknown && { Extra: 1 }) }, SSE_Fields: { Last_Update: new Date(r.at).toISOString(), SeaState: r.bad === "sea" ? null : r.sea, Trend: r.trend, WindWaveDir: r.dir, Confidence: r.confidence }, ...(r.extra && { Extra_Fields: Object.fromEntries(Object.entries({ Heel_Angle: r.extra.heel, Light_Status: r.extra.light, Temperature: r.extra.temp, Coord_Latitude: r.extra.lat, Coord_Longitude: r.extra.lon }).filter(([, v]) => v !== undefined)) }) });
const rowOf = (r) => [r.site, names[r.site - 20000], r.at, r.sea, r.trend, r.dir, r.confidence, r.extra.heel ?? null, r.extra.light ?? null, r.extra.temp ?? null, r.extra.lon, r.extra.lat, r.type];
const valid = (r) => r.extra !== undefined && r.extra.lat !== undefined && r.extra.lon !== undefined;

await check({
  rule: "a history is non-trivial if a site is reported again or a report is refused",
  assumptions: ["PostgreSQL is emulated as far as the statements need; the gateway has validated the message", "coordinates are not exactly zero", "no failure happens at the moment of a commit"],
}, async ({ prop }) => {
  await prop("reports", fc.record({ batches: fc.array(fc.record({ minutes: fc.nat(2000), reports: fc.array(report, { maxLength: 6, size: "max" }), none: rare(fc.constantFrom("undefined", "null", "empty"), 12), breaks: rare(fc.tuple(fc.nat(16), fc.constantFrom("error", "error", "drop")), 1) }), { minLength: 1, maxLength: 5, size: "max" }) }), async (o) => {
    pg.fresh(); const saved = [], latest = new Map(); let stampAt, refused = 0, again = 0;
    for (const b of o.batches) {
      nowMs += b.minutes * 60e3 + 1; const reports = b.reports.map((r) => ({ ...r, at: nowMs - r.ago * 60e3 }));
      if (b.none) { const r = await quietly(() => handler(b.none === "undefined" ? undefined : b.none === "null" ? { SSE_Reports: null } : {})); must("error" in r && /BAD_REQUEST|Bad request/i.test(String(r.error?.message ?? r.error)), `an empty message is answered ${show(r.value ?? String(r.error))}`); refused++; continue; }
      let n = 0, hit; pg.fault = (sql) => { if (!b.breaks || hit || /^\s*(rollback|commit)/i.test(sql)) return undefined; if (n++ !== b.breaks[0]) return undefined; hit = sql; return b.breaks[1] === "drop" ? "drop" : { code: "53100", message: "disk full" }; };
      const before = pg.rows("select count(*) n from sse_report")[0].n, r = await quietly(() => handler({ SSE_Reports: reports.map(json) })); pg.fault = undefined; if (!pg.settled) return false;
      const rows = pg.rows(`select latest, created, ${COLS.join(",")} from sse_report order by sse_report_id`), fresh = rows.slice(Number(before)), text = (x) => JSON.stringify(COLS.map((c) => x[c]));
      if (hit === undefined) must(!("error" in r), `a batch fails: ${String(r.error?.message ?? r.error)}`);
      const good = reports.filter((x) => valid(x) && !x.bad);
      if (!("error" in r)) { same(r.value.saved + r.value.errors, reports.length, "saved and refused reports"); if (!hit) same(r.value.saved, good.length, "the reports saved"); same(fresh.length, r.value.saved, "the new rows"); }
      must(fresh.length >= good.length - (hit ? (b.breaks[1] === "drop" || "error" in r ? 99 : 1) : 0), `${fresh.length} of ${good.length} good reports are saved although one statement failed: ${hit}`);
      // the new rows are the good reports in their order, less those that failed
      let i = 0; for (const x of fresh) { while (i < good.length && JSON.stringify(rowOf(good[i])) !== text(x)) i++; must(i < good.length, `a row that was not reported: ${text(x)}`); if (latest.has(good[i].site)) again++; latest.set(good[i].site, text(x)); saved.push(text(x)); i++; same(x.created, nowMs, "the time of the row"); stampAt = nowMs; }
      same(rows.map(text), saved, "the reports kept"); refused += reports.length - good.length;
      for (const [site, l] of latest) same(rows.filter((x) => x.site_number === site && x.latest).map(text), [l], `the latest of site ${site}`);
      same(pg.rows("select updated_time t from updated_timestamp where updated_name = 'SSE_DATA'")[0]?.t, stampAt, "the time of the last update");
    }
    return again + refused > 0 && (again && refused ? "both" : again ? "again" : "refused");
  }, { runs: 500, thorough: 5000, needs: [handler] });
});
