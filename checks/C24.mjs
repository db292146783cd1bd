// C24: port call estimates from the queue: validated, attached to a port call, stored.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import { useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import * as Q from "#repo/marine/portactivity/src/lambda/process-queue/process-queue.ts";
import * as V from "#repo/marine/portactivity/src/service/timestamp-validation.ts";
import * as S from "#repo/marine/portactivity/src/service/timestamps.ts";
import { portSchema as schema } from "#stub/portactivity.mjs";

const pg = await new PgLite({ schema, types: { event_time: "ts", record_time: "ts", eta: "ts", portcall_id: "int", imo: "int", sog: "float" } }).start();
useDatabase(pg);
const NOW = Date.parse("2024-05-06T07:08:09.010Z"), MIN = 60e3, H = 3600e3;
const [PNET, AWAKE, CALC, PRED] = ["Portnet", "Awake.AI", "SCHEDULES_CALCULATED", "Awake.AI Pred"];
const TYPES = ["ATA", "ATB", "ATD", "ETA", "ETB", "ETP", "ETD", "RPS", "PPS", "APS", "APC"];
const iso = (ms) => new Date(ms).toISOString();
const IMOS = [9074729, 9434345, 8814275, 9999999], MMSIS = [230000000, 230000001, 230000002, 239999999], PORTS = ["FIHEL", "FIRAU", "FIKOK"];
const when = fc.oneof(fc.integer({ min: -300, max: 3000 }).map((m) => iso(NOW + m * MIN)), fc.integer({ min: -300, max: 3000 }).map((m) => iso(NOW + m * MIN + 3 * H).replace("Z", "+03:00")));
const opt = (a, w = 4) => fc.oneof({ weight: w, arbitrary: a }, { weight: 1, arbitrary: fc.constant(undefined) });
const conf = fc.oneof(fc.constantFrom(undefined, 0, -1, 1, -100, 100, -0.5, 0.5, -7.2, 7.2, "-5", null), fc.integer({ min: -500, max: 500 }));

const good = fc.record({
  eventType: fc.oneof({ weight: 3, arbitrary: fc.constantFrom("ETA", "ETB", "ETD", "ETA", "ETB", "ETD", "ATA", "ATD") }, { weight: 1, arbitrary: fc.constantFrom(...TYPES) }), eventTime: when, recordTime: when,
  source: fc.constantFrom(PNET, AWAKE, CALC, PRED, "Port HKO", "Pilotweb"),
  ship: fc.oneof({ weight: 8, arbitrary: fc.record({ imo: opt(fc.constantFrom(IMOS[0], IMOS[0], ...IMOS)), mmsi: opt(fc.constantFrom(MMSIS[0], MMSIS[0], ...MMSIS)) }) }, { weight: 1, arbitrary: fc.record({ imo: fc.constantFrom(...IMOS), mmsi: fc.constantFrom(0, -1) }) }),
  location: fc.record({ port: fc.constantFrom("FIHEL", ...PORTS), berth: fc.option(fc.constantFrom("B1", "LONGBERTH"), { nil: undefined }), portArea: fc.option(fc.constantFrom("PASILA", "A"), { nil: undefined }), from: fc.option(fc.constantFrom("FIHKO", "SESTO"), { nil: undefined }) }),
  portcallId: opt(fc.constantFrom(11, 12, 13), 1), sourceId: fc.option(fc.constantFrom("s1", "s2"), { nil: undefined }),
  eventTimeConfidenceLowerDiff: conf, eventTimeConfidenceUpperDiff: conf,
});
// one thing wrong with it
const FLAWS = [
  ["no event type", (t) => delete t.eventType], ["unknown event type", (t) => { t.eventType = "XXX"; }], ["lower case event type", (t) => { t.eventType = t.eventType.toLowerCase(); }], ["no event time", (t) => delete t.eventTime], ["bad event time", (t) => { t.eventTime = "tomorrow"; }], ["impossible event time", (t) => { t.eventTime = "2024-02-30T10:00:00Z"; }],
  ["no record time", (t) => delete t.recordTime], ["bad record time", (t) => { t.recordTime = "2024-13-01T00:00:00Z"; }], ["empty record time", (t) => { t.recordTime = ""; }], ["no source", (t) => delete t.source], ["no ship", (t) => delete t.ship], ["ship without numbers", (t) => { t.ship = {}; }], ["ship with zeros", (t) => { t.ship = { imo: 0, mmsi: 0 }; }],
  ["no location", (t) => delete t.location], ["no port", (t) => delete t.location.port], ["long port", (t) => { t.location.port += "X"; }], ["long from", (t) => { t.location.from = "SESTOX"; }], ["long area", (t) => { t.location.portArea = "PASILAX"; }],
];
const record = fc.oneof({ weight: 5, arbitrary: fc.record({ t: good, flaw: fc.constant(-1) }) }, { weight: 2, arbitrary: fc.record({ t: good, flaw: fc.nat(FLAWS.length - 1) }) });
const make = ({ t, flaw }) => { const c = JSON.parse(JSON.stringify(t)); if (flaw >= 0) FLAWS[flaw][1](c); return c; };
const world = fc.record({
  vessels: fc.uniqueArray(fc.record({ i: fc.nat(2), m: fc.nat(2), at: fc.nat(500) }), { selector: (v) => v.at, maxLength: 4 }),
  calls: fc.uniqueArray(fc.record({ i: opt(fc.constantFrom(0, 0, 1, 2)), m: opt(fc.constantFrom(0, 0, 1, 2)), port: fc.constantFrom("FIHEL", ...PORTS), at: fc.nat(500), d: fc.array(fc.record({ eta: opt(fc.integer({ min: -100, max: 3000 }), 2), etd: opt(fc.integer({ min: -100, max: 3000 }), 2), ata: opt(fc.integer({ min: -3000, max: 500 }), 2), atd: opt(fc.integer({ min: -3000, max: 500 }), 2) }), { maxLength: 2 }) }), { selector: (c) => c.at, maxLength: 4 }),
  ais: fc.uniqueArray(fc.record({ m: fc.nat(2), sog: fc.constantFrom(0, 1.9, 2, 2.1, 15), nav: fc.constantFrom(0, 1, 2, 5, 6, 7, 8, 15), age: fc.constantFrom(0, 5, 30, 59, 61, 90) }), { selector: (a) => `${a.m}/${a.age}`, maxLength: 4 }),
});
function fill(w) {
  pg.fresh();
  for (const v of w.vessels) pg.insert("vessel", { imo: IMOS[v.i], mmsi: MMSIS[v.m], timestamp: NOW - v.at * MIN });
  w.calls.forEach((c, n) => {
    pg.insert("port_call", { port_call_id: 100 + n, imo_lloyds: c.i === undefined ? null : IMOS[c.i], mmsi: c.m === undefined ? null : MMSIS[c.m], port_to_visit: c.port, port_call_timestamp: NOW - c.at * MIN });
    for (const d of c.d) pg.insert("port_area_details", { port_call_id: 100 + n, ...Object.fromEntries(Object.entries(d).filter(([, v]) => v !== undefined).map(([k, v]) => [k, NOW + v * MIN])) });
  });
  for (const a of w.ais) pg.insert("vessel_location", { mmsi: MMSIS[a.m], sog: a.sog, nav_stat: a.nav, modified: NOW - a.age * MIN });
}
const newest = (l) => l.sort((a, b) => a.at - b.at)[0];

// ---- the reference ----
function valid(w, t, flaw) {
  if (flaw >= 0 || (!t.ship.mmsi && !t.ship.imo)) return undefined;
  if (t.source === PRED && t.eventType === "ETD") return undefined;
  if (t.source === CALC && ["ETA", "ETB"].includes(t.eventType) && t.ship.mmsi) {
    const a = w.ais.filter((x) => MMSIS[x.m] === t.ship.mmsi && x.age < 60).sort((x, y) => x.age - y.age)[0];
    if (a && ([1, 5, 6].includes(a.nav) || a.sog < 2)) return undefined;
  }
  const lo = t.eventTimeConfidenceLowerDiff, hi = t.eventTimeConfidenceUpperDiff;
  const both = typeof lo === "number" && typeof hi === "number" && lo < 0 && hi > 0;
  return { ...t, lo: both ? lo : undefined, hi: both ? hi : undefined };
}
function calls(w, t) {
  if (t.portcallId) return [t.portcallId];
  const vs = w.vessels.map((v) => ({ imo: IMOS[v.i], mmsi: MMSIS[v.m], at: v.at })), cs = w.calls.map((c) => ({ imo: c.i === undefined ? null : IMOS[c.i], mmsi: c.m === undefined ? null : MMSIS[c.m], at: c.at }));
  const { imo, mmsi } = t.ship;
  const M = mmsi ?? newest(vs.filter((v) => v.imo === imo))?.mmsi ?? newest(cs.filter((c) => c.imo === imo))?.mmsi;
  const I = imo ?? newest(vs.filter((v) => v.mmsi === mmsi))?.imo ?? newest(cs.filter((c) => c.mmsi === mmsi))?.imo;
  const ty = t.eventType === "ETB" && [CALC, AWAKE].includes(t.source) ? "ETA" : t.eventType, k = ty.toLowerCase();
  if (!["eta", "etd", "ata", "atd"].includes(k)) return [];
  const found = w.calls.flatMap((c, n) => c.d.map((d) => ({ id: 100 + n, c: cs[n], port: c.port, at: d[k] })))
    .filter((x) => ((M != null && x.c.mmsi === M) || (I != null && x.c.imo === I)) && x.port === t.location.port && x.at !== undefined && (k[0] === "e" ? x.at >= 0 : x.at <= 0))
    .map((x) => ({ id: x.id, d: Math.abs(NOW + x.at * MIN - Date.parse(t.eventTime)) }));
  const best = Math.min(...found.map((x) => x.d));
  return [...new Set(found.filter((x) => x.d === best).map((x) => x.id))];
}
function identity(w, t) {
  const vs = w.vessels.map((v) => ({ imo: IMOS[v.i], mmsi: MMSIS[v.m], at: v.at })), cs = w.calls.map((c) => ({ imo: c.i === undefined ? null : IMOS[c.i], mmsi: c.m === undefined ? null : MMSIS[c.m], at: c.at }));
  const imo = t.ship.imo ?? newest(vs.filter((v) => v.mmsi === t.ship.mmsi))?.imo ?? newest(cs.filter((c) => c.mmsi === t.ship.mmsi))?.imo;
  const mmsi = t.ship.mmsi > 0 ? t.ship.mmsi : newest(vs.filter((v) => v.imo === t.ship.imo))?.mmsi ?? newest(cs.filter((c) => c.imo === t.ship.imo && c.mmsi))?.mmsi;
  return { imo: imo || undefined, mmsi: mmsi || undefined };
}
const stored = () => pg.rows("select * from port_call_timestamp").map((r) => ({ type: r.event_type, time: iso(r.event_time), record: iso(r.record_time), source: r.event_source, imo: r.ship_imo, mmsi: r.ship_mmsi, port: r.location_locode, area: r.location_portarea, from: r.location_from_locode, call: r.portcall_id, id: r.source_id, lo: r.event_time_confidence_lower_diff, hi: r.event_time_confidence_upper_diff }));
const sorted = (l) => l.map((x) => JSON.stringify(x)).sort();
const key = (r) => JSON.stringify([r.imo, r.source, r.port, r.type, r.time, r.record, r.call]);

await check({
  rule: "batches of estimates, whole and damaged, over ships, port calls and positions in tables, with statements failing; non-trivial when something is stored, replaced, refused or failing",
  assumptions: ["an estimate whose number is unknown leaves the number out; zero stands for an unknown MMSI only", "when two port calls are equally close either is right", "the SQL engine stands for PostgreSQL"],
}, async ({ prop }) => {
  const batch = fc.record({ w: world, batches: fc.array(fc.array(fc.oneof({ weight: 8, arbitrary: record.map((r) => ({ r })) }, { weight: 2, arbitrary: fc.nat(5).map((again) => ({ again })) }, { weight: 1, arbitrary: fc.constantFrom("", "{", "null", "[]", "7", "\"x\"").map((text) => ({ text })) }, { weight: 1, arbitrary: record.map((r) => ({ r, fail: true })) }), { minLength: 1, maxLength: 5 }), { minLength: 1, maxLength: 3 }) });
  await prop("a batch from the queue", batch, async ({ w, batches }) => {
    const clock = fakeClock(NOW, ["Date"]);
    try {
      fill(w);
      let model = []; const classes = new Set(), past = [];
      for (const b of batches) {
        const items = b.map((x) => { if (x.again !== undefined && past.length) return past[x.again % past.length]; const y = x.r ? { ...x, t: make(x.r) } : x.text !== undefined ? x : { text: "{}" }; if (y.t && !y.fail) past.push(y); return y; });
        // the statement that stores a record marked as failing is refused
        const marks = new Set(items.filter((i) => i.fail).map((i) => i.t));
        let cur = -1;
        const bodies = items.map((i) => (i.text !== undefined ? i.text : JSON.stringify(i.t)));
        const fails = new Map(items.map((i, n) => [n, i.fail]));
        let n = -1;
        const event = { Records: bodies.map((body, j) => Object.defineProperty({ messageId: `m${j}` }, "body", { enumerable: true, get() { n = j; return body; } })) };
        pg.fault = (sql) => (/insert\s+into\s+port_call_timestamp/i.test(sql) && n >= 0 && fails.get(n) ? { code: "XX000", message: "refused" } : undefined);
        void cur; void marks;
        const { value: res, error } = await capture(() => Q.handlerFn()(event));
        pg.fault = undefined;
        if (!pg.settled) return false;
        must(!error, () => `the batch failed: ${error?.stack} for ${show(bodies)}`);
        same(res.length, items.length, "number of results");
        for (const [j, i] of items.entries()) {
          const what = `record ${j} ${show(bodies[j])}`;
          if (i.text !== undefined) {
            let parsed, broken = false; try { parsed = JSON.parse(i.text); } catch { broken = true; }
            if (broken) { same(res[j].status, "rejected", `malformed ${what}`); classes.add("malformed"); } else must(parsed === null || res[j].value === undefined, () => `${what} was stored`);
            continue;
          }
          const v = valid(w, i.t, i.r.flaw);
          if (!v) { same([res[j].status, res[j].value], ["fulfilled", undefined], `${what} should be refused`); classes.add("refused"); continue; }
          const ids = calls(w, v), who = identity(w, v);
          if ((!ids.length && v.source !== PRED) || !who.imo) { same([res[j].status, res[j].value], ["fulfilled", undefined], `${what} belongs to no port call or ship`); classes.add("unknown"); continue; }
          if (i.fail) { same(res[j].status, "rejected", `${what} could not be stored`); classes.add("failing"); continue; }
          same(res[j].status, "fulfilled", `${what}: ${show(res[j].reason?.message)}`);
          const rowOf = (call) => ({ type: v.eventType, time: iso(Date.parse(v.eventTime)), record: iso(Date.parse(v.recordTime)), source: v.source, imo: who.imo, mmsi: who.mmsi ?? null, port: v.location.port, area: v.location.portArea ?? null, from: v.location.from ?? null, call: call ?? null, id: v.sourceId ?? null, lo: v.lo === undefined ? null : Math.floor(v.lo), hi: v.hi === undefined ? null : Math.ceil(v.hi) });
          // which of several equally close port calls was taken can be told only from what is stored
          const call = ids.length > 1 ? ids.find((c) => stored().some((r) => key(r) === key(rowOf(c)))) ?? ids[0] : ids[0];
          const r = rowOf(call);
          let moved = 0;
          if (v.source === PNET) { const keep = model.filter((x) => !(x.source === PNET && x.call === call && x.port !== v.location.port)); moved = model.length - keep.length; model = keep; }
          const dup = r.call !== null && model.some((x) => key(x) === key(r));
          if (!dup) model.push(r);
          if (dup) { same(res[j].value, undefined, `${what} is already stored`); classes.add("repeated"); } else { alike(res[j].value, { ship_mmsi: r.mmsi, ship_imo: r.imo, location_locode: r.port, locodeChanged: moved > 0 }, `result of ${what}`); classes.add(moved ? "moved" : v.lo !== undefined ? "stored with confidence" : "stored"); }
        }
        alike(sorted(stored()), sorted(model), `stored estimates after ${show(bodies)}`);
      }
      return [...classes].sort().join(", ") || false;
    } finally { pg.fault = undefined; clock.uninstall(); }
  }, { runs: 1500, thorough: 20000, needs: [Q.handlerFn] });

  await prop("validation alone", fc.record({ w: world, r: record }), async ({ w, r }) => {
    const clock = fakeClock(NOW, ["Date"]);
    try {
      const t = make(r);
      let asked = 0;
      const db = { oneOrNone: async (_q, p) => { asked++; const a = w.ais.filter((x) => MMSIS[x.m] === [p].flat()[0] && x.age < 60).sort((x, y) => x.age - y.age)[0]; return a ? { sog: a.sog, nav_stat: a.nav } : null; } };
      const { value: got, error } = await capture(() => V.validateTimestamp(structuredClone(t), db));
      if (error) throw error;
      const v = valid(w, t, r.flaw);
      if (!v) { same(got, undefined, `${r.flaw >= 0 ? FLAWS[r.flaw][0] : ""} ${show(t)} should be refused`); return r.flaw >= 0 ? FLAWS[r.flaw][0] : asked ? "position" : "prediction"; }
      const clean = (o) => JSON.parse(JSON.stringify(o));
      alike(clean(got), clean({ eventType: t.eventType, eventTime: t.eventTime, recordTime: t.recordTime, source: t.source, ship: t.ship, location: t.location, portcallId: t.portcallId, sourceId: t.sourceId, eventTimeConfidenceLowerDiff: v.lo, eventTimeConfidenceUpperDiff: v.hi }), `${show(t)} validated`);
      return asked ? "position accepted" : "accepted";
    } finally { clock.uninstall(); }
  }, { runs: 2000, thorough: 30000, needs: [V.validateTimestamp] });

  // ships whose estimates are asked for, and clean up
  const eta = fc.record({ ship: fc.nat(3), port: fc.nat(2), call: fc.nat(4), eta: fc.integer({ min: -200, max: 6000 }), age: fc.nat(3000), type: fc.constantFrom("ETA", "ETA", "ETA", "ETD"), src: fc.constantFrom(PNET, PNET, PNET, AWAKE), close: fc.constantFrom(-5, 5, 14, 16, 100) });
  await prop("ships arriving", fc.record({ etas: fc.array(eta, { maxLength: 8 }), calls: fc.array(fc.record({ age: fc.constantFrom(0, 71, 73), ata: fc.boolean() }), { minLength: 5, maxLength: 5 }), ask: fc.subarray([0, 1, 2], { minLength: 1 }) }), async ({ etas, calls, ask }) => {
    const clock = fakeClock(NOW, ["Date"]);
    try {
      pg.fresh();
      calls.forEach((c, n) => { pg.insert("port_call", { port_call_id: n + 1, port_call_timestamp: NOW - c.age * H }); pg.insert("port_area_details", { port_call_id: n + 1, ata: c.ata ? NOW : null }); });
      const rec = new Set(), rows = [];
      for (const e of etas) {
        let r = NOW - e.age * MIN; while (rec.has(r)) r -= MIN; rec.add(r);
        rows.push({ event_type: e.type, event_source: e.src, event_time: NOW + (e.src === AWAKE ? e.close : e.eta) * MIN, record_time: r, location_locode: PORTS[e.port], ship_mmsi: MMSIS[e.ship], ship_imo: IMOS[e.ship], portcall_id: e.call + 1, location_portarea: "A" });
      }
      for (const r of rows) pg.insert("port_call_timestamp", r);
      const { value: got, error } = await capture(() => S.findETAShipsByLocode(ask.map((i) => PORTS[i])));
      if (error) throw error;
      if (!pg.settled) return false;
      const last = rows.filter((r) => !rows.some((x) => x.event_type === r.event_type && x.location_locode === r.location_locode && x.event_source === r.event_source && x.ship_mmsi === r.ship_mmsi && x.portcall_id === r.portcall_id && x.record_time > r.record_time));
      const cand = last.filter((r) => r.event_type === "ETA" && r.event_source === PNET && r.event_time < NOW + 84 * H && ask.some((i) => PORTS[i] === r.location_locode) && !calls[r.portcall_id - 1].ata && calls[r.portcall_id - 1].age < 72);
      const first = new Map(); for (const r of cand) { const o = first.get(r.ship_imo); if (!o || r.event_time < o.event_time) first.set(r.ship_imo, r); }
      if (cand.some((r) => r !== first.get(r.ship_imo) && r.event_time === first.get(r.ship_imo).event_time)) return false;
      const calledFor = new Set([...first.values()].map((r) => r.portcall_id));
      const near = new Set(last.filter((r) => r.event_type === "ETA" && r.event_source === AWAKE && calledFor.has(r.portcall_id) && r.event_time < NOW + 15 * MIN).map((r) => r.ship_imo));
      const want = [...first.values()].filter((r) => !near.has(r.ship_imo));
      alike(sorted(got.map((g) => ({ imo: g.imo, locode: g.locode, call: g.portcall_id, area: g.port_area_code, eta: g.eta.toISOString() }))), sorted(want.map((r) => ({ imo: r.ship_imo, locode: r.location_locode, call: r.portcall_id, area: "A", eta: iso(r.event_time) }))), "ships whose estimate is asked for");
      return near.size && first.size ? "too close" : cand.length > first.size ? "several calls" : want.length ? "arriving" : false;
    } finally { clock.uninstall(); }
  }, { runs: 800, thorough: 8000, needs: [S.findETAShipsByLocode] });

  await prop("clean up", fc.record({ ts: fc.array(fc.integer({ min: -200, max: 200 }), { maxLength: 8 }), ps: fc.array(fc.integer({ min: -200, max: 200 }), { maxLength: 8 }) }), async ({ ts, ps }) => {
    const clock = fakeClock(NOW, ["Date"]);
    try {
      pg.fresh();
      ts.forEach((h, i) => pg.insert("port_call_timestamp", { event_time: NOW + h * H + (h === -168 ? 1 : 0), record_time: i, source_id: String(h) }));
      ps.forEach((h, i) => pg.insert("pilotage", { id: i, pilotage_end_time: NOW + h * H + 1, vessel_name: String(h) }));
      const { error } = await capture(() => S.deleteOldTimestampsAndPilotages());
      if (error) throw error;
      if (!pg.settled) return false;
      alike(pg.rows("select source_id v from port_call_timestamp").map((r) => Number(r.v)).sort((a, b) => a - b), ts.filter((h) => h >= -168).sort((a, b) => a - b), "estimates kept");
      alike(pg.rows("select vessel_name v from pilotage").map((r) => Number(r.v)).sort((a, b) => a - b), ps.filter((h) => h >= -168).sort((a, b) => a - b), "pilotages kept");
      return [...ts, ...ps].some((h) => h < -168);
    } finally { clock.uninstall(); }
  }, { runs: 150, thorough: 1500, needs: [S.deleteOldTimestampsAndPilotages] });
  await pg.stop();
});
