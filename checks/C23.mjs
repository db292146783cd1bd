// C23: port call estimates, merged and read back through the public API and the ship list.
import vm from "node:vm";
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import { useDatabase, secret } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import * as E from "#repo/marine/portactivity/src/event-sourceutil.ts";
import * as G from "#repo/marine/portactivity/src/lambda/get-timestamps/get-timestamps.ts";
import * as S from "#repo/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts";
import * as M from "#repo/marine/portactivity/src/lambda/get-locode-metadata/get-locode-metadata.ts";
import { portSchema as schema } from "#stub/portactivity.mjs";

const pg = await new PgLite({ schema, types: { event_time: "ts", record_time: "ts", portcall_id: "int", ship_imo: "int", ship_mmsi: "int" } }).start();
useDatabase(pg);
secret["shiplist.auth"] = "right";
const MIN = 60e3, H = 3600e3;
const [PNET, AWAKE, HKO, VTSO, CALC, PRED, PILOT] = ["Portnet", "Awake.AI", "Port HKO", "SCHEDULES_VTS_CONTROLLED", "SCHEDULES_CALCULATED", "Awake.AI Pred", "Pilotweb"];
const SOURCES = [PNET, AWAKE, HKO, VTSO, CALC, PRED, PILOT, "Other"];
const DISPLAY = { [PNET]: "PNET", [AWAKE]: "VTS A", [HKO]: "Port HKO", [VTSO]: "VTS O", [CALC]: "VTS A", [PRED]: "PRED" };
const isA = (t) => t.source === AWAKE || t.source === CALC;
const IMOS = [9074729, 9434345, 8814275], PORTS = ["FIHEL", "FIRAU"], TYPES = ["ETA", "ETD", "ATA", "ATD", "ETB", "RPS"];
const iso = (ms) => new Date(ms).toISOString();

// a case is a set of rows; minutes relative to now. Ages and differences count as whole minutes, rounded up.
const row = fc.record({
  source: fc.oneof({ weight: 3, arbitrary: fc.constantFrom(AWAKE, CALC, PRED) }, { weight: 2, arbitrary: fc.constantFrom(...SOURCES) }),
  type: fc.oneof({ weight: 4, arbitrary: fc.constant("ETA") }, { weight: 1, arbitrary: fc.constant("ETB") }, { weight: 1, arbitrary: fc.constantFrom(...TYPES) }), ship: fc.nat(2), call: fc.nat(2), port: fc.nat(1), noCall: fc.boolean(),
  // tenths of minutes
  event: fc.oneof({ weight: 3, arbitrary: fc.constantFrom(0, 1, 589, 590, 595, 600, 601, 1000, -500, 300) }, { weight: 2, arbitrary: fc.tuple(fc.constantFrom(-12 * 600, -6 * 600, -600, 0, 600, 2 * 600, 24 * 600, 96 * 600, 200 * 600, 14 * 24 * 600), fc.integer({ min: -700, max: 700 })).map(([a, b]) => a + b) }, { weight: 1, arbitrary: fc.integer({ min: -24000, max: 300000 }) }),
  age: fc.oneof(fc.constantFrom(0, 10, 589, 590, 595, 600, 601, 700), fc.integer({ min: 0, max: 9000 })),
  from: fc.nat(3), lower: fc.option(fc.integer({ min: -9000, max: 0 })), upper: fc.option(fc.constantFrom(0, 5, 9000)),
  // a row may be that before it but for one thing
  like: fc.option(fc.constantFrom("source", "type", "ship", "call", "event", "age", "noCall", "callAndNoCall"), { freq: 2 }), area: fc.option(fc.constantFrom("VUOS", "PASI")), sid: fc.option(fc.constantFrom("1", "abc")),
});
const NOW = Date.parse("2024-05-06T07:08:09.010Z");
function build(rows) {
  const seen = new Set(), seenRec = new Set(), out = [];
  let prev;
  for (let r of rows) {
    if (prev && r.like) r = { ...prev, age: r.age, ...(r.like === "callAndNoCall" ? { call: r.call, noCall: !prev.noCall } : r.like === "noCall" ? { noCall: !prev.noCall } : { [r.like]: r[r.like] }) };
    prev = r;
    const noCall = r.noCall && ![AWAKE, CALC].includes(r.source);
    const port = PORTS[(r.call + r.port * 0) % 2], imo = IMOS[r.ship];
    const portcallId = noCall ? undefined : 100 + r.ship * 10 + r.call;
    out.push({ source: r.source, eventType: r.type, eventTime: NOW + Math.round(r.event * 6) * 1000, recordTime: NOW - Math.round(r.age * 6) * 1000, imo, mmsi: 230000000 + r.ship, port, from: r.from === 0 ? PORTS[0] : r.from === 1 ? PORTS[1] : undefined, portcallId, lower: r.lower ?? undefined, upper: r.upper ?? undefined, area: r.area ?? undefined, sid: r.sid ?? undefined });
  }
  // one row for a source, event and port call; record times differ
  return out.filter((t) => {
    const k = [t.source, t.eventType, t.imo, t.port, t.portcallId ?? "none"].join();
    if (seen.has(k) && isA(t)) return false;
    seen.add(k);
    while (seenRec.has(t.recordTime)) t.recordTime -= 1000;
    seenRec.add(t.recordTime);
    return true;
  });
}
const whole = (ms) => Math.ceil(ms / MIN);

// ---- the reference ----
function merged(ts, now) {
  const kept = ts.filter((t) => !(t.source === PRED && !t.portcallId && ts.some((o) => o.source === PRED && o.portcallId && o.imo === t.imo && o.port === t.port && o.eventType === t.eventType && o.eventTime === t.eventTime)));
  const out = [];
  const groups = new Map();
  for (const t of kept) { const k = `${t.portcallId ?? `-`}/${t.eventType}`; groups.set(k, [...(groups.get(k) ?? []), t]); }
  for (const g of groups.values()) {
    let a = g.filter(isA);
    const calc = a.find((t) => t.source === CALC), awake = a.find((t) => t.source === AWAKE);
    if (calc && (whole(now - calc.recordTime) >= 60 || (awake && whole(calc.eventTime - awake.eventTime) >= 60))) a = a.filter((t) => t !== calc);
    out.push(...g.filter((t) => !isA(t) && !(t.source === PRED && a.length)));
    if (a.length === 1) out.push(a[0]);
    if (a.length > 1) out.push({ ...calc, eventTime: Math.trunc((calc.eventTime + awake.eventTime) / 2), both: true });
  }
  return out;
}
const sortable = (l) => l.map((x) => JSON.stringify(x)).sort().map((x) => JSON.parse(x));
function ordered(list, msg) { for (let i = 1; i < list.length; i++) must(Date.parse(list[i - 1]) <= Date.parse(list[i]), () => `${msg}: ${list[i - 1]} comes before ${list[i]}`); }
const api = (t) => ({ eventType: t.eventType, eventTime: iso(t.eventTime), recordTime: iso(t.recordTime), source: t.source, ship: { imo: t.imo, mmsi: t.mmsi }, location: { port: t.port, ...(t.from && { from: t.from }), ...(t.area && { portArea: t.area }) }, ...(t.portcallId && { portcallId: t.portcallId }), ...(t.sid && { sourceId: t.sid }), ...(t.lower !== undefined && { eventTimeConfidenceLowerDiff: t.lower }), ...(t.upper !== undefined && { eventTimeConfidenceUpperDiff: t.upper }) });
const kind = (ts, m) => (m.some((t) => t.both) ? "averaged" : m.length < ts.length ? "dropped" : m.length > 1 ? "kept" : false);

// ---- the rows a read sees: the latest record of each source, event and port call ----
const latest = (rows) => rows.filter((r) => r.recordTime === Math.max(...rows.filter((x) => x.eventType === r.eventType && x.port === r.port && x.imo === r.imo && x.source === r.source && (!x.portcallId || !r.portcallId || x.portcallId === r.portcallId)).map((x) => x.recordTime)));
const store = (rows) => { pg.fresh(); for (const t of rows) pg.insert("port_call_timestamp", { event_type: t.eventType, event_time: t.eventTime, event_source: t.source, record_time: t.recordTime, ship_mmsi: t.mmsi, ship_imo: t.imo, location_locode: t.port, location_from_locode: t.from, location_portarea: t.area, portcall_id: t.portcallId, source_id: t.sid, event_time_confidence_lower_diff: t.lower, event_time_confidence_upper_diff: t.upper }); };
// where a browser ends a script: an end tag, but not the one of a script inside a comment
function scriptText(t) {
  let state = 0;
  for (const m of t.matchAll(/<!--|-->|<(\/?)script[\s/>]/gi)) {
    if (m[0] === "<!--") state ||= 1; else if (m[0] === "-->") state = 0;
    else if (!m[1]) { if (state === 1) state = 2; } else if (state === 2) state = 1; else return t.slice(0, m.index);
  }
  return t;
}
const decode = (r) => (r.isBase64Encoded === false ? r.body : Buffer.from(r.body, "base64").toString("utf8"));

await check({
  rule: "sets of estimates from all sources for several ships, port calls and ports, recorded and expected around the limits, merged directly and read back through the Lambda functions from tables; non-trivial when an estimate is averaged or dropped, or several are read",
  assumptions: ["estimates of the two averaged sources always belong to a port call and are unique for it, as the process that stores them ensures", "ages and differences count in whole minutes, rounded up, as the code asks for", "the SQL engine stands for PostgreSQL"],
}, async ({ prop }) => {
  await prop("estimates are merged", fc.record({ rows: fc.array(row, { maxLength: 9 }), rev: fc.boolean() }), async ({ rows, rev }) => {
    const ts = build(rows);
    const clock = fakeClock(NOW, ["Date"]);
    try {
      const input = ts.map(api); if (rev) input.reverse();
      const before = JSON.stringify(input);
      const got = E.mergeTimestamps(input);
      same(JSON.stringify(input), before, "the given estimates were changed");
      const want = merged(ts, NOW);
      ordered(got.map((t) => t.eventTime), "order");
      alike(sortable(got), sortable(want.map(api)), "merged estimates");
      // estimates of other ships do not matter
      for (const imo of IMOS) alike(sortable(got.filter((t) => t.ship.imo === imo && t.portcallId)), sortable(E.mergeTimestamps(input.filter((t) => t.ship.imo === imo)).filter((t) => t.portcallId)), `estimates of one ship alone`);
      return kind(ts, want);
    } finally { clock.uninstall(); }
  }, { runs: 4000, thorough: 60000, needs: [E.mergeTimestamps] });

  await prop("source names", fc.oneof(fc.constantFrom(...SOURCES), fc.string()), (s) => { same(E.getDisplayableNameForEventSource(s), Object.hasOwn(DISPLAY, s) ? DISPLAY[s] : s, `name of ${show(s)}`); return s in DISPLAY; }, { runs: 200, needs: [E.getDisplayableNameForEventSource] });

  const q = fc.record({
    locode: fc.option(fc.constantFrom("FIHEL", "fihel", "FIRAU", "FIRAU", "SESTO", "FI", "FIHEL1", ""), { nil: undefined }),
    mmsi: fc.option(fc.constantFrom(230000000, "230000001", 230000002, 99999999, 1000000000, "abc", 100000000, 999999999), { nil: undefined }),
    imo: fc.option(fc.constantFrom(9074729, "9434345", 8814275, 9074728, 1000000, 99999999, "x"), { nil: undefined }),
    source: fc.option(fc.constantFrom(...SOURCES, "none"), { nil: undefined }),
  });
  await prop("reading through the API", fc.record({ rows: fc.array(row, { maxLength: 10 }), q, only: fc.nat(4) }), async ({ rows, q, only }) => {
    const ts = build(rows);
    if (only) q = { [["locode", "mmsi", "imo", "source"][only - 1]]: q[["locode", "mmsi", "imo", "source"][only - 1]] };
    const clock = fakeClock(NOW, ["Date"]);
    try {
      store(ts);
      const { value: r, error } = await capture(() => G.handler({ ...q }));
      if (error) throw error;
      if (!pg.settled) return false;
      const imoOk = (v) => /^\d{7}$/.test(String(v)) && Number(v) >= 1e6 && [7, 6, 5, 4, 3, 2].reduce((s, w, i) => s + w * Number(String(v)[i]), 0) % 10 === Number(String(v)[6]);
      const bad = (!q.locode && !q.mmsi && !q.imo && !q.source) || (q.locode && !/^FI[A-Z]{3}$/i.test(q.locode)) || (q.mmsi && !(Number(q.mmsi) >= 1e8 && Number(q.mmsi) < 1e9)) || (q.imo && !imoOk(q.imo));
      if (bad) { same(r.status, 400, `status for ${show(q)}`); return "rejected"; }
      same(r.status, 200, `status for ${show(q)}`);
      const L = q.locode?.toUpperCase();
      const match = q.locode ? (t) => t.port === L || (t.from === L && t.source === PILOT) : q.imo ? (t) => t.imo === Number(q.imo) : q.mmsi ? (t) => t.mmsi === Number(q.mmsi) : (t) => t.source === q.source;
      const rowsRead = latest(ts).filter((t) => t.eventTime > NOW - 12 * H && (t.source !== PNET || t.eventTime < NOW + 14 * 24 * H) && match(t));
      const want = merged(rowsRead, NOW).map((t) => ({ ...api(t), source: DISPLAY[t.source] ?? t.source }));
      const got = JSON.parse(decode(r));
      ordered(got.map((t) => t.eventTime), "order");
      const clean = (o) => JSON.parse(JSON.stringify(o, (k, v) => (v === null ? undefined : v)));
      alike(sortable(got.map(clean).map((t) => ({ eventType: t.eventType, eventTime: t.eventTime, recordTime: t.recordTime, source: t.source, ship: { imo: t.ship.imo, mmsi: t.ship.mmsi }, location: { port: t.location.port, ...(t.location.from && { from: t.location.from }), ...(t.location.portArea && { portArea: t.location.portArea }) }, ...(t.portcallId && { portcallId: t.portcallId }), ...(t.sourceId && { sourceId: t.sourceId }), ...(t.eventTimeConfidenceLowerDiff !== undefined && { eventTimeConfidenceLowerDiff: t.eventTimeConfidenceLowerDiff }), ...(t.eventTimeConfidenceUpperDiff !== undefined && { eventTimeConfidenceUpperDiff: t.eventTimeConfidenceUpperDiff }) }))), sortable(want), `estimates for ${show(q)}`);
      return kind(rowsRead, merged(rowsRead, NOW));
    } finally { clock.uninstall(); }
  }, { runs: 1200, thorough: 12000, needs: [G.handler] });

  const NAMES = ["Alpha", "</script><script>alert(1)</script>", "B\"ö'\u2028", "<!--", "<!--<script>", "<SCRIPT/", "-->", "$&", "Ä\\n"];
  const ship = fc.record({ vessels: fc.array(fc.record({ n: fc.nat(NAMES.length - 1), at: fc.nat(50) }), { maxLength: 2 }), call: fc.option(fc.nat(NAMES.length - 1), { nil: undefined }) });
  const sq = fc.record({ auth: fc.oneof({ weight: 6, arbitrary: fc.constant("right") }, { weight: 1, arbitrary: fc.constantFrom("wrong", "", undefined, "Right", "right ", " right", "r", "righ", "rightr", "ght") }), locode: fc.oneof({ weight: 6, arbitrary: fc.constantFrom("FIHEL", "firau", "FIRAU") }, { weight: 1, arbitrary: fc.constantFrom("SESTO", "", undefined, "FIHELX") }), interval: fc.option(fc.constantFrom("1", "24", "96", "200", "2"), { nil: undefined }) });
  await prop("the public ship list", fc.record({ rows: fc.array(row, { minLength: 1, maxLength: 10 }), ships: fc.array(ship, { minLength: 3, maxLength: 3 }), q: sq }), async ({ rows, ships, q }) => {
    const ts = build(rows);
    const clock = fakeClock(NOW, ["Date"]);
    try {
      store(ts);
      const name = ships.map((s, i) => {
        const seen = new Set(); const vs = s.vessels.filter((v) => !seen.has(v.at) && seen.add(v.at));
        for (const v of vs) pg.insert("vessel", { imo: IMOS[i], mmsi: 230000000 + i, name: NAMES[v.n], timestamp: NOW - v.at * MIN });
        if (s.call !== undefined) pg.insert("port_call", { port_call_id: 900 + i, imo_lloyds: IMOS[i], mmsi: 1, vessel_name: NAMES[s.call], port_to_visit: "FIHEL", port_call_timestamp: NOW });
        const v = vs.sort((a, b) => a.at - b.at)[0];
        return v ? NAMES[v.n] : s.call !== undefined ? NAMES[s.call].toUpperCase() : "Unknown";
      });
      const params = Object.fromEntries(Object.entries(q).filter(([, v]) => v !== undefined));
      const { value: r, error } = await capture(() => S.handler({ queryStringParameters: Object.keys(params).length ? params : null }));
      if (error) throw error;
      if (!pg.settled) return false;
      const want = !q.auth ? 401 : q.auth !== "right" ? 403 : !q.locode || !/^FI[A-Z]{3}$/i.test(q.locode) ? 400 : 200;
      same(r.statusCode, want, `status for ${show(q)}`);
      if (want !== 200) { must(!/shiplist/.test(r.body), () => "a refused request is shown the list"); same(pg.statements, 0, "statements of a refused request"); return "refused"; }
      must(/text\/html/.test(Object.entries(r.headers).find(([k]) => k.toLowerCase() === "content-type")?.[1]), () => "content type");
      // as a browser finds the script: it ends at the first end tag
      const at = r.body.search(/<script>/i); must(at >= 0, () => "no script");
      const code = scriptText(r.body.slice(at + 8));
      const ctx = vm.createContext({});
      try { vm.runInContext(code, ctx); } catch { /* the libraries of the page are not there */ }
      must(Array.isArray(ctx.shiplist), () => `the page's script does not give the list for ships ${show(name)}`);
      const L = q.locode.toUpperCase(), hours = q.interval === undefined ? 96 : Number(q.interval);
      const rowsRead = latest(ts).filter((t) => t.eventTime > NOW - (/AT[AD]/.test(t.eventType) ? 6 : 1) * H && t.eventTime < NOW + hours * H && (t.port === L || (t.from === L && t.source === PILOT)) && !(t.eventType === "ETA" && t.portcallId && ts.some((x) => x.portcallId === t.portcallId && x.eventType === "ATA")));
      const m = merged(rowsRead.map((t) => ({ ...t, port: L })), NOW);
      alike(sortable(JSON.parse(JSON.stringify(ctx.shiplist)).map((t) => ({ type: t.event_type, time: t.event_time, source: t.source, recorded: t.record_time, name: t.ship_name }))), sortable(m.map((t) => ({ type: t.eventType, time: iso(t.eventTime), source: DISPLAY[t.source] ?? t.source, recorded: iso(t.recordTime), name: name[IMOS.indexOf(t.imo)] }))), `ship list for ${show(q)}`);
      return m.length ? (name.some((n) => n.includes("<")) ? "markup in a name" : kind(rowsRead, m) || "one") : false;
    } finally { clock.uninstall(); }
  }, { runs: 1000, thorough: 10000, needs: [S.handler] });

  await prop("a read that fails says so", fc.record({ what: fc.constantFrom("api", "list"), nth: fc.nat(2), how: fc.constantFrom("error", "drop"), secret: fc.boolean() }), async (c) => {
    pg.fresh();
    let n = 0;
    pg.fault = (sql) => (/select/i.test(sql) && n++ === c.nth ? (c.how === "drop" ? "drop" : { code: "XX000", message: "secret detail" }) : undefined);
    try {
      const { value: r, error } = await capture(() => (c.what === "api" ? G.handler({ locode: "FIHEL" }) : S.handler({ queryStringParameters: { auth: "right", locode: "FIHEL" } })));
      if (n <= c.nth) { must(!error && (r.status ?? r.statusCode) === 200, "a read that works is answered"); return false; }
      must(!error, () => `threw ${error?.stack}`);
      same(r.status ?? r.statusCode, 500, "status of a failed read");
      must(!(c.what === "api" ? decode(r) : r.body).includes("secret detail"), "the answer tells what failed");
      return true;
    } finally { pg.fault = undefined; }
  }, { runs: 40, thorough: 200, needs: [G.handler, S.handler] });

  await prop("ports with predictions", fc.array(fc.record({ s: fc.constantFrom(...SOURCES), p: fc.constantFrom("FIHEL", "FIRAU", "FIKOK", "FIOUL") }), { maxLength: 8 }), async (l) => {
    pg.fresh();
    l.forEach((x, i) => pg.insert("port_call_timestamp", { event_type: "ETA", event_time: NOW + i, event_source: x.s, record_time: NOW - i, ship_imo: IMOS[0], location_locode: x.p }));
    const { value: r, error } = await capture(() => M.handler());
    if (error) throw error;
    if (!pg.settled) return false;
    same(r.status, 200, "status");
    const want = [...new Set(l.filter((x) => [CALC, AWAKE, PRED].includes(x.s)).map((x) => x.p))].sort();
    alike([...JSON.parse(decode(r))].sort(), want, "ports");
    return want.length > 0;
  }, { runs: 200, thorough: 2000, needs: [M.handler] });
  await pg.stop();
});
