// C25: pilotages polled from Pilotweb: stored, removed and turned into estimates exactly once.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import http from "node:http";
import https from "node:https";
import { syncBuiltinESMExports } from "node:module";
import * as LC from "#repo/marine/portactivity/src/service/location-converter.ts";
import { portSchema as schema } from "#stub/portactivity.mjs";

// Pilotweb: https requests go to this server on loopback
let script, seen;
const server = http.createServer((req, res) => {
  seen.push({ path: req.url, method: req.method, auth: req.headers.authorization });
  const s = script;
  if (s.cut === "early") return req.socket.destroy();
  const body = Buffer.from(s.body);
  res.writeHead(200, { "Content-Type": "application/json", "Content-Length": body.length });
  const cuts = [...new Set(s.cuts.map((c) => (body.length ? c % body.length : 0)))].sort((a, b) => a - b);
  let at = 0, i = 0;
  const next = () => {
    if (s.cut === "late") return res.write(body.subarray(0, body.length >> 1), () => setImmediate(() => req.socket.destroy()));
    const end = i < cuts.length ? cuts[i] : body.length; i++;
    if (end > at) res.write(body.subarray(at, end));
    at = end;
    if (at >= body.length) return res.end();
    setImmediate(() => setImmediate(next));
  };
  next();
});
await new Promise((r) => server.listen(0, "127.0.0.1", r));
const at = server.address().port;
let asked;
https.request = (o, cb) => { asked = o.host ?? o.hostname; return http.request({ ...o, host: "127.0.0.1", hostname: "127.0.0.1", port: at, agent: new http.Agent({ keepAlive: false }) }, cb); };
syncBuiltinESMExports();

Object.assign(process.env, { SQS_QUEUE_URL: "https://q/1" });
Object.assign(secret, { "pilotweb.url": "pilotweb.example", "pilotweb.auth": "dTpw" });
const L = await import("#repo/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts");
const pg = await new PgLite({ schema, types: { schedule_updated: "ts", id: "int", port_call_id: "int" } }).start();
useDatabase(pg);
const NOW = Date.parse("2024-05-06T07:08:09.010Z"), MIN = 60e3, H = 3600e3;
const iso = (ms) => new Date(ms).toISOString();
const IMOS = [9074729, 9434345, 8814275], MMSIS = [230000000, 230000001, 230000002];
const MAP = { FIKOY: "FIKOK", FIPIE: "FIPRS", FIVAS: "FIVAA", FIKAK: "FIKAS", FIMAN: "FIPOR", FITHK: "FIPOR", FIHEP: "FIUKI", FIKMR: "FIUKI", FILEV: "FIHKO", FIKVH: "FIHKO", FIVUH: "FIHEL", FI401: "FIHEL", FI402: "FIHEL", FI403: "FIHEL", FI404: "FIHEL", FI405: "FIHEL", FIVAL: "FIHEL", FIKHA: "FIKTK", FIKMU: "FIKTK", FIHMN: "FIKTK", FITRY: "FITOR", FIKAU: "FILPP", FILPM: "FILPP", FIMES: "FILPP", FIMUS: "FILPP", FILPP: "FINUI", FIVRA: "FIVRK", FIEUR: "FIEJO", FIOLK: "FIEJO", FIKEA: "FIKEM", FIKEV: "FIKEM" };
const loc = (c) => (Object.hasOwn(MAP, c) ? MAP[c] : c);
const CODES = ["FIVUH", "FIHEL", "FIKOY", "FIKOK", "FIRAU", "SESTO"], PORTS = ["FIHEL", "FIKOK", "FIRAU", "FIKOY"];
const opt = (a, w = 3) => fc.oneof({ weight: w, arbitrary: a }, { weight: 1, arbitrary: fc.constant(undefined) });
const t = fc.integer({ min: -600, max: 3000 });
const berth = opt(fc.constantFrom("B1", "Satama 2", "laituri å"));
const pilotage = fc.record({
  id: fc.nat(4), state: fc.constantFrom("ESTIMATE", "NOTICE", "ORDER", "ACTIVE", "FINISHED", "CANCELLED"), name: fc.constantFrom("ALUS", "Åland ä€", "\"X\" 'y' \\", "船🚢"),
  i: opt(fc.nat(2)), m: opt(fc.nat(2)), from: fc.constantFrom(...CODES), to: fc.constantFrom(...CODES), fb: berth, tb: berth, eta: t, board: opt(t, 2), end: t, form: fc.nat(8), bform: fc.nat(8), upd: fc.nat(2), src: fc.constantFrom("Pilotweb", "VTS"), pc: opt(fc.constantFrom(7, 8), 1),
});
// mostly UTC with milliseconds
const written = (ms, form) => (form === 1 ? iso(ms + 3 * H).replace("Z", "+03:00") : form === 2 ? iso(ms - 5 * H).replace("Z", "-05:00") : form === 3 ? iso(ms + 3 * H).replace("Z", "+0300") : iso(ms));
const utc = (s) => iso(Date.parse(s));
const wire = (p) => JSON.parse(JSON.stringify({ id: p.id + 1, state: p.state, vessel: { name: p.name, mmsi: p.m === undefined ? undefined : MMSIS[p.m], imo: p.i === undefined ? undefined : IMOS[p.i] }, route: { start: { code: p.from, berth: p.fb && { code: p.fb } }, end: { code: p.to, berth: p.tb && { code: p.tb } } }, vesselEta: written(NOW + p.eta * MIN, p.form), pilotBoardingTime: p.board === undefined ? undefined : written(NOW + p.board * MIN, p.bform), endTime: iso(NOW + p.end * MIN), scheduleSource: p.src, scheduleUpdated: iso(NOW - p.upd * 7919 * 61), portnetPortCallId: p.pc }));
const poll = fc.record({
  ps: fc.uniqueArray(pilotage, { selector: (p) => p.id, maxLength: 4 }), cuts: fc.array(fc.nat(3000), { maxLength: 6 }),
  fault: fc.oneof({ weight: 6, arbitrary: fc.constant("") }, { weight: 1, arbitrary: fc.constantFrom("early", "late", "json", "empty") }, { weight: 3, arbitrary: fc.nat(9).map((n) => `sql ${n}`) }),
});
const world = fc.record({
  vessels: fc.uniqueArray(fc.record({ i: fc.nat(2), m: fc.nat(2), at: fc.nat(500) }), { selector: (v) => v.at, maxLength: 3 }),
  calls: fc.uniqueArray(fc.record({ i: opt(fc.nat(2)), m: opt(fc.nat(2)), port: fc.constantFrom(...PORTS), at: fc.constantFrom(0, 1, 20, 35, 37, 60) }), { selector: (c) => c.at, minLength: 1, maxLength: 5 }),
  kept: fc.array(fc.record({ id: fc.nat(4), src: fc.constantFrom("Pilotweb", "Pilotweb", "Portnet") }), { maxLength: 5 }),
});
const best = (l) => l.sort((a, b) => a.at - b.at)[0];
function portcalls(w, p, port) {
  const cs = w.calls.map((c, n) => ({ n, imo: c.i === undefined ? null : IMOS[c.i], mmsi: c.m === undefined ? null : MMSIS[c.m], at: c.at, port: c.port }));
  const vs = w.vessels.map((v) => ({ imo: IMOS[v.i], mmsi: MMSIS[v.m], at: v.at }));
  const { imo, mmsi } = p.vessel;
  const M = mmsi ?? best(vs.filter((v) => v.imo === imo))?.mmsi ?? best(cs.filter((c) => imo !== undefined && c.imo === imo))?.mmsi;
  const I = imo ?? best(vs.filter((v) => v.mmsi === mmsi))?.imo ?? best(cs.filter((c) => mmsi !== undefined && c.mmsi === mmsi))?.imo;
  return cs.filter((c) => ((M != null && c.mmsi === M) || (I != null && c.imo === I)) && c.port === port && c.at < 36).map((c) => 100 + c.n);
}
const TYPE = { ESTIMATE: "RPS", NOTICE: "RPS", ORDER: "PPS", ACTIVE: "APS", FINISHED: "APC" };
// the estimate of a pilotage, with the port calls it may be attached to
function estimate(w, p) {
  const type = TYPE[p.state]; if (!type) return undefined;
  const location = { port: loc(p.route.end.code), from: loc(p.route.start.code), berth: p.route.end.berth?.code };
  let calls;
  if (p.portnetPortCallId) calls = [p.portnetPortCallId];
  else { const a = portcalls(w, p, location.port), b = portcalls(w, p, location.from); calls = a.length && b.length && location.port !== location.from ? b : a.length ? a : b; }
  if (!calls.length) return undefined;
  const time = type === "APC" ? p.endTime : type === "APS" ? p.vesselEta : [p.vesselEta, p.pilotBoardingTime].filter(Boolean).map(utc).sort().at(-1);
  return { calls, msg: { eventType: type, eventTime: utc(time), recordTime: p.scheduleUpdated, source: "Pilotweb", sourceId: String(p.id), ship: p.vessel.mmsi || p.vessel.imo ? { mmsi: p.vessel.mmsi, imo: p.vessel.imo } : {}, location } };
}
const rowOf = (p) => ({ id: p.id, imo: p.vessel.imo ?? null, mmsi: p.vessel.mmsi ?? null, eta: utc(p.vesselEta), board: p.pilotBoardingTime ? utc(p.pilotBoardingTime) : null, end: p.endTime, upd: p.scheduleUpdated, src: p.scheduleSource, state: p.state, name: p.vessel.name, from: p.route.start.code, fb: p.route.start.berth?.code ?? null, to: p.route.end.code, tb: p.route.end.berth?.code ?? null });
const table = () => pg.rows("select * from pilotage order by id").map((r) => ({ id: r.id, imo: r.vessel_imo, mmsi: r.vessel_mmsi, eta: iso(r.vessel_eta), board: r.pilot_boarding_time === null ? null : iso(r.pilot_boarding_time), end: iso(r.pilotage_end_time), upd: iso(r.schedule_updated), src: r.schedule_source, state: r.state, name: r.vessel_name, from: r.start_code, fb: r.start_berth, to: r.end_code, tb: r.end_berth }));
const clean = (o) => JSON.parse(JSON.stringify(o));

await check({
  rule: "histories of polls of Pilotweb with pilotages appearing, changing, finishing and disappearing, responses cut in chunks, and connections, bodies and statements failing; non-trivial when a pilotage is new, changed, removed or a poll fails",
  assumptions: ["update times of Pilotweb are UTC with milliseconds", "of several matching recent port calls any one is right", "the SQL engine stands for PostgreSQL"],
}, async ({ prop }) => {
  await prop("history of polls", fc.record({ w: world, polls: fc.array(poll, { minLength: 1, maxLength: 5 }) }), async ({ w, polls }) => {
    const clock = fakeClock(NOW, ["Date"]);
    const sent = []; let dead = 0;
    const hurt = () => { dead++; };
    process.on("uncaughtException", hurt);
    try {
      pg.fresh();
      for (const v of w.vessels) pg.insert("vessel", { imo: IMOS[v.i], mmsi: MMSIS[v.m], timestamp: NOW - v.at * MIN });
      w.calls.forEach((c, n) => pg.insert("port_call", { port_call_id: 100 + n, imo_lloyds: c.i === undefined ? null : IMOS[c.i], mmsi: c.m === undefined ? null : MMSIS[c.m], port_to_visit: c.port, port_call_timestamp: NOW - c.at * H }));
      w.kept.forEach((k, n) => pg.insert("port_call_timestamp", { id: n, event_source: k.src, source_id: String(k.id + 1), record_time: n }));
      const model = new Map(); let kept = w.kept.map((k, n) => ({ n, ...k }));
      globalThis.__awsSend = async (client, cmd) => { if (/SQS/.test(client)) sent.push(cmd.input); return {}; };
      const classes = new Set();
      for (const q of polls) {
        const ps = q.ps.map(wire), text = JSON.stringify(ps);
        script = { body: q.fault === "json" ? text.slice(0, -1) : q.fault === "empty" ? "" : text, cuts: q.cuts, cut: ["early", "late"].includes(q.fault) ? q.fault : undefined };
        seen = []; sent.length = 0;
        const nth = q.fault.startsWith("sql") ? Number(q.fault.slice(4)) : -1; let n = -1;
        pg.fault = (sql) => (!/^\s*(begin|commit|rollback|savepoint|release)/i.test(sql) && ++n === nth ? { code: "XX000", message: "refused" } : undefined);
        const before = table(), { error } = await capture(() => L.handler());
        pg.fault = undefined;
        if (!pg.settled) return false;
        must(!error, () => `the update failed: ${error?.stack}`);
        same(dead, 0, `errors outside the update (${q.fault})`);
        alike([asked, seen], ["pilotweb.example", [{ path: "/digitraffic/pilotages/active", method: "GET", auth: "Basic dTpw" }]], "request to Pilotweb");
        const failed = script.cut || ["json", "empty"].includes(q.fault) || n >= nth && nth >= 0;
        if (failed) {
          alike(table(), before, `pilotages after a failed update (${q.fault})`);
          alike(pg.rows("select id from port_call_timestamp order by id").map((r) => r.id), kept.map((k) => k.n), `estimates after a failed update (${q.fault})`);
          same(sent.length, 0, `messages sent by a failed update (${q.fault})`);
          classes.add(q.fault.split(" ")[0]); continue;
        }
        const active = [...model.values()].filter((p) => p.state !== "FINISHED"), gone = active.filter((p) => !ps.some((x) => x.id === p.id));
        const news = ps.filter((p) => { const o = active.find((x) => x.id === p.id); return o ? o.scheduleUpdated !== p.scheduleUpdated : p.state !== "FINISHED"; });
        for (const g of gone) { model.delete(g.id); kept = kept.filter((k) => !(k.src === "Pilotweb" && k.id + 1 === g.id)); classes.add("removed"); }
        for (const p of news) { classes.add(active.some((x) => x.id === p.id) ? "changed" : "new"); model.set(p.id, p); }
        alike(table(), [...model.values()].sort((a, b) => a.id - b.id).map(rowOf), `pilotages stored after ${show(ps)}`);
        alike(pg.rows("select id from port_call_timestamp order by id").map((r) => r.id), kept.map((k) => k.n), "estimates kept");
        const want = news.map((p) => estimate(w, p)).filter(Boolean);
        same(sent.length, want.length, `number of messages after ${show(news)}`);
        for (const s of sent) {
          same(s.QueueUrl, "https://q/1", "queue");
          const m = JSON.parse(s.MessageBody), e = want.find((x) => x.msg.sourceId === m.sourceId);
          must(e, () => `a message for no changed pilotage: ${show(m)}`);
          must(e.calls.includes(m.portcallId), () => `attached to ${m.portcallId}, not to one of ${e.calls}: ${show(m)}`);
          alike({ ...m, eventTime: utc(m.eventTime) }, clean({ ...e.msg, portcallId: m.portcallId }), "estimate");
          classes.add(m.eventType);
        }
        alike(sent.map((s) => JSON.parse(s.MessageBody).sourceId).sort(), want.map((x) => x.msg.sourceId).sort(), "pilotages with a message");
      }
      return [...classes].sort().slice(0, 4).join(", ") || false;
    } finally { process.off("uncaughtException", hurt); pg.fault = undefined; globalThis.__awsSend = undefined; clock.uninstall(); }
  }, { runs: 500, thorough: 8000, needs: [L.handler] });

  await prop("codes of Pilotweb", fc.record({ a: fc.oneof(fc.constantFrom(...Object.keys(MAP), ...Object.values(MAP)), fc.constantFrom("toString", "__proto__", "constructor"), fc.string()), b: fc.oneof(fc.constantFrom(...Object.keys(MAP)), fc.string()), berth }), ({ a, b, berth }) => {
    const proto = (c) => c in {}; if (proto(a) || proto(b)) return false;
    alike(clean(LC.convertLocation({ start: { code: a }, end: { code: b, ...(berth ? { berth: { code: berth } } : {}) } })), clean({ port: loc(b), from: loc(a), berth }), "location");
    return a in MAP || b in MAP;
  }, { runs: 600, thorough: 5000, needs: [LC.convertLocation] });
  await pg.stop(); server.close();
});
