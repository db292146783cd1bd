// C26: predictions of Awake.AI and VTS schedules become estimates by the stated rules, one message each.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import { SNSClient } from "@aws-sdk/client-sns";
import { portSchema as schema } from "#stub/portactivity.mjs";
import * as OA from "#repo/marine/portactivity/src/api/oauth-token-api.ts";
import * as SHIP from "#repo/marine/portactivity/src/service/awake-ai-eta-ship.ts";
import * as SHIPAPI from "#repo/marine/portactivity/src/api/awake-ai-ship.ts";
import * as SCH from "#repo/marine/portactivity/src/service/schedules.ts";
import * as SCHAPI from "#repo/marine/portactivity/src/api/schedules.ts";
import * as PORTS from "#repo/marine/portactivity/src/model/awake-ai-etx-ports.ts";
import * as ETX from "#repo/marine/portactivity/src/service/awake-ai-etx-helper.ts";

Object.assign(process.env, { SQS_QUEUE_URL: "https://q/1", PUBLISH_TOPIC_ARN: "arn:topic", ENABLE_ETB: "FALSE" });
Object.assign(secret, { "awake.voyagesurl": "http://awake", "awake.oAuthTokenEndpoint": "http://auth/token", "awake.oAuthClientId": "id&1", "awake.oAuthClientSecret": "s3cr=t", "awake.atxurl": "wss://atx", "schedules.url": "http://vts/s" });
// the websocket of Awake.AI
let socket;
class WS {
  fns = {}; state = socket;
  constructor(url, options) { socket.opened.push({ url, auth: options?.headers?.Authorization }); queueMicrotask(() => this.emit("open")); }
  on(e, f) { (this.fns[e] ??= []).push(f); return this; }
  emit(e, ...a) { if (!this.closed) for (const f of this.fns[e] ?? []) f(...a); }
  send(m) { this.state.started.push(JSON.parse(m)); queueMicrotask(() => { for (const x of this.state.messages) x === ERR ? this.emit("error", new Error("gone")) : this.emit("message", Buffer.from(x)); }); }
  close() { this.closed = true; this.state.closed++; }
}
const ERR = Symbol("error");
globalThis.__stubs = { ...globalThis.__stubs, ws: { default: WS, WebSocket: WS } };
const hShip = await import("#repo/marine/portactivity/src/lambda/update-awake-ai-eta-ship-timestamps/update-awake-ai-eta-ship-timestamps.ts");
const hEta = await import("#repo/marine/portactivity/src/lambda/update-awake-ai-eta-port-timestamps/update-awake-ai-eta-port-timestamps.ts");
const hEtd = await import("#repo/marine/portactivity/src/lambda/update-awake-ai-etd-port-timestamps/update-awake-ai-etd-port-timestamps.ts");
const hAtx = await import("#repo/marine/portactivity/src/lambda/update-awake-ai-atx-timestamps/update-awake-ai-atx-timestamps.ts");
const hSch = await import("#repo/marine/portactivity/src/lambda/update-timestamps-from-schedules/lambda-update-timestamps-from-schedules.ts");
const tShip = await import("#repo/marine/portactivity/src/lambda/trigger-awake-ai-eta-ship-timestamps-update/trigger-awake-ai-eta-ship-timestamps-update.ts");
const tEta = await import("#repo/marine/portactivity/src/lambda/trigger-awake-ai-eta-port-timestamps-update/trigger-awake-ai-eta-port-timestamps-update.ts");
const tEtd = await import("#repo/marine/portactivity/src/lambda/trigger-awake-ai-etd-port-timestamps-update/trigger-awake-ai-etd-port-timestamps-update.ts");

const pg = await new PgLite({ schema, types: { eta: "ts", portcall_id: "int", port_call_id: "int", imo: "int" } }).start();
useDatabase(pg);
const NOW = Date.parse("2024-05-06T07:08:09.010Z"), MIN = 60e3, H = 3600e3;
const iso = (ms) => new Date(ms).toISOString(), written = (ms, f) => (f === 0 ? iso(ms) : f === 1 ? iso(ms + 3 * H).replace("Z", "+03:00") : iso(ms - (ms % 1000)).replace(".000Z", "Z")), clean = (o) => (o === undefined ? undefined : JSON.parse(JSON.stringify(o)));
const sorted = (l) => l.map((x) => JSON.stringify(clean(x), (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : 1))) : v))).sort();
const IMOS = [9074729, 9434345, 8814275, 9999999], MMSIS = [230000000, 230000001, 230000002];
const LOCODES = ["FIRAU", "FIHEL", "FIPOR", "FIHKO", "FIKOK", "FITKU"], ANY = [...LOCODES, "SESTO", "fihel"], SOME = fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...LOCODES) }, { weight: 4, arbitrary: fc.constantFrom("FIKAS", "FIUKI", "FIRAA", "FIKEM", "FIPRS", "FIOUL") });
const ETP = ["FIRAU", "FIKOK", "FIKAS", "FIPOR", "FIUKI", "FIHKO", "FIRAA", "FIKEM", "FIPRS"];
const opt = (a, w = 4) => fc.oneof({ weight: w, arbitrary: a }, { weight: 1, arbitrary: fc.constant(undefined) });
const sent = [];
globalThis.__awsSend = async (client, cmd) => { if (/SQS/.test(client)) { same(cmd.input.QueueUrl, "https://q/1", "queue"); sent.push(JSON.parse(cmd.input.MessageBody)); return {}; } if (/SSM/.test(client)) return ssm(cmd); return {}; };
let ssm, web, requests = [], tokens = 0;
globalThis.fetch = async (req, init) => {
  const r = req instanceof Request ? req : new Request(req, init);
  if (r.url === "http://auth/token") { tokens++; return new Response(JSON.stringify({ token_type: "Bearer", expires_in: 3600, access_token: "TOK" })); }
  requests.push({ url: r.url, auth: r.headers.get("authorization") });
  return web(r.url);
};
const fail = (kind) => { if (kind === "network") throw new TypeError("fetch failed"); if (kind === "html") return new Response("<html>"); return new Response("no", { status: kind }); };
const t = fc.oneof(fc.integer({ min: -300, max: 6000 }), fc.constantFrom(-6, -5, -4, 0, 1, 24 * 60 - 1, 24 * 60, 24 * 60 + 1)).chain((m) => fc.constantFrom(0, 0, 0, 1, 2).map((f) => written(NOW + m * MIN, f)));
const source = fc.constantFrom("urn:awake:ml:1", "urn:awake:digitraffic-portcall:123", "urn:awake:digitraffic:123");
const meta = opt(fc.record({ source, errorQuantiles: opt(fc.record({ q10: fc.constantFrom(-7.5, 0, 3), q25: fc.constant(-1), q75: fc.constant(1), q90: fc.constantFrom(8.2, 0) })) }), 3);
const prediction = (time) => fc.record({ predictionType: fc.constantFrom("eta", "eta", "eta", "etd", "etd", "etd", "travel-time", "destination"), metadata: meta, recordTime: opt(t), locode: fc.oneof({ weight: 4, arbitrary: fc.constantFrom(...ANY, "FIRAU", "FIRAU") }, { weight: 1, arbitrary: SOME }), zoneType: fc.constantFrom("berth", "berth", "pbp", "pbp", "vts", "portarea"), arrivalTime: time, departureTime: t });
const voyage = (time) => fc.record({ voyageStatus: fc.constantFrom("underway", "underway", "underway", "not-started", "stopped"), sequenceNo: fc.nat(2), predictions: fc.array(fc.oneof({ weight: 5, arbitrary: prediction(time) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 99999 }).map((n) => ({ predictionType: "arrival-port-call", portCallId: "u", portCallUrn: `urn:awake:digitraffic-portcall:${n}${n % 4 ? "" : ":2"}`, portCallLocode: "FIRAU" })) }), { maxLength: 4 }) });
const estimate = (p, type, time, source, ship, location, portcallId) => ({ ship, location, source, eventTime: time, recordTime: p.recordTime ?? iso(NOW), portcallId, eventType: type, eventTimeConfidenceLowerDiff: p.metadata?.errorQuantiles?.q10, eventTimeConfidenceUpperDiff: p.metadata?.errorQuantiles?.q90 });
const own = (p) => p.metadata?.source.includes("digitraffic-portcall");
const finnish = (l) => /^fi/i.test(l);
const withClock = async (fn) => { const clock = fakeClock(NOW, ["Date"]); try { sent.length = 0; requests = []; return await fn(clock); } finally { clock.uninstall(); } };

await check({
  rule: "answers of Awake.AI and of the VTS schedules, whole, empty and failing, for ships near and far; non-trivial when an estimate is made, left out by a rule, or a source fails",
  assumptions: ["answers follow the documented types of the sources", "the SQL engine stands for PostgreSQL"],
}, async ({ prop }) => {
  // ---- ships ----
  const answer = fc.record({ ship: fc.record({ mmsi: fc.constantFrom(...MMSIS), imo: fc.constantFrom(...IMOS) }), predictability: fc.constantFrom("predictable", "predictable", "predictable", "predictable", "not-predictable", "ship-data-not-updated"), predictedVoyages: fc.array(voyage(opt(t)), { minLength: 0, maxLength: 2 }) });
  const tryOf = fc.oneof({ weight: 6, arbitrary: answer.map((a) => ({ a })) }, { weight: 1, arbitrary: fc.constantFrom(404, 422, 500, 503).map((f) => ({ f })) }, { weight: 1, arbitrary: fc.constantFrom("network", "html").map((f) => ({ f })) });
  const ship = fc.record({ imo: fc.constantFrom(...IMOS), locode: SOME, portcall_id: fc.integer({ min: 1, max: 999 }), port_area_code: opt(fc.constantFrom("A", "PASILA")), eta: fc.oneof(fc.integer({ min: -100, max: 5000 }), fc.constantFrom(1439, 1440, 1441, 1499, 1500)), tries: fc.array(tryOf, { minLength: 2, maxLength: 2 }), same: fc.boolean() }).map(({ same, ...s }) => (same ? { ...s, tries: s.tries.map((x) => (x.a ? { a: { ...x.a, predictedVoyages: x.a.predictedVoyages.map((v) => ({ ...v, predictions: v.predictions.map((p) => (p.locode ? { ...p, locode: s.locode } : p)) })) } } : x)) } : s));
  await prop("ships", fc.record({ ships: fc.uniqueArray(ship, { selector: (s) => s.imo, maxLength: 4 }), flag: fc.boolean() }), ({ ships, flag }) => withClock(async () => {
    const n = new Map(), classes = new Set();
    web = (url) => { const imo = Number(/ship\/(\d+)/.exec(url)?.[1]), s = ships.find((x) => x.imo === imo), k = n.get(imo) ?? 0; n.set(imo, k + 1); const tr = s.tries[Math.min(k, 1)]; return tr.f ? fail(tr.f) : new Response(JSON.stringify(tr.a)); };
    const rows = ships.map(({ tries, eta, ...s }) => ({ ...s, eta: iso(NOW + eta * MIN) }));
    let got, error;
    if (!flag) { ({ error } = await capture(() => hShip.handler({ Records: [{ Sns: { Message: JSON.stringify(rows) } }] }))); got = [...sent]; }
    else {
      const s = new SHIP.AwakeAiETAShipService(new SHIPAPI.AwakeAiETAShipApi("http://awake"), new OA.OAuthTokenApi({ oAuthTokenEndpoint: "http://auth/token", oAuthClientId: "a", oAuthClientSecret: "b" }), true);
      const r = await capture(() => s.getAwakeAiTimestamps(rows.map((x) => ({ ...x, eta: new Date(x.eta) })))); error = r.error; got = r.value;
    }
    must(!error, () => `the update failed: ${error?.stack}`);
    const want = [], calls = [];
    for (const s of ships) {
      const thrown = (x) => typeof x.f === "string", near = Math.floor(s.eta / 60) < 24;
      const used = thrown(s.tries[0]) ? s.tries : s.tries.slice(0, 1);
      for (let i = 0; i < used.length; i++) calls.push({ url: `http://awake/ship/${s.imo}?predictionMetadata=true${near ? `&destination=${s.locode}` : ""}`, auth: "Bearer TOK" });
      if (used.length > 1) classes.add("retried");
      const a = used.at(-1).a; if (!a) { classes.add("failing"); continue; }
      const v = a.predictedVoyages[0]; if (a.predictability !== "predictable" || v?.voyageStatus !== "underway") { classes.add("left out"); continue; }
      for (const p of v.predictions) {
        if (p.predictionType !== "eta" || own(p)) continue;
        let port = p.locode;
        if (p.locode !== s.locode) { if (!near) { classes.add("differing"); continue; } if (["FIHEL", "FIPOR", "FIHKO"].includes(s.locode)) port = s.locode; }
        if (p.zoneType === "pbp" && !ETP.includes(port)) { classes.add("no pilotage"); continue; }
        if (!p.arrivalTime || !finnish(p.locode)) { classes.add("left out"); continue; }
        const e = estimate(p, p.zoneType === "pbp" ? "ETP" : "ETA", p.arrivalTime, "Awake.AI", { mmsi: a.ship.mmsi, imo: s.imo }, { port: s.locode, portArea: s.port_area_code }, s.portcall_id);
        want.push(e); classes.add(e.eventType);
        if (e.eventType === "ETA" && (flag || s.locode === "FIRAU")) { want.push({ ...e, eventType: "ETB" }); classes.add("ETB"); }
      }
    }
    alike(sorted(requests), sorted(calls), "requests to Awake.AI");
    alike(sorted(got), sorted(want), `estimates of ${show(ships)}`);
    return [...classes].sort().slice(0, 3).join(", ") || false;
  }), { runs: 1500, thorough: 25000, needs: [hShip.handler, SHIP.AwakeAiETAShipService] });

  // ---- one prediction ----
  const one = fc.record({ p: prediction(opt(t)), departure: opt(t), locode: fc.constantFrom(...LOCODES), area: opt(fc.constantFrom("A", "PASILA")), id: opt(fc.integer({ min: 1, max: 999 }), 2), urn: opt(fc.tuple(fc.constantFrom("digitraffic-portcall", "pc"), fc.integer({ min: 1, max: 99999 }), fc.constantFrom("", "", ":2", ":fi:hel")).map(([k, n, more]) => ({ n, text: `urn:awake:${k}:${n}${more}` })), 2), kind: fc.constantFrom("eta", "etd") });
  await prop("one prediction", one, ({ p: p0, departure, locode, area, id, urn, kind }) => withClock(async () => {
    const p = { ...p0, departureTime: departure, predictionType: p0.predictionType === "destination" ? kind : p0.predictionType };
    const got = (kind === "eta" ? ETX.etaPredictionToTimestamp : ETX.etdPredictionToTimestamp)(structuredClone(p), "src", locode, 230000000, 9000000, area, id, urn && { predictionType: "arrival-port-call", portCallUrn: urn.text });
    const time = kind === "eta" ? p.arrivalTime : p.departureTime;
    if (p.predictionType !== kind || !time || !finnish(p.locode)) { same(got, undefined, `estimate of ${show(p)}`); return p.predictionType !== kind ? "of another kind" : time ? "abroad" : "no time"; }
    alike(got, estimate(p, kind === "etd" ? "ETD" : p.zoneType === "pbp" ? "ETP" : "ETA", time, "src", { mmsi: 230000000, imo: 9000000 }, { port: locode, portArea: area }, id ?? urn?.n), "estimate");
    return id !== undefined ? "known port call" : urn ? "port call of the prediction" : "no port call";
  }), { runs: 600, thorough: 10000, needs: [ETX.etaPredictionToTimestamp, ETX.etdPredictionToTimestamp] });

  // ---- ports ----
  const schedule = fc.record({ ship: fc.record({ mmsi: fc.constantFrom(...MMSIS), imo: fc.constantFrom(...IMOS) }), voyage: voyage(t) });
  const portAnswer = fc.oneof({ weight: 8, arbitrary: fc.array(schedule, { maxLength: 4 }).map((a) => ({ a })) }, { weight: 1, arbitrary: fc.constantFrom(404, 422, 500, 503, "network", "html").map((f) => ({ f })) });
  for (const [name, h, kind, res] of [["arrivals of a port", hEta, "eta", "arrivals"], ["departures of a port", hEtd, "etd", "departures"]])
    await prop(name, fc.record({ locode: fc.constantFrom(...LOCODES), r: portAnswer }), ({ locode, r }) => withClock(async () => {
      web = () => (r.f ? fail(r.f) : new Response(JSON.stringify(r.a)));
      const { error } = await capture(() => h.handler({ Records: [{ Sns: { Message: locode } }] }));
      same(!!error, typeof r.f === "string", "failure of the update");
      alike(requests, [{ url: `http://awake/port/${locode}/${res}?maxSequenceNo=1&predictionType=${kind}&predictionType=arrival-port-call&predictionMetadata=true`, auth: "Bearer TOK" }], "request to Awake.AI");
      const want = []; let skipped = 0;
      for (const s of r.a ?? []) {
        if (s.voyage.voyageStatus === "stopped") continue;
        const call = s.voyage.predictions.find((p) => p.predictionType === "arrival-port-call");
        for (const p of s.voyage.predictions) {
          if (p.predictionType !== kind) continue;
          const time = kind === "eta" ? p.arrivalTime : p.departureTime;
          if (own(p) || p.zoneType !== "berth" || !finnish(p.locode) || Date.parse(time) < NOW + (kind === "eta" ? 24 * H : 0)) { skipped++; continue; }
          want.push(estimate(p, kind.toUpperCase(), time, "Awake.AI Pred", s.ship, { port: locode }, kind === "eta" && call ? Number(call.portCallUrn.split(":")[3]) : undefined));
        }
      }
      alike(sorted(sent), sorted(want), "estimates");
      return r.f ? "failing" : want.some((w) => w.portcallId) ? "with a port call" : want.length ? "made" : skipped ? "left out" : false;
    }), { runs: 700, thorough: 12000, needs: [h.handler] });

  // ---- actual times ----
  const call = fc.record({ i: opt(fc.nat(2)), m: opt(fc.nat(2)), port: fc.constantFrom(...LOCODES.slice(0, 2)), ata: opt(fc.integer({ min: -900, max: 60 })), atd: opt(fc.integer({ min: -900, max: 60 })) });
  const event = fc.record({ msgType: fc.constant("event"), eventType: fc.constant("zone-event"), eventTimestamp: fc.integer({ min: -900, max: 10 }).map((m) => iso(NOW + m * MIN)), eventId: fc.constant("e"), i: fc.nat(3), m: fc.nat(2), zoneType: fc.constantFrom("berth", "berth", "berth", "pbp", "anchorage"), zoneEventType: fc.constantFrom("arrival", "departure"), locodes: fc.array(fc.constantFrom(...LOCODES.slice(0, 3)), { maxLength: 2 }) });
  const status = fc.oneof(fc.constantFrom("sub-1", "sub-2", "sub-3").map((subscriptionId) => ({ msgType: "subscription-status", status: "active", subscriptionId })), fc.constant({ msgType: "subscription-status", status: "failed", message: "expired" }), fc.constantFrom("sub-1", "sub-2").map((subscriptionId) => ({ msgType: "subscription-status", status: "failed", message: "expired", subscriptionId })), fc.constant({ msgType: "subscription-status", status: "active" }));
  const message = fc.oneof({ weight: 6, arbitrary: event.map(({ i, m, ...e }) => JSON.stringify({ ...e, imo: IMOS[i], mmsi: MMSIS[m] })) }, { weight: 3, arbitrary: status.map((s) => JSON.stringify(s)) }, { weight: 1, arbitrary: fc.constantFrom("{", "", "{\"msgType\":\"hello\"}", "[]", ERR) });
  let dead = 0; process.on("uncaughtException", () => { dead++; });
  await prop("actual times", fc.record({ stored: fc.constantFrom(undefined, "NONE", "sub-1", ERR), messages: fc.array(message, { maxLength: 5 }), calls: fc.array(call, { maxLength: 4 }) }), ({ stored, messages, calls }) => withClock(async () => {
    pg.fresh(); dead = 0;
    calls.forEach((c, n) => { pg.insert("port_call", { port_call_id: 100 + n, imo_lloyds: c.i === undefined ? null : IMOS[c.i], mmsi: c.m === undefined ? null : MMSIS[c.m], port_to_visit: c.port, port_call_timestamp: n }); pg.insert("port_area_details", { port_call_id: 100 + n, ...(c.ata !== undefined && { ata: NOW + c.ata * MIN }), ...(c.atd !== undefined && { atd: NOW + c.atd * MIN }) }); });
    socket = { opened: [], started: [], messages, closed: 0 };
    const kept = [];
    ssm = async (cmd) => { const { Name, Value } = cmd.input; same(Name, "AWAKE_ATX_SUBSCRIPTION_ID", "parameter"); if (Value !== undefined) { kept.push(Value); return {}; } if (stored === ERR) throw new Error("ParameterNotFound"); return { Parameter: stored && { Name, Value: stored } }; };
    const { error } = await capture(() => hAtx.handler({}, { getRemainingTimeInMillis: () => 10004 }));
    await new Promise((r) => setImmediate(r));
    if (!pg.settled) return false;
    must(!error && !dead, () => `the update failed: ${error?.stack ?? "an error outside it"}`);
    same(socket.opened, [{ url: "wss://atx", auth: "Bearer TOK" }], "connection");
    const id = typeof stored === "string" && stored !== "NONE" ? stored : undefined;
    alike(socket.started, [id ? { msgType: "subscribe", resume: id } : { msgType: "subscribe", parameters: [{ eventType: "zone-event", countries: ["FI"] }] }], "first message");
    const classes = new Set(), ids = [], want = [];
    for (const m of messages) {
      if (m === ERR) continue;
      let o; try { o = JSON.parse(m); } catch { classes.add("malformed"); continue; }
      if (o.msgType === "subscription-status") { if (o.status === "failed") { ids.push("NONE"); classes.add("resume failed"); } else if (o.subscriptionId && o.subscriptionId !== id) ids.push(o.subscriptionId); }
      if (o.msgType === "event" && o.zoneType === "berth") {
        const k = o.zoneEventType === "arrival" ? "ata" : "atd";
        // the newest port call of the other number fills in a number, here both are given
        const f = calls.map((c, n) => ({ c, n })).filter(({ c }) => ((c.m !== undefined && MMSIS[c.m] === o.mmsi) || (c.i !== undefined && IMOS[c.i] === o.imo)) && c.port === o.locodes[0] && c[k] !== undefined && c[k] <= 0).map(({ c, n }) => ({ id: 100 + n, d: Math.abs(NOW + c[k] * MIN - Date.parse(o.eventTimestamp)) }));
        const best = Math.min(...f.map((x) => x.d));
        want.push({ ids: f.filter((x) => x.d === best).map((x) => x.id), e: { eventType: k.toUpperCase(), eventTime: o.eventTimestamp, recordTime: o.eventTimestamp, source: "Awake.AI", ship: { imo: o.imo, mmsi: o.mmsi }, location: { port: o.locodes[0] } } });
      }
    }
    if (messages.includes(ERR)) { same(sent, [], "estimates after an error of the connection"); return "failing connection"; }
    same(socket.closed, 1, "times the connection is closed");
    alike(kept, ids, "subscriptions stored");
    const made = want.filter((x) => x.ids.length);
    same(sent.length, made.length, `number of actual times for ${show(messages)}`);
    made.forEach((x, i) => { must(x.ids.includes(sent[i].portcallId), () => `attached to ${sent[i].portcallId}, not ${x.ids}`); alike(sent[i], { ...x.e, portcallId: sent[i].portcallId }, "actual time"); classes.add(x.e.eventType); });
    return [...classes].sort().join(", ") || (ids.length > 0 && "subscription");
  }), { runs: 500, thorough: 8000, needs: [hAtx.handler] });

  // ---- VTS schedules ----
  const esc = (s) => String(s).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/"/g, "&quot;");
  const el = (n, a, body = "") => `<${n}${Object.entries(a).map(([k, v]) => ` ${k}="${esc(v)}"`).join("")}${body ? `>${body}</${n}>` : "/>"}`;
  const stamp = fc.record({ time: t, uts: t });
  const row = fc.record({ name: fc.constantFrom("ALUS", "Å & <B>\""), i: fc.nat(3), m: fc.nat(2), dest: opt(fc.constantFrom("FIRAU", "FIHEL", "FIKOK", "SESTO", "EETLL"), 7), eta: opt(stamp, 2), etd: opt(stamp, 2), more: fc.option(fc.constantFrom("FIHEL", "FIRAU"), { freq: 3 }) });
  const xml = (rows) => `<?xml version="1.0" encoding="UTF-8"?>\n<schedules>${rows.map((r) => `\n  ${el("schedule", { UUID: "u" }, el("vessel", { vesselName: r.name, callsign: "OJ", mmsi: MMSIS[r.m], imo: IMOS[r.i] }) + el("timetable", {}, (r.dest ? el("destination", { destination: "x", locode: r.dest, portfacility: "f" }) : "") + (r.eta ? el("eta", r.eta) : "") + (r.etd ? el("etd", r.etd) : "") || " ") + (r.more ? el("timetable", {}, el("destination", { destination: "y", locode: r.more, portfacility: "g" }) + el("eta", { time: iso(NOW + 9 * H), uts: iso(NOW) })) : ""))}`).join("")}</schedules>`;
  const wantOf = (rows, calculated, flag) => rows.flatMap((r) => {
    if (!r.dest || !["FIRAU", "FIHEL", "FIKOK"].includes(r.dest)) return [];
    const base = { location: { port: r.dest }, source: calculated ? "SCHEDULES_CALCULATED" : "SCHEDULES_VTS_CONTROLLED", ship: { mmsi: MMSIS[r.m], imo: IMOS[r.i] } }, of = (s, eventType) => ({ ...base, eventType, eventTime: s.time, recordTime: s.uts });
    return [...(r.eta ? [of(r.eta, "ETA")] : []), ...(r.eta && calculated && (flag || r.dest === "FIRAU") ? [of(r.eta, "ETB")] : []), ...(r.etd && Date.parse(r.etd.time) >= NOW - 5 * MIN ? [of(r.etd, "ETD")] : [])];
  });
  await prop("VTS schedules", fc.record({ areas: fc.array(fc.array(row, { maxLength: 3 }), { minLength: 4, maxLength: 4 }), flag: fc.boolean(), broken: fc.oneof({ weight: 9, arbitrary: fc.constant(-1) }, { weight: 1, arbitrary: fc.nat(3) }), how: fc.constantFrom(403, "xml") }), ({ areas, flag, broken, how }) => withClock(async () => {
    const urls = ["http://vts/s/east", "http://vts/s/west", "http://vts/s/east/calculated", "http://vts/s/west/calculated"];
    web = (url) => { const i = urls.indexOf(url); must(i >= 0, () => `unknown address ${url}`); if (i === broken) return how === "xml" ? new Response(`${xml(areas[i])}<`) : fail(how); return new Response(xml(areas[i])); };
    let got, error;
    if (!flag) { ({ error } = await capture(() => hSch.handler())); got = [...sent]; }
    else { const s = new SCH.SchedulesService(new SCHAPI.SchedulesApi("http://vts/s"), true); const r = await capture(async () => [...(await s.getTimestampsUnderVtsControl()), ...(await s.getCalculatedTimestamps())]); error = r.error; got = r.value; }
    if (broken >= 0) { must(error, () => "a broken source is taken for an empty one"); same(sent, [], "estimates sent"); return "failing"; }
    must(!error, () => `the update failed: ${error?.stack} for ${areas.map(xml)}`);
    same(requests.map((r) => r.url).sort(), [...urls].sort(), "requests to the VTS");
    const want = areas.flatMap((a, i) => wantOf(a, i > 1, flag));
    alike(sorted(got), sorted(want), `estimates of ${show(areas)}`);
    return want.length ? [...new Set(want.map((w) => w.eventType))].sort().join(", ") : areas.some((a) => !a.length) && "empty area";
  }), { runs: 1000, thorough: 15000, needs: [hSch.handler, SCH.SchedulesService] });

  // ---- triggers ----
  await prop("ships asked for", fc.record({ n: fc.nat(32), failing: fc.constantFrom(-1, -1, -1, 0, 1, 2) }), ({ n, failing }) => withClock(async () => {
    pg.fresh();
    const rows = Array.from({ length: n }, (_, k) => ({ imo: 9000000 + k, locode: LOCODES[k % 3], port_area_code: "A", portcall_id: k + 1, eta: iso(NOW + (k + 30) * MIN) }));
    rows.forEach((r, k) => { pg.insert("port_call", { port_call_id: k + 1, port_call_timestamp: NOW }); pg.insert("port_area_details", { port_call_id: k + 1 }); pg.insert("port_call_timestamp", { event_type: "ETA", event_source: "Portnet", event_time: Date.parse(r.eta), record_time: k, location_locode: r.locode, ship_mmsi: 230000000 + k, ship_imo: r.imo, portcall_id: k + 1, location_portarea: "A" }); });
    const out = [];
    const { error } = await capture(() => tShip.handlerFn({ send: async (c) => { if (out.length === failing) throw new Error("throttled"); out.push(c.input); } })());
    if (!pg.settled) return false;
    must(out.every((o) => o.TopicArn === "arn:topic"), () => "another topic");
    const got = out.flatMap((o) => JSON.parse(o.Message));
    if (failing >= 0 && failing < Math.ceil(n / 10)) { must(error, () => "a failed publication is not reported"); return "failing"; }
    must(!error, () => `failed: ${error?.stack}`);
    must(out.every((o) => JSON.parse(o.Message).length <= 10), () => "more than ten ships in a message");
    alike(sorted(got.map(({ imo, locode, port_area_code, portcall_id, eta }) => ({ imo, locode, port_area_code, portcall_id, eta }))), sorted(rows), "ships published");
    return n > 10 ? "chunks" : n > 0;
  }), { runs: 60, thorough: 400, needs: [tShip.handlerFn] });
  for (const [name, h, list] of [["ports asked for arrivals", tEta, PORTS.ETA_PORTS], ["ports asked for departures", tEtd, PORTS.ETD_PORTS]])
    await prop(name, fc.record({ failing: fc.constantFrom(-1, 0, 1, 4), topic: fc.constant(1) }), async ({ failing }) => {
      const out = [], { error } = await capture(() => h.handlerFn({ send: async (c) => { if (out.length === failing) throw new Error("throttled"); out.push(c.input); } })());
      same(!!error, failing >= 0, "failure");
      if (failing < 0) same(out.map((o) => [o.TopicArn, o.Message]).sort(), list.map((p) => ["arn:topic", p]).sort(), "ports published");
      must(list.every((p) => /^FI[A-Z]{3}$/.test(p)), () => "not a locode of Finland");
      return failing < 0 ? "published" : "failing";
    }, { runs: 20, thorough: 20, needs: [h.handlerFn] });

  // ---- tokens ----
  const step = fc.record({ wait: fc.oneof(fc.nat(4000), fc.constantFrom(0, 179, 180, 181, 3419, 3420, 3421)), r: fc.oneof({ weight: 5, arbitrary: fc.record({ expires_in: fc.constantFrom(3600, 181, 180, 60, 7200) }) }, { weight: 1, arbitrary: fc.constantFrom(400, 401, 500, "empty", "network") }) });
  await prop("tokens", fc.array(step, { minLength: 1, maxLength: 8 }), (steps) => withClock(async (clock) => {
    const kept = globalThis.fetch; let cur, asked = 0, until = -1, n = 0, reused = 0, failed = 0;
    globalThis.fetch = async (req) => {
      asked++; same([req.url, req.method, req.headers.get("content-type"), await req.text()], ["http://auth/x", "POST", "application/x-www-form-urlencoded", "client_id=id%261&client_secret=s3cr%3Dt&grant_type=client_credentials"], "request for a token");
      if (cur === "network") throw new TypeError("fetch failed"); if (cur === "empty") return new Response("{}"); if (typeof cur === "number") return new Response("no", { status: cur });
      return new Response(JSON.stringify({ token_type: "Bearer", ...cur, access_token: `T${++n}` }));
    };
    try {
      const api = new OA.OAuthTokenApi({ oAuthTokenEndpoint: "http://auth/x", oAuthClientId: "id&1", oAuthClientSecret: "s3cr=t" });
      for (const s of steps) {
        clock.setSystemTime(Date.now() + s.wait * 1000); cur = s.r;
        const before = asked, valid = Date.now() < until;
        const { value, error, out } = await capture(() => api.getOAuthToken());
        must(!/s3cr/.test(`${out}${error?.message}${error?.stack}`), () => "the secret shows in the log or the error");
        if (valid) { same([asked - before, value?.access_token], [0, `T${n}`], "a token that is still valid"); reused++; continue; }
        same(asked - before, 1, "requests for a token");
        if (typeof s.r === "object") { must(!error && value.access_token === `T${n}`, () => `token refused: ${error}`); until = Date.now() + Math.max(0, s.r.expires_in - 180) * 1000; } else { must(error, () => `a token from ${s.r}`); until = -1; failed++; }
      }
      return failed ? "failing" : reused ? "reused" : n > 1;
    } finally { globalThis.fetch = kept; }
  }), { runs: 400, thorough: 6000, needs: [OA.OAuthTokenApi] });
  must(tokens > 0, () => "no token was asked for");
  await pg.stop();
});
