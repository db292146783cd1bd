// C39: uploaded DATEX II: what is accepted is stored, sorted out in order, and published as whole documents.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import { parseString } from "#stub/xml2js.mjs";
const DAY = 86400e3, MIN = 60e3, DATA = "https://sqs/data", MQTT = "https://sqs/mqtt";
Object.assign(process.env, { QUEUE_URL: DATA, MQTT_QUEUE_URL: MQTT });
let queued = [], sqsFault = () => undefined, broker;
const S = (globalThis.__stubs ??= {});
S["@aws-sdk/client-sqs"] = { SQS: class { async sendMessage(m) { const e = sqsFault(m); if (e) throw e; queued.push(m); return {}; } } };
let ids = 0; S.uuid = { v4: () => `generated-${++ids}` };
S.mqtt = { connectAsync: async (o) => broker(o) };
const { handler: upload } = await import("#repo/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts");
const { handler: rtti } = await import("#repo/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts");
const { handler: sortOut } = await import("#repo/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts");
const { handler: publish } = await import("#repo/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts");
const { sendMqttUpdates } = await import("#repo/road/data-upload/src/service/mqtt-sending-service.ts");
const { handler: deleteOld } = await import("#repo/road/data-upload/src/lambda/delete-old-messages/delete-old-messages.ts");
const schema = `
create table data_incoming(data_id integer primary key autoincrement, created_at integer, message_id text not null, source text not null, version text not null, type text not null, data text not null, status text not null);
create trigger t1 after insert on data_incoming begin update data_incoming set created_at = pg_now() where data_id = new.data_id; end;
create table device_data_datex2(device_id text not null, version text not null, type text not null, datex2 text not null, effect_date integer not null, unique(device_id, version, type));
create table datex2_rtti(id integer primary key, situation_id text not null, type text not null, publication_time integer not null, geometry text, start_time integer not null, end_time integer, is_srti integer not null, message text not null);
create trigger t2 after insert on datex2_rtti when typeof(new.publication_time) = 'text' begin update datex2_rtti set publication_time = pg_stamp(new.publication_time) where id = new.id; end;`;
let nowMs = 0;
// PostgreSQL reads an instant whatever punctuation is around it
const pg = await new PgLite({ schema, now: () => nowMs, functions: { pg_today: () => Math.floor(nowMs / DAY) * DAY, pg_stamp: (t) => Date.parse(String(t).replace(/[{}"]/g, "")) }, types: { created_at: "ts", publication_time: "ts", is_srti: "bool" } }).start();
pg.rewrites.push([/\bcurrent_date\b/gi, "pg_today()"]);
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host, "mqtt.server.url": "mqtt://broker.example:1884", "mqtt.server.username": "mu", "mqtt.server.password": "mp" });
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v);
const some = (v, freq) => fc.option(v, { nil: undefined, freq });
const quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const iso = (ms) => new Date(ms).toISOString();
const BASE = Date.UTC(2026, 4, 1, 5);
const parsed = (t, what) => { let out; parseString(t, (e, r) => { must(!e && r, `${what} is not one XML element: ${e?.message}: ${show(t)}`); out = r; }); return out; };

// ---------- documents
const TEXT = fc.oneof(fc.constantFrom("Tietyö", "5 $ &amp; 10 $$", "$&amp;$`$'$1", "PUBLICATION_TIME", "SITUATION", "a &lt;situation b", "\u{1F6A7} &#228;", "  x "), fc.string({ unit: fc.constantFrom("$", "'", "`", "&amp;", "1", "a", "&lt;", "&quot;", "ä"), minLength: 1, maxLength: 8 }));
const devId = fc.constantFrom("KRM015651", "VME/TIO01K502", "kä-1"), zone = fc.constantFrom(0, 0, 2, -5);
const stamp = (ms, z) => (z ? `${iso(ms + z * 3600e3).slice(0, -1)}${z < 0 ? "-" : "+"}${String(Math.abs(z)).padStart(2, "0")}:00` : iso(ms));
const item = fc.record({ id: devId, start: fc.integer({ min: 0, max: 900 }).map((n) => BASE - n * MIN), end: some(fc.integer({ min: 1, max: 900 }).map((n) => BASE + n * MIN), 3), z: zone, text: TEXT, lines: fc.boolean(), records: fc.integer({ min: 1, max: 2 }), srti: fc.boolean(), empty: fc.boolean() });
const situation = (x, p, c) => { const nl = x.lines ? "\n   " : ""; return `<${p}situation id="${x.id}"${p ? "" : ' version="3"'}>${nl}<${p}overallSeverity>high</${p}overallSeverity>${nl}${Array.from({ length: x.records }, (_, i) => `<${p}situationRecord xsi:type="sit:SpeedManagement" id="${x.id}_${i}" version="1">${x.empty ? `<${p}nothing/>` : ""}<${p}validity><${c}validityStatus>active</${c}validityStatus><${c}validityTimeSpecification><${c}overallStartTime>${stamp(x.start + i * 7 * MIN, x.z)}</${c}overallStartTime>${x.end ? `<${c}overallEndTime>${stamp(x.end, x.z)}</${c}overallEndTime>` : ""}</${c}validityTimeSpecification></${p}validity><${p}comment lang="fi">${x.text}</${p}comment><${p}safetyRelatedMessage>${x.srti}</${p}safetyRelatedMessage></${p}situationRecord>`).join(nl)}${nl}</${p}situation>`; };
const controller = (x) => `<vms:vmsController id="${x.id}"><vms:vms vmsIndex="0"><vms:vms><vms:vmsType>other</vms:vmsType><vms:description>${x.text}</vms:description></vms:vms></vms:vms></vms:vmsController>`;
const status = (x) => `<vms:vmsControllerStatus><vms:vmsControllerReference id="${x.id}"/><vms:statusUpdateTime>${stamp(x.start, x.z)}</vms:statusUpdateTime><vms:vmsStatus vmsIndex="0"><vmsStatus><vms:statusUpdateTime>${iso(BASE)}</vms:statusUpdateTime><t>${x.text}</t></vmsStatus></vms:vmsStatus></vms:vmsControllerStatus>`;
const NS = ' xmlns:com="http://datex2.eu/schema/3/common" xmlns:sit="http://datex2.eu/schema/3/situation" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"';
const head = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n', publicationTime = (ms = BASE) => `<com:publicationTime>${iso(ms)}</com:publicationTime>`;
/** text, and what there is in it to keep; undefined: the document cannot be read */
function written(d) {
  const l = d.list, cut = (t) => (d.cut ? t.slice(0, t.lastIndexOf("</")) : t), bad = d.cut;
  if (d.version === "DATEXII_2_2_3") { const t = l.map((x) => situation(x, "", "")); return { text: `${head}<d2LogicalModel><payloadPublication>${publicationTime()}${(d.cut && t.length ? [...t.slice(0, -1), cut(t.at(-1))] : t).join(d.tight ? "" : "\n")}</payloadPublication></d2LogicalModel>`, keep: d.cut && t.length ? undefined : l.map((x, i) => ({ id: x.id, type: "SITUATION", text: t[i], at: x.start })) }; }
  if (!/_3_[57]$/.test(d.version)) return { text: "<x/>", keep: [] };
  const kind = d.kind, body = kind === "SITUATION" ? l.map((x) => situation(x, "sit:", "com:")) : kind === "CONTROLLER" ? l.map(controller) : l.map(status);
  const text = kind === "SITUATION" ? `${head}<sit:situationPublication lang="fi"${NS}>${publicationTime()}${body.join(d.tight ? "" : "\n")}</sit:situationPublication>` : `${head}<d2:payload xsi:type="vms:${kind === "CONTROLLER" ? "VmsTablePublication" : kind === "OTHER" ? "VmsOther" : "VmsPublication"}"${NS}>${publicationTime()}${kind === "CONTROLLER" ? `<vms:vmsControllerTable>${body.join(d.tight ? "" : "\n")}</vms:vmsControllerTable>` : body.join(d.tight ? "" : "\n")}</d2:payload>`;
  return { text: cut(text), keep: bad || kind === "OTHER" || !l.length ? undefined : l.map((x, i) => ({ id: x.id, type: kind, text: body[i], at: kind === "CONTROLLER" ? undefined : x.start })) };
}
const versionDoc = fc.record({ version: fc.constantFrom("DATEXII_2_2_3", "DATEXII_2_2_3", "DATEXII_3_5", "DATEXII_3_5", "DATEXII_3_7", "DATEXII_3_7", "3.5", "DATEXII_4"), type: fc.constantFrom("VARIABLE_MESSAGE_SIGN_DATEX_XML", "VARIABLE_MESSAGE_SIGN_DATEX_XML", "VARIABLE_MESSAGE_SIGN_METADATA_XML", "RTTI_DATEX_XML", "OTHER"), kind: fc.constantFrom("SITUATION", "SITUATION", "CONTROLLER", "CONTROLLER_STATUS", "OTHER"), list: fc.uniqueArray(item, { selector: (x) => x.id, minLength: 1, maxLength: 3 }), tight: fc.boolean(), cut: fc.oneof({ weight: 8, arbitrary: fc.constant(false) }, fc.constant(true)) });
const BAD = { none: null, blank: "", text: "x", array: "[]", number: "5", nul: "null", empty: '{"datexIIVersions":[]}', extra: '{"datexIIVersions":[{"type":"a","version":"b","message":"c","x":1}]}', lacking: '{"datexIIVersions":[{"type":"a","version":"b"}]}', wrong: '{"datexIIVersions":[{"type":"a","version":3,"message":"c"}]}', other: '{"datexIIVersions":[{"type":"a","version":"b","message":"c"}],"y":1}', cut: '{"datexIIVersions":[' };
const uploadStep = fc.record({ do: fc.constant("upload"), versions: fc.uniqueArray(versionDoc, { selector: (d) => d.version, minLength: 1, maxLength: 3 }), id: some(fc.constantFrom("req-a", "req-b"), 3), bad: rare(fc.constantFrom(...Object.keys(BAD)), 6), fault: rare(fc.constantFrom("insert", "insert2", "drop", "sqs"), 5) });
const rttiDoc = fc.record({ x: item, extra: rare(item, 6), version: fc.oneof({ weight: 8, arbitrary: fc.constant("3.5") }, fc.constantFrom("3.7", "DATEXII_3_5")), cut: fc.oneof({ weight: 8, arbitrary: fc.constant(false) }, fc.constant(true)), bad: rare(fc.constantFrom("json", "schema", "type", "date", "message"), 6), late: fc.nat(5) });
const rttiStep = fc.record({ do: fc.constant("rtti"), records: fc.array(rttiDoc, { minLength: 1, maxLength: 4 }), fault: rare(fc.constantFrom("insert", "drop", "sqs"), 6) });
const step = fc.oneof({ weight: 4, arbitrary: uploadStep }, { weight: 3, arbitrary: rttiStep }, { weight: 4, arbitrary: fc.record({ do: fc.constant("sort"), slow: fc.array(fc.constantFrom(0, 0, 3, 6), { maxLength: 6 }), fault: rare(fc.constantFrom("select", "sqs"), 8) }) }, { weight: 1, arbitrary: fc.record({ do: fc.constant("delete") }) }, { weight: 2, arbitrary: fc.record({ do: fc.constant("publish"), n: fc.integer({ min: 1, max: 9 }), unknown: fc.boolean(), fault: rare(fc.constantFrom("connect", "publish", "select"), 5) }) });

const url = fc.record({ protocol: fc.constantFrom("tcp", "mqtt", "mqtts", "ws", "wss", "ssl", "http"), host: fc.constantFrom("broker.example", "10.0.0.1"), port: some(fc.constantFrom(1883, 8883, 9001), 3) });
const tables = () => ({ incoming: pg.rows("select message_id, source, version, type, data, status, created_at from data_incoming order by data_id").map((r) => Object.values(r)), devices: pg.rows("select * from device_data_datex2 order by device_id, version, type") });
const fails = (re, what, nth = 0) => { let n = 0; return (sql) => (re.test(sql) && n++ === nth ? (fails.hit = true, what === "drop" ? "drop" : { code: "53200", message: "no" }) : undefined); };

await check({
  rule: "a history is non-trivial if something uploaded is sorted out or published",
  assumptions: ["PostgreSQL is emulated as far as the statements need, xml2js as far as the code uses it, SQS and the MQTT broker by what is sent to them", "one uploaded message holds one document per version, and a document one part per device", "of an RTTI publication the first situation counts", "one invocation at a time sorts out messages", "an upload that is answered with an error may have been saved in part"],
}, async ({ prop }) => {
  await prop("histories", fc.array(fc.tuple(fc.integer({ min: 1, max: 3000 }), step), { minLength: 1, maxLength: 14, size: "max" }), async (steps) => {
    pg.fresh(); pg.connecting = undefined; nowMs = BASE; queued = []; sqsFault = () => undefined; ids = 0;
    let incoming = [], events = 0, published = 0, clock = 0; const devices = new Map(), rttis = [], waiting = [];
    const compare = (what) => { const t = tables();
      same(t.incoming, incoming.map((r) => [r.id, r.source, r.version, r.type, r.text, r.status, r.created]), `what came in, ${what}`);
      same(t.devices.map((d) => [d.device_id, d.version, d.type, d.effect_date]), [...devices.values()].sort((a, b) => (a.key < b.key ? -1 : 1)).map((d) => [d.id, d.version, d.type, d.at]), `the devices' data, ${what}`);
      for (const d of t.devices) { const w = devices.get(`${d.device_id}|${d.version}|${d.type}`); if (d.version === "DATEXII_2_2_3") same(d.datex2, w.text, `${w.key}, ${what}`); else { must(!/^\s*<\?/.test(d.datex2), `${w.key} is stored with an XML declaration`); same(parsed(d.datex2, w.key), parsed(w.text, w.key), `${w.key}, ${what}`); } }
      const got = pg.rows("select * from datex2_rtti order by id").map((r) => ({ ...r, key: `${r.situation_id}|${r.publication_time}` })), want = new Map(rttis.map((r) => [`${r.x.id}|${r.published}`, r]));
      same([...new Set(got.map((g) => g.key))].sort(), [...want.keys()].sort(), `the RTTI situations, ${what}`);
      for (const g of got) { const w = want.get(g.key); same([g.start_time, g.end_time, Boolean(g.is_srti)], [w.x.start, w.x.end ?? null, w.srti], `start, end and SRTI of ${g.key}, ${what}`); }
    };
    for (const [minutes, s] of steps) {
      nowMs += minutes * MIN; fails.hit = false; const what = `after ${s.do} at ${iso(nowMs)}`; queued = [];
      if (s.do === "upload") {
        const docs = s.versions.map((d) => ({ d, ...written(d) })), payload = { datexIIVersions: docs.map((x) => ({ type: x.d.type, version: x.d.version, message: x.text })) };
        if (s.fault === "insert") pg.fault = fails(/insert into data_incoming/i, "error"); if (s.fault === "insert2") pg.fault = fails(/insert into data_incoming/i, "error", 1); if (s.fault === "drop") pg.fault = fails(/insert into data_incoming/i, "drop");
        if (s.fault === "sqs") sqsFault = () => { fails.hit = true; return new Error("no queue"); };
        const r = await quietly(() => upload({ body: s.bad ? BAD[s.bad] : JSON.stringify(payload), headers: s.id ? { "X-Request-ID": s.id } : {} })); pg.fault = undefined; sqsFault = () => undefined; if (!pg.settled) return false;
        must(!("error" in r), `the upload throws: ${r.error?.message}`);
        if (s.bad) same(r.value.statusCode, 400, `status of an upload that is ${s.bad}`); else if (fails.hit) { must(r.value.statusCode >= 500, `an upload that could not be saved is answered with ${r.value.statusCode}`); const t = tables().incoming.slice(incoming.length); for (const x of t) { const d = docs.find((y) => y.d.version === x[2]); must(d && d.text === x[4] && x[5] === "NEW", `saved of a failed upload: ${show(x)}`); incoming.push({ id: x[0], source: "API", version: x[2], type: x[3], text: x[4], status: "NEW", created: nowMs, doc: d }); } }
        else {
          same(r.value.statusCode, 200, "status of an upload"); const t = tables().incoming.slice(incoming.length); if (!s.id) for (const x of t) must(/^generated-/.test(x[0]) && x[0] === t[0][0], `message ids ${show(t.map((y) => y[0]))}`);
          // in which order the versions of one upload are saved does not matter
          same(t.map((x) => x[2]).sort(), docs.map((d) => d.d.version).sort(), `the versions saved, ${what}`);
          for (const x of t) { const d = docs.find((y) => y.d.version === x[2]); incoming.push({ id: s.id ?? x[0], source: "API", version: d.d.version, type: d.d.type, text: d.text, status: "NEW", created: nowMs, doc: d }); }
          must(queued.some((q) => q.QueueUrl === DATA), `sorting out was not started, ${what}`);
        }
      } else if (s.do === "rtti") {
        const docs = s.records.map((d) => { const published = BASE + clock++ * MIN - d.late * 5 * MIN - d.late, text = `${head}<d2:payload xsi:type="sit:SituationPublication">${publicationTime(published)}${[d.x, ...(d.extra ? [d.extra] : [])].map((x) => situation(x, "sit:", "com:")).join("\n")}</d2:payload>${d.x.lines ? "\n" : ""}`; return { d, published, text: d.cut ? text.slice(0, text.lastIndexOf("</")) : text }; });
        const bodies = docs.map(({ d, text }, i) => { const m = { messageId: `m${nowMs}-${i}`, date: d.bad === "date" ? "yesterday" : iso(BASE), messageVersions: [{ messageContent: text, messageType: d.bad === "type" ? "DATEX1" : "DATEX2", typeVersion: d.version }] }; if (d.bad === "schema") delete m.messageId; return d.bad === "json" ? "{" : JSON.stringify({ Type: "Notification", Message: d.bad === "message" ? "{x" : JSON.stringify(m) }); });
        for (let go = 0; go < 2; go++) {
          fails.hit = false; if (go === 0 && s.fault) { if (s.fault === "sqs") { let n = 0; sqsFault = () => (n++ ? undefined : ((fails.hit = true), new Error("no queue"))); } else pg.fault = fails(/insert into data_incoming/i, s.fault === "drop" ? "drop" : "error"); }
          const r = await quietly(() => rtti({ Records: bodies.map((body, i) => ({ messageId: `q${i}`, body })) })); pg.fault = undefined; sqsFault = () => undefined; if (!pg.settled) return false;
          same("error" in r, fails.hit, `whether the queue has to deliver the RTTI messages again${r.error ? `: ${r.error.message}` : ""}`);
          const t = tables().incoming.slice(incoming.length); for (const x of t) { const i = docs.findIndex((y) => y.text === x[4] && !y.d.bad); must(i >= 0 && x[1] === "TOPIC" && x[5] === "NEW", `saved of the RTTI messages: ${show(x)}`); incoming.push({ id: `m${nowMs}-${docs.findIndex((y, j) => y.text === x[4] && x[0] === `m${nowMs}-${j}`)}`, source: "TOPIC", version: docs[i].d.version, type: "RTTI_DATEX_XML", text: x[4], status: "NEW", created: nowMs, rtti: docs[i] }); }
          if (!fails.hit) { const n = docs.filter((y) => !y.d.bad); for (const y of n) must(t.some((x) => x[4] === y.text), `an RTTI message is lost, ${what}`); same(t.length, n.length, `how many RTTI messages are saved, ${what}`); if (n.length) must(queued.some((q) => q.QueueUrl === DATA), `sorting out was not started, ${what}`); break; }
        }
      } else if (s.do === "sort") {
        const slow = s.slow; let from = pg.conns.length; pg.connecting = (n) => slow[n - from];
        if (s.fault === "select") pg.fault = fails(/^\s*select data_id/i, "error"); if (s.fault === "sqs") sqsFault = () => new Error("no queue");
        const r = await quietly(() => sortOut()); pg.connecting = undefined; pg.fault = undefined; sqsFault = () => undefined; if (!pg.settled) return false; must(!("error" in r), `sorting out throws: ${r.error?.message}`);
        if (s.fault !== "select") {
          const notify = [];
          for (const m of incoming.filter((x) => x.status === "NEW")) {
            if (m.source === "API") { if (!/^VARIABLE_/.test(m.type)) continue; const keep = m.doc.keep; m.status = keep ? "PROCESSED" : "FAILED"; for (const k of keep ?? []) { const key = `${k.id}|${m.version}|${k.type}`; devices.set(key, { key, id: k.id, version: m.version, type: k.type, text: k.text, at: k.at ?? nowMs }); events++; } }
            else { const { d, published: p } = m.rtti; if (d.version !== "3.5") { m.status = "PROCESSED"; continue; } m.status = d.cut ? "FAILED" : "PROCESSED"; if (d.cut) continue; rttis.push({ x: d.x, published: p, srti: m.text.includes("safetyRelatedMessage>true") }); notify.push(d.x.id); events++; }
          }
          if (s.fault !== "sqs") { same(queued.filter((q) => q.QueueUrl === MQTT).map((q) => JSON.parse(q.MessageBody).id).sort(), notify.sort(), `the updates to publish, ${what}`); waiting.push(...notify); }
        }
      } else if (s.do === "delete") {
        const r = await quietly(() => deleteOld()); if (!pg.settled) return false; must(!("error" in r), `deleting throws: ${r.error?.message}`); const limit = Math.floor(nowMs / DAY) * DAY - 7 * DAY; incoming = incoming.filter((m) => m.created >= limit);
      } else {
        const batch = [...(s.unknown ? Array(s.n % 2 ? 1 : 11).fill("nobody") : []), ...waiting.splice(0, s.n)]; if (!batch.length) continue;
        const latest = new Map(); for (const x of rttis) if (batch.includes(x.x.id) && !(latest.get(x.x.id)?.published > x.published)) latest.set(x.x.id, x);
        for (let go = 0; go < 2; go++) {
          const fault = go === 0 && s.fault, open = []; let sent = [], hit = false; if (fault === "select") pg.fault = fails(/from datex2_rtti/i, "error");
          broker = async (c) => { same([c.protocol, c.host, c.port, c.username, c.password], ["mqtt", "broker.example", 1884, "mu", "mp"], "how the broker is connected to"); if (fault === "connect") { hit = true; throw new Error("no broker"); } const me = { ended: false }; open.push(me); let n = 0; return { publishAsync: async (topic, text) => { must(!me.ended, "published after the end of the connection"); if (fault === "publish" && n++ === 0) { hit = true; throw new Error("not connected"); } sent.push([topic, text]); }, endAsync: async () => { me.ended = true; } }; };
          const r = await quietly(() => publish({ Records: batch.map((id, i) => ({ messageId: `p${i}`, body: JSON.stringify({ id }) })) })); pg.fault = undefined; if (!pg.settled) return false; hit ||= fault === "select";
          same("error" in r, hit, `whether the queue has to deliver the updates again${r.error ? `: ${r.error.message}` : ""}`); must(open.every((x) => x.ended), `a connection to the broker is left open${hit ? " after a failure" : ""}`); if (hit) continue;
          same(sent.length, latest.size, `how many situations are published of ${show(batch)}`);
          for (const [topic, text] of sent) {
            const d = parsed(text, "what is published")["d2:payload"]; must(d, `what is published is no payload: ${show(text)}`); same(d["com:publicationTime"], [iso(nowMs)], "when it is published"); same(d.$["xsi:type"], "sit:SituationPublication", "what kind of publication it is");
            for (const ns of ["d2", "sit", "com", "loc", "xsi", "roa"]) must(d.$[`xmlns:${ns}`], `${ns} is not declared`); const sit = d["sit:situation"]; must(sit?.length === 1 && !d["d2:payload"], `the situations published: ${show(text)}`); const w = latest.get(sit[0].$.id); must(w, `a situation nobody asked for is published: ${sit[0].$.id}`); latest.delete(sit[0].$.id);
            same(sit[0], parsed(situation(w.x, "sit:", "com:"), "")["sit:situation"], `the latest situation ${w.x.id}, published ${iso(w.published)}`); same(topic, `traffic-message-v3/traffic-data/datex2-3.5/${w.srti ? "SRTI" : "RTTI"}`, "where it is published"); published++;
          }
          break;
        }
      }
      compare(what);
    }
    return events > 0 && (published ? "published" : "sorted out");
  }, { runs: 500, thorough: 4000, needs: [upload, rtti, sortOut, publish, deleteOld] });
  await prop("broker", fc.record({ url, user: TEXT, password: TEXT }), async ({ url: u, user, password }) => {
    pg.fresh(); nowMs = BASE; pg.insert("datex2_rtti", { situation_id: "A", type: "x", publication_time: new Date(BASE), start_time: new Date(BASE), is_srti: 0, message: "<sit:situation/>" }); const seen = [];
    broker = async (c) => { seen.push([c.protocol, c.host, c.port, c.username, c.password]); return { publishAsync: async () => {}, endAsync: async () => {} }; };
    const r = await quietly(() => sendMqttUpdates(`${u.protocol}://${u.host}${u.port ? `:${u.port}` : ""}`, user, password, ["A"]));
    if (u.protocol === "http") { must("error" in r, "an http address is accepted"); same(seen, [], "connections to an http address"); return "refused"; }
    must(!("error" in r), `fails: ${r.error?.message}`); same(seen, [[u.protocol, u.host, u.port ?? 1883, user, password]], "how the broker is connected to"); return "connected";
  }, { runs: 60, thorough: 300, needs: [sendMqttUpdates] });
  await pg.stop();
});
