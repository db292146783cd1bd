// C28: RAMI operator messages, from the queue to the public API.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import { NOW, QUEUES, STATIONS, my, sent, sqs, reset, failedOf, near, spec, wire, served } from "#harness/rami.mjs";

const ROSM = await import("#repo/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts");
const ACTIVE = await import("#repo/rail/rami/src/lambda/get-active-messages/get-active-messages.ts");
const UPDATED = await import("#repo/rail/rami/src/lambda/get-messages-updated-after/get-messages-updated-after.ts");
const UP = await import("#repo/rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts");
const DB = await import("#repo/rail/rami/src/util/database.ts");

const bodyOf = (r) => JSON.parse(Buffer.from(r.body, "base64").toString());
const record = (m, i) => ({ messageId: `m${i}`, body: typeof m === "string" ? m : JSON.stringify(m) });
const batches = fc.array(fc.uniqueArray(spec, { minLength: 1, maxLength: 3, selector: (s) => s.id }), { minLength: 1, maxLength: 5 });
const filters = fc.record({ train_number: fc.constantFrom("", "", "", "27", "274", "9999"), train_departure_date: fc.constantFrom("", "", "", "2024-05-06", "2024-05-07", "2024-05-08"), station: fc.constantFrom("", "", "", "", ...STATIONS.slice(0, 6), "JY", "ZZ"), only_general: fc.constantFrom("", "", "true", "false") });
const sortById = (l) => [...l].sort((a, b) => (a.id < b.id ? -1 : a.id > b.id ? 1 : 0));
const tidy = (l) => sortById(l).map((m) => ({ ...m, stations: m.stations && [...m.stations].sort() }));
/** rows the store should hold: every version of every message */
class Store {
  rows = [];
  apply(s) {
    if (s.operation === "DELETE") { for (const r of this.rows) if (r.s.id === s.id) r.deleted = true; return true; }
    if (this.rows.some((r) => r.s.id === s.id && r.s.version === s.version)) return false;
    this.rows.push({ s, deleted: false }); return true;
  }
  visible() { const last = new Map(); for (const r of this.rows) if (!last.has(r.s.id) || last.get(r.s.id).s.version < r.s.version) last.set(r.s.id, r); return [...last.values()].filter((r) => !r.deleted).map((r) => r.s); }
}
const active = (s) => s.start.ms <= NOW && s.end.ms > NOW;
const matching = (f) => (s) => (!f.train_number || String(s.body.train) === f.train_number) && (!f.train_departure_date || s.body.date === f.train_departure_date) && (!f.station || s.body.stations.includes(f.station)) && (f.only_general !== "true" || s.body.type === "SCHEDULED_MESSAGE");

await check({
  rule: "histories of generated operator messages (versions out of order, repeats, deletions, in batches), statement faults, and queries with generated filters; non-trivial: a query answered with at least one message, a failed record, an invalid upload",
  assumptions: ["SQLite stands in for MySQL", "messages name at least one station, none twice", "one batch does not hold the same message twice"],
}, async ({ prop }) => {
  await prop("the API serves the latest version of each message as it was sent", fc.record({ batches, queries: fc.array(fc.record({ f: filters, after: fc.option(fc.tuple(near, fc.integer({ min: -1, max: 1 })), { freq: 3 }), only_active: fc.constantFrom("", "true", "false", "false") }), { minLength: 1, maxLength: 5 }) }), async (c) => {
    const clock = fakeClock(NOW, ["Date"]);
    try {
      reset();
      const store = new Store();
      for (const batch of c.batches) {
        const records = batch.map((s, i) => record(wire(s), i));
        sent.length = 0;
        const { value, error } = await capture(() => ROSM.handler({ Records: records }));
        must(!error, () => `the batch failed: ${error}`);
        if (!my.settled) return false;
        const bad = batch.flatMap((s, i) => (store.apply(s) ? [] : [i]));
        same(failedOf(value, records), bad, `records reported as failed (${batch.map((s) => `${s.operation} ${s.id} v${s.version}`)})`);
        same(sent.map((x) => x.queue), bad.map(() => QUEUES.DLQ_URL), "dead letters");
        same(sent.map((x) => JSON.parse(x.body).message), bad.map((i) => records[i].body), "messages kept as dead letters");
      }
      let hits = 0;
      for (const q of c.queries) {
        let list = store.visible().filter(matching(q.f)), r;
        if (q.after) {
          const date = new Date(q.after[0] + q.after[1]);
          r = await capture(() => UPDATED.handler({ ...q.f, date: date.toISOString(), only_active: q.only_active }));
          list = list.filter((s) => s.created.ms >= date.getTime() && (q.only_active === "false" || active(s)));
        } else { r = await capture(() => ACTIVE.handler({ ...q.f })); list = list.filter(active); }
        if (!my.settled) return false;
        must(!r.error, () => `the query failed: ${r.error}`);
        same(r.value.status, 200, "status");
        alike(tidy(bodyOf(r.value)), tidy(list.map(served)), `answer to ${show(q)}`);
        hits += list.length;
      }
      same(my.leaked, 0, "connections not released");
      return hits > 0 ? "served" : c.batches.length > 1 && store.rows.length > 1;
    } finally { clock.uninstall(); }
  }, { runs: 500, thorough: 8000, needs: [ROSM.handler, ACTIVE.handler, UPDATED.handler] });

  await prop("a message is stored whole or not at all, and never lost", fc.record({ first: fc.uniqueArray(spec, { maxLength: 2, selector: (s) => s.id }), batch: fc.array(fc.oneof({ weight: 3, arbitrary: spec }, fc.constantFrom("{", "null", "{}", "[1]", "{\"payload\":{}}")), { minLength: 1, maxLength: 3 }), at: fc.integer({ min: 0, max: 14 }), dlq: fc.boolean() }), async (c) => {
    const clock = fakeClock(NOW, ["Date"]);
    try {
      reset();
      const first = c.first.map((s) => ({ ...s, operation: "INSERT", version: 9 }));
      await capture(() => ROSM.handler({ Records: first.map((s, i) => record(wire(s), i)) }));
      const seen = new Set(), batch = c.batch.filter((s) => typeof s === "string" || (!seen.has(s.id) && seen.add(s.id)));
      const records = batch.map((s, i) => record(typeof s === "string" ? s : wire(s), i));
      const dump = (id) => JSON.stringify(["rami_message", "rami_message_station", "rami_message_audio", "rami_message_video"].map((t) => my.rows(`select * from ${t} where ${t === "rami_message" ? "id" : "rami_message_id"} = ? order by 1, 2, 3`, id)));
      const before = new Map(batch.filter((s) => s.id).map((s) => [s.id, dump(s.id)]));
      const count = (t, s) => my.rows(`select count(*) n from ${t} where ${t === "rami_message" ? "id" : "rami_message_id"} = ? and ${t === "rami_message" ? "version" : "rami_message_version"} = ?`, s.id, s.version)[0].n;
      sent.length = 0; let n = 0, hit = false;
      my.fault = (sql) => { if (/^rollback/i.test(sql) || n++ !== c.at) return undefined; hit = true; return "connection lost"; };
      sqs.fault = () => (c.dlq ? undefined : new Error("queue is down"));
      const { value, error } = await capture(() => ROSM.handler({ Records: records }));
      my.fault = undefined;
      must(!error, () => `the batch failed: ${error}`);
      if (!my.settled) return false;
      const failed = failedOf(value, records);
      batch.forEach((s, i) => {
        const letters = sent.filter((x) => JSON.parse(x.body).message === records[i].body);
        must(letters.every((x) => x.queue === QUEUES.DLQ_URL && JSON.parse(x.body).messageType === "ROSM"), () => `sent elsewhere: ${show(letters)}`);
        if (typeof s === "string") { must(failed.includes(i) || letters.length > 0, () => `${s} disappeared`); return; }
        if (failed.includes(i)) {
          same(letters.length, c.dlq ? 1 : 0, "dead letters of a failed message");
          same(dump(s.id), before.get(s.id), "a failed message leaves the tables as they were");
        } else {
          same(letters.length, 0, "dead letters of a stored message");
          if (s.operation === "DELETE") must(my.rows("select * from rami_message where id = ? and deleted is null", s.id).length === 0, "not deleted");
          else same(["rami_message", "rami_message_station", "rami_message_audio", "rami_message_video"].map((t) => count(t, s)), [1, s.body.stations.length, 1, 1], "rows of a stored message");
        }
      });
      same(failed.filter((i) => typeof batch[i] !== "string").length, hit ? 1 : 0, "failed messages");
      same(my.leaked, 0, "connections not released");
      return hit ? "fault" : batch.some((s) => typeof s === "string");
    } finally { clock.uninstall(); }
  }, { runs: 400, thorough: 6000, needs: [ROSM.handler] });

  await prop("database connections are always released", fc.array(fc.record({ how: fc.constantFrom("inDatabase", "inTransaction"), fail: fc.boolean(), at: fc.constantFrom("", "connect", "begin", "commit", "rollback") }), { minLength: 1, maxLength: 25 }), async (steps) => {
    reset();
    for (const s of steps) {
      my.fault = (w) => (w === s.at ? "connection lost" : undefined);
      const done = capture(() => DB[s.how](async (conn) => { await conn.query("select 1"); if (s.fail) throw new Error("boom"); return 7; }));
      const r = await Promise.race([done, new Promise((ok) => setTimeout(() => ok("hangs"), 4000))]);
      must(r !== "hangs", "no connection was available");
      const expect = s.fail || s.at === "connect" || (s.how === "inTransaction" && (s.at === "begin" || s.at === "commit"));
      same(!!r.error, expect, `${show(s)} fails`);
      if (!expect && s.how === "inDatabase") same(r.value, 7, "the result");
      same(my.leaked, 0, `connections not released after ${show(s)}`);
    }
    return steps.some((s) => s.fail || s.at);
  }, { runs: 150, thorough: 2000, needs: [DB.inDatabase, DB.inTransaction] });

  // ways to break a valid message
  const BREAK = {
    "no header": (m) => { delete m.headers; }, "no payload": (m) => { delete m.payload; }, "extra field": (m) => { m.admin = true; },
    "no event id": (m) => { delete m.headers.e2eId; }, "event id": (m) => { m.headers.e2eId = "1"; }, "no source": (m) => { delete m.headers.source; },
    "no id": (m) => { delete m.payload.messageId; }, "numeric id": (m) => { m.payload.messageId = 1; }, "version 0": (m) => { m.payload.messageVersion = 0; }, "version text": (m) => { m.payload.messageVersion = "1"; }, "version fraction": (m) => { m.payload.messageVersion = 1.5; },
    "operation": (m) => { m.payload.operation = "MERGE"; }, "no operation": (m) => { delete m.payload.operation; }, "type": (m) => { m.payload.messageType = "OTHER"; }, "start": (m) => { m.payload.startValidity = "2024-13-01T00:00:00Z"; }, "end": (m) => { m.payload.endValidity = "tomorrow"; }, "created": (m) => { m.payload.creationDateTime = 5; }, "no end": (m) => { delete m.payload.endValidity; },
    "time": (m) => { const r = m.payload.scheduledMessage?.onGroundRecipient, rules = r?.recipientAudioMessagesToDeliver?.scheduledAudioDeliveryRules ?? r?.recipientVideoMessagesToDeliver?.deliveryRules; if (!rules) return true; rules.startTime = "10:000"; return false; },
    "title": (m) => { m.payload.title = "x".repeat(256); }, "no title": (m) => { delete m.payload.title; },
    "station": (m) => { const p = m.payload.scheduledMessage?.onGroundRecipient ?? m.payload.monitoredJourneyScheduledMessage; p.deliveryPoints[0].id = 7; }, "stations": (m) => { const p = m.payload.scheduledMessage?.onGroundRecipient ?? m.payload.monitoredJourneyScheduledMessage; delete p.deliveryPoints; },
  };
  await prop("every upload reaches the queue or the dead letters", fc.record({ s: spec, how: fc.constantFrom("", "", "", ...Object.keys(BREAK)), down: fc.boolean(), odd: fc.oneof({ weight: 7, arbitrary: fc.constant(null) }, fc.constantFrom([], 5, "text", {})) }), async (c) => {
    reset();
    const message = c.odd !== null && c.odd !== undefined ? c.odd : wire(c.s);
    // what there is to break may not be in this message
    const valid = message === c.odd ? false : !c.how || BREAK[c.how](message) === true;
    const original = JSON.parse(JSON.stringify(message));
    if (c.down) sqs.fault = () => new Error("queue is down");
    const { value, error } = await capture(() => UP.handler(message));
    same(!!error, c.down, `the upload fails: ${error}`);
    if (c.down) return "down";
    same(value.status, 200, "status");
    same(sent.map((x) => x.queue), [valid ? QUEUES.ROSM_SQS_URL : QUEUES.DLQ_URL], `queue of a message that is ${valid ? "valid" : `invalid (${c.how})`}: ${show(sent)}`);
    const got = JSON.parse(sent[0].body);
    if (valid) alike(got, original, "message in the queue");
    else { alike(got.message, original, "message kept"); same(got.messageType, "ROSM", "type of the dead letter"); must(typeof got.errors === "string" && got.errors.length > 0, "the dead letter tells what was wrong"); }
    return !valid;
  }, { runs: 300, thorough: 4000, needs: [UP.handler] });

  await prop("an empty upload is refused", fc.constantFrom(undefined, null, ""), async (m) => {
    reset();
    const { value, error } = await capture(() => UP.handler(m));
    must(!error && value.status === 400, () => `answer: ${show(value ?? error)}`);
    same(sent.length, 0, "messages sent");
    return true;
  }, { runs: 6, needs: [UP.handler] });

  await prop("query parameters are validated", fc.record({ f: filters, bad: fc.constantFrom("", "train_number", "train_departure_date", "station", "only_general", "date", "only_active"), value: fc.constantFrom("x", "-1", "0", "2024-5-6", "a", "yes", "TRUE", "2024-13-45", "2024-05-061", "x2024-05-06", "2024-05-06T00:00"), missing: fc.boolean() }), async (c) => {
    reset();
    const ok = { train_number: (v) => Number(v) >= 1, train_departure_date: (v) => /^\d{4}-\d{2}-\d{2}$/.test(v), station: (v) => v.length >= 2, only_general: () => false, only_active: () => false, date: (v) => !Number.isNaN(new Date(v).getTime()) };
    const f = { ...c.f, ...(c.bad ? { [c.bad]: c.value } : {}) };
    if (f.station && f.station.length < 2) f.station = "";
    if (c.bad === "station") f.station = c.value;
    const wrong = c.bad && !ok[c.bad](c.value);
    const r = await capture(() => UPDATED.handler({ date: "2024-05-06T00:00:00Z", ...f }));
    if (!my.settled) return false;
    must(!r.error, () => `failed: ${r.error}`);
    same(r.value.status, wrong ? 400 : 200, `status for ${show(f)}`);
    const g = { ...f }; delete g.date; delete g.only_active;
    if (c.missing) for (const k of Object.keys(g)) if (g[k] === "") delete g[k];
    const a = await capture(() => ACTIVE.handler(g));
    must(!a.error, () => `failed: ${a.error}`);
    same(a.value.status, wrong && c.bad !== "date" && c.bad !== "only_active" ? 400 : 200, `status of active messages for ${show(g)}`);
    same(my.leaked, 0, "connections not released");
    return !!wrong;
  }, { runs: 150, thorough: 1500, needs: [UPDATED.handler, ACTIVE.handler] });
});
