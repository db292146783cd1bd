// C29: RAMI stop monitoring: unknown delays and tracks, from the queue to the tables.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import { NOW, QUEUES, STATIONS, my, sent, sqs, reset, failedOf } from "#harness/rami.mjs";
import { dt } from "#harness/mylite.mjs";

const SM = await import("#repo/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts");
const UDOT = await import("#repo/rail/rami/src/lambda/process-udot-queue/process-udot-queue.ts");
const OLD = await import("#repo/rail/rami/src/lambda/delete-old-data/delete-old-data.ts");
const DAO = await import("#repo/rail/rami/src/dao/udot.ts");

const MIN = 60e3;
const opt = (a) => fc.option(a, { nil: undefined });
const when = fc.integer({ min: 0, max: 40 }).map((n) => NOW + n * 15e3); // several within one minute
const iso = (ms) => new Date(ms).toISOString().replace(".000Z", "Z");
const call = fc.record({ station: fc.constantFrom(...STATIONS), boarding: fc.constantFrom("boarding", "boarding", "boarding", "passThru", ""), arr: opt(when), dep: opt(when), expArr: opt(when), expDep: opt(when), quayArr: opt(fc.constantFrom("1", "B1", "")), quayDep: opt(fc.constantFrom("2", "")) });
const message = fc.record({ id: fc.uuid(), date: fc.constantFrom("20240506", "20240507"), train: fc.constantFrom(1, 27, 761, 8122, 99999), bus: fc.constantFrom(false, false, false, true), calls: fc.array(call, { minLength: 1, maxLength: 4 }) });
const strip = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
function wire(m) {
  const calls = m.calls.map((c) => strip({ stopPointRef: c.station, departureBoardingActivity: c.boarding, arrivalStopAssignment: strip({ expectedQuayName: c.quayArr }), departureStopAssignment: strip({ expectedQuayName: c.quayDep }), aimedArrivalTime: c.arr && iso(c.arr), aimedDepartureTime: c.dep && iso(c.dep), expectedArrivalTime: c.expArr && iso(c.expArr), expectedDepartureTime: c.expDep && iso(c.expDep) }));
  return { headers: { e2eId: m.id, source: "sm", eventType: "x", recordedAtTime: iso(NOW) }, payload: { monitoredStopVisits: [{ monitoredVehicleJourney: { monitoredCall: calls[0], onwardCalls: calls.slice(1), vehicleJourneyName: `${m.date}1${String(m.train).padStart(5, "0")}${m.bus ? "BUS" : ""}` } }] } };
}
const dashed = (d) => `${d.slice(0, 4)}-${d.slice(4, 6)}-${d.slice(6)}`;
/** what a message tells of each timetable row of the train */
const told = (m) => m.calls.filter((c) => c.boarding === "boarding").flatMap((c) => [
  ...(c.arr ? [{ stationShortCode: c.station, scheduledTime: new Date(c.arr).toISOString(), type: 0, unknownDelay: !c.expArr, unknownTrack: !c.quayArr }] : []),
  ...(c.dep ? [{ stationShortCode: c.station, scheduledTime: new Date(c.dep).toISOString(), type: 1, unknownDelay: !c.expDep, unknownTrack: !c.quayDep }] : []),
]);
const key = (x) => JSON.stringify(x);

await check({
  rule: "generated stop monitoring messages and timetables, malformed messages, faults at any statement or queue call; non-trivial: a row of a train became known or unknown, a fault was met, a message was malformed",
  assumptions: ["SQLite stands in for MySQL", "one batch holds one message for a train"],
}, async ({ prop }) => {
  await prop("stop monitoring messages are saved and their unknowns passed on", fc.record({ batch: fc.array(fc.oneof({ weight: 4, arbitrary: message }, fc.constantFrom("{", "null", "{}", "[]", "\"x\"", '{"headers":{"e2eId":"1"},"payload":{"monitoredStopVisits":[]}}')), { minLength: 1, maxLength: 4 }), fault: fc.constantFrom("", "", "save", "udot", "dlq") }), async (c) => {
    reset();
    const records = c.batch.map((m, i) => ({ messageId: `m${i}`, body: typeof m === "string" ? m : JSON.stringify(wire(m)) }));
    let hit = 0;
    if (c.fault === "save") my.fault = (sql) => (/insert/i.test(sql) && hit++ === 0 ? "connection lost" : undefined);
    if (c.fault === "udot" || c.fault === "dlq") sqs.fault = (i) => (i.QueueUrl === `q-${c.fault}` && hit++ === 0 ? new Error("queue is down") : undefined);
    const { value, error } = await capture(() => SM.handler({ Records: records }));
    my.fault = undefined;
    must(!error, () => `the batch failed: ${error}`);
    if (!my.settled) return false;
    const failed = new Set(failedOf(value, records));
    let saved = my.rows("select * from rami_stop_monitoring_message"), news = 0;
    c.batch.forEach((m, i) => {
      const letters = sent.filter((x) => x.queue === QUEUES.DLQ_URL && JSON.parse(x.body).message === records[i].body);
      if (typeof m === "string") { must(failed.has(i) || (letters.length > 0 && JSON.parse(letters[0].body).messageType === "SM"), () => `${m} disappeared`); return; }
      const data = m.bus ? [] : told(m), news_ = sent.filter((x) => x.queue === QUEUES.UDOT_SQS_URL && JSON.parse(x.body).messageId === m.id);
      const row = saved.find((r) => r.rami_message_id === m.id && r.message === records[i].body && r.train_number === m.train && r.train_departure_date === dashed(m.date));
      if (failed.has(i)) { must(hit > 0, () => `message ${i} failed without a fault`); return; }
      must(row, () => `message ${i} was not saved: ${show(saved)}`);
      same(news_.map((x) => { const { messageId, trainNumber, departureDate, data: d } = JSON.parse(x.body); return { messageId, trainNumber, departureDate, d }; }), data.length ? [{ messageId: m.id, trainNumber: m.train, departureDate: dashed(m.date), d: data }] : [], `news of message ${i}`);
      same(letters.length, 0, "dead letters of a good message"); news += data.length;
    });
    same(failed.size > 0 && c.batch.every((m, i) => typeof m !== "string" || !failed.has(i)) ? hit > 0 : true, true, "failures");
    if (hit) must(failed.size > 0, "a fault went unreported");
    same(saved.length, new Set(saved.map((r) => r.rami_message_id + r.message)).size, "messages saved once");
    same(my.leaked, 0, "connections not released");
    return hit ? "fault" : news > 0 || c.batch.some((m) => typeof m === "string");
  }, { runs: 500, thorough: 8000, needs: [SM.handler] });

  const tt = fc.array(fc.record({ station: fc.constantFrom(...STATIONS), time: when, type: fc.constantFrom(0, 1), train: fc.constantFrom(1, 27), date: fc.constantFrom("20240506", "20240507") }), { minLength: 0, maxLength: 12 });
  const news = fc.record({ id: fc.uuid(), train: fc.constantFrom(1, 27), date: fc.constantFrom("20240506", "20240507"), picks: fc.array(fc.record({ row: fc.nat(11), shift: fc.constantFrom(0, 0, 0, 1, 30, 59, -1, 60, -60), miss: fc.constantFrom("", "", "", "station", "type"), ud: fc.boolean(), ut: fc.boolean() }), { maxLength: 5 }) });
  await prop("the tables tell the latest of each row of a train", fc.record({ tt, batches: fc.array(fc.uniqueArray(news, { minLength: 1, maxLength: 3, selector: (n) => `${n.train}${n.date}` }), { minLength: 1, maxLength: 4 }), fault: fc.option(fc.record({ at: fc.integer({ min: 0, max: 25 }), times: fc.constantFrom(1, 2, 3) }), { freq: 3 }), modelled: fc.array(fc.boolean(), { minLength: 4, maxLength: 4 }) }), async (c) => {
    reset();
    const rows = c.tt.map((r, i) => ({ ...r, id: i + 1, minute: Math.floor(r.time / MIN) }));
    // of two rows for the same stop and minute either could be meant
    const clean = rows.filter((r, i) => !rows.some((q, j) => j !== i && q.train === r.train && q.date === r.date && q.station === r.station && q.type === r.type && q.minute === r.minute));
    for (const r of clean) my.insert("time_table_row", { attap_id: r.id, station_short_code: r.station, scheduled_time: dt(r.time), type: r.type, departure_date: dashed(r.date), train_number: r.train });
    const state = new Map(); let changes = 0, hits = 0, n = 0;
    for (const [at, batch] of c.batches.entries()) {
      // the prediction model has read the rows: what stays the same needs no new history
      if (c.modelled[at]) my.db.exec("update rami_udot set model_updated_time = 'read'");
      const read = new Set(my.rows("select * from rami_udot where model_updated_time is not null").map((r) => key([r.train_number, r.train_departure_date, r.attap_id])));
      const data = batch.map((m) => m.picks.flatMap((p) => {
        const pool = clean.filter((r) => r.train === m.train && r.date === m.date), r = pool[p.row % (pool.length || 1)] ?? clean[p.row % (clean.length || 1)];
        if (!r) return [];
        return [{ stationShortCode: p.miss === "station" ? "ZZZ" : r.station, scheduledTime: new Date(r.time + p.shift * 1000).toISOString(), type: p.miss === "type" ? 1 - r.type : r.type, unknownDelay: p.ud, unknownTrack: p.ut }];
      }));
      const records = batch.map((m, i) => ({ messageId: `m${i}`, body: JSON.stringify({ messageId: m.id, trainNumber: m.train, departureDate: dashed(m.date), vehicleJourneyName: "x", data: data[i] }) }));
      const before = { udot: new Map(state), history: my.rows("select count(*) n from rami_udot_history")[0].n };
      let where; // the connection the fault strikes, statement by statement
      my.fault = (sql) => { if (/^(rollback|connect|begin|commit)$/i.test(sql)) return undefined; if (where ? sql === where.sql && where.left > 0 : c.fault && n++ === c.fault.at) { where ??= { sql, left: c.fault.times }; where.left--; hits++; return "deadlock"; } return undefined; };
      const { value, error } = await capture(() => UDOT.handler({ Records: records }));
      my.fault = undefined;
      must(!error, () => `the batch failed: ${error}`);
      if (!my.settled) return false;
      const failed = new Set(failedOf(value, records));
      if (!where) same([...failed], [], "records reported as failed");
      batch.forEach((m, i) => {
        if (failed.has(i)) return;
        const quiet = new Map(); // rows the message only says to be known, as they were
        for (const d of data[i]) {
          const r = clean.find((x) => x.train === m.train && x.date === m.date && x.station === d.stationShortCode && x.type === d.type && x.minute === Math.floor(Date.parse(d.scheduledTime) / MIN));
          if (!r) continue;
          const k = key([m.train, dashed(m.date), r.id]), old = state.get(k), now = key([d.unknownDelay, d.unknownTrack]);
          if (!d.unknownDelay && !d.unknownTrack && old === undefined) continue;
          if (old !== now) { changes++; must(my.rows("select * from rami_udot_history where rami_message_id = ? and attap_id = ? and train_number = ? and train_departure_date = ? and unknown_delay = ? and unknown_track = ?", m.id, r.id, m.train, dashed(m.date), Number(d.unknownDelay), Number(d.unknownTrack)).length > 0, () => `no history of ${k} becoming ${now}`); }
          state.set(k, now);
          quiet.set(r.id, old === now && ((!d.unknownDelay && !d.unknownTrack) || read.has(k)) && quiet.get(r.id) !== false);
        }
        for (const [id, q] of quiet) if (q) same(my.rows("select count(*) n from rami_udot_history where rami_message_id = ? and attap_id = ?", m.id, id)[0].n, 0, `history of row ${id} which stays as it was`);
      });
      alike(my.rows("select * from rami_udot").map((r) => [key([r.train_number, r.train_departure_date, r.attap_id]), key([!!r.unknown_delay, !!r.unknown_track])]).sort(), [...state].sort(), `unknowns after ${show(batch)}`);
      if (key([...state].sort()) === key([...before.udot].sort()) && batch.every((m, i) => failed.has(i) || data[i].length === 0)) same(my.rows("select count(*) n from rami_udot_history")[0].n, before.history, "history of nothing");
      if (where && where.left === 0 && c.fault.times < 3 && /^\s*(insert into|update)\s+rami_udot\b(?!_history)/i.test(where.sql)) same([...failed], [], "a statement that fails once or twice is tried again");
      same(my.leaked, 0, "connections not released");
    }
    return hits ? "fault" : changes > 0;
  }, { runs: 800, thorough: 8000, needs: [UDOT.handler] });

  await prop("only data older than a day is removed", fc.record({ ages: fc.array(fc.constantFrom(0, 3600, 86399, 86400, 86401, 90000, 200000), { maxLength: 8 }), fault: fc.option(fc.nat(2), { freq: 3 }) }), async (c) => {
    const clock = fakeClock(NOW, ["Date"]);
    try {
      reset();
      c.ages.forEach((a, i) => {
        const created_db = dt(NOW - a * 1000);
        my.insert("rami_stop_monitoring_message", { rami_message_id: `${i}`, train_number: i, train_departure_date: "x", message: "m", created_db });
        my.insert("rami_udot", { train_number: i, train_departure_date: "x", attap_id: i, unknown_delay: 1, unknown_track: 1, created_db });
        my.insert("rami_udot_history", { rami_message_id: `${i}`, train_number: i, train_departure_date: "x", attap_id: i, unknown_delay: 1, unknown_track: 1, created_db });
      });
      let n = 0, hit = false;
      my.fault = (sql) => { if (/delete/i.test(sql) && n++ === c.fault) { hit = true; return "connection lost"; } return undefined; };
      const { error } = await capture(() => OLD.handler());
      my.fault = undefined;
      if (!my.settled) return false;
      same(!!error, hit, `failure: ${error}`);
      const want = c.ages.flatMap((a, i) => (hit || a <= 86400 ? [i] : []));
      for (const t of ["rami_stop_monitoring_message", "rami_udot", "rami_udot_history"]) same(my.rows(`select train_number n from ${t} order by 1`).map((r) => r.n), want, `rows kept in ${t}`);
      same(my.leaked, 0, "connections not released");
      return hit ? "fault" : want.length < c.ages.length;
    } finally { clock.uninstall(); }
  }, { runs: 150, thorough: 1500, needs: [OLD.handler, DAO.deleteOldValues] });
});
