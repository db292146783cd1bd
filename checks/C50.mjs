// C50: what the road operator sends is saved once and whole, and old trackings are cleaned.
import { createHash } from "node:crypto";
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
const URL_ = "https://sqs.eu-west-1.amazonaws.com/1/tracking", BUCKET = "big-messages";
Object.assign(process.env, { SQS_BUCKET_NAME: BUCKET, SQS_QUEUE_URL: URL_, AWS_REGION: "eu-west-1" });
const { handler: post } = await import("#repo/road/maintenance-tracking/src/lambda/update-queue/update-queue.ts");
const { handler: take } = await import("#repo/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts");
const { handler: clean } = await import("#repo/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts");
const schema = `create table maintenance_tracking_observation_data(id integer primary key, observation_time integer not null, sending_time integer not null, json text not null, harja_workmachine_id integer not null, harja_contract_id integer not null, sending_system text not null, status text not null, hash text not null unique, s3_uri text not null);
create table maintenance_tracking(id integer primary key, previous_tracking_id integer references maintenance_tracking(id), end_time integer not null, created integer not null, domain text not null);`;
const NOW = Date.UTC(2026, 10, 12, 13, 14, 15), H = 3600e3, T0 = Date.UTC(2026, 0, 5, 6, 7, 8);
const pg = await new PgLite({ schema, ints: true, now: () => NOW }).start(); pg.rewrites = [[/(delete\s+from\s+maintenance_tracking)\s+(?!where|as\b|using)(\w+)/i, "$1 as $2"]];
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host });
const quietly = async (f) => { const c = fakeClock(NOW, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v), T = "maintenance_tracking_observation_data";
/** fails the n:th statement of a kind */
const breaking = (b) => { const s = { hit: 0, n: 0 }; if (b) pg.fault = (sql) => { if (s.hit || !new RegExp(`^\\s*${b[0]}`, "i").test(sql)) return undefined; if (s.n++ < b[1]) return undefined; s.hit++; return b[2] || b[0] === "commit" ? "drop" : { code: "57P01", message: "terminating" }; }; return s; };
// the queue and its bucket: a large message is kept in the bucket, and a reference to it queued
const LARGE = 900; let queue, bucket, failSend, failGet;
globalThis.__bigQueue = {
  async send(input, config) {
    same(Object.keys(input).sort(), ["MessageBody", "QueueUrl"], "what is given to the queue"); same(input.QueueUrl, URL_, "the queue"); same([config.bucketName, config.sqsClientConfig?.region], [BUCKET, "eu-west-1"], "the bucket and region of large messages"); await null; if (failSend) throw failSend === "string" ? "throttled" : Object.assign(new Error("no queue"), { name: "QueueDoesNotExist" });
    const large = Buffer.byteLength(input.MessageBody) > LARGE, key = `k${bucket.size}`; if (large) bucket.set(key, input.MessageBody); queue.push({ body: large ? key : input.MessageBody, key: large ? key : undefined }); return { MessageId: `m${queue.length}` };
  },
  async receive(output) { await null; if (failGet) throw new Error("no bucket"); return { ...output, Messages: output.Messages.map((m) => { const a = m.MessageAttributes?.S3MessageBodyKey?.StringValue, k = a && /^\((.*)\)(.*)$/.exec(a); if (!k) return m; same(k[1], BUCKET, "the bucket a message refers to"); return { ...m, Body: bucket.get(k[2]) }; }) }; },
};
const record = (m, i) => ({ messageId: `id${i}`, receiptHandle: `r${i}`, body: m.body, md5OfBody: createHash("md5").update(m.body).digest("hex"), eventSource: "aws:sqs", eventSourceARN: "arn:aws:sqs:eu-west-1:1:tracking", awsRegion: "eu-west-1", attributes: {}, messageAttributes: { ...(m.key ? { S3MessageBodyKey: { stringValue: `(${BUCKET})${m.key}`, dataType: "String", stringListValues: [], binaryListValues: [] } } : {}), Count: { stringValue: "3", dataType: "Number", stringListValues: [], binaryListValues: [] } } });

const text = fc.constantFrom("Äänekoski", "it's", "a -- b", "$1 ${x} $(y)", "\"quoted\"\\", "rivi\nvaihto", "日本", "null");
const seen = fc.record({ machine: fc.integer({ min: 1, max: 3 }), contract: fc.integer({ min: 1, max: 2 }), at: fc.nat(5), zone: fc.constantFrom("Z", "+02:00", "-05:30"), note: rare(text, 2), long: rare(fc.integer({ min: 300, max: 1500 }), 4) });
const observation = (s) => ({ havainto: { tyokone: { id: s.machine, tunnus: `auto ${s.machine}`, tyokonetyyppi: "aurauskalusto" }, sijainti: { viivageometria: { type: "LineString", coordinates: [[24.5, 60.1, 0], [24.6 + s.at, 60.2]] } }, suoritettavatTehtavat: s.note === undefined ? [] : [s.note], urakkaid: s.contract, havaintoaika: new Date(T0 + s.at * 60e3).toISOString().replace("Z", s.zone), ...(s.long ? { lisatieto: "ä".repeat(s.long) } : {}) } });
const message = fc.record({ system: fc.oneof({ weight: 4, arbitrary: fc.constantFrom("Harja", "O'Urakka", "järj -- 1") }, fc.constant(undefined)), sent: fc.nat(9), seen: fc.array(seen, { maxLength: 5 }), indent: fc.constantFrom(0, 0, 1), bad: rare(fc.constantFrom("cut", "empty", "plain", "header", "list", "number"), 9) });
const letter = (m, i) => ({ otsikko: { lahettaja: { ...(m.system === undefined ? {} : { jarjestelma: m.system }), organisaatio: { nimi: "Y", ytunnus: "1" } }, viestintunniste: { id: i }, lahetysaika: new Date(T0 + m.sent * 1000).toISOString() }, havainnot: m.seen.map(observation) });
const bodyOf = (m, i) => { const s = JSON.stringify(letter(m, i), null, m.indent); return m.bad === "cut" ? s.slice(0, -2) : m.bad === "empty" ? ["", null][i % 2] : m.bad === "plain" ? "havainto" : m.bad === "header" ? JSON.stringify({ havainnot: letter(m, i).havainnot }) : m.bad === "list" ? JSON.stringify({ otsikko: letter(m, i).otsikko }) : m.bad === "number" ? "7" : s; };

await check({
  rule: "a history is non-trivial if something is saved and something is refused, repeated or fails; a cleaning if rows are deleted and older rows are left",
  assumptions: ["the client that keeps large messages in a bucket is not installed and is emulated by what its documentation says", "PostgreSQL is emulated as far as the statements need"],
}, async ({ prop }) => {
  await prop("sent, queued, saved", fc.record({ messages: fc.array(message, { minLength: 1, maxLength: 5, size: "max" }), send: fc.array(rare(fc.constantFrom("error", "string"), 6), { minLength: 5, maxLength: 5, size: "max" }), takes: fc.array(fc.record({ of: fc.oneof({ weight: 3, arbitrary: fc.array(fc.nat(9), { minLength: 1, maxLength: 1 }) }, fc.array(fc.nat(9), { maxLength: 4 })), get: rare(fc.constant(true), 12), breaks: rare(fc.tuple(fc.constantFrom("insert", "insert", "begin", "commit"), fc.nat(2), fc.boolean()), 3) }), { minLength: 1, maxLength: 8, size: "max" }) }), async (o) => {
    pg.fresh(); queue = []; bucket = new Map(); const sent = []; let odd = 0, saved = 0;
    for (const [i, m] of o.messages.entries()) {
      failSend = o.send[i]; const body = bodyOf(m, i), n = queue.length; let valid = true; try { JSON.parse(body); valid = typeof body === "string"; } catch { valid = false; }
      const r = await quietly(() => post({ body, headers: {}, httpMethod: "POST" }));
      if (valid && !failSend) { must(!("error" in r), `message ${i} is refused: ${show(r.error)}`); same(r.value.statusCode, 200, `the answer to message ${i}`); same(queue.length, n + 1, `messages queued for message ${i}`); const q = queue[n]; same(q.key ? bucket.get(q.key) : q.body, body, `the queued message ${i}`); sent.push([m, i]); }
      else { must("error" in r, `message ${i}, which ${valid ? "could not be queued" : "is not JSON"}, is answered ${show(r.value)}`); same(r.error?.statusCode, 400, `the answer to message ${i}, which ${valid ? "could not be queued" : "is not JSON"}`); same(queue.length, n, `messages queued for message ${i}, which is refused`); odd++; }
    }
    // what comes from elsewhere: not JSON at all
    queue.push({ body: "{\"otsikko\":" }); sent.push([{ bad: "cut" }, 99]);
    const model = new Map(), ok = (k) => !sent[k][0].bad;
    const rowsOf = (k) => letter(...sent[k]).havainnot.map(({ havainto: h }) => { const json = JSON.stringify(h); return { observation_time: Date.parse(h.havaintoaika), sending_time: T0 + sent[k][0].sent * 1000, json, harja_workmachine_id: h.tyokone.id, harja_contract_id: h.urakkaid, sending_system: sent[k][0].system ?? "UNKNOWN", status: "UNHANDLED", hash: createHash("sha256").update(json).digest("hex") }; });
    const inDb = () => pg.rows(`select * from ${T} order by id`).map(({ id, s3_uri, ...r }) => r);
    for (const t of o.takes) {
      const of = t.of.map((x) => x % queue.length), before = inDb(), s = breaking(t.breaks); failGet = t.get; const r = await quietly(() => take({ Records: of.map((k, i) => record(queue[k], i)) })); pg.fault = undefined; failGet = false; if (!pg.settled) return false;
      const after = inDb(), good = of.filter(ok);
      if (!of.length) { must("error" in r, "an event of no messages is taken as handled"); same(after, before, "the rows after an event of no messages"); continue; }
      if (t.get) { must("error" in r, "messages that could not be fetched are taken as handled"); same(after, before, "the rows after it"); odd++; continue; }
      if (s.hit) {
        odd++; const lost = good.flatMap(rowsOf).filter((x) => !after.some((y) => y.hash === x.hash));
        if (lost.length) must("error" in r, `${lost.length} observations that were not saved are taken as handled`);
        if (of.length === 1) { const fresh = good.flatMap(rowsOf).filter((x) => !before.some((y) => y.hash === x.hash)); must(lost.length === 0 || new Set(lost.map((x) => x.hash)).size === new Set(fresh.map((x) => x.hash)).size, "a message is saved in part"); }
      } else {
        must(!("error" in r), `messages are not handled: ${show(r.error)}`); for (const k of good) for (const x of rowsOf(k)) must(after.some((y) => y.hash === x.hash), `an observation of message ${k} is not saved`);
      }
      same(after.slice(0, before.length), before, "the rows saved before"); const added = after.slice(before.length), from = good.flatMap(rowsOf);
      for (const a of added) must(from.some((x) => show(x) === show(a)) || from.some((x) => alike_(x, a)), () => `a row not of these messages: ${show(a)}`);
      if (good.length === 1 && added.length) same(added.map((a) => a.hash), [...new Set(from.map((x) => x.hash))].filter((h) => !before.some((b) => b.hash === h)), "the order of the rows of a message");
      if (added.length) saved++; if (added.length < from.length || good.length < of.length) odd++;
    }
    return saved > 0 && odd > 0 && (saved > 2 ? "many" : "some");
  }, { runs: 500, thorough: 6000, needs: [post, take] });

  const age = fc.oneof(fc.constantFrom(0, 25 * H, 26 * H - 1, 26 * H, 26 * H + 1, 26.4 * H, 26.6 * H, 27 * H, 27.5 * H, 30 * H), fc.integer({ min: 0, max: 40 * H }));
  await prop("cleaning", fc.record({ rows: fc.array(fc.record({ age, domain: fc.constantFrom("state-roads", "autori-oulu"), late: fc.constantFrom(0, 0, 1, 1000, H, 5 * H), prev: rare(fc.nat(11), 1) }), { maxLength: 12, size: "max" }), breaks: rare(fc.tuple(fc.constantFrom("update", "delete", "delete", "begin", "commit", "select"), fc.nat(4), fc.boolean()), 3) }), async (o) => {
    pg.fresh(); const rows = o.rows.map((r, i) => ({ id: i + 1, end: NOW - r.age, created: NOW - r.age + r.late, domain: r.domain, prev: null })); rows.forEach((r, i) => { const p = o.rows[i].prev; if (p !== undefined && p < i) r.prev = p + 1; });
    for (const r of rows) pg.insert("maintenance_tracking", { id: r.id, previous_tracking_id: r.prev, end_time: r.end, created: r.created, domain: r.domain });
    const state = () => pg.rows("select id, end_time as \"end\", created, domain, previous_tracking_id prev from maintenance_tracking order by id").map((r) => ({ ...r }));
    const step = (all, h) => { const old = (r) => r.end < NOW - h * H, cut = all.map((r) => (old(r) ? { ...r, prev: null } : r)); return cut.filter((r) => !old(r) || cut.some((x) => x.prev === r.id) || !cut.some((x) => x.domain === r.domain && x.created > r.created)); };
    const steps = [rows]; for (let h = Math.round((NOW - Math.min(NOW, ...rows.map((r) => r.end))) / H) + 1; h >= 26; h--) steps.push(step(steps.at(-1), h)); const want = step(rows, 26);
    const s = breaking(o.breaks), r = await quietly(() => clean({}, {}, () => undefined)); pg.fault = undefined; if (!pg.settled) return false; let now = state();
    if (s.hit) { must("error" in r, "a cleaning that failed is not reported"); must(steps.some((x) => show(x) === show(now)), () => `a cleaning that failed leaves ${show(now)}, which is not whole steps`); const again = await quietly(() => clean({}, {}, () => undefined)); must(!("error" in again), `the cleaning fails: ${again.error?.message}`); now = state(); }
    else must(!("error" in r), `the cleaning fails: ${r.error?.message}`);
    same(now, want, "the trackings after the cleaning"); return want.length < rows.length && want.some((x) => x.end < NOW - 26 * H) && (s.hit ? "failed" : "clean");
  }, { runs: 500, thorough: 6000, needs: [clean] });
});
/** equal but for the order of keys */
function alike_(a, b) { return Object.keys(b).every((k) => String(a[k]) === String(b[k])); }
