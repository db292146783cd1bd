// RAMI: generated operator messages, and the tables and queues around the handlers.
import { fc } from "#harness";
import "#harness/app.mjs";
import { MyLite } from "#harness/mylite.mjs";
export const NOW = Date.parse("2024-05-06T12:00:00.000Z");
export const QUEUES = { ROSM_SQS_URL: "q-rosm", SM_SQS_URL: "q-sm", UDOT_SQS_URL: "q-udot", DLQ_URL: "q-dlq" };
Object.assign(process.env, QUEUES, { DB_USER: "u", DB_PASS: "p", DB_URI: "h", DB_APPLICATION: "avoindata", SQS_DLQ_BUCKET_NAME: "b" });
export const SCHEMA = `
create table rami_message(id text not null, version integer not null, message_type text not null, created_source text not null, start_validity text not null, end_validity text not null, train_number integer, train_departure_date text, journey_ref text, deleted text, created_db text default '2024-05-06 12:00:00', modified_db text, primary key(id, version));
create table rami_message_station(rami_message_id text not null, rami_message_version integer not null, station_short_code text not null, primary key(rami_message_id, rami_message_version, station_short_code));
create table rami_message_video(rami_message_id text, rami_message_version integer, text_fi text, text_sv text, text_en text, delivery_type text, start_date_time text, end_date_time text, start_time text, end_time text, days_of_week integer, primary key(rami_message_id, rami_message_version));
create table rami_message_audio(rami_message_id text, rami_message_version integer, text_fi text, text_sv text, text_en text, delivery_type text, start_date_time text, end_date_time text, start_time text, end_time text, days_of_week integer, event_type text, delivery_at text, repetitions integer, repeat_every integer, primary key(rami_message_id, rami_message_version));
create table rami_stop_monitoring_message(rami_message_id text not null, train_number integer not null, train_departure_date text not null, message text not null, created_db text);
create table time_table_row(attap_id integer, station_short_code text, scheduled_time text, type integer, departure_date text, train_number integer);
create table rami_udot(train_number integer, train_departure_date text, attap_id integer, unknown_delay integer, unknown_track integer, model_updated_time text, created_db text, unique(train_departure_date, train_number, attap_id));
create trigger udot_model after update on rami_udot when old.unknown_delay is not new.unknown_delay or old.unknown_track is not new.unknown_track begin update rami_udot set model_updated_time = null where rowid = new.rowid; end;
create table rami_udot_history(rami_message_id text, train_number integer, train_departure_date text, attap_id integer, unknown_track integer, unknown_delay integer, created_db text);
`;
export const my = new MyLite({ schema: SCHEMA, json: ["audio", "video"], times: ["scheduled_time"], now: () => Date.now() });
// what was sent to which queue
export const sent = []; export const sqs = { fault: undefined };
globalThis.__awsSend = async (client, cmd) => { await null; const e = sqs.fault?.(cmd.input); if (e) throw e; sent.push({ queue: cmd.input.QueueUrl, body: cmd.input.MessageBody }); return {}; };
export function reset() { my.fresh(); sent.length = 0; sqs.fault = undefined; }
/** indexes of the records an invocation reports as failed */
export function failedOf(out, records) {
  if (Array.isArray(out)) return out.flatMap((r, i) => (r?.status === "rejected" ? [i] : []));
  if (out?.batchItemFailures) return out.batchItemFailures.map((f) => records.findIndex((r) => r.messageId === f.itemIdentifier));
  return [];
}
const DAY = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"];
export const STATIONS = ["HKI", "PSL", "TPE", "KJÄ", "ÄHT", "Kv", "TKL", "KE", "RI", "HL", "TL", "JY"];
const sec = (lo, hi) => fc.integer({ min: lo, max: hi }).map((s) => NOW + s * 1000);
export const near = fc.oneof(fc.constantFrom(NOW, NOW - 1000, NOW + 1000, NOW - 3600e3, NOW + 3600e3), sec(-200000, 200000));
const iso = (ms) => new Date(ms).toISOString();
const zoned = fc.constantFrom((ms) => iso(ms), (ms) => iso(ms).replace(".000Z", "Z"), (ms) => iso(ms + 3 * 3600e3).replace(".000Z", "+03:00"));
const text = fc.oneof({ weight: 3, arbitrary: fc.constantFrom("Juna on myöhässä", " Tåget är försenat ", "Train's late \\ \"x\"", "it''s :id ?", "\t x\n", "") }, fc.string({ maxLength: 12, unit: "grapheme" }).map((s) => s.replace(/\u0000/g, "")));
const LANG = { fi: "fi_FI", sv: "sv_SE", en: "en_GB" };
const langs = fc.record({ fi: text, sv: text, en: text }, { requiredKeys: [] });
const opt = (a) => fc.option(a, { nil: undefined });
const optNull = (a) => fc.oneof({ weight: 3, arbitrary: a }, fc.constant(null), fc.constant(undefined));
const hhmm = fc.tuple(fc.integer({ min: 0, max: 23 }), fc.integer({ min: 0, max: 59 })).map(([h, m]) => `${String(h).padStart(2, "0")}:${String(m).padStart(2, "0")}`);
const days = fc.uniqueArray(fc.constantFrom(...DAY), { maxLength: 7 });
const at = fc.tuple(near, zoned).map(([ms, f]) => ({ ms, text: f(ms) }));
const audioRules = fc.record({ type: fc.constantFrom("NOW", "DELIVERY_AT", "REPEAT_EVERY"), repetitions: optNull(fc.integer({ min: 0, max: 9 })), repeatEvery: optNull(fc.integer({ min: 0, max: 3600 })), start: optNull(at), end: optNull(at), startTime: optNull(hhmm), endTime: optNull(hhmm), days: optNull(days), deliveryAt: optNull(at) });
const videoRules = fc.record({ type: fc.constantFrom("WHEN", "CONTINUOS_VISUALIZATION"), start: fc.option(at), end: fc.option(at), startTime: optNull(hhmm), endTime: optNull(hhmm), days: optNull(days) });
const stations = fc.oneof({ weight: 4, arbitrary: fc.uniqueArray(fc.constantFrom(...STATIONS.slice(0, 6)), { minLength: 1, maxLength: 4 }) }, fc.uniqueArray(fc.constantFrom(...STATIONS), { minLength: 9, maxLength: 12 }));
const journey = fc.record({ type: fc.constant("MONITORED_JOURNEY_SCHEDULED_MESSAGE"), train: fc.constantFrom(1, 27, 274, 8122), date: fc.constantFrom("2024-05-06", "2024-05-07"), ref: fc.constantFrom("100274", "j'1"), stations, audio: opt(fc.record({ texts: langs, deliveryType: fc.constantFrom("ON_EVENT", "ON_SCHEDULE"), rules: fc.option(fc.record({ repetitions: optNull(fc.integer({ min: 0, max: 5 })), repeatEvery: optNull(fc.integer({ min: 0, max: 600 })), eventType: optNull(fc.constantFrom("ARRIVING", "DEPARTED")) })) })), video: opt(langs) });
const scheduled = fc.record({ type: fc.constant("SCHEDULED_MESSAGE"), stations, audio: opt(fc.record({ texts: langs, file: fc.boolean(), rules: audioRules })), video: opt(fc.record({ texts: langs, rules: videoRules })) });
/** what a message says, in plain terms; `wire` writes it as the source system does */
export const spec = fc.record({ id: fc.constantFrom("SHM1", "SHM2", "MVM3", "o'4"), version: fc.integer({ min: 1, max: 4 }), operation: fc.constantFrom("INSERT", "INSERT", "UPDATE", "UPDATE", "DELETE"), created: at, start: at, end: at, body: fc.oneof(journey, scheduled), bare: fc.boolean(), other: fc.constantFrom("", "", "de_DE", "fi", "sv_FI", "en_US", "FI_fi") });
const strip = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
export function wire(s) {
  const b = s.body;
  const arr = (t, key) => [...(s.other ? [{ language: s.other, [key]: "something else" }] : []), ...Object.entries(t ?? {}).map(([l, v]) => ({ language: LANG[l], [key]: v }))];
  const txt = (a) => a?.text ?? a;
  const payload = { messageId: s.id, messageVersion: s.version, title: "otsikko", messageType: b.type, operation: s.operation, creationDateTime: s.created.text, startValidity: s.start.text, endValidity: s.end.text };
  if (b.type === "SCHEDULED_MESSAGE") {
    const r = b.audio?.rules;
    payload.scheduledMessage = { situations: [], deliveryChannels: ["ONGROUND"], onGroundRecipient: strip({
      messageContentType: "AUDIO_VIDEO", deliveryPoints: b.stations.map((id) => ({ id, nameLong: "x" })),
      recipientAudioMessagesToDeliver: b.audio ? strip({ audioContentType: b.audio.file ? "AUDIO_FILE" : "AUDIO_TEXT", audioText: b.audio.file ? undefined : arr(b.audio.texts, "text"), media: b.audio.file ? "AAAA" : undefined, scheduledAudioDeliveryRules: strip({ audioSchedulationType: r.type, repetitions: r.repetitions, repeatEvery: r.repeatEvery, startDateTime: txt(r.start), endDateTime: txt(r.end), startTime: r.startTime, endTime: r.endTime, daysOfWeek: r.days, deliveryAtDateTime: txt(r.deliveryAt) }) }) : undefined,
      recipientVideoMessagesToDeliver: b.video ? { videoTexts: arr(b.video.texts, "text"), deliveryRules: strip({ videoSchedulationType: b.video.rules.type, startDateTime: txt(b.video.rules.start), endDateTime: txt(b.video.rules.end), startTime: b.video.rules.startTime, endTime: b.video.rules.endTime, daysOfWeek: b.video.rules.days }) } : undefined,
    }) };
    if (!s.bare) payload.monitoredJourneyScheduledMessage = null;
  } else {
    payload.monitoredJourneyScheduledMessage = strip({
      vehicleJourney: { datedVehicleJourneyRef: b.ref, dataFrameRef: b.date, vehicleJourneyName: String(b.train) },
      messageContentType: "AUDIO", deliveryPoints: b.stations.map((id) => ({ id })),
      audioMessageContents: b.audio ? { audioTexts: arr(b.audio.texts, "audioText"), deliveryRules: b.audio.rules && strip(b.audio.rules), deliveryType: b.audio.deliveryType } : undefined,
      videoTexts: b.video ? arr(b.video, "videoText") : undefined,
    });
    if (!s.bare) payload.scheduledMessage = null;
  }
  return { headers: { e2eId: "c45c7f92-5f96-4059-b0b3-20295388e4f6", source: "moova", eventType: null, recordedAtTime: "2024-05-06T06:10:10.425660994Z" }, payload };
}
const dayOrder = (d) => (d?.length ? DAY.filter((x) => d.includes(x)) : undefined);
const short = (t) => (t ? `${Number(t.slice(0, 2))}:${t.slice(3)}` : undefined);
const sharp = (a) => (a ? iso(a.ms).replace(".000Z", "Z") : undefined);
/** the public form of a message */
export function served(s) {
  const b = s.body;
  const texts = (t) => Object.fromEntries(["fi", "sv", "en"].map((l) => [l, t?.[l] === undefined ? undefined : t[l].trim()]));
  const out = { id: s.id, version: s.version, creationDateTime: sharp(s.created), startValidity: sharp(s.start), endValidity: sharp(s.end), stations: [...b.stations].sort(), trainNumber: b.train, trainDepartureDate: b.date };
  const any = (t) => ["fi", "sv", "en"].some((l) => t?.[l]?.trim());
  const num = (n) => n ?? undefined;
  if (b.type === "SCHEDULED_MESSAGE") {
    if (b.audio && !b.audio.file && any(b.audio.texts)) { const r = b.audio.rules; out.audio = { text: texts(b.audio.texts), deliveryRules: { deliveryType: r.type, startDateTime: sharp(r.start), endDateTime: sharp(r.end), startTime: short(r.startTime), endTime: short(r.endTime), weekDays: dayOrder(r.days), repetitions: num(r.repetitions), repeatEvery: num(r.repeatEvery), deliveryAt: sharp(r.deliveryAt) } }; }
    if (b.video && any(b.video.texts)) { const r = b.video.rules; out.video = { text: texts(b.video.texts), deliveryRules: { deliveryType: r.type, startDateTime: sharp(r.start), endDateTime: sharp(r.end), startTime: short(r.startTime), endTime: short(r.endTime), weekDays: dayOrder(r.days) } }; }
  } else {
    if (b.audio && any(b.audio.texts)) out.audio = { text: texts(b.audio.texts), deliveryRules: { deliveryType: b.audio.deliveryType, repetitions: num(b.audio.rules?.repetitions), repeatEvery: num(b.audio.rules?.repeatEvery), eventType: num(b.audio.rules?.eventType) } };
    if (b.video && any(b.video)) out.video = { text: texts(b.video) };
  }
  return JSON.parse(JSON.stringify(out));
}
