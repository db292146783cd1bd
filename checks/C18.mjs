// C18: the times of the last update, through the real driver against an SQL engine.
import { DatabaseSync } from "node:sqlite";
import { check, fc, must, same, alike, show, capture, outcome } from "#harness";
import { PgServer } from "#harness/pgserver.mjs";
import * as D from "#repo/lib/digitraffic-common/src/database/database.ts";
import * as L from "#repo/lib/digitraffic-common/src/database/last-updated.ts";

const pg = await new PgServer().start();
Object.assign(process.env, { DB_USER: "u", DB_PASS: "p", DB_URI: `127.0.0.1:${pg.port}/d`, DB_RO_URI: `127.0.0.1:${pg.port}/d`, DB_APPLICATION: "vt" });
const TZS = ["UTC", "Europe/Helsinki", "America/St_Johns", "Asia/Kathmandu", "Pacific/Apia"];
const typeNames = Object.values(L.DataType);
const name = fc.oneof(fc.constantFrom("-", "a", "b", "A", "it's", "$(datatype)", "$1", "x'; delete from data_updated; --", "ä", "", " a", "null"), fc.string({ maxLength: 6 }).map((s) => s.replace(/\0/g, "")));
const when = fc.oneof(fc.date({ noInvalidDate: true, min: new Date("1970-01-02"), max: new Date("2099-12-31") }), fc.constantFrom("1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999Z", "2024-03-31T00:59:59.999Z", "2024-03-31T01:00:00Z", "2024-10-27T00:30:00Z", "2024-10-27T01:30:00Z", "1999-12-31T23:59:59.999Z").map((s) => new Date(s)));
const dtype = fc.constantFrom(...typeNames);
const plain = fc.oneof(
  fc.record({ op: fc.constant("set"), t: dtype, d: when }), fc.record({ op: fc.constant("get"), t: dtype }),
  fc.record({ op: fc.constant("setSub"), t: dtype, s: name, d: when }), fc.record({ op: fc.constant("getSub"), t: dtype, s: name }),
  fc.record({ op: fc.constant("setTs"), n: name, d: when, by: fc.option(name, { nil: undefined }) }), fc.record({ op: fc.constant("getTs"), n: name }),
);
const op = fc.oneof({ weight: 6, arbitrary: plain }, { weight: 1, arbitrary: fc.record({ op: fc.constant("tx"), ops: fc.array(plain, { minLength: 1, maxLength: 4 }), fail: fc.boolean() }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant("tz"), tz: fc.constantFrom(...TZS) }) });

const tsText = (s) => { const t = new Date(s); return t.toISOString().replace("T", " ").replace("Z", "+00"); };
await check({
  rule: "histories of updates and reads by data type, subtype and name, in and out of transactions that succeed or fail, in several time zones, against a map; the statements run in an SQL engine behind the real driver; non-trivial: a value read after an update of another or the same key, rolled back transactions, changed time zones",
  assumptions: ["the SQL engine stands for PostgreSQL: unique keys (data_type, subtype) and (updated_name), subtype '-' by default, instants stored with their offset"],
}, async ({ prop }) => {
  await prop("the last update is the one read", fc.array(op, { minLength: 1, maxLength: 14 }), async (ops) => {
    const db = new DatabaseSync(":memory:");
    let seq = 0;
    db.function("nextval", (_name) => ++seq);
    db.exec("create table data_updated(id integer primary key, data_type text not null, subtype text not null default '-', updated text not null, unique(data_type, subtype)); create table updated_timestamp(updated_name text primary key, updated_time text not null, updated_by text not null)");
    pg.reset();
    pg.handler = (sql) => {
      if (/^\s*discard all/i.test(sql)) return {};
      try {
        if (/^\s*select/i.test(sql)) {
          const rows = db.prepare(sql).all();
          const cols = rows.length ? Object.keys(rows[0]) : ["updated"];
          return { fields: cols.map((n) => ({ name: n, oid: /^updated(_time)?$/.test(n) ? 1184 : 25 })), rows: rows.map((r) => cols.map((n) => (/^updated(_time)?$/.test(n) ? tsText(r[n]) : r[n]))) };
        }
        db.exec(sql);
        return {};
      } catch (e) { return { error: { code: "XX000", message: e.message } }; }
    };
    process.env.TZ = "UTC";
    let m = { data: new Map(), ts: new Map() }, interesting = false;
    const k = (t, s) => JSON.stringify([t, s]);
    const step = async (c, o, m) => {
      const iso = (d) => (d instanceof Date ? d.toISOString() : d);
      if (o.op === "set") { await L.updateLastUpdated(c, o.t, o.d); m.data.set(k(o.t, "-"), o.d.toISOString()); }
      else if (o.op === "setSub") { await L.updateLastUpdatedWithSubtype(c, o.t, o.s, o.d); m.data.set(k(o.t, o.s), o.d.toISOString()); }
      else if (o.op === "setTs") { await L.updateUpdatedTimestamp(c, o.n, o.d, ...(o.by === undefined ? [] : [o.by])); m.ts.set(o.n, [o.d.toISOString(), o.by ?? ""]); }
      else {
        const [got, want] = o.op === "get" ? [await L.getLastUpdated(c, o.t), m.data.get(k(o.t, "-"))] : o.op === "getSub" ? [await L.getLastUpdatedWithSubtype(c, o.t, o.s), m.data.get(k(o.t, o.s))] : [await L.getUpdatedTimestamp(c, o.n), m.ts.get(o.n)?.[0]];
        same(iso(got), want ?? null, `${show(o)}`);
        if (want) interesting ||= "read";
      }
    };
    const { error } = await capture(() => D.inDatabase(async (c) => {
      for (const o of ops) {
        if (o.op === "tz") { process.env.TZ = o.tz; continue; }
        if (o.op === "tx") {
          const m2 = { data: new Map(m.data), ts: new Map(m.ts) };
          const r = await outcome(() => c.tx(async (t) => { for (const x of o.ops) await step(t, x, m2); if (o.fail) throw new Error("rolled back"); }));
          if (o.fail) { must(r.error?.message === "rolled back", () => `${r.error?.stack}`); interesting = "rolled back"; } else { if (r.error) throw r.error; m = m2; }
          continue;
        }
        await step(c, o, m);
      }
    }));
    if (error) throw error;
    const iso = (s) => new Date(s).toISOString();
    alike(Object.fromEntries(db.prepare("select data_type, subtype, updated from data_updated").all().map((r) => [k(r.data_type, r.subtype), iso(r.updated)])), Object.fromEntries(m.data), "stored times of data");
    alike(Object.fromEntries(db.prepare("select * from updated_timestamp").all().map((r) => [r.updated_name, [iso(r.updated_time), r.updated_by]])), Object.fromEntries(m.ts), "stored times by name");
    db.close();
    process.env.TZ = "UTC";
    return interesting && ops.some((o) => o.op === "tz") ? `${interesting}, time zone` : interesting;
  }, { runs: 1500, thorough: 20000, needs: [L.getLastUpdated, L.getLastUpdatedWithSubtype, L.updateLastUpdated, L.updateLastUpdatedWithSubtype, L.getUpdatedTimestamp, L.updateUpdatedTimestamp] });
  await pg.stop();
});
