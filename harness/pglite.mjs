// An SQL engine behind the wire-protocol server: statements written for PostgreSQL are translated for SQLite, so that
// the repository's data access code runs through its real driver against tables the check can fill and read.
// Instants are stored as milliseconds. A statement the translation does not cover sets `unsupported`; the case then
// decides nothing (see `settled`).
import { DatabaseSync } from "node:sqlite";
import { PgServer } from "./pgserver.mjs";

const UNIT = { millisecond: 1, second: 1000, sec: 1000, minute: 60e3, min: 60e3, hour: 3600e3, day: 86400e3, week: 7 * 86400e3 };
const OID = { ts: 1184, int: 23, bigint: 20, float: 701, numeric: 1700, bool: 16, json: 114, text: 25, textarr: 1009, intarr: 1007, date: 1082 };
const TS = /^\d{4}-\d\d-\d\d[T ]\d\d:\d\d(:\d\d(\.\d+)?)?(Z|[-+]\d\d(:?\d\d)?)?$/;
const tsMs = (s) => { let t = s.replace(" ", "T"); if (/[-+]\d\d$/.test(t)) t += ":00"; if (!/(Z|[-+]\d\d:?\d\d)$/.test(t)) t += "Z"; return Date.parse(t); };
const tsText = (ms) => new Date(Number(ms)).toISOString().replace("T", " ").replace("Z", "+00");

function shift(ms, text, sign) {
  let out = ms;
  for (const [, n, u] of text.toLowerCase().matchAll(/([-+]?[\d.]+)\s*([a-z]+?)s?(?=\s|\d|$)/g)) {
    if (/^mon(th)?$/.test(u) || u === "year") { const d = new Date(out), day = d.getUTCDate(); d.setUTCDate(1); d.setUTCMonth(d.getUTCMonth() + sign * Number(n) * (u === "year" ? 12 : 1)); d.setUTCDate(Math.min(day, new Date(Date.UTC(d.getUTCFullYear(), d.getUTCMonth() + 1, 0)).getUTCDate())); out = d.getTime(); }
    else if (UNIT[u]) out += sign * Number(n) * UNIT[u];
    else throw new Error(`unsupported interval ${text}`);
  }
  return out;
}
// parses the text form of a one-dimensional PostgreSQL array
export function pgArray(s) {
  if (s == null) return s;
  const t = String(s);
  if (t.startsWith("[")) return JSON.parse(t);
  const out = []; let i = 1;
  while (i < t.length - 1) {
    if (t[i] === '"') { let v = ""; i++; while (t[i] !== '"') { if (t[i] === "\\") i++; v += t[i++]; } i++; out.push(v); } else { let v = ""; while (i < t.length - 1 && t[i] !== ",") v += t[i++]; out.push(v === "NULL" ? null : v); }
    i++;
  }
  return out;
}
const like = (p, v, flags) => (p == null || v == null ? null : new RegExp("^" + String(p).replace(/\\([^])|%|_|[.*+?^${}()|[\]\\/]/gu, (m, e) => (e !== undefined ? (/[\w\s]/u.test(e) || e.codePointAt(0) > 127 ? e : `\\${/[.*+?^${}()|[\]\\/]/.test(e) ? e : `x${e.charCodeAt(0).toString(16).padStart(2, "0")}`}`) : m === "%" ? "[^]*" : m === "_" ? "[^]" : `\\${m}`)) + "$", `u${flags}`).test(String(v)) ? 1 : 0);
function balanced(s, open) { let d = 0; for (let i = open; i < s.length; i++) { if (s[i] === "(") d++; else if (s[i] === ")" && --d === 0) return i; } return -1; }

export class PgLite extends PgServer {
  unsupported = undefined; statements = 0; rewrites = [];
  /** schema: SQL run for every reset; types: result column name -> one of OID's names; json keys of type ts are written as instants */
  constructor({ schema, types = {}, functions = {}, now = () => Date.now(), ints = false }) {
    super();
    Object.assign(this, { schema, types, functions, now, ints });
    this.handler = (sql, c) => this.#exec(sql, c);
    this.serial = true;
    this.abandoned = () => { try { this.#rollback(); } catch { /* none was open */ } };
  }
  /** writes made beside the open transaction: the engine has only one, so they are made again when it is undone */
  #beside = [];
  #rollback() { this.db.exec("rollback"); const again = this.#beside; this.#beside = []; for (const f of again) f(); }
  async start() {
    await super.start();
    const uri = `127.0.0.1:${this.port}/d`;
    Object.assign(process.env, { DB_USER: "u", DB_PASS: "p", DB_URI: uri, DB_RO_URI: uri, DB_APPLICATION: "vt" });
    this.fresh();
    return this;
  }
  fresh() {
    this.reset(); this.#beside = []; this.unsupported = undefined; this.statements = 0; this.fault = undefined;
    this.db?.close();
    this.db = new DatabaseSync(":memory:");
    const seqs = new Map();
    this.db.function("nextval", (n) => { seqs.set(n, (seqs.get(n) ?? 0) + 1); return seqs.get(n); });
    this.db.function("regexp", (p, v) => like(p, v, "i"));
    this.db.function("like", (p, v) => like(p, v, ""));
    this.db.function("lower", (v) => (v == null ? null : String(v).toLowerCase()));
    this.db.function("upper", (v) => (v == null ? null : String(v).toUpperCase()));
    this.db.function("strpos", (v, x) => (v == null || x == null ? null : [...String(v).slice(0, String(v).indexOf(x))].length * (String(v).includes(x)) + (String(v).includes(x) ? 1 : 0)));
    this.db.function("string_to_array", (s, d) => (s == null ? null : JSON.stringify(s === "" ? [] : String(s).split(d))));
    this.db.function("pg_any", (v, a) => (v == null || a == null ? null : pgArray(a).some((x) => String(x) === String(v)) ? 1 : 0));
    this.db.function("greatest", { varargs: true }, (...a) => a.filter((x) => x != null).reduce((m, x) => (m === undefined || x > m ? x : m), undefined) ?? null);
    this.db.function("least", { varargs: true }, (...a) => a.filter((x) => x != null).reduce((m, x) => (m === undefined || x < m ? x : m), undefined) ?? null);
    this.db.function("to_timestamp", (s) => (s == null ? null : Number(s) * 1000));
    this.db.function("pg_now", () => this.now());
    for (const [n, f] of Object.entries(this.functions)) this.db.function(n, { varargs: true }, f);
    // rows that are not asked for in an order come in none to rely on
    this.db.exec("pragma reverse_unordered_selects = on");
    this.db.exec(this.schema);
  }
  rows(sql, ...p) { return this.db.prepare(sql).all(...p).map((r) => ({ ...r })); }
  insert(table, row) {
    const k = Object.keys(row).filter((x) => row[x] !== undefined);
    this.db.prepare(`insert into ${table}(${k.join(",")}) values(${k.map(() => "?").join(",")})`).run(...k.map((x) => { const v = row[x]; return v instanceof Date ? v.getTime() : typeof v === "boolean" ? Number(v) : v !== null && typeof v === "object" ? JSON.stringify(v) : v; }));
  }
  /** true when the case decided something: no statement fell outside the translation */
  get settled() { return !this.unsupported; }
  translate(sql) {
    const lits = [];
    let s = sql.replace(/--[^\n]*|\/\*[^]*?\*\/|E?'(?:[^']|'')*'/g, (m) => { if (/^(--|\/\*)/.test(m)) return ""; const v = m.replace(/^E?'/, "").slice(0, -1).replace(/''/g, "'"); lits.push(v); return `\u0001${lits.length - 1}\u0001`; });
    const L = "\u0001(\\d+)\u0001", rx = (src, f = "gi") => new RegExp(src.replace(/LIT/g, L), f);
    const now = this.now();
    s = s.replace(/\btimestamp\s*(?=\u0001)/gi, "").replace(/\bupdate\s+(\w+)\s+(?!set\b|as\b)(\w+)\s+set\b/gi, 'update $1 as "$2" set');
    s = s.replace(/\b(now|transaction_timestamp|clock_timestamp|statement_timestamp)\(\)|\bcurrent_timestamp\b/gi, "now()");
    s = s.replace(rx("now\\(\\)\\s*([-+])\\s*interval\\s*LIT"), (_, sg, i) => String(shift(now, lits[i], sg === "-" ? -1 : 1)));
    s = s.replace(/now\(\)/gi, String(now));
    s = s.replace(rx("\\binterval\\s*LIT"), (_, i) => String(shift(0, lits[i], 1)));
    s = s.replace(rx("\\(\\s*(\\$?[\\d.]+)\\s*\\|\\|\\s*LIT\\s*\\)\\s*::\\s*interval"), (_, n, i) => `(${n} * ${shift(0, `1 ${lits[i].trim()}`, 1)})`);
    s = s.replace(rx("LIT\\s*::\\s*interval"), (_, i) => String(shift(0, lits[i], 1)));
    s = s.replace(/\bextract\s*\(\s*epoch\s+from\b/gi, "\u0002");
    for (let i; (i = s.indexOf("\u0002")) >= 0; ) { const end = balanced("(" + s.slice(i + 1), 0) - 1 + i + 1; s = `${s.slice(0, i)}(0.001 * (${s.slice(i + 1, end)}))${s.slice(end + 1)}`; }
    s = s.replace(/::\s*(timestamptz|timestamp( with(out)? time zone)?|character varying(\s*\(\d+\))?|varchar(\s*\(\d+\))?|double precision|[a-z_][a-z0-9_]*)(\(\d+(,\s*\d+)?\))?(\[\])?/gi, "");
    s = s.replace(/\bpublic\./gi, "").replace(/\bilike\b/gi, "regexp");
    s = s.replace(/\bjsonb?_agg\b/gi, "json_group_array").replace(/\bjsonb?_build_object\b/gi, "json_object").replace(/\barray_agg\b/gi, "json_group_array").replace(/\bstring_agg\b/gi, "group_concat");
    s = s.replace(/\bfor\s+(no\s+key\s+)?update(\s+of\s+\w+)?(\s+(skip\s+locked|nowait))?/gi, "");
    s = s.replace(/\bat\s+time\s+zone\s+\u0001\d+\u0001/gi, "");
    for (let m; (m = /([\w.$\u0001]+)\s*=\s*any\s*\(/i.exec(s)); ) { const open = m.index + m[0].length - 1, end = balanced(s, open); s = `${s.slice(0, m.index)}pg_any(${m[1]}, ${s.slice(open + 1, end)})${s.slice(end + 1)}`; }
    let distinctOn;
    s = s.replace(/select\s+distinct\s+on\s*\(([^()]*)\)/i, (_, k) => { distinctOn = k.split(",").map((x, i) => `distinct__${i}`); return `select ${k.split(",").map((x, i) => `${x.trim()} as distinct__${i}`).join(", ")},`; });
    if (/\bxmax\b/i.test(s)) s = s.replace(/\bdo\s+update\s+set\b/i, "do update set xmax = 1,");
    for (const [a, b] of this.rewrites) s = s.replace(a, b);
    const used = new Set(); s = s.replace(/\$(\d+)/g, (_, n) => { used.add(n); return `:p${n}`; });
    s = s.replace(/\u0001(\d+)\u0001/g, (_, i) => (TS.test(lits[i]) ? String(tsMs(lits[i])) : `'${lits[i].replace(/'/g, "''")}'`));
    return { s, used, distinctOn };
  }
  #param(v) {
    if (v === null || v === undefined) return null;
    if (TS.test(v)) return tsMs(v);
    if (v === "true") return 1; if (v === "false") return 0;
    if (/^-?\d+(\.\d+)?$/.test(v) && String(Number(v)) === v) return this.ints && Number.isInteger(Number(v)) ? BigInt(v) : Number(v);
    return v;
  }
  #exec(sql, c) {
    if (/^\s*(discard all|set |show )/i.test(sql)) return {};
    this.statements++;
    // after an error nothing of the transaction is kept
    if (c.tx === "E") { if (!/^\s*(commit|rollback)/i.test(sql)) return { error: { code: "25P02", message: "current transaction is aborted, commands ignored until end of transaction block" } }; if (/^\s*commit/i.test(sql)) { this.#rollback(); return { command: "ROLLBACK" }; } }
    const f = this.fault?.(sql, c); if (f) return f === "drop" ? f : { error: f };
    try {
      const params = c.lastParams ?? []; c.lastParams = undefined;
      // one result for several statements (multi), or for one
      if (/\bin\s*\(\s*array\s*\[/i.test(sql.replace(/'(?:[^']|'')*'/g, "''"))) return { error: { code: "42883", message: "operator does not exist: text = text[]" } }; // none of the tables' columns is an array
      const counted = /^\s*with\s+\w+\s+as\s*\(\s*(delete[^]*?returning\s+\*)\s*\)\s*select\s+count\(\*\)\s+from\s+\w+\s*;?\s*$/i.exec(sql);
      const { s, used, distinctOn } = this.translate(counted ? counted[1] : sql);
      if (/^\s*(begin|commit|rollback|savepoint|release)/i.test(s)) { if (/^\s*rollback(?!\s+to)/i.test(s)) this.#rollback(); else this.db.exec(/^\s*begin/i.test(s) ? "begin" : s); if (/^\s*(begin|commit)/i.test(s)) this.#beside = []; return {}; }
      const st = this.db.prepare(s), args = {};
      for (const n of used) args[`p${n}`] = this.#param(params[n - 1]);
      const cols = st.columns();
      if (c.tx === "I" && /^\s*(insert|update|delete|with)\b/i.test(s) && this.conns.some((x) => x !== c && !x.closed && x.tx !== "I")) { const db = this.db; this.#beside.push(() => { if (db === this.db) { const again = db.prepare(s); if (used.size) again.all(args); else again.all(); } }); }
      if (!cols.length) { const r = used.size ? st.run(args) : st.run(); const w = s.trim().split(/\s/)[0].toUpperCase(); return { command: w === "INSERT" ? `INSERT 0 ${r.changes}` : `${w} ${r.changes}` }; }
      let rows = used.size ? st.all(args) : st.all();
      if (counted) return { fields: [{ name: "count", oid: 20 }], rows: [[rows.length]], command: "SELECT 1" };
      if (distinctOn) { const seen = new Set(); rows = rows.filter((r) => { const k = JSON.stringify(distinctOn.map((x) => r[x])); return !seen.has(k) && seen.add(k); }); }
      const names = cols.map((x) => x.name).filter((x) => !/^distinct__\d+$/.test(x));
      const type = (n) => this.types[n] ?? (rows.every((r) => r[n] === null || typeof r[n] === "number") && rows.length ? (rows.every((r) => r[n] === null || Number.isInteger(r[n])) ? "int" : "float") : "text");
      const ty = names.map(type);
      return { fields: names.map((n, i) => ({ name: n, oid: OID[ty[i]] })), rows: rows.map((r) => names.map((n, i) => this.#out(r[n], ty[i]))), command: `${s.trim().split(/\s/)[0].toUpperCase() === "INSERT" ? "INSERT 0" : "SELECT"} ${rows.length}` };
    } catch (e) {
      const m = String(e?.message);
      if (/UNIQUE/.test(m)) return { error: { code: "23505", message: m } };
      if (/NOT NULL/.test(m)) return { error: { code: "23502", message: m } };
      if (/FOREIGN KEY/.test(m)) return { error: { code: "23503", message: m } };
      if (/CHECK constraint/.test(m)) return { error: { code: "23514", message: m } };
      this.unsupported ??= `${m}: ${sql.slice(0, 2000)}`;
      if (process.env.VERIF_DEBUG) console.error(this.unsupported);
      return { error: { code: "0A000", message: m } };
    }
  }
  #out(v, t) {
    if (v === null || v === undefined) return null;
    if (t === "ts") return tsText(v);
    if (t === "date") return new Date(Number(v)).toISOString().slice(0, 10);
    if (t === "bool") return v ? "t" : "f";
    if (t === "json") return typeof v === "string" ? JSON.stringify(JSON.parse(v, (k, x) => (this.types[k] === "ts" && typeof x === "number" ? new Date(x).toISOString().replace("Z", "+00:00") : this.types[k] === "bool" && typeof x === "number" ? !!x : x))) : v;
    return v;
  }
}
