// A MySQL-flavoured SQL engine for the mysql2 stand-in (stubs/mysql2__promise.mjs): statements are translated for
// SQLite, so that the data access code runs against tables the check can fill and read. Date-times are kept as text.
// A statement the translation does not cover sets `unsupported`; the case then decides nothing (see `settled`).
import { DatabaseSync } from "node:sqlite";

const UNIT = { second: 1e3, minute: 60e3, hour: 3600e3, day: 86400e3, week: 7 * 86400e3 };
export const dt = (ms) => new Date(ms).toISOString().replace("T", " ").replace(/(\.000)?Z$/, "");
const quote = (v) => (v === null || v === undefined ? "NULL" : typeof v === "number" ? String(v) : typeof v === "bigint" ? String(v) : typeof v === "boolean" ? String(v) : v instanceof Date ? (Number.isNaN(v.getTime()) ? "NULL" : `'${dt(v.getTime())}'`) : `'${String(v).replace(/\\/g, "\\\\").replace(/'/g, "\\'")}'`);
const list = (v) => v.map((x) => (Array.isArray(x) ? `(${list(x)})` : quote(x))).join(", ");
function dateFormat(v, f) {
  if (v === null) return null;
  let s = String(v); if (/^\d{1,2}:\d\d/.test(s)) s = `1970-01-01 ${s.padStart(5, "0")}`;
  const d = new Date(s.replace(" ", "T").replace(/(T\d\d:\d\d)$/, "$1:00") + (s.includes(" ") || s.includes("T") ? "Z" : ""));
  if (Number.isNaN(d.getTime())) return null;
  const iso = d.toISOString();
  return f.replace(/%(.)/g, (_, c) => ({ Y: iso.slice(0, 4), m: iso.slice(5, 7), d: iso.slice(8, 10), T: iso.slice(11, 19), H: iso.slice(11, 13), i: iso.slice(14, 16), s: iso.slice(17, 19), S: iso.slice(17, 19), k: String(d.getUTCHours()), f: `${iso.slice(20, 23)}000` })[c] ?? c);
}
export class SqlError extends Error { constructor(message, code = "ER_PARSE_ERROR") { super(message); this.code = code; this.sqlMessage = message; } }

export class MyLite {
  acquired = 0; released = 0; connections = []; #tx = Promise.resolve(); statements = 0;
  constructor({ schema, json = [], times = [], functions = {}, now = () => Date.now() }) { Object.assign(this, { schema, json, times, functions, now }); this.fresh(); globalThis.__mylite = this; }
  fresh() {
    this.db?.close();
    this.db = new DatabaseSync(":memory:");
    this.unsupported = undefined; this.fault = undefined; this.acquired = this.released = this.statements = 0; this.held = new Set(); this.waiting = []; this.#tx = Promise.resolve(); this.log = [];
    const f = (n, fn) => this.db.function(n, { varargs: true }, fn);
    f("date_format", dateFormat);
    f("export_set", (bits, on, off, sep = ",", n = 64) => (bits === null ? null : Array.from({ length: Number(n) }, (_, i) => ((BigInt(bits) >> BigInt(i)) & 1n ? on : off)).join(sep)));
    f("reverse", (s) => (s === null ? null : [...String(s)].reverse().join("")));
    f("concat", (...a) => (a.includes(null) ? null : a.join("")));
    for (const [n, fn] of Object.entries(this.functions)) f(n, fn);
    this.db.exec(this.schema);
  }
  rows(sql, ...p) { return this.db.prepare(sql).all(...p).map((r) => ({ ...r })); }
  insert(table, row) { const k = Object.keys(row).filter((x) => row[x] !== undefined); this.db.prepare(`insert into ${table}(${k.map((x) => `"${x}"`).join(",")}) values(${k.map(() => "?").join(",")})`).run(...k.map((x) => { const v = row[x]; return v instanceof Date ? dt(v.getTime()) : typeof v === "boolean" ? Number(v) : v !== null && typeof v === "object" ? JSON.stringify(v) : v; })); }
  get settled() { return !this.unsupported; }
  get leaked() { return this.acquired - this.released; }
  /** the statement with its values in place, as the driver writes it */
  format(sql, values, named, strict) {
    if (values === null || values === undefined) return sql;
    let i = 0; const arr = Array.isArray(values);
    return sql.replace(/'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.)*"|`[^`]*`|--[^\n]*|\?\??|:([A-Za-z_]\w*)/g, (m, n) => {
      if (m === "?" && arr && i < values.length) { const v = values[i++]; if (strict && v === undefined) throw new TypeError("Bind parameters must not contain undefined"); return Array.isArray(v) ? list(v) : quote(v); }
      if (m === "??" && arr && i < values.length) return `\`${String(values[i++]).replace(/`/g, "``")}\``;
      if (n && named && !arr) { if (strict && values[n] === undefined) throw new TypeError("Bind parameters must not contain undefined"); return Array.isArray(values[n]) ? list(values[n]) : quote(values[n]); }
      return m;
    });
  }
  translate(sql) {
    const lits = [];
    let s = sql.replace(/b'([01]*)'/g, (_, b) => String(parseInt(b || "0", 2)));
    s = s.replace(/'((?:[^'\\]|\\.|'')*)'|`([^`]*)`|--[^\n]*|\/\*[^]*?\*\//g, (m, v, id) => { if (id !== undefined) return `"${id}"`; if (v === undefined) return ""; lits.push(v.replace(/''/g, "'").replace(/\\(.)/g, (_, c) => ({ n: "\n", r: "\r", t: "\t", 0: "\0" })[c] ?? c)); return `\u0001${lits.length - 1}\u0001`; });
    const now = this.now();
    s = s.replace(/\b(now|current_timestamp|utc_timestamp)\(\)|\bcurrent_timestamp\b/gi, "\u0003");
    s = s.replace(/\u0003\s*([-+])\s*interval\s+(\d+)\s+([a-z]+?)s?\b/gi, (_, sg, n, u) => { if (!UNIT[u.toLowerCase()]) throw new Error(`unit ${u}`); lits.push(dt(now + (sg === "-" ? -1 : 1) * n * UNIT[u.toLowerCase()])); return `\u0001${lits.length - 1}\u0001`; });
    s = s.replace(/\u0003/g, `'${dt(Math.floor(now / 1000) * 1000)}'`);
    s = s.replace(/\bif\s*\((?!\s*(not\s+)?exists)/gi, "iif(").replace(/\bon\s+duplicate\s+key\s+update\b/i, "\u0004");
    if (s.includes("\u0004")) { const [a, b] = s.split("\u0004"); s = `${a} on conflict do update set ${b.replace(/\bvalues\s*\(\s*(\w+)\s*\)/gi, "excluded.$1")}`; }
    // SQLite has no limit in these
    s = s.replace(/^(\s*(?:delete\s+from|update)\s+(\w+)\b[^]*?)\bwhere\b([^]*?)(\border\s+by\b[^]*?)?\blimit\s+(\d+)\s*$/i, (_, a, t, w, o, n) => `${a} where rowid in (select rowid from ${t} where ${w} ${o ?? ""} limit ${n})`);
    if (/^\s*insert\s+ignore\b/i.test(s)) s = s.replace(/insert\s+ignore/i, "insert or ignore");
    return s.replace(/\u0001(\d+)\u0001/g, (_, i) => `'${lits[i].replace(/'/g, "''")}'`);
  }
  exec(sql) {
    let s;
    try {
      s = this.translate(sql);
      const st = this.db.prepare(s), cols = st.columns();
      if (!cols.length) {
        // MySQL counts a changed row of an upsert twice
        const into = /\bon conflict do update\b/i.test(s) && /^\s*insert\s+(?:or\s+ignore\s+)?into\s+"?(\w+)/i.exec(s)?.[1], dump = () => this.db.prepare(`select * from ${into}`).all().map((x) => JSON.stringify(x, (_, v) => (typeof v === "bigint" ? String(v) : v)));
        const before = into && dump(), r = st.run(), after = into && dump();
        if (into && r.changes === 1 && before.length === after.length && before.some((x, i) => x !== after[i])) return [{ affectedRows: 2, insertId: Number(r.lastInsertRowid) }, undefined];
        return [{ affectedRows: Number(r.changes), insertId: Number(r.lastInsertRowid) }, undefined]; }
      return [st.all().map((r) => { const o = { ...r }; for (const k of this.json) if (typeof o[k] === "string") o[k] = JSON.parse(o[k]); for (const k of this.times) if (typeof o[k] === "string") o[k] = new Date(`${o[k].replace(" ", "T")}Z`); return o; }), cols];
    } catch (e) {
      const m = String(e?.message);
      if (/UNIQUE/.test(m)) throw new SqlError(m, "ER_DUP_ENTRY");
      if (/NOT NULL/.test(m)) throw new SqlError(m, "ER_BAD_NULL_ERROR");
      if (/FOREIGN KEY|CHECK/.test(m)) throw new SqlError(m, "ER_NO_REFERENCED_ROW");
      // a parameter left in the text, or an empty list of rows, is what the real server refuses too
      if (/values\s*(\?|null|\(\s*\))?\s*$/i.test(s ?? "")) throw new SqlError(m);
      this.unsupported ??= `${m}: ${sql.slice(0, 3000)}`;
      if (process.env.VERIF_DEBUG) console.error(this.unsupported);
      throw new SqlError(m);
    }
  }
  pool(opts) {
    const self = this, limit = opts.connectionLimit ?? 10;
    const getConnection = async () => {
      self.#fault("connect");
      await null;
      if (self.held.size >= limit) await new Promise((r) => self.waiting.push(r));
      self.acquired++;
      const c = self.connection(opts); self.held.add(c);
      c.release = () => { if (!self.held.delete(c)) return; self.released++; if (c.tx) { // the pool keeps the connection and its open transaction, which the next one to begin on it commits
          try { self.db.exec(c.gone ? "rollback" : "commit"); } catch { /* none */ } c.tx(); c.tx = undefined; } self.waiting.shift()?.(); };
      return c;
    };
    const one = (how) => async (...a) => { const c = await getConnection(); try { return await c[how](...a); } finally { c.release(); } };
    return { getConnection, query: one("query"), execute: one("execute"), end: async () => {} };
  }
  #fault(sql, c) { const e = this.fault?.(sql, c); if (e) throw e instanceof Error ? e : new SqlError(String(e), "ECONNRESET"); }
  connection(opts) {
    const self = this;
    const run = (strict) => async (sql, values) => {
      self.statements++;
      const text = typeof sql === "object" ? sql.sql : sql;
      await null;
      if (!c.tx) await self.#tx; // another connection's open transaction holds the tables
      self.#fault(text, c);
      const out = self.exec(self.format(text, values ?? sql.values, opts.namedPlaceholders, strict));
      await null;
      return out;
    };
    const c = {
      query: run(false), execute: run(true),
      async beginTransaction() { await null; self.#fault("begin", c); const before = self.#tx; let done; self.#tx = new Promise((r) => { done = r; }); await before; self.db.exec("begin"); c.tx = done; },
      async commit() { await null; self.#fault("commit", c); if (c.tx) { self.db.exec("commit"); c.tx(); c.tx = undefined; } },
      async rollback() { await null; self.#fault("rollback", c); if (c.tx) { self.db.exec("rollback"); c.tx(); c.tx = undefined; } },
      release() {}, destroy() { c.gone = true; c.release(); }, async end() {},
    };
    return c;
  }
}
