// A small PostgreSQL wire-protocol (v3) server on the loopback, for driving the real driver.
import net from "node:net";

const i32 = (n) => { const b = Buffer.alloc(4); b.writeInt32BE(n); return b; };
const i16 = (n) => { const b = Buffer.alloc(2); b.writeInt16BE(n); return b; };
const cstr = (s) => Buffer.concat([Buffer.from(String(s), "utf8"), Buffer.from([0])]);
const msg = (t, ...p) => { const body = Buffer.concat(p); return Buffer.concat([Buffer.from(t), i32(body.length + 4), body]); };
const READY = (st = "I") => msg("Z", Buffer.from(st));

function rowDesc(fields) {
  return msg("T", i16(fields.length), ...fields.map((f) => Buffer.concat([cstr(f.name), i32(0), i16(0), i32(f.oid ?? 25), i16(-1), i32(-1), i16(0)])));
}
function dataRow(vals) {
  return msg("D", i16(vals.length), ...vals.map((v) => (v === null || v === undefined ? i32(-1) : (() => { const b = Buffer.from(String(v), "utf8"); return Buffer.concat([i32(b.length), b]); })())));
}
const errorMsg = (e) => msg("E", Buffer.from("S"), cstr("ERROR"), Buffer.from("C"), cstr(e.code ?? "XX000"), Buffer.from("M"), cstr(e.message ?? "error"), Buffer.from([0]));

/**
 * handler(sql, conn) -> {fields, rows, command} | {error} | "drop"
 * conns: [{params, password, queries: [sql], terminated, closed}]
 */
export class PgServer {
  conns = [];
  handler = () => ({ fields: [], rows: [], command: "SELECT 0" });
  auth = () => true;
  onEvent = () => {};
  /** how many milliseconds the n-th connection takes to open */
  connecting = undefined;
  async start() {
    this.server = net.createServer((s) => this.#conn(s));
    await new Promise((r) => this.server.listen(0, "127.0.0.1", r));
    this.port = this.server.address().port;
    return this;
  }
  /** one transaction at a time: a connection that begins another waits (for engines that know only one) */
  serial = false;
  #waiting = new Set();
  reset() { this.conns = []; }
  async stop() { for (const c of this.conns) c.socket.destroy(); await new Promise((r) => this.server.close(r)); }
  open() { return this.conns.filter((c) => !c.closed); }
  #conn(socket) {
    const c = { socket, params: {}, password: undefined, queries: [], terminated: false, closed: false, tx: "I", prepared: new Map() };
    this.conns.push(c);
    socket.setNoDelay(true);
    socket.on("error", () => {});
    socket.on("close", () => { c.closed = true; if (c.tx !== "I") this.abandoned(c); this.onEvent("close", c); this.#resume(); });
    let buf = Buffer.alloc(0), started = false;
    const send = (...b) => { if (!socket.destroyed) socket.write(Buffer.concat(b)); };
    const read = () => {
      for (;;) {
        if (!started) {
          if (buf.length < 8) return;
          const len = buf.readInt32BE(0);
          if (buf.length < len) return;
          const code = buf.readInt32BE(4);
          if (code === 80877103) { buf = buf.subarray(len); socket.write("N"); continue; } // SSLRequest
          const parts = buf.subarray(8, len).toString("utf8").split("\0");
          for (let i = 0; i + 1 < parts.length && parts[i]; i += 2) c.params[parts[i]] = parts[i + 1];
          buf = buf.subarray(len);
          started = true;
          const d = this.connecting?.(this.conns.indexOf(c)); if (d) setTimeout(() => send(msg("R", i32(3))), d); else send(msg("R", i32(3)));
          continue;
        }
        if (buf.length < 5) return;
        const t = String.fromCharCode(buf[0]);
        const len = buf.readInt32BE(1);
        if (buf.length < len + 1) return;
        const body = buf.subarray(5, len + 1);
        if (this.serial && t === "Q" && /^\s*begin/i.test(body.toString("utf8", 0, 16)) && this.conns.some((x) => x !== c && !x.closed && !x.socket.destroyed && x.tx !== "I")) { this.#waiting.add(read); return; }
        buf = buf.subarray(len + 1);
        this.#message(c, t, body, send);
        if (this.#waiting.size && c.tx === "I") queueMicrotask(() => this.#resume());
      }
    };
    socket.on("data", (d) => { buf = Buffer.concat([buf, d]); read(); });
  }
  #resume() { const w = [...this.#waiting]; this.#waiting.clear(); for (const f of w) f(); }
  /** a connection went away inside a transaction */
  abandoned() {}
  #run(c, sql) {
    c.queries.push(sql);
    this.onEvent("query", c, sql);
    const r = this.handler(sql, c);
    const w = sql.trim().toLowerCase().split(/[\s;(]/)[0];
    if (r === "drop") return r;
    if (r?.error) { if (c.tx === "T") c.tx = "E"; return r; }
    if (w === "begin") c.tx = "T";
    if (w === "commit" || w === "rollback") { c.tx = / to /i.test(sql) ? "T" : "I"; }
    return r ?? { fields: [], rows: [] };
  }
  #reply(r, sql, describe = true) {
    const out = [];
    if (r.fields?.length) { if (describe) out.push(rowDesc(r.fields)); for (const row of r.rows) out.push(dataRow(row)); }
    const w = sql.trim().split(/[\s;(]/)[0].toUpperCase();
    out.push(msg("C", cstr(r.command ?? (w === "SELECT" ? `SELECT ${r.rows?.length ?? 0}` : w === "INSERT" ? "INSERT 0 1" : w))));
    return Buffer.concat(out);
  }
  #message(c, t, body, send) {
    if (t === "p") {
      c.password = body.subarray(0, body.length - 1).toString("utf8");
      if (!this.auth(c)) { send(errorMsg({ code: "28P01", message: "password authentication failed" })); c.socket.end(); return; }
      send(msg("R", i32(0)), msg("S", cstr("server_version"), cstr("15.4")), msg("S", cstr("client_encoding"), cstr("UTF8")), msg("S", cstr("standard_conforming_strings"), cstr("on")), msg("S", cstr("DateStyle"), cstr("ISO, MDY")), msg("S", cstr("TimeZone"), cstr("UTC")), msg("K", i32(1), i32(2)), READY());
    } else if (t === "Q") {
      const sql = body.subarray(0, body.length - 1).toString("utf8");
      const r = this.#run(c, sql);
      if (r === "drop") { c.socket.destroy(); return; }
      if (r.error) { send(errorMsg(r.error), READY(c.tx)); return; }
      send(this.#reply(r, sql), READY(c.tx));
    } else if (t === "P") {
      const z = body.indexOf(0), z2 = body.indexOf(0, z + 1);
      c.prepared.set(body.subarray(0, z).toString(), body.subarray(z + 1, z2).toString("utf8"));
      send(msg("1"));
    } else if (t === "B") {
      let o = body.indexOf(0) + 1;
      const z = body.indexOf(0, o);
      const name = body.subarray(o, z).toString();
      o = z + 1;
      const nf = body.readInt16BE(o); o += 2 + 2 * nf;
      const np = body.readInt16BE(o); o += 2;
      const params = [];
      for (let i = 0; i < np; i++) { const l = body.readInt32BE(o); o += 4; if (l < 0) params.push(null); else { params.push(body.subarray(o, o + l).toString("utf8")); o += l; } }
      const sql = c.prepared.get(name) ?? "";
      c.lastParams = params;
      c.pending = { sql, r: this.#run(c, sql) };
      if (c.pending.r === "drop") { c.socket.destroy(); return; }
      if (c.pending.r.error) { send(errorMsg(c.pending.r.error)); c.skip = true; } else send(msg("2"));
    } else if (t === "D") {
      if (c.skip) return;
      send(c.pending?.r.fields?.length ? rowDesc(c.pending.r.fields) : msg("n"));
    } else if (t === "E") {
      if (!c.skip) send(this.#reply(c.pending.r, c.pending.sql, false));
    } else if (t === "S") { c.skip = false; send(READY(c.tx)); }
    else if (t === "C") send(msg("3"));
    else if (t === "X") { c.terminated = true; this.onEvent("terminate", c); c.socket.end(); }
  }
}
export async function until(cond, ms = 5000) {
  const t = process.hrtime.bigint();
  while (!cond()) {
    if (Number(process.hrtime.bigint() - t) / 1e6 > ms) return false;
    await new Promise((r) => setImmediate(r));
  }
  return true;
}
