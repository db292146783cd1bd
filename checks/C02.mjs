// C02: database access through the real driver against a wire-level server, with faults.
import { check, fc, must, same, show, outcome } from "#harness";
import { PgServer, until } from "#harness/pgserver.mjs";
import * as D from "#repo/lib/digitraffic-common/src/database/database.ts";

const rw = await new PgServer().start();
const ro = await new PgServer().start();
const down = await new PgServer().start();
const downPort = down.port;
await down.stop();

const OID = { int8: 20, int4: 23, text: 25, float8: 701, numeric: 1700, bool: 16 };
const cell = fc.oneof(
  fc.record({ t: fc.constant("int8"), v: fc.maxSafeInteger() }),
  fc.record({ t: fc.constant("int4"), v: fc.integer() }),
  fc.record({ t: fc.constant("float8"), v: fc.double({ noNaN: true, noDefaultInfinity: true }) }),
  fc.record({ t: fc.constant("numeric"), v: fc.double({ noNaN: true, noDefaultInfinity: true, min: -1e9, max: 1e9 }) }),
  fc.record({ t: fc.constant("text"), v: fc.string().map((s) => s.replace(/\0/g, "")) }),
  fc.record({ t: fc.constant("bool"), v: fc.boolean() }),
);
const table = fc.tuple(fc.array(cell, { minLength: 1, maxLength: 4 }), fc.array(fc.array(fc.boolean(), { minLength: 4, maxLength: 4 }), { maxLength: 4 }))
  .map(([cols, nulls]) => ({ cols, rows: nulls.map((ns) => cols.map((c, i) => (ns[i] ? null : c.v))) }));
const wire = (v, t) => (v === null ? null : t === "bool" ? (v ? "t" : "f") : String(Object.is(v, -0) ? 0 : v));
const hist = fc.record({
  mode: fc.constantFrom("rw", "ro", "tx"),
  nulls: fc.constantFrom(true, false, undefined),
  queries: fc.array(table, { maxLength: 5 }),
  fault: fc.oneof(
    { weight: 4, arbitrary: fc.constant({ kind: "none" }) },
    { weight: 1, arbitrary: fc.constant({ kind: "discard" }) },
    { weight: 3, arbitrary: fc.record({ kind: fc.constantFrom("error", "drop", "throw"), at: fc.nat({ max: 5 }) }) },
    { weight: 1, arbitrary: fc.constant({ kind: "throwSync" }) },
    { weight: 1, arbitrary: fc.constant({ kind: "auth" }) },
    { weight: 1, arbitrary: fc.constant({ kind: "refused" }) },
    { weight: 1, arbitrary: fc.constant({ kind: "commit" }) },
    { weight: 1, arbitrary: fc.constant({ kind: "caught", at: 0 }) },
  ),
  user: fc.stringMatching(/^[a-z][a-z0-9_]{0,8}$/), pass: fc.stringMatching(/^[A-Za-z0-9_.~-]{1,12}$/), app: fc.stringMatching(/^[a-z][a-z0-9-]{0,10}$/), db: fc.stringMatching(/^[a-z]{1,8}$/),
  appSet: fc.boolean(), thrown: fc.constantFrom("error", "error", "string", "object", "undefined"), many: fc.constantFrom(1, 1, 1, 40, 400),
});
const isQ = (s) => /select \d+ as q/.test(s);

async function run(h) {
  rw.reset(); ro.reset();
  const target = h.mode === "ro" ? ro : rw, other = h.mode === "ro" ? rw : ro;
  const port = h.fault.kind === "refused" ? downPort : target.port;
  Object.assign(process.env, { DB_USER: h.user, DB_PASS: h.pass, DB_URI: `127.0.0.1:${h.mode === "ro" ? rw.port : port}/${h.db}`, DB_RO_URI: `127.0.0.1:${h.mode === "ro" ? port : ro.port}/${h.db}` });
  if (h.appSet) process.env.DB_APPLICATION = h.app; else delete process.env.DB_APPLICATION;
  target.auth = () => h.fault.kind !== "auth"; other.auth = () => true;
  target.handler = (sql) => {
    if (/^discard all/i.test(sql.trim())) return h.fault.kind === "discard" ? { error: { code: "25001", message: "cannot discard" } } : {};
    if (/^\s*commit/i.test(sql) && h.fault.kind === "commit") return { error: { code: "40001", message: "could not commit" } };
    const m = /select (\d+) as q/.exec(sql);
    if (!m) return {};
    const i = Number(m[1]);
    if (h.fault.at === i && h.fault.kind === "drop") return "drop";
    if (h.fault.at === i && (h.fault.kind === "error" || h.fault.kind === "caught")) return { error: { code: "22012", message: `boom ${i}` } };
    const t = h.queries[i];
    return { fields: t.cols.map((c, j) => ({ name: `c${j}`, oid: OID[c.t] })), rows: Array(h.many).fill(t.rows).flat().map((r) => r.map((v, j) => wire(v, t.cols[j].t))) };
  };
  let called = 0;
  const marker = { error: new Error("the function failed"), string: "the function failed", object: { code: 7 }, undefined }[h.thrown];
  const fn = (db) => {
    called++;
    if (h.fault.kind === "throwSync") throw marker;
    return (async () => {
      const out = [];
      for (let i = 0; i < h.queries.length; i++) {
        if (h.fault.kind === "throw" && h.fault.at === i) throw marker;
        if (h.fault.kind === "caught" && h.fault.at === i) { try { await db.any(`select ${i} as q`); } catch { out.push("caught"); } continue; }
        out.push(await db.any(`select ${i} as q`));
      }
      if (h.fault.kind === "throw" && h.fault.at >= h.queries.length) throw marker;
      return out;
    })();
  };
  const f = { rw: D.inDatabase, ro: D.inDatabaseReadonly, tx: D.inTransaction }[h.mode];
  const r = await outcome(async () => { try { return { value: await (h.nulls === undefined ? f(fn) : f(fn, h.nulls)) }; } catch (e) { return { thrown: e, error: e }; } }).then((o) => o.error ? { thrown: o.error, error: o.error } : o.value);
  return { r, called, target, other, marker };
}

await check({
  rule: "histories of queries issued by a caller through the real PostgreSQL driver against a loopback wire-level server, with faults at generated points (session reset, query error, dropped connection, refused connection, failed login, failing commit, caller exception); non-trivial: at least one query or a fault",
  assumptions: ["credentials without URL-reserved characters (see known-findings.txt)", "the caller issues its queries one after another"],
}, async ({ prop, finding }) => {
  await prop("session lifecycle under faults", hist, async (h) => {
    const { r, called, target, other, marker } = await run(h);
    const qs = target.conns.flatMap((c) => c.queries);
    must(other.conns.length === 0, () => `a ${h.mode} session connected to the ${h.mode === "ro" ? "writer" : "reader"}`);
    const k = h.fault.kind, at = h.fault.at;
    const reached = at !== undefined && at < h.queries.length;
    // every connection is given back
    must(await until(() => target.open().length === 0), () => `connection left open after ${k}`);
    for (const c of target.conns) {
      if (!["drop", "auth"].includes(k)) must(c.terminated, "connection not closed orderly");
      same(c.params.user, h.user, "user"); same(c.params.database, h.db, "database");
      if (c.password !== undefined) same(c.password, h.pass, "password");
      same(c.params.application_name, h.appSet ? h.app : "unknown-cdk-application", "application name");
    }
    const fails = ["discard", "auth", "refused", "throwSync"].includes(k) || (["error", "drop"].includes(k) && reached) || k === "throw" || (k === "commit" && h.mode === "tx");
    must(("thrown" in r) === fails, () => `expected ${fails ? "a rejection" : "success"}, got ${"thrown" in r ? (r.error?.stack ?? show(r.thrown)) : "success"} (${k})`);
    if (["throw", "throwSync"].includes(k)) must(Object.is(r.thrown, marker), "the caller's own error is passed on");
    if (k === "error" && reached) must(/boom/.test(r.error.message), "the database error is passed on");
    if (["discard", "auth", "refused"].includes(k)) { same(called, 0, "the caller ran without a clean session"); must(!qs.some(isQ), "queries before a clean session"); return k; }
    same(called, 1, "the caller runs once");
    must(/^\s*discard all/i.test(qs[0] ?? ""), () => `first statement is ${qs[0]}`);
    same(qs.filter((q) => /discard all/i.test(q)).length, 1, "session reset once");
    // the caller's queries: each once, in order, up to the failure
    const sent = qs.filter(isQ).map((q) => Number(/select (\d+)/.exec(q)[1]));
    const upTo = k === "throwSync" ? 0 : k === "throw" ? Math.min(at, h.queries.length) : (k === "error" || k === "drop") && reached ? at + 1 : h.queries.length;
    same(sent, [...Array(upTo).keys()], "statements sent");
    const ctl = qs.filter((q) => /^\s*(begin|commit|rollback)/i.test(q)).map((q) => q.trim().toLowerCase().split(/[\s;]/)[0]);
    if (h.mode === "tx") {
      const first = qs.findIndex((q) => /^\s*begin/i.test(q)), firstQ = qs.findIndex(isQ);
      must(first > 0 && (firstQ < 0 || first < firstQ), "statements outside the transaction");
      if (!fails) same(ctl, ["begin", "commit"], "a successful transaction commits once");
      else if (k === "commit") must(ctl[0] === "begin" && ctl[1] === "commit", "commit attempted");
      else if (k === "drop") must(!ctl.includes("commit"), "a failed transaction committed");
      else same(ctl, ["begin", "rollback"], "a failed transaction rolls back");
      const last = Math.max(...qs.map((q, i) => (isQ(q) ? i : -1)));
      const end = qs.findIndex((q) => /^\s*(commit|rollback)/i.test(q));
      if (end >= 0) must(end > last, "statements after the transaction ended");
    } else same(ctl, [], "no transaction was asked for");
    if (!fails) {
      const undef = h.nulls === true;
      r.value.forEach((rows, i) => {
        if (rows === "caught") return;
        const t = h.queries[i];
        same(rows.length, t.rows.length * h.many, "row count");
        rows.forEach((row, n) => t.cols.forEach((c, j) => {
          const v = t.rows[n % t.rows.length][j], got = row[`c${j}`];
          must(`c${j}` in row, "column present");
          if (v === null) { must(got === (undef ? undefined : null), () => `null column delivered as ${got}, conversion ${undef}`); return; }
          const want = Object.is(v, -0) ? 0 : v;
          must(Object.is(got, want) || got === want, () => `${c.t} ${JSON.stringify(v)} delivered as ${typeof got} ${JSON.stringify(got)}`);
        }));
      });
    }
    return k === "none" ? (h.queries.length > 0 ? `ok-${h.mode}` : false) : `${k}-${h.mode}`;
  }, { runs: 1500, thorough: 20000, needs: [D.inDatabase, D.inDatabaseReadonly, D.inTransaction] });

  // sessions of a warm Lambda: one after another and overlapping, each isolated from the others' failures
  await prop("sequences of sessions", fc.array(fc.record({ ok: fc.boolean(), mode: fc.constantFrom("rw", "tx"), parallel: fc.boolean() }), { minLength: 2, maxLength: 6 }), async (ss) => {
    rw.reset(); ro.reset();
    rw.auth = () => true;
    rw.handler = (sql) => (/select (\d+)/.test(sql) ? { fields: [{ name: "n", oid: 20 }], rows: [[/select (\d+)/.exec(sql)[1]]] } : {});
    Object.assign(process.env, { DB_USER: "u", DB_PASS: "p", DB_URI: `127.0.0.1:${rw.port}/d`, DB_RO_URI: "nowhere/d" });
    const results = [];
    const one = async (s, i) => {
      results[i] = await outcome(() => (s.mode === "tx" ? D.inTransaction : D.inDatabase)(async (db) => { const v = (await db.one(`select ${i} as n`)).n; if (!s.ok) throw new Error(`fail ${i}`); return v; }));
    };
    let batch = [];
    for (let i = 0; i < ss.length; i++) { const p = one(ss[i], i); if (ss[i].parallel) batch.push(p); else { await p; await Promise.all(batch); batch = []; } }
    await Promise.all(batch);
    ss.forEach((s, i) => (s.ok ? same(results[i].value, i, "result of session") : must(results[i].error?.message === `fail ${i}`, "error of session")));
    must(await until(() => rw.open().length === 0), "connections left open");
    same(rw.conns.length, ss.length, "one connection per session");
    for (const c of rw.conns) must(/discard all/i.test(c.queries[0]), "every session starts reset");
    return true;
  }, { runs: 150, thorough: 2000, needs: [D.inDatabase, D.inTransaction] });

  await prop("missing connection settings are refused", fc.tuple(fc.constantFrom("DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"), fc.constantFrom("rw", "ro", "tx")), async ([missing, mode]) => {
    rw.reset(); ro.reset();
    for (const s of [rw, ro]) { s.auth = () => true; s.handler = () => ({}); }
    Object.assign(process.env, { DB_USER: "u", DB_PASS: "p", DB_URI: `127.0.0.1:${rw.port}/d`, DB_RO_URI: `127.0.0.1:${ro.port}/d` });
    delete process.env[missing];
    let called = 0;
    const r = await outcome(() => ({ rw: D.inDatabase, ro: D.inDatabaseReadonly, tx: D.inTransaction })[mode](async () => { called++; }));
    const relevant = ["DB_USER", "DB_PASS"].includes(missing) || (missing === "DB_RO_URI") === (mode === "ro");
    must(!!r.error === relevant, `${missing} missing in ${mode}: ${r.error ? "refused" : "accepted"}`);
    if (relevant) same(called, 0);
    await until(() => rw.open().length + ro.open().length === 0);
    return relevant;
  }, { runs: 24, thorough: 48, needs: [D.inDatabase] });

  await finding("credentials-with-url-characters", async () => {
    rw.reset(); rw.auth = () => true; rw.handler = () => ({});
    Object.assign(process.env, { DB_USER: "user", DB_PASS: "a#b", DB_URI: `127.0.0.1:${rw.port}/d` });
    const r = await outcome(() => D.inDatabase(async () => 1));
    must(!r.error && rw.conns[0]?.password === "a#b", `password "a#b": ${r.error?.message ?? rw.conns[0]?.password}`);
    await until(() => rw.open().length === 0);
  });
});
