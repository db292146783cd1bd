// C04: structured logging.
import { Writable } from "node:stream";
import { check, fc, must, same, throwsSync, capture } from "#harness";
import * as L from "#repo/lib/digitraffic-common/src/aws/runtime/dt-logger.ts";
import * as U from "#repo/lib/digitraffic-common/src/utils/logging.ts";
import * as T from "#repo/lib/digitraffic-common/src/utils/lead-time-logging.ts";

const RESERVED = new Set(["message", "level", "method", "stack", "error", "lambdaName", "runtime", "type", "tookMs", "apikey", "apiKey", "", "__proto__", "constructor", "prototype", "toString"]);
const method = fc.stringMatching(/^[A-Z][a-zA-Z]{0,8}\.[a-z][a-zA-Z]{0,8}$/);
const anyText = fc.oneof(fc.string({ unit: "binary", maxLength: 20 }), fc.constantFrom("", "a=b", "line\nbreak", "quote\"", "\u2028", "ä€😀", "k1=x", "  ", "\r\n{\"level\":\"ERROR\"}"));
const scalar = fc.oneof(anyText, fc.integer(), fc.double({ noNaN: true, noDefaultInfinity: true }), fc.boolean(), fc.constant(null), fc.constant(undefined), fc.bigInt({ min: -(2n ** 70n), max: 2n ** 70n }), fc.date({ noInvalidDate: true }));
const customs = fc.dictionary(fc.oneof({ weight: 6, arbitrary: fc.stringMatching(/^[A-Z][a-zA-Z0-9]{0,7}$/) }, { weight: 1, arbitrary: fc.constantFrom("AcustomB", "Custom", "Xcustom", "URL", "Zcustom1") }).filter((k) => !RESERVED.has(k[0].toLowerCase() + k.slice(1))), scalar, { maxKeys: 5, noNullPrototype: true });
const errorArb = fc.oneof(
  fc.tuple(fc.constantFrom(Error, TypeError, RangeError), anyText).map(([E, m]) => ({ kind: "Error", e: new E(m) })),
  fc.tuple(anyText, fc.stringMatching(/^[A-Z][a-z]{1,8}$/)).map(([m, n]) => { const e = new Error(m); e.name = n; return { kind: "Error", e }; }),
  fc.constant(null).map(() => { const e = new Error("nostack"); e.stack = undefined; return { kind: "Error", e }; }),
  anyText.filter((s) => s !== "").map((e) => ({ kind: "string", e })),
  fc.dictionary(fc.stringMatching(/^[a-z]{1,5}$/), fc.jsonValue({ maxDepth: 1 }), { noNullPrototype: true }).map((e) => ({ kind: "object", e })),
);
const entry = fc.record({
  level: fc.constantFrom("info", "warn", "error"), method, message: fc.option(anyText, { nil: undefined }), prefixed: fc.boolean(), customs,
  error: fc.option(errorArb, { nil: undefined }), stack: fc.option(fc.constant("custom stack\n at x"), { nil: undefined }), tookMs: fc.option(fc.nat(), { nil: undefined }), type: fc.option(fc.constantFrom("Error", "T"), { nil: undefined }),
});
const lf = (s) => s[0].toLowerCase() + s.slice(1);
const jsonOf = (v) => (typeof v === "bigint" ? v : v instanceof Date ? v.toISOString() : v === undefined ? undefined : Object.is(v, -0) ? 0 : v);
function logOf(fn, cfg) {
  const chunks = [];
  const writeStream = new Writable({ write(c, _e, cb) { chunks.push(c.toString()); cb(); } });
  const logger = new L.DtLogger({ ...cfg, writeStream });
  const r = throwsSync(() => fn(logger));
  return { r, text: chunks.join("") };
}
function lines(text) {
  must(text === "" || text.endsWith("\n"), "output not newline-terminated");
  return text.split("\n").slice(0, -1).map((l) => { const o = throwsSync(() => JSON.parse(l)); must(!o.error, () => `not a JSON line: ${l.slice(0, 300)}`); return o.value; });
}

await check({
  rule: "log entries of every level with generated methods, messages, custom fields of every permitted type and error values, parsed back from the written stream; non-trivial: entries with custom fields, errors or control characters",
  assumptions: ["custom field names do not collide with the built-in ones"],
}, async ({ prop }) => {
  const need = { needs: [L.DtLogger] };
  await prop("each call writes one JSON line that carries everything", entry, (c) => {
    const msg = {};
    msg.method = c.method;
    const message = c.prefixed && c.message !== undefined ? `${c.method} ${c.message}` : c.message;
    if (message !== undefined) msg.message = message;
    for (const [k, v] of Object.entries(c.customs)) msg[`custom${k}`] = v;
    if (c.error) msg.error = c.error.e;
    if (c.stack) msg.stack = c.stack;
    if (c.tookMs !== undefined) msg.tookMs = c.tookMs;
    if (c.type !== undefined) msg.type = c.type;
    const frozen = Object.freeze({ ...msg });
    const { r, text } = logOf((l) => l[c.level](frozen), { lambdaName: "the-lambda", runTime: "the-runtime" });
    must(!r.error, () => `logging threw: ${r.error.stack}`);
    const ls = lines(text);
    same(ls.length, 1, "number of lines");
    const o = ls[0];
    same(o.level, c.level.toUpperCase(), "level");
    same(o.lambdaName, "the-lambda", "lambda name"); same(o.runtime, "the-runtime", "runtime");
    same(o.method, c.method, "method");
    must(typeof o.message === "string" && o.message.includes(c.method), "message names the method");
    if (message !== undefined) must(o.message.includes(message), () => `message lost: ${o.message}`);
    if (message?.includes(c.method)) must(o.message.startsWith(message), "method repeated");
    if (c.tookMs !== undefined) same(o.tookMs, c.tookMs, "tookMs");
    if (c.type !== undefined) same(o.type, c.type, "type");
    const names = Object.keys(c.customs).map(lf);
    for (const [k, v] of Object.entries(c.customs)) {
      const name = lf(k), got = o[name];
      if (names.filter((n) => n === name).length > 1) continue;
      must(!(`custom${k}` in o), "the prefix is not logged");
      if (typeof v === "bigint") must(String(got) === String(v) || Number(got) === Number(v), () => `bigint ${v} logged as ${got}`);
      else same(got, jsonOf(v), `field ${name}`);
      // what central logging searches: name=value in the message
      must(o.message.includes(`${name}=`), () => `field ${name} is not in the message: ${o.message}`);
      if (!(message ?? "").includes(`${name}=`) && v !== undefined && v !== null) {
        const text = typeof v === "string" ? (v.includes("=") ? JSON.stringify(v) : v) : v instanceof Date ? v.toISOString() : typeof v === "bigint" ? String(v) : JSON.stringify(v);
        must(o.message.includes(`${name}=${text}`), () => `field ${name}: expected ${name}=${text} in ${o.message}`);
      }
    }
    // the message line: the message, then every other field as name=value, and nothing else
    const head = message?.length && message.includes(c.method) ? message : `${c.method} ${message ?? ""}`;
    must(o.message.startsWith(head), () => `message ${o.message} does not begin with ${head}`);
    if (new Set(names).size === names.length) {
      const fields = [...Object.entries(c.customs).map(([k, v]) => [lf(k), v]), ...(c.tookMs !== undefined ? [["tookMs", c.tookMs]] : []), ...(c.type !== undefined ? [["type", c.type]] : [])].filter(([k]) => !head.includes(`${k}=`));
      const pairs = fields.map(([k, v]) => ` ${k}=${v === undefined ? "undefined" : v === null ? "null" : v instanceof Date ? v.toISOString() : typeof v === "bigint" ? String(v) : typeof v !== "string" ? JSON.stringify(v) : v.includes("=") ? JSON.stringify(v) : v}`);
      const rest = o.message.slice(head.length);
      for (const p of pairs) must(rest.includes(p), () => `${p} is not in ${rest}`);
      same(rest.length, pairs.join("").length, `nothing else in the message line ${o.message}`);
    }
    if (c.error) {
      if (c.error.kind === "Error") {
        must(o.error.includes(c.error.e.name) && o.error.includes(c.error.e.message), () => `error logged as ${o.error}`);
        same(o.stack, c.stack ?? c.error.e.stack, "stack");
      } else if (c.error.kind === "string") { same(o.error, c.error.e, "error"); same(o.stack, c.stack, "stack"); }
      else { same(JSON.parse(o.error), JSON.parse(JSON.stringify(c.error.e)), "error object"); same(o.stack, c.stack, "stack"); }
    } else { same(o.error, undefined, "error"); same(o.stack, c.stack, "stack"); }
    const known = new Set(["level", "lambdaName", "runtime", "method", "message", "error", "stack", "tookMs", "type", ...names]);
    must(Object.keys(o).every((k) => known.has(k)), () => `unexpected fields ${Object.keys(o)}`);
    return c.error ? `error-${c.error.kind}` : names.length ? "fields" : /[\n"\u2028]/.test(c.message ?? "") ? "control characters" : false;
  }, { runs: 6000, ...need });

  const where = fc.record({ env: fc.option(fc.stringMatching(/^[a-z]{1,8}$/), { nil: undefined }), given: fc.option(fc.stringMatching(/^[A-Z]{1,8}$/), { nil: undefined }) });
  await prop("lines name the function and its runtime", fc.record({ fn: where, rt: where, debug: fc.boolean(), own: fc.boolean() }), async (c) => {
    const put = (k, v) => { if (v === undefined) delete process.env[k]; else process.env[k] = v; };
    put("AWS_LAMBDA_FUNCTION_NAME", c.fn.env); put("AWS_EXECUTION_ENV", c.rt.env);
    try {
      const { r, text } = logOf((l) => (c.debug ? l.debug("x") : l.info({ method: "a.b" })), { ...(c.fn.given && { lambdaName: c.fn.given }), ...(c.rt.given && { runTime: c.rt.given }) });
      must(!r.error, "threw");
      const [o] = lines(text);
      const named = (v, w, what) => (w.given ?? w.env ? same(v, w.given ?? w.env, what) : must(typeof v === "string" && v !== "", what));
      named(o.lambdaName, c.fn, "function"); named(o.runtime, c.rt, "runtime");
      const { out, error } = await capture(() => U.createExceptionLogger()(new Error("gone")));
      must(!error, "threw");
      const ls = lines(out); same(ls.length, 1, "an exception logger without a logger writes"); must(ls[0].message.includes("gone") && ls[0].level === "ERROR", "error");
      must(ls[0].method.endsWith(".logException"), "method");
      return !!(c.fn.env ?? c.rt.env);
    } finally { put("AWS_LAMBDA_FUNCTION_NAME"); put("AWS_EXECUTION_ENV"); }
  }, { runs: 200, needs: [L.DtLogger, U.createExceptionLogger] });

  await prop("an invalid date does not stop the caller", method, (m) => {
    const { r, text } = logOf((l) => l.info({ method: m, customWhen: new Date(Number.NaN) }), {});
    must(!r.error, () => `logging threw: ${r.error.stack}`);
    same(lines(text).length, 1);
    return true;
  }, { runs: 20, thorough: 20, ...need });

  await prop("debug writes one line", fc.oneof(anyText, fc.jsonValue({ maxDepth: 2 })), (v) => {
    const { r, text } = logOf((l) => l.debug(v), { lambdaName: "n" });
    must(!r.error, "threw");
    const ls = lines(text);
    same(ls.length, 1);
    same(ls[0].level, "DEBUG"); same(ls[0].message, JSON.parse(JSON.stringify(v) ?? "null"));
    return true;
  }, { runs: 400, ...need });

  await prop("exceptions are logged once, never rethrown", fc.record({ e: errorArb, stack: fc.option(fc.boolean(), { nil: undefined }), curried: fc.boolean() }), (c) => {
    const { r, text } = logOf((l) => (c.curried ? U.createExceptionLogger(l, c.stack)(c.e.e) : U.logException(l, c.e.e, c.stack)), {});
    must(!r.error, () => `threw ${r.error.stack}`);
    const ls = lines(text);
    same(ls.length, 1); same(ls[0].level, "ERROR");
    const text_ = c.e.kind === "Error" ? c.e.e.message : c.e.kind === "string" ? c.e.e : JSON.stringify(c.e.e);
    must(ls[0].message.includes(text_), () => `message lost: ${ls[0].message}`);
    same(ls[0].stack, c.stack && c.e.kind === "Error" ? c.e.e.stack : undefined, "stack exactly when asked for");
    return true;
  }, { runs: 1000, needs: [U.logException, U.createExceptionLogger] });

  // objects that refer to themselves or hold what JSON can't hold
  const odd = fc.record({ base: fc.dictionary(fc.constantFrom("a", "b", "c"), fc.oneof(fc.string({ maxLength: 5 }), fc.integer(), fc.constant(null), fc.constantFrom(1n, -7n)), { maxKeys: 3 }), loops: fc.array(fc.tuple(fc.constantFrom("self", "parent", "list"), fc.constantFrom("x", "y", "z")), { maxLength: 3 }), shared: fc.boolean() }).map((c) => {
    const o = { ...c.base }, child = { in: 1 };
    for (const [how, k] of c.loops) { if (how === "self") o[k] = o; else if (how === "parent") { o[k] = child; child.up = o; } else o[k] = [o, { o }]; }
    if (c.shared) { const s = { s: 1 }; o.s1 = s; o.s2 = s; }
    return { o, c };
  });
  await prop("odd error objects are logged and never throw", fc.record({ odd, how: fc.constantFrom("error", "logException", "debug", "bigint") }), ({ odd: { o, c }, how }) => {
    const { r, text } = logOf((l) => (how === "error" ? l.error({ method: "a.b", error: o }) : how === "debug" ? l.debug(o) : U.logException(l, how === "bigint" ? 12n : o)), {});
    must(!r.error, () => `logging threw: ${r.error?.stack}`);
    const ls = lines(text); same(ls.length, 1);
    if (how === "bigint") must(ls[0].message.includes("12"), "value lost");
    else if (how === "logException") { for (const [k, v] of Object.entries(c.base)) if (!c.loops.some(([, n]) => n === k) && typeof v !== "bigint") must(ls[0].message.includes(`${JSON.stringify(k)}:${JSON.stringify(v)}`), () => `field ${k} lost: ${ls[0].message}`); } else {
      const got = how === "debug" ? ls[0].message : JSON.parse(ls[0].error);
      for (const [k, v] of Object.entries(c.base)) if (!c.loops.some(([, n]) => n === k)) same(String(got[k]), String(v), `field ${k}`);
      if (c.shared) { same(got.s1, { s: 1 }); same(got.s2, { s: 1 }, "an object referred to twice is not a loop"); }
    }
    return c.loops.length > 0 || how === "bigint";
  }, { runs: 600, needs: [L.DtLogger, U.logException] });

  await prop("deep objects are logged whole", fc.record({ depth: fc.integer({ min: 1, max: 60 }), how: fc.constantFrom("error", "debug"), list: fc.boolean() }), (c) => {
    let v = { bottom: "here" };
    for (let i = 0; i < c.depth; i++) v = c.list && i % 2 ? [v] : { in: v };
    const o = { top: v };
    const { r, text } = logOf((l) => (c.how === "error" ? l.error({ method: "a.b", error: o }) : l.debug(o)), {});
    must(!r.error, () => `logging threw: ${r.error?.stack}`);
    const ls = lines(text); same(ls.length, 1);
    same(c.how === "debug" ? ls[0].message : JSON.parse(ls[0].error), o, "deep object");
    return c.depth > 5;
  }, { runs: 150, ...need });

  const ms = fc.oneof(fc.integer(), fc.nat(), fc.constantFrom(undefined, 0, Number.NaN, Infinity, 1.5, 2 ** 60));
  await prop("lead times: one line per usable measurement", fc.record({ target: fc.stringMatching(/^[a-z]{1,8}$/), leadTimeMs: ms, processTimeMs: ms, extra: fc.option(customs, { nil: undefined }) }), async (c) => {
    const extraFields = c.extra && Object.fromEntries(Object.entries(c.extra).filter(([k]) => !["leadTime", "name", "target"].includes(lf(k))).map(([k, v]) => [`custom${k}`, v]));
    const { error, out } = await capture(() => T.logLeadTimes({ target: c.target, leadTimeMs: c.leadTimeMs, processTimeMs: c.processTimeMs, extraFields }));
    must(!error, () => `threw ${error?.stack}`);
    const ls = lines(out);
    const want = [["lead-time", c.leadTimeMs], ["process-time", c.processTimeMs]].filter(([, v]) => Number.isSafeInteger(v)).map(([n, v]) => [n, v, c.target, true, "INFO"]);
    same(ls.map((l) => [l.name, l.tookMs, l.target, l.leadTime, l.level]), want, "measurements");
    for (const l of ls) for (const [k, v] of Object.entries(extraFields ?? {})) if (typeof v !== "bigint") same(l[lf(k.slice(6))], jsonOf(v), "extra field");
    return want.length > 0;
  }, { runs: 1000, needs: [T.logLeadTimes] });

  const tr = fc.record({ s: fc.oneof(fc.string({ maxLength: 300 }), fc.tuple(fc.string({ minLength: 1, maxLength: 5 }), fc.integer({ min: 1, max: 700 })).map(([a, n]) => a.repeat(n)), fc.stringMatching(/^[ab ]{0,200}$/)), max: fc.option(fc.integer({ min: 2, max: 150 }), { nil: undefined }), middle: fc.boolean() });
  await prop("truncation keeps the ends and says how much is gone", tr, (c) => {
    const max = c.max ?? 1000;
    const f = c.middle ? U.truncateMiddle : U.truncateEnd;
    const t = c.max === undefined ? f(c.s) : f(c.s, c.max);
    if (c.s.length <= max) { same(t, c.s, "short text is untouched"); return false; }
    must(t.length <= c.s.length + 2, () => `truncation made the text longer: ${c.s.length} -> ${t.length}`);
    if (t === c.s) { must(c.s.length - max <= `[TRUNCATED ${c.s.length - max} CHARS]`.length, "not truncated"); return "kept"; }
    const mark = `[TRUNCATED ${c.s.length - max} CHARS]`;
    must(t.includes(mark), () => `no mark ${mark} in ${t}`);
    must(t.length <= max + mark.length + 2, "longer than the limit and its mark");
    const [a, b] = [t.slice(0, t.indexOf(mark)).trim(), t.slice(t.indexOf(mark) + mark.length).trim()];
    if (c.middle) {
      const half = Math.floor(max / 2);
      same([a, b], [c.s.slice(0, half).trim(), c.s.slice(c.s.length - half).trim()], "kept ends");
    } else same([a, b], [c.s.slice(0, max).trim(), ""], "kept start");
    return "truncated";
  }, { runs: 2500, needs: [U.truncateEnd, U.truncateMiddle] });
});
