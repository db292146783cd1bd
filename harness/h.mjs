// The generated-case runner every check uses.
import * as FC from "#vt/fast-check";
import FakeTimers from "#vt/fake-timers";
import fs from "node:fs";
import path from "node:path";
import crypto from "node:crypto";
import assert from "node:assert";

export { assert };
// records are ordinary objects, as JSON.parse and the AWS runtimes make them
export const fc = { ...FC, record: (m, o) => FC.record(m, { noNullPrototype: true, ...o }), dictionary: (k, v, o) => FC.dictionary(k, v, { noNullPrototype: true, ...o }), option: (a, o) => { if (o?.freq <= 1) throw new Error("freq 1 makes every value absent"); return FC.option(a, { freq: 2, ...o }); } };
const env = process.env;
export const TIER = env.VERIF_TIER === "thorough" ? "thorough" : "quick";
export const SEED = Number.parseInt(env.VERIF_SEED ?? "1", 10) || 1;
export const ROOT = env.VERIF_ROOT;
export const REPO = env.VERIF_REPO;
const ID = env.VERIF_ID;
const t0 = process.hrtime.bigint();
const realSetTimeout = globalThis.setTimeout;
const realWrite = process.stdout.write.bind(process.stdout);
const RealDate = globalThis.Date;

export function say(line) {
  fs.writeSync(1, line + "\n");
}

// ---------- output of the code under test ----------
let captured = [];
let capturing = false;
const sink = (chunk, enc, cb) => {
  if (capturing) captured.push(typeof chunk === "string" ? chunk : Buffer.from(chunk).toString("utf8"));
  if (typeof enc === "function") enc();
  else if (typeof cb === "function") cb();
  return true;
};
if (!env.VERIF_DEBUG) {
  process.stdout.write = sink;
  process.stderr.write = (c, e, cb) => { (typeof e === "function" ? e : cb)?.(); return true; };
  for (const k of ["log", "info", "warn", "error", "debug", "trace"]) console[k] = (...a) => { sink(a.map((x) => (typeof x === "string" ? x : JSON.stringify(x) ?? String(x))).join(" ") + "\n"); };
}
/** Runs fn and returns what it wrote to stdout. */
export async function capture(fn) {
  captured = []; capturing = true;
  try { const value = await fn(); return { value, out: captured.join("") }; }
  catch (error) { return { error, out: captured.join("") }; }
  finally { capturing = false; }
}

let strayRejections = 0, started = false, finished = false, currentPart = "(loading)", currentCase;
process.on("unhandledRejection", () => { strayRejections++; });
let loadError;
process.on("uncaughtException", (e) => {
  strayRejections++;
  if (!started) loadError ??= e;
  if (env.VERIF_DEBUG) fs.writeSync(2, `uncaught ${e?.stack}\n`);
});

// ---------- virtual time ----------
export function fakeClock(now = 1_700_000_000_000, toFake) {
  return FakeTimers.install({ now, shouldClearNativeTimers: false, ...(toFake ? { toFake } : { toFake: ["setTimeout", "clearTimeout", "setInterval", "clearInterval", "Date"] }) });
}
/** Drives fake time forward until the promise settles. Virtual horizon in ms. */
export async function driveClock(clock, promise, horizon = 48 * 3600_000, steps = 20000) {
  let done = false, result;
  promise.then((value) => { done = true; result = { value }; }, (error) => { done = true; result = { error }; });
  const start = clock.now;
  for (let i = 0; !done && i < steps; i++) {
    for (let j = 0; j < 6 && !done; j++) await Promise.resolve();
    if (done) break;
    await new Promise((r) => setImmediate(r));
    if (done) break;
    if (clock.countTimers() > 0 && clock.now - start < horizon) await clock.nextAsync();
  }
  if (!done) return { hung: true, now: clock.now };
  return result;
}

// ---------- small oracles ----------
export class Violation extends Error { constructor(m) { super(m); this.name = "Violation"; } }
export function must(cond, msg) { if (!cond) throw new Violation(typeof msg === "function" ? msg() : msg); }
export function same(actual, expected, msg) {
  try { assert.deepStrictEqual(actual, expected); }
  catch { throw new Violation(`${msg ?? "mismatch"}\n   actual:   ${show(actual)}\n   expected: ${show(expected)}`); }
}
/** as same(), but an absent key equals a key that is undefined, and prototypes do not matter */
export function alike(actual, expected, msg) {
  const n = (v) => (v === undefined ? undefined : norm(v));
  same(n(actual), n(expected), msg);
}
function norm(v) {
  if (Array.isArray(v)) return v.map(norm);
  if (v instanceof RealDate || v instanceof globalThis.Date) return { $date: Number.isNaN(v.getTime()) ? "invalid" : v.toISOString() };
  if (v && typeof v === "object" && !Buffer.isBuffer(v)) {
    const o = {};
    for (const k of Object.keys(v).sort()) if (v[k] !== undefined) o[k] = norm(v[k]);
    return o;
  }
  return v;
}
export function show(v, max = 600) {
  let s;
  try { s = fc.stringify(v); } catch { s = String(v); }
  return s.length > max ? s.slice(0, max) + "…" : s;
}
export function throwsSync(fn) { try { return { value: fn() }; } catch (error) { return { error }; } }
export async function outcome(fn) { try { return { value: await fn() }; } catch (error) { return { error }; } }

// ---------- the check ----------
const st = { evaluations: 0, nontrivial: new Set(), samples: [], parts: {}, violations: 0, findings: [], notes: [], inconclusive: [] };
const known = (() => {
  // lines "known: property=<id> key=<key> <what fails>" (and "fixed: ..." lines, which suppress nothing)
  const f = path.join(ROOT, "known-findings.txt");
  if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, "utf8").split("\n").map((l) => /^known: property=(\S+) key=(\S+) (.*)$/.exec(l)).filter((m) => m && m[1] === ID).map((m) => ({ key: m[2], what: m[3] }));
})();
const replay = env.VERIF_REPLAY ? JSON.parse(fs.readFileSync(env.VERIF_REPLAY, "utf8")) : undefined;
const hash = (s) => crypto.createHash("sha1").update(s).digest("base64").slice(0, 16);
let lastBeat = 0;
function beat(part, force) {
  const n = Number(process.hrtime.bigint() / 1000000n);
  if (force || n - lastBeat > 500) { lastBeat = n; process.send?.({ part, desc: "" }); }
}

// The process ending before the check is through: the code under test can not even be loaded, or a case waits for
// something that never comes.
process.on("exit", () => {
  if (finished) return;
  if (!started) violation("(loading)", { error: `the code under test fails when it is loaded: ${loadError?.stack ?? "no error"}` });
  else violation(currentPart, { stall: true, error: "a case never finishes: nothing is left that could finish it", ...(currentCase ? { counterexample: currentCase() } : {}) });
  process.exitCode = 1;
});

function violation(part, body) {
  st.violations++;
  const dir = path.join(ROOT, ".replay");
  fs.mkdirSync(dir, { recursive: true });
  const f = path.join(dir, `${ID}-${part.replace(/[^A-Za-z0-9]+/g, "_")}.json`);
  fs.writeFileSync(f, JSON.stringify({ property: ID, part, tier: TIER, ...body, how: `cd /verif && node run.mjs ${ID} --replay ${f}` }, null, 1));
  say(`part ${part}: ${body.error}`);
  if (body.counterexample) say(`  minimal case: ${body.counterexample}`);
  say(`VIOLATION property=${ID} replay=${f}`);
}

/**
 * One generated sub-check. fn(case) throws on a violation and returns falsy for a trivial case,
 * true or a class name for a non-trivial one.
 */
async function prop(part, arb, fn, opt = {}) {
  if (env.VERIF_ONLY && !part.includes(env.VERIF_ONLY)) return;
  if (replay && replay.part !== part) return;
  if (opt.needs && opt.needs.some((x) => x === undefined)) {
    st.inconclusive.push(`${part}: an entry point it drives is not there`);
    return;
  }
  const runs = opt.runs ?? 1000;
  let numRuns = TIER === "thorough" ? (opt.thorough ?? runs * 12) : runs;
  const P = (st.parts[part] = { evaluations: 0, nontrivial: 0, classes: {} });
  let sampled = 0;
  const one = async (c) => {
    beat(part);
    st.evaluations++; P.evaluations++;
    const key = () => part + "|" + show(c, 20000);
    const pre = key();
    currentCase = () => pre.slice(0, 4000);
    const r = await fn(c);
    if (r) {
      P.nontrivial++;
      if (typeof r === "string") P.classes[r] = (P.classes[r] ?? 0) + 1;
      const h = hash(pre);
      if (!st.nontrivial.has(h)) {
        st.nontrivial.add(h);
        if (sampled < 2) { sampled++; st.samples.push({ part, case: pre.slice(part.length + 1, part.length + 701), ...(typeof r === "string" ? { class: r } : {}) }); }
      }
    }
  };
  beat(part, true);
  currentPart = part; currentCase = undefined;
  const params = {
    seed: replay?.seed ?? (SEED ^ Number.parseInt(crypto.createHash("sha1").update(part).digest("hex").slice(0, 7), 16)) | 0,
    numRuns: replay?.path ? 1 : numRuns,
    ...(replay?.path ? { path: replay.path, endOnFailure: true } : {}),
    interruptAfterTimeLimit: opt.budgetMs ?? (TIER === "thorough" ? 1500_000 : 240_000),
    markInterruptAsFailure: false,
    ...(opt.examples && !replay ? { examples: opt.examples.map((e) => [e]) } : {}),
    ...(opt.fc ?? {}),
  };
  const r = await fc.check(fc.asyncProperty(arb, one), params);
  if (r.interrupted) st.notes.push(`${part}: time budget hit after ${r.numRuns} cases (inconclusive beyond)`);
  if (r.failed) {
    const err = r.errorInstance;
    const msg = err ? (err.name === "Violation" ? err.message : `${err.stack ?? err}`) : "failed";
    violation(part, { seed: r.seed, path: r.counterexamplePath, counterexample: show(r.counterexample?.[0], 4000), shrinks: r.numShrinks, error: msg.split("\n").slice(0, 12).join("\n") });
  }
}

/** Every element of a finite list, one by one. */
async function each(part, list, fn, opt = {}) {
  if (env.VERIF_ONLY && !part.includes(env.VERIF_ONLY)) return;
  if (replay && replay.part !== part) return;
  if (opt.needs && opt.needs.some((x) => x === undefined)) {
    st.inconclusive.push(`${part}: an entry point it drives is not there`);
    return;
  }
  const P = (st.parts[part] = { evaluations: 0, nontrivial: 0, exhaustive: true, classes: {} });
  let sampled = 0;
  for (let i = 0; i < list.length; i++) {
    if (replay?.index !== undefined && replay.index !== i) continue;
    beat(part);
    const pre = show(list[i], 20000);
    st.evaluations++; P.evaluations++;
    currentPart = part; currentCase = () => pre.slice(0, 4000);
    try {
      const r = await fn(list[i]);
      if (r) {
        P.nontrivial++;
        st.nontrivial.add(hash(part + "|" + pre));
        if (sampled++ < 1) st.samples.push({ part, case: pre.slice(0, 700) });
      }
    } catch (e) {
      violation(part, { index: i, counterexample: pre.slice(0, 4000), error: e?.name === "Violation" ? e.message : String(e?.stack ?? e) });
      return;
    }
  }
}

/**
 * A recorded defect, identified by its specific failing input. probe() throws a Violation while it
 * still fails. Listed in known-findings.txt: reported as such. Not listed: a violation.
 */
async function finding(key, probe) {
  if (replay && replay.part !== `finding:${key}`) return;
  if (env.VERIF_ONLY) return;
  st.evaluations++;
  try { await probe(); }
  catch (e) {
    const k = known.find((x) => x.key === key);
    if (k) { st.findings.push(key); say(`KNOWN-FINDING: property=${ID} ${key}: ${k.what}`); }
    else violation(`finding:${key}`, { counterexample: key, error: e?.name === "Violation" ? e.message : String(e?.stack ?? e) });
  }
}

export async function check({ rule, assumptions = [] }, body) {
  let crashed;
  started = true;
  try { await body({ prop, each, finding }); }
  catch (e) { crashed = e; }
  finished = true;
  if (crashed) violation("(set-up)", { error: `the code under test fails while it is set up: ${crashed.name === "Violation" ? crashed.message : crashed.stack ?? crashed}` });
  const wall = Number(process.hrtime.bigint() - t0) / 1e9;
  const evidence = {
    property: ID, tier: TIER, seed: SEED, level: "exploration",
    coverage: {
      evaluations: st.evaluations, distinct_nontrivial: st.nontrivial.size, rule,
      samples: st.samples.slice(0, 40), parts: st.parts,
      ...(st.inconclusive.length ? { not_driven: st.inconclusive } : {}),
      ...(st.notes.length ? { notes: st.notes } : {}),
      ...(st.findings.length ? { known_findings: st.findings } : {}),
      stray_rejections: strayRejections,
    },
    assumptions, wall_s: Math.round(wall * 100) / 100, violations: st.violations,
  };
  if (!env.VERIF_ONLY && !replay) {
    fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(ROOT, "evidence", `${ID}.json`), JSON.stringify(evidence, null, 1));
  }
  for (const [p, v] of Object.entries(st.parts)) if (env.VERIF_VERBOSE || env.VERIF_DEBUG) say(`  ${p}: ${v.evaluations} cases, ${v.nontrivial} non-trivial ${JSON.stringify(v.classes)}`);
  say(`${ID} ${TIER} seed=${SEED}: ${st.evaluations} cases, ${st.nontrivial.size} distinct non-trivial, ${st.violations} violation(s), ${wall.toFixed(1)} s${st.inconclusive.length ? `, ${st.inconclusive.length} part(s) not driven` : ""}`);
  process.exit(st.violations > 0 ? 1 : 0);
}
