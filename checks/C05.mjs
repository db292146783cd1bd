// C05: retrying, on a virtual clock.
import { check, fc, must, same, outcome, fakeClock, driveClock, capture } from "#harness";
import * as R from "#repo/lib/digitraffic-common/src/utils/retry.ts";
import * as HE from "#repo/lib/digitraffic-common/src/types/http-error.ts";

const step = fc.oneof(
  { weight: 4, arbitrary: fc.record({ kind: fc.constant("reject"), took: fc.constantFrom(0, 0, 5, 1000, 60000), e: fc.constantFrom("error", "string", "object", "http403", "http429", "http500", "http404", "http503", "http408", "http401", "http502", "http400", "said403", "said429", "named429") }) },
  { weight: 2, arbitrary: fc.record({ kind: fc.constant("resolve"), took: fc.constantFrom(0, 0, 5, 1000, 29 * 60000) }) },
  { weight: 1, arbitrary: fc.record({ kind: fc.constant("hang"), took: fc.constantFrom(31 * 60000, 45 * 60000, Infinity) }) },
  { weight: 1, arbitrary: fc.record({ kind: fc.constant("syncThrow"), took: fc.constant(0), e: fc.constantFrom("error", "http403", "http503") }) },
);
const mkErr = (k, i) => (k === "error" ? new Error(`E${i}`) : k === "string" ? `S${i}` : k === "object" ? { i } : k === "said403" ? new HE.HttpError(500, `H${i} 403`) : k === "said429" ? new (i % 2 ? Error : class extends HE.HttpError { constructor(m) { super(404, m); } })(`E${i} 429`) : k === "named429" ? { statusCode: 404, code: 429, status: "429" } : new HE.HttpError(Number(k.slice(4)), `H${i}`));
const HALF_HOUR = 30 * 60000;

/** scripted function under retry; records start times, ends, overlaps */
function scripted(script) {
  const st = { calls: [], running: 0, overlap: false, thrown: [], args: [] };
  st.fn = (...args) => {
    const i = st.calls.length, s = script[Math.min(i, script.length - 1)];
    st.calls.push(Date.now()); st.args.push(args);
    if (st.running > 0 && !st.hung) st.overlap = true;
    if (s.kind === "syncThrow") { const e = mkErr(s.e, i); st.thrown.push(e); throw e; }
    st.running++;
    if (s.took >= HALF_HOUR) st.hung = true;
    return new Promise((res, rej) => {
      if (s.took === Infinity) return;
      const end = () => { st.running--; if (s.kind === "reject") { const e = mkErr(s.e, i); st.thrown.push(e); rej(e); } else res(`value ${i}`); };
      if (s.took === 0) Promise.resolve().then(end); else setTimeout(end, s.took);
    });
  };
  return st;
}

await check({
  rule: "scripts of attempts (value, failure of several kinds, hang, synchronous throw) with generated limits, delays and predicates, run on a virtual clock and compared with a reference run; non-trivial: at least one retry, a hang or a refused limit",
  assumptions: ["an attempt running longer than thirty minutes counts as failed"],
}, async ({ prop }) => {
  const spec = fc.record({
    script: fc.array(step, { minLength: 1, maxLength: 7 }),
    retries: fc.oneof({ weight: 5, arbitrary: fc.integer({ min: -2, max: 8 }) }, { weight: 1, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constantFrom(100, 101, 250, Number.POSITIVE_INFINITY, Number.NaN, Number.NEGATIVE_INFINITY) }),
    log: fc.constantFrom(undefined, "LOG_ALL_AS_ERRORS", "LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS", "NO_LOGGING"),
    delays: fc.option(fc.array(fc.constantFrom(0, 1, 500, 7000), { minLength: 1, maxLength: 4 }), { nil: undefined }),
    refuse: fc.option(fc.nat({ max: 6 }), { nil: undefined, freq: 2 }),
    exponential: fc.boolean(),
  });
  await prop("attempts follow the limit, the delays and the predicate", spec, async (c) => {
    const clock = fakeClock();
    try {
      const st = scripted(c.script);
      const asked = [], delayArgs = [];
      c = { ...c, exponential: c.exponential && (c.retries ?? 3) <= 8 };
      const delayFn = c.exponential ? (n) => { delayArgs.push(n); return R.timeoutFunctions.exponentialTimeout(n); } : c.delays ? (n) => { delayArgs.push(n); return c.delays[(n - 1) % c.delays.length]; } : undefined;
      const pred = c.refuse === undefined ? undefined : (e) => { asked.push(e); return asked.length - 1 !== c.refuse; };
      const t0 = Date.now();
      const { value: res, out } = await capture(() => driveClock(clock, (async () => R.retry(st.fn, c.retries, c.log === undefined ? undefined : R.RetryLogError[c.log], delayFn, pred))(), 1e9));
      must(!res.hung, () => `did not settle; ${st.calls.length} attempts`);
      const limit = c.retries === undefined ? 3 : c.retries;
      if (!Number.isFinite(limit) || limit > 100) { must(res.error, "an unusable limit was accepted"); same(st.calls.length, 0, "attempts with an unusable limit"); return "refused limit"; }
      // reference run
      const max = Math.max(0, limit) + 1;
      const at = []; let t = t0, ok, n = 0, refusals = 0, stop = false;
      while (!stop) {
        at.push(t);
        const s = c.script[Math.min(n, c.script.length - 1)];
        const failed = s.kind !== "resolve" || s.took >= HALF_HOUR;
        t += s.kind === "syncThrow" ? 0 : Math.min(s.took, HALF_HOUR);
        if (!failed) { ok = `value ${n}`; break; }
        n++;
        if (n >= max) break;
        if (c.refuse !== undefined && refusals++ === c.refuse) { stop = true; break; }
        t += c.exponential ? 2 ** n * 1000 : c.delays ? c.delays[(n - 1) % c.delays.length] : 0;
      }
      same(st.calls.map((x) => x - t0), at.map((x) => x - t0), "attempt times");
      if (ok !== undefined) same(res.value, ok, "result"); else must(res.error instanceof Error, () => `rejects when attempts run out, got ${String(res.value)} / ${String(res.error)}`);
      must(!st.overlap, "two attempts overlapped");
      if (delayFn) same(delayArgs, Array.from({ length: at.length - 1 }, (_, i) => i + 1), "delay function sees the retry number");
      const failures = at.length - (ok !== undefined ? 1 : 0);
      const errs = out.split("\n").filter((l) => l.includes('"level":"ERROR"')).length;
      const lastTried = ok === undefined && !stop;
      same(errs, c.log === "LOG_ALL_AS_ERRORS" ? failures : c.log === "NO_LOGGING" ? 0 : lastTried ? 1 : 0, `error lines with ${c.log}`);
      // which failures are told of, and how: the messages of the thrown errors, line by line
      const told = out.split("\n").filter(Boolean).map((l) => JSON.parse(l)), failed = st.thrown.slice(0, failures).filter((e) => e instanceof Error && c.script.every((x) => x.took < HALF_HOUR));
      const by = (level) => failed.filter((e) => told.some((l) => l.level === level && new RegExp(`(^| )${e.message}( |$)`).test(l.message)));
      const isLast = (e) => lastTried && e === st.thrown[failures - 1];
      same(by("ERROR").map(String), failed.filter((e) => c.log === "LOG_ALL_AS_ERRORS" || (c.log !== "NO_LOGGING" && isLast(e))).map(String), `failures told as errors with ${c.log}`);
      same(by("WARN").map(String), failed.filter((e) => c.log !== "LOG_ALL_AS_ERRORS" && c.log !== "NO_LOGGING" && !isLast(e)).map(String), `failures told as warnings with ${c.log}`);
      return at.length > 1 ? `${at.length} attempts` : c.script[0].kind === "hang" ? "hang" : false;
    } finally { clock.uninstall(); }
  }, { runs: 2500, needs: [R.retry, R.RetryLogError, R.timeoutFunctions] });

  await prop("requests retry only throttling answers, with growing delays", fc.record({ script: fc.array(step, { minLength: 1, maxLength: 8 }), args: fc.array(fc.oneof(fc.integer(), fc.constantFrom(undefined, null, "", 0)), { maxLength: 4 }) }), async (c) => {
    const clock = fakeClock();
    try {
      const st = scripted(c.script);
      const t0 = Date.now();
      const { value: res, out } = await capture(() => driveClock(clock, R.retryRequest(st.fn, ...c.args)));
      must(!res.hung, "did not settle");
      let t = t0, n = 0, ok; const at = [];
      for (;;) {
        at.push(t);
        const s = c.script[Math.min(n, c.script.length - 1)];
        t += s.kind === "syncThrow" ? 0 : Math.min(s.took, HALF_HOUR);
        if (s.kind === "resolve") { ok = `value ${n}`; break; }
        n++;
        if (n > 5 || !["http403", "http429"].includes(s.e)) break;
        t += 2 ** n * 1000;
      }
      same(st.calls.map((x) => x - t0), at.map((x) => x - t0), "request times");
      for (const a of st.args) same(a, c.args, "request arguments");
      if (ok !== undefined) same(res.value, ok); else must(res.error, "rejects");
      same(out.split("\n").filter((l) => l.includes('"level":"ERROR"')).length, n > 5 ? 1 : 0, "the last failure, and only that, is told as an error");
      return at.length > 1;
    } finally { clock.uninstall(); }
  }, { runs: 1500, needs: [R.retryRequest] });

  // several retries in flight at once do not disturb each other
  await prop("concurrent retries are independent", fc.array(fc.record({ script: fc.array(step, { minLength: 1, maxLength: 5 }), retries: fc.integer({ min: 0, max: 5 }), delay: fc.constantFrom(0, 10, 700) }), { minLength: 2, maxLength: 4 }), async (cs) => {
    const solo = [];
    for (const c of cs) {
      const clock = fakeClock();
      try { const st = scripted(c.script); const t0 = Date.now(), ns = []; const { value: r } = await capture(() => driveClock(clock, R.retry(st.fn, c.retries, undefined, (n) => { ns.push(n); return n * c.delay; }))); solo.push([st.calls.map((t) => t - t0), r.value, !!r.error, ns]); } finally { clock.uninstall(); }
    }
    const clock = fakeClock();
    try {
      const sts = cs.map((c) => scripted(c.script)), t0 = Date.now(), ns = cs.map(() => []);
      const { value: r } = await capture(() => driveClock(clock, Promise.allSettled(cs.map((c, i) => R.retry(sts[i].fn, c.retries, undefined, (n) => { ns[i].push(n); return n * c.delay; })))));
      must(!r.hung, "did not settle");
      same(r.value.map((x, i) => [sts[i].calls.map((t) => t - t0), x.value, x.status === "rejected", ns[i]]), solo, "outcome of concurrent retries");
      return true;
    } finally { clock.uninstall(); }
  }, { runs: 500, needs: [R.retry] });
});
