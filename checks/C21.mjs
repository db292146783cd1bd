// C21: the stop watch, against a model on a virtual clock.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import * as S from "#repo/lib/digitraffic-common/src/utils/stop-watch.ts";

const name = fc.constantFrom(undefined, undefined, "a", "b", "c c");
const cmd = fc.oneof(
  { weight: 4, arbitrary: fc.record({ op: fc.constantFrom("start", "stop"), name }) },
  { weight: 4, arbitrary: fc.record({ op: fc.constant("wait"), ms: fc.constantFrom(0, 1, 7, 1000, 3600000) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant("duration"), name }) },
  fc.record({ op: fc.constant("reset"), name }), fc.record({ op: fc.constant("tasks") }), fc.record({ op: fc.constant("log"), level: fc.constantFrom(undefined, "info", "debug", "warn", "error") }),
);
await check({
  rule: "histories of start, stop, wait, reset, read and log on several tasks, compared with a model; non-trivial: a task with at least two periods",
}, async ({ prop }) => {
  await prop("durations follow the model", fc.record({ started: fc.option(name, { nil: null }), from: fc.constantFrom(1700000000000, 1), cmds: fc.array(cmd, { maxLength: 20 }) }), async (c) => {
    const clock = fakeClock(c.from);
    try {
      const model = new Map(); let several = false;
      const start = (n) => { const t = model.get(n) ?? { periods: [], since: null }; model.set(n, t); if (t.since !== null) t.periods.push([t.since, Date.now()]); t.since = Date.now(); several ||= t.periods.length > 0; };
      const closed = (t) => t.periods.reduce((a, [x, y]) => a + y - x, 0);
      const duration = (n) => { const t = model.get(n); return t ? closed(t) + (t.since === null ? 0 : Date.now() - t.since) : 0; };
      let w;
      if (c.started === null) w = new S.StopWatch(); else { w = c.started === undefined ? S.StopWatch.createStarted() : S.StopWatch.createStarted(c.started); start(c.started); }
      const arg = (n) => (n === undefined ? [] : [n]);
      for (const k of c.cmds) {
        if (k.op === "wait") { clock.tick(k.ms); continue; }
        if (k.op === "start") { must(w.start(...arg(k.name)) === w, "chainable"); start(k.name); }
        else if (k.op === "stop") {
          const { error, value } = await capture(() => w.stop(...arg(k.name)));
          if (!error) must(value === w, "chainable");
          const t = model.get(k.name);
          same(!!error, !t, `stopping ${t ? "a known" : "an unknown"} task throws`);
          if (t && t.since !== null) { t.periods.push([t.since, Date.now()]); t.since = null; }
        } else if (k.op === "duration") same(w.getDuration(...arg(k.name)), duration(k.name), `duration of ${k.name}`);
        else if (k.op === "reset") { must(w.reset(...arg(k.name)) === w, "chainable"); if (k.name === undefined) model.clear(); else model.delete(k.name); }
        else if (k.op === "tasks") {
          const want = [...model].filter(([n]) => n !== undefined).map(([n, t]) => ({ taskName: n, isRunning: t.since !== null, totalDuration: closed(t), periods: [...t.periods.map(([a, b]) => ({ startTime: a, endTime: b, duration: b - a })), ...(t.since === null ? [] : [{ startTime: t.since }])] }));
          alike(JSON.parse(JSON.stringify(w.getTasks())), want, "tasks");
          for (const x of want) alike(JSON.parse(JSON.stringify(w.getTask(x.taskName))), x, "task");
          same(w.getTask("nope"), undefined, "an unknown task");
        } else {
          const { out } = await capture(() => w.logTasks("Some.method", ...(k.level ? [k.level] : [])));
          const lines = out.split("\n").filter(Boolean);
          const want = [...[...model].filter(([n]) => n !== undefined), ...[...model].filter(([n]) => n === undefined)].map(([n]) => [n ?? "Some.method", duration(n)]);
                    alike(lines.map((l) => { let j = JSON.parse(l); must(j.level === (k.level ?? "info").toUpperCase(), l); if (k.level === "debug") j = j.message; must(j.method === "Some.method", l); return [j.customTask ?? j.task, j.tookMs]; }), want, "logged tasks");
        }
      }
      for (const n of [undefined, "a", "b", "c c", "never"]) same(w.getDuration(...arg(n)), duration(n), `final duration of ${n}`);
      return several;
    } finally { clock.uninstall(); }
  }, { runs: 3000, needs: [S.StopWatch] });
});
