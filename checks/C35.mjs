// C35: maintenance of the services: NodePing's checks are off while the status page says so, and only then.
import { check, fc, must, same, show, outcome, fakeClock, capture } from "#harness";
import { secret, secretFault } from "#harness/app.mjs";
import { world, freshWorld, addCheck, SECRET, ENV, GH, PAGE, dispatchUrl } from "#harness/nodeping.mjs";
Object.assign(secret, SECRET); Object.assign(process.env, ENV);
const { handler } = await import("#repo/other/status/src/lambda/handle-maintenance/lambda-handle-maintenance.ts");
const { handler: testSlack } = await import("#repo/other/status/src/lambda/test-slack-notify/lambda-test-slack-notify.ts");
const { handleMaintenance } = await import("#repo/other/status/src/service/maintenance-service.ts");
const { CStateStatuspageApi } = await import("#repo/other/status/src/api/cstate-statuspage-api.ts");
const { NodePingApi } = await import("#repo/other/status/src/api/nodeping-api.ts");
const NOW = Date.UTC(2026, 1, 28, 23, 50);
const some = (v, freq) => fc.option(v, { nil: undefined, freq });
// Go's time.String()
const go = (ms, digits) => { const s = new Date(ms).toISOString(); const f = digits ? "." + (s.slice(20, 23) + "671186").slice(0, digits) : ""; return `${s.slice(0, 10)} ${s.slice(11, 19)}${f} +0000 UTC`; };
const cut = (ms, digits) => (digits >= 3 ? ms : ms - (ms % 10 ** (3 - digits))); // what the text still says
const issue = fc.record({ kind: fc.oneof({ weight: 4, arbitrary: fc.constant("digitraffic-maintenance") }, fc.constantFrom("digitraffic-incident", "maintenance", "digitraffic-maintenance-notes")), starts: fc.oneof(fc.integer({ min: -200, max: 200 }).map((n) => n * 60000), fc.integer({ min: 59000, max: 61000 }), fc.constantFrom(60000, 59999, 60001, 0, 1000)), digits: fc.constantFrom(0, 1, 3, 6, 9, 6), name: fc.constantFrom("a", "b", "2026-03-01-break") });
const toIssue = (i) => ({ is: "issue", title: `Break ${i.name}`, createdAt: go(NOW + i.starts, i.digits), lastMod: go(NOW, 6), permalink: `${PAGE}/issues/${i.kind}/${i.name}/`, affected: ["Road"], filename: `${i.name}.md` });
const at = (i) => cut(NOW + i.starts, i.digits);
const active = (issues, now) => issues.find((i) => i.kind === "digitraffic-maintenance" && at(i) < now + 60000);
const step = fc.record({ minutes: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 3 }) }, fc.integer({ min: 0, max: 200 })), issues: some(fc.array(issue, { maxLength: 3 }), 2), fault: some(fc.record({ what: fc.constantFrom("page", "checks", "switch", "one", "dispatch", "slack", "page is html"), status: fc.constantFrom(400, 403, 404, 409) }), 3), stuck: some(fc.array(fc.nat(6), { maxLength: 2 }), 3), dead: some(fc.array(fc.nat(6), { maxLength: 1 }), 3), hand: some(fc.tuple(fc.nat(6), fc.boolean()), 3), added: fc.oneof({ weight: 5, arbitrary: fc.constant(false) }, fc.constant(true)) });
const urls = { page: (u) => u === `${PAGE}/index.json`, checks: (u, m) => u.includes("/checks?customerid"), switch: (u, m) => m === "PUT" && u.includes("disableall"), one: (u, m) => m === "PUT" && /\/checks\/./.test(u), dispatch: (u) => u.startsWith("https://api.github.com"), slack: (u) => u === SECRET.reportUrl };
const enabled = () => Object.values(world.checks).filter((c) => c.enable === "active");

await check({
  rule: "a run is non-trivial if it writes something to NodePing; the state after every successful run and the requests of every run are compared with the model's",
  assumptions: ["NodePing, the status page, GitHub and Slack are stand-ins behind fetch that keep the state they are given", "the status page writes its times in UTC, as its format in the code's comments says", "a GitHub dispatch that is refused after the checks were switched off is not repeated by a later run: the next run sees nothing to switch; not claimed either way"],
}, async ({ prop }) => {
  await prop("runs", fc.record({ n: fc.integer({ min: 0, max: 6 }), off: fc.array(fc.nat(6), { maxLength: 4 }), steps: fc.array(step, { minLength: 1, maxLength: 7 }) }), async (o) => {
    freshWorld(); const clock = fakeClock(NOW, ["Date"]); let issues = [], now = NOW, wrote = 0, faults = 0;
    try {
      for (let i = 0; i < o.n; i++) addCheck({ label: `Road /api/${i}`, type: "HTTPADV", state: (i + o.n) % 2, parameters: {}, enable: o.off.includes(i) ? "inactive" : "active" });
      for (const s of o.steps) {
        now += s.minutes * 60000; clock.setSystemTime(now); if (s.issues) issues = s.issues;
        if (s.added) addCheck({ label: `Rail /api/${world.n}`, type: "HTTPADV", parameters: {}, enable: "active" });
        const ids = Object.keys(world.checks); world.stuck = new Set((s.stuck ?? []).map((i) => ids[i])); world.dead = new Set((s.dead ?? []).map((i) => ids[i])); for (const d of world.dead) world.stuck.add(d);
        if (s.hand && ids[s.hand[0]]) world.checks[ids[s.hand[0]]].enable = s.hand[1] ? "active" : "inactive";
        world.page = { baseURL: `${PAGE}/`, pinnedIssues: issues.map(toIssue), systems: [] };
        const f = s.fault; world.fault = f && urls[f.what] ? (u, m) => (urls[f.what](u, m) ? new Response("refused", { status: f.status }) : undefined) : f?.what === "page is html" ? (u) => (urls.page(u) ? new Response("<html>", { headers: { "content-type": "text/html" } }) : undefined) : undefined;
        world.log = []; const before = JSON.stringify(world.checks), on = enabled().length, off = ids.length - on, a = active(issues, now);
        const r = await outcome(handler); world.fault = undefined;
        must(world.bad.length === 0, `request ${world.bad[0]}`);
        const writes = world.log.filter((e) => e.method !== "GET"), switches = writes.filter((e) => e.url.includes("disableall")), singles = writes.filter((e) => e.method === "PUT" && !e.url.includes("disableall")), dispatches = writes.filter((e) => e.url.startsWith("https://api.github.com")), messages = writes.filter((e) => e.url === SECRET.reportUrl);
        const reached = { page: true, "page is html": true, checks: true, switch: a ? on > 0 : off > 0, one: !a && off > 0 && singles.length > 0, dispatch: a && on > 0, slack: false };
        const fails = f && reached[f.what]; const where = `at ${new Date(now).toISOString()} with ${on} checks on and ${off} off, ${a ? "in maintenance" : "no maintenance"}${f ? `, ${f.what} fails` : ""}`;
        must("error" in r === !!fails, `the run ${"error" in r ? `fails: ${r.error?.message}` : "passes"} ${where}`);
        if (fails && ["page", "page is html", "checks", "switch"].includes(f.what)) { same(JSON.stringify(world.checks), before, `checks ${where}`); same(dispatches.length + messages.length, 0, `dispatches and messages ${where}`); faults++; continue; }
        if (a) {
          same(switches.map((e) => e.url.slice(-15)), on ? ["disableall=true"] : [], `switches ${where}`); same(enabled().length, 0, `checks still on ${where}`); same(singles.length, 0, `checks written one by one ${where}`);
          same(dispatches.map((e) => [e.url, e.body, e.headers.get("authorization"), e.headers.get("accept")]), on ? [[dispatchUrl(GH.maintenance), { ref: `refs/heads/${GH.branch}`, inputs: { baseUrl: `${PAGE}/`, permalink: toIssue(a).permalink } }, "token ghp_x", "application/vnd.github+json"]] : [], `dispatches ${where}`);
          same(messages.length, on && f?.what !== "dispatch" ? 1 : 0, `messages ${where}`); for (const m of messages) must(m.body.text.includes(`disabled ${on} `), `the message says ${m.body.text} ${where}`);
        } else {
          same(switches.map((e) => e.url.slice(-16)), off ? ["disableall=false"] : [], `switches ${where}`); same(dispatches.length, 0, `dispatches ${where}`);
          if (!fails) same(Object.values(world.checks).filter((c) => c.enable !== "active").map((c) => c._id).sort(), Object.values(JSON.parse(before)).filter((c) => world.dead.has(c._id) && (off > 0) && c.enable !== "active").map((c) => c._id).sort(), `checks still off ${where}`);
          same(singles.map((e) => [e.url.split("/").at(-1), e.body.enabled]).sort(), Object.values(JSON.parse(before)).filter((c) => c.enable !== "active" && world.stuck.has(c._id)).map((c) => [c._id, true]).sort().slice(0, fails ? 1 : 99), `checks written one by one ${where}`);
          same(messages.length, off && !fails ? 1 : 0, `messages ${where}`);
          const left = Object.values(world.checks).filter((c) => c.enable !== "active");
          for (const m of messages) { must(m.body.text.includes(`Enabled ${off} `), `the message says ${m.body.text} ${where}`); must(m.body.text.includes("inactive") === left.length > 0 && left.every((c) => m.body.text.includes(c.label)), `the message says ${m.body.text}, ${left.length} are off ${where}`); }
        }
        const changed = (x) => Object.values(x).map(({ enable, ...c }) => c); same(changed(world.checks), changed(JSON.parse(before)), `the rest of the checks ${where}`);
        wrote += switches.length; if (fails) faults++;
        if (!fails && (a || !world.dead.size)) { world.log = []; const again = await outcome(handler); must(!("error" in again), "a second run fails"); same(world.log.filter((e) => e.method !== "GET").length, 0, `writes of a second run ${where}`); }
      }
    } finally { clock.uninstall(); }
    return wrote > 0 && (faults ? "with failures" : "undisturbed");
  }, { runs: 600, thorough: 4000, needs: [handler, handleMaintenance, CStateStatuspageApi.prototype.findActiveMaintenance, CStateStatuspageApi.prototype.triggerUpdateMaintenanceGithubAction] });
});
