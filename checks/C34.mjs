// C34: the services' endpoints and their NodePing checks; the report of differences to the status page.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret } from "#harness/app.mjs";
import { world, freshWorld, addCheck, SECRET, ENV, GH, PAGE, dispatchUrl } from "#harness/nodeping.mjs";
import { SecretHolder } from "#repo/lib/digitraffic-common/src/aws/runtime/secrets/secret-holder.ts";
Object.assign(secret, SECRET); Object.assign(process.env, ENV);
const { DigitrafficApi } = await import("#repo/other/status/src/api/digitraffic-api.ts");
const { NodePingApi } = await import("#repo/other/status/src/api/nodeping-api.ts");
const service = await import("#repo/other/status/src/service/status-service.ts");
const { monitoredApps } = await import("#repo/other/status/src/monitored-apps.ts");
const { handler: updateLambda } = await import("#repo/other/status/src/lambda/update-status/lambda-update-status.ts");
const { handler: reportLambda } = await import("#repo/other/status/src/lambda/check-component-states/lambda-check-component-states.ts");
const REAL = JSON.parse(JSON.stringify(monitoredApps));
const NOW = Date.UTC(2026, 10, 19, 12);
const quiet = async (f) => { const k = fakeClock(NOW, ["Date"]); try { return await f(); } finally { k.uninstall(); } };

// ---------- OpenAPI documents
const some = (v, freq) => fc.option(v, { nil: undefined, freq });
const word = fc.constantFrom("tms", "weather", "forecast", "v1", "v2", "latest", "stations", "beta", "beta-x", "{id}", "a%20b", "data.json", "x_y");
const path = fc.array(word, { minLength: 1, maxLength: 4 }).chain((a) => fc.constantFrom("/api/", "/api/", "/api/", "/").map((p) => p + a.join("/")));
const value = fc.oneof(fc.constantFrom("1", "abc", "2026-01-01T00:00:00Z", "", "a,b"), fc.array(fc.constantFrom("x", "y", "1", ""), { maxLength: 3 }));
const param = fc.record({ name: fc.constantFrom("a", "b", "from", "id"), in: fc.constantFrom("query", "query", "header"), required: fc.boolean(), schema: fc.record({ type: fc.constant("string"), default: some(value, 4) }, { requiredKeys: ["type"] }) }).map((p) => { if (p.schema.default === undefined) delete p.schema.default; return p; });
const operation = fc.record({ parameters: some(fc.array(param, { maxLength: 4 }), 3), summary: fc.constant("x") }).map((o) => { if (!o.parameters) delete o.parameters; return o; });
const item = fc.record({ get: some(operation, 7), post: some(operation, 2), head: some(operation, 2) }).map((o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v)));
const doc = fc.uniqueArray(fc.tuple(path, item), { selector: (x) => x[0], maxLength: 8 }).map((l) => ({ openapi: "3.0.1", paths: Object.fromEntries(l) }));
const callable = (p, it) => {
  if (!it.get || p.includes("{") || p.includes("beta")) return undefined;
  const req = (it.get.parameters ?? []).filter((x) => x.required), q = [];
  for (const r of req) { const d = r.schema.default; if (d === undefined || d.length === 0) return undefined; for (const v of [d].flat()) q.push(`${r.name}=${v}`); }
  return q.length ? `${p}?${q.join("&")}` : p;
};
const endpointsOf = (app, d) => (app.hasOpenApiSpec === false ? [] : Object.entries(d.paths).map(([p, it]) => callable(p, it)).filter((e) => e && !app.excluded.includes(e)).sort());

// ---------- apps
const NAMES = ["Road", "Marine", "Rail", "Parking", "Afir", "Aviation", "MCP"];
const extra = fc.record({
  name: fc.constantFrom("MQTT", "GraphQL", "Swagger UI", "is up", "beta UI", "Beta feed", "/api/ex/v1/raw", "/api/ex/v1/routes", "infra-api"), protocol: fc.constantFrom(0, 0, 0, 1), method: some(fc.constantFrom("GET", "HEAD", "POST"), 2),
  sendData: some(fc.constant('{"query": "{ x }"}'), 5), contentstring: some(fc.constantFrom("false", "101"), 4), invert: some(fc.boolean(), 2), regex: some(fc.boolean(), 2), prefixed: fc.boolean(), u: fc.nat(2),
});
const appArb = (name) => fc.record({ doc, next: fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: doc }), extras: fc.uniqueArray(extra, { selector: (e) => e.name, maxLength: 4 }), later: fc.array(extra, { maxLength: 1 }), exclude: fc.array(fc.nat(20), { maxLength: 2 }), spec: some(fc.boolean(), 3), move: fc.boolean() }).map((o) => ({ name, ...o }));
const build = (o) => {
  const host = `https://${o.name.toLowerCase()}.example`;
  const endpoints = o.extras.map(({ prefixed, u, ...e }) => ({ ...Object.fromEntries(Object.entries(e).filter(([, v]) => v !== undefined)), name: prefixed && !e.name.startsWith("/") ? `${o.name} ${e.name}` : e.name, url: `${e.protocol ? "wss" : "https"}://x.example/${o.name}/${encodeURIComponent(e.name)}/${u}` }));
  const all = Object.entries(o.doc.paths).map(([p, it]) => callable(p, it)).filter(Boolean);
  return { name: o.name, hostPart: host, url: `${host}/openapi.json`, excluded: o.exclude.map((i) => all[i % Math.max(all.length, 1)]).filter(Boolean), endpoints, ...(o.spec === undefined ? {} : { hasOpenApiSpec: o.spec }) };
};
// ---------- what a run must write
const CONTACT = `GitHub Actions for status ${GH.branch}`;
const sorted = (l) => [...l].map((x) => JSON.stringify(x, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : 1))) : v))).sort();
const note = (ids) => ids.map((id) => ({ [id]: { delay: 0, schedule: "All" } }));
const content = (e) => ({ ...(e?.sendData ? { postdata: e.sendData } : {}), ...(e?.contentstring ? { contentstring: e.contentstring, invert: e.invert ?? false, regex: e.regex ?? false } : {}) });
const sent = (e) => ({ "accept-encoding": "gzip", "digitraffic-user": "internal-digitraffic-status", ...(e?.sendData ? { "content-type": "application/json" } : {}) });
const idsFor = (label) => ["SLACK-A", "SLACK-B", ...(/beta/i.test(label) ? [] : [Object.keys(Object.values(world.contacts).find((c) => c.name === CONTACT).addresses)[0]])];
const ours = (app, label) => label.toLowerCase().includes(app.name.toLowerCase());
function planned(app, d, checks, before) { // writes of one application, given the checks as they were when its turn came
  const posts = [], puts = [], labels = checks.map((c) => c.label);
  for (const e of [...endpointsOf(app, d), ...app.endpoints.map((x) => x.name)]) {
    if (labels.includes(e) || labels.includes(`${app.name} ${e}`)) continue;
    const x = app.endpoints.find((y) => y.name === e), ws = x?.protocol === 1;
    posts.push({ label: e.includes(app.name) ? e : `${app.name} ${e}`, type: ws ? "WEBSOCKET" : "HTTPADV", target: x?.url ?? app.hostPart + e, interval: 5, threshold: 30, enabled: true, follow: true, sendheaders: sent(x), ...(ws ? {} : { method: x?.method ?? "HEAD" }), notifications: note(idsFor(e)), ...content(x) });
  }
  for (const c of checks.filter((y) => ours(app, y.label))) {
    const x = app.endpoints.find((y) => y.url === c.parameters.target || [y.name, `${app.name} ${y.name}`].some((n) => n.toLowerCase() === c.label.toLowerCase()));
    const ids = idsFor(c.label), has = c.notifications.flatMap((n) => Object.keys(n)), header = Object.entries(c.parameters.sendheaders ?? {}).find(([k]) => k.toLowerCase() === "digitraffic-user")?.[1];
    const ok = c.parameters.threshold === 30 && c.interval === 5 && (c.type !== "HTTPADV" || header === "internal-digitraffic-status") && (x?.protocol === 1 || c.parameters.method === (x?.method ?? "HEAD")) && (!x || c.parameters.target === x.url) && has.every((i) => ids.includes(i)) && ids.every((i) => has.includes(i));
    if (!ok) puts.push({ id: c._id, type: x?.protocol === 1 ? "WEBSOCKET" : "HTTPADV", target: x?.url ?? c.parameters.target, threshold: 30, method: x?.method ?? "HEAD", interval: 5, sendheaders: sent(x), notifications: note(ids), ...content(x) });
  }
  return { posts, puts };
}
const strip = (e) => { const { token, customerid, ...b } = e.body; return b; };
const clone = (v) => JSON.parse(JSON.stringify(v));
// runs the update and says what it wrote; the plan is made for each application before its turn
async function update(go, apps, docs) {
  world.log = []; world.docs = Object.fromEntries(apps.map((a, i) => [a.url, docs[i]])); const before = clone(world.checks), contactThere = Object.values(world.contacts).some((c) => c.name === CONTACT);
  const r = await quiet(() => outcome(go));
  return { r, before, contactThere, posts: world.log.filter((e) => e.method === "POST" && e.url.endsWith("/checks")), puts: world.log.filter((e) => e.method === "PUT"), contacts: world.log.filter((e) => e.method === "POST" && e.url.endsWith("/contacts")) };
}
function verify(u, apps, docs, what) {
  must(world.bad.length === 0, `${what}: request ${world.bad[0]}`); must(!("error" in u.r), `${what} fails: ${u.r.error?.message}`);
  const posts = [], puts = []; let checks = Object.values(u.before); let n = Object.keys(u.before).length;
  const after = Object.values(world.checks);
  apps.forEach((a, i) => { const p = planned(a, docs[i], checks); posts.push(...p.posts); puts.push(...p.puts); checks = [...checks.filter((c) => !p.puts.some((q) => q.id === c._id)), ...p.puts.map((q) => world.checks[q.id]), ...p.posts.map((q) => after.find((c) => c.label === q.label))]; });
  same(sorted(u.posts.map(strip)), sorted(posts), `${what}: the checks it creates`); same(sorted(u.puts.map(strip)), sorted(puts), `${what}: the checks it updates`);
  for (const e of u.puts) must(e.url === "https://api.nodeping.com/api/1/checks", `${what}: a check is updated at ${e.url}`);
  if (apps.length) {
    same(u.contacts.length, u.contactThere ? 0 : 1, `${what}: the GitHub contact is created`);
    for (const e of u.contacts) same(strip(e), { name: CONTACT, custrole: "notify", newaddresses: [{ address: dispatchUrl(GH.file), type: "webhook", action: "post", headers: { Accept: "application/vnd.github+json", "Content-Type": "application/vnd.github+json", Authorization: "token ghp_x" }, data: { ref: `refs/heads/${GH.branch}` } }] }, `${what}: the GitHub contact`);
  }
  for (const [i, a] of apps.entries()) for (const e of [...endpointsOf(a, docs[i]), ...a.endpoints.map((x) => x.name)]) {
    const c = after.filter((x) => x.label === e || x.label === `${a.name} ${e}`); must(c.length >= 1, `${what}: nothing watches ${a.name} ${e}`);
  }
  return posts.length + puts.length;
}
// ---------- things done by hand in NodePing
const tamper = fc.record({ at: fc.nat(30), how: fc.constantFrom("threshold", "interval", "header", "method", "contacts", "more", "label", "remove", "headercase", "noheaders", "target", "off") });
function meddle(t) {
  const ids = Object.keys(world.checks); if (!ids.length) return; const c = world.checks[ids[t.at % ids.length]];
  if (t.how === "remove") { delete world.checks[c._id]; return; }
  c.parameters = { ...c.parameters };
  if (t.how === "threshold") c.parameters.threshold = 29; if (t.how === "interval") c.interval = 1; if (t.how === "header") c.parameters.sendheaders = { "accept-encoding": "gzip" };
  if (t.how === "method") c.parameters.method = c.parameters.method === "GET" ? "HEAD" : "GET"; if (t.how === "contacts") c.notifications = c.notifications.slice(1); if (t.how === "more") c.notifications = [...c.notifications, { OTHER: { delay: 1, schedule: "Days" } }];
  if (t.how === "noheaders") delete c.parameters.sendheaders; if (t.how === "label") c.label = c.label.toLowerCase(); if (t.how === "headercase") c.parameters.sendheaders = { "Digitraffic-User": "internal-digitraffic-status" }; if (t.how === "target" && c.label.includes("ex/v1")) c.parameters.target += "x"; if (t.how === "off") c.enable = "inactive";
}
const BYSTANDERS = [{ label: "somebody else's", type: "HTTPADV", interval: 60, notifications: [], parameters: { target: "https://else.example", method: "GET", threshold: 1 } }];
const holder = SecretHolder.create();
const start = (o) => { freshWorld(); if (o.contact) world.contacts.c0 = { name: CONTACT, custrole: "notify", addresses: { GHA: { address: "https://x", type: "webhook" }, second: { address: "y" } } }; if (o.others) { world.contacts.c1 = { name: "ops", custrole: "notify", addresses: { OPS: { address: "a@b", type: "email" } } }; for (const b of BYSTANDERS) addCheck(clone(b)); } };
const watched = (apps) => () => service.updateComponentsAndChecks(apps, new DigitrafficApi(), new NodePingApi(holder, 25000, 30, 5), holder, GH.owner, GH.repo, GH.branch, GH.file);
// ---------- the report
const COMPONENT = fc.oneof(fc.array(fc.constantFrom("tms", "v1", "stations", "last-updated", "data", "x"), { minLength: 1, maxLength: 3 }).map((a) => ({ kind: "path", name: `/api/${a.join("/")}` })), fc.array(fc.constantFrom("swagger", "ui", "history", "data", "is", "up"), { minLength: 1, maxLength: 3 }).map((a) => ({ kind: "words", name: a.join(" ") })), fc.tuple(fc.constantFrom("infra-api", "jeti-api", "last-updated"), fc.constantFrom("", "ui", "swagger ui")).map(([a, b]) => ({ kind: "dashed", name: `${a} ${b}`.trim() })));
const norm = (k) => (k.kind === "path" ? k.name : `/${k.kind === "words" ? k.name.replaceAll(" ", "-") : k.name.replaceAll(" ", "/")}`);
const capital = (s) => s.replace(/(^| )([a-z])/g, (m, a, b) => a + b.toUpperCase());
const labelOf = (c) => { const n = c.k.kind === "path" ? c.k.name : c.style & 1 ? capital(c.k.name) : c.k.name; return (c.appless ? n : `${c.style & 2 ? c.app : c.app} ${n}`) + (c.style & 4 && c.k.kind === "path" ? "/" : ""); };
const systemOf = (c) => `${c.style & 8 ? c.app : c.app.toLowerCase()}${norm(c.k)}${c.style & 16 ? "/" : ""}`;
const component = fc.record({ app: fc.constantFrom("Road", "Marine", "Rail", "Parking", "Afir"), k: COMPONENT, appless: fc.oneof({ weight: 5, arbitrary: fc.constant(false) }, fc.constant(true)), style: fc.nat(31), beta: fc.oneof({ weight: 6, arbitrary: fc.constant(false) }, fc.constant(true)), check: fc.oneof({ weight: 6, arbitrary: fc.constantFrom(0, 1, 0, 1, null) }, fc.constant(undefined)), system: fc.oneof({ weight: 6, arbitrary: fc.constantFrom("ok", "down", "notice", "disrupted") }, fc.constant(undefined)) });

await check({
  rule: "an update is non-trivial if it writes a check; the second run of a case must write nothing. A report is non-trivial if it names a component. A name is compared as the status page writes it: lower case, words joined by dashes or, next to a name with a dash, by slashes; its service counts unless the label has none",
  assumptions: ["NodePing, the status page, GitHub and Slack are stand-ins behind fetch that keep the state they are given", "no endpoint's label contains the name of another service (such a check is updated for both), no two extra endpoints of a service have one url, and an extra endpoint's name does not occur in the OpenAPI document unless it is excluded there", "a check's posted data and expected content are not compared by the code once it exists, and not claimed"],
}, async ({ prop }) => {
  await prop("endpoints", fc.tuple(doc, fc.array(fc.nat(20), { maxLength: 3 }), some(fc.boolean(), 4)), async ([d, ex, spec]) => {
    freshWorld(); const all = Object.entries(d.paths).map(([p, it]) => callable(p, it)).filter(Boolean);
    const app = { name: "Road", hostPart: "https://h", url: "https://h/openapi.json", excluded: ex.map((i) => all[i % Math.max(1, all.length)]).filter(Boolean), endpoints: [{ name: "X", url: "https://x", protocol: 0 }], ...(spec === undefined ? {} : { hasOpenApiSpec: spec }) };
    world.docs = { [app.url]: d }; const r = await quiet(() => outcome(() => new DigitrafficApi().getAppWithEndpoints(app)));
    must(!("error" in r), `fails: ${r.error?.message}`); same([...r.value.endpoints].sort(), endpointsOf(app, d), "the endpoints of the document that can be called"); same([r.value.app, r.value.hostPart, r.value.extraEndpoints], ["Road", "https://h", app.endpoints], "the application's own");
    same(world.log.length, spec === false ? 0 : 1, "requests"); return r.value.endpoints.length > 0 && (r.value.endpoints.some((e) => e.includes("?")) ? "with a query" : "plain");
  }, { runs: 800, needs: [DigitrafficApi.prototype.getAppWithEndpoints] });

  const history = fc.uniqueArray(fc.constantFrom(...NAMES), { minLength: 1, maxLength: 3 }).chain((names) => fc.record({ apps: fc.tuple(...names.map(appArb)), contact: fc.boolean(), others: fc.boolean(), meddling: fc.array(tamper, { maxLength: 4 }), again: fc.array(tamper, { maxLength: 3 }), failAt: some(fc.nat(12), 3), status: fc.constantFrom(400, 401, 404, 409) }));
  await prop("checks", history, async (o) => {
    start(o); let docs = o.apps.map((a) => a.doc), apps = o.apps.map(build), wrote = 0;
    // an extra endpoint is not in the document
    apps.forEach((a, i) => { for (const x of a.endpoints) if (endpointsOf(a, docs[i]).includes(x.name)) a.excluded.push(x.name); });
    const step = async (what) => { const u = await update(watched(apps), apps, docs); const n = verify(u, apps, docs, what); wrote += n; return n; };
    if (o.failAt !== undefined) { // a request of the first run is refused: what it wrote stays, the next run does the rest
      let n = 0; world.fault = (url, m) => (m !== "GET" && n++ === o.failAt ? new Response("no", { status: o.status }) : undefined);
      const u = await update(watched(apps), apps, docs); world.fault = undefined; if (n > o.failAt) must("error" in u.r, "an update that NodePing refused passes as done");
      must(world.bad.length === 0, world.bad[0]);
    }
    await step("the first run");
    same(await step("the second run"), 0, "writes of a second run of an unchanged world");
    const gone = world.stay; for (const t of o.meddling) meddle(t);
    await step("after changes made by hand"); same(await step("once more"), 0, "writes of a run after the repair");
    docs = o.apps.map((a) => a.next ?? a.doc); if (o.apps.some((a) => a.move)) apps = apps.map((a, i) => (o.apps[i].move ? { ...a, endpoints: a.endpoints.map((e) => ({ ...e, url: `${e.url}/moved` })) } : a));
    apps.forEach((a, i) => { for (const x of a.endpoints) if (endpointsOf(a, docs[i]).includes(x.name)) a.excluded = [...a.excluded, x.name]; });
    for (const t of o.again) meddle(t);
    await step("after a release"); same(await step("at last"), 0, "writes of a run after a release");
    for (const c of Object.values(world.checks).filter((x) => x.label === BYSTANDERS[0].label)) { const { _id, state, enable, ...rest } = c; if (!o.meddling.length && !o.again.length) same(rest, BYSTANDERS[0], "somebody else's check"); }
    return wrote > 0 && (o.failAt === undefined ? "undisturbed" : "with a refused request");
  }, { runs: 250, thorough: 1500, needs: [service.updateComponentsAndChecks, service.updateChecks, NodePingApi.prototype.checkNeedsUpdate] });

  await prop("the configured services", fc.record({ docs: fc.array(doc, { minLength: 5, maxLength: 5 }), contact: fc.boolean(), others: fc.boolean(), meddling: fc.array(tamper, { maxLength: 5 }) }), async (o) => {
    start(o); const docs = REAL.map((a, i) => ({ ...o.docs[i % o.docs.length], paths: Object.fromEntries(Object.entries(o.docs[i % o.docs.length].paths).map(([p, v]) => [p, v])) }));
    for (const what of ["the first run", "the second run"]) { const u = await update(updateLambda, REAL, docs); const n = verify(u, REAL, docs, what); if (what === "the second run") same(n, 0, "writes of a second run"); }
    for (const t of o.meddling) meddle(t);
    verify(await update(updateLambda, REAL, docs), REAL, docs, "after changes made by hand");
    same(clone(monitoredApps), REAL, "the configuration itself"); return o.meddling.length ? "changed by hand" : "unchanged";
  }, { runs: 60, thorough: 400, needs: [updateLambda] });

  await prop("report", fc.record({ list: fc.uniqueArray(component, { maxLength: 7, selector: (c) => `${c.app}${norm(c.k)}` }), maintenance: some(fc.integer({ min: -3, max: 3 }), 3), slack: fc.oneof({ weight: 8, arbitrary: fc.constant(200) }, fc.constant(404)) }), async (o) => {
    freshWorld(); const appless = new Set(o.list.filter((c) => c.appless && c.check !== undefined).map((c) => norm(c.k)));
    const list = o.list.filter((c) => !appless.has(norm(c.k)) || o.list.find((d) => norm(d.k) === norm(c.k)) === c).map((c) => ({ ...c, label: labelOf(c) + (c.beta ? " beta" : ""), sys: systemOf(c) }));
    for (const c of list.filter((x) => x.beta)) { if (c.k.kind === "path") { c.label = `${c.app} /api/beta${c.k.name}`; c.sys = `${c.app.toLowerCase()}/api/beta${c.k.name}`; } else c.beta = false, c.label = labelOf(c); }
    for (const c of list) if (c.check !== undefined) addCheck({ label: c.label, state: c.check ?? undefined, type: "HTTPADV" });
    const iso = (t) => new Date(t).toISOString().replace("T", " ").replace("Z", "456 +0000 UTC");
    world.page = { baseURL: PAGE, pinnedIssues: o.maintenance === undefined ? [] : [{ is: "issue", title: "m", createdAt: iso(NOW + o.maintenance * 60000), lastMod: iso(NOW), permalink: `${PAGE}/issues/digitraffic-maintenance/x/`, affected: [], filename: "x.md" }], systems: list.filter((c) => c.system).map((c) => ({ name: c.sys, status: c.system, category: c.app, description: "" })) };
    if (o.slack !== 200) world.fault = (url) => (url === SECRET.reportUrl ? new Response("gone", { status: o.slack }) : undefined);
    const r = await quiet(() => outcome(() => reportLambda())); must(!("error" in r), `fails: ${r.error?.message}`); must(world.bad.length === 0, world.bad[0]);
    const on = o.maintenance !== undefined && o.maintenance < 1, lines = [];
    for (const c of list) {
      if (c.check !== undefined && !c.system && !c.beta) lines.push(`${c.label}: cState Statuspage system missing`);
      if (c.check === undefined && c.system) lines.push(`${c.sys}: NodePing check missing`);
      if (!on && c.check === 1 && c.system === "down") lines.push(`${c.sys}: NodePing check is UP, cState statuspage component is DOWN`);
      if (!on && c.check === 0 && c.system && c.system !== "down") lines.push(`${c.sys}: NodePing check is DOWN, cState statuspage component is UP`);
    }
    const sent = world.log.filter((e) => e.url === SECRET.reportUrl);
    same(sent.flatMap((e) => e.body.text.split("\n")).sort(), lines.sort(), "the lines reported"); same(sent.length, lines.length ? 1 : 0, "messages"); same(world.log.filter((e) => e.method !== "GET" && e.url !== SECRET.reportUrl).length, 0, "writes of a report");
    return lines.length > 0 && (on ? "during maintenance" : "otherwise");
  }, { runs: 800, needs: [reportLambda, service.getNodePingAndStatuspageComponentNotInSyncStatuses] });
});
