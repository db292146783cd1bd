// NodePing, the cState page, GitHub, Slack and the services' own OpenAPI documents, behind globalThis.fetch.
const PREFIX = "https://api.nodeping.com/api/1";
const json = (body, status = 200) => new Response(JSON.stringify(body), { status, headers: { "content-type": "application/json" } });
export const world = { checks: {}, contacts: {}, docs: {}, page: undefined, log: [], fault: undefined, stuck: new Set(), dead: new Set(), n: 0, bad: [] };
export function freshWorld() { Object.assign(world, { checks: {}, contacts: {}, docs: {}, page: undefined, log: [], fault: undefined, stuck: new Set(), dead: new Set(), n: 0, bad: [] }); }
export const SECRET = { nodePingToken: "np-tökén", nodePingSubAccountId: "sub-1", nodePingContactIdSlack1: "SLACK-A", nodePingContactIdSlack2: "SLACK-B", reportUrl: "https://slack.example/hook", gitHubPat: "ghp_x" };
export const PAGE = "https://status.example", GH = { owner: "own", repo: "rep", branch: "feature/b", file: "update_status.yml", maintenance: "update_maintenance.yml" };
export const ENV = { SECRET_ID: "vt", CHECK_TIMEOUT_SECONDS: "30", INTERVAL_MINUTES: "5", GITHUB_WORKFLOW_FILE: GH.file, GITHUB_UPDATE_MAINTENANCE_WORKFLOW_FILE: GH.maintenance, GITHUB_BRANCH: GH.branch, GITHUB_OWNER: GH.owner, GITHUB_REPO: GH.repo, C_STATE_PAGE_URL: PAGE };
export const dispatchUrl = (file) => `https://api.github.com/repos/${GH.owner}/${GH.repo}/actions/workflows/${file}/dispatches`;
export function addCheck(c) { const id = `id-${++world.n}`; world.checks[id] = { _id: id, state: 1, enable: "active", ...c }; return id; }
function apply(c, b) { // what a POST or PUT of NodePing does to a check: fields not given keep their values
  const p = { ...c.parameters };
  for (const k of ["target", "method", "threshold", "sendheaders", "postdata", "contentstring", "invert", "regex", "follow"]) if (b[k] !== undefined) p[k] = b[k];
  return { ...c, ...(b.label !== undefined ? { label: b.label } : {}), ...(b.type !== undefined ? { type: b.type } : {}), ...(b.interval !== undefined ? { interval: b.interval } : {}), ...(b.notifications !== undefined ? { notifications: b.notifications } : {}), ...(b.enabled !== undefined ? { enable: b.enabled ? "active" : "inactive" } : {}), parameters: p };
}
async function serve(url, method, headers, body) {
  const f = world.fault?.(url, method); if (f) return f;
  if (url.startsWith(PREFIX)) {
    const u = new URL(url), path = u.pathname.slice("/api/1".length);
    if (method === "GET") { if (u.searchParams.get("customerid") !== SECRET.nodePingSubAccountId || headers.get("authorization") !== `Basic ${Buffer.from(SECRET.nodePingToken).toString("base64")}`) { world.bad.push(`GET ${url} without its account or token`); return json({ error: "auth" }, 403); } }
    else if (body?.token !== SECRET.nodePingToken || body?.customerid !== SECRET.nodePingSubAccountId) { world.bad.push(`${method} ${url} without its account or token`); return json({ error: "auth" }, 403); }
    if (path === "/contacts" && method === "GET") return json(world.contacts);
    if (path === "/contacts" && method === "POST") { const id = `contact-${++world.n}`; world.contacts[id] = { name: body.name, custrole: body.custrole, addresses: Object.fromEntries(body.newaddresses.map((a, i) => [`ADDR-${world.n}-${i}`, a])) }; return json(world.contacts[id]); }
    if (path === "/checks" && method === "GET") return json(world.checks);
    if (path === "/checks" && method === "POST") { const id = addCheck({}); world.checks[id] = apply(world.checks[id], body); return json(world.checks[id]); }
    if (path === "/checks" && method === "PUT" && u.searchParams.has("disableall")) {
      const off = u.searchParams.get("disableall") === "true"; let enabled = 0, disabled = 0;
      for (const c of Object.values(world.checks)) { if (off) c.enable = "inactive"; else if (!world.stuck.has(c._id)) c.enable = "active"; if (c.enable === "active") enabled++; else disabled++; }
      return json({ enabled, disabled, disableall: off ? 1 : 0 });
    }
    const id = path === "/checks" ? body.id : /^\/checks\/([^/]+)$/.exec(path)?.[1];
    if (method === "PUT" && world.checks[id]) { world.checks[id] = apply(world.checks[id], body); if (world.dead.has(id)) world.checks[id].enable = "inactive"; return json(world.checks[id]); }
  }
  if (url === `${PAGE}/index.json` && method === "GET") return json(world.page);
  if (url.startsWith("https://api.github.com/") && method === "POST") return new Response(null, { status: 204 });
  if (url === SECRET.reportUrl && method === "POST") return new Response("ok");
  if (world.docs[url] && method === "GET") return json(world.docs[url]);
  world.bad.push(`${method} ${url}`); return json({ error: "no such thing" }, 404);
}
globalThis.fetch = async (input, init) => {
  const r = input instanceof Request ? input : new Request(input, init);
  const text = await r.text(); let body; try { body = text ? JSON.parse(text) : undefined; } catch { body = text; }
  const e = { url: r.url, method: r.method, headers: r.headers, body }; world.log.push(e);
  const answer = await serve(r.url, r.method, r.headers, body); e.status = answer.status; return answer;
};
