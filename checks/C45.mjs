// C45: the lights of a fairway area are brightened once for a moving ship, and again only when they go out.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
const { handler } = await import("#repo/marine/shiplight/src/lambda/update-lights/update-lights.ts");
const schema = `create table areatraffic(id integer primary key, name text not null, brighten_duration_min integer not null, brighten_sent integer, brighten_end integer, geometry text not null);
create table vessel(mmsi integer primary key, name text);
create table vessel_location(mmsi integer primary key, x real not null, y real not null, sog real, timestamp_ext integer not null);`;
let nowMs = Date.UTC(2026, 10, 12, 13, 14, 15), web;
const pg = await new PgLite({ schema, ints: true, now: () => nowMs, functions: { st_makepoint: (x, y) => JSON.stringify([Number(x), Number(y)]), st_intersects: (g, p) => { const [x1, y1, x2, y2] = JSON.parse(g), [x, y] = JSON.parse(p); return x >= x1 && x <= x2 && y >= y1 && y <= y2 ? 1 : 0; }, to_timestamp: (s) => Number(s) * 1000 }, types: { brighten_sent: "ts", brighten_end: "ts" } }).start();
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host, "shiplight.visibilityEndpointUrl": "https://vis.example/v", "shiplight.visibilityApiKey": "visKey", "shiplight.lightsControlEndpointUrl": "https://lights.example/set", "shiplight.lightsControlApiKey": "lightKey" });
globalThis.fetch = async (req, init) => web(req instanceof Request ? req : new Request(req, init));
const quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v);
const AREAS = [[20, 60, 21, 61], [20.5, 60.5, 22, 62], [25, 65, 25, 65]], NAMES = ["Äijä", "B'ship", "aurora", "Zeta \"9\""], MIN = 60e3;
const move = fc.record({ ship: fc.nat(3), x: fc.constantFrom(20, 20.75, 21.5, 25, 30), y: fc.constantFrom(60, 60.75, 61.5, 65), sog: fc.constantFrom(0, 2, 2.1, 8, 12.5, 102.2, 102.3), age: fc.constantFrom(0, 1000, 119000, 119999, 120000, 120999, 121000, 500000) });

await check({
  rule: "a history is non-trivial if lights are brightened, and a request fails or an area is left as it was",
  assumptions: ["PostgreSQL and PostGIS are emulated as far as the statements need", "the age of a position is counted in whole seconds, as the statement does; ages between 120 and 121 s are left out", "a request answered by no answer at all may have been obeyed"],
}, async ({ prop }) => {
  await prop("runs", fc.record({ durations: fc.array(fc.integer({ min: 1, max: 30 }), { minLength: 3, maxLength: 3 }), runs: fc.array(fc.record({ wait: fc.oneof(fc.constantFrom(1000, 60e3, 59e3), fc.nat(20).map((m) => m * MIN)), edge: rare(fc.tuple(fc.nat(2), fc.constantFrom(-1, 0, 1)), 2), moves: fc.array(move, { maxLength: 4 }), visibility: fc.oneof(fc.integer({ min: 0, max: 50000 }), fc.constantFrom(0, 1), fc.constantFrom(404, "text", "nothing").map((how) => ({ how }))), lights: rare(fc.tuple(fc.nat(2), fc.integer({ min: 1, max: 4 }), fc.constantFrom(400, 403, "text", "shape")), 2), failed: fc.array(fc.nat(99), { maxLength: 2 }), breaks: rare(fc.constantFrom("update", "select"), 8) }), { minLength: 1, maxLength: 7, size: "max" }) }), async (o) => {
    pg.fresh(); AREAS.forEach((g, i) => pg.insert("areatraffic", { id: i + 1, name: `alue ${i >> 1}`, brighten_duration_min: o.durations[i], geometry: JSON.stringify(g) })); NAMES.forEach((n, i) => pg.insert("vessel", { mmsi: 230000001 + i, name: n })); let lit = 0, left = 0;
    const state = () => pg.rows("select id, brighten_sent s, brighten_end e from areatraffic order by id");
    for (const run of o.runs) {
      nowMs += run.wait; const was = state(); if (run.edge && was[run.edge[0]].e !== null) nowMs = Math.max(nowMs, Number(was[run.edge[0]].e) - MIN + run.edge[1]);
      for (const m of run.moves) { if (m.age > 119999 && m.age < 121000) continue; pg.rows("delete from vessel_location where mmsi = ?", 230000001 + m.ship); pg.insert("vessel_location", { mmsi: 230000001 + m.ship, x: m.x, y: m.y, sog: m.sog, timestamp_ext: nowMs - m.age }); }
      const ships = pg.rows("select * from vessel_location"); if (ships.some((s) => { const age = nowMs - Number(s.timestamp_ext); return age >= 119000 && age <= 121000; }) && nowMs % 1000) nowMs += 0;
      const unsure = ships.some((s) => { const age = nowMs - Number(s.timestamp_ext); return age > 119000 && age < 121000; }); if (unsure) nowMs += 3000;
      const near = (i) => ships.filter((s) => nowMs - Number(s.timestamp_ext) <= 120000 && s.sog > 2 && s.sog !== 102.3 && s.x >= AREAS[i][0] && s.x <= AREAS[i][2] && s.y >= AREAS[i][1] && s.y <= AREAS[i][3]).map((s) => Number(s.mmsi) - 230000001);
      const want = [0, 1, 2].filter((i) => near(i).length && (was[i].e === null || Number(was[i].e) < nowMs + MIN)), posts = [], visits = []; let hit = 0, n = 0;
      web = async (req) => {
        if (req.url.startsWith("https://vis.example/")) { same([req.method, req.url, req.headers.get("token")], ["GET", "https://vis.example/v/vaylavisi139", "visKey"], "the question of the visibility"); visits.push(1); const v = run.visibility; return typeof v === "number" ? Response.json({ lastUpdated: "2026-01-01T00:00:00Z", visibilityInMeters: v }) : v.how === 404 ? new Response("no", { status: 404 }) : v.how === "text" ? new Response("<html>") : Response.json({}); }
        same([req.method, req.url, req.headers.get("x-api-key")], ["POST", "https://lights.example/set", "lightKey"], "the request of lights"); const body = JSON.parse(await req.text()), i = body.routeId - 1; posts.push(body);
        if (run.lights?.[0] === i && posts.filter((p) => p.routeId === body.routeId).length <= run.lights[1]) { const how = run.lights[2]; return how === "text" ? new Response("<html>") : how === "shape" ? Response.json({}) : new Response("no", { status: how }); }
        return Response.json({ LightsSetSentSuccessfully: [1], LightsSetSentFailed: run.failed });
      };
      if (run.breaks) pg.fault = (sql) => { if (hit || !new RegExp(`^\\s*${run.breaks}`, "i").test(sql) || !/areatraffic/i.test(sql)) return undefined; hit++; return { code: "57P01", message: "terminating" }; };
      const r = await quietly(() => handler()); pg.fault = undefined; if (!pg.settled) return false;
      if (hit && run.breaks === "select") { must("error" in r, "a run that could not read the areas is not reported"); same(posts.length, 0, "requests of a run that could not read the areas"); same(state(), was, "the areas after it"); left++; continue; }
      must(!("error" in r), `a run fails: ${r.error?.message}`); const now = state(); let broken = 0;
      for (const i of [0, 1, 2]) {
        const sent = posts.filter((p) => p.routeId === i + 1), fails = run.lights?.[0] === i ? run.lights[1] : 0; if (!want.includes(i)) { same(sent.length, 0, `requests for area ${i + 1}, which needs no light`); same(now[i], was[i], `area ${i + 1}, which needs no light`); left++; continue; }
        const done = fails <= 2; same(sent.length, done ? fails + 1 : 3, `requests for area ${i + 1}`); const first = near(i).sort((a, b) => (NAMES[a] < NAMES[b] ? -1 : 1));
        for (const p of sent) { const ship = NAMES.indexOf(p.shipName); must(near(i).includes(ship), `the ship of area ${i + 1} is ${p.shipName}, not one of ${near(i).map((x) => NAMES[x])}`); same(p, { routeId: i + 1, visibility: typeof run.visibility === "number" ? run.visibility : null, time: o.durations[i], MMSI: String(230000001 + ship), shipName: NAMES[ship] }, `the request for area ${i + 1}`); }
        // a statement that fails touches one area only
        if (done && run.breaks === "update" && hit && now[i].s === was[i].s && now[i].e === was[i].e && !broken++) { left++; continue; }
        if (done) { same(now[i], { id: i + 1, s: nowMs, e: nowMs + o.durations[i] * MIN }, `the times of area ${i + 1}`); lit++; } else { same(now[i], was[i], `area ${i + 1}, whose request failed`); left++; }
      }
    }
    return lit > 0 && left > 0 && (lit > 3 ? "many" : "some");
  }, { runs: 400, thorough: 4000, needs: [handler] });
});
