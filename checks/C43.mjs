// C43: marine cameras: images are fetched and kept by camera, and shown only to those with the right to them.
import fs from "node:fs";
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import { javaStrings, escapeJavaScript } from "#harness/vtl.mjs";
import { parseString } from "#stub/xml2js.mjs";
import velocity from "velocityjs";
import { App } from "aws-cdk-lib";
import { S3Client } from "@aws-sdk/client-s3";
for (const n of ["authorizer", "get-metadata", "list-cameras", "update-images"]) { fs.mkdirSync(`dist/lambda/${n}`, { recursive: true }); fs.writeFileSync(`dist/lambda/${n}/${n}.js`, "exports.handler=()=>{}"); }
Object.assign(process.env, { BUCKET_NAME: "cam-bucket", USERPOOL_ID: "eu-west-1_pool", POOLCLIENT_ID: "client" });
let web, cognito; const parse = (t) => new Promise((res, rej) => parseString(t, (e, r) => (e ? rej(e) : res(r)))), later = () => new Promise((r) => setImmediate(r));
class Agent { constructor(o) { this.o = o; } compose() { return this; } close() { return Promise.resolve(); } destroy() { return Promise.resolve(); } }
globalThis.__stubs = { ...globalThis.__stubs, undici: { Agent, interceptors: { retry: () => (d) => d }, request: async (url, o) => { await later(); return web(String(url), o); } },
  "amazon-cognito-identity-js": { CognitoUserPool: class { constructor(d) { this.d = d; } }, AuthenticationDetails: class { constructor(d) { this.d = d; } }, CognitoUser: class { constructor(d) { this.d = d; } authenticateUser(a, cb) { return cognito.authenticate(this.d, a.d, cb, this); } completeNewPasswordChallenge(pw, attrs, cb) { return cognito.change(this.d, pw, cb); } } } };
const { handler: update } = await import("#repo/marine/marinecam/src/lambda/update-images/update-images.ts");
const { handler: update1 } = await import("#repo/marine/marinecam/src/lambda/update-images/update-images.ts?1");
const { handler: update2 } = await import("#repo/marine/marinecam/src/lambda/update-images/update-images.ts?2");
const LOGINS = [["user", "pass", update], ["k\"ä'<&>", "p&x&amp;w\"", update1], ["<x/>", "a b\\$1&", update2]]; // each reads its secret once
const { handler: authorize } = await import("#repo/marine/marinecam/src/lambda/authorizer/authorizer.ts");
const { handler: list } = await import("#repo/marine/marinecam/src/lambda/list-cameras/list-cameras.ts");
const { handler: metadata } = await import("#repo/marine/marinecam/src/lambda/get-metadata/get-metadata.ts");
const { MarinecamStack } = await import("#repo/marine/marinecam/src/marinecam-stack.ts");
const schema = "create table camera(id text primary key, name text not null, camera_group_id text not null, last_updated integer, location text not null);";
let nowMs = Date.UTC(2026, 3, 5, 6, 7, 8); const point = (i) => (p) => (p == null ? null : Number(/\((\S+) (\S+)\)/.exec(p)[i]));
const pg = await new PgLite({ schema, ints: true, now: () => nowMs, functions: { st_x: point(1), st_y: point(2) }, types: { last_updated: "ts", lat: "float", long: "float" } }).start();
useDatabase(pg);
const quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v), iso = (ms) => new Date(ms).toISOString();
const GROUPS = ["Saimaa", "Vuosaari", "Kotka"], camId = (i) => `1305f095-${4000 + i}-4f16-bbcf-b4a7a2a38ab${i.toString(16)}`;
const at = (r) => ({ id: r.id, name: r.name, cameraGroupId: r.group, lastUpdated: r.last === null ? null : iso(r.last), latitude: r.y, longitude: r.x });
const cameraArb = fc.record({ i: fc.nat(31), group: fc.constantFrom("Saimaa", "Saimaa", "Saimaa", ...GROUPS), last: fc.oneof(fc.constant(null), fc.nat(1e6)), x: fc.integer({ min: 20, max: 30 }).map((x) => x + 0.5), y: fc.integer({ min: 59, max: 69 }).map((x) => x + 0.25) });
const cameras = (list) => list.map((c) => ({ id: camId(c.i), name: `Kamera ${c.i} 'ö"`, group: c.group, last: c.last === null ? null : nowMs - 1e7 - c.last, x: c.x, y: c.y }));
const store = (list) => { pg.fresh(); for (const c of list) pg.insert("camera", { id: c.id, name: c.name, camera_group_id: c.group, last_updated: c.last ?? undefined, location: `POINT(${c.x} ${c.y})` }); };

// ---------- the camera server: commands as XML, frames as binary
const cmdName = { RequestStream: 1, ChangeStream: 2, Frame: 3, CloseStream: 4, Store: 5 };
function serverOf({ user, password, host, frames, fail, connection }) {
  const s = { connected: false, loggedIn: false, left: false, seqs: [], streams: new Map(), open: 0, most: 0, closed: [], opened: 0, times: [] };
  s.handle = async (url, o) => {
    const answer = (statusCode, data) => ({ statusCode, headers: {}, body: { text: async () => data.toString(), json: async () => JSON.parse(data.toString()), arrayBuffer: async () => { const b = Buffer.from(data); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); } } });
    const ok = (name, params = {}, extra = "") => answer(200, `<?xml version="1.0"?><Communication><Command SequenceId="1"><Type>Response</Type><Name>${name}</Name><Result>OK</Result><OutputParams>${Object.entries(params).map(([k, v]) => `<Param Name="${k}" Value="${v}"/>`).join("")}</OutputParams>${extra}</Command></Communication>`);
    const broken = (how, name) => { if (how === "network") throw Object.assign(new Error("reset"), { code: "ECONNRESET" }); return typeof how === "number" ? answer(how, `<html><body>${"The service is unavailable. ".repeat(2000)}</body></html>`) : how === "error" ? answer(200, `<Communication><Command><Name>${name}</Name><Result>Error</Result><ErrorCode>21</ErrorCode></Command></Communication>`) : answer(200, "<a><b></a>"); };
    same([o?.method, o?.headers?.host], ["POST", host], `the request to ${url}`);
    const video = /^https:\/\/cams\.example\/Video\/(.*)$/.exec(url);
    if (video) { const st = s.streams.get(video[1]); must(st && st.open, `a frame is asked from the stream ${video[1]}, which is not open`); must(st.timed, "a frame is asked before the stream's time is set"); const f = fail(st.cam, "Frame"); if (f) return broken(f, "Frame"); await later(); await later(); must(st.open, `the stream of ${st.cam} is closed while a frame is fetched from it`); return answer(200, frames(st.cam)); }
    same(url, "https://cams.example/Communication", "where the command is sent"); let xml; try { xml = await parse(o.body); } catch (e) { must(false, `a command is not XML: ${e.message}\n   ${o.body}`); }
    const c = xml.Communication.Command[0], name = c.Name[0], p = Object.fromEntries((c.InputParams?.[0]?.Param ?? []).map((x) => [x.$.Name, x.$.Value]));
    same(c.Type, ["Request"], "the type of a command"); s.seqs.push(c.$.SequenceId); must(!s.left, `${name} after disconnecting`);
    if (name !== "Connect") { must(s.connected, `${name} before connecting`); same(xml.Communication.ConnectionId, [connection], `the connection of ${name}`); } if (name !== "Connect" && name !== "Login" && name !== "Disconnect") must(s.loggedIn, `${name} before logging in`);
    const known = s.streams.get(p.VideoId), f = fail(p.CameraId ?? known?.cam, name); if (f && name === "CloseStream") { known.open = false; s.open--; s.closed.push(known.cam); } if (f) { if (name === "Disconnect") s.left = true; return broken(f, name); }
    if (name === "Connect") { s.connected = true; return ok(name, { ConnectionId: connection, Other: "x" }); }
    if (name === "Login") { same([p.Username, p.Password], [user, password], "the user and the password"); s.loggedIn = true; return ok(name); }
    if (name === "Disconnect") { s.left = true; return ok(name); }
    if (name === "RequestStream") { must(p.CameraId, "a stream of no camera"); const id = `Video-${s.opened++}B`; s.streams.set(id, { cam: p.CameraId, open: true }); s.most = Math.max(s.most, ++s.open); return ok(name, { Fps: 1, VideoId: id }); }
    const st = s.streams.get(p.VideoId); must(st, `${name} of the stream ${p.VideoId}, which does not exist`);
    if (name === "ChangeStream") { same(p.Time, String(nowMs), "the time set to the stream"); st.timed = true; return ok(name); }
    if (name === "CloseStream") { must(st.open, "a stream is closed twice"); st.open = false; s.open--; s.closed.push(st.cam); return ok(name); }
    must(false, `an unknown command ${name}`);
  };
  return s;
}
const frame = (img, header) => { const b = Buffer.alloc(header + img.length, 7); b.writeUInt32LE(img.length, 28); b.writeUInt16LE(header, 32); img.copy(b, header); return b; };

await check({
  rule: "a run is non-trivial if some image is stored, a history of requests if some are let through and some are not, a list if some cameras are left out",
  assumptions: ["the camera server speaks the protocol the session implements; undici, xml2js, Cognito and PostGIS are stood in for", "API Gateway caches an authorizer's answer by its identity sources for its time to live, and gives the template the context the authorizer returned", "rights and passwords do not change during a history", "faults of the database during a run are not looked at"],
}, async ({ prop }) => {
  await prop("images", fc.record({ cams: fc.uniqueArray(cameraArb, { selector: (c) => c.i, maxLength: 26, size: "max" }), login: fc.nat(2), large: fc.constantFrom(0, 0, 0, 70000), bytes: fc.uint8Array({ minLength: 1, maxLength: 40 }), header: fc.integer({ min: 36, max: 60 }), faults: rare(fc.array(fc.tuple(fc.nat(15), fc.constantFrom("RequestStream", "ChangeStream", "Frame", "Store", "CloseStream", "empty"), fc.constantFrom(500, 404, 401, "network", "error", "xml")), { minLength: 1, maxLength: 8, size: "max" }), 1), whole: rare(fc.tuple(fc.constantFrom("Connect", "Login", "Disconnect"), fc.constantFrom(500, 404, 401, "network", "error", "xml")), 4), minutes: fc.nat(5000) }), async (o) => {
    nowMs += o.minutes * 60e3; const cams = cameras(o.cams), [user, password, run] = LOGINS[o.login]; store(cams); const image = (id) => Buffer.concat([Buffer.from([0xff, 0xd8]), Buffer.from(id), Buffer.alloc(o.large, 9), Buffer.from(o.bytes)]), host = "cams.internal";
    Object.assign(secret, { "mobile_server.url": "https://cams.example", "mobile_server.username": user, "mobile_server.password": password, "mobile_server.certificate": Buffer.from("CERT").toString("base64"), "mobile_server.ca": Buffer.from("CA").toString("base64"), "mobile_server.hostname": host });
    const faults = new Map((o.faults ?? []).map(([i, what, how]) => [cams[i % cams.length]?.id, [what, how]])), fault = (cam, what) => (faults.get(cam)?.[0] === what ? faults.get(cam)[1] : undefined);
    const s = serverOf({ user, password, host, connection: "conn-1", frames: (cam) => (faults.get(cam)?.[0] === "empty" ? frame(Buffer.alloc(0), o.header) : frame(image(cam), o.header)), fail: (cam, name) => (o.whole?.[0] === name ? o.whole[1] : cam && fault(cam, name)) });
    const puts = new Map(); let wrong; web = async (u, q) => { try { return await s.handle(u, q); } catch (e) { if (e.constructor.name === "Violation") wrong ??= e; throw e; } };
    S3Client.prototype.send = async (cmd) => { const i = cmd.input; await later(); const cam = /^images\/Saimaa\/(.*)\.jpg$/.exec(i?.Key ?? "")?.[1]; if (!cam || i.Bucket !== "cam-bucket" || i.ContentType !== "image/jpeg") { wrong ??= new Error(`stored ${show({ ...i, Body: undefined })}`); return {}; } if (fault(cam, "Store")) throw new Error("SlowDown"); puts.set(cam, Buffer.from(i.Body)); return {}; };
    await quietly(() => run()); if (wrong) throw wrong.constructor.name === "Violation" ? wrong : (must(false, wrong.message), wrong); if (!pg.settled) return false;
    const dead = o.whole && o.whole[0] !== "Disconnect", rows = new Map(pg.rows("select id, last_updated t from camera").map((r) => [r.id, Number(r.t ?? 0)]));
    if (!dead) must(s.left, "the session is not disconnected"); same(new Set(s.seqs).size, s.seqs.length, "commands with the same number"); must(s.most <= 5, `${s.most} streams are open at once`);
    for (const st of s.streams.values()) must(!st.open, `the stream of ${st.cam} is left open`);
    for (const c of cams) {
      const f = faults.get(c.id)?.[0], wants = !dead && c.group === "Saimaa" && !["RequestStream", "ChangeStream", "Frame", "Store", "empty"].includes(f), t = rows.get(c.id), before = c.last ?? 0;
      if (wants && f !== "CloseStream") must(puts.has(c.id), `the image of camera ${c.id} is not stored`);
      if (puts.has(c.id)) { must(wants, `an image of ${c.id} is stored`); must(puts.get(c.id).equals(image(c.id)), () => `the image of ${c.id}: ${puts.get(c.id).toString("hex").slice(0, 300)}`); }
      same(t, puts.has(c.id) ? nowMs : before, `the time of camera ${c.id} (${puts.has(c.id) ? "stored" : "not stored"})`);
    }
    return puts.size > 0 && (puts.size > 4 ? "many" : o.faults ? "faults" : "few");
  }, { runs: 300, thorough: 3000, needs: [update] });

  // ---------- the restricted API as deployed
  const app = new App(), stack = new MarinecamStack(app, "Marinecam", { shortName: "mc", secretId: "s", production: false, trafficType: "Marine", alarmTopicArn: "a", warningTopicArn: "w", stackProps: { env: { region: "eu-west-1", account: "1" } }, vpcId: "v", lambdaDbSgId: "sg", logsDestinationArn: "arn:aws:logs:eu-west-1:1:destination:d", privateSubnetIds: ["a"], availabilityZones: ["b"], enablePasswordProtectedApi: true, enableKeyProtectedApi: true, stackFeatures: { enableCanaries: false, enableDocumentation: false } });
  const res = stack.resolve(stack._toCloudFormation()).Resources, of = (type) => Object.entries(res).filter(([, r]) => r.Type === type).map(([id, r]) => ({ id, ...r.Properties }));
  const parts = Object.fromEntries(of("AWS::ApiGateway::Resource").map((r) => [r.id, r])), pathOf = (ref) => { const r = parts[ref?.Ref]; return r ? `${pathOf(r.ParentId)}/${r.PathPart}` : ""; };
  const methods = of("AWS::ApiGateway::Method").filter((m) => m.HttpMethod !== "OPTIONS").map((m) => ({ ...m, path: pathOf(m.ResourceId) })), method = (path) => methods.find((m) => m.path === path);
  for (const m of methods) must(m.ApiKeyRequired || (m.AuthorizationType === "CUSTOM" && m.AuthorizerId), `${m.HttpMethod} ${m.path} is open to everyone`);
  const auths = of("AWS::ApiGateway::Authorizer"); same(auths.length, 1, "the authorizers"); const auth = auths[0]; same(auth.Type, "REQUEST", "the type of the authorizer");
  const TTL = (auth.AuthorizerResultTtlInSeconds ?? 300) * 1000, sources = (auth.IdentitySource ?? "").split(",").map((x) => x.trim()).filter(Boolean);
  const rx = (p) => new RegExp(`^${p.replace(/[.*+?^${}()|[\]\\]/g, "\\$&").replace(/\\\*/g, "[^]*").replace(/\\\?/g, "[^]")}$`);
  const template = method("/cameras/metadata").Integration.RequestTemplates["application/json"];
  const event = (context) => JSON.parse(javaStrings(() => velocity.render(template, { input: { body: "", params: () => ({ path: {}, querystring: {}, header: {} }) }, util: { escapeJavaScript, base64Encode: (s) => Buffer.from(s).toString("base64") }, context })));
  const USERS = [{ n: "anna", pw: "secret", groups: ["Saimaa"] }, { n: "bo@x.fi", pw: "se:cr:et", groups: ["Vuosaari", "Saimaa"] }, { n: "cé", pw: "ä€\"'", groups: ["Kotka", "odd, group", 'q"uo\'te'] }, { n: "dora", pw: "x", groups: undefined }, { n: "eve", pw: "new", groups: ["Kotka"], first: true }, { n: "finn", pw: "y:", groups: ["Vuo"] }, { n: "gus", pw: "z", groups: [] }];
  const basic = (t) => `Basic ${Buffer.from(t).toString("base64")}`;
  await prop("who sees what", fc.record({ cams: fc.uniqueArray(cameraArb, { selector: (c) => c.i, maxLength: 8, size: "max" }), steps: fc.array(fc.record({ user: fc.nat(USERS.length - 1), how: fc.oneof({ weight: 6, arbitrary: fc.constant("right") }, fc.constantFrom("wrong", "unknown", "none", "empty", "nopw", "garbage", "throws", "refused")), group: fc.constantFrom(...GROUPS, "metadata", "metadata", "Saim", "Vuo"), image: fc.nat(3), wait: fc.constantFrom(0, 0, 1000, 200e3, 301e3, 4000e3) }), { minLength: 1, maxLength: 12, size: "max" }) }), async (o) => {
    const cams = cameras(o.cams); store(cams); let time = 0, through = 0, held = 0; const cache = new Map();
    for (const st of o.steps) {
      time += st.wait; const u = USERS[st.user], path = st.group === "metadata" ? "/cameras/metadata" : `/cameras/${st.group}/${camId(st.image)}.jpg`, arn = `arn:aws:execute-api:eu-west-1:1:abc123/prod/GET${path}`;
      const value = { right: basic(`${u.n}:${u.pw}`), throws: basic(`${u.n}:${u.pw}`), refused: basic(`${u.n}:${u.pw}`), wrong: basic(`${u.n}:${u.pw}x`), unknown: basic(`${u.n}2:${u.pw}`), none: undefined, empty: "", nopw: basic(`${u.n}:`), garbage: "Basic" }[st.how];
      cognito = { authenticate: (d, a, cb, self) => { same([d.Username, a.Username], [d.Username, d.Username], "whose password is asked"); if (st.how === "throws") throw new Error("cognito"); later().then(() => { const user = USERS.find((x) => x.n === d.Username); if (st.how === "refused" || !user || user.pw !== a.Password) return cb.onFailure({ code: "NotAuthorizedException" }); if (user.first) return cb.newPasswordRequired({ email: "e" }, []); return cb.onSuccess(session(user)); }); }, change: (d, pw, cb) => { later().then(() => { const user = USERS.find((x) => x.n === d.Username); return pw === user.pw ? cb.onSuccess(session(user)) : cb.onFailure({}); }); } };
      const session = (user) => ({ getAccessToken: () => ({ payload: user.groups ? { username: user.n, "cognito:groups": user.groups } : { username: user.n } }) });
      // API Gateway: a missing identity source is refused at once, a known one answered from the cache
      const identity = sources.map((x) => { const [, kind, name] = /^(?:method\.request\.)?(header|context|querystring)\.(.*)$/.exec(x) ?? must(false, `identity source ${x}`); return kind === "header" ? (name.toLowerCase() === "authorization" ? value : undefined) : kind === "context" ? { path: `/prod${path}`, resourcePath: st.group === "metadata" ? path : "/cameras/{folderName}/{imageName}", httpMethod: "GET" }[name] : undefined; });
      let allowed = false, context; const key = JSON.stringify(identity);
      if (identity.every((x) => x)) {
        let hit = TTL > 0 ? cache.get(key) : undefined; if (hit && hit.until <= time) hit = undefined;
        if (!hit) {
          const r = await Promise.race([outcome(() => authorize({ type: "REQUEST", methodArn: arn, path, httpMethod: "GET", headers: value === undefined ? {} : { authorization: value }, resource: "", queryStringParameters: null })), new Promise((res) => setTimeout(() => res({ hangs: true }), 400))]);
          must(!r.hangs, `the authorizer never answers (${st.how}, ${u.first ? "first login" : "later login"})`);
          if (!("error" in r)) { hit = { policy: r.value.policyDocument, context: r.value.context, until: time + TTL }; cache.set(key, hit); for (const [k, v] of Object.entries(hit.context ?? {})) must(v === undefined || ["string", "number", "boolean"].includes(typeof v), `the context value ${k} is ${show(v)}`); }
        }
        if (hit) { const m = hit.policy.Statement.filter((x) => [x.Action].flat().some((a) => rx(a).test("execute-api:Invoke")) && [x.Resource].flat().some((x2) => rx(x2).test(arn))); allowed = m.some((x) => x.Effect === "Allow") && !m.some((x) => x.Effect === "Deny"); context = hit.context; }
      }
      // an answer of the cache is as good as a new one, as rights do not change; a refusal when Cognito failed may be repeated
      const right = st.how === "right", member = st.group === "metadata" || (u.groups ?? []).includes(st.group), cached = ["throws", "refused"].includes(st.how) || o.steps.some((x) => ["throws", "refused"].includes(x.how));
      if (allowed) must((right || ["throws", "refused"].includes(st.how)) && member, `${u.n} (${st.how}) gets ${path}`); else if (!cached) must(!(right && member && !u.first), `${u.n} does not get ${path}`);
      if (!allowed) { held++; continue; } through++;
      if (st.group === "metadata") {
        const e = event({ authorizer: Object.fromEntries(Object.entries(context ?? {}).filter(([, v]) => v !== undefined).map(([k, v]) => [k, String(v)])) }), r = await outcome(() => list(e)); if (!pg.settled) return false;
        must(!("error" in r), `listing for ${u.n} fails: ${r.error?.message}`); const by = (x) => JSON.parse(JSON.stringify([...x])).sort((a, b) => (a.id < b.id ? -1 : 1));
        same(by(r.value), by(cams.filter((c) => (u.groups ?? []).includes(c.group)).map(at)), `the cameras listed for ${u.n}`);
      }
    }
    return through > 0 && held > 0 && (through > 2 ? "several" : "some");
  }, { runs: 300, thorough: 3000, needs: [authorize, list] });

  // ---------- images as API Gateway gets them from the bucket
  const flat = (v) => (typeof v === "string" ? v : v?.["Fn::Join"] ? v["Fn::Join"][1].map(flat).join(v["Fn::Join"][0]) : v?.["Fn::GetAtt"] ? `<${v["Fn::GetAtt"].join(".")}>` : `<${v?.Ref}>`), bucket = of("AWS::S3::Bucket")[0];
  await prop("images as served", fc.record({ group: fc.constantFrom(...GROUPS), image: fc.nat(9), at: fc.constantFrom("/cameras/{folderName}/{imageName}", "/api/marinecam/ibnet/{imageName}", "/api/marinecam/cameras/{imageName}"), date: fc.nat(1e9), size: fc.nat(1e6), type: fc.constantFrom("image/jpeg", "image/png"), found: fc.oneof({ weight: 3, arbitrary: fc.constant(true) }, fc.constant(false)) }), (o) => {
    const m = method(o.at), i = m?.Integration; must(i, `there is no ${o.at}`); const given = { folderName: o.group, imageName: `${camId(o.image)}.jpg` }, group = o.at.includes("folderName") ? o.group : "Saimaa";
    same([m.HttpMethod, i.Type, i.IntegrationHttpMethod], ["GET", "AWS", "GET"], `how ${o.at} gets images`); const put = Object.fromEntries(Object.entries(i.RequestParameters ?? {}).map(([k, v]) => { const f = /^method\.request\.path\.(.*)$/.exec(v); return [/^integration\.request\.path\.(.*)$/.exec(k)?.[1], f ? given[f[1]] : v.slice(1, -1)]; }));
    same(flat(i.Uri).replace(/\{(\w+)\}/g, (_, n) => put[n] ?? `{${n}}`), `arn:<AWS::Partition>:apigateway:eu-west-1:s3:path/<${bucket.id}>/images/${group}/${given.imageName}`, `where ${o.at} gets an image`);
    const role = i.Credentials?.["Fn::GetAtt"]?.[0], may = of("AWS::IAM::Policy").filter((p) => p.Roles?.some((r) => r.Ref === role)).flatMap((p) => p.PolicyDocument.Statement).filter((x) => x.Effect === "Allow"); must(may.some((x) => [x.Action].flat().some((a) => rx(a).test("s3:GetObject")) && [x.Resource].flat().some((r) => rx(flat(r)).test(`<${bucket.id}.Arn>/images/${group}/${given.imageName}`))), `${o.at} may not read the images`);
    const store = { Date: new Date(1.7e12 + o.date).toUTCString(), "Content-Length": String(o.size), "Content-Type": o.type }, status = o.found ? 200 : 404, all = i.IntegrationResponses, answer = all.find((r) => r.SelectionPattern && new RegExp(`^(${r.SelectionPattern})$`).test(String(status))) ?? all.find((r) => !r.SelectionPattern); same(String(answer.StatusCode), String(status), "the status"); must(m.MethodResponses.some((r) => String(r.StatusCode) === String(status)), `the answer ${status} is not declared`); if (!o.found) return "not found";
    const headers = Object.fromEntries(Object.entries(answer.ResponseParameters ?? {}).map(([k, v]) => [k.replace("method.response.header.", ""), /^'.*'$/.test(v) ? v.slice(1, -1) : store[v.replace("integration.response.header.", "")]])), declared = m.MethodResponses.find((r) => String(r.StatusCode) === "200").ResponseParameters ?? {};
    for (const k of Object.keys(headers)) must(`method.response.header.${k}` in declared, `the header ${k} is not declared`); same([headers.Timestamp ?? store.Date, headers["Content-Length"] ?? store["Content-Length"], headers["Content-Type"] ?? store["Content-Type"], headers["Access-Control-Allow-Origin"]], [store.Date, store["Content-Length"], store["Content-Type"], "*"], `the headers of an image at ${o.at}`);
    return o.at;
  }, { runs: 200, needs: [MarinecamStack] });

  await prop("metadata by key", fc.record({ cams: fc.uniqueArray(cameraArb, { selector: (c) => c.i, maxLength: 8, size: "max" }), breaks: rare(fc.constantFrom("error", "drop"), 5) }), async (o) => {
    const cams = cameras(o.cams); store(cams); let hit = 0; if (o.breaks) pg.fault = (sql) => { if (!/^\s*select/i.test(sql)) return undefined; hit++; return o.breaks === "drop" ? "drop" : { code: "57P01", message: "terminating" }; };
    const r = await outcome(() => metadata()); pg.fault = undefined; if (!pg.settled) return false; must(!("error" in r), `an error is thrown at API Gateway: ${r.error?.message}`); if (hit) { same(r.value.status, 500, "the answer when the database fails"); return "fails"; }
    same(r.value.status, 200, "the status"); const by = (x) => [...x].sort((a, b) => (a.id < b.id ? -1 : 1)); same(by(JSON.parse(Buffer.from(r.value.body, "base64"))), by(cams.filter((c) => c.group === "Saimaa").map(at)), "the cameras"); return cams.some((c) => c.group !== "Saimaa") && cams.some((c) => c.group === "Saimaa");
  }, { runs: 100, needs: [metadata] });
});
