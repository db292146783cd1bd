// C30: what the edge functions answer.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { buildLambdas, distributions } from "#harness/cloudfront.mjs";
import { secret, secretFault } from "#harness/app.mjs";
import { App } from "aws-cdk-lib";
import { SecretsManager, SecretsManagerClient } from "@aws-sdk/client-secrets-manager";
import { CloudfrontCdkStack } from "#repo/other/cloudfront/src/cloudfront-cdk-stack.ts";
import { Behavior } from "#repo/other/cloudfront/src/distribution/behavior.ts";
import { WafRules } from "#repo/other/cloudfront/src/acl/waf-rules.ts";

process.env.AWS_REGION = "us-east-1"; // an edge location, not where the secrets are
const regions = [];
const answer = SecretsManager.prototype.send;
SecretsManager.prototype.send = SecretsManagerClient.prototype.send = async function (cmd) { regions.push([await this.config.region(), cmd.input.SecretId]); return answer.call(this, cmd); };
await buildLambdas();
fakeClock(Date.UTC(2026, 10, 19), ["Date"]);

function deploy(...behaviours) {
  const stack = new CloudfrontCdkStack(new App(), "S", { env: { account: "123456789012", region: "us-east-1" } });
  stack.withLogConfig("arn:aws:kinesis:x").withAclRule(WafRules.per5min(100, 100)).withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/1", (b) => b.withAliasName("a.fi").withBehaviors(...behaviours));
  return distributions(stack.resolve(stack._toCloudFormation()))[0].behaviours; // not synthesised to disk
}
const only = (b, event) => { must(b.events[event]?.length === 1, () => `${event}: ${show(Object.keys(b.events))}`); return b.events[event][0].run; };
const clone = (x) => JSON.parse(JSON.stringify(x));
const header = (k, v) => ({ [k.toLowerCase()]: [{ key: k, value: v }] });
const word = fc.stringMatching(/^[a-z][a-z0-9-]{0,7}$/);
const method = fc.constantFrom("GET", "GET", "GET", "HEAD", "OPTIONS", "POST", "PUT", "DELETE");
const segment = fc.oneof(word, fc.stringMatching(/^[A-Za-z0-9_.%~-]{1,10}$/));
const uri = fc.oneof(
  { weight: 6, arbitrary: fc.tuple(fc.array(segment, { minLength: 1, maxLength: 6 }), fc.boolean()).map(([s, dir]) => `/${s.join("/")}${dir ? "/" : ""}`) },
  fc.constantFrom("/", "//", "/a", "/a/", "/index.html", "//a//b", "/a//", "/some/path/filename.z"),
);
const query = fc.oneof(fc.constant(""), fc.constantFrom("versionId=123", "a=1&b=2", "lastModified=true"));
const request = fc.record({ clientIp: fc.ipV4(), method, uri, querystring: query, headers: fc.constantFrom({}, header("User-Agent", "curl"), { ...header("Host", "www.digitraffic.fi"), ...header("Digitraffic-User", "me/app") }) });
const response = fc.record({ status: fc.constantFrom("200", "200", "304", "403", "404", "500", "204"), headers: fc.array(fc.constantFrom(...Object.entries({ ...header("Content-Type", "image/png"), ...header("Content-Length", "234"), ...header("ETag", '"abc"'), ...header("Cache-Control", "max-age=60"), ...header("Access-Control-Allow-Origin", "https://x.fi"), ...header("Last-Modified", "Thu, 01 Jan 2026 00:00:00 GMT"), ...header("Transfer-Encoding", "chunked") })), { maxLength: 5 }).map(Object.fromEntries) });
const event = (req, res) => ({ Records: [{ cf: { config: { distributionId: "E1", requestId: "r" }, request: clone(req), ...(res ? { response: clone(res) } : {}) } }] });
const CORS = { "access-control-allow-origin": ["*"], "access-control-allow-methods": ["GET", "POST", "OPTIONS"], "access-control-allow-headers": ["Content-Type", "Range", "If-Modified-Since", "Cache-Control", "Digitraffic-User", "User-Agent", "X-Requested-With"], "access-control-expose-headers": ["Content-Type", "Range", "Digitraffic-User"] };
function corsIn(headers, valueOf) {
  const rest = { ...headers };
  for (const [k, words] of Object.entries(CORS)) {
    const got = valueOf(headers[k]);
    must(typeof got === "string", () => `no ${k} in ${show(headers)}`);
    const values = got.split(",").map((v) => v.trim().toLowerCase());
    for (const w of words) must(values.includes(w.toLowerCase()), () => `${k}: ${got} without ${w}`);
    must(k !== "access-control-allow-origin" || got === "*", () => `${k}: ${got}`);
    delete rest[k];
  }
  return rest;
}
const lambdaValue = (h) => (Array.isArray(h) && h.length === 1 ? h[0].value : undefined);

await check({
  rule: "sequences of generated CloudFront events put through the function code found in the synthesised template, compared with a reference; non-trivial: an event that the function answers or changes",
  assumptions: ["CloudFront hands header names in lower case and one event a time to a function", "a bundle made with esbuild behaves as the one made with rollup"],
}, async ({ prop }) => {
  await prop("compression is required of reads, and preflights are answered", fc.record({ how: fc.constantFrom("apiGateway", "nginx", "vpcLb", "with"), list: fc.array(fc.tuple(request, fc.constantFrom(undefined, "gzip", "gzip, deflate, br", "br,gzip", "br", "identity", "", "deflate;q=0.5, gzip;q=1.0", "deflate", [], "compress, br;q=0.5")), { minLength: 1, maxLength: 5 }) }), async ({ how, list }) => {
    const b = how === "with" ? new Behavior("*", Behavior.nginxPlain("x", "h.fi").origin).withGzipRequirementLambda() : how === "vpcLb" ? Behavior.apiGateway("*", "h.fi") : Behavior[how]("*", "h.fi");
    const run = only(deploy(b).get("*"), "viewer-request");
    let answered = 0;
    for (const [r, enc] of list) {
      const req = { ...r, headers: { ...r.headers, ...(enc === undefined ? {} : Array.isArray(enc) ? {} : header("Accept-Encoding", enc)) } };
      const got = clone(await run(event(req)));
      if (req.method === "OPTIONS") {
        answered++;
        must(got.status === "204", () => `preflight answered ${show(got)}`);
        const rest = corsIn(got.headers, lambdaValue);
        same(lambdaValue(rest["access-control-max-age"]), "86400", "age of the preflight");
      } else if (req.method === "GET" && !(typeof enc === "string" && enc.includes("gzip"))) {
        answered++;
        must(got.status === "406" && /gzip/.test(got.body), () => `${show(req)}: ${show(got)}`);
      } else same(got, req, "request passed on");
    }
    return answered > 0 && `${how}, ${list.length} requests`;
  }, { runs: 60, thorough: 1500, needs: [Behavior] });

  await prop("every read gets the CORS headers, nothing else changes", fc.record({ kind: fc.constantFrom("lambda", "function"), list: fc.array(fc.tuple(request, response), { minLength: 1, maxLength: 5 }) }), async ({ kind, list }) => {
    const plain = Behavior.nginxPlain("*", "h.fi");
    const run = only(deploy(kind === "lambda" ? plain.withHttpHeadersLambda() : plain.withHttpHeadersFunction()).get("*"), "viewer-response");
    let reads = 0;
    for (const [req, res] of list) {
      if (kind === "lambda") {
        const got = clone(await run(event(req, res)));
        if (req.method !== "GET") { same(got, res, "response of another method"); continue; }
        reads++;
        const { "access-control-allow-origin": _, ...before } = res.headers;
        same({ ...got, headers: corsIn(got.headers, lambdaValue) }, { ...res, headers: before }, "the rest of the response");
      } else {
        const headers = Object.fromEntries(Object.entries(res.headers).map(([k, v]) => [k, { value: v[0].value }]));
        const got = clone(run({ request: clone(req), response: { statusCode: Number(res.status), headers: clone(headers) } }));
        if (req.method !== "GET") { same(got, { statusCode: Number(res.status), headers }, "response of another method"); continue; }
        reads++;
        const { "access-control-allow-origin": _, ...before } = headers;
        same({ ...got, headers: corsIn(got.headers, (h) => h?.value) }, { statusCode: Number(res.status), headers: before }, "the rest of the response");
      }
    }
    return reads > 0 && kind;
  }, { runs: 60, thorough: 1500, needs: [Behavior] });

  const ip = fc.oneof({ weight: 3, arbitrary: fc.ipV4() }, fc.ipV6(), fc.constantFrom("10.0.0.1", "10.0.0.10", "10.0.0.11", "110.0.0.1"));
  await prop("only the listed addresses get through", fc.record({ list: fc.uniqueArray(ip, { minLength: 1, maxLength: 5 }), at: fc.constantFrom("viewer-request", "origin-request"), others: fc.array(ip, { maxLength: 3 }), reqs: fc.array(fc.tuple(request, fc.oneof(fc.nat(4), fc.constantFrom("cut", "longer", "list", "other", "other"))), { minLength: 1, maxLength: 6 }) }), async ({ list, at, others, reqs }) => {
    const b = Behavior.nginxPlain("*", "h.fi").withIpRestrictionLambda("secret", list.join(","), at);
    const run = only(deploy(b).get("*"), at);
    let refused = 0, passed = 0;
    for (const [r, which] of reqs) {
      const clientIp = typeof which === "number" ? list[which % list.length] : which === "cut" ? list[0].slice(0, -1) : which === "longer" ? `${list[0]}1` : which === "list" ? list.join(",") : (others[0] ?? r.clientIp);
      const req = { ...r, clientIp };
      const got = clone(await run(event(req)));
      if (list.includes(clientIp)) { passed++; same(got, req, "request of an allowed address"); } else { refused++; must(got.status === "403", () => `${clientIp} got through ${list}: ${show(got)}`); must(got.uri === undefined, "a request and an answer"); }
    }
    return (refused ? "refused" : "") + (passed ? " passed" : "");
  }, { runs: 80, thorough: 1500, needs: [Behavior] });

  await prop("paths are completed, cut and redirected", fc.record({ kind: fc.constantFrom("index", "cut", "cut", "redirect"), count: fc.integer({ min: 1, max: 5 }), url: fc.webUrl({ withQueryParameters: true }).filter((u) => !/[$"\\']/.test(u)), reqs: fc.array(request, { minLength: 1, maxLength: 6 }) }), async ({ kind, count, url, reqs }) => {
    const b = kind === "index" ? Behavior.swagger("*", "bucket") : kind === "cut" ? Behavior.s3("*", "bucket").withRemovePathFunction(count) : Behavior.redirect(url);
    const run = only(deploy(b).get("*"), "viewer-request");
    let changed = 0;
    for (const req of reqs) {
      const got = clone(run({ request: clone(req), response: undefined }));
      if (kind === "redirect") { changed++; must(got.statusCode === 302 && got.headers.location.value === url, () => `${url}: ${show(got)}`); continue; }
      let want = req.uri;
      if (kind === "index") want = req.uri.endsWith("/") ? `${req.uri}index.html` : req.uri;
      else { const parts = req.uri.slice(1).split("/"); want = `/${parts.slice(Math.min(count, parts.length - 1)).join("/")}`; }
      if (want !== req.uri) changed++;
      same(got, { ...req, uri: want }, `${kind} ${count}`);
    }
    return changed > 0 && kind;
  }, { runs: 80, thorough: 2000, needs: [Behavior] });

  await prop("old camera images come from the history, missing ones are replaced", fc.record({ host: word.map((w) => `${w}.host.fi`), url: word.map((w) => `${w}.domain.fi`), list: fc.array(fc.record({ req: request, res: response, modified: fc.constantFrom(undefined, "x-amz-meta-last-modified", "X-Amz-Meta-Last-Modified", "x-amz-meta-last-modified"), when: fc.constantFrom("Wed, 18 Nov 2026 10:00:00 GMT", "Thu, 19 Nov 2026 10:00:00 GMT", "Thu, 19 Nov 2026 12:00:00 +0200") }), { minLength: 1, maxLength: 4 }) }), async ({ host, url, list }) => {
    const at = deploy(Behavior.s3("*", "bucket").withWeathercamLambdas(host, url)).get("*");
    const toOrigin = only(at, "origin-request"), fromOrigin = only(at, "origin-response"), toViewer = only(at, "viewer-response");
    const seen = new Set();
    for (const { req, res, modified, when } of list) {
      const sent = { ...req, origin: { s3: { domainName: "bucket.s3.eu-west-1.amazonaws.com", path: "", customHeaders: {} } } };
      const got = clone(await toOrigin(event(sent)));
      if (req.querystring === "") same(got, sent, "current image");
      else {
        seen.add("history");
        same({ ...got, origin: undefined, headers: { ...got.headers, host: undefined } }, { ...sent, origin: undefined, headers: { ...sent.headers, host: undefined } }, "request of an old image");
        must(!got.origin.s3 && got.origin.custom.domainName === url && got.origin.custom.protocol === "http" && got.origin.custom.port === 80 && got.origin.custom.path === "", () => `origin ${show(got.origin)}`);
        same(lambdaValue(got.headers.host), host, "host header");
      }
      const from = { ...res, headers: { ...res.headers, ...(modified ? { [modified]: [{ key: "x-amz-meta-last-modified", value: when }] } : {}) } };
      const out = clone(await fromOrigin(event(req, from)));
      if (res.status === "403" || res.status === "404") {
        seen.add("missing");
        must(out.status === "200" && out.bodyEncoding === "base64", () => `status ${show({ ...out, body: undefined })}`);
        const image = Buffer.from(out.body, "base64");
        must(image[0] === 0xff && image[1] === 0xd8 && image.at(-2) === 0xff && image.at(-1) === 0xd9 && out.body.length < 1_000_000, "not an image");
        const { "content-type": type, "cache-control": cache, ...rest } = out.headers;
        same(lambdaValue(type), "image/jpeg", "type"); same(lambdaValue(cache), "no-cache", "caching of the placeholder");
        const { "content-type": _t, "cache-control": _c, ...before } = from.headers;
        same(rest, before, "the other headers");
      } else {
        const changed = req.method === "GET" && modified;
        if (changed) seen.add("time");
        const { "last-modified": last, ...rest } = out.headers, { "last-modified": was, ...before } = from.headers;
        same({ ...out, headers: rest }, { ...from, headers: before }, "response");
        same(lambdaValue(last), changed ? when : lambdaValue(was), "last-modified");
      }
      const seenByViewer = clone(await toViewer(event(req, from)));
      if (req.method === "GET") corsIn(seenByViewer.headers, lambdaValue);
    }
    return [...seen].sort().join("+");
  }, { runs: 60, thorough: 1500, needs: [Behavior] });

  const one = fc.stringMatching(/^[A-Za-z0-9 ä_.&=-]{1,8}$/).filter((s) => s.trim());
  const many = fc.oneof(one.map((v) => [v]), fc.array(one, { minLength: 2, maxLength: 3 }));
  const params = fc.record({ api: one.filter((s) => /^[a-z]+$/i.test(s)).map((s) => s), tyyppi: fc.constantFrom("h", "h", "vrk", "v"), pvm: fc.option(fc.constantFrom("2023-03-01", "2021-12-31"), { nil: undefined }), viikko: fc.option(fc.constantFrom("12", "2023-12"), { nil: undefined }), loppu: fc.option(fc.constantFrom("", "2023-04-01", "15"), { nil: undefined }), piste: fc.option(one, { nil: undefined, freq: 4 }), pistejoukko: fc.option(one, { nil: undefined }), suunta: fc.option(many, { nil: undefined }), sisallytakaistat: fc.option(one, { nil: undefined }), ryhma: fc.option(many, { nil: undefined }), luokka: fc.option(many, { nil: undefined }), lam_type: fc.option(fc.constant("option1"), { nil: undefined }) }, { requiredKeys: ["tyyppi"] });
  const lamUri = fc.oneof(
    fc.record({ id: fc.nat(9999), year: fc.oneof(fc.integer({ min: 19, max: 26 }), fc.integer({ min: 0, max: 99 })), day: fc.integer({ min: 1, max: 366 }) }).map(({ id, year, day }) => `/api/tms/v1/history/raw/lamraw_${id}_${String(year).padStart(2, "0")}_${day}.csv`),
    fc.constantFrom("/ui/tms/history", "/ui/tms/history/", "/ui/tms/history/index.html", "/ui/tms/history/style.css", "/ui/tms/history/img/logo.svg", "/api/tms/v1/history", "/api/tms/v1/history/raw/index.html", "/api/tms/v1/other"),
  );
  const text = (p) => Object.entries(p).filter(([, v]) => v !== undefined).flatMap(([k, v]) => [v].flat().map((x) => `${k}=${encodeURIComponent(x)}`)).join("&");
  const wanted = (p) => { // the query of the data warehouse, or nothing when something is missing
    const first = (v) => [v].flat()[0];
    if (!p.api || !p.tyyppi || (!p.piste && !p.pistejoukko) || (!p.pvm && !p.viikko)) return undefined;
    const out = { tyyppi: p.tyyppi }, end = p.loppu ? `-${p.loppu}` : "";
    if (p.pvm) out.pvm = p.pvm + end; else out.viikko = p.viikko + end;
    if (p.piste) out.piste = first(p.piste); else out.pistejoukko = first(p.pistejoukko);
    if (p.suunta) out.suunta = p.suunta.join("-");
    if (p.sisallytakaistat) out.sisallytakaistat = p.sisallytakaistat;
    if (p.ryhma) out.ryhma = p.ryhma.join(",");
    else if (p.luokka) { if (p.tyyppi !== "h") return undefined; out.ajoneuvoluokka = p.luokka.join(","); }
    return out;
  };
  await prop("traffic history goes to the store that has it", fc.record({ key: word, wh: word.map((w) => `${w}.snowflake.fi`), ongoing: word.map((w) => `${w}.ongoing.fi`), list: fc.array(fc.record({ req: request, uri: lamUri, params: fc.option(params, { nil: undefined, freq: 3 }) }), { minLength: 1, maxLength: 5 }), outage: fc.constantFrom(false, false, false, true) }), async ({ key, wh, ongoing, list, outage }) => {
    for (const k of Object.keys(secret)) if (k.startsWith("tms-history.")) delete secret[k];
    Object.assign(secret, { "tms-history.snowflakeApikey": key, "tms-history.snowflakeDomain": wh, "tms-history.s3DomainTmsRawOngoing": ongoing, "tms-history.s3DomainTmsRawHistory": "history.fi", snowflakeApikey: "wrong", snowflakeDomain: "wrong.fi" });
    const at = deploy(Behavior.s3("*", "bucket").withLamLambdas("arn:aws:secretsmanager:eu-west-1:123456789012:secret:road-AbCdEf")).get("*");
    const run = only(at, "origin-request");
    const seen = new Set();
    regions.length = 0;
    secretFault.next = outage ? new Error("no secret") : undefined;
    for (const { req, uri: path, params: p } of list) {
      const s3 = { s3: { domainName: "history.fi", path: "", authMethod: "none", customHeaders: {} } };
      const sent = { ...req, uri: path, querystring: p ? text(p) : "", origin: s3, headers: { ...req.headers, ...header("Host", "history.fi") } };
      const r = await outcome(() => run(event(sent)));
      const file = path.slice(path.lastIndexOf("/"));
      if (path.includes("/history/raw/")) {
        const year = Number(file.split("_")[2]);
        if (year > 21 && outage) { must(r.error, () => `answered without the secret ${show(r)}`); continue; }
        must(!r.error, () => `${path}: ${r.error?.stack}`);
        const to = year > 21 ? ongoing : "history.fi";
        seen.add(year > 21 ? "ongoing" : "archive");
        same(clone(r.value), { ...sent, uri: file, origin: { s3: { ...s3.s3, domainName: to } }, headers: { ...sent.headers, host: r.value.headers.host } }, path);
        same(lambdaValue(r.value.headers.host), to, "host of the raw data");
      } else if (p && (path.includes("/ui/tms/history") || path.includes("/api/tms/v1/history"))) {
        const want = wanted(p);
        if (!want || outage) { must(r.error, () => `${sent.querystring}: ${show(r.value)}`); seen.add("refused"); continue; }
        must(!r.error, () => `${sent.querystring}: ${r.error?.stack}`);
        seen.add("warehouse");
        const got = r.value, o = got.origin;
        must(!o.s3 && o.custom.domainName === wh && o.custom.protocol === "https" && o.custom.port === 443 && o.custom.path === "/prod", () => show(o));
        same(o.custom.customHeaders["x-api-key"]?.[0]?.value, key, "key"); same(lambdaValue(got.headers.host), wh, "host");
        same(got.uri, `/${p.api}`, "path"); same(got.method, sent.method, "method");
        const q = new URLSearchParams(got.querystring);
        same([...q.entries()].sort(), Object.entries(want).sort(), "query");
      } else {
        must(!r.error, () => `${path}: ${r.error?.stack}`);
        if (path === "/ui/tms/history" || path.endsWith("/index.html")) { seen.add("redirect"); must(r.value.status === "301" && lambdaValue(r.value.headers.location) === "/ui/tms/history/", () => show(r.value)); continue; }
        const to = path === "/ui/tms/history/" ? "/index.html" : path.startsWith("/ui/tms/history/") ? file : path;
        if (to !== path) seen.add("page");
        same(clone(r.value), { ...sent, uri: to }, path);
      }
    }
    secretFault.next = undefined;
    for (const [region, id] of regions) must(region === "eu-west-1" && id === "road", () => `secret read from ${region} ${id}`);
    return [...seen].sort().join("+");
  }, { runs: 120, thorough: 2500, needs: [Behavior] });

  await prop("answers of the traffic history are named files without keys", fc.array(fc.record({ req: request, res: response, uri: word.map((w) => `/${w}`), remapped: fc.boolean(), leaked: fc.array(fc.constantFrom("x-api-key", "x-amzn-remapped-x-forwarded-for"), { maxLength: 2 }), params: fc.record({ tyyppi: fc.constantFrom("h", "vrk", "v"), pvm: fc.constantFrom("2023-03-01", "2021-12-31-2022-01-01", "", undefined), viikko: fc.constantFrom("12", "", undefined, "2023-12"), loppu: fc.constant("") }, { requiredKeys: [] }) }), { minLength: 1, maxLength: 4 }), async (list) => {
    const at = deploy(Behavior.s3("*", "bucket").withLamLambdas("arn:aws:secretsmanager:eu-west-1:123456789012:secret:road-AbCdEf")).get("*");
    const run = only(at, "origin-response");
    const seen = new Set();
    for (const { req, res, uri: path, remapped, leaked, params: p } of list) {
      const sent = { ...req, uri: path, querystring: text(p) };
      const from = { ...res, headers: { ...res.headers, ...(remapped ? header("x-amzn-remapped-host", "h") : {}), ...Object.assign({}, ...leaked.map((k) => header(k, "secret"))) } };
      const r = await outcome(() => run(event(sent, from)));
      const when = p.pvm || p.viikko;
      if (remapped && !when) { must(r.error, () => `named a file without a date: ${show(r.value)}`); seen.add("refused"); continue; }
      must(!r.error, () => r.error?.stack);
      const { "content-disposition": name, "content-type": type, ...rest } = clone(r.value).headers;
      const { "content-type": wasType, ...before } = res.headers;
      same({ ...r.value, headers: rest }, { ...res, headers: before }, "the rest of the response");
      if (remapped) { seen.add("file"); same(lambdaValue(name), `attachment; filename="${path.slice(1)}_${p.tyyppi ?? ""}_${when}.csv"`, "file"); same(lambdaValue(type), "text/csv; charset=utf-8", "type"); } else { same(name, undefined, "file of a page"); same(type, wasType, "type of a page"); }
      if (leaked.length) seen.add("key removed");
    }
    return [...seen].sort().join("+");
  }, { runs: 60, thorough: 1500, needs: [Behavior] });
});
