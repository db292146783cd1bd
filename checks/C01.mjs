// C01: HTTP responses built by Lambdas.
import zlib from "node:zlib";
import { check, fc, must, same, outcome, throwsSync } from "#harness";
import * as P from "#repo/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts";
import * as R from "#repo/lib/digitraffic-common/src/aws/types/lambda-response.ts";

const LIMIT = 6 * 1024 * 1024;
const ETAG = /^"[\x21\x23-\x7e\x80-\xff]*"$/; // RFC 9110 strong entity-tag
const text = fc.oneof(
  { weight: 4, arbitrary: fc.string({ minLength: 1, maxLength: 40, unit: "binary" }) },
  { weight: 3, arbitrary: fc.tuple(fc.string({ minLength: 1, maxLength: 12 }), fc.integer({ min: 1, max: 400 })).map(([s, n]) => s.repeat(n)) },
  { weight: 1, arbitrary: fc.constantFrom("0", "false", "null", " ", "ä", "€", "{}", "[]", "😀") },
);
const json = fc.oneof(
  fc.dictionary(fc.string({ maxLength: 6 }), fc.jsonValue({ maxDepth: 2 }), { maxKeys: 6 }),
  fc.array(fc.jsonValue({ maxDepth: 2 }), { maxLength: 6 }),
  fc.tuple(fc.record({ id: fc.integer(), name: fc.string() }), fc.integer({ min: 5, max: 80 })).map(([r, n]) => ({ items: Array(n).fill(r) })),
);
const bytes = fc.oneof(fc.uint8Array({ minLength: 1, maxLength: 300 }), fc.string({ minLength: 1, unit: "binary" }).map((s) => new TextEncoder().encode(s)));
const body = fc.oneof(
  text.map((v) => ({ kind: "text", v })),
  json.map((v) => ({ kind: "json", v })),
  bytes.map((v) => ({ kind: "base64", v: Buffer.from(v).toString("base64") })),
);
const date = fc.date({ min: new Date(0), max: new Date("2100-01-01"), noInvalidDate: true });
const opt = (a) => fc.option(a, { nil: undefined });
const step = fc.constantFrom("file", "status", "time", "type", "compress", "debug");
const spec = fc.record({
  body,
  viaCreate: fc.boolean(),
  order: fc.uniqueArray(step, { maxLength: 6 }),
  file: fc.string({ minLength: 1, maxLength: 12 }).map((s) => s.replace(/[^A-Za-z0-9.]/g, "x")),
  status: fc.constantFrom(200, 201, 202, 400, 404, 409, 422, 500, 503),
  time: date, timeAsString: fc.boolean(),
  type: fc.constantFrom("application/json", "text/plain", "application/xml", "image/svg+xml", "text/csv", "application/geo+json"),
});
// wire-level decoding as API Gateway and then the client would do it
function delivered(res) {
  let buf = res.isBase64Encoded ? Buffer.from(res.body, "base64") : Buffer.from(res.body, "utf8");
  const h = res.headers ?? {};
  if (h["Content-Encoding"] !== undefined) {
    must(h["Content-Encoding"] === "gzip", `unknown Content-Encoding ${h["Content-Encoding"]}`);
    must(res.isBase64Encoded, "a gzipped body has to be marked base64 encoded");
    const g = throwsSync(() => zlib.gunzipSync(buf));
    must(!g.error, "declared gzip, but the body is not gzip");
    buf = g.value;
  }
  return buf;
}
const originalBytes = (b) => (b.kind === "json" ? Buffer.from(JSON.stringify(b.v)) : b.kind === "text" ? Buffer.from(b.v, "utf8") : Buffer.from(b.v, "base64"));
function buildProxy(s) {
  const B = P.LambdaProxyResponseBuilder;
  const b64 = s.body.kind === "base64";
  let b = s.viaCreate ? (b64 ? B.create(s.body.v, true) : B.create(s.body.v)) : B.create();
  if (!s.viaCreate) b = b64 ? b.withBody(s.body.v, true) : b.withBody(s.body.v);
  for (const o of s.order) {
    if (o === "file") b = b.withFileName(s.file);
    if (o === "status") b = b.withStatus(s.status);
    if (o === "time") b = b.withTimestamp(s.timeAsString ? s.time.toISOString() : s.time);
    if (o === "type") b = b.withContentType(s.type);
    if (o === "compress" && !b64) b = b.withCompression();
    if (o === "debug") b = b.withDebug();
  }
  return b.build();
}

await check({
  rule: "responses are built through the public builders from generated text, JSON and binary bodies (1 B to beyond 6 MiB) and option orders, then decoded as API Gateway and a client would; non-trivial: non-ASCII, compressed, binary, over-limit or error responses",
  assumptions: ["API Gateway decodes a base64-marked body before delivery; Lambda limits the JSON-serialised response to 6 MiB"],
}, async ({ prop, each }) => {
  const need = { needs: [P.LambdaProxyResponseBuilder, R.LambdaResponse, R.LambdaResponseBuilder] };
  await prop("proxy response delivers its body", spec, (s) => {
    const res = buildProxy(s);
    const on = (o) => s.order.includes(o);
    same(res.statusCode, on("status") ? s.status : 200, "status");
    must(delivered(res).equals(originalBytes(s.body)) , () => `delivered body differs from the given one: ${delivered(res).toString("utf8").slice(0, 200)}`);
    if (s.body.kind !== "base64" && res.headers["Content-Encoding"] === undefined) must(res.isBase64Encoded === false, "plain body marked base64");
    same(res.headers["Content-Type"], on("type") ? s.type : "application/json", "content type");
    same(res.headers["Content-Disposition"], on("file") ? `attachment; filename="${s.file}"` : undefined, "content disposition");
    same(res.headers["Last-Modified"], on("time") ? s.time.toUTCString() : undefined, "last modified");
    must(res.headers.Location === undefined, "no location");
    must(ETAG.test(res.headers.ETag ?? ""), () => `ETag is not a strong entity tag: ${res.headers.ETag}`);
    must((res.headers.ETag ?? "").length < 200, "ETag is a short validator");
    if (!on("compress")) must(res.headers["Content-Encoding"] === undefined, "compressed without being asked");
    else if (s.body.kind !== "base64") {
      const raw = originalBytes(s.body), gz = zlib.gzipSync(raw);
      const wins = gz.toString("base64").length < raw.toString("base64").length;
      same(res.headers["Content-Encoding"], wins ? "gzip" : undefined, "compressed exactly when that is smaller");
    }
    must(Buffer.byteLength(JSON.stringify(res)) <= LIMIT, "over the Lambda limit");
    return res.headers["Content-Encoding"] ? "compressed" : s.body.kind === "base64" ? "binary" : s.body.kind === "json" ? "json" : /[^\x20-\x7e]/.test(s.body.v) ? "non-ascii" : false;
  }, { runs: 4000, needs: [P.LambdaProxyResponseBuilder] });

  await prop("ETag identifies the body and nothing else", fc.tuple(spec, spec, fc.boolean()), ([a, b, sameBody]) => {
    const bb = sameBody ? { ...b, body: a.body } : b;
    const ra = buildProxy(a), rb = buildProxy(bb);
    const eq = originalBytes(a.body).equals(originalBytes(bb.body));
    must((ra.headers.ETag === rb.headers.ETag) === eq || (eq && a.body.kind !== bb.body.kind), () => `ETag ${ra.headers.ETag} vs ${rb.headers.ETag}, bodies ${eq ? "equal" : "different"}`);
    return eq ? "same body" : "different body";
  }, { runs: 1500, needs: [P.LambdaProxyResponseBuilder] });

  // bodies that a careless digest or encoding would take for one another
  const near = fc.record({ base: fc.string({ unit: fc.constantFrom("a", "z", "0", "é", "\u0100", " ", "ä"), minLength: 1, maxLength: 30 }), at: fc.nat(), how: fc.constantFrom("plus256", "nfc", "space", "case"), pad: fc.constantFrom(0, 0, 5000, 70000), front: fc.boolean() });
  await prop("ETag distinguishes bodies that nearly agree", near, (c) => {
    const chars = [...c.base], i = c.at % chars.length, x = chars[i];
    chars[i] = c.how === "plus256" ? String.fromCharCode(x.charCodeAt(0) + 256) : c.how === "nfc" ? `${x}\u0301` : c.how === "space" ? `${x} ` : x === "a" ? "A" : `${x}b`;
    const whole = (s) => (c.front ? s + "p".repeat(c.pad) : "p".repeat(c.pad) + s);
    const u = whole(c.base), v = whole(chars.join(""));
    for (const tag of [(s) => P.LambdaProxyResponseBuilder.create(s).build().headers.ETag, (s) => P.LambdaProxyResponseBuilder.create(s).withCompression().build().headers.ETag, (s) => R.LambdaResponseBuilder.create(s).build().etag, (s) => R.LambdaResponse.ok(s).etag]) {
      must(tag(u) !== tag(v), () => `bodies ${JSON.stringify(c.base)} and ${JSON.stringify(chars.join(""))} share an ETag`);
      must(tag(u) === tag(whole(c.base)), "same body, different ETag");
    }
    return c.pad > 0 ? "long" : c.how;
  }, { runs: 500, ...need });
  await prop("compression keeps every character", fc.record({ s: fc.string({ unit: fc.constantFrom("e\u0301", "\u212b", "\ufb01", "\ufeff", "\r\n", "\n", "\t", "\u0000", "a", "😀", " "), minLength: 1, maxLength: 8 }), n: fc.integer({ min: 1, max: 300 }), json: fc.boolean() }), (c) => {
    const s = c.s.repeat(c.n), v = c.json ? { s } : s;
    const res = P.LambdaProxyResponseBuilder.create(v).withCompression().build();
    must(delivered(res).equals(Buffer.from(c.json ? JSON.stringify(v) : s)), "delivered body differs");
    return res.headers["Content-Encoding"] ? "compressed" : false;
  }, { runs: 500, needs: [P.LambdaProxyResponseBuilder] });
  await prop("a dated copy is the same response", fc.record({ text, status: fc.constantFrom(200, 201, 404), file: fc.option(fc.constantFrom("a.txt", "b.json"), { nil: undefined }), d1: date, d2: date, how: fc.constantFrom("builder", "ok", "new") }), (c) => {
    const b64 = Buffer.from(c.text).toString("base64");
    const mk = () => { if (c.how === "builder") { let b = R.LambdaResponseBuilder.create(c.text).withStatus(c.status); if (c.file) b = b.withFileName(c.file); return b.build(); } return c.how === "ok" ? R.LambdaResponse.ok(c.text, c.file) : new R.LambdaResponse(c.status, b64, c.file); };
    const r = mk(), d = r.withTimestamp(c.d1);
    for (const k of ["status", "body", "fileName", "etag"]) same(d[k], mk()[k], `${k} of a dated response`);
    same(d.timestamp, c.d1.toUTCString(), "date");
    same(mk().withTimestamp(c.d2).etag, d.etag, "the date is not part of the ETag");
    if (c.how === "new") same(new R.LambdaResponse(c.status, b64, c.file, c.d2).etag, r.etag, "the date is not part of the ETag");
    return true;
  }, { runs: 300, ...need });

  // Binary bodies that differ only in bytes that are not valid UTF-8
  await prop("ETag distinguishes binary bodies", fc.tuple(fc.uint8Array({ minLength: 1, maxLength: 40 }), fc.nat(), fc.integer({ min: 1, max: 255 })), ([u, at, x]) => {
    const v = Uint8Array.from(u); v[at % v.length] ^= x;
    const mk = (z) => P.LambdaProxyResponseBuilder.create(Buffer.from(z).toString("base64"), true).build();
    must(mk(u).headers.ETag !== mk(v).headers.ETag, "two different binary bodies share an ETag");
    must(mk(u).headers.ETag === mk(Uint8Array.from(u)).headers.ETag, "same body, different ETag");
    return true;
  }, { runs: 1500, needs: [P.LambdaProxyResponseBuilder] });

  const big = fc.record({
    delta: fc.integer({ min: -1200, max: 1200 }), ch: fc.constantFrom("a", "ä", "\"", "\n", "€"), compress: fc.boolean(), extra: fc.constantFrom("", "name.txt"), status: fc.constantFrom(200, 201),
  });
  await prop("no proxy response exceeds the Lambda payload limit", big, (c) => {
    const unit = Buffer.byteLength(JSON.stringify(c.ch)) - 2;
    const n = Math.floor((LIMIT + c.delta) / unit);
    let b = P.LambdaProxyResponseBuilder.create(c.ch.repeat(n)).withStatus(c.status);
    if (c.extra) b = b.withFileName(c.extra);
    if (c.compress) b = b.withCompression();
    const r = b.build();
    const size = Buffer.byteLength(JSON.stringify(r));
    must(size <= LIMIT, `response of ${size} bytes`);
    // the body alone decides: headers of this response take between 60 and 400 bytes
    if (c.compress) { same(r.statusCode, c.status, "a compressible body fits"); return true; }
    const alone = n * unit;
    if (alone > LIMIT) {
      same(r.statusCode, 400, "an over-limit response is a client error");
      must(!delivered(r).toString().startsWith(c.ch.repeat(50)), "truncated body delivered");
      return "over";
    }
    if (alone < LIMIT - 600) { same(r.statusCode, c.status, "a fitting response is delivered"); must(delivered(r).equals(Buffer.from(c.ch.repeat(n))), "body"); }
    if (c.ch === "a") { // the limit to the byte
      const make = (k) => P.LambdaProxyResponseBuilder.create("a".repeat(k)).withStatus(c.status).build();
      const exact = LIMIT - 2000 + (LIMIT - Buffer.byteLength(JSON.stringify(make(LIMIT - 2000))));
      same(make(exact).statusCode, c.status, "a response of exactly the limit is delivered");
      same(make(exact + 1).statusCode, 400, "a response of one byte more is not");
    }
    return true;
  }, { runs: 24, thorough: 300, needs: [P.LambdaProxyResponseBuilder] });

  await prop("a base64 body is never declared compressed", fc.tuple(bytes, fc.boolean(), fc.boolean(), fc.constantFrom(undefined, "x", "longer text ".repeat(40))), ([u, before, viaCreate, earlier]) => {
    const b64 = Buffer.from(u).toString("base64");
    const o = throwsSync(() => {
      let b = earlier === undefined ? P.LambdaProxyResponseBuilder.create() : P.LambdaProxyResponseBuilder.create(earlier);
      if (before) { b = b.withCompression(); b = b.withBody(b64, true); }
      else { b = viaCreate ? P.LambdaProxyResponseBuilder.create(b64, true) : b.withBody(b64, true); b = b.withCompression(); }
      return b.build();
    });
    if (!o.error) must(delivered(o.value).equals(Buffer.from(u)), "delivered body differs");
    return true;
  }, { runs: 600, needs: [P.LambdaProxyResponseBuilder] });

  await prop("redirects and bodiless responses", fc.record({ path: fc.webPath().map((p) => p || "/"), status: fc.constantFrom(301, 302, 303, 307, 308), dflt: fc.boolean() }), (c) => {
    const r = c.dflt ? P.LambdaProxyResponseBuilder.redirect(c.path) : P.LambdaProxyResponseBuilder.redirect(c.path, c.status);
    same(r.statusCode, c.dflt ? 302 : c.status, "redirect status");
    same(r.headers.Location, c.path, "redirect target");
    same(r.body, "", "redirect body");
    return true;
  }, { runs: 300, needs: [P.LambdaProxyResponseBuilder] });

  await prop("a response that needs a body is refused without one", fc.integer({ min: 200, max: 599 }), (status) => {
    const o = throwsSync(() => P.LambdaProxyResponseBuilder.create().withStatus(status).build());
    const free = [204, 301, 302, 303, 307, 308].includes(status);
    must(!!o.error === !free, `status ${status}: ${o.error ? "refused" : "accepted"} without a body`);
    if (free) same(o.value.body, "");
    return free ? "bodiless" : "refused";
  }, { runs: 500, needs: [P.LambdaProxyResponseBuilder] });

  const ERR = { internalError: [500, "Internal Error"], notImplemented: [501, "Not Implemented"], badRequest: [400, "Bad Request"], notFound: [404, "Not Found"], unauthorized: [401, "Unauthorized"] };
  await prop("error responses", fc.tuple(fc.constantFrom(...Object.keys(ERR)), fc.option(fc.oneof(text, json), { nil: undefined }), fc.constantFrom("proxy", "builder", "static")), ([k, v, api]) => {
    if (api !== "proxy" && v !== undefined && typeof v !== "string") v = JSON.stringify(v);
    const api_ = { proxy: P.LambdaProxyResponseBuilder, builder: R.LambdaResponseBuilder, static: R.LambdaResponse }[api];
    const r = v === undefined ? api_[k]() : api_[k](v);
    const want = Buffer.from(v === undefined ? ERR[k][1] : typeof v === "string" ? v : JSON.stringify(v));
    same(r.statusCode ?? r.status, ERR[k][0], "status");
    if (api === "proxy") {
      must(delivered(r).equals(want), "error body");
      same(r.headers["Content-Type"], v === undefined || typeof v === "string" ? "text/plain" : "application/json", "content type of an error");
    } else must(Buffer.from(r.body, "base64").equals(want), "error body");
    return v !== undefined && k;
  }, { runs: 1500, ...need });

  // ---- responses for the mapping-template integration: always base64 ----
  const lspec = fc.record({
    api: fc.constantFrom("builder", "ok", "okJson", "okBinary", "contentTooLarge"),
    body, order: fc.uniqueArray(fc.constantFrom("file", "status", "time", "debug"), { maxLength: 4 }),
    file: fc.stringMatching(/^[a-z]{1,8}\.[a-z]{3}$/), status: fc.constantFrom(200, 201, 204, 400, 404, 500), time: date, timeAsString: fc.boolean(),
  });
  const lbuild = (s) => {
    const on = (o) => s.order.includes(o);
    const f = on("file") ? s.file : undefined;
    const strv = s.body.kind === "json" ? JSON.stringify(s.body.v) : s.body.v;
    let r, want, status = 200, file = f;
    if (s.api === "builder") {
      let b = s.body.kind === "json" ? R.LambdaResponseBuilder.create(s.body.v) : R.LambdaResponseBuilder.create().withBody(s.body.v);
      for (const o of s.order) {
        if (o === "file") b = b.withFileName(s.file);
        if (o === "status") b = b.withStatus(s.status);
        if (o === "time") b = b.withTimestamp(s.timeAsString ? s.time.toISOString() : s.time);
        if (o === "debug") b = b.withDebug();
      }
      status = on("status") ? s.status : 200;
      r = b.build(); want = Buffer.from(strv);
    } else if (s.api === "okJson") { r = R.LambdaResponse.okJson(s.body.v, f); want = Buffer.from(JSON.stringify(s.body.v)); }
    else if (s.api === "ok") { r = R.LambdaResponse.ok(strv, f); want = Buffer.from(strv); }
    else if (s.api === "okBinary") { const b64 = s.body.kind === "base64" ? s.body.v : Buffer.from(strv).toString("base64"); r = R.LambdaResponse.okBinary(b64, f); want = Buffer.from(b64, "base64"); }
    else { r = R.LambdaResponse.contentTooLarge(strv); want = Buffer.from(strv); status = 413; file = undefined; }
    let time;
    if (on("time")) { if (s.api !== "builder") r = r.withTimestamp(s.time); time = s.time.toUTCString(); }
    return { r, want, status, file, time };
  };
  await prop("mapped response delivers its body", lspec, (s) => {
    const { r, want, status, file, time } = lbuild(s);
    same(r.status, status, "status");
    must(/^[A-Za-z0-9+/]*={0,2}$/.test(r.body), "body is base64");
    must(Buffer.from(r.body, "base64").equals(want), "body");
    same(r.fileName, file, "file name");
    same(r.timestamp, time, "timestamp");
    must(ETAG.test(r.etag), `etag ${r.etag}`);
    return s.api;
  }, { runs: 3000, ...need });
  await prop("mapped response ETag identifies the body", fc.tuple(lspec, lspec, fc.boolean()), ([a, b, eqb]) => {
    if (eqb) b = { ...b, body: a.body, api: a.api };
    const x = lbuild(a), y = lbuild(b);
    const eq = x.want.equals(y.want);
    if (eq && eqb) must(x.r.etag === y.r.etag, "same body, different ETag");
    if (!eq) must(x.r.etag !== y.r.etag, "different body, same ETag");
    return eq ? "same" : "different";
  }, { runs: 1500, ...need });
  await prop("no mapped response exceeds the Lambda payload limit", fc.record({ delta: fc.integer({ min: -1500, max: 1500 }), ch: fc.constantFrom("a", "ä", "€") }), (c) => {
    const n = Math.floor(((LIMIT + c.delta) / 4) * 3 / Buffer.byteLength(c.ch));
    const r = R.LambdaResponseBuilder.create(c.ch.repeat(n)).build();
    const size = Buffer.byteLength(JSON.stringify(r));
    must(size <= LIMIT, `response of ${size} bytes`);
    const alone = Math.ceil((n * Buffer.byteLength(c.ch)) / 3) * 4;
    if (alone > LIMIT) { same(r.status, 400); return "over"; }
    if (alone < LIMIT - 400) { same(r.status, 200); must(Buffer.from(r.body, "base64").toString() === c.ch.repeat(n), "body"); }
    return true;
  }, { runs: 20, thorough: 300, ...need });
  await each("empty bodies are refused", ["", undefined], (v) => {
    must(throwsSync(() => (v === undefined ? R.LambdaResponseBuilder.create() : R.LambdaResponseBuilder.create(v)).build()).error, "built without a body");
    return true;
  }, need);
});
