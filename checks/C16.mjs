// C16: shared helpers: arrays, environment, objects, upload, keys, notifications.
import { check, fc, must, same, alike, show, capture, outcome, throwsSync } from "#harness";
import * as U from "#repo/lib/digitraffic-common/src/utils/utils.ts";
import * as V from "#repo/lib/digitraffic-common/src/types/validator.ts";
import * as S3 from "#repo/lib/digitraffic-common/src/aws/runtime/s3.ts";
import * as K from "#repo/lib/digitraffic-common/src/aws/runtime/apikey.ts";
import * as SL from "#repo/lib/digitraffic-common/src/utils/slack.ts";
import { S3Client } from "@aws-sdk/client-s3";
import { APIGatewayClient } from "@aws-sdk/client-api-gateway";

const o1 = { a: 1 }, o2 = { a: 1 };
const prim = fc.oneof(fc.integer({ min: -2, max: 2 }), fc.constantFrom("a", "b", "", null, undefined, true, Number.NaN, 0, -0, o1, o2, "1"));
const nullish = fc.constantFrom(null, undefined);
const lines = (out) => out.split("\n").filter(Boolean).map((l) => JSON.parse(l));

await check({
  rule: "arrays, keys, JSON values, uploads and notifications, compared with references; non-trivial: repeated values, ties, nested keys, failures",
  assumptions: ["sort values are finite numbers", "what happens to the caller when an upload fails is left open, the failure is logged in any case"],
}, async ({ prop }) => {
  await prop("arrays have the same values", fc.oneof(
    fc.record({ a: fc.oneof({ weight: 6, arbitrary: fc.array(prim, { maxLength: 6 }) }, { weight: 1, arbitrary: nullish }), b: fc.oneof({ weight: 6, arbitrary: fc.array(prim, { maxLength: 6 }) }, { weight: 1, arbitrary: nullish }) }),
    fc.record({ a: fc.array(prim, { maxLength: 6 }), m: fc.array(fc.nat({ max: 5 }), { maxLength: 8 }), x: fc.option(prim, { nil: null, freq: 3 }) }).map(({ a, m, x }) => ({ a, b: [...m.filter((i) => i < a.length).map((i) => a[i]), ...[...a].reverse(), ...(x === null ? [] : [x])] })),
  ), async ({ a, b }) => {
    let want;
    if (!a || !b) want = !a && !b;
    else { const has = (xs, v) => xs.some((x) => x === v || (Number.isNaN(x) && Number.isNaN(v))); want = a.every((v) => has(b, v)) && b.every((v) => has(a, v)); }
    same(U.bothArraysHasSameValues(a, b), want, `${show(a)} and ${show(b)}`);
    same(U.bothArraysHasSameValues(b, a), want, `${show(b)} and ${show(a)}`);
    return want ? (a?.length !== b?.length ? "repeated" : a ? "same" : "missing") : a && b ? "different" : false;
  }, { runs: 4000, needs: [U.bothArraysHasSameValues] });

  await prop("first and last by sort value", fc.record({ ks: fc.array(fc.oneof(fc.integer({ min: -3, max: 3 }), fc.double({ noNaN: true, noDefaultInfinity: true, min: -1e9, max: 1e9 })), { maxLength: 30 }), sort: fc.boolean(), last: fc.boolean() }), async (c) => {
    const xs = c.ks.map((k, i) => ({ k, i })), before = structuredClone(xs), f = c.last ? U.getLast : U.getFirst;
    const r = throwsSync(() => (c.sort ? f(xs, (x) => x.k) : f(xs)));
    if (xs.length === 0) { must(r.error, "an empty array is refused"); return "empty"; }
    must(!r.error, () => `${r.error?.stack}`);
    same(xs, before, "the array is left as it is");
    if (!c.sort) { must(r.value === xs[c.last ? xs.length - 1 : 0], "the element at the end"); return "position"; }
    const ks = xs.map((x) => x.k);
    const best = c.last ? Math.max(...ks) : Math.min(...ks);
    must(r.value && xs.includes(r.value) && r.value.k === best, () => `${show(r.value)} for ${show(ks)}`);
    return ks.filter((k) => k === best).length > 1 ? "ties" : xs.length > 10 ? "long" : xs.length > 1;
  }, { runs: 2500, needs: [U.getFirst, U.getLast] });

  const name = fc.stringMatching(/^VT_[A-Z]{1,6}$/);
  await prop("environment", fc.record({ set: fc.dictionary(name, fc.string({ maxLength: 6 }).map((s) => s.replace(/\0/g, "")), { maxKeys: 3 }), ask: name, alt: fc.oneof(fc.string(), fc.integer(), fc.constant(undefined), fc.constant(null), fc.constant("")), hit: fc.boolean() }), async (c) => {
    for (const k of Object.keys(process.env)) if (k.startsWith("VT_")) delete process.env[k];
    for (const [k, v] of Object.entries(c.set)) U.setEnvVariable(k, v);
    for (const [k, v] of Object.entries(c.set)) same(process.env[k], v, "set");
    const key = c.hit && Object.keys(c.set)[0] ? Object.keys(c.set)[0] : c.ask, v = process.env[key];
    const e = U.getEnvVariableSafe(key), t = throwsSync(() => U.getEnvVariable(key));
    let calls = 0;
    const or = U.getEnvVariableOr(key, () => { calls++; return c.alt; }), orElse = U.getEnvVariableOrElse(key, c.alt);
    if (v !== undefined) {
      alike(e, { result: "ok", value: v }, "either"); same(t.value, v, "value"); same(or, v, "or"); same(orElse, v, "or else"); same(calls, 0, "the alternative isn't computed");
    } else {
      must(e.result === "error" && String(e.message).includes(key), () => `either ${show(e)}`); must(t.error && t.error.message.includes(key), "refused by name"); same(or, c.alt, "or"); same(orElse, c.alt, "or else"); same(calls, 1, "computed once");
    }
    return v === "" ? "empty" : v !== undefined ? "set" : "unset";
  }, { runs: 1000, needs: [U.getEnvVariable, U.getEnvVariableSafe, U.getEnvVariableOr, U.getEnvVariableOrElse, U.setEnvVariable] });
  await prop("region variables", fc.record({ r: fc.stringMatching(/^[a-z]{2}-[a-z]+-\d$/), o: fc.stringMatching(/^[a-z]{2}-[a-z]+-\d$/) }), async (c) => {
    U.setEnvVariableAwsRegion(c.r); U.setSecretOverideAwsRegionEnv(c.o);
    same([process.env.AWS_REGION, process.env.SECRET_OVERRIDE_AWS_REGION], [c.r, c.o]);
    return c.r !== c.o;
  }, { runs: 50, needs: [U.setEnvVariableAwsRegion, U.setSecretOverideAwsRegionEnv] });

  const objKey = fc.constantFrom("a", "b", "c", "length", "id", "toString", "hasOwnProperty", "constructor", "x-y", "0");
  const json = fc.letrec((t) => ({ v: fc.oneof({ maxDepth: 4, depthSize: "small" }, fc.constantFrom(null, true, 0, 1, "a", "", "id"), fc.array(t("v"), { maxLength: 4 }), fc.dictionary(objKey, t("v"), { maxKeys: 5 })) })).v;
  await prop("own properties", fc.record({ o: fc.dictionary(objKey, fc.integer(), { maxKeys: 5 }), k: objKey, own: fc.boolean() }), async (c) => {
    const o = c.own ? Object.assign(Object.create({ inherited: 1, [c.k]: 2 }), c.o) : c.o;
    same(U.hasOwnPropertySafe(o, c.k), Object.keys(c.o).includes(c.k)); same(U.hasOwnPropertySafe(o, "inherited"), false);
    return c.own || c.k in {};
  }, { runs: 500, needs: [U.hasOwnPropertySafe] });
  const omit = (v, ks) => (Array.isArray(v) ? v.map((x) => omit(x, ks)) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).filter(([k]) => !ks.includes(k)).map(([k, x]) => [k, omit(x, ks)])) : v);
  await prop("keys are omitted at every depth", fc.record({ v: fc.oneof(json, fc.array(fc.dictionary(objKey, json, { maxKeys: 4 }), { maxLength: 4 })), ks: fc.uniqueArray(objKey, { maxLength: 4 }) }), async (c) => {
    const before = structuredClone(c.v), got = U.omitDeep(c.v, ...c.ks), want = omit(before, c.ks);
    same(got, want, "result"); same(c.v, before, "the given value is not changed");
    if (c.v && typeof c.v === "object") must(got !== c.v, "a new object");
    return JSON.stringify(want) !== JSON.stringify(before);
  }, { runs: 3000, needs: [U.omitDeep] });
  await prop("defined values and messages", fc.oneof(fc.anything({ withNullPrototype: false }), fc.constantFrom(null, undefined, 0, "", false), fc.record({ m: fc.string(), k: fc.constantFrom(Error, TypeError, RangeError) }).map(({ m, k }) => new k(m))), async (v) => {
    same(U.isDefined(v), v !== null && v !== undefined);
    if (v instanceof Error) { same(U.getErrorMessage(v), `${v.name}: ${v.message}`); return "error"; }
    if (v === null || typeof v !== "object") same(U.getErrorMessage(v), String(v));
    return v === null || v === undefined || v === 0 || v === "" || v === false;
  }, { runs: 600, needs: [U.isDefined, U.getErrorMessage] });
  await prop("years and months", fc.record({ y: fc.oneof(fc.integer({ min: 1890, max: 2110 }), fc.integer(), fc.constantFrom(1900, 2100, 1899, 2101, 0)), m: fc.integer({ min: -3, max: 16 }), lo: fc.option(fc.integer({ min: 1890, max: 2000 }), { nil: undefined }), hi: fc.option(fc.integer({ min: 2000, max: 2110 }), { nil: undefined }) }), async (c) => {
    same(V.validateYear(c.y, c.lo, c.hi), c.y >= (c.lo ?? 1900) && c.y <= (c.hi ?? 2100), `year ${c.y} in ${c.lo}..${c.hi}`);
    same(V.validateMonth(c.m), [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12].includes(c.m), `month ${c.m}`);
    return c.m < 1 || c.m > 12;
  }, { runs: 1500, needs: [V.validateYear, V.validateMonth] });

  const sent = [];
  let fail;
  const patch = (C) => { C.prototype.send = async function (cmd) { sent.push(cmd); await null; if (fail) throw new Error("send failed"); return { value: "the-key", id: cmd.input.apiKey }; }; };
  patch(S3Client); patch(APIGatewayClient);
  const text = fc.string({ maxLength: 10 });
  await prop("an upload stores one object as given", fc.record({ bucket: fc.stringMatching(/^[a-z]{3,8}$/), key: text, body: text, acl: fc.constantFrom(undefined, "private", "public-read"), type: fc.constantFrom(undefined, "text/plain", "application/json", "text/csv;charset=UTF-8"), fail: fc.boolean() }), async (c) => {
    sent.length = 0; fail = c.fail;
    const { out } = await capture(() => outcome(() => S3.uploadToS3(new S3Client({ region: "eu-west-1" }), c.bucket, c.body, c.key, c.acl, c.type)));
    same(sent.length, 1, "one request");
    same(sent[0].constructor.name, "PutObjectCommand");
    const want = { Bucket: c.bucket, Key: c.key, Body: c.body, ACL: c.acl, ContentType: c.type };
    for (const k of new Set([...Object.keys(want), ...Object.keys(sent[0].input)])) same(sent[0].input[k], want[k], k);
    const ls = lines(out);
    if (c.fail) must(ls.some((l) => l.level === "ERROR" && JSON.stringify(l).includes(c.bucket)), () => `the failure is logged with the bucket: ${out}`); else same(ls.filter((l) => l.level === "ERROR").length, 0, "no error is logged");
    return c.fail ? "failure" : c.acl || c.type ? "attributes" : false;
  }, { runs: 400, needs: [S3.uploadToS3] });
  process.env.AWS_REGION = "eu-west-1";
  await prop("the value of an API key is fetched", fc.record({ id: fc.stringMatching(/^[a-z0-9]{1,10}$/), fail: fc.boolean() }), async (c) => {
    sent.length = 0; fail = c.fail;
    const { value: r } = await capture(() => outcome(() => K.getApiKeyFromAPIGateway(c.id)));
    same(sent.length, 1, "one request"); alike(sent[0].input, { apiKey: c.id, includeValue: true }, "request");
    if (c.fail) must(r.error, "the failure reaches the caller"); else alike(r.value, { value: "the-key", id: c.id }, "answer");
    return c.fail ? "failure" : "key";
  }, { runs: 60, needs: [K.getApiKeyFromAPIGateway] });
  await prop("notifications are posted and never fail the caller", fc.record({ text: fc.oneof({ weight: 5, arbitrary: fc.string({ unit: "binary", maxLength: 20 }) }, { weight: 1, arbitrary: fc.tuple(fc.string({ minLength: 1, maxLength: 9 }), fc.integer({ min: 200, max: 6000 })).map(([s, n]) => s.repeat(n)) }), path: fc.stringMatching(/^[a-z]{1,8}$/), status: fc.constantFrom(200, 200, 204, 400, 403, 404, 410), fault: fc.constantFrom(undefined, undefined, "network") }), async (c) => {
    const calls = [];
    globalThis.fetch = async (req, o) => { const r = req instanceof Request ? req : new Request(req, o); calls.push({ url: r.url, method: r.method, type: r.headers.get("content-type"), body: await r.text() }); if (c.fault) throw new TypeError("fetch failed"); return new Response(c.status === 204 ? null : "ok", { status: c.status }); };
    const url = `https://hooks.example.org/${c.path}`;
    const { value: r, out } = await capture(() => outcome(() => new SL.SlackApi(url).notify(c.text)));
    must(!r.error, () => `rejected: ${r.error?.message}`);
    same(calls.length, 1, "one request"); same(calls[0].url, url); same(calls[0].method, "POST"); same(calls[0].type, "application/json");
    same(JSON.parse(calls[0].body), { text: c.text.toWellFormed() }, "body");
    const failed = c.fault || c.status >= 400;
    same(lines(out).some((l) => l.level === "ERROR"), !!failed, "a failure is logged");
    return failed ? "failure" : "posted";
  }, { runs: 300, needs: [SL.SlackApi.prototype.notify] });
});
