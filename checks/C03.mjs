// C03: secrets: freshness, caching, prefixes, completeness, credential export.
import { SecretsManager } from "@aws-sdk/client-secrets-manager";
import { check, fc, must, same, outcome, fakeClock } from "#harness";
import * as H from "#repo/lib/digitraffic-common/src/aws/runtime/secrets/secret-holder.ts";
import * as S from "#repo/lib/digitraffic-common/src/aws/runtime/secrets/secret.ts";
import * as RH from "#repo/lib/digitraffic-common/src/aws/runtime/secrets/rds-holder.ts";
import * as PH from "#repo/lib/digitraffic-common/src/aws/runtime/secrets/proxy-holder.ts";

let store = {}, fetches = [], mode = "ok";
SecretsManager.prototype.getSecretValue = async function (input) {
  fetches.push(input.SecretId);
  const m = mode;
  if (m === "throw") throw Object.assign(new Error("throttled"), { name: "ThrottlingException" });
  if (m === "empty") return {};
  if (m === "garbage") return { SecretString: "{not json" };
  return { SecretString: JSON.stringify(store[input.SecretId]) };
};
const prefixes = fc.constantFrom("", "a", "ab", "db", "a.b");
const key = fc.oneof(
  fc.constantFrom("a.x", "ab.x", "a.b.x", "a", "a.", "x", "db.user", "dbuser", "b.a.x", "y", "db.a.x", "axx"),
  fc.stringMatching(/^[a-c]{1,2}(\.[a-c]{1,2})?$/),
);
const secret = fc.dictionary(key, fc.constantFrom("", "v1", "v2", "0", "p.w"), { maxKeys: 14, size: "max", noNullPrototype: true });
const project = (s, prefix) => (prefix === "" ? s : Object.fromEntries(Object.entries(s).filter(([k, v]) => k.startsWith(prefix + ".") && v).map(([k, v]) => [k.slice(prefix.length + 1), v])));

const cmd = fc.oneof(
  { weight: 5, arbitrary: fc.record({ op: fc.constant("get"), n: fc.constantFrom(1, 1, 1, 3) }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant("advance"), f: fc.constantFrom(0.001, 0.3, 0.5, 0.9, 1.1, 1.5, 4) }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant("rotate"), secret }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant("mode"), mode: fc.constantFrom("ok", "ok", "throw", "empty", "garbage") }) },
);
const hist = fc.record({
  prefix: prefixes, expected: fc.uniqueArray(fc.constantFrom("x", "user", "a", "y"), { maxLength: 2 }),
  ttl: fc.constantFrom(undefined, 1, 60, 3600), first: secret, cmds: fc.array(cmd, { maxLength: 14 }), viaCreate: fc.boolean(),
});

await check({
  rule: "histories of reads, rotations, outages and clock steps against a scripted secret store and a virtual clock, compared with a reference cache; non-trivial: a history with an expiry after a rotation or an outage, a prefix that hides keys, or a refused secret",
  assumptions: ["the instant exactly at the end of the lifetime may be served from cache or refreshed"],
}, async ({ prop }) => {
  await prop("reads are fresh, complete and cached", hist, async (h) => {
    const clock = fakeClock(1_700_000_000_000, ["Date"]);
    try {
      mode = "ok"; fetches = []; store = { sid: h.first };
      process.env.SECRET_ID = "sid"; process.env.AWS_REGION = "eu-west-1";
      const ttl = h.ttl ?? 300;
      const holder = h.ttl !== undefined ? new H.SecretHolder("sid", h.prefix, h.expected, { ttl }) : h.viaCreate ? H.SecretHolder.create(h.prefix, h.expected) : new H.SecretHolder("sid", h.prefix, h.expected);
      let cached, expiry = -Infinity, rotated = false, interesting = false;
      for (const c of h.cmds) {
        if (c.op === "advance") clock.tick(Math.max(1, Math.round(ttl * 1000 * c.f)));
        else if (c.op === "rotate") { store.sid = c.secret; rotated = true; }
        else if (c.op === "mode") { mode = c.mode; if (mode !== "ok") interesting = true; }
        else {
          const before = fetches.length;
          const rs = await Promise.all(Array.from({ length: c.n }, () => outcome(() => holder.get())));
          const now = Date.now();
          const fetched = fetches.length - before;
          const stale = now > expiry;
          if (now < expiry) must(fetched === 0, "a cached secret was read again before its lifetime ended");
          if (stale) must(fetched >= 1 && fetched <= c.n, `an expired secret was served from the cache (${fetched} reads)`);
          if (c.n === 1) must(fetched <= 1, "more than one read");
          for (const id of fetches) same(id, "sid", "secret id");
          for (const r of rs) {
            if (stale && mode !== "ok") { must(r.error, "a failed read did not fail"); continue; }
            const want = project(stale ? store.sid : cached, h.prefix);
            const missing = h.expected.some((k) => !(k in want));
            if (missing) { must(r.error, () => `a secret without ${h.expected} was accepted: ${JSON.stringify(r.value)}`); interesting = true; continue; }
            must(!r.error, () => `get failed: ${r.error?.stack}`);
            same({ ...r.value }, { ...want }, "secret content");
            if (h.prefix && Object.keys(want).length < Object.keys(stale ? store.sid : cached).length) interesting = true;
          }
          if (stale && mode === "ok") { cached = structuredClone(store.sid); expiry = now + ttl * 1000; if (rotated) interesting = true; }
        }
      }
      return interesting;
    } finally { clock.uninstall(); }
  }, { runs: 4000, needs: [H.SecretHolder] });

  await prop("direct reads", fc.record({ prefix: fc.option(prefixes, { nil: undefined }), secret, mode: fc.constantFrom("ok", "ok", "ok", "throw", "empty", "garbage"), id: fc.constantFrom("one", "two") }), async (c) => {
    mode = c.mode; fetches = []; store = { one: {}, two: {}, [c.id]: c.secret };
    const r = await outcome(() => (c.prefix === undefined ? S.getSecret(c.id) : S.getSecret(c.id, c.prefix)));
    same(fetches, [c.id], "one read of the named secret");
    if (c.mode !== "ok") { must(r.error, "failed read accepted"); return c.mode; }
    same({ ...r.value }, { ...project(c.secret, c.prefix ?? "") }, "content");
    return !!c.prefix;
  }, { runs: 1500, needs: [S.getSecret] });

  await prop("environment first, then the secret", fc.record({ env: fc.option(fc.constantFrom("", "e1", "0"), { nil: undefined }), secret: fc.option(fc.constantFrom("", "s1"), { nil: undefined }), mode: fc.constantFrom("ok", "throw") }), async (c) => {
    mode = c.mode; fetches = []; store = { sec: c.secret === undefined ? { other: "z" } : { VERIF_K: c.secret } };
    if (c.env === undefined) delete process.env.VERIF_K; else process.env.VERIF_K = c.env;
    const r = await outcome(() => S.getFromEnvOrSecret("VERIF_K", "sec"));
    delete process.env.VERIF_K;
    if (c.env !== undefined) { same(r.value, c.env, "environment value wins"); same(fetches.length, 0, "secret not needed"); }
    else if (c.mode !== "ok" || c.secret === undefined) must(r.error, "a missing value was accepted");
    else same(r.value, c.secret, "secret value");
    return true;
  }, { runs: 200, needs: [S.getFromEnvOrSecret] });

  const KEYS = { rds: ["username", "password", "host", "ro_host"], proxy: ["username", "password", "proxy_host", "proxy_ro_host"] };
  const ENV = ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"];
  await prop("database credentials come complete from the right keys", fc.record({
    kind: fc.constantFrom("rds", "proxy"), own: fc.boolean(), drop: fc.option(fc.nat({ max: 3 }), { nil: undefined }), broken: fc.boolean(),
    vals: fc.dictionary(fc.constantFrom("username", "password", "host", "ro_host", "proxy_host", "proxy_ro_host"), fc.stringMatching(/^[a-z0-9:./]{1,10}$/), { noNullPrototype: true }),
    again: fc.boolean(),
  }), async (c) => {
    const keys = KEYS[c.kind];
    const full = Object.fromEntries(["username", "password", "host", "ro_host", "proxy_host", "proxy_ro_host"].map((k) => [k, c.vals[k] ?? `dflt-${k}`]));
    if (c.drop !== undefined) delete full[keys[c.drop]];
    store = { sid: full }; fetches = []; mode = c.broken ? "throw" : "ok"; process.env.SECRET_ID = "sid";
    for (const e of ENV) process.env[e] = `old-${e}`;
    const cls = c.kind === "rds" ? RH.RdsHolder : PH.ProxyHolder;
    const holder = c.own ? cls.create(new H.SecretHolder("sid", "", keys)) : cls.create();
    let r = await outcome(() => holder.setCredentials());
    if (c.broken && c.again) { mode = "ok"; r = await outcome(() => holder.setCredentials()); }
    const bad = (c.broken && !c.again) || c.drop !== undefined;
    must(!!r.error === bad, () => (bad ? "incomplete credentials accepted" : `refused: ${r.error?.stack}`));
    const got = ENV.map((e) => process.env[e]);
    same(got, bad ? ENV.map((e) => `old-${e}`) : keys.map((k) => full[k]), "credentials in effect");
    for (const e of ENV) delete process.env[e];
    return bad ? "refused" : "set";
  }, { runs: 800, needs: [RH.RdsHolder, PH.ProxyHolder] });
});
