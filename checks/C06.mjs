// C06: web access control lists, judged by evaluating the synthesised rules on generated requests.
import { check, fc, must, same, alike, show, capture } from "#harness";
import { posix } from "node:path";
import { createHash } from "node:crypto";
import { App, Stack } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import * as A from "#repo/lib/digitraffic-common/src/aws/infra/acl-builder.ts";
import * as CA from "#repo/other/cloudfront/src/acl/acl-creator.ts";
import * as W from "#repo/other/cloudfront/src/acl/waf-rules.ts";

const GROUPS = ["CommonRuleSet", "AmazonIpReputationList", "KnownBadInputsRuleSet", "SQLiRuleSet"];
const ALWAYS_EXCLUDED = { CommonRuleSet: ["NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY"] };

// ---------- what a web ACL does with a request ----------
const lc = (o) => (Array.isArray(o) ? o.map(lc) : o && typeof o === "object" ? Object.fromEntries(Object.entries(o).map(([k, v]) => [(k[0].toLowerCase() + k.slice(1)).replace(/^iP/, "ip"), lc(v)])) : o);
const SPELLINGS = [["/api/x", "/API/x", true], ["/api/x", "/api/X", true], ["/api/x", "/api//x", true], ["/api/x", "/api/./x", true], ["/api/x", "/api/y/../x", true], ["/api/x", "/api/y", false], ["/api/x", "/api/x/y", false], ["/api/x", "/apix", false], ["/", "/api", false]];
const TRANSFORM = { NONE: (v) => v, LOWERCASE: (v) => v.toLowerCase(), NORMALIZE_PATH: (v) => posix.normalize(v), MD5: (v) => createHash("md5").update(v).digest("latin1"), HEX_ENCODE: (v) => Buffer.from(v, "latin1").toString("hex") };
const transformed = (ts, v) => [...ts].sort((a, b) => a.priority - b.priority).reduce((x, t) => { must(TRANSFORM[t.type], () => `text transformation ${t.type}`); return TRANSFORM[t.type](x); }, v);
function field(f, r) {
  if (f.singleHeader) return r.headers[String(f.singleHeader.name).toLowerCase()];
  if (f.uriPath) return r.path;
  if (f.queryString) return r.query;
  throw new Error(`field ${show(f)}`);
}
function matches(s, r, ipsets) {
  if (s.notStatement) return !matches(s.notStatement.statement, r, ipsets);
  if (s.andStatement) return s.andStatement.statements.every((x) => matches(x, r, ipsets));
  if (s.orStatement) return s.orStatement.statements.some((x) => matches(x, r, ipsets));
  if (s.sizeConstraintStatement) {
    const c = s.sizeConstraintStatement, v = field(c.fieldToMatch, r); // size of the text as sent
    if (v === undefined) return false; // a missing component never matches
    const n = Buffer.byteLength(v);
    return { GT: n > c.size, GE: n >= c.size, LT: n < c.size, LE: n <= c.size, EQ: n === c.size, NE: n !== c.size }[c.comparisonOperator];
  }
  if (s.regexMatchStatement) return new RegExp(s.regexMatchStatement.regexString).test(transformed(s.regexMatchStatement.textTransformations, field(s.regexMatchStatement.fieldToMatch, r)));
  if (s.ipSetReferenceStatement) return ipsets[s.ipSetReferenceStatement.arn["fn::GetAtt"][0]].addresses.includes(r.ip);
  throw new Error(`statement ${show(s)}`);
}
/** what one rule does with a request, as plain data */
function effect(rule, r, ipsets) {
  const st = rule.statement;
  const action = rule.action?.block ? "block" : rule.action?.count ? "count" : rule.overrideAction ? `override ${Object.keys(rule.overrideAction)}` : "none";
  if (st.managedRuleGroupStatement) return { group: st.managedRuleGroupStatement.vendorName + "/" + st.managedRuleGroupStatement.name, excluded: st.managedRuleGroupStatement.excludedRules.map((x) => x.name).sort(), action };
  const custom = rule.action?.block?.customResponse;
  const base = { action, ...(custom ? { code: custom.responseCode, body: custom.customResponseBodyKey } : {}) };
  if (st.rateBasedStatement) {
    const b = st.rateBasedStatement;
    const keys = b.aggregateKeyType === "CUSTOM_KEYS" ? b.customKeys.map((k) => Object.keys(k)[0].replace(/^iP$/, "ip")).sort().join("+") : b.aggregateKeyType.toLowerCase();
    const of = b.customKeys?.find((k) => k.uriPath)?.uriPath.textTransformations;
    // requests are counted together with the spellings of their path that reach the same resource, and with no other path
    const counter = of && SPELLINGS.map(([x, y]) => transformed(of, x) === transformed(of, y));
    return { ...base, rate: { limit: b.limit, per: keys, counted: b.scopeDownStatement ? matches(b.scopeDownStatement, r, ipsets) : true, counter } };
  }
  return { ...base, hit: matches(st, r, ipsets) };
}
function read(stack) {
  const res = Template.fromStack(stack).toJSON().Resources;
  const acls = Object.values(res).filter((x) => x.Type === "AWS::WAFv2::WebACL");
  const ipsets = Object.fromEntries(Object.entries(res).filter(([, x]) => x.Type === "AWS::WAFv2::IPSet").map(([k, x]) => [k, lc(x.Properties)]));
  must(acls.length === 1, `${acls.length} web ACLs`);
  const raw = acls[0].Properties;
  const acl = lc(raw); acl.bodies = raw.CustomResponseBodies ?? {};
  return { acl, ipsets };
}
const requests = [];
for (const user of [undefined, "", "me/1.0"]) for (const path of ["/", "/api/x", "/API/abc/1", "/zz9"]) for (const ip of ["1.2.3.4", "9.9.9.9"]) for (const query of ["", "a=1", "q".repeat(60)]) {
  requests.push({ ip, path, query, headers: user === undefined ? {} : { "digitraffic-user": user } });
}

// ---------- reference ----------
function reference(ops) {
  const count = [], block = [], bodies = {};
  const throttle = (name, limit, identified, perPath, bodyKey, path) => (bodyKey ? block : count).push({
    name, effect: (r) => ({ action: bodyKey ? "block" : "count", ...(bodyKey ? { code: 429, body: bodyKey } : {}), rate: { limit, per: perPath ? "ip+uriPath" : "ip", counted: !!r.headers["digitraffic-user"] === identified && (!path || path.test(r.path)), counter: perPath ? SPELLINGS.map(([, , together]) => together) : undefined } }),
  });
  const body = (key, limit) => { bodies[key] ??= limit; };
  for (const o of ops) {
    switch (o.op) {
      case "managed":
        for (const g of GROUPS) if (o.groups === "all" || o.groups.includes(g)) block.push({ name: `AWS-${g}`, effect: () => ({ group: `AWS/AWSManagedRules${g}`, excluded: [...(ALWAYS_EXCLUDED[g] ?? []), ...(o.excluded?.[g] ?? [])].sort(), action: "override none" }) });
        break;
      case "blacklist": block.push({ name: "bl", effect: (r) => ({ action: "block", hit: o.ips.includes(r.ip) }) }); break;
      case "whitelist": block.push({ name: "wl", effect: (r) => ({ action: "block", hit: !o.ips.includes(r.ip) }) }); break;
      case "query": block.push({ name: "qs", effect: (r) => ({ action: "block", hit: r.query.length > o.limit }) }); break;
      case "body": bodies[o.key] = { own: o.text }; break;
      case "count": if (o.limit !== undefined) throttle(`count ${o.user} ${o.perPath} ${o.limit}`, o.limit, o.user, o.perPath); break;
      case "throttle":
        if (o.limit !== undefined) { const k = `IP${o.perPath ? "_PATH" : ""}_THROTTLE_${o.user ? "DIGITRAFFIC" : "ANONYMOUS"}_USER_${o.limit}`; body(k, o.limit); throttle(`throttle ${o.user} ${o.perPath}`, o.limit, o.user, o.perPath, k); }
        break;
      case "byPath":
        if (o.limit !== undefined && o.path !== undefined) { const k = `IP_THROTTLE_ANONYMOUS_USER_BY_PATH_${o.limit}`; body(k, o.limit); throttle("by path", o.limit, false, false, k, new RegExp(o.path)); }
        break;
      case "raw": throttle(`raw ${o.name}`, o.limit, o.user, o.perPath, o.key, o.path === undefined ? undefined : new RegExp(o.path)); break;
    }
  }
  const rules = [...count, ...block];
  const refused = rules.length === 0 || new Set(rules.map((r) => r.name)).size !== rules.length;
  return { rules, refused, bodies };
}
const method = (o) => (o.op === "count" ? "withCount" : "withThrottle") + (o.user ? "DigitrafficUser" : "AnonymousUser") + "Ip" + (o.perPath ? "AndUriPath" : "");
function apply(b, o) {
  switch (o.op) {
    case "managed": return b.withAWSManagedRules(...[o.groups, o.excluded].slice(0, o.excluded === undefined ? 1 : 2));
    case "blacklist": return b.withIpBlacklistRule(o.ips);
    case "whitelist": return b.withIpWhitelistRule(o.ips);
    case "query": return b.withQueryStringSizeRestriction(o.limit);
    case "body": return b.withCustomResponseBody(o.key, { content: o.text, contentType: "TEXT_PLAIN" });
    case "count": case "throttle": return b[method(o)](o.limit);
    case "byPath": return b.withThrottleAnonymousUserIpByUriPath(o.limit, o.path === undefined ? undefined : new RegExp(o.path));
    case "raw": return b.withThrottleRule(o.name, o.limit, o.user, o.perPath, o.key, o.path === undefined ? undefined : new RegExp(o.path));
  }
}
function compare({ acl, ipsets }, ref) {
  same(acl.rules.map((r) => r.priority).sort((a, b) => a - b), ref.rules.map((_, i) => i), "priorities are 0 to n-1, each once");
  const ordered = [...acl.rules].sort((a, b) => a.priority - b.priority);
  same(new Set(ordered.map((r) => r.name)).size, ordered.length, "rule names differ");
  for (const r of ordered) {
    must((r.action === undefined) !== (r.overrideAction === undefined), () => `rule ${r.name} needs exactly one of action and overrideAction`);
    must(r.visibilityConfig?.cloudWatchMetricsEnabled === true && r.visibilityConfig.metricName, "metrics are published");
  }
  same(new Set(ordered.map((r) => r.visibilityConfig.metricName)).size, ordered.length, "metric names differ");
  for (const q of requests) ref.rules.forEach((e, i) => alike(effect(ordered[i], q, ipsets), e.effect(q), `rule ${i} (${ordered[i].name}) on ${show(q)}`));
  for (const r of ordered) {
    const k = r.action?.block?.customResponse?.customResponseBodyKey;
    if (k === undefined || !(k in ref.bodies)) continue;
    must(k in acl.bodies, () => `response body ${k} is not defined`);
  }
  for (const [k, v] of Object.entries(ref.bodies)) {
    must(acl.bodies[k], () => `response body ${k} is missing`);
    if (v.own !== undefined) same(acl.bodies[k].Content, v.own, `response body ${k}`);
    else must(acl.bodies[k].Content.match(/\d+/)?.[0] === String(v), () => `the response body ${k} names the limit ${v}: ${acl.bodies[k].Content}`);
  }
  same(Object.keys(acl.bodies).sort(), Object.keys(ref.bodies).sort(), "response bodies");
  must(acl.defaultAction?.allow && !acl.defaultAction.block, "requests no rule blocks are allowed");
  same(acl.scope, "CLOUDFRONT", "scope");
  for (const s of Object.values(ipsets)) same(s.scope, "CLOUDFRONT", "ip set scope");
}

const limit = fc.constantFrom(50, 100, 100, 500, 2000, undefined);
const path = fc.constantFrom("^/api", "abc", "\\d$", "/x$", "^/API", "[A-Z]");
const ips = fc.constantFrom(["1.2.3.4"], ["9.9.9.9", "1.2.3.4"], ["7.7.7.7"], []);
const exc = fc.option(fc.dictionary(fc.constantFrom(...GROUPS), fc.uniqueArray(fc.constantFrom(..."ABCDEFGHIJKL".split("").map((x) => `Rule${x}`)), { maxLength: 12, size: "max" }), { maxKeys: 4 }), { nil: undefined });
const op = fc.oneof(
  { weight: 2, arbitrary: fc.record({ op: fc.constant("managed"), groups: fc.oneof(fc.constant("all"), fc.subarray(GROUPS)), excluded: exc }) },
  fc.record({ op: fc.constant("blacklist"), ips }), fc.record({ op: fc.constant("whitelist"), ips }),
  fc.record({ op: fc.constant("query"), limit: fc.constantFrom(0, 2, 59, 60, 8192) }),
  { weight: 5, arbitrary: fc.record({ op: fc.constant("throttle"), user: fc.boolean(), perPath: fc.boolean(), limit }) },
  { weight: 4, arbitrary: fc.record({ op: fc.constant("count"), user: fc.boolean(), perPath: fc.boolean(), limit }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant("byPath"), limit, path: fc.option(path, { nil: undefined }) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant("raw"), name: fc.constantFrom("RuleX", "RuleY", "RuleZ"), limit: fc.constantFrom(10, 99), user: fc.boolean(), perPath: fc.boolean(), key: fc.option(fc.constantFrom("KEY1", "IP_THROTTLE_ANONYMOUS_USER_100"), { nil: undefined }), path: fc.option(path, { nil: undefined }) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant("body"), key: fc.constantFrom("IP_THROTTLE_ANONYMOUS_USER_100", "IP_PATH_THROTTLE_DIGITRAFFIC_USER_50", "KEY1"), text: fc.constantFrom("own text", "other text") }) },
);

await check({
  rule: "sequences of rule requests on the public builder, synthesised to CloudFormation; every rule evaluated on 72 requests (header absent, empty or given; path; address; query) and compared with a reference list; non-trivial: at least two rules or a refused list",
  assumptions: ["AWS WAF treats a missing header as not matching a size constraint"],
}, async ({ prop }) => {
  await prop("rules do what was asked for, in order", fc.array(op, { maxLength: 7 }), async (ops) => {
    const ref = reference(ops);
    const stack = new Stack(new App());
    const { value, error } = await capture(() => { const b = new A.AclBuilder(stack, "TestAcl"); for (const o of ops) must(apply(b, o) === b, "the builder returns itself"); return b.build(); });
    if (error?.name === "Violation") throw error;
    // an own body for a key used only by another kind is kept; two ip sets of a kind cannot coexist
    if (ref.refused) { must(error, () => `accepted ${ref.rules.length} rules, ${ref.rules.map((r) => r.name)}`); return "refused"; }
    must(!error, () => `refused: ${error}`);
    must(value, "no ACL");
    compare(read(stack), ref);
    return ref.rules.length > 1 && `${ref.rules.length} rules`;
  }, { runs: 700, needs: [A.AclBuilder] });

  await prop("address lists and size limits are taken whole", fc.record({ n: fc.constantFrom(0, 1, 3, 101, 1200), mask: fc.array(fc.integer({ min: 1, max: 32 }), { minLength: 1, maxLength: 4 }), black: fc.boolean(), size: fc.constantFrom(0, 1, 2, 4095, 8192) }), async (c) => {
    const stack = new Stack(new App()), list = Array.from({ length: c.n }, (_, i) => `10.${i >> 8}.${i & 255}.0/${c.mask[i % c.mask.length]}`), given = [...list];
    const b = new A.AclBuilder(stack, "TestAcl").withQueryStringSizeRestriction(c.size);
    (c.black ? b.withIpBlacklistRule(list) : b.withIpWhitelistRule(list)).build();
    same(list, given, "the caller's list");
    const t = Object.values(stack.resolve(stack._toCloudFormation()).Resources);
    same(t.filter((x) => x.Type === "AWS::WAFv2::IPSet").map((x) => [x.Properties.IPAddressVersion, [...x.Properties.Addresses].sort()]), [["IPV4", [...given].sort()]], "addresses");
    const sizes = t.find((x) => x.Type === "AWS::WAFv2::WebACL").Properties.Rules.map((r) => r.Statement.SizeConstraintStatement).filter(Boolean);
    same(sizes.map((s) => (s.ComparisonOperator === "GE" ? s.Size - 1 : s.Size)), [c.size], "size limit");
    return c.n > 3;
  }, { runs: 60, needs: [A.AclBuilder] });

  // ---------- distributions ----------
  const lim = fc.option(fc.constantFrom(49, 50, 51, 100, 1000), { nil: undefined, freq: 2 });
  const byPath = fc.option(fc.record({ limit: fc.constantFrom(49, 50, 300), path }), { nil: undefined });
  const set = fc.record({ kind: fc.constantFrom("per5min", "per5min", "count", "selected"), a: fc.constantFrom(50, 60, 1000, 49), b: fc.constantFrom(50, 70, 2000, 10), c: lim, d: lim, e: byPath, groups: fc.oneof(fc.constant("all"), fc.subarray(GROUPS)), excluded: exc, skipCounts: fc.boolean() });
  await prop("a distribution's limits become its rules; limits below the minimum are refused", fc.array(set, { minLength: 1, maxLength: 2 }), async (sets) => {
    const ops = []; let low = false;
    for (const s of sets) {
      const lims = [s.a, s.b, s.c, s.d, ...(s.kind === "per5min" ? [s.e?.limit] : [])];
      if (s.kind !== "count" && lims.some((x) => x !== undefined && x < 50)) low = true;
      if (s.kind === "count") for (const [user, perPath, limit] of [[true, false, s.skipCounts ? undefined : s.a], [true, true, s.c], [false, false, s.b], [false, true, s.d]]) ops.push({ op: "count", user, perPath, limit });
      else {
        ops.push({ op: "managed", groups: s.kind === "per5min" ? "all" : s.groups, excluded: s.excluded });
        for (const [user, perPath, limit] of [[true, false, s.a], [true, true, s.c], [false, false, s.b], [false, true, s.d]]) ops.push({ op: "throttle", user, perPath, limit });
        if (s.kind === "per5min" && s.e) ops.push({ op: "byPath", limit: s.e.limit, path: s.e.path });
      }
    }
    const ref = reference(ops);
    const stack = new Stack(new App());
    const { error } = await capture(() => {
      const rules = sets.map((s) => {
        const e = s.e && { limit: s.e.limit, path: new RegExp(s.e.path) };
        return s.kind === "per5min" ? W.WafRules.per5min(s.a, s.b, s.c, s.d, e, s.excluded) : s.kind === "count" ? W.WafRules.per5minCount(s.skipCounts ? undefined : s.a, s.b, s.c, s.d, e) : W.WafRules.per5minWithSelectedCommon(s.groups, s.a, s.b, s.c, s.d, s.excluded);
      });
      return CA.createWebAcl(stack, "test", rules, "dist");
    });
    if (low) { must(error, "a limit below fifty was accepted"); return "low limit"; }
    if (ref.refused) { must(error, "accepted"); return "refused"; }
    must(!error, () => `refused: ${error?.stack}`);
    compare(read(stack), ref);
    return `${ref.rules.length} rules`;
  }, { runs: 400, needs: [CA.createWebAcl, W.WafRules?.per5min, W.WafRules?.per5minCount, W.WafRules?.per5minWithSelectedCommon] });
});
