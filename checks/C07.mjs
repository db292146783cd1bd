// C07: deployment rules enforced on every stack.
import { check, fc, must, same, show, capture } from "#harness";
import { App, Stack, Aspects } from "aws-cdk-lib";
import { Annotations, Match } from "aws-cdk-lib/assertions";
import { CfnFunction } from "aws-cdk-lib/aws-lambda";
import { CfnBucket } from "aws-cdk-lib/aws-s3";
import { CfnQueue } from "aws-cdk-lib/aws-sqs";
import { CfnResource, CfnMethod } from "aws-cdk-lib/aws-apigateway";
import { LogRetention, RetentionDays } from "aws-cdk-lib/aws-logs";
import * as S from "#repo/lib/digitraffic-common/src/aws/infra/stack/stack.ts";
import * as C from "#repo/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts";

const opt = (...v) => fc.constantFrom(undefined, ...v);
const words = fc.array(fc.constantFrom("road", "data", "maintenance", "v"), { minLength: 1, maxLength: 3 });
const resource = fc.oneof(
  { weight: 4, arbitrary: fc.record({ kind: fc.constant("fn"), concurrency: opt(1, 2, 100, 101, 5000), timeout: opt(1, 60), memory: opt(128, 256), runtime: opt("nodejs24.x", "nodejs22.x", "python3.12", "python3.13", "nodejs20.x", "python3.9", "java21"), name: opt("Road-Fn", "Roa", "Marine-Road", "Road") }) },
  fc.record({ kind: fc.constant("bucket"), block: opt([true, true, true, true], [false, true, true, true], [true, false, true, true], [true, true, false, true], [true, true, true, undefined], [true, true, undefined, true], [true, undefined, true, true], [undefined, true, true, true]) }),
  fc.record({ kind: fc.constant("queue"), key: opt("alias/aws/sqs") }),
  fc.record({ kind: fc.constant("path"), words, style: fc.constantFrom("kebab", "camel", "snake", "Title"), tail: fc.constantFrom("", "", ".json", ".geojson", "{id}") }),
  { weight: 2, arbitrary: fc.record({ kind: fc.constant("method"), params: fc.array(fc.record({ where: fc.constantFrom("querystring", "querystring", "path", "header"), words, style: fc.constantFrom("snake", "camel", "kebab") }), { maxLength: 3 }) }) },
  fc.record({ kind: fc.constant("retention"), days: fc.constantFrom(1, 365, "never") }),
);
const cap = (w) => w[0].toUpperCase() + w.slice(1);
const styled = (w, s) => (s === "kebab" ? w.join("-") : s === "snake" ? w.join("_") : s === "camel" ? w.map((x, i) => (i ? cap(x) : x)).join("") : w.map(cap).join(""));
const KEY = { concurrency: "RESERVED_CONCURRENT_CONCURRENCY", timeout: "FUNCTION_TIMEOUT", memory: "FUNCTION_MEMORY_SIZE", runtime: "FUNCTION_RUNTIME", name: "FUNCTION_NAME" };

await check({
  rule: "generated stacks of functions, buckets, queues, API paths, methods and log retentions with a generated whitelist, synthesised; the set of errors and warnings compared with a reference; non-trivial: at least one rule broken",
  assumptions: ["buckets that state no public access block are left to the platform default"],
}, async ({ prop }) => {
  const wl = fc.option(fc.array(fc.constantFrom("R0", "R1", "R1/FUNCTION_TIMEOUT", "FUNCTION_.*", "^TheStack/R0", "QUEUE_ENCRYPTION$", "nothing", "STACK_NAME", "TAG_SOLUTION", "R[12]/BUCKET", "^R0", "queue_encryption", "r0", "R.\\/F.*Y_SIZE$"), { maxLength: 9 }), { nil: undefined });
  await prop("every broken rule is an error, unless exactly it is whitelisted", fc.record({
    resources: fc.array(resource, { maxLength: 5 }), whitelist: wl, digitraffic: fc.boolean(), production: fc.boolean(), stackName: fc.constantFrom("Road", "RoadTest", "RoadTst", "RoadProd", "RoadPrd", "Prod-Test", "PrdRoad", "Road-Tst-Api", "TestRoadProd", "Protest", "roadprod"), tagged: fc.boolean(), shortName: fc.constantFrom("Road", "Road", undefined, ""),
  }), async (c) => {
    const app = new App();
    let stack;
    const { error } = await capture(() => {
      if (c.digitraffic) {
        stack = new S.DigitrafficStack(app, "TheStack", { shortName: c.shortName ?? "Road", alarmTopicArn: "arn:aws:sns:eu-west-1:123456789012:a", warningTopicArn: "arn:aws:sns:eu-west-1:123456789012:w", trafficType: "Road", production: c.production, stackProps: { stackName: c.stackName, env: { account: "123456789012", region: "eu-west-1" } }, ...(c.whitelist ? { whitelistedResources: c.whitelist } : {}) });
      } else {
        stack = new Stack(app, "TheStack", { stackName: c.stackName });
        Aspects.of(stack).add(new C.StackCheckingAspect(c.shortName, c.whitelist));
      }
    });
    must(!error, () => `${error?.stack}`);
    if (c.tagged) stack.tags.setTag(S.SOLUTION_KEY, "digitraffic");
    const broken = []; // [path, key, isError]
    if (!c.tagged) broken.push(["TheStack", "TAG_SOLUTION", true]);
    if (c.digitraffic && /Test|Tst/.test(c.stackName) && c.production) broken.push(["TheStack", "STACK_NAME", true]);
    if (c.digitraffic && /Prod|Prd/.test(c.stackName) && !c.production) broken.push(["TheStack", "STACK_NAME", true]);
    const prefix = c.digitraffic ? (c.shortName ?? "Road") : c.shortName;
    c.resources.forEach((r, i) => {
      const id = `R${i}`, at = `TheStack/${id}`;
      if (r.kind === "fn") {
        new CfnFunction(stack, id, { code: { zipFile: "x" }, role: "arn:aws:iam::123456789012:role/x", handler: "i.h", reservedConcurrentExecutions: r.concurrency, timeout: r.timeout, memorySize: r.memory, runtime: r.runtime, functionName: r.name });
        if (r.concurrency === undefined || r.concurrency > 100) broken.push([at, KEY.concurrency, true]);
        if (r.timeout === undefined) broken.push([at, KEY.timeout, true]);
        if (r.memory === undefined) broken.push([at, KEY.memory, true]);
        if (["nodejs20.x", "python3.9", "java21"].includes(r.runtime)) broken.push([at, KEY.runtime, true]);
        if (prefix && r.name && !r.name.startsWith(prefix)) broken.push([at, KEY.name, true]);
      } else if (r.kind === "bucket") {
        new CfnBucket(stack, id, r.block ? { publicAccessBlockConfiguration: { blockPublicAcls: r.block[0], blockPublicPolicy: r.block[1], ignorePublicAcls: r.block[2], restrictPublicBuckets: r.block[3] } } : {});
        if (r.block && !r.block.every((x) => x)) broken.push([at, "BUCKET_PUBLICITY", true]);
      } else if (r.kind === "queue") {
        new CfnQueue(stack, id, { kmsMasterKeyId: r.key });
        if (!r.key) broken.push([at, "QUEUE_ENCRYPTION", true]);
      } else if (r.kind === "path") {
        const head = styled(r.words, r.style);
        new CfnResource(stack, id, { restApiId: "api", parentId: "p", pathPart: head + r.tail });
        if (r.words.length > 1 ? r.style !== "kebab" : r.style === "Title") broken.push([at, "RESOURCE_PATH", false]);
      } else if (r.kind === "method") {
        const params = Object.fromEntries(r.params.map((p) => [`integration.request.${p.where}.${styled(p.words, p.style)}`, "method.request.x.y"]));
        new CfnMethod(stack, id, { restApiId: "api", resourceId: "r", httpMethod: "GET", integration: { type: "AWS", requestParameters: params } });
        for (const k of Object.keys(params)) { const [, , where, name] = k.split("."); if (where === "querystring" && /[A-Z-]/.test(name)) broken.push([at, name, true]); }
      } else {
        new LogRetention(stack, id, { logGroupName: `group${i}`, retention: r.days === "never" ? RetentionDays.INFINITE : r.days });
        if (r.days === "never") broken.push([at, "LOG_GROUP_RETENTION", true]);
      }
    });
    const expected = [];
    for (const [at, key, isError] of broken) {
      const full = `${at}/${key}`;
      const listed = (c.whitelist ?? []).some((w) => new RegExp(w).test(full));
      if (isError) expected.push([full, listed ? "warning" : "error"]); else if (!listed) expected.push([full, "warning"]);
    }
    const got = [];
    const { error: e2 } = await capture(() => {
      const a = Annotations.fromStack(stack);
      // the log retention helper function is CDK's own
      for (const [level, list] of [["error", a.findError("*", Match.anyValue())], ["warning", a.findWarning("*", Match.anyValue())]]) for (const m of list) got.push([m.id.replace(/^\//, ""), level, String(m.entry.data)]);
    });
    must(!e2, () => `${e2?.stack}`);
    const ours = got.filter(([id]) => id === "TheStack" || /^TheStack\/R\d/.test(id)).map(([id, level, text]) => [id, level, text]);
    // each expected finding appears on its construct at its level; nothing else does
    const e = expected.map(([full, level]) => `${level} ${full}`).sort();
    const g = ours.map(([, level, text]) => `${level} ${text.split(":")[0]}`).sort();
    same(g, e, "findings of the stack checks");
    for (const [id, , text] of ours) must(text.startsWith(id), () => `a finding on ${id} names ${text}`);
    return broken.length > 0 && (c.whitelist?.length ? "with whitelist" : "without whitelist");
  }, { runs: 600, needs: [S.DigitrafficStack, C.StackCheckingAspect] });
});
