// C14: queues and their dead letter queues, and the endpoints that feed them.
import { check, fc, must, same, alike, show, throwsSync } from "#harness";
import vm from "node:vm";
import { App, Duration, Stack } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { RestApi } from "aws-cdk-lib/aws-apigateway";
import { Queue, QueueEncryption } from "aws-cdk-lib/aws-sqs";
import * as S from "#repo/lib/digitraffic-common/src/aws/infra/stack/stack.ts";
import * as SI from "#repo/lib/digitraffic-common/src/aws/infra/sqs-integration.ts";
import * as SQ from "#repo/lib/digitraffic-common/src/aws/infra/sqs-queue.ts";
import { plainLib } from "#harness/plainlib.mjs";

const load = plainLib();
// the published modules, whose function sources become the code of the dead letter Lambda
const Q = await load("aws/infra/sqs-queue.js").catch(() => ({}));
const IN = await load("aws/infra/sqs-queue-internal.js").catch(() => ({}));

const conf = fc.record({ shortName: fc.constantFrom("Road", "MarinePort", "X"), stack: fc.constantFrom("RoadStack", "Marine-Port-Activity-Very-Long-Stack-Name-For-Testing-Truncation", "S_1"), production: fc.boolean(), trafficType: fc.constantFrom("Road", null) });
const stackOf = (c) => new S.DigitrafficStack(new App(), c.stack.replaceAll("_", "-"), { shortName: c.shortName, production: c.production, trafficType: c.trafficType, alarmTopicArn: "unused", warningTopicArn: "unused", stackProps: { env: { account: "123456789012", region: "eu-west-1" } } });
const flat = (v) => (typeof v === "string" ? v : v?.["Fn::Join"] ? v["Fn::Join"][1].map(flat).join(v["Fn::Join"][0]) : v?.Ref ? `<${v.Ref}>` : v?.["Fn::GetAtt"] ? `<${v["Fn::GetAtt"].join(".")}>` : JSON.stringify(v));
const asList = (v) => (v === undefined ? [] : Array.isArray(v) ? v : [v]);
const of = (t, type) => Object.entries(t.toJSON().Resources).filter(([, r]) => r.Type === type).map(([id, r]) => ({ id, p: r.Properties, r }));
const WARNING = "/digitraffic/monitoring/warning-topic";
const validBucket = (n) => /^[a-z0-9][a-z0-9-]{1,61}[a-z0-9]$/.test(n);
const names = fc.uniqueArray(fc.constantFrom("Updates", "process", "A_B", "An-Extremely-Long-Queue-Name-1", "An-Extremely-Long-Queue-Name-2"), { minLength: 1, maxLength: 3 });
const props = fc.record({ visibilityTimeout: fc.constantFrom(undefined, 60, 120), retention: fc.constantFrom(undefined, 3600), delivery: fc.constantFrom(undefined, 30), wait: fc.constantFrom(undefined, 20), encryption: fc.constantFrom(undefined, "UNENCRYPTED", "KMS_MANAGED"), queueName: fc.constantFrom(undefined, "own-name"), own: fc.option(fc.integer({ min: 1, max: 9 }), { nil: undefined, freq: 3 }), dedup: fc.boolean() });
const cdkProps = (p, fifo) => ({ ...(p.visibilityTimeout ? { visibilityTimeout: Duration.seconds(p.visibilityTimeout) } : {}), ...(p.retention ? { retentionPeriod: Duration.seconds(p.retention) } : {}), ...(p.delivery ? { deliveryDelay: Duration.seconds(p.delivery) } : {}), ...(p.wait ? { receiveMessageWaitTime: Duration.seconds(p.wait) } : {}), ...(p.encryption ? { encryption: QueueEncryption[p.encryption] } : {}), ...(p.queueName ? { queueName: p.queueName } : {}), ...(fifo && p.dedup ? { contentBasedDeduplication: true } : {}) });

/** Runs the code of the dead letter Lambda with its S3 client replaced; returns the handler. */
function deploy(code, s3, clock, lines) {
  const PutObjectCommand = class { constructor(input) { this.input = input; } };
  const S3Client = class { async send(cmd) { must(cmd instanceof PutObjectCommand, "only objects are written"); return s3(cmd.input); } };
  const exports = {}, module = { exports };
  const proc = { env: { AWS_LAMBDA_FUNCTION_NAME: "the-dlq", AWS_EXECUTION_ENV: "rt" }, stdout: { write: (l) => { lines.push(l); return true; } } };
  class FakeDate extends Date { constructor(...a) { a.length ? super(...a) : super(clock.now); } static now() { return clock.now; } }
  const req = (m) => { if (m === "@aws-sdk/client-s3") return { PutObjectCommand, S3Client }; if (/^node:|^(crypto|util|path)$/.test(m)) return require(m); throw new Error(`the Lambda runtime has no module ${m}`); };
  vm.runInNewContext(code, { require: req, exports, module, process: proc, Date: FakeDate, console, Promise, JSON, setTimeout, Buffer });
  return exports.handler ?? module.exports.handler;
}

await check({
  rule: "generated queues, names, message batches and S3 outages; synthesised templates, and the generated code of the dead letter Lambda run in a bare context under at-least-once delivery with a fake S3, compared with a reference; non-trivial: more than one queue, a failing store, or an escaped name",
  assumptions: ["a batch is deleted from the queue exactly when its invocation succeeds, otherwise it is delivered again", "invocations do not start in the same millisecond (the reserved concurrency is 1)"],
}, async ({ prop }) => {
  await prop("queues are named, encrypted and have a dead letter queue", fc.record({ conf, names, fifo: fc.constantFrom(false, false, true), props }), (c) => {
    const stack = stackOf(c.conf);
    const ownQ = c.props.own && !c.fifo ? new Queue(stack, "own", { queueName: "own", encryption: QueueEncryption.KMS_MANAGED }) : undefined;
    const made = c.names.map((n) => SQ.DigitrafficSqsQueue[c.fifo ? "createFifo" : "create"](stack, n, { ...cdkProps(c.props, c.fifo), ...(ownQ ? { deadLetterQueue: { maxReceiveCount: c.props.own, queue: ownQ } } : {}) }));
    made.forEach((q) => must(q instanceof SQ.DigitrafficSqsQueue, "the queue"));
    const t = Template.fromStack(stack), qs = of(t, "AWS::SQS::Queue"), byName = (n) => qs.find((q) => q.p.QueueName === n);
    const dlqs = !c.fifo && !ownQ;
    same(qs.length, c.names.length * (dlqs ? 2 : 1) + (ownQ ? 1 : 0), "number of queues");
    for (const q of qs) same(q.p.KmsMasterKeyId, "alias/aws/sqs", `encryption of ${q.p.QueueName}`);
    const fns = of(t, "AWS::Lambda::Function"), bs = of(t, "AWS::S3::Bucket"), als = of(t, "AWS::CloudWatch::Alarm"), maps = of(t, "AWS::Lambda::EventSourceMapping"), pols = of(t, "AWS::IAM::Policy");
    if (!dlqs) { same([fns.length, bs.length, maps.length, als.length], [0, 0, 0, 0], "nothing else is created"); }
    for (const n of c.names) {
      const q = byName(`${c.conf.shortName}-${n}-Queue${c.fifo ? ".fifo" : ""}`); must(q, () => `queue ${n}: ${show(qs.map((x) => x.p.QueueName))}`);
      alike({ v: q.p.VisibilityTimeout, r: q.p.MessageRetentionPeriod, d: q.p.DelaySeconds, w: q.p.ReceiveMessageWaitTimeSeconds, f: q.p.FifoQueue ?? false, c: q.p.ContentBasedDeduplication ?? false }, { v: c.props.visibilityTimeout, r: c.props.retention, d: c.props.delivery, w: c.props.wait, f: c.fifo, c: c.fifo && c.props.dedup }, `queue ${n}`);
      if (c.fifo) { must(!q.p.RedrivePolicy, "no dead letter queue"); continue; }
      const red = q.p.RedrivePolicy, target = qs.find((x) => flat(red.deadLetterTargetArn) === `<${x.id}.Arn>`);
      if (ownQ) { same([target?.p.QueueName, red.maxReceiveCount], ["own", c.props.own], "own dead letter queue"); continue; }
      const dn = `${c.conf.shortName}-${n}-DLQ`;
      same([target?.p.QueueName, red.maxReceiveCount, target?.p.RedrivePolicy], [dn, 2, undefined], "dead letter queue");
      const fn = fns.find((f) => f.p.FunctionName === `${dn}-Function`); must(fn, "dead letter function");
      must(target.p.VisibilityTimeout >= fn.p.Timeout, "a dead letter stays invisible while it is being stored");
      must((target.p.MessageRetentionPeriod ?? 345600) >= 345600, "a dead letter waits at least the default four days to be stored");
      same(fn.p.ReservedConcurrentExecutions, 1); same(fn.p.Handler, "index.handler");
      const map = maps.filter((m) => flat(m.p.FunctionName) === `<${fn.id}>`); same(map.map((m) => flat(m.p.EventSourceArn)), [`<${target.id}.Arn>`], "the function consumes the dead letter queue");
      must(map[0].p.Enabled !== false, "consuming is enabled");
      const lg = of(t, "AWS::Logs::LogGroup").find((l) => l.id === fn.p.LoggingConfig?.LogGroup?.Ref); must(lg, "log group"); same(lg.p.RetentionInDays, 365);
      const code = fn.p.Code.ZipFile, bucket = bs.find((b) => JSON.stringify(code).includes(`"Ref":"${b.id}"`) || JSON.stringify(code).includes(b.p.BucketName)); must(bucket, "the function knows its bucket");
      must(validBucket(bucket.p.BucketName), () => `bucket name ${bucket.p.BucketName}`);
      same(bucket.p.PublicAccessBlockConfiguration, { BlockPublicAcls: true, BlockPublicPolicy: true, IgnorePublicAcls: true, RestrictPublicBuckets: true }, "the bucket is private");
      must(!(bucket.r.DeletionPolicy === "Delete"), "dead letters outlive the stack");
      const role = flat(fn.p.Role).slice(1).split(".")[0], sts = pols.filter((p) => p.p.Roles.some((r) => r.Ref === role)).flatMap((p) => p.p.PolicyDocument.Statement);
      const s3 = sts.filter((s) => asList(s.Action).some((a) => a.startsWith("s3:")));
      must(s3.some((s) => s.Effect === "Allow" && asList(s.Action).includes("s3:PutObject") && asList(s.Resource).map(flat).includes(`<${bucket.id}.Arn>/*`)), "the function may write its bucket");
      for (const s of s3) { must(asList(s.Action).every((a) => /^s3:Put/.test(a)), "and only write"); must(asList(s.Resource).every((r) => flat(r) === `<${bucket.id}.Arn>` || flat(r).startsWith(`<${bucket.id}.Arn>/`)), "no other bucket"); }
      for (const s of sts.filter((x) => asList(x.Action).some((a) => a.startsWith("sqs:")))) same(asList(s.Resource).map(flat), [`<${target.id}.Arn>`], "no other queue");
      must(sts.some((s) => asList(s.Action).includes("sqs:ReceiveMessage") && asList(s.Action).includes("sqs:DeleteMessage")), "the function may consume the dead letter queue");
      const al = als.filter((a) => a.p.AlarmName === `${dn}-Alarm`); same(al.length, 1, "dead letter alarm"); const a = al[0].p;
      same([a.MetricName, a.Namespace, a.Statistic, a.ComparisonOperator, a.Threshold, a.EvaluationPeriods, a.Period, a.TreatMissingData], ["NumberOfMessagesReceived", "AWS/SQS", "Sum", "GreaterThanThreshold", 0, 1, 300, "notBreaching"], "alarm on any dead letter");
      same(a.Dimensions, [{ Name: "QueueName", Value: { "Fn::GetAtt": [target.id, "QueueName"] } }], "of this queue");
      same(a.AlarmActions.map((x) => t.toJSON().Parameters[x.Ref]?.Default), [WARNING], "alarm topic");
    }
    same(new Set(bs.map((b) => b.p.BucketName)).size, bs.length, "bucket names are distinct");
    return c.names.length > 1 || !!c.props.own || c.fifo;
  }, { runs: 180, thorough: 3000, needs: [SQ.DigitrafficSqsQueue] });

  let viaTemplate;
  const body = fc.oneof(fc.string({ maxLength: 20, unit: "grapheme" }), fc.json({ maxDepth: 1 }), fc.constantFrom("", "x".repeat(3000), "$&", "same", "same"));
  await prop("every dead letter is stored in its bucket", fc.record({
    bucket: fc.constantFrom("the-bucket", "road-x-dlq", "a1"), viaStack: fc.boolean(), batches: fc.array(fc.array(body, { minLength: 1, maxLength: 10 }), { minLength: 1, maxLength: 4 }),
    outages: fc.array(fc.constantFrom("ok", "ok", "throttle", "denied", "late"), { maxLength: 12 }), gap: fc.array(fc.integer({ min: 1, max: 5 }), { minLength: 1, maxLength: 4 }),
  }), async (c) => {
    let code;
    if (c.viaStack && Q.DigitrafficDLQueue) {
      viaTemplate ??= (() => { const stack = new S.DigitrafficStack(new App(), "St", { shortName: "X", production: false, trafficType: null, alarmTopicArn: "u", warningTopicArn: "u", stackProps: {} });
      Q.DigitrafficDLQueue.create(stack, "n");
      return Template.fromStack(stack); })();
      const t = viaTemplate, z = of(t, "AWS::Lambda::Function")[0].p.Code.ZipFile;
      code = typeof z === "string" ? z : z["Fn::Join"][1].map((x) => (typeof x === "string" ? x : c.bucket)).join(z["Fn::Join"][0]);
      if (typeof z === "string") c = { ...c, bucket: of(t, "AWS::S3::Bucket")[0].p.BucketName };
    } else { const ic = IN.getDlqCode(c.bucket); code = ic.code ?? ic.inlineCode; }
    const stored = new Map(), lines = [], clock = { now: 1_700_000_000_000 }; let turn = 0, failed = 0;
    const s3 = async (o) => {
      const how = c.outages[turn++] ?? "ok";
      if (how === "late") await new Promise((r) => setImmediate(r));
      if (how === "throttle" || how === "denied") { failed++; throw Object.assign(new Error(how), { name: how }); }
      same(o.Bucket, c.bucket, "bucket"); must(typeof o.Key === "string" && o.Key.length > 0 && /^[!-~]{1,1024}$/.test(o.Key), () => `key ${o.Key}`);
      must(!/public/.test(o.ACL ?? ""), "a dead letter was published");
      must(!stored.has(o.Key), () => `dead letter ${o.Key} was overwritten`); stored.set(o.Key, String(o.Body)); return {};
    };
    const handler = deploy(code, s3, clock, lines);
    must(typeof handler === "function", "handler");
    const queue = c.batches.map((b, i) => b.map((m, j) => ({ messageId: `${i}-${j}`, body: m, receiptHandle: "r", attributes: {}, messageAttributes: {} })));
    let g = 0, rounds = 0;
    while (queue.length && rounds++ < 60) {
      const batch = queue.shift();
      let ok = true;
      try { const r = await handler({ Records: batch }, {}); const fails = r?.batchItemFailures; if (fails?.length) { ok = false; queue.push(batch.filter((m) => fails.some((f) => f.itemIdentifier === m.messageId))); continue; } } catch { ok = false; }
      clock.now += c.gap[g++ % c.gap.length];
      if (!ok) queue.push(batch); // not deleted: delivered again
    }
    same(queue.length, 0, "the dead letter queue was drained once S3 worked");
    const have = [...stored.values()];
    for (const m of new Set(c.batches.flat())) { const need = c.batches.flat().filter((x) => x === m).length, got = have.filter((x) => x === m).length; must(got >= need && (failed > 0 || got === need), () => `dead letter ${show(m)} stored ${got} of ${need} times (${failed} failures of S3)`); }
    must(have.every((h) => c.batches.flat().includes(h)), "something else was stored");
    if (failed) { const logged = lines.join("").split("\n").filter(Boolean).map((l) => { const r = throwsSync(() => JSON.parse(l)); must(!r.error, () => `log line is not JSON: ${l}`); return r.value; }); must(logged.some((l) => l.level === "ERROR"), "the failure was not logged"); must(logged.every((l) => l.lambdaName === "the-dlq"), "log line names the Lambda"); }
    return failed > 0 || c.batches.flat().length > 1;
  }, { runs: 700, thorough: 20000, needs: [SQ.DigitrafficSqsQueue] });

  const alikeNames = fc.tuple(fc.string({ minLength: 55, maxLength: 80, unit: fc.constantFrom("a", "b", "7", "-", "c") }), fc.nat({ max: 79 }), fc.constantFrom("_", ".", " ", "Upper"));
  await prop("long names that read alike get distinct buckets", alikeNames, ([n, at, how]) => {
    const i = at % n.length, other = how === "Upper" ? n.slice(0, i) + n[i].toUpperCase() + n.slice(i + 1) : n.slice(0, i) + how + n.slice(i + 1);
    const a = IN.sanitizeS3BucketName(`q${n}`), b = IN.sanitizeS3BucketName(`q${other}`);
    for (const o of [a, b]) { must(validBucket(o), () => o); must(!o.includes("--"), () => `hyphens in ${o}`); }
    const long = [n, other].every((x) => x.replace(/[^A-Za-z0-9]+/g, "-").replace(/^-|-$/g, "").length > 62);
    if (!long || n === other) return false; // short names are made valid without a hash
    must(a !== b, () => `${n} and ${other} share ${a}`);
    return true;
  }, { runs: 1500, thorough: 50000, needs: [SQ.DigitrafficSqsQueue] });

  const ch = fc.oneof({ weight: 6, arbitrary: fc.constantFrom("a", "B", "7", "z") }, { weight: 2, arbitrary: fc.constantFrom("-", "_", ".") }, fc.constantFrom("Ä", " ", "/", "--"));
  const bucketName = fc.oneof(fc.string({ minLength: 1, maxLength: 30, unit: ch }), fc.string({ minLength: 50, maxLength: 90, unit: ch }));
  await prop("bucket names are valid, stable and distinct", fc.record({ head: bucketName, tails: fc.uniqueArray(fc.integer({ min: 0, max: 10 ** 6 }), { minLength: 2, maxLength: 6 }), pad: fc.integer({ min: 0, max: 70 }) }), ({ head, tails, pad }) => {
    const all = tails.map((t) => `q${head}${"p".repeat(pad)}-${t}x`); const out = all.map((n) => IN.sanitizeS3BucketName(n));
    out.forEach((o, i) => { must(validBucket(o), () => `${all[i]} became ${o}`); same(IN.sanitizeS3BucketName(all[i]), o, "stable"); });
    all.forEach((n, i) => { if (validBucket(n) && !n.includes("--")) same(out[i], n, "a valid name is kept"); });
    same(new Set(out).size, out.length, "distinct names stay distinct");
    return out.some((o, i) => o !== all[i]);
  }, { runs: 3000, thorough: 100000, needs: [SQ.DigitrafficSqsQueue] });

  await prop("an endpoint reports success exactly when the queue took the message", fc.record({ fifo: fc.boolean(), key: fc.boolean(), status: fc.oneof(fc.constantFrom(200, 400, 403, 404, 413, 429, 500, 502, 503, 504), fc.integer({ min: 400, max: 599 })) }), ({ fifo, key, status }) => {
    const stack = new Stack(new App()); const queue = new Queue(stack, "q", fifo ? { fifo: true } : {}); const api = new RestApi(stack, "api");
    SI.attachQueueToApiGatewayResource(stack, queue, api.root.addResource("r"), api.addRequestValidator("v", { validateRequestBody: true }), "R", key);
    const t = Template.fromStack(stack), m = of(t, "AWS::ApiGateway::Method").find((x) => x.p.HttpMethod === "POST").p;
    same([m.ApiKeyRequired ?? false, !!m.RequestValidatorId], [key, true], "key and validator");
    const qid = of(t, "AWS::SQS::Queue")[0].id, role = flat(m.Integration.Credentials).slice(1).split(".")[0];
    const sends = of(t, "AWS::IAM::Policy").filter((p) => p.p.Roles.some((r) => r.Ref === role)).flatMap((p) => p.p.PolicyDocument.Statement).filter((s) => asList(s.Action).some((a) => a === "*" || a.startsWith("sqs:")));
    same(sends.map((s) => [s.Effect, asList(s.Action), asList(s.Resource).map(flat)]), [["Allow", ["sqs:SendMessage"], [`<${qid}.Arn>`]]], "the endpoint may send to its queue, and nothing else");
    must(flat(m.Integration.Uri).endsWith(`/<${qid}.QueueName>`), () => `sends to ${flat(m.Integration.Uri)}`);
    const rs = m.Integration.IntegrationResponses, dflt = rs.filter((r) => r.SelectionPattern === undefined || r.SelectionPattern === ""); same(dflt.length, 1, "one default response");
    const hit = rs.find((r) => r.SelectionPattern && new RegExp(`^(?:${r.SelectionPattern})$`).test(String(status))) ?? dflt[0];
    const code = Number(hit.StatusCode); must(m.MethodResponses.some((r) => Number(r.StatusCode) === code), "the response is declared");
    same(code >= 200 && code < 300, status === 200, `the queue answered ${status}, the endpoint ${code}`);
    return status !== 200;
  }, { runs: 120, thorough: 700, needs: [SI.attachQueueToApiGatewayResource] });
});
