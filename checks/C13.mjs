// C13: what a built Lambda function is in the synthesised template.
import { check, fc, must, same, alike, show, throwsSync, capture } from "#harness";
import fs from "node:fs";
import { App, Duration } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { ComparisonOperator } from "aws-cdk-lib/aws-cloudwatch";
import { Architecture, Code, LayerVersion, Runtime } from "aws-cdk-lib/aws-lambda";
import { PolicyStatement } from "aws-cdk-lib/aws-iam";
import { SecurityGroup } from "aws-cdk-lib/aws-ec2";
import * as S from "#repo/lib/digitraffic-common/src/aws/infra/stack/stack.ts";
import * as F from "#repo/lib/digitraffic-common/src/aws/infra/stack/dt-function.ts";
import * as A from "#repo/lib/digitraffic-common/src/aws/infra/stack/dt-function-alarms.ts";
import * as M from "#repo/lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts";
import * as LG from "#repo/lib/digitraffic-common/src/aws/infra/stack/lambda-log-group.ts";

const NAMES = ["update-things", "process-queue", "api_v1", "datex2-36", "x"];
const PATHS = ["dump/locations", "other-code", ...NAMES];
for (const p of PATHS) { fs.mkdirSync(`dist/lambda/${p}`, { recursive: true }); fs.writeFileSync(`dist/lambda/${p}/${p.split("/").pop()}.js`, "exports.handler=()=>{}"); }
const pascal = (n) => n.split(/[-_]/).map((w) => w[0].toUpperCase() + w.slice(1)).join("");

const conf = fc.record({
  shortName: fc.constantFrom("Road", "MarinePort", "X"), secretId: fc.constantFrom("the-secret", "the-secret", undefined), production: fc.boolean(), trafficType: fc.constantFrom("Road", "Marine", null),
  vpc: fc.constantFrom(true, true, false), dbSg: fc.constantFrom(true, true, false),
});
function stackOf(c) {
  return new S.DigitrafficStack(new App(), `${c.shortName}Stack`, {
    shortName: c.shortName, secretId: c.secretId, production: c.production, trafficType: c.trafficType, alarmTopicArn: "unused", warningTopicArn: "unused",
    ...(c.vpc ? { vpcId: "vpc-1", privateSubnetIds: ["subnet-a", "subnet-b"], availabilityZones: ["a", "b"] } : {}), ...(c.dbSg ? { lambdaDbSgId: "sg-db" } : {}),
    stackProps: { env: { account: "123456789012", region: "eu-west-1" } },
  });
}
const alarm = fc.record({ threshold: fc.constantFrom(undefined, 0, 1, 5, 100000), evaluationPeriods: fc.integer({ min: 1, max: 5 }), datapointsToAlarm: fc.constantFrom(1), comparisonOperator: fc.constantFrom("GREATER_THAN_THRESHOLD", "GREATER_THAN_OR_EQUAL_TO_THRESHOLD") });
const OPS = {
  plain: (b) => b, memory: (b, v) => b.withMemorySize(v), timeout: (b, v) => b.withTimeout(Duration.seconds(v)), runtime: (b, v) => b.withRuntime(Runtime[v]), arch: (b, v) => b.withArchitecture(Architecture[v]),
  concurrency: (b, v) => b.withReservedConcurrentExecutions(v), env: (b, v) => b.withEnvironment(v), description: (b, v) => b.withDescription(v), handler: (b, v) => b.withHandler(...v), assetCode: (b, v) => b.withAssetCode(v, v === "other-code" ? ["*.map"] : undefined),
  inline: (b) => b.withCode(Code.fromInline("code here")), noDb: (b) => b.withoutDatabaseAccess(), noSecret: (b) => b.withoutSecretAccess(), actions: (b, v) => b.withAllowedActions(...v),
  layers: (b, v, st) => b.withLayers(...v.map((a) => { return st.node.tryFindChild(`layer-${a}`) ?? LayerVersion.fromLayerVersionArn(st, `layer-${a}`, `arn:aws:lambda:eu-west-1:1:layer:${a}:1`); })),
  policy: (b, v) => b.withRolePolicies(...v.map((a) => new PolicyStatement({ actions: [a], resources: ["arn:aws:s3:::bucket"] }))),
};
const op = fc.oneof(
  fc.tuple(fc.constant("memory"), fc.constantFrom(128, 256, 1769)), fc.tuple(fc.constant("timeout"), fc.constantFrom(1, 7, 60, 90, 900)), fc.tuple(fc.constant("runtime"), fc.constantFrom("NODEJS_22_X", "PYTHON_3_13")),
  fc.tuple(fc.constant("arch"), fc.constantFrom("X86_64", "ARM_64")), fc.tuple(fc.constant("concurrency"), fc.constantFrom(1, 3, 100)),
  fc.tuple(fc.constant("env"), fc.dictionary(fc.constantFrom("A", "B", "SECRET_ID", "DB_APPLICATION"), fc.constantFrom("1", "two"), { maxKeys: 3 })), fc.tuple(fc.constant("description"), fc.constantFrom("does things", "x")),
  fc.tuple(fc.constant("layers"), fc.subarray(["l1", "l2", "l3", "l4", "l5"])), fc.tuple(fc.constant("handler"), fc.constantFrom(["main"], ["main", "run"])), fc.tuple(fc.constant("assetCode"), fc.constantFrom(...PATHS)), fc.tuple(fc.constant("inline"), fc.constant(0)), fc.tuple(fc.constant("noDb"), fc.constant(0)), fc.tuple(fc.constant("noSecret"), fc.constant(0)),
  fc.tuple(fc.constant("actions"), fc.array(fc.oneof({ weight: 9, arbitrary: fc.constantFrom("s3:GetObject", "sqs:SendMessage", "dynamodb:*") }, { weight: 1, arbitrary: fc.constant("*") }), { maxLength: 3 })), fc.tuple(fc.constant("policy"), fc.array(fc.constantFrom("s3:PutObject", "s3:ListBucket"), { minLength: 1, maxLength: 2 })),
);
const KINDS = ["duration", "durationWarning", "error", "throttle"];
const METRIC = { duration: "Duration", durationWarning: "Duration", error: "Errors", throttle: "Throttles" };
const LABEL = { duration: "Duration alarm", durationWarning: "Duration warning", error: "Errors alarm", throttle: "Throttles alarm" };
const strict = (cmp, threshold) => (cmp === "GreaterThanThreshold" ? `>${threshold}` : cmp === "GreaterThanOrEqualToThreshold" ? `>=${threshold}` : cmp);
const flat = (v) => (typeof v === "string" ? v : v?.["Fn::Join"] ? v["Fn::Join"][1].map(flat).join(v["Fn::Join"][0]) : v?.Ref ? `<${v.Ref}>` : v?.["Fn::GetAtt"] ? `<${v["Fn::GetAtt"].join(".")}>` : JSON.stringify(v));
const asList = (v) => (v === undefined ? [] : Array.isArray(v) ? v : [v]);

function alarmsOf(t, fnId, fnName) {
  const params = t.toJSON().Parameters ?? {};
  const out = {};
  for (const { Properties: p } of Object.values(t.findResources("AWS::CloudWatch::Alarm"))) {
    const name = flat(p.AlarmName).replace(`<${fnId}>`, fnName);
    const kind = KINDS.find((k) => name.endsWith(LABEL[k]));
    must(kind, () => `unknown alarm ${name}`); must(!out[kind], () => `two alarms ${name}`);
    same(p.Namespace, "AWS/Lambda"); same(p.MetricName, METRIC[kind], `metric of ${name}`);
    same(p.Dimensions, [{ Name: "FunctionName", Value: { Ref: fnId } }], "the alarm watches this function");
    same(p.Statistic, kind.startsWith("duration") ? "Maximum" : "Sum", `statistic of ${name}`);
    same(p.AlarmActions?.length, 1, "actions"); const ref = p.AlarmActions[0].Ref;
    out[kind] = { name, when: strict(p.ComparisonOperator, p.Threshold), periods: p.EvaluationPeriods, points: p.DatapointsToAlarm, topic: params[ref]?.Default };
  }
  return out;
}
const CMP = { GREATER_THAN_THRESHOLD: ">", GREATER_THAN_OR_EQUAL_TO_THRESHOLD: ">=" };
const ALARM = "/digitraffic/monitoring/alarm-topic", WARNING = "/digitraffic/monitoring/warning-topic";
function actionsIn(t, fn) {
  const role = flat(fn.Properties.Role).slice(1).split(".")[0];
  const out = [];
  for (const { Properties: p } of Object.values(t.findResources("AWS::IAM::Policy"))) if (p.Roles.some((r) => r.Ref === role)) for (const s of p.PolicyDocument.Statement) { same(s.Effect, "Allow"); for (const a of asList(s.Action)) for (const r of asList(s.Resource)) out.push([a, flat(r)]); }
  return out;
}

await check({
  rule: "generated stack configurations and orders of builder calls, synthesised; the function, its log group, permissions, environment, network and alarms compared with a reference; non-trivial: more than the defaults",
}, async ({ prop }) => {
  await prop("a built function is exactly what was asked for", fc.record({
    conf, name: fc.constantFrom(...NAMES), plain: fc.boolean(), ops: fc.array(op, { maxLength: 8 }), groups: fc.constantFrom(0, 0, 1, 2),
    alarms: fc.option(fc.record({ duration: fc.option(fc.option(alarm, { nil: undefined }), { nil: null }), durationWarning: fc.option(fc.option(alarm, { nil: undefined }), { nil: null }), error: fc.option(fc.option(alarm, { nil: undefined }), { nil: null }), throttle: fc.option(fc.option(alarm, { nil: undefined }), { nil: null }) }), { nil: undefined }),
  }), (c) => {
    const stack = stackOf(c.conf);
    let b = c.plain ? F.FunctionBuilder.plain(stack, c.name) : F.FunctionBuilder.create(stack, c.name);
    const want = { memory: 128, timeout: 60, runtime: "nodejs24.x", arch: "arm64", concurrency: 2, env: {}, description: undefined, handler: `${c.name}.handler`, db: !c.plain, secret: !c.plain, inline: false, actions: [], policies: [], layers: [] };
    for (const [k, v] of c.ops) {
      const same_ = OPS[k](b, v, stack); must(same_ === b, `${k} is chainable`);
      if (k === "runtime") want.runtime = Runtime[v].name; else if (k === "arch") want.arch = Architecture[v].name; else if (k === "env") want.env = { ...want.env, ...v };
      else if (k === "handler") want.handler = `${v[0]}.${v[1] ?? "handler"}`; else if (k === "assetCode") { want.handler = `${v.split("/").pop()}.handler`; want.inline = false; }
      else if (k === "inline") want.inline = true; else if (k === "noDb") want.db = false; else if (k === "noSecret") want.secret = false; else if (k === "actions") want.actions.push(...v); else if (k === "layers") want.layers.push(...v); else if (k === "policy") want.policies.push(...v); else want[k] = v;
    }
    const groups = c.conf.vpc ? c.groups : 0;
    for (let i = 0; i < groups; i++) b.withSecurityGroup(SecurityGroup.fromSecurityGroupId(stack, `sg${i}`, `sg-${i}`));
    const A_ = {};
    for (const k of KINDS) A_[k] = { threshold: { duration: want.timeout * 1000, durationWarning: want.timeout * 850, error: 1, throttle: 1 }[k], periods: 1, points: 1, cmp: ">=" };
    if (c.alarms) {
      const a = new A.DtFunctionAlarms();
      const set = { duration: "withDurationAlarm", durationWarning: "withDurationWarning", error: "withErrorAlarm", throttle: "withThrottleAlarm" };
      for (const k of KINDS) {
        if (c.alarms[k] === null) continue;
        const own = c.alarms[k];
        a[set[k]](own && { ...own, comparisonOperator: ComparisonOperator[own.comparisonOperator] });
        A_[k] = own && { threshold: own.threshold ?? A_[k].threshold, periods: own.evaluationPeriods, points: own.datapointsToAlarm, cmp: CMP[own.comparisonOperator] };
      }
      b.withAlarms(a);
    }
    const inlineNonNode = want.inline && want.runtime.startsWith("java");
    const r = throwsSync(() => { b.build(); return Template.fromStack(stack); });
    const impossible = (want.db && !c.conf.dbSg) ? "database access without its security group" : (want.secret && !c.conf.secretId) ? "secret access without a secret" : want.actions.includes("*") ? "wildcard action" : undefined;
    if (impossible) { must(r.error, `${impossible} was accepted`); return "refused"; }
    if (want.db && !c.conf.vpc) return false; // no network to reach the database in: the platform decides
    if (inlineNonNode || want.layers.length > 5) return false;
    must(!r.error, () => `refused: ${r.error?.stack}`);
    const t = r.value;
    const fns = Object.entries(t.findResources("AWS::Lambda::Function")); same(fns.length, 1);
    const [fnId, fn] = fns[0], p = fn.Properties;
    const fnName = `${c.conf.shortName}-${pascal(c.name)}`;
    const env = { ...(want.secret ? { SECRET_ID: c.conf.secretId } : {}), ...(want.db ? { DB_APPLICATION: c.conf.shortName } : {}), ...want.env };
    alike({ name: p.FunctionName, handler: p.Handler, runtime: p.Runtime, arch: p.Architectures, timeout: p.Timeout, memory: p.MemorySize, concurrency: p.ReservedConcurrentExecutions, description: p.Description, env: p.Environment?.Variables ?? {} },
      { name: fnName, handler: want.handler, runtime: want.runtime, arch: [want.arch], timeout: want.timeout, memory: want.memory, concurrency: want.concurrency, description: want.description, env }, "function properties");
    same(p.Layers ?? [], want.layers.map((l) => `arn:aws:lambda:eu-west-1:1:layer:${l}:1`), "layers");
    same(p.Code.ZipFile, want.inline ? "code here" : undefined, "code");
    alike({ f: p.LoggingConfig.LogFormat, a: p.LoggingConfig.ApplicationLogLevel, s: p.LoggingConfig.SystemLogLevel }, { f: "JSON", a: "DEBUG", s: "INFO" }, "logging");
    const lgs = t.findResources("AWS::Logs::LogGroup"); const lg = lgs[p.LoggingConfig.LogGroup.Ref];
    same([lg?.Properties.LogGroupName, lg?.Properties.RetentionInDays], [`/${c.conf.shortName}/lambda/${fnName}`, 365], "log group");
    if (c.conf.vpc) {
      same(p.VpcConfig.SubnetIds, ["subnet-a", "subnet-b"], "private subnets only");
      const sgs = p.VpcConfig.SecurityGroupIds.map(flat).filter((x) => x.startsWith("sg-")).sort();
      same(sgs, [...Array.from({ length: groups }, (_, i) => `sg-${i}`), ...(want.db ? ["sg-db"] : [])].sort(), "security groups");
    } else must(!p.VpcConfig, "no network was configured");
    const acts = actionsIn(t, fn);
    const own = acts.filter(([a]) => !a.startsWith("secretsmanager:") && !a.startsWith("logs:") && !a.startsWith("ec2:"));
    const wantActs = [...new Set([...want.actions.map((a) => `${a} *`), ...want.policies.map((a) => `${a} arn:aws:s3:::bucket`)])].sort();
    same([...new Set(own.map((x) => x.join(" ")))].sort(), wantActs, "permissions");
    const secrets = acts.filter(([a]) => a.startsWith("secretsmanager:"));
    if (want.secret) { must(secrets.some(([a]) => a === "secretsmanager:GetSecretValue"), "secret not readable"); must(secrets.every(([a, res]) => res.includes("the-secret") && /Get|Describe/.test(a)), () => `secret permissions ${show(secrets)}`); } else same(secrets, [], "no secret access was asked for");
    const got = alarmsOf(t, fnId, fnName);
    for (const k of KINDS) {
      if (!A_[k]) { must(!got[k], `${k} alarm was disabled`); continue; }
      const label = `${c.conf.trafficType ?? ""} ${c.conf.shortName}Stack ${fnName} ${LABEL[k]}`.trim();
      const prodTopic = k === "durationWarning" || !c.conf.production ? WARNING : ALARM;
      alike(got[k], { name: label, when: `${A_[k].cmp}${A_[k].threshold}`, periods: A_[k].periods, points: A_[k].points, topic: prodTopic }, `${k} alarm`);
    }
    return c.ops.length > 0 || !!c.alarms;
  }, { runs: 350, thorough: 6000, needs: [F.FunctionBuilder, A.DtFunctionAlarms] });

  const mp = fc.option(fc.record({ create: fc.boolean(), threshold: fc.constantFrom(undefined, 0, 3), evaluationPeriods: fc.constantFrom(undefined, 2), datapointsToAlarm: fc.constantFrom(undefined, 1), comparisonOperator: fc.constantFrom(undefined, "GREATER_THAN_THRESHOLD", "GREATER_THAN_OR_EQUAL_TO_THRESHOLD") }), { nil: undefined });
  await prop("monitored functions raise the alarms asked for", fc.record({ conf, name: fc.constantFrom(...NAMES), how: fc.constantFrom("create", "createV2", "db"), disable: fc.constantFrom(false, false, false, true), props: fc.record({ duration: mp, durationWarning: mp, error: mp, throttle: mp }), given: fc.record({ functionName: fc.constantFrom(undefined, "Own-Name"), timeout: fc.constantFrom(undefined, 5, 30), memorySize: fc.constantFrom(undefined, 512), conc: fc.constantFrom(undefined, 7) }), env: fc.option(fc.constantFrom({ A: "1" }, {}), { nil: undefined }) }), (c) => {
    const stack = stackOf(c.conf);
    const key = { duration: "durationAlarmProps", durationWarning: "durationWarningProps", error: "errorAlarmProps", throttle: "throttleAlarmProps" };
    const props = c.disable ? M.MonitoredFunction.DISABLE_ALARMS : Object.fromEntries(KINDS.filter((k) => c.props[k]).map((k) => [key[k], { ...c.props[k], comparisonOperator: c.props[k].comparisonOperator && ComparisonOperator[c.props[k].comparisonOperator] }]));
    const on = (k) => !c.disable && c.props[k]?.create !== false;
    const r = throwsSync(() => {
      if (c.how === "create") {
        M.MonitoredFunction.create(stack, "fn", { runtime: Runtime.NODEJS_22_X, code: Code.fromInline("x"), handler: "i.h", functionName: c.given.functionName, timeout: c.given.timeout && Duration.seconds(c.given.timeout) }, props);
      } else {
        const params = c.disable ? props : { ...props, functionName: c.given.functionName, timeout: c.given.timeout, memorySize: c.given.memorySize, reservedConcurrentExecutions: c.given.conc };
        if (c.how === "db") M.MonitoredDBFunction.create(stack, c.name, c.env, params); else M.MonitoredFunction.createV2(stack, c.name, c.env ?? {}, params);
      }
      return Template.fromStack(stack);
    });
    const given = c.disable && c.how !== "create" ? {} : c.given;
    const bad = c.disable && c.conf.production ? "disabled alarms in production" : c.how === "create" && !c.given.functionName ? "no name" : c.how === "create" && !c.given.timeout && (on("duration") || on("durationWarning")) ? "no timeout" : c.how === "db" && !c.conf.secretId ? "no secret" : undefined;
    if (bad) { must(r.error, `${bad} was accepted`); return "refused"; }
    if (c.how !== "create" && c.conf.dbSg && !c.conf.vpc) return false;
    must(!r.error, () => `refused: ${r.error?.stack}`);
    const t = r.value; const [fnId, fn] = Object.entries(t.findResources("AWS::Lambda::Function"))[0]; const p = fn.Properties;
    const fnName = given.functionName ?? `${c.conf.shortName}-${pascal(c.name)}`;
    const timeout = given.timeout ?? 60;
    alike({ name: p.FunctionName, format: p.LoggingConfig.LogFormat }, { name: fnName, format: "JSON" }, "function");
    if (c.how !== "create") {
      const env = c.env ?? (c.how === "db" ? { ...(c.conf.secretId ? { SECRET_ID: c.conf.secretId } : {}), DB_APPLICATION: c.conf.shortName } : {});
      alike({ t: p.Timeout, m: p.MemorySize, c: p.ReservedConcurrentExecutions, h: p.Handler, e: p.Environment?.Variables ?? {}, r: p.Runtime }, { t: timeout, m: given.memorySize ?? 128, c: given.conc ?? 2, h: `${c.name}.handler`, e: env, r: "nodejs24.x" }, "defaults");
      const lg = t.findResources("AWS::Logs::LogGroup")[p.LoggingConfig.LogGroup.Ref];
      same([lg?.Properties.LogGroupName, lg?.Properties.RetentionInDays], [`/${c.conf.shortName}/lambda/${fnName}`, 365], "log group");
      if (c.conf.vpc) same([p.VpcConfig.SubnetIds, c.conf.dbSg ? p.VpcConfig.SecurityGroupIds.map(flat) : "any"], [["subnet-a", "subnet-b"], c.conf.dbSg ? ["sg-db"] : "any"], "network");
      same(actionsIn(t, fn).some(([a]) => a === "secretsmanager:GetSecretValue"), c.how === "db", "secret access");
    }
    const got = alarmsOf(t, fnId, fnName);
    for (const k of KINDS) {
      if (!on(k)) { must(!got[k], `${k} alarm was disabled`); continue; }
      const d = { duration: [timeout * 1000, ">="], durationWarning: [timeout * 850, ">="], error: [1, ">="], throttle: [0, ">"] }[k], o = c.props[k] ?? {};
      alike(got[k], { name: `${c.conf.trafficType ?? ""} ${c.conf.shortName}Stack ${fnName} ${LABEL[k]}`.trim(), when: `${o.comparisonOperator ? CMP[o.comparisonOperator] : d[1]}${o.threshold ?? d[0]}`, periods: o.evaluationPeriods ?? 1, points: o.datapointsToAlarm ?? 1, topic: k === "durationWarning" || !c.conf.production ? WARNING : ALARM }, `${k} alarm`);
    }
    return true;
  }, { runs: 250, thorough: 4000, needs: [M.MonitoredFunction, M.MonitoredDBFunction] });

  await prop("log groups are named and kept", fc.record({ conf, own: fc.boolean(), days: fc.constantFrom(undefined, 7, 30), names: fc.uniqueArray(fc.constantFrom("A-Fn", "B-Fn", "C"), { minLength: 1 }) }), (c) => {
    const stack = stackOf(c.conf);
    for (const n of c.names) LG.createLambdaLogGroup({ stack, functionName: n, ...(c.days ? { retention: c.days } : {}) });
    const got = Object.values(Template.fromStack(stack).findResources("AWS::Logs::LogGroup")).map((g) => [g.Properties.LogGroupName, g.Properties.RetentionInDays]).sort();
    same(got, c.names.map((n) => [`/${c.conf.shortName}/lambda/${n}`, c.days ?? 365]).sort());
    return true;
  }, { runs: 40, thorough: 500, needs: [LG.createLambdaLogGroup] });
});
