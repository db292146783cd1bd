// C49: monitoring of an environment: what is reported to whom.
import { App } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { check, fc, must, same, show } from "#harness";
import { MonitoringStack } from "#repo/other/monitoring/src/monitoring-stack.ts";
const ACC = "123456789012", HOME = "eu-west-1", ALARMS = "alarms@x.fi", WARNINGS = "warnings@x.fi";
// ---------- the deployed stacks: metrics and events in, e-mails out
class Unsupported extends Error {}
function deploy(conf) {
  const app = new App(); new MonitoringStack(app, "Mon", conf);
  const stacks = app.node.children.filter((c) => c.templateOptions).map((c) => ({ region: c.region, r: Template.fromStack(c).toJSON().Resources }));
  const all = (type) => stacks.flatMap(({ region, r }) => Object.entries(r).filter(([, x]) => x.Type === type).map(([id, x]) => ({ id, region, ...x.Properties })));
  const topic = (v, region) => { const id = v?.Ref ?? (v?.["Fn::Join"] ? /([\w-]+)$/.exec(v["Fn::Join"][1].at(-1))?.[1] : /([\w-]+)$/.exec(String(v))?.[1]); return all("AWS::SNS::Topic").find((t) => (v?.Ref ? t.id === id && t.region === region : t.TopicName === id)); };
  const text = (v) => (typeof v === "string" ? v : v["Fn::Join"] ? v["Fn::Join"][1].map((x) => (typeof x === "string" ? x : x.Ref === "AWS::Partition" ? "aws" : "?")).join("") : "?");
  const like = (p, s) => new RegExp(`^${p.replace(/[.+^${}()|[\]\\/]/g, "\\$&").replaceAll("*", ".*")}$`).test(s);
  const may = (t, service, arn) => all("AWS::SNS::TopicPolicy").filter((p) => p.region === t.region && p.Topics.some((x) => x.Ref === t.id)).flatMap((p) => p.PolicyDocument.Statement).some((s) => s.Effect === "Allow" && [s.Action].flat().some((a) => /^sns:(publish|\*)$/i.test(a)) && [s.Principal.Service].flat().includes(service)
    && Object.entries(s.Condition ?? {}).every(([op, c]) => Object.entries(c).every(([k, v]) => { const is = k === "aws:SourceArn" ? arn : k === "aws:SourceAccount" ? arn.split(":")[4] : undefined; if (is === undefined) throw new Unsupported(k); return [v].flat().some((x) => (/Like$/.test(op) ? like(x, is) : x === is)); })));
  const mails = (t, message) => all("AWS::SNS::Subscription").filter((s) => s.region === t.region && s.TopicArn.Ref === t.id).map((s) => ({ to: s.Endpoint, message }));
  const to = (target, region, service, arn, message) => { const t = topic(target, region); must(t, () => `no topic ${show(target)}`); return may(t, service, arn) ? mails(t, message) : []; };
  /** points: the last averages of five minutes, the latest last */
  const metric = (m, points) => all("AWS::CloudWatch::Alarm").filter((a) => a.MetricName).flatMap((a) => {
    if (a.Namespace !== m.namespace || a.MetricName !== m.name || show([...(a.Dimensions ?? [])].map((d) => [d.Name, d.Value]).sort()) !== show(Object.entries(m.dims).sort()) || a.region !== HOME) return [];
    if (a.Period !== 300 || a.Statistic !== "Average") return [{ to: "?", message: `${a.Statistic} of ${a.Period}` }];
    const bad = { GreaterThanThreshold: (x) => x > a.Threshold, GreaterThanOrEqualToThreshold: (x) => x >= a.Threshold, LessThanThreshold: (x) => x < a.Threshold, LessThanOrEqualToThreshold: (x) => x <= a.Threshold }[a.ComparisonOperator];
    return points.slice(-a.EvaluationPeriods).filter(bad).length >= (a.DatapointsToAlarm ?? a.EvaluationPeriods) ? (a.AlarmActions ?? []).flatMap((x) => to(x, a.region, "cloudwatch.amazonaws.com", `arn:aws:cloudwatch:${HOME}:${ACC}:alarm:${a.AlarmName}`, a.AlarmName)) : [];
  });
  const at = (e, p) => p.split(".").slice(1).reduce((o, k) => o?.[k], e);
  const fits = (p, v) => Object.entries(p).every(([k, x]) => { if (!Array.isArray(x)) return v?.[k] && typeof v[k] === "object" && fits(x, v[k]); return x.some((o) => { if (typeof o === "string") return o === v?.[k]; if (o.prefix !== undefined) return String(v?.[k]).startsWith(o.prefix); if (o.exists !== undefined) return o.exists === (v?.[k] !== undefined); throw new Unsupported(show(o)); }); });
  const event = (e, region, hops = 0) => all("AWS::Events::Rule").filter((r) => r.region === region && r.State !== "DISABLED" && fits(r.EventPattern, { ...e, account: ACC, region: e.region ?? region })).flatMap((r) => r.Targets.flatMap((t) => {
    const arn = text(t.Arn), bus = /^arn:aws:events:([\w-]+):(\d+):event-bus\/default$/.exec(arn);
    if (bus) { must(hops < 3, () => "an event goes round"); return bus[2] === ACC ? event({ ...e, region: e.region ?? region }, bus[1], hops + 1) : []; }
    const ev = { ...e, account: ACC, region: e.region ?? region };
    const message = t.InputTransformer ? text(t.InputTransformer.InputTemplate).replace(/<([\w-]+)>/g, (_, k) => { const p = t.InputTransformer.InputPathsMap[k]; must(p, () => `<${k}> is not defined`); const v = at(ev, p); return v === undefined ? "" : typeof v === "object" ? JSON.stringify(v) : v; }) : t.Input ?? JSON.stringify(ev);
    return to(t.Arn, region, "events.amazonaws.com", `arn:aws:events:${region}:${ACC}:rule/${r.id}`, message);
  }));
  const rds = (type, category) => all("AWS::RDS::EventSubscription").filter((s) => s.Enabled !== false && s.SourceType === type && (!s.EventCategories?.length || s.EventCategories.includes(category)) && !s.SourceIds?.length).flatMap((s) => to(s.SnsTopicArn, s.region, "events.rds.amazonaws.com", `arn:aws:rds:${HOME}:${ACC}:es:${s.id}`, category));
  return { all, metric, event, rds, may, topic };
}
// ---------- configurations
const opt = (v) => fc.option(v, { nil: undefined }), limit = fc.integer({ min: 1, max: 5000 }), word = (p) => fc.integer({ min: 0, max: 4 }).map((i) => `${p}${i}`), distinct = (a, key, max = 3) => fc.uniqueArray(a, { selector: key, maxLength: max });
const clusterLimits = fc.record({ cpuMax: opt(limit), writeIOPSLimit: limit, readIOPSLimit: limit, volumeWriteIOPSLimit: limit, volumeReadIOPSLimit: limit, freeStorageMin: limit, cpuCreditBalanceMin: opt(limit), replicaLagMax: opt(limit), dmlLatencyMax: opt(limit) });
const conf = fc.record({
  ecs: opt(fc.record({ services: distinct(fc.record({ clusterName: word("cl"), serviceName: word("sv"), cpu: fc.oneof(fc.constantFrom(undefined, "DISABLED"), limit), memory: fc.oneof(fc.constantFrom(undefined, "DISABLED"), limit) }), (s) => s.serviceName) })),
  db: opt(fc.record({ clusters: opt(distinct(fc.record({ dbClusterIdentifier: word("db"), clusterName: fc.boolean(), limits: opt(clusterLimits) }), (c) => c.dbClusterIdentifier)), instances: opt(distinct(fc.record({ instanceIdentifier: word("in"), instanceName: fc.boolean(), limits: opt(fc.record({ cpuMax: opt(limit), freeStorageMin: limit, cpuCreditBalanceMin: opt(limit) })) }), (c) => c.instanceIdentifier)) })),
  route53: opt(fc.record({ zoneIds: fc.uniqueArray(word("Z"), { minLength: 1, maxLength: 3 }) })),
  cloudfront: opt(fc.record({ distributions: distinct(fc.record({ id: word("E"), threshold: opt(fc.integer({ min: 1, max: 9 })), name: word("site ") }), (d) => d.id) })),
  envName: fc.constantFrom("prod", "test"),
}).map((c) => ({ ...c, warningTopicEmail: WARNINGS, alarmTopicEmail: ALARMS, env: { account: ACC, region: HOME, accountName: "road-prod" }, db: c.db && { clusters: c.db.clusters?.map((x) => ({ ...x, clusterName: x.clusterName ? `name-of-${x.dbClusterIdentifier}` : undefined })), instances: c.db.instances?.map((x) => ({ ...x, instanceName: x.instanceName ? `name-of-${x.instanceIdentifier}` : undefined })) } }));
/** every limit: [namespace, metric, dimensions, limit, whether it is a least value, what the alarm's name tells] */
function limits(c) {
  const out = [];
  for (const s of c.ecs?.services ?? []) for (const [m, v] of [["CPUUtilization", s.cpu], ["MemoryUtilization", s.memory]]) if (v !== "DISABLED") out.push(["AWS/ECS", m, { ClusterName: s.clusterName, ServiceName: s.serviceName }, v ?? 80, false, s.serviceName]);
  const db = (dims, l, name, min, max) => { for (const [m, v] of max) if (v !== undefined) out.push(["AWS/RDS", m, dims, v, false, name]); for (const [m, v] of min) if (v !== undefined) out.push(["AWS/RDS", m, dims, v, true, name]); };
  for (const { dbClusterIdentifier: id, clusterName, limits: l } of c.db?.clusters ?? []) if (l) db({ DBClusterIdentifier: id }, l, clusterName ?? id, [["FreeLocalStorage", l.freeStorageMin], ["FreeableMemory", 200 * 1024 * 1024], ["CPUCreditBalance", l.cpuCreditBalanceMin]], [["CPUUtilization", l.cpuMax], ["WriteIOPS", l.writeIOPSLimit], ["ReadIOPS", l.readIOPSLimit], ["VolumeWriteIOPs", l.volumeWriteIOPSLimit], ["VolumeReadIOPs", l.volumeReadIOPSLimit], ["Deadlocks", 1], ["AuroraReplicaLag", l.replicaLagMax], ["DMLLatency", l.dmlLatencyMax]]);
  for (const { instanceIdentifier: id, instanceName, limits: l } of c.db?.instances ?? []) if (l) db({ DBInstanceIdentifier: id }, l, instanceName ?? id, [["FreeStorageSpace", l.freeStorageMin], ["CPUCreditBalance", l.cpuCreditBalanceMin]], [["CPUUtilization", l.cpuMax]]);
  return out;
}
const NAMES = { "AWS/ECS": ["CPUUtilization", "MemoryUtilization"], "AWS/RDS": ["FreeLocalStorage", "FreeStorageSpace", "FreeableMemory", "CPUCreditBalance", "CPUUtilization", "WriteIOPS", "ReadIOPS", "VolumeWriteIOPs", "VolumeReadIOPs", "Deadlocks", "AuroraReplicaLag", "DMLLatency"] };
const points = fc.array(fc.constantFrom(-1, -1, 0, 1), { minLength: 5, maxLength: 8 });
const CALLS = { "aws.kms": ["ScheduleKeyDeletion", "DeleteAlias", "UpdateAlias", "DisableKey", "PutKeyPolicy"], "aws.iam": ["CreateUser", "UpdateUser", "DeleteUser", "CreateRole", "UpdateRole", "DeleteRole"] };
const EVENTS = [...Object.values(CALLS).flat().concat("EnableKey", "CreateAlias", "GetRole", "ListUsers", "CancelKeyDeletion").flatMap((name) => ["aws.kms", "aws.iam", "aws.ec2"].map((kind) => ({ kind, name }))), ...[0, 1, 2, 3, 4].flatMap((i) => [{ kind: "aws.route53", zone: `Z${i}` }, { kind: "aws.cloudwatch", id: `E${i}`, other: false }, { kind: "aws.cloudwatch", id: `E${i}`, other: true }]), ...["RDS-EVENT-0287", "RDS-EVENT-0230", "RDS-EVENT-0001", "RDS-EVENT-0023"].map((name) => ({ kind: "aws.rds", name })), ...["db-instance", "db-cluster", "db-parameter-group", "db-security-group", "db-snapshot"].flatMap((type) => ["availability", "configuration change", "read replica", "maintenance", "failure", "deletion", "security patching", "low storage", "backup", "creation"].map((category) => ({ kind: "subscription", type, category })))];
const INSTANCE = ["availability", "configuration change", "read replica", "maintenance", "failure", "deletion", "security patching", "low storage"];
const supported = (f) => async (x) => { try { return await f(x); } catch (e) { if (e instanceof Unsupported) return false; throw e; } };

await check({ rule: "a configuration with at least three limits, zones or distributions", assumptions: ["CloudWatch, EventBridge (with its buses of other regions) and SNS are modelled as far as the templates use them", "names of services, clusters, instances and distributions are unique", "the anomaly band of CloudFront's bytes is judged by its definition only; its rule reports every change of the alarm's state"] }, async ({ prop }) => {
  await prop("reports", fc.record({ c: conf, points }), supported(async ({ c, points }) => {
    const d = deploy(c), wanted = limits(c), key = (n, m, dims) => `${n} ${m} ${show(Object.entries(dims).sort())}`, by = new Map(wanted.map((w) => [key(w[0], w[1], w[2]), w]));
    const resources = [...[0, 1, 2, 3, 4].flatMap((i) => [["AWS/RDS", { DBClusterIdentifier: `db${i}` }], ["AWS/RDS", { DBInstanceIdentifier: `in${i}` }]]), ...(c.ecs?.services ?? []).flatMap((s) => [["AWS/ECS", { ClusterName: s.clusterName, ServiceName: s.serviceName }], ["AWS/ECS", { ClusterName: `${s.clusterName}x`, ServiceName: s.serviceName }]]), ["AWS/RDS", {}]];
    for (const [n, dims] of resources) for (const m of NAMES[n]) {
      const w = by.get(key(n, m, dims)), base = w?.[3] ?? 100, values = points.map((p) => base + (w?.[4] ? -p : p)), mails = d.metric({ namespace: n, name: m, dims }, values), breaches = points.slice(-5).filter((p) => p > 0).length;
      same(mails.map((x) => x.to), w && breaches >= 2 ? [ALARMS] : [], `${n} ${m} of ${show(dims)}, limit ${w?.[3]}, at ${show(values)}`);
      for (const x of mails) must(x.message.includes(w[5]) && (n !== "AWS/RDS" || x.message.includes(c.envName)), () => `the alarm of ${w[5]} is called ${x.message}`);
    }
    for (const e of EVENTS) {
      let mails, expected, tells = [];
      if (e.kind === "subscription") { mails = d.rds(e.type, e.category); expected = c.db && (e.type === "db-instance" ? INSTANCE.includes(e.category) : e.type !== "db-snapshot"); }
      else if (e.kind === "aws.route53") { mails = d.event({ source: e.kind, detail: { eventName: "ChangeResourceRecordSets", userIdentity: { principalId: "AIDA1" }, requestParameters: { hostedZoneId: e.zone, changeBatch: { changes: ["c"] } } } }, "us-east-1"); expected = c.route53?.zoneIds.includes(e.zone); tells = ["ChangeResourceRecordSets", e.zone, "AIDA1", "changes", "road-prod"]; }
      else if (e.kind === "aws.rds") { mails = d.event({ source: e.kind, "detail-type": "RDS DB Instance Event", detail: { EventID: e.name, SourceArn: "arn:db:7", Message: "do it" } }, HOME); expected = c.db && /02(87|30)$/.test(e.name); tells = [e.name, "arn:db:7", "do it", "road-prod", HOME]; }
      else if (e.kind === "aws.cloudwatch") { const a = d.all("AWS::CloudWatch::Alarm").find((x) => x.Metrics?.some((m) => m.MetricStat?.Metric.Dimensions.some((y) => y.Value === e.id))), dist = c.cloudfront?.distributions.find((x) => x.id === e.id); same(!!a, !!dist, `an alarm of ${e.id}`);
        if (a) { same(a.region, "us-east-1", "the region of a CloudFront alarm"); const stat = a.Metrics.find((m) => m.MetricStat), band = a.Metrics.find((m) => m.Expression); same([stat.MetricStat.Metric.Namespace, stat.MetricStat.Metric.MetricName, stat.MetricStat.Period, stat.MetricStat.Stat, a.ComparisonOperator, band.Id, band.Expression.replace(/\s/g, ""), stat.MetricStat.Metric.Dimensions.map((x) => `${x.Name}=${x.Value}`).sort()], ["AWS/CloudFront", "BytesDownloaded", 3600, "Average", "LessThanLowerOrGreaterThanUpperThreshold", a.ThresholdMetricId, `ANOMALY_DETECTION_BAND(${stat.Id},${dist.threshold ?? 2})`, [`DistributionId=${e.id}`, "Region=Global"]], `the alarm of ${e.id}`); }
        mails = d.event({ source: e.kind, "detail-type": "CloudWatch Alarm State Change", detail: { alarmName: e.other ? `${a?.AlarmName}-2` : a?.AlarmName ?? `${e.id}-bytes-downloaded`, state: { value: "ALARM" } } }, "us-east-1"); expected = a && !e.other; tells = [dist?.name]; }
      else { const home = e.kind !== "aws.iam"; mails = d.event({ source: e.kind, detail: { eventName: e.name, userIdentity: { principalId: "AIDA1" }, requestParameters: { keyId: "key-1", roleName: "role-1" } } }, home ? HOME : "us-east-1"); expected = CALLS[e.kind]?.includes(e.name); tells = [e.name, "AIDA1", home ? "key-1" : "role-1", "road-prod", home ? HOME : "us-east-1"]; }
      same(mails.map((x) => x.to), expected ? [ALARMS] : [], `mails of ${show(e)}`);
      for (const m of mails) for (const t of tells) must(m.message.includes(t), () => `the mail of ${show(e)} does not tell ${t}: ${m.message}`);
    }
    const value = (n) => d.all("AWS::SSM::Parameter").filter((p) => p.Name === n).map((p) => d.topic(p.Value, HOME));
    for (const [n, mail] of [["/digitraffic/monitoring/alarm-topic", ALARMS], ["/digitraffic/monitoring/warning-topic", WARNINGS]]) { const t = value(n); same(t.length, 1, n); same(d.all("AWS::SNS::Subscription").filter((s) => s.TopicArn.Ref === t[0].id).map((s) => [s.Protocol, s.Endpoint]), [["email", mail]], `${n} leads to`);
      must(d.may(t[0], "cloudwatch.amazonaws.com", `arn:aws:cloudwatch:${HOME}:${ACC}:alarm:of another stack`), () => `alarms of other stacks cannot use ${n}`); must(!d.may(t[0], "cloudwatch.amazonaws.com", `arn:aws:cloudwatch:${HOME}:999999999999:alarm:x`), () => `other accounts can use ${n}`); }
    return wanted.length + (c.route53?.zoneIds.length ?? 0) + (c.cloudfront?.distributions.length ?? 0) >= 3;
  }), { runs: 120, thorough: 1500, needs: [MonitoringStack] });
});
