// C20: network, database, proxy and DNS stacks fit together; schedules, security events and log subscriptions.
import { check, fc, must, same, alike, show, throwsSync } from "#harness";
import { App, Stack, Duration } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { InstanceType, Vpc } from "aws-cdk-lib/aws-ec2";
import { AuroraPostgresEngineVersion as V } from "aws-cdk-lib/aws-rds";
import { Code, Function as Fn, Runtime } from "aws-cdk-lib/aws-lambda";
import { Schedule } from "aws-cdk-lib/aws-events";
import { Topic } from "aws-cdk-lib/aws-sns";
import * as N from "#repo/lib/digitraffic-common/src/aws/infra/stacks/network-stack.ts";
import * as DB from "#repo/lib/digitraffic-common/src/aws/infra/stacks/db-stack.ts";
import * as PX from "#repo/lib/digitraffic-common/src/aws/infra/stacks/db-proxy-stack.ts";
import * as DNS from "#repo/lib/digitraffic-common/src/aws/infra/stacks/db-dns-stack.ts";
import * as I from "#repo/lib/digitraffic-common/src/aws/infra/import-util.ts";
import * as PAR from "#repo/lib/digitraffic-common/src/aws/infra/stack/parameters.ts";
import * as SCH from "#repo/lib/digitraffic-common/src/aws/infra/scheduler.ts";
import * as SR from "#repo/lib/digitraffic-common/src/aws/infra/security-rule.ts";
import * as SUB from "#repo/lib/digitraffic-common/src/aws/infra/stack/subscription.ts";

const of = (t, type) => Object.entries(t.Resources ?? {}).filter(([, r]) => r.Type === type).map(([id, r]) => ({ id, p: r.Properties ?? {}, r }));
const one = (t, type) => { const rs = of(t, type); same(rs.length, 1, `one ${type}`); return rs[0]; };
const synth = (stack) => Template.fromStack(stack).toJSON();

// What a template's value is once deployed: other stacks' exports and parameters are looked up.
function deployer(env) {
  const world = { exports: {}, ssm: {} };
  const val = (t, name, v) => {
    if (v === undefined || v === null || typeof v === "string" || typeof v === "number" || typeof v === "boolean") return v;
    if (Array.isArray(v)) return v.map((x) => val(t, name, x));
    if (v.Ref) {
      const p = t.Parameters?.[v.Ref];
      if (p?.Type === "AWS::SSM::Parameter::Value<String>") { must(Object.hasOwn(world.ssm, p.Default), () => `parameter ${p.Default} is not there`); return world.ssm[p.Default]; }
      return v.Ref.startsWith("AWS::") ? v.Ref : `${name}/${v.Ref}`;
    }
    if (v["Fn::GetAtt"]) return `${name}/${v["Fn::GetAtt"].join(".")}`;
    if (v["Fn::ImportValue"]) { must(Object.hasOwn(world.exports, v["Fn::ImportValue"]), () => `nothing exports ${v["Fn::ImportValue"]}`); return world.exports[v["Fn::ImportValue"]]; }
    if (v["Fn::Join"]) return v["Fn::Join"][1].map((x) => val(t, name, x)).join(v["Fn::Join"][0]);
    if (v["Fn::Select"]) { const l = val(t, name, v["Fn::Select"][1]); return Array.isArray(l) ? l[Number(v["Fn::Select"][0])] : `${l}[${v["Fn::Select"][0]}]`; }
    if (v["Fn::GetAZs"] !== undefined) return "azs";
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, val(t, name, x)]));
  };
  return {
    world, val,
    deploy(name, stack) {
      const t = synth(stack);
      for (const p of of(t, "AWS::SSM::Parameter")) { must(!Object.hasOwn(world.ssm, p.p.Name), () => `two parameters ${p.p.Name}`); same(p.p.Type, "String"); world.ssm[p.p.Name] = val(t, name, p.p.Value); }
      for (const o of Object.values(t.Outputs ?? {})) if (o.Export) { const n = val(t, name, o.Export.Name); must(!Object.hasOwn(world.exports, n), () => `two exports ${n}`); world.exports[n] = val(t, name, o.Value); }
      return t;
    },
  };
}
const ENV = { account: "123456789012", region: "eu-west-1" };
const isc = fc.record({ environmentName: fc.constantFrom("road-test", "marine-prod", "x", "rail1"), located: fc.boolean() }).map((c) => ({ environmentName: c.environmentName, env: c.located ? ENV : {} }));
const ipOf = (s) => s.split(".").reduce((a, b) => a * 256 + Number(b), 0);
const range = (cidr) => { const [a, n] = cidr.split("/"); const lo = ipOf(a); return [lo, lo + 2 ** (32 - Number(n)) - 1]; };
const net = fc.record({ vpcName: fc.constantFrom("DigitrafficVPC", "vpc1"), cidr: fc.tuple(fc.integer({ min: 0, max: 255 }), fc.integer({ min: 16, max: 20 })).map(([b, n]) => `10.${b}.0.0/${n}`), transitGatewayId: fc.constantFrom(undefined, "tgw-0123") });
const clazz = fc.constantFrom("r6g.large", "r6g.xlarge", "t4g.medium");
const versions = [V.VER_13_18, V.VER_14_15, V.VER_15_10, V.VER_16_6].filter(Boolean);
const inst = fc.record({ instanceType: clazz, legacy: fc.constantFrom(undefined, true) });
const dbc = fc.record({
  which: fc.oneof({ weight: 8, arbitrary: fc.constant("cluster") }, { weight: 3, arbitrary: fc.constant("import") }, { weight: 1, arbitrary: fc.constantFrom("both", "neither") }),
  storageEncrypted: fc.constantFrom(undefined, true, false), versions: fc.uniqueArray(fc.nat({ max: versions.length - 1 }), { maxLength: 3 }), workmem: fc.constantFrom(undefined, undefined, 1024, 65536), version: fc.nat({ max: versions.length - 1 }),
  snapshot: fc.constantFrom(undefined, undefined, "snap-1"), writer: inst, readers: fc.array(inst, { maxLength: 3 }), ownVpc: fc.boolean(),
  id: fc.stringMatching(/^[a-z](-?[a-z0-9]){2,10}(-cluster)?$/), badHost: fc.oneof({ weight: 6, arbitrary: fc.constant(false) }, { weight: 1, arbitrary: fc.constant(true) }),
});
const hosts = (c) => ({ clusterWriteEndpoint: c.badHost ? `${c.id}.abc.eu-west-1.rds.amazonaws.com` : `${c.id}.cluster-abc.eu-west-1.rds.amazonaws.com`, clusterReadEndpoint: `${c.id}.cluster-ro-abc.eu-west-1.rds.amazonaws.com` });
const SECRET = "arn:aws:secretsmanager:eu-west-1:123456789012:secret:db-AbCdEf";
const makeDb = (app, c, i, vpc) => new DB.DbStack(app, "Db", i, {
  ...(["cluster", "both"].includes(c.which) ? { cluster: { securityGroupId: "sg-db", snapshotIdentifier: c.snapshot, dbVersion: versions[c.version], writer: { instanceType: new InstanceType(c.writer.instanceType), isFromLegacyInstanceProps: c.writer.legacy }, readers: c.readers.map((r) => ({ instanceType: new InstanceType(r.instanceType), isFromLegacyInstanceProps: r.legacy })) } } : {}),
  ...(["import", "both"].includes(c.which) ? { clusterImport: hosts(c) } : {}),
  storageEncrypted: c.storageEncrypted, customParameterGroups: c.versions.map((v) => versions[v]), workmem: c.workmem, secretArn: SECRET, ...(vpc ? { vpc } : {}),
});
const kinds = (t, val) => {
  // what each subnet is, by its default route
  const out = {};
  for (const s of of(t, "AWS::EC2::Subnet")) {
    const tables = of(t, "AWS::EC2::SubnetRouteTableAssociation").filter((a) => a.p.SubnetId.Ref === s.id).map((a) => a.p.RouteTableId.Ref);
    same(tables.length, 1, `route tables of ${s.id}`);
    const routes = of(t, "AWS::EC2::Route").filter((r) => r.p.RouteTableId.Ref === tables[0] && r.p.DestinationCidrBlock === "0.0.0.0/0");
    same(routes.length, 1, `default routes of ${s.id}`);
    const r = routes[0].p;
    out[s.id] = { kind: r.GatewayId ? "public" : r.NatGatewayId ? "nat" : r.TransitGatewayId ? "tgw" : "none", nat: r.NatGatewayId && (r.NatGatewayId.Ref ?? r.NatGatewayId["Fn::GetAtt"]?.[0]), tgw: r.TransitGatewayId, az: JSON.stringify(val(t, "Net", s.p.AvailabilityZone)), cidr: s.p.CidrBlock, gw: r.GatewayId?.Ref };
  }
  return out;
};

await check({
  rule: "networks, database clusters (created and imported), proxies and DNS zones synthesised together and resolved as if deployed, schedules, security events and log subscriptions; compared with references; non-trivial: several readers, imports, snapshots, transit gateways, refusals",
  assumptions: ["values pass between stacks by exports and SSM parameters of the same name", "a security event carries one finding, as Security Hub sends them"],
}, async ({ prop }) => {
  await prop("the network and what imports it", fc.record({ i: isc, n: net, zones: fc.option(fc.shuffledSubarray(["eu-west-1a", "eu-west-1b", "eu-west-1c"], { minLength: 2 }), { nil: undefined }) }), async ({ i, n, zones }) => {
    const d = deployer(), Net = zones ? class extends N.NetworkStack { get availabilityZones() { return [...zones]; } } : N.NetworkStack, s = new Net(new App(), "Net", i, n), t = d.deploy("Net", s);
    const vpc = one(t, "AWS::EC2::VPC");
    same([vpc.p.CidrBlock, vpc.p.EnableDnsHostnames, vpc.p.EnableDnsSupport], [n.cidr, true, true], "vpc");
    must(vpc.p.Tags.some((g) => g.Key === "Name" && g.Value === n.vpcName), "the name of the vpc");
    const ks = kinds(t, d.val), subs = Object.entries(ks);
    same(subs.length, 4, "subnets");
    const [lo, hi] = range(n.cidr), rs = subs.map(([, k]) => range(k.cidr)).sort((a, b) => a[0] - b[0]);
    rs.forEach((r, j) => { must(r[0] >= lo && r[1] <= hi, "subnets are in the network"); if (j) must(r[0] > rs[j - 1][1], "subnets don't overlap"); same(r[1] - r[0] + 1, 256, "subnet size"); });
    const want = n.transitGatewayId ? "tgw" : "nat";
    same(of(t, "AWS::EC2::NatGateway").length, n.transitGatewayId ? 0 : 2, "NAT gateways");
    const e = (x) => d.world.exports[`digitraffic-${i.environmentName}-${x}`];
    same(Object.keys(d.world.exports).sort(), ["VPCID", "digitrafficpublicASubnet", "digitrafficpublicBSubnet", "digitrafficprivateASubnet", "digitrafficprivateBSubnet"].map((x) => `digitraffic-${i.environmentName}-${x}`).sort(), "exports");
    same(e("VPCID"), `Net/${vpc.id}`);
    for (const side of ["public", "private"]) {
      const [a, b] = ["A", "B"].map((x) => ks[e(`digitraffic${side}${x}Subnet`).slice(4)]);
      must(a && b && a !== b, () => `${side} subnets exported: two different ones`);
      same([a.kind, b.kind], side === "public" ? ["public", "public"] : [want, want], `kinds of ${side} subnets`);
      must(a.az !== b.az, "one in each zone");
      if (zones) same([a.az, b.az].map((z) => JSON.parse(z)), [...zones].sort().slice(0, 2), "the first two zones, in order");
      if (side === "private" && !n.transitGatewayId) {
        must(a.nat && b.nat && a.nat !== b.nat, "a gateway of its own");
        for (const k of [a, b]) { const g = of(t, "AWS::EC2::NatGateway").find((x) => x.id === k.nat); same(ks[g.p.SubnetId.Ref].kind, "public", "the gateway is in a public subnet"); same(ks[g.p.SubnetId.Ref].az, k.az, "and in the same zone"); }
      }
      if (side === "private" && n.transitGatewayId) same([a.tgw, b.tgw], [n.transitGatewayId, n.transitGatewayId]);
    }
    const user = new Stack(new App(), "User"), imported = I.importVpc(user, i.environmentName);
    const seen = user.resolve([imported.vpcId, ...imported.privateSubnets.map((x) => x.subnetId)]).map((v) => d.val({}, "User", v));
    same(seen, [e("VPCID"), e("digitrafficprivateASubnet"), e("digitrafficprivateBSubnet")], "the imported network");
    return n.transitGatewayId ? "transit gateway" : "NAT";
  }, { runs: 40, needs: [N.NetworkStack, I.importVpc] });

  await prop("names written and read are the same", fc.record({ e: fc.stringMatching(/^[a-z][a-z0-9-]{0,8}$/), n: fc.stringMatching(/^[A-Za-z][A-Za-z0-9-]{0,12}$/), v: fc.string({ minLength: 1, maxLength: 8 }).map((s) => s.replace(/[${}]/g, "x")) }), async (c) => {
    const s = new Stack(new App(), "S");
    I.exportValue(s, c.e, c.n, c.v);
    const o = Object.values(synth(s).Outputs);
    same(o.length, 1); same([o[0].Export.Name, o[0].Value], [`digitraffic-${c.e}-${c.n}`, c.v]); same(I.outputName(c.e, c.n), `digitraffic-${c.e}-${c.n}`);
    same(s.resolve(I.importValue(c.e, c.n)), { "Fn::ImportValue": `digitraffic-${c.e}-${c.n}` });
    return c.n.includes("-");
  }, { runs: 100, needs: [I.exportValue, I.importValue] });
  await prop("parameters written are the ones read", fc.record({ k: fc.constantFrom("cluster.reader", "cluster.writer", "cluster.identifier", "proxy.reader", "proxy.writer"), o: fc.constantFrom("cluster.reader", "cluster.writer", "cluster.identifier", "proxy.reader", "proxy.writer", "topic.alarm", "topic.warning"), v: fc.stringMatching(/^[a-z.]{1,12}$/) }), async (c) => {
    const a = new Stack(new App(), "A"), b = new Stack(new App(), "B");
    PAR.createParameter(a, c.k, c.v);
    const p = one(synth(a), "AWS::SSM::Parameter").p, v = b.resolve(PAR.getParameterValue(b, c.o)), q = synth(b).Parameters[v.Ref];
    must(p.Name.startsWith("/digitraffic/db/") && p.Value === c.v && p.Type === "String", () => show(p));
    same(q.Type, "AWS::SSM::Parameter::Value<String>"); same(q.Default === p.Name, c.k === c.o, `${c.k} and ${c.o}`);
    if (c.o.startsWith("topic.")) same(q.Default, `/digitraffic/monitoring/${c.o.slice(6)}-topic`);
    return c.k === c.o;
  }, { runs: 100, needs: [PAR.createParameter, PAR.getParameterValue] });

  const pc = fc.record({ name: fc.constantFrom(undefined, "MyProxy"), empty: fc.oneof({ weight: 7, arbitrary: fc.constant(false) }, { weight: 1, arbitrary: fc.constant(true) }) });
  const networks = new Map();
  await prop("cluster, proxy and names", fc.record({ i: isc, n: fc.constantFrom(undefined, "tgw-0123").map((t) => ({ vpcName: "DigitrafficVPC", cidr: "10.7.0.0/16", transitGatewayId: t })), d: dbc, p: pc }), async ({ i, n, d: c, p: px }) => {
    const d = deployer(), app = new App(), key = JSON.stringify([i, n]);
    if (!networks.has(key)) { d.deploy("Net", new N.NetworkStack(new App(), "Net", i, n)); networks.set(key, { ...d.world.exports }); }
    Object.assign(d.world.exports, networks.get(key));
    const e = (x) => d.world.exports[`digitraffic-${i.environmentName}-${x}`];
    const creates = c.which === "cluster";
    const r = throwsSync(() => makeDb(app, c, i, c.ownVpc ? Vpc.fromVpcAttributes(new Stack(app, "Other"), "o", { vpcId: "vpc-own", availabilityZones: ["a", "b"], privateSubnetIds: ["own-a", "own-b"] }) : undefined));
    const refuse = c.which === "both" || c.which === "neither" ? "either" : c.which === "import" && c.badHost ? "no cluster" : creates && c.versions.length === 0 ? "no parameter group" : undefined;
    if (refuse) { must(r.error, () => `accepted: ${refuse}`); return refuse; }
    if (r.error) throw r.error;
    const db = r.value, t = d.deploy("Db", db);
    // parameter groups
    const mem = String(c.workmem ?? 524288);
    for (const type of ["AWS::RDS::DBClusterParameterGroup", "AWS::RDS::DBParameterGroup"]) {
      const gs = of(t, type);
      same(gs.map((g) => g.p.Family).sort(), c.versions.map((v) => `aurora-postgresql${versions[v].auroraPostgresMajorVersion}`).sort(), `${type} families`);
      for (const g of gs) alike(g.p.Parameters, { "pg_stat_statements.track": "ALL", random_page_cost: "1", work_mem: mem }, type);
    }
    const keys = of(t, "AWS::KMS::Key");
    same(keys.length, c.storageEncrypted ? 1 : 0, "encryption keys");
    for (const k of keys) { same(k.p.EnableKeyRotation, true); same([k.r.DeletionPolicy, k.r.UpdateReplacePolicy], ["Retain", "Retain"], "the key is retained"); same(one(t, "AWS::KMS::Alias").p.AliasName, `alias/${i.environmentName}/db`); }
    same(of(t, "AWS::RDS::DBCluster").length, creates ? 1 : 0, "clusters");
    let writer, reader, ident;
    if (creates) {
      const cl = one(t, "AWS::RDS::DBCluster"), q = cl.p;
      same([q.Engine, q.EngineVersion, q.Port, q.DeletionProtection, q.BackupRetentionPeriod, q.StorageEncrypted, q.SnapshotIdentifier], ["aurora-postgresql", versions[c.version].auroraPostgresFullVersion, 5432, true, 35, c.storageEncrypted ?? true, c.snapshot], "cluster");
      same(d.val(t, "Db", q.KmsKeyId), c.storageEncrypted ? `Db/${keys[0].id}.Arn` : undefined, "key of the cluster");
      same([cl.r.DeletionPolicy, cl.r.UpdateReplacePolicy], ["Retain", "Retain"], "the cluster is retained");
      same(q.VpcSecurityGroupIds, ["sg-db"]); same(q.EnableCloudwatchLogsExports, ["postgresql"]); same([q.PreferredBackupWindow, q.PreferredMaintenanceWindow], ["01:00-02:00", "mon:03:00-mon:04:00"]);
      const subnets = one(t, "AWS::RDS::DBSubnetGroup");
      same(q.DBSubnetGroupName, { Ref: subnets.id }); same(d.val(t, "Db", subnets.p.SubnetIds), c.ownVpc ? ["own-a", "own-b"] : [e("digitrafficprivateASubnet"), e("digitrafficprivateBSubnet")], "subnets of the cluster");
      const group = of(t, "AWS::RDS::DBClusterParameterGroup").find((g) => g.id === q.DBClusterParameterGroupName.Ref);
      must(group && group.p.Family === `aurora-postgresql${versions[c.versions[0]].auroraPostgresMajorVersion}`, "the first parameter group is used");
      if (!c.snapshot) { must(JSON.stringify(d.val(t, "Db", q.MasterUsername)).includes(`${SECRET}:SecretString:db.superuser::`), "user from the secret"); must(JSON.stringify(d.val(t, "Db", q.MasterUserPassword)).includes(`${SECRET}:SecretString:db.superuser.password::`), "password from the secret"); }
      const is = of(t, "AWS::RDS::DBInstance");
      same(is.map((x) => x.p.DBInstanceClass).sort(), [c.writer, ...c.readers].map((x) => `db.${x.instanceType}`).sort(), "instances");
      for (const x of is) {
        same(x.p.DBClusterIdentifier, { Ref: cl.id }); same(x.p.EngineVersion, undefined, "no engine version on instances"); same([x.p.AutoMinorVersionUpgrade, x.p.AllowMajorVersionUpgrade, x.p.EnablePerformanceInsights, x.p.MonitoringInterval], [true, false, true, 30]);
        same(x.p.PubliclyAccessible ?? false, false, "instances are not public");
        const g = of(t, "AWS::RDS::DBParameterGroup").find((y) => y.id === x.p.DBParameterGroupName.Ref); must(g && g.p.Family === group.p.Family, "parameter group of the instance");
      }
      const ids = is.map((x) => x.p.DBInstanceIdentifier).filter(Boolean); must(new Set(ids).size === ids.length, "different identifiers");
      writer = `Db/${cl.id}.Endpoint.Address`; reader = `Db/${cl.id}.ReadEndpoint.Address`; ident = `Db/${cl.id}`;
      same([e("db-cluster"), e("db-cluster-writer-endpoint"), e("db-cluster-reader-endpoint")], [ident, writer, reader], "exports");
      same(d.val(t, "Db", db.resolve(db.clusterIdentifier)), ident, "identifier");
    } else {
      writer = hosts(c).clusterWriteEndpoint; reader = hosts(c).clusterReadEndpoint; ident = c.id;
      same(db.clusterIdentifier, ident, "identifier");
    }
    const ssm = d.world.ssm;
    alike({ ...ssm }, { "/digitraffic/db/reader-endpoint": reader, "/digitraffic/db/writer-endpoint": writer, "/digitraffic/db/identifier": ident }, "parameters");
    // the proxy
    const pr = throwsSync(() => new PX.DbProxyStack(new App(), "Px", i, { secretArn: SECRET, name: px.name, securityGroupId: "sg-px", clusterIdentifier: px.empty ? "" : "the-cluster" }));
    if (px.empty) { must(pr.error, "an empty cluster identifier is refused"); return "empty identifier"; }
    if (pr.error) throw pr.error;
    const pt = d.deploy("Px", pr.value), pxy = one(pt, "AWS::RDS::DBProxy"), tg = one(pt, "AWS::RDS::DBProxyTargetGroup"), ep = one(pt, "AWS::RDS::DBProxyEndpoint"), priv = [e("digitrafficprivateASubnet"), e("digitrafficprivateBSubnet")];
    same([pxy.p.DBProxyName, pxy.p.EngineFamily, pxy.p.RequireTLS, pxy.p.IdleClientTimeout], [px.name ?? "AuroraProxy", "POSTGRESQL", false, 1800], "proxy");
    same(pxy.p.Auth.map((a) => a.SecretArn), [SECRET]); same(d.val(pt, "Px", pxy.p.VpcSubnetIds), priv); same(pxy.p.VpcSecurityGroupIds, ["sg-px"]);
    same(tg.p.DBClusterIdentifiers, ["the-cluster"]); same(tg.p.DBProxyName, { Ref: pxy.id }); alike(tg.p.ConnectionPoolConfigurationInfo, { ConnectionBorrowTimeout: 120, MaxConnectionsPercent: 50, MaxIdleConnectionsPercent: 25 }, "pool");
    same([ep.p.TargetRole, ep.p.DBProxyName], ["READ_ONLY", { Ref: pxy.id }]); same(d.val(pt, "Px", ep.p.VpcSubnetIds), priv); same(ep.p.VpcSecurityGroupIds, ["sg-px"]);
    const pw = `Px/${pxy.id}.Endpoint`, prd = `Px/${ep.id}.Endpoint`;
    same([ssm["/digitraffic/db/proxy-writer-endpoint"], ssm["/digitraffic/db/proxy-reader-endpoint"]], [pw, prd], "proxy parameters");
    same(e("db-writer-endpoint"), pw, "exported writer endpoint"); must([pw, prd].includes(e("db-reader-endpoint")), "exported reader endpoint");
    // names
    const dt = d.deploy("Dns", new DNS.DbDnsStack(new App(), "Dns", i)), zone = one(dt, "AWS::Route53::HostedZone");
    same(zone.p.Name, `${i.environmentName}.local.`); same(zone.p.VPCs.map((v) => d.val(dt, "Dns", v.VPCId)), [e("VPCID")]); same([zone.r.DeletionPolicy, zone.r.UpdateReplacePolicy], ["Retain", "Retain"], "the zone is retained");
    const names = {};
    for (const x of of(dt, "AWS::Route53::RecordSet")) { same([x.p.Type, x.p.TTL, x.p.HostedZoneId], ["CNAME", "30", { Ref: zone.id }]); names[x.p.Name] = x.p.ResourceRecords.map((v) => d.val(dt, "Dns", v)).join(); }
    const nm = (x) => `${x}.${i.environmentName}.local.`;
    alike(names, { [nm("db")]: writer, [nm("db-ro")]: reader, [nm("proxy")]: pw, [nm("proxy-ro")]: prd }, "names lead to endpoints");
    return creates ? (c.readers.length > 1 ? "readers" : c.snapshot ? "snapshot" : "cluster") : "import";
  }, { runs: 110, needs: [DB.DbStack, PX.DbProxyStack, DNS.DbDnsStack] });

  const hostName = fc.record({ id: fc.stringMatching(/^[a-z](-?[a-z0-9]){0,12}(\.[a-z]{1,3})?$/), kind: fc.constantFrom(".cluster-abc.eu-west-1.rds.amazonaws.com", ".cluster-ro-abc.eu-west-1.rds.amazonaws.com", ".clusterx.y", ".abc.eu-west-1.rds.amazonaws.com", "-cluster.abc.rds.amazonaws.com", "") });
  await prop("cluster identifiers", fc.record({ h: fc.option(fc.oneof(hostName.map((x) => x.id + x.kind), fc.constantFrom(".cluster-abc.rds", "", "cluster")), { nil: undefined }), fb: fc.constantFrom(undefined, "", "fall-back") }), async (c) => {
    const r = throwsSync(() => DB.parseClusterIdentifier(c.h === undefined ? undefined : { clusterWriteEndpoint: c.h, clusterReadEndpoint: "other.cluster-ro-abc.rds" }, c.fb));
    const at = c.h?.indexOf(".cluster") ?? -1;
    if (at > 0) { same(r.value, c.h.slice(0, at)); return false; }
    if (c.fb) { same(r.value, c.fb); return "fallback"; }
    must(r.error, () => `identifier ${r.value} from ${c.h}`);
    return "refused";
  }, { runs: 500, needs: [DB.parseClusterIdentifier] });

  const fnOf = (s, id) => new Fn(s, id, { runtime: Runtime.NODEJS_22_X, handler: "x.handler", code: Code.fromInline("x"), functionName: id });
  const minutesOf = (x) => { const m = /^rate\((\d+) (minute|hour|day)s?\)$/.exec(x); must(m && (m[1] === "1") === !x.endsWith("s)"), () => `schedule ${x}`); return Number(m[1]) * { minute: 1, hour: 60, day: 1440 }[m[2]]; };
  await prop("schedules", fc.record({ kind: fc.constantFrom("everyMinute", "everyMinutes", "everyHour", "everyDay", "every", "cron"), n: fc.oneof(fc.integer({ min: 1, max: 12 }), fc.integer({ min: 1, max: 3000 })), lambda: fc.boolean(), name: fc.stringMatching(/^[A-Z][A-Za-z-]{0,10}$/) }), async (c) => {
    const s = new Stack(new App(), "S"), f = fnOf(s, "the-function"), l = c.lambda ? f : undefined, X = SCH.Scheduler;
    let want;
    if (c.kind === "everyMinute") { X.everyMinute(s, c.name, l); want = 1; } else if (c.kind === "everyMinutes") { X.everyMinutes(s, c.name, c.n, l); want = c.n; } else if (c.kind === "everyHour") { X.everyHour(s, c.name, l); want = 60; } else if (c.kind === "everyDay") { X.everyDay(s, c.name, l); want = 1440; } else if (c.kind === "every") { X.every(s, c.name, Duration.minutes(c.n), l); want = c.n; } else { new X(s, c.name, Schedule.cron({ minute: "5", hour: "3" }), l); }
    const t = synth(s), r = one(t, "AWS::Events::Rule"), fid = of(t, "AWS::Lambda::Function")[0].id;
    same([r.p.Name, r.p.State], [c.name, "ENABLED"]);
    if (want) same(minutesOf(r.p.ScheduleExpression), want, "minutes"); else same(r.p.ScheduleExpression, "cron(5 3 * * ? *)");
    same((r.p.Targets ?? []).map((x) => x.Arn), c.lambda ? [{ "Fn::GetAtt": [fid, "Arn"] }] : [], "targets");
    same(of(t, "AWS::Lambda::Permission").map((x) => [x.p.Principal, x.p.Action, x.p.FunctionName, x.p.SourceArn]), c.lambda ? [["events.amazonaws.com", "lambda:InvokeFunction", { "Fn::GetAtt": [fid, "Arn"] }, { "Fn::GetAtt": [r.id, "Arn"] }]] : [], "permission to call");
    return c.lambda ? c.kind : false;
  }, { runs: 150, needs: [SCH.Scheduler] });

  // reference matcher of event patterns
  const matches = (pat, ev) => Object.entries(pat).every(([k, p]) => { const vs = Array.isArray(ev) ? ev.map((x) => x?.[k]) : [ev?.[k]]; return Array.isArray(p) ? vs.flat().some((v) => p.includes(v)) : vs.some((v) => v !== undefined && matches(p, v)); });
  const securityRule = (() => { let c; return () => (c ??= (() => { const s = new Stack(new App(), "S"), topic = new Topic(s, "T"); new SR.DigitrafficSecurityRule(s, topic); return synth(s); })()); })();
  await prop("security events", fc.record({ source: fc.constantFrom("aws.securityhub", "aws.securityhub", "aws.securityhub", "aws.guardduty"), type: fc.constantFrom("Security Hub Findings - Imported", "Security Hub Findings - Imported", "Security Hub Findings - Custom Action"), compliance: fc.constantFrom("FAILED", "FAILED", "PASSED", "WARNING", "NOT_AVAILABLE", undefined), workflow: fc.constantFrom("NEW", "NEW", "NOTIFIED", "RESOLVED", "SUPPRESSED"), severity: fc.constantFrom("INFORMATIONAL", "LOW", "MEDIUM", "HIGH", "CRITICAL") }), async (c) => {
    const t = securityRule(), r = one(t, "AWS::Events::Rule"), topic = one(t, "AWS::SNS::Topic").id;
    same(r.p.State, "ENABLED"); same(r.p.Targets.map((x) => x.Arn), [{ Ref: topic }], "the topic is notified");
    const ev = { source: c.source, "detail-type": c.type, detail: { findings: [{ ...(c.compliance ? { Compliance: { Status: c.compliance } } : {}), Workflow: { Status: c.workflow }, Severity: { Label: c.severity } }] } };
    const want = c.source === "aws.securityhub" && c.type.endsWith("Imported") && c.compliance === "FAILED" && c.workflow === "NEW" && ["HIGH", "CRITICAL"].includes(c.severity);
    same(matches(r.p.EventPattern, ev), want, show(ev));
    return want ? "notified" : "not";
  }, { runs: 600, needs: [SR.DigitrafficSecurityRule] });

  await prop("log subscriptions", fc.record({ names: fc.uniqueArray(fc.constantFrom("a-one", "b-two", "c-three", "b-two-2", "A-One", "a-one1"), { maxLength: 4 }), dest: fc.constantFrom("arn:aws:logs:eu-west-1:1:destination:d", "arn:aws:lambda:eu-west-1:1:function:f", undefined, null), how: fc.constantFrom("each", "all") }), async (c) => {
    const dest = c.how === "all" ? c.dest ?? undefined : c.dest;
    const s = new Stack(new App(), "S"), fs = c.names.map((x) => Object.assign(fnOf(s, x), { givenName: x }));
    if (c.how === "all") new SUB.DigitrafficLogSubscriptions(Object.assign(s, { configuration: { logsDestinationArn: dest } }), ...fs);
    else for (const f of fs) same(SUB.createSubscription(f, f.givenName, dest, s) === undefined, !dest, "created");
    const t = synth(s), subs = of(t, "AWS::Logs::SubscriptionFilter");
    same(subs.length, dest ? c.names.length : 0, "subscriptions");
    const idOf = (n) => of(t, "AWS::Lambda::Function").find((f) => f.p.FunctionName === n).id;
    const groups = new Set();
    for (const x of subs) { same([x.p.DestinationArn, x.p.FilterPattern], [dest, ""]); const n = c.names.find((y) => [x.r.DependsOn].flat().includes(idOf(y))); must(n && !groups.has(n), "one for each function, created after it"); groups.add(n); must(JSON.stringify(x.p.LogGroupName).includes(`${idOf(n)}`) || JSON.stringify(x.p.LogGroupName).includes("LogRetention"), () => `log group ${show(x.p.LogGroupName)}`); same(x.p.LogGroupName, s.resolve(fs[c.names.indexOf(n)].logGroup.logGroupName), "the function's own log group"); }
    return dest && c.names.length > 1;
  }, { runs: 60, needs: [SUB.createSubscription, SUB.DigitrafficLogSubscriptions], examples: [{ names: Array.from({ length: 32 }, (_, i) => `fn-${i}-x`), dest: "arn:aws:logs:eu-west-1:1:destination:d", how: "all" }] });
});
