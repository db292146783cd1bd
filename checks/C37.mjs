// C37: variable signs: situations received are served, one by one and unaltered; devices, data rows and sign images.
import { check, fc, must, same, show, outcome, fakeClock } from "#harness";
import { secret, useDatabase } from "#harness/app.mjs";
import { PgLite } from "#harness/pglite.mjs";
import { handler as updateDatex2 } from "#repo/road/variable-signs/src/lambda/update-datex2/update-datex2.ts";
import { handler as updateData } from "#repo/road/variable-signs/src/lambda/update-json-data/update-json-data.ts";
import { handler as updateMetadata } from "#repo/road/variable-signs/src/lambda/update-json-metadata/update-json-metadata.ts";
import { handler as sit223 } from "#repo/road/variable-signs/src/lambda/get-datex2/get-datex2.ts";
import { handler as sit35 } from "#repo/road/variable-signs/src/lambda/get-situations-datex2-35/get-situations-datex2-35.ts";
import { handler as sit37 } from "#repo/road/variable-signs/src/lambda/get-situations-datex2-37/get-situations-datex2-37.ts";
import { handler as con35 } from "#repo/road/variable-signs/src/lambda/get-controllers-datex2-35/get-controllers-datex2-35.ts";
import { handler as con37 } from "#repo/road/variable-signs/src/lambda/get-controllers-datex2-37/get-controllers-datex2-37.ts";
import { handler as sta35 } from "#repo/road/variable-signs/src/lambda/get-statuses-datex2-35/get-statuses-datex2-35.ts";
import { handler as sta37 } from "#repo/road/variable-signs/src/lambda/get-statuses-datex2-37/get-statuses-datex2-37.ts";
import { handler as image } from "#repo/road/variable-signs/src/lambda/get-sign-image/get-sign-image.ts";
const MIN = 60e3, HOUR = 3600e3;
const schema = `
create table device(id text primary key, created integer, modified integer, deleted_date integer, type text not null, road_address text not null, direction text, carriageway text, etrs_tm35fin_x real, etrs_tm35fin_y real);
create table device_data_datex2(device_id text not null, datex2 text not null, effect_date integer not null check (typeof(effect_date) = 'integer'), type text not null, version text not null, modified integer, unique(device_id, type, version));
create trigger t1 after insert on device_data_datex2 begin update device_data_datex2 set modified = coalesce(new.modified, pg_now()) where rowid = new.rowid; end;
create trigger t2 after update of datex2, effect_date on device_data_datex2 begin update device_data_datex2 set modified = pg_now() where rowid = new.rowid; end;
create table device_data(id integer primary key, device_id text not null, display_value text, additional_information text, effect_date integer not null, cause text, reliability text not null);
create table device_data_row(id integer primary key, device_data_id integer not null, screen integer not null, row_number integer not null, text text);
create table data_updated(id integer, data_type text not null, subtype text not null default '-', updated integer, unique(data_type, subtype));`;
let nowMs = 0;
const pg = await new PgLite({ schema, now: () => nowMs, functions: { to_timestamp: (s) => Number(s) * 1000 }, types: { modified: "ts", deleted_date: "ts", effect_date: "ts", updated: "ts", etrs_tm35fin_x: "float", etrs_tm35fin_y: "float" } }).start();
useDatabase(pg); Object.assign(secret, { proxy_host: secret.host, proxy_ro_host: secret.host });
const some = (v, freq) => fc.option(v, { nil: undefined, freq });
const quietly = async (f) => { const c = fakeClock(nowMs, ["Date"]); try { return await outcome(f); } finally { c.uninstall(); } };
const iso = (ms) => new Date(ms).toISOString();
const BASE = Date.UTC(2026, 4, 1);
const DEVICES = ["KRM015651", "KRM015511", "VME/TIO01K502", "VME/TIO015111", "kä-1", "VME/TIO015111B"], TESTERS = new Set(["VME/TIO01K502", "VME/TIO015111"]);
const NIGHTS = [[Date.UTC(2024, 4, 20, 19), Date.UTC(2024, 4, 21, 2)], [Date.UTC(2024, 4, 21, 19), Date.UTC(2024, 4, 22, 2)]];
const startArb = fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 500 }).map((n) => BASE - n * MIN) }, fc.constantFrom(...NIGHTS.flat().flatMap((t) => [t, t - 1, t + 1])), fc.integer({ min: -300, max: 2000 }).map((n) => NIGHTS[0][0] + n * MIN));
// texts that a careless search or replacement would change
const TEXT = fc.oneof(fc.constantFrom("Tietyö", "5 $ &amp; 10 $$", "$&amp;$`$'$1", "PUBLICATION_TIME", "SITUATIONS CONTROLLERS STATUSES", "a &lt;situation b", "version=&quot;2&quot;", "\u{1F6A7} &#228;"), fc.string({ unit: fc.constantFrom("$", "'", "`", "&amp;", "1", "a", " "), maxLength: 8 }));
const sitArb = fc.record({ id: fc.constantFrom(...DEVICES), recordId: some(fc.constantFrom(...DEVICES), 4), start: startArb, text: TEXT, version: fc.nat(9), lines: fc.boolean(), nested: fc.boolean() });
// a situation as the sender writes it, with or without namespace prefixes
const situation = (s, p = "", c = "") => { const nl = s.lines ? "\n   " : ""; return `<${p}situation id="${s.id}" version="${s.version}">${nl}<${p}overallSeverity>high</${p}overallSeverity>${nl}<${p}situationRecord xsi:type="SpeedManagement" id="${s.recordId ?? s.id}" version="1">${s.nested ? `<${p}situationRecordExtension><${c}x/></${p}situationRecordExtension>` : ""}<${p}validity><${c}validityStatus>active</${c}validityStatus><${c}validityTimeSpecification><${c}overallStartTime>${iso(s.start)}</${c}overallStartTime></${c}validityTimeSpecification></${p}validity><${p}comment>${s.text}</${p}comment></${p}situationRecord>${nl}</${p}situation>`; };
const hidden = (s) => TESTERS.has(s.recordId ?? s.id) && NIGHTS.some(([a, b]) => s.start >= a && s.start < b);
const document = (list, o = {}) => `${o.before ?? ""}${o.noxml ? "" : '<?xml version="1.0" encoding="UTF-8"?>'}<d2LogicalModel modelBaseVersion="2">${Array.from({ length: o.payloads ?? 1 }, () => '<payloadPublication xsi:type="SituationPublication" lang="fi">').join("")}<publicationTime>${iso(BASE)}</publicationTime>\n${list.map((s) => (typeof s === "string" ? s : situation(s))).join(o.sep ?? "\n")}\n</payloadPublication></d2LogicalModel>`;
const decode = (r) => ({ status: r.status, text: Buffer.from(r.body, "base64").toString("utf8"), timestamp: r.timestamp });
async function read(h, what) { const r = await quietly(h); must(!("error" in r), `${what} fails: ${r.error?.message}`); return decode(r.value); }
// what an interface says when it has nothing: what it says otherwise is that with the parts put in
const READERS = { "2.2.3 situations": [sit223, "SITUATION", "DATEXII_2_2_3", "</payloadPublication>"], "3.5 situations": [sit35, "SITUATION", "DATEXII_3_5", "</sit:situationPublication>"], "3.7 situations": [sit37, "SITUATION", "DATEXII_3_7", "</sit:situationPublication>"], "3.5 controllers": [con35, "CONTROLLER", "DATEXII_3_5", "</vms:vmsControllerTable>"], "3.7 controllers": [con37, "CONTROLLER", "DATEXII_3_7", "</vms:vmsControllerTable>"], "3.5 statuses": [sta35, "CONTROLLER_STATUS", "DATEXII_3_5", "</d2:payload>"], "3.7 statuses": [sta37, "CONTROLLER_STATUS", "DATEXII_3_7", "</d2:payload>"] };
const EPOCH = "1970-01-01T00:00:00.000Z", frames = {};
async function frame(what) {
  if (frames[what]) return frames[what];
  pg.fresh(); nowMs = BASE; const [h, , version, end] = READERS[what], t = (await read(h, what)).text, at = t.indexOf(end), cut = t.slice(0, at).trimEnd().length;
  must(t.split(EPOCH).length === 2 && at > 0 && t.indexOf(end, at + 1) < 0, `${what} without anything: ${t}`); must(!/PUBLICATION_TIME|SITUATIONS|CONTROLLERS|STATUSES/.test(t), `${what} without anything: ${t}`);
  if (version !== "DATEXII_2_2_3") for (const [ns, uri] of [["com", "common"], ["sit", "situation"], ["vms", "vms"], ["d2", "d2Payload"], ["roa", "roadTrafficData"], ["loc", "locationReferencing"], ...(version === "DATEXII_3_7" ? [["afac", "afirFacilities"], ["aegi", "afirEnergyInfrastructure"], ["tro", "trafficRegulation"], ["cz", "controlledZone"], ["olrb", "openLrBinary"]] : [])]) must(t.includes(`xmlns:${ns}="http://datex2.eu/schema/3/${uri}"`), `${what} does not declare ${ns}`);
  return (frames[what] = [t.slice(0, cut), t.slice(at)]);
}
async function served(what, parts, modified) {
  const [head, tail] = await frame(what); return { head, tail, check(a) {
    same(a.status, 200, `${what}: status`); const h = head.replace(EPOCH, () => iso(modified));
    must(a.text.startsWith(h) && a.text.endsWith(tail) && a.text.length >= h.length + tail.length, `${what}: the frame of the answer, published ${iso(modified)}: ${show(a.text).slice(0, 3000)}`);
    same(a.text.slice(h.length, a.text.length - tail.length).trim(), parts.join("\n"), `${what}: what it contains`); same(a.timestamp, new Date(modified).toUTCString(), `${what}: Last-Modified`);
  } };
}

await check({
  rule: "a history is non-trivial if situations are saved and served, a read if it serves something, a metadata history if a device changes; every sign text counts",
  assumptions: ["PostgreSQL is emulated as far as the statements need, @rgrove/parse-xml as far as the code uses it", "a situation's first attribute is its id and the second its version, as the sender writes them", "stored documents of 3.5 and 3.7 have their namespace prefixes throughout or lack them on the outermost element only", "a body that is not JSON at all is not claimed for the two JSON interfaces"],
}, async ({ prop }) => {
  const badDoc = fc.constantFrom("noxml", "none", "two", "empty", "missing", "cut", "nostart");
  await prop("received and served", fc.record({ gone: fc.array(fc.nat(4), { maxLength: 2 }), runs: fc.array(fc.record({ minutes: fc.integer({ min: 1, max: 2000 }), list: fc.array(sitArb, { maxLength: 4 }), sep: fc.constantFrom("\n", "", "  "), before: fc.oneof({ weight: 5, arbitrary: fc.constant("") }, fc.constantFrom("\ufeff", "\n", "  ")), bad: some(badDoc, 3), fault: some(fc.tuple(fc.nat(6), fc.constantFrom("error", "drop")), 4) }), { minLength: 1, maxLength: 5 }) }), async (o) => {
    for (const w of ["2.2.3 situations"]) await frame(w);
    pg.fresh(); nowMs = BASE; const model = new Map(); let mark, kept = 0;
    for (const [i, id] of DEVICES.entries()) pg.insert("device", { id, type: "T", road_address: "A", deleted_date: o.gone.includes(i) ? new Date(BASE - HOUR) : null });
    for (const run of o.runs) {
      nowMs += run.minutes * MIN; let body = document(run.list, { sep: run.sep, before: run.before }), refused = false, fails = false;
      if (run.bad === "noxml") { body = document(run.list, { noxml: true }); refused = true; } if (run.bad === "none") { body = document(run.list, { payloads: 0 }); refused = true; } if (run.bad === "two") { body = document(run.list, { payloads: 2 }); refused = true; }
      if (run.bad === "empty") { body = ""; refused = true; } if (run.bad === "missing") { body = undefined; refused = true; }
      if (run.bad === "cut" && run.list.length) { body = document(run.list.map((s, i) => (i === run.list.length - 1 ? situation(s).replace("</situation>", "") : s))); fails = true; }
      if (run.bad === "nostart" && run.list.length) { body = document(run.list.map((s, i) => (i === 0 ? situation(s).replace(/<overallStartTime>[^<]*<\/overallStartTime>/, "") : s))); fails = true; }
      let n = 0, broke = false; pg.fault = run.fault ? (sql) => { if (/device_data_datex2|data_updated|^\s*commit/i.test(sql) && n++ === run.fault[0]) { if (/^\s*commit/i.test(sql) && run.fault[1] !== "drop") return undefined; broke = true; return run.fault[1] === "drop" ? "drop" : { code: "53200", message: "no" }; } return undefined; } : undefined;
      const r = await quietly(() => updateDatex2({ body })); pg.fault = undefined; if (!pg.settled) return false;
      must(!("error" in r), `the handler throws: ${r.error?.message}`); const s = r.value.statusCode;
      if (refused) same(s, 400, `status for a ${run.bad} document`); else if (fails) must(s === 400 || s === 500, `status ${s} for a document that is ${run.bad}`); else if (broke) same(s, 500, "status when the database fails"); else same(s, 200, "status");
      if (s === 200) { for (const x of run.list) { const text = situation(x), old = model.get(x.id); model.set(x.id, { x, text, modified: nowMs }); kept++; } mark = nowMs; }
      same(pg.rows("select * from device_data_datex2 order by device_id").map((x) => [x.device_id, x.datex2, x.effect_date, x.type, x.version]), [...model].sort(([a], [b]) => (a < b ? -1 : 1)).map(([id, m]) => [id, m.text, m.x.start, "SITUATION", "DATEXII_2_2_3"]), `the situations saved at ${iso(nowMs)}`);
      same(pg.rows("select updated from data_updated where data_type = 'VS_DATEX2'")[0]?.updated, mark, "when they were updated");
      const alive = [...model].filter(([id]) => !o.gone.includes(DEVICES.indexOf(id))).sort(([a], [b]) => (a < b ? -1 : 1)), f = await served("2.2.3 situations", alive.filter(([, m]) => !hidden(m.x)).map(([, m]) => m.text), Math.max(0, ...alive.map(([, m]) => m.modified)));
      f.check(await read(sit223, "2.2.3 situations"));
    }
    return kept > 0 && (o.runs.some((r) => r.fault || r.bad) ? "with failures" : "undisturbed");
  }, { runs: 350, thorough: 2500, needs: [updateDatex2, sit223] });

  const row = fc.record({ s: sitArb, version: fc.constantFrom("DATEXII_2_2_3", "DATEXII_3_5", "DATEXII_3_7"), type: fc.constantFrom("SITUATION", "CONTROLLER", "CONTROLLER_STATUS"), legacy: fc.boolean(), at: fc.integer({ min: 0, max: 100000 }), ms: fc.nat(999), malformed: fc.oneof({ weight: 6, arbitrary: fc.constant(false) }, fc.constant(true)) });
  const content = (r, old) => { // what is stored (old) and what must be served
    const p = old && r.legacy ? "" : { SITUATION: "sit", CONTROLLER: "vms", CONTROLLER_STATUS: "vms" }[r.type] + ":", x = r.s;
    if (r.version === "DATEXII_2_2_3") return situation(x) + (r.malformed ? "<" : "");
    if (r.type === "SITUATION") { const t = situation(x, "sit:", "com:"); return (p ? t : t.replace("<sit:situation ", "<situation ").replace("</sit:situation>", "</situation>")) + (r.malformed ? "<" : ""); }
    const tag = r.type === "CONTROLLER" ? "vmsController" : "vmsControllerStatus", other = r.type === "CONTROLLER" ? "vmsControllerVersion" : "vmsControllerReference";
    return `<${p}${tag}${x.lines ? "\n" : " "}id="${x.id}" version="1"><vms:${other}>${x.text}</vms:${other}><vms:vms vmsIndex="1"/></${p}${tag}>`;
  };
  await prop("stored and served", fc.record({ rows: fc.uniqueArray(row, { selector: (r) => [r.s.id, r.version, r.type].join(), maxLength: 14 }), gone: fc.array(fc.nat(4), { maxLength: 2 }), broken: fc.oneof({ weight: 12, arbitrary: fc.constant(false) }, fc.constant(true)) }), async (o) => {
    for (const w of Object.keys(READERS)) await frame(w);
    pg.fresh(); nowMs = BASE + 400 * HOUR; let n = 0;
    for (const [i, id] of DEVICES.entries()) pg.insert("device", { id, type: "T", road_address: "A", deleted_date: o.gone.includes(i) ? new Date(BASE - HOUR) : null });
    for (const r of o.rows) pg.insert("device_data_datex2", { device_id: r.s.id, datex2: content(r, true), effect_date: new Date(r.s.start), type: r.type, version: r.version, modified: new Date(BASE + r.at * 1000 + r.ms) });
    for (const [what, [h, type, version]] of Object.entries(READERS)) {
      if (o.broken) { pg.fault = (sql) => (/device_data_datex2/.test(sql) ? { code: "53200", message: "no" } : undefined); const r = await quietly(h); pg.fault = undefined; must("error" in r || r.value.status >= 500, `${what} answers although the database fails`); continue; }
      const mine = o.rows.filter((r) => r.type === type && r.version === version && !o.gone.includes(DEVICES.indexOf(r.s.id))).sort((a, b) => (a.s.id < b.s.id ? -1 : 1)), shown = mine.filter((r) => type !== "SITUATION" || r.malformed || !hidden(r.s)); n += shown.length;
      const f = await served(what, shown.map((r) => content(r, false)), mine.length ? Math.max(...mine.map((r) => BASE + r.at * 1000 + r.ms)) : 0);
      const a = await read(h, what); if (!pg.settled) return false; f.check(a);
    }
    return o.broken ? "failing" : n > 0 && "served";
  }, { runs: 300, thorough: 2000, needs: [sit35, sit37, con35, con37, sta35, sta37] });

  const laite = fc.record({ tunnus: fc.constantFrom("A", "B", "C", "D", "O'E"), tyyppi: fc.constantFrom("Nopeus", "Teksti"), sijainti: fc.record({ tieosoite: fc.constantFrom("1/1/1", "4/2/200"), ajosuunta: fc.constantFrom("K", "L"), ajorata: fc.constantFrom("N", "0"), e: fc.integer({ min: 300000, max: 300009 }).map((x) => x + 0.5), n: fc.integer({ min: 6700000, max: 6700009 }) }) });
  await prop("devices", fc.array(fc.record({ minutes: fc.integer({ min: 1, max: 5000 }), laitteet: fc.array(laite, { maxLength: 6 }), fault: some(fc.tuple(fc.nat(9), fc.constantFrom("error", "drop")), 4), missing: fc.oneof({ weight: 8, arbitrary: fc.constant(false) }, fc.constant(true)) }), { minLength: 1, maxLength: 6 }), async (runs) => {
    pg.fresh(); nowMs = BASE; const model = new Map(); let changes = 0;
    for (const run of runs) {
      nowMs += run.minutes * MIN; let n = 0, broke = false; pg.fault = run.fault ? (sql) => { if (/\bdevice\b|^\s*commit/i.test(sql) && n++ === run.fault[0]) { if (/^\s*commit/i.test(sql) && run.fault[1] !== "drop") return undefined; broke = true; return run.fault[1] === "drop" ? "drop" : { code: "53200", message: "no" }; } return undefined; } : undefined;
      const r = await quietly(() => updateMetadata({ body: run.missing ? undefined : JSON.stringify({ laitteet: run.laitteet }) })); pg.fault = undefined; if (!pg.settled) return false; must(!("error" in r), `the handler throws: ${r.error?.message}`);
      same(r.value.statusCode, run.missing ? 400 : broke ? 500 : 200, "status");
      if (!run.missing && !broke) {
        const ids = new Set(run.laitteet.map((l) => l.tunnus)); for (const [id, m] of model) if (!ids.has(id) && m.deleted_date === null) { m.deleted_date = nowMs; changes++; }
        for (const l of run.laitteet) { model.set(l.tunnus, { id: l.tunnus, deleted_date: null, type: l.tyyppi, road_address: l.sijainti.tieosoite, direction: l.sijainti.ajosuunta, carriageway: l.sijainti.ajorata, etrs_tm35fin_x: l.sijainti.e, etrs_tm35fin_y: l.sijainti.n }); changes++; }
      }
      same(pg.rows("select id, deleted_date, type, road_address, direction, carriageway, etrs_tm35fin_x, etrs_tm35fin_y from device order by id"), [...model.values()].sort((a, b) => (a.id < b.id ? -1 : 1)), `the devices at ${iso(nowMs)}`);
    }
    return changes > 0 && (runs.some((r) => r.fault) ? "with failures" : "undisturbed");
  }, { runs: 250, thorough: 2000, needs: [updateMetadata] });

  const tila = fc.record({ tunnus: fc.constantFrom("A", "B"), nayttama: some(fc.constantFrom("80", "o'x"), 3), lisatieto: some(fc.constant("li"), 3), voimaan: startArb.map(iso), syy: some(fc.constant("x"), 3), luotettavuus: fc.constantFrom("NORMAALI", "VIKA"), rivit: some(fc.array(fc.record({ naytto: fc.nat(3), rivi: fc.nat(4), teksti: some(fc.constantFrom("RUUHKA", "$1 ${x}", "ä'"), 3) }), { maxLength: 4 }), 3) });
  await prop("data", fc.array(fc.record({ list: fc.array(tila, { maxLength: 5 }), fault: some(fc.tuple(fc.nat(9), fc.constantFrom("error", "drop")), 3) }), { minLength: 1, maxLength: 4 }), async (runs) => {
    pg.fresh(); nowMs = BASE; const want = []; let failures = 0;
    for (const run of runs) {
      let n = 0, broke = false; pg.fault = run.fault ? (sql) => { if (/device_data|^\s*commit/i.test(sql) && n++ === run.fault[0]) { if (/^\s*commit/i.test(sql) && run.fault[1] !== "drop") return undefined; broke = true; return run.fault[1] === "drop" ? "drop" : { code: "53200", message: "no" }; } return undefined; } : undefined;
      const r = await quietly(() => updateData({ body: JSON.stringify({ liikennemerkit: run.list }) })); pg.fault = undefined; if (!pg.settled) return false; must(!("error" in r), `the handler throws: ${r.error?.message}`); same(r.value.statusCode, broke ? 500 : 200, "status"); if (broke) failures++;
      if (!broke) for (const l of run.list) want.push({ device_id: l.tunnus, display_value: l.nayttama ?? null, additional_information: l.lisatieto ?? null, effect_date: Date.parse(l.voimaan), cause: l.syy ?? null, reliability: l.luotettavuus, rows: (l.rivit ?? []).map((x) => [x.naytto, x.rivi, x.teksti ?? null]) });
      const rows = pg.rows("select * from device_data_row order by id"); same(pg.rows("select * from device_data order by id").map(({ id, ...x }) => ({ ...x, rows: rows.filter((y) => y.device_data_id === id).map((y) => [y.screen, y.row_number, y.text]) })), want, "the data saved"); same(rows.length, want.reduce((a, w) => a + w.rows.length, 0), "rows of nothing");
    }
    return want.length > 0 && (failures ? "with failures" : "undisturbed");
  }, { runs: 200, thorough: 1500, needs: [updateData] });

  // ---------- sign images
  const SINGLES = { LAIVA_VASEN: 48, LAIVA_OIKEA: 48, RAMPPI: 48, LENTOKONE_VASEN: 48, LENTOKONE_OIKEA: 48, LENTOKONE_YLOS: 48, LENTOKONE_ALAS: 48, NUOLI_VASEN: 32, NUOLI_OIKEA: 32, NUOLI_YLOS: 32, NUOLI_ALAS: 32, NUOLI_VASENYLOS: 32, NUOLI_OIKEAYLOS: 32, NUOLI_VASENALAS: 32, NUOLI_OIKEAALAS: 32 };
  const anyCase = (a) => fc.tuple(a, fc.constantFrom(0, 1, 2)).map(([s, c]) => (c === 0 ? s : c === 1 ? s.toLowerCase() : [...s].map((x, i) => (i % 2 ? x.toLowerCase() : x)).join("")));
  const hex = fc.constantFrom(..."0123456789ABCDEFabcdef"), body = fc.oneof({ weight: 3, arbitrary: fc.string({ unit: hex, maxLength: 31 }) }, fc.string({ unit: hex, minLength: 24, maxLength: 31 }));
  const text = fc.oneof(anyCase(fc.constantFrom(...Object.keys(SINGLES))), body, fc.tuple(anyCase(fc.constantFrom("TIE_", "VARATIE_", "VARAREITTI_", "RAMPPI_")), body).map((x) => x.join("")), fc.string({ unit: fc.constantFrom("1", "A", "_", "G", "[", "]", " ", "TIE_", "ä", "\u{1F600}", "BEGIN", "n1"), maxLength: 6 }), fc.constantFrom("TIE_", "BEGIN", "END", "TIE_END", "TIE_BEGIN", "RAMPPI_BEGIN", "ROAD_1", "constructor", "__proto__", "TIE_G", "SINGLE_RAMPPI", "1TIE_2", "VARATIE_RAMPPI", "TIE_RAMPPI"));
  const bracketed = fc.oneof({ weight: 3, arbitrary: text }, text.map((t) => `[${t}]`), fc.tuple(fc.string({ unit: hex, minLength: 1, maxLength: 6 }), fc.constantFrom("[a", "a]", "[[a]]", "[a]]", "[[a]", "[a]b", "[b]a]", "[a][b]")).map(([t, f]) => f.replace("a", () => t)), fc.tuple(text, fc.constantFrom("[a", "a]", "]a[", "[[a]]", "[a]]", "a[b]", "[", "]", "[]", "[a]b")).map(([t, f]) => f.replace("a", () => t)));
  function expected(s) {
    let t = s; if (s.startsWith("[")) { if (!s.endsWith("]") || s.length < 2 || s.split("[").length > 2 || s.split("]").length > 2) return undefined; t = s.slice(1, -1); } else if (/[[\]]/.test(s)) return undefined;
    if (t.length < 1 || t.length > 30 || t.split("_").length > 2) return undefined; const u = t.toUpperCase(); if (Object.hasOwn(SINGLES, u)) return { widths: [SINGLES[u]], kinds: [u] };
    const m = /^(TIE|VARATIE|VARAREITTI|RAMPPI)_(.*)$/s.exec(u), rest = m ? m[2] : u; if (!/^[0-9A-F]*$/.test(rest)) return undefined;
    const cells = [...rest].map((c) => (/\d/.test(c) ? 16 : 20)); return m ? { widths: [m[1] === "RAMPPI" ? 30 : 5, ...cells, 5], kinds: [m[1] === "RAMPPI" ? "ramp" : "begin", ...rest, "end"], border: m[1] } : { widths: cells, kinds: [...rest] };
  }
  const bodies = new Map(); // what each drawing looks like, wherever it is used
  await prop("images", bracketed, async (t) => {
    const r = await outcome(() => image({ text: t })); must(!("error" in r), `fails: ${r.error?.message}`); const w = expected(t), status = r.value.status;
    if (!w) { same(status, 400, `status for ${show(t)}`); return "refused"; } same(status, 200, `status for ${show(t)}`); const svg = decode(r.value).text;
    const uses = [...svg.matchAll(/<use href="#([^"]+)" x="(\d+)" y="0" width="(\d+)" height="32"\/>/g)].map((m) => [m[1], Number(m[2]), Number(m[3])]), total = w.widths.reduce((a, b) => a + b, 0); let x = 0;
    same(uses.map((u) => [u[1], u[2]]), w.widths.map((d) => { const p = [x, d]; x += d; return p; }), `where the symbols of ${show(t)} are`); must(svg.includes(`viewBox="0 0 ${total} 32"`) && svg.startsWith("<svg ") && svg.trimEnd().endsWith("</svg>"), `the frame of ${show(t)}`);
    const defs = [...svg.matchAll(/<symbol id="([^"]+)" width="(\d+)" height="32" viewBox="0 0 (\d+) 32">\n([^]*?)\n<\/symbol>/g)].map((m) => [m[1], Number(m[2]), Number(m[3]), m[4]]);
    same(defs.map((d) => d[0]).sort(), [...new Set(uses.map((u) => u[0]))].sort(), `the symbols defined for ${show(t)}, each once`); for (const d of defs) { same(d[1], d[2], "a symbol's width"); for (const u of uses) if (u[0] === d[0]) same(u[2], d[1], "a symbol's width where it is used"); }
    w.kinds.forEach((k, i) => { const key = `${w.border === "RAMPPI" ? "TIE" : (w.border ?? "")} ${k}`, d = defs.find((y) => y[0] === uses[i][0])[3]; if (!bodies.has(key)) { for (const [other, drawn] of bodies) must(drawn !== d, `${key} looks like ${other}`); bodies.set(key, d); } must(bodies.get(key) === d, `${key} looks different in ${show(t)}`); });
    if (w.border) for (const [i, k] of w.kinds.entries()) if (/^[0-9A-F]$/.test(k)) { const plain = bodies.get(` ${k}`); if (plain) must(defs.find((y) => y[0] === uses[i][0])[3].startsWith(plain), `${k} with borders is not the plain one with borders`); }
    return w.border ?? (w.widths.length === 1 && Object.hasOwn(SINGLES, w.kinds[0]) ? "single" : "plain");
  }, { runs: 3000, thorough: 20000, needs: [image] });
  await pg.stop();
});
