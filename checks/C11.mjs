// C11: text encodings and dates.
import { check, fc, must, same, show, capture } from "#harness";
import zlib from "node:zlib";
import * as B from "#repo/lib/digitraffic-common/src/utils/base64.ts";
import * as D from "#repo/lib/digitraffic-common/src/utils/date-utils.ts";

const long = (a, w) => fc.oneof({ weight: w, arbitrary: a }, { weight: 1, arbitrary: fc.tuple(a, fc.integer({ min: 500, max: 4000 })).map(([s, n]) => s.repeat(n)) });
const uni = fc.oneof(fc.string({ maxLength: 60, unit: "grapheme" }), fc.string({ maxLength: 30, unit: "binary" }).map((s) => s.toWellFormed()), fc.constantFrom("", "åäöÅÄÖ", "€", "😀", "\u0000", "\ufeffx", "\r\n"));
const ascii = fc.string({ maxLength: 60, unit: fc.integer({ min: 0, max: 127 }).map((n) => String.fromCharCode(n)) });
const when = fc.date({ min: new Date(0), max: new Date("2100-01-01"), noInvalidDate: true });
const ZONES = ["UTC", "Europe/Helsinki", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "Pacific/Apia"];

await check({
  rule: "texts over all of Unicode, ASCII and binary, round-tripped and cross-decoded with Node's own decoder; dates formatted under several system time zones and read back; non-trivial: non-ASCII text, compressed text, a zone other than UTC",
}, async ({ prop }) => {
  await prop("UTF-8 text survives base64", long(uni, 30), async (s) => {
    const e = B.encodeUtf8ToBase64(s);
    same(Buffer.from(e, "base64").toString("utf8"), s, "encoded bytes"); must(/^[A-Za-z0-9+/]*={0,2}$/.test(e) && e.length % 4 === 0, "standard base64");
    same(B.decodeBase64ToUtf8(e), s, "round trip"); same(B.decodeBase64ToUtf8(e, false), s, "round trip");
    same(B.encodeBase64(s, "utf8"), e); same(B.decodeBase64(e, "utf8"), s);
    return /[^\x00-\x7f]/.test(s);
  }, { runs: 3000, needs: [B.encodeUtf8ToBase64, B.decodeBase64ToUtf8, B.encodeBase64, B.decodeBase64] });
  await prop("compressed text survives", fc.tuple(uni, fc.integer({ min: 1, max: 400 })), async ([s, n]) => {
    const t = s.repeat(n);
    const z = B.compressBuffer(Buffer.from(t));
    same(zlib.gunzipSync(z).toString("utf8"), t, "gzip");
    same(B.decodeBase64ToUtf8(z.toString("base64"), true), t, "decoded and decompressed");
    if (t.length > 2000 && n > 100) must(z.length < t.length, "compression shrinks repeated text");
    return t.length > 0;
  }, { runs: 500, needs: [B.compressBuffer, B.decodeBase64ToUtf8] });
  await prop("damaged compressed data is refused", fc.tuple(uni.filter((s) => s.length > 0), fc.nat()), async ([s, n]) => {
    const z = zlib.gzipSync(Buffer.from(s)); const cut = z.subarray(0, n % z.length);
    const { error } = await capture(() => B.decodeBase64ToUtf8(cut.toString("base64"), true));
    must(error, "truncated data was decoded");
    return true;
  }, { runs: 200, needs: [B.decodeBase64ToUtf8] });
  await prop("ASCII text survives base64", long(ascii, 20), async (s) => {
    const e = B.encodeAsciiToBase64(s);
    same(Buffer.from(e, "base64").toString("latin1"), s, "encoded bytes"); same(B.decodeBase64ToAscii(e), s, "round trip");
    same(B.decodeBase64ToAscii(Buffer.from(s).toString("base64").replace(/=+$/, "")), s, "without padding");
    return s.length > 0;
  }, { runs: 1000, needs: [B.encodeAsciiToBase64, B.decodeBase64ToAscii] });

  const pad = (n, w = 2) => String(n).padStart(w, "0");
  const FORMATS = {
    "yyyy-MM-dd": (d) => `${d.getUTCFullYear()}-${pad(d.getUTCMonth() + 1)}-${pad(d.getUTCDate())}`,
    "yyyy-MM-dd HH:mm": (d) => `${FORMATS["yyyy-MM-dd"](d)} ${pad(d.getUTCHours())}:${pad(d.getUTCMinutes())}`,
    "yyyy-MM-dd'T'HH:mm:ss.SSS'Z'": (d) => d.toISOString(),
    "HHmmss": (d) => pad(d.getUTCHours()) + pad(d.getUTCMinutes()) + pad(d.getUTCSeconds()),
    "yyyyMMdd": (d) => FORMATS["yyyy-MM-dd"](d).replaceAll("-", ""),
    "dd.MM.yyyy": (d) => `${pad(d.getUTCDate())}.${pad(d.getUTCMonth() + 1)}.${d.getUTCFullYear()}`,
    "xxx": () => "+00:00",
  };
  await prop("dates are formatted in UTC wherever the code runs", fc.record({ d: fc.oneof(when, when.map((d) => new Date(Math.round(d.getTime() / 86400000) * 86400000)), fc.constantFrom(new Date("2024-03-31T01:30:00Z"), new Date("2024-10-27T00:30:00Z"), new Date("2024-02-29T23:59:59.999Z"), new Date("1969-12-31T23:59:00Z"), new Date("1969-07-20T00:00:00Z"), new Date("1950-01-01T00:00:00Z"), new Date("2150-06-15T12:00:00Z"), new Date(0))), f: fc.constantFrom(...Object.keys(FORMATS)), zone: fc.constantFrom(...ZONES) }), async (c) => {
    const before = process.env.TZ;
    process.env.TZ = c.zone;
    try { same(D.dateToUTCString(c.d, c.f), FORMATS[c.f](c.d), `${c.d.getTime()} as ${c.f} in ${c.zone}`); }
    finally { process.env.TZ = before; }
    return c.zone !== "UTC" && c.zone;
  }, { runs: 2500, needs: [D.dateToUTCString] });
  await prop("the database date format is the UTC minute", when, async (d) => {
    same(D.dateToUTCString(d, D.MYSQL_DATETIME_FORMAT), d.toISOString().slice(0, 16).replace("T", " "), "format");
    return true;
  }, { runs: 200, needs: [D.dateToUTCString, D.MYSQL_DATETIME_FORMAT] });
  await prop("ISO dates are read exactly and anything else is refused", fc.oneof(when.map((d) => [d.toISOString(), d.getTime()]), when.map((d) => [d.toISOString().slice(0, 10), Date.parse(d.toISOString().slice(0, 10))]), fc.tuple(when, fc.integer({ min: -12, max: 14 })).map(([d, h]) => [new Date(d.getTime() + h * 3600000).toISOString().replace("Z", `${h < 0 ? "-" : "+"}${pad(Math.abs(h))}:00`), d.getTime()]), fc.constantFrom(["", null], ["tomorrow", null], ["2024-13-01", null], ["2024-01-01T25:00:00Z", null], ["2024-01-32", null], ["x2024-01-01", null])), async ([s, t]) => {
    const { value, error } = await capture(() => D.dateFromIsoString(s));
    if (t === null) { must(error, `${show(s)} was read as ${value}`); return "refused"; }
    must(!error, () => String(error)); same(value.getTime(), t, s);
    return /[+-]\d\d:00$/.test(s) && "offset";
  }, { runs: 1500, needs: [D.dateFromIsoString] });
  await prop("differences", fc.tuple(when, when, fc.constantFrom(...ZONES)), async ([a, b, zone]) => {
    const before = process.env.TZ;
    process.env.TZ = zone;
    try {
    same(D.countDiffMs(a, b), b.getTime() - a.getTime(), "ms"); same(D.countDiffInSeconds(a, b), (b.getTime() - a.getTime()) / 1000, "s"); same(D.EPOCH.getTime(), 0, "epoch");
    } finally { process.env.TZ = before; }
    return a > b ? "negative" : "positive";
  }, { runs: 300, needs: [D.countDiffMs, D.countDiffInSeconds] });
});
