// C17: request parameters.
import { check, fc, must, same, alike, show, capture } from "#harness";
import { z } from "zod";
import * as P from "#repo/lib/digitraffic-common/src/utils/lambda-proxy-event.ts";
import * as Z from "#repo/lib/digitraffic-common/src/utils/zod-utils.ts";

const key = fc.constantFrom("a", "b", "id", "from-date", "__x", "length", "values", "name");
await check({
  rule: "API proxy events with single, multi, missing and null parameter maps, and strings for numbers and dates; compared with a reference; non-trivial: repeated parameters, forced lists, refused values",
  assumptions: ["the multi-valued map of an event holds at least the values of the single-valued one, as the API provides"],
}, async ({ prop }) => {
  const vals = fc.array(fc.string({ maxLength: 5 }), { minLength: 1, maxLength: 3 });
  await prop("query parameters keep every value in order", fc.record({ params: fc.dictionary(key, vals, { maxKeys: 5 }), shape: fc.constantFrom("both", "both", "multi", "single", "none"), nulls: fc.constantFrom(null, undefined), lists: fc.option(fc.uniqueArray(key, { maxLength: 4 }), { nil: undefined }) }), async (c) => {
    const single = Object.fromEntries(Object.entries(c.params).map(([k, v]) => [k, v.at(-1)])), none = c.nulls;
    const event = { multiValueQueryStringParameters: ["both", "multi"].includes(c.shape) ? c.params : none, queryStringParameters: ["both", "single"].includes(c.shape) ? single : none };
    const before = structuredClone(event);
    const { value, error } = await capture(() => (c.lists ? P.parseQueryParams(event, c.lists) : P.parseQueryParams(event)));
    must(!error, () => `${error?.stack}`);
    alike(event, before, "the event is not changed");
    const want = {};
    if (c.shape !== "none") for (const [k, v] of Object.entries(c.params)) { const vs = c.shape === "single" ? [v.at(-1)] : v; want[k] = c.lists?.includes(k) || vs.length > 1 ? vs : vs[0]; }
    alike(value, want, "parameters");
    return Object.values(want).some(Array.isArray);
  }, { runs: 2500, needs: [P.parseQueryParams] });
  await prop("the two parameter maps complete each other", fc.record({ single: fc.dictionary(fc.constantFrom("a", "b", "c"), fc.string({ maxLength: 4 }), { maxKeys: 3 }), multi: fc.dictionary(fc.constantFrom("c", "d"), vals, { maxKeys: 2 }) }), async (c) => {
    const value = P.parseQueryParams({ queryStringParameters: c.single, multiValueQueryStringParameters: c.multi });
    const want = { ...c.single }; for (const [k, v] of Object.entries(c.multi)) want[k] = v.length > 1 ? v : v[0];
    alike(value, want, "parameters");
    return Object.keys(want).length > 2;
  }, { runs: 800, needs: [P.parseQueryParams] });

  const msg = fc.option(fc.constantFrom("bad number", "väärin"), { nil: undefined });
  const num = fc.oneof(fc.double({ noNaN: true, noDefaultInfinity: true }).map(String), fc.integer().map(String), fc.constantFrom("", "0", "-0", "1e3", " 5 ", "abc", "1,5", "5x", "--1", "0x10", "."), fc.string({ maxLength: 5 }));
  await prop("numbers", fc.record({ s: num, m: msg, opt: fc.boolean() }), async (c) => {
    const schema = c.opt ? Z.zStringToNumber(c.m).optional() : Z.zStringToNumber(c.m);
    const r = z.object({ p: schema }).safeParse({ p: c.s });
    if (c.s === "") { must(r.success && r.data.p === undefined, "an empty string is no value"); return "empty"; }
    const n = Number(c.s);
    same(r.success, !Number.isNaN(n), `${show(c.s)} accepted`);
    if (r.success) same(r.data.p, n, "number"); else { must(r.error.issues.length === 1 && r.error.issues[0].path.join() === "p", "one issue at the parameter"); if (c.m) same(r.error.issues[0].message, c.m, "message"); else must(r.error.issues[0].message.length > 0, "a message"); }
    return r.success ? false : "refused";
  }, { runs: 1500, needs: [Z.zStringToNumber] });
  const dat = fc.oneof(fc.date({ noInvalidDate: true, min: new Date(0), max: new Date("2100-01-01") }).map((d) => d.toISOString()), fc.date({ noInvalidDate: true, min: new Date(0), max: new Date("2100-01-01") }).map((d) => d.toISOString().slice(0, 10)), fc.constantFrom("", "tomorrow", "2024-13-01", "2024-01-01T99:00Z", "abc", "1700000000000", "20240101", "12345", "2024", "0", " ", "2024-02-30T00:00:00Z"));
  await prop("dates", fc.record({ s: dat, m: msg }), async (c) => {
    const r = z.object({ p: Z.zStringToDate(c.m) }).safeParse({ p: c.s });
    if (c.s === "") { must(r.success && r.data.p === undefined, "an empty string is no value"); return "empty"; }
    const t = Date.parse(c.s);
    same(r.success, !Number.isNaN(t), `${show(c.s)} accepted`);
    if (r.success) same(r.data.p.getTime(), t, "date"); else { same(r.error.issues.length, 1); if (c.m) same(r.error.issues[0].message, c.m, "message"); else must(r.error.issues[0].message.length > 0, "a message"); }
    return r.success ? "date" : "refused";
  }, { runs: 800, needs: [Z.zStringToDate] });
  await prop("anything but a string is refused", fc.record({ v: fc.constantFrom(1, null, undefined, {}, [], true), which: fc.constantFrom("zStringToNumber", "zStringToDate", "zNonEmptyString"), opt: fc.boolean() }), async (c) => {
    const s = c.opt ? Z[c.which]().optional() : Z[c.which]();
    const r = z.object({ p: s }).safeParse(c.v === undefined ? {} : { p: c.v });
    same(r.success, c.opt && c.v === undefined, `${c.which} accepted ${show(c.v)}`);
    return true;
  }, { runs: 150, needs: [Z.zStringToNumber, Z.zStringToDate, Z.zNonEmptyString] });
  await prop("required strings hold something", fc.record({ s: fc.oneof(fc.string({ maxLength: 4 }), fc.constant("")), m: msg }), async (c) => {
    const r = Z.zNonEmptyString(c.m).safeParse(c.s);
    same(r.success, c.s !== "", `${show(c.s)} accepted`);
    if (r.success) same(r.data, c.s); else if (c.m) same(r.error.issues[0].message, c.m, "message");
    return !r.success;
  }, { runs: 200, needs: [Z.zNonEmptyString] });
});
