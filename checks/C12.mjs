// C12: vessel and port identifiers.
import { check, fc, must, same, capture } from "#harness";
import * as I from "#repo/lib/digitraffic-common/src/marine/id_utils.ts";

const checked = (n) => { const s = String(n).padStart(6, "0"); let c = 0; for (let i = 0; i < 6; i++) c += Number(s[i]) * (7 - i); return Number(s) * 10 + (c % 10); };
const run = async (f) => { const { value, error } = await capture(f); must(!error, () => `threw ${error}`); return value; };

await check({
  rule: "numbers of every length, correct and mistyped IMO numbers (one digit changed, two neighbours swapped), MMSI bounds, codes; compared with the published rules; non-trivial: a mistyped or out-of-range identifier",
}, async ({ prop, each }) => {
  await prop("IMO numbers with a right check digit are valid", fc.integer({ min: 100000, max: 999999 }), async (n) => { same(await run(() => I.isValidIMO(checked(n))), true, `${checked(n)}`); return true; }, { runs: 3000, needs: [I.isValidIMO] });
  await prop("no single digit can change unnoticed except by the weights' own collisions", fc.record({ n: fc.integer({ min: 100000, max: 999999 }), at: fc.nat({ max: 6 }), by: fc.integer({ min: 1, max: 9 }) }), async (c) => {
    const s = [...String(checked(c.n))]; s[c.at] = String((Number(s[c.at]) + c.by) % 10);
    const v = Number(s.join(""));
    const want = v >= 1000000 && checked(Math.floor(v / 10)) === v;
    same(await run(() => I.isValidIMO(v)), want, `${v}`);
    return !want;
  }, { runs: 3000, needs: [I.isValidIMO] });
  await prop("any integer", fc.oneof(fc.integer(), fc.integer({ min: 0, max: 99999999 }), fc.integer({ min: 1000000, max: 9999999 }), fc.constantFrom(0, -1, 999999, 1000000, 9999999, 10000000, -9074729, 90747290)), async (v) => {
    const want = v >= 1000000 && v <= 9999999 && checked(Math.floor(v / 10)) === v;
    same(await run(() => I.isValidIMO(v)), want, `IMO ${v}`);
    return !want;
  }, { runs: 3000, needs: [I.isValidIMO] });
  await prop("MMSI are the nine digit numbers", fc.oneof(fc.integer(), fc.integer({ min: 90000000, max: 1100000000 }), fc.constantFrom(99999999, 100000000, 999999999, 1000000000, 0, -230000000)), async (v) => {
    const want = v > 0 && String(v).length === 9;
    same(await run(() => I.isValidMMSI(v)), want, `MMSI ${v}`);
    return want ? "valid" : "invalid";
  }, { runs: 2000, needs: [I.isValidMMSI] });
  await prop("LOCODEs are FI and three letters", fc.oneof(fc.stringMatching(/^[Ff][Ii][A-Za-z]{3}$/), fc.stringMatching(/^[A-Z]{5}$/), fc.stringMatching(/^FI[A-Z0-9]{2,4}$/), fc.string({ maxLength: 7 }), fc.constantFrom("FIHEL", " FIHEL", "FIHEL ", "XFIHEL", "FIHELX", "FIÅBO", "FI HEL", "FIHEL\n", "x\nFIHEL", "FIHEL\nx", "FI\u017fKO", "FI\u212aOT", "F\u0130HEL", "fihel", "Fihel")), async (s) => {
    const want = s.length === 5 && s.slice(0, 2).toUpperCase() === "FI" && [...s.slice(2)].every((ch) => (ch >= "A" && ch <= "Z") || (ch >= "a" && ch <= "z"));
    same(await run(() => I.isValidLOCODE(s)), want, JSON.stringify(s));
    same(await run(() => I.isValidLOCODE(s)), want, `${JSON.stringify(s)} asked again`);
    return want ? "valid" : "invalid";
  }, { runs: 2000, needs: [I.isValidLOCODE] });
  if (process.env.VERIF_TIER === "thorough") await each("every seven digit number", Array.from({ length: 900 }, (_, i) => i), async (k) => {
    for (let i = 0; i < 10000; i += 7) { const v = 1000000 + k * 10000 + i; if (I.isValidIMO(v) !== (checked(Math.floor(v / 10)) === v)) must(false, `IMO ${v}`); }
    return true;
  }, { needs: [I.isValidIMO] });
});
