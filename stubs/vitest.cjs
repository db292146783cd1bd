const assert = require("node:assert");
const expect = (v) => ({
  toBe: (x) => { if (!Object.is(v, x)) throw new Error(`expected ${String(v)} to be ${String(x)}`); },
  toEqual: (x) => assert.deepEqual(v, x),
  toContain: (x) => assert.ok(v.includes(x)),
  toBeGreaterThan: (x) => assert.ok(v > x), toBeLessThan: (x) => assert.ok(v < x),
  toBeGreaterThanOrEqual: (x) => assert.ok(v >= x), toBeLessThanOrEqual: (x) => assert.ok(v <= x),
  toBeDefined: () => assert.ok(v !== undefined), toBeTruthy: () => assert.ok(v), toBeFalsy: () => assert.ok(!v),
  toMatch: (x) => assert.match(v, x), toHaveLength: (n) => assert.equal(v.length, n),
});
module.exports = { expect, vi: {}, test() {}, describe() {} };
