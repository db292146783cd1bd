export const setTimeout = (ms, v) => new Promise((r) => globalThis.setTimeout(() => r(v), ms));
export const setImmediate = (v) => new Promise((r) => globalThis.setImmediate(() => r(v)));
export default { setTimeout, setImmediate };
