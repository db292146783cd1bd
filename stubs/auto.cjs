// A package that is not installed here: every export is a class that keeps its constructor arguments,
// and whose instances' send() goes to globalThis.__awsSend when a check sets it.
module.exports = function auto(pkg) {
  const made = new Map();
  const make = (name) => {
    const C = class {
      constructor(...args) { this.args = args; this.input = args[0]; }
      send(cmd, ...r) {
        if (globalThis.__awsSend) return globalThis.__awsSend(name, cmd, ...r);
        return Promise.resolve({});
      }
      destroy() {}
    };
    Object.defineProperty(C, "name", { value: name });
    return C;
  };
  const all = new Proxy({ __esModule: true }, {
    getPrototypeOf: () => all, // an import copies own properties and inherits the others
    get(t, k) {
      if (k === "__esModule") return true;
      if (typeof k === "symbol") return undefined;
      if (globalThis.__stubs?.[pkg]?.[k] !== undefined) return globalThis.__stubs[pkg][k];
      if (!made.has(k)) made.set(k, make(k));
      return made.get(k);
    },
    has: () => true,
  });
  return all;
};
