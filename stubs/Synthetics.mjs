const h = () => globalThis.__synthetics ?? {};
export default new Proxy({}, { get: (_t, k) => (...a) => h()[k]?.(...a) });
