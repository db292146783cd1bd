// mysql2/promise: connections to the MyLite the check has started
const db = () => { if (!globalThis.__mylite) throw new Error("no database"); return globalThis.__mylite; };
export const createPool = (opts) => { let p; const pool = () => (p && p.of === db() ? p.pool : (p = { of: db(), pool: db().pool(opts) }).pool); return { getConnection: () => pool().getConnection(), query: (...a) => pool().query(...a), execute: (...a) => pool().execute(...a), end: async () => {} }; };
export const createConnection = async (opts) => db().connection(opts);
export default { createPool, createConnection };
