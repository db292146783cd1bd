// kysely's query builder as far as the repository uses it: PostgreSQL text with numbered parameters.
const id = (s) => s.split(".").map((p) => (p === "*" ? "*" : `"${p}"`)).join(".");
class Raw { constructor(text) { this.text = text; } }
class Fn { constructor(text, alias) { this.text = text; this.alias = alias; } as(a) { return new Fn(this.text, a); } }
export function sql(strings, ...values) { if (values.length) throw new Error("kysely stub: sql with values"); return new Raw(strings.join("")); }
const fn = Object.assign((name, args = []) => new Fn(`${name}(${args.map(id).join(", ")})`), Object.fromEntries(["max", "min", "count", "sum", "avg"].map((n) => [n, (c) => new Fn(`${n}(${id(c)})`)])));
class Builder {
  constructor(o) { Object.assign(this, { kind: "", table: "", cols: [], joins: [], wheres: [], orders: [], sets: [], rows: [], extra: [] }, o); }
  #with(o) { return new Builder({ ...this, ...o }); }
  select(c) { const v = typeof c === "function" ? c({ fn }) : c; return this.#with({ cols: [...this.cols, ...[v].flat()] }); }
  selectAll() { return this.#with({ cols: [...this.cols, new Fn("*")] }); }
  leftJoin(t, a, b) { return this.#with({ joins: [...this.joins, `left join ${id(t)} on ${id(a)} = ${id(b)}`] }); }
  innerJoin(t, a, b) { return this.#with({ joins: [...this.joins, `inner join ${id(t)} on ${id(a)} = ${id(b)}`] }); }
  where(c, op, v) { return this.#with({ wheres: [...this.wheres, [c, op, v]] }); }
  orderBy(c, dir) { return this.#with({ orders: [...this.orders, ...[c].flat().map((x) => `${id(x)}${dir ? ` ${dir}` : ""}`)] }); }
  limit(n) { return this.#with({ lim: n }); }
  values(v) { return this.#with({ rows: [v].flat() }); }
  set(k, v) { return this.#with({ sets: [...this.sets, ...(typeof k === "object" ? Object.entries(k) : [[k, v]])] }); }
  $if(c, f) { return c ? f(this) : this; }
  compile() {
    const parameters = []; const p = (v) => (v instanceof Raw ? v.text : (parameters.push(v), `$${parameters.length}`));
    const col = (c) => (c instanceof Fn ? c.text + (c.alias ? ` as "${c.alias}"` : "") : / as /i.test(c) ? c.split(/ as /i).map(id).join(" as ") : id(c));
    const cond = () => (this.wheres.length ? ` where ${this.wheres.map(([c, op, v]) => `${id(c)} ${op} ${Array.isArray(v) && /in$/.test(op) ? `(${v.map(p).join(", ")})` : v === null && /^is/.test(op) ? "null" : p(v)}`).join(" and ")}` : "");
    let text;
    if (this.kind === "select") text = `select ${this.cols.map(col).join(", ")} from ${id(this.table)}${this.joins.length ? ` ${this.joins.join(" ")}` : ""}${cond()}${this.orders.length ? ` order by ${this.orders.join(", ")}` : ""}${this.lim === undefined ? "" : ` limit ${p(this.lim)}`}`;
    else if (this.kind === "insert") { const keys = [...new Set(this.rows.flatMap((r) => Object.keys(r).filter((k) => r[k] !== undefined)))]; text = `insert into ${id(this.table)} (${keys.map(id).join(", ")}) values ${this.rows.map((r) => `(${keys.map((k) => (r[k] === undefined ? "default" : p(r[k]))).join(", ")})`).join(", ")}`; }
    else if (this.kind === "update") { const s = this.sets.filter(([, v]) => v !== undefined).map(([k, v]) => `${id(k)} = ${p(v)}`).join(", "); text = `update ${id(this.table)} set ${s}${cond()}`; }
    else text = `delete from ${id(this.table)}${cond()}`;
    return { sql: text, parameters };
  }
}
export class Kysely {
  selectFrom(table) { return new Builder({ kind: "select", table }); }
  insertInto(table) { return new Builder({ kind: "insert", table }); }
  updateTable(table) { return new Builder({ kind: "update", table }); }
  deleteFrom(table) { return new Builder({ kind: "delete", table }); }
  get fn() { return fn; }
}
export class DummyDriver {} export class PostgresAdapter {} export class PostgresIntrospector {} export class PostgresQueryCompiler {}
