// What OpenSearch answers to a query over a small set of documents: enough of the query language for the
// repository's queries. Something it does not know throws Unsupported, and the case then decides nothing.
export class Unsupported extends Error {}
const bare = (f) => f.replace(/\.keyword$/, "");
export const tokens = (s) => String(s).toLowerCase().split(/[^a-z0-9]+/).filter(Boolean);
const glob = (p) => new RegExp(`^${p.split(/([*?])/).map((x) => (x === "*" ? ".*" : x === "?" ? "." : x.replace(/[.\\+^$()[\]{}|/-]/g, "\\$&"))).join("")}$`, "s");

function lex(q) {
  const out = []; const re = /\s*(\(|\)|AND\b|OR\b|NOT\b|&&|\|\||!|[\w@.]+:"(?:[^"\\]|\\.)*"|[\w@.]+:\(|[\w@.]+:[^\s()"]+)/y;
  let at = 0; const end = q.trimEnd().length;
  while (at < end) { re.lastIndex = at; const m = re.exec(q); if (!m) throw new Unsupported(q.slice(at)); out.push(m[1]); at = re.lastIndex; }
  return out;
}
// the classic Lucene parser: AND makes both of its sides required, OR neither
function parse(ts) {
  const clauses = []; let conj = "OR";
  while (ts.length && ts[0] !== ")") {
    let t = ts.shift(), not = false;
    if (t === "AND" || t === "&&") { conj = "AND"; continue; }
    if (t === "OR" || t === "||") { conj = "OR"; continue; }
    if (t === "NOT" || t === "!") { not = true; t = ts.shift(); }
    let test;
    if (t === "(") { test = parse(ts); if (ts.shift() !== ")") throw new Unsupported("unbalanced"); }
    else {
      const [, field, quoted, word] = /^([\w@.]+):(?:"(.*)"|(.*))$/s.exec(t) ?? (() => { throw new Unsupported(t); })();
      const get = (d) => d[bare(field)];
      if (quoted !== undefined && !field.endsWith(".keyword")) { const p = tokens(quoted); test = (d) => { const w = tokens(get(d) ?? ""); return p.length > 0 && w.some((_, i) => p.every((x, j) => w[i + j] === x)); }; }
      else if (quoted !== undefined) test = (d) => String(get(d)) === quoted;
      else if (word === "*") test = (d) => get(d) !== undefined && get(d) !== null;
      else if (/[*?]/.test(word)) test = (d) => get(d) !== undefined && glob(word).test(String(get(d)));
      else test = (d) => get(d) !== undefined && String(get(d)) === word;
    }
    if (conj === "AND" && clauses.length && clauses.at(-1).occur !== "not") clauses.at(-1).occur = "must";
    clauses.push({ test, occur: not ? "not" : conj === "AND" ? "must" : "should" }); conj = "OR";
  }
  const of = (o) => clauses.filter((c) => c.occur === o).map((c) => c.test);
  const must = of("must"), not = of("not"), should = of("should");
  return (d) => must.every((f) => f(d)) && !not.some((f) => f(d)) && (must.length || !should.length ? true : should.some((f) => f(d)));
}
const arr = (x) => (x === undefined ? [] : Array.isArray(x) ? x : [x]);
export function matcher(q) {
  const [kind, ...more] = Object.keys(q); if (more.length) throw new Unsupported(Object.keys(q).join());
  const body = q[kind];
  if (kind === "match_all") return () => true;
  if (kind === "bool") {
    const known = ["must", "must_not", "filter", "should", "minimum_should_match"]; for (const k of Object.keys(body)) if (!known.includes(k)) throw new Unsupported(k);
    const must = [...arr(body.must), ...arr(body.filter)].map(matcher), not = arr(body.must_not).map(matcher), should = arr(body.should).map(matcher), least = body.minimum_should_match ?? (must.length ? 0 : should.length ? 1 : 0);
    return (d) => must.every((f) => f(d)) && !not.some((f) => f(d)) && should.filter((f) => f(d)).length >= least;
  }
  if (kind === "query_string") return parse(lex(body.query));
  if (kind === "exists") return (d) => d[bare(body.field)] !== undefined;
  const [field] = Object.keys(body), v = body[field], get = (d) => d[bare(field)];
  if (kind === "term") { const x = v !== null && typeof v === "object" ? v.value : v; return (d) => get(d) === x || (get(d) !== undefined && String(get(d)) === String(x)); }
  if (kind === "terms") return (d) => v.some((x) => String(x) === String(get(d)));
  if (kind === "wildcard") { const g = glob(typeof v === "string" ? v : v.value ?? v.wildcard); return (d) => get(d) !== undefined && g.test(String(get(d))); }
  if (kind === "prefix") { const x = typeof v === "string" ? v : v.value; return (d) => get(d) !== undefined && String(get(d)).startsWith(x); }
  if (kind === "match_phrase") return parse([`${field}:"${typeof v === "string" ? v : v.query}"`]);
  if (kind === "range") { const t = (x) => { const n = typeof x === "number" ? x : Date.parse(x); if (Number.isNaN(n)) throw new Unsupported(String(x)); return n; }; const at = (d) => (field === "@timestamp" ? Date.parse(get(d)) : get(d)); return (d) => (v.gte === undefined || at(d) >= t(v.gte)) && (v.gt === undefined || at(d) > t(v.gt)) && (v.lte === undefined || at(d) <= t(v.lte)) && (v.lt === undefined || at(d) < t(v.lt)); }
  throw new Unsupported(kind);
}
function aggregate(aggs, docs) {
  return Object.fromEntries(Object.entries(aggs).map(([name, a]) => {
    const sub = a.aggs ?? a.aggregations, kind = Object.keys(a).find((k) => k !== "aggs" && k !== "aggregations"), o = a[kind], get = (d) => d[bare(o.field)];
    const have = docs.filter((d) => get(d) !== undefined).map(get);
    if (kind === "sum") return [name, { value: have.reduce((x, y) => x + y, 0) }];
    if (kind === "avg") return [name, { value: have.length ? have.reduce((x, y) => x + y, 0) / have.length : null }];
    if (kind === "max") return [name, { value: have.length ? Math.max(...have) : null }];
    if (kind === "min") return [name, { value: have.length ? Math.min(...have) : null }];
    if (kind === "value_count") return [name, { value: have.length }];
    if (kind === "cardinality") return [name, { value: new Set(have).size }];
    if (kind !== "terms") throw new Unsupported(kind);
    const by = new Map();
    for (const d of docs) { const k = get(d) ?? o.missing; if (k !== undefined) by.set(k, [...(by.get(k) ?? []), d]); }
    let buckets = [...by].map(([key, ds]) => ({ key, doc_count: ds.length, ...(sub ? aggregate(sub, ds) : {}) }));
    const [ok, dir] = Object.entries(o.order ?? { _count: "desc" })[0], val = (b) => (ok === "_count" ? b.doc_count : ok === "_key" ? b.key : b[ok]?.value);
    buckets.sort((x, y) => (val(x) < val(y) ? -1 : val(x) > val(y) ? 1 : 0) * (dir === "desc" ? -1 : 1) || (x.key < y.key ? -1 : 1));
    return [name, { doc_count_error_upper_bound: 0, sum_other_doc_count: 0, buckets: buckets.slice(0, o.size ?? 10) }];
  }));
}
/** indices: { name: [document] } */
export function answer(indices, index, method, text) {
  const q = JSON.parse(text), names = index.split(",");
  for (const n of names) if (!indices[n]) throw new Unsupported(`index ${n}`);
  const docs = names.flatMap((n) => indices[n]).filter(matcher(q.query ?? { match_all: {} }));
  if (method.startsWith("_count")) { if (q.aggs || q.size !== undefined) throw new Error("400 request does not support [aggs]"); return { count: docs.length, _shards: {} }; }
  return { took: 1, hits: { total: { value: docs.length }, hits: [] }, ...(q.aggs ? { aggregations: aggregate(q.aggs, docs) } : {}) };
}
