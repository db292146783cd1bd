// stringify of @std/csv: the columns' headers, then one line per record, CRLF after each line, fields quoted when needed
const esc = (v, sep) => { const s = v === null || v === undefined ? "" : v instanceof Date ? String(v) : typeof v === "object" ? JSON.stringify(v) : String(v); return /[\n\r"]/.test(s) || s.includes(sep) || /^\s|\s$/.test(s) ? `"${s.replaceAll('"', '""')}"` : s; };
export function stringify(data, { columns = [], separator = ",", headers = true } = {}) {
  const cols = columns.map((c) => (typeof c === "object" && !Array.isArray(c) ? c : { prop: c, header: c })); const sep = separator;
  return (headers && cols.length ? cols.map((c) => esc(c.header ?? c.prop, sep)).join(sep) + "\r\n" : "") + data.map((r) => cols.map((c) => esc([c.prop].flat().reduce((v, k) => v[k], r), sep)).join(sep) + "\r\n").join("");
}
