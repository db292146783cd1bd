// xml2js in its default shape: attributes under $, children in arrays, text as a string or under _
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'" };
const un = (s) => s.replace(/&(#x?[\da-f]+|\w+);/gi, (_, e) => (e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? Number.parseInt(e.slice(2), 16) : Number(e.slice(1))) : ENT[e] ?? `&${e};`));
function parse(text) {
  const root = { kids: [], text: "" }; const stack = [root];
  const rx = /<\?[^]*?\?>|<!--[^]*?-->|<!\[CDATA\[([^]*?)\]\]>|<!DOCTYPE[^>]*>|<\/([\w:.-]+)\s*>|<([\w:.-]+)((?:\s+[\w:.-]+\s*=\s*(?:"[^"]*"|'[^']*'))*)\s*(\/?)>|([^<]+)/gy;
  let m, at = 0;
  while ((m = rx.exec(text))) {
    at = rx.lastIndex;
    const top = stack.at(-1);
    if (m[1] !== undefined) top.text += m[1];
    else if (m[2]) { if (stack.length < 2 || top.name !== m[2]) throw new Error(`Unexpected close tag ${m[2]}`); stack.pop(); }
    else if (m[3]) {
      const el = { name: m[3], attrs: {}, kids: [], text: "" };
      for (const a of m[4].matchAll(/([\w:.-]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) el.attrs[a[1]] = un(a[2] ?? a[3]);
      top.kids.push(el); if (!m[5]) stack.push(el);
    } else if (m[6]) top.text += un(m[6]);
  }
  if (at !== text.length || stack.length !== 1 || root.kids.length !== 1 || root.text.trim()) throw new Error("Non-whitespace or unclosed root tag");
  const shape = (e) => {
    const t = e.text.trim() ? e.text.trim() === "" ? "" : e.text.replace(/^\s+|\s+$/g, (x) => x) : "", at = Object.keys(e.attrs).length;
    if (!at && !e.kids.length) return t;
    const o = {}; if (at) o.$ = e.attrs; if (t) o._ = t;
    for (const k of e.kids) (o[k.name] ??= []).push(shape(k));
    return o;
  };
  return { [root.kids[0].name]: shape(root.kids[0]) };
}
export function parseString(text, opts, cb) {
  if (typeof opts === "function") cb = opts;
  let r; try { if (!String(text).trim()) r = null; else r = parse(String(text)); } catch (e) { return cb(e); }
  cb(null, r);
}
export const parseStringPromise = async (t) => new Promise((res, rej) => parseString(t, (e, r) => (e ? rej(e) : res(r))));
const esc = (t) => String(t).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\r/g, "&#xD;");
const escAttr = (t) => String(t).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/"/g, "&quot;").replace(/\t/g, "&#x9;").replace(/\n/g, "&#xA;").replace(/\r/g, "&#xD;");
export class Builder {
  constructor(o = {}) { this.o = o; }
  buildObject(object) {
    const build = (name, v, ind) => {
      if (Array.isArray(v)) return v.map((x) => build(name, x, ind)).join("\n");
      const pad = "  ".repeat(ind); if (v === null || v === undefined || v === "") return `${pad}<${name}/>`;
      if (typeof v !== "object") return `${pad}<${name}>${esc(v)}</${name}>`;
      const at = Object.entries(v.$ ?? {}).map(([k, x]) => ` ${k}="${escAttr(x)}"`).join(""), kids = Object.entries(v).filter(([k, x]) => k !== "$" && k !== "_" && !(Array.isArray(x) && !x.length));
      const text = v._ === undefined ? "" : esc(v._); if (!kids.length) return text ? `${pad}<${name}${at}>${text}</${name}>` : `${pad}<${name}${at}/>`;
      return `${pad}<${name}${at}>${text}\n${kids.map(([k, x]) => build(k, x, ind + 1)).join("\n")}\n${pad}</${name}>`;
    };
    const root = this.o.rootName ?? "root"; return `${this.o.headless ? "" : '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'}${build(root, object, 0)}`;
  }
}
export class Parser { parseString(t, cb) { return parseString(t, cb); } parseStringPromise(t) { return parseStringPromise(t); } }
export default { parseString, parseStringPromise, Parser, Builder };
