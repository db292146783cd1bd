// @rgrove/parse-xml as far as the code uses it: parseXml(text).root with name, attributes, children and text; malformed XML throws.
export class XmlText { constructor(text) { this.text = text; } }
export class XmlElement { constructor(name, attributes) { this.name = name; this.attributes = attributes; this.children = []; } get text() { return this.children.map((c) => c.text ?? "").join(""); } }
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'" };
const decode = (s) => s.replace(/&(#x[0-9a-f]+|#\d+|\w+)?;?/gi, (m, e) => { if (!e || !m.endsWith(";")) throw new Error("bad reference"); if (e[0] === "#") return String.fromCodePoint(e[1] === "x" ? Number.parseInt(e.slice(2), 16) : Number(e.slice(1))); if (!(e in ENT)) throw new Error(`unknown entity ${e}`); return ENT[e]; });
export function parseXml(xml) {
  const root = { children: [], root: null }, stack = [root]; let i = 0; const top = () => stack.at(-1);
  while (i < xml.length) {
    if (xml.startsWith("<!--", i)) { const e = xml.indexOf("-->", i); if (e < 0) throw new Error("comment"); i = e + 3; continue; }
    if (xml.startsWith("<?", i)) { const e = xml.indexOf("?>", i); if (e < 0) throw new Error("instruction"); i = e + 2; continue; }
    if (xml.startsWith("</", i)) { const m = /^<\/([^\s>]+)\s*>/.exec(xml.slice(i)); if (!m || top().name !== m[1]) throw new Error("end tag"); stack.pop(); i += m[0].length; continue; }
    if (xml[i] === "<") {
      const m = /^<([A-Za-z_][\w:.-]*)((?:\s+[\w:.-]+\s*=\s*(?:"[^"<]*"|'[^'<]*'))*)\s*(\/?)>/.exec(xml.slice(i)); if (!m) throw new Error("start tag");
      const a = {}; for (const x of m[2].matchAll(/([\w:.-]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) { if (x[1] in a) throw new Error("attribute twice"); a[x[1]] = decode(x[2] ?? x[3]); }
      const el = new XmlElement(m[1], a); if (top() === root && root.root) throw new Error("two roots"); top().children.push(el); if (top() === root) root.root = el; if (!m[3]) stack.push(el); i += m[0].length; continue;
    }
    const e = xml.indexOf("<", i), t = xml.slice(i, e < 0 ? xml.length : e); if (top() === root) { if (t.trim()) throw new Error("text outside"); } else top().children.push(new XmlText(decode(t))); i += t.length;
  }
  if (stack.length > 1 || !root.root) throw new Error("unfinished"); return root;
}
