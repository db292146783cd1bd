// Java string semantics for templates rendered with velocityjs.
const jsReplaceAll = String.prototype.replaceAll;
/** Java's replaceAll takes a regular expression and treats $ and \ in the replacement specially. */
function javaReplaceAll(pattern, replacement) {
  if (pattern instanceof RegExp || typeof replacement === "function") return jsReplaceAll.call(this, pattern, replacement);
  return jsReplaceAll.call(String(this), new RegExp(String(pattern), "g"), () => {
    let out = "";
    const r = String(replacement);
    for (let i = 0; i < r.length; i++) {
      if (r[i] === "\\") { i++; if (i >= r.length) throw new Error("character to be escaped is missing"); out += r[i]; }
      else if (r[i] === "$") throw new Error("Illegal group reference");
      else out += r[i];
    }
    return out;
  });
}
export function javaStrings(fn) {
  String.prototype.replaceAll = javaReplaceAll;
  // maps are plain objects in velocityjs, which lacks this method of theirs
  Object.defineProperty(Object.prototype, "containsKey", { configurable: true, enumerable: false, value: function (k) { return Object.hasOwn(this, String(k)); } });
  // velocityjs leaves an "eval" property on every object it calls a method of: not part of the map
  Object.defineProperty(Object.prototype, "eval", { configurable: true, enumerable: false, get: () => undefined, set() {} });
  // other methods of Java strings, maps and lists that a template may use
  const added = [];
  const add = (proto, methods) => { for (const [k, value] of Object.entries(methods)) { if (Object.hasOwn(proto, k)) continue; Object.defineProperty(proto, k, { configurable: true, enumerable: false, value }); added.push([proto, k]); } };
  add(String.prototype, { equals(o) { return String(this) === o; }, equalsIgnoreCase(o) { return String(this).toLowerCase() === String(o).toLowerCase(); }, contains(o) { return this.includes(o); }, matches(o) { return new RegExp(`^(?:${o})$`, "s").test(this); }, isEmpty() { return String(this) === ""; }, isBlank() { return this.trim() === ""; } });
  add(Array.prototype, { isEmpty() { return this.length === 0; }, contains(o) { return this.includes(o); } });
  add(Object.prototype, { isEmpty() { return Object.keys(this).length === 0; }, getOrDefault(k, d) { return Object.hasOwn(this, String(k)) ? this[k] : d; } });
  try { return fn(); } finally { for (const [proto, k] of added) delete proto[k]; String.prototype.replaceAll = jsReplaceAll; delete Object.prototype.containsKey; delete Object.prototype.eval; }
}
/** commons-lang StringEscapeUtils.escapeJavaScript, as API Gateway provides it */
export function escapeJavaScript(s) {
  if (s === undefined || s === null) return "";
  let o = "";
  for (const ch of String(s).split("")) {
    const n = ch.charCodeAt(0);
    if (ch === "'" || ch === '"' || ch === "\\" || ch === "/") o += "\\" + ch;
    else if (ch === "\n") o += "\\n"; else if (ch === "\r") o += "\\r"; else if (ch === "\t") o += "\\t"; else if (ch === "\b") o += "\\b"; else if (ch === "\f") o += "\\f";
    else if (n < 32 || n > 126) o += "\\u" + n.toString(16).toUpperCase().padStart(4, "0");
    else o += ch;
  }
  return o;
}
