// mutate.mjs ID file...: runs the quick check ID against syntactic mutants of the given repository files, in scratch
// copies, and lists those it does not notice. A development aid for finding blind spots, no check uses it.
// Options by environment: JOBS (6), MAX (mutants per file), ONLY (regexp on the mutant's description).
import { createRequire } from "node:module";
import { spawn, execSync } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
const require = createRequire("/opt/veriftools/node/package.json");
const ts = require("typescript");
const [id, ...files] = process.argv.slice(2);
const JOBS = Number(process.env.JOBS ?? 6), MAX = Number(process.env.MAX ?? 400);
const OPS = { "===": "!==", "!==": "===", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "&&": "||", "||": "&&", "+": "-", "-": "+", "*": "/", "/": "*", "??": "&&" };
function mutants(file) {
  const text = fs.readFileSync(path.join("/repo", file), "utf8");
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  const out = [];
  const add = (n, repl, what) => { const s = n.getStart(sf), e = n.getEnd(); const line = sf.getLineAndCharacterOfPosition(s).line + 1; out.push({ file, s, e, repl, d: `${path.basename(file)}:${line} ${what}: ${text.slice(s, e).replace(/\s+/g, " ").slice(0, 70)} -> ${repl.slice(0, 50)}` }); };
  const inLog = (n) => { for (let p = n; p; p = p.parent) if (ts.isCallExpression(p) && /^(logger|console)\./.test(p.expression.getText(sf))) return true; return false; };
  const visit = (n) => {
    if (ts.isImportDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isTypeNode(n) || ts.isExportDeclaration(n)) return;
    if (!inLog(n)) {
      if (ts.isBinaryExpression(n)) { const o = n.operatorToken.getText(sf); if (OPS[o]) add(n.operatorToken, OPS[o], "op"); }
      else if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.ExclamationToken) add(n, n.operand.getText(sf), "not");
      else if (ts.isNumericLiteral(n)) add(n, String(Number(n.text) + 1), "number");
      else if (n.kind === ts.SyntaxKind.TrueKeyword) add(n, "false", "bool"); else if (n.kind === ts.SyntaxKind.FalseKeyword) add(n, "true", "bool");
      else if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) && !ts.isImportDeclaration(n.parent) && !(ts.isPropertyAssignment(n.parent) && n.parent.name === n)) add(n, n.text ? `"${"x" + JSON.stringify(n.text).slice(1, -1)}"` : `"x"`, "string");
      else if (ts.isConditionalExpression(n)) { add(n, n.whenTrue.getText(sf), "cond-true"); add(n, n.whenFalse.getText(sf), "cond-false"); }
      else if (ts.isIfStatement(n)) { add(n.expression, "true", "if-true"); add(n.expression, "false", "if-false"); }
      else if (ts.isExpressionStatement(n) && !ts.isStringLiteral(n.expression) && !/^super\(/.test(n.getText(sf))) add(n, ";", "drop");
      else if (ts.isAwaitExpression(n)) add(n, n.expression.getText(sf), "no-await");
      else if (ts.isPropertyAssignment(n) || ts.isSpreadAssignment(n) || (ts.isShorthandPropertyAssignment(n))) { const sib = n.parent.properties; if (sib) { const t = text.slice(n.end).match(/^\s*,/); out.push({ file, s: n.getStart(sf), e: n.end + (t ? t[0].length : 0), repl: "", d: `${path.basename(file)}:${sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1} drop-prop: ${n.getText(sf).replace(/\s+/g, " ").slice(0, 70)}` }); } }
      else if (ts.isArrayLiteralExpression(n) && n.elements.length) add(n, "[]", "empty-array");
      else if (ts.isTemplateExpression(n)) add(n.head, n.head.getText(sf).replace("`", "`x"), "template");
      else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(filter|map|sort|toSorted|reverse|trim|slice|toLowerCase|toUpperCase|replace|replaceAll|flat|concat)$/.test(n.expression.name.text)) add(n, n.expression.expression.getText(sf), "no-call");
      else if (ts.isReturnStatement(n) && n.expression) add(n, "return undefined;", "return-undefined");
    }
    ts.forEachChild(n, visit);
  };
  visit(sf);
  const re = process.env.ONLY ? new RegExp(process.env.ONLY) : undefined;
  let ms = out.filter((m) => !re || re.test(m.d));
  if (ms.length > MAX) ms = ms.filter((_, i) => Math.floor((i * MAX) / ms.length) !== Math.floor(((i - 1) * MAX) / ms.length));
  return { text, ms };
}
const work = files.flatMap((f) => { const { text, ms } = mutants(f); return ms.map((m) => ({ ...m, text })); });
console.log(`${work.length} mutants`);
const run = (cmd, env, ms) => new Promise((r) => { const p = spawn("timeout", [String(ms / 1000), "bash", "-c", cmd], { env: { ...process.env, ...env }, cwd: path.dirname(import.meta.dirname), stdio: ["ignore", "pipe", "ignore"] }); let o = ""; p.stdout.on("data", (d) => { o += d; }); p.on("close", (c) => r({ c, o })); });
let next = 0; const survivors = []; let odd = 0;
await Promise.all(Array.from({ length: JOBS }, async (_, j) => {
  const dir = `/tmp/mutate/${process.pid}-${j}`;
  execSync(`mkdir -p ${dir} && cd /repo && tar cf - --exclude=node_modules --exclude=.git --exclude=dist . | tar xf - -C ${dir} && for d in $(find /repo -maxdepth 3 -name node_modules -type d -prune); do ln -sfn $d ${dir}/\${d#/repo/}; done; for d in /repo/lib/digitraffic-common/dist; do [ -d $d ] && ln -sfn $d ${dir}/\${d#/repo/}; done; true`);
  for (;;) {
    const m = work[next++]; if (!m) break;
    const p = path.join(dir, m.file);
    fs.writeFileSync(p, m.text.slice(0, m.s) + m.repl + m.text.slice(m.e));
    const { c, o } = await run(`node run.mjs ${id}`, { VERIF_REPO: dir, VERIF_SEED: process.env.SEED ?? "1", VERIF_EVIDENCE: `${dir}/evidence` }, 200_000);
    fs.writeFileSync(p, m.text);
    if (c === 0) { survivors.push(m); console.log("SURVIVES", m.d); } else if (c !== 1) { odd++; if (process.env.ODD) console.log("ODD", c, m.d, o.slice(-200)); }
  }
  fs.rmSync(dir, { recursive: true, force: true });
}));
console.log(`${id}: ${work.length} mutants, ${survivors.length} unnoticed, ${odd} without an answer`);
