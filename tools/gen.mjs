// Writes properties.jsonl, MANIFEST.json and the table of DESIGN.md from tools/props.mjs.
import fs from "node:fs";
import path from "node:path";
import { props, notApplicable } from "./props.mjs";
const root = path.dirname(path.dirname(new URL(import.meta.url).pathname));
const repo = process.env.VERIF_REPO ?? "/repo";
let bad = 0;
for (const p of props) {
  if (p.title.length > 80) { bad++; console.error(p.id, "title", p.title.length); }
  const sentences = p.statement.split(/\.(?:\s|$)/).filter(Boolean).length;
  if (sentences > 3) { bad++; console.error(p.id, "sentences", sentences); }
  for (const f of p.files) if (!fs.existsSync(path.join(repo, f))) { bad++; console.error(p.id, "no file", f); }
  if (!fs.existsSync(path.join(root, "checks", `${p.id}.mjs`))) { bad++; console.error(p.id, "no check"); }
}
const ids = props.map((p) => p.id);
if (new Set(ids).size !== ids.length) { bad++; console.error("duplicate ids"); }
if (bad) process.exit(1);
fs.writeFileSync(path.join(root, "properties.jsonl"), props.map((p) => JSON.stringify({
  id: p.id, title: p.title, statement: p.statement,
  quantifier: { over: p.over, text: p.q }, why_tests_cant: p.why,
  anchors: { files: p.files, mechanism: p.mech.map(([name, where]) => ({ name, where })) },
})).join("\n") + "\n");
fs.writeFileSync(path.join(root, "MANIFEST.json"), JSON.stringify({
  version: 1,
  setup_cmd: "node tools/setup.mjs",
  checks: props.map((p) => ({
    property: p.id,
    quick_cmd: `VERIF_TIER=quick node run.mjs ${p.id}`,
    thorough_cmd: `VERIF_TIER=thorough node run.mjs ${p.id}`,
    technique: p.technique ?? "property-based testing (fast-check) against: " + p.oracle.split(/[;:,]/)[0],
    level: "exploration",
    level_note: p.note ?? `Generated-input search over ${p.q}; not exhaustive. Trusts the oracle (${p.oracle}) and the bundling of the current sources with esbuild.`,
  })),
  not_applicable: notApplicable,
}, null, 1) + "\n");
const design = path.join(root, "DESIGN.md");
let d = fs.readFileSync(design, "utf8");
const table = props.map((p) => `### ${p.id} ${p.title}\n\n*Specified over:* ${p.q}.\n*Oracle:* ${p.oracle}.\n*Why the tests cannot settle it:* ${p.why}\n${p.design ? p.design + "\n" : ""}`).join("\n");
d = d.replace(/<!-- props -->[\s\S]*<!-- \/props -->/, () => `<!-- props -->\n${table}\n<!-- /props -->`);
fs.writeFileSync(design, d);
console.log(props.length, "properties");
