// C27: dead letters end up in the bucket, each under its own key, or stay in the queue.
import { check, fc, must, same, alike, show, capture, fakeClock } from "#harness";
import "#harness/app.mjs";
import { S3Client } from "@aws-sdk/client-s3";

Object.assign(process.env, { BUCKET_NAME: "dead", SQS_DLQ_BUCKET_NAME: "dead" });
const P = await import("#repo/marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts");
const M = await import("#repo/road/maintenance-tracking/src/lambda/process-dlq/process-dlq.ts");
const R = await import("#repo/rail/rami/src/lambda/process-dlq/process-dlq.ts");
const U = await import("#repo/lib/digitraffic-common/src/aws/runtime/s3.ts");
let put;
S3Client.prototype.send = function (cmd) { return put(cmd); };
const NOW = Date.parse("2024-05-06T07:08:09.010Z");
const text = fc.oneof(fc.constantFrom("", "{", "null", "\"", "{\"a\":\"ä\u2028\"}", "x".repeat(3000)), fc.string({ unit: "grapheme" }), fc.json());
const letter = fc.oneof({ weight: 4, arbitrary: fc.record({ messageType: fc.constantFrom("ROSM", "SM", "UDOT"), message: fc.jsonValue(), errors: fc.oneof(fc.constantFrom("could not parse", "{\"name\":\"Error\"}", "data must have required property 'id', \"x\"", "line\nbreak \\"), fc.string()) }).map((d) => JSON.stringify(d)) }, { weight: 1, arbitrary: text });
// which tries of which record fail
const fails = fc.array(fc.constantFrom(0, 0, 0, 0, 1, 2, 9), { minLength: 14, maxLength: 14 });
/** Runs the handler; returns what the bucket holds, in order of arrival, and whether the invocation failed. */
async function run(handler, bodies, plan) {
  const clock = fakeClock(NOW, ["Date"]), stored = [], tries = new Map(), which = new Map();
  put = async (cmd) => {
    const { Bucket, Key, Body } = cmd.input;
    if (!which.has(Key)) which.set(Key, which.size); // letters are sent in their order
    const n = (tries.get(Key) ?? 0) + 1; tries.set(Key, n);
    await null;
    if (n <= plan[which.get(Key)]) throw Object.assign(new Error("slow down"), { name: "SlowDown" });
    stored.push({ Bucket, Key, Body, i: which.get(Key) });
  };
  try { const { error } = await capture(() => handler({ Records: bodies.map((body, i) => ({ messageId: `m${i}`, body })) })); await new Promise((r) => setImmediate(r)); return { stored, error }; } finally { clock.uninstall(); }
}

await check({
  rule: "batches of dead letters, well formed and not, and uploads that fail some number of times; non-trivial when a letter is odd or an upload fails",
  assumptions: ["one invocation at a time"],
}, async ({ prop }) => {
  for (const [name, mod, retries] of [["port activity", P, 0], ["maintenance tracking", M, 0]])
    await prop(`dead letters of ${name}`, fc.record({ bodies: fc.array(text, { minLength: 1, maxLength: 14 }), plan: fails }), async ({ bodies, plan }) => {
      const { stored, error } = await run(mod.handler, bodies, plan);
      const bad = bodies.map((_, i) => plan[i] > retries);
      same(!!error, bad.some(Boolean), "failure of the invocation");
      const want = bodies.filter((_, i) => !bad[i]);
      alike(stored.map((s) => s.Body).sort(), [...want].sort(), "letters stored");
      must(new Set(stored.map((s) => s.Key)).size === stored.length, () => `letters share a key: ${show(stored)}`);
      must(stored.every((s) => s.Bucket === "dead"), () => "another bucket");
      return error ? "failing" : bodies.length > 1;
    }, { runs: 300, thorough: 5000, needs: [mod.handler] });

  await prop("dead letters of RAMI", fc.record({ bodies: fc.array(letter, { minLength: 1, maxLength: 14 }), plan: fails }), async ({ bodies, plan }) => {
    const { stored, error } = await run(R.handler, bodies, plan);
    const bad = bodies.map((_, i) => plan[i] > 1); // uploads are tried twice
    same(!!error, bad.some(Boolean), "failure of the invocation");
    must(new Set(stored.map((s) => s.Key)).size === stored.length, () => `letters share a key: ${show(stored)}`);
    const classes = new Set(error ? ["failing"] : []);
    bodies.forEach((b, i) => {
      const s = stored.filter((x) => x.i === i);
      same(s.length, bad[i] ? 0 : 1, `times letter ${i} is stored: ${show(stored)}`);
      if (!s.length) return;
      same(s[0].Bucket, "dead", "bucket");
      let d; try { d = JSON.parse(b); } catch { /* not JSON */ }
      if (d && typeof d === "object" && "messageType" in d) {
        let got; try { got = JSON.parse(s[0].Body); } catch { must(false, `letter ${show(b)} is stored as text that is not JSON: ${show(s[0].Body)}`); }
        alike(got, JSON.parse(JSON.stringify([{ errors: d.errors }, d.message])), "stored letter");
        must(s[0].Key.startsWith(`${d.messageType}/2024-05-06/`), () => `key ${s[0].Key} of a ${d.messageType} message`);
        classes.add(/["\\\n]/.test(d.errors) ? "quotes" : d.messageType);
      } else if (d === undefined) { same(s[0].Body, b, "letter that is not JSON"); classes.add("malformed"); }
    });
    return [...classes].sort().join(", ") || false;
  }, { runs: 500, thorough: 8000, needs: [R.handler] });

  await prop("one upload", fc.record({ body: fc.string(), key: fc.string({ minLength: 1 }), acl: fc.option(fc.constantFrom("private", "public-read"), { nil: undefined }), type: fc.option(fc.constantFrom("application/json", "image/svg+xml"), { nil: undefined }), fail: fc.boolean() }), async ({ body, key, acl, type, fail }) => {
    const sent = [], boom = new Error("refused");
    const { error, out } = await capture(() => U.uploadToS3({ send: async (c) => { sent.push(c.input); if (fail) throw boom; } }, "b", body, key, acl, type));
    const want = { Bucket: "b", Key: key, Body: body, ACL: acl, ContentType: type }, clean = (o) => JSON.parse(JSON.stringify(o));
    alike(clean(sent), [clean(want)], "upload");
    same(error, fail ? boom : undefined, "outcome of the upload");
    if (fail) must(/upload failed/.test(out), () => "a failed upload is not logged");
    return fail ? "failing" : acl || type ? "options" : false;
  }, { runs: 300, thorough: 3000, needs: [U.uploadToS3] });
});
