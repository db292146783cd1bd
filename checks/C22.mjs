// C22: the schemas of GeoJSON and OpenAPI documents.
import { check, fc, must, same, show } from "#harness";
import * as G from "#repo/lib/digitraffic-common/src/types/geojson.ts";
import * as O from "#repo/lib/digitraffic-common/src/types/openapi-schema.ts";

const num = fc.oneof(fc.double({ noNaN: true, noDefaultInfinity: true, min: -180, max: 180 }), fc.integer({ min: -180, max: 180 }), fc.constantFrom(0, 1e-7, 90, 1e6)).map((n) => (Object.is(n, -0) ? 0 : n));
const pos = fc.array(num, { minLength: 2, maxLength: 3 });
const ring = fc.array(pos, { minLength: 3, maxLength: 5 }).map((r) => [...r, r[0].slice()]);
const line = fc.array(pos, { minLength: 2, maxLength: 5 });
const SIMPLE = { Point: pos, MultiPoint: fc.array(pos, { maxLength: 4 }), LineString: line, MultiLineString: fc.array(line, { maxLength: 3 }), Polygon: fc.array(ring, { minLength: 1, maxLength: 3 }), MultiPolygon: fc.array(fc.array(ring, { minLength: 1, maxLength: 2 }), { maxLength: 3 }) };
const simple = fc.oneof(...Object.entries(SIMPLE).map(([type, coordinates]) => fc.record({ type: fc.constant(type), coordinates })));
const geometry = fc.letrec((t) => ({ g: fc.oneof({ maxDepth: 3 }, { weight: 5, arbitrary: simple }, { weight: 1, arbitrary: fc.record({ type: fc.constant("GeometryCollection"), geometries: fc.array(t("g"), { maxLength: 3 }) }) }) })).g;
const props = fc.dictionary(fc.constantFrom("name", "id", "type", "a"), fc.oneof(fc.constant(null), fc.integer(), fc.string(), fc.array(fc.integer(), { maxLength: 2 }), fc.constant({ b: 1 })), { maxKeys: 4 });
const feature = fc.record({ type: fc.constant("Feature"), geometry, properties: props, id: fc.oneof(fc.string(), fc.integer()) }, { requiredKeys: ["type", "geometry"] });
const collection = fc.record({ type: fc.constant("FeatureCollection"), features: fc.array(feature, { maxLength: 3 }) });
const DEPTH = { Point: 1, MultiPoint: 2, LineString: 2, MultiLineString: 3, Polygon: 3, MultiPolygon: 4 };
const SCHEMA = { Point: "PointSchema", MultiPoint: "MultiPointSchema", LineString: "LineStringSchema", MultiLineString: "MultiLineStringSchema", Polygon: "PolygonSchema", MultiPolygon: "MultiPolygonSchema" };
const accepts = (s, v, msg) => { const before = structuredClone(v), r = s.safeParse(v); must(r.success, () => `${msg}: refused ${show(v)}: ${r.error?.message}`); same(r.data, before, `${msg}: read`); same(v, before, "input"); };
const refuses = (s, v, msg) => must(!s.safeParse(v).success, () => `${msg}: accepted ${show(v)}`);
const clone = (v) => JSON.parse(JSON.stringify(v));

// breaks a geometry, or returns undefined when the way doesn't apply
const WAYS = {
  arity1: (g) => { const p = firstPos(g.coordinates); if (!p) return; p.length = 1; return g; },
  arity4: (g) => { const p = firstPos(g.coordinates); if (!p) return; while (p.length < 4) p.push(1); return g; },
  text: (g) => { const p = firstPos(g.coordinates); if (!p) return; p[1] = String(p[1]); return g; },
  missing: (g) => { const p = firstPos(g.coordinates); if (!p) return; p[0] = null; return g; },
  deeper: (g) => { if (!firstPos(g.coordinates)) return; g.coordinates = [g.coordinates]; return g; },
  shallower: (g) => { if (g.type === "Point" || !g.coordinates.length) return; g.coordinates = g.coordinates[0]; return g; },
  short: (g) => { if (/Point/.test(g.type)) return; let a = g.coordinates; while (Array.isArray(a[0]?.[0])) a = a[a.length - 1]; if (!a.length) return; a.length = /Polygon/.test(g.type) ? 3 : 1; return g; },
  noCoordinates: (g) => { delete g.coordinates; return g; },
  objectCoordinates: (g) => { g.coordinates = { 0: 1, 1: 2 }; return g; },
  type: (g) => { g.type = g.type.toLowerCase(); return g; },
  noType: (g) => { delete g.type; return g; },
};
function firstPos(c) { if (!Array.isArray(c) || !c.length) return undefined; return typeof c[0] === "number" ? c : firstPos(c[0]); }
const strs = fc.string({ maxLength: 8 });
const url = fc.constantFrom("https://tie.digitraffic.fi", "/", "https://{region}.example.org/v1");
const security = fc.array(fc.dictionary(fc.constantFrom("api_key", "oauth"), fc.array(strs, { maxLength: 2 }), { maxKeys: 2 }), { maxLength: 2 });
const part = (o, req = []) => fc.record(o, { requiredKeys: req });
const ref = part({ $ref: fc.constantFrom("#/components/parameters/limit", "#/components/schemas/X"), description: strs, summary: strs }, ["$ref"]);
const parameter = part({ name: strs, in: fc.constantFrom("query", "header", "path", "cookie"), description: strs, required: fc.boolean(), deprecated: fc.boolean(), allowEmptyValue: fc.boolean(), style: fc.constantFrom("matrix", "label", "form", "simple", "spaceDelimited", "pipeDelimited", "deepObject"), explode: fc.boolean(), allowReserved: fc.boolean(), schema: fc.constantFrom({ type: "string" }, { $ref: "#/x" }), example: fc.constantFrom(1, "a", { b: 1 }), examples: fc.constantFrom({}, { one: { value: 1 } }), content: fc.constantFrom({}, { "application/json": {} }) }, ["name", "in"]);
const server = part({ url, description: strs, variables: fc.dictionary(fc.constantFrom("region", "port"), part({ default: strs, enum: fc.array(strs, { minLength: 1, maxLength: 2 }), description: strs }, ["default"]), { maxKeys: 2 }) }, ["url"]);
const docs = part({ url, description: strs }, ["url"]);
const operation = part({ tags: fc.array(strs, { maxLength: 2 }), summary: strs, description: strs, externalDocs: docs, operationId: strs, parameters: fc.array(fc.oneof(parameter, ref), { maxLength: 3 }), requestBody: fc.constantFrom({ content: {} }, { $ref: "#/components/requestBodies/x" }), responses: fc.constantFrom({ 200: { description: "ok" } }, { default: { $ref: "#/x" } }), callbacks: fc.constant({}), deprecated: fc.boolean(), security, servers: fc.array(server, { maxLength: 1 }) });
const METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"];
const item = part({ summary: strs, description: strs, ...Object.fromEntries(METHODS.map((m) => [m, operation])), servers: fc.array(server, { maxLength: 2 }), parameters: fc.array(fc.oneof(parameter, ref), { maxLength: 2 }) });
const document = part({
  openapi: fc.constantFrom("3.0.0", "3.0.1", "3.0.3", "3.1.0", "3.0.0-rc2"),
  info: part({ title: strs, description: strs, termsOfService: url, contact: part({ name: strs, url, email: fc.constantFrom("info@digitraffic.fi", "a.b@example.org") }), license: part({ name: strs, url }, ["name"]), version: strs }, ["title", "version"]),
  externalDocs: docs, servers: fc.array(server, { maxLength: 2 }), security, tags: fc.array(part({ name: strs, description: strs, externalDocs: docs }, ["name"]), { maxLength: 2 }),
  paths: fc.dictionary(fc.constantFrom("/a", "/a/{id}", "/b", "/"), item, { maxKeys: 3 }),
  components: part({ schemas: fc.constantFrom({}, { A: { type: "object" } }), responses: fc.constant({}), parameters: fc.constantFrom({}, { limit: { name: "limit", in: "query" } }), examples: fc.constant({}), requestBodies: fc.constant({}), headers: fc.constant({}), securitySchemes: fc.constantFrom({}, { api_key: { type: "apiKey", name: "x-api-key", in: "header" } }), links: fc.constant({}), callbacks: fc.constant({}) }),
}, ["openapi", "info", "paths"]);
const firstOp = (d) => { for (const i of Object.values(d.paths)) for (const m of METHODS) if (i[m]) return i[m]; };
const firstItem = (d) => Object.values(d.paths)[0];
const firstParam = (d) => { for (const i of Object.values(d.paths)) for (const ps of [i.parameters, ...METHODS.map((m) => i[m]?.parameters)]) for (const p of ps ?? []) if (p.in) return p; };
const on = (get, fn) => (d) => { const x = get(d); if (!x) return false; fn(x); };
const BREAK = {
  "no version of OpenAPI": (d) => { delete d.openapi; }, "Swagger 2": (d) => { d.openapi = "2.0"; }, "version 3 only": (d) => { d.openapi = "3"; }, "version 30": (d) => { d.openapi = "30.0.1"; }, "something before the version": (d) => { d.openapi = `1${d.openapi}`; }, "a version within another": (d) => { d.openapi = `2.${d.openapi}`; }, "something after the version": (d) => { d.openapi = `${d.openapi.slice(0, 5)}.0`; }, "no info": (d) => { delete d.info; }, "no title": (d) => { delete d.info.title; }, "no version": (d) => { delete d.info.version; }, "numeric version": (d) => { d.info.version = 1; },
  "no paths": (d) => { delete d.paths; }, "paths in a list": (d) => { d.paths = [d.paths]; }, "a path that is no object": (d) => { d.paths["/x"] = "get"; }, "servers not in a list": (d) => { d.servers = { url: "/" }; }, "a server without url": (d) => { d.servers = [{ description: "x" }]; }, "a tag without name": (d) => { d.tags = [{ description: "x" }]; },
  "documentation without url": (d) => { d.externalDocs = { description: "x" }; }, "security not in a list": (d) => { d.security = { api_key: [] }; }, "scopes not in a list": (d) => { d.security = [{ api_key: "all" }]; }, "components in a list": (d) => { d.components = []; }, "a license without name": (d) => { d.info.license = { url: "/" }; }, "a wrong email": (d) => { d.info.contact = { email: "nobody" }; },
  "tags of an operation": on(firstOp, (o) => { o.tags = "tag"; }), "deprecated as text": on(firstOp, (o) => { o.deprecated = "true"; }), "parameters by name": on(firstOp, (o) => { o.parameters = { a: { name: "a", in: "query" } }; }), "a summary that is no text": on(firstOp, (o) => { o.summary = 1; }), "an operation in a list": on(firstItem, (i) => { i.get = []; }), "servers of a path": on(firstItem, (i) => { i.servers = [{ description: "no url" }]; }), "parameters of a path": on(firstItem, (i) => { i.parameters = [{ in: "query" }]; }),
  "a parameter in the body": on(firstParam, (p) => { p.in = "body"; }), "a parameter without name": on(firstParam, (p) => { delete p.name; }), "required as text": on(firstParam, (p) => { p.required = "true"; }), "explode as text": on(firstParam, (p) => { p.explode = "true"; }), "an unknown style": on(firstParam, (p) => { p.style = "csv"; }),
};

await check({
  rule: "generated well-formed documents and documents with one thing broken; non-trivial: nested collections, multi geometries, operations with parameters, and every kind of damage that applies",
  assumptions: ["unclosed rings, missing properties and extension fields are left open"],
}, async ({ prop }) => {
  await prop("well-formed geometries are accepted", geometry, async (g) => {
    accepts(G.GeometrySchema, g, "geometry");
    if (SCHEMA[g.type]) { accepts(G[SCHEMA[g.type]], g, g.type); for (const [t, s] of Object.entries(SCHEMA)) if (t !== g.type) refuses(G[s], g, `${t} from ${g.type}`); }
    return g.type === "Point" ? false : g.type;
  }, { runs: 2500, needs: [G.GeometrySchema] });
  await prop("broken geometries are refused", fc.record({ g: simple, way: fc.constantFrom(...Object.keys(WAYS)), wrap: fc.constantFrom("none", "collection", "nested", "feature", "features") }), async (c) => {
    const bad = WAYS[c.way](clone(c.g));
    if (!bad) return false;
    if (SCHEMA[c.g.type]) refuses(G[SCHEMA[c.g.type]], bad, `${c.way} ${c.g.type}`);
    refuses(G.GeometrySchema, bad, c.way);
    const col = { type: "GeometryCollection", geometries: [clone(c.g), bad] };
    if (c.wrap === "collection") refuses(G.GeometrySchema, col, c.way);
    if (c.wrap === "nested") refuses(G.GeometrySchema, { type: "GeometryCollection", geometries: [col] }, c.way);
    if (c.wrap === "feature") refuses(G.FeatureSchema, { type: "Feature", geometry: bad, properties: {} }, c.way);
    if (c.wrap === "features") refuses(G.FeatureCollectionSchema, { type: "FeatureCollection", features: [{ type: "Feature", geometry: clone(c.g) }, { type: "Feature", geometry: bad }] }, c.way);
    return `${c.way} ${c.wrap}`;
  }, { runs: 4000, needs: [G.GeometrySchema, G.FeatureSchema] });
  await prop("well-formed features are accepted", collection, async (f) => {
    accepts(G.FeatureCollectionSchema, f, "collection");
    for (const x of f.features) accepts(G.FeatureSchema, x, "feature");
    return f.features.length > 1;
  }, { runs: 1000, needs: [G.FeatureCollectionSchema, G.FeatureSchema] });
  await prop("broken features are refused", fc.record({ f: feature, way: fc.constantFrom("type", "noType", "noGeometry", "geometryList", "id", "properties", "features", "noFeatures", "collectionType") }), async (c) => {
    const f = clone(c.f), all = { type: "FeatureCollection", features: [clone(c.f), f] };
    if (c.way === "type") f.type = "feature"; else if (c.way === "noType") delete f.type; else if (c.way === "noGeometry") delete f.geometry; else if (c.way === "geometryList") f.geometry = [f.geometry]; else if (c.way === "id") f.id = { a: 1 }; else if (c.way === "properties") f.properties = "text";
    else { if (c.way === "features") all.features = f; else if (c.way === "noFeatures") delete all.features; else all.type = "Feature"; refuses(G.FeatureCollectionSchema, all, c.way); return c.way; }
    refuses(G.FeatureSchema, f, c.way); refuses(G.FeatureCollectionSchema, all, c.way);
    return c.way;
  }, { runs: 500, needs: [G.FeatureCollectionSchema, G.FeatureSchema] });
  await prop("well-formed API descriptions are accepted", document, async (d) => {
    accepts(O.openapiSchema, clone(d), "document");
    for (const i of Object.values(d.paths)) { accepts(O.openapiPathItem, clone(i), "path"); for (const m of METHODS) if (i[m]) accepts(O.openapiOperation, clone(i[m]), m); }
    return firstParam(d) ? "parameters" : firstOp(d) ? "operations" : Object.keys(d.paths).length > 0;
  }, { runs: 1500, needs: [O.openapiSchema, O.openapiPathItem, O.openapiOperation] });
  await prop("broken API descriptions are refused", fc.record({ d: document, way: fc.constantFrom(...Object.keys(BREAK)) }), async (c) => {
    const d = clone(c.d);
    if (BREAK[c.way](d) === false) return false;
    refuses(O.openapiSchema, d, c.way);
    return c.way;
  }, { runs: 2500, needs: [O.openapiSchema] });
});
