// C10: geographic conversions and distances.
import { check, fc, must, same, alike, show, capture } from "#harness";
import * as G from "#repo/lib/digitraffic-common/src/utils/geometry.ts";
import * as GT from "#repo/lib/digitraffic-common/src/utils/geojson-types.ts";

const lon = fc.oneof({ weight: 4, arbitrary: fc.double({ min: -180, max: 180, noNaN: true }) }, fc.integer({ min: -180, max: 180 }), fc.constantFrom(0, -0, 180, -180, 24.9384, 1e-7));
const lat = fc.oneof({ weight: 4, arbitrary: fc.double({ min: -90, max: 90, noNaN: true }) }, fc.integer({ min: -90, max: 90 }), fc.constantFrom(0, -0, 90, -90, 60.1699));
const pos = fc.oneof({ weight: 3, arbitrary: fc.tuple(lon, lat) }, fc.tuple(lon, lat, fc.double({ min: -100, max: 1000, noNaN: true })));
// some lines stay where they are for a while
const line = fc.tuple(fc.array(pos, { minLength: 2, maxLength: 5 }), fc.option(fc.nat({ max: 4 }), { nil: undefined, freq: 2 }), fc.boolean()).map(([l, at, copy]) => (at === undefined ? l : l.flatMap((p, i) => (i === at % l.length ? [p, copy ? [...p] : p] : [p]))));
const ring = fc.array(pos, { minLength: 3, maxLength: 5 }).map((r) => [...r, r[0]]);
const polygon = fc.array(ring, { minLength: 1, maxLength: 3 });
const geometry = fc.oneof(
  pos.map((coordinates) => ({ type: "Point", coordinates })), line.map((coordinates) => ({ type: "LineString", coordinates })),
  polygon.map((coordinates) => ({ type: "Polygon", coordinates })), fc.array(polygon, { minLength: 1, maxLength: 3 }).map((coordinates) => ({ type: "MultiPolygon", coordinates })),
);
// ---------- WKT reader ----------
function parseWkt(s) {
  let i = 0;
  const ws = () => { while (/\s/.test(s[i] ?? "")) i++; };
  const word = /^\s*([A-Z]+)\s*/.exec(s); i = word[0].length;
  const list = () => { // either numbers or nested lists
    ws(); must(s[i] === "(", `"(" at ${i} of ${s}`); i++; ws();
    const out = [];
    for (;;) {
      if (s[i] === "(") out.push(list());
      else { const m = /^[-+0-9.eE\s]+/.exec(s.slice(i)); must(m, `numbers at ${i} of ${s}`); i += m[0].length; out.push(m[0].trim().split(/\s+/).map(Number)); }
      ws();
      if (s[i] === ",") { i++; ws(); continue; }
      must(s[i] === ")", `")" at ${i} of ${s}`); i++; return out;
    }
  };
  const v = list(); ws(); must(i === s.length, `trailing text in ${s}`);
  return { type: word[1], coordinates: word[1] === "POINT" ? v[0] : v };
}
const zero = (x) => (Array.isArray(x) ? x.map(zero) : x === 0 ? 0 : x);
const flat = (g) => (typeof g[0] === "number" ? [g.slice(0, 2)] : g.flatMap(flat));
const map2d = (g) => (typeof g[0] === "number" ? zero(g.slice(0, 2)) : g.map(map2d));
// great-circle distance through unit vectors: an independent formula
function arc([x1, y1], [x2, y2]) {
  const r = Math.PI / 180, v = (x, y) => [Math.cos(y * r) * Math.cos(x * r), Math.cos(y * r) * Math.sin(x * r), Math.sin(y * r)];
  const a = v(x1, y1), b = v(x2, y2);
  const cross = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
  return Math.atan2(Math.hypot(...cross), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
}

await check({
  rule: "generated positions and geometries (with zero, extreme and tiny coordinates and altitudes), read back by an independent WKT/GML reader; distances compared with a vector formula; non-trivial: everything but single points",
  assumptions: ["a spherical earth of radius 6371 km to within 0.6 %"],
}, async ({ prop }) => {
  same(G.SRID_WGS84, 4326, "the identifier of WGS84");
  await prop("geometries survive the conversion to WKT", fc.oneof({ weight: 9, arbitrary: geometry }, { weight: 1, arbitrary: fc.array(fc.array(pos, { minLength: 1, maxLength: 3 }), { minLength: 1, maxLength: 3 }).map((coordinates) => ({ type: "Polygon", coordinates })) }), async (g) => {
    const { value } = await capture(() => G.createGeometry(g));
    const back = parseWkt(value);
    same(back.type, g.type.toUpperCase(), "geometry type");
    same(zero(back.coordinates), map2d(g.coordinates), "coordinates");
    return g.type !== "Point" && g.type;
  }, { runs: 2500, needs: [G.createGeometry] });

  await prop("an unsupported geometry becomes an empty one, not a wrong one", fc.constantFrom({ type: "MultiPoint", coordinates: [[1, 2]] }, { type: "MultiLineString", coordinates: [[[1, 2], [3, 4]]] }, { type: "GeometryCollection", geometries: [] }), async (g) => {
    const { value } = await capture(() => G.createGeometry(g));
    must(/^(POLYGON|MULTIPOINT|MULTILINESTRING|GEOMETRYCOLLECTION|POINT) EMPTY$/.test(value), `${g.type} became ${value}`);
    return g.type;
  }, { runs: 10, needs: [G.createGeometry] });

  await prop("GML position lists keep every ordinate in order", fc.record({ g: fc.oneof(pos.map((coordinates) => ({ type: "Point", coordinates })), line.map((coordinates) => ({ type: "LineString", coordinates })), polygon.map((coordinates) => ({ type: "Polygon", coordinates })), fc.constant({ type: "MultiPoint", coordinates: [] })), srs: fc.option(fc.constantFrom("EPSG:3067", "EPSG:4326", "X:1"), { nil: undefined }) }), async ({ g, srs }) => {
    const { value, error } = await capture(() => G.createGmlLineString(g, srs));
    if (g.type === "MultiPoint") { must(error, "an unsupported geometry was accepted"); return "unsupported"; }
    must(!error, () => String(error));
    same(value.srsName, srs ?? "EPSG:4326", "coordinate system");
    const all = (c) => (typeof c[0] === "number" ? c : c.flatMap(all));
    const want = all(g.coordinates), got = value.posList.split(" ").map(Number);
    same(got.length, want.length, "number of ordinates");
    want.forEach((w, i) => must(Math.abs(got[i] - w) <= Math.abs(w) * 5.1e-8, () => `ordinate ${i}: ${got[i]} for ${w}`));
    return g.type;
  }, { runs: 1500, needs: [G.createGmlLineString] });

  const radius = G.distanceBetweenPositionsInKm([0, 0], [0, 1]) * (180 / Math.PI);
  must(radius > 6356 && radius < 6379, `the earth has a radius of ${radius} km`);
  await prop("distances are a metric in kilometres and metres", fc.record({ a: pos, b: pos, near: fc.option(fc.tuple(fc.double({ min: -0.01, max: 0.01, noNaN: true }), fc.double({ min: -0.01, max: 0.01, noNaN: true })), { nil: undefined, freq: 3 }), anti: fc.boolean() }), async (c) => {
    const a = c.a;
    const b = c.near ? [Math.max(-180, Math.min(180, a[0] + c.near[0])), Math.max(-90, Math.min(90, a[1] + c.near[1]))] : c.anti ? [a[0] > 0 ? a[0] - 180 : a[0] + 180, -a[1]] : c.b;
    const d = G.distanceBetweenPositionsInKm(a, b);
    must(Number.isFinite(d) && d >= 0, () => `distance ${d} between ${a} and ${b}`);
    const want = arc(a, b) * 6371;
    const exact = arc(a, b) * radius; // the same sphere for every pair
    must(Math.abs(d - exact) <= exact * 1e-6 + 2e-4, () => `distance ${d} instead of ${exact} between ${a} and ${b}`);
    must(Math.abs(d - want) <= want * 0.006 + 1e-6, () => `distance ${d} instead of ${want} between ${a} and ${b}`);
    must(Math.abs(G.distanceBetweenPositionsInKm(b, a) - d) <= 1e-9 * (1 + d), "symmetric");
    must(Math.abs(G.distanceBetweenPositionsInM(a, b) - d * 1000) <= 1e-6 * (1 + d), "metres are a thousandth of kilometres");
    same(G.distanceBetweenPositionsInKm(a, [a[0], a[1]]), 0, "distance to itself");
    return c.near ? "near" : c.anti ? "antipodal" : "far";
  }, { runs: 3000, needs: [G.distanceBetweenPositionsInKm, G.distanceBetweenPositionsInM] });

  await prop("incomplete positions are refused", fc.record({ n: fc.constantFrom(0, 1, 4, 5), first: fc.boolean() }), async (c) => {
    const bad = [1, 2, 3, 4, 5].slice(0, c.n), good = [24, 60];
    const { error } = await capture(() => (c.first ? G.distanceBetweenPositionsInKm(bad, good) : G.distanceBetweenPositionsInKm(good, bad)));
    must(error, `a position of ${c.n} ordinates was accepted`);
    return true;
  }, { runs: 30, needs: [G.distanceBetweenPositionsInKm] });

  await prop("positions are distinct when longitude or latitude differ", fc.record({ a: pos, b: pos, how: fc.constantFrom("same", "lon", "lat", "alt", "other") }), async (c) => {
    const a = c.a, b = c.how === "same" ? [...a] : c.how === "lon" ? [c.b[0], a[1]] : c.how === "lat" ? [a[0], c.b[1]] : c.how === "alt" ? [a[0], a[1], 7777] : c.b;
    same(G.areDistinctPositions(a, b), !(a[0] === b[0] && a[1] === b[1]), `distinct ${show([a, b])}`);
    same(G.areDistinctPositions(b, a), G.areDistinctPositions(a, b), "symmetric");
    return c.how;
  }, { runs: 800, needs: [G.areDistinctPositions] });

  const feature = fc.record({ type: fc.constant("Feature"), geometry: fc.option(geometry, { nil: null }), properties: fc.dictionary(fc.constantFrom("a", "b"), fc.oneof(fc.string(), fc.integer()), { maxKeys: 2 }) });
  await prop("feature collections hold their features and validate", fc.record({ fs: fc.array(feature, { maxLength: 4 }), at: fc.option(fc.date({ noInvalidDate: true }), { nil: null }) }), async (c) => {
    const f = G.createFeatureCollection(c.fs, c.at);
    alike({ ...f }, { type: "FeatureCollection", features: c.fs, lastUpdated: c.at }, "collection");
    if (c.fs.every((x) => x.geometry)) { same(G.isFeatureCollection(f), true, "is a feature collection"); same(G.isValidGeoJson(f), true, "valid GeoJSON"); }
    same(G.isFeatureCollection({ type: "Feature", geometry: null, properties: {} }), false, "a feature is no collection");
    return c.fs.length > 0;
  }, { runs: 500, needs: [G.createFeatureCollection, G.isFeatureCollection, G.isValidGeoJson] });

  await prop("broken GeoJSON is not valid", fc.constantFrom({ type: "Point", coordinates: ["a", 1] }, { type: "LineString", coordinates: [[1, 2]] }, { type: "Nope" }, { type: "Polygon", coordinates: [[[0, 0], [1, 1], [2, 2]]] }, { type: "FeatureCollection" }, {}), async (g) => {
    must(G.isValidGeoJson(g) !== true, () => `${show(g)} is called valid`);
    return true;
  }, { runs: 12, needs: [G.isValidGeoJson] });

  await prop("point and line classes are GeoJSON", fc.record({ p: pos, l: line }), async (c) => {
    alike(JSON.parse(JSON.stringify(new GT.GeoJsonPoint(c.p))), { type: "Point", coordinates: zero(c.p) });
    alike(JSON.parse(JSON.stringify(new GT.GeoJsonLineString(c.l))), { type: "LineString", coordinates: zero(c.l) });
    return true;
  }, { runs: 100, needs: [GT.GeoJsonPoint, GT.GeoJsonLineString] });
});
