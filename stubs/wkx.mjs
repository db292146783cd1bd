// wkx, as far as the code uses it: (E)WKB to GeoJSON
export class Geometry {
  constructor(json) { this.json = json; }
  static parse(b) {
    let o = 0;
    const geom = () => {
      const le = b.readUInt8(o++) === 1, u32 = () => { const v = le ? b.readUInt32LE(o) : b.readUInt32BE(o); o += 4; return v; }, f64 = () => { const v = le ? b.readDoubleLE(o) : b.readDoubleBE(o); o += 8; return v; };
      const raw = u32(), type = raw & 0xff; if (raw & 0x20000000) u32();
      const dims = 2 + (raw & 0x80000000 ? 1 : 0) + (raw & 0x40000000 ? 1 : 0);
      const pos = () => Array.from({ length: dims }, f64), list = (f) => Array.from({ length: u32() }, f);
      switch (type) {
        case 1: return { type: "Point", coordinates: pos() };
        case 2: return { type: "LineString", coordinates: list(pos) };
        case 3: return { type: "Polygon", coordinates: list(() => list(pos)) };
        case 6: return { type: "MultiPolygon", coordinates: list(() => geom().coordinates) };
        default: throw new Error(`WKB type ${type} not supported`);
      }
    };
    return new Geometry(geom());
  }
  toGeoJSON() { return this.json; }
}
export class Point extends Geometry { constructor(x, y) { super({ type: "Point", coordinates: [x, y] }); } }
export class LineString extends Geometry { constructor(points) { super({ type: "LineString", coordinates: points.map((p) => p.json.coordinates) }); } toWkt() { return `LINESTRING(${this.json.coordinates.map((c) => c.join(" ")).join(",")})`; } }
export default { Geometry, Point, LineString };
