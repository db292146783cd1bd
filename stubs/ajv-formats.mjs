// ajv-formats: the formats the repository's schemas name
const days = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
const date = (s) => { const m = /^(\d{4})-(\d\d)-(\d\d)$/.exec(s); if (!m) return false; const [y, mo, d] = m.slice(1).map(Number); return mo >= 1 && mo <= 12 && d >= 1 && d <= (mo === 2 && y % 4 === 0 && (y % 100 !== 0 || y % 400 === 0) ? 29 : days[mo]); };
const time = (s) => { const m = /^(\d\d):(\d\d):(\d\d)(\.\d+)?(z|[+-]\d\d(:?\d\d)?)$/i.exec(s); return !!m && Number(m[1]) < 24 && Number(m[2]) < 60 && Number(m[3]) < 60; };
const addFormats = (ajv) => {
  ajv.addFormat("date", { validate: date });
  ajv.addFormat("time", { validate: time });
  ajv.addFormat("date-time", { validate: (s) => { const p = s.split(/t|\s/i); return p.length === 2 && date(p[0]) && time(p[1]); } });
  ajv.addFormat("uuid", /^(?:urn:uuid:)?[0-9a-f]{8}-(?:[0-9a-f]{4}-){3}[0-9a-f]{12}$/i);
  ajv.addFormat("uri", /^[a-z][a-z0-9+.-]*:[^\s]*$/i);
  ajv.addFormat("email", /^[^@\s]+@[^@\s]+$/);
  for (const f of ["int32", "int64", "float", "double", "byte", "binary", "password"]) ajv.addFormat(f, true);
};
addFormats.default = addFormats; // as an ES module sees the package
export default addFormats;
