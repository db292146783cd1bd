// middy: the handler itself; middleware is not part of what is decided
const middy = (fn) => { const h = (...a) => fn(...a); for (const k of ["use", "before", "after", "onError"]) h[k] = () => h; h.handler = () => h; return h; };
export default middy;
