// @smithy/* packages for a check that replaces them (globalThis.__stubs), installed here or not.
module.exports = require("./auto.cjs")("smithy");
