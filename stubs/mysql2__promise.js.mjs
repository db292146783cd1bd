export * from "./mysql2__promise.mjs"; export { default } from "./mysql2__promise.mjs";
