// Checks that the tools are there; every check builds what it needs from /repo itself.
import { spawnSync } from "node:child_process";
const r = spawnSync("cargo", ["--version"], { encoding: "utf8" });
if (r.status !== 0) { console.error("cargo is missing"); process.exit(1); }
await import("../lib/types.mjs");
console.log("ready", process.version, r.stdout.trim());
