// Stream subscriptions of the real client under random orders of subscriptions, items and socket events.
import { simulate, bulk } from "./sim.mjs";
import { rounds } from "./common.mjs";
import { Inconclusive } from "../util.mjs";

export const rule = "a case is one scenario: a sequence of stream operations, items and socket events chosen by the scheduler, followed by the monitor to its end; non-trivial with two or more calls; distinct by the sequence of events";

export default async function (report, conf) {
  await rounds(conf, 420, (seed) => simulate(report, conf, {
    tag: "c18", seed, kinds: ["stream", "frame"], count: conf.tier === "thorough" ? 8000 : 2500,
    profiles: ["streams", "fanout", "churn", "quietStreams", "mixed", "idle", "flaky", "lossy", "shutDown"],
  }));
  if (!report.violations.length) await bulk(report, { tag: "c18", kind: "stream", seed: conf.seed, total: 2000, outstanding: conf.tier === "thorough" ? 40000 : 9000 });
  if (!report.violations.length && (report.counts["callback calls"] ?? 0) < 2000) throw new Inconclusive("too few items");
}
