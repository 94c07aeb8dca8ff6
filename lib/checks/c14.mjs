// Every item once, in order, to its subscriber only.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["streams", "raw", 240], ["streams", "proxy", 720], ["mixed", "proxy", 240], ["single", "proxy", 240], ["streams", "threads", 160], ["streams", "ws", 120], ["mixed", "ws", 60], ["streams", "ws1", 40]],
  volumes: [["long", 100000, 0, "proxy"], ["long", 100000, 3, "proxy"], ["long", 40000, 3, "ws"], ["wide", 4000, 2, "proxy"], ["wide", 2000, 2, "ws"]],
  kinds: ["item", "bad-item", "leak", "stalled", "stopped", "never", "resp", "alive"],
});
