// Cancelling stops that stream and nothing else.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["cancelling", "raw", 480], ["cancelling", "proxy", 960], ["mixed", "proxy", 240], ["single", "proxy", 240], ["cancelling", "threads", 200], ["cancelling", "ws", 120], ["cancelling", "ws1", 40]],
  volumes: [["wide", 4000, 0, "proxy"], ["wide", 3000, 3, "proxy"], ["wide", 2000, 2, "ws"]],
  kinds: ["cancel", "item", "bad-item", "leak", "stopped", "stalled", "never", "alive"],
  storms: 6,
});
