// Streams of connections that are gone are dropped.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["releasing", "raw", 480], ["releasing", "proxy", 960], ["leaving", "proxy", 240], ["releasing", "threads", 200], ["releasing", "ws", 160], ["leaving", "ws", 40], ["releasing", "ws1", 60]],
  volumes: [["wide", 4000, 0, "proxy"], ["churn", 70000, 0, "proxy"], ["churn", 70000, 3, "proxy"], ["churn", 1500, 2, "ws"]],
  kinds: ["release", "stopped", "stalled", "item", "leak"],
  storms: 6,
});
