// Clients that leave at any point do not disturb the others.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["leaving", "raw", 240], ["leaving", "proxy", 960], ["releasing", "proxy", 480], ["leaving", "threads", 240], ["releasing", "threads", 80], ["leaving", "ws", 200], ["leaving", "ws1", 80]],
  volumes: [["churn", 70000, 0, "proxy"], ["churn", 70000, 3, "proxy"], ["churn", 1500, 2, "ws"]],
  kinds: ["resp", "hostile", "never", "item", "bad-item", "leak", "alive", "aborted", "stopped", "stalled", "twice", "lin", "mutex", "transport"],
});
