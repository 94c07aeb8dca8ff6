// Malformed input is answered with one error and changes nothing.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["hostile", "raw", 480], ["hostile", "proxy", 960], ["mixed", "proxy", 240], ["hostile", "threads", 120], ["hostile", "ws", 240], ["hostile", "ws1", 80]],
  volumes: [["backlog", 30000, 3, "proxy"], ["backlog", 9000, 0, "ws"]],
  kinds: ["hostile", "resp", "never", "alive", "leak", "transport", "stopped", "lin", "twice"],
});
