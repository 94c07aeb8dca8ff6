// Method calls run one at a time, in the order of each connection; results fit a sequential model.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["calls", "raw", 240], ["slow", "proxy", 720], ["calls", "proxy", 480], ["single", "proxy", 240], ["leaving", "proxy", 240], ["slow", "threads", 160], ["calls", "threads", 120], ["leaving", "threads", 80], ["slow", "ws", 80], ["calls", "ws", 60], ["slow", "ws1", 40]],
  volumes: [["backlog", 30000, 3, "proxy"], ["backlog", 9000, 3, "ws"]],
  kinds: ["mutex", "lin", "order", "answers-order", "twice", "never", "aborted", "resp", "alive"],
});
