// Every request is answered once, with its id, on its connection.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["calls", "raw", 360], ["mixed", "raw", 240], ["calls", "proxy", 480], ["mixed", "proxy", 480], ["hostile", "proxy", 240], ["single", "proxy", 120], ["calls", "threads", 120], ["mixed", "threads", 80], ["calls", "ws", 80], ["mixed", "ws", 80], ["calls", "ws1", 40]],
  volumes: [["backlog", 30000, 0, "proxy"], ["backlog", 30000, 3, "proxy"], ["backlog", 9000, 3, "ws"]],
  kinds: ["resp", "hostile", "leak", "never", "twice", "alive", "transport"],
});
