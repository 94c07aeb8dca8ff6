// The WebSocket endpoint carries exactly the requests and responses.
import { serve, rule } from "./rpc.mjs";
export { rule };

export default (report, conf) => serve(report, conf, {
  jobs: [["frames", "ws", 280], ["mixed", "ws", 60], ["hostile", "ws", 60], ["leaving", "ws", 60], ["frames", "ws1", 120]],
  volumes: [["backlog", 9000, 3, "ws"], ["long", 40000, 3, "ws"], ["churn", 1500, 2, "ws"]],
  kinds: ["resp", "hostile", "leak", "never", "twice", "alive", "transport", "order", "answers-order", "item", "bad-item", "stopped", "stalled", "release"],
});
