// Stands in for backend-recorder-workerd/src/coverage/replay-coverage, which is not part of this tree.
import { requestCaptureContext } from "@repo/backend-recorder-workerd/src/context";
export const runReplayWithCoverage = (ctx: unknown, invoke: () => unknown) => requestCaptureContext.run(ctx as never, invoke);
