//! C16: every wait on the server is bounded by the configured timeout.
use vharness::{timing::*, *};

pub fn main() {
    Check::new("C16", "one case = one session with a stalling or slow server; distinct by session and place")
        .assume("time is tokio's paused clock: computing takes no time, timers have a resolution of 1 ms")
        .scale(4)
        .group("stalls", 8000, 500_000, stalls)
        .group("patience", 4000, 200_000, patience)
        .group_on(4, "seams", 60, 1500, seams)
        .require("stalls in large packets", 50)
        .require("stalled reads timed out", 2000)
        .require("stalled writes timed out", 1000)
        .require("stalled flushes timed out", 1000)
        .require("timed out during login", 500)
        .require("sessions slower than the timeout", 1000)
        .main()
}
