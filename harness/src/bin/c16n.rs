//! C16 without the `time` feature: the user's `sleep` function bounds every wait.
use vharness::{timing::*, *};

pub fn main() {
    Check::new("C16", "one case = one session with a stalling or slow server; distinct by session and place")
        .assume("the user's sleep function is tokio's, on a paused clock")
        .scale(4)
        .group("n-stalls", 6000, 300_000, stalls)
        .group("n-patience", 3000, 100_000, patience)
        .group_on(4, "n-seams", 60, 1500, seams)
        .require("stalls in large packets", 50)
        .require("calls of the user's sleep", 10_000)
        .require("stalled reads timed out", 1500)
        .require("stalled writes timed out", 700)
        .require("stalled flushes timed out", 700)
        .main()
}
