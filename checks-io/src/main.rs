#![feature(alloc_error_hook)]
#![allow(clippy::all)]
#![allow(dead_code)]
#[path = "../../checks-core/src/common.rs"]
mod common;
mod ascii;
mod dev;
mod files;
#[path = "las.rs"]
mod lasf;
#[path = "../../checks-core/src/ops.rs"]
mod ops;
mod pnts_read;
mod pnts_write;

use dsim::runner::Check;

#[global_allocator]
static G: dsim::alloc::SimAlloc = dsim::alloc::SimAlloc;

const STEPS: u64 = 2_000_000_000;

fn main() {
    std::alloc::set_alloc_error_hook(|_| panic!("allocation failed (injected)"));
    let io = |id, run: fn(), quick, thorough, rule| Check {
        id,
        run,
        quick,
        thorough,
        step_limit: STEPS,
        level: "exploration",
        rule,
        real: "pasture-io readers and writers and pasture-core unmodified, compiled from /repo; std BufReader/BufWriter, serde_json, bincode as published",
        stubs: "storage device (seeded splits, interruptions, errors, lost data), memory allocator (seeded placement and fill), entropy",
        assumptions: &[],
    };
    dsim::runner::main(&[
        io("C15", pnts_write::c15, 40_000, 1_000_000, "at least one point was written; distinct by the number of points, of device operations and the final file"),
        io("C16", pnts_read::c16, 40_000, 1_000_000, "at least one point was read; distinct by the file, the final position and the number of device operations"),
        io("C17", ascii::c17, 12_000, 300_000, "at least one point was written; distinct by the text and the number of device operations"),
        io("C18", ascii::c18, 40_000, 1_000_000, "at least one point was read; distinct by the text, the final position and the number of device operations"),
        io("C19", lasf::c19, 40_000, 1_000_000, "at least one point was written; distinct by the number of points, of device operations and the final file"),
        io("C20", lasf::c20, 40_000, 1_000_000, "at least one point was read; distinct by the file, the final position and the number of device operations"),
        Check {
            stubs: "file system (open, read, write, lseek, close served by a simulated disk that splits, interrupts, refuses and fills up; crashes leave what was written so far), memory allocator (seeded placement and fill), entropy",
            ..io("C28", files::c28, 16_000, 400_000, "a file with at least one point was written, or some were read after a crash; distinct by the file and the number of disk operations")
        },
    ]);
}
