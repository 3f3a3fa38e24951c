#![feature(alloc_error_hook)]
#![allow(clippy::all)]
mod analysis;
mod buffers;
mod collect;
mod common;
mod convert;
mod faulty;
mod hull;
mod iters;
mod ops;
mod pusher;
mod ransac;
mod readers;
mod slices;
mod torn;
mod voxel;

use dsim::runner::Check;

#[global_allocator]
static G: dsim::alloc::SimAlloc = dsim::alloc::SimAlloc;

const STEPS: u64 = 4_000_000_000;

fn main() {
    std::alloc::set_alloc_error_hook(|_| panic!("allocation failed (injected)"));
    let real_core = "pasture-core (point buffers, slices, views, iterators, layouts, converters) unmodified, compiled from /repo";
    let stub_core = "memory allocator (seeded placement, fill and failures), entropy, clock, thread scheduling";
    let core = |id, run: fn(), quick, thorough, rule| Check {
        id,
        run,
        quick,
        thorough,
        step_limit: STEPS,
        level: "exploration",
        rule,
        real: real_core,
        stubs: stub_core,
        assumptions: &[],
    };
    let real_algo = "pasture-core and pasture-algorithms unmodified, compiled from /repo; rayon, rand and kd-tree as published";
    let algo = |id, run: fn(), quick, thorough, rule| Check {
        real: real_algo,
        ..core(id, run, quick, thorough, rule)
    };
    dsim::runner::main(&[
        core("C01", || common::rounds(buffers::c01), 60_000, 2_000_000, "at least one operation was applied; distinct by operations, lengths and final content"),
        core("C02", || common::rounds(torn::c02), 60_000, 2_000_000, "at least one operation ran under a fault or was refused; distinct by operations, lengths and final content"),
        core("C03", || common::rounds(slices::c03), 60_000, 2_000_000, "the sliced buffer is not empty; distinct by slice lengths and final content"),
        core("C04", || common::rounds(iters::c04), 60_000, 2_000_000, "the iterated buffer is not empty; distinct by the positions the iterators went through"),
        core("C05", || common::rounds(convert::c05), 60_000, 2_000_000, "layouts with at least one attribute; distinct by sizes and converted content"),
        core("C06", || common::rounds(collect::c06), 60_000, 2_000_000, "a non-empty buffer was filtered or an iterator collected; distinct by the sizes of the results"),
        core("C07", || common::rounds(pusher::c07), 60_000, 2_000_000, "at least one push session ran; distinct by lengths and final content"),
        algo("C08", readers::c08, 15_000, 500_000, "at least two threads made calls; distinct by their calls, results and schedule"),
        algo("C09", ransac::c09, 20_000, 600_000, "a model with at least one inlier; distinct by models, rankings and schedule"),
        algo("C10", ransac::c10, 3_600, 100_000, "hypotheses with different rankings, or several equally likely ones; distinct by observed counts"),
        algo("C11", ransac::c11, 10_000, 400_000, "at least one call had to fail; distinct by pool size and schedule"),
        algo("C12", voxel::c12, 60_000, 600_000, "several cells, some with several points; distinct by sizes and output"),
        algo("C13", hull::c13, 60_000, 1_500_000, "a hull of at least four points; distinct by positions and corners"),
        algo("C14", analysis::c14, 30_000, 600_000, "the same analysis was compared between two storages of some points; distinct by results"),
    ]);
}
