#![allow(clippy::all)]
mod api;
#[cfg(not(feature = "sym"))]
mod native;
mod props;
mod util;

#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn irse_entry() {
    props::run();
}
fn main() {
    #[cfg(feature = "sym")]
    irse_entry();
    #[cfg(not(feature = "sym"))]
    native::main();
}
