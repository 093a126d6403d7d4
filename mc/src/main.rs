mod alloc;
mod common;
mod ex;
mod net;
mod refc;
mod run;
mod s_codec;
mod s_conn;
#[cfg(feature = "full")]
mod s_enc;
mod s_event;
mod s_fault;
mod s_life;
mod s_real;
mod s_reply;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let code = run::main();
    s_real::cleanup();
    std::process::exit(code);
}
