#[path = "../shared/defcheck.rs"]
#[allow(dead_code)]
mod defcheck;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;
fn main() {
    defcheck::main_c02()
}
