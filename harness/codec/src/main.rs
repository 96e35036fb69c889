mod alloc;
mod big;
mod sweep;
mod gen_;
mod props;
mod refuse;
mod sch;
mod stat;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let id = std::env::args().nth(1).expect("property");
    props::run(&id)
}
