mod demo;
mod ops;
mod sim;
mod vm;
mod world;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        vm::PANIC.with(|p| *p.borrow_mut() = m);
    }));
    solana_program::program_stubs::set_syscall_stubs(Box::new(vm::Stubs));
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| std::panic::catch_unwind(|| demo::demo(&mut sim::Sim::new())).map_err(|_| vm::PANIC.with(|p| p.borrow().clone())))
        .unwrap()
        .join()
        .unwrap();
    match r {
        Ok(()) => println!("the property holds here"),
        Err(m) => {
            println!("BROKEN: {}", m);
            std::process::exit(1)
        }
    }
}
