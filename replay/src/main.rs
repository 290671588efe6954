//! replay PROPERTY TIER SEED SECONDS OUTFILE
//! Concrete search for a counterexample of a property on the real code in /repo/schemars (path dependency).
//! Exit 10 with a `FOUND` line and OUTFILE describing the failing input; exit 0 when nothing was found.
mod ctx;
mod api;
mod dynty;
mod misc;
mod names;
mod privs;
mod valid;
mod transforms;
use ctx::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(&a[1], a[2] == "thorough", a[3].parse().unwrap_or(1), a[4].parse().unwrap(), &a[5]);
    // deep recursion of generated inputs
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match c.prop.clone().as_str() {
            "C01" => api::c01(&mut c),
            "C05" => transforms::c05(&mut c),
            "C06" => transforms::c06(&mut c),
            "C07" => transforms::c07(&mut c),
            "C08" => transforms::c08(&mut c),
            "C09" => transforms::c09(&mut c),
            "C10" => transforms::c10(&mut c),
            "C11" => transforms::c11(&mut c),
            "C21" => transforms::c21(&mut c),
            "C12" => privs::c12(&mut c),
            "C13" => privs::c13(&mut c),
            "C14" => privs::c14(&mut c),
            "C15" => privs::c15(&mut c),
            "C16" => privs::c16(&mut c),
            "C17" => privs::c17(&mut c),
            "C18" => misc::c18(&mut c),
            "C19" => misc::c19(&mut c),
            "C20" => misc::c20(&mut c),
            "C22" => misc::c22(&mut c),
            "C02" => names::c02(&mut c),
            "C03" => names::c03(&mut c),
            "C04" => names::c04(&mut c),
            p => {
                eprintln!("no search for {p}");
                std::process::exit(2)
            }
        }
        c.stats();
    });
    if h.unwrap().join().is_err() {
        eprintln!("search panicked outside a case");
        std::process::exit(3)
    }
}
