mod ast;
mod crates;
mod gsem;
mod gsyn;
mod items;
mod model;
mod modes;
mod names;
mod p_cmd;
mod p_derive;
mod p_gen;
mod p_parse;
mod p_run;
mod p_trait;
mod rp;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    if id == "--gen" {
        let a: Vec<String> = std::env::args().collect();
        p_gen::gen_main(&a[2], &a[3]);
    }
    mon::supervise(match id.as_str() {
        "D01" => p_derive::D01,
        "D02" => p_derive::D02,
        "D03" => p_derive::D03,
        "G01" => p_parse::G01,
        "G02" => p_parse::G02,
        "G03" => p_parse::G03,
        "G04" => p_parse::G04,
        "G05" => p_run::G05,
        "G06" => p_run::G06,
        "G07" => p_run::G07,
        "G08" => p_gen::G08,
        "G09" => p_gen::G09,
        "G10" => p_cmd::G10,
        "G11" => p_gen::G11,
        "G12" => p_trait::G12,
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    })
}
