mod r#gen;
mod p_ann;
mod p_cfg;
mod p_ctx;
mod p_detect;
mod p_edit;
mod p_files;
mod p_fix;
mod p_gate;
mod p_lint;
mod p_lsp;
mod p_msg;
mod p_norm;
mod p_out;
mod p_pkg;
mod p_reach;
mod p_rmd;
mod p_supp;
mod sut;
mod tree;

use std::process::ExitCode;

fn main() -> ExitCode {
    // The stand-in parser and the linter recurse: give them room, as the nesting is ours.
    std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap().join().unwrap_or(ExitCode::from(101))
}

fn real_main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(prop) = args.first() else {
        eprintln!("usage: fullmon PROPERTY");
        return ExitCode::from(2);
    };
    if prop != "DUMP" {
        kit::fan_out(prop);
    }
    let mut ctx = kit::Ctx::new(prop);
    rayon::ThreadPoolBuilder::new().stack_size(256 << 20).num_threads(4).build_global().unwrap();
    // A failure of the monitor itself: what was found before still counts.
    let done = kit::guard(|| match prop.as_str() {
        "C20" => p_lint::run_c20(&mut ctx),
        "C21" => p_lint::run_c21(&mut ctx),
        "C22" => p_supp::run_c22(&mut ctx),
        "C23" => p_edit::run_c23(&mut ctx),
        "C24" => p_fix::run_c24(&mut ctx),
        "C25" => p_gate::run_c25(&mut ctx),
        "C26" => p_norm::run_c26(&mut ctx),
        "C27" => p_cfg::run_c27(&mut ctx),
        "C28" => p_files::run_c28(&mut ctx),
        "C29" => p_out::run_c29(&mut ctx),
        "C30" => p_out::run_c30(&mut ctx),
        "C31" => p_reach::run_c31(&mut ctx),
        "C32" => p_pkg::run_c32(&mut ctx),
        "C33" => p_lsp::run_c33(&mut ctx),
        "C34" => p_lsp::run_c34(&mut ctx),
        "C35" => p_cfg::run_c35(&mut ctx),
        "C36" => p_ctx::run_c36(&mut ctx),
        "C37" => p_detect::run_c37(&mut ctx),
        "C38" => p_msg::run_c38(&mut ctx),
        "C39" => p_rmd::run_c39(&mut ctx),
        "C40" => p_ann::run(&mut ctx),
        "DUMP" => { println!("{}", tree::parse(&args[1]).map_or("no".into(), |e| e.show())); std::process::exit(0) }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    });
    if let Err(e) = done {
        eprintln!("the monitor failed: {e}");
        if !ctx.failed() {
            return ExitCode::from(101);
        }
    }
    ctx.idle();
    for p in kit::take_stray_panics() {
        ctx.fail(&format!("panic {p}"), p.clone(), serde_json::json!({}));
    }
    ctx.finish()
}
