mod p_cli;
mod p_client;
mod p_description;
mod p_directive;
mod p_document;
mod p_extraction;
mod p_glue;
mod p_paths;
mod p_rules;
mod rules_doc;

use std::process::ExitCode;

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("--child-exit") => return p_cli::child_exit(&args[1]),
        Some("--child-log") => return p_cli::child_log(&args[1], &args[2]),
        Some("--echo") => return p_glue::child_echo(&args[1..]),
        _ => {}
    }
    let Some(prop) = args.first() else {
        eprintln!("usage: mon PROPERTY");
        return ExitCode::from(2);
    };
    let mut ctx = kit::Ctx::new(prop);
    match prop.as_str() {
        "C01" => p_directive::run_c01(&mut ctx),
        "C02" => p_directive::run_c02(&mut ctx),
        "C03" => p_extraction::run(&mut ctx),
        "C04" => p_rules::run(&mut ctx),
        "C05" => p_description::run(&mut ctx),
        "C06" => p_document::run_c06(&mut ctx),
        "C07" => p_document::run_c07(&mut ctx),
        "C08" => p_client::run_c08(&mut ctx),
        "C09" => p_client::run_c09(&mut ctx),
        "C10" => p_cli::run(&mut ctx),
        "C12" => p_paths::run(&mut ctx),
        "C13" => p_glue::run(&mut ctx),
        _ => {
            eprintln!("unknown property {prop}");
            return ExitCode::from(2);
        }
    }
    ctx.idle();
    for p in kit::take_stray_panics() {
        ctx.fail(&format!("panic {p}"), p.clone(), serde_json::json!({}));
    }
    ctx.finish()
}
