//! the command line program: its real `main`, with the argument list, standard input and the files given (C26)
use crate::gen::*;
use crate::sym::*;
use json_typegen_shared::*;
use std::cell::RefCell;
use std::process::{ExitCode, Termination};
struct Exp {
    /// the code that is asked for, if there is any
    code: Option<Vec<u8>>,
    to_file: bool,
    to_stdout: bool,
}
thread_local! { static EXP: RefCell<Option<Exp>> = RefCell::new(None); }
/// the program ends here, in whatever way
pub fn over(status: i32) {
    let e = match EXP.with(|e| e.borrow_mut().take()) {
        Some(e) => e,
        None => return,
    };
    // as the runtime does
    let _ = std::io::Write::flush(&mut std::io::stdout());
    observe(format!("status {}\n", status).as_bytes());
    let (out, f) = (output(0), output(1));
    if let Some(o) = &out {
        observe(o);
    }
    if let Some(f) = &f {
        observe(f);
    }
    match &e.code {
        None => {
            check(status != 0, "success without generated code");
            check(f.is_none() || f.as_deref() == Some(b"OLD"), "the output file is destroyed although nothing was generated");
            check(out.is_none() || out.as_deref() == Some(b""), "output although nothing was generated");
            reach("error");
        }
        Some(c) => {
            if status == 0 {
                if e.to_file {
                    check_eq(f.as_deref().unwrap_or(b"(none)"), c, "the output file does not hold the generated code");
                }
                if e.to_stdout {
                    check_eq(out.as_deref().unwrap_or(b""), c, "standard output is not the generated code");
                }
                check(e.to_file || f.is_none(), "a file is written without being asked for");
                check(e.to_stdout || out.is_none(), "something else is printed");
                reach("written");
            } else {
                // only a failing write or read excuses this
                check(failed(), "a valid invocation fails");
                reach("fault");
            }
        }
    }
}
fn run(argv: Vec<String>, e: Exp) {
    for a in &argv {
        observe(a.as_bytes());
        observe(b"\n");
    }
    clap::ARGV.with(|v| *v.borrow_mut() = argv);
    EXP.with(|x| *x.borrow_mut() = Some(e));
    let s = prog_cli::main().report();
    over(if s == ExitCode::SUCCESS { 0 } else { 1 });
}
const MODES: &[&str] = &["rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "shape", "zod"];
const DOCS: &[&str] = &[
    "{\"a#k\":#d}", "[1", "[{\"x\":null},{}]", "[#r]", " {}", "nothing", "[\"json_typegen!(\",1]", "{\"json_typegen!\":\"#s json_typegen!(\\\"A\\\",\\\"{}\\\");\"}", "[1,#w#w1#w#w]#w",
    "{#w#w\"a\":#w1}#w[",
];
/// every argument: given in different ways, or not
pub fn h_cli(case: u64) {
    let s = |x: &str| x.to_string();
    let mut argv: Vec<String> = vec![];
    let mut o = Options::default();
    let mut bad = false;
    let mut name = s("Root");
    let to_file = case == 1 || case == 3 || case == 7;
    // the input
    let mut input = vec![];
    let src = match case {
        0 | 1 => 0,
        2 | 3 | 6 => 1,
        4 | 7 => 2,
        _ => 0,
    };
    match src {
        // given directly
        0 => input = fill(DOCS[choice(DOCS.len() as u32)], &[]),
        // standard input
        1 => {
            input = if case == 6 { crate::c_file::long() } else { fill(DOCS[[0, 1, 2, 3, 6, 8, 9][choice(7)]], &[]) };
            file(&input);
        }
        // a file
        _ => {
            let d = if case == 7 {
                // much code
                let d = crate::big::doc(1, 257).into_bytes();
                assume(d.len() > 1000);
                d
            } else {
                fill(["[#d]", "[", "{\"a\":#r}"][choice(3)], &[])
            };
            file(&d);
            input = d;
        }
    }
    let a0 = match src {
        0 => s(text(&input)),
        1 => s("-"),
        _ => s(FILE),
    };
    if case != 5 {
        argv.push(a0.clone());
    }
    match choice(if case == 0 { 3 } else if case > 5 { 1 } else { 2 }) {
        1 => {
            argv.extend([s("-n"), s("Thing")]);
            name = s("Thing");
        }
        2 => {
            argv.extend([s("--name"), s("pub(crate) T")]);
            name = s("pub(crate) T");
        }
        _ => {}
    }
    if case < 2 || case == 4 {
        match choice(if case == 0 { 3 } else { 2 }) {
            1 => {
                argv.extend([s("--options"), s("{ output_mode: \"kotlin\", collect_additional }")]);
                o.output_mode = OutputMode::KotlinJackson;
                o.collect_additional = true;
            }
            2 => {
                argv.extend([s("--options"), s("{ no_such_option }")]);
                bad = true;
            }
            _ => {}
        }
    }
    let k = choice(if case == 0 { MODES.len() as u32 + 2 } else if case == 7 { 1 } else { 2 });
    if k < MODES.len() {
        if k > 0 {
            argv.extend([s(if k == 1 { "-O" } else { "--output-mode" }), s(MODES[k])]);
            o.output_mode = OutputMode::parse(MODES[k]).unwrap();
        }
    } else if k == MODES.len() {
        argv.extend([s("--output-mode"), s("cobol")]);
        bad = true;
    }
    if to_file {
        argv.extend([s(if flag() { "-o" } else { "--output" }), s("out.txt")]);
    }
    if case == 5 {
        // no input at all
        bad = true;
    }
    // what the library makes of the same input
    let code = match (bad, src) {
        (true, _) => None,
        (_, 2) => codegen(&name, text(&input), o).ok(),
        _ if text(&input).trim().starts_with(|c| c == '[' || c == '{') => codegen(&name, text(&input), o).ok(),
        _ => None,
    };
    run(argv, Exp { code: code.map(|c| c.into_bytes()), to_file, to_stdout: !to_file });
}
/// a macro instead of a sample
pub fn h_cli_macro(case: u64) {
    let m = fill(
        ["json_typegen!(\"A\", \"{#r}\");", " json_typegen!(\"pub #kb\", \"[]\", { output_mode: \"zod\" });\n", "json_typegen!(\"A\", \"[{\\\"a\\\":1}]\", { collect_additional#r });", "json_typegen#r(\"A\", \"{}\");"]
            [case as usize % 4],
        &[],
    );
    let stdin = case >= 4;
    let code = codegen_from_macro(text(&m)).ok();
    let mut argv = vec![if stdin { "-".to_string() } else { text(&m).to_string() }];
    if stdin {
        file(&m);
    }
    // the options argument is ignored for macros
    if flag() {
        argv.extend(["--options".to_string(), "{ output_mode: \"python\" }".to_string()]);
    }
    let to_file = !stdin && flag();
    if to_file {
        argv.extend(["-o".to_string(), "out.txt".to_string()]);
    }
    run(argv, Exp { code: code.map(|c| c.into_bytes()), to_file, to_stdout: !to_file });
}
