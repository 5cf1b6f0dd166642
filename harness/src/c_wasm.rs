//! the entry point for the web (C21): its real `run`, in a build without files and network
use crate::c_infer::{canon, expected};
use crate::gen::*;
use crate::json;
use crate::sym::*;
use json_typegen_shared::*;
const MODES: &[&str] = &["rust", "typescript", "typescript/typealias", "kotlin/jackson", "python", "json_schema", "zod", "shape"];
fn judge(got: &str, want: Result<String, String>) {
    observe(got.as_bytes());
    match want {
        Ok(c) => {
            check_eq(got.as_bytes(), c.as_bytes(), "not the generated code");
            reach("code");
        }
        Err(m) => {
            let e = format!("Error: {}", m);
            check_eq(got.as_bytes(), e.as_bytes(), "not the error");
            reach("error");
        }
    }
}
pub fn h_wasm(case: u64) {
    match case {
        // the options as the web page gives them
        0 | 1 => {
            let m = MODES[choice(MODES.len() as u32)];
            let f = ["", "PascalCase", "camelCase", "snake_case", "kebab-case"][choice(5)];
            let i = ["add_imports", "assume_existing", "qualified_paths"][choice(3)];
            let u = ["", "/a", "/-"][choice(3)];
            let c = flag();
            let th = ["", "2"][choice(2)];
            let block = format!(
                "{{\"output_mode\":\"{}\",\"input_mode\":\"json\",\"property_name_format\":\"{}\",\"import_style\":\"{}\",\"unwrap\":\"{}\",\"collect_additional\":{},\"infer_map_threshold\":\"{}\"}}",
                m, f, i, u, c, th
            );
            let doc = if case == 0 { fill("{\"a\":{\"fooBar\":#d}}", &[]) } else { fill("[[#r]]", &[]) };
            observe(block.as_bytes());
            observe(&doc);
            let mut o = Options::default();
            o.output_mode = OutputMode::parse(m).unwrap_or(OutputMode::Shape);
            o.property_name_format = match f {
                "PascalCase" => Some(StringTransform::PascalCase),
                "camelCase" => Some(StringTransform::CamelCase),
                "snake_case" => Some(StringTransform::SnakeCase),
                "kebab-case" => Some(StringTransform::KebabCase),
                _ => None,
            };
            o.import_style = match i {
                "add_imports" => ImportStyle::AddImports,
                "assume_existing" => ImportStyle::AssumeExisting,
                _ => ImportStyle::QualifiedPaths,
            };
            o.unwrap = u.to_string();
            o.collect_additional = c;
            o.infer_map_threshold = if th.is_empty() { None } else { Some(2) };
            let w = codegen("MyRoot", text(&doc), o).map_err(|e| internal_util::display_error_with_causes(&e));
            judge(&prog_wasm::run("MyRoot", text(&doc), &block), w);
        }
        // every input is a sample
        2..=4 => {
            let d = fill(["#r#r#r", "1#r", "\"#s#r"][case as usize - 2], &[]);
            observe(&d);
            let got = prog_wasm::run("Root", text(&d), "{ output_mode: \"shape\" }");
            observe(got.as_bytes());
            // white space of any kind around a sample is dropped
            match json::parse(text(&d).trim().as_bytes()) {
                Some(j) => {
                    check_eq(&canon(&got), &expected(&j), "a sample is rejected, or has another type");
                    reach("code");
                }
                None => {
                    check(got.starts_with("Error: "), "no error for a text that is not JSON");
                    reach("error");
                }
            }
        }
        // options that mean nothing
        _ => {
            let b = fill(["{#r#r}", "#r{}", "{ unwrap: \"/#s\" }", "{ \"#s#s\": 1 }", "{ output_mode: \"sh#rpe\" }"][choice(5)], &[]);
            observe(&b);
            let w = match parse::options(text(&b)) {
                Err(m) => Err(m),
                Ok(o) => codegen("N", "[{}]", o).map_err(|e| internal_util::display_error_with_causes(&e)),
            };
            judge(&prog_wasm::run("N", "[{}]", text(&b)), w);
        }
    }
}
