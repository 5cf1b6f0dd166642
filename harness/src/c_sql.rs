//! CREATE TABLE statements (C20)
use crate::c_gen;
use crate::c_infer::canon;
use crate::gen::*;
use crate::model::*;
use crate::refinf::*;
use crate::sym::*;
use json_typegen_shared::*;
const TY: &[(&str, &str)] = &[
    ("INT", "i"), ("VARCHAR(255)", "s"), ("BOOLEAN", "b"), ("TIMESTAMP", "d"), ("JSON", "a"), ("INTEGER", "i"), ("TEXT", "s"), ("DATE", "d"), ("DECIMAL(10,2)", "a"),
    ("INT(11)", "i"), ("INT UNSIGNED", "i"), ("INTEGER(4)", "i"), ("INTEGER UNSIGNED", "i"), ("SMALLINT", "i"), ("SMALLINT UNSIGNED", "i"), ("TINYINT(1)", "i"),
    ("TINYINT UNSIGNED", "i"), ("MEDIUMINT", "i"), ("MEDIUMINT(9) UNSIGNED", "i"), ("BIGINT", "i"), ("BIGINT(20) UNSIGNED", "i"),
    ("VARCHAR", "s"), ("CHAR(1)", "s"), ("CHAR", "s"), ("CHARACTER(3)", "s"), ("CHARACTER VARYING(10)", "s"), ("CHAR VARYING", "s"), ("NVARCHAR(2)", "s"), ("STRING", "s"),
    ("DATETIME", "d"), ("DATETIME(6)", "d"), ("TIMESTAMP(3) WITH TIME ZONE", "d"), ("TIMESTAMP WITHOUT TIME ZONE", "d"), ("TIMESTAMPTZ", "d"),
    ("FLOAT", "a"), ("DOUBLE PRECISION", "a"), ("REAL", "a"), ("NUMERIC", "a"), ("BLOB", "a"), ("UUID", "a"), ("SERIAL", "a"), ("TIME", "a"), ("INT[]", "a"), ("VARCHAR(20)[]", "a"),
    ("ENUM('a','b')", "a"), ("my_type", "a"), ("INTERVAL", "a"), ("BYTEA", "a"), ("CLOB", "a"),
];
const MAIN: u32 = 9;
/// column constraints, and whether null is ruled out by them
const CO: &[(&str, bool)] = &[
    ("", false), (" NOT NULL", true), (" PRIMARY KEY", true), (" NULL", false), (" UNIQUE", false), (" DEFAULT 1", false), (" DEFAULT NULL", false), (" DEFAULT 'not null'", false),
    (" CHECK (c > 0)", false), (" CHECK (c IS NOT NULL)", false), (" REFERENCES o(id)", false), (" COMMENT 'NOT NULL'", false), (" CONSTRAINT pk PRIMARY KEY", true), (" CONSTRAINT n NOT NULL", true),
    (" /* NOT NULL */", false),
];
fn ty(k: &str) -> S {
    match k {
        "i" => S::Int,
        "s" => S::Str,
        "b" => S::Bool,
        "d" => S::Opaque(b"Date".to_vec()),
        _ => S::Any,
    }
}
fn field(key: &[u8], t: &str, nn: bool) -> F {
    let s = ty(t);
    F { key: key.to_vec(), optional: false, s: if nn || s == S::Any { s } else { S::Nullable(Box::new(s)) } }
}
fn case_of(s: &str, o: &mut Vec<u8>, how: usize) {
    for c in s.bytes() {
        o.push(match how {
            0 => c,
            1 => c.to_ascii_lowercase(),
            _ if c.is_ascii_alphabetic() => any_of(&[c.to_ascii_lowercase(), c.to_ascii_uppercase()]),
            _ => c,
        });
    }
}
const BEFORE: &[&str] = &["", "DROP TABLE IF EXISTS t; ", "-- CREATE TABLE x (y INT);\n", "/* a */ ", "INSERT INTO u VALUES (1);", "CREATE INDEX i ON t (a);", ";"];
const AFTER: &[&str] = &["", ";", "; CREATE TABLE u (z TEXT NOT NULL);", " ENGINE=InnoDB DEFAULT CHARSET=utf8;", ";\n-- end", ";;"];
const HEAD: &[&str] = &["CREATE TABLE t", "CREATE TABLE IF NOT EXISTS t", "CREATE TEMPORARY TABLE t", "CREATE TABLE s.t", "CREATE TABLE \"a t\"", "CREATE OR REPLACE TABLE t"];
const CONS: &[(&str, [bool; 2])] = &[
    ("", [false, false]), (", PRIMARY KEY (a)", [true, false]), (", PRIMARY KEY (a, b1)", [true, true]), (", CONSTRAINT pk PRIMARY KEY (b1)", [false, true]), (", UNIQUE (a)", [false, false]),
    (", FOREIGN KEY (a) REFERENCES o(a)", [false, false]), (", CHECK (a > 1)", [false, false]), (", UNIQUE (b1), PRIMARY KEY (\"a\")", [true, false]), (", PRIMARY KEY (B1)", [false, true]), (", CONSTRAINT c FOREIGN KEY (b1) REFERENCES a (id)", [false, false]),
];
pub fn h_sql(case: u64) {
    // 10 and up: the same with more combinations
    let full = (10..20).contains(&case);
    let case = if full { [2, 4, 8][case as usize - 10] } else { case };
    let mut q: Vec<u8> = vec![];
    let mut want: Vec<F> = vec![];
    match case {
        // one column: every type, up to two constraints
        0 | 1 => {
            let (t, k) = TY[choice(if case == 0 { TY.len() as u32 } else { MAIN })];
            let (c1, n1) = CO[choice(CO.len() as u32)];
            let (c2, n2) = if case == 0 { CO[choice(2)] } else { CO[choice(CO.len() as u32)] };
            q.extend(b"CREATE TABLE t (c ");
            q.extend(t.as_bytes());
            q.extend(c1.as_bytes());
            q.extend(c2.as_bytes());
            q.extend(b")");
            want.push(field(b"c", k, n1 || n2));
        }
        // column names
        2 | 3 => {
            let (t, k) = TY[choice(2)];
            let mut name = vec![];
            q.extend(b"create table t (");
            if case == 2 {
                name.push(any_of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"));
                name.push(any_of(if full { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789" } else { b"az_AZ09" }));
                name.push(any_of(b"z_09"));
                q.extend(&name);
            } else {
                let quote = b'"';
                for _ in 0..2 {
                    let c = byte();
                    assume(c < 0x80 && c != quote && c != b'?');
                    name.push(c);
                }
                q.push(quote);
                q.extend(&name);
                q.push(quote);
            }
            q.push(b' ');
            q.extend(t.as_bytes());
            let nn = flag();
            if nn {
                q.extend(b" NOT NULL");
            }
            q.extend(b", other TEXT)");
            want.push(field(&name, k, nn));
            want.push(field(b"other", "s", false));
        }
        // statements around the table, table constraints
        4 | 5 => {
            let (c, nn) = if case == 5 { CONS[choice(CONS.len() as u32)] } else { CONS[if full { choice(2) } else { 0 }] };
            if case == 4 {
                q.extend(BEFORE[choice(BEFORE.len() as u32)].as_bytes());
            }
            q.extend(HEAD[choice(HEAD.len() as u32)].as_bytes());
            q.extend(b" (a INT, b1 ");
            let (t, k) = TY[choice(if case == 5 || full { 4 } else { 1 })];
            q.extend(t.as_bytes());
            let (o, n) = CO[choice(if case == 4 { 2 } else { 4 })];
            q.extend(o.as_bytes());
            q.extend(c.as_bytes());
            q.push(b')');
            if case == 4 {
                q.extend(AFTER[choice(AFTER.len() as u32)].as_bytes());
            }
            want.push(field(b"a", "i", nn[0]));
            want.push(field(b"b1", k, nn[1] || n));
        }
        // letter case, white space
        6 | 7 => {
            let how = if case == 6 { 2 } else { choice(2) };
            let (t, k) = TY[choice(if case == 6 { 3 } else { TY.len() as u32 })];
            let (c, n) = CO[1 + choice(2)];
            case_of("CREATE", &mut q, if case == 6 { 1 } else { how });
            q.push(any_of(b" \t\n"));
            case_of("TABLE", &mut q, if case == 6 { 1 } else { how });
            q.extend(b" t(\n x ");
            case_of(&t[..t.len().min(4)], &mut q, how);
            case_of(&t[t.len().min(4)..], &mut q, 0);
            q.push(any_of(b" \t\n"));
            case_of(c, &mut q, if case == 6 { 1 } else { how });
            q.extend(b")");
            want.push(field(b"x", k, n));
        }
        // many columns
        8 => {
            q.extend(b"CREATE TABLE t (");
            for i in 0..3 {
                let (t, k) = TY[choice(if full { 5 } else { 3 })];
                let (c, n) = CO[choice(if full { 3 } else { 2 })];
                if i > 0 {
                    q.push(b',');
                }
                let name = [b'c', b'0' + i as u8];
                q.extend(name);
                q.push(b' ');
                q.extend(t.as_bytes());
                q.extend(c.as_bytes());
                want.push(field(&name, k, n));
            }
            q.push(b')');
        }
        20 => {
            let n = [5, 9, 10, 11, 17, 33, 65][choice(7)];
            let p = [0, n / 2, n - 1][choice(3)];
            let (t, k) = TY[choice(4)];
            let nn = flag();
            let long = flag();
            q.extend(b"CREATE TABLE t (");
            for i in 0..n {
                let name = if i == p && long { "x".repeat(70) } else { format!("c{}", i) };
                let (t, k, nn) = if i == p { (t, k, nn) } else { ("INT", "i", i % 2 == 0) };
                q.extend(format!("{}{} {}{}", if i > 0 { ",\n" } else { "" }, name, t, if nn { " NOT NULL" } else { "" }).bytes());
                want.push(field(name.as_bytes(), k, nn));
            }
            q.push(b')');
        }
        // many statements before the table
        21 => {
            let n = [1, 2, 9, 10, 11, 40][choice(6)];
            let off = choice(4);
            for i in 0..n {
                q.extend(["INSERT INTO u VALUES (1);", "DROP TABLE x;", "-- nothing\n", ";"][(i + off) % 4].bytes());
            }
            q.extend(b"CREATE TABLE t (a INT NOT NULL, b TEXT)");
            want.push(field(b"a", "i", true));
            want.push(field(b"b", "s", false));
            for _ in 0..n {
                q.extend(b";CREATE TABLE u (z TEXT NOT NULL)");
            }
        }
        _ => {
            // nothing to generate a type from
            let t = ["", ";", "SELECT 1", "DROP TABLE t", "-- x", "CREATE VIEW v AS SELECT 1", "INSERT INTO t VALUES (1)", "{}", "CREATE TABLE t (a)x", "CREATE TABLE t (a INT", "CREATE TABLE t a INT)", "CREATE TABLE t (a INT b TEXT)", "CREATE TABLE t (a INT NOT)", "CREATE TABLE t (a INT, a1 'x')"][choice(14)];
            observe(t.as_bytes());
            let mut o = parse::options("{ input_mode: \"sql\" }").ok().unwrap();
            o.output_mode = OutputMode::Shape;
            check(codegen("Root", t, o).is_err(), "code is generated from SQL without any table");
            reach("error");
            return;
        }
    }
    observe(&q);
    observe(b"\n");
    let s = S::Obj(want);
    DATE.store(true, std::sync::atomic::Ordering::Relaxed);
    let shape = parse::options("{ input_mode: \"sql\", output_mode: \"shape\" }").ok().unwrap();
    let out = match codegen("Root", text(&q), shape) {
        Ok(x) => x,
        Err(_) => return fail("a CREATE TABLE statement is rejected"),
    };
    let got = canon(&out);
    observe(&got);
    let mut w = vec![];
    show(&s, &mut w);
    check_eq(&got, &w, "the columns have another type");
    // and in one of the languages
    if case != 3 && case != 6 {
        let ts = parse::options("{ input_mode: \"sql\", output_mode: \"typescript\" }").ok().unwrap();
        match codegen("Root", text(&q), ts) {
            Ok(x) => {
                c_gen::judge(L::Ts, &x, "Root", &s, &[], false);
            }
            Err(_) => return fail("rejected for another output"),
        }
    }
    reach("generated");
}
