//! not a property: what std offers, executed symbolically; every sampled path has to agree with the native build.
//! `python3 tools/check.py SELF` after changes to the engine.
use crate::gen::text;
use crate::sym::*;
use std::collections::*;
use std::fmt::Write as _;
macro_rules! show { ($($x:expr),+ $(,)?) => { $(observe(format!("{:?};", $x).as_bytes());)+ } }
pub fn h_self(case: u64) {
    reach("run");
    let (a, b, c) = (byte(), any_of(b"0123456789-+.eE"), any_of(b"aAzZ_9"));
    match case {
        0 => {
            let t: Vec<u8> = [b"17014118346046923173168730371588410572", &[b][..]].concat();
            let t = text(&t);
            show!(t.parse::<i128>().is_ok(), t.parse::<u128>().is_ok(), format!("-{}", t).parse::<i128>().is_ok());
            let t: Vec<u8> = [b"1701411834604692317316873037158841057", &[b, b][..]].concat();
            show!(text(&t).parse::<i128>().map(|x| x > 1 << 126).ok());
        }
        1 => {
            let x = a as i128 - 128;
            let y = (x << 90) ^ (x * 1_000_000_007_000_000_007);
            show!(y < 0, y > (1 << 70), i64::try_from(y).is_ok(), i64::try_from(x).ok(), (y as u128 >> 64) as u64, (y >> 100) as i64, y.checked_mul(1 << 30).is_some(), y.checked_add(i128::MAX).is_none(), y.checked_sub(i128::MAX).is_none());
        }
        2 => {
            let x = a as u128;
            show!(x.checked_mul(u128::MAX / 100).is_some(), x.checked_sub(77).is_some(), (x << 120).checked_add(1 << 127).is_some(), x.saturating_sub(3) as u8, (u128::MAX - 100).saturating_add(x) == u128::MAX, (x << 64).rotate_left(70) as u64, (x * x * x) / 7 % 11);
        }
        3 => {
            let x = (a as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            show!(x.leading_zeros() + x.count_ones(), x.swap_bytes(), x.rotate_right(13), (x as i64) >> 7, (x as i64).checked_mul(3), (x as u32).wrapping_add(7), x.pow(2u32 & 1), (x as i32).abs_diff(4));
        }
        4 => {
            let t = [b"1", &[b, b][..], b"5"].concat();
            show!(text(&t).parse::<f64>().is_ok(), text(&t).parse::<f64>().map_or(-1.0, |f| f.trunc()) as i64, text(&t).parse::<u8>().ok(), text(&t).parse::<i16>().ok());
        }
        5 => {
            let f = [0.1, 1e300, -2.5, 1e-7, f64::MAX][choice(5)] * a as f64;
            show!(f, f as i64, f as f32, f.floor() as i32, f.is_finite(), f < 3.0);
        }
        6 => {
            let t = [&[c, b][..], "é\u{1F600}".as_bytes(), &[c]].concat();
            let s = text(&t);
            show!(s.chars().rev().collect::<String>(), s.char_indices().map(|(i, c)| i + c.len_utf8()).sum::<usize>(), s.encode_utf16().collect::<Vec<_>>().len(), String::from_utf16(&s.encode_utf16().collect::<Vec<_>>()).unwrap() == s);
            show!(s.to_uppercase(), s.to_lowercase(), s.to_ascii_uppercase(), s.find('é'), s.rfind(c as char), s.split_once('é').map(|p| p.1.len()), s.eq_ignore_ascii_case("a0é\u{1F600}a"), s.is_char_boundary(3));
        }
        7 => {
            let t = [b"a/", &[c, b'/', b][..], b"//x y\tz\n"].concat();
            let s = text(&t);
            show!(s.split('/').collect::<Vec<_>>(), s.rsplit('/').next(), s.splitn(2, '/').last(), s.split_whitespace().count(), s.lines().count(), s.trim_end(), s.strip_prefix("a/a"), s.replace("/", "~1"), s.matches('/').count(), s.rsplit_once("/").map(|x| x.0.len()));
            show!(s.split(|x: char| !x.is_alphanumeric()).filter(|x| !x.is_empty()).collect::<Vec<_>>().join("+"), s.contains("//"), s.find("x y"), s.trim_matches(|x| x == 'a' || x == '\n'), s.bytes().position(|x| x == b'9'), s.repeat(2).len(), s.split_terminator('\n').count());
        }
        8 => {
            let mut v: Vec<u8> = vec![c, b, 7, a & 3, 200, b];
            v.sort_unstable();
            show!(v.binary_search(&7).is_ok());
            v.dedup();
            v.retain(|x| *x != b'a');
            v.extend([250, 251, 252]);
            show!(v.windows(2).all(|w| w[0] < w[1]), v.chunks(2).map(|x| x.len()).collect::<Vec<_>>(), v.iter().rev().take(2).copied().collect::<Vec<_>>(), v.iter().max(), v.iter().min_by_key(|x| **x % 5), v.concat_());
            let mut w: Vec<(u8, &str)> = vec![(c, "x"), (b, "y"), (c, "a")];
            w.sort_by(|p, q| p.0.cmp(&q.0).then_with(|| q.1.cmp(p.1)));
            show!(w);
            v.rotate_left(1);
            v.reverse();
            v.splice(0..1, [1, 2, 3]);
            v.drain(1..2);
            v.insert(1, c);
            v.swap(0, 2);
            show!(v);
        }
        9 => {
            let mut m: HashMap<String, usize> = HashMap::new();
            for (i, k) in [[c, b].as_slice(), b"aa", b"ab", &[c], &[b]].iter().enumerate() {
                *m.entry(text(k).to_string()).or_insert(0) += i;
            }
            let mut l: Vec<_> = m.iter().collect();
            l.sort();
            show!(l, m.get("aa"), m.contains_key("z"), m.remove("ab"));
            let s: HashSet<u8> = [c, b, 9].into_iter().collect();
            show!(s.len(), s.contains(&b'5'));
        }
        10 => {
            let mut m: BTreeMap<Vec<u8>, u8> = BTreeMap::new();
            for i in 0..14u8 {
                m.insert(vec![c.wrapping_add(i.wrapping_mul(37)), i], i);
            }
            m.insert(vec![b], 99);
            show!(m.range(vec![b'a']..).next(), m.first_key_value(), m.len(), m.remove(&vec![b'5']), m.values().copied().last());
            let s: BTreeSet<u8> = [c, b, 3].into_iter().collect();
            show!(s);
            let mut d: VecDeque<u8> = [1, 2, c].into_iter().collect();
            d.push_front(b);
            d.rotate_left(1);
            show!(d.iter().rev().collect::<Vec<_>>(), d.contains(&b'a'));
            let mut h: BinaryHeap<u8> = vec![c, b, 60].into();
            show!(h.pop(), h.into_sorted_vec());
        }
        11 => {
            let mut s = String::new();
            let _ = write!(s, "{:>6}|{:<4}|{:^5}|{:04x}|{:#b}|{:+}|{:e}|{:?}", a, c as char, "x", a, a & 7, a as i8, 1500.0, text(&[c, b'"', b]));
            show!(s.len(), s);
            s.insert_str(3, "ins");
            s.truncate(9);
            s.pop();
            s.remove(0);
            s.extend(["p", "q"]);
            show!(s, s.drain(..2).collect::<String>(), s.char_indices().nth(2), s.bytes().rev().map(|x| x as char).collect::<String>());
        }
        12 => {
            let ch = char::from(a);
            show!(ch.is_alphabetic(), ch.is_numeric(), ch.is_whitespace(), ch.is_uppercase(), ch.is_control(), ch.to_digit(36), ch.is_ascii_punctuation(), ch.to_lowercase().to_string(), ch.to_uppercase().count(), ch.escape_default().to_string(), char::from_digit((a & 31) as u32, 36), std::char::from_u32(a as u32 * 300).is_some());
        }
        13 => {
            let x: Vec<u8> = vec![a, 0x80 | c, 0xe2, 0x82, 0xac];
            show!(String::from_utf8_lossy(&x).len(), std::str::from_utf8(&x).map_err(|e| e.valid_up_to()).is_ok(), String::from_utf8(x.clone()).is_err(), std::ffi::CString::new(x).is_ok());
        }
        14 => {
            use std::{cell::*, rc::Rc, sync::*};
            static N: atomic::AtomicUsize = atomic::AtomicUsize::new(1);
            static L: OnceLock<String> = OnceLock::new();
            static Z: LazyLock<Vec<u8>> = LazyLock::new(|| vec![4, 5]);
            static M: Mutex<Vec<u8>> = Mutex::new(Vec::new());
            static W: RwLock<u8> = RwLock::new(3);
            thread_local! { static T: RefCell<String> = RefCell::new("t".into()); static U: Cell<u8> = Cell::new(1); }
            N.store(a as usize, atomic::Ordering::SeqCst);
            N.fetch_add(2, atomic::Ordering::Relaxed);
            T.with(|t| *t.borrow_mut() = "t".into());
            T.with(|t| t.borrow_mut().push(c as char));
            U.with(|u| u.set(c));
            M.lock().unwrap().clear();
            M.lock().unwrap().push(b);
            *W.write().unwrap() = c;
            show!(N.load(atomic::Ordering::Acquire), L.get_or_init(|| "once".into()), Z.len(), M.lock().unwrap().len(), *W.read().unwrap(), T.with(|t| t.borrow().clone()), U.with(|u| u.get()));
            let r = Rc::new(RefCell::new(vec![c]));
            let q = r.clone();
            q.borrow_mut().push(b);
            show!(r.borrow().len(), Rc::strong_count(&r), Rc::try_unwrap(r).is_err(), Arc::new(c), r#try(c));
        }
        15 => {
            let v = [c, b, 1, 2];
            let it = v.iter().zip(v.iter().skip(1)).map(|(x, y)| x ^ y);
            show!(it.clone().collect::<Vec<_>>(), it.clone().fold(0u32, |p, x| p * 3 + x as u32), it.clone().scan(0u8, |s, x| { *s = s.wrapping_add(x); Some(*s) }).last(), it.clone().step_by(2).count(), it.peekable().next_if(|x| *x > 9), v.iter().flat_map(|x| [*x, 1]).partition::<Vec<u8>, _>(|x| *x > 60), v.iter().any(|x| *x == b'9'), v.iter().try_fold(0u8, |p, x| p.checked_add(*x)), v.iter().cloned().reduce(|p, q| p.max(q)), v.iter().copied().min(), v.concat_());
            let f: Vec<Box<dyn Fn(u8) -> u8>> = vec![Box::new(|x| x ^ 1), Box::new(move |x| x.wrapping_add(c))];
            show!(f.iter().map(|g| g(b)).collect::<Vec<_>>(), std::iter::successors(Some(c), |x| if *x > 3 { Some(x / 3) } else { None }).collect::<Vec<_>>(), std::iter::repeat(c).take(3).chain(std::iter::once(b)).collect::<Vec<u8>>());
        }
        16 => {
            use std::io::{BufRead, Cursor, Read, Seek, Write};
            let d = [b"line ", &[c, b, b'\n'][..], b"second\nthird"].concat();
            let mut r = std::io::BufReader::with_capacity(4, Cursor::new(&d));
            let mut s = String::new();
            show!(r.read_line(&mut s).unwrap());
            let mut rest = vec![];
            let mut two = [0; 2];
            r.read_exact(&mut two).unwrap();
            r.read_to_end(&mut rest).unwrap();
            show!(s, two, rest.len(), Cursor::new(&d).lines().count(), Cursor::new(&d).split(b' ').count(), Cursor::new(&d).bytes().filter_map(|x| x.ok()).max(), Cursor::new(&d).take(6).chain(&b"zz"[..]).bytes().count());
            let mut w = std::io::BufWriter::new(Cursor::new(vec![]));
            write!(w, "{}-{}", c, b).unwrap();
            w.flush().unwrap();
            let mut cur = w.into_inner().unwrap();
            cur.seek(std::io::SeekFrom::Start(1)).unwrap();
            show!(cur.get_ref());
        }
        17 => {
            use std::path::*;
            let t = [b"/a/b", &[c][..], b".tar.", &[c]].concat();
            let p = Path::new(text(&t));
            show!(p.file_stem(), p.extension(), p.parent().map(|x| x.join("q")), p.is_absolute(), p.components().count(), p.starts_with("/a"), PathBuf::from("x").with_extension(text(&[c])));
        }
        18 => {
            let r: Result<u8, Box<dyn std::error::Error>> = text(&[b, b]).parse::<u8>().map_err(|e| e.into());
            show!(r.as_ref().map_err(|e| e.to_string()));
            let o = r.ok().filter(|x| *x > 20).and_then(|x| x.checked_sub(30)).map_or_else(|| 1u8, |x| x ^ 1);
            show!(o, o.checked_div(c & 1), o.checked_rem(c & 3), (o as i8).checked_neg(), u8::try_from(o as u32 * 3).ok(), o.is_power_of_two(), o.next_power_of_two_(), (o as f32).sqrt() as u8, o.clamp(3, 60), std::cmp::max(o, c), o.cmp(&c) as i8);
            let cow: std::borrow::Cow<str> = if c == b'_' { "s".into() } else { format!("o{}", c).into() };
            show!(cow, cow.into_owned().into_bytes(), matches!(c, b'a'..=b'z'), std::mem::size_of_val(&o));
        }
        _ => {
            let l: LinkedList<u8> = [c, b].into_iter().collect();
            show!(l.iter().map(|x| *x as u32).sum::<u32>());
            let x = [[c, b], [b, c]];
            show!(x.concat(), x.iter().flatten().count(), x == [[b'a', b'1'], [b'1', b'a']], x[0].iter().rev().eq(x[1].iter()), x[0] < x[1], x.map(|y| y[0]), u32::from_str_radix(text(&[b, b]), 16).ok(), i32::from_str_radix(text(&[b, b]), 10).ok(), u16::from_be_bytes([c, b]), (c as u32).to_le_bytes(), text(&[c]).parse::<char>().ok(), "true".parse::<bool>().ok(), std::any::type_name::<u8>());
            let mut y = Some(c);
            show!(y.take(), y.replace(b), y.get_or_insert(3), y.insert(4), y.is_some_and(|z| z > 2), std::mem::take(&mut y), y.xor(Some(1)), y.zip(Some(2)), y.unwrap_or_default());
        }
    }
}
fn r#try(c: u8) -> Result<u8, std::num::TryFromIntError> {
    let x: u8 = (c as u32 * 2).try_into()?;
    Ok(x)
}
trait X {
    fn concat_(&self) -> usize;
}
impl X for [u8] {
    fn concat_(&self) -> usize {
        self.iter().map(|x| *x as usize).fold(1usize, |p, x| p.wrapping_mul(x))
    }
}
trait Y {
    fn next_power_of_two_(self) -> u32;
}
impl Y for u8 {
    fn next_power_of_two_(self) -> u32 {
        (self as u32).next_power_of_two()
    }
}
