// Small functions over the standard library, one per idiom: the engine's answer is compared with the compiled one.
#![allow(clippy::all, dead_code, unused)]
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::{self, Display, Write};

fn v() -> Vec<i64> { vec![3, 1, 2, 5, 4] }
fn w() -> Vec<String> { vec!["b".to_string(), "a".to_string(), "c d".to_string()] }
fn r(x: i64) -> Result<i64, String> { if x < 4 { Ok(x * 2) } else { Err(format!("bad {x}")) } }
fn o(x: i64) -> Option<i64> { if x < 4 { Some(x * 2) } else { None } }
fn d<T: fmt::Debug>(_x: T) {}
struct P(i64, String);
impl Display for P { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "<{}:{}>", self.0, self.1) } }
fn js<T: Display>(xs: impl IntoIterator<Item = T>) -> String { let mut s = String::new(); for x in xs { s.push_str(&x.to_string()); s.push(';'); } s }

macro_rules! probes { ($($n:ident => $e:expr;)*) => {
    $(pub fn $n() -> String { let r: String = { $e }; r })*
    pub const ALL: &[(&str, fn() -> String)] = &[$((stringify!($n), $n as fn() -> String)),*];
} }

probes! {
    p_map => js(v().iter().map(|x| x * 2));
    p_filter => js(v().into_iter().filter(|x| x % 2 == 1));
    p_filter_map => js(v().into_iter().filter_map(o));
    p_enumerate => js(v().iter().enumerate().map(|(i, x)| i as i64 * 10 + x));
    p_zip => js(v().iter().zip(w().iter()).map(|(a, b)| format!("{a}{b}")));
    p_chain => js(v().into_iter().chain(vec![9, 8]));
    p_once => js(std::iter::once(7i64).chain(v()));
    p_empty => js(std::iter::empty::<i64>().chain(v()));
    p_repeat_take => js(std::iter::repeat(1i64).take(3));
    p_repeat_n => js(std::iter::repeat_n(1i64, 3));
    p_repeat_with => { let mut k = 0i64; js(std::iter::repeat_with(|| { k += 1; k }).take(3)) };
    p_from_fn => { let mut k = 0i64; js(std::iter::from_fn(|| { k += 1; if k < 4 { Some(k) } else { None } })) };
    p_successors => js(std::iter::successors(Some(1i64), |x| if *x < 50 { Some(x * 3) } else { None }));
    p_rev => js(v().into_iter().rev());
    p_take => js(v().into_iter().take(2));
    p_skip => js(v().into_iter().skip(2));
    p_step_by => js(v().into_iter().step_by(2));
    p_range_step => js((0..10i64).step_by(3));
    p_range_rev => js((0..4i64).rev());
    p_range_incl => js(1..=4i64);
    p_take_while => js(v().into_iter().take_while(|x| *x < 5));
    p_skip_while => js(v().into_iter().skip_while(|x| *x != 2));
    p_map_while => js(v().into_iter().map_while(o));
    p_scan => js(v().into_iter().scan(0i64, |a, x| { *a += x; Some(*a) }));
    p_flat_map => js(v().into_iter().flat_map(|x| vec![x, x + 10]));
    p_flatten => js(vec![Some(1i64), None, Some(3)].into_iter().flatten());
    p_flatten_vec => js(vec![vec![1i64], vec![], vec![2, 3]].into_iter().flatten());
    p_inspect => { let mut n = 0i64; let s = js(v().iter().inspect(|x| n += **x)); format!("{s}{n}") };
    p_peekable => { let xs = v(); let mut it = xs.iter().peekable(); let mut s = String::new(); while let Some(x) = it.next() { s.push_str(&x.to_string()); if it.peek().is_some() { s.push_str(", "); } } s };
    p_next_if => { let mut it = v().into_iter().peekable(); let a = it.next_if(|x| *x == 3); let b = it.next_if(|x| *x == 3); format!("{}{}{}", a.is_some(), b.is_some(), js(it)) };
    p_cycle => js(vec![1i64, 2].into_iter().cycle().take(5));
    p_windows => js(v().windows(2).map(|p| p[0] - p[1]));
    p_chunks => js(v().chunks(2).map(|p| p.len() as i64 + p[0]));
    p_chunks_exact => js(v().chunks_exact(2).map(|p| p[0]));
    p_split_slice => js(v().split(|x| *x == 2).map(|p| p.len() as i64));
    p_fold => v().iter().fold(String::new(), |mut a, x| { if !a.is_empty() { a.push('+'); } a.push_str(&x.to_string()); a });
    p_try_fold => { let r: Result<i64, String> = v().into_iter().try_fold(0i64, |a, x| r(x).map(|y| a + y)); match r { Ok(x) => x.to_string(), Err(e) => e } };
    p_try_fold_opt => v().into_iter().try_fold(0i64, |a, x| if x == 5 { None } else { Some(a + x) }).is_none().to_string();
    p_try_for_each => { let mut s = String::new(); let r: Result<(), String> = v().iter().try_for_each(|x| { s.push_str(&x.to_string()); if *x == 2 { Err("two".to_string()) } else { Ok(()) } }); format!("{s}{}", r.unwrap_err()) };
    p_for_each => { let mut s = String::new(); v().iter().for_each(|x| s.push_str(&x.to_string())); s };
    p_reduce => v().into_iter().reduce(|a, b| a * 10 + b).unwrap().to_string();
    p_sum => v().iter().sum::<i64>().to_string();
    p_sum_usize => v().iter().map(|x| *x as usize).sum::<usize>().to_string();
    p_product => v().iter().product::<i64>().to_string();
    p_count => v().iter().filter(|x| **x > 2).count().to_string();
    p_last => v().iter().last().unwrap().to_string();
    p_nth => v().iter().nth(2).unwrap().to_string();
    p_min => v().iter().min().unwrap().to_string();
    p_max => v().iter().max().unwrap().to_string();
    p_max_by_key => w().iter().max_by_key(|s| s.len()).unwrap().to_string();
    p_min_by => v().into_iter().min_by(|a, b| b.cmp(a)).unwrap().to_string();
    p_any => v().iter().any(|x| *x == 5).to_string();
    p_all => v().iter().all(|x| *x > 0).to_string();
    p_find => v().iter().find(|x| **x > 3).unwrap().to_string();
    p_find_map => v().iter().find_map(|x| if *x > 3 { Some(x * 100) } else { None }).unwrap().to_string();
    p_position => v().iter().position(|x| *x == 2).unwrap().to_string();
    p_rposition => v().iter().rposition(|x| *x == 2).unwrap().to_string();
    p_partition => { let (a, b): (Vec<i64>, Vec<i64>) = v().into_iter().partition(|x| *x > 2); format!("{}|{}", js(a), js(b)) };
    p_unzip => { let (a, b): (Vec<i64>, Vec<String>) = v().into_iter().zip(w()).unzip(); format!("{}|{}", js(a), js(b)) };
    p_eq => (v().iter().copied().eq(vec![3, 1, 2, 5, 4]) && !v().iter().eq([1i64].iter())).to_string();
    p_eq_range => (0..3).collect::<Vec<i32>>().iter().copied().eq(0..3i32).to_string();
    p_ne_lt => format!("{}{}", v().iter().ne([1i64].iter()), v().iter().lt([9i64].iter()));
    p_cmp => (v().cmp(&vec![3, 1, 9]) == std::cmp::Ordering::Less).to_string();
    p_is_sorted => v().is_sorted().to_string();
    p_collect_result => { let r: Result<Vec<i64>, String> = v().into_iter().map(r).collect(); match r { Ok(v) => js(v), Err(e) => e } };
    p_collect_result_ok => { let r: Result<Vec<i64>, String> = v().into_iter().take(3).map(r).collect(); match r { Ok(v) => js(v), Err(e) => e } };
    p_collect_option => v().into_iter().map(o).collect::<Option<Vec<i64>>>().is_none().to_string();
    p_collect_string => w().iter().map(|s| s.as_str()).collect::<String>();
    p_collect_chars => "abc".chars().rev().collect::<String>();
    p_collect_vecstr => w().iter().map(String::as_str).collect::<Vec<_>>().join("-");
    p_collect_map => { let m: BTreeMap<i64, String> = v().into_iter().zip(w()).collect(); m.iter().map(|(k, v)| format!("{k}{v}")).collect::<Vec<_>>().join(",") };
    p_collect_hashmap => { let m: HashMap<String, usize> = w().into_iter().enumerate().map(|(i, s)| (s, i)).collect(); m["a"].to_string() };
    p_collect_set => { let m: BTreeSet<i64> = v().into_iter().collect(); js(m) };
    p_collect_deque => { let mut q: VecDeque<i64> = v().into_iter().collect(); q.push_front(0); q.pop_back(); js(q) };
    p_collect_box => { let b: Box<[i64]> = v().into_iter().collect(); js(b.iter()) };
    p_collect_cow => { let b: Cow<'static, str> = Cow::Borrowed("x"); format!("{}", b.into_owned()) };
    p_extend => { let mut a = v(); a.extend(vec![7, 8]); a.extend_from_slice(&[1]); a.extend([4i64].iter()); js(a) };
    p_extend_string => { let mut s = String::from("a"); s.extend(["b", "c"]); s.extend(vec!['d']); s };
    p_sort => { let mut a = v(); a.sort(); js(a) };
    p_sort_by => { let mut a = v(); a.sort_by(|x, y| y.cmp(x)); js(a) };
    p_sort_by_key => { let mut a = w(); a.sort_by_key(|s| s.clone()); js(a) };
    p_sort_unstable => { let mut a = v(); a.sort_unstable(); js(a) };
    p_sort_by_cached => { let mut a = w(); a.sort_by_cached_key(|s| s.len()); js(a) };
    p_dedup => { let mut a = vec![1i64, 1, 2, 2, 1]; a.dedup(); js(a) };
    p_dedup_by_key => { let mut a = vec![1i64, 11, 2, 12]; a.dedup_by_key(|x| *x % 10); js(a) };
    p_retain => { let mut a = v(); a.retain(|x| x % 2 == 1); js(a) };
    p_insert_remove => { let mut a = v(); a.insert(1, 9); let x = a.remove(0); a.swap(0, 1); format!("{}{x}", js(a)) };
    p_swap_remove => { let mut a = v(); let x = a.swap_remove(0); format!("{}{x}", js(a)) };
    p_truncate => { let mut a = v(); a.truncate(2); js(a) };
    p_drain => { let mut a = v(); let b: Vec<i64> = a.drain(1..3).collect(); format!("{}|{}", js(a), js(b)) };
    p_drain_all => { let mut a = v(); let b: Vec<i64> = a.drain(..).collect(); format!("{}|{}", js(a), js(b)) };
    p_split_off => { let mut a = v(); let b = a.split_off(2); format!("{}|{}", js(a), js(b)) };
    p_append => { let mut a = v(); let mut b = vec![9]; a.append(&mut b); format!("{}|{}", js(a), b.len()) };
    p_reverse => { let mut a = v(); a.reverse(); js(a) };
    p_pop_push => { let mut a = v(); let x = a.pop().unwrap(); a.push(x + 1); js(a) };
    p_resize => { let mut a = v(); a.resize(7, 0); js(a) };
    p_concat => vec![vec![1i64], vec![2]].concat().len().to_string();
    p_join => w().join(", ");
    p_concat_str => ["a", "b"].concat();
    p_contains => format!("{}{}", v().contains(&5), "abc".contains("bc"));
    p_starts_slice => format!("{}{}", v().starts_with(&[3]), v().ends_with(&[5]));
    p_first_last => format!("{}{}", v().first().unwrap(), v().last().unwrap());
    p_split_first => { let a = v(); match a.split_first() { Some((h, t)) => format!("{h}|{}", js(t)), None => String::new() } };
    p_split_last => { let a = v(); match a.split_last() { Some((h, t)) => format!("{h}|{}", js(t)), None => String::new() } };
    p_slice_pat => { let a = v(); match a.as_slice() { [x, .., y] => format!("{x}{y}"), _ => String::new() } };
    p_slice_pat2 => { let a = v(); match &a[..] { [x, y, rest @ ..] => format!("{x}{y}{}", rest.len()), _ => String::new() } };
    p_split_at => { let a = v(); let (x, y) = a.split_at(2); format!("{}|{}", js(x), js(y)) };
    p_slice_range => { let a = v(); format!("{}|{}|{}", js(&a[1..3]), js(&a[..2]), js(&a[3..])) };
    p_iter_mut => { let mut a = v(); for x in a.iter_mut() { *x += 1; } js(a) };
    p_iter_mut2 => { let mut a = v(); for (i, x) in a.iter_mut().enumerate() { *x += i as i64; } js(a) };
    p_index_mut => { let mut a = v(); a[2] = 7; a[0] += 1; js(a) };
    p_first_mut => { let mut a = v(); if let Some(x) = a.first_mut() { *x = 0; } if let Some(x) = a.last_mut() { *x = 9; } js(a) };
    p_get_mut => { let mut a = v(); if let Some(x) = a.get_mut(1) { *x = 0; } js(a) };
    p_binary_search => format!("{}{}", [1, 3, 5].binary_search(&3).is_ok(), [1, 3, 5].binary_search(&4).unwrap_err());
    p_to_vec => js([1i64, 2].to_vec());
    p_array_map => js([1i64, 2].map(|x| x + 1));
    p_array_iter => js([1i64, 2].iter().map(|x| x + 1));
    p_vec_repeat => js(vec![7i64; 3]);
    p_slice_repeat => js([1i64, 2].repeat(2));
    p_while_idx => { let a = v(); let mut i = 0; let mut s = String::new(); while i < a.len() { s.push_str(&a[i].to_string()); i += 1; } s };
    p_loop_pop => { let mut a = v(); let mut s = String::new(); while let Some(x) = a.pop() { s.push_str(&x.to_string()); } s };
    p_loop_label => { let mut s = String::new(); 'a: for x in v() { for y in v() { if y > x { continue 'a; } if x == 5 { break 'a; } s.push_str(&format!("{x}{y} ")); } } s };
    p_loop_break => { let mut i = 0i64; let x = loop { i += 1; if i * i > 50 { break i; } }; x.to_string() };
    p_opt_map_or => format!("{}{}", o(1).map_or(0, |x| x + 1), o(9).map_or(0, |x| x + 1));
    p_opt_map_or_else => o(9).map_or_else(|| "none".to_string(), |x| x.to_string());
    p_opt_and_then => o(1).and_then(o).unwrap_or(0).to_string();
    p_opt_or => format!("{}{}", o(9).or(Some(1)).unwrap(), o(9).or_else(|| o(1)).unwrap());
    p_opt_xor => o(9).xor(Some(1)).unwrap().to_string();
    p_opt_filter => o(1).filter(|x| *x > 5).is_none().to_string();
    p_opt_ok_or => o(9).ok_or("no").unwrap_err().to_string();
    p_opt_ok_or_else => o(9).ok_or_else(|| "no".to_string()).unwrap_err();
    p_opt_take => { let mut x = Some(4); let y = x.take(); format!("{}{}", x.is_none(), y.unwrap()) };
    p_opt_replace => { let mut x = Some(4); let y = x.replace(5); format!("{}{}", x.unwrap(), y.unwrap()) };
    p_opt_insert => { let mut x = None; *x.get_or_insert(4i64) += 1; x.get_or_insert_with(|| 9); format!("{}", x.unwrap()) };
    p_opt_is_some_and => format!("{}{}", o(1).is_some_and(|x| x == 2), o(9).is_none_or(|x| x == 2));
    p_opt_as_ref => { let x = Some("a".to_string()); format!("{}{}", x.as_ref().map(|s| s.len()).unwrap(), x.as_deref().unwrap_or("")) };
    p_opt_as_mut => { let mut x = Some(1i64); if let Some(y) = x.as_mut() { *y += 1; } x.unwrap().to_string() };
    p_opt_zip => { let z = o(1).zip(o(2)); match z { Some((a, b)) => format!("{a}{b}"), None => String::new() } };
    p_opt_unzip => { let (a, b) = Some((1i64, 2i64)).unzip(); format!("{}{}", a.unwrap(), b.unwrap()) };
    p_opt_flatten => Some(o(1)).flatten().unwrap().to_string();
    p_opt_transpose => { let x: Result<Option<i64>, String> = Some(r(9)).transpose(); x.unwrap_err() };
    p_opt_copied => { let a = 4i64; Some(&a).copied().unwrap().to_string() };
    p_opt_iter => js(o(1).iter().chain(o(2).iter()).copied());
    p_opt_into_iter => js(o(1).into_iter().chain(o(9)));
    p_opt_expect => o(1).expect("x").to_string();
    p_opt_default => o(9).unwrap_or_default().to_string();
    p_opt_question => { fn f(x: i64) -> Option<i64> { let y = o(x)?; Some(y + 1) } format!("{:?}", f(9).is_none()) };
    p_opt_letelse => { let Some(x) = o(1) else { return "no".to_string() }; x.to_string() };
    p_opt_cmp => (o(1) < o(2) && o(9) < o(1) && o(1) == Some(2)).to_string();
    p_opt_inspect => { let mut n = 0; o(1).inspect(|x| n += *x); n.to_string() };
    p_res_map => r(1).map(|x| x + 1).unwrap().to_string();
    p_res_map_err => r(9).map_err(|e| e.len()).unwrap_err().to_string();
    p_res_and_then => r(1).and_then(r).and_then(r).unwrap_err();
    p_res_or_else => r(9).or_else(|_| r(1)).unwrap().to_string();
    p_res_ok => r(9).ok().is_none().to_string();
    p_res_err => r(9).err().unwrap();
    p_res_unwrap_or => format!("{}{}{}", r(9).unwrap_or(0), r(9).unwrap_or_else(|e| e.len() as i64), r(9).unwrap_or_default());
    p_res_is => format!("{}{}", r(1).is_ok_and(|x| x == 2), r(9).is_err_and(|e| e.is_empty()));
    p_res_as_ref => { let x = r(1); x.as_ref().map(|v| *v).unwrap_or(&0 + 0).to_string() };
    p_res_map_or => format!("{}{}", r(1).map_or(0, |x| x), r(9).map_or_else(|e| e, |x| x.to_string()));
    p_res_transpose => Ok::<Option<i64>, String>(None).transpose().is_none().to_string();
    p_res_iter => js(r(1).into_iter().chain(r(9)));
    p_res_question => { fn f(x: i64) -> Result<i64, String> { let y = r(x)?; Ok(y + 1) } match f(9) { Ok(x) => x.to_string(), Err(e) => e } };
    p_res_question_into => { fn f(x: i64) -> Result<i64, Box<dyn std::error::Error>> { let y = r(x)?; Ok(y + 1) } match f(9) { Ok(x) => x.to_string(), Err(e) => e.to_string() } };
    p_res_copied => { let x: Result<&i64, String> = Ok(&4); x.copied().unwrap().to_string() };
    p_bool_then => format!("{}{}", true.then(|| 1).is_some(), false.then_some(2).is_none());
    p_str_split => js("a,b,,c".split(','));
    p_str_split_once => { let (a, b) = "a=b=c".split_once('=').unwrap(); format!("{a}|{b}") };
    p_str_rsplit_once => { let (a, b) = "a=b=c".rsplit_once("=").unwrap(); format!("{a}|{b}") };
    p_str_splitn => js("a,b,c".splitn(2, ','));
    p_str_rsplitn => js("a,b,c".rsplitn(2, ','));
    p_str_split_ws => js(" a  b ".split_whitespace());
    p_str_split_fn => js("a1b2".split(|c: char| c.is_ascii_digit()));
    p_str_split_arr => js("a1b,2".split(['1', ',']));
    p_str_split_incl => js("a\nb\n".split_inclusive('\n'));
    p_str_split_term => js("a;b;".split_terminator(';'));
    p_str_lines => js("a\r\nb\n\nc".lines());
    p_str_lines_enum => js("a\nb".lines().enumerate().map(|(i, l)| format!("{}{l}", i + 1)));
    p_str_trim => format!("{}|{}|{}", " a ".trim(), " a ".trim_start(), " a ".trim_end());
    p_str_trim_matches => format!("{}|{}|{}", "xxaxx".trim_matches('x'), "xxa".trim_start_matches("x"), "axx".trim_end_matches(|c| c == 'x'));
    p_str_strip => format!("{}|{}|{}", "u!a".strip_prefix("u!").unwrap(), "ab".strip_suffix('b').unwrap(), "ab".strip_prefix("x").is_none());
    p_str_starts => format!("{}{}{}", "abc".starts_with('a'), "abc".ends_with("bc"), "abc".starts_with(|c: char| c.is_numeric()));
    p_str_find => format!("{}{}{}", "abcb".find('b').unwrap(), "abcb".rfind('b').unwrap(), "abc".find("x").is_none());
    p_str_find_fn => "ab1".find(|c: char| c.is_ascii_digit()).unwrap().to_string();
    p_str_replace => format!("{}{}", "aXbX".replace('X', "--"), "aXbX".replacen("X", "", 1));
    p_str_chars => js("héy".chars().map(|c| c as u32));
    p_str_char_indices => js("héy".char_indices().map(|(i, c)| format!("{i}{c}")));
    p_str_bytes => js("ab".bytes().map(|b| b as i64));
    p_str_as_bytes => format!("{}", "ab".as_bytes()[1]);
    p_str_len => format!("{}{}", "héy".len(), "héy".chars().count());
    p_str_slice => format!("{}|{}|{}", &"abcd"[1..3], &"abcd"[..2], &"abcd"[2..]);
    p_str_get => format!("{}{}", "abcd".get(1..2).unwrap(), "abcd".get(9..).is_none());
    p_str_repeat => "ab".repeat(3);
    p_str_upper => format!("{}{}{}", "aB".to_uppercase(), "aB".to_lowercase(), "aB".to_ascii_uppercase());
    p_str_eq_ci => "aB".eq_ignore_ascii_case("Ab").to_string();
    p_str_parse => format!("{}{}{}", "12".parse::<i64>().unwrap(), "x".parse::<i32>().is_err(), "true".parse::<bool>().unwrap());
    p_str_parse_u8 => "300".parse::<u8>().is_err().to_string();
    p_str_parse_f => "1.5".parse::<f64>().unwrap().to_string();
    p_str_chars_rev => js("abc".chars().rev());
    p_str_chars_all => "abc".chars().all(|c| c.is_alphanumeric() || c == '_').to_string();
    p_str_chars_next => { let mut c = "abc".chars(); let f = c.next().unwrap(); format!("{f}|{}", c.as_str()) };
    p_str_chars_peek => { let mut c = "a\\nb".chars().peekable(); let mut s = String::new(); while let Some(x) = c.next() { if x == '\\' { match c.next() { Some('n') => s.push('\n'), Some(y) => s.push(y), None => {} } } else { s.push(x) } } s };
    p_str_matches => "abab".matches("ab").count().to_string();
    p_str_match_indices => js("abab".match_indices("b").map(|(i, _)| i as i64));
    p_str_cmp => ("a" < "b" && "a".to_string() < "b".to_string() && "b".cmp("a").is_gt()).to_string();
    p_str_is_empty => format!("{}{}", "".is_empty(), String::from("a").is_empty());
    p_str_escape => "a\"b\n".escape_default().to_string();
    p_str_escape_debug => "a'b\n\u{7}".escape_debug().to_string();
    p_str_rsplit => js("a.b.c".rsplit('.'));
    p_str_bytes_pos => "abc".bytes().position(|b| b == b'c').unwrap().to_string();
    p_string_push => { let mut s = String::with_capacity(4); s.push('a'); s.push_str("b"); s += "c"; s.insert(0, 'z'); s.insert_str(1, "yy"); s };
    p_string_pop => { let mut s = String::from("abc"); s.pop(); s.remove(0); s };
    p_string_truncate => { let mut s = String::from("abc"); s.truncate(1); let mut t = String::from("q"); t.clear(); s + &t };
    p_string_retain => { let mut s = String::from("a-b"); s.retain(|c| c != '-'); s };
    p_string_drain => { let mut s = String::from("abcd"); let t: String = s.drain(..2).collect(); format!("{s}{t}") };
    p_string_from => format!("{}{}{}", String::from('c'), String::from("x"), "y".to_owned());
    p_string_add => "a".to_string() + "b" + &"c".to_string();
    p_string_from_utf8 => String::from_utf8(vec![97, 98]).unwrap();
    p_string_lossy => String::from_utf8_lossy(&[97, 98]).into_owned();
    p_string_into => { let s: String = "a".into(); let b: Box<str> = s.into(); b.to_string() };
    p_string_chars_take => "abcdef".chars().take(3).chain("…".chars()).collect::<String>();
    p_string_replace_range => { let mut s = String::from("abcd"); s.replace_range(1..2, "XX"); s };
    p_string_write => { let mut s = String::new(); write!(s, "{}-{}", 1, "a").unwrap(); writeln!(&mut s, "x").unwrap(); s.write_char('c').unwrap(); s.write_str("d").unwrap(); s };
    p_char_is => format!("{}{}{}{}", 'a'.is_alphabetic(), '1'.is_ascii_digit(), ' '.is_whitespace(), 'A'.is_uppercase());
    p_char_is2 => format!("{}{}{}", 'a'.is_ascii_alphanumeric(), '_'.is_ascii_punctuation(), '\n'.is_control());
    p_char_digit => format!("{}{}", '7'.to_digit(10).unwrap(), std::char::from_digit(7, 10).unwrap());
    p_char_up => format!("{}{}", 'a'.to_ascii_uppercase(), 'b'.to_uppercase());
    p_char_u32 => format!("{}{}", char::from_u32(65).unwrap(), char::from(66u8));
    p_char_len => 'é'.len_utf8().to_string();
    p_char_matches => matches!('x', 'a'..='z' | '_').to_string();
    p_char_ascii => format!("{}{}", 'a'.is_ascii_lowercase(), 'é'.is_ascii());
    p_fmt_pad => format!("{:>4}|{:<4}|{:^4}|{:04}", "a", "b", "c", 7);
    p_fmt_dyn_pad => format!("{:1$}|{:>w$}", "a", 3, w = 3);
    p_fmt_prec => format!("{:.2}|{:.*}", 1.2345, 1, 2.55f64);
    p_fmt_hex => format!("{:x}{:02X}{:#x}{:b}", 255, 10, 16, 5);
    p_fmt_named => { let a = 1; format!("{a}{b}{0}", 2, b = 3) };
    p_fmt_plus => format!("{:+}", 5);
    p_fmt_debug_str => format!("{:?}", "a\"b");
    p_fmt_display => format!("{} {:>8}|", P(1, "x".into()), "z");
    p_fmt_to_string => P(2, "y".into()).to_string();
    p_fmt_args => { fn f(a: fmt::Arguments<'_>) -> String { a.to_string() } f(format_args!("{}-{}", 1, 2)) };
    p_fmt_dyn => { let d: Box<dyn Display> = Box::new(5); d.to_string() };
    p_fmt_from_fn => { struct F<'a>(&'a [i64]); impl Display for F<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for (i, x) in self.0.iter().enumerate() { if i > 0 { f.write_str(", ")?; } write!(f, "{x}")?; } Ok(()) } } F(&v()).to_string() };
    p_fmt_braces => format!("{{{}}}", 1);
    p_fmt_u => format!("{}{}{}", u8::MAX, i64::MIN, usize::MAX);
    p_fmt_float => format!("{}|{}|{:?}|{}", 1.0f64, 0.1f32, 1.0f64, 1e21f64);
    p_fmt_opt => format!("{}", o(1).map(|x| format!("<{x}>")).unwrap_or_default());
    p_map_ops => { let mut m = HashMap::new(); m.insert("a", 1); *m.entry("a").or_insert(0) += 1; m.entry("b").or_insert_with(|| 7); format!("{}{}{}", m["a"], m["b"], m.contains_key("c")) };
    p_map_get => { let mut m: HashMap<String, i64> = HashMap::new(); m.insert("a".into(), 1); if let Some(x) = m.get_mut("a") { *x = 5; } let rem = m.remove("a").unwrap(); format!("{}{}", m.get("b").is_none(), rem) };
    p_map_entry_match => { use std::collections::hash_map::Entry; let mut m: HashMap<i64, i64> = HashMap::new(); for x in [1, 2, 1] { match m.entry(x) { Entry::Occupied(mut e) => { *e.get_mut() += 1; } Entry::Vacant(e) => { e.insert(1); } } } format!("{}{}", m[&1], m[&2]) };
    p_map_entry_or_default => { let mut m: BTreeMap<i64, Vec<i64>> = BTreeMap::new(); for x in v() { m.entry(x % 2).or_default().push(x); } m.values().map(|x| js(x)).collect::<Vec<_>>().join("|") };
    p_map_and_modify => { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in [1, 2, 1] { m.entry(x).and_modify(|c| *c += 1).or_insert(1); } format!("{}{}", m[&1], m[&2]) };
    p_btree_iter => { let m: BTreeMap<i64, i64> = v().into_iter().map(|x| (x, x * x)).collect(); format!("{}|{}|{}", js(m.keys()), js(m.values()), m.iter().map(|(a, b)| a * b).sum::<i64>()) };
    p_btree_range => { let m: BTreeMap<i64, i64> = v().into_iter().map(|x| (x, x * x)).collect(); js(m.range(2..4).map(|(k, _)| *k)) };
    p_btree_first => { let m: BTreeMap<i64, i64> = v().into_iter().map(|x| (x, x * x)).collect(); format!("{}{}", m.first_key_value().unwrap().0, m.last_key_value().unwrap().1) };
    p_btree_into => { let m: BTreeMap<i64, i64> = v().into_iter().map(|x| (x, x * x)).collect(); js(m.into_values()) };
    p_btree_retain => { let mut m: BTreeMap<i64, i64> = v().into_iter().map(|x| (x, x * x)).collect(); m.retain(|k, _| k % 2 == 1); js(m.into_keys()) };
    p_set_ops => { let mut s = HashSet::new(); format!("{}{}{}{}", s.insert(1), s.insert(1), s.contains(&1), s.len()) };
    p_set_diff => { let a: BTreeSet<i64> = [1, 2, 3].into(); let b: BTreeSet<i64> = [2].into(); format!("{}|{}|{}", js(a.difference(&b)), js(a.intersection(&b)), js(a.union(&b))) };
    p_set_sub => { let a: BTreeSet<i64> = [1, 2, 3].into(); let b: BTreeSet<i64> = [2].into(); format!("{}{}", b.is_subset(&a), a.is_disjoint(&b)) };
    p_deque => { let mut q = VecDeque::new(); q.push_back(1i64); q.push_back(2); q.push_front(0); let x = q.pop_front().unwrap(); format!("{x}{}{}", q.len(), js(q.iter())) };
    p_mem_swap => { let mut a = 1; let mut b = 2; std::mem::swap(&mut a, &mut b); let c = std::mem::replace(&mut a, 5); format!("{a}{b}{c}") };
    p_mem_take => { let mut a = v(); let b = std::mem::take(&mut a); format!("{}{}", a.len(), b.len()) };
    p_int_checked => format!("{}{}{}", 250u8.checked_add(10).is_none(), 5i64.checked_mul(3).unwrap(), 5u8.checked_sub(6).is_none());
    p_int_sat => format!("{}{}{}", 250u8.saturating_add(10), 5u8.saturating_sub(6), i64::MAX.saturating_add(1));
    p_int_wrap => format!("{}{}", 250u8.wrapping_add(10), i32::MAX.wrapping_add(1));
    p_int_overflow => { let (a, b) = 250u8.overflowing_add(10); format!("{a}{b}") };
    p_int_try => format!("{}{}{}", u8::try_from(300i64).is_err(), i32::try_from(5usize).unwrap(), usize::try_from(-1i64).is_err());
    p_int_try_into => { let x: Result<i32, _> = 5_000_000_000i64.try_into(); x.is_err().to_string() };
    p_int_from => format!("{}{}", i64::from(5i32), u32::from('a'));
    p_int_as => format!("{}{}{}", -1i64 as u8, 300i64 as u8 as i64, 3.7f64 as i32);
    p_int_pow => format!("{}{}", 2i64.pow(10), 10u64.checked_pow(30).is_none());
    p_int_abs => format!("{}{}{}", (-5i64).abs(), (-5i64).unsigned_abs(), (-5i64).signum());
    p_int_minmax => format!("{}{}{}", 3.min(4), 3.max(4), 9.clamp(1, 5));
    p_int_div => format!("{}{}{}{}", -7 / 2, -7 % 2, (-7i64).div_euclid(2), (-7i64).rem_euclid(2));
    p_int_absdiff => 3u32.abs_diff(7).to_string();
    p_int_neg => (5i64.checked_neg().unwrap() + -(3i64)).to_string();
    p_int_bits => format!("{}{}{}", 6 & 3, 6 | 1, 1 << 4);
    p_int_cmp => format!("{}{}", 3.cmp(&4).is_lt(), 3.cmp(&4).then(4.cmp(&3)).reverse().is_gt());
    p_cmp_fn => format!("{}{}", std::cmp::min(1, 2), std::cmp::max("a", "b"));
    p_range_contains => format!("{}{}", (1..4).contains(&3), (1..=4).contains(&5));
    p_range_map => (0..3).map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    p_float => format!("{}{}{}", 1.5f64.trunc(), 1.5f64.fract(), f64::NAN.is_nan());
    p_float2 => format!("{}{}", f64::INFINITY.is_finite(), 2.0f64.powi(3));
    p_cow => { let f = |x: &'static str| -> Cow<'static, str> { if x.is_empty() { Cow::Owned("e".to_string()) } else { Cow::Borrowed(x) } }; format!("{}{}{}", f(""), f("a"), f("ab").len()) };
    p_cow_mut => { let mut c: Cow<'_, str> = Cow::Borrowed("a"); c.to_mut().push('b'); c.into_owned() };
    p_box => { let b = Box::new(5i64); (*b + 1).to_string() };
    p_box_dyn_fn => { let f: Box<dyn Fn(i64) -> i64> = Box::new(|x| x + 1); f(1).to_string() };
    p_rc => { let a = std::rc::Rc::new(5i64); let b = a.clone(); (*a + *b).to_string() };
    p_arc => { let a = std::sync::Arc::new(w()); a.len().to_string() };
    p_refcell => { let c = std::cell::RefCell::new(vec![1i64]); c.borrow_mut().push(2); js(c.borrow().iter()) };
    p_cell => { let c = std::cell::Cell::new(1i64); c.set(c.get() + 1); c.get().to_string() };
    p_closure_mut => { let mut n = 0; let mut f = || { n += 1; n }; f(); f(); n.to_string() };
    p_closure_move => { let mut n = 0; let mut f = move || { n += 1; n }; f(); (f() + n).to_string() };
    p_fn_ptr => { let f: fn(i64) -> Option<i64> = o; f(1).unwrap().to_string() };
    p_impl_trait => { fn f() -> impl Iterator<Item = i64> { v().into_iter().map(|x| x + 1) } js(f()) };
    p_dyn_iter => { let b: Box<dyn Iterator<Item = i64>> = if v().len() > 2 { Box::new(v().into_iter()) } else { Box::new(std::iter::empty()) }; js(b) };
    p_custom_iter => { struct C(i64); impl Iterator for C { type Item = i64; fn next(&mut self) -> Option<i64> { self.0 += 1; if self.0 < 5 { Some(self.0) } else { None } } } js(C(0).filter(|x| x % 2 == 0).map(|x| x * 7)) };
    p_custom_fold => { struct C(i64); impl Iterator for C { type Item = i64; fn next(&mut self) -> Option<i64> { self.0 += 1; if self.0 < 5 { Some(self.0) } else { None } } } C(0).fold(0, |a, x| a * 10 + x).to_string() };
    p_tuple_cmp => ((1, "b") > (1, "a")).to_string();
    p_tuple_swap => { let (mut a, mut b) = (1, 2); (a, b) = (b, a); format!("{a}{b}") };
    p_struct_update => { #[derive(Clone, Default)] struct S { a: i64, b: i64, c: String } let s = S { a: 1, ..Default::default() }; let t = S { b: 2, ..s.clone() }; format!("{}{}{}", t.a, t.b, t.c) };
    p_derive_eq => { #[derive(PartialEq, Eq, Clone, PartialOrd, Ord, Hash)] enum E { A, B(i64), C { x: String } } let a = E::C { x: "q".into() }; format!("{}{}{}", a == a.clone(), E::A < E::B(1), E::B(1) != E::B(2)) };
    p_match_guard => { let f = |x: i64| match x { n if n < 0 => "neg", 0 => "zero", 1..=9 => "digit", _ => "big" }; format!("{}{}{}{}", f(-1), f(0), f(5), f(50)) };
    p_match_bind => { let x = Some(5); match x { Some(n @ 1..=9) => n.to_string(), Some(_) | None => "x".into() } };
    p_match_str => { let f = |s: &str| match s { "a" | "b" => 1, x if x.starts_with("c") => 2, _ => 3 }; format!("{}{}{}", f("b"), f("cc"), f("d")) };
    p_match_tuple => { let f = |a: Option<i64>, b: Result<i64, String>| match (a, b) { (Some(x), Ok(y)) => x + y, (None, Err(e)) => e.len() as i64, (_, _) => -1 }; format!("{}{}{}", f(o(1), r(1)), f(o(9), r(9)), f(o(1), r(9))) };
    p_if_let_chain => { let a = o(1); let b = o(2); if let (Some(x), Some(y)) = (a, b) { (x + y).to_string() } else { "n".into() } };
    p_let_chain => { let a = o(1); if let Some(x) = a && x > 1 && let Some(y) = o(x) { y.to_string() } else { "n".into() } };
    p_const_arr => { const T: [(&str, i64); 3] = [("a", 1), ("b", 2), ("c", 3)]; T.iter().find(|(k, _)| *k == "b").map(|(_, v)| *v).unwrap().to_string() };
    p_const_slice => { const T: &[(&str, i64)] = &[("a", 1), ("b", 2)]; T.iter().map(|(k, v)| format!("{k}{v}")).collect::<Vec<_>>().concat() };
    p_static => { static T: &[&str] = &["x", "y"]; T.contains(&"y").to_string() };
    p_lazy => { static L: std::sync::LazyLock<Vec<i64>> = std::sync::LazyLock::new(|| vec![1, 2]); L.len().to_string() };
    p_once_lock => { static L: std::sync::OnceLock<i64> = std::sync::OnceLock::new(); L.get_or_init(|| 4).to_string() };
    p_generic => { fn f<T: Default + PartialEq>(x: T) -> bool { x == T::default() } format!("{}{}", f(0), f("a".to_string())) };
    p_trait_default => { trait T { fn a(&self) -> i64; fn b(&self) -> i64 { self.a() + 1 } } impl T for i64 { fn a(&self) -> i64 { *self } } let d: &dyn T = &4i64; d.b().to_string() };
    p_iter_sum_opt => v().into_iter().map(o).sum::<Option<i64>>().is_none().to_string();
    p_iter_sum_res => v().into_iter().take(3).map(r).sum::<Result<i64, String>>().unwrap().to_string();
    p_iter_max_by => v().into_iter().max_by(|a, b| a.cmp(b)).unwrap().to_string();
    p_iter_min_by_key => w().into_iter().min_by_key(|s| s.len()).unwrap();
    p_iter_rev_enum => js(v().iter().enumerate().rev().map(|(i, x)| format!("{i}{x}")));
    p_iter_rfind => v().into_iter().rev().find(|x| *x < 4).unwrap().to_string();
    p_iter_next_back => { let mut i = v().into_iter(); let a = i.next_back().unwrap(); format!("{a}{}", js(i)) };
    p_iter_as_slice => { let a = v(); let mut i = a.iter(); i.next(); js(i.as_slice()) };
    p_iter_size_hint => v().iter().size_hint().0.to_string();
    p_iter_len => v().iter().len().to_string();
    p_iter_by_ref => { let mut i = v().into_iter(); let a: Vec<i64> = i.by_ref().take(2).collect(); format!("{}|{}", js(a), js(i)) };
    p_iter_cloned => js(w().iter().cloned());
    p_iter_zip3 => { let a = v(); let b = v(); js(a.iter().zip(&b).zip(1i64..).map(|((x, y), z)| x * y + z)) };
    p_std_zip => js(std::iter::zip(v(), v()).map(|(a, b)| a + b));
    p_array_from_fn => js(std::array::from_fn::<i64, 3, _>(|i| i as i64 * 2));
    p_chunk_by => v().chunk_by(|a, b| a > b).count().to_string();
    p_array_try => { let a: [i64; 2] = vec![1i64, 2].try_into().unwrap(); js(a) };
    p_slice_try => { let a: &[i64; 2] = v()[..2].try_into().map(|x: &[i64; 2]| Box::leak(Box::new(*x)) as &[i64; 2]).unwrap(); js(a) };
    p_iter_partition_in => { let mut it = v().into_iter(); let mut a = vec![]; while let Some(x) = it.next() { if x > 2 { a.push(x); } } js(a) };
    p_array_contains => ["a", "b"].contains(&"b").to_string();
    p_sort_floats => { let mut a = vec![2.5f64, 1.5]; a.sort_by(|x, y| x.partial_cmp(y).unwrap()); js(a) };
    p_iter_unzip_res => { let (a, b): (Vec<_>, Vec<_>) = v().into_iter().map(r).partition(|x| x.is_ok()); format!("{}{}", a.len(), b.len()) };
    p_vec_eq => (v() == [3, 1, 2, 5, 4] && w() != vec!["a"]).to_string();
    p_string_eq => ("a".to_string() == "a" && "a" == "a".to_string() && *"a" == "a".to_string()).to_string();
    p_into_boxed => { let b: Box<[i64]> = v().into_boxed_slice(); b.len().to_string() };
    p_vec_from => js(Vec::from([1i64, 2]));
    p_vec_from_iter => js(Vec::from_iter(1i64..3));
    p_string_from_iter => String::from_iter(['a', 'b']);
    p_hash_from => HashMap::from([("a", 1)])["a"].to_string();
    p_iter_intersperse => { let mut s = String::new(); let mut first = true; for x in w() { if !std::mem::replace(&mut first, false) { s.push_str(", "); } s.push_str(&x); } s };
    p_sep => { let mut sep = ""; let mut s = String::new(); for x in w() { s.push_str(sep); s.push_str(&x); sep = ", "; } s };
    p_wrapping_iter => { let a = v(); let mut s = String::new(); if let Some((last, rest)) = a.split_last() { for x in rest { write!(s, "{x}, ").unwrap(); } write!(s, "{last}").unwrap(); } s };
    p_vec_get_or => v().get(9).copied().unwrap_or(-1).to_string();
    p_iter_copied_max => v().iter().copied().max().unwrap_or(0).to_string();
    p_str_char_next_back => { let mut c = "abc".chars(); c.next_back(); c.as_str().to_string() };
    p_str_split_ascii_ws => js(" a b ".split_ascii_whitespace());
    p_str_trim_ascii => " a ".trim_ascii().to_string();
    p_str_chars_last => "abc".chars().last().unwrap().to_string();
    p_str_chars_nth => "abc".chars().nth(1).unwrap().to_string();
    p_str_rfind_fn => "a1b".rfind(|c: char| c.is_alphabetic()).unwrap().to_string();
    p_str_is_ascii => "abc".is_ascii().to_string();
    p_str_from_utf8 => std::str::from_utf8(&[97, 98]).unwrap().to_string();
    p_str_bytes_all => "a1".bytes().all(|b| b.is_ascii_alphanumeric()).to_string();
    p_str_chars_any => "ab c".chars().any(char::is_whitespace).to_string();
    p_str_fn_path => w().iter().map(String::len).sum::<usize>().to_string();
    p_str_to_string_path => js(["a", "b"].iter().map(ToString::to_string));
    p_opt_map_ctor => v().into_iter().map(Some).flatten().count().to_string();
    p_from_into_path => js(["a"].into_iter().map(String::from));
}
