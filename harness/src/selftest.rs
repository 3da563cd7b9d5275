//! Not a property: library features the engine has to execute, one group per value of p0
//! (development aid: `tools/dev.py 1 h_selftest:0 ...`).
use crate::sym::*;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::*;

thread_local! {
    static TL: RefCell<HashMap<u32, String>> = RefCell::new(HashMap::new());
    static TC: Cell<u32> = Cell::new(3);
}
static COUNT: AtomicUsize = AtomicUsize::new(0);
static LOCK: Mutex<Vec<u32>> = Mutex::new(vec![]);
static RW: RwLock<u32> = RwLock::new(1);
static ONCE: OnceLock<Vec<u32>> = OnceLock::new();
static LAZY: LazyLock<HashMap<u32, &'static str>> = LazyLock::new(|| {
    let mut m = HashMap::new();
    m.insert(1, "one");
    m.insert(2, "two");
    m
});
static INIT: Once = Once::new();

fn ok(c: bool) {
    check(1, 1, c)
}

#[no_mangle]
pub fn h_selftest() {
    let x = u32v();
    let y = below(10);
    match param(0) {
        0 => {
            TL.with(|t| t.borrow_mut().insert(x, "a".to_string()));
            TL.with(|t| ok(t.borrow().len() == 1 && t.borrow().contains_key(&x)));
            TC.with(|t| t.set(t.get() + 1));
            TC.with(|t| ok(t.get() == 4));
        }
        1 => {
            COUNT.fetch_add(2, Ordering::SeqCst);
            COUNT.fetch_or(8, Ordering::Relaxed);
            ok(COUNT.load(Ordering::Acquire) == 10);
            ok(COUNT.compare_exchange(10, 11, Ordering::SeqCst, Ordering::SeqCst).is_ok());
            ok(COUNT.swap(5, Ordering::SeqCst) == 11);
            ok(COUNT.fetch_max(9, Ordering::SeqCst) == 5);
            ok(COUNT.fetch_sub(1, Ordering::SeqCst) == 9);
            let f = AtomicBool::new(false);
            ok(!f.swap(true, Ordering::SeqCst) && f.load(Ordering::SeqCst));
        }
        2 => {
            LOCK.lock().unwrap().push(x);
            ok(LOCK.lock().unwrap()[0] == x);
            *RW.write().unwrap() += 1;
            ok(*RW.read().unwrap() == 2);
        }
        3 => {
            let v = ONCE.get_or_init(|| vec![1, 2, 3]);
            ok(v.len() == 3 && ONCE.get().is_some());
            INIT.call_once(|| {
                COUNT.fetch_add(1, Ordering::SeqCst);
            });
            INIT.call_once(|| {
                COUNT.fetch_add(1, Ordering::SeqCst);
            });
            ok(COUNT.load(Ordering::SeqCst) == 1);
            let c = OnceCell::new();
            ok(*c.get_or_init(|| 7) == 7);
        }
        4 => {
            ok(LAZY.get(&1) == Some(&"one") && LAZY.get(&5).is_none());
        }
        5 => {
            let a = Rc::new(RefCell::new(vec![x]));
            let b = a.clone();
            b.borrow_mut().push(y);
            ok(a.borrow().len() == 2 && Rc::strong_count(&a) == 2);
            let c = Arc::new(x);
            ok(*c.clone() == x);
            let w = Rc::downgrade(&a);
            ok(w.upgrade().is_some());
        }
        6 => {
            let mut m = BTreeMap::new();
            for i in 0..40u32 {
                m.insert(i * 7 % 41, i);
            }
            ok(m.len() == 40 && m.get(&7) == Some(&1));
            m.insert(y, 100);
            ok(m[&y] == 100);
            let mut s = BTreeSet::new();
            s.insert(y);
            ok(s.contains(&y));
            let mut h = HashSet::new();
            for i in 0..40u32 {
                h.insert(i);
            }
            ok(h.contains(&y) && h.len() == 40);
            let mut d = VecDeque::new();
            for i in 0..20 {
                d.push_back(i);
                if i % 3 == 0 {
                    d.pop_front();
                }
            }
            d.make_contiguous();
            ok(d.len() == 13);
            let mut b = BinaryHeap::new();
            for i in 0..10u32 {
                b.push(i * 7 % 10);
            }
            ok(b.pop() == Some(9));
            if let std::collections::btree_map::Entry::Occupied(mut e) = m.entry(y) {
                *e.get_mut() += 1;
            }
            ok(m[&y] == 101);
        }
        7 => {
            let mut v: Vec<u32> = (0..30).map(|i| i * 17 % 31).collect();
            v.sort();
            v.dedup();
            ok(v.windows(2).all(|w| w[0] < w[1]));
            v.sort_unstable_by(|a, b| b.cmp(a));
            ok(v.binary_search_by(|p| 30u32.cmp(p).reverse()).is_ok() || v.len() == 30);
            let mut s = vec![x, y];
            s.sort();
            ok(s[0] <= s[1]);
            v.retain(|a| a % 2 == 0);
            v.truncate(3);
            v.rotate_left(1);
            v.reverse();
            v.swap_remove(0);
            ok(v.len() == 2);
            let z: Vec<(u32, u32)> = v.iter().cloned().zip(s.iter().cloned()).collect();
            ok(z.len() == 2);
            let w: Vec<u32> = v.chunks(1).flat_map(|c| c.iter().cloned()).chain(Some(4)).rev().skip(1).step_by(1).collect();
            ok(w.len() == 2);
            let (p, q): (Vec<u32>, Vec<u32>) = w.iter().partition(|a| **a > 4);
            ok(p.len() + q.len() == 2);
            ok(w.iter().copied().fold(0u32, |a, b| a.wrapping_add(b)) == w.iter().sum::<u32>());
            let mut t = w.clone();
            t.extend_from_slice(&[1, 2, 3]);
            t.splice(1..2, [9, 9]);
            let dr: Vec<u32> = t.drain(1..3).collect();
            ok(dr == [9, 9]);
            ok(t.iter().max().is_some() && t.iter().position(|a| *a == 2).is_some());
            ok(t.split_first().is_some() && t.concat_check());
        }
        8 => {
            let s = format!("{:>8}|{:<5}|{:^7}|{:#x}|{:08b}|{:?}|{:e}", y, y, y, y, y, "q\"\n", 15u32);
            ok(s.len() > 30);
            let t = "a,b;c d\u{e9}\u{20ac}".to_string();
            ok(t.split(|c| c == ',' || c == ';').count() == 3);
            ok(t.chars().rev().count() == 9 && t.char_indices().last().is_some());
            ok(t.find("c d").is_some() && t.replace("b", "bb").len() == t.len() + 1);
            ok(t.to_uppercase().len() >= t.len() && t.trim().lines().count() == 1);
            ok(t.split_whitespace().count() == 2);
            ok("123".parse::<u32>().unwrap() == 123 && "x".parse::<u32>().is_err());
            ok(String::from_utf8_lossy(&[65, 66, 0xff]).len() == 5);
            let mut u = String::with_capacity(3);
            for c in t.chars().filter(|c| c.is_alphanumeric()) {
                u.push(c);
            }
            u.insert(0, 'z');
            u.insert_str(1, "yy");
            ok(u.pop().is_some() && u.starts_with("zyy") && u.ends_with(char::is_alphabetic));
            ok(["a", "b"].join("-") == "a-b" && "ab".repeat(3).len() == 6);
            ok(t.bytes().any(|b| b == b';') && t.as_bytes().iter().rposition(|b| *b == b'c').is_some());
            ok(std::char::from_u32(0x20ac).is_some() && std::char::from_digit(7, 10) == Some('7'));
            use std::fmt::Write;
            let mut w = String::new();
            write!(w, "{:width$}", 5, width = 4).unwrap();
            writeln!(w, "{:?}", Some(vec![(1, "a")])).unwrap();
            ok(w.len() > 5);
            ok(format!("{:#?}", Some(vec![1, 2])).len() > 8);
        }
        9 => {
            ok(x.checked_add(1).is_some() || x == u32::MAX);
            ok((x as u64 * y as u64) as u128 == x as u128 * y as u128);
            ok(x.rotate_left(8).rotate_right(8) == x && x.swap_bytes().swap_bytes() == x);
            ok(x.count_ones() + x.count_zeros() == 32);
            ok(x.leading_zeros() <= 32 && x.trailing_zeros() <= 32);
            ok(x / 7 * 7 + x % 7 == x);
            ok((x as i32).wrapping_abs() as u32 <= 0x8000_0000);
            ok(u32::from_be_bytes(x.to_be_bytes()) == x);
            ok(x.saturating_sub(1) <= x && x.overflowing_add(0).1 == false);
            ok(x.pow(1) == x && y.pow(2) <= 81);
            ok((y as f32) < 10.0 && (y as f64).sqrt() < 4.0);
            ok(u16::try_from(y).is_ok() && x.is_power_of_two() == (x.count_ones() == 1));
            ok(x.div_ceil(4) >= x / 4 && x.abs_diff(y) <= u32::MAX && x.isqrt() <= 65535);
        }
        10 => {
            let c = std::io::Cursor::new(vec![1u8, 2, 3, 4, 5]);
            use std::io::Read;
            let mut b = [0u8; 4];
            let mut c = c;
            ok(c.read_exact(&mut b).is_ok() && b == [1, 2, 3, 4]);
            let mut v = vec![];
            ok(c.read_to_end(&mut v).is_ok() && v == [5]);
            let mut r: &[u8] = &[1, 2];
            ok(r.read_exact(&mut b).is_err());
        }
        11 => {
            let f: Box<dyn Fn(u32) -> u32> = Box::new(move |a| a.wrapping_add(x));
            ok(f(1).wrapping_sub(1) == x);
            let p: fn(u32) -> u32 = if y > 4 { inc } else { dec };
            ok(p(5) == if y > 4 { 6 } else { 4 });
            let o: Option<u32> = Some(x).filter(|a| *a > 3).or(Some(9)).map(|a| a);
            ok(o.is_some());
            let s: Result<Vec<u32>, ()> = vec![Ok(1), Ok(2)].into_iter().collect();
            ok(s.is_ok());
            let b: Box<[u32]> = vec![1, 2, 3].into_boxed_slice();
            ok(b.len() == 3 && std::mem::size_of_val(&*b) == 12);
            let mut a = [0u32; 100];
            a[y as usize] = x;
            ok(a[y as usize] == x);
            let mut q = vec![1, 2, 3];
            let old = std::mem::replace(&mut q, vec![]);
            ok(old.len() == 3 && std::mem::take(&mut q).is_empty());
            let c: std::borrow::Cow<str> = "x".into();
            ok(c.into_owned() == "x");
        }
        12 => {
            let r = std::panic::catch_unwind(|| 5);
            ok(r.is_ok());
        }
        13 => {
            let (tx, rx) = mpsc::channel();
            tx.send(x).unwrap();
            ok(rx.recv() == Ok(x));
        }
        14 => {
            let h = std::thread::spawn(move || x);
            ok(h.join().unwrap() == x);
        }
        _ => {
            let mut m: HashMap<u32, Vec<u32>> = HashMap::new();
            for i in 0..50 {
                m.entry(i % 7).or_insert_with(Vec::new).push(i);
            }
            m.entry(y).or_default().push(1);
            ok(m.len() >= 7 && m.contains_key(&y) && m.values().map(|v| v.len()).sum::<usize>() == 51);
            ok(m.remove(&3).is_some() && m.get_mut(&2).is_some());
            m.retain(|k, _| k % 2 == 0);
            let mut k: Vec<_> = m.keys().cloned().collect();
            k.sort();
            ok(!k.is_empty());
            let m2: HashMap<String, u32> = vec![("a".to_string(), 1), ("bb".to_string(), 2)].into_iter().collect();
            ok(m2.get("bb") == Some(&2) && m2 == m2.clone());
        }
    }
    cover(1);
    obs(1);
}
fn inc(a: u32) -> u32 {
    a + 1
}
fn dec(a: u32) -> u32 {
    a - 1
}
trait Cc {
    fn concat_check(&self) -> bool;
}
impl Cc for Vec<u32> {
    fn concat_check(&self) -> bool {
        [&self[..], &self[..]].concat().len() == 2 * self.len()
    }
}
