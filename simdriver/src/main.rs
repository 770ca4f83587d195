//! Runs scripts of tag tree operations on several threads and prints the history.
//!
//! The script file is the only argument:
//!
//! tree DIR[,DIR...] [COW]      the tags folders
//! kind plain|instant|manual|atomic|atomic-instant|atomic-manual
//! thread                       begins a new thread's operations
//! OP ARGS...                   one operation (before the first `thread`: run before they start; after `end`: run once they are done)
//! end

use ringhopper::definitions::Wind;
use ringhopper::primitives::dynamic::DynamicTagData;
use ringhopper::primitives::primitive::TagPath;
use ringhopper::primitives::tag::PrimaryTagStructDyn;
use ringhopper::tag::tree::{iterate_through_all_tags, AtomicTagTree, CachingTagTree, CachingTagTreeWriteStrategy, TagFilter, TagTree, VirtualTagsDirectory};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, RwLock, Weak};

type Tag = Box<dyn PrimaryTagStructDyn>;
type Shared = Arc<Mutex<Tag>>;

static CLOCK: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 { CLOCK.fetch_add(1, Ordering::SeqCst) }

fn path(s: &str) -> TagPath { TagPath::from_path(s).expect("bad path in script") }

fn value_of(tag: &dyn PrimaryTagStructDyn) -> String {
    match tag.as_any().downcast_ref::<Wind>() {
        Some(w) => {
            let v = [w.velocity.lower, w.velocity.upper, w.local_variation_weight, w.local_variation_rate, w.damping];
            if v.iter().all(|x| *x == v[0]) { format!("{}", v[0]) } else { format!("TORN {v:?}") }
        }
        None => format!("other:{}", tag.group())
    }
}

fn set_value(tag: &mut dyn PrimaryTagStructDyn, v: f64) {
    let w = tag.as_any_mut().downcast_mut::<Wind>().expect("only wind tags are edited");
    w.velocity.lower = v;
    pause();
    w.velocity.upper = v;
    w.local_variation_weight = v;
    pause();
    w.local_variation_rate = v;
    w.damping = v;
}

#[inline(never)]
fn pause() { std::hint::black_box(now as fn() -> u64); }

fn new_tag(v: f64) -> Tag {
    let mut w: Tag = Box::new(Wind::default());
    set_value(w.as_mut(), v);
    w
}

fn err(e: impl std::fmt::Display) -> String { format!("ERR {}", e.to_string().replace('\n', " ")) }

/// Tells shared tags apart. Weak references keep addresses from being used again.
static SEEN: Mutex<Vec<Weak<Mutex<Tag>>>> = Mutex::new(Vec::new());
fn identity(s: &Shared) -> usize {
    let mut seen = SEEN.lock().unwrap();
    let p = Arc::as_ptr(s);
    match seen.iter().position(|w| w.as_ptr() == p) {
        Some(n) => n,
        None => { seen.push(Arc::downgrade(s)); seen.len() - 1 }
    }
}

static HELD: Mutex<Vec<(String, Shared)>> = Mutex::new(Vec::new());

/// What every kind of tree offers here
trait Subject: Send + Sync {
    fn op(&self, op: &str, a: &[&str]) -> String;
}

fn list(mut v: Vec<TagPath>) -> String {
    // order is not promised, number is
    v.sort();
    v.iter().map(|p| p.to_internal_path()).collect::<Vec<_>>().join(" ")
}

fn filter(a: &[&str]) -> TagFilter { TagFilter::new(a[0], None) }

fn open_ops<T: TagTree>(tree: &T, op: &str, a: &[&str]) -> Option<String> {
    Some(match op {
        "copy" => match tree.open_tag_copy(&path(a[0])) { Ok(t) => value_of(t.as_ref()), Err(e) => err(e) },
        "shared" => match tree.open_tag_shared(&path(a[0])) {
            Ok(t) => { let id = identity(&t); let v = value_of(t.lock().unwrap().as_ref()); format!("{v} #{id}") },
            Err(e) => err(e)
        },
        // replaces the value; answers with the one before
        "edit" => match tree.open_tag_shared(&path(a[0])) {
            Ok(t) => {
                let id = identity(&t);
                let mut g = t.lock().unwrap();
                let before = value_of(g.as_ref());
                set_value(g.as_mut(), a[1].parse().unwrap());
                format!("{before} #{id}")
            },
            Err(e) => err(e)
        },
        "incr" => match tree.open_tag_shared(&path(a[0])) {
            Ok(t) => {
                let id = identity(&t);
                let mut g = t.lock().unwrap();
                let before = value_of(g.as_ref());
                if let Ok(n) = before.parse::<f64>() { set_value(g.as_mut(), n + 1.0) }
                format!("{before} #{id}")
            },
            Err(e) => err(e)
        },
        // like shared, but goes on holding the tag
        "hold" => match tree.open_tag_shared(&path(a[0])) {
            Ok(t) => { let id = identity(&t); let v = value_of(t.lock().unwrap().as_ref()); HELD.lock().unwrap().push((a[0].to_owned(), t)); format!("{v} #{id}") },
            Err(e) => err(e)
        },
        "contains" => tree.contains(&path(a[0])).to_string(),
        "readonly" => tree.is_read_only().to_string(),
        "list" => list(tree.get_all_tags_with_filter(Some(&filter(a)))),
        "listall" => list(tree.get_all_tags_with_filter(None)),
        _ => return None
    })
}

fn write_op<T: TagTree>(tree: &mut T, a: &[&str]) -> String {
    let t = new_tag(a[1].parse().unwrap());
    match tree.write_tag(&path(a[0]), t.as_ref()) { Ok(n) => n.to_string(), Err(e) => err(e) }
}

struct Plain(RwLock<VirtualTagsDirectory>);
impl Subject for Plain {
    fn op(&self, op: &str, a: &[&str]) -> String {
        match op {
            "write" => write_op(&mut *self.0.write().unwrap(), a),
            "writeto" => {
                let t = new_tag(a[1].parse().unwrap());
                match self.0.write().unwrap().write_tag_to_directory(&path(a[0]), t.as_ref(), a[2].parse().unwrap()) { Ok(n) => n.to_string(), Err(e) => err(e) }
            },
            "where" => match self.0.read().unwrap().path_for_tag(&path(a[0])) { Some((n, p)) => format!("{n} {}", p.display()), None => "none".to_owned() },
            "walk" => {
                let t = self.0.read().unwrap();
                let f = filter(a);
                let v: Vec<TagPath> = iterate_through_all_tags(&*t, Some(&f)).collect();
                list(v)
            },
            _ => open_ops(&*self.0.read().unwrap(), op, a).unwrap_or_else(|| panic!("unknown operation {op}"))
        }
    }
}

struct Caching(RwLock<CachingTagTree<VirtualTagsDirectory>>);
impl Subject for Caching {
    fn op(&self, op: &str, a: &[&str]) -> String {
        match op {
            "write" => write_op(&mut *self.0.write().unwrap(), a),
            "commit" => match self.0.write().unwrap().commit(&path(a[0])) { Ok(n) => n.to_string(), Err(e) => err(e) },
            "commitall" => {
                let mut e = self.0.write().unwrap().commit_all();
                e.sort_by(|a, b| a.0.cmp(&b.0));
                e.iter().map(|(p, e)| format!("[{} {}]", p.to_internal_path(), err(e))).collect::<Vec<_>>().join(" ")
            },
            "evict" => match self.0.write().unwrap().evict(&path(a[0])) { Some(t) => value_of(t.as_ref()), None => "none".to_owned() },
            "get" => match self.0.write().unwrap().get(&path(a[0])) {
                Some(t) => { let id = identity(&t); let v = value_of(t.lock().unwrap().as_ref()); format!("{v} #{id}") },
                None => "none".to_owned()
            },
            _ => open_ops(&*self.0.read().unwrap(), op, a).unwrap_or_else(|| panic!("unknown operation {op}"))
        }
    }
}

/// AtomicTagTree is used the way it is meant to be: every thread has a clone of its own.
struct Atomic<T: TagTree + Send>(Mutex<AtomicTagTree<T>>);
impl<T: TagTree + Send> Subject for Atomic<T> {
    fn op(&self, op: &str, a: &[&str]) -> String {
        let mut tree = self.0.lock().unwrap().clone();
        match op {
            "write" => write_op(&mut tree, a),
            _ => open_ops(&tree, op, a).unwrap_or_else(|| panic!("unknown operation {op}"))
        }
    }
}

/// Changes made behind the back of the tree
fn raw(op: &str, a: &[&str]) -> Option<String> {
    let show = |r: std::io::Result<()>| match r { Ok(()) => "ok".to_owned(), Err(e) => err(e) };
    Some(match op {
        "release" => { let h = { let mut h = HELD.lock().unwrap(); let n = h.iter().position(|x| x.0 == a[0]); n.map(|n| h.swap_remove(n)) }; h.is_some().to_string() },
        // changes the tag through a handle from before, with nothing but the lock of the tag; answers with the value before
        "hset" => {
            let held = HELD.lock().unwrap().iter().find(|x| x.0 == a[0]).map(|x| x.1.clone());
            match held {
                Some(t) => {
                    let id = identity(&t);
                    let mut g = t.lock().unwrap();
                    let before = value_of(g.as_ref());
                    let pause = || for _ in 0..a.get(2).map_or(0, |n| n.parse().unwrap()) { std::thread::yield_now() };
                    pause();
                    set_value(g.as_mut(), a[1].parse().unwrap());
                    pause();
                    format!("{before} #{id}")
                },
                None => "none".to_owned()
            }
        },
        "rm" => show(std::fs::remove_file(a[0])),
        "mv" => show(std::fs::rename(a[0], a[1])),
        // what the file holds right now
        "bytes" => match std::fs::read(a[0]) {
            Ok(b) => b.iter().fold(format!("{} ", b.len()), |mut s, x| { write!(s, "{x:02x}").unwrap(); s }),
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => "none".to_owned(),
            Err(e) => err(e)
        },
        _ => return None
    })
}

/// Leaves a trace in the simulator's log of operations, so that file operations can be told whose they are.
fn mark(thread: usize, what: &str, inv: u64) {
    let _ = std::fs::metadata(format!("mark-{what}-{inv}-{thread}"));
}

struct Event { inv: u64, res: u64, thread: usize, op: String, out: String }

fn run(subject: &dyn Subject, thread: usize, ops: &[String]) -> Vec<Event> {
    let mut out = Vec::with_capacity(ops.len());
    for line in ops {
        let w: Vec<&str> = line.split(' ').collect();
        let inv = now();
        mark(thread, "begin", inv);
        let r = raw(w[0], &w[1..]).unwrap_or_else(|| subject.op(w[0], &w[1..]));
        mark(thread, "end", inv);
        out.push(Event { inv, res: now(), thread, op: line.clone(), out: r });
    }
    out
}

fn main() {
    let script = std::env::args().nth(1).expect("needs a script");
    let script = std::fs::read_to_string(script).expect("cannot read the script");
    let (mut dirs, mut cow, mut kind) = (Vec::new(), None, "plain".to_owned());
    let mut before = Vec::new();
    let mut threads: Vec<Vec<String>> = Vec::new();
    let mut after = Vec::new();
    let mut ended = false;
    for l in script.lines().map(str::trim).filter(|l| !l.is_empty()) {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "tree" => { dirs = w[1].split(',').map(PathBuf::from).collect(); cow = w.get(2).map(PathBuf::from) },
            "kind" => kind = w[1].to_owned(),
            "thread" => threads.push(Vec::new()),
            "end" => ended = true,
            _ if ended => after.push(l.to_owned()),
            _ => match threads.last_mut() { Some(t) => t.push(l.to_owned()), None => before.push(l.to_owned()) }
        }
    }
    let dirs: Vec<&Path> = dirs.iter().map(|d| d.as_path()).collect();
    let tree = match VirtualTagsDirectory::new(&dirs, cow) { Ok(t) => t, Err(e) => { println!("SETUP {}", err(e)); return } };
    use CachingTagTreeWriteStrategy::*;
    let subject: Arc<dyn Subject> = match kind.as_str() {
        "plain" => Arc::new(Plain(RwLock::new(tree))),
        "instant" => Arc::new(Caching(RwLock::new(CachingTagTree::new(tree, Instant)))),
        "manual" => Arc::new(Caching(RwLock::new(CachingTagTree::new(tree, Manual)))),
        "atomic" => Arc::new(Atomic(Mutex::new(AtomicTagTree::new(tree)))),
        "atomic-instant" => Arc::new(Atomic(Mutex::new(AtomicTagTree::new(CachingTagTree::new(tree, Instant))))),
        "atomic-manual" => Arc::new(Atomic(Mutex::new(AtomicTagTree::new(CachingTagTree::new(tree, Manual))))),
        k => panic!("unknown kind {k}")
    };
    let mut events = run(subject.as_ref(), 0, &before);
    let handles: Vec<_> = threads.into_iter().enumerate().map(|(n, ops)| {
        let s = subject.clone();
        std::thread::spawn(move || run(s.as_ref(), n + 1, &ops))
    }).collect();
    for h in handles { events.extend(h.join().expect("thread panicked")) }
    events.extend(run(subject.as_ref(), 0, &after));
    events.sort_by_key(|e| e.inv);
    let mut s = String::new();
    for e in &events { writeln!(s, "{} {} t{} | {} | {}", e.inv, e.res, e.thread, e.op, e.out).unwrap() }
    s.push_str("DONE\n");
    print!("{s}");
}

