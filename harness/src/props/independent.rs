//! C27: readers and writers do not affect each other.

use super::output::{self, Op};
use super::robust::{self, Way};
use super::{gen_any_node, gen_source, gen_text};
use crate::dom::{self, Node, SVal};
use crate::engine::{guard, CheckResult, Prop, Src};
use crate::io::{hook, AnyReader, AnyWriter, CallWriter, PlanWrite, Pull, Source, Text, WErr, WriteFailure};
use crate::model::name_map;
use crate::script::{self, Runner, Script};
use crate::text::{self, ekind, Ser};
use serdere::{NameMap, Outliner, Serializer, Utf8Writer};
use serdere_json::{JsonDeserializer, JsonOutliner, TextDeserializer, TextSerializer, TextSerializerConfig};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "something else was done in the middle of reading, writing or looking up a name",
        check,
        quick: 200_000,
        thorough: 4_000_000,
        extra: None,
    }]
}

fn check(src: &mut Src) -> CheckResult {
    if src.chance(1, 2500) {
        return crowd(src);
    }
    match src.weighted(&[30, 30, 12, 10, 1]) {
        0 => nested(src),
        1 => in_turns(src),
        2 => reader_within(src),
        3 => writer_within(src),
        _ => threads(src),
    }
}

// ------------------------------------------------------------------------------------------------
// Whole jobs

enum Sink {
    Str,
    Bytes(u64, Option<usize>),
    Calls(Option<u64>),
}

impl Sink {
    fn gen(src: &mut Src) -> Sink {
        match src.idx(3) {
            0 => Sink::Str,
            1 => Sink::Bytes(src.below(1000), if src.chance(1, 4) { Some(src.idx(60)) } else { None }),
            _ => Sink::Calls(if src.chance(1, 4) { Some(1 + src.below(30)) } else { None }),
        }
    }

    fn open(&self) -> AnyWriter {
        match self {
            Sink::Str => AnyWriter::Str(String::new()),
            Sink::Bytes(plan, b) => AnyWriter::Utf8(Utf8Writer::new(PlanWrite::new(*plan, *b, WriteFailure::Other))),
            Sink::Calls(n) => AnyWriter::Call(CallWriter::new(*n, false)),
        }
    }
}

enum Job {
    Read { text: Text, source: Source, comments: bool, way: Way },
    Write { job: output::Job, indent: Option<&'static str>, sink: Sink },
    Find((usize, String)),
}

/// Tables with names in common, which mean something different in each.
fn table(i: usize) -> &'static NameMap<usize> {
    static MAPS: OnceLock<[&'static NameMap<usize>; 2]> = OnceLock::new();
    if i == 0 {
        return script::names();
    }
    MAPS.get_or_init(|| {
        [
            name_map(&[("a", 20), ("abc", 21), ("abd", 22), ("c", 23), ("keyé", 24), ("type", 25), ("types", 26), ("key", 27)]),
            name_map(&[("type", 30), ("b", 31), ("k", 32), ("abcd", 33), ("é", 34), ("", 35), ("ab", 36), ("abc", 37)]),
        ]
    })[i - 1]
}

/// The table and the name to look up in it.
fn gen_probe(src: &mut Src) -> (usize, String) {
    let t = src.idx(3);
    (t, gen_name(src))
}

fn gen_name(src: &mut Src) -> String {
    src.choose(&["a", "ab", "abc", "b", "", "type", "é", "key", "abd", "typ", "types", "keyé", "k"]).to_string()
}

impl Job {
    fn gen(src: &mut Src) -> Job {
        match src.weighted(&[6, 4, 1]) {
            0 => {
                let comments = src.chance(1, 4);
                let (body, way) = robust::gen_way(src, comments);
                // A source with callbacks, as a rule
                let source = if src.chance(1, 2) { Source::Idx } else { gen_source(src) };
                Job::Read { text: Text::new(body), source, comments, way }
            }
            1 => Job::Write { job: output::gen_job(src), indent: src.choose(text::INDENTS), sink: Sink::gen(src) },
            _ => Job::Find(gen_probe(src)),
        }
    }

    fn describe(&self) -> String {
        match self {
            Job::Read { text, source, comments, way } => {
                format!("read from {source:?}, comments={comments}, {} the text {}", robust::describe(way), text.str)
            }
            Job::Write { job, indent, .. } => format!("write with indentation {indent:?} {}", job.describe()),
            Job::Find((t, s)) => format!("look up {s:?} in table {t}"),
        }
    }

    /// Does the job, and says all that came of it.
    fn run(&self) -> String {
        match guard(|| self.do_it()) {
            Ok(s) => s,
            Err(c) => c.describe(),
        }
    }

    fn do_it(&self) -> String {
        match self {
            Job::Read { text, source, comments, way } => {
                let t = robust::transcript_from(text.open(*source), *comments, way);
                let error = t.error.map(|(k, p)| (k, text.offset_of(&p)));
                format!("{:?} {error:?}", t.log)
            }
            Job::Write { job, indent, sink } => {
                let (w, r) = job.run(sink.open(), *indent);
                format!("{:?} {}", r.map_err(|e| e.to_string()), String::from_utf8_lossy(&w.into_text()))
            }
            Job::Find((t, s)) => {
                let mut l = table(*t).lookup();
                let mut log = Vec::new();
                for c in s.chars() {
                    hook::tick();
                    l.write_char(c);
                    log.push(l.result().copied());
                }
                hook::tick();
                format!("{log:?} {:?} {:?}", l.result(), table(*t).get(s))
            }
        }
    }
}

/// What a user's code may unwind with.
struct Abandoned;

fn gen_countdown(src: &mut Src) -> u64 {
    let n = src.choose(&[4, 30, 200]);
    1 + src.below(n)
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// Does another job, within which other things may happen.
    Run(usize),
    /// Begins another job, which is abandoned by a panic after this many uses of its source or sink.
    Abandon(usize, u64),
}

/// One job, in whose middle others are done.
fn nested(src: &mut Src) -> CheckResult {
    let n = src.range(1, 3);
    let jobs: Rc<Vec<Job>> = Rc::new((0..n).map(|_| Job::gen(src)).collect());
    let plan: Vec<(u64, Act)> = (0..src.range(1, 5))
        .map(|_| {
            let at = gen_countdown(src);
            let i = src.idx(n);
            (at, if src.chance(1, 4) { Act::Abandon(i, gen_countdown(src)) } else { Act::Run(i) })
        })
        .collect();
    let repeat = if src.chance(1, 150) { src.range(1, 400) } else { 1 };
    // Small jobs many times, or large ones a few times
    let size: usize = jobs.iter().map(|j| j.describe().len()).sum();
    let repeat = repeat.min(1 + 400_000 / (size * (1 + plan.len())));
    for j in jobs.iter() {
        src.ident(j.describe().as_bytes());
    }
    src.ident(format!("{plan:?}").as_bytes());
    src.note(|| {
        let jobs: Vec<String> = jobs.iter().map(|j| j.describe()).collect();
        format!("within job 0 {plan:?} ({repeat} times): {}", jobs.join(" | "))
    });
    let alone: Vec<String> = jobs.iter().map(|j| j.run()).collect();
    let results = Rc::new(RefCell::new(Vec::new()));
    let fired = Rc::new(Cell::new(0));
    for _ in 0..repeat {
        let todo = Rc::new(RefCell::new(plan.iter().rev().copied().collect::<Vec<_>>()));
        let first = todo.borrow().last().unwrap().0;
        let h: Rc<dyn Fn()> = {
            let (jobs, results, fired) = (jobs.clone(), results.clone(), fired.clone());
            Rc::new(move || {
                let Some((_, act)) = todo.borrow_mut().pop() else { return };
                fired.set(fired.get() + 1);
                let next = todo.borrow().last().map_or(0, |a| a.0);
                match act {
                    Act::Run(i) => {
                        hook::arm(next);
                        let r = jobs[i].run();
                        results.borrow_mut().push((i, r));
                    }
                    Act::Abandon(i, after) => {
                        abandon(&jobs[i], after);
                        hook::arm(next);
                    }
                }
            })
        };
        let r = hook::with(Some(h), first, || jobs[0].run());
        results.borrow_mut().push((0, r));
    }
    if fired.get() > 0 {
        src.nontrivial();
        src.class("jobs within a job");
    }
    for (i, j) in jobs.iter().enumerate() {
        results.borrow_mut().push((i, j.run()));
    }
    for (i, r) in results.borrow().iter() {
        src.sub_evals += 1;
        differs(*i, &alone[*i], r)?;
    }
    Ok(())
}

fn differs(i: usize, alone: &str, r: &str) -> CheckResult {
    if r == alone {
        return Ok(());
    }
    Err(format!("job {i} gives {}, but alone it gives {}", crate::engine::clip(r, 600), crate::engine::clip(alone, 600)))
}

/// Begins a job, and unwinds out of it.
fn abandon(job: &Job, after: u64) {
    let h: Rc<dyn Fn()> = Rc::new(|| std::panic::resume_unwind(Box::new(Abandoned)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| hook::with(Some(h), after, || job.do_it())));
    drop(r);
}

/// The same jobs on several threads at once.
fn threads(src: &mut Src) -> CheckResult {
    let n = src.range(2, 4);
    let jobs: Vec<Job> = (0..n).map(|_| Job::gen(src)).collect();
    let times = src.range(2, 6);
    let size: usize = jobs.iter().map(|j| j.describe().len()).sum();
    let step = 1 + src.below(12) + size as u64 / 2000;
    for j in &jobs {
        src.ident(j.describe().as_bytes());
    }
    src.note(|| {
        let jobs: Vec<String> = jobs.iter().map(|j| j.describe()).collect();
        format!("on {n} threads, {times} times: {}", jobs.join(" | "))
    });
    let alone: Vec<String> = jobs.iter().map(|j| j.run()).collect();
    let barrier = std::sync::Barrier::new(n);
    let (jobs, alone, barrier) = (&jobs, &alone, &barrier);
    let results: Vec<CheckResult> = std::thread::scope(|s| {
        let all: Vec<_> = (0..n)
            .map(|i| {
                s.spawn(move || {
                    let h: Rc<dyn Fn()> = Rc::new(move || {
                        std::thread::yield_now();
                        hook::arm(step);
                    });
                    barrier.wait();
                    let mut res = Ok(());
                    for t in 0..times {
                        let i = (i + t) % n;
                        let r = hook::with(Some(h.clone()), step, || jobs[i].run());
                        res = res.and(differs(i, &alone[i], &r));
                    }
                    res
                })
            })
            .collect();
        all.into_iter().map(|t| t.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
    });
    src.nontrivial();
    src.class("jobs on several threads");
    src.sub_evals += (n * times) as u64;
    results.into_iter().collect()
}

/// Values of every simple type.
#[derive(Clone, Copy, Debug)]
enum Simple {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
}

impl Simple {
    fn gen(src: &mut Src) -> Simple {
        let x = src.below(u64::MAX) >> src.below(64);
        match src.idx(12) {
            0 => Simple::Bool(x & 1 == 1),
            1 => Simple::I8(x as i8),
            2 => Simple::I16(x as i16),
            3 => Simple::I32(x as i32),
            4 => Simple::I64(x as i64),
            5 => Simple::U8(x as u8),
            6 => Simple::U16(x as u16),
            7 => Simple::U32(x as u32),
            8 => Simple::U64(x),
            9 => Simple::F32(x as u16 as f32 / 64.0),
            10 => Simple::F64(x as u32 as f64 / 4096.0),
            _ => Simple::Char(char::from_u32(x as u32 & 0x7FF).unwrap()),
        }
    }

    /// Writes it, reads it, and says what came of it.
    fn run(&self) -> (String, Option<bool>) {
        macro_rules! go {
            ($($v:ident $t:ty),*) => {
                match self {
                    $(Simple::$v(x) => {
                        let s = serdere_json::to_str(x);
                        let back = serdere_json::from_str::<$t>(&s).ok().map(|y| y == *x);
                        (s, back)
                    })*
                }
            };
        }
        go!(Bool bool, I8 i8, I16 i16, I32 i32, I64 i64, U8 u8, U16 u16, U32 u32, U64 u64, F32 f32, F64 f64, Char char)
    }
}

/// Many values which are written and read on several threads, as fast as they can.
fn crowd(src: &mut Src) -> CheckResult {
    let n = src.range(2, 5);
    let simple: Vec<Vec<Simple>> = (0..n).map(|_| (0..src.range(5, 60)).map(|_| Simple::gen(src)).collect()).collect();
    let mut jobs: Vec<Job> = (0..src.range(1, 6)).map(|_| Job::gen(src)).collect();
    jobs.retain(|j| j.describe().len() < 600);
    let shown: Vec<String> = jobs.iter().map(|j| j.describe()).collect();
    src.ident(format!("{simple:?} {shown:?}").as_bytes());
    src.note(|| format!("on {n} threads, each with its own {simple:?}, and all with: {}", shown.join(" | ")));
    let alone: Vec<Vec<_>> = simple.iter().map(|l| l.iter().map(|v| v.run()).collect()).collect();
    let jobs_alone: Vec<String> = jobs.iter().map(|j| j.run()).collect();
    let barrier = std::sync::Barrier::new(n);
    let (simple, alone, jobs, jobs_alone, barrier) = (&simple, &alone, &jobs, &jobs_alone, &barrier);
    let results: Vec<CheckResult> = std::thread::scope(|s| {
        let all: Vec<_> = (0..n)
            .map(|t| {
                s.spawn(move || {
                    barrier.wait();
                    for round in 0..150 {
                        for (v, a) in simple[t].iter().zip(&alone[t]) {
                            match guard(|| v.run()) {
                                Ok(r) if r == *a => {}
                                Ok(r) => return Err(format!("{v:?} gives {r:?}, but alone it gives {a:?}")),
                                Err(c) => return Err(format!("{v:?}: {}, but alone it gives {a:?}", c.describe())),
                            }
                        }
                        if round % 10 == t {
                            for (i, (j, a)) in jobs.iter().zip(jobs_alone).enumerate() {
                                differs(i, a, &j.run())?;
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        all.into_iter().map(|t| t.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
    });
    src.nontrivial();
    src.class("a crowd of threads");
    src.sub_evals += (n * 150) as u64;
    results.into_iter().collect()
}

// ------------------------------------------------------------------------------------------------
// Call by call

/// What is done call by call.
enum Actor<'a> {
    Read(Runner<'a>),
    Write { s: Ser, ops: &'a [Op], log: Vec<Option<String>>, failed: bool },
    Find { feed: Feed, probe: &'a str, log: Vec<Option<usize>> },
    Panicked(String),
}

/// Gives a character to a lookup, and says what it has found.
type Feed = Box<dyn FnMut(Option<char>) -> Option<usize>>;

enum Part {
    Read { text: Text, source: Source, comments: bool, choices: Vec<u64> },
    Write { ops: Vec<Op>, shown: String, indent: Option<&'static str>, sink: Sink },
    Find((usize, String)),
}

impl Part {
    fn gen(src: &mut Src) -> Part {
        match src.weighted(&[6, 4, 1]) {
            0 => {
                let comments = src.chance(1, 4);
                let body = if src.chance(1, 3) {
                    gen_text(src, comments).0
                } else {
                    let node = dom::gen_object(src, dom::GenOpts { depth: 3, distinct_keys: false, big: false });
                    let style = dom::Style::random(src, comments);
                    dom::print(src, &node, style)
                };
                let n = src.range(2, 90);
                let choices = (0..n).map(|_| src.below(1 << 20)).collect();
                Part::Read { text: Text::new(body), source: gen_source(src), comments, choices }
            }
            1 => {
                let step = output::gen_script(src);
                let mut ops = Vec::new();
                output::calls(&step, &mut ops);
                Part::Write { ops, shown: format!("{step:?}"), indent: src.choose(text::INDENTS), sink: Sink::gen(src) }
            }
            _ => Part::Find(gen_probe(src)),
        }
    }

    fn describe(&self) -> String {
        match self {
            Part::Read { text, source, comments, choices } => {
                format!("read from {source:?}, comments={comments}, by script {choices:?}, the text {}", text.str)
            }
            Part::Write { shown, indent, .. } => format!("write with indentation {indent:?} {shown}"),
            Part::Find((t, s)) => format!("look up {s:?} in table {t}"),
        }
    }

    fn start(&self) -> Actor<'_> {
        let r = guard(|| match self {
            Part::Read { text, source, comments, choices } => {
                match TextDeserializer::new(text::config(*comments), text.open(*source)) {
                    Ok(d) => Actor::Read(Runner::new(d, Script::new(choices.clone()))),
                    Err(e) => Actor::Panicked(text::show_err(text, &e)),
                }
            }
            Part::Write { ops, indent, sink, .. } => Actor::Write {
                s: TextSerializer::new(TextSerializerConfig { indent: *indent }, sink.open()),
                ops,
                log: Vec::new(),
                failed: false,
            },
            Part::Find((t, s)) => {
                let mut l = table(*t).lookup();
                let feed = Box::new(move |c: Option<char>| {
                    c.into_iter().for_each(|c| l.write_char(c));
                    l.result().copied()
                });
                Actor::Find { feed, probe: s, log: Vec::new() }
            }
        });
        r.unwrap_or_else(|c| Actor::Panicked(c.describe()))
    }
}

impl Actor<'_> {
    /// Makes a call. Returns whether there are more to make.
    fn step(&mut self) -> bool {
        let r = guard(|| match self {
            Actor::Read(r) => r.step(),
            Actor::Write { s, ops, log, failed } => {
                let Some((op, rest)) = ops.split_first() else { return false };
                let r: Result<(), WErr> = op(s);
                *ops = rest;
                *failed |= r.is_err();
                log.push(r.err().map(|e| e.to_string()));
                !*failed
            }
            Actor::Find { feed, probe, log } => {
                let mut chars = probe.chars();
                let Some(c) = chars.next() else { return false };
                *probe = chars.as_str();
                log.push(feed(Some(c)));
                true
            }
            Actor::Panicked(_) => false,
        });
        r.unwrap_or_else(|c| {
            *self = Actor::Panicked(c.describe());
            false
        })
    }

    fn end(self, part: &Part) -> String {
        match (self, part) {
            (Actor::Read(r), Part::Read { text, .. }) => {
                let o = r.outcome;
                let e = o.error.map(|e| (ekind(&e), text.offset_of(e.position())));
                format!("{:?} {e:?} {}", o.log, o.closed)
            }
            (Actor::Write { s, log, .. }, _) => format!("{log:?} {}", String::from_utf8_lossy(&s.close().into_text())),
            (Actor::Find { mut feed, log, .. }, _) => format!("{log:?} {:?}", feed(None)),
            (Actor::Panicked(c), _) => c,
            _ => unreachable!(),
        }
    }
}

/// Several readers and writers whose calls are made in any order, also one during another.
fn in_turns(src: &mut Src) -> CheckResult {
    let n = src.range(2, 4);
    let parts: Vec<Part> = (0..n).map(|_| Part::gen(src)).collect();
    for p in &parts {
        src.ident(p.describe().as_bytes());
    }
    let alone: Vec<String> = parts
        .iter()
        .map(|p| {
            let mut a = p.start();
            while a.step() {}
            a.end(p)
        })
        .collect();
    // The schedule: whose turn it is, and after how many uses of its source or sink it is another's
    let len = src.range(10, 80);
    let turns: Vec<(usize, u64)> =
        (0..len).map(|_| (src.idx(n), if src.chance(1, 3) { 1 + src.below(5) } else { 0 })).collect();
    let lazy = src.chance(1, 2);
    // One of them may be dropped on the way
    let dropped = if src.chance(1, 4) { Some((src.idx(n), src.idx(len))) } else { None };
    src.note(|| {
        let parts: Vec<String> = parts.iter().map(|j| j.describe()).collect();
        format!("in turns {turns:?}, dropped {dropped:?}: {}", parts.join(" | "))
    });
    // SAFETY: the hook which holds this does not outlive the call below
    let parts_ref: &'static Vec<Part> = unsafe { &*(&parts as *const Vec<Part>) };
    struct Stage {
        actors: Vec<RefCell<Option<Actor<'static>>>>,
        gone: Vec<Cell<bool>>,
        done: Vec<Cell<bool>>,
        todo: RefCell<Vec<(usize, u64)>>,
        within: Cell<u64>,
        switches: Cell<u64>,
        depth: Cell<u64>,
    }
    impl Stage {
        fn act(&self, parts: &'static [Part], i: usize) {
            let Ok(mut slot) = self.actors[i].try_borrow_mut() else { return };
            if self.gone[i].get() || self.done[i].get() {
                return;
            }
            if self.depth.get() > 0 {
                self.within.set(self.within.get() + 1);
            }
            self.depth.set(self.depth.get() + 1);
            self.switches.set(self.switches.get() + 1);
            let more = slot.get_or_insert_with(|| parts[i].start()).step();
            self.depth.set(self.depth.get() - 1);
            self.done[i].set(!more);
        }
    }
    let stage = Rc::new(Stage {
        actors: parts_ref.iter().map(|p| RefCell::new(if lazy { None } else { Some(p.start()) })).collect(),
        gone: (0..n).map(|_| Cell::new(false)).collect(),
        done: (0..n).map(|_| Cell::new(false)).collect(),
        todo: RefCell::new(turns.iter().rev().copied().collect()),
        within: Cell::new(0),
        switches: Cell::new(0),
        depth: Cell::new(0),
    });
    let h: Rc<dyn Fn()> = {
        let stage = stage.clone();
        Rc::new(move || {
            let Some((i, next)) = stage.todo.borrow_mut().pop() else { return };
            hook::arm(next);
            stage.act(parts_ref, i);
            hook::arm(next);
        })
    };
    hook::with(Some(h), 0, || loop {
        let Some((i, next)) = stage.todo.borrow_mut().pop() else { break };
        if let Some((d, at)) = dropped {
            if len - stage.todo.borrow().len() > at && !stage.gone[d].get() {
                stage.gone[d].set(true);
                *stage.actors[d].borrow_mut() = None;
            }
        }
        hook::arm(next);
        stage.act(parts_ref, i);
        hook::arm(0);
    });
    if stage.switches.get() > 3 {
        src.nontrivial();
    }
    src.class(if stage.within.get() > 0 { "a call during another's" } else { "calls in turns" });
    for (i, p) in parts_ref.iter().enumerate() {
        if stage.gone[i].get() {
            src.class("one was dropped on the way");
            continue;
        }
        let mut a = stage.actors[i].borrow_mut().take().unwrap_or_else(|| p.start());
        while !stage.done[i].get() && a.step() {}
        differs(i, &alone[i], &a.end(p))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// One within another

/// A document within a string of another, read while the other is.
fn reader_within(src: &mut Src) -> CheckResult {
    let comments = src.chance(1, 4);
    let (inner, way) = robust::gen_way(src, comments);
    let mut entries: Vec<(String, Node)> =
        (0..src.idx(3)).map(|i| (["a", "b"][i].to_string(), gen_any_node(src))).collect();
    let at = src.idx(entries.len() + 1);
    entries.insert(at, ("s".into(), Node::Str(inner.clone())));
    entries.push(("z".into(), Node::Bool(true)));
    let style = dom::Style::random(src, false);
    let outer = Text::new(dom::print(src, &Node::Obj(entries), style));
    let source = gen_source(src);
    let buffered = src.chance(1, 2);
    src.ident(outer.str.as_bytes());
    src.note(|| format!("from {source:?}, the string buffered={buffered}, {} within {}", robust::describe(&way), outer.str));
    let inner = Text::new(inner);
    let shown = |t: robust::Transcript| format!("{:?} {:?}", t.log, t.error);
    let read = |r: AnyReader| guard(|| shown(robust::transcript_from(r, comments, &way))).unwrap_or_else(|c| c.describe());
    let alone = read(inner.open(Source::Idx));
    let out = guard(|| {
        let mut d = TextDeserializer::new(text::config(false), outer.open(source))?;
        d.open_object()?;
        if buffered {
            d.push_entry("z")?;
            d.skip_value()?;
        }
        d.push_entry("s")?;
        d.open_str()?;
        let d = Rc::new(RefCell::new(d));
        let ended = Rc::new(Cell::new(false));
        let r = {
            let (d, ended) = (d.clone(), ended.clone());
            read(AnyReader::Pull(Pull::new(move || {
                if ended.get() {
                    return None;
                }
                let c = serdere::Deserializer::next_char(&mut *d.borrow_mut()).expect("the outer document is well-formed");
                ended.set(c.is_none());
                c
            })))
        };
        let Ok(d) = Rc::try_unwrap(d) else { unreachable!() };
        let mut d = d.into_inner();
        if !ended.get() {
            serdere::Deserializer::skip_str(&mut d)?;
        }
        if !buffered {
            d.push_entry("z")?;
            d.skip_value()?;
        }
        d.skip_object()?;
        d.close()?;
        Ok(r)
    });
    src.nontrivial();
    src.class("a reader within another");
    match out {
        Err(c) => Err(format!("the outer document: {}", c.describe())),
        Ok(Err(e)) => Err(format!("the outer document gives {}", text::show_err(&outer, &e))),
        Ok(Ok(r)) => differs(0, &alone, &r),
    }
}

/// A document written into a string of another while the other is written.
fn writer_within(src: &mut Src) -> CheckResult {
    let job = output::gen_job(src);
    let indent = src.choose(text::INDENTS);
    let outer_indent = src.choose(text::INDENTS);
    let as_key = src.chance(1, 4);
    src.ident(job.describe().as_bytes());
    src.note(|| format!("with indentation {indent:?}, within {outer_indent:?}, as a key: {as_key}: {}", job.describe()));
    let run = |w: AnyWriter| {
        guard(|| {
            let (w, r) = job.run(w, indent);
            (String::from_utf8_lossy(&w.into_text()).into_owned(), format!("{:?}", r.map_err(|e| e.to_string())))
        })
        .unwrap_or_else(|c| (String::new(), c.describe()))
    };
    let (alone, alone_end) = run(AnyWriter::Str(String::new()));
    let out = guard(|| {
        let mut s = TextSerializer::new(TextSerializerConfig { indent: outer_indent }, AnyWriter::Str(String::new()));
        s.open_object()?;
        if as_key {
            serdere_json::JsonSerializer::add_entry(&mut s)?;
        } else {
            s.push_entry("s")?;
            s.open_str()?;
        }
        let s = Rc::new(RefCell::new(s));
        let end = {
            let s = s.clone();
            run(AnyWriter::Push(Box::new(move |c| s.borrow_mut().append_char(c).expect("a string takes everything")))).1
        };
        let Ok(s) = Rc::try_unwrap(s) else { unreachable!() };
        let mut s = s.into_inner();
        s.close_str()?;
        if as_key {
            s.put_bool(true)?;
        }
        s.close_object()?;
        Ok::<_, WErr>((String::from_utf8_lossy(&s.close().into_text()).into_owned(), end))
    });
    src.nontrivial();
    src.class("a writer within another");
    let (text, end) = match out {
        Err(c) => return Err(format!("the outer document: {}", c.describe())),
        Ok(r) => r.map_err(|e| format!("writing to a string failed: {e}"))?,
    };
    let chars: Vec<char> = text.chars().collect();
    let doc = dom::parse(&chars, false).map_err(|e| format!("the outer document is not JSON at {e}: {text}"))?;
    let got = match &doc.v {
        SVal::Obj(e) if e.len() == 1 => match (&e[0].0, &e[0].1.v) {
            (k, SVal::Bool(true)) if as_key => k.clone(),
            (k, SVal::Str(s)) if !as_key && k == "s" => s.clone(),
            _ => return Err(format!("the outer document is {text}")),
        },
        _ => return Err(format!("the outer document is {text}")),
    };
    differs(0, &format!("{alone_end} {alone}"), &format!("{end} {got}"))
}
