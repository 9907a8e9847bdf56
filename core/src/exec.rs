//! T01: the ticking scheduler and executor against a model of their work queue

use pbt::{CaseResult, Report, Src, fail};
use rx_core_common::{Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, WorkCancellationId, WorkInvokeId, WorkResult};
use rx_core_scheduler_ticking::{TickedInvokedWorkFactory, TickingScheduler};
use rx_core_testing::{MockContextProvider, MockExecutor};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use crate::base::lk;
use rx_core_common::{InvokedTaskFactory, WorkTick};

type Handle = SchedulerHandle<TickingScheduler<MockContextProvider>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum WK {
	Immediate,
	Delayed(u64),
	Repeated { interval: u64, start: bool, max: usize },
	Continuous,
	Invoked(usize),
}

#[derive(Clone, Debug)]
enum Act {
	Sched(usize),
	Cancel(usize),
	Invoke(usize),
	CancelInvoked(usize),
}

#[derive(Clone, Debug)]
struct Template {
	kind: WK,
	cid: usize,
	/// number of executions after which it reports that it is done
	done: Option<usize>,
	acts: Vec<(usize, Act)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Run {
	/// which scheduled work, in the order of scheduling
	work: usize,
	nth: usize,
	now: u64,
	given: u64,
}

impl std::fmt::Display for Run {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "w{}#{} at {}", self.work, self.nth, self.now)?;
		if self.given != self.now {
			write!(f, " (was told {})", self.given)?;
		}
		Ok(())
	}
}

const MAX_RUNS: usize = 20_000;

// ------------------------------------------------------------------ model

#[derive(Clone)]
struct MWork {
	id: usize,
	template: usize,
	execs: usize,
	scheduled: u64,
	consumed: u64,
	start: bool,
}

enum MAction {
	Activate(usize, MWork),
	AddInvoked(usize, MWork),
	Act(Act),
}

struct Model {
	templates: Vec<Template>,
	now: u64,
	queue: Vec<MAction>,
	active: Vec<(usize, MWork, u64)>,
	invokable: BTreeMap<usize, MWork>,
	scheduled: usize,
	runs: Vec<Run>,
	tick_no: u64,
	total: usize,
}

impl Model {
	fn act(&mut self, a: &Act) {
		match a {
			Act::Sched(t) => {
				let id = self.scheduled;
				self.scheduled += 1;
				let kind = self.templates[*t].kind;
				let start = matches!(kind, WK::Repeated { start: true, .. });
				let w = MWork { id, template: *t, execs: 0, scheduled: self.now, consumed: self.now, start };
				self.queue.push(match kind {
					WK::Invoked(i) => MAction::AddInvoked(i, w),
					_ => MAction::Activate(self.templates[*t].cid, w),
				});
			}
			a => self.queue.push(MAction::Act(a.clone())),
		}
	}
	/// runs the body of the work once, true when it is done
	fn run(&mut self, w: &mut MWork) -> bool {
		self.runs.push(Run { work: w.id, nth: w.execs, now: self.now, given: self.now });
		let nth = w.execs;
		w.execs += 1;
		let t = self.templates[w.template].clone();
		for (at, a) in &t.acts {
			if *at == nth {
				self.act(a);
			}
		}
		t.done.is_some_and(|d| w.execs >= d)
	}
	fn tick_work(&mut self, w: &mut MWork) -> bool {
		match self.templates[w.template].kind {
			WK::Immediate => {
				self.run(w);
				true
			}
			WK::Delayed(d) => {
				if w.scheduled + d <= self.now {
					self.run(w);
					true
				} else {
					false
				}
			}
			WK::Continuous | WK::Invoked(_) => self.run(w),
			WK::Repeated { interval, max, .. } => {
				let elapsed = if interval == 0 { usize::MAX - 1 } else { ((self.now - w.consumed) / interval) as usize };
				let due = elapsed + w.start as usize;
				w.start = false;
				if interval > 0 {
					w.consumed += elapsed as u64 * interval;
				}
				for _ in 0..due.min(max.max(1)) {
					if self.run(w) {
						return true;
					}
				}
				false
			}
		}
	}
	fn tick(&mut self, delta: u64) {
		self.now += delta;
		self.tick_no += 1;
		loop {
			let mut invoked = vec![];
			let had = !self.queue.is_empty();
			for a in std::mem::take(&mut self.queue) {
				match a {
					MAction::Activate(cid, w) => self.active.push((cid, w, 0)),
					MAction::AddInvoked(i, w) => {
						self.invokable.insert(i, w);
					}
					MAction::Act(Act::Invoke(i)) => invoked.push(i),
					MAction::Act(Act::CancelInvoked(i)) => {
						self.invokable.remove(&i);
						invoked.retain(|x| *x != i);
					}
					MAction::Act(Act::Cancel(c)) => self.active.retain(|(x, ..)| *x != c),
					MAction::Act(Act::Sched(_)) => unreachable!(),
				}
			}
			let mut ticked = false;
			let mut rest = vec![];
			for (cid, mut w, last) in std::mem::take(&mut self.active) {
				if last == self.tick_no {
					rest.push((cid, w, last));
					continue;
				}
				ticked = true;
				if !self.tick_work(&mut w) {
					rest.push((cid, w, self.tick_no));
				}
			}
			self.active = rest;
			for i in invoked {
				if let Some(mut w) = self.invokable.remove(&i) {
					if !self.run(&mut w) {
						self.invokable.insert(i, w);
					}
				}
			}
			if !ticked && !had {
				break;
			}
		}
	}
	fn empty(&self) -> bool {
		self.active.is_empty() && self.invokable.is_empty()
	}
}

// ------------------------------------------------------------------- real

struct Real {
	templates: Vec<Template>,
	handle: Handle,
	cids: Vec<WorkCancellationId>,
	iids: Vec<WorkInvokeId>,
	state: Mutex<(usize, Vec<Run>, u64)>,
}

fn body(me: &Arc<Real>, t: usize, id: usize, nth: usize, given: Duration) -> WorkResult {
	{
		let mut s = lk(&me.state);
		let now = s.2;
		s.1.push(Run { work: id, nth, now, given: given.as_millis() as u64 });
		if s.1.len() > MAX_RUNS {
			drop(s);
			panic!("runaway: more than {MAX_RUNS} executions");
		}
	}
	let tpl = &me.templates[t];
	for (at, a) in &tpl.acts {
		if *at == nth {
			act(me, a);
		}
	}
	if tpl.done.is_some_and(|d| nth + 1 >= d) { WorkResult::Done } else { WorkResult::Pending }
}

fn act(me: &Arc<Real>, a: &Act) {
	match a {
		Act::Sched(t) => {
			let id = {
				let mut s = lk(&me.state);
				s.0 += 1;
				s.0 - 1
			};
			let t = *t;
			let w = me.clone();
			let cid = me.cids[me.templates[t].cid];
			let mut execs = 0;
			let w2 = me.clone();
			let repeated = move |tick: rx_core_scheduler_ticking::Tick, _: &mut rx_core_testing::MockContext| {
				execs += 1;
				body(&w2, t, id, execs - 1, tick.now())
			};
			let once = move |tick: rx_core_scheduler_ticking::Tick, _: &mut rx_core_testing::MockContext| {
				body(&w, t, id, 0, tick.now());
			};
			let mut s = me.handle.lock();
			match me.templates[t].kind {
				WK::Immediate => s.schedule_immediate_work(once, cid),
				WK::Delayed(d) => s.schedule_delayed_work(once, Duration::from_millis(d), cid),
				WK::Repeated { interval, start, max } => s.schedule_repeated_work(repeated, Duration::from_millis(interval), start, max, cid),
				WK::Continuous => s.schedule_continuous_work(repeated, cid),
				WK::Invoked(i) => {
					let work = TickedInvokedWorkFactory::<MockContextProvider>::new(repeated);
					s.schedule_invoked_work(work, me.iids[i]);
				}
			}
		}
		Act::Cancel(c) => me.handle.lock().cancel(me.cids[*c]),
		Act::Invoke(i) => me.handle.lock().invoke(me.iids[*i]),
		Act::CancelInvoked(i) => me.handle.lock().cancel_invoked(me.iids[*i]),
	}
}

// -------------------------------------------------------------- generator

const CIDS: usize = 3;
const IIDS: usize = 3;

fn gen_act(src: &mut Src, lo: usize, n: usize) -> Act {
	let can = lo < n;
	match src.weighted(&[if can { 6 } else { 0 }, 2, 3, 1]) {
		0 => Act::Sched(lo + src.idx(n - lo)),
		1 => Act::Cancel(src.idx(CIDS)),
		2 => Act::Invoke(src.idx(IIDS)),
		_ => Act::CancelInvoked(src.idx(IIDS)),
	}
}

fn gen_templates(src: &mut Src) -> Vec<Template> {
	let n = src.usize(1, 6);
	(0..n)
		.map(|i| {
			let kind = match src.weighted(&[3, 3, 4, 2, 3]) {
				0 => WK::Immediate,
				1 => WK::Delayed(*src.pick(&[0, 1, 5, 10, 20, 33])),
				2 => WK::Repeated { interval: *src.pick(&[1, 3, 5, 10, 20, 0]), start: src.chance(1, 2), max: src.usize(0, 4) },
				3 => WK::Continuous,
				_ => WK::Invoked(src.idx(IIDS)),
			};
			let done = match kind {
				WK::Immediate | WK::Delayed(_) => None,
				_ => {
					if src.chance(3, 4) {
						Some(src.usize(1, 6))
					} else {
						None
					}
				}
			};
			let acts = src.list(0, 3, |s| (s.usize(0, 3), gen_act(s, i + 1, n)));
			Template { kind, cid: src.idx(CIDS), done, acts }
		})
		.collect()
}

pub fn executor(src: &mut Src) -> CaseResult {
	let templates = gen_templates(src);
	for (i, t) in templates.iter().enumerate() {
		src.note(|| format!("work {i}: {t:?}"));
	}
	let mut ex = MockExecutor::default();
	let handle = rx_core_common::SchedulerHandle::clone(&handle_of(&ex));
	let (cids, iids) = {
		let mut s = handle.lock();
		((0..CIDS).map(|_| s.generate_cancellation_id()).collect::<Vec<_>>(), (0..IIDS).map(|_| s.generate_invoke_id()).collect::<Vec<_>>())
	};
	let real = Arc::new(Real { templates: templates.clone(), handle, cids, iids, state: Mutex::new((0, vec![], 0)) });
	let mut model =
		Model { templates: templates.clone(), now: 0, queue: vec![], active: vec![], invokable: BTreeMap::new(), scheduled: 0, runs: vec![], tick_no: 0, total: 0 };
	let steps = src.usize(2, 14);
	let mut ticks = 0;
	for step in 0..steps {
		if src.chance(2, 5) || step + 1 == steps {
			let d = *src.pick(&[1u64, 0, 5, 10, 3, 20, 33, 100, 7]);
			src.note(|| format!("step {step}: tick {d}"));
			ticks += 1;
			lk(&real.state).2 += d;
			ex.tick(Duration::from_millis(d));
			model.tick(d);
			let runs = std::mem::take(&mut model.runs);
			let seen = std::mem::take(&mut lk(&real.state).1);
			if runs != seen {
				fail!(
					diff_sig(&runs, &seen, &templates),
					"step {step}: tick by {d} to {}: executed {}, expected {}",
					model.now,
					crate::base::show(&seen),
					crate::base::show(&runs)
				);
			}
			model.total += runs.len();
			if ex.is_empty() != model.empty() {
				fail!("is_empty", "step {step}: is_empty() is {}, work left: {}", ex.is_empty(), !model.empty());
			}
			if ex.now() != Duration::from_millis(model.now) {
				fail!("now", "step {step}: now() is {:?}, expected {} ms", ex.now(), model.now);
			}
		} else {
			let a = gen_act(src, 0, templates.len());
			src.note(|| format!("step {step}: {a:?}"));
			act(&real, &a);
			model.act(&a);
		}
	}
	Ok(Report::new(model.scheduled >= 2 && model.tick_no >= 1 && model.total >= 2)
		.label(model.total > 10, "more than ten executions")
		.label(model.scheduled > 4, "more than four works scheduled")
		.checks(ticks * 3))
}

fn diff_sig(want: &[Run], got: &[Run], _t: &[Template]) -> &'static str {
	if got.iter().any(|g| g.given != g.now) {
		return "wrong time given";
	}
	if got.len() < want.len() {
		"work not executed"
	} else if got.len() > want.len() {
		"work executed that should not be"
	} else {
		"executions differ"
	}
}

fn handle_of(ex: &MockExecutor) -> Handle {
	use rx_core_common::WorkExecutor;
	ex.get_scheduler_handle()
}

/// Every work scheduled by any thread runs exactly once, cancelled ones never
pub fn threads(src: &mut Src) -> CaseResult {
	let threads = src.usize(2, 4);
	let per = src.usize(1, 6);
	let delays: Vec<Vec<u64>> = (0..threads).map(|_| (0..per).map(|_| *src.pick(&[0u64, 0, 1, 5])).collect()).collect();
	src.note(|| format!("{threads} threads schedule works with delays {delays:?}"));
	let mut ex = MockExecutor::default();
	let handle = handle_of(&ex);
	let runs: Arc<Mutex<Vec<(usize, usize)>>> = Arc::default();
	let start = Arc::new(std::sync::Barrier::new(threads + 1));
	let joins: Vec<_> = (0..threads)
		.map(|t| {
			let (handle, runs, start, delays) = (handle.clone(), runs.clone(), start.clone(), delays[t].clone());
			std::thread::spawn(move || {
				start.wait();
				for (i, d) in delays.into_iter().enumerate() {
					let runs = runs.clone();
					let mut s = handle.lock();
					let cid = s.generate_cancellation_id();
					if i % 4 == 3 {
						s.schedule_delayed_work(move |_, _| lk(&runs).push((t, i)), Duration::from_millis(1_000_000), cid);
						s.cancel(cid);
					} else if d == 0 {
						s.schedule_immediate_work(move |_, _| lk(&runs).push((t, i)), cid);
					} else {
						s.schedule_delayed_work(move |_, _| lk(&runs).push((t, i)), Duration::from_millis(d), cid);
					}
				}
			})
		})
		.collect();
	start.wait();
	for _ in 0..3 {
		ex.tick(Duration::from_millis(1));
	}
	for j in joins {
		if j.join().is_err() {
			fail!("thread panicked", "a scheduling thread panicked");
		}
	}
	ex.tick(Duration::from_millis(10));
	ex.tick(Duration::from_millis(2_000_000));
	let mut seen = lk(&runs).clone();
	let mut want: Vec<(usize, usize)> = (0..threads).flat_map(|t| (0..per).filter(|i| i % 4 != 3).map(move |i| (t, i))).collect();
	seen.sort();
	want.sort();
	if seen != want {
		fail!("concurrent scheduling", "executed {seen:?}, expected {want:?}");
	}
	if !ex.is_empty() {
		fail!("is_empty", "work is left after everything ran");
	}
	Ok(Report::new(threads * per > 2).checks(2))
}
