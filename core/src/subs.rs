//! S02: subscriptions and their teardowns

use std::sync::{Arc, Mutex};

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::{
	EraseSubscriptionExtension, Never, OptionSubscription, SharedSubscription, SubscriptionData, SubscriptionLikeExtensionIntoShared, SubscriptionLikePushNotificationExtention, SubscriptionNotification, SubscriptionWithTeardown,
};

use crate::base::{BoxObs, Er, Probe, Seen, V, World, lk};

type Sub = Box<dyn SubscriptionWithTeardown + Send + Sync>;
type Subject = PublishSubject<V, Er>;

/// A handle of the test
enum Handle {
	Shared(SharedSubscription),
	Other(Sub),
}

impl Handle {
	fn like(&mut self) -> &mut dyn SubscriptionWithTeardown {
		match self {
			Handle::Shared(s) => s,
			Handle::Other(s) => &mut **s,
		}
	}
	fn shared(&self) -> Option<SharedSubscription> {
		match self {
			Handle::Shared(s) => Some(s.clone()),
			_ => None,
		}
	}
	fn is_closed(&self) -> bool {
		match self {
			Handle::Shared(s) => s.is_closed(),
			Handle::Other(s) => s.is_closed(),
		}
	}
	fn boxed(self) -> Wrap {
		Wrap(Some(self))
	}
}

/// A subscription of the user that forwards everything
struct Wrap(Option<Handle>);
impl SubscriptionLike for Wrap {
	fn is_closed(&self) -> bool {
		self.0.as_ref().is_none_or(|h| h.is_closed())
	}
	fn unsubscribe(&mut self) {
		if let Some(h) = &mut self.0 {
			h.like().unsubscribe();
		}
	}
}
impl TeardownCollection for Wrap {
	fn add_teardown(&mut self, teardown: Teardown) {
		match &mut self.0 {
			Some(h) => h.like().add_teardown(teardown),
			None => teardown.execute(),
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum New {
	Shared,
	Data,
	DataWith,
	Nothing,
	Subject(usize),
	Iterator,
	Never,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Add {
	/// a closure
	Note,
	/// that was used up before
	Spent,
	/// the handle itself, given away
	Handle(usize),
	/// another handle of the same
	Clone(usize),
	/// a closure that adds to, unsubscribes, queries a handle it owns
	Adds(usize),
	Unsubscribes(usize),
	/// a closure that ends a subject
	Ends(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wr {
	Erase,
	Option,
	Own,
	IntoShared,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
	New(New),
	Clone(usize),
	Add(usize, Add),
	Unsubscribe(usize, bool),
	Drop(usize),
	Wrap(usize, Wr),
	Complete(usize),
	UnsubscribeSubject(usize),
}

/// What the model has for a handle
#[derive(Clone, Copy, Debug)]
struct MH {
	node: usize,
	/// dropping it unsubscribes
	owns: bool,
	shared: bool,
}

#[derive(Debug)]
enum MT {
	Note(usize),
	Unsub(MH),
	/// adds this note to it
	AddNote(MH, usize),
	End(usize),
	/// a subscription of the pipeline itself
	Forget(usize),
}

#[derive(Default, Debug)]
struct Node {
	closed: bool,
	refs: usize,
	teardowns: Vec<MT>,
}

#[derive(Default)]
struct M {
	nodes: Vec<Node>,
	handles: Vec<Option<MH>>,
	ran: Vec<usize>,
	/// subscriptions of each subject, in the order they were made
	subjects: Vec<(bool, Vec<usize>)>,
	/// the order is not determined by the model
	unordered: bool,
}

impl M {
	fn node(&mut self, teardowns: Vec<MT>) -> usize {
		self.nodes.push(Node { closed: false, refs: 1, teardowns });
		self.nodes.len() - 1
	}
	fn close(&mut self, n: usize) {
		if self.nodes[n].closed {
			return;
		}
		self.nodes[n].closed = true;
		for t in std::mem::take(&mut self.nodes[n].teardowns) {
			self.run(t);
		}
	}
	fn run(&mut self, t: MT) {
		match t {
			MT::Note(i) => self.ran.push(i),
			MT::Unsub(h) => {
				self.close(h.node);
				self.release(h);
			}
			MT::AddNote(h, i) => {
				self.add(h.node, MT::Note(i));
				self.release(h);
			}
			MT::End(s) => self.end(s),
			MT::Forget(_) => {}
		}
	}
	fn release(&mut self, h: MH) {
		if h.owns {
			self.close(h.node);
		}
		self.nodes[h.node].refs -= 1;
		if self.nodes[h.node].refs == 0 {
			self.close(h.node);
		}
	}
	fn add(&mut self, n: usize, t: MT) {
		if self.nodes[n].closed {
			self.run(t);
		} else {
			self.nodes[n].teardowns.push(t);
		}
	}
	fn end(&mut self, s: usize) {
		if !self.subjects[s].0 {
			self.subjects[s].0 = true;
			for n in std::mem::take(&mut self.subjects[s].1) {
				self.close(n);
			}
		}
	}
	/// A handle turned into a teardown: nothing is left of a closed one
	fn into_teardown(&mut self, h: MH) -> Option<MT> {
		if self.nodes[h.node].closed {
			self.release(h);
			None
		} else {
			Some(MT::Unsub(h))
		}
	}
}

struct Real {
	world: World,
	handles: Vec<Option<Handle>>,
	subjects: Vec<Subject>,
	notes: usize,
}

impl Real {
	fn note(&mut self) -> (usize, Teardown) {
		let (w, n) = (self.world.clone(), self.notes);
		self.notes += 1;
		(n, Teardown::new(move || w.note(0, "down", n as i64)))
	}
}

pub fn histories(s: &mut Src) -> CaseResult {
	let mut r = Real { world: World::new(), handles: vec![], subjects: (0..2).map(|_| Subject::default()).collect(), notes: 0 };
	let mut m = M { subjects: vec![(false, vec![]); 2], ..Default::default() };
	let with_subjects = s.chance(1, 2);
	let steps = s.usize(4, 2 * s.size as usize + 10);
	let mut checks = 0;
	let mut nested = 0;
	for step in 0..steps {
		r.world.set_step(step);
		m.ran.clear();
		m.unordered = false;
		let open: Vec<usize> = (0..m.handles.len()).filter(|i| m.handles[*i].is_some()).collect();
		let any = if open.is_empty() { 0 } else { 1 };
		let pick = |s: &mut Src| open[s.idx(open.len())];
		let op = match s.weighted(&[if open.len() < 8 { 4 } else { 0 }, 3 * any, 12 * any, 3 * any, 2 * any, 2 * any, if with_subjects { 1 } else { 0 }, if with_subjects { 1 } else { 0 }]) {
			0 => Op::New(match s.weighted(&[6, 2, 1, 1, if with_subjects { 3 } else { 0 }, with_subjects as u64, with_subjects as u64]) {
				0 => New::Shared,
				1 => New::Data,
				2 => New::DataWith,
				3 => New::Nothing,
				4 => New::Subject(s.idx(2)),
				5 => New::Iterator,
				_ => New::Never,
			}),
			1 => Op::Clone(pick(s)),
			2 => {
				let to = pick(s);
				let what = match s.weighted(&[5, 1, 3, 3, 3, 3, if with_subjects { 1 } else { 0 }]) {
					0 => Add::Note,
					1 => Add::Spent,
					2 => Add::Handle(pick(s)),
					3 => Add::Clone(pick(s)),
					4 => Add::Adds(pick(s)),
					5 => Add::Unsubscribes(pick(s)),
					_ => Add::Ends(s.idx(2)),
				};
				Op::Add(to, what)
			}
			3 => Op::Unsubscribe(pick(s), s.chance(1, 4)),
			4 => Op::Drop(pick(s)),
			5 => Op::Wrap(
				pick(s),
				match s.idx(4) {
					0 => Wr::Erase,
					1 => Wr::Option,
					2 => Wr::Own,
					_ => Wr::IntoShared,
				},
			),
			6 => Op::Complete(s.idx(2)),
			_ => Op::UnsubscribeSubject(s.idx(2)),
		};
		s.note(|| format!("  step {step}: {op:?} (new handle {})", r.handles.len()));
		match op {
			Op::New(kind) => {
				let (h, mh) = match kind {
					New::Shared => (Handle::Shared(SharedSubscription::default()), MH { node: m.node(vec![]), owns: false, shared: true }),
					New::Data => (Handle::Other(Box::new(SubscriptionData::default())), MH { node: m.node(vec![]), owns: true, shared: false }),
					New::DataWith => {
						let (n, t) = r.note();
						(Handle::Other(Box::new(SubscriptionData::new_with_teardown(t))), MH { node: m.node(vec![MT::Note(n)]), owns: true, shared: false })
					}
					New::Nothing => {
						let n = m.node(vec![]);
						m.close(n);
						(Handle::Other(Box::new(OptionSubscription::<SharedSubscription>::new(None))), MH { node: n, owns: true, shared: false })
					}
					New::Subject(k) => {
						let (n, t) = r.note();
						let t = Arc::new(Mutex::new(Some(t)));
						let probe = Probe::new(&r.world, 1);
						let sub = r.subjects[k].clone().finalize(move || lk(&t).take().expect("finalized once").execute()).subscribe(probe);
						let node = m.node(vec![MT::Note(n)]);
						if m.subjects[k].0 {
							m.close(node);
						} else {
							m.subjects[k].1.push(node);
						}
						(Handle::Other(Box::new(sub)), MH { node, owns: true, shared: false })
					}
					New::Iterator => {
						let (n, t) = r.note();
						let t = Arc::new(Mutex::new(Some(t)));
						let probe = Probe::new(&r.world, 1);
						let sub = BoxObs::new(IteratorObservable::new(vec![V::I(1), V::I(2)]).map_error(|e: Never| -> Er { match e {} }))
							.finalize(move || lk(&t).take().expect("finalized once").execute())
							.subscribe(probe);
						let node = m.node(vec![MT::Note(n)]);
						m.close(node);
						(Handle::Other(Box::new(sub)), MH { node, owns: true, shared: false })
					}
					New::Never => {
						let (n, t) = r.note();
						let mut probe = Probe::new(&r.world, 1);
						probe.add_teardown(t);
						let sub = NeverObservable::default().map(|e: Never| -> V { match e {} }).map_error(|e: Never| -> Er { match e {} }).subscribe(probe);
						(Handle::Other(Box::new(sub)), MH { node: m.node(vec![MT::Note(n)]), owns: true, shared: false })
					}
				};
				r.handles.push(Some(h));
				m.handles.push(Some(mh));
			}
			Op::Clone(i) => {
				if let Some(c) = r.handles[i].as_ref().unwrap().shared() {
					r.handles.push(Some(Handle::Shared(c)));
					let mh = m.handles[i].unwrap();
					m.nodes[mh.node].refs += 1;
					m.handles.push(Some(mh));
				}
			}
			Op::Add(i, what) => {
				let to = m.handles[i].unwrap().node;
				let shared = |r: &Real, j: usize| r.handles[j].as_ref().unwrap().shared();
				let mut take = None;
				let (t, mt): (Teardown, Option<MT>) = match what {
					Add::Note => {
						let (n, t) = r.note();
						(t, Some(MT::Note(n)))
					}
					Add::Spent => (Teardown::default(), None),
					Add::Handle(j) if j != i => {
						let h = r.handles[j].take().unwrap();
						let mh = m.handles[j].take().unwrap();
						let mt = m.into_teardown(mh);
						let t = match h {
							Handle::Shared(s) => s.into(),
							h => h.boxed().into(),
						};
						(t, mt)
					}
					Add::Clone(j) if shared(&r, j).is_some() => {
						let c = shared(&r, j).unwrap();
						let mh = m.handles[j].unwrap();
						m.nodes[mh.node].refs += 1;
						(c.into(), m.into_teardown(mh))
					}
					Add::Adds(j) if shared(&r, j).is_some() => {
						let mut c = shared(&r, j).unwrap();
						let (n, t) = r.note();
						let mh = m.handles[j].unwrap();
						m.nodes[mh.node].refs += 1;
						take = Some(());
						(Teardown::new(move || c.add(t)), Some(MT::AddNote(mh, n)))
					}
					Add::Unsubscribes(j) if shared(&r, j).is_some() => {
						let mut c = shared(&r, j).unwrap();
						let mh = m.handles[j].unwrap();
						m.nodes[mh.node].refs += 1;
						take = Some(());
						let w = r.world.clone();
						let closed = move || {
							c.unsubscribe();
							if !c.is_closed() {
								w.note(0, "open", 0);
							}
						};
						(Teardown::new_from_box(Box::new(closed)), Some(MT::Unsub(mh)))
					}
					Add::Ends(k) => {
						let mut subject = r.subjects[k].clone();
						m.unordered = true;
						(Teardown::new(move || subject.complete()), Some(MT::End(k)))
					}
					_ => {
						let (n, t) = r.note();
						(t, Some(MT::Note(n)))
					}
				};
				let _ = take;
				if t.is_closed() != mt.is_none() {
					fail!("teardown", "the teardown is closed: {} instead of {}", t.is_closed(), mt.is_none());
				}
				r.handles[i].as_mut().unwrap().like().add_teardown(t);
				if let Some(mt) = mt {
					m.add(to, mt);
				}
			}
			Op::Unsubscribe(i, push) => {
				let h = r.handles[i].as_mut().unwrap().like();
				if push {
					h.push(SubscriptionNotification::Unsubscribe);
				} else {
					h.unsubscribe();
				}
				let mh = m.handles[i].unwrap();
				m.close(mh.node);
			}
			Op::Drop(i) => {
				r.handles[i] = None;
				let mh = m.handles[i].take().unwrap();
				m.release(mh);
			}
			Op::Wrap(i, how) => {
				let h = r.handles[i].take().unwrap();
				let mh = m.handles[i].as_mut().unwrap();
				let was_shared = mh.shared;
				let h = match (how, h) {
					(Wr::Erase, Handle::Shared(s)) => Handle::Other(Box::new(s.erase())),
					(Wr::Erase, h) => Handle::Other(Box::new(h.boxed().erase())),
					(Wr::Option, Handle::Shared(s)) => Handle::Other(Box::new(OptionSubscription::new(Some(s)))),
					(Wr::Option, h) => Handle::Other(Box::new(OptionSubscription::new(Some(h.boxed())))),
					(Wr::IntoShared, h) => Handle::Shared(h.boxed().into_shared()),
					(Wr::Own, h) => h,
				};
				match how {
					Wr::Own => {}
					Wr::IntoShared => {
						let inner = *mh;
						let _ = was_shared;
						// each holds the other
						let node = m.node(vec![]);
						let outer = MH { node, owns: false, shared: true };
						m.handles[i] = Some(outer);
						m.nodes[node].refs += 1;
						m.add(inner.node, MT::Unsub(outer));
						if let Some(t) = m.into_teardown(inner) {
							m.add(node, t);
						}
					}
					_ => *mh = MH { owns: true, shared: false, ..*mh },
				}
				r.handles[i] = Some(h);
			}
			Op::Complete(k) => {
				m.unordered = true;
				r.subjects[k].complete();
				m.end(k);
			}
			Op::UnsubscribeSubject(k) => {
				m.unordered = true;
				r.subjects[k].unsubscribe();
				m.end(k);
			}
		}
		// compare
		let got: Vec<usize> = r.world.of(0).iter().filter(|x| x.step == step).filter_map(|x| if let Seen::Note("down", n) = x.seen { Some(n as usize) } else { None }).collect();
		if r.world.count("open", 0) > 0 {
			fail!("open", "a subscription was open right after it was unsubscribed");
		}
		let (mut a, mut b) = (got.clone(), m.ran.clone());
		if with_subjects || m.unordered {
			a.sort();
			b.sort();
		}
		nested += (b.len() > 1) as usize;
		checks += 1;
		if a != b {
			fail!("teardowns", "step {step} executed the teardowns {got:?} instead of {:?}", m.ran);
		}
		for (i, h) in r.handles.iter().enumerate() {
			let (Some(h), Some(mh)) = (h, m.handles[i]) else { continue };
			checks += 1;
			if h.is_closed() != m.nodes[mh.node].closed {
				fail!("is_closed", "after step {step} handle {i} is closed: {} instead of {}", h.is_closed(), m.nodes[mh.node].closed);
			}
		}
	}
	let ran = r.world.of(0).len();
	Ok(Report::new(ran >= 2).checks(checks).label(nested > 0, "several_in_a_step").label(ran >= 5, "5+_teardowns").label(with_subjects, "with_subjects"))
}

/// Handles used by several threads at once
pub fn threads(s: &mut Src) -> CaseResult {
	let n = s.usize(2, 4);
	let shared = SharedSubscription::default();
	let ran: Arc<Mutex<Vec<usize>>> = Arc::default();
	// what each thread does: true unsubscribes, false adds
	let scripts: Vec<Vec<u8>> = (0..n).map(|_| s.list(1, 6, |s| s.weighted(&[2, 4, 2, 1]) as u8)).collect();
	s.note(|| format!("threads (0 unsubscribes, 1 adds, 2 asks, 3 clones and drops): {scripts:?}"));
	let keep = s.chance(1, 2);
	let mut ids = 0;
	let barrier = Arc::new(std::sync::Barrier::new(n));
	let mut joins = vec![];
	let mut unsubscribes = false;
	for script in scripts.clone() {
		let mut h = shared.clone();
		let (ran, barrier) = (ran.clone(), barrier.clone());
		let first = ids;
		ids += script.iter().filter(|o| **o == 1).count();
		unsubscribes |= script.contains(&0);
		joins.push(std::thread::spawn(move || -> Option<String> {
			barrier.wait();
			let mut next = first;
			let mut closed = false;
			for o in script {
				match o {
					0 => {
						h.unsubscribe();
						closed = true;
					}
					1 => {
						let (ran, id) = (ran.clone(), next);
						next += 1;
						h.add_fn(move || lk(&ran).push(id));
					}
					2 => {
						let c = h.is_closed();
						if closed && !c {
							return Some("it was open after it had been closed".into());
						}
						closed |= c;
					}
					_ => drop(h.clone()),
				}
			}
			// handles stay until everybody is done, nothing is finished by dropping them
			std::mem::forget(h);
			None
		}));
	}
	for j in joins {
		match j.join() {
			Ok(None) => {}
			Ok(Some(e)) => fail!("reopened", "{e}"),
			Err(_) => fail!("panic", "a thread panicked"),
		}
	}
	let mut got = lk(&ran).clone();
	got.sort();
	let all: Vec<usize> = (0..ids).collect();
	if unsubscribes {
		if got != all {
			fail!("teardowns", "after every thread returned the teardowns {got:?} of {ids} were executed");
		}
		if !shared.is_closed() {
			fail!("is_closed", "it is still open");
		}
	} else if !got.is_empty() || shared.is_closed() {
		fail!("teardowns", "the teardowns {got:?} were executed without an unsubscribe");
	}
	let _ = keep;
	Ok(Report::new(unsubscribes && ids > 1).checks(2).label(unsubscribes, "unsubscribed"))
}
