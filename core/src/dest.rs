//! Destinations wrapped in towers of `Arc<Mutex>`, `Arc<RwLock>`, `Weak`,
//! `Box`, erased, shared and optional subscribers, reached through any handle.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock, Weak};

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::{BoxedSubscriber, ErasedSubscriber, SharedDestination, SharedSubscriber};

use crate::base::*;

type B = BoxedSubscriber<V, Er>;

enum H {
	Mutex(Arc<Mutex<B>>),
	RwLock(Arc<RwLock<B>>),
	Weak(Weak<Mutex<B>>),
	Box(Box<B>),
	Erased(ErasedSubscriber<V, Er>),
	Shared(SharedSubscriber<B>),
	Opt(Option<B>),
}

macro_rules! with {
	($h:expr, $x:ident => $e:expr) => {
		match $h {
			H::Mutex($x) => $e,
			H::RwLock($x) => $e,
			H::Weak($x) => $e,
			H::Box($x) => $e,
			H::Erased($x) => $e,
			H::Shared($x) => $e,
			H::Opt($x) => $e,
		}
	};
}

#[derive(Clone, Debug)]
enum Sig {
	Next(i64),
	Error(i64),
	Complete,
	Unsubscribe,
}

impl H {
	fn send(&mut self, sig: &Sig) {
		match sig {
			Sig::Next(v) => with!(self, x => x.next(V::I(*v))),
			Sig::Error(e) => with!(self, x => x.error(Er(*e))),
			Sig::Complete => with!(self, x => x.complete()),
			Sig::Unsubscribe => with!(self, x => x.unsubscribe()),
		}
	}
	fn closed(&self) -> bool {
		with!(self, x => x.is_closed())
	}
	fn add(&mut self, t: Teardown) {
		with!(self, x => x.add_teardown(t))
	}
	/// Through `access` and `access_mut`: how often the functions were called
	/// and what was seen
	fn access(&mut self, sig: &Sig) -> (usize, Option<bool>) {
		fn f<D: SharedDestination<B>>(d: &mut D, sig: &Sig) -> (usize, Option<bool>) {
			let looked = Mutex::new(None);
			d.access(|d| *lk(&looked) = Some(d.is_closed()));
			let mut n = 0;
			d.access_mut(|d| {
				n += 1;
				match sig {
					Sig::Next(v) => d.next(V::I(*v)),
					Sig::Error(e) => d.error(Er(*e)),
					Sig::Complete => d.complete(),
					Sig::Unsubscribe => d.unsubscribe(),
				}
			});
			let looked = *lk(&looked);
			(n, looked)
		}
		match self {
			H::Mutex(x) => f(x, sig),
			H::RwLock(x) => f(x, sig),
			H::Weak(x) => f(x, sig),
			H::Shared(x) => f(x, sig),
			_ => unreachable!(),
		}
	}
	fn dup(&self) -> H {
		match self {
			H::Mutex(x) => H::Mutex(x.clone()),
			H::RwLock(x) => H::RwLock(x.clone()),
			H::Weak(x) => H::Weak(x.clone()),
			H::Shared(x) => H::Shared(x.clone()),
			_ => unreachable!(),
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum L {
	Mutex,
	RwLock,
	Weak,
	Box,
	Erased,
	Shared,
	Opt,
	Nothing,
}

impl L {
	fn clones(self) -> bool {
		matches!(self, L::Mutex | L::RwLock | L::Weak | L::Shared)
	}
}

/// Layers from the inside out. `refs[i]` counts what keeps layer `i` alive:
/// handles, the layer around it, strong references of a weak one
struct M {
	layers: Vec<L>,
	refs: Vec<usize>,
	poisoned: Vec<bool>,
	closed: bool,
	out: Vec<Ev>,
	ran: Vec<i64>,
	pending: Vec<i64>,
	/// re-entrant signals wait until the current one is through
	queue: Vec<Sig>,
	/// a closing signal was accepted by the shared layer in use
	observed: bool,
	seen: usize,
	plan: Vec<Vec<Sig>>,
	panic_at: Option<usize>,
	values: usize,
	panicked: bool,
}

impl M {
	fn close(&mut self) {
		if !self.closed {
			self.closed = true;
			let p = std::mem::take(&mut self.pending);
			self.ran.extend(p);
		}
	}
	/// Is anything left of layer `i`
	fn gone(&self, i: usize) -> bool {
		self.refs[i] == 0
	}
	fn release(&mut self, i: usize) {
		self.refs[i] -= 1;
		if self.refs[i] == 0 {
			if self.layers[i] == L::Erased && self.unsub_reaches(i) {
				self.close();
			}
			if i == 0 {
				self.close();
			} else if self.layers[i] != L::Nothing {
				self.let_go(i - 1);
			}
		}
	}
	/// A handle of layer `i` or the layer around it went away
	fn let_go(&mut self, i: usize) {
		if self.layers[i] != L::Weak {
			self.release(i);
		}
	}
	/// Does a signal into layer `i` reach the probe. `None` when a poisoned
	/// lock turns it into an unsubscribe
	fn path(&self, i: usize) -> Option<bool> {
		for k in (0..=i).rev() {
			match self.layers[k] {
				L::Nothing => return Some(false),
				L::Weak if self.gone(k) => return Some(false),
				_ => {}
			}
			if self.poisoned[k] {
				return None;
			}
		}
		Some(true)
	}
	/// Unsubscribing ignores poison but needs something to be there
	fn unsub_reaches(&self, i: usize) -> bool {
		(0..=i).rev().all(|k| self.layers[k] != L::Nothing && !(self.layers[k] == L::Weak && self.gone(k)))
	}
	fn says_closed(&self, i: usize) -> bool {
		!self.unsub_reaches(i) || self.closed
	}
	fn send(&mut self, i: usize, sig: &Sig) {
		if let Sig::Unsubscribe = sig {
			if self.unsub_reaches(i) {
				self.deliver(sig.clone(), i);
			}
			return;
		}
		match self.path(i) {
			None => {
				if self.unsub_reaches(i) {
					self.close();
				}
			}
			Some(false) => {}
			Some(true) => self.deliver(sig.clone(), i),
		}
	}
	fn deliver(&mut self, sig: Sig, i: usize) {
		self.one(sig, i);
		while !self.queue.is_empty() {
			let s = self.queue.remove(0);
			self.one(s, i);
		}
	}
	fn one(&mut self, sig: Sig, i: usize) {
		if self.closed {
			return;
		}
		if !matches!(sig, Sig::Next(_)) {
			self.observed = true;
		}
		match sig {
			Sig::Next(v) => {
				self.out.push(Ev::Next(V::I(v)));
				self.values += 1;
				if self.panic_at == Some(self.values) {
					self.panicked = true;
					for k in 0..=i {
						if matches!(self.layers[k], L::Mutex | L::RwLock | L::Weak | L::Shared) {
							self.poisoned[k] = true;
						}
					}
					return;
				}
				self.react();
			}
			Sig::Error(e) => {
				self.out.push(Ev::Error(Er(e)));
				self.react();
				self.close();
			}
			Sig::Complete => {
				self.out.push(Ev::Complete);
				self.react();
				self.close();
			}
			Sig::Unsubscribe => self.close(),
		}
	}
	fn react(&mut self) {
		let k = self.seen;
		self.seen += 1;
		for s in self.plan.get(k).cloned().unwrap_or_default() {
			self.queued(s);
		}
	}
	/// Sent through a shared layer that is in use
	fn queued(&mut self, s: Sig) {
		if self.observed {
			return;
		}
		if !matches!(s, Sig::Next(_)) {
			self.observed = true;
		}
		self.queue.push(s);
	}
}

fn sig(s: &mut Src, ends: u64) -> Sig {
	match s.weighted(&[12, ends, ends, ends]) {
		0 => Sig::Next(s.range(0, 99)),
		1 => Sig::Error(s.range(0, 9)),
		2 => Sig::Complete,
		_ => Sig::Unsubscribe,
	}
}

pub fn towers(s: &mut Src) -> CaseResult {
	let world = World::new();
	let n = s.usize(1, 5);
	let mode = s.weighted(&[3, 4, 2]); // plain, re-entrant, panicking
	let mut layers: Vec<L> = (0..n)
		.map(|_| match s.weighted(&[3, 3, 2, 1, 2, if mode == 2 { 0 } else { 4 }]) {
			0 => L::Mutex,
			1 => L::RwLock,
			2 => L::Weak,
			3 => L::Box,
			4 => L::Erased,
			_ => L::Shared,
		})
		.collect();
	let entry = if mode == 1 {
		let at = s.idx(n);
		layers[at] = L::Shared;
		Some(at)
	} else {
		None
	};
	match s.weighted(&[8, 2, 1]) {
		0 => {}
		1 => layers.push(L::Opt),
		_ => layers.push(L::Nothing),
	}
	let n = layers.len();
	let plan: Vec<Vec<Sig>> = if entry.is_some() { s.list(0, 4, |s| s.list(0, 3, |s| sig(s, 1))) } else { vec![] };
	let panic_at = if mode == 2 { Some(s.usize(1, 3)) } else { None };
	s.note(|| format!("layers (inside out) {layers:?}, reacts through layer {entry:?} with {plan:?}, panics at {panic_at:?}"));
	let mut m = M {
		refs: vec![0; n],
		poisoned: vec![false; n],
		closed: false,
		out: vec![],
		ran: vec![],
		pending: vec![],
		queue: vec![],
		observed: false,
		seen: 0,
		plan: plan.clone(),
		panic_at,
		values: 0,
		panicked: false,
		layers: layers.clone(),
	};
	// the reaction
	let through: Arc<Mutex<Option<SharedSubscriber<B>>>> = Arc::default();
	let fired = Arc::new(AtomicUsize::new(0));
	let values = AtomicUsize::new(0);
	let mut looks_wrong: Option<String> = None;
	let wrong: Arc<Mutex<Option<String>>> = Arc::default();
	let reaction: Reaction = {
		let (through, fired, plan, wrong) = (through.clone(), fired.clone(), plan.clone(), wrong.clone());
		Arc::new(move |_, e| {
			if matches!(e, Ev::Next(_)) && panic_at == Some(values.fetch_add(1, Ordering::SeqCst) + 1) {
				panic!("the observer panics");
			}
			let k = fired.fetch_add(1, Ordering::SeqCst);
			let t = lk(&through).clone();
			if let Some(mut t) = t {
				for sig in plan.get(k).into_iter().flatten() {
					let before = t.is_closed();
					match sig {
						Sig::Next(v) => t.next(V::I(*v)),
						Sig::Error(e) => t.error(Er(*e)),
						Sig::Complete => t.complete(),
						Sig::Unsubscribe => t.unsubscribe(),
					}
					let after = t.is_closed();
					let closing = !matches!(sig, Sig::Next(_));
					if after != (before || closing) {
						*lk(&wrong) = Some(format!("is_closed() was {before} before {sig:?} was sent by the observer and {after} after it"));
					}
				}
			}
		})
	};
	let mut handles: Vec<Option<(usize, H)>> = vec![];
	let mut strongs: Vec<Option<(usize, Arc<Mutex<B>>)>> = vec![];
	let user = s.chance(1, 2);
	let mut inner: B = if user {
		Box::new(rx_core_common::UpgradeableObserver::upgrade(UserObserver::new(&world, 0).reacting(reaction)))
	} else {
		Box::new(Probe::new(&world, 0).reacting(reaction))
	};
	for (i, l) in layers.iter().enumerate() {
		let last = i + 1 == n;
		m.refs[i] += 1; // the layer around it, or the last handle
		let h = match l {
			L::Mutex => H::Mutex(Arc::new(Mutex::new(inner))),
			L::RwLock => H::RwLock(Arc::new(RwLock::new(inner))),
			L::Weak => {
				let strong = Arc::new(Mutex::new(inner));
				let w = Arc::downgrade(&strong);
				strongs.push(Some((i, strong)));
				H::Weak(w)
			}
			L::Box => H::Box(Box::new(inner)),
			L::Erased => H::Erased(ErasedSubscriber::new(inner)),
			L::Shared => H::Shared(SharedSubscriber::new(inner)),
			L::Opt => H::Opt(Some(inner)),
			L::Nothing => {
				m.let_go(i - 1);
				drop(inner);
				H::Opt(None)
			}
		};
		if entry == Some(i)
			&& let H::Shared(x) = &h
		{
			*lk(&through) = Some(x.clone());
			m.refs[i] += 1;
		}
		if l.clones() && !last && entry.is_none_or(|e| i >= e) && s.chance(2, 3) {
			handles.push(Some((i, h.dup())));
			if *l != L::Weak {
				m.refs[i] += 1;
			}
		}
		if last {
			handles.push(Some((i, h)));
			break;
		}
		inner = match h {
			H::Mutex(x) => Box::new(x),
			H::RwLock(x) => Box::new(x),
			H::Weak(x) => Box::new(x),
			H::Box(x) => Box::new(x),
			H::Erased(x) => Box::new(x),
			H::Shared(x) => Box::new(x),
			H::Opt(_) => unreachable!(),
		};
	}
	let steps = s.usize(2, s.size as usize / 2 + 6);
	let mut teardowns = 0;
	let mut checks = 0;
	let mut sent = 0;
	let mut locked = 0;
	for step in 0..=steps {
		world.set_step(step);
		let open: Vec<usize> = (0..handles.len()).filter(|i| handles[*i].is_some()).collect();
		let alive: Vec<usize> = (0..strongs.len()).filter(|i| strongs[*i].is_some()).collect();
		let op = if step == steps || open.is_empty() {
			9
		} else {
			s.weighted(&[12, 4, 2, 1, if alive.is_empty() { 0 } else { 1 }, 2, 2])
		};
		match op {
			0 => {
				let k = *s.pick(&open);
				let mut sig = sig(s, 1);
				let (i, h) = handles[k].as_mut().unwrap();
				if matches!(sig, Sig::Error(_)) && layers[*i] == L::Nothing {
					sig = Sig::Complete; // errors into nothing panic by design
				}
				s.note(|| format!("  step {step}: {sig:?} into handle {k} (layer {i})"));
				sent += 1;
				let was = m.panicked;
				m.send(*i, &sig);
				let r = pbt::catching(|| h.send(&sig));
				if r.is_err() != (m.panicked && !was) {
					fail!("panic", "step {step}: {:?}, the observer panicked: {}", r.err(), m.panicked && !was);
				}
			}
			1 => {
				let k = *s.pick(&open);
				let t = teardowns;
				teardowns += 1;
				let (i, h) = handles[k].as_mut().unwrap();
				s.note(|| format!("  step {step}: add teardown {t} through handle {k} (layer {i})"));
				let w = world.clone();
				h.add(Teardown::new(move || w.note(1, "down", t)));
				match m.path(*i) {
					Some(true) if !m.closed => m.pending.push(t),
					Some(_) => m.ran.push(t),
					None => {
						m.ran.push(t);
						if m.unsub_reaches(*i) {
							m.close();
						}
					}
				}
			}
			2 => {
				let k = *s.pick(&open);
				let (i, h) = handles[k].as_ref().unwrap();
				let i = *i;
				if layers[i].clones() {
					s.note(|| format!("  step {step}: clone handle {k} (layer {i}, new handle {})", handles.len()));
					let c = h.dup();
					handles.push(Some((i, c)));
					if layers[i] != L::Weak {
						m.refs[i] += 1;
					}
				}
			}
			3 => {
				let k = *s.pick(&open);
				let (i, h) = handles[k].take().unwrap();
				s.note(|| format!("  step {step}: drop handle {k} (layer {i})"));
				drop(h);
				m.let_go(i);
			}
			4 => {
				let k = *s.pick(&alive);
				let (i, x) = strongs[k].take().unwrap();
				s.note(|| format!("  step {step}: drop what the weak layer {i} refers to"));
				drop(x);
				m.release(i);
			}
			5 => {
				// hold the lock of a shared destination while others use it
				let shared: Vec<usize> = open.iter().copied().filter(|k| matches!(handles[*k], Some((i, H::Shared(_))) if m.path(i) == Some(true) && entry.is_none_or(|e| i >= e))).collect();
				if shared.is_empty() || m.panicked {
					continue;
				}
				let k = *s.pick(&shared);
				let i = handles[k].as_ref().unwrap().0;
				// another way in, besides the one that is locked
				let c = handles[k].as_ref().unwrap().1.dup();
				let another = handles.len();
				handles.push(Some((i, c)));
				m.refs[i] += 1;
				let Some((_, H::Shared(owner))) = handles[k].take() else { unreachable!() };
				let sigs = s.list(1, 4, |s| sig(s, 1));
				let via: Vec<usize> = (0..handles.len()).filter(|k| matches!(handles[*k], Some((j, _)) if j >= i && m.path(j) == Some(true))).collect();
				let through: Vec<usize> = sigs.iter().map(|_| *s.pick(&via)).collect();
				let then = s.chance(1, 2).then(|| sig(s, (entry != Some(i)) as u64));
				s.note(|| format!("  step {step}: {sigs:?} into handles {through:?} while handle {k} is locked, followed by {then:?} into {another}, a clone of {k}"));
				locked += 1;
				let was_closed = m.closed;
				let mut ended = was_closed;
				let closing = sigs.iter().any(|g| !matches!(g, Sig::Next(_)));
				{
					let guard = owner.lock();
					for (sig, t) in sigs.iter().zip(&through) {
						let (_, h) = handles[*t].as_mut().unwrap();
						h.send(sig);
						sent += 1;
					}
					if world.evs(0) != m.out {
						fail!("locked", "step {step}: something was delivered while the destination was locked: {}", show(&world.evs(0)));
					}
					drop(guard);
				}
				if was_closed {
				} else if entry.is_some_and(|e| e < i) {
					// each is followed by what the observer sends in reply
					for g in sigs {
						if !ended {
							ended = !matches!(g, Sig::Next(_));
							m.deliver(g, i);
						}
					}
				} else {
					for g in sigs {
						m.queued(g);
					}
					if !m.queue.is_empty() {
						let g = m.queue.remove(0);
						m.deliver(g, i);
					}
				}
				handles[k] = Some((i, H::Shared(owner)));
				let Some((_, h)) = &mut handles[another] else { unreachable!() };
				match then {
					// the next use delivers what waits, and then what is sent
					Some(g) => {
						if h.closed() != (was_closed || closing) {
							fail!("locked_closed", "step {step}: is_closed() = {} once the destination is no longer locked", h.closed());
						}
						h.send(&g);
						m.send(i, &g);
					}
					None => drop(h.dup()),
				}
			}
			6 => {
				// by way of access_mut, what the observer sends back then waits for
				// the next use of the layer
				let fit: Vec<usize> = open
					.iter()
					.copied()
					.filter(|k| matches!(&handles[*k], Some((i, _)) if layers[*i].clones() && (*i == 0 || m.path(*i - 1) != Some(false)) && entry.is_none_or(|e| *i > e)))
					.collect();
				if fit.is_empty() {
					continue;
				}
				let k = *s.pick(&fit);
				let sig = sig(s, 1);
				let (i, h) = handles[k].as_mut().unwrap();
				let i = *i;
				s.note(|| format!("  step {step}: {sig:?} by access_mut of handle {k} (layer {i})"));
				let was = m.panicked;
				let there = !m.poisoned[i] && !(layers[i] == L::Weak && m.gone(i));
				let closed = if i == 0 { m.closed } else { m.says_closed(i - 1) };
				if there {
					if i == 0 {
						m.deliver(sig.clone(), 0);
					} else {
						m.send(i - 1, &sig);
						if m.panicked && !was {
							m.poisoned[i] = true;
						}
					}
				}
				let r = pbt::catching(|| h.access(&sig));
				match r {
					Ok(r) if m.panicked == was => {
						if r != (there as usize, there.then_some(closed)) {
							fail!("access", "step {step}: access_mut called its function {} times, access saw is_closed() = {:?}, expected {there}, {closed}", r.0, r.1);
						}
					}
					Err(_) if m.panicked && !was => {}
					r => fail!("panic", "step {step}: {:?}, the observer panicked: {}", r.err(), m.panicked && !was),
				}
			}
			_ => {
				s.note(|| format!("  step {step}: drop everything"));
				*lk(&through) = None;
				for h in handles.iter_mut() {
					*h = None;
				}
				for x in strongs.iter_mut() {
					*x = None;
				}
				m.close();
			}
		}
		// compare
		if let Some(w) = lk(&wrong).take() {
			looks_wrong = Some(w);
		}
		if let Some(w) = looks_wrong {
			fail!("reaction_closed", "step {step}: {w}");
		}
		let log = world.log();
		if user && let Some(r) = log.iter().find(|r| matches!(r.seen, Seen::Late(_))) {
			fail!("late", "step {step}: notified after its end: {r}");
		}
		let got = world.evs(0);
		checks += got.len() + handles.len() + 1;
		if got != m.out {
			fail!("events", "step {step}: the destination saw {}\nexpected {}", show(&got), show(&m.out));
		}
		let ran: Vec<i64> = log
			.iter()
			.filter_map(|r| match r.seen {
				Seen::Note("down", n) => Some(n),
				_ => None,
			})
			.collect();
		if ran != m.ran {
			fail!("teardowns", "step {step}: teardowns executed {ran:?}, expected {:?}", m.ran);
		}
		for (k, h) in handles.iter().enumerate() {
			if let Some((i, h)) = h
				&& h.closed() != m.says_closed(*i)
			{
				fail!("closed", "step {step}: handle {k} (layer {i}) says is_closed() = {}, expected {}", h.closed(), m.says_closed(*i));
			}
		}
		if op == 9 {
			break;
		}
	}
	Ok(Report::new(!m.out.is_empty() && n > 1)
		.checks(checks)
		.label(mode == 1 && m.seen > 0 && sent > 1, "re_entrant")
		.label(locked > 0, "locked")
		.label(m.panicked, "panicked")
		.label(!strongs.is_empty(), "weak")
		.label(teardowns > 0, "teardowns")
		.label(n > 3, "4+_layers"))
}
