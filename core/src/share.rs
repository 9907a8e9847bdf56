//! K01: connectable and shared observables against a reference model

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_operator_share::observable::ShareObservable;
use rx_core_common::{ErasedSubscription, Provider, SubjectLike};
use std::sync::{Arc, Mutex};

use crate::base::*;
use crate::ops::subscribe_kind;
use crate::subjects::SK;
use crate::sync::*;

// ---------------------------------------------------------------- uniform access

trait DynConn: Send {
	fn obs(&self) -> BoxObs;
	fn connect(&mut self) -> Box<dyn SubscriptionLike>;
	fn disconnect(&mut self) -> bool;
	fn is_connected(&self) -> bool;
	/// false: there is no such thing
	fn reset(&mut self) -> bool;
	fn dup(&self) -> Box<dyn DynConn>;
}

struct ConnBox<P>(ConnectableObservable<BoxObs, P>)
where
	P: 'static + Provider + Send + Sync,
	P::Provided: SubjectLike<In = V, InError = Er, Out = V, OutError = Er> + Clone + Send + Sync;
struct ShareBox<P>(ShareObservable<BoxObs, P>)
where
	P: 'static + Provider + Send + Sync,
	P::Provided: SubjectLike<In = V, InError = Er, Out = V, OutError = Er> + Clone + Send + Sync;

impl<P> DynConn for ConnBox<P>
where
	P: 'static + Provider + Send + Sync,
	P::Provided: SubjectLike<In = V, InError = Er, Out = V, OutError = Er> + Clone + Send + Sync,
{
	fn obs(&self) -> BoxObs {
		BoxObs::cloneable(self.0.clone())
	}
	fn connect(&mut self) -> Box<dyn SubscriptionLike> {
		Box::new(self.0.connect())
	}
	fn disconnect(&mut self) -> bool {
		self.0.disconnect()
	}
	fn is_connected(&self) -> bool {
		self.0.is_connected()
	}
	fn reset(&mut self) -> bool {
		self.0.reset();
		true
	}
	fn dup(&self) -> Box<dyn DynConn> {
		Box::new(ConnBox(self.0.clone()))
	}
}
impl<P> DynConn for ShareBox<P>
where
	P: 'static + Provider + Send + Sync,
	P::Provided: SubjectLike<In = V, InError = Er, Out = V, OutError = Er> + Clone + Send + Sync,
{
	fn obs(&self) -> BoxObs {
		BoxObs::cloneable(self.0.clone())
	}
	fn connect(&mut self) -> Box<dyn SubscriptionLike> {
		Box::new(self.0.connect())
	}
	fn disconnect(&mut self) -> bool {
		self.0.disconnect()
	}
	fn is_connected(&self) -> bool {
		self.0.is_connected()
	}
	fn reset(&mut self) -> bool {
		false
	}
	fn dup(&self) -> Box<dyn DynConn> {
		Box::new(ShareBox(self.0.clone()))
	}
}

#[derive(Clone, Copy, Debug)]
struct Opt {
	share: bool,
	refcount: bool,
	on_disconnect: bool,
	on_complete: bool,
	on_error: bool,
}

fn make(kind: SK, o: Opt, source: BoxObs) -> Box<dyn DynConn> {
	fn go<P>(provider: P, o: Opt, source: BoxObs) -> Box<dyn DynConn>
	where
		P: 'static + Provider + Send + Sync,
		P::Provided: SubjectLike<In = V, InError = Er, Out = V, OutError = Er> + Clone + Send + Sync,
	{
		let options = ConnectableOptions {
			connector_provider: provider,
			disconnect_when_ref_count_zero: o.refcount,
			reset_connector_on_disconnect: o.on_disconnect,
			reset_connector_on_error: o.on_error,
			reset_connector_on_complete: o.on_complete,
		};
		if o.share { Box::new(ShareBox(source.share(options))) } else { Box::new(ConnBox(ConnectableObservable::new(source, options))) }
	}
	match kind {
		SK::Publish => go(ProvideWithDefault::<PublishSubject<V, Er>>::default(), o, source),
		SK::Behavior(i) => go(move || BehaviorSubject::<V, Er>::new(V::I(i)), o, source),
		SK::Replay(_) => go(ReplaySubject::<2, V, Er>::default, o, source),
		_ => go(AsyncSubject::<V, Er>::default, o, source),
	}
}

// ---------------------------------------------------------------- model

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tail {
	None,
	Take(usize),
	Retry(usize),
}

#[derive(Clone, Debug)]
struct ConnectorM {
	store: Vec<V>,
	terminal: Option<Ev>,
}

#[derive(Clone, Debug)]
struct SubM {
	on: usize,
	open: bool,
	counted: bool,
	tail: Tail,
	evs: Vec<(usize, Ev)>,
}

struct M {
	kind: SK,
	o: Opt,
	connectors: Vec<ConnectorM>,
	connector: Option<usize>,
	conn: Option<usize>,
	connecting: bool,
	dropped_to_zero: bool,
	prefix: Vec<V>,
	/// how the current source ended
	ended: Option<MEv>,
	subs: Vec<SubM>,
	count: usize,
	step: usize,
	connects: usize,
}

impl M {
	fn current(&mut self) -> usize {
		if let Some(c) = self.connector {
			return c;
		}
		self.connectors.push(ConnectorM {
			store: match self.kind {
				SK::Behavior(i) => vec![V::I(i)],
				_ => vec![],
			},
			terminal: None,
		});
		self.connector = Some(self.connectors.len() - 1);
		self.connectors.len() - 1
	}
	fn subscribe(&mut self, tail: Tail) {
		self.subs.push(SubM { on: 0, open: false, counted: false, tail, evs: vec![] });
		self.attach(self.subs.len() - 1);
	}
	fn attach(&mut self, i: usize) {
		let c = self.current();
		self.subs[i].on = c;
		self.subs[i].open = true;
		self.subs[i].counted = false;
		let ConnectorM { store, terminal } = self.connectors[c].clone();
		let replay = match self.kind {
			SK::Publish => vec![],
			SK::Behavior(_) | SK::Replay(_) if !matches!(terminal, Some(Ev::Error(_))) => store,
			SK::Async if terminal == Some(Ev::Complete) => store,
			_ => vec![],
		};
		for v in replay {
			self.deliver(i, c, Ev::Next(v));
		}
		if let Some(t) = terminal {
			self.deliver(i, c, t);
		}
		if self.subs[i].open && self.subs[i].on == c {
			self.subs[i].counted = true;
			self.count += 1;
			if self.o.share {
				self.connect();
			}
		}
	}
	fn deliver(&mut self, i: usize, c: usize, e: Ev) {
		let s = &mut self.subs[i];
		if !s.open || s.on != c {
			return;
		}
		let st = self.step;
		match (&mut s.tail, e) {
			(Tail::Take(left), Ev::Next(v)) => {
				*left -= 1;
				s.evs.push((st, Ev::Next(v)));
				if *left == 0 {
					s.evs.push((st, Ev::Complete));
					self.close(i);
				}
			}
			(Tail::Retry(left), Ev::Error(_)) if *left > 0 => {
				*left -= 1;
				self.close(i);
				self.attach(i);
			}
			(_, e) => {
				let terminal = !matches!(e, Ev::Next(_));
				s.evs.push((st, e));
				if terminal {
					self.close(i);
				}
			}
		}
	}
	fn close(&mut self, i: usize) {
		if !self.subs[i].open {
			return;
		}
		self.subs[i].open = false;
		if self.subs[i].counted {
			self.subs[i].counted = false;
			self.count -= 1;
			if self.count == 0 && self.o.refcount {
				self.dropped_to_zero = self.connecting;
				self.disconnect();
			}
		}
	}
	fn connect(&mut self) {
		if self.conn.is_some() {
			return;
		}
		let c = self.current();
		self.connects += 1;
		if self.connectors[c].terminal.is_some() {
			return;
		}
		self.conn = Some(c);
		for v in self.prefix.clone() {
			self.feed(MEv::Next(v));
		}
		if let Some(e) = self.ended.clone() {
			self.feed(e);
		}
	}
	fn feed(&mut self, e: MEv) {
		let Some(c) = self.conn else { return };
		let all: Vec<usize> = (0..self.subs.len()).filter(|i| self.subs[*i].open && self.subs[*i].on == c).collect();
		match e {
			MEv::Next(v) => {
				let store = &mut self.connectors[c].store;
				match self.kind {
					SK::Publish => {}
					SK::Replay(n) => {
						store.push(v.clone());
						if store.len() > n {
							store.remove(0);
						}
					}
					_ => *store = vec![v.clone()],
				}
				if self.kind != SK::Async {
					for i in all {
						self.deliver(i, c, Ev::Next(v.clone()));
					}
				}
			}
			MEv::Unsub => {
				self.disconnect();
			}
			t => {
				let t = t.to_ev().unwrap();
				let complete = t == Ev::Complete;
				self.conn = None;
				if if complete { self.o.on_complete } else { self.o.on_error } {
					self.connector = None;
				}
				self.connectors[c].terminal = Some(t.clone());
				if complete && self.kind == SK::Async {
					for v in self.connectors[c].store.clone() {
						for i in &all {
							self.deliver(*i, c, Ev::Next(v.clone()));
						}
					}
				}
				for i in all {
					self.deliver(i, c, t.clone());
				}
			}
		}
	}
	fn disconnect(&mut self) -> bool {
		if self.conn.take().is_none() {
			return false;
		}
		if self.o.on_disconnect {
			self.connector = None;
		}
		true
	}
}

// ---------------------------------------------------------------- driver

const UP: usize = 2000;

#[derive(Debug, Clone)]
enum Act {
	Subscribe(usize, Tail),
	Unsub(usize),
	Drop(usize),
	Connect,
	Disconnect,
	HandleUnsub,
	Reset,
	Next(V),
	Error(Er),
	Complete,
	SourceUnsub,
	Fresh,
}

pub fn shared(s: &mut Src) -> CaseResult {
	let world = World::new();
	let kind = match s.weighted(&[4, 2, 2, 1]) {
		0 => SK::Publish,
		1 => SK::Behavior(s.range(0, 9)),
		2 => SK::Replay(2),
		_ => SK::Async,
	};
	let o = Opt { share: s.chance(1, 2), refcount: s.chance(1, 2), on_disconnect: s.chance(1, 2), on_complete: s.chance(1, 2), on_error: s.chance(1, 2) };
	let prefix: Vec<V> = if s.chance(1, 4) { s.list(1, 2, gen_value) } else { vec![] };
	let source: Arc<Mutex<PublishSubject<V, Er>>> = Arc::default();
	let upstream = {
		let (source, world, prefix) = (source.clone(), world.clone(), prefix.clone());
		BoxObs::new(deferred_observable(move || {
			world.note(UP, "up", 0);
			let w = world.clone();
			let src = lk(&source).clone();
			let mut o = BoxObs::cloneable(src.finalize(move || w.note(UP, "down", 0)));
			for v in prefix.iter().rev() {
				o = BoxObs::cloneable(o.start_with(v.clone()));
			}
			o
		}))
	};
	s.note(|| format!("connector {kind:?} {o:?} the source starts with {}", show(&prefix)));
	let mut conns = vec![make(kind, o, upstream)];
	let mut m = M {
		kind,
		o,
		connectors: vec![],
		connector: None,
		conn: None,
		connecting: false,
		dropped_to_zero: false,
		prefix,
		ended: None,
		subs: vec![],
		count: 0,
		step: 0,
		connects: 0,
	};
	let mut handle: Option<(Box<dyn SubscriptionLike>, usize)> = None;
	let mut handles: Vec<Option<ErasedSubscription>> = vec![];
	let steps = s.usize(2, s.size as usize + 6);
	let (mut fed, mut checks, mut rounds) = (0, 0, 0);
	for step in 0..steps {
		world.set_step(step);
		m.step = step;
		let act = match s.weighted(&[5, 2, 1, 3, 2, 1, 1, 9, 2, 2, 1, if m.ended.is_some() { 6 } else { 0 }]) {
			0 => Act::Subscribe(
				s.idx(4),
				match s.weighted(&[4, 2, 2]) {
					0 => Tail::None,
					1 => Tail::Take(s.usize(1, 3)),
					// retry at a synchronous error is the subject of O05
					_ if o.on_error && !matches!(m.ended, Some(MEv::Error(_))) && (m.prefix.is_empty() || m.subs.iter().all(|s| !s.open || !matches!(s.tail, Tail::Retry(_)))) => Tail::Retry(1000),
					_ => Tail::None,
				},
			),
			1 if !handles.is_empty() => Act::Unsub(s.idx(handles.len())),
			2 if !handles.is_empty() => Act::Drop(s.idx(handles.len())),
			3 => Act::Connect,
			4 => Act::Disconnect,
			5 => Act::HandleUnsub,
			6 => Act::Reset,
			8 => Act::Error(Er(s.range(1, 9))),
			9 => Act::Complete,
			10 => Act::SourceUnsub,
			11 => Act::Fresh,
			_ => Act::Next(gen_value(s)),
		};
		// which of the clones is used
		if s.chance(1, 6) && conns.len() < 3 {
			let c = conns[0].dup();
			conns.push(c);
		}
		let k = s.idx(conns.len());
		s.note(|| format!("  step {step}: {act:?} (clone {k})"));
		let conn = &mut conns[k];
		match act {
			Act::Subscribe(observer, tail) => {
				let base = conn.obs();
				let mut obs = match tail {
					Tail::None => base,
					Tail::Take(n) => BoxObs::cloneable(base.take(n)),
					Tail::Retry(n) => BoxObs::new(base.retry(n)),
				};
				m.subscribe(tail);
				handles.push(Some(subscribe_kind(&mut obs, &world, handles.len(), observer)));
			}
			Act::Unsub(i) => {
				if let Some(h) = &mut handles[i]
					&& !h.is_closed()
				{
					h.unsubscribe();
				}
				m.close(i);
			}
			Act::Drop(i) => {
				handles[i] = None;
				m.close(i);
			}
			Act::Connect => {
				let was = m.conn;
				m.connect();
				handle = Some((conn.connect(), m.connects));
				if was.is_none() && m.conn.is_some() {
					rounds += 1;
				}
			}
			Act::Disconnect => {
				let (real, model) = (conn.disconnect(), m.disconnect());
				if real != model {
					fail!("disconnect", "disconnect() returned {real}, there was {}", if model { "a connection" } else { "none" });
				}
			}
			Act::HandleUnsub => {
				if let Some((h, id)) = &mut handle {
					if !h.is_closed() {
						h.unsubscribe();
					}
					if *id == m.connects {
						m.disconnect();
					}
				}
			}
			Act::Reset => {
				if conn.reset() {
					m.disconnect();
					m.connector = None;
				}
			}
			Act::Next(v) => {
				let mut src = lk(&source).clone();
				src.next(v.clone());
				if m.ended.is_none() {
					fed += 1;
					m.feed(MEv::Next(v));
				}
			}
			Act::Error(_) | Act::Complete | Act::SourceUnsub => {
				let mut src = lk(&source).clone();
				// a retried source is a new one
				let renew = matches!(act, Act::Error(_)) && m.ended.is_none() && m.subs.iter().any(|s| s.open && matches!(s.tail, Tail::Retry(_)));
				if renew {
					*lk(&source) = PublishSubject::default();
				}
				let e = match act {
					Act::Error(e) => {
						src.error(e);
						MEv::Error(e)
					}
					Act::Complete => {
						src.complete();
						MEv::Complete
					}
					_ => {
						src.unsubscribe();
						MEv::Unsub
					}
				};
				if m.ended.is_none() {
					fed += 1;
					if !renew {
						m.ended = Some(e.clone());
					}
					m.feed(e);
				}
			}
			Act::Fresh => {
				*lk(&source) = PublishSubject::default();
				m.ended = None;
			}
		}
		// what everyone saw
		for (who, sub) in m.subs.iter().enumerate() {
			let real: Vec<(usize, Ev)> = world
				.of(who)
				.into_iter()
				.filter_map(|r| match r.seen {
					Seen::Ev(e) => Some((r.step, e)),
					_ => None,
				})
				.collect();
			checks += real.len() + 2;
			if real != sub.evs {
				let f = |v: &[(usize, Ev)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
				fail!("events", "observer {who} saw      {}\nexpected by model {}", f(&real), f(&sub.evs));
			}
			if let Some(h) = &handles[who]
				&& h.is_closed() == sub.open
			{
				fail!("closed", "subscription {who}: is_closed() = {} but the model says {}", h.is_closed(), !sub.open);
			}
		}
		let (up, down) = (world.count("up", 0), world.count("down", 0));
		checks += 2 + conns.len();
		if up - down != m.conn.is_some() as usize {
			fail!("connections", "{up} subscriptions to the source of which {down} ended, but there should be {} connection", m.conn.is_some() as usize);
		}
		for (i, c) in conns.iter().enumerate() {
			if c.is_connected() != m.conn.is_some() {
				fail!("is_connected", "is_connected() of clone {i} is {}, expected {}", c.is_connected(), m.conn.is_some());
			}
		}
	}
	drop(handles);
	drop(handle);
	drop(conns);
	let (up, down) = (world.count("up", 0), world.count("down", 0));
	if up != down {
		fail!("leak", "everything was dropped, {up} subscriptions to the source but {down} ended");
	}
	let got: usize = m.subs.iter().map(|l| l.evs.len()).sum();
	Ok(Report::new(fed >= 2 && got >= 1)
		.checks(checks)
		.label(o.share, "share")
		.label(m.subs.len() > 1, "several_subscriptions")
		.label(rounds > 1 || up > 1, "reconnected")
		.label(m.connectors.len() > 1, "connector_was_reset")
		.label(m.subs.iter().any(|s| matches!(s.tail, Tail::Retry(_))), "retry"))
}

/// An observer that uses the observable while the synchronous part of its
/// source is running (partly a known finding)
pub fn while_connecting(s: &mut Src) -> CaseResult {
	let what = s.idx(4);
	let names = ["is_connected", "subscribe", "connect", "disconnect"];
	let share = s.chance(1, 2);
	let n = s.range(1, 3);
	s.note(|| format!("an observer calls {} at the first of {n} values its {} emits on connect", names[what], if share { "shared observable" } else { "connectable observable" }));
	let (tx, rx) = std::sync::mpsc::channel();
	std::thread::spawn(move || {
		let world = World::new();
		let o = Opt { share, refcount: false, on_disconnect: false, on_complete: false, on_error: false };
		let mut conn = make(SK::Publish, o, build_cold(&Cold::Create((0..n).map(|i| Ev::Next(V::I(i))).collect(), true)));
		let inner = Mutex::new(conn.dup());
		let (w, kept) = (world.clone(), Arc::new(Mutex::new(None)));
		let reaction: Reaction = Arc::new(move |n, _| {
			if n > 0 {
				return;
			}
			let mut c = lk(&inner);
			match what {
				0 => w.note(9, "connected", c.is_connected() as i64),
				1 => *lk(&kept) = Some(c.obs().subscribe(UserObserver::new(&w, 1))),
				2 => drop(c.connect()),
				_ => drop(c.disconnect()),
			}
		});
		let sub = conn.obs().subscribe(UserObserver::new(&world, 0).reacting(reaction));
		conn.connect();
		drop(sub);
		let _ = tx.send(world.evs(0).len());
	});
	match rx.recv_timeout(std::time::Duration::from_secs(3)) {
		Ok(got) if got == n as usize || what == 3 => Ok(Report::new(true)),
		Ok(got) => fail!("lost", "{got} of {n} values were delivered"),
		Err(_) => fail!(format!("deadlock:{}", names[what]), "the call did not return"),
	}
}
