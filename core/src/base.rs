//! Values, probes and boxing shared by every check.

use std::sync::{Arc, Mutex, MutexGuard};

use rx_core::prelude::*;
use rx_core_common::{BoxedSubscriber, ErasedSubscription, SharedSubscription, UpgradeableObserver};
use rx_core_macro_observable_derive::RxObservable;
use rx_core_macro_observer_derive::RxObserver;
use rx_core_macro_operator_derive::RxOperator;

/// Every signal of the generated pipelines
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
	I(i64),
	B(bool),
	P(Box<V>, Box<V>),
	L(Vec<V>),
	None,
	Some(Box<V>),
	Ok(Box<V>),
	Err(Er),
	NNext(Box<V>),
	NError(Er),
	NComplete,
	W(Box<V>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Er(pub i64);

impl V {
	/// A number derived from the value, used by predicates and mappers
	pub fn num(&self) -> i64 {
		match self {
			V::I(i) => *i,
			V::B(b) => *b as i64,
			V::P(a, b) => a.num().wrapping_mul(3).wrapping_add(b.num()),
			V::L(l) => l.iter().fold(l.len() as i64, |a, v| a.wrapping_mul(5).wrapping_add(v.num())),
			V::None => 7,
			V::Some(v) => v.num().wrapping_add(11),
			V::Ok(v) => v.num().wrapping_add(13),
			V::Err(e) => e.0.wrapping_add(17),
			V::NNext(v) => v.num().wrapping_add(19),
			V::NError(e) => e.0.wrapping_add(23),
			V::NComplete => 29,
			V::W(v) => v.num().wrapping_add(31),
		}
	}
	pub fn p(a: V, b: V) -> V {
		V::P(Box::new(a), Box::new(b))
	}
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
	Next(V),
	Error(Er),
	Complete,
}

impl std::fmt::Display for V {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			V::I(i) => write!(f, "{i}"),
			V::B(b) => write!(f, "{b}"),
			V::P(a, b) => write!(f, "({a},{b})"),
			V::L(l) => {
				write!(f, "[")?;
				for (i, v) in l.iter().enumerate() {
					if i > 0 {
						write!(f, ",")?;
					}
					write!(f, "{v}")?;
				}
				write!(f, "]")
			}
			V::None => write!(f, "None"),
			V::Some(v) => write!(f, "Some({v})"),
			V::Ok(v) => write!(f, "Ok({v})"),
			V::Err(e) => write!(f, "Err({})", e.0),
			V::NNext(v) => write!(f, "n:{v}"),
			V::NError(e) => write!(f, "e:{}", e.0),
			V::NComplete => write!(f, "c:"),
			V::W(v) => write!(f, "w{v}"),
		}
	}
}
impl std::fmt::Display for Ev {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Ev::Next(v) => write!(f, "{v}"),
			Ev::Error(e) => write!(f, "!{}", e.0),
			Ev::Complete => write!(f, "|"),
		}
	}
}

pub fn lk<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
	m.lock().unwrap_or_else(|p| p.into_inner())
}

/// What a probe saw
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Seen {
	Ev(Ev),
	/// A notification arrived after the probe was closed or terminated
	Late(Ev),
	/// The destination was unsubscribed
	Unsub,
	/// A side effect with a tag
	Note(&'static str, i64),
}

impl std::fmt::Display for Seen {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Seen::Ev(e) => write!(f, "{e}"),
			Seen::Late(e) => write!(f, "LATE {e}"),
			Seen::Unsub => write!(f, "unsub"),
			Seen::Note(t, n) => write!(f, "{t}{n}"),
		}
	}
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rec {
	pub step: usize,
	pub who: usize,
	pub seen: Seen,
}

impl std::fmt::Display for Rec {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "@{} p{}: {}", self.step, self.who, self.seen)
	}
}

pub fn show<T: std::fmt::Display>(l: &[T]) -> String {
	let v: Vec<String> = l.iter().map(|x| x.to_string()).collect();
	format!("[{}]", v.join("  "))
}

#[derive(Default)]
pub struct WorldState {
	pub step: usize,
	pub log: Vec<Rec>,
}

/// Shared log of one case
#[derive(Clone, Default)]
pub struct World(pub Arc<Mutex<WorldState>>);

impl World {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn set_step(&self, s: usize) {
		lk(&self.0).step = s;
	}
	pub fn step(&self) -> usize {
		lk(&self.0).step
	}
	pub fn push(&self, who: usize, seen: Seen) {
		let mut s = lk(&self.0);
		let step = s.step;
		// Runaway emission would eat all the memory
		if s.log.len() > 200_000 {
			drop(s);
			panic!("runaway: more than 200000 records in one case");
		}
		s.log.push(Rec { step, who, seen });
	}
	pub fn note(&self, who: usize, tag: &'static str, n: i64) {
		self.push(who, Seen::Note(tag, n));
	}
	pub fn log(&self) -> Vec<Rec> {
		lk(&self.0).log.clone()
	}
	pub fn of(&self, who: usize) -> Vec<Rec> {
		lk(&self.0).log.iter().filter(|r| r.who == who).cloned().collect()
	}
	pub fn evs(&self, who: usize) -> Vec<Ev> {
		lk(&self.0)
			.log
			.iter()
			.filter(|r| r.who == who)
			.filter_map(|r| match &r.seen {
				Seen::Ev(e) => Some(e.clone()),
				_ => None,
			})
			.collect()
	}
	pub fn count(&self, tag: &'static str, n: i64) -> usize {
		lk(&self.0).log.iter().filter(|r| r.seen == Seen::Note(tag, n)).count()
	}
}

pub type Reaction = Arc<dyn Fn(usize, &Ev) + Send + Sync>;

/// Destination that is its own subscriber. Records everything, including
/// what it should not have received.
#[derive(RxObserver)]
#[rx_in(V)]
#[rx_in_error(Er)]
#[rx_upgrades_to(self)]
pub struct Probe {
	pub who: usize,
	pub world: World,
	pub teardown: SharedSubscription,
	pub terminated: bool,
	pub seen: usize,
	pub reaction: Option<Reaction>,
}

impl Probe {
	pub fn new(world: &World, who: usize) -> Self {
		Probe { who, world: world.clone(), teardown: SharedSubscription::default(), terminated: false, seen: 0, reaction: None }
	}
	pub fn reacting(mut self, r: Reaction) -> Self {
		self.reaction = Some(r);
		self
	}
	fn take(&mut self, e: Ev) -> bool {
		if self.terminated || self.teardown.is_closed() {
			self.world.push(self.who, Seen::Late(e));
			return false;
		}
		self.world.push(self.who, Seen::Ev(e.clone()));
		let n = self.seen;
		self.seen += 1;
		if let Some(r) = self.reaction.clone() {
			if !matches!(e, Ev::Next(_)) {
				self.terminated = true;
			}
			r(n, &e);
		}
		true
	}
}

impl rx_core_common::RxObserver for Probe {
	fn next(&mut self, next: V) {
		self.take(Ev::Next(next));
	}
	fn error(&mut self, error: Er) {
		if self.take(Ev::Error(error)) {
			self.terminated = true;
			self.teardown.unsubscribe();
		}
	}
	fn complete(&mut self) {
		if self.take(Ev::Complete) {
			self.terminated = true;
			self.teardown.unsubscribe();
		}
	}
}
impl SubscriptionLike for Probe {
	fn is_closed(&self) -> bool {
		self.teardown.is_closed()
	}
	fn unsubscribe(&mut self) {
		if !self.teardown.is_closed() {
			self.world.push(self.who, Seen::Unsub);
		}
		self.teardown.unsubscribe();
	}
}
impl TeardownCollection for Probe {
	fn add_teardown(&mut self, teardown: Teardown) {
		self.teardown.add_teardown(teardown);
	}
}
impl Drop for Probe {
	fn drop(&mut self) {
		if !self.teardown.is_closed() {
			self.teardown.unsubscribe();
		}
	}
}

/// An ordinary user observer: upgraded to a subscriber by the library
#[derive(RxObserver)]
#[rx_in(V)]
#[rx_in_error(Er)]
pub struct UserObserver {
	pub who: usize,
	pub world: World,
	pub terminated: bool,
	pub seen: usize,
	pub reaction: Option<Reaction>,
}

impl UserObserver {
	pub fn new(world: &World, who: usize) -> Self {
		UserObserver { who, world: world.clone(), terminated: false, seen: 0, reaction: None }
	}
	pub fn reacting(mut self, r: Reaction) -> Self {
		self.reaction = Some(r);
		self
	}
	fn take(&mut self, e: Ev) {
		if self.terminated {
			self.world.push(self.who, Seen::Late(e));
			return;
		}
		if !matches!(e, Ev::Next(_)) {
			self.terminated = true;
		}
		self.world.push(self.who, Seen::Ev(e.clone()));
		let n = self.seen;
		self.seen += 1;
		if let Some(r) = self.reaction.clone() {
			r(n, &e);
		}
	}
}
impl rx_core_common::RxObserver for UserObserver {
	fn next(&mut self, next: V) {
		self.take(Ev::Next(next));
	}
	fn error(&mut self, error: Er) {
		self.take(Ev::Error(error));
	}
	fn complete(&mut self) {
		self.take(Ev::Complete);
	}
}

// ---------------------------------------------------------------- boxes

pub trait DynObs: Send + Sync {
	fn dyn_subscribe(&mut self, destination: BoxedSubscriber<V, Er>) -> ErasedSubscription;
	fn dyn_clone(&self) -> Option<Box<dyn DynObs>>;
}

struct ObsBox<O>(O);
struct CloneObsBox<O>(O);

impl<O: 'static + Observable<Out = V, OutError = Er> + Send + Sync> DynObs for ObsBox<O> {
	fn dyn_subscribe(&mut self, destination: BoxedSubscriber<V, Er>) -> ErasedSubscription {
		ErasedSubscription::new(self.0.subscribe(ErasedSubscriber::new(destination)))
	}
	fn dyn_clone(&self) -> Option<Box<dyn DynObs>> {
		None
	}
}
impl<O: 'static + Observable<Out = V, OutError = Er> + Send + Sync + Clone> DynObs for CloneObsBox<O> {
	fn dyn_subscribe(&mut self, destination: BoxedSubscriber<V, Er>) -> ErasedSubscription {
		ErasedSubscription::new(self.0.subscribe(ErasedSubscriber::new(destination)))
	}
	fn dyn_clone(&self) -> Option<Box<dyn DynObs>> {
		Some(Box::new(CloneObsBox(self.0.clone())))
	}
}

/// Boxed observable of the harness value type
#[derive(RxObservable)]
#[rx_out(V)]
#[rx_out_error(Er)]
pub struct BoxObs(Box<dyn DynObs>);

impl BoxObs {
	pub fn new<O: 'static + Observable<Out = V, OutError = Er> + Send + Sync>(o: O) -> Self {
		BoxObs(Box::new(ObsBox(o)))
	}
	pub fn cloneable<O: 'static + Observable<Out = V, OutError = Er> + Send + Sync + Clone>(o: O) -> Self {
		BoxObs(Box::new(CloneObsBox(o)))
	}
}
impl Clone for BoxObs {
	fn clone(&self) -> Self {
		BoxObs(self.0.dyn_clone().expect("clone of an observable boxed without Clone"))
	}
}

impl Observable for BoxObs {
	type Subscription<Destination>
		= ErasedSubscription
	where
		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;

	fn subscribe<Destination>(&mut self, destination: Destination) -> Self::Subscription<Destination::Upgraded>
	where
		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError> + Send + Sync,
	{
		self.0.dyn_subscribe(Box::new(destination.upgrade()))
	}
}

pub trait DynOp: Send + Sync {
	fn dyn_operator_subscribe(&mut self, destination: ErasedSubscriber<V, Er>) -> ErasedSubscriber<V, Er>;
}
struct OpBox<O>(O);
impl<O: 'static + ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync> DynOp for OpBox<O> {
	fn dyn_operator_subscribe(&mut self, destination: ErasedSubscriber<V, Er>) -> ErasedSubscriber<V, Er> {
		ErasedSubscriber::new(self.0.operator_subscribe(destination))
	}
}

/// Boxed composable operator of the harness value type
#[derive(RxOperator)]
#[rx_in(V)]
#[rx_in_error(Er)]
#[rx_out(V)]
#[rx_out_error(Er)]
pub struct BoxOp(Box<dyn DynOp>);

impl BoxOp {
	pub fn new<O: 'static + ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync>(o: O) -> Self {
		BoxOp(Box::new(OpBox(o)))
	}
}
impl ComposableOperator for BoxOp {
	type Subscriber<Destination>
		= ErasedSubscriber<V, Er>
	where
		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError> + Send + Sync;

	fn operator_subscribe<Destination>(&mut self, destination: Destination) -> Self::Subscriber<Destination>
	where
		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError> + Send + Sync,
	{
		self.0.dyn_operator_subscribe(ErasedSubscriber::new(destination))
	}
}
