From 2814e7fa8aad72ada6536e0deb79caf42e257bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 01/46] fix: into_result ignores notifications observed after
 an error

---
 .../src/into_result_subscriber.rs               | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_into_result/src/into_result_subscriber.rs b/crates/rx_core_operator_into_result/src/into_result_subscriber.rs
index 015daf6..59b0111 100644
--- a/crates/rx_core_operator_into_result/src/into_result_subscriber.rs
+++ b/crates/rx_core_operator_into_result/src/into_result_subscriber.rs
@@ -16,6 +16,9 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// An error is terminal for upstream but does not close downstream, so
+	/// nothing observed after it can be forwarded.
+	errored: bool,
 	_phantom_data: PhantomInvariant<(In, InError)>,
 }
 
@@ -28,6 +31,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			errored: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -41,16 +45,23 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		self.destination.next(Ok(next));
+		if !self.errored {
+			self.destination.next(Ok(next));
+		}
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.next(Err(error));
+		if !self.errored {
+			self.errored = true;
+			self.destination.next(Err(error));
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
+		if !self.errored {
+			self.destination.complete();
+		}
 	}
 }
-- 
2.43.0


From 7d218e89fe4a9a8ca61048e6efafb670901001a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 02/46] fix: take and element_at release downstream when
 unsubscribed after an upstream terminal

---
 .../src/element_at_subscriber.rs                           | 5 +----
 crates/rx_core_operator_take/src/take_subscriber.rs        | 7 +++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_element_at/src/element_at_subscriber.rs b/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
index 5c4a550..9f24cc2 100644
--- a/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
+++ b/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
@@ -86,7 +86,6 @@ where
 		}
 		self.destination
 			.error(ElementAtOperatorError::Upstream(error));
-		self.closed.close();
 	}
 
 	#[inline]
@@ -97,14 +96,12 @@ where
 		if let Some(default_value) = self.default_value.as_ref() {
 			self.destination.next(default_value.provide());
 			self.destination.complete();
-			self.closed.close();
 		} else {
 			self.destination
 				.error(ElementAtOperatorError::IndexOutOfRange {
 					requested_index: self.index,
 					observed_nexts: self.nexts_observed,
 				});
-			self.closed.close();
 		}
 	}
 }
@@ -122,7 +119,7 @@ where
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.destination.is_closed() {
 			self.destination.unsubscribe();
 		}
 		self.closed.close();
diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index bd8a50d..bac985f 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -46,7 +46,8 @@ where
 			self.destination.next(next);
 
 			if self.count == 0 && !self.is_closed() {
-				self.complete();
+				self.destination.complete();
+				self.closed.close();
 			}
 		}
 	}
@@ -54,13 +55,11 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.destination.error(error);
-		self.closed.close();
 	}
 
 	#[inline]
 	fn complete(&mut self) {
 		self.destination.complete();
-		self.closed.close();
 	}
 }
 
@@ -75,7 +74,7 @@ where
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.destination.is_closed() {
 			self.destination.unsubscribe();
 		}
 		self.closed.close();
-- 
2.43.0


From 45e02dcdbeb9e46d566078cc033dbf82d2cc1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 03/46] fix: notify late subscribers of a finished subject
 without holding its state locked

---
 .../src/publish_subject.rs                    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 095eb93..0564a33 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -117,13 +117,20 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		{
+		// The state can't remain locked while notifying the new subscriber, as
+		// it may use this subject.
+		let (observed_error, is_completed) = {
 			let state = self.deferred_state.lock_ignore_poison();
-			if let Some(error) = state.observed_error.clone() {
-				subscriber.error(error);
-			} else if state.observed_state.is_completed() {
-				subscriber.complete();
-			}
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if let Some(error) = observed_error {
+			subscriber.error(error);
+		} else if is_completed {
+			subscriber.complete();
 		}
 
 		if self.is_closed() {
-- 
2.43.0


From 68e7369f95ce3eb699af19c8ff960446ebe7433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 04/46] fix: finished subjects neither change nor leak their
 stored values

---
 crates/rx_core_subject_async/src/async_subject.rs       | 6 +++++-
 crates/rx_core_subject_behavior/src/behavior_subject.rs | 7 ++++++-
 crates/rx_core_subject_publish/src/publish_subject.rs   | 6 ++++++
 crates/rx_core_subject_replay/src/replay_subject.rs     | 7 ++++++-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index f38c232..e46dd37 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -85,6 +85,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		let mut value = self.value.lock_ignore_poison();
 
 		let next_value = if let Some(current) = value.take() {
@@ -133,7 +137,7 @@ where
 	{
 		let mut destination = destination.upgrade();
 
-		if self.subject.is_closed() {
+		if self.subject.is_completed() {
 			let value = self.value.lock_ignore_poison().clone();
 
 			if !self.subject.is_errored()
diff --git a/crates/rx_core_subject_behavior/src/behavior_subject.rs b/crates/rx_core_subject_behavior/src/behavior_subject.rs
index 73da64d..c6a1174 100644
--- a/crates/rx_core_subject_behavior/src/behavior_subject.rs
+++ b/crates/rx_core_subject_behavior/src/behavior_subject.rs
@@ -1,7 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		*self.value.lock_ignore_poison() = next.clone();
 		self.subject.next(next);
 	}
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 0564a33..37e385c 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -93,6 +93,12 @@ where
 		let state = self.deferred_state.lock_ignore_poison();
 		state.observed_error.is_some()
 	}
+
+	#[inline]
+	pub fn is_completed(&self) -> bool {
+		let state = self.deferred_state.lock_ignore_poison();
+		state.observed_state.is_completed()
+	}
 }
 
 impl<In, InError> Observable for PublishSubject<In, InError>
diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 654e2da..c37af77 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use ringbuffer::{ConstGenericRingBuffer, RingBuffer};
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		self.values.lock_ignore_poison().enqueue(next.clone());
 
 		self.subject.next(next);
-- 
2.43.0


From 5c394df38ac5c98487748a58b59e91a82c5caad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 05/46] fix: a subject's subscription can be dropped while its
 subscriber is being notified

---
 .../src/multicast_subscription.rs             | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 4711b19..6686960 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, TryLockError};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Never, Signal, Subscriber, SubscriptionLike, Teardown,
@@ -56,10 +56,12 @@ where
 
 	fn try_check_is_closed(&self) -> bool {
 		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+			match subscriber.try_lock() {
+				Ok(subscriber) => subscriber.is_closed(),
+				Err(TryLockError::Poisoned(poison_error)) => poison_error.into_inner().is_closed(),
+				// It's being notified right now, possibly by the caller
+				Err(TryLockError::WouldBlock) => false,
+			}
 		} else {
 			true
 		}
@@ -71,12 +73,9 @@ where
 	In: Signal + Clone,
 	InError: Signal + Clone,
 {
+	#[inline]
 	fn is_closed(&self) -> bool {
-		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber.is_closed()
-		} else {
-			true
-		}
+		self.try_check_is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From e7c0a5f0da267820d20bb211243cb8b3297a5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 06/46] fix: deliver what a teardown sent to the subject when
 its subscription is unsubscribed

---
 crates/rx_core_subject_publish/src/multicast.rs        |  9 +++++++++
 .../src/multicast_subscription.rs                      |  3 +++
 crates/rx_core_subject_publish/src/publish_subject.rs  | 10 ++--------
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 039c7f1..a960a2c 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -196,6 +196,15 @@ where
 		}
 	}
 
+	/// Applies what was deferred while the subscribers were locked
+	pub(crate) fn try_apply_deferred(&mut self) {
+		if self.deferred_state.lock_ignore_poison().is_dirty()
+			&& let Ok(mut subscribers) = self.subscribers.try_lock()
+		{
+			Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+		}
+	}
+
 	pub(crate) fn try_add_subscriber(
 		&mut self,
 		subscriber: Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 6686960..917962d 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -89,6 +89,9 @@ where
 		}
 
 		self.subscriber.take();
+
+		// In case a teardown used the subject
+		self.subscribers.try_apply_deferred();
 	}
 }
 
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 37e385c..33a8a10 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -71,15 +71,9 @@ where
 	In: Signal + Clone,
 	InError: Signal + Clone,
 {
+	#[inline]
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscribers) = self.subscribers.subscribers.try_lock()
-		{
-			SharedSubscribers::apply_notification_queue(
-				self.deferred_state.clone(),
-				&mut subscribers,
-			);
-		}
+		self.subscribers.try_apply_deferred();
 	}
 }
 
-- 
2.43.0


From 4153b44b1aaf17f0ddd9ab36e724051886e2c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 07/46] fix: unsubscribing a merged observable does not
 subscribe to what is still queued

Also a queued inner observable starts whenever there is a free slot, and an
error of a source shared by several inner subscriptions is forwarded once.
---
 .../src/higher_order_subscriber_inner.rs      | 17 ++++++++--
 .../src/concurrent_subscriber.rs              | 31 +++++++++----------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
index 8aa3245..804dc7d 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
@@ -82,8 +82,21 @@ where
 
 	fn error(&mut self, error: Self::InError) {
 		if !self.is_closed() {
-			self.state.lock_ignore_poison().downstream_error();
-			self.shared_destination.error(error);
+			let downstream_is_not_yet_closed = {
+				let mut state = self.state.lock_ignore_poison();
+				let is_open = !state.downstream_subscriber_state.is_closed();
+				if is_open {
+					state.downstream_error();
+				}
+				is_open
+			};
+
+			// Another inner subscription could have closed downstream already
+			// while this one is still being notified by a shared source.
+			if downstream_is_not_yet_closed {
+				self.shared_destination.error(error);
+			}
+
 			self.unsubscribe();
 		}
 	}
diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 4c13b47..55567d7 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -38,7 +38,9 @@ where
 {
 	pub fn new(destination: Destination, concurrency_limit: NonZero<usize>) -> Self {
 		let mut shared_destination = SharedSubscriber::new(destination);
-		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::default()));
+		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::<
+			ConcurrentSubscriberQueue<InnerObservable>,
+		>::default()));
 		let inner_subscriptions = Arc::new(Mutex::new(Slab::<SubscriptionData>::new()));
 		let mut outer_teardown = SharedSubscription::default();
 
@@ -46,6 +48,12 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
+			// Nothing that is still waiting for a free slot can be subscribed to
+			// by the inner subscriptions that are about to be torn down.
+			let queue =
+				core::mem::take(&mut state_on_unsubscribe.lock_ignore_poison().state.queue);
+			drop(queue);
+
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
 				.drain()
@@ -125,7 +133,6 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 	let inner_subscriptions_clone = inner_subscriptions.clone();
 
-	let concurrency_limit_minus_one: usize = usize::from(concurrency_limit) - 1;
 	let outer_teardown_on_complete_clone = outer_teardown.clone();
 	let mut outer_teardown_on_unsubscribe = outer_teardown.clone();
 	let mut shared_destination_on_unsubscribe = shared_destination.clone();
@@ -143,22 +150,14 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 				concurrency_limit,
 			);
 		},
-		move |key| {
-			let no_more_subscribers_besides_this = {
-				let mut inner_subscriptions = inner_subscriptions.lock_ignore_poison();
-				inner_subscriptions.retain(|_k, s| !s.is_closed());
-				inner_subscriptions
-					.iter()
-					.filter(|(k, _)| *k != key)
-					.count() == concurrency_limit_minus_one
+		move |_key| {
+			let has_free_slot = {
+				let state = state.lock_ignore_poison();
+				state.non_completed_subscriptions < usize::from(concurrency_limit)
+					&& !state.downstream_subscriber_state.is_closed()
 			};
 
-			if no_more_subscribers_besides_this
-				&& !state
-					.lock_ignore_poison()
-					.downstream_subscriber_state
-					.is_closed()
-			{
+			if has_free_slot {
 				subscribe_to_next_in_queue(
 					state.clone(),
 					inner_subscriptions.clone(),
-- 
2.43.0


From 0892545a0623245f0e5bab6ae311a0fd747bfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 08/46] fix: switch and exhaust subscribers are closed as soon
 as their destination is

---
 .../src/exhaust_subscriber.rs                          | 10 +++++++---
 .../src/switch_subscriber.rs                           |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 78ecd64..5f5cec6 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -54,9 +54,13 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	fn next(&mut self, mut next: Self::In) {
+		if self.is_closed() {
+			return;
+		}
+
 		let mut state_lock = self.state.lock_ignore_poison();
 
-		if !self.is_closed() && state_lock.non_unsubscribed_subscriptions == 0 {
+		if state_lock.non_unsubscribed_subscriptions == 0 {
 			state_lock.non_completed_subscriptions += 1;
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
@@ -124,11 +128,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription {
 				subscription_handle.unsubscribe();
 			};
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index e19c081..18de9a3 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -141,11 +141,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-- 
2.43.0


From 71b9bac54254c1b3ae7277de5a444c8562af7991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 09/46] fix: with_latest_from releases its inner subscription
 when downstream closes early

---
 .../src/with_latest_from_subscriber.rs             | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
index 1833da2..0cdc234 100644
--- a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
+++ b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
@@ -4,8 +4,8 @@ use std::{
 };
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Observable, ObserverSubscriber, PhantomInvariant, RxObserver,
-	SharedSubscriber, Signal, Subscriber, SubscriptionLike,
+	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber, Signal,
+	Subscriber, SubscriptionLike, TeardownCollection,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -25,9 +25,6 @@ where
 {
 	#[destination]
 	destination: SharedSubscriber<Destination>,
-	inner_subscription: <InnerObservable as Observable>::Subscription<
-		ObserverSubscriber<WithLatestFromInnerDestination<InnerObservable::Out, Destination>>,
-	>,
 	state: Arc<Mutex<WithLatestFromInnerDestinationState<InnerObservable::Out>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -40,16 +37,18 @@ where
 	Destination: Subscriber<In = (In, InnerObservable::Out), InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, inner_observable: &mut InnerObservable) -> Self {
-		let shared_destination = SharedSubscriber::new(destination);
+		let mut shared_destination = SharedSubscriber::new(destination);
 		let inner_destination =
 			WithLatestFromInnerDestination::<InnerObservable::Out, Destination>::new(
 				shared_destination.clone(),
 			);
 		let state = inner_destination.get_state();
 		let inner_subscription = inner_observable.subscribe(inner_destination);
+		// The inner subscription must not outlive downstream, no matter how it
+		// gets closed.
+		shared_destination.add_teardown(inner_subscription.into());
 		Self {
 			destination: shared_destination,
-			inner_subscription,
 			state,
 			_phantom_data: PhantomData,
 		}
@@ -98,7 +97,6 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		self.inner_subscription.unsubscribe();
 		self.destination.unsubscribe();
 	}
 }
-- 
2.43.0


From e337033d17353098416e20a9a13d4533b9e7c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 10/46] fix: an ended source of a combined observable is closed
 and sends nothing more

---
 .../src/either_subscriber_2.rs                | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/crates/rx_core_notification_variadics/src/either_subscriber_2.rs b/crates/rx_core_notification_variadics/src/either_subscriber_2.rs
index 9a9375b..1553d65 100644
--- a/crates/rx_core_notification_variadics/src/either_subscriber_2.rs
+++ b/crates/rx_core_notification_variadics/src/either_subscriber_2.rs
@@ -23,6 +23,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// This source is done, even if the destination is kept open by the other
+	closed: bool,
 	_phantom_data: PhantomInvariant<(O1, O2, VariantSelector)>,
 }
 
@@ -38,6 +40,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			closed: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -55,22 +58,30 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Next(next)));
+		if !self.closed {
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Next(next)));
+		}
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Error(
-				error,
-			)));
+		if !self.closed {
+			self.closed = true;
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Error(
+					error,
+				)));
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Complete));
+		if !self.closed {
+			self.closed = true;
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Complete));
+		}
 	}
 }
 
@@ -86,12 +97,15 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.destination.is_closed()
+		self.closed || self.destination.is_closed()
 	}
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Unsubscribe));
+		if !self.closed {
+			self.closed = true;
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Unsubscribe));
+		}
 	}
 }
-- 
2.43.0


From 819d76bc2400a8bc7d901bb59f528e830a463d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 11/46] fix: zip completes when a completed source is drained,
 whatever the other one queued

---
 crates/rx_core_observable_zip/src/zip_subscriber.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index b8537d2..70ebe23 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -74,21 +74,18 @@ where
 			.or_else(|| self.o2_queue.take_error().map(|error| error.into()))
 	}
 
+	/// The state of a queue reflects its front: once a completion got there, no
+	/// further pair can be made, no matter what the other queue still stores.
 	fn try_complete(&mut self) {
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_completed() && self.o2_queue.is_completed())
-				|| (self.o1_queue.is_completed() && self.o2_queue.is_empty())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_completed()))
+			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_closed() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_closed() && self.o2_queue.is_empty()))
+		if !self.destination.is_closed() && (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From d67177e61047cd409a448e1979e0e6531e6c5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 12/46] fix: apply notifications that another thread deferred
 right before the lock was released

---
 crates/rx_core_common/src/subscribers/subscriber_shared.rs    | 4 +++-
 .../rx_core_common/src/subscriptions/subscription_shared.rs   | 4 +++-
 crates/rx_core_subject_publish/src/multicast.rs               | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 916b4bc..8c584cd 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -189,7 +189,9 @@ where
 	}
 
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// Something could be deferred by another thread right before the lock is
+		// released, too late for this round and too early for its own attempt.
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscriber) = self.shared_destination.try_lock()
 		{
 			SharedSubscriber::<Destination>::apply_notification_queue::<Destination>(
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 23bf075..f81a93b 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -108,7 +108,9 @@ impl SharedSubscription {
 	}
 
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// Something could be deferred by another thread right before the lock is
+		// released, too late for this round and too early for its own attempt.
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscription) = self.subscription.try_lock()
 		{
 			SharedSubscription::apply_notification_queue(
diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index a960a2c..ee8a91a 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -198,7 +198,9 @@ where
 
 	/// Applies what was deferred while the subscribers were locked
 	pub(crate) fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// Something could be deferred by another thread right before the lock is
+		// released, too late for this round and too early for its own attempt.
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscribers) = self.subscribers.try_lock()
 		{
 			Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
-- 
2.43.0


From 468b25a15aff4689a9db2a3904863231f5c513fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 13/46] fix: catch ignores everything its source emits after
 the error it recovered from

---
 crates/rx_core_operator_catch/src/catch_subscriber.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index e15f27f..f076ea5 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -61,6 +61,11 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		// Once upstream have errored, only the recovery is expected to emit.
+		if self.error_mapper.is_none() {
+			return;
+		}
+
 		self.shared_destination.next(next);
 
 		if self.shared_destination.is_closed() {
@@ -126,7 +131,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed()
+		if self.error_mapper.is_some()
+			&& !self.is_closed()
 			&& self
 				.state
 				.lock_ignore_poison()
-- 
2.43.0


From 17819a2fce4b00a4c062fd33adbeb5b58659cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:51 +0000
Subject: [PATCH 14/46] fix: the catch subscriber is closed as soon as its
 destination is

---
 crates/rx_core_operator_catch/src/catch_subscriber.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index f076ea5..5e7f380 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -173,11 +173,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
 				subscription_handle.unsubscribe();
 			};
-- 
2.43.0


From d650677e2feae2afa51ec768adcd6105c7db9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 15/46] fix: retry releases failed attempts and keeps the last
 permitted one alive

---
 .../src/retry_observable.rs                   | 29 +++++-----
 .../src/retry_subscriber.rs                   | 58 ++++++++++++++-----
 2 files changed, 59 insertions(+), 28 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 30cea51..0bfba17 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -62,8 +62,7 @@ where
 
 		let last_subscription = Arc::new(Mutex::new(Option::<SharedSubscription>::None));
 
-		while immediate_retries <= self.max_retries {
-			caught_error.lock_ignore_poison().take();
+		loop {
 			let mut stolen_source = self.source.lock_ignore_poison().take().expect(SOURCE_STEAL);
 
 			let next_subscription = stolen_source.subscribe(RetrySubscriber::new(
@@ -85,25 +84,25 @@ where
 
 			immediate_retries += 1;
 
-			if caught_error.lock_ignore_poison().is_some() {
-				if let Some(mut last_subscription) = last_subscription.lock_ignore_poison().take() {
-					last_subscription.unsubscribe();
+			let Some(error) = caught_error.lock_ignore_poison().take() else {
+				if !shared_destination.is_closed() {
+					outer_subscription.add(last_subscription);
 				}
-				continue;
-			} else if shared_destination.is_closed() {
-				break;
-			} else {
-				outer_subscription.add(last_subscription);
 				break;
+			};
+
+			let failed_subscription = last_subscription.lock_ignore_poison().take();
+
+			if let Some(mut failed_subscription) = failed_subscription {
+				failed_subscription.unsubscribe();
 			}
-		}
 
-		if immediate_retries > self.max_retries {
-			if let Some(error) = caught_error.lock_ignore_poison().take() {
+			if immediate_retries > self.max_retries {
 				shared_destination.error(error);
+				shared_destination.unsubscribe();
+				outer_subscription.unsubscribe();
+				break;
 			}
-			shared_destination.unsubscribe();
-			outer_subscription.unsubscribe();
 		}
 
 		outer_subscription.clone()
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index b57c4ac..f79308e 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, ObserverTerminalNotification, RxObserver, SharedSubscriber,
-	SharedSubscription, Subscriber, SubscriptionLike, TeardownCollectionExtension,
+	SharedSubscription, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -11,7 +12,6 @@ pub(crate) const SOURCE_STEAL: &str = "Source should be present!";
 #[derive(RxSubscriber)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
-#[rx_delegate_teardown_collection]
 pub(crate) struct RetrySubscriber<Source, Destination>
 where
 	Source: 'static + Observable + Send + Sync,
@@ -20,6 +20,10 @@ where
 	source: Arc<Mutex<Option<Source>>>,
 	retries: usize,
 	max_retries: usize,
+	/// What has to be released once this attempt is over.
+	attempt_teardown: SubscriptionData,
+	/// This attempt have errored, it has no say over the destination anymore.
+	failed: bool,
 	finished_with: Option<ObserverTerminalNotification<Source::OutError>>,
 	#[destination]
 	destination: SharedSubscriber<Destination>,
@@ -46,6 +50,8 @@ where
 			source,
 			destination,
 			outer_subscription,
+			attempt_teardown: SubscriptionData::default(),
+			failed: false,
 			finished_with: None,
 			max_retries,
 			retries,
@@ -56,14 +62,13 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
-		if let Some(mut last_subscription) = self.last_subscription.lock_ignore_poison().take()
+		let last_subscription = self.last_subscription.lock_ignore_poison().take();
+
+		if let Some(mut last_subscription) = last_subscription
 			&& !last_subscription.is_closed()
 		{
 			last_subscription.unsubscribe();
 		};
-
-		self.finished_with = None;
-		self.caught_error.lock_ignore_poison().take();
 	}
 
 	fn finish(&mut self) {
@@ -75,6 +80,7 @@ where
 
 		self.outer_subscription.unsubscribe();
 		self.destination.unsubscribe();
+		self.attempt_teardown.unsubscribe();
 	}
 }
 
@@ -85,6 +91,10 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		if self.failed {
+			return;
+		}
+
 		self.destination.next(next);
 
 		if self.destination.is_closed() {
@@ -92,7 +102,14 @@ where
 		}
 	}
 
-	fn error(&mut self, error: Self::InError) {
+	fn error(&mut self, mut error: Self::InError) {
+		if self.failed || self.destination.is_closed() {
+			return;
+		}
+
+		self.failed = true;
+		self.attempt_teardown.unsubscribe();
+
 		// If the source is "stolen", it's still owned by the observables
 		// subscribe method. It will check the caught error and retry there.
 		if self.source.lock_ignore_poison().is_none() {
@@ -123,23 +140,28 @@ where
 					.replace(SharedSubscription::new(next_subscription));
 			}
 
-			if self.caught_error.lock_ignore_poison().is_some() {
-				continue;
+			let caught_error = self.caught_error.lock_ignore_poison().take();
+
+			if let Some(caught_error) = caught_error {
+				error = caught_error;
 			} else {
 				self.outer_subscription.add(self.last_subscription.clone());
 				break;
 			}
 		}
 
-		self.finished_with = Some(ObserverTerminalNotification::Error(error));
-
 		if self.retries > self.max_retries {
+			self.finished_with = Some(ObserverTerminalNotification::Error(error));
 			self.finish();
 		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
+		if self.failed || self.destination.is_closed() {
+			return;
+		}
+
 		self.finished_with = Some(ObserverTerminalNotification::Complete);
 		self.finish();
 	}
@@ -152,12 +174,22 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.destination.is_closed()
+		self.attempt_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if self.caught_error.lock_ignore_poison().is_none() && self.finished_with.is_none() {
+		if !self.failed && self.finished_with.is_none() {
 			self.finish();
 		}
 	}
 }
+
+impl<Source, Destination> TeardownCollection for RetrySubscriber<Source, Destination>
+where
+	Source: 'static + Observable + Send + Sync,
+	Destination: 'static + Subscriber<In = Source::Out, InError = Source::OutError>,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		self.attempt_teardown.add_teardown(teardown);
+	}
+}
-- 
2.43.0


From 0faaf7e95f63ca8cdffcee2e6be62c64ccd9523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:57 +0000
Subject: [PATCH 16/46] fix: repeating work without an interval is limited by
 max_work_per_tick instead of never returning

---
 .../src/work/ticked_work_repeating.rs                       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
index ed0695a..673abf4 100644
--- a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
+++ b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
@@ -93,6 +93,12 @@ where
 				self.start_immediately = false;
 			}
 			executions += 1;
+
+			// Without an interval, no amount of executions would catch up with
+			// the current tick, it's only limited by `max_work_per_tick`
+			if self.interval.is_zero() && executions >= self.max_work_per_tick.into() {
+				break;
+			}
 		}
 		work_result
 	}
-- 
2.43.0


From 93f18936ec2811d2e660679954ab1e8876f6fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:57 +0000
Subject: [PATCH 17/46] fix: cancelling an invoked work keeps the pending
 invocations of others

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 7e22a44..74278b1 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -173,7 +173,7 @@ where
 				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
 					self.invokable_work.remove(&cancelled_invocation_id);
 					self.invoked
-						.retain(|invoked_id| invoked_id == &cancelled_invocation_id);
+						.retain(|invoked_id| invoked_id != &cancelled_invocation_id);
 				}
 				ScheduledWorkAction::Cancel(cancelled_id) => {
 					if let Some(work_ids) = self.cancellation_map.remove(&cancelled_id) {
-- 
2.43.0


From 6908b8cc59981c2a2bddec976294987efd81d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 18/46] fix: interval, timer and iterator_on_tick stop as soon
 as they are unsubscribed, and an empty iterator completes

---
 .../src/interval_subscription.rs              |  8 ++----
 .../src/iterator_on_tick_subscription.rs      | 28 +++++++++++++++----
 .../src/timer_subscription.rs                 | 22 +++++++++------
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/crates/rx_core_observable_interval/src/interval_subscription.rs b/crates/rx_core_observable_interval/src/interval_subscription.rs
index addcea8..ead7888 100644
--- a/crates/rx_core_observable_interval/src/interval_subscription.rs
+++ b/crates/rx_core_observable_interval/src/interval_subscription.rs
@@ -38,7 +38,7 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			let mut count = if interval_subscription_options.start_on_subscribe {
 				1
@@ -48,13 +48,11 @@ where
 
 			scheduler.schedule_repeated_work(
 				move |_, _| {
-					let mut destination_lock = destination_clone.lock();
-
-					if destination_lock.is_closed() {
+					if destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
-					destination_lock.next(count);
+					destination_clone.next(count);
 					count += 1;
 
 					WorkResult::Pending
diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 76592c0..9d64587 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -3,7 +3,7 @@ use std::{iter::Peekable, marker::PhantomData};
 use rx_core_common::{
 	Never, PhantomInvariant, RxObserver, Scheduler, SchedulerHandle,
 	SchedulerScheduleWorkExtension, SharedSubscriber, Signal, Subscriber, SubscriptionLike,
-	WorkCancellationId, WorkResult,
+	Teardown, TeardownCollection, WorkCancellationId, WorkResult,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -43,7 +43,7 @@ where
 	Iterator: IntoIterator,
 	Iterator::Item: Signal,
 	Iterator::IntoIter: 'static + Send + Sync,
-	S: Scheduler,
+	S: 'static + Scheduler,
 {
 	pub fn new(
 		destination: Destination,
@@ -70,6 +70,19 @@ where
 			destination.next(next);
 		}
 
+		// There's nothing to wait a tick for if there are no values left
+		if peekable_iterator.peek().is_none() {
+			if !destination.is_closed() {
+				destination.complete();
+			}
+			return OnTickIteratorSubscription {
+				destination,
+				owner_id: None,
+				scheduler,
+				_phantom_data: PhantomData,
+			};
+		}
+
 		let owner_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let owner_id = scheduler.generate_cancellation_id();
@@ -85,8 +98,7 @@ where
 				move |_, _context| {
 					state.observed_ticks += 1;
 
-					let mut destination = state.destination.lock();
-					if destination.is_closed() {
+					if state.destination.is_closed() {
 						return WorkResult::Done;
 					}
 
@@ -96,9 +108,11 @@ where
 						&& let Some(value) = state.peekable_iterator.next()
 					{
 						state.observed_ticks = 0;
-						destination.next(value);
+						state.destination.next(value);
 						if state.peekable_iterator.peek().is_none() {
-							destination.complete();
+							if !state.destination.is_closed() {
+								state.destination.complete();
+							}
 							WorkResult::Done
 						} else {
 							WorkResult::Pending
@@ -113,6 +127,8 @@ where
 			owner_id
 		};
 
+		destination.add_teardown(Teardown::new_work_cancellation(owner_id, scheduler.clone()));
+
 		OnTickIteratorSubscription {
 			destination,
 			scheduler,
diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 95b9bb4..df62ecd 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -1,8 +1,8 @@
 use std::time::Duration;
 
 use rx_core_common::{
-	Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber, Subscriber,
-	SubscriptionLike, WorkCancellationId,
+	RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber,
+	Subscriber, SubscriptionLike, Teardown, TeardownCollection, WorkCancellationId,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -22,7 +22,7 @@ where
 impl<Destination, S> TimerSubscription<Destination, S>
 where
 	Destination: 'static + Subscriber<In = ()>,
-	S: Scheduler,
+	S: 'static + Scheduler,
 {
 	pub fn new(
 		destination: Destination,
@@ -30,18 +30,17 @@ where
 		scheduler: SchedulerHandle<S>,
 	) -> Self {
 		let scheduler_clone = scheduler.clone();
-		let destination = SharedSubscriber::new(destination);
+		let mut destination = SharedSubscriber::new(destination);
 		let cancellation_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			scheduler.schedule_delayed_work(
 				move |_, _| {
-					let mut destination = destination_clone.lock();
-					destination.next(());
-					if !destination.is_closed() {
-						destination.complete();
+					destination_clone.next(());
+					if !destination_clone.is_closed() {
+						destination_clone.complete();
 					}
 				},
 				duration,
@@ -51,6 +50,11 @@ where
 			cancellation_id
 		};
 
+		destination.add_teardown(Teardown::new_work_cancellation(
+			cancellation_id,
+			scheduler.clone(),
+		));
+
 		TimerSubscription {
 			destination,
 			scheduler,
-- 
2.43.0


From e3e1c1fe6ae63ab949c6a1d142dee6787f2ea472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:02 +0000
Subject: [PATCH 19/46] fix: take, first, find, find_index and is_empty pass
 nothing on after they ended by themselves

---
 .../src/find_subscriber.rs                    |  4 +++-
 .../src/find_index_subscriber.rs              |  6 +++--
 .../src/first_subscriber.rs                   |  4 +++-
 .../src/is_empty_subscriber.rs                | 23 +++++++++++++------
 .../src/take_subscriber.rs                    |  8 +++++--
 5 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/crates/rx_core_operator_find/src/find_subscriber.rs b/crates/rx_core_operator_find/src/find_subscriber.rs
index 194b8bf..02e7612 100644
--- a/crates/rx_core_operator_find/src/find_subscriber.rs
+++ b/crates/rx_core_operator_find/src/find_subscriber.rs
@@ -59,7 +59,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FindOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination.error(FindOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
index 4a2fe6b..3f1a5cf 100644
--- a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
+++ b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
@@ -69,8 +69,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.error(FindIndexOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination
+				.error(FindIndexOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_first/src/first_subscriber.rs b/crates/rx_core_operator_first/src/first_subscriber.rs
index ecb7717..c47e412 100644
--- a/crates/rx_core_operator_first/src/first_subscriber.rs
+++ b/crates/rx_core_operator_first/src/first_subscriber.rs
@@ -61,7 +61,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FirstOperatorError::Upstream(error));
+		if !self.first_observed {
+			self.destination.error(FirstOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
index 337275f..e0d2790 100644
--- a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
+++ b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
@@ -15,6 +15,7 @@ where
 {
 	#[destination]
 	destination: Destination,
+	next_observed: bool,
 	_phantom_data: PhantomInvariant<In>,
 }
 
@@ -26,6 +27,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			next_observed: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -38,22 +40,29 @@ where
 {
 	#[inline]
 	fn next(&mut self, _next: Self::In) {
-		self.destination.next(false);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.next_observed {
+			self.next_observed = true;
+			self.destination.next(false);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		if !self.next_observed {
+			self.destination.error(error);
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.next(true);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.next_observed {
+			self.destination.next(true);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 }
diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index bac985f..9f552f0 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -54,12 +54,16 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		if !self.is_closed() {
+			self.destination.error(error);
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
+		if !self.is_closed() {
+			self.destination.complete();
+		}
 	}
 }
 
-- 
2.43.0


From d7dcb843d104ec77caf0894f7f028a2226846122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 20/46] fix: delay and observe_on stop when unsubscribed from
 within a notification, observe_on is closed once its source is

---
 crates/rx_core_operator_delay/src/delay_subscriber.rs        | 3 +--
 .../rx_core_operator_observe_on/src/observe_on_subscriber.rs | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_delay/src/delay_subscriber.rs b/crates/rx_core_operator_delay/src/delay_subscriber.rs
index 26bc2b3..d2cb8dd 100644
--- a/crates/rx_core_operator_delay/src/delay_subscriber.rs
+++ b/crates/rx_core_operator_delay/src/delay_subscriber.rs
@@ -66,7 +66,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
@@ -74,7 +74,6 @@ where
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 		self.scheduler.lock().schedule_delayed_work(
 			move |_, _| {
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 19c255e..43f1109 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -57,7 +57,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
@@ -65,7 +65,6 @@ where
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 		self.scheduler.lock().schedule_immediate_work(
 			move |_, _| {
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
@@ -129,7 +128,7 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.destination.is_closed()
+		self.destination.is_closed() || self.upstream_unsubscribed.load(Ordering::Relaxed)
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From e1dc64d0b76f5c3b60027a25d303572d8ade4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 21/46] fix: debounce_time keeps a value observed while it
 emits the one before

---
 .../src/debounce_time_subscriber.rs                 | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index 9b1d943..7234ddd 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -66,7 +66,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
@@ -76,17 +76,18 @@ where
 		self.scheduled_work_counter.store(1, Ordering::Relaxed);
 		scheduler.schedule_delayed_work(
 			move |_, _| {
-				let mut destination = destination.lock();
+				// Cleared first, a next observed during the emission is scheduled again
+				scheduled_work_counter.store(0, Ordering::Relaxed);
+
 				if !destination.is_closed() {
 					destination.next(next);
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.swap(0, Ordering::Relaxed);
+				let has_scheduled_work = scheduled_work_counter.load(Ordering::Relaxed) != 0;
 
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& !has_scheduled_work
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -95,7 +96,7 @@ where
 
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& !has_scheduled_work
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
-- 
2.43.0


From 2a72fb0b6890bd85e918bf249b5d4ea316e55933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 22/46] fix: throttle_time emits its trailing value even when a
 tick overshoots, and does not panic on a zero duration

---
 .../src/throttle_time_subscriber.rs           | 53 ++++++++-----------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 381f2f4..9b264cd 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -96,35 +96,25 @@ where
 						return WorkResult::Pending;
 					}
 
-					if deadline < state.last_tick_time {
-						state.throttle_deadline = None;
-
-						(
-							false,
-							None,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					// A tick can overshoot the deadline, what's pending is due then too
+					let emit_value = if options.output_behavior.emits_trailing() {
+						state.last_value.take()
 					} else {
-						let emit_value = if options.output_behavior.emits_trailing() {
-							state.last_value.take()
-						} else {
-							state.last_value = None;
-							None
-						};
-
-						let continue_for_cooldown = emit_value.is_some();
-						if !continue_for_cooldown {
-							state.throttle_deadline = None;
-						}
+						state.last_value = None;
+						None
+					};
 
-						(
-							continue_for_cooldown,
-							emit_value,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					let continue_for_cooldown = emit_value.is_some();
+					if !continue_for_cooldown {
+						state.throttle_deadline = None;
 					}
+
+					(
+						continue_for_cooldown,
+						emit_value,
+						state.upstream_state.is_completed(),
+						state.upstream_state.is_closed_but_not_completed(),
+					)
 				};
 
 				if let Some(value) = emit_value {
@@ -184,17 +174,16 @@ where
 				Some(_) => {
 					// Throttle over, start new window
 					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
-					debug_assert!(
-						self.options.output_behavior.emits_trailing(),
-						"cooldown can only occur when trailing is enabled"
-					);
-					state.last_value = Some(next);
+					if self.options.output_behavior.emits_trailing() {
+						state.last_value = Some(next);
+					}
 				}
 			};
 			was_idle
 		};
 
-		if was_idle {
+		// The leading value could've closed the destination
+		if was_idle && !self.destination.is_closed() {
 			self.schedule_throttle_work();
 		}
 	}
-- 
2.43.0


From fe845958b3d7b7cc876ec503c6a05534b1a77e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 23/46] fix: fallback_when_silent stops working once its
 destination is closed

---
 .../src/fallback_when_silent_subscriber.rs             | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index 75c037f..bb1910f 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -67,6 +67,10 @@ where
 		let mut index = 0;
 		scheduler.schedule_continuous_work(
 			move |tick, context| {
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
+
 				let observed_next = {
 					let mut state = shared_state_clone.lock().unwrap_or_else(|a| a.into_inner());
 					state.next_observed_this_tick.take()
@@ -76,7 +80,11 @@ where
 				index += 1;
 				shared_destination_clone.next(next);
 
-				WorkResult::Pending
+				if shared_destination_clone.is_closed() {
+					WorkResult::Done
+				} else {
+					WorkResult::Pending
+				}
 			},
 			cancellation_id,
 		);
-- 
2.43.0


From 069849b4b1cd27d8254fdce83404c546211446b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 24/46] fix: adsr stops emitting once it is ended from within
 one of its signals

---
 crates/rx_core_operator_adsr/src/adsr_subscriber.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 669b5b5..8f233e1 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -58,7 +58,7 @@ where
 			options,
 		}));
 		let shared_state_clone = shared_state.clone();
-		let shared_destination_clone = shared_destination.clone();
+		let mut shared_destination_clone = shared_destination.clone();
 		let scheduler_clone = scheduler.clone();
 		let mut scheduler_lock = scheduler_clone.lock();
 		let cancellation_id = scheduler_lock.generate_cancellation_id();
@@ -66,8 +66,7 @@ where
 		let mut envelope_state = AdsrEnvelopeState::default();
 		scheduler_lock.schedule_continuous_work(
 			move |tick, _context| {
-				let mut destination_lock = shared_destination_clone.lock();
-				if destination_lock.is_closed() {
+				if shared_destination_clone.is_closed() {
 					return WorkResult::Done;
 				}
 
@@ -110,8 +109,8 @@ where
 				};
 
 				if let Some(next) = next {
-					destination_lock.next(next);
-					if destination_lock.is_closed() {
+					shared_destination_clone.next(next);
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 				}
-- 
2.43.0


From 8b30749560f4733d456e51854013aefb7209fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 25/46] fix: a restarted adsr envelope does not stand still for
 a tick

---
 crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
index 86f5de5..eeeb077 100644
--- a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
+++ b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
@@ -69,6 +69,8 @@ impl AdsrEnvelopeState {
 			.contains(AdsrEnvelopePhaseTransition::Stop)
 		{
 			self.reset();
+			// When restarted, time has to keep passing
+			self.adsr_envelope_phase = adsr_envelope_phase;
 		}
 
 		let result = AdsrSignal {
-- 
2.43.0


From 0484942e39bcdad2d08e243dd512838d494798e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 26/46] fix: dematerialize emits nothing after its first
 terminal

---
 .../src/dematerialize_subscriber.rs              | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
index 37b17de..821cb46 100644
--- a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
+++ b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
@@ -12,6 +12,9 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// The destination may stay open after it completed, materialized
+	/// terminals are followed by the completion of upstream too
+	has_ended: bool,
 }
 
 impl<Destination> DematerializeSubscriber<Destination>
@@ -19,7 +22,10 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self { destination }
+		Self {
+			destination,
+			has_ended: false,
+		}
 	}
 }
 
@@ -31,12 +37,13 @@ where
 	fn next(&mut self, notification: Self::In) {
 		match notification {
 			ObserverNotification::Next(next) => {
-				if !self.is_closed() {
+				if !self.has_ended && !self.is_closed() {
 					self.destination.next(next)
 				}
 			}
 			ObserverNotification::Error(error) => {
-				if !self.is_closed() {
+				if !self.has_ended && !self.is_closed() {
+					self.has_ended = true;
 					self.destination.error(error);
 				}
 			}
@@ -50,7 +57,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		if !self.has_ended && !self.is_closed() {
+			self.has_ended = true;
 			self.destination.complete();
 		}
 	}
-- 
2.43.0


From cbc8de23ae379e8bbe0e3373c75afe5fee17acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 27/46] fix: lift_result emits nothing after its error

---
 .../src/lift_result_subscriber.rs                    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
index d5ce651..518bbfa 100644
--- a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
+++ b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
@@ -17,6 +17,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// The destination may stay open after an error, upstream does not know of it
+	has_errored: bool,
 	_phantom_data: PhantomInvariant<(ResultIn, ResultInError, InError)>,
 }
 
@@ -31,6 +33,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			has_errored: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -46,9 +49,14 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		if self.has_errored {
+			return;
+		}
+
 		match next {
 			Ok(next) => self.destination.next(next),
 			Err(error) => {
+				self.has_errored = true;
 				self.destination.error(error);
 			}
 		}
@@ -60,6 +68,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
+		if !self.has_errored {
+			self.destination.complete();
+		}
 	}
 }
-- 
2.43.0


From bf077d22d7f0715ad842b6c9addb70194a0ca162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 28/46] fix: take(0) is closed from the start

---
 crates/rx_core_operator_take/src/take_subscriber.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index 9f552f0..9bde717 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -26,7 +26,7 @@ where
 			destination.complete();
 		}
 
-		let closed: SubscriptionClosedFlag = destination.is_closed().into();
+		let closed: SubscriptionClosedFlag = (count == 0 || destination.is_closed()).into();
 
 		Self {
 			destination,
-- 
2.43.0


From 0e1dd0ea35ef58cc5a0da235adb65c91aa237194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 29/46] fix: retry releases its source when downstream ends by
 itself

---
 crates/rx_core_operator_retry/src/retry_observable.rs | 10 ++++++++--
 crates/rx_core_operator_retry/src/retry_subscriber.rs |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 0bfba17..b6d362c 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -56,6 +56,9 @@ where
 		let mut shared_destination = SharedSubscriber::new(destination.upgrade());
 		let mut outer_subscription = SharedSubscription::default();
 
+		// Downstream can end without anything passing through here
+		shared_destination.add_teardown(outer_subscription.clone().into());
+
 		let mut immediate_retries = 0;
 
 		let caught_error = Arc::new(Mutex::new(None));
@@ -85,8 +88,11 @@ where
 			immediate_retries += 1;
 
 			let Some(error) = caught_error.lock_ignore_poison().take() else {
-				if !shared_destination.is_closed() {
-					outer_subscription.add(last_subscription);
+				outer_subscription.add(last_subscription);
+				if shared_destination.is_closed() {
+					// Nothing else would release a source that doesn't notice
+					// that downstream have closed before it could emit.
+					outer_subscription.unsubscribe();
 				}
 				break;
 			};
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index f79308e..fffe7c2 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -98,7 +98,7 @@ where
 		self.destination.next(next);
 
 		if self.destination.is_closed() {
-			self.unsubscribe();
+			self.finish();
 		}
 	}
 
@@ -179,7 +179,12 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.failed && self.finished_with.is_none() {
-			self.finish();
+			self.outer_subscription.unsubscribe();
+			// Another attempt may be the one that is ending it right now
+			if !self.destination.is_closed() {
+				self.destination.unsubscribe();
+			}
+			self.attempt_teardown.unsubscribe();
 		}
 	}
 }
-- 
2.43.0


From fc46fe0aa3a5f10aaa97cd42ab1b45f3e409fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 30/46] fix: throttle_time does not panic when upstream ends
 within the tick of its deadline

---
 .../src/throttle_time_subscriber.rs                       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 9b264cd..b500224 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -88,9 +88,11 @@ where
 					let mut state = state.lock_ignore_poison();
 					state.last_tick_time = tick.now();
 
-					let deadline = state
-						.throttle_deadline
-						.expect("scheduled work always has an active throttle deadline");
+					// Upstream have ended during this very tick, the cancellation
+					// of this work is only going to be processed after it
+					let Some(deadline) = state.throttle_deadline else {
+						return WorkResult::Done;
+					};
 
 					if state.last_tick_time < deadline {
 						return WorkResult::Pending;
-- 
2.43.0


From b27e880beda9f01d150f399b8b80722e45d38c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 31/46] fix: the ticking executor does not hold the scheduler
 while cancelled work is dropped

---
 .../src/ticking_executor.rs                      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 74278b1..09b6c25 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -150,11 +150,17 @@ where
 	}
 
 	fn drain_scheduler_queue(&mut self, tick: Tick) -> bool {
-		let mut scheduler = self.scheduler.lock();
-		let had_actions = scheduler.has_actions();
-		scheduler.update_tick(tick);
-
-		for action in scheduler.drain_actions() {
+		// The scheduler must not be locked while the actions are processed,
+		// dropping a cancelled work can also drop what it have captured, and
+		// its teardowns can reach for the scheduler too.
+		let actions = {
+			let mut scheduler = self.scheduler.lock();
+			scheduler.update_tick(tick);
+			scheduler.drain_actions().collect::<Vec<_>>()
+		};
+		let had_actions = !actions.is_empty();
+
+		for action in actions {
 			match action {
 				ScheduledWorkAction::<Tick, C>::Activate((cancellation_id, work)) => {
 					let work_id = self.work_id_generator.get_next();
-- 
2.43.0


From 3ea53b5a8c280b4b9c5536501356486ecc30b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 32/46] fix: zip, combine_latest, combine_changes and join emit
 nothing after their terminal

---
 .../src/combine_changes_subscriber.rs                    | 9 +++++++++
 .../src/combine_latest_subscriber.rs                     | 9 +++++++++
 crates/rx_core_observable_join/src/join_subscriber.rs    | 9 +++++++++
 crates/rx_core_observable_zip/src/zip_subscriber.rs      | 9 +++++++++
 4 files changed, 36 insertions(+)

diff --git a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
index 3f69e18..783d111 100644
--- a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
+++ b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
@@ -36,6 +36,8 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// The destination may stay open after it was notified of the end
+	has_ended: bool,
 }
 
 impl<Destination, O1, O2> CombineChangesSubscriber<Destination, O1, O2>
@@ -53,6 +55,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			has_ended: false,
 		}
 	}
 
@@ -67,6 +70,7 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.has_ended = true;
 			self.destination.complete();
 		}
 	}
@@ -90,6 +94,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.has_ended {
+			return;
+		}
+
 		let mut o1_just_nexted = false;
 		let mut o2_just_nexted = false;
 		match next {
@@ -104,6 +112,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.has_ended = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 159924b..34f5c77 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -34,6 +34,8 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// The destination may stay open after it was notified of the end
+	has_ended: bool,
 }
 
 impl<Destination, O1, O2> CombineLatestSubscriber<Destination, O1, O2>
@@ -51,6 +53,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			has_ended: false,
 		}
 	}
 
@@ -74,6 +77,7 @@ where
 				|| (self.o1_state.is_primed() && self.o2_state.is_completed_but_not_primed())
 				|| (self.o1_state.is_completed_but_not_primed() && self.o2_state.is_primed()))
 		{
+			self.has_ended = true;
 			self.destination.complete();
 		}
 	}
@@ -100,6 +104,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.has_ended {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -114,6 +122,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.has_ended = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_join/src/join_subscriber.rs b/crates/rx_core_observable_join/src/join_subscriber.rs
index 1db2db0..93fd93d 100644
--- a/crates/rx_core_observable_join/src/join_subscriber.rs
+++ b/crates/rx_core_observable_join/src/join_subscriber.rs
@@ -36,6 +36,8 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// The destination may stay open after it was notified of the end
+	has_ended: bool,
 }
 
 impl<Destination, O1, O2> JoinSubscriber<Destination, O1, O2>
@@ -53,6 +55,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			has_ended: false,
 		}
 	}
 
@@ -78,6 +81,7 @@ where
 				self.destination.next(next);
 			}
 
+			self.has_ended = true;
 			self.destination.complete();
 		}
 	}
@@ -101,6 +105,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.has_ended {
+			return;
+		}
+
 		match next {
 			EitherObservableNotification2::O1(notification) => {
 				if !self
@@ -121,6 +129,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.has_ended = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index 70ebe23..98d21d3 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -34,6 +34,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// The destination may stay open after it was notified of the end
+	has_ended: bool,
 	o1_queue: NotificationQueue<O1::Out, O1::OutError>,
 	o2_queue: NotificationQueue<O2::Out, O2::OutError>,
 }
@@ -53,6 +55,7 @@ where
 			o1_queue: NotificationQueue::new(options.clone()),
 			o2_queue: NotificationQueue::new(options),
 			destination,
+			has_ended: false,
 		}
 	}
 
@@ -80,6 +83,7 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
+			self.has_ended = true;
 			self.destination.complete();
 		}
 	}
@@ -103,6 +107,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.has_ended {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -117,6 +125,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.has_ended = true;
 			self.destination.error(error);
 			return;
 		}
-- 
2.43.0


From d8498565f02d4be481039d7643066d0e45d1877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 33/46] fix: clones of a shared observable share its
 connection, and a finished subscription does not connect it

---
 .../src/share_observable.rs                   | 42 +++++--------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 96730b6..234ae58 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -21,14 +21,6 @@ where
 		Source,
 		ConnectorProvider,
 	>,
-	connection: Option<
-		ConnectionHandle<
-			<ConnectableObservable<
-				Source,
-			ConnectorProvider,
-			> as Connectable>::ConnectionSubscription,
-		>,
-	>,
 }
 
 impl<Source, ConnectorProvider> ShareObservable<Source, ConnectorProvider>
@@ -42,42 +34,26 @@ where
 	pub fn new(source: Source, options: ConnectableOptions<ConnectorProvider>) -> Self {
 		Self {
 			connectable: ConnectableObservable::new(source, options),
-			connection: None,
 		}
 	}
 
+	#[inline]
 	pub fn is_connected(&self) -> bool {
-		self.connection
-			.as_ref()
-			.map(|connection| !connection.is_closed())
-			.unwrap_or(false)
+		self.connectable.is_connected()
 	}
 
+	#[inline]
 	pub fn connect(
 		&mut self,
 	) -> ConnectionHandle<
 		<ConnectableObservable<Source, ConnectorProvider> as Connectable>::ConnectionSubscription,
 	> {
-		if let Some(connection) = self.connection.as_ref()
-			&& !connection.is_closed()
-		{
-			return connection.clone();
-		}
-
-		let connection = self.connectable.connect();
-		self.connection = Some(connection.clone());
-		connection
+		self.connectable.connect()
 	}
 
+	#[inline]
 	pub fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
+		self.connectable.disconnect()
 	}
 }
 
@@ -104,7 +80,11 @@ where
 	{
 		let subscription = self.connectable.subscribe(destination);
 
-		self.connect();
+		// If it's over already, there is nothing to connect for, and nothing
+		// that would disconnect it.
+		if !subscription.is_closed() {
+			self.connect();
+		}
 
 		subscription
 	}
-- 
2.43.0


From ad2c6da7e043f26bfe251aa9a5c9c64c95837eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:38 +0000
Subject: [PATCH 34/46] fix: connectable starts every connection afresh and
 releases one that is abandoned while it is being made

---
 .../src/internal/connection.rs                | 12 +++++-
 .../src/internal/connection_state.rs          | 37 +++++++++++++++++--
 .../src/internal/connection_subscriber.rs     | 35 ++++++++++++++++--
 .../src/internal/connector_state.rs           | 37 ++++++++++++++-----
 4 files changed, 103 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/internal/connection.rs b/crates/rx_core_observable_connectable/src/internal/connection.rs
index 18bfc65..298d349 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection.rs
@@ -9,6 +9,9 @@ where
 	Subscription: SubscriptionWithTeardown,
 {
 	connection: Option<ConnectionHandle<Subscription>>,
+	/// The source had completed or errored, even if the subscription to it
+	/// might not be closed yet.
+	finished: bool,
 }
 
 impl<Subscription> Connection<Subscription>
@@ -28,7 +31,7 @@ where
 
 	pub(crate) fn is_connected(&self) -> bool {
 		if let Some(connection) = self.connection.as_ref() {
-			!connection.is_closed()
+			!self.finished && !connection.is_closed()
 		} else {
 			false
 		}
@@ -41,6 +44,7 @@ where
 		self.disconnect();
 		let handle = ConnectionHandle::new(connection);
 		self.connection = Some(handle.clone());
+		self.finished = false;
 		handle
 	}
 
@@ -51,7 +55,11 @@ where
 	pub(crate) fn get_active_connection(&mut self) -> Option<ConnectionHandle<Subscription>> {
 		self.connection
 			.as_ref()
-			.filter(|connection| !connection.is_closed())
+			.filter(|connection| !self.finished && !connection.is_closed())
 			.cloned()
 	}
+
+	pub(crate) fn finished(&mut self) {
+		self.finished = true;
+	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 32bb6dd..e7df89d 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -1,3 +1,8 @@
+use std::sync::{
+	Arc,
+	atomic::{AtomicBool, Ordering},
+};
+
 use rx_core_common::{Provider, SubjectLike};
 
 use crate::observable::ConnectableOptions;
@@ -10,6 +15,10 @@ pub(crate) struct ConnectionState {
 	downstream_subscriber_count: usize,
 	has_errored: bool,
 	has_completed: bool,
+	/// The source is being subscribed to
+	is_connecting: bool,
+	/// Should have disconnected while there was no connection yet to disconnect
+	disconnect_requested: Arc<AtomicBool>,
 	connection_options: ConnectionOptions,
 }
 
@@ -34,6 +43,8 @@ impl ConnectionState {
 			downstream_subscriber_count: 0,
 			has_completed: false,
 			has_errored: false,
+			is_connecting: false,
+			disconnect_requested: Arc::default(),
 		}
 	}
 
@@ -55,14 +66,34 @@ impl ConnectionState {
 	/// ref count has just dropped to zero.
 	pub(crate) fn decrement_subscriber_count(&mut self) -> bool {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_sub(1);
-		self.connection_options.disconnect_when_ref_count_zero
+		let should_disconnect = self.connection_options.disconnect_when_ref_count_zero
 			&& self.downstream_subscriber_count == 0
 			&& !self.has_errored
-			&& !self.has_completed
+			&& !self.has_completed;
+
+		if should_disconnect && self.is_connecting {
+			self.disconnect_requested.store(true, Ordering::Relaxed);
+		}
+
+		should_disconnect
 	}
 
-	pub(crate) fn reset(&mut self) {
+	/// A new connection has not errored or completed yet
+	pub(crate) fn connecting(&mut self) {
 		self.has_completed = false;
 		self.has_errored = false;
+		self.is_connecting = true;
+		self.disconnect_requested.store(false, Ordering::Relaxed);
+	}
+
+	/// Returns true when the ref count has dropped to zero since
+	/// [ConnectionState::connecting]
+	pub(crate) fn connected(&mut self) -> bool {
+		self.is_connecting = false;
+		self.disconnect_requested.swap(false, Ordering::Relaxed)
+	}
+
+	pub(crate) fn disconnect_requested(&self) -> Arc<AtomicBool> {
+		self.disconnect_requested.clone()
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
index 8e02f5c..63ffc0e 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
@@ -1,3 +1,8 @@
+use std::sync::{
+	Arc,
+	atomic::{AtomicBool, Ordering},
+};
+
 use rx_core_common::{
 	RxObserver, SubjectLike, SubscriptionData, SubscriptionLike, Teardown, TeardownCollection,
 };
@@ -14,6 +19,8 @@ where
 	on_error: Option<Box<dyn FnOnce() + Send + Sync>>,
 	on_complete: Option<Box<dyn FnOnce() + Send + Sync>>,
 	on_unsubscribe: Option<Box<dyn FnOnce() + Send + Sync>>,
+	/// Already disconnected, but the source is still being subscribed to
+	disconnect_requested: Arc<AtomicBool>,
 	teardown: SubscriptionData,
 }
 
@@ -26,13 +33,28 @@ where
 		on_complete: Box<dyn FnOnce() + Send + Sync>,
 		on_error: Box<dyn FnOnce() + Send + Sync>,
 		on_unsubscribe: Box<dyn FnOnce() + Send + Sync>,
+		disconnect_requested: Arc<AtomicBool>,
 	) -> Self {
+		let mut teardown = SubscriptionData::default();
+
+		// Nothing would ever be relayed to a connector that had already finished
+		if connector.is_closed() {
+			teardown.unsubscribe();
+		}
+
 		Self {
 			connector,
 			on_complete: Some(on_complete),
 			on_error: Some(on_error),
 			on_unsubscribe: Some(on_unsubscribe),
-			teardown: SubscriptionData::default(),
+			disconnect_requested,
+			teardown,
+		}
+	}
+
+	fn try_disconnect(&mut self) {
+		if self.disconnect_requested.load(Ordering::Relaxed) {
+			self.unsubscribe();
 		}
 	}
 }
@@ -43,6 +65,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		self.try_disconnect();
 		if !self.is_closed() {
 			self.connector.next(next);
 		}
@@ -50,6 +73,7 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		self.try_disconnect();
 		if !self.is_closed() {
 			if let Some(on_error) = self.on_error.take() {
 				on_error()
@@ -62,6 +86,7 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
+		self.try_disconnect();
 		if !self.is_closed() {
 			if let Some(on_complete) = self.on_complete.take() {
 				on_complete()
@@ -94,10 +119,14 @@ where
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		// Even if the connector had already closed, the connection to the source
+		// still has to be released.
+		if !self.teardown.is_closed() {
 			self.on_complete.take(); // In case wasn't completed
 			self.on_error.take(); // In case didn't error
-			if let Some(on_unsubscribe) = self.on_unsubscribe.take() {
+			if let Some(on_unsubscribe) = self.on_unsubscribe.take()
+				&& !self.connector.is_closed()
+			{
 				on_unsubscribe()
 			}
 			self.teardown.unsubscribe();
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index b72b9cd..74b7cf0 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -72,8 +72,14 @@ where
 		let connector = self.get_connector().clone();
 
 		let reset_connector_on_disconnect = self.options.reset_connector_on_disconnect;
-		let connection_on_complete = self.connection_state.clone();
-		let connection_on_error = self.connection_state.clone();
+		let connection_on_complete = Arc::downgrade(&self.connection);
+		let connection_on_error = Arc::downgrade(&self.connection);
+		let connection_state_on_complete = self.connection_state.clone();
+		let connection_state_on_error = self.connection_state.clone();
+		let disconnect_requested = self
+			.connection_state
+			.lock_ignore_poison()
+			.disconnect_requested();
 		let connector_on_complete = self.connector.clone();
 		let connector_on_error = self.connector.clone();
 		let connector_on_unsubscribe = self.connector.clone();
@@ -83,21 +89,24 @@ where
 		self.source.subscribe(ConnectionSubscriber::new(
 			connector.clone(),
 			Box::new(move || {
-				let mut connection_state = connection_on_complete.lock_ignore_poison();
-
 				if reset_on_complete {
 					connector_on_complete.lock_ignore_poison().take();
-					connection_state.reset();
 				}
-				connection_state.completed();
+				connection_state_on_complete
+					.lock_ignore_poison()
+					.completed();
+				if let Some(connection) = connection_on_complete.upgrade() {
+					connection.lock_ignore_poison().finished();
+				}
 			}),
 			Box::new(move || {
-				let mut connection_state = connection_on_error.lock_ignore_poison();
 				if reset_on_error {
 					connector_on_error.lock_ignore_poison().take();
-					connection_state.reset();
 				}
-				connection_state.errored();
+				connection_state_on_error.lock_ignore_poison().errored();
+				if let Some(connection) = connection_on_error.upgrade() {
+					connection.lock_ignore_poison().finished();
+				}
 			}),
 			Box::new(move || {
 				if reset_connector_on_disconnect {
@@ -107,6 +116,7 @@ where
 					// Attempting to unsubscribe the connector here will lead to a deadlock!
 				}
 			}),
+			disconnect_requested,
 		))
 	}
 
@@ -125,8 +135,15 @@ where
 		let active_connection = self.connection.lock_ignore_poison().get_active_connection();
 
 		active_connection.unwrap_or_else(move || {
+			self.connection_state.lock_ignore_poison().connecting();
 			let new_connection = self.create_connection();
-			self.register_connection(new_connection)
+			let handle = self.register_connection(new_connection);
+
+			if self.connection_state.lock_ignore_poison().connected() {
+				self.disconnect();
+			}
+
+			handle
 		})
 	}
 
-- 
2.43.0


From 43240d772f4992963ba29fa1787dd02eaf6ebe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:25 +0000
Subject: [PATCH 35/46] fix: unsubscribing from a subject always removes the
 subscriber, even one that is already closed

---
 .../src/multicast_subscription.rs                     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 917962d..b42ae3b 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -79,8 +79,9 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.try_check_is_closed()
-			&& let Some(id) = self.id
+		// Even if the subscriber is already closed, it has to be removed: it would
+		// keep everything it holds until the next signal otherwise.
+		if let Some(id) = self.id.take()
 			&& let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe_by_id(id)
 		{
 			self.state
@@ -115,6 +116,10 @@ where
 	InError: Signal + Clone,
 {
 	fn drop(&mut self) {
-		self.unsubscribe();
+		// A subscriber that closed itself may have started something that goes on,
+		// it's only torn down when asked for.
+		if !self.is_closed() {
+			self.unsubscribe();
+		}
 	}
 }
-- 
2.43.0


From 408cc378ed5edc7ad8a3f55cb6c557b20b2a1f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:32 +0000
Subject: [PATCH 36/46] fix: switch_map, exhaust_map and catch release their
 inner subscription with the subscription they belong to

---
 .../src/catch_subscriber.rs                   | 35 ++++++++++----
 .../src/exhaust_subscriber.rs                 | 47 +++++++++++++------
 .../src/switch_subscriber.rs                  | 47 +++++++++++++------
 3 files changed, 91 insertions(+), 38 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index 5e7f380..b5dd2ee 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -4,7 +4,7 @@ use std::sync::{Arc, Mutex};
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -24,7 +24,7 @@ where
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
 	error_mapper: Option<ErrorMapper>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<(In, InError)>,
 }
@@ -39,10 +39,22 @@ where
 	Destination: 'static + Subscriber<In = In, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, error_mapper: ErrorMapper) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let inner_subscription = Arc::new(Mutex::new(Option::<SubscriptionData>::None));
+
+		// Downstream can end without anything passing through here
+		let inner_subscription_on_teardown = inner_subscription.clone();
+		shared_destination.add_fn(move || {
+			let inner_subscription = inner_subscription_on_teardown.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
+		});
+
 		Self {
-			shared_destination: SharedSubscriber::new(destination),
+			shared_destination,
 			error_mapper: Some(error_mapper),
-			inner_subscription: None,
+			inner_subscription,
 			outer_teardown: SharedSubscription::default(),
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
 			_phantom_data: PhantomData,
@@ -83,7 +95,8 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
+			let inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
 				inner_subscription.unsubscribe();
 			}
 
@@ -119,8 +132,9 @@ where
 			let subscription = next_observable.subscribe(higher_order_subscriber);
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				self.inner_subscription
+					.lock_ignore_poison()
+					.replace(SubscriptionData::new_with_teardown(subscription.into()));
 			}
 
 			if self.shared_destination.is_closed() {
@@ -178,9 +192,10 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.outer_teardown.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
+			let inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
 
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 5f5cec6..fbf402e 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -6,7 +6,7 @@ use std::{
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -26,7 +26,7 @@ where
 	outer_teardown: SharedSubscription,
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
 
@@ -37,11 +37,26 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let outer_teardown = SharedSubscription::default();
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let inner_subscription = Arc::new(Mutex::new(Option::<SubscriptionData>::None));
+
+		// Downstream can end without anything passing through here
+		let inner_subscription_on_teardown = inner_subscription.clone();
+		let mut outer_teardown_on_teardown = outer_teardown.clone();
+		shared_destination.add_fn(move || {
+			outer_teardown_on_teardown.unsubscribe();
+			let inner_subscription = inner_subscription_on_teardown.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
+		});
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
-			shared_destination: SharedSubscriber::new(destination),
+			outer_teardown,
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -65,7 +80,8 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
+			let inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
 				inner_subscription.unsubscribe();
 			}
 
@@ -80,9 +96,10 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
+					if !outer_teardown_on_unsubscribe_clone.is_closed()
+						&& state_on_unsubscribe_clone
+							.lock_ignore_poison()
+							.can_downstream_unsubscribe()
 					{
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
 						shared_destination_on_unsubscribe.unsubscribe();
@@ -91,8 +108,9 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				self.inner_subscription
+					.lock_ignore_poison()
+					.replace(SubscriptionData::new_with_teardown(subscription.into()));
 			}
 		}
 	}
@@ -133,9 +151,10 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.outer_teardown.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription {
-				subscription_handle.unsubscribe();
-			};
+			let inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
 
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index 18de9a3..84039d3 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -8,7 +8,7 @@ use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
 
@@ -24,7 +24,7 @@ where
 {
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -36,11 +36,26 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let outer_teardown = SharedSubscription::default();
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let inner_subscription = Arc::new(Mutex::new(Option::<SubscriptionData>::None));
+
+		// Downstream can end without anything passing through here
+		let inner_subscription_on_teardown = inner_subscription.clone();
+		let mut outer_teardown_on_teardown = outer_teardown.clone();
+		shared_destination.add_fn(move || {
+			outer_teardown_on_teardown.unsubscribe();
+			let inner_subscription = inner_subscription_on_teardown.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
+		});
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
-			shared_destination: SharedSubscriber::new(destination),
+			outer_teardown,
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -59,7 +74,8 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
+			let inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
 				inner_subscription.unsubscribe();
 			}
 
@@ -73,9 +89,10 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
+					if !outer_teardown_on_unsubscribe_clone.is_closed()
+						&& state_on_unsubscribe_clone
+							.lock_ignore_poison()
+							.can_downstream_unsubscribe()
 					{
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
 						shared_destination_on_unsubscribe_clone.unsubscribe();
@@ -84,8 +101,9 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				self.inner_subscription
+					.lock_ignore_poison()
+					.replace(SubscriptionData::new_with_teardown(subscription.into()));
 			}
 
 			if self.shared_destination.is_closed() {
@@ -148,9 +166,10 @@ where
 		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
+			let inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
 		}
 	}
 }
-- 
2.43.0


From 863253b608ff203910c19d58e697c6cf94cce4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:32 +0000
Subject: [PATCH 37/46] fix: retry releases what is upstream when it ends with
 its destination already closed

---
 .../rx_core_operator_retry/src/retry_subscriber.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index fffe7c2..050ffe3 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -103,7 +103,12 @@ where
 	}
 
 	fn error(&mut self, mut error: Self::InError) {
-		if self.failed || self.destination.is_closed() {
+		if self.failed {
+			return;
+		}
+
+		if self.destination.is_closed() {
+			self.unsubscribe();
 			return;
 		}
 
@@ -158,7 +163,12 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if self.failed || self.destination.is_closed() {
+		if self.failed {
+			return;
+		}
+
+		if self.destination.is_closed() {
+			self.unsubscribe();
 			return;
 		}
 
-- 
2.43.0


From 11dcff1706f574e90851836abd76a03a94bf9c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:32 +0000
Subject: [PATCH 38/46] fix: unsubscribing a timer always reaches its
 destination

---
 crates/rx_core_observable_timer/src/timer_subscription.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index df62ecd..af23993 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -77,8 +77,7 @@ where
 			self.scheduler.lock().cancel(cancellation_id);
 		}
 
-		if !self.destination.is_closed() {
-			self.destination.unsubscribe();
-		}
+		// Even if the timer is over, something downstream may still go on
+		self.destination.unsubscribe();
 	}
 }
-- 
2.43.0


From 600a9335ddaa2a2931f11aff17754e3f5af64f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 39/46] fix: let a message subscription be unsubscribed from
 within its own callback

---
 .../src/message_subscription.rs                          | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_bevy_observable_message/src/message_subscription.rs b/crates/rx_bevy_observable_message/src/message_subscription.rs
index 6ad04a8..af42505 100644
--- a/crates/rx_bevy_observable_message/src/message_subscription.rs
+++ b/crates/rx_bevy_observable_message/src/message_subscription.rs
@@ -28,22 +28,21 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut message_cursor = MessageCursor::<Destination::In>::default();
-			let shared_destination_clone = shared_destination.clone();
+			let mut shared_destination_clone = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_, context| {
 					let events = context
 						.deferred_world
 						.resource::<Messages<Destination::In>>();
 
-					let mut destination = shared_destination_clone.lock();
-					if destination.is_closed() {
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
 					for event in message_cursor.read(events).cloned() {
-						destination.next(event);
+						shared_destination_clone.next(event);
 
-						if destination.is_closed() {
+						if shared_destination_clone.is_closed() {
 							return WorkResult::Done;
 						}
 					}
-- 
2.43.0


From 4e33dc75b618031baf5ba2fa30d65e3753a78571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 40/46] fix: complete an event subscription whose entity
 despawned before the scheduler ran

---
 .../rx_bevy_observable_event/src/event_subscription.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/rx_bevy_observable_event/src/event_subscription.rs b/crates/rx_bevy_observable_event/src/event_subscription.rs
index d8c3389..3ac7c4a 100644
--- a/crates/rx_bevy_observable_event/src/event_subscription.rs
+++ b/crates/rx_bevy_observable_event/src/event_subscription.rs
@@ -46,6 +46,16 @@ where
 			let scheduler_schedule_clone = scheduler.clone();
 			scheduler_lock.schedule_immediate_work(
 				move |_, context| {
+					// It could have been despawned before this could run
+					if context
+						.deferred_world
+						.get_entity(observed_event_source_entity)
+						.is_err()
+					{
+						shared_destination_despawn_clone.complete();
+						return;
+					}
+
 					let mut commands = context.deferred_world.commands();
 					let observer_satellite_entity = commands.spawn((
 						Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
-- 
2.43.0


From 33161c8b30fc54dc498e1f3f32a61cd2b903f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 41/46] fix: do not spawn a second set of satellites when a
 subject or observable component is replaced

---
 crates/rx_bevy_common/src/observable/observable_component.rs | 4 ++--
 crates/rx_bevy_common/src/subject/subject_component.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rx_bevy_common/src/observable/observable_component.rs b/crates/rx_bevy_common/src/observable/observable_component.rs
index 3ef611c..5abd60c 100644
--- a/crates/rx_bevy_common/src/observable/observable_component.rs
+++ b/crates/rx_bevy_common/src/observable/observable_component.rs
@@ -13,7 +13,7 @@ use crate::{
 #[derive(Component, RxObservable)]
 #[rx_out(O::Out)]
 #[rx_out_error(O::OutError)]
-#[component(on_insert=observable_on_insert::<O>, on_remove=observable_on_remove::<O>)]
+#[component(on_add=observable_on_add::<O>, on_remove=observable_on_remove::<O>)]
 #[require(ObservableSubscriptions::<O>, ObservableOutputs::<O::Out, O::OutError>)]
 pub struct ObservableComponent<O>
 where
@@ -55,7 +55,7 @@ where
 	}
 }
 
-fn observable_on_insert<O>(mut deferred_world: DeferredWorld, hook_context: HookContext)
+fn observable_on_add<O>(mut deferred_world: DeferredWorld, hook_context: HookContext)
 where
 	O: 'static + Observable + Send + Sync,
 {
diff --git a/crates/rx_bevy_common/src/subject/subject_component.rs b/crates/rx_bevy_common/src/subject/subject_component.rs
index ab779e6..6480fd5 100644
--- a/crates/rx_bevy_common/src/subject/subject_component.rs
+++ b/crates/rx_bevy_common/src/subject/subject_component.rs
@@ -42,7 +42,7 @@ use crate::{
 #[rx_out(Subject::Out)]
 #[rx_out_error(Subject::OutError)]
 #[rx_delegate_subscription_like_to_destination]
-#[component(on_insert=subject_on_insert::<Subject>, on_remove=subject_on_remove::<Subject>)]
+#[component(on_add=subject_on_add::<Subject>, on_remove=subject_on_remove::<Subject>)]
 #[require(ObservableSubscriptions::<Subject>, ObservableOutputs::<Subject::Out, Subject::OutError>)]
 pub struct SubjectComponent<Subject>
 where
@@ -110,7 +110,7 @@ where
 	}
 }
 
-fn subject_on_insert<Subject>(mut deferred_world: DeferredWorld, hook_context: HookContext)
+fn subject_on_add<Subject>(mut deferred_world: DeferredWorld, hook_context: HookContext)
 where
 	Subject: 'static + SubjectLike + Send + Sync,
 	Subject::In: Clone,
-- 
2.43.0


From 69dfff038d5d1094c43f48e33621ca474e009845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 42/46] fix: retry a missed subscribe command while its
 subscription entity still exists, not after

---
 crates/rx_bevy_common/src/observable/command_subscribe.rs  | 6 ++++++
 .../src/observable/entity_commands_observable.rs           | 7 ++++---
 .../src/observable/observable_system_param.rs              | 2 +-
 crates/rx_bevy_common/src/scheduler/rx_plugin.rs           | 7 ++++++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/rx_bevy_common/src/observable/command_subscribe.rs b/crates/rx_bevy_common/src/observable/command_subscribe.rs
index f60bc28..35191d9 100644
--- a/crates/rx_bevy_common/src/observable/command_subscribe.rs
+++ b/crates/rx_bevy_common/src/observable/command_subscribe.rs
@@ -80,6 +80,12 @@ where
 	fn apply(self, world: &mut bevy_ecs::world::World) -> Result<(), BevyError> {
 		let observable_entity = self.event.observable_entity;
 
+		// The subscription was already given up on, dropping the command
+		// unsubscribes the destination
+		if world.get_entity(self.event.subscription_entity).is_err() {
+			return Ok(());
+		}
+
 		let has_matching_subscribe_observer = world
 			.get::<ErasedSubscribeObservers<Out, OutError>>(observable_entity)
 			.is_some();
diff --git a/crates/rx_bevy_common/src/observable/entity_commands_observable.rs b/crates/rx_bevy_common/src/observable/entity_commands_observable.rs
index bf42e8d..34676de 100644
--- a/crates/rx_bevy_common/src/observable/entity_commands_observable.rs
+++ b/crates/rx_bevy_common/src/observable/entity_commands_observable.rs
@@ -46,9 +46,10 @@ pub trait EntityCommandsAsObservableExtension {
 	///
 	/// > This only concerns cases where you spawn/insert the observable, and
 	/// > subscribe to it in the very same system! It will always work, but in
-	/// > some cases the subscription will only be created in the next frame's
-	/// > [`First`][bevy_app::main_schedule::First] schedule. Read the details
-	/// > below to know exactly when that happens and why.
+	/// > some cases the subscription will only be created at the end of the
+	/// > frame, in the [`Last`][bevy_app::main_schedule::Last] schedule, or if
+	/// > that was too late, in the [`First`][bevy_app::main_schedule::First]
+	/// > schedule of the next one. Read the details below to know exactly when that happens and why.
 	///
 	/// There is a subtle difference between creating a subscription through this
 	/// [`EntityCommands::as_observable`][crate::EntityCommandsAsObservableExtension::as_observable]
diff --git a/crates/rx_bevy_common/src/observable/observable_system_param.rs b/crates/rx_bevy_common/src/observable/observable_system_param.rs
index 5d3cfd3..1f5d808 100644
--- a/crates/rx_bevy_common/src/observable/observable_system_param.rs
+++ b/crates/rx_bevy_common/src/observable/observable_system_param.rs
@@ -33,7 +33,7 @@ where
 	///
 	/// Since the check happens immediately, observables spawned in the same
 	/// system will not be found. In that case, use `Commands::subscribe`
-	/// directly, as that will automatically be retried in the next frame
+	/// directly, as that will automatically be retried until the end of the frame
 	/// if the Observable wasn't available immediately.
 	pub fn try_subscribe_to(
 		&mut self,
diff --git a/crates/rx_bevy_common/src/scheduler/rx_plugin.rs b/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
index e28b69b..56b1c22 100644
--- a/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
+++ b/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
@@ -19,7 +19,12 @@ pub struct RxPlugin;
 
 impl Plugin for RxPlugin {
 	fn build(&self, app: &mut App) {
-		app.add_systems(Last, clean_unfinished_subscriptions);
+		// The last chance for the subscriptions made during this frame, before
+		// their unfinished subscription entities are despawned
+		app.add_systems(
+			Last,
+			(execute_pending_retries, clean_unfinished_subscriptions).chain(),
+		);
 
 		// Used to despawn unsubscribed entities
 		app.add_plugins(RxSchedulerPlugin::<Last, Virtual>::default());
-- 
2.43.0


From 87a4e141e5c9c58c9d60883f7a2da5e32acfc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 43/46] fix: allow the subscription of a satellite to be
 removed before its relationship

---
 .../src/subscription/subscription_satellite.rs       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/rx_bevy_common/src/subscription/subscription_satellite.rs b/crates/rx_bevy_common/src/subscription/subscription_satellite.rs
index 716dc95..52669b3 100644
--- a/crates/rx_bevy_common/src/subscription/subscription_satellite.rs
+++ b/crates/rx_bevy_common/src/subscription/subscription_satellite.rs
@@ -49,12 +49,14 @@ fn subscription_satellite_of_on_remove(
 	mut deferred_world: DeferredWorld,
 	hook_context: HookContext,
 ) {
-	let subscription_satellite =
-		deferred_world.get_mut::<SubscriptionComponent>(hook_context.entity);
+	// It may have been removed, and with that unsubscribed, already
+	let Some(mut subscription_satellite) =
+		deferred_world.get_mut::<SubscriptionComponent>(hook_context.entity)
+	else {
+		return;
+	};
 
-	subscription_satellite
-		.expect("required component to exist")
-		.unsubscribe();
+	subscription_satellite.unsubscribe();
 
 	deferred_world
 		.commands()
-- 
2.43.0


From 8ff9ae879bdc5c02a89de9bddad07f80bdd3eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:05 +0000
Subject: [PATCH 44/46] fix: adding a teardown to a closed SharedSubscription
 deadlocked

The teardown was executed while the lock was held, so one that used the
subscription itself never returned. What another thread deferred while a
teardown was being added was not applied.
---
 .../src/subscriptions/subscription_shared.rs   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index f81a93b..b8e8215 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -5,7 +5,7 @@ use rx_core_macro_subscription_derive::RxSubscription;
 use crate::{
 	LockWithPoisonBehavior, SubscriptionClosedFlag, SubscriptionData, SubscriptionLike,
 	SubscriptionLikePushNotificationExtention, SubscriptionNotification, SubscriptionWithTeardown,
-	TeardownCollectionExtension,
+	Teardown, TeardownCollection, TeardownCollectionExtension,
 };
 
 pub(crate) const SUBSCRIPTION_MAX_RECURSION_DEPTH: usize = 10;
@@ -88,10 +88,8 @@ impl Default for SubscriptionDeferredState {
 
 #[derive(RxSubscription, Default, Clone, Debug)]
 #[_rx_core_common_crate(crate)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl] // It's shared
 pub struct SharedSubscription {
-	#[destination]
 	subscription: Arc<Mutex<SubscriptionData>>,
 	deferred_state: Arc<Mutex<SubscriptionDeferredState>>,
 }
@@ -211,6 +209,20 @@ impl SubscriptionLike for SharedSubscription {
 	}
 }
 
+impl TeardownCollection for SharedSubscription {
+	fn add_teardown(&mut self, teardown: Teardown) {
+		if self.is_closed() {
+			// Not while holding the lock, the teardown could be using this
+			// subscription too, and this could be one of its teardowns.
+			teardown.execute();
+		} else {
+			self.subscription.add_teardown(teardown);
+			// Another thread could have deferred something in the meantime.
+			self.try_apply_deferred();
+		}
+	}
+}
+
 impl Drop for SharedSubscription {
 	fn drop(&mut self) {
 		// Don't do anything, it's shared
-- 
2.43.0


From 7bf6bfd4cba93c386671d1c737278fc2b5226f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:05 +0000
Subject: [PATCH 45/46] fix: an unsubscribe of a SharedSubscription could get
 lost

is_closed briefly took the lock of the subscription. Another thread that
unsubscribed in that moment deferred it to the holder of the lock, which
never looked at what was deferred.
---
 .../rx_core_common/src/subscriptions/subscription_shared.rs  | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index b8e8215..3855171 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -182,11 +182,6 @@ impl SharedSubscription {
 impl SubscriptionLike for SharedSubscription {
 	fn is_closed(&self) -> bool {
 		self.deferred_state.lock_ignore_poison().is_closed()
-			|| self
-				.subscription
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From 64afbe34c61a636af562d02e8f4b3b3e9011a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 46/46] fix: switch completed silently if its last inner
 observable was switched from while it notified

---
 .../src/higher_order_subscriber_state.rs      |  2 +-
 .../src/switch_subscriber.rs                  | 35 +++++++++++++++----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
index 827bcac..d951d3e 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
@@ -52,7 +52,7 @@ where
 		}
 	}
 
-	fn can_downstream_complete(&self) -> bool {
+	pub fn can_downstream_complete(&self) -> bool {
 		self.state.can_downstream_complete()
 			&& self.non_completed_subscriptions == 0
 			&& self.upstream_subscriber_state.is_completed()
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index 84039d3..816abfd 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -1,6 +1,9 @@
 use std::{
 	marker::PhantomData,
-	sync::{Arc, Mutex},
+	sync::{
+		Arc, Mutex,
+		atomic::{AtomicBool, Ordering},
+	},
 };
 
 use rx_core_macro_subscriber_derive::RxSubscriber;
@@ -25,6 +28,8 @@ where
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
 	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
+	/// Whether the current inner observable was switched from
+	inner_superseded: Arc<AtomicBool>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -56,6 +61,7 @@ where
 			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
 			inner_subscription,
+			inner_superseded: Arc::default(),
 			_phantom_data: PhantomData,
 		}
 	}
@@ -74,6 +80,10 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
+			let superseded = Arc::<AtomicBool>::default();
+			core::mem::replace(&mut self.inner_superseded, superseded.clone())
+				.store(true, Ordering::Release);
+
 			let inner_subscription = self.inner_subscription.lock_ignore_poison().take();
 			if let Some(mut inner_subscription) = inner_subscription {
 				inner_subscription.unsubscribe();
@@ -89,11 +99,24 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if !outer_teardown_on_unsubscribe_clone.is_closed()
-						&& state_on_unsubscribe_clone
-							.lock_ignore_poison()
-							.can_downstream_unsubscribe()
-					{
+					if outer_teardown_on_unsubscribe_clone.is_closed() {
+						return;
+					}
+
+					let (can_complete, can_unsubscribe) = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						// If it was notifying when it was switched from, its
+						// release can come after everything else completed.
+						(
+							superseded.load(Ordering::Acquire) && state.can_downstream_complete(),
+							state.can_downstream_unsubscribe(),
+						)
+					};
+
+					if can_complete {
+						shared_destination_on_unsubscribe_clone.complete();
+						outer_teardown_on_unsubscribe_clone.unsubscribe();
+					} else if can_unsubscribe {
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
 						shared_destination_on_unsubscribe_clone.unsubscribe();
 					}
-- 
2.43.0

