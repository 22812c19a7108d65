From 263f6789eb73ef148e4395ed5a08eca076d02834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 01/43] fix: blocked writer could miss the wake-up of the
 engine and hang

The writer finds the ring full, the engine then commits the new head and sees
no blocked writer, and only then the writer starts waiting. Check for room
again after announcing the wait.
---
 include/hogl/detail/ringbuf.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..7753e78 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -402,7 +402,11 @@ public:
 	{
 		pthread_mutex_lock(&_block_mutex);
 		_block_active = true;
-		pthread_cond_wait(&_block_cond, &_block_mutex);
+		// The reader may have made room before it could see the flag.
+		// Check again, otherwise nobody is going to wake us up.
+		barrier::memrw();
+		if (!room())
+			pthread_cond_wait(&_block_cond, &_block_mutex);
 		pthread_mutex_unlock(&_block_mutex);
 	}
 
@@ -411,6 +415,8 @@ public:
 	 */
 	void unblock()
 	{
+		// New head must be visible before we check for blocked writers
+		barrier::memrw();
 		if (hogl_unlikely(_block_active)) {
 			pthread_mutex_lock(&_block_mutex);
 			pthread_cond_signal(&_block_cond);
-- 
2.43.0


From 6af190e16fddae70216ff0a8314a2fec0c24ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 02/43] fix: do not kill a ring that was found or reused after
 the orphan check

A thread that got the ring from add_ring() or find_ring() between the check
and the lock ended up with a ring that the engine does not serve anymore.
---
 src/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..7e4e0c1 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// Check again under the lock. Somebody might have found or 
+		// reused this ring in the meantime.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
-- 
2.43.0


From 359c18e962743cb56afc7f59d488f6c0a39ddcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 03/43] fix: decide about ring reuse under the ring lock

Two threads asking for the same released reusable ring both saw the reference
of the other one, and both requests failed.
---
 src/engine.cc | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 7e4e0c1..2c8d071 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -661,7 +661,14 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	pthread_mutex_lock(&_ring_mutex);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
-	s.first->second->hold();
+	ringbuf *r = s.first->second;
+
+	// Existing ring can be reused if it is shared, or if it is reusable and
+	// its original owner is dead, ie the only reference belongs to this engine.
+	// This must be checked under the lock. Otherwise several threads holding
+	// the ring at the same time would reject each other.
+	bool reuse = r->shared() || (r->reusable() && r->orphan());
+	r->hold();
 	pthread_mutex_unlock(&_ring_mutex);
 
 	if (s.second == true) {
@@ -679,18 +686,7 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 	// and see if we can reuse the one we found.
 	nr->release();
 
-	ringbuf *r = s.first->second;
-
-	// Shared rings can be reused of course.
-	if (r->shared())
-		return r;
-
-	// Reusable rings can be reused only if the original
-	// owner is dead.
-	// refcnt == 2 here means one reference is local (we did
-	// the hold() when we found the ring) and one reference 
-	// belongs to this engine.
-	if (r->reusable() && r->refcnt() == 2)
+	if (reuse)
 		return r;
 
 	hogl::post(internal_area(), internal::ERROR,
-- 
2.43.0


From d6fa0ec3482cb7a64421dea1d619576961f8c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 04/43] fix: new ring could miss a concurrent time source
 change

The time source was read before the ring was registered, so a change in
between reached neither the new ring nor its time source.
---
 src/engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 2c8d071..a932203 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -657,7 +657,6 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
@@ -669,6 +668,8 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 	// the ring at the same time would reject each other.
 	bool reuse = r->shared() || (r->reusable() && r->orphan());
 	r->hold();
+	if (s.second)
+		r->timesource(_timesource);
 	pthread_mutex_unlock(&_ring_mutex);
 
 	if (s.second == true) {
-- 
2.43.0


From fbbbf81d3506e2d2d0c522d9f2968b14e6864bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 05/43] fix: apply the mask to a new area under the area lock

apply_mask() replaces the mask concurrently.
---
 src/engine.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index a932203..5984ec7 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -620,13 +620,13 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
+	// New area.
+	// Apply current mask before returning the area to the caller.
+	if (s.second)
+		_mask.apply(a);
 	pthread_mutex_unlock(&_area_mutex);
 
 	if (s.second != false) {
-		// New area.
-		// Apply current mask before returning the area to the caller.
-		_mask.apply(a);
-
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From 1b36c85c891f994877dcd7aec961193316ede856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 06/43] fix: mask self assignment used freed memory

---
 src/mask.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..8c1c220 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,6 +183,8 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	if (this == &m)
+		return;
 	delete _list;
 	_list = new data_list(*m._list);
 }
-- 
2.43.0


From 0acf9bf2fb3c7fea241d2b7dcebb460fc42b0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 07/43] fix: read all lines of a mask from a stream

Only the first line was read, because get() leaves the newline in the stream,
and it was followed by an empty rule that switches everything on.
---
 src/mask.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mask.cc b/src/mask.cc
index 8c1c220..1115ce0 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -115,13 +115,12 @@ mask& mask::operator<< (const std::string &str)
 
 std::istream& operator>> (std::istream &s, mask &m)
 {
-	std::stringbuf sb;
+	std::string str;
 
 	// Read lines from the stream and feed them into the mask
-	while (s.good()) {
-		sb.str("");
-		s.get(sb);
-		m << sb.str();
+	while (std::getline(s, str)) {
+		if (!str.empty())
+			m << str;
 	}
 
 	return s;
-- 
2.43.0


From 2ff2c4dc9fdaf1910b7d61f5326f8e4ac7fa7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 08/43] fix: TSO buffer overflow if its capacity is one

Half of one record is nothing, so the full buffer was not flushed at all.
---
 src/engine.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 5984ec7..588839a 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -394,6 +394,8 @@ void engine::do_flush_tso(unsigned int size)
 void engine::flush_full_tso()
 {
 	unsigned int size  = _tso.size() / 2;
+	if (!size)
+		size = 1;
 
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
-- 
2.43.0


From 18099ff093a97c02f2373e5fbf20c39781ef57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 09/43] fix: acknowledge a flush request only after the output
 was flushed

Records posted before flush() were still in the output buffer when it returned.
---
 src/engine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 588839a..7dd21d3 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -304,6 +304,10 @@ void engine::flush_record(unsigned int i, record *r)
 			break;
 
 		case internal::SPR_FLUSH:
+			// Everything must be written out before we ack
+			_output.flush();
+			break;
+
 		default:
 			break;
 		};
-- 
2.43.0


From c5daa6e1b8fa34bf133e6a5749c8f4f5f42e98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 10/43] fix: timed out flush was reported as a dropped record

Do not take a sequence number before there is room for the special record.
---
 src/flush.cc      | 3 +--
 src/timesource.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flush.cc b/src/flush.cc
index c593adb..38d3aeb 100644
--- a/src/flush.cc
+++ b/src/flush.cc
@@ -55,7 +55,6 @@ bool timeout(uint64_t &to, uint64_t usec)
 // records out of this ring will ack the flush record.
 static bool do_flush(ringbuf *ring, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -67,7 +66,7 @@ static bool do_flush(ringbuf *ring, uint64_t to_usec)
 	// Push the flush reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_FLUSH);
 	ring->push_commit(r);
 
diff --git a/src/timesource.cc b/src/timesource.cc
index 9cd84cd..f3b17db 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -57,7 +57,6 @@ extern bool timeout(uint64_t &to, uint64_t usec);
 // records out of this ring will ack the ts change record.
 static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -69,7 +68,7 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 	// Push the timesource change reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) ts);
 	ring->push_commit(r);
 
-- 
2.43.0


From 0d5ece9191aa322aa58190de36b39624e73b7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 11/43] fix: no bogus drop report when a ring is moved to
 another engine

The new engine expected sequence number zero, so every re-activation of the
default engine reported all records ever posted to the default ring as dropped.
The ring now remembers which sequence number is expected next.
---
 include/hogl/detail/ringbuf.hpp | 1 +
 src/engine.cc                   | 8 ++++++--
 src/ringbuf.cc                  | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 7753e78..bdf121e 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -108,6 +108,7 @@ protected:
 	// R/W access by the reader
 	// R/O access by the writer
 	vo_uint         _head;
+	uint64_t        _rseqnum; // Next sequence number the engine expects
 
 	/**
  	 * Get a pointer the record with a specific index 
diff --git a/src/engine.cc b/src/engine.cc
index 7dd21d3..93323f0 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -218,7 +218,8 @@ void engine::rebuild_ring_index()
 		ringbuf *ring = it->second;
 		ni(i)->pit.ring(ring);
 		ni(i)->lastrec = 0;
-		ni(i)->seqnum    = 0;
+		// The ring may have been served by another engine before
+		ni(i)->seqnum    = ring->_rseqnum;
 
 		ring_index::entry *re = oi(ring);
 		if (re) {
@@ -493,6 +494,7 @@ void engine::process_rings_tso()
 		if (hogl_unlikely(!it.valid()))
 			continue;
 		it.rewind(_ring_index(i)->lastrec);
+		it.ring()->_rseqnum = _ring_index(i)->seqnum;
 		it.commit(ringbuf::NOBARRIER);
 		it.ring()->unblock();
 		_ring_index(i)->lastrec = 0;
@@ -512,8 +514,10 @@ void engine::process_rings_notso()
 		dprint("engine processing: ring %p prio %u", (void*)it.ring(), it.ring()->prio());
 		it.reset();
 		record *r;
-		while ((r = it.next()))
+		while ((r = it.next())) {
 			flush_record(i, r);
+			it.ring()->_rseqnum = r->seqnum + 1;
+		}
 		it.commit();
 		it.ring()->unblock();
 
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 2590974..6b6fce3 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -86,6 +86,7 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	_name     = strdup(name);
 	_flags    = opts.flags;
 	_seqnum   = 0;
+	_rseqnum  = 0;
 	_dropcnt  = 0;
 	_timesource = &default_timesource;
 
@@ -156,6 +157,7 @@ void ringbuf::reset(void)
 	_tail = 0;
 	_head = _capacity;
 	_seqnum   = 0;
+	_rseqnum  = 0;
 	_dropcnt  = 0;
 	unlock();
 }
-- 
2.43.0


From fcd6a3f8aa4f6fb087a5d17be4568c5867c1cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 12/43] fix: file rotation requests could be lost and shutdown
 could hang

The helper thread was started before the object was initialized, and it
waited for a signal without checking whether there already was a request.
A rotation or a shutdown requested before the helper got to wait was never
noticed: the file was not rotated any more, the destructor did not return.
---
 src/output-file.cc | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..e14bf48 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -254,13 +254,6 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	pthread_mutex_init(&_rotate_mutex, NULL);
 	pthread_cond_init(&_rotate_cond, NULL);
 
-	// Start helper thread
-	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
-	if (err) {
-		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
-		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
-	}
-
 	init_name(filename);
 
 	_fd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
@@ -276,6 +269,17 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	output::header(_name.c_str());
 
 	update_link();
+
+	// Start helper thread.
+	// This must be the last step because the helper uses all of the above, and
+	// because nobody would stop it if we'd have to throw.
+	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
+	if (err) {
+		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
+		output::init(0);
+		close(_fd);
+		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
+	}
 }
 
 output_file::~output_file()
@@ -421,14 +425,16 @@ void output_file::thread_loop()
 	pthread_mutex_lock(&_rotate_mutex);
 
 	while (1) {
-		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
-		if (_killed)
-			break;
+		// The request might have been made before we got here,
+		// there won't be another signal for it.
+		while (!_killed && !_rotate_pending)
+			pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
 
-		if (_rotate_pending) {
-			do_rotate();
-			_rotate_pending = false;
-		}
+		if (!_rotate_pending)
+			break; // killed
+
+		do_rotate();
+		_rotate_pending = false;
 	}
 
 	pthread_mutex_unlock(&_rotate_mutex);
-- 
2.43.0


From 521d4a537b1c515ce56da5b8bcf78127ac3ab696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 13/43] fix: continue after short and interrupted writes

A write that was only partly done or interrupted by a signal silently lost
the rest of the data or failed the output for good.
---
 include/hogl/detail/ostrbuf-fd.hpp    | 12 +++++++++
 include/hogl/detail/ostrbuf-stdio.hpp |  4 +++
 src/ostrbuf-fd.cc                     | 37 +++++++++++++++++++++++++--
 src/ostrbuf-stdio.cc                  | 26 ++++++++++++-------
 src/output-file.cc                    | 10 +++++---
 5 files changed, 74 insertions(+), 15 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..51d8e3f 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -32,6 +32,8 @@
 #ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
 #define HOGL_DETAIL_OSTRBUF_FD_HPP
 
+#include <sys/uio.h>
+
 #include <hogl/detail/ostrbuf.hpp>
 
 __HOGL_PRIV_NS_OPEN__
@@ -53,6 +55,16 @@ public:
 		CLOSE_ON_DELETE = (1<<0) // Close the file descriptor on delete
 	};
 
+	/**
+	 * Write everything out. Continues after interruptions and short writes.
+	 * @param fd file descriptor
+	 * @param iov pointer to the iovec
+	 * @param iovcnt number of entries in the iovec
+	 * @param written number of bytes written
+	 * @return false on error, see errno
+	 */
+	static bool write_all(int fd, const struct iovec *iov, int iovcnt, size_t &written);
+
 	// Get file descriptor value
 	int fd() const { return _fd; }
 
diff --git a/include/hogl/detail/ostrbuf-stdio.hpp b/include/hogl/detail/ostrbuf-stdio.hpp
index 15e87eb..9c7e79c 100644
--- a/include/hogl/detail/ostrbuf-stdio.hpp
+++ b/include/hogl/detail/ostrbuf-stdio.hpp
@@ -50,6 +50,10 @@ private:
 
 	virtual void do_flush(const uint8_t *data, size_t len);
 
+	// Write everything out. Continues after interruptions.
+	// Returns false on error, see errno.
+	bool write_all(const uint8_t *data, size_t len);
+
 public:
 	enum Flags {
 		CLOSE_ON_DELETE = (1<<0) // Close the file descriptor on delete
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..ebf83bd 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -40,6 +40,39 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+bool ostrbuf_fd::write_all(int fd, const struct iovec *iov, int iovcnt, size_t &written)
+{
+	size_t skip = 0; // Number of bytes of the first entry that are already written
+
+	written = 0;
+
+	while (1) {
+		// Skip everything we're done with
+		while (iovcnt && skip >= iov->iov_len) {
+			skip -= iov->iov_len;
+			iov++; iovcnt--;
+		}
+		if (!iovcnt)
+			return true;
+
+		ssize_t n;
+		if (skip)
+			n = ::write(fd, (const uint8_t *) iov->iov_base + skip, iov->iov_len - skip);
+		else
+			n = ::writev(fd, iov, iovcnt);
+
+		if (n < 0 && errno == EINTR)
+			continue;
+		if (n == 0)
+			errno = EIO; // no progress, don't retry forever
+		if (n <= 0)
+			return false;
+
+		skip    += n;
+		written += n;
+	}
+}
+
 void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
@@ -63,8 +96,8 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
-		if (r < 0)
+		size_t n;
+		if (!write_all(_fd, iov, i, n))
 			ostrbuf::failure(strerror(errno));
 	}
 
diff --git a/src/ostrbuf-stdio.cc b/src/ostrbuf-stdio.cc
index 8a73c90..627c1aa 100644
--- a/src/ostrbuf-stdio.cc
+++ b/src/ostrbuf-stdio.cc
@@ -38,20 +38,28 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+bool ostrbuf_stdio::write_all(const uint8_t *data, size_t len)
+{
+	while (len) {
+		errno = 0;
+		size_t n = fwrite(data, 1, len, _file);
+		if (n < len && errno != EINTR)
+			return false;
+		if (ferror(_file) && errno == EINTR)
+			clearerr(_file); // Interrupted, just continue
+		data += n;
+		len  -= n;
+	}
+	return true;
+}
+
 void ostrbuf_stdio::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
 		return;
 
-	// Flush buffered data
-	if (_size)
-		fwrite(_data, 1, _size, _file);
-
-	// Flush un-buffered data
-	if (len)
-		fwrite(data, 1, len, _file);
-
-	if (ferror(_file))
+	// Flush buffered and un-buffered data
+	if (!write_all(_data, _size) || !write_all(data, len) || ferror(_file))
 		ostrbuf::failure(strerror(errno));
 
 	this->reset();
diff --git a/src/output-file.cc b/src/output-file.cc
index e14bf48..ca1e274 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,7 +75,7 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
+			ssize_t r = _of.writev(iov, i);
 			if (r < 0)
 				ostrbuf::failure(strerror(errno));
 		}
@@ -310,11 +310,12 @@ output_file::~output_file()
 
 ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 {
-	ssize_t n;
+	size_t n;
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
+	bool ok = ostrbuf_fd::write_all(_fd, iov, iovcnt, n);
+	int err = errno;
 	if (n > 0) {
 		_size += n;
 		if (_size >= _max_size && !_rotate_pending) {
@@ -332,7 +333,8 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_unlock(&_write_mutex);
 
-	return n;
+	errno = err;
+	return ok ? (ssize_t) n : -1;
 }
 
 ssize_t output_file::write(const void *data, size_t size)
-- 
2.43.0


From b948da9c0dfda50f9893af93e214fedbee546234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 14/43] fix: failed output of a tee must not cut off the other
 one

---
 src/ostrbuf-tee.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ostrbuf-tee.cc b/src/ostrbuf-tee.cc
index c69db14..efffc43 100644
--- a/src/ostrbuf-tee.cc
+++ b/src/ostrbuf-tee.cc
@@ -49,8 +49,8 @@ const char* ostrbuf_tee::error() const
 
 void ostrbuf_tee::do_flush(const uint8_t *data, size_t len)
 {
-	if (failed())
-		return;
+	// Failure of one output must not affect the other one,
+	// the failed one discards the data.
 
 	// Flush buffered data
 	if (_size) {
-- 
2.43.0


From 93a42cc4ce3f978779c9095bc1215f2a7a96551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 15/43] fix: link of a log file with a relative path was
 dangling

The target of a symbolic link is relative to the directory of the link.
---
 src/output-file.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index ca1e274..a865bce 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -130,7 +130,12 @@ void output_file::update_link()
 	std::string link = _symlink + "$";
 	remove(link.c_str());
 
-	int err = symlink(_name.c_str(), link.c_str());
+	// The target of a relative link is relative to the directory of the link
+	std::string target = _name;
+	if (target[0] != '/')
+		target = target.substr(target.rfind('/') + 1);
+
+	int err = symlink(target.c_str(), link.c_str());
 	if (err < 0)
 		fmt::fprintf(stderr, "hogl::output_file: failed to create symlink %s -> %s. %s(%d)\n",
 			_name.c_str(), _symlink.c_str(), strerror(errno), errno);
@@ -160,14 +165,17 @@ unsigned int output_file::read_link()
 	size_t pos;
 
 	// Validate and strip prefix
-	pos = str.find(_name_pref);
+	std::string pref = _name_pref;
+	if (pref[0] != '/')
+		pref = pref.substr(pref.rfind('/') + 1); // same as update_link()
+	pos = str.find(pref);
 	if (pos != 0) {
 		// Prefix does not match.
 		// Looks like the link is pointing to something else.
 		// Ignore, we'll fix it during update.
 		return 0;
 	}
-	str = str.substr(_name_pref.size());
+	str = str.substr(pref.size());
 
 	// Validate and strip suffix
 	if (_name_sufx.size()) {
-- 
2.43.0


From f53a28f93597b3417aca0a474f49a1d895a60803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 16/43] fix: file index was misread if it contains the file
 name suffix

With the name 'log#1' the link to 'log11' was read as index zero, so the
next output truncated the file the link points to.
---
 src/output-file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index a865bce..b034ec5 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -179,7 +179,7 @@ unsigned int output_file::read_link()
 
 	// Validate and strip suffix
 	if (_name_sufx.size()) {
-		pos = str.find(_name_sufx);
+		pos = str.rfind(_name_sufx);
 		if (_name_sufx.size() && pos == str.npos) {
 			// Suffix does not match.
 			// Ignore, we'll fix it during update.
-- 
2.43.0


From b1622ec70813093a6ce2af27be434067b8acd5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 17/43] fix: switching the file name skipped a file index

---
 src/output-file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index b034ec5..985f545 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -463,6 +463,9 @@ bool output_file::switch_name(const char *filename)
 	// Reinit filename bits (sufx, etc)
 	init_name(filename);
 
+	// The rotation advances the index, init_name() did that already
+	_name_index = (_name_index ? _name_index : _max_count) - 1;
+
 	// Trigger rotation
 	_rotate_pending = true;
 	pthread_cond_signal(&_rotate_cond);
-- 
2.43.0


From dd40abfd2d24f2489b8c1296290ca4bc48b8c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 18/43] fix: CPU mask selected wrong CPUs on large systems

---
 src/schedparam.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..d229127 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -179,14 +179,16 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 	const char *sptr = str.c_str();
 	char *eptr = nullptr;
 
+	if (!isdigit(*sptr)) return EINVAL;
+
 	errno = 0;
 	unsigned long long m = std::strtoull(sptr, &eptr, 0);
 	if (errno) 
 		return errno;
 	if (eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < mask.ncpus && i < sizeof(m) * 8; i++)
+		if (m & (1ULL << i)) mask.set(i);
 	return 0;
 }
 
-- 
2.43.0


From 016358063fe5906f2fcda3f35a542f168d7d88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 19/43] fix: CPU numbers in a list were truncated

---
 src/schedparam.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index d229127..257c35c 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
@@ -169,6 +169,8 @@ static int parse_cpulist(const std::string& str, cpumask& mask)
 		}
 		if (*p == ',') p++;
 	} while (*p != '\0');
+	if (p != str.c_str() + str.size())
+		return EINVAL;
 	return 0;
 }
 
-- 
2.43.0


From 8485023caa220ddfeee03dbbf1f186513b8774b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 20/43] fix: printf flags and precision had the wrong effect in
 some combinations

'%-5c' was aligned to the right, '%+ d' printed a blank, '%-05d' printed
trailing zeros, '%05.3d' was padded with zeros, as were infinities, '%+u'
printed a sign, '%#hhx' of 256 printed 0x0 and '%.0g' was not '%.1g'.
---
 include/hogl/fmt/printf.h | 40 +++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/hogl/fmt/printf.h b/include/hogl/fmt/printf.h
index a790228..64da82e 100644
--- a/include/hogl/fmt/printf.h
+++ b/include/hogl/fmt/printf.h
@@ -9,6 +9,7 @@
 #define FMT_PRINTF_H_
 
 #include <algorithm>  // std::max
+#include <cmath>      // std::isfinite
 #include <limits>     // std::numeric_limits
 
 #include "ostream.h"
@@ -64,6 +65,20 @@ class is_zero_int {
   }
 };
 
+// Checks if an argument is an infinity or a NaN.
+class is_nonfinite {
+ public:
+  template <typename T, FMT_ENABLE_IF(std::is_floating_point<T>::value)>
+  bool operator()(T value) {
+    return !std::isfinite(value);
+  }
+
+  template <typename T, FMT_ENABLE_IF(!std::is_floating_point<T>::value)>
+  bool operator()(T) {
+    return false;
+  }
+};
+
 template <typename T> struct make_unsigned_or_bool : std::make_unsigned<T> {};
 
 template <> struct make_unsigned_or_bool<bool> { using type = bool; };
@@ -246,7 +261,8 @@ class printf_arg_formatter : public internal::arg_formatter_base<Range> {
         return (*this)(static_cast<int>(value));
       fmt_specs.sign = sign::none;
       fmt_specs.alt = false;
-      fmt_specs.align = align::right;
+      // The '0' flag is ignored for non-numeric types.
+      if (fmt_specs.align != align::left) fmt_specs.align = align::right;
       return base::operator()(value);
     } else {
       return base::operator()(value);
@@ -389,7 +405,8 @@ void basic_printf_context<OutputIt, Char>::parse_flags(format_specs& specs,
       specs.fill[0] = '0';
       break;
     case ' ':
-      specs.sign = sign::space;
+      // The ' ' flag is ignored if the '+' flag is present.
+      if (specs.sign != sign::plus) specs.sign = sign::space;
       break;
     case '#':
       specs.alt = true;
@@ -490,13 +507,15 @@ OutputIt basic_printf_context<OutputIt, Char>::format() {
     }
 
     format_arg arg = get_arg(arg_index);
-    if (specs.alt && visit_format_arg(internal::is_zero_int(), arg))
-      specs.alt = false;
     if (specs.fill[0] == '0') {
-      if (arg.is_arithmetic())
+      // Ignore '0' flag for non-numeric types, infinities and NaNs, if there is
+      // a '-' flag and for integers that have a precision.
+      if (arg.is_arithmetic() && specs.align != align::left &&
+          !(arg.is_integral() && specs.precision >= 0) &&
+          !visit_format_arg(internal::is_nonfinite(), arg))
         specs.align = align::numeric;
       else
-        specs.fill[0] = ' ';  // Ignore '0' flag for non-numeric types.
+        specs.fill[0] = ' ';
     }
 
     // Parse length and convert the argument to the required type.
@@ -539,11 +558,16 @@ OutputIt basic_printf_context<OutputIt, Char>::format() {
       --it;
       convert_arg<void>(arg, c);
     }
+    // The value that is going to be printed is known only after the conversion.
+    if (specs.alt && visit_format_arg(internal::is_zero_int(), arg))
+      specs.alt = false;
 
     // Parse type.
     if (it == end) FMT_THROW(format_error("invalid format string"));
     specs.type = static_cast<char>(*it++);
     if (arg.is_integral()) {
+      // Signs apply only to signed conversions.
+      if (specs.type != 'd' && specs.type != 'i') specs.sign = sign::none;
       // Normalize type.
       switch (specs.type) {
       case 'i':
@@ -557,6 +581,10 @@ OutputIt basic_printf_context<OutputIt, Char>::format() {
       }
     }
 
+    // Zero precision is the same as one in the 'g' conversion.
+    if ((specs.type == 'g' || specs.type == 'G') && specs.precision == 0)
+      specs.precision = 1;
+
     start = it;
 
     // Format argument.
-- 
2.43.0


From 2fed35c4ac411a950847b8042ea6d65bf88a11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 21/43] fix: formatting of cut or unusual dumps crashed or
 never ended

A dump that did not fit into its record has no format, a byte width of zero
divided by zero, and a hex dump with a line width of zero never ended.
---
 src/format-basic.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b6dc737..d123c3a 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -68,19 +68,22 @@ format_basic::format_basic(const char *fields) :
 
 static void do_hexdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t n, const hogl::arg_xdump::format& xf)
 {
+	// Zero line width stands for a single line
+	const unsigned int line_width = xf.line_width ? xf.line_width : n;
+
 	unsigned int offset;
-	for (offset = 0; offset < n; offset += xf.line_width) {
+	for (offset = 0; offset < n; offset += line_width) {
 		sb.printf("\n\t%03d: ", offset);
 
 		unsigned int i;
-		for (i = 0; i < xf.line_width; i++) {
+		for (i = 0; i < line_width; i++) {
 			if ((i + offset) < n)
 				sb.printf("%02x ", data[offset + i]);
 			else
 				sb.push_back("   ");
 		}
 		sb.push_back("  ");
-		for (i = 0; i < xf.line_width && ((i + offset) < n); i++) {
+		for (i = 0; i < line_width && ((i + offset) < n); i++) {
 			uint8_t b = data[offset + i];
 			sb.push_back(isprint(b) ? b : '.');
 		}
@@ -147,10 +150,16 @@ static const char* __dbl_fmt(unsigned int pr)
 
 static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 {
+	// There was no room for the dump in the record
+	if (len < sizeof(arg_xdump::format)) {
+		sb.push_back("null");
+		return;
+	}
+
 	const arg_xdump::format& xf = *(const arg_xdump::format *) data;
 
 	const uint8_t *ptr = data + sizeof(arg_xdump::format);
-	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
+	len = (len - sizeof(arg_xdump::format)) / (xf.byte_width ? xf.byte_width : 1);
 
 	switch (xf.type) {
 	case 'H':
-- 
2.43.0


From 33e56ce3e4f2a24280e2e3c4753213a87b1cbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 22/43] fix: formatting of a null global string crashed

A null string argument is already printed as null.
---
 src/format-basic.cc | 2 +-
 src/format-raw.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index d123c3a..5207cad 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -525,7 +525,7 @@ static const char* get_arg_str(const record& r, unsigned int type, unsigned int
 		ptr = r.get_arg_val32(i);
 	else
 		ptr = r.get_arg_val64(i);
-	return (const char *) ptr;
+	return ptr ? (const char *) ptr : "null";
 }
 
 void format_basic::process(ostrbuf &sb, const format::data &d)
diff --git a/src/format-raw.cc b/src/format-raw.cc
index 7b7e2b9..4b634d3 100644
--- a/src/format-raw.cc
+++ b/src/format-raw.cc
@@ -60,7 +60,7 @@ private:
 	template <typename T>
 	void add_str(const char *str)
 	{
-		add_str<T>(str, strlen(str));
+		add_str<T>(str, str ? strlen(str) : 0);
 	}
 
 	void add_args(const record &r)
-- 
2.43.0


From 38c43e2b039682b456382927446e95f669cb9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 23/43] fix: length of very long dumps wrapped around

---
 include/hogl/detail/record.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/hogl/detail/record.hpp b/include/hogl/detail/record.hpp
index 597e3c2..396d2ad 100644
--- a/include/hogl/detail/record.hpp
+++ b/include/hogl/detail/record.hpp
@@ -244,14 +244,13 @@ struct record {
 	{
 		const unsigned int hlen = sizeof(xd->fmt);
 		unsigned int room = tailroom - offset;
-		unsigned int len  = hlen + xd->len;
 
-		len = len > room ? room : len;
-		if (len < hlen) {
+		if (room < hlen) {
 			set_arg_data(i, 0, 0);
 			return 0;
 		}
-		unsigned int dlen = len - hlen;
+		unsigned int dlen = xd->len > room - hlen ? room - hlen : xd->len;
+		unsigned int len  = hlen + dlen;
 
 		memcpy((uint8_t *) this->argval + offset + 0x00, (const void *) &xd->fmt, hlen);
 		memcpy((uint8_t *) this->argval + offset + hlen, (const void *) xd->ptr, dlen);
-- 
2.43.0


From 97d3c2ffc66edbbe07c734b2d0f8e592dbf7b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 24/43] fix: raw log parser did not limit strings and data to
 its record buffer

A damaged log with long strings or data overflowed the heap.
---
 tools/raw-parser.cc  | 17 ++++++++++-------
 tools/raw-parser.hpp | 23 +++++++++++++++++++----
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index dda1b62..588804e 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -67,7 +67,8 @@ void raw_parser::read_args(hogl::record &r)
 {
 	if (_failed) return;
 
-	unsigned long offset = 16 * 8;
+	unsigned long offset = record::argval_size();
+	const unsigned long size = _record_size - record::header_size();
 
 	r.argtype = read_uint<uint64_t>("argtype");
 
@@ -88,7 +89,8 @@ void raw_parser::read_args(hogl::record &r)
 			r.set_arg_type(i, hogl::arg::CSTR);
 			// fall through
 		case arg::CSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, size - offset, "cstr-arg");
+			if (_failed) return;
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
@@ -96,9 +98,9 @@ void raw_parser::read_args(hogl::record &r)
 		case arg::XDUMP:
 		case arg::RAW:
 			if (_ver == V1)
-				n = read_blob<uint16_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint16_t>((char *) r.argval + offset, size - offset, "raw-arg");
 			else
-				n = read_blob<uint32_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint32_t>((char *) r.argval + offset, size - offset, "raw-arg");
 
 			r.set_arg_data(i, offset, n);
 			offset += n;
@@ -115,13 +117,14 @@ void raw_parser::read_args(hogl::record &r)
 }
 
 raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_record_size) :
-	_in(in), _ver(ver)
+	_in(in), _record(0), _record_size(std::max(max_record_size, (unsigned int) sizeof(record))),
+	_ring_name(0), _ver(ver)
 {
 	reset();
 
 	// Allocate nicely aligned buffer for the dummy record 
 	// we're going to populate with data read from the file.
-	int err = posix_memalign((void **)&_record, 64, max_record_size);
+	int err = posix_memalign((void **)&_record, 64, _record_size);
 	if (err) {
 		_error << "init: failed to allocate record buffer. "
 			<< strerror(errno) << "(" <<  errno << ")";
@@ -171,7 +174,7 @@ static bool valid_name(const char *str)
 
 void raw_parser::read_name(char *str, const char *stage)
 {
-	read_str<uint8_t>(str, stage);
+	read_str<uint8_t>(str, raw_area::MAX_NAME_LEN, stage);
 
 	if (_failed) return;
 
diff --git a/tools/raw-parser.hpp b/tools/raw-parser.hpp
index 1177e8b..302dc72 100644
--- a/tools/raw-parser.hpp
+++ b/tools/raw-parser.hpp
@@ -66,6 +66,7 @@ private:
 
 	hogl::format::data _format_data; // data struct passed to formatter
 	void              *_record;      // record buffer
+	unsigned int       _record_size; // size of the record buffer
 	raw_area           _area;        // raw area
 	char              *_ring_name;   // ringbuffer name for last record
 
@@ -84,9 +85,10 @@ private:
 		return v;
 	}
 
-	// Read a blob from the input stream
+	// Read a blob from the input stream.
+	// Fails if the blob is larger than the room.
 	template <typename T>
-	unsigned long read_blob(char *data, const char *stage = "")
+	unsigned long read_blob(char *data, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
@@ -94,6 +96,12 @@ private:
 		if (_failed || !len)
 			return 0;
 
+		if (len > room) {
+			_error << "format: no room for blob of " << len << " bytes @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
 		_failed = ! _in.read(data, len);
 		if (_failed) {
 			_error << "input: failed to read blob @ " << stage;
@@ -105,12 +113,19 @@ private:
 	// Read a string from the input stream
 	// Strings are guarantied to be null-terminated
 	// Returns string length including the null-terminator.
+	// Fails if the string and its null-terminator are larger than the room.
 	template <typename T>
-	unsigned long read_str(char *str, const char *stage = "")
+	unsigned long read_str(char *str, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
-		unsigned long len = read_blob<T>(str, stage);
+		if (!room) {
+			_error << "format: no room for string @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
+		unsigned long len = read_blob<T>(str, room - 1, stage);
 
 		if (_failed) return 0;
 
-- 
2.43.0


From 8789bd198bfdfbfdf50655e7dace213db1e2a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:31 +0000
Subject: [PATCH 25/43] fix: recovery of records with equal timestamps lost all
 but one

---
 tools/recovery-engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.hpp b/tools/recovery-engine.hpp
index dc049ec..dfdb315 100644
--- a/tools/recovery-engine.hpp
+++ b/tools/recovery-engine.hpp
@@ -59,7 +59,7 @@ private:
 		}
 	};
 
-	typedef std::set<record_entry, record_sorter> record_set;
+	typedef std::multiset<record_entry, record_sorter> record_set;
 	typedef std::map<uint64_t, area*> area_map;
 	typedef std::map<uint64_t, timesource*> timesource_map;
 	typedef std::map<uint64_t, ostrbuf *>   ostrbuf_map;
-- 
2.43.0


From 844dae164ca9c17d5b277f5e7a9f00fcceddeb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:31 +0000
Subject: [PATCH 26/43] fix: recovery did not translate global strings after
 the eighth argument

---
 tools/recovery-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 7eef43e..2328982 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -311,7 +311,7 @@ void recovery_engine::fixup_records(ringbuf *ring)
 		r->area = fixup_area(r->area);
 
 		unsigned int i;
-		for (i=0; i < 8; i++) {
+		for (i=0; i < record::NARGS; i++) {
 			unsigned int type = r->get_arg_type(i);
 			switch (type) {
 			case arg::GSTR:
-- 
2.43.0


From b0609aca43e86ad7cea0c147c87657d0fdeab6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 27/43] fix: recovery of entire rings skipped records in the
 first and last slots

---
 tools/recovery-engine.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 2328982..178968f 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -166,9 +166,9 @@ public:
 			return false;
 
 		if (reset) {
-			// Reset head/tail for dumping the entire ring
-			r->_head = 0;
-			r->_tail = r->_capacity;
+			// Reset head for dumping the entire ring.
+			// Everything except the tail slot which is never committed.
+			r->_head = r->_tail;
 		}
 
 		return true;
-- 
2.43.0


From d05f5c987b8d81ebd64840617cae2c00170af885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 28/43] fix: recovery missed or overran output buffers at the
 edges of a section

---
 tools/recovery-engine.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 178968f..19a2a10 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -377,14 +377,18 @@ void recovery_engine::find_and_fixup_outbufs()
 			if (!ptr)
 				break;
 
-			if (!s->inside(ptr, sizeof(hogl::output)))
-				break;
+			// Signature is preceeded by the vtable pointer
+			if (!s->inside(ptr - sizeof(void *), sizeof(hogl::output))) {
+				ptr += 1;
+				size = s->size - (ptr - s->addr);
+				continue;
+			}
 
 			// Looks like we found a valid output handler.
 			// Try to fixup the ostrbuf which contains buffered data.
 			hogl::output *o = output_validator::fixup(_core, ptr);
 			if (o && fixup_ostrbuf(o->get_ostrbuf())) {
-				ptr += sizeof(hogl::output);
+				ptr += sizeof(hogl::output) - sizeof(void *);
 			} else {
 				// Validation failed.
 				// Advance by one byte and continue scanning.
-- 
2.43.0


From eed91e41e7b72f60d94202fd0ae0df6cd7e59435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 29/43] fix: recovery crashed on damaged and incomplete core
 dumps

---
 tools/coredump.cc        | 16 +++++++++++----
 tools/recovery-engine.cc | 44 ++++++++++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index 51e78ab..710631f 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -45,8 +45,9 @@ coredump::section::section(uint64_t _vma, unsigned long _size, bfd *b) :
 
 void coredump::section::alloc()
 {
-	// Allign each section to the page size to avoid unaligned access
-	int err = posix_memalign((void **) &addr, sysconf(_SC_PAGESIZE), size);
+	// Allign each section to the page size to avoid unaligned access.
+	// Extra byte terminates the strings that are cut at the end of the section.
+	int err = posix_memalign((void **) &addr, sysconf(_SC_PAGESIZE), size + 1);
 	if (err)
 		addr = 0;
 }
@@ -74,6 +75,7 @@ void coredump::load_section(coredump::section *s)
 	if (!s->addr) {
 		fmt::fprintf(stderr, "error: failed to allocate section with vma 0x%lu size %lu\n", 
 			(unsigned long) s->vma, (unsigned long) s->size);
+		s->size = 0;
 		return;
 	}
 
@@ -81,6 +83,10 @@ void coredump::load_section(coredump::section *s)
 	unsigned long size = s->size;
 	uint8_t      *addr = s->addr;
 
+	// Only the part that was actually loaded can be used
+	s->size = 0;
+	*addr = 0;
+
 	while (size > 0) {
 		asection *sect = bfd_get_section_by_vma(s->abfd, vma);
 		if (!sect) {
@@ -103,6 +109,9 @@ void coredump::load_section(coredump::section *s)
 		addr += ss;
 		size -= ss;
 		vma  += ss;
+
+		s->size += ss;
+		*addr = 0;
 	}
 
 	this->failed = false;
@@ -277,12 +286,11 @@ coredump::~coredump()
 void* coredump::remap(const void *ptr, unsigned long n)
 {
 	uint64_t start = (uint64_t) ptr;
-	uint64_t end   = start + n;
 
 	section_set::const_iterator it;
 	for (it = sections.begin(); it != sections.end(); ++it) {
 		const section *s = *it;
-		if (start >= s->vma && end <= (s->vma + s->size))
+		if (start >= s->vma && start - s->vma <= s->size && n <= s->size - (start - s->vma))
 			return s->addr + (start - s->vma);
 	}
 	return 0;
diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 19a2a10..763a2a6 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -50,7 +50,7 @@ public:
 		if (!b->size() || b->size() > 256*1024)
 			return false;
 
-		b->_data = (bitmap::word *) core.remap(b->_data, b->nbytes(b->size()));
+		b->_data = (bitmap::word *) core.remap(b->_data, b->nwords(b->size()) * sizeof(bitmap::word));
 		if (!b->_data)
 			return false;
 		return true;
@@ -89,13 +89,16 @@ public:
 			return 0;
 
 		// Fixup section names
-		a->_section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
-		if (!a->_section)
+		const char **section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
+		if (!section)
 			return 0;
 
+		// Use separate array of names, image may contain other things in the same place
+		a->_section = new const char* [a->count()];
+
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = (const char *) core.remap((void *) a->_section[i]);
+			a->_section[i] = (const char *) core.remap((void *) section[i]);
 			if (a->_section[i]) continue;
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
@@ -150,17 +153,21 @@ public:
 			return false;
 
 		// Record size of more than 1MB is definitely insane
-		if (!r->record_size() || r->record_size() > 1024*1024)
+		if (r->_rec_shift > 20 || r->record_size() < record::header_size())
+			return false;
+
+		if (r->record_tailroom() > r->record_size() - record::header_size())
 			return false;
- 
-		if (r->record_tailroom() > r->record_size())
+
+		// Capacity is a mask
+		if (r->_capacity & (r->_capacity + 1))
 			return false;
 
 		if (r->_head > r->_capacity || r->_tail > r->_capacity)
 			return false;
 
 		r->_name    = (char *)    core.remap(r->_name);
-		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * r->capacity());
+		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, (uint64_t) r->record_size() * ((uint64_t) r->_capacity + 1));
 
 		if (!r->_name || !r->_rec_top)
 			return false;
@@ -288,6 +295,21 @@ hogl::area* recovery_engine::fixup_area(const void *ptr)
 	return a;
 }
 
+// Check that argument data is inside of the record
+static bool valid_arg_data(const record *r, unsigned int i, unsigned int type, unsigned int tailroom)
+{
+	const unsigned int offset = r->argval[i].data.offset;
+	const unsigned int len    = r->argval[i].data.len;
+
+	if (!len)
+		return true;
+	if (offset > tailroom || len > tailroom - offset)
+		return false;
+
+	// Strings must be terminated
+	return type != arg::CSTR || memchr((const uint8_t *) r->argval + offset, '\0', tailroom - offset);
+}
+
 // Validate and fixup records.
 // Things like area pointers, argument pointers, etc.
 // Note that this function fixes up areas as it goes through the records.
@@ -320,6 +342,12 @@ void recovery_engine::fixup_records(ringbuf *ring)
 				else
 					r->argval[i].u64 = (uint64_t) _core.remap((void *) r->get_arg_val64(i));
 				break;
+			case arg::CSTR:
+			case arg::XDUMP:
+			case arg::RAW:
+				if (!valid_arg_data(r, i, type, ring->record_tailroom()))
+					r->argval[i].u64 = 0;
+				break;
 			default:
 				break;
 			}
-- 
2.43.0


From 0127641a3befff6673e2e73bb19493763915f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 30/43] fix: C interface lost long long, char and bool
 arguments

---
 include/hogl/c-api/post.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index c10119b..52296d5 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -124,6 +124,22 @@ do {									\
 			un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) {\
+			un.u64 = *(unsigned long long *)__hogl_p;		\
+			args[i].type = HOGL_ARG_UINT64;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) {\
+			un.s64 = *(long long *)__hogl_p;			\
+			args[i].type = HOGL_ARG_INT64;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) {	\
+			un.s64 = *(char *)__hogl_p;				\
+			args[i].type = HOGL_ARG_INT32;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), bool)) {	\
+			un.u64 = *(bool *)__hogl_p;				\
+			args[i].type = HOGL_ARG_UINT32;				\
+		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), void *)) {	\
 			un.u64 = (unsigned long) __hogl_x;			\
 			args[i].type = HOGL_ARG_POINTER;			\
-- 
2.43.0


From 48e9f23a8fb2b2a66b6ca8c98758ca4f45a68c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 31/43] fix: posting a null string from C crashed

---
 include/hogl/c-api/post.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index 52296d5..4af5362 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -59,7 +59,7 @@
 static inline void __hogl_strarg(struct hogl_arg *arg, const char *str)
 {
 	arg->type = HOGL_ARG_CSTR;
-	arg->len  = strlen(str);
+	arg->len  = str ? strlen(str) : 0;
 	arg->val  = (unsigned long) str;
 }
 
-- 
2.43.0


From c072b3e95c00fd1e1af5821072429e67e0a587c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:29 +0000
Subject: [PATCH 32/43] fix: records of several rings left the TSO buffer out
 of time order

Equal timestamps in a ring were bumped by one nanosecond to keep the order
of the ring, which put them behind later records of other rings. Keep the
sorting stable instead and never move a timestamp further than needed.
---
 include/hogl/detail/tsobuf.hpp | 10 ++++++++--
 src/engine.cc                  |  7 ++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/hogl/detail/tsobuf.hpp b/include/hogl/detail/tsobuf.hpp
index abc0481..63c1932 100644
--- a/include/hogl/detail/tsobuf.hpp
+++ b/include/hogl/detail/tsobuf.hpp
@@ -51,18 +51,22 @@ public:
 		hogl::timestamp timestamp;
 		record      *rec; // Pointer to the record 
 		unsigned int tag; // Tag
+		unsigned int order; // Push order, used to keep the sorting stable
 	};
 
 private:
 	unsigned int _head;
 	unsigned int _tail;
 	unsigned int _capacity;
+	unsigned int _order;
 	entry       *_entry;
 
 	// Less operator for sorting
 	struct less {
 		bool operator() (const entry &i, const entry &j)
 		{
+			if (i.timestamp == j.timestamp)
+				return int(i.order - j.order) < 0; // counter may wrap around
 			return i.timestamp < j.timestamp;
 		}
 	};
@@ -82,6 +86,7 @@ public:
 	{
 		_head = 0;
 		_tail = 0;
+		_order = 0;
 	}
 
 	void reset() { clear(); }
@@ -99,6 +104,7 @@ public:
 	 */
 	void push(entry &e)
 	{
+		e.order = _order++;
 		_entry[_tail++] = e;
 	}
 
@@ -142,12 +148,12 @@ public:
 		std::sort(_entry + _head, _entry + _tail, _less);
 	}
 
-	tsobuf(unsigned int n = 1) : _head(0), _tail(0), _entry(0)
+	tsobuf(unsigned int n = 1) : _head(0), _tail(0), _order(0), _entry(0)
 	{
 		resize(n);
 	}
 
-	tsobuf(const tsobuf &t) : _head(0), _tail(0), _entry(0)
+	tsobuf(const tsobuf &t) : _head(0), _tail(0), _order(0), _entry(0)
 	{
 		resize(t._capacity);
 		memcpy(static_cast<void*>(_entry), t._entry, _capacity * sizeof(entry));
diff --git a/src/engine.cc b/src/engine.cc
index 93323f0..c581fd9 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -462,10 +462,11 @@ void engine::process_rings_tso()
 			// Make sure that timestamps from the same ring never go backwards.
 			// At this point we must flush records in order. So this is more of 
 			// hack for systems with broken timesources. It never kicks in if 
-			// timestamps are monotonically increasing.
+			// timestamps are monotonically increasing. Records with equal timestamps
+			// are sorted in the order they are pushed in.
 			te.timestamp = te.rec->timestamp;
-			if (hogl_unlikely(te.timestamp <= tso_ts))
-				te.timestamp = tso_ts + 1;
+			if (hogl_unlikely(te.timestamp < tso_ts))
+				te.timestamp = tso_ts;
 			tso_ts = te.timestamp;
 
 			dprint("engine processing: record %p seq %lu", (void*)te.rec, te.rec->seqnum);
-- 
2.43.0


From 71f826532479d629e41c6df85d1919b978dca0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 33/43] fix: printing an engine read the mask while it was
 being changed

---
 include/hogl/detail/engine.hpp |  4 ++--
 src/engine.cc                  | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/engine.hpp b/include/hogl/detail/engine.hpp
index da357ae..903e453 100644
--- a/include/hogl/detail/engine.hpp
+++ b/include/hogl/detail/engine.hpp
@@ -202,9 +202,9 @@ public:
 	const options& get_options() const { return _opts; }
 
 	/**
- 	 * Get current mask
+ 	 * Get a copy of the current mask.
  	 */
-	const mask& get_mask() const { return _mask; }
+	mask get_mask() const;
 
 	/**
 	 * Add log area.
diff --git a/src/engine.cc b/src/engine.cc
index c581fd9..6715eb5 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -793,6 +793,17 @@ void engine::list_areas(string_list &l) const
 	pthread_mutex_unlock(&_area_mutex);
 }
 
+/**
+ * Get a copy of the current mask
+ */
+mask engine::get_mask() const
+{
+	pthread_mutex_lock(&_area_mutex);
+	mask m(_mask);
+	pthread_mutex_unlock(&_area_mutex);
+	return m;
+}
+
 std::ostream& operator<< (std::ostream& s, const engine::stats& stats)
 {
 	s << "" << "{ "
-- 
2.43.0


From f4d2355f5ea6a0dd9a14202e586b9d1338ef61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 34/43] fix: hogl-grep printed inexact time differences

Timestamps were converted via floating point numbers, which are precise to
about 256 nsec for current times. The difference to a record at time zero was
printed as zero.
---
 tools/hogl-grep | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index cb3ad45..4976ef5 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -40,10 +40,10 @@ import sys, argparse, subprocess, re
 # (257) is a delta nanoseconds
 
 ts_fmt = [
-    re.compile('^([0-9]*.[0-9]*) \([0-9]*\) (.*)'),
-    re.compile('^([0-9]*\.[0-9]*) (.*)') ]
+    re.compile(r'^([0-9]+)\.([0-9]+) \([0-9]*\) (.*)'),
+    re.compile(r'^([0-9]+)\.([0-9]+) (.*)') ]
 
-ts_last = 0
+ts_last = None
 
 def process_rec(rec, out):
     global ts_last
@@ -56,11 +56,13 @@ def process_rec(rec, out):
         print('invalid timestamp [ {} ]'.format(rec))
         sys.exit(1)
 
-    ts = int(float(m.group(1)) * 1000000000) # to nsec
-    if ts_last == 0:
+    # Convert to nsec. Floating point is not precise enough for this.
+    sec, frac, text = m.groups()
+    ts = int(sec) * 1000000000 + int(frac[:9].ljust(9, '0'))
+    if ts_last is None:
         ts_last = ts
 
-    out.write('{} ({}) {}\n'.format(m.group(1), ts - ts_last, m.group(2)))
+    out.write('{}.{} ({}) {}\n'.format(sec, frac, ts - ts_last, text))
     ts_last = ts
     return True
 
-- 
2.43.0


From 24aba615207a1ba5f33a6be10949b4dcce55ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 35/43] fix: hogl-grep failed with an output file

The output was opened in binary mode but is written as text.
---
 tools/hogl-grep | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index 4976ef5..f530d19 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -83,7 +83,7 @@ if __name__=='__main__':
     # Open log output file
     out = sys.stdout
     if args.output:
-        out = open(args.output, 'wb')
+        out = open(args.output, 'w')
 
     # Filter log file using external grep.
     # 'grep' is much faster at this.
-- 
2.43.0


From 0508eb56e44962f64de52eb544da7112b5d88ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 36/43] fix: hogl-grep and hogl-trace did not work with several
 log files

grep printed the file name in front of each record, which made all of them
invalid.
---
 tools/hogl-grep  | 4 ++--
 tools/hogl-trace | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index f530d19..fe28263 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -90,13 +90,13 @@ if __name__=='__main__':
     # Iterate over log records (one line at a time)
 
     if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline()
            if rec == '': break
            process_rec(rec, out)
     else:
-       grep = subprocess.Popen([args.grep] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline().decode()
            if rec == '': break
diff --git a/tools/hogl-trace b/tools/hogl-trace
index 3f9af0f..733a3ac 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -135,13 +135,13 @@ if __name__=='__main__':
     # Iterate over log records (one line at a time)
 
     if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep, args.regex] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline()
            if rec == '': break
            process_rec(rec, out)
     else:
-       grep = subprocess.Popen([args.grep, args.regex] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline().decode()
            if rec == '': break
-- 
2.43.0


From f997ce93509d987836c1830cc1adb4441eace91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 37/43] fix: hogl-trace printed warnings into the trace

---
 tools/hogl-trace | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index 733a3ac..a7fc5fe 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -100,7 +100,7 @@ def process_rec(rec, out):
     try:
         event = convert_rec(rec)
     except Exception as e:
-        print('warn: unsupported record format:\n\t{}\n\t{}'.format(rec[:-1], e))
+        print('warn: unsupported record format:\n\t{}\n\t{}'.format(rec[:-1], e), file=sys.stderr)
         return
 
     out.write(out.sep); out.sep = ','
-- 
2.43.0


From 9b3432a07379b0555a5c6a15fcc51589e50fbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 38/43] fix: hogl-trace converted some timestamps into wrong
 microseconds

---
 tools/hogl-trace | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index a7fc5fe..d9b1cff 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -42,7 +42,9 @@ def convert_rec(rec):
     # ['00000028363.625193560', '(197)', 'TID:2749', 'AREA:TRACE', 'category', 'name', 'PID']
 
     ## Timestamp is always first (and must be timespec)
-    ts_trace = int(float(evt[0]) * 1000000) # convert timestamp into usec
+    ## Floating point is not precise enough for the conversion into usec.
+    sec, frac = evt[0].split('.')
+    ts_trace = int(sec) * 1000000 + int(frac[:6].ljust(6, '0'))
 
     # Generate event skeleton
     # See Chrome Trace Event Format for detailed description of the fields
-- 
2.43.0


From aa2bc962f457298c954d423d13eb8291979658a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 39/43] fix: a failed rotation skipped a file index, or
 overwrote the current file

The index was advanced again by the next attempt. With as many failed attempts
as there are files that was the index of the current file, which got truncated.
---
 src/output-file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 985f545..4a6c090 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -356,6 +356,7 @@ ssize_t output_file::write(const void *data, size_t size)
 void output_file::do_rotate()
 {
 	int ofd = _fd;
+	unsigned int oindex = _name_index;
 
 	_name_index++;
 	if (_name_index >= _max_count)
@@ -366,6 +367,7 @@ void output_file::do_rotate()
 	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
 	if (nfd < 0) {
 		// Retry later. Let the writer thread wake us up again.
+		_name_index = oindex;
 		return;
 	}
 
@@ -377,6 +379,7 @@ void output_file::do_rotate()
 	nsb.flush();
 	if (nsb.failed()) {
 		// Failed to write. Retry later.
+		_name_index = oindex;
 		close(nfd);
 		return;
 	}
-- 
2.43.0


From 050b9626ce2228447701086b7c28440e31b6b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 40/43] fix: a default ring that is not both shared and
 immortal was accepted

---
 src/default-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/default-engine.cc b/src/default-engine.cc
index 336be86..d0561aa 100644
--- a/src/default-engine.cc
+++ b/src/default-engine.cc
@@ -64,7 +64,7 @@ void activate(output &out, const engine::options &engine_opts)
 
 	// Default ringbuf must be shared and immortal.
 	// We check here because user app is allowed to replace default options.
-	if (!default_ring.immortal() && !default_ring.shared())
+	if (!default_ring.immortal() || !default_ring.shared())
 		throw std::logic_error("hogl::activate default ring properties not valid");
 
 	// Initialize default engine
-- 
2.43.0


From 5e566c76805d238bacec6c9f96cd667f32e3dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:14 +0000
Subject: [PATCH 41/43] fix: rings configured with capacity 0 or 1 could hold
 no record and blocked their writers forever

---
 src/ringbuf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 6b6fce3..5194cb8 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -97,7 +97,8 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	// Compute the desired capacity.
 	// This field is used as a mask for advancing head and tail indexes
 	// hence the decrement. ie tail = ((tail + 1) & capacity).
-	_capacity = __roundup_power2(opts.capacity);
+	// One record is always reserved, we need at least one more.
+	_capacity = __roundup_power2(opts.capacity > 2 ? opts.capacity : 2);
 	_capacity--;
 
 	_tail = 0;
-- 
2.43.0


From edbbba1ba99540ff7dbc164a49d6d9c3d0cd78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:14 +0000
Subject: [PATCH 42/43] fix: rings of 4 GiB and more got less memory than they
 need

---
 include/hogl/detail/ringbuf.hpp | 2 +-
 src/ringbuf.cc                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index bdf121e..9556b7b 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -117,7 +117,7 @@ protected:
  	 */
 	record* get_record(unsigned int i)
 	{
-		return (record *) (_rec_top + (i << _rec_shift));
+		return (record *) (_rec_top + ((size_t) i << _rec_shift));
 	}
 
 	/**
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 5194cb8..325f7e1 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -117,12 +117,12 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 
 	// Allocate record buffers
 	_rec_top = 0;
-	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), capacity() * record_size());
+	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), (size_t) capacity() * record_size());
 	if (err && !_rec_top) {
 		_capacity = 0;
 		return;
 	}
-	memset(_rec_top, 0, capacity() * record_size());
+	memset(_rec_top, 0, (size_t) capacity() * record_size());
 
 	// Init ringbuf mutex.
 	// Enable priority inherintance.
-- 
2.43.0


From 26b1a3fa52c8cae280e271d56427999c44b17042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:12 +0000
Subject: [PATCH 43/43] fix: time stamps in timespec format lost their seconds
 and did not sort by time

---
 include/hogl/detail/timestamp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/timestamp.hpp b/include/hogl/detail/timestamp.hpp
index 9a36536..8055fc4 100644
--- a/include/hogl/detail/timestamp.hpp
+++ b/include/hogl/detail/timestamp.hpp
@@ -54,11 +54,11 @@ private:
 		uint64_t u64;
 		struct {
 		#if __BYTE_ORDER == __LITTLE_ENDIAN
-			uint32_t sec;
 			uint32_t nsec;
+			uint32_t sec;
 		#else
-			uint32_t nsec;
 			uint32_t sec;
+			uint32_t nsec;
 		#endif
 		} u32;
 	} _v;
@@ -117,7 +117,7 @@ public:
 
 	uint64_t to_nsec() const
 	{
-		return _v.u32.sec * nsec_per_sec + _v.u32.nsec;
+		return (uint64_t) _v.u32.sec * nsec_per_sec + _v.u32.nsec;
 	}
 #else
 	// This version stores timestamp in nanoseconds which means 
-- 
2.43.0

