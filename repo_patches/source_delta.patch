From 9962e036bae51d9e19bf8c4b2246ca4a4317d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 01/67] fix: array: swap exchanges size and ownership together
 with the storage

---
 src/spine/structure/array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..2bdb4a8 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -318,9 +318,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(m_store, other.m_store);
+    std::swap(m_max_size, other.m_max_size);
+    std::swap(m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
-- 
2.43.0


From 9198f2b76b572a31aeae98e59460d3ac4978c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 02/67] fix: array: reverse iteration over a const array visits
 its elements

---
 src/spine/structure/array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 2bdb4a8..68f4d88 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -281,22 +281,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 /* utility */
-- 
2.43.0


From 7dbb2546caad42d0d24ac8b913affedbfac7e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 03/67] fix: array: postfix iterator operators return the
 previous position

---
 src/spine/structure/array.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 68f4d88..0a0a66f 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -357,8 +357,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
+    auto previous = *this;
     m_index++;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -369,8 +370,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
+    auto previous = *this;
     m_index--;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -408,8 +410,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
+    auto previous = *this;
     --this->m_index;
-    return *this;
+    return previous;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -418,8 +421,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
+    auto previous = *this;
     ++this->m_index;
-    return *this;
+    return previous;
 }
 
 } // namespace spn::structure
-- 
2.43.0


From 1fd62077575c45d5409a31f0f6ff0ef608a4ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 04/67] fix: array: destroy elements and return memory when the
 storage is given up

---
 src/spine/structure/array.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 0a0a66f..9a75356 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,8 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <type_traits>
+#include <utility>
 
 namespace spn::structure {
 
@@ -112,6 +114,9 @@ protected:
     Size m_max_size;
 
 private:
+    /// Destroys the elements and returns the memory, if the store is owned by this array
+    void release();
+
     bool m_store_is_internal;
 };
 
@@ -147,10 +152,18 @@ Array<T>::Array(const std::initializer_list<T>& init_values) : Array(init_values
 
 template<typename T>
 Array<T>::~Array() {
-    if (m_store_is_internal) {
-        std::free(m_store);
-        m_store = nullptr;
+    release();
+}
+
+template<typename T>
+void Array<T>::release() {
+    if (!m_store_is_internal || m_store == nullptr) return;
+    if constexpr (!std::is_trivially_destructible_v<T>) {
+        for (Size i = 0; i < m_max_size; i++)
+            m_store[i].T::~T();
     }
+    std::free(m_store);
+    m_store = nullptr;
 }
 
 template<typename T>
@@ -170,6 +183,8 @@ template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
     ArrayBase::operator=(other);
+    if (m_store == other.m_store) return *this; // already views the same memory
+    release();
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = false; // prevent double free
@@ -180,18 +195,17 @@ template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
+    const auto views_same_memory = m_store == other.m_store;
+    if (!views_same_memory) release();
     m_store = other.m_store;
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
-    m_store_is_internal = other.m_store_is_internal;
+    m_store_is_internal = other.m_store_is_internal || (views_same_memory && m_store_is_internal);
     return *this;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
-- 
2.43.0


From 66128c58816105b9742fe0948a0b363a821fd855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 05/67] fix: vector: pop_back returns the last element when the
 head has moved

---
 src/spine/structure/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..9898b51 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -158,14 +158,15 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
+    auto cur_tail = m_tail;
     if (m_tail > 0) {
-        m_tail--;
+        cur_tail = --m_tail;
         if (m_tail == m_head) {
             m_tail = 0;
             m_head = 0;
         }
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[cur_tail]);
 }
 
 template<typename T>
-- 
2.43.0


From d038f571d5062274e0519f08f940b4401bd556d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 06/67] fix: vector: inserting into a full vector does not
 write past its storage

---
 src/spine/structure/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 9898b51..39f0d7f 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -172,6 +172,7 @@ template<typename T>
 template<typename T>
 void Vector<T>::push_front(const T& item) {
     spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = item;
         return;
@@ -189,6 +190,8 @@ void Vector<T>::push_front(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_front(const T&& item) {
+    spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = std::move(item);
         return;
@@ -231,6 +234,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
         push_back(item);
         return;
     }
+    if (full()) return;
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
 
-- 
2.43.0


From 3ff0baf96fbbf659bb0db7e6c916ae980e5b2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 07/67] fix: vector: remove is relative to the first element
 and leaves no duplicate behind

---
 src/spine/structure/vector.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 39f0d7f..161db6c 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -248,19 +248,18 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    if (index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (index == size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
-        auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (index < size()) {
+        const auto cur = m_head + index;
+        auto removed = std::move(this->m_store[cur]);
+        --m_tail;
+        memmove((char*)&this->m_store[cur], (char*)&this->m_store[cur + 1], (m_tail - cur) * sizeof(T));
+        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // the vacated slot no longer holds an element
         return removed;
     }
     spn_assert(!"remove was called with illegal index");
-- 
2.43.0


From 5fe772ab2c9da4cbc92dd41cec2ba716166edb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 08/67] fix: vector: accessors, const iterators and swap follow
 the head of the sequence

---
 src/spine/structure/vector.hpp | 38 ++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 161db6c..16fa2ee 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -53,17 +53,26 @@ public:
 
     void clear();
 
+    T& at(Size index) const;
+    T& front();
     T& back();
+    T* data();
+    const T* data() const;
 
     typename Array<T>::iterator begin();
     typename Array<T>::const_iterator begin() const;
     typename Array<T>::iterator end();
     typename Array<T>::const_iterator end() const;
 
+    typename Array<T>::const_iterator cbegin() const { return begin(); }
+    typename Array<T>::const_iterator cend() const { return end(); }
+
     typename Array<T>::reverse_iterator rbegin();
     typename Array<T>::reverse_iterator rend();
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
+    typename Array<T>::const_reverse_iterator crbegin() const { return rbegin(); }
+    typename Array<T>::const_reverse_iterator crend() const { return rend(); }
 
     bool empty() const;
     bool full() const;
@@ -71,6 +80,8 @@ public:
 
     void fill(const T& value);
 
+    void swap(Vector& other) noexcept;
+
 private:
     /// Rearrange memory such that after rearranging, the elements start at `idx`
     void rearrange(Size idx) {
@@ -273,6 +284,26 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    return this->m_store[m_head + index];
+}
+
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
+template<typename T>
+T* Vector<T>::data() {
+    return &this->m_store[m_head];
+}
+
+template<typename T>
+const T* Vector<T>::data() const {
+    return &this->m_store[m_head];
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
@@ -346,4 +377,11 @@ void Vector<T>::fill(const T& value) {
     m_tail = this->m_max_size;
 }
 
+template<typename T>
+void Vector<T>::swap(Vector& other) noexcept {
+    Array<T>::swap(other);
+    std::swap(m_head, other.m_head);
+    std::swap(m_tail, other.m_tail);
+}
+
 } // namespace spn::structure
-- 
2.43.0


From 2ef72368999f4fba38d190f717450075337a3858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 09/67] fix: stack: can be instantiated and releases popped
 elements

---
 src/spine/structure/stack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..6ace9ca 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,7 +6,7 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
@@ -16,7 +16,7 @@ public:
     void push(T& element) { emplace(std::forward<T>(element)); }
 
     /// Pop an element from the stack.
-    void pop() { store.pop_back(); }
+    void pop() { [[maybe_unused]] const auto _ = store.pop_back(); }
 
     /// Returns a reference to the element on top without removing it (dangerous!).
     T& top() {
-- 
2.43.0


From 676caaa300c60cf1ad089266ad3ac9c8df9536c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 10/67] fix: ringbuffer: account for overwritten elements at a
 capacity of one

---
 src/spine/structure/ringbuffer.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..2617487 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -79,14 +79,13 @@ private:
 template<typename T>
 bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
-    m_buffer[m_head] = value;
-    m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
+    if (m_is_full) {
         m_tail = (m_tail + 1) % m_buffer.size();
         ++m_overwritten;
     }
+    m_buffer[m_head] = value;
+    m_head = (m_head + 1) % m_buffer.size();
+    m_is_full = m_head == m_tail;
     return true;
 }
 
-- 
2.43.0


From 73cc82bb214b7015c6f0df3556b4d9dc7f84f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 11/67] fix: ringbuffer: drop_first and drop_last report what
 they drop and keep the overrun count sane

---
 src/spine/io/stream/transaction.cpp |  1 +
 src/spine/structure/ringbuffer.hpp  | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 605ee0a..8c95ff8 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -56,6 +56,7 @@ void Transaction::finalize() {
 bool Transaction::is_finalized() const { return _is_finalized; }
 void Transaction::undo(size_t n_bytes) const {
     n_bytes = n_bytes > 0 ? std::min(n_bytes, _outgoing_queued_bytes) : _outgoing_queued_bytes;
+    if (n_bytes == 0) return; // nothing was queued by this transaction
     _stream->output_buffer_drop_last(n_bytes);
 }
 
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 2617487..460e1a8 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -149,21 +149,23 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
 
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
+    if (n == 0) return 0;
     retract_head(n);
 
     m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    m_overwritten -= std::min(m_overwritten, n);
     return n;
 }
 
 template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
+    if (n == 0) return 0;
     advance_tail(n);
 
     m_is_full = false;
-    m_overwritten = std::min(m_overwritten, used_space() - n);
+    m_overwritten = std::min(m_overwritten, used_space());
     return n;
 }
 
-- 
2.43.0


From 703bd20ca47a54ec4d5c3d2853bce096399b5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 12/67] fix: linebuffer: a view on a line that wraps around the
 end of the buffer is contiguous

---
 src/spine/structure/linebuffer.cpp | 1 +
 src/spine/structure/ringbuffer.hpp | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..132392b 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -12,6 +12,7 @@ void LineBuffer::set_delimiters(const std::string_view delimiters) { _delimiters
 std::optional<std::string_view> LineBuffer::get_next_line_view(const std::optional<size_t>& discovered_length) {
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
+    make_contiguous(length); // a view cannot wrap around the end of the buffer
     length -= 1; // ignore delimiter
     char* str;
     if (peek_at(&str, 0) == false) return std::nullopt;
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 460e1a8..15bb2cb 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -64,6 +64,15 @@ protected:
     /// Push the reading head forwards by `n`, effectively dropping `n` first inserted  elements
     void advance_tail(size_t n) { m_tail = (m_tail + n) % m_buffer.size(); }
 
+    /// Rearrange memory such that the first `n` elements of the buffer lie next to each other (if they do not already)
+    void make_contiguous(size_t n) {
+        if (m_tail + n <= m_buffer.size()) return;
+        const auto used = used_space();
+        std::rotate(m_buffer.data(), m_buffer.data() + m_tail, m_buffer.data() + m_buffer.size());
+        m_tail = 0;
+        m_head = used % m_buffer.size();
+    }
+
     /// Pull the writing head backwards by `n`, effectively dropping `n` last inserted  elements
     void retract_head(size_t n) { m_head = (m_head + m_buffer.size() - (n % m_buffer.size())) % m_buffer.size(); }
 
-- 
2.43.0


From de4fda03c07c7fad7569a8da9e04591d816069d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 13/67] fix: static_string: stripping and suffix matching stay
 within the string

---
 src/spine/structure/static_string.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..7091ff2 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
-    return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
+    return needle.size() <= _buffer.size()
+           && _buffer.compare(_buffer.size() - needle.size(), needle.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From bbcd9828ac49bcd94b496d8b0dd261437cf59adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 14/67] fix: string utils: rstrip strips the end, and stripping
 and suffix matching stay within the string

---
 src/spine/core/utils/string.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..7f6ef34 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,10 +18,10 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
@@ -31,7 +31,8 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
-    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
+    return needle.size() <= strv.size()
+           && strv.compare(strv.size() - needle.size(), needle.size(), needle) == 0;
 }
 
 /// Find the first occurence of any char in `delimiters` in the string `strv` or return std::string::npos when nothing
-- 
2.43.0


From 83c0beaa828b2be95cebe7907d4d4f61a0478948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 15/67] fix: string utils: to_float does not read past the end
 of the view

---
 src/spine/core/utils/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 7f6ef34..b404b8e 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -58,10 +58,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string str(sv); // strtof needs null termination
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(str.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (str.empty() || end != str.c_str() + str.size()) {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 0a5a7e2618486a211d5f542d165ce7cb85be5679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 16/67] fix: parse_time: a missing or oversized value yields
 nullopt instead of an uncaught exception

---
 src/spine/core/utils/time_repr.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..724c4a9 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -2,6 +2,7 @@
 
 // #include <charconv>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -29,14 +30,23 @@ namespace spn::core::utils {
 // Function to parse a string like "10us", "2h", or "1d" to a Time object
 std::optional<std::variant<k_time_us, k_time_ms, k_time_s, k_time_m, k_time_h, k_time_d>>
 parse_time(const std::string_view input) {
+    using spnu::KernelTimeRawType;
+
     if (input.empty()) return std::nullopt;
 
     // Find the position of the first non-digit character
     std::size_t pos = input.find_first_not_of("0123456789");
     if (pos == std::string_view::npos) return std::nullopt; // No unit found
 
+    if (pos == 0) return std::nullopt; // No value found
+
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    KernelTimeRawType value = 0;
+    for (const char digit : input.substr(0, pos)) {
+        constexpr auto limit = std::numeric_limits<KernelTimeRawType>::max();
+        if (value > (limit - (digit - '0')) / 10) return std::nullopt; // Value does not fit
+        value = value * 10 + (digit - '0');
+    }
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From 1b98c1fd02e1389899c6290397afbb752aa4cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 17/67] fix: datetime: read a time of day with leading zeroes
 as decimal and leave no field unset

---
 src/spine/structure/time/datetime.cpp | 3 ++-
 src/spine/structure/time/datetime.hpp | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..6c30b35 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -133,11 +133,12 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%d:%d:%d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
     _tm.tm_yday = calcYearDay(year, month, day);
+    _tm.tm_isdst = -1; // let mktime determine it
     set_timestamps();
 }
 
diff --git a/src/spine/structure/time/datetime.hpp b/src/spine/structure/time/datetime.hpp
index 461413d..ccb5386 100644
--- a/src/spine/structure/time/datetime.hpp
+++ b/src/spine/structure/time/datetime.hpp
@@ -10,6 +10,8 @@
  * - Removed unneeded functionality
  *********************************************************************************************/
 
+#pragma once
+
 #include "spine/structure/units/si.hpp"
 
 #include <climits>
@@ -51,5 +53,5 @@ private:
 protected:
     time_t _unix_timestamp;
     time_t _y2k_timestamp;
-    tm _tm;
+    tm _tm{};
 };
\ No newline at end of file
-- 
2.43.0


From 3f963fdf827e098cffa3cc97fe54d0ebf9f1cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 18/67] fix: datetime: timestamps before the year 2000 do not
 trip an assertion

---
 src/spine/structure/time/datetime.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 6c30b35..381f972 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -85,8 +85,7 @@ static uint8_t bcd2bin(uint8_t val) { return static_cast<uint8_t>(val - 6 * (val
  * @param unix_timestamp
  */
 DateTime::DateTime(time_t unix_timestamp)
-    : _unix_timestamp{unix_timestamp}, _y2k_timestamp{static_cast<time_t>(unix_timestamp - UNIX_OFFSET)} {
-    spn_assert(unix_timestamp - UNIX_OFFSET <= LONG_MAX);
+    : _unix_timestamp{unix_timestamp}, _y2k_timestamp{unix_timestamp - static_cast<time_t>(UNIX_OFFSET)} {
     gmtime_r(&_unix_timestamp, &_tm);
 }
 
-- 
2.43.0


From 584ca49c5a469ead92a673df12d2e41b8d8dba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 19/67] fix: schedule: start_of_next_block does not depend on
 the order of the blocks

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..1c70fc3 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start;
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From 0bb432978e7fbf628f6872d652d7e5e8337dccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 20/67] fix: units: convert integral units exactly and real
 units at the precision of their value type

---
 .../structure/units/primitives/magnitudes.hpp | 46 +++++++++----------
 src/spine/structure/units/primitives/unit.hpp | 26 +++++++++--
 2 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/spine/structure/units/primitives/magnitudes.hpp b/src/spine/structure/units/primitives/magnitudes.hpp
index c34c14f..d09659d 100644
--- a/src/spine/structure/units/primitives/magnitudes.hpp
+++ b/src/spine/structure/units/primitives/magnitudes.hpp
@@ -4,76 +4,76 @@ namespace spn::structure::units {
 
 // SI magnitude tags
 struct Atto {
-    static constexpr float Magnitude = 1e-18f;
+    static constexpr double Magnitude = 1e-18;
 };
 struct Femto {
-    static constexpr float Magnitude = 1e-15f;
+    static constexpr double Magnitude = 1e-15;
 };
 struct Pico {
-    static constexpr float Magnitude = 1e-12f;
+    static constexpr double Magnitude = 1e-12;
 };
 struct Nano {
-    static constexpr float Magnitude = 1e-9f;
+    static constexpr double Magnitude = 1e-9;
 };
 struct Micro {
-    static constexpr float Magnitude = 1e-6f;
+    static constexpr double Magnitude = 1e-6;
 };
 struct Milli {
-    static constexpr float Magnitude = 1e-3f;
+    static constexpr double Magnitude = 1e-3;
 };
 struct Centi {
-    static constexpr float Magnitude = 1e-2f;
+    static constexpr double Magnitude = 1e-2;
 };
 struct Deci {
-    static constexpr float Magnitude = 1e-1f;
+    static constexpr double Magnitude = 1e-1;
 };
 struct Deca {
-    static constexpr float Magnitude = 1e1f;
+    static constexpr double Magnitude = 1e1;
 };
 struct Hecto {
-    static constexpr float Magnitude = 1e2f;
+    static constexpr double Magnitude = 1e2;
 };
 struct Kilo {
-    static constexpr float Magnitude = 1e3f;
+    static constexpr double Magnitude = 1e3;
 };
 struct Mega {
-    static constexpr float Magnitude = 1e6f;
+    static constexpr double Magnitude = 1e6;
 };
 struct Giga {
-    static constexpr float Magnitude = 1e9f;
+    static constexpr double Magnitude = 1e9;
 };
 struct Tera {
-    static constexpr float Magnitude = 1e12f;
+    static constexpr double Magnitude = 1e12;
 };
 struct Peta {
-    static constexpr float Magnitude = 1e15f;
+    static constexpr double Magnitude = 1e15;
 };
 struct Exa {
-    static constexpr float Magnitude = 1e18f;
+    static constexpr double Magnitude = 1e18;
 };
 
 struct Base {
-    static constexpr float Magnitude = 1.0f;
+    static constexpr double Magnitude = 1.0;
 };
 
 // time types
 struct Minute {
-    static constexpr float Magnitude = 60.0f;
+    static constexpr double Magnitude = 60.0;
 };
 struct Hour {
-    static constexpr float Magnitude = 60.0f * 60.0f;
+    static constexpr double Magnitude = 60.0 * 60.0;
 };
 struct Day {
-    static constexpr float Magnitude = 60.0f * 60.0f * 24.0f;
+    static constexpr double Magnitude = 60.0 * 60.0 * 24.0;
 };
 struct Week {
-    static constexpr float Magnitude = Day::Magnitude * 7.0f;
+    static constexpr double Magnitude = Day::Magnitude * 7.0;
 };
 struct Month {
-    static constexpr float Magnitude = Week::Magnitude * 4.0f;
+    static constexpr double Magnitude = Week::Magnitude * 4.0;
 };
 struct Year {
-    static constexpr float Magnitude = Day::Magnitude * 365.0f;
+    static constexpr double Magnitude = Day::Magnitude * 365.0;
 };
 
 } // namespace spn::structure::units
diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..621a901 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -132,14 +132,34 @@ private:
         return std::fabs(a - b) <= epsilon * std::max(std::fabs(a), std::fabs(b));
     }
 
+    /// Returns true if `ratio` is a whole number, but for the inexactness of a ratio of magnitudes
+    static constexpr bool is_whole(double ratio) {
+        if (ratio < 0.5 || ratio > 1e18) return false;
+        const auto nearest = static_cast<double>(static_cast<int64_t>(ratio + 0.5));
+        const auto deviation = ratio > nearest ? ratio - nearest : nearest - ratio;
+        return deviation <= 1e-9 * nearest;
+    }
+
 private:
     ValueType _value = 0;
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        constexpr double ratio = MOther::Magnitude / MT::Magnitude;
+        if constexpr (is_integral()) {
+            // scale in integer arithmetic since floating point can not represent all integral values
+            constexpr double inverse_ratio = MT::Magnitude / MOther::Magnitude;
+            if constexpr (is_whole(ratio)) {
+                return other.raw() * static_cast<ValueType>(ratio + 0.5);
+            } else if constexpr (is_whole(inverse_ratio)) {
+                constexpr auto divisor = static_cast<ValueType>(inverse_ratio + 0.5);
+                const auto half = other.raw() < 0 ? -(divisor / 2) : divisor / 2; // round half away from zero
+                return (other.raw() + half) / divisor;
+            } else {
+                return std::round(ratio * static_cast<double>(other.raw()));
+            }
+        }
+        return static_cast<ValueType>(ratio) * other.raw();
     }
 };
 
-- 
2.43.0


From a755c75aaca9a13addf7f6c1130a7c86902129ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 21/67] fix: compound units: compare in common units

---
 .../structure/units/primitives/compound_unit.hpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 654e214..57c5350 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -186,8 +186,9 @@ public:
 
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator==(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        if constexpr (std::is_integral_v<ValueType>) return raw() == other.raw();
-        return approximately_equal(raw(), other.raw());
+        const auto converted = CompoundUnit(other); // compare in common units
+        if constexpr (std::is_integral_v<ValueType>) return raw() == converted.raw();
+        return approximately_equal(raw(), converted.raw());
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator!=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
@@ -195,19 +196,19 @@ public:
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() < other.raw();
+        return raw() < CompoundUnit(other).raw(); // compare in common units
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() > other.raw();
+        return raw() > CompoundUnit(other).raw(); // compare in common units
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() <= other.raw();
+        return raw() <= CompoundUnit(other).raw(); // compare in common units
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() >= other.raw();
+        return raw() >= CompoundUnit(other).raw(); // compare in common units
     }
 
 private:
-- 
2.43.0


From 70fa3bf1e5e281446206f722f70961daec697191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 22/67] fix: compound units: simplify handles negative and very
 small values

---
 src/spine/structure/units/primitives/compound_unit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 57c5350..ad5a751 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -105,6 +105,7 @@ public:
     /// `scaling_factor` determines precision. A `scaling_factor` of 1e6 makes 6 decimals of precision.
     void simplify(RealRawType scaling_factor = 1e6) {
         const auto gcd = compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor);
+        if (gcd == 0) return; // too small to simplify at this precision
         _numerator /= gcd;
         _denominator /= gcd;
     }
@@ -219,7 +220,7 @@ private:
     }
 
     inline unsigned long scale_to_integer(ValueType num, RealRawType scaling_factor) {
-        return static_cast<unsigned long>(std::round(num * scaling_factor));
+        return static_cast<unsigned long>(std::round(std::fabs(num) * scaling_factor));
     }
     unsigned long compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
         if constexpr (std::is_integral_v<ValueType>) return std::gcd(numerator, denominator);
-- 
2.43.0


From ae4c0c7e9186044873a98249be84617cf8f24078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 23/67] fix: pool: release all objects on destruction

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 src/spine/structure/pool.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..1d92e65 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..52c18bf 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,7 +16,7 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
-- 
2.43.0


From c448c01c13f307306e2dbf019e32b42cdef2b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 24/67] fix: pool: acquire terminates for pools of more than
 65535 objects

---
 src/spine/structure/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 52c18bf..633005f 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -84,7 +84,7 @@ protected:
     Vector<Pointer> _pointers;
 
 private:
-    uint16_t _lookup_index = 0;
+    size_t _lookup_index = 0;
 };
 
 } // namespace spn::structure
-- 
2.43.0


From ae1dc4ad2588d0c667fb79086e9965d1394b1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 25/67] fix: eventsystem: running out of events does not
 dereference a nullptr

---
 src/spine/eventsystem/eventsystem.cpp | 1 +
 src/spine/eventsystem/eventsystem.hpp | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 1d92e65..a6ce10d 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -57,6 +57,7 @@ EventSystem::~EventSystem() {
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
     spn_assert(event);
+    if (!event) return;
     trigger(*event.get());
 }
 
diff --git a/src/spine/eventsystem/eventsystem.hpp b/src/spine/eventsystem/eventsystem.hpp
index d6c51ee..afa7a2f 100644
--- a/src/spine/eventsystem/eventsystem.hpp
+++ b/src/spine/eventsystem/eventsystem.hpp
@@ -152,7 +152,9 @@ public:
     }
 
     /// Schedule a provided event
-    void schedule(std::shared_ptr<Event>&& event) { _pipeline.push(std::move(event)); }
+    void schedule(std::shared_ptr<Event>&& event) {
+        if (event) _pipeline.push(std::move(event));
+    }
 
     /// Main loop of event system. It is crucial that this loop is called often enough to fire events in time
     void loop();
-- 
2.43.0


From c7dcdfbdea5255262eb24fc02304b542d27ca98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 26/67] fix: eventsystem: respect max_delay_between_ticks

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index a6ce10d..dd12b37 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -82,7 +82,7 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay_ms(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From a8b0fc508ac523ecfc36a41b393a054986733ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 27/67] fix: pipeline: to_string separates futures and does not
 assert on short representations

---
 src/spine/eventsystem/pipeline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..a712f10 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -25,7 +25,8 @@ std::string Pipeline::to_string() const {
         for (auto it = _pipe.begin(); it != _pipe.end(); ++it) {
             auto& future = *it;
             put(utils::repr(future->time_until_future()));
-            if (it != _pipe.end()) put(", ");
+            auto next = it;
+            if (++next != _pipe.end()) put(", ");
         }
         put("]");
         return len;
@@ -42,7 +43,7 @@ std::string Pipeline::to_string() const {
     pipeline_repr(&result, false);
 
     spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() == total_length); // no reallocation
+    spn_assert(result.capacity() >= total_length); // no reallocation
     return result;
 }
 
-- 
2.43.0


From c44f63cbf0d9de6d874337ed1f5aaa4cde008f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 28/67] fix: buffered_stream: keep a byte that the underlying
 stream failed to write

---
 src/spine/io/stream/buffered_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..738c499 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -50,7 +50,8 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop(); // only let go of what has been written
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From 813d689098d07242e142e07599857645a23bd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 29/67] fix: buffered_stream: pulling in data does not
 overwrite a complete line

---
 src/spine/io/stream/buffered_stream.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 738c499..4419b5a 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -28,13 +28,8 @@ size_t BufferedStream::pull_in_data() {
     uint8_t last_char = '\0';
 
     while (_stream->available() > 0) {
-        // early break when a delimiter has been found, as to lose no input if possible
-        if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
-                break; // break when the last incoming was a delimiter
-            if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
-                break; // break when the buffer just turned full and the buffer already contains a line
-        }
+        // early break when the full buffer contains a line, as to lose no input if possible
+        if (_input_buffer.full() && _input_buffer.has_line()) break;
 
         if (!_stream->read(last_char)) {
             return bytes_read; // read failure
-- 
2.43.0


From 02f5cb7c0830d29624cbd90841e4166f69e099fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 30/67] fix: transaction: a reply may use all of the space that
 is left

---
 src/spine/io/stream/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 8c95ff8..b489b8e 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -25,7 +25,7 @@ size_t Transaction::outgoing(char value) {
 }
 size_t Transaction::outgoing(const char* buffer, size_t length) {
     spn_assert(!is_finalized());
-    spn_assert(outgoing_space_left() > length); // todo: instead make it optional to flush out bytes in between
+    spn_assert(outgoing_space_left() >= length); // todo: instead make it optional to flush out bytes in between
     length = std::min(outgoing_space_left(), length);
     size_t bytes_written = _stream->buffered_write(buffer, length);
     _outgoing_queued_bytes += bytes_written;
-- 
2.43.0


From d6e96add34be1d83909f0f40248718a062bcc028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 31/67] fix: result: copying a Result or passing a success
 value never yields a failure

---
 src/spine/structure/result.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..67474c3 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -17,6 +17,12 @@ namespace uv = spn::core::meta::unique_variant;
 /// Container for function-driven processing with safety by default
 template<typename T, typename E = T, typename I = T>
 class Result {
+    /// True for types that are taken for an error value; Results and success values never are
+    template<typename U>
+    static constexpr bool is_error_like = std::is_convertible_v<U, E> && !std::is_same_v<E, T>
+                                          && !std::is_same_v<std::decay_t<U>, Result>
+                                          && !std::is_same_v<std::decay_t<U>, T>;
+
 public:
     Result() : _type(Type::NO_VALUE) {}
 
@@ -35,10 +41,10 @@ public:
     static Result failed(const E& v) { return Result(Type::FAILED, WrappedE(v)); }
     static Result failed(E&& v) { return Result(Type::FAILED, WrappedE(std::move(v))); }
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = std::enable_if_t<is_error_like<U>>>
     Result(const U& error) : _v(std::in_place, WrappedE(error)), _type(Type::FAILED) {}
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = std::enable_if_t<is_error_like<U>>>
     Result(U&& error) : _v(std::in_place, WrappedE(std::forward<U>(error))), _type(Type::FAILED) {}
 
     bool is_success() const { return _type == Type::OK; }
-- 
2.43.0


From 24a0ab7b7fcf727cc1fe83934e536090818a5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 32/67] fix: result: chain passes on a Result without a value

---
 src/spine/structure/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index 67474c3..f4e0e64 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -98,7 +98,7 @@ public:
         using ExpectedResult = Result<std::decay_t<T>, std::decay_t<E>, std::decay_t<I>>;
         static_assert(std::is_invocable_r_v<ExpectedResult, F, I&>,
                       "Function passed to chain must return a Result<T, E, I> and take I& as a parameter.");
-        if (is_failed() || is_success()) {
+        if (!is_intermediary()) {
             return *this;
         }
         return func(intermediary_value_mut());
-- 
2.43.0


From 95d90dcfe09bfe34460b36d432b23ca980243b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 33/67] fix: mock: millis and micros convert the time slept
 only once

---
 src/spine/platform/implementations/mock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..2322f97 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,8 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() { return MockStateInstance().millis + k_time_ms(MockStateInstance().micros.raw() / 1000); }
+    static k_time_us micros() { return MockStateInstance().micros + MockStateInstance().millis; }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From 3ea7a4c744e48e02886c1d76f58250df756710ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 34/67] fix: gpio: fade_to ends on the setpoint without
 overshooting it

---
 src/spine/platform/gpio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..33892bb 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -19,11 +19,12 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
     }
     const auto invert = value > setpoint ? -1 : 1;
     while (diff > 0) {
-        value = std::clamp(value + invert * increment, 0.0f, 1.0f);
+        value = invert > 0 ? std::min(value + increment, setpoint) : std::max(value - increment, setpoint);
         set_value(imp, value);
         diff -= increment;
         HAL::delay(increment_interval);
     }
+    if (value != setpoint) set_value(imp, setpoint);
 }
 
 } // namespace spn::platform::detail
-- 
2.43.0


From 687df5e50638b909db40a8dc1f366e9ea7c6e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 35/67] fix: sr_latch: on and off times count from the moment
 the latch turned

---
 src/spine/controller/sr_latch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..e2114c2 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,8 +35,8 @@ public:
 
 protected:
     void set(const State state) {
+        if (state != _value) _last_turned.reset();
         _value = state;
-        _last_turned.reset();
     }
 
 private:
-- 
2.43.0


From 2e5cfd1bc7e75113b91074dffed3f3b0e89b7165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 36/67] fix: pid: use the configured proportionality

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From 33e1503b24d12321a3e3a477022558ba86d48ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 37/67] fix: pid: rescale gains by the exact ratio of sampling
 times

---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..eebd9e5 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        const float ratio = sampling_time.raw<float>() / _sampling_time.raw<float>();
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From e6302a0de0eadf2ee9f8e64a2adb177ab54bce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 38/67] fix: pid: tunings returns the tunings that were set

---
 .../controller/implementations/pid/pid_controller.cpp  |  3 +++
 .../controller/implementations/pid/pid_controller.hpp  | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index eebd9e5..bc2dfa3 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -86,6 +86,9 @@ void PIDController::set_tunings(float Kp, float Ki, float Kd, const PIDControlle
     spn_assert(_sampling_time > k_time_ms{});
 
     _proportionality = proportionality;
+    _user_kp = Kp;
+    _user_ki = Ki;
+    _user_kd = Kd;
 
     const auto sampletime_in_seconds = _sampling_time.raw() / 1000.0f;
     _kp = Kp;
diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index d2748d1..2a248db 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -42,13 +42,17 @@ public:
 
     void set_sampling_time(const k_time_ms sampling_time);
 
-    float Kp() const { return _kp; }
-    float Ki() const { return _ki; }
-    float Kd() const { return _kd; }
+    float Kp() const { return _user_kp; }
+    float Ki() const { return _user_ki; }
+    float Kd() const { return _user_kd; }
 
     Direction direction() const { return _controller_direction; }
 
 private:
+    float _user_kp = 0; // the tuning parameters as set by the user, before scaling to the sampling time
+    float _user_ki = 0;
+    float _user_kd = 0;
+
     float _kp = 0; // * (P)roportional Tuning Parameter
     float _ki = 0; // * (I)ntegral Tuning Parameter
     float _kd = 0; // * (D)erivative Tuning Parameter
-- 
2.43.0


From c8d98a7a8bdd262d4b321f851cc7556408f0ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 39/67] fix: pid_tuner: average over the number of cycles that
 were summed

---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..54bb36f 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,11 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        if (cycle > 2) { // the first two cycles are not part of the average
+            kp = pAverage / (cycle - 2);
+            ki = iAverage / (cycle - 2);
+            kd = dAverage / (cycle - 2);
+        }
     }
 
     return outputValue;
-- 
2.43.0


From c3d2c0eb61276fbd06318f710253e01369de931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 40/67] fix: bandpass: apply the exponent to ten instead of to
 the mantissa

---
 src/spine/filter/implementations/bandpass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..c5c20a2 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -93,8 +93,8 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        _upper = compensated_midpoint + _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
+        _lower = compensated_midpoint - _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From 55b721ab2393317eb9c321fe8c6837075d58a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 41/67] fix: filterstack: report and respect the number of
 pre-allocated slots

---
 src/spine/filter/filterstack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..0b71f85 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -17,8 +17,8 @@ public:
 
     /// Attach a filter to the provided slot's index
     void attach_filter(std::unique_ptr<Filter<ValueType>> filter) {
-        spn_expect(_filters.size() < _filters.max_size());
-        if (_filters.size() < _filters.max_size()) _filters.emplace_back(std::move(filter));
+        spn_expect(_filters.size() < _filters.capacity());
+        if (_filters.size() < _filters.capacity()) _filters.emplace_back(std::move(filter));
     }
 
     /// Detach a filter for a provided slot's index
@@ -51,7 +51,7 @@ public:
     }
 
     /// Returns count of pre-allocated filter slots
-    size_t filter_slots() const { return _filters.max_size(); }
+    size_t filter_slots() const { return _filters.capacity(); }
 
     /// Returns count of occupied filter slots
     size_t filter_slots_occupied() const { return _filters.size(); }
-- 
2.43.0


From 0141498922c3560702cc57004474d5144fc1f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 42/67] fix: filterstack: detach_filter compiles

---
 src/spine/filter/filterstack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 0b71f85..45c9795 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -24,7 +24,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From f701c5a0f91a94f90a2d83c2a76372add6160b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 43/67] fix: filterstack: do not truncate samples to float

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 45c9795..bb44dce 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -31,7 +31,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From 188e6a5466793ecff12ce4b1da19ce09461fd159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 44/67] fix: logging: long messages do not overflow the message
 buffer

---
 src/spine/core/logging.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..9386efb 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,6 +2,7 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
 
 namespace spn::logging {
@@ -40,18 +41,23 @@ void print(const LogLevel level, const char* filename, const int line_number, co
     char msg_buffer[SPINE_LOGGING_MAX_MSG_SIZE];
     size_t space_used = 0;
 
+    // a truncated write reports the length it would have needed, never account for more than there is
+    const auto account_for = [&](const int length) {
+        if (length > 0) space_used = std::min(space_used + length, sizeof(msg_buffer) - 1);
+    };
+
 #ifndef SPN_LOG_OVERLOAD
-    space_used += snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level));
+    account_for(snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level)));
 #endif
 
     va_list args;
     va_start(args, fmt);
-    space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
+    account_for(vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args));
     va_end(args);
 
     if (level == LogLevel::DEBUG) {
-        space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-                               line_number, function_name);
+        account_for(snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
+                             line_number, function_name));
     }
 
 #if defined(SPN_LOG_OVERLOAD)
-- 
2.43.0


From 67776ff79ef4fc3c9e2a52adf349c4eba0d742e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 45/67] fix: ringbuffer: popped and dropped elements are not
 kept alive by their slot

---
 src/spine/structure/ringbuffer.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 15bb2cb..9aba489 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -73,6 +73,14 @@ protected:
         m_head = used % m_buffer.size();
     }
 
+    /// Release whatever the `n` elements from `index` on hold on to
+    void release(size_t index, size_t n) {
+        if constexpr (!std::is_trivially_destructible_v<T>) {
+            for (size_t i = index; i < index + n; ++i)
+                m_buffer[(m_tail + i) % m_buffer.size()] = T{};
+        }
+    }
+
     /// Pull the writing head backwards by `n`, effectively dropping `n` last inserted  elements
     void retract_head(size_t n) { m_head = (m_head + m_buffer.size() - (n % m_buffer.size())) % m_buffer.size(); }
 
@@ -118,7 +126,7 @@ template<typename T>
 bool RingBuffer<T>::pop(T& value) {
     if (empty()) return false;
 
-    value = m_buffer[m_tail];
+    value = std::move(m_buffer[m_tail]); // the slot must not keep the element alive
     m_tail = (m_tail + 1) % m_buffer.size();
     m_is_full = false;
     m_overwritten = 0;
@@ -160,6 +168,7 @@ template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
     n = n > 0 ? std::min(used_space(), n) : used_space();
     if (n == 0) return 0;
+    release(used_space() - n, n);
     retract_head(n);
 
     m_is_full = false;
@@ -171,6 +180,7 @@ template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
     n = n > 0 ? std::min(used_space(), n) : used_space();
     if (n == 0) return 0;
+    release(0, n);
     advance_tail(n);
 
     m_is_full = false;
-- 
2.43.0


From 5ed3f92e54b3f8fd5b3c807ace6a8510e4946a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 46/67] fix: vector, pool: moving leaves an empty source behind

---
 src/spine/structure/pool.hpp   |  1 +
 src/spine/structure/vector.hpp | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 633005f..b7106ab 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -20,6 +20,7 @@ public:
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
+    Pool(Pool&& other) noexcept : _pointers(std::move(other._pointers)), _lookup_index(other._lookup_index) {}
     Pool(const Pool& other) : _pointers(other._pointers), _lookup_index(other._lookup_index) {}
     Pool& operator=(const Pool& other) {
         if (&other == this) return *this;
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 16fa2ee..34cbe67 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -25,7 +25,11 @@ public:
     Vector(T (&store)[CAP], Size size = 0);
     Vector(Size max_size, T init_value);
     Vector(const std::initializer_list<T>& value_list);
+    Vector(const Vector& other) = default;
+    Vector(Vector&& other) noexcept;
 
+    Vector& operator=(const Vector& other) = default;
+    Vector& operator=(Vector&& other) noexcept;
     Vector& operator=(const std::initializer_list<T>& value_list) noexcept;
 
     T& operator[](Size index);
@@ -117,6 +121,20 @@ Vector<T>::Vector(ArrayBase::Size max_size, T init_value) : Array<T>(max_size, i
 template<typename T>
 Vector<T>::Vector(const std::initializer_list<T>& value_list) : Array<T>(value_list), m_tail(value_list.size()) {}
 
+template<typename T>
+Vector<T>::Vector(Vector&& other) noexcept : Array<T>(std::move(other)), m_head(other.m_head), m_tail(other.m_tail) {
+    other.m_head = other.m_tail = 0; // nothing is left to be popped
+}
+
+template<typename T>
+Vector<T>& Vector<T>::operator=(Vector&& other) noexcept {
+    if (this == &other) return *this;
+    Array<T>::operator=(std::move(other));
+    m_head = std::exchange(other.m_head, 0);
+    m_tail = std::exchange(other.m_tail, 0);
+    return *this;
+}
+
 template<typename T>
 Vector<T>& Vector<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
     Array<T>::operator=(value_list);
-- 
2.43.0


From 11b59c2833b126b9b99fed68d6293d6083f84cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 47/67] fix: units: lux has a magnitude

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From f3266cf08fd2e170c542ed4a6cffba9ad87ae5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 48/67] fix: compound units: simplify negative integral values

---
 src/spine/structure/units/primitives/compound_unit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index ad5a751..c046305 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -104,7 +104,7 @@ public:
     /// Simplify compound by reducing numerator and denominator by greatest common denominator. Provided
     /// `scaling_factor` determines precision. A `scaling_factor` of 1e6 makes 6 decimals of precision.
     void simplify(RealRawType scaling_factor = 1e6) {
-        const auto gcd = compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor);
+        const auto gcd = static_cast<ValueType>(compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor));
         if (gcd == 0) return; // too small to simplify at this precision
         _numerator /= gcd;
         _denominator /= gcd;
-- 
2.43.0


From 7da6e88da36dca73f219c1310fcd1a2918becee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:42 +0000
Subject: [PATCH 49/67] fix: gpio: an analogue output remembers the value it
 was set to

---
 src/spine/platform/gpio.hpp                    | 2 +-
 src/spine/platform/implementations/arduino.hpp | 5 ++++-
 src/spine/platform/implementations/mock.hpp    | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index cc9c4ce..a4e6587 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -48,7 +48,7 @@ public:
     /// Set the output to the provided `value`
     void set_value(float value) {
         _value = value;
-        ((GPIOImp*)(this))->set_value(value);
+        static_cast<GPIOImp*>(this)->set_value_impl(value);
     }
 
     /// Returns the currently active value
diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1381c6b..f0bc2ec 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -99,14 +99,17 @@ public:
         set_value(0.0);
     }
 
+protected:
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
         analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
     }
 
+    friend AnalogueOutput;
+
 private:
     const Config _cfg;
 };
diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index 2322f97..094701d 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -86,12 +86,15 @@ public:
 
     void initialize() { set_value(0.0f); }
 
+protected:
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
     }
 
+    friend AnalogueOutput;
+
 private:
     const Config _cfg;
 };
-- 
2.43.0


From 7890fb1e3f9efc75854dd89a8e14170f6b37ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 50/67] fix: gpio: fade_to does not jump to setpoints that are
 more than an increment away

---
 src/spine/platform/gpio.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 33892bb..d02a9ff 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -10,18 +10,17 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
              k_time_ms increment_interval) {
     spn_assert(setpoint >= 0.0f && setpoint <= 1.0f);
 
-    const float decimals_of_diff = 1.0f / increment;
-    float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
+    // a remainder of less than half an increment does not deserve a step of its own
+    auto steps = std::lround(std::fabs(value - setpoint) / increment);
 
-    if (diff < increment) {
+    if (steps == 0) {
         set_value(imp, setpoint);
         return;
     }
     const auto invert = value > setpoint ? -1 : 1;
-    while (diff > 0) {
+    while (steps-- > 0) {
         value = invert > 0 ? std::min(value + increment, setpoint) : std::max(value - increment, setpoint);
         set_value(imp, value);
-        diff -= increment;
         HAL::delay(increment_interval);
     }
     if (value != setpoint) set_value(imp, setpoint);
-- 
2.43.0


From ca7073b5b8164cc45c8969653c28bde3721759c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 51/67] fix: adding an element of a vector to that vector
 survives the moving of memory

---
 src/spine/structure/vector.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 34cbe67..f64a1ba 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -161,7 +161,12 @@ const T& Vector<T>::operator[](ArrayBase::Size index) const {
 
 template<typename T>
 void Vector<T>::push_back(const T& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T copy = item; // `item` may be an element of this vector
+        rearrange(0);
+        this->m_store[m_tail++] = copy;
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) this->m_store[m_tail++] = item;
@@ -169,7 +174,12 @@ void Vector<T>::push_back(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_back(const T&& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T copy = item; // `item` may be an element of this vector
+        rearrange(0);
+        this->m_store[m_tail++] = copy;
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) {
@@ -207,13 +217,14 @@ void Vector<T>::push_front(const T& item) {
         return;
     }
 
+    const T copy = item; // `item` may be an element of this vector
     // todo: use `rearrange()`
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
 
-    this->m_store[m_head] = item;
+    this->m_store[m_head] = copy;
     m_tail++;
 }
 
@@ -226,11 +237,12 @@ void Vector<T>::emplace_front(const T&& item) {
         return;
     }
 
+    const T copy = item; // `item` may be an element of this vector
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head] = std::move(item);
+    this->m_store[m_head] = copy;
     m_tail++;
 }
 
@@ -264,6 +276,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
         return;
     }
     if (full()) return;
+    const T copy = item; // `item` may be an element of this vector
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
 
@@ -272,7 +285,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
             (m_tail++ - (m_head + index)) * sizeof(T));
     memset((char*)&this->m_store[m_head + index], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head + index] = item;
+    this->m_store[m_head + index] = copy;
 }
 
 template<typename T>
-- 
2.43.0


From e7cb130038cf4c41e92058b87ec7843bbef17e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 52/67] fix: declare __brkval of the C library outside of the
 namespace so that it links

---
 src/spine/platform/implementations/arduino.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/platform/implementations/arduino.cpp b/src/spine/platform/implementations/arduino.cpp
index 56fd583..a593371 100644
--- a/src/spine/platform/implementations/arduino.cpp
+++ b/src/spine/platform/implementations/arduino.cpp
@@ -2,16 +2,16 @@
 
 #    include "spine/platform/implementations/arduino.hpp"
 
-namespace spn::platform {
-
 // ripped from: https://github.com/mpflaga/Arduino-MemoryFree/tree/master
 #    ifdef __arm__
 // should use uinstd.h to define sbrk but Due causes a conflict
 extern "C" char* sbrk(int incr);
 #    else // __ARM__
-extern char* __brkval;
+extern char* __brkval; // of the C library, hence not within a namespace
 #    endif // __arm__
 
+namespace spn::platform {
+
 unsigned long Arduino::free_memory() {
     char top;
 #    ifdef __arm__
-- 
2.43.0


From 6041217e1ec7079666849c68c1ec23ae16da7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:58 +0000
Subject: [PATCH 53/67] fix: switching the log level off on Zephyr leaves the
 backend off

---
 src/spine/platform/implementations/zephyr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.cpp b/src/spine/platform/implementations/zephyr.cpp
index fd40d9c..457f1a8 100644
--- a/src/spine/platform/implementations/zephyr.cpp
+++ b/src/spine/platform/implementations/zephyr.cpp
@@ -29,7 +29,7 @@ void zephyr_set_log_level(spn::logging::LogLevel level) {
     LOG_MODULE_DECLARE(spine, LOG_LEVEL_INF);
 
     switch (level) {
-    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE);
+    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE); break;
     case spn::logging::LogLevel::ERR: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_ERR); break;
     case spn::logging::LogLevel::WARN: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_WRN); break;
     case spn::logging::LogLevel::INFO: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_INF); break;
-- 
2.43.0


From ff0c68c2371e3111cced27d6f17e6fa853aa170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 54/67] fix: an analogue output that is fully on keeps to the
 duties that fit its resolution

---
 src/spine/platform/implementations/arduino.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index f0bc2ec..9e046d5 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -105,7 +105,8 @@ protected:
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
-        analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
+        const auto full_scale = powf(2, _cfg.resolution) - 1.0f; // the highest duty that fits
+        analogWrite(_cfg.pin, int(value * full_scale));
     }
 
     friend AnalogueOutput;
-- 
2.43.0


From da908e25ea0faacbfbb8dbc389447e91c1428df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 55/67] fix: detaching an interrupt names the same interrupt as
 attaching it

---
 src/spine/platform/implementations/arduino.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 9e046d5..1510791 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -214,7 +214,13 @@ public:
 #endif
     }
 
-    void detach_interrupt() { ::detachInterrupt(_cfg.pin); }
+    void detach_interrupt() {
+#if defined(__AVR_ATmega8__) || defined(__AVR_ATmega168__) || defined(__AVR_ATmega328P__)
+        ::detachInterrupt(_cfg.pin);
+#else
+        ::detachInterrupt(digitalPinToInterrupt(_cfg.pin));
+#endif
+    }
 
 private:
     const Config _cfg;
-- 
2.43.0


From ebdc7f5130c631741d5b33b62b23979076f2f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 56/67] fix: reading a byte from an Arduino UART without one
 reports so

---
 src/spine/platform/implementations/arduino.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1510791..1d25235 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -263,7 +263,9 @@ public:
 
     size_t read(uint8_t* const buffer, size_t length) override { return _stream_ref->readBytes(buffer, length); }
     bool read(uint8_t& value) override {
-        value = _stream_ref->read();
+        const auto byte_read = _stream_ref->read();
+        if (byte_read < 0) return false; // nothing to read
+        value = static_cast<uint8_t>(byte_read);
         return true;
     }
 
-- 
2.43.0


From 49b24dfe05dade5ecf329988e7ff758988d709f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 57/67] fix: delays of more than a millisecond on Zephyr do not
 lose their microseconds

---
 src/spine/platform/implementations/zephyr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 5580703..8c1be2a 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -40,9 +40,8 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     static void delay_us(k_time_us us) {
         if (us.raw() >= 1000) {
             k_msleep(us.raw() / 1000);
-        } else {
-            k_busy_wait(us.raw()); // Busy wait for shorter delays
         }
+        k_busy_wait(us.raw() % 1000); // Busy wait for shorter delays and for what remains of longer ones
     }
     static void delay_ms(k_time_ms ms) { k_msleep(ms.raw()); }
 };
-- 
2.43.0


From 58bbb68aafecc9156b8a9205fa2fc58df5d040c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 58/67] fix: microseconds on Zephyr go on when the ticks exceed
 32 bits

---
 src/spine/platform/implementations/zephyr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 8c1be2a..1668766 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -36,7 +36,7 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     }
 
     static k_time_ms millis() { return k_time_ms(k_uptime_get()); }
-    static k_time_us micros() { return k_time_us(k_ticks_to_us_near32(k_uptime_ticks())); }
+    static k_time_us micros() { return k_time_us(k_ticks_to_us_near64(k_uptime_ticks())); }
     static void delay_us(k_time_us us) {
         if (us.raw() >= 1000) {
             k_msleep(us.raw() / 1000);
-- 
2.43.0


From 188636c916ec35d24acc2a40ae1d62e07129e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:21 +0000
Subject: [PATCH 59/67] fix: the warm-up before autotuning times out by the
 clock it was given

---
 src/spine/controller/pid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 0d145bb..d5b79d1 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -27,11 +27,11 @@ PID::Tunings PID::autotune(const PID::TuneConfig& tune_config, std::function<voi
                            std::function<k_time_ms()> uptime, std::function<void(k_time_ms)> sleep) const {
     SPN_LOG("Starting autotune");
 
-    using spn::structure::time::AlarmTimer;
     const auto block_until_setpoint = [&](const float setpoint, k_time_ms timeout = k_time_ms(0),
                                           bool saturated = false) {
-        auto timer = AlarmTimer(timeout);
-        while (process_getter() < setpoint && (!timer.expired() || timeout == k_time_ms(0))) {
+        const auto start = uptime();
+        const auto expired = [&] { return timeout > k_time_ms(0) && uptime() - start >= timeout; };
+        while (process_getter() < setpoint && !expired()) {
             process_setter(_cfg.output_upper_limit);
             if (loop) loop();
             SPN_DBG("Waiting until temperature of %.2f C reaches %.2f C, saturating thermal capacitance",
@@ -41,7 +41,7 @@ PID::Tunings PID::autotune(const PID::TuneConfig& tune_config, std::function<voi
         process_setter(_cfg.output_lower_limit);
         if (loop) loop();
         if (saturated) return;
-        while (process_getter() > setpoint && (!timer.expired() || timeout == k_time_ms(0))) {
+        while (process_getter() > setpoint && !expired()) {
             SPN_DBG("Waiting until temperature of %.2f C reaches %.2f C, unloading thermal capacitance",
                     process_getter(), setpoint);
             sleep(k_time_ms(1000));
-- 
2.43.0


From 51215a1f39e616b9c67fbcc75770195d9c2b02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:06 +0000
Subject: [PATCH 60/67] fix: containers construct and move elements instead of
 zeroing and memmoving them

Elements that point into themselves, like strings, were left dangling whenever
the vector shifted them, and assigning to zeroed memory is not valid for them.
---
 src/spine/structure/array.hpp  | 13 +++++++++++
 src/spine/structure/vector.hpp | 41 ++++++++++++++++------------------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 9a75356..7c5beae 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <new>
 #include <type_traits>
 #include <utility>
 
@@ -110,6 +111,14 @@ public:
     void fill(const T& value);
 
 protected:
+    /// Let go of whatever the element at `index` holds on to
+    void vacate(Size index) {
+        if constexpr (std::is_default_constructible_v<T>)
+            m_store[index] = T{};
+        else
+            memset((char*)&m_store[index], '\0', sizeof(T));
+    }
+
     T* m_store;
     Size m_max_size;
 
@@ -134,6 +143,10 @@ template<typename T>
 Array<T>::Array(Size max_size)
     : m_store(static_cast<T*>(std::malloc(max_size * sizeof(T)))), m_max_size(max_size), m_store_is_internal(true) {
     memset((char*)m_store, '\0', m_max_size * sizeof(T));
+    if constexpr (std::is_default_constructible_v<T> && !std::is_trivially_default_constructible_v<T>) {
+        for (Size i = 0; i < m_max_size; ++i)
+            new (&m_store[i]) T{}; // zeroed memory is not a valid object of every type
+    }
 }
 
 template<typename T>
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index f64a1ba..faa2ac5 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -91,17 +91,19 @@ private:
     void rearrange(Size idx) {
         spn_assert(idx + size() < Array<T>::max_size());
 
-        // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-        memmove((char*)&this->m_store[idx], (char*)&this->m_store[m_head], size() * sizeof(T));
+        T* const store = this->m_store;
+        if (idx < m_head)
+            std::move(store + m_head, store + m_tail, store + idx);
+        else
+            std::move_backward(store + m_head, store + m_tail, store + idx + size());
         const auto new_tail = idx + size();
         const auto new_head = idx;
 
         // todo, optimize: only wipe elements that overlapped
-        // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-        memset((char*)&this->m_store[0], '\0', new_head * sizeof(T)); // wipe all elements before `new_head`
-        spn_assert(size() - new_tail < this->max_size());
-        memset((char*)&this->m_store[new_tail], '\0',
-               (this->max_size() - new_tail) * sizeof(T)); // wipe all elements after `new_tail`
+        for (Size i = 0; i < new_head; ++i)
+            this->vacate(i); // wipe all elements before `new_head`
+        for (Size i = new_tail; i < this->max_size(); ++i)
+            this->vacate(i); // wipe all elements after `new_tail`
 
         m_head = new_head;
         m_tail = new_tail;
@@ -219,10 +221,8 @@ void Vector<T>::push_front(const T& item) {
 
     const T copy = item; // `item` may be an element of this vector
     // todo: use `rearrange()`
-    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-    memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
-    memset((char*)&this->m_store[m_head], '\0',
-           sizeof(T)); // otherwise copy assignment below interacts with moved memory
+    T* const store = this->m_store;
+    std::move_backward(store + m_head, store + m_tail, store + m_tail + 1);
 
     this->m_store[m_head] = copy;
     m_tail++;
@@ -238,10 +238,8 @@ void Vector<T>::emplace_front(const T&& item) {
     }
 
     const T copy = item; // `item` may be an element of this vector
-    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-    memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
-    memset((char*)&this->m_store[m_head], '\0',
-           sizeof(T)); // otherwise copy assignment below interacts with moved memory
+    T* const store = this->m_store;
+    std::move_backward(store + m_head, store + m_tail, store + m_tail + 1);
     this->m_store[m_head] = copy;
     m_tail++;
 }
@@ -280,11 +278,9 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
 
-    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-    memmove((char*)&this->m_store[m_head + index + 1], (char*)&this->m_store[m_head + index],
-            (m_tail++ - (m_head + index)) * sizeof(T));
-    memset((char*)&this->m_store[m_head + index], '\0',
-           sizeof(T)); // otherwise copy assignment below interacts with moved memory
+    T* const store = this->m_store;
+    std::move_backward(store + m_head + index, store + m_tail, store + m_tail + 1);
+    ++m_tail;
     this->m_store[m_head + index] = copy;
 }
 
@@ -300,8 +296,9 @@ T Vector<T>::remove(ArrayBase::Size index) {
         const auto cur = m_head + index;
         auto removed = std::move(this->m_store[cur]);
         --m_tail;
-        memmove((char*)&this->m_store[cur], (char*)&this->m_store[cur + 1], (m_tail - cur) * sizeof(T));
-        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // the vacated slot no longer holds an element
+        T* const store = this->m_store;
+        std::move(store + cur + 1, store + m_tail + 1, store + cur);
+        this->vacate(m_tail); // the vacated slot no longer holds an element
         return removed;
     }
     spn_assert(!"remove was called with illegal index");
-- 
2.43.0


From 3a47b2cddff3a48d425560e81ebbf41a6e036533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:23 +0000
Subject: [PATCH 61/67] fix: timer: a lap ends where the next one begins

---
 src/spine/structure/time/timers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/timers.cpp b/src/spine/structure/time/timers.cpp
index 0a08ab6..b6364f9 100644
--- a/src/spine/structure/time/timers.cpp
+++ b/src/spine/structure/time/timers.cpp
@@ -5,8 +5,9 @@ namespace spn::structure::time {
 Timer::Timer(k_time_ms millis_epoch) : _last(millis_epoch) {}
 
 k_time_ms Timer::time_since_last(bool reset) {
-    k_time_ms time_expired = HAL::millis() - _last;
-    if (reset) this->reset();
+    const k_time_ms now = HAL::millis();
+    k_time_ms time_expired = now - _last;
+    if (reset) this->reset(now);
     return time_expired;
 }
 
-- 
2.43.0


From f120be14dca1ec84b421df364bfabe89667fd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:10 +0000
Subject: [PATCH 62/67] fix: pipeline: futures are ordered by their due time,
 not by two looks at the clock

---
 src/spine/eventsystem/pipeline.cpp | 2 +-
 src/spine/eventsystem/pipeline.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index a712f10..4bc8627 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -73,7 +73,7 @@ void Pipeline::push(std::shared_ptr<Future>&& future) {
 
     size_t i = 0;
     for (auto& other_future : _pipe) {
-        if (future->time_until_future() < other_future->time_until_future()) {
+        if (*future < *other_future) {
             [[maybe_unused]] auto last_size = _pipe.size();
             _pipe.insert(i, std::move(future));
             spn_assert(last_size + 1 == _pipe.size());
diff --git a/src/spine/eventsystem/pipeline.hpp b/src/spine/eventsystem/pipeline.hpp
index 83db01e..5186d48 100644
--- a/src/spine/eventsystem/pipeline.hpp
+++ b/src/spine/eventsystem/pipeline.hpp
@@ -18,8 +18,8 @@ class Future {
 public:
     Future(k_time_ms time_from_now = k_time_ms{0});
 
-    bool operator<(const Future& other) const { return _timer.time_from_now() < other._timer.time_from_now(); }
-    bool operator==(const Future& other) const { return _timer.time_from_now() == other._timer.time_from_now(); }
+    bool operator<(const Future& other) const { return _timer.future() < other._timer.future(); }
+    bool operator==(const Future& other) const { return _timer.future() == other._timer.future(); }
 
     /// Reschedule a future to happen at a different moment (this has no effect when the future is already in the
     /// pipeline)
-- 
2.43.0


From 112ea586a97e9ee29551c956b0982c161ba476af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 63/67] fix: pipeline: both passes over the text look at the
 same time

---
 src/spine/eventsystem/pipeline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 4bc8627..4a82cd3 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -13,6 +13,7 @@ void Future::reschedule(k_time_ms time_from_now) {
 }
 
 std::string Pipeline::to_string() const {
+    const auto now = HAL::millis(); // the same for both passes
     auto pipeline_repr = [&](std::string* s, bool length_only) -> size_t {
         size_t len = 0;
         auto put = [&](std::string_view i) {
@@ -24,7 +25,7 @@ std::string Pipeline::to_string() const {
         put("Pipeline: [");
         for (auto it = _pipe.begin(); it != _pipe.end(); ++it) {
             auto& future = *it;
-            put(utils::repr(future->time_until_future()));
+            put(utils::repr(future->future() - now));
             auto next = it;
             if (++next != _pipe.end()) put(", ");
         }
-- 
2.43.0


From b00dbb77386a91b4eda8a9dffa86c2a512550e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:00 +0000
Subject: [PATCH 64/67] fix: vector: what was popped is not kept in its slot,
 also when the caller does not take it

---
 src/spine/structure/pool.hpp   |  2 +-
 src/spine/structure/vector.hpp | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index b7106ab..1d2fe16 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -54,7 +54,7 @@ public:
     }
 
     /// Depopulate a single element from the pool.
-    [[nodiscard]] Pointer&& depopulate() {
+    [[nodiscard]] Pointer depopulate() {
         spn_assert(!_pointers.empty());
         return _pointers.pop_front();
     }
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index faa2ac5..b6467d1 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -42,10 +42,10 @@ public:
     void emplace_front(const T&& item);
 
     T& peek_back() const;
-    [[nodiscard]] T&& pop_back();
+    [[nodiscard]] T pop_back();
 
     T& peek_front() const;
-    [[nodiscard]] T&& pop_front();
+    [[nodiscard]] T pop_front();
 
     void insert(Size index, const T& item);
     T remove(Size index);
@@ -87,6 +87,13 @@ public:
     void swap(Vector& other) noexcept;
 
 private:
+    /// Move the element at `index` of the store out of it, such that the slot does not hold on to it
+    T take(Size index) {
+        T element = std::move(this->m_store[index]);
+        if constexpr (!std::is_trivially_destructible_v<T>) this->vacate(index);
+        return element;
+    }
+
     /// Rearrange memory such that after rearranging, the elements start at `idx`
     void rearrange(Size idx) {
         spn_assert(idx + size() < Array<T>::max_size());
@@ -197,7 +204,7 @@ T& Vector<T>::peek_back() const {
 }
 
 template<typename T>
-[[nodiscard]] T&& Vector<T>::pop_back() {
+[[nodiscard]] T Vector<T>::pop_back() {
     spn_assert(size() > 0);
     auto cur_tail = m_tail;
     if (m_tail > 0) {
@@ -207,7 +214,7 @@ template<typename T>
             m_head = 0;
         }
     }
-    return std::move(this->m_store[cur_tail]);
+    return take(cur_tail);
 }
 
 template<typename T>
@@ -251,14 +258,14 @@ T& Vector<T>::peek_front() const {
 }
 
 template<typename T>
-T&& Vector<T>::pop_front() {
+T Vector<T>::pop_front() {
     spn_assert(size() > 0);
     const auto cur_head = m_head++;
     if (m_tail == m_head) {
         m_tail = 0;
         m_head = 0;
     }
-    return std::move(this->m_store[cur_head]);
+    return take(cur_head);
 }
 
 template<typename T>
@@ -287,10 +294,10 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
     if (index == 0) {
-        return std::move(pop_front());
+        return pop_front();
     }
     if (index == size()) {
-        return std::move(pop_back());
+        return pop_back();
     }
     if (index < size()) {
         const auto cur = m_head + index;
-- 
2.43.0


From f803ab2630683b579164f26130cccc2545d47922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:00 +0000
Subject: [PATCH 65/67] fix: array: an emptied slot lets go of elements that
 cannot be made from nothing

---
 src/spine/structure/array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 7c5beae..d017efa 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -115,8 +115,10 @@ protected:
     void vacate(Size index) {
         if constexpr (std::is_default_constructible_v<T>)
             m_store[index] = T{};
-        else
+        else {
+            m_store[index].T::~T();
             memset((char*)&m_store[index], '\0', sizeof(T));
+        }
     }
 
     T* m_store;
-- 
2.43.0


From f477d1bf4e698e99f0bb8ffe124fc2ae89202b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:00 +0000
Subject: [PATCH 66/67] fix: ringbuffer: a popped slot lets go of elements that
 can only be copied

---
 src/spine/structure/ringbuffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 9aba489..0f7f098 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -126,7 +126,8 @@ template<typename T>
 bool RingBuffer<T>::pop(T& value) {
     if (empty()) return false;
 
-    value = std::move(m_buffer[m_tail]); // the slot must not keep the element alive
+    value = std::move(m_buffer[m_tail]);
+    release(0, 1); // the slot must not keep the element alive
     m_tail = (m_tail + 1) % m_buffer.size();
     m_is_full = false;
     m_overwritten = 0;
-- 
2.43.0


From d0a58c34d9416f23f1551d0224b27a3f697cc400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:00 +0000
Subject: [PATCH 67/67] fix: transaction: one that is assigned over lets go of
 its own line

---
 src/spine/io/stream/transaction.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spine/io/stream/transaction.hpp b/src/spine/io/stream/transaction.hpp
index 6c39eac..672f71e 100644
--- a/src/spine/io/stream/transaction.hpp
+++ b/src/spine/io/stream/transaction.hpp
@@ -20,6 +20,9 @@ public:
     Transaction& operator=(const Transaction& other) = delete;
     Transaction& operator=(Transaction&& other) noexcept {
         if (this == &other) return *this;
+        // the transaction that is replaced goes out of scope, unless `other` takes over its line
+        const auto takes_over = !other.is_finalized() && _stream == other._stream;
+        if (!is_finalized() && !takes_over) finalize();
         _stream = other._stream;
         other._stream = nullptr;
         _incoming_line = std::move(other._incoming_line);
-- 
2.43.0

