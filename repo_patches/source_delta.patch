From dcfdf6a228e6f321ed81198ada9c5631b6d79670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:18 +0000
Subject: [PATCH 01/43] fix: SmallVector::erase() of an empty range must not
 self-move elements

Erasing an empty range in front of existing elements self-move-assigned all
following elements, which leaves e.g. std::string elements empty.
---
 include/gul14/SmallVector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..9538caf 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -738,6 +738,9 @@ public:
         auto range_end = const_cast<Iterator>(last);
         auto num_elements = range_end - range_begin;
 
+        if (num_elements == 0) // avoid self-move-assignment of the following elements
+            return range_begin;
+
         std::move(range_end, end(), range_begin);
         destroy_range(end() - num_elements, end());
 
-- 
2.43.0


From cee5522054501613d382567bd019b4e71f589474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:56 +0000
Subject: [PATCH 02/43] fix: SmallVector must accept single-pass and
 non-random-access ranges

The range constructor, assign(), and insert() are documented to take any input
iterator, but they traversed the range twice (corrupting the contents for
single-pass iterators), and insert() used iterator + n.
---
 include/gul14/SmallVector.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 9538caf..02fe49b 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -853,6 +853,13 @@ public:
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     Iterator insert(ConstIterator pos, InputIterator first, InputIterator last)
     {
+        if (is_single_pass_iterator<InputIterator>())
+        {
+            SmallVector range(first, last);
+            return insert(pos, std::make_move_iterator(range.begin()),
+                          std::make_move_iterator(range.end()));
+        }
+
         const auto idx = static_cast<SizeType>(pos - begin());
         const auto num_elements = static_cast<SizeType>(std::distance(first, last));
         if (num_elements < 1)
@@ -865,7 +872,7 @@ public:
         std::copy_n(first, num_assignable, insert_pos);
 
         // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+        copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
 
         size_ += num_elements;
 
@@ -1325,6 +1332,13 @@ private:
     template<typename InputIterator>
     void fill_empty_vector_with_copied_range(InputIterator first, InputIterator last)
     {
+        if (is_single_pass_iterator<InputIterator>())
+        {
+            for (; first != last; ++first)
+                emplace_back(*first);
+            return;
+        }
+
         const auto num_elements = static_cast<SizeType>(std::distance(first, last));
 
         reserve(num_elements);
@@ -1429,6 +1443,15 @@ private:
         return insert_pos;
     }
 
+    /// Determine if an iterator type allows only a single pass over its range (i.e. if it
+    /// is just an input iterator).
+    template <typename InputIterator>
+    static constexpr bool is_single_pass_iterator()
+    {
+        return not std::is_base_of<std::forward_iterator_tag,
+            typename std::iterator_traits<InputIterator>::iterator_category>::value;
+    }
+
     /// Determine if this vector is using allocated external storage.
     bool is_storage_allocated() const noexcept
     {
-- 
2.43.0


From 25f2e9874983360b59a47e941e8b1267cad19827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 03/43] fix: SmallVector must handle arguments that refer to
 its own elements

push_back(), emplace_back(), insert(), emplace(), and resize() read their argument
after the existing elements had been relocated or shifted (use after free or wrong
value), unlike std::vector whose interface they mimic.
---
 include/gul14/SmallVector.h | 72 ++++++++++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 02fe49b..bd648c0 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -672,7 +672,10 @@ public:
     Reference emplace_back(ArgumentTypes&&... arguments)
     {
         if (size_ == capacity_)
-            grow();
+        {
+            grow_and_emplace_back(std::forward<ArgumentTypes>(arguments)...);
+            return back();
+        }
 
         ::new(static_cast<void*>(data_end()))
             ValueType(std::forward<ArgumentTypes>(arguments)...);
@@ -816,14 +819,16 @@ public:
         if (num_elements < 1)
             return begin() + idx;
 
+        const ValueType v(value); // value might be an element of this vector
+
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
         // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        std::fill_n(insert_pos, num_assignable, v);
 
         // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
 
         size_ += num_elements;
 
@@ -1025,7 +1030,7 @@ public:
     void push_back(const ValueType& value)
     {
         if (size_ == capacity_)
-            grow();
+            return grow_and_emplace_back(value);
 
         ::new(static_cast<void*>(data_end())) ValueType(value);
 
@@ -1043,7 +1048,7 @@ public:
     void push_back(ValueType&& value)
     {
         if (size_ == capacity_)
-            grow();
+            return grow_and_emplace_back(std::move(value));
 
         ::new(static_cast<void*>(data_end())) ValueType(std::move(value));
 
@@ -1151,8 +1156,9 @@ public:
         }
         else if (num_elements > size_)
         {
+            const ValueType v(element); // element might be an element of this vector
             reserve(num_elements);
-            copy_value_into_uninitialized_cells(size_, num_elements - size_, element);
+            copy_value_into_uninitialized_cells(size_, num_elements - size_, v);
         }
 
         size_ = num_elements;
@@ -1398,6 +1404,17 @@ private:
      *            reached and cannot be increased.
      */
     void grow()
+    {
+        reserve(get_grown_capacity());
+    }
+
+    /**
+     * Return the capacity that the vector should have after growing.
+     *
+     * \exception std::length_error is thrown if the maximum capacity of the container is
+     *            reached and cannot be increased.
+     */
+    SizeType get_grown_capacity() const
     {
         const auto remaining_space = std::numeric_limits<SizeType>::max() - capacity_;
 
@@ -1410,7 +1427,44 @@ private:
         else if (increase == 0u)
             increase = 1u;
 
-        reserve(capacity_ + increase);
+        return capacity_ + increase;
+    }
+
+    /**
+     * Increase the capacity of the vector and construct a new element at the end.
+     *
+     * The new element is constructed before the existing ones are relocated because the
+     * arguments might refer to an element of this vector.
+     */
+    template <typename... ArgumentTypes>
+    void grow_and_emplace_back(ArgumentTypes&&... arguments)
+    {
+        const auto new_capacity = get_grown_capacity();
+        auto new_data = std::make_unique<AlignedStorage[]>(new_capacity);
+
+        const auto new_element = ::new(static_cast<void*>(new_data.get() + size_))
+            ValueType(std::forward<ArgumentTypes>(arguments)...);
+
+        const auto d_end = data_end();
+
+        try
+        {
+            uninitialized_move_or_copy(data(), d_end, reinterpret_cast<ValueType*>(new_data.get()));
+        }
+        catch (...)
+        {
+            new_element->~ValueType();
+            throw;
+        }
+
+        destroy_range(data(), d_end);
+
+        if (is_storage_allocated())
+            delete[] data_ptr_;
+
+        data_ptr_ = new_data.release();
+        capacity_ = new_capacity;
+        ++size_;
     }
 
     /// Insert a single value before the given position.
@@ -1425,6 +1479,8 @@ private:
 
         const auto idx = static_cast<SizeType>(pos - begin());
 
+        ValueType v(std::forward<T>(value)); // value might be an element of this vector
+
         if (size_ == capacity_)
             grow();
 
@@ -1438,7 +1494,7 @@ private:
         std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
-        *insert_pos = std::forward<T>(value);
+        *insert_pos = std::move(v);
 
         return insert_pos;
     }
-- 
2.43.0


From bade613078186164f98979a974729ce806f76512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:26 +0000
Subject: [PATCH 04/43] fix: SmallVector must not leak elements or storage when
 an element operation throws

The filling constructors leaked the heap storage and the elements constructed so
far, and resize(), assign(), and insert() leaked elements.
---
 include/gul14/SmallVector.h | 73 +++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 16 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index bd648c0..187732c 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -323,13 +323,13 @@ public:
      * \param num_elements  The number of initial elements
      */
     explicit SmallVector(SizeType num_elements)
+        : SmallVector()
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
         reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
+        fill_uninitialized_cells_with_default_constructed_elements(0u, num_elements);
         size_ = num_elements;
     }
 
@@ -341,6 +341,7 @@ public:
      * \param value         The value to be copied to the initial elements
      */
     SmallVector(SizeType num_elements, const ValueType& value)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -364,6 +365,7 @@ public:
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     SmallVector(InputIterator first, InputIterator last)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +380,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector()
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -413,6 +416,7 @@ public:
      *          list exceeds max_size().
      */
     SmallVector(std::initializer_list<ValueType> init)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
@@ -824,11 +828,19 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, v);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::fill_n(insert_pos, num_assignable, v);
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
+            // Copy the remaining values into uninitialized cells
+            copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
+        }
+        catch (...)
+        {
+            destroy_range(end() + num_elements - num_assignable, end() + num_elements);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -873,11 +885,19 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::copy_n(first, num_assignable, insert_pos);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
+            // Copy the remaining values into uninitialized cells
+            copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
+        }
+        catch (...)
+        {
+            destroy_range(end() + num_elements - num_assignable, end() + num_elements);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1282,6 +1302,10 @@ private:
 
     /**
      * Fill a range of uninitialized cells with copies of the given element.
+     *
+     * If the element copy constructor throws an exception, all elements copied until this
+     * point are destroyed.
+     *
      * \param pos           The index of the first cell to be filled.
      * \param num_elements  The number of cells to be filled.
      * \param value         The value to be copied into the range.
@@ -1291,8 +1315,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto p = start_ptr;
+
+        try
+        {
+            for (; p != end_ptr; ++p)
+                ::new(static_cast<void*>(p)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, p);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
@@ -1491,8 +1525,8 @@ private:
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
 
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
 
         *insert_pos = std::move(v);
 
@@ -1543,11 +1577,18 @@ private:
         // Move-initialize elements in uninitialized space at the back of the container
         const auto from_ptr = data_ptr + size_ - num_move_initialized;
         const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+        uninitialized_move(from_ptr, from_ptr + num_move_initialized, to_ptr);
 
         // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        try
+        {
+            std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        }
+        catch (...)
+        {
+            destroy_range(to_ptr, to_ptr + num_move_initialized);
+            throw;
+        }
 
         return num_move_initialized;
     }
-- 
2.43.0


From 735eb7b89c249a2a900c93583c63554e6785acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:02 +0000
Subject: [PATCH 05/43] fix: SlidingBuffer const iterators must report const
 reference and pointer types

---
 include/gul14/SlidingBuffer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index ab9c2a9..e8eac40 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -657,9 +657,13 @@ public:
         /// Distance between iterators is represented as this type.
         using difference_type = std::ptrdiff_t;
         /// This type represents a pointer-to-value_type.
-        using pointer = value_type*;
+        using pointer = typename std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            typename Container::const_pointer, typename Container::pointer>;
         /// This type represents a reference-to-value_type.
-        using reference = value_type&;
+        using reference = typename std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            typename Container::const_reference, typename Container::reference>;
 
         /**
          * Create an iterator pointing into a SlidingBuffer.
-- 
2.43.0


From 41ec0b71c7c4a9583a90f8163f9a68baa2161c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:18 +0000
Subject: [PATCH 06/43] fix: SlidingBufferExposed::end() must not reach beyond
 the occupied elements after pop_front()

---
 include/gul14/SlidingBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index e8eac40..2d9d59a 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -1169,7 +1169,7 @@ public:
      */
     auto end() noexcept -> iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.end();
 
         return storage_.begin() + idx_end_;
@@ -1189,7 +1189,7 @@ public:
      */
     auto cend() const noexcept -> const_iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.cend();
 
         return storage_.cbegin() + idx_end_;
-- 
2.43.0


From bb72d8b31b0239ec063a143a9a3dc1eff3b8785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:14 +0000
Subject: [PATCH 07/43] fix: TaskHandle::cancel() must have no effect on a task
 that has already started

---
 include/gul14/ThreadPool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 4b8819b..d8dc79c 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -172,8 +172,11 @@ public:
          */
         bool cancel()
         {
+            if (not detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_))
+                return false;
+
             future_ = {};
-            return detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            return true;
         }
 
         /**
-- 
2.43.0


From 21530eaef66effd151d93fe4d31c05b68131f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:33 +0000
Subject: [PATCH 08/43] fix: TaskHandle must not report canceled tasks as
 complete or finished ones as canceled

---
 include/gul14/ThreadPool.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index d8dc79c..1485edc 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -25,6 +25,7 @@
 #ifndef GUL14_THREADPOOL_H_
 #define GUL14_THREADPOOL_H_
 
+#include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
@@ -152,11 +153,14 @@ public:
          *                task
          * \param pool    A shared pointer to the ThreadPool that the task is associated
          *                with
+         * \param started A flag that is set as soon as the task gets started
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool)
+        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+                   std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , id_{ id }
             , pool_{ std::move(pool) }
+            , started_{ std::move(started) }
         {}
 
         /**
@@ -206,9 +210,15 @@ public:
          */
         bool is_complete() const
         {
-            if (not future_.valid())
+            // The future of a task that was removed from the queue becomes ready as well
+            // (broken promise), so we must ask if the task has ever been started.
+            if (not started_ or not *started_)
                 return false;
 
+            // The result has already been retrieved
+            if (not future_.valid())
+                return true;
+
             return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
         }
 
@@ -242,6 +252,7 @@ public:
         std::future<T> future_;
         TaskId id_{ 0 };
         std::weak_ptr<ThreadPool> pool_;
+        std::shared_ptr<const std::atomic<bool>> started_;
     };
 
 
@@ -328,7 +339,8 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this() };
+                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
                     next_task_id_, std::move(named_task_ptr), start_time);
@@ -485,9 +497,15 @@ private:
         , fct_{ std::move(fct) }
         {}
 
-        void operator()(ThreadPool& pool) override { fct_(pool); }
+        void operator()(ThreadPool& pool) override
+        {
+            *started_ = true;
+            fct_(pool);
+        }
 
         FunctionType fct_;
+        std::shared_ptr<std::atomic<bool>> started_{
+            std::make_shared<std::atomic<bool>>(false) };
     };
 
     struct Task
-- 
2.43.0


From 6758fab2ac0b8ba42f0b9a1b50c6b9042718d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 09/43] fix: ThreadPool must not leave a delayed task waiting
 while a thread is idle

---
 src/ThreadPool.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index b125758..f9f0fa9 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -239,8 +239,15 @@ void ThreadPool::perform_work()
         running_task_ids_.push_back(id);
         running_task_names_.push_back(name);
 
+        // If other tasks are pending, another thread must look after them because this one
+        // may have been the only one that was waiting for their start time.
+        const bool tasks_left = !pending_tasks_.empty();
+
         lock.unlock();
 
+        if (tasks_left)
+            cv_.notify_one();
+
         try
         {
             (*named_task_ptr)(*this);
-- 
2.43.0


From 09131195e8b24cf407ba8f448f354bfa5fa29554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 10/43] fix: escape() must also escape the non-printable
 character DEL (127)

---
 src/escape.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/escape.cc b/src/escape.cc
index d9c45c7..ce28485 100644
--- a/src/escape.cc
+++ b/src/escape.cc
@@ -60,10 +60,11 @@ std::string escape(string_view in)
                 escaped += "\\t";
                 break;
             default:
-                if (c < 32)
+                if (c < 32 || c == 127)
                 {
-                    // This applies also to all non-ASCII characters (>127) because they
-                    // are mapped to negative values
+                    // This applies to control characters (including DEL), but also to all
+                    // non-ASCII characters (>127) because they are mapped to negative
+                    // values
                     escaped += "\\x";
                     escaped += hex_string(c);
                 }
-- 
2.43.0


From e793f9af2bbdf65e0c9f343d0c8941ea722d175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 11/43] fix: string_view::compare(pos, n, x) must throw
 std::out_of_range instead of terminating

---
 include/gul14/string_view.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 3f070a4..e82a8b7 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -224,8 +224,7 @@ public:
         return cmp != 0 ? cmp : (len_ == x.len_ ? 0 : len_ < x.len_ ? -1 : 1);
     }
 
-    constexpr int compare(size_type pos1, size_type n1, basic_string_view x)
-    const noexcept {
+    constexpr int compare(size_type pos1, size_type n1, basic_string_view x) const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From 6fc3fb91acf74109b6be0ec68150fe4c6b17bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:37 +0000
Subject: [PATCH 12/43] fix: string_view::substr() must limit the length also
 for counts close to npos

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index e82a8b7..5c2f09c 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -214,7 +214,7 @@ public:
     constexpr basic_string_view substr(size_type pos, size_type n=npos) const {
         if ( pos > size())
             throw std::out_of_range ( "string_view::substr" );
-        if (n == npos || pos + n > size())
+        if (n > size() - pos)
             n = size () - pos;
         return basic_string_view(data() + pos, n);
     }
-- 
2.43.0


From 49d4bc248f19f2919b57861135ca6c887461b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:23 +0000
Subject: [PATCH 13/43] fix: to_number() must not overflow when digits shift an
 extreme exponent

---
 include/gul14/to_number.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index e8bdb15..934c133 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -304,7 +304,7 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (inf_nan.result_valid)
         return inf_nan.result;
 
-    int exponent = 0;
+    long long exponent = 0;
     auto e_pos = str.find_first_of("eE");
     if (e_pos != gul14::string_view::npos)
     {
@@ -351,9 +351,9 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
 
         str_before_point = str_after_point.substr(0, 1);
         str_after_point.remove_prefix(1);
-        exponent -= static_cast<int>(old_digits - str_after_point.length());
+        exponent -= static_cast<long long>(old_digits - str_after_point.length());
     } else {
-        exponent += static_cast<int>(str_before_point.length() - 1);
+        exponent += static_cast<long long>(str_before_point.length() - 1);
     }
 
     // Now the incoming number string is like this:
@@ -370,7 +370,15 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (not norm_val.has_value())
         return nullopt;
 
-    return detail::pow10(exponent) * *norm_val;
+    // The corrected exponent may exceed the range of int. The result is zero or infinity
+    // long before that point, so it can be limited safely.
+    constexpr long long max_exponent = std::numeric_limits<int>::max();
+    if (exponent > max_exponent)
+        exponent = max_exponent;
+    else if (exponent < -max_exponent)
+        exponent = -max_exponent;
+
+    return detail::pow10(static_cast<int>(exponent)) * *norm_val;
 }
 
 /**
-- 
2.43.0


From 1326ae7683bdc73e8ca5044b8240a953014a8649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 14/43] fix: to_number() must not ignore invalid characters
 after many significant digits

---
 include/gul14/to_number.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index 934c133..b2c2e56 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -181,6 +181,19 @@ constexpr inline gul14::optional<NumberType> to_normalized_float(gul14::string_v
             >= std::numeric_limits<NumberType>::digits10,
             "FloatConversionIntType is too small for NumberType");
 
+    // Digits beyond the precision of the conversion type are dropped below without being
+    // converted, but they must still be digits.
+    for (char c : i1)
+    {
+        if (!is_digit(c))
+            return nullopt;
+    }
+    for (char c : i2)
+    {
+        if (!is_digit(c))
+            return nullopt;
+    }
+
     i1 = i1.substr(0, std::min(i1.length(),
                 size_t(std::numeric_limits<FloatConversionIntType<NumberType>>::digits10)));
     i2 = i2.substr(0, std::min(i2.length(),
-- 
2.43.0


From 4c13d931edfde9fb6ca960355f006ce957869959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:08 +0000
Subject: [PATCH 15/43] fix: copies of ConvertingStringView must not refer to
 the string of the original

---
 include/gul14/cat.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/gul14/cat.h b/include/gul14/cat.h
index 49702a4..a1a818c 100644
--- a/include/gul14/cat.h
+++ b/include/gul14/cat.h
@@ -62,6 +62,19 @@ public:
     ConvertingStringView(float a) : str_(std::to_string(a)), sv_(str_) {} ///< Construct a ConvertingStringView from a float.
     ConvertingStringView(double a) : str_(std::to_string(a)), sv_(str_) {} ///< Construct a ConvertingStringView from a double.
 
+    /// Copy constructor: A converted value is copied, a string-like argument is still only referenced.
+    ConvertingStringView(const ConvertingStringView& other)
+        : str_(other.str_), sv_(other.owns_string() ? string_view(str_) : other.sv_) {}
+
+    /// Copy assignment: A converted value is copied, a string-like argument is still only referenced.
+    ConvertingStringView& operator=(const ConvertingStringView& other)
+    {
+        const bool owns_string = other.owns_string();
+        str_ = other.str_;
+        sv_ = owns_string ? string_view(str_) : other.sv_;
+        return *this;
+    }
+
     /**
      * Return a pointer to the internal character buffer. The contained string is usually
      * not null-terminated.
@@ -80,6 +93,9 @@ public:
 private:
     std::string str_;
     string_view sv_;
+
+    /// Determine whether the view refers to our own string (i.e. to a converted value).
+    bool owns_string() const noexcept { return !str_.empty(); }
 };
 
 /**
-- 
2.43.0


From 4a5376c85638773b997afd33961a772fddb19f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:05 +0000
Subject: [PATCH 16/43] fix: remove_outliers() must be callable with iterators

---
 include/gul14/statistics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gul14/statistics.h b/include/gul14/statistics.h
index 23a5d3f..d0aea4d 100644
--- a/include/gul14/statistics.h
+++ b/include/gul14/statistics.h
@@ -789,7 +789,8 @@ template <typename IteratorT,
 auto remove_outliers(IteratorT const& begin, IteratorT const& end,
         std::size_t outliers, Accessor accessor = ElementAccessor<ElementT>()) -> std::vector<ElementT>
 {
-    return remove_outliers(make_view(begin, end), outliers, accessor);
+    auto const view = make_view(begin, end); // an lvalue selects the copying overload
+    return remove_outliers(view, outliers, accessor);
 }
 
 /**
-- 
2.43.0


From f3ca9aed87fd5987d9c9d2c5d3e4619d5ac10ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:14 +0000
Subject: [PATCH 17/43] fix: clamp() must return the value itself unless it is
 outside of the range

---
 include/gul14/num_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 63ddadf..9e4b247 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -206,7 +206,7 @@ bool within_ulp(NumT a, NumT b, unsigned int ulp)
  */
 template<class NumT>
 constexpr const NumT& clamp(const NumT& v, const NumT& lo, const NumT& hi) {
-    return std::max(lo, std::min(v, hi)); // usually more optimized than actually using operator<()
+    return std::max(std::min(v, hi), lo); // usually more optimized than actually using operator<()
 }
 /**
  * \overload
-- 
2.43.0


From 43e394363767923082a02461b6b31e3af1be4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:16 +0000
Subject: [PATCH 18/43] fix: within_orders() and within_abs() must not wrap
 around for integers

---
 include/gul14/num_util.h | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 9e4b247..6fad94f 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -64,6 +64,27 @@ constexpr auto abs(ValueT n) noexcept -> std::enable_if_t<not std::is_unsigned<V
     return std::abs(n);
 }
 
+namespace detail {
+
+// Absolute difference of two numbers (signed integers: exact, in the unsigned type)
+template <typename NumT,
+    std::enable_if_t<std::is_integral<NumT>::value and std::is_signed<NumT>::value, bool> = true>
+constexpr std::make_unsigned_t<NumT> abs_difference(NumT a, NumT b) noexcept
+{
+    using UnsignedT = std::make_unsigned_t<NumT>;
+    return static_cast<UnsignedT>((a > b) ? static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)
+                                          : static_cast<UnsignedT>(b) - static_cast<UnsignedT>(a));
+}
+
+template <typename NumT,
+    std::enable_if_t<not (std::is_integral<NumT>::value and std::is_signed<NumT>::value), bool> = true>
+constexpr NumT abs_difference(NumT a, NumT b) noexcept
+{
+    return static_cast<NumT>((a > b) ? a - b : b - a);
+}
+
+} // namespace detail
+
 /**
  * Determine if two numbers are almost equal, comparing only some significant digits.
  *
@@ -96,10 +117,10 @@ template<typename NumT, typename OrderT,
     >>
 bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(false) {
     // std::pow() is not noexcept, which might or might not be true
-    auto difference = gul14::abs(a - b);
-    if (difference == NumT{ 0 })
+    if (a == b)
         return true;
-    auto maximum = std::max(gul14::abs(a), gul14::abs(b));
+    auto difference = detail::abs_difference(a, b);
+    auto maximum = std::max(detail::abs_difference(a, NumT{ 0 }), detail::abs_difference(b, NumT{ 0 }));
     auto limit = maximum / std::pow(static_cast<std::decay_t<NumT>>(10.0), orders);
     return difference < limit;
 }
@@ -117,20 +138,12 @@ bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(fal
  */
 template<typename NumT>
 bool within_abs(NumT a, NumT b, NumT tol) noexcept {
+    if (std::is_integral<NumT>::value) // exact, without overflow
+        return detail::abs_difference(a, b) <= detail::abs_difference(tol, NumT{ 0 });
+
     tol = gul14::abs(tol); // Negative diff does not make sense
-    bool ret{};
-    if (a > b) {
-        if (std::is_floating_point<NumT>::value)
-            ret = a - tol <= b; // different formula needed because of inf/-inf and subnormal values
-        else
-            ret = a - b <= tol;
-    } else {
-        if (std::is_floating_point<NumT>::value)
-            ret = b - tol <= a;
-        else
-            ret = b - a <= tol;
-    }
-    return ret;
+    // formulas that work with inf/-inf and subnormal values
+    return (a > b) ? (a - tol <= b) : (b - tol <= a);
 }
 
 /**
-- 
2.43.0


From 18950eb6d7e648838e6bd639542f56f6b9e28f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:40 +0000
Subject: [PATCH 19/43] fix: gcd() must return a positive number also for the
 lowest signed integer

---
 include/gul14/gcd_lcm.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/gul14/gcd_lcm.h b/include/gul14/gcd_lcm.h
index 36f5438..72a7f62 100644
--- a/include/gul14/gcd_lcm.h
+++ b/include/gul14/gcd_lcm.h
@@ -78,17 +78,18 @@ gcd(IntTypeA a, IntTypeB b)
 
     using CommonType = std::common_type_t<IntTypeA, IntTypeB>;
 
-    auto c = gul14::abs(static_cast<CommonType>(a));
-    auto d = gul14::abs(static_cast<CommonType>(b));
+    // The absolute value of the lowest signed number only fits into the unsigned type
+    auto c = detail::abs_difference(static_cast<CommonType>(a), CommonType{ 0 });
+    auto d = detail::abs_difference(static_cast<CommonType>(b), CommonType{ 0 });
 
     while (d != 0)
     {
-        CommonType tmp = d;
+        auto tmp = d;
         d = c % d;
         c = tmp;
     }
 
-    return c;
+    return static_cast<CommonType>(c);
 }
 
 /**
-- 
2.43.0


From bc7755d0e57229efc540b7c30b6f297b7a8d1894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 20/43] fix: operator!= of expected<void, E> for two errors

---
 include/gul14/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 91354be..8f406c8 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -2171,7 +2171,7 @@ constexpr bool operator!=(const expected<void, E> &lhs,
                           const expected<void, F> &rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From f25d1e8d25c3ee08d02e8a8c02ef64e11f1bd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 21/43] fix: expected: Converting constructors leaked a
 default-constructed value

---
 include/gul14/expected.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 8f406c8..cb5771e 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1492,7 +1492,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   explicit constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1507,7 +1508,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1521,7 +1523,8 @@ public:
                             std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   explicit constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1535,7 +1538,8 @@ public:
                            std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From ba03f5c9ca39c9806361ee48279a8341542120e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 22/43] fix: expected: Restore the previous content after an
 exception by constructing it

---
 include/gul14/expected.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index cb5771e..c121ccf 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1609,7 +1609,7 @@ public:
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1678,7 +1678,7 @@ public:
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1718,7 +1718,7 @@ public:
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1781,7 +1781,7 @@ private:
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1804,7 +1804,7 @@ private:
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 475431b8e4f081d769e4c39df654db3827fca5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 23/43] fix: expected: Exceptions from assigning a value
 terminated the program

---
 include/gul14/expected.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index c121ccf..f383502 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -646,7 +646,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>
                 * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
+  void assign(const expected_operations_base &rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(rhs.get());
@@ -661,7 +661,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
             detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
                                 std::is_nothrow_move_constructible<U>::value>
                 * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
+  void assign(const expected_operations_base &rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       T tmp = rhs.get();
       geterr().~unexpected<E>();
@@ -687,9 +687,10 @@ struct expected_operations_base : expected_storage_base<T, E> {
 
 #ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(rhs.get());
+        new (std::addressof(this->m_val)) T(rhs.get());
+        this->m_has_val = true;
       } catch (...) {
-        geterr() = std::move(tmp);
+        new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -704,7 +705,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>
                 * = nullptr>
-  void assign(expected_operations_base &&rhs) noexcept {
+  void assign(expected_operations_base &&rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(std::move(rhs).get());
@@ -722,9 +723,10 @@ struct expected_operations_base : expected_storage_base<T, E> {
       geterr().~unexpected<E>();
 #ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(std::move(rhs).get());
+        new (std::addressof(this->m_val)) T(std::move(rhs).get());
+        this->m_has_val = true;
       } catch (...) {
-        geterr() = std::move(tmp);
+        new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -815,7 +817,7 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
     this->m_has_val = false;
   }
 
-  template <class Rhs> void assign(Rhs &&rhs) noexcept {
+  template <class Rhs> void assign(Rhs &&rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
-- 
2.43.0


From f5eb0705c98da518e3d0028f08552e752b7c440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 24/43] fix: expected: emplace() over a value destroyed it
 twice if the constructor threw

---
 include/gul14/expected.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index f383502..0dadb4d 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1669,8 +1669,8 @@ public:
                                T, Args &&...>::value> * = nullptr>
   void emplace(Args &&...args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      replace_value(std::is_nothrow_move_constructible<T>{},
+                    std::forward<Args>(args)...);
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
@@ -1731,6 +1731,20 @@ public:
   }
 
 private:
+  // Replace the value, retaining it if the constructor of the new one throws
+  template <class... Args>
+  void replace_value(std::true_type /*T is nothrow movable*/, Args &&...args) {
+    T tmp(std::forward<Args>(args)...);
+    val().~T();
+    ::new (valptr()) T(std::move(tmp));
+  }
+
+  template <class... Args>
+  void replace_value(std::false_type /*T is nothrow movable*/, Args &&...args) {
+    val().~T();
+    ::new (valptr()) T(std::forward<Args>(args)...);
+  }
+
   using t_is_void = std::true_type;
   using t_is_not_void = std::false_type;
   using t_is_nothrow_move_constructible = std::true_type;
-- 
2.43.0


From fc7abebc05a1205d2bd43ffcc0155e80ce204fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:05 +0000
Subject: [PATCH 25/43] fix: finally() must copy an lvalue instead of moving
 from it

---
 include/gul14/finalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/finalizer.h b/include/gul14/finalizer.h
index 54df935..33fceb4 100644
--- a/include/gul14/finalizer.h
+++ b/include/gul14/finalizer.h
@@ -167,7 +167,7 @@ public:
  */
 template <typename F>
 FinalAction<typename std::decay_t<F>> finally(F&& f) noexcept {
-    return FinalAction<typename std::decay_t<F>>(std::forward<typename std::decay_t<F>>(f));
+    return FinalAction<typename std::decay_t<F>>(std::forward<F>(f));
 }
 
 /// @}
-- 
2.43.0


From 913e24d6de0fed5cf28610f2adbf600bd232599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 26/43] fix: make gul14::date::parse() usable

parse_manip named basic_string_view<CharT, std::char_traits<CharT>>, which cannot be
instantiated, so every call to parse() failed to compile.
---
 include/gul14/date.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 31f4757..29b7be8 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7639,10 +7639,10 @@ public:
         , offset_(offset)
         {}
 
-    parse_manip(gul14::basic_string_view<CharT, Traits> format, Parsable& tp,
+    parse_manip(gul14::basic_string_view<CharT> format, Parsable& tp,
                 std::basic_string<CharT, Traits, Alloc>* abbrev = nullptr,
                 std::chrono::minutes* offset = nullptr)
-        : format_(format)
+        : format_(format.data(), format.size())
         , tp_(tp)
         , abbrev_(abbrev)
         , offset_(offset)
-- 
2.43.0


From 2790518e572ba73506aff7d93c16e2cbc0b211ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 27/43] fix: parse PM with %p

std::time_get leaves tm_hour alone when %p comes without %I, so PM was taken for AM.
---
 include/gul14/date.h | 54 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 29b7be8..9c2626f 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -5963,6 +5963,48 @@ read_long_double(std::basic_istream<CharT, Traits>& is, unsigned m = 1, unsigned
     return static_cast<long double>(i) + static_cast<long double>(f)/std::pow(10.L, fcount);
 }
 
+#if !ONLY_C_LOCALE
+
+// Read one of the two AM/PM designations of the stream's locale (ignoring the case).
+// Returns 0 for AM, 1 for PM, or -1 if there is no match.
+template <class CharT, class Traits>
+int
+read_ampm(std::basic_istream<CharT, Traits>& is)
+{
+    const std::locale loc = is.getloc();
+    auto& ct = std::use_facet<std::ctype<CharT>>(loc);
+    std::basic_string<CharT> names[2];
+    for (int i = 0; i < 2; ++i)
+    {
+        std::basic_ostringstream<CharT> os;
+        std::tm tm{};
+        tm.tm_hour = 1 + 12*i;
+        std::use_facet<std::time_put<CharT>>(loc).put(os, os, os.fill(), &tm, 'p');
+        names[i] = os.str();
+    }
+    bool might_match[2] = {true, true};
+    for (std::size_t n = 0; is.good(); ++n)
+    {
+        auto ic = is.peek();
+        if (Traits::eq_int_type(ic, Traits::eof()))
+            break;
+        auto c = ct.toupper(Traits::to_char_type(ic));
+        for (int i = 0; i < 2; ++i)
+            might_match[i] = might_match[i] && n < names[i].size() &&
+                             ct.toupper(names[i][n]) == c;
+        if (!might_match[0] && !might_match[1])
+            break;
+        (void)is.get();
+        for (int i = 0; i < 2; ++i)
+            if (might_match[i] && n + 1 == names[i].size())
+                return i;
+    }
+    is.setstate(std::ios::failbit);
+    return -1;
+}
+
+#endif  // !ONLY_C_LOCALE
+
 struct rs
 {
     int& i;
@@ -6713,17 +6755,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     {
                         int tp = not_a_ampm;
 #if !ONLY_C_LOCALE
-                        tm = std::tm{};
-                        tm.tm_hour = 1;
-                        ios::iostate err = ios::goodbit;
-                        f.get(is, nullptr, is, err, &tm, command, fmt+1);
-                        is.setstate(err);
-                        if (tm.tm_hour == 1)
-                            tp = 0;
-                        else if (tm.tm_hour == 13)
-                            tp = 1;
-                        else
-                            is.setstate(err);
+                        tp = detail::read_ampm(is);
 #else
                         auto nm = detail::ampm_names();
                         auto i = detail::scan_keyword(is, nm.first, nm.second) - nm.first;
-- 
2.43.0


From 39370197f59c0ea68060a5b37645ccb82b88bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 28/43] fix: accept PM hours when %H and %I are parsed together

---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 9c2626f..67590e8 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7431,7 +7431,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             if (H != 0 && H != 12)
                                 goto broken;
                         }
-                        else if (!(I == H || I == H+12))
+                        else if (!(I == H || I+12 == H))
                         {
                             goto broken;
                         }
-- 
2.43.0


From b82a106993efb360342271743564edf84d832f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 29/43] fix: format negative years with %F and %D like %Y-%m-%d
 and %m/%d/%y

---
 include/gul14/date.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 67590e8..1bd272f 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -4839,7 +4839,7 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                     os.width(2);
                     os << static_cast<unsigned>(ymd.day()) << CharT{'/'};
                     os.width(2);
-                    os << static_cast<int>(ymd.year()) % 100;
+                    os << std::abs(static_cast<int>(ymd.year())) % 100;
                 }
                 else
                 {
@@ -4863,8 +4863,7 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                     os.imbue(std::locale::classic());
                     os.fill('0');
                     os.flags(std::ios::dec | std::ios::right);
-                    os.width(4);
-                    os << static_cast<int>(ymd.year()) << CharT{'-'};
+                    os << ymd.year() << CharT{'-'};
                     os.width(2);
                     os << static_cast<unsigned>(ymd.month()) << CharT{'-'};
                     os.width(2);
-- 
2.43.0


From 2cb3f8a6ea13baca029c9411452fda985d146aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 30/43] fix: keep the sign of a negative duration formatted
 with %R

---
 include/gul14/date.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 1bd272f..7a10d54 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -5176,6 +5176,11 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                 {
                     if (!fds.has_tod)
                         os.setstate(std::ios::failbit);
+                    if (insert_negative)
+                    {
+                        os << '-';
+                        insert_negative = false;
+                    }
                     if (fds.tod.hours() < hours{10})
                         os << CharT{'0'};
                     os << fds.tod.hours().count() << CharT{':'};
-- 
2.43.0


From b0aa91449c0ec03741da977285099051f3675329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 31/43] fix: reject days of the year and ISO weeks that do not
 exist when parsing

A %j outside of the year and a %V outside of the ISO year silently named a date in a
different year, and an ISO year outside of the range of the year type wrapped around.
---
 include/gul14/date.h | 67 +++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 7a10d54..3725b5e 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7289,9 +7289,10 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             }
             if (Y < static_cast<int>(year::min()) || Y > static_cast<int>(year::max()))
                 Y = not_a_year;
-            bool computed = false;
             if (G != not_a_year && V != not_a_week_num && wd != not_a_weekday)
             {
+                if (G <= static_cast<int>(year::min()) || G > static_cast<int>(year::max()))
+                    goto broken;
                 year_month_day ymd_trial = sys_days(year{G-1}/December/Thursday[last]) +
                                            (Monday-Thursday) + weeks{V-1} +
                                            (weekday{static_cast<unsigned>(wd)}-Monday);
@@ -7307,7 +7308,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && U != not_a_week_num && wd != not_a_weekday)
             {
@@ -7326,7 +7326,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && W != not_a_week_num && wd != not_a_weekday)
             {
@@ -7345,11 +7344,12 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (j != not_a_doy && Y != not_a_year)
             {
                 auto ymd_trial = year_month_day{local_days(year{Y}/1/1) + days{j-1}};
+                if (year{Y} != ymd_trial.year())
+                    goto broken;
                 if (m == not_a_month)
                     m = static_cast<int>(static_cast<unsigned>(ymd_trial.month()));
                 else if (month(static_cast<unsigned>(m)) != ymd_trial.month())
@@ -7367,45 +7367,42 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     wd = static_cast<int>((weekday(sys_days(ymd)) - Sunday).count());
                 else if (wd != static_cast<int>((weekday(sys_days(ymd)) - Sunday).count()))
                     goto broken;
-                if (!computed)
+                if (G != not_a_year || V != not_a_week_num)
                 {
-                    if (G != not_a_year || V != not_a_week_num)
+                    sys_days sd = ymd;
+                    auto G_trial = year_month_day{sd + days{3}}.year();
+                    auto start = sys_days((G_trial - years{1})/December/Thursday[last]) +
+                                 (Monday - Thursday);
+                    if (sd < start)
                     {
-                        sys_days sd = ymd;
-                        auto G_trial = year_month_day{sd + days{3}}.year();
-                        auto start = sys_days((G_trial - years{1})/December/Thursday[last]) +
-                                     (Monday - Thursday);
-                        if (sd < start)
-                        {
-                            --G_trial;
-                            if (V != not_a_week_num)
-                                start = sys_days((G_trial - years{1})/December/Thursday[last])
-                                        + (Monday - Thursday);
-                        }
-                        if (G != not_a_year && G != static_cast<int>(G_trial))
-                            goto broken;
+                        --G_trial;
                         if (V != not_a_week_num)
-                        {
-                            auto V_trial = duration_cast<weeks>(sd - start).count() + 1;
-                            if (V != V_trial)
-                                goto broken;
-                        }
-                    }
-                    if (U != not_a_week_num)
-                    {
-                        auto start = sys_days(Sunday[1]/January/ymd.year());
-                        auto U_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
-                        if (U != U_trial)
-                            goto broken;
+                            start = sys_days((G_trial - years{1})/December/Thursday[last])
+                                    + (Monday - Thursday);
                     }
-                    if (W != not_a_week_num)
+                    if (G != not_a_year && G != static_cast<int>(G_trial))
+                        goto broken;
+                    if (V != not_a_week_num)
                     {
-                        auto start = sys_days(Monday[1]/January/ymd.year());
-                        auto W_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
-                        if (W != W_trial)
+                        auto V_trial = duration_cast<weeks>(sd - start).count() + 1;
+                        if (V != V_trial)
                             goto broken;
                     }
                 }
+                if (U != not_a_week_num)
+                {
+                    auto start = sys_days(Sunday[1]/January/ymd.year());
+                    auto U_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
+                    if (U != U_trial)
+                        goto broken;
+                }
+                if (W != not_a_week_num)
+                {
+                    auto start = sys_days(Monday[1]/January/ymd.year());
+                    auto W_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
+                    if (W != W_trial)
+                        goto broken;
+                }
             }
             fds.ymd = ymd;
             if (I != not_a_hour_12_value)
-- 
2.43.0


From 2d2de2529d155b3116bd40c5657417904d022bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 32/43] fix: reject numbers that do not fit instead of letting
 them wrap when parsing dates

---
 include/gul14/date.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 3725b5e..ad5c940 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -5880,7 +5880,9 @@ read_unsigned(std::basic_istream<CharT, Traits>& is, unsigned m = 1, unsigned M
             break;
         (void)is.get();
         ++count;
-        x = 10*x + static_cast<unsigned>(c - '0');
+        constexpr auto limit = static_cast<unsigned>(std::numeric_limits<int>::max());
+        const auto digit = static_cast<unsigned>(c - '0');
+        x = x > (limit - digit)/10 ? limit : 10*x + digit;  // never wraps around
         if (count == M)
             break;
     }
@@ -7360,6 +7362,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     goto broken;
                 j = not_a_doy;
             }
+            if (m < 0 || m > 12 || d < 0 || d > 31)
+                goto broken;
             auto ymd = year{Y}/m/d;
             if (ymd.ok())
             {
-- 
2.43.0


From ad17072cce674b9c455a051ae45202938b45aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 33/43] fix: reject seconds without any digit when parsing

A lone decimal point was taken for zero seconds.
---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index ad5c940..0e40bf4 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -5961,7 +5961,7 @@ read_long_double(std::basic_istream<CharT, Traits>& is, unsigned m = 1, unsigned
         if (++count == M)
             break;
     }
-    if (count < m)
+    if (count < m || (parsing_fraction && count == 1))
     {
         is.setstate(std::ios::failbit);
         return 0;
-- 
2.43.0


From bc6dad3a9fe9b5aadabd46489115e590b0ff15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 34/43] fix: reject a UTC offset with more than 59 minutes and
 do not negate an invalid offset

---
 include/gul14/date.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 0e40bf4..ff33b70 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7116,6 +7116,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                                 if ('0' <= c && c <= '9')
                                 {
                                     read(is, ru{tM, 2, 2});
+                                    if (!is.fail() && tM > 59)
+                                        is.setstate(ios::failbit);
                                     if (!is.fail())
                                         toff += minutes{tM};
                                 }
@@ -7137,13 +7139,15 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                                 {
                                     (void)is.get();
                                     read(is, ru{tM, 2, 2});
+                                    if (!is.fail() && tM > 59)
+                                        is.setstate(ios::failbit);
                                     if (!is.fail())
                                         toff += minutes{tM};
                                 }
                             }
                         }
                     }
-                    if (neg)
+                    if (neg && !is.fail())
                         toff = -toff;
                     checked_set(temp_offset, toff, not_a_offset, is);
                     command = nullptr;
-- 
2.43.0


From 6166f23f200920888e54aae0dfbe4b4983ef2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 35/43] fix: let %t match nothing at the end of the input

---
 include/gul14/date.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index ff33b70..63e03e5 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -6729,16 +6729,15 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     {
                         // %n matches a single white space character
                         // %t matches 0 or 1 white space characters
-                        auto ic = is.peek();
+                        auto ic = is.good() ? is.peek() : Traits::eof();
                         if (Traits::eq_int_type(ic, Traits::eof()))
                         {
                             ios::iostate err = ios::eofbit;
                             if (*fmt == 'n')
                                 err |= ios::failbit;
                             is.setstate(err);
-                            break;
                         }
-                        if (isspace(ic))
+                        else if (isspace(ic))
                         {
                             (void)is.get();
                         }
-- 
2.43.0


From a5975be59e873e40982892f81db0714039684ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 36/43] fix: parse a two-digit year together with a negative
 full year that is a multiple of 100

---
 include/gul14/date.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 63e03e5..9e4360b 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7252,7 +7252,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     }
                     else
                     {
-                        C = (Y >= 0 ? Y : Y-100) / 100;
+                        C = (Y >= 0 ? Y : Y-99) / 100;
                     }
                 }
                 int tY;
@@ -7280,7 +7280,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     }
                     else
                     {
-                        C = (G >= 0 ? G : G-100) / 100;
+                        C = (G >= 0 ? G : G-99) / 100;
                     }
                 }
                 int tG;
-- 
2.43.0


From b428f5c0fd683cdf8c1219fe627c16a02a780785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 37/43] fix: do not accept an invalid year_month or month_day
 when parsing

---
 include/gul14/date.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 9e4360b..9d25a49 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7555,7 +7555,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, year_month&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok())
+    if (!fds.ymd.year().ok() || !fds.ymd.month().ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         ym = fds.ymd.year()/fds.ymd.month();
@@ -7571,7 +7571,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, month_day&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok() || !fds.ymd.day().ok())
+    if (!(fds.ymd.month()/fds.ymd.day()).ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         md = fds.ymd.month()/fds.ymd.day();
-- 
2.43.0


From 7c62b542e5fa413935611cabab13ebaecf540c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:47 +0000
Subject: [PATCH 38/43] fix: do not take wide characters for digits when
 parsing dates

Characters were truncated to char before they were compared.
---
 include/gul14/date.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 9d25a49..64af327 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -5875,7 +5875,7 @@ read_unsigned(std::basic_istream<CharT, Traits>& is, unsigned m = 1, unsigned M
         auto ic = is.peek();
         if (Traits::eq_int_type(ic, Traits::eof()))
             break;
-        auto c = static_cast<char>(Traits::to_char_type(ic));
+        const CharT c = Traits::to_char_type(ic);
         if (!('0' <= c && c <= '9'))
             break;
         (void)is.get();
@@ -5898,7 +5898,7 @@ read_signed(std::basic_istream<CharT, Traits>& is, unsigned m = 1, unsigned M =
     auto ic = is.peek();
     if (!Traits::eq_int_type(ic, Traits::eof()))
     {
-        auto c = static_cast<char>(Traits::to_char_type(ic));
+        const CharT c = Traits::to_char_type(ic);
         if (('0' <= c && c <= '9') || c == '-' || c == '+')
         {
             if (c == '-' || c == '+')
@@ -5944,7 +5944,7 @@ read_long_double(std::basic_istream<CharT, Traits>& is, unsigned m = 1, unsigned
         }
         else
         {
-            auto c = static_cast<char>(Traits::to_char_type(ic));
+            const CharT c = Traits::to_char_type(ic);
             if (!('0' <= c && c <= '9'))
                 break;
             if (!parsing_fraction)
@@ -7097,7 +7097,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     auto ic = is.peek();
                     if (!Traits::eq_int_type(ic, Traits::eof()))
                     {
-                        auto c = static_cast<char>(Traits::to_char_type(ic));
+                        const CharT c = Traits::to_char_type(ic);
                         if (c == '-')
                             neg = true;
                     }
@@ -7111,7 +7111,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             ic = is.peek();
                             if (!Traits::eq_int_type(ic, Traits::eof()))
                             {
-                                auto c = static_cast<char>(Traits::to_char_type(ic));
+                                const CharT c = Traits::to_char_type(ic);
                                 if ('0' <= c && c <= '9')
                                 {
                                     read(is, ru{tM, 2, 2});
@@ -7133,7 +7133,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             ic = is.peek();
                             if (!Traits::eq_int_type(ic, Traits::eof()))
                             {
-                                auto c = static_cast<char>(Traits::to_char_type(ic));
+                                const CharT c = Traits::to_char_type(ic);
                                 if (c == ':')
                                 {
                                     (void)is.get();
-- 
2.43.0


From 3a7feb28949ad5d170e8f75f93965bdf24769344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:14 +0000
Subject: [PATCH 39/43] fix: reject dates that the target duration cannot
 represent when parsing

Parsing e.g. the year 900 into nanoseconds overflowed and stored an unrelated time point.
---
 include/gul14/date.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 64af327..cf76bce 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -6150,6 +6150,18 @@ checked_set(T& value, T from, T not_a_value, std::basic_ios<CharT, Traits>& is)
     }
 }
 
+// Determine if the sum of a day (adjusted by an offset) and a time of day can be computed in
+// both CT and Duration.
+template <class Duration, class CT, class Base>
+bool
+is_representable(Base base, CT tod)
+{
+    using ld = std::chrono::duration<long double>;
+    const ld lo = std::max(ld{Duration::min()}, ld{CT::min()});
+    const ld hi = std::min(ld{Duration::max()}, ld{CT::max()});
+    return lo <= ld{base} && ld{base} + ld{tod} <= hi;
+}
+
 }  // namespace detail;
 
 template <class CharT, class Traits, class Duration, class Alloc = std::allocator<CharT>>
@@ -7609,6 +7621,9 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
     gul14::date::from_stream(is, fmt, fds, abbrev, offptr);
     if (!fds.ymd.ok() || !fds.tod.in_conventional_range())
         is.setstate(std::ios::failbit);
+    else if (!detail::is_representable<Duration, CT>(
+                sys_days(fds.ymd).time_since_epoch() - *offptr, fds.tod.to_duration()))
+        is.setstate(std::ios::failbit);
     if (!is.fail())
         tp = round_i<Duration>(sys_days(fds.ymd) - *offptr + fds.tod.to_duration());
     return is;
@@ -7627,6 +7642,9 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
     if (!fds.ymd.ok() || !fds.tod.in_conventional_range())
         is.setstate(std::ios::failbit);
+    else if (!detail::is_representable<Duration, CT>(
+                local_days(fds.ymd).time_since_epoch(), fds.tod.to_duration()))
+        is.setstate(std::ios::failbit);
     if (!is.fail())
         tp = round_i<Duration>(local_seconds{local_days(fds.ymd)} + fds.tod.to_duration());
     return is;
-- 
2.43.0


From 9afcd2b194711561ebe5682593b44359887a0bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:53 +0000
Subject: [PATCH 40/43] fix: reject seconds that overflow the target duration
 when parsing

---
 include/gul14/date.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index cf76bce..0d97637 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -6868,6 +6868,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                         constexpr const auto w = Duration::period::den == 1 ? 2 : 3 + dfs::width;
                         long double S{};
                         read(is, rld{S, 1, width == -1 ? w : static_cast<unsigned>(width)});
+                        if (duration<long double>{S} > Duration::max() / 2)
+                            goto broken;
                         checked_set(s, round_i<Duration>(duration<long double>{S}),
                                     not_a_second, is);
                     }
@@ -6903,6 +6905,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                         long double S{};
                         read(is, ru{tH, 1, 2}, CharT{':'}, ru{tM, 1, 2},
                                                CharT{':'}, rld{S, 1, w});
+                        if (duration<long double>{S} > Duration::max() / 2)
+                            goto broken;
                         checked_set(H, tH, not_a_hour, is);
                         checked_set(M, tM, not_a_minute, is);
                         checked_set(s, round_i<Duration>(duration<long double>{S}),
-- 
2.43.0


From bfd0aea2fea6a46e6d60d4a580f410df612bb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:50 +0000
Subject: [PATCH 41/43] fix: adding a task from a task must not destroy the
 ThreadPool in its own thread

---
 include/gul14/ThreadPool.h | 13 +++++++++----
 src/ThreadPool.cc          |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 1485edc..b39c5b0 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -151,11 +151,10 @@ public:
          * \param id      Unique ID of the task
          * \param future  A std::future that will eventually contain the result of the
          *                task
-         * \param pool    A shared pointer to the ThreadPool that the task is associated
-         *                with
+         * \param pool    A pointer to the ThreadPool that the task is associated with
          * \param started A flag that is set as soon as the task gets started
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+        TaskHandle(TaskId id, std::future<T> future, std::weak_ptr<ThreadPool> pool,
                    std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , id_{ id }
@@ -338,8 +337,11 @@ public:
                 auto named_task_ptr = std::make_unique<NamedTaskImpl<PackagedTask>>(
                     PackagedTask{ std::move(fct) }, std::move(name));
 
+                // A task may add another task while the last owner releases the pool.
+                // Even temporary ownership (shared_from_this()) might therefore cause the
+                // pool to be destroyed in one of its own threads.
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    next_task_id_, named_task_ptr->fct_.get_future(), self_,
                     named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
@@ -525,6 +527,9 @@ private:
 
     std::size_t capacity_{ 0 };
 
+    /// A non-owning pointer to this object that is handed out to the task handles.
+    std::weak_ptr<ThreadPool> self_;
+
     /**
      * The threads in the pool. This variable is only modified in the constructor and not
      * protected by the mutex.
diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index f9f0fa9..d3c2f2e 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -179,7 +179,9 @@ std::shared_ptr<ThreadPool> ThreadPool::make_shared(
     std::size_t num_threads, std::size_t capacity)
 {
     // We cannot use std::make_shared() because the constructor is private.
-    return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity));
+    std::shared_ptr<ThreadPool> pool(new ThreadPool(num_threads, capacity));
+    pool->self_ = pool;
+    return pool;
 }
 
 void ThreadPool::perform_work()
-- 
2.43.0


From e9090b09b91a70242bd0138364dfb582fa2d8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:40 +0000
Subject: [PATCH 42/43] fix: type_name() truncated the description at a
 semicolon inside the type's own name

The name of a type such as foo<';'> ended at the semicolon, so that different
types got the same, incomplete name. Cut at the last separator instead.
---
 include/gul14/type_name.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gul14/type_name.h b/include/gul14/type_name.h
index 54bdd85..5ee7346 100644
--- a/include/gul14/type_name.h
+++ b/include/gul14/type_name.h
@@ -98,7 +98,9 @@ constexpr string_view type_name()
     auto const start_idx = s.find(" = ") + 3; // len(" = ") == 3
     s.remove_prefix(start_idx);
 
-    auto const colon_idx = s.find(";");
+    // The description of T may itself contain semicolons (e.g. "foo<';'>"), so look for the
+    // last separator only.
+    auto const colon_idx = s.rfind("; ");
     auto const suff_length =
         (colon_idx != string_view::npos) ? s.length() - colon_idx : 1; // len("]") == 1
     s.remove_suffix(suff_length);
-- 
2.43.0


From 21dbd5d261a8e42eb1eafe8d6ea9fb508a707856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:56 +0000
Subject: [PATCH 43/43] fix: objects returned by hexdump_stream() for iterators
 and containers could not be copied or stored

Their iterator type was const, so that the copy and move operations of
HexdumpParameterForward did not compile; not even 'auto h = hexdump_stream(v);'
was possible.
---
 include/gul14/hexdump.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/hexdump.h b/include/gul14/hexdump.h
index 94b4c8b..412cf7a 100644
--- a/include/gul14/hexdump.h
+++ b/include/gul14/hexdump.h
@@ -419,7 +419,7 @@ debug -> 000000: 74 65 73 74 0a 74 68 65 20 c3 84 20 77 65 73 74  test.the .. we
  */
 template<typename IteratorT,
     typename = std::enable_if_t<detail::IsHexDumpIterator<IteratorT>::value>>
-HexdumpParameterForward<const IteratorT>
+HexdumpParameterForward<IteratorT>
 hexdump_stream(const IteratorT& begin, const IteratorT& end, std::string prompt = "")
 {
     return { begin, end, std::move(prompt), nullptr };
@@ -435,7 +435,7 @@ hexdump_stream(const IteratorT& begin, const IteratorT& end, std::string prompt
  */
 template<typename ContainerT,
     typename = std::enable_if_t<detail::IsHexDumpContainer<ContainerT>::value>>
-HexdumpParameterForward<const decltype(std::declval<ContainerT>().cbegin())>
+HexdumpParameterForward<decltype(std::declval<ContainerT>().cbegin())>
 hexdump_stream(const ContainerT& cont, std::string prompt = "")
 {
     return { cont.cbegin(), cont.cend(), std::move(prompt), nullptr };
-- 
2.43.0

