H = '#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <list>\n#include <stdexcept>\n#include <gul14/gul.h>\n#define CHECK(x) do { if (!(x)) { std::printf("broken: %s\\n", #x); return 1; } } while (0)\nusing namespace std::string_literals;\n'
T = H + '''static int alive = 0, countdown = -1;
struct T { int v; static void tick() { if (countdown >= 0 && countdown-- == 0) throw std::runtime_error("x"); }
  T(int i = 0) : v(i) { tick(); ++alive; } T(const T& o) : v(o.v) { tick(); ++alive; }
  T(T&& o) noexcept(false) : v(o.v) { tick(); o.v = -1; ++alive; }
  T& operator=(const T& o) { tick(); v = o.v; return *this; } T& operator=(T&& o) noexcept(false) { tick(); v = o.v; if (&o != this) o.v = -1; return *this; }
  ~T() { --alive; } };
'''
SEEDS = [
 dict(id="C01-2", prop="C01", edits=[("include/gul14/SmallVector.h",
  "        if (new_capacity == capacity_)\n            return;", "        if (new_capacity == capacity_ || size_ == inner_capacity())\n            return;")],
  needs="a heap-allocated vector shrunk to exactly its inner capacity",
  breaks="shrink_to_fit() keeps the allocated storage",
  demo=H+'int main() { gul14::SmallVector<int, 2> a{1, 2, 3, 4, 5}; a.resize(2); a.shrink_to_fit(); CHECK(a.capacity() == 2); }'),
 dict(id="C01-3", prop="C01", edits=[("include/gul14/SmallVector.h",
  "        const auto new_size = size_ + num_elements;\n", "        const auto new_size = size_ + num_elements - (num_elements > 100u ? 1u : 0u);\n")],
  needs="a single insertion of more than 100 elements that fills the vector by exactly one more than its capacity",
  breaks="inserting many elements at once writes one element beyond the allocated storage",
  flags="-fsanitize=address",
  demo=H+'int main() { gul14::SmallVector<int, 4> a{0,1,2}; a.insert(a.begin() + 1, 150u, 99); CHECK(a.capacity() >= a.size()); CHECK(a.size() == 153); CHECK(a[152] == 2); }'),
 dict(id="C02-1", prop="C02", edits=[("include/gul14/SmallVector.h",
  "            for (auto p = data() + pos; p != data_ptr; ++p)\n                p->~ValueType();", "            for (auto p = data(); p != data_ptr; ++p)\n                p->~ValueType();")],
  needs="an element copy that throws while a range is inserted into a non-empty vector",
  breaks="existing elements are destroyed twice",
  demo=T+'int main() { { gul14::SmallVector<T, 8> a{1, 2}; std::list<T> l(3, T(5)); try { countdown = 1; a.insert(a.end(), l.begin(), l.end()); } catch (const std::runtime_error&) {} countdown = -1; } std::printf("alive %d\\n", alive); CHECK(alive == 0); }'),
 dict(id="C02-2", prop="C02", edits=[("include/gul14/SmallVector.h",
  "        if (is_storage_allocated())\n            delete[] data_ptr_;\n\n        data_ptr_ = new_memory ?", "        if (is_storage_allocated() and new_memory)\n            delete[] data_ptr_;\n\n        data_ptr_ = new_memory ?")],
  needs="shrink_to_fit() from allocated storage back to the inner storage",
  breaks="the heap block is never released",
  flags="-fsanitize=address",
  demo=H+'int main() { gul14::SmallVector<int, 2> a{1, 2, 3, 4, 5}; a.resize(1); a.shrink_to_fit(); CHECK(a.size() == 1); }'),
 dict(id="C03-1", prop="C03", edits=[("include/gul14/SlidingBuffer.h",
  "        // Vanishing\n        if (new_capacity == 0) {\n            storage_.resize(0);\n            idx_begin_ = 0;\n            idx_end_ = 0;\n            full_ = false;",
  "        // Vanishing\n        if (new_capacity == 0) {\n            storage_.resize(0);\n            idx_end_ = idx_begin_;\n            full_ = false;")],
  needs="shrinking a buffer whose first element is not at the beginning of the storage to zero capacity and growing it again",
  breaks="the indices lie outside of the new storage",
  flags="-fsanitize=address -D_GLIBCXX_ASSERTIONS",
  demo=H+'int main() { gul14::SlidingBuffer<int> b(3); for (int i = 0; i < 5; ++i) b.push_back(i); b.resize(0); b.resize(2); b.push_back(7); CHECK(b.size() == 1); CHECK(b.front() == 7); b.push_back(8); CHECK(b[1] == 8); }'),
 dict(id="C03-3", prop="C03", edits=[("include/gul14/SlidingBuffer.h",
  "            return lhs.position_ - rhs.position_;", "            return static_cast<int>(lhs.position_ - rhs.position_) % static_cast<int>(lhs.buffer_->capacity() + 1) & 0xff;")],
  needs="the distance of two iterators that is negative or greater than 255",
  breaks="iterator differences are wrong",
  demo=H+'int main() { gul14::SlidingBuffer<int> b(300); for (int i = 0; i < 300; ++i) b.push_back(i); CHECK(b.end() - b.begin() == 300); CHECK(b.begin() - b.end() == -300); }'),
 dict(id="C03-2", prop="C03", edits=[("include/gul14/SlidingBuffer.h",
  "    auto pop_front() -> void\n    {\n        increase_idx(idx_begin_);\n        full_ = false;", "    auto pop_front() -> void\n    {\n        increase_idx(idx_begin_);\n        full_ = full_ && idx_begin_ == idx_end_;")],
  needs="popping the front of a full buffer of capacity one",
  breaks="the buffer stays full after its only element was removed",
  demo=H+'int main() { gul14::SlidingBuffer<int, 1> b; b.push_back(4); b.pop_front(); CHECK(b.empty()); CHECK(b.size() == 0); }'),
 dict(id="C04-1", prop="C04", edits=[("include/gul14/SlidingBuffer.h",
  "        full_ = (this->size() >= new_capacity);", "        full_ = (this->size() > new_capacity);")],
  needs="shrinking a right-aligned buffer to exactly its number of elements",
  breaks="the buffer appears empty afterwards",
  demo=H+'int main() { gul14::SlidingBufferExposed<int> b(6); b.push_front(1); b.push_front(2); b.push_front(3); b.resize(3); CHECK(b.size() == 3); CHECK(b.filled()); }'),
]
