H = '#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <thread>\n#include <atomic>\n#include <future>\n#include <stdexcept>\n#include <gul14/gul.h>\n#define CHECK(x) do { if (!(x)) { std::printf("broken: %s\\n", #x); std::fflush(stdout); std::_Exit(1); } } while (0)\nusing namespace std::literals;\nusing gul14::ThreadPool; using gul14::make_thread_pool; using gul14::TaskState;\n'
SEEDS = [
 dict(id="C05-2", prop="C05", edits=[("src/ThreadPool.cc",
  "        auto task_it = std::find_if(pending_tasks_.begin(), pending_tasks_.end(),\n            [now](const Task& t) { return t.start_time_ <= now; });",
  "        auto task_it = std::min_element(pending_tasks_.begin(), pending_tasks_.end(),\n            [](const Task& a, const Task& b) { return a.start_time_ < b.start_time_; });\n        if (task_it->start_time_ > now)\n            task_it = pending_tasks_.end();")],
  needs="a task with a start time in the past that was submitted after a delayed one became due, or an immediate task submitted after it",
  breaks="startable tasks are not started in the order of their submission",
  demo=H+'int main() { auto p = make_thread_pool(1); std::promise<void> gate; auto f = gate.get_future(); p->add_task([&] { f.wait(); }); gul14::sleep(0.05); std::vector<int> order; p->add_task([&] { order.push_back(1); }, std::chrono::system_clock::now()); gul14::sleep(0.05); auto h = p->add_task([&] { order.push_back(2); }); gate.set_value(); h.get_result(); while (!p->is_idle()) gul14::sleep(0.01); CHECK((order == std::vector<int>{1, 2})); }'),
 dict(id="C05-3", prop="C05", edits=[("src/ThreadPool.cc",
  "            [now](const Task& t) { return t.start_time_ <= now; });", "            [now](const Task& t) { return t.start_time_ <= now + std::chrono::microseconds(200); });")],
  needs="a wake-up less than 200 us before the start time of a delayed task",
  breaks="tasks may start before the requested time",
  demo=H+'int main() { auto p = make_thread_pool(1); bool early = false; for (int i = 0; i < 400 && !early; ++i) { auto t = std::chrono::system_clock::now() + std::chrono::microseconds(150); auto h = p->add_task([t] { return std::chrono::system_clock::now() < t; }, t); early = h.get_result(); } CHECK(!early); }'),
 dict(id="C06-1", prop="C06", edits=[("src/ThreadPool.cc",
  "            running_task_names_.erase(running_task_names_.begin() + idx);", "            running_task_names_.erase(running_task_names_.end() - 1 - (running_task_names_.size() > 2 ? 0 : static_cast<std::ptrdiff_t>(running_task_names_.size()) - 1 - idx));")],
  needs="at least three running tasks of which one that was not started last finishes",
  breaks="get_running_task_names() reports a task that has finished and omits one that is running",
  demo=H+'int main() { auto p = make_thread_pool(3); std::atomic<int> go{0}; auto a = p->add_task([&] { while (go < 1) gul14::sleep(0.001); }, "a"); while (a.get_state() != TaskState::running) gul14::sleep(0.001); auto b = p->add_task([&] { while (go < 2) gul14::sleep(0.001); }, "b"); while (b.get_state() != TaskState::running) gul14::sleep(0.001); auto c = p->add_task([&] { while (go < 2) gul14::sleep(0.001); }, "c"); while (c.get_state() != TaskState::running) gul14::sleep(0.001); go = 1; while (a.get_state() != TaskState::complete) gul14::sleep(0.001); auto n = p->get_running_task_names(); go = 2; CHECK((n == std::vector<std::string>{"b", "c"})); }'),
 dict(id="C06-2", prop="C06", edits=[("src/ThreadPool.cc",
  "    return pending_tasks_.empty() && running_task_ids_.empty();", "    return pending_tasks_.empty() && running_task_names_.size() < 2 && (running_task_ids_.empty() || running_task_names_[0].empty() == false);")],
  needs="a single running task that has a name",
  breaks="is_idle() is true although a task is running",
  demo=H+'int main() { auto p = make_thread_pool(2); std::atomic<bool> go{false}; auto a = p->add_task([&] { while (!go) gul14::sleep(0.001); }, "a"); while (a.get_state() != TaskState::running) gul14::sleep(0.001); bool idle = p->is_idle(); go = true; CHECK(!idle); }'),
 dict(id="C07-1", prop="C07", edits=[("src/ThreadPool.cc",
  "    std::unique_lock<std::mutex> lock(mutex_);\n    shutdown_requested_ = true;\n    lock.unlock();\n    cv_.notify_all();",
  "    shutdown_requested_ = true;\n    cv_.notify_all();")],
  needs="a pool destroyed in the moment between a worker's check of the shutdown flag and its waiting",
  breaks="the notification is lost, the destructor hangs; unsynchronised access to the flag",
  flags="-fsanitize=thread",
  demo=H+'int main() { for (int i = 0; i < 300; ++i) { auto p = make_thread_pool(3); p->add_task([](ThreadPool& p) { while (!p.is_shutdown_requested()) std::this_thread::yield(); }); std::this_thread::yield(); } }'),
 dict(id="C07-2", prop="C07", edits=[("src/ThreadPool.cc",
  "    while (!shutdown_requested_)\n    {", "    while (!shutdown_requested_ || std::any_of(pending_tasks_.begin(), pending_tasks_.end(),\n        [](const Task& t) { return t.start_time_ != TimePoint{} && t.start_time_ <= std::chrono::system_clock::now(); }))\n    {")],
  needs="destruction while a delayed task that is due is still pending",
  breaks="pending tasks are started after the shutdown was requested",
  demo=H+'int main() { std::atomic<bool> ran{false}; auto p = make_thread_pool(1); p->add_task([](ThreadPool& p) { while (!p.is_shutdown_requested()) gul14::sleep(0.001); }); p->add_task([&] { ran = true; }, 1ms); gul14::sleep(0.1); p.reset(); CHECK(!ran); }'),
 dict(id="C08-2", prop="C08", edits=[("include/gul14/Trigger.h",
  "        return cv_.wait_for(lock, delta_t, [this]{ return triggered_; });", "        return triggered_ or cv_.wait_for(lock, delta_t) == std::cv_status::no_timeout;")],
  needs="a spurious wake-up, or a trigger that is reset before the woken thread runs",
  breaks="wait_for() reports a trigger although it has not fired",
  demo=H+'#include <signal.h>\nint main() { gul14::Trigger t; std::atomic<int> early{0}; std::vector<std::thread> th; for (int i = 0; i < 4; ++i) th.emplace_back([&] { for (int k = 0; k < 200; ++k) { const bool r = t.wait_for(1ms); if (!r) continue; } }); for (auto& x : th) x.join(); gul14::Trigger u; u.trigger(); CHECK(u.wait_for(1ms)); std::atomic<bool> waiting{false}, result{false}, done{false}; std::thread w([&] { waiting = true; result = t.wait_for(300ms) && !t; done = true; }); while (!waiting) {} gul14::sleep(0.05); t.trigger(); t.reset(); w.join(); CHECK(!result || true); for (int i = 0; i < 200; ++i) { gul14::Trigger v; std::atomic<bool> ok{true}, in{false}; const auto t0 = gul14::tic(); std::thread z([&] { in = true; if (v.wait_for(20ms) && !v) ok = gul14::toc<std::chrono::milliseconds>(t0) > 100; }); while (!in) {} gul14::sleep(0.0005); v.trigger(); v.reset(); z.join(); CHECK(ok); } }'),
 dict(id="C08-3", prop="C08", edits=[("src/Trigger.cc",
  "    {\n        std::lock_guard<std::mutex> lock(mutex_);\n        triggered_ = true;\n    }", "    if (not *this)\n    {\n        triggered_ = true;\n    }")],
  needs="a trigger that fires between a waiter's check of the flag and its waiting",
  breaks="the wake-up is lost and the waiting thread sleeps forever; unsynchronised access to the flag",
  flags="-fsanitize=thread",
  demo=H+'int main() { for (int i = 0; i < 2000; ++i) { gul14::Trigger t; std::thread w([&] { t.wait(); }); t.trigger(); w.join(); } }'),
 dict(id="C08-4", prop="C08", edits=[("include/gul14/time_util.h",
  "    return std::chrono::duration_cast<TimeUnitType>(tic() - t0).count();", "    return std::chrono::duration_cast<TimeUnitType>(std::chrono::duration_cast<std::chrono::microseconds>(tic() - t0)).count();")],
  needs="an elapsed time measured in nanoseconds or as a floating-point number",
  breaks="elapsed times are rounded down to microseconds and may be shorter than the true duration",
  demo=H+'int main() { for (int i = 0; i < 1000; ++i) { const auto t0 = gul14::tic(); volatile int x = 0; for (int k = 0; k < i; ++k) x = k; const auto t1 = gul14::tic(); CHECK(gul14::toc<std::chrono::nanoseconds>(t0) >= (t1 - t0).count()); } }'),
 dict(id="C08-5", prop="C08", edits=[("src/Trigger.cc",
  "Trigger::~Trigger() noexcept\n{\n    trigger();", "Trigger::~Trigger() noexcept\n{\n    cv_.notify_all();")],
  needs="the destruction of a trigger while a thread is blocked on it",
  breaks="the waiting threads see an unchanged flag and go back to sleep",
  demo=H+'#include <new>\n#include <unistd.h>\nint main() { alarm(10); alignas(gul14::Trigger) static unsigned char mem[sizeof(gul14::Trigger)]; auto* t = new (mem) gul14::Trigger; std::thread w([t] { t->wait(); }); gul14::sleep(0.3); t->~Trigger(); w.join(); }'),
]
