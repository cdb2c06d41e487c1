H = '#include <cstdio>\n#include <functional>\n#include <memory>\n#include <string>\n#include <gul14/gul.h>\n#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("broken: %s\\n", #__VA_ARGS__); return 1; } } while (0)\n'
T = "include/gul14/traits.h"; N = "include/gul14/type_name.h"
SEEDS = [
 dict(id="C34-1", prop="C34", edits=[(T, "        GUL14_INVOKE_RETURN((*std::forward<Arg>(arg)).*pmo)", "        GUL14_INVOKE_RETURN(std::move(*std::forward<Arg>(arg)).*pmo)")],
  needs="taking a data member through a pointer by value", breaks="the object behind the pointer is moved from",
  demo=H+'struct S { std::string s; };\nint main() { S s{ std::string(100, \'x\') }; std::string t = gul14::invoke(&S::s, &s); CHECK(t.size() == 100); CHECK(s.s.size() == 100); }'),
 dict(id="C34-2", prop="C34", edits=[(T, "                (std::is_base_of<T, std::decay_t<Arg>>::value", "                (std::is_same<T, std::decay_t<Arg>>::value")],
  needs="a member function of a base class called on a derived object", breaks="the call does not compile, is_invocable is false",
  demo=H+'struct B { int f() { return 4; } };\nstruct D : B {};\nint main() { CHECK(gul14::is_invocable<decltype(&B::f), D&>::value); }'),
 dict(id="C34-3", prop="C34", edits=[(T, "    : std::is_convertible<invoke_result_t<F, Args...>, R> {};", "    : std::is_constructible<R, invoke_result_t<F, Args...>> {};")],
  needs="a result type that can only be converted explicitly", breaks="is_invocable_r is true for a call that cannot be converted implicitly",
  demo=H+'struct E { explicit E(int) {} };\nint f() { return 1; }\nint main() { CHECK(!gul14::is_invocable_r<E, decltype(&f)>::value); CHECK(gul14::is_invocable_r<long, decltype(&f)>::value); }'),
]
