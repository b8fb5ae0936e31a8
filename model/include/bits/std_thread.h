// Model of std::thread for the symbolic executor.  The function of a thread
// is executed in one piece, at the time chosen by the schedule in effect:
// when the thread is created (0), when it is joined (1), or at the first join
// of any thread, youngest thread first (2).  The executor records the memory
// accesses of all threads and decides whether any two of them can be
// concurrent and in conflict; without such a pair, the result does not depend
// on the schedule.
#ifndef VS_MODEL_THREAD
#define VS_MODEL_THREAD 1
#include <bits/c++config.h>
#include <bits/invoke.h>
#include <cstddef>
#include <functional>
#include <iosfwd>
#include <memory>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
#include <exception>

extern "C"
{
  int vs_thread_create (void);
  void vs_thread_begin (int);
  void vs_thread_end (int);
  void vs_thread_join (int);
  void vs_thread_detach (int);
  int vs_schedule (void);
}

namespace std
{
namespace __vs
{
struct task
{
  int id;
  bool done;
  task *next;
  task () : id (0), done (false), next (nullptr) {}
  virtual ~task () {}
  virtual void call () = 0;
  void
  run () noexcept
  {
    // bookkeeping is done outside of the thread
    const int k = id;
    done = true;
    vs_thread_begin (k);
    call ();
    vs_thread_end (k);
  }
};

template <class F> struct task_of : task
{
  F f;
  template <class... G> explicit task_of (G &&...g) : f (std::forward<G> (g)...) {}
  void
  call () override
  {
    f ();
  }
};

inline task *&
pending ()
{
  static task *list = nullptr;
  return list;
}
} // namespace __vs

class thread
{
public:
  typedef unsigned long native_handle_type;

  class id
  {
    int n;
    friend class thread;
    explicit id (int k) : n (k) {}

  public:
    id () noexcept : n (0) {}
    friend bool operator== (id a, id b) noexcept { return a.n == b.n; }
    friend bool operator!= (id a, id b) noexcept { return a.n != b.n; }
    friend bool operator< (id a, id b) noexcept { return a.n < b.n; }
  };

  thread () noexcept : t (nullptr) {}
  thread (const thread &) = delete;
  thread (thread &&o) noexcept : t (o.t) { o.t = nullptr; }

  // as in libstdc++: the stored callable with its arguments
  template <class Tuple> struct _Invoker
  {
    template <class... A> explicit _Invoker (A &&...a) : _M_t (std::forward<A> (a)...) {}
    Tuple _M_t;
    template <class> struct __result;
    template <class F, class... A> struct __result<tuple<F, A...> > : __invoke_result<F, A...> {};
    template <size_t... I>
    typename __result<Tuple>::type
    _M_invoke (_Index_tuple<I...>)
    {
      return std::__invoke (std::get<I> (std::move (_M_t))...);
    }
    typename __result<Tuple>::type
    operator() ()
    {
      return _M_invoke (typename _Build_index_tuple<tuple_size<Tuple>::value>::__type ());
    }
  };
  template <class... A> using _Call_wrapper = _Invoker<tuple<typename decay<A>::type...> >;

  template <class F, class... A,
            class = typename enable_if<!is_same<typename decay<F>::type, thread>::value>::type>
  explicit thread (F &&f, A &&...a)
  {
    start (new __vs::task_of<_Call_wrapper<F, A...> > (std::forward<F> (f), std::forward<A> (a)...));
  }

  thread &
  operator= (thread &&o) noexcept
  {
    if (t)
      std::terminate ();
    t = o.t;
    o.t = nullptr;
    return *this;
  }

  thread &operator= (const thread &) = delete;

  ~thread ()
  {
    if (t)
      std::terminate ();
  }

  void
  swap (thread &o) noexcept
  {
    __vs::task *x = t;
    t = o.t;
    o.t = x;
  }

  bool
  joinable () const noexcept
  {
    return t != nullptr;
  }

  void
  join ()
  {
    if (!t)
      std::terminate ();
    if (vs_schedule () == 2)
      all ();
    finish ();
    vs_thread_join (t->id);
    delete t;
    t = nullptr;
  }

  void
  detach ()
  {
    if (!t)
      std::terminate ();
    finish ();
    vs_thread_detach (t->id);
    t = nullptr;
  }

  id
  get_id () const noexcept
  {
    return id (t ? t->id : 0);
  }

  native_handle_type
  native_handle ()
  {
    return 0;
  }

  static unsigned
  hardware_concurrency () noexcept
  {
    return 4;
  }

private:
  void
  start (__vs::task *x)
  {
    t = x;
    t->id = vs_thread_create ();
    t->next = __vs::pending ();
    __vs::pending () = t;
    if (vs_schedule () == 0)
      finish ();
  }

  void
  finish ()
  {
    for (__vs::task **p = &__vs::pending (); *p; p = &(*p)->next)
      if (*p == t)
        {
          *p = t->next;
          break;
        }
    if (!t->done)
      t->run ();
  }

  static void
  all ()
  {
    while (__vs::pending ())
      {
        __vs::task *x = __vs::pending ();
        __vs::pending () = x->next;
        if (!x->done)
          x->run ();
      }
  }

  __vs::task *t;
};

inline void
swap (thread &a, thread &b) noexcept
{
  a.swap (b);
}

namespace this_thread
{
inline void yield () noexcept {}
} // namespace this_thread
} // namespace std
#endif
