// Run-time support of the symbolic executor: the pieces of the C++ library
// that live in libstdc++.so (exceptions, red-black trees, standard streams).
#include <bits/vs_streams.h>
#include <exception>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <typeinfo>

namespace std
{
// --- exceptions
exception::~exception () noexcept {}
const char *
exception::what () const noexcept
{
  return "std::exception";
}
bad_alloc::~bad_alloc () noexcept {}
const char *
bad_alloc::what () const noexcept
{
  return "std::bad_alloc";
}
bad_array_new_length::~bad_array_new_length () noexcept {}
const char *
bad_array_new_length::what () const noexcept
{
  return "std::bad_array_new_length";
}
bad_exception::~bad_exception () noexcept {}
const char *
bad_exception::what () const noexcept
{
  return "std::bad_exception";
}
bad_function_call::~bad_function_call () noexcept {}
const char *
bad_function_call::what () const noexcept
{
  return "bad_function_call";
}
bad_cast::~bad_cast () noexcept {}
const char *
bad_cast::what () const noexcept
{
  return "std::bad_cast";
}

// the message is a private copy of the text
static void
vs_msg (__cow_string &m, const char *s, size_t n)
{
  char *p = new char[n + 1];
  for (size_t i = 0; i < n; ++i)
    p[i] = s[i];
  p[n] = 0;
  m._M_p = p;
}
static size_t
vs_len (const char *s)
{
  size_t n = 0;
  while (s[n])
    ++n;
  return n;
}
__cow_string::__cow_string () { _M_p = 0; }
__cow_string::__cow_string (const std::string &s) { vs_msg (*this, s.data (), s.size ()); }
__cow_string::__cow_string (const char *s, size_t n) { vs_msg (*this, s, n); }
__cow_string::__cow_string (const __cow_string &o) noexcept { vs_msg (*this, o._M_p, vs_len (o._M_p)); }
__cow_string::__cow_string (__cow_string &&o) noexcept { vs_msg (*this, o._M_p, vs_len (o._M_p)); }
__cow_string::~__cow_string () {}
__cow_string &
__cow_string::operator= (const __cow_string &o) noexcept
{
  vs_msg (*this, o._M_p, vs_len (o._M_p));
  return *this;
}
__cow_string &
__cow_string::operator= (__cow_string &&o) noexcept
{
  vs_msg (*this, o._M_p, vs_len (o._M_p));
  return *this;
}

#define VS_EXC(X)                                                                                                      \
  X::X (const string &s) : _M_msg (s) {}                                                                               \
  X::X (const char *s) : _M_msg (s, vs_len (s)) {}                                                                     \
  X::X (X &&o) noexcept : exception (), _M_msg (o._M_msg) {}                                                           \
  X &X::operator= (X &&o) noexcept                                                                                     \
  {                                                                                                                    \
    _M_msg = o._M_msg;                                                                                                 \
    return *this;                                                                                                      \
  }                                                                                                                    \
  X::X (const X &o) noexcept : exception (), _M_msg (o._M_msg) {}                                                      \
  X &X::operator= (const X &o) noexcept                                                                                \
  {                                                                                                                    \
    _M_msg = o._M_msg;                                                                                                 \
    return *this;                                                                                                      \
  }                                                                                                                    \
  X::~X () noexcept {}                                                                                                 \
  const char *X::what () const noexcept { return _M_msg._M_p; }
VS_EXC (logic_error)
VS_EXC (runtime_error)
#define VS_EXC2(X, B)                                                                                                  \
  X::X (const string &s) : B (s) {}                                                                                    \
  X::X (const char *s) : B (s) {}                                                                                      \
  X::~X () noexcept {}
VS_EXC2 (domain_error, logic_error)
VS_EXC2 (invalid_argument, logic_error)
VS_EXC2 (length_error, logic_error)
VS_EXC2 (out_of_range, logic_error)
VS_EXC2 (range_error, runtime_error)
VS_EXC2 (overflow_error, runtime_error)
VS_EXC2 (underflow_error, runtime_error)

void
__throw_logic_error (const char *s)
{
  throw logic_error (s);
}
void
__throw_length_error (const char *s)
{
  throw length_error (s);
}
void
__throw_out_of_range (const char *s)
{
  throw out_of_range (s);
}
void
__throw_out_of_range_fmt (const char *s, ...)
{
  throw out_of_range (s);
}
void
__throw_invalid_argument (const char *s)
{
  throw invalid_argument (s);
}
void
__throw_domain_error (const char *s)
{
  throw domain_error (s);
}
void
__throw_runtime_error (const char *s)
{
  throw runtime_error (s);
}
void
__throw_bad_alloc ()
{
  throw bad_alloc ();
}
void
__throw_bad_array_new_length ()
{
  throw bad_array_new_length ();
}
void
__throw_bad_function_call ()
{
  throw bad_function_call ();
}
void
__throw_bad_cast ()
{
  throw bad_cast ();
}

// --- red-black trees (an unbalanced binary search tree with the same
// interface: only the order of the elements is observable)
static _Rb_tree_node_base *
vs_inc (_Rb_tree_node_base *x) throw ()
{
  if (x->_M_right != 0)
    {
      x = x->_M_right;
      while (x->_M_left != 0)
        x = x->_M_left;
    }
  else
    {
      _Rb_tree_node_base *y = x->_M_parent;
      while (x == y->_M_right)
        {
          x = y;
          y = y->_M_parent;
        }
      if (x->_M_right != y)
        x = y;
    }
  return x;
}
_Rb_tree_node_base *
_Rb_tree_increment (_Rb_tree_node_base *x) throw ()
{
  return vs_inc (x);
}
const _Rb_tree_node_base *
_Rb_tree_increment (const _Rb_tree_node_base *x) throw ()
{
  return vs_inc (const_cast<_Rb_tree_node_base *> (x));
}
static _Rb_tree_node_base *
vs_dec (_Rb_tree_node_base *x) throw ()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    x = x->_M_right;
  else if (x->_M_left != 0)
    {
      _Rb_tree_node_base *y = x->_M_left;
      while (y->_M_right != 0)
        y = y->_M_right;
      x = y;
    }
  else
    {
      _Rb_tree_node_base *y = x->_M_parent;
      while (x == y->_M_left)
        {
          x = y;
          y = y->_M_parent;
        }
      x = y;
    }
  return x;
}
_Rb_tree_node_base *
_Rb_tree_decrement (_Rb_tree_node_base *x) throw ()
{
  return vs_dec (x);
}
const _Rb_tree_node_base *
_Rb_tree_decrement (const _Rb_tree_node_base *x) throw ()
{
  return vs_dec (const_cast<_Rb_tree_node_base *> (x));
}
void
_Rb_tree_insert_and_rebalance (const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                               _Rb_tree_node_base &h) throw ()
{
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_black;
  if (left)
    {
      p->_M_left = x;
      if (p == &h)
        {
          h._M_parent = x;
          h._M_right = x;
        }
      else if (p == h._M_left)
        h._M_left = x;
    }
  else
    {
      p->_M_right = x;
      if (p == h._M_right)
        h._M_right = x;
    }
}
static void
vs_replace (_Rb_tree_node_base *u, _Rb_tree_node_base *v, _Rb_tree_node_base &h)
{
  if (h._M_parent == u)
    h._M_parent = v;
  else if (u->_M_parent->_M_left == u)
    u->_M_parent->_M_left = v;
  else
    u->_M_parent->_M_right = v;
  if (v)
    v->_M_parent = u->_M_parent;
}
_Rb_tree_node_base *
_Rb_tree_rebalance_for_erase (_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw ()
{
  if (z->_M_left == 0)
    vs_replace (z, z->_M_right, h);
  else if (z->_M_right == 0)
    vs_replace (z, z->_M_left, h);
  else
    {
      _Rb_tree_node_base *y = z->_M_right;
      while (y->_M_left)
        y = y->_M_left;
      if (y->_M_parent != z)
        {
          vs_replace (y, y->_M_right, h);
          y->_M_right = z->_M_right;
          y->_M_right->_M_parent = y;
        }
      vs_replace (z, y, h);
      y->_M_left = z->_M_left;
      y->_M_left->_M_parent = y;
    }
  // extremes
  if (h._M_parent == 0)
    {
      h._M_left = &h;
      h._M_right = &h;
    }
  else
    {
      _Rb_tree_node_base *x = h._M_parent;
      while (x->_M_left)
        x = x->_M_left;
      h._M_left = x;
      x = h._M_parent;
      while (x->_M_right)
        x = x->_M_right;
      h._M_right = x;
    }
  return z;
}

// --- strings and streams
template <>
istream &
operator>> (istream &i, string &s)
{
  istream::sentry ok (i);
  if (ok)
    {
      s.clear ();
      streambuf *b = i.rdbuf ();
      size_t w = i.width () > 0 ? size_t (i.width ()) : ~size_t (0);
      while (s.size () < w)
        {
          if (b->_g >= b->_s.size ())
            {
              i.setstate (ios_base::eofbit);
              break;
            }
          const char c = b->_s[b->_g];
          if (istream::space (c))
            break;
          s.push_back (c);
          ++b->_g;
        }
      i.width (0);
      if (s.empty ())
        i.setstate (ios_base::failbit);
    }
  return i;
}
template <>
istream &
getline (istream &i, string &s, char d)
{
  istream::sentry ok (i, true);
  if (ok)
    {
      s.clear ();
      streambuf *b = i.rdbuf ();
      bool any = false;
      for (;;)
        {
          if (b->_g >= b->_s.size ())
            {
              i.setstate (ios_base::eofbit);
              break;
            }
          const char c = b->_s[b->_g];
          ++b->_g;
          any = true;
          if (c == d)
            break;
          s.push_back (c);
        }
      if (!any)
        i.setstate (ios_base::failbit);
    }
  return i;
}

static map<string, string> &
vs_files ()
{
  static map<string, string> m;
  return m;
}
string *
vs_file (const string &name, bool create)
{
  map<string, string> &m = vs_files ();
  map<string, string>::iterator i = m.find (name);
  if (i != m.end ())
    return &i->second;
  if (!create)
    return 0;
  return &m[name];
}

static stringbuf &
vs_buf (int k)
{
  static stringbuf b0, b1, b2, b3;
  return k == 0 ? b0 : k == 1 ? b1 : k == 2 ? b2 : b3;
}
istream cin (&vs_buf (0));
ostream cout (&vs_buf (1));
ostream cerr (&vs_buf (2));
ostream clog (&vs_buf (3));

namespace __detail
{
}
}

extern "C" int
remove (const char *)
{
  return 0;
}
